"""C13: prophyc ends with its outputs or with a designed diagnostic, whatever it is given."""

import random
import re

from .. import front, pyai, pysys, spec
from ..harness import run_tasks, traces
from ..pyai import BC, is_subclass

RULES = {
    'no-internal-exception': 'only the designed error (ProphycError, or Exception raised for a patch) leaves prophyc.main',
    'terminates': 'main ends within the step bound',
    'located': 'an error found in prophy text names file:line:column',
    'right-place': 'the line (and for an unknown name or an unexpected token the column) is that of the mistake',
    'outputs': 'success writes every requested output',
    'message': 'an error has a non-empty message',
}

MAIN = ('prophyc/__init__.py', 'main', '?')
OUTS = ['--python_out', '/out', '--cpp_out', '/out', '--cpp_full_out', '/out', '--prophy_out', '/out']
SUFFIXES = ['.py', '.pp.hpp', '.pp.cpp', '.ppf.hpp', '.ppf.cpp', '.prophy']
STEPS = 8000000


def designed(e):
    """ProphycError, or what the patch module raises on purpose."""
    if pysys.diagnostic(e):
        return True
    cls = e.obj.cls
    if is_subclass(cls, BC['SystemExit']):
        return True
    if cls is BC['Exception']:
        return True
    plain = not any(b in (BC['ValueError'], BC['LookupError'], BC['AttributeError'], BC['TypeError'], BC['AssertionError'],
                          BC['RuntimeError'], BC['ArithmeticError'], BC['OSError'], BC['NameError'], BC['SyntaxError'])
                    for b in cls.mro)
    w = e.where()
    return plain and w is not None and w[0].endswith('patch.py')


def judge(res, files, args, what, located=None, cwd='/w', steps=STEPS):
    def hang(w):
        res.bad('terminates', w or MAIN, 'no end within %d steps' % steps, what)

    got = traces(lambda: pysys.compile_text(files, args, cwd), res, what, steps=steps, hang=hang)
    for p, c, e in got:
        e = e or c.exc
        if e is None:
            res.ok('terminates')
            missing = [o for o in outputs(args) if o not in c.written]
            if missing:
                res.bad('outputs', MAIN, 'succeeds without writing %s' % missing[0], what)
            else:
                res.ok('outputs')
            continue
        res.ok('terminates')
        if not designed(e):
            res.bad('no-internal-exception', pysys.exc_at(e) or MAIN, pysys.exc_text(e), what)
            continue
        res.ok('no-internal-exception')
        text = message(e)
        if text is None:
            continue
        if not text.strip(' :\n'):
            res.bad('message', pysys.exc_at(e) or MAIN, 'empty message', what)
        else:
            res.ok('message')
        if located:
            if not re.search(r'(%s):\d+:\d+: error: \S' % '|'.join(map(re.escape, located)), text):
                res.bad('located', pysys.exc_at(e) or MAIN, 'error without file:line:column: %r' % text[:200], what)
            else:
                res.ok('located')


def message(e):
    try:
        t = pyai.str_(e.obj)
    except (pyai.PyExc, pysys.Unsupported):
        return None
    return t if isinstance(t, str) else None


_FLAG = {'--python_out': ['.py'], '--cpp_out': ['.pp.hpp', '.pp.cpp'], '--cpp_full_out': ['.ppf.hpp', '.ppf.cpp'],
         '--prophy_out': ['.prophy']}


def outputs(args):
    ins, outs, i = [], [], 0
    while i < len(args):
        if args[i] in _FLAG:
            outs += [(args[i + 1], s) for s in _FLAG[args[i]]]
            i += 1
        elif args[i] in ('-I', '-S', '-p', '--patch', '--include_dir', '--include_isar'):
            i += 1
        elif args[i] in ('--version',):
            return []
        elif not args[i].startswith('-'):
            ins.append(args[i].rsplit('/', 1)[-1].rsplit('.', 1)[0])
        i += 1
    return ['%s/%s%s' % (d, n, s) for n in ins for d, s in outs]


# ---------------------------------------------------------------------------- prophy text

BASES = [
    'const A = 3 ; const B = ( A + 2 ) * 4 - - 1 ; const C = 1 << A ; const D = 0x10 >> 1 ; const E = 010 / 3 ;',
    'enum E { E_A = 1 , E_B = E_A + 1 , E_C = 0xFF } ; struct S { E e ; u8 x [ E_B ] ; } ;',
    'typedef u16 T ; typedef T V ; struct S { T t ; V v [ 2 ] ; bytes b < 3 > ; bytes c < > ; float f ; double g ; } ;',
    'struct S { u32 n ; i16 x < @ n > ; i64 * o ; u8 y < 4 > ; bytes z < ... > ; } ;',
    'struct N { u8 a ; u64 b ; } ; struct S { N n ; N m [ 2 ] ; N * o ; N d < > ; N g < ... > ; } ;',
    'union U { 1 : u8 a ; 2 : u64 b ; 3 : i32 c ; } ; struct S { U u ; U v < > ; } ;',
    'struct N { u8 x < > ; } ; struct S { N n ; u16 y ; N z < > ; } ; typedef S R ; struct Q { R r ; } ;',
]
VOCAB = ['const', 'enum', 'typedef', 'struct', 'union', 'u8', 'i64', 'float', 'bytes', 'X', 'A', 'S', 'E', 'N', 'E_A', 'n', '0',
         '1', '-1', '08', '0x', '0xFFFFFFFFFFFFFFFF1', '99999999999', '+', '-', '*', '/', '(', ')', '[', ']', '{', '}', '<',
         '>', '<<', '>>', ';', ':', '=', ',', '...', '@', '#', '"x"', '$', '"', '//', '/*', '*/', '\x00', '\xe9', '\t', '\r',
         '_', '\'', '#include', '#include "m.prophy"', '.', '1.5', '1e3']
STRUCTURE = [
    'struct S { S s ; } ;', 'struct S { S * s ; } ;', 'struct S { S s < > ; } ;', 'union U { 1 : U u ; } ;', 'typedef T T ;',
    'struct A { B b ; } ; struct B { A a ; } ;', 'const A = A ;', 'const A = B ; const B = A ;', 'enum E { A = A } ;',
    'enum E { A = B , B = 1 } ;', 'enum E { A = 1 , A = 2 } ;', 'enum E { A = 1 , B = 1 } ;', 'enum E { } ;', 'struct S { } ;',
    'union U { } ;', 'const A = 1 / 0 ;', 'const A = 1 << 64 ;', 'const A = 1 << - 1 ;', 'const A = 1 << 100000 ;',
    'const A = 1 >> - 1 ;', 'const A = 1 % 2 ;',
    'struct S { u8 x [ 0 ] ; } ;', 'struct S { u8 x [ - 1 ] ; } ;', 'struct S { u8 x < 0 > ; } ;', 'struct S { u8 x [ N ] ; } ;',
    'struct S { u8 x [ 1 / 0 ] ; } ;', 'struct S { u8 x [ 99999999999999999999 ] ; } ;', 'struct S { u8 a ; u8 a ; } ;',
    'struct S { u8 x < @ n > ; } ;', 'struct S { u8 x < @ x > ; } ;', 'struct S { u8 x < @ n > ; u8 n ; } ;',
    'struct S { float n ; u8 x < @ n > ; } ;', 'struct S { u8 * n ; u8 x < @ n > ; } ;', 'struct S { u8 n [ 2 ] ; u8 x < @ n > ; } ;',
    'struct S { u8 x < ... > ; u8 y ; } ;', 'struct S { bytes x < ... > ; } ; struct T { S s ; u8 x ; } ;',
    'struct S { bytes x < ... > ; } ; struct T { S s [ 2 ] ; } ;', 'struct S { bytes x < ... > ; } ; struct T { S * s ; } ;',
    'struct S { bytes x < ... > ; } ; struct T { S s < > ; } ;', 'struct S { u8 x < > ; } ; struct T { S s [ 2 ] ; } ;',
    'struct S { u8 x < > ; } ; struct T { S * s ; } ;', 'struct S { u8 x < > ; } ; struct T { S s < 2 > ; } ;',
    'struct S { u8 x < > ; } ; union U { 1 : S s ; } ;', 'union U { 1 : u8 a ; 1 : u8 b ; } ;',
    'union U { 1 : u8 a ; 2 : u8 a ; } ;', 'union U { - 1 : u8 a ; } ;', 'union U { 4294967296 : u8 a ; } ;',
    'union U { 1 : bytes a ; } ;', 'union U { 1 : u8 a [ 2 ] ; } ;', 'union U { 1 : u8 a < > ; } ;', 'union U { 1 : u8 * a ; } ;',
    'union U { X : u8 a ; } ;', 'union U { 1 / 0 : u8 a ; } ;', 'enum E { A = 4294967296 } ;', 'enum E { A = - 1 } ;',
    'enum E { A = 1 / 0 } ;', 'struct u8 { u8 x ; } ;', 'const X = Y ;', 'const X = S ; struct S { u8 x ; } ;',
    'struct S { u8 x ; } ; const X = S ;', 'struct S { A x ; } ; const A = 1 ;', 'const A = 1 ; struct S { A x ; } ;',
    'const A = 1 ; const A = 2 ;', 'typedef u8 A ; typedef u8 A ;', 'typedef A B ;', 'typedef bytes A ; struct S { A x ; } ;',
    'struct S { bytes x ; } ;', 'struct S { bytes * x ; } ;', 'struct S { u8 S ; } ;', 'struct struct { u8 x ; } ;',
    'const A = 1', 'const A = ;', 'struct S { u8 x } ;', 'struct S { u8 x ; }', ';', '{', '}', '', ' ', '\n\n', '// x', '/* x */',
    '/* x', '/*', '"', '#', '# include', '#include', '#include x', '#include "x', '#include ""', '#include "."', '#include ".."',
    '#include "/"', '#include "m.prophy"', '#include "none.prophy"', '#include "a\x00b"', '#pragma "x"', '﻿const A = 1;',
    'struct S { u32 n ; u8 x < @ n > ; u8 y < @ n > ; } ;', 'enum E { A = 1 } ; struct S { E n ; u8 x < @ n > ; } ;',
    'typedef u8 T ; struct S { T n ; u8 x < @ n > ; } ;', 'typedef float T ; struct S { T n ; u8 x < @ n > ; } ;',
    'struct S { u8 x < > ; u8 num_of_x ; } ;', 'struct S { u8 num_of_x ; u8 x < > ; } ;', 'const A = ' + '( ' * 200 + '1' + ' )' * 200 + ' ;',
    'const A = ' + '- ' * 300 + '1 ;', 'const A = ' + ' + '.join(['1'] * 400) + ' ;', 'struct S { u8 discriminator ; } ;',
    'const A = 0x ;', 'const A = 08 ;', 'const A = 1.5 ;', 'const A = 1e3 ;', 'const A = \'a\' ;', 'const \xe9 = 1 ;', 'const A = ١ ;',
]


# the parser goes on after a mistake: a wrong expression within a larger one, a wrong definition which later ones use
WRONG = ['1 / 0', '1 << 64', '1 << - 1', '1 >> - 1', 'NN']
WITHIN = ['%s', '( %s ) + 1', '2 * ( %s )', '- ( %s )', '1 << ( %s )', '( %s ) >> 1', '( %s ) / 2', '1 / ( %s )', '( %s ) - ( %s )']
PLACES = ['const A = %s ; const B = A + 1 ; struct S { u8 x [ B ] ; } ;', 'enum E { A = %s , B = A + 1 } ; struct S { E e ; } ;',
          'union U { %s : u8 a ; } ; struct S { U u ; } ;', 'struct S { u8 x [ %s ] ; } ; struct T { S s [ 2 ] ; } ;',
          'struct S { bytes x < %s > ; } ; union V { 1 : S s ; } ;']
USES = ['const Z = C + 1 ;', 'const Z = A * 2 ;', 'typedef S TS ; struct Z { TS s ; } ;', 'struct Z { S s ; S t < > ; } ;',
        'struct Z { U u [ 2 ] ; U * v ; } ;', 'struct Z { E e ; E f < 3 > ; u8 n ; } ;', 'struct Z { T t ; T n ; u8 x < @ n > ; } ;',
        'struct Z { u8 x [ C ] ; } ; union Y { A : u8 a ; } ;', 'union Z { 1 : S s ; 2 : U u ; 3 : E e ; 4 : T t ; } ;']


def follow_ups():
    out = []
    for p in PLACES:
        for w in WITHIN:
            for x in WRONG:
                out.append(p % w.replace('%s', x))
    for m in MISTAKES:
        for u in USES:
            out.append('%s %s' % (m.replace('|', ''), u))
    return out


def prophy_texts(ctx):
    r = random.Random('C13 prophy %s' % ctx.seed)
    out = list(STRUCTURE) + follow_ups()
    for b in BASES:
        toks = b.split(' ')
        for i in range(len(toks)):
            out.append(' '.join(toks[:i] + toks[i + 1:]))
            out.append(' '.join(toks[:i] + [toks[i]] + toks[i:]))
            out.append(' '.join(toks[:i]))
            if i + 1 < len(toks):
                out.append(' '.join(toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:]))
            for v in r.sample(VOCAB, 6 if ctx.quick else 30):
                out.append(' '.join(toks[:i] + [v] + toks[i + 1:]))
            for v in r.sample(VOCAB, 2 if ctx.quick else 10):
                out.append(' '.join(toks[:i] + [v] + toks[i:]))
    for k in range(300 if ctx.quick else 4000):
        n = r.randint(1, 25)
        out.append(' '.join(r.choice(VOCAB) for _ in range(n)))
    for k in range(150 if ctx.quick else 2000):
        out.append(''.join(chr(r.choice([r.randrange(32, 127), r.randrange(0, 128), r.randrange(0, 0x2000)]))
                           for _ in range(r.randint(1, 30))))
    # two random edits of a base
    for k in range(400 if ctx.quick else 6000):
        toks = r.choice(BASES).split(' ')
        for _ in range(r.randint(2, 4)):
            i = r.randrange(len(toks))
            toks[i:i + r.randint(0, 2)] = r.sample(VOCAB, r.randint(0, 2))
            toks = toks or [';']
        out.append(' '.join(toks))
    seen = set()
    return [t for t in out if not (t in seen or seen.add(t))]


def prophy(res, texts):
    for t in texts:
        files = {'/w/m.prophy': t, '/w/a.prophy': 'const AA = 1;\n'}
        judge(res, files, OUTS + ['/w/m.prophy'], 'prophy text: ' + t[:600])
        # what the parser rejects is located; the generators have no positions
        judge(res, files, ['--void_out', '/w/m.prophy'], 'prophy text: ' + t[:600], located=['/w/m.prophy', '/w/a.prophy', 'm.prophy'])


# ---------------------------------------------------------------------------- where a mistake is

PREFIXES = ['', '\n', '\n\n\n', ' \t ', '\r\n', '// c\n', '// c\n\n', '\n// c\n\n\n', '// c\n// c\n', '// c\n  // c\n \n', '/* c */', '/* c\n */',
            '/* c\n\n c */\n\n', '/**/\n/* * / \n*/ ', '/* // c\n */\n// /* c\n', 'const P = 1;\n', 'const P = 1; // c\n\n',
            'const P = 1; /* c\n*/ ', 'const P =\n1\n;\n', 'struct P {\n  u8 a; // c\n\n  /* c\n  c */ u8 b;\n};\n\n', '#include "a.prophy"\n',
            '#include "a.prophy"\n\n// c\n', '// c\n#include "a.prophy"\n', 'const P = 1;\n#include "a.prophy"\n\nconst Q = 2;\n',
            'enum P { P_A = 1,\n P_B = 2 };\n', 'union P { 1: u8 a;\n\n 2: u8 b; };\n', 'const P = 1; ', 'struct P { u8 a; }; ']
# the mistake is between the bars; without bars only its line is judged
MISTAKES = ['struct S { |u9| a; };', 'struct S { u8 a; |u9| b[2]; };', 'struct S { u8 a; u8 b[|NN|]; };', 'struct S { u8 a; |u9| b<>; };',
            'struct S { |u9|* a; };', 'union U { 1: |u9| a; };', 'union U { |NN|: u8 a; };', 'enum E { A = |NN| };', 'const C = |NN|;',
            'const C = 1 + |NN|;', 'typedef |u9| T;', 'struct S { u8 a |}|;', 'const |=| 1;', 'struct |{| u8 a; };', 'const C = 1 |$| ;',
            'enum E { A |}|;', 'union U { 1 |u8| a; };', 'struct S { |}|;', 'struct S { u8 a; u8 a; };', 'const C = 1; const C = 2;',
            'typedef u8 T; typedef u8 T;', 'struct S { u8 a<@n>; };', 'struct S { u8 a<...>; u8 b; };', 'struct S { u8 a[0]; };',
            'const C = 1 / 0;', 'struct D { u8 x<>; }; struct S { D d[2]; };', 'struct D { u8 x<>; }; union U { 1: D d; };',
            'enum E { A = 1, A = 2 };', 'union U { 1: u8 a; 1: u8 b; };', 'union U { 1: u8 a; 2: u8 a; };', 'enum E { A = 0x100000000 };',
            '#include "none.prophy"', 'struct S { float n; u8 a<@n>; };', 'struct D { u8 x<...>; }; struct S { D d; u8 a; };']


def mistakes(res, items):
    for prefix, mistake, suffix in items:
        t = prefix + mistake.replace('|', '') + suffix
        what = 'prophy text: %r' % t
        for files, args in (({'/w/m.prophy': t}, ['/w/m.prophy']),
                            ({'/w/n.prophy': '\n// c\n#include "m.prophy"\n', '/w/m.prophy': t}, ['/w/n.prophy']),
                            ({'/w/b.prophy': '\n\nconst B = 1;\n', '/w/m.prophy': t}, ['/w/b.prophy', '/w/m.prophy'])):
            files['/w/a.prophy'] = '\n\nconst AA = 1;\n\n\n'
            got = traces(lambda: pysys.compile_text(files, ['--void_out'] + args, '/w'), res, what)
            for p, c, e in got:
                e = e or c.exc
                if e is None or not designed(e):
                    continue            # another rule's matter
                text = message(e)
                places = re.findall(r'(\S*m\.prophy):(\d+):(\d+): error: \S', text or '')
                if not places:
                    if args[-1].endswith('m.prophy'):
                        res.bad('located', pysys.exc_at(e) or MAIN, 'error without file:line:column: %r' % (text or '')[:200], what)
                    continue
                line = prefix.count('\n') + 1
                start = mistake.find('|')
                col = len((prefix + mistake).rpartition('|')[0].rpartition('|')[0].rpartition('\n')[2]) + 1 if start >= 0 else None
                _, l, k = places[0]
                if int(l) != line:
                    res.bad('right-place', pysys.exc_at(e) or MAIN, 'the mistake is in line %d: %r' % (line, text[:200]), what)
                elif col is not None and int(k) != col:
                    res.bad('right-place', pysys.exc_at(e) or MAIN, 'the mistake is in column %d: %r' % (col, text[:200]), what)
                else:
                    res.ok('right-place')


def mistake_texts(ctx):
    r = random.Random('C13 mistakes %s' % ctx.seed)
    out = []
    for m in MISTAKES:
        ps = PREFIXES if not ctx.quick or '|' in m else r.sample(PREFIXES, 12)
        out += [(p, m, r.choice(['', '\n', '\n\n// c\n', '\nconst Z = 1;\n', ' // c\n'])) for p in ps]
        for _ in range(6 if ctx.quick else 60):
            a, b = r.sample(PREFIXES, 2)
            if not (('P' in a or 'a.p' in a) and ('P' in b or 'a.p' in b)):
                out.append((a + b, m, '\n'))
    return out


# ---------------------------------------------------------------------------- isar XML

XML = [
    '<x><constant name="A" value="3"/><constant name="B" value="shiftLeft(1, A)"/><constant name="C" value="bitMaskOr(A, B)"/></x>',
    '<x><enum name="E"><enum-member name="E_A" value="1"/><enum-member name="E_B" value="-1"/></enum>'
    '<struct name="S"><member name="e" type="E"/><member name="a" type="u8"><dimension size="E_A"/></member></struct></x>',
    '<x><typedef name="T" primitiveType="16 bit integer unsigned"/><typedef name="V" type="T"/>'
    '<struct name="S"><member name="t" type="T"/><member name="v" type="V" optional="true"/></struct></x>',
    '<x><struct name="S"><member name="a" type="u8"><dimension size="3" isVariableSize="true"/></member>'
    '<member name="b" type="u16"><dimension isVariableSize="true" variableSizeFieldName="n" variableSizeFieldType="u8"/></member>'
    '<member name="c" type="u32"><dimension size="2" size2="3"/></member></struct></x>',
    '<x><struct name="S"><member name="n" type="u32"/><member name="a" type="u8"><dimension variableSizeFieldName="@n"/></member>'
    '<member name="numOfB" type="u32"/><member name="b" type="u8"><dimension size="THIS_IS_VARIABLE_SIZE_ARRAY"/></member></struct></x>',
    '<x><union name="U"><member name="a" type="u8" discriminatorValue="1"/><member name="b" type="u64" discriminatorValue="2"/></union>'
    '<struct name="S"><member name="u" type="U"/></struct></x>',
    '<x><include href="a.xml"/><message name="M"><member name="a" type="u8"/><member name="b" type="u8">'
    '<dimension size="3" isVariableSize="true"/></member></message></x>',
]
VALUES = ['', ' ', 'u8', 'X', 'S', 'M', 'U', 'E', 'A', '0', '1', '-1', '0x', '08', '1.5', '1/0', '(', ')', 'shiftLeft(', 'shiftLeft(1)',
          'shiftLeft(1,2,3)', 'shiftLeft(1, 2', 'bitMaskOr(shiftLeft(', 'bitMaskOr(,)', 'shiftLeft)', '@', '@n', '@x', '&quot;',
          '&#233;', 'a b', '+', '1 +', '$', '99999999999999999999', '-99999999999', 'true', 'false', 'byte', 'float',
          'THIS_IS_VARIABLE_SIZE_ARRAY', 'self.xml', 'a.xml', 'none.xml', '.', '/', 'r32', '1 &lt;&lt; 70', '1 &lt;&lt; -1']
ATTRS = ['name', 'type', 'value', 'size', 'size2', 'isVariableSize', 'variableSizeFieldName', 'variableSizeFieldType', 'optional',
         'href', 'discriminatorValue', 'primitiveType', 'comment']
TAGS = ['constant', 'typedef', 'enum', 'enum-member', 'struct', 'member', 'dimension', 'union', 'message', 'include', 'x', 'y']


def xml_texts(ctx):
    r = random.Random('C13 xml %s' % ctx.seed)
    out = ['', ' ', '<', '<x', '<x>', '<x/>', '<x></y>', 'x', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="none"?><x/>',
           '<?xml version="1.0" encoding="utf-16"?><x/>', '<x>&none;</x>', '<x a="1" a="2"/>', '<x>\x00</x>', '<!-- -->',
           '<x><![CDATA[</x>', '﻿<x/>', '<?xml version="1.0" encoding="utf-8"?><x comment="\xe9"/>']
    attr = re.compile(r' ([\w]+)="([^"]*)"')
    elem = re.compile(r'<(/?)([\w-]+)([^>]*)>')
    for b in XML:
        for i in range(len(b)) if not ctx.quick else r.sample(range(len(b)), 20):
            out.append(b[:i])
        for m in attr.finditer(b):
            out.append(b[:m.start()] + b[m.end():])
            for v in VALUES:
                out.append(b[:m.start(2)] + v + b[m.end(2):])
            for a in r.sample(ATTRS, 3 if ctx.quick else 13):
                out.append(b[:m.start(1)] + a + b[m.end(1):])
        for m in elem.finditer(b):
            out.append(b[:m.start()] + b[m.end():])
            for a in r.sample(ATTRS, 3 if ctx.quick else 13):
                if not m.group(1) and a + '=' not in m.group(0):
                    out.append(b[:m.end(2)] + ' %s="%s"' % (a, r.choice(VALUES)) + b[m.end(2):])
            if m.group(0).endswith('/>'):
                out.append(b[:m.start()] + m.group(0) * 2 + b[m.end():])
                for t in TAGS:
                    out.append(b[:m.start(2)] + t + b[m.end(2):])
            elif not m.group(1):
                for t in TAGS:
                    tag = m.group(2)
                    out.append(b.replace('<%s ' % tag, '<%s ' % t).replace('<%s>' % tag, '<%s>' % t).replace('</%s>' % tag, '</%s>' % t))
    for x in ('<x><struct name="S"><member name="s" type="S"/></struct></x>',
              '<x><struct name="A"><member name="b" type="B"/></struct><struct name="B"><member name="a" type="A"/></struct></x>',
              '<x><typedef name="A" type="B"/><typedef name="B" type="A"/></x>', '<x><typedef name="A" type="A"/></x>',
              '<x><constant name="A" value="A"/></x>', '<x><constant name="A" value="B"/><constant name="B" value="A+1"/></x>',
              '<x><union name="U"><member name="u" type="U" discriminatorValue="1"/></union></x>',
              '<x><enum name="E"><enum-member name="A" value="B"/><enum-member name="B" value="A"/></enum></x>',
              '<x><struct name="S"><struct name="T"><member name="a" type="u8"/></struct></struct></x>',
              '<x><include href="b.xml"/><include href="c.xml"/></x>', '<x><include href="self.xml"/></x>',
              '<x><include href="m.xml"/></x>', '<x><struct name="S"/><enum name="E"/><union name="U"/><typedef/><constant/></x>',
              '<x><struct name="S"><member/></struct></x>', '<x><enum name="E"><enum-member/></enum></x>',
              '<x><union name="U"><member/></union></x>', '<x><struct><member name="a" type="u8"/></struct></x>',
              '<x><struct name="S"><member name="a" type="u8"><dimension/></member></struct></x>'):
        out.append(x)
    for k in range(300 if ctx.quick else 5000):
        b = r.choice(XML)
        for _ in range(r.randint(2, 3)):
            ms = list(attr.finditer(b))
            m = r.choice(ms)
            b = b[:m.start(2)] + r.choice(VALUES) + b[m.end(2):] if r.random() < 0.6 else b[:m.start()] + b[m.end():]
            if not list(attr.finditer(b)):
                break
        out.append(b)
    seen = set()
    return [t for t in out if not (t in seen or seen.add(t))]


XML_EXTRA = {'/w/a.xml': '<x><struct name="AS"><member name="a" type="u8"/></struct></x>', '/w/self.xml':
             '<x><include href="self.xml"/></x>', '/w/b.xml': '<x><include href="c.xml"/></x>',
             '/w/c.xml': '<x><include href="b.xml"/></x>'}


def isar(res, texts):
    for t in texts:
        files = dict(XML_EXTRA, **{'/w/m.xml': t})
        judge(res, files, ['--isar'] + OUTS + ['/w/m.xml'], 'isar XML: ' + t[:600])


def deep_texts(ctx):
    """Chains as long as the schema, which must not exhaust the stack."""
    out = []
    for n in (30, 250, 1100) if ctx.quick else (30, 250, 1100, 2500):
        out.append('const C0 = 1;\n' + ''.join('const C%d = C%d + 1;\n' % (i, i - 1) for i in range(1, n)))
        out.append('typedef u8 T0;\n' + ''.join('typedef T%d T%d;\n' % (i - 1, i) for i in range(1, n)) +
                   'struct S { T%d x; };\n' % (n - 1))
        out.append('struct S0 { u8 x; };\n' + ''.join('struct S%d { S%d x; };\n' % (i, i - 1) for i in range(1, n)))
        out.append('struct S0 { u8 x<>; };\n' + ''.join('struct S%d { S%d x; };\n' % (i, i - 1) for i in range(1, n)))
        out.append('enum E { ' + ', '.join('E%d = %s' % (i, 'E%d + 1' % (i - 1) if i else '0') for i in range(n)) + '};\n')
        out.append('struct S { ' + ' '.join('u8 x%d;' % i for i in range(n)) + '};\n')
        out.append('const A = ' + '(' * n + '1' + ')' * n + ';')
        out.append('const A = ' + '-' * n + '1;')
        out.append('const A = ' + ' + '.join(['1'] * n) + ';')
    for n in (30, 250) if ctx.quick else (30, 250, 1100):
        out.append('<x>%s<constant name="C%d" value="1"/></x>' % (''.join(
            '<constant name="C%d" value="C%d + 1"/>' % (i, i + 1) for i in range(n)), n))
        out.append('<x>%s<struct name="S%d"><member name="a" type="u8"/></struct></x>' % (''.join(
            '<struct name="S%d"><member name="a" type="S%d"/></struct>' % (i, i + 1) for i in range(n)), n))
        out.append('<x>%s<typedef name="T%d" type="u8"/></x>' % (''.join(
            '<typedef name="T%d" type="T%d"/>' % (i, i + 1) for i in range(n)), n))
        out.append('<x><constant name="C" value="%s1%s"/></x>' % ('shiftLeft(' * n, ', 1)' * n))
        out.append('<x><constant name="C" value="%s1%s"/></x>' % ('(' * n, ')' * n))
        out.append('%s<constant name="C" value="1"/>%s' % ('<x>' * n, '</x>' * n))
    return out


def deep(res, texts):
    for t in texts:
        if t.startswith('<'):
            files, args = {'/w/m.xml': t}, ['--isar', '--python_out', '/out', '/w/m.xml']
        else:
            files, args = {'/w/m.prophy': t}, ['--python_out', '/out', '/w/m.prophy']
        judge(res, files, args, 'deep: %d lines, %d characters: %s' % (t.count('\n'), len(t), t[:300]), steps=5 * STEPS)


# ---------------------------------------------------------------------------- patches

PATCHED = ('<x><struct name="S"><member name="n" type="u32"/><member name="a" type="u8"><dimension size="3"/></member>'
           '<member name="o" type="u16" optional="true"/><member name="t" type="T"/></struct>'
           '<union name="U"><member name="x" type="u8" discriminatorValue="1"/><member name="y" type="u16" discriminatorValue="2"/></union>'
           '<enum name="E"><enum-member name="EA" value="1"/></enum><typedef name="T" type="u8"/><constant name="C" value="2"/></x>')
ACTIONS = ['type', 'insert', 'remove', 'greedy', 'static', 'limited', 'dynamic', 'struct', 'rename', 'nothing', 'Type', '']
PARAMS = ['n', 'a', 'o', 't', 'x', 'y', 'none', '0', '1', '-1', '99', 'C', 'u8', 'u64', 'S', 'U', 'E', 'T', '(', '1/0', '$', '\xe9', '0x2',
          '1.5', 'C+1', 'n']


def patch_texts(ctx):
    r = random.Random('C13 patch %s' % ctx.seed)
    out = ['', '\n', ' \n\t\n', 'S', 'S\n', 'S type', 'S  \n', '# S type a u8', '﻿S type a u8', 'S type a u8 // x']
    for node in ('S', 'U', 'E', 'T', 'C', 'none'):
        for a in ACTIONS:
            for n in range(0, 5):
                for k in range(3 if ctx.quick else 12):
                    out.append(' '.join([node, a] + r.sample(PARAMS, n)))
                    if not n:
                        break
    for a in ('type', 'static', 'limited', 'dynamic', 'rename'):
        for p in PARAMS if not ctx.quick else r.sample(PARAMS, 14):
            for q in PARAMS if not ctx.quick else r.sample(PARAMS, 14):
                out.append('S %s %s %s' % (a, p, q))
    for p in PARAMS:
        for node in ('S', 'U', 'E', 'T', 'C'):
            for a in ('remove', 'greedy', 'rename'):
                out.append('%s %s %s' % (node, a, p))
    for i in ('0', '1', '-1', '99', '-99', 'x', '1.5', '', '0x1', '99999999999999999999'):
        for n in ('n', 'new', 'u8'):
            for t in ('u8', 'S', 'none', 'E', 'U'):
                out.append('S insert %s %s %s' % (i, n, t))
    # several rules
    for k in range(150 if ctx.quick else 2000):
        out.append('\n'.join(' '.join([r.choice(['S', 'S', 'S', 'U', 'E', 'T', 'C']), r.choice(ACTIONS[:9])] + r.sample(PARAMS, r.randint(0, 3)))
                             for _ in range(r.randint(2, 3))))
    seen = set()
    return [t for t in out if not (t in seen or seen.add(t))]


PATCHED_PROPHY = ('typedef u8 T ; const C = 2 ; enum E { EA = 1 } ; struct S { u32 n ; u8 a [ 3 ] ; u16 * o ; T t ; } ;'
                  'union U { 1 : u8 x ; 2 : u16 y ; } ;')


def patches(res, texts):
    for k, t in enumerate(texts):
        judge(res, {'/w/m.xml': PATCHED, '/w/p.txt': t}, ['--isar', '--patch', '/w/p.txt'] + OUTS + ['/w/m.xml'], 'isar patch: %r' % t)
        if k % 4 == 0:
            judge(res, {'/w/m.prophy': PATCHED_PROPHY, '/w/p.txt': t}, ['--patch', '/w/p.txt'] + OUTS + ['/w/m.prophy'],
                  'prophy patch: %r' % t)


# ---------------------------------------------------------------------------- options

def option_lists(ctx):
    r = random.Random('C13 options %s' % ctx.seed)
    out = [[], ['--version'], ['--help'], ['-h'], ['--quiet'], ['--void_out'], ['/w/m.prophy'], ['none.prophy'], ['/w'],
           ['--nothing'], ['--isar', '--sack', '/w/m.xml'], ['-I'], ['-I', 'none', '/w/m.prophy'], ['-S', '/w/m.xml', '/w/m.prophy'],
           ['-S', 'none', '/w/m.prophy'], ['--patch'], ['--patch', 'none', '/w/m.prophy'], ['--patch', '/w/p.txt', '/w/m.prophy'],
           ['--python_out'], ['--python_out', 'none', '/w/m.prophy'], ['--python_out', '/w/m.prophy', '/w/m.prophy'],
           ['--python_out=/out', '/w/m.prophy'], ['--pyt', '/out', '/w/m.prophy'], ['--', '/w/m.prophy'],
           ['--isar', '/w/m.prophy', '--void_out'], ['/w/m.xml', '--void_out'], ['--isar', '/w/m.xml', '--void_out', '--quiet'],
           ['/w/m.prophy', '/w/m.prophy', '--void_out'], ['/w/m.prophy', 'm.prophy', '--python_out', '/out'],
           ['--version', '/w/m.prophy'], ['', '--void_out'], ['/w/bad.prophy', '--void_out'], ['/w/bin.prophy', '--void_out'],
           ['--isar', '/w/bin.prophy', '--void_out'], ['--patch', '/w/bin.prophy', '--void_out', '/w/m.prophy'],
           ['/w/inc.prophy', '--void_out'], ['-S', '/w/m.xml', '--isar', '/w/m.xml', '--void_out']]
    items = ['--isar', '--quiet', '--void_out', '/w/m.prophy', '/w/m.xml', 'm.prophy', '/w/bad.prophy', '-I', '/w', '/inc', '--patch',
             '/w/p.txt', '--python_out', '--cpp_out', '--cpp_full_out', '--prophy_out', '/out', '--version', '-S', 'none', '--x',
             '/w/inc.prophy', '/w/bin.prophy']
    for k in range(300 if ctx.quick else 3000):
        out.append([r.choice(items) for _ in range(r.randint(1, 8))])
    return out


OPTION_FILES = {'/w/m.prophy': 'struct S { u8 x; };\n', '/w/m.xml': XML[1], '/w/p.txt': 'S type x u16\n', '/w/bad.prophy': 'struct {',
                '/w/bin.prophy': b'\xff\xfe\x00\x80const A = 1;', '/inc/a.prophy': 'const A = 1;\n',
                '/w/inc.prophy': '#include "bin.prophy"\n'}


def options(res, lists):
    for a in lists:
        if '-S' in a and '--sack' in a:
            continue
        judge(res, OPTION_FILES, a, 'options: %s' % ' '.join(a))


def batch(res, task):
    kind, items = task
    {'prophy': prophy, 'isar': isar, 'patch': patches, 'options': options, 'deep': deep, 'mistakes': mistakes}[kind](res, items)


def tasks(ctx):
    from . import c12
    out = []
    for kind, items, n in (('prophy', prophy_texts(ctx) + [t for t, _ in c12.breaker_texts(ctx)], 30), ('isar', xml_texts(ctx), 30), ('patch', patch_texts(ctx), 30),
                           ('options', option_lists(ctx), 40), ('mistakes', mistake_texts(ctx), 30)):
        out += [(kind, items[i:i + n]) for i in range(0, len(items), n)]
    random.Random(5).shuffle(out)
    return [('deep', [t]) for t in reversed(deep_texts(ctx))] + out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = ('Abstract interpretation of prophyc.main with its parser tables, XML reader, patch reader and option parser '
                       'over corrupted schema text, XML, patch files and command lines: every trace must end within the step bound '
                       'with all outputs or with the designed error.')
    ctx.assumptions = ['the sack (libclang) front end is not analysed', 'files can be written']
    run_tasks(ctx, batch, tasks(ctx), 'batches of inputs')
    for k, n in (('terminates', 5000), ('no-internal-exception', 3000), ('located', 1000), ('outputs', 500), ('message', 3000), ('right-place', 500)):
        ctx.floor(k, n)
