"""C12: what prophyc accepts every back end can realise; schemas breaking a composability rule are rejected."""

import random
import re

from .. import cxx, family, front, pysys, rawfam, spec
from ..family import DYNAMIC, E1, F3, F4, FIXED, N1, TU16, UNLIMITED
from ..harness import run_tasks, traces
from ..pyai import PyExc
from ..spec import BYTE, Const, Enum, M, R32, R64, Struct, Typedef, U8, U16, U32, U64, Union
from . import c13

RULES = {
    'valid-accepted': 'a schema keeping the documented rules is accepted',
    'breaker-rejected': 'a schema breaking a documented rule is rejected with a diagnostic',
    'python-usable': 'the Python module generated for an accepted schema can be imported',
    'runtime-rejected': 'the Python runtime refuses a class whose members break a rule of composition',
    'cpp-usable': 'the raw C++ sources generated for an accepted schema compile (compile-only witness)',
    'cpp-full-usable': 'the full C++ sources generated for an accepted schema compile (compile-only witness)',
}

PARSER = ('prophyc/parsers/prophy.py', 'Parser', '?')
AT = {'python': ('prophyc/generators/python.py', '_PythonTranslator', '?'), 'cpp': ('prophyc/generators/cpp.py', 'CppGenerator', '?'),
      'cpp_full': ('prophyc/generators/cpp_full.py', 'CppFullGenerator', '?')}
SUFFIX = {'cpp': '.pp', 'cpp_full': '.ppf'}


class Isar(str):
    """isar XML, completed by a patch."""
    patch = ''


def isar(defs):
    x = Isar(front.isar_text(defs))
    x.patch = front.patch_text(defs)
    return x


def compile_one(res, text, out, stem, what):
    """Compiled (with .exc) or None."""
    if isinstance(text, Isar):
        files, args = {'/w/%s.xml' % stem: str(text)}, ['--isar', pysys._OUTS[out], '/out', '/w/%s.xml' % stem]
        if text.patch:
            files['/w/p.txt'] = text.patch
            args[1:1] = ['--patch', '/w/p.txt']
    else:
        files, args = {'/w/%s.prophy' % stem: text}, [pysys._OUTS[out], '/out', '/w/%s.prophy' % stem]
    got = traces(lambda: pysys.compile_text(files, args), res, what, steps=6000000)
    if len(got) != 1:
        return None
    (p, c, e), = got
    if e is not None:
        c = pysys.Compiled()
        c.exc, c.written = e, {}
    return c


def usable(res, items, expect_ok):
    """items: (text, label, cpp_full may refuse).  Compiles, imports, and type-checks the C++ of each."""
    cpps = {'cpp': [], 'cpp_full': []}
    for k, (text, label, shared) in enumerate(items):
        stem = 's%d' % k
        for out in ('python', 'cpp', 'cpp_full'):
            what = '%s: %s' % (label, text)
            c = compile_one(res, text, out, stem, what)
            if c is None:
                continue
            if c.exc is not None:
                if expect_ok and out == 'python':
                    res.bad('valid-accepted', pysys.exc_at(c.exc) or PARSER, pysys.exc_text(c.exc), what)
                continue
            if expect_ok and out == 'python':
                res.ok('valid-accepted')
            if out == 'python':
                def load():
                    pysys.load_generated(c.world, c.written['/out/%s.py' % stem], stem)
                try:
                    got = traces(load, res, what)
                except SyntaxError as e:
                    res.bad('python-usable', AT['python'], 'generated module does not parse: %s' % e, what)
                    continue
                for p, v, e in got:
                    if e is not None:
                        res.bad('python-usable', AT['python'], pysys.exc_text(e), what)
                    else:
                        res.ok('python-usable')
            else:
                fs = cxx.outputs(c.written)
                if fs is None:
                    res.skip('generated C++ depends on unknown text', what)
                else:
                    cpps[out].append((stem, fs, what))
    for out, lst in cpps.items():
        if lst:
            witness(res, out, lst)


def witness(res, out, lst):
    rule = out.replace('_', '-') + '-usable'
    files, unit = {}, ''
    for stem, fs, what in lst:
        files.update(fs)
        unit += '#include "%s%s.cpp"\n' % (stem, SUFFIX[out])
    errors = cxx.syntax(dict(files, **{'unit.cpp': unit}), 'unit.cpp', ['-fmax-errors=0', '-Wno-sign-compare'], strict=True)
    if not errors:
        for stem, fs, what in lst:
            res.ok(rule)
        return
    if len(lst) > 1:
        broken = {f.split('.')[0] for f, _, _ in errors}
        if broken <= {stem for stem, _, _ in lst}:
            for x in lst:
                if x[0] in broken:
                    witness(res, out, [x])
                else:
                    res.ok(rule)
        else:
            for x in lst:
                witness(res, out, [x])
        return
    res.bad(rule, AT[out], '%s:%d: %s' % errors[0], lst[0][2])


def rejected(res, items):
    for text, label in items:
        what = '%s: %s' % (label, text)
        for out in ('python', 'cpp', 'cpp_full'):
            c = compile_one(res, text, out, 's', what)
            if c is None:
                continue
            if c.exc is None:
                res.bad('breaker-rejected', PARSER, 'accepted although it has %s' % label, what)
                break
            if not c13.designed(c.exc):
                res.bad('breaker-rejected', pysys.exc_at(c.exc) or PARSER, pysys.exc_text(c.exc), what)
                break
            res.ok('breaker-rejected')


# ------------------------------------------------------------------------------ the families

def closure(t):
    return spec.schema_text(spec.deps(t) + [t]) if t not in spec.deps(t) else spec.schema_text(spec.deps(t))


def prefixed(text, p):
    if isinstance(text, Isar):
        x = Isar(re.sub(r'"([A-Z]\w*)"', '"' + p + r'\1"', text))
        x.patch = re.sub(r'(?m)^', p, text.patch.rstrip('\n')) if text.patch else ''
        return x
    return re.sub(r'\b([A-Z]\w*)', p + r'\1', text)


def valid_texts(ctx):
    out = []
    for t in family.structs(family.singles()):
        out.append((t, False))
    for u in family.unions()[::7 if ctx.quick else 1]:
        out.append((Struct('X', [M('u', u)]), False))
    for t in family.externals():
        out.append((t, True))
    for t in rawfam.graded():
        out.append((t, True))
    r = random.Random('C12 %s' % ctx.seed)
    ps = family.pairs()
    for s in r.sample(ps, 60 if ctx.quick else 1200):
        out.append((family.build(s), False))
    items = [(spec.schema_text(spec.deps(t)), 'valid schema', shared) for t, shared in out]
    items += [(isar(spec.deps(t)[::-1 if k % 2 else 1]), 'valid isar schema', shared)
              for k, (t, shared) in enumerate(out[::3 if ctx.quick else 1]) if isar_can(t)]
    extra = ['const A = 1;', 'const A = -1;', 'const A = 0xFFFFFFFFFFFFFFFF;', 'const A = -0x7FFFFFFFFFFFFFFF - 1;',
             'const A = -0x80000000;', 'const A = 0x80000000;', 'const A = 0x100000000;',
             'enum E { E_A = 0, E_B = 0xFFFFFFFF };', 'enum E { E_A = 1 }; struct S { E e; };',
             'enum E { E_A = 1, E_B = 1 }; struct S { E e; };', 'enum E { E_A = 0 - 1, E_B = -0x80000000 }; struct S { E e; E f<>; };',
             'enum E { E_A = -1, E_B = 2 }; union U { 1: E e; 2: u8 x; };',
             'typedef u8 T; typedef T V; struct S { V v; V w<>; V x[2]; V y<3>; V *z; };',
             'union U { 0: u8 a; 0xFFFFFFFF: u16 b; };', 'const A = 3; enum E { E_A = A }; union U { A: u8 a; E_A + 1: u8 b; };',
             'struct S { u8 a[1]; bytes b[1]; bytes c<1>; u8 d<1>; };', 'struct S { u8 a[70000]; bytes b<70000>; };',
             'typedef float T; struct S { T t; T u<>; };', 'const A = 2; struct S { u8 x[A]; u16 y<A>; bytes z[A * 2]; };',
             'enum E { E_A = 1 }; typedef E T; struct S { T t; T *o; T a[2]; T d<>; };',
             'struct N { u8 a; }; typedef N T; struct S { T t; T *o; T a[2]; T d<>; T l<2>; T g<...>; };',
             'union N { 1: u8 a; }; typedef N T; struct S { T t; T *o; T a[2]; T d<>; T l<2>; T g<...>; };',
             'struct N { bytes a<>; }; typedef N T; struct S { T t; T d<>; T g<...>; };',
             'struct N { bytes a<...>; }; typedef N T; struct S { T t; };', 'typedef i16 T; struct S { T n; u8 x<@n>; };',
             'struct S { u32 n; u8 a<@n>; u8 m; u16 b<@m>; };', 'struct S { u8 num_of_y; u8 x<>; };']
    return [(prefixed(t, 'P%d_' % i), l, s) for i, (t, l, s) in enumerate(items + [(t, 'valid schema', False) for t in extra])]


def isar_can(t):
    """What the XML and the patch express as it stands."""
    return all(not spec.is_byte(m.type) for d in spec.deps(t) if isinstance(d, Struct) for m in d.members) and not any(
        spec.is_byte(a[2]) for d in spec.deps(t) if isinstance(d, Union) for a in d.arms)


ISAR_HEAD = (
    '<typedef name="T9" primitiveType="8 bit integer unsigned"/><typedef name="TF9" primitiveType="32 bit float"/>'
    '<enum name="E9"><enum-member name="E9_A" value="3"/></enum><struct name="S9"><member name="a" type="u8"/></struct>'
    '<union name="U9"><member name="a" type="u8" discriminatorValue="1"/></union><typedef name="TE9" type="E9"/>'
    '<constant name="A9" value="3"/><constant name="Z9" value="0"/><constant name="M9" value="-3"/>'
    '<constant name="B9" value="0x100000000"/>')


def isar_breakers():
    def add(label, body):
        for text in ('<x>%s%s</x>' % (ISAR_HEAD, body), '<x>%s%s</x>' % (body, ISAR_HEAD)):
            out.append((Isar(text), label))
    out = []
    x = '<member name="x" type="u8"><dimension variableSizeFieldName="@n"/></member>'
    for s, label in ((x, 'a missing sizer'), ('<member name="m" type="u8"/>' + x, 'a missing sizer'),
                     (x + '<member name="n" type="u8"/>', 'a sizer after its array'),
                     ('<member name="n" type="u8" optional="true"/>' + x, 'an optional sizer'),
                     ('<member name="n" type="TF9"/>' + x, 'a sizer which is not an integer'),
                     ('<member name="n" type="r64"/>' + x, 'a sizer which is not an integer'),
                     ('<member name="n" type="E9"/>' + x, 'a sizer which is not an integer'),
                     ('<member name="n" type="TE9"/>' + x, 'a sizer which is not an integer'),
                     ('<member name="n" type="S9"/>' + x, 'a sizer which is not an integer'),
                     ('<member name="n" type="U9"/>' + x, 'a sizer which is not an integer'),
                     ('<member name="n" type="u8"><dimension size="2"/></member>' + x, 'a sizer which is an array')):
        add(label, '<struct name="X">%s</struct>' % s)
    for n in ('0', '-1', 'Z9', 'M9', '1 - 1', 'Z9 * 4', '3 - 4'):
        for d in ('<dimension size="%s"/>', '<dimension size="%s" isVariableSize="true"/>', '<dimension size="2" size2="%s"/>'):
            for t in ('u8', 'S9'):
                add('a non-positive array size', '<struct name="X"><member name="x" type="%s">%s</member></struct>' % (t, d % n))
    arm = '<member name="%s" type="u8" discriminatorValue="%s"/>'
    for vs in (('1', '1'), ('3', 'A9'), ('A9', 'A9'), ('A9', 'E9_A'), ('2', '1 + 1'), ('1', '0x1'), ('shiftLeft(1, 2)', '4')):
        add('a duplicate discriminator', '<union name="X">%s</union>' % ''.join(arm % ('ab'[i], v) for i, v in enumerate(vs)))
    for v in ('4294967296', 'B9', '-1', 'M9', 'shiftLeft(1, 32)', 'B9 + 5'):
        add('a discriminator outside 32 bits', '<union name="X">%s</union>' % (arm % ('a', v)))
        add('a discriminator outside 32 bits', '<union name="X">%s%s</union>' % (arm % ('b', 7), arm % ('a', v)))
    for v in ('4294967296', 'B9', 'shiftLeft(1, 32)', 'B9 + 5'):
        add('an enumerator outside 32 bits', '<enum name="X"><enum-member name="X_A" value="%s"/></enum>' % v)
    one, two = '<member name="a" type="u8"/>', '<member name="a" type="u16"/>'
    for s in ('<struct name="X">%s%s</struct>' % (one, two), '<struct name="X">%s<member name="b" type="u8"/>%s</struct>' % (one, two),
              '<union name="X">%s%s</union>' % (arm % ('a', 1), arm % ('a', 2)),
              '<enum name="X"><enum-member name="X_A" value="1"/><enum-member name="X_A" value="2"/></enum>',
              '<constant name="X" value="1"/><constant name="X" value="2"/>',
              '<struct name="X">%s</struct><struct name="X">%s</struct>' % (one, two),
              '<struct name="X">%s</struct><union name="X">%s</union>' % (one, arm % ('a', 1)),
              '<typedef name="X" primitiveType="8 bit integer unsigned"/><struct name="X">%s</struct>' % one,
              '<enum name="X"><enum-member name="X_A" value="1"/></enum><enum name="Y"><enum-member name="X_A" value="2"/></enum>',
              '<constant name="X" value="1"/><enum name="Y"><enum-member name="X" value="2"/></enum>'):
        add('a duplicate name', s)
    return out


def breaker_texts(ctx):
    r = random.Random('C12 breakers %s' % ctx.seed)
    out, xml = [], []

    def add(label, t, head=''):
        out.append((head + (spec.schema_text(spec.deps(t)) if not isinstance(t, str) else t), label))
        if not isinstance(t, str) and isar_can(t):
            defs = spec.deps(t)
            xml.append((isar(defs[::-1] if len(xml) % 2 else defs), label))

    fixed = FIXED + [TU16, U8, U64, E1]
    tdyn = [Typedef('TD%d' % i, d) for i, d in enumerate(DYNAMIC)]
    tunl = [Typedef('TG%d' % i, g) for i, g in enumerate(UNLIMITED)]
    ndyn = [Struct('ND%d' % i, [M('a', U8), M('d', d)]) for i, d in enumerate(DYNAMIC)]
    nunl = [Struct('NG%d' % i, [M('a', U8), M('g', g)]) for i, g in enumerate(UNLIMITED)]
    nunl += [Struct('NT%d' % i, [M('g', g)]) for i, g in enumerate(tunl)]
    dyn, unl = DYNAMIC + tdyn + ndyn, UNLIMITED + tunl + nunl
    ttdyn = [Typedef('TT%d' % i, t) for i, t in enumerate(tdyn[:3])]
    ttunl = [Typedef('TX%d' % i, t) for i, t in enumerate(tunl[:3])]
    dyn, unl = dyn + ttdyn, unl + ttunl
    after = [M('z', U8), M('z', F4), M('z', U16, 'dyn'), M('z', U64, 'opt'), M('z', U8, 'fixed', 2), M('z', U8, 'greedy')]
    for i, t in enumerate(fixed + DYNAMIC + [BYTE]):
        add('a greedy array which is not last', Struct('X', [M('g', t, 'greedy'), after[i % len(after)]]))
        add('a greedy array which is not last', Struct('X', [M('a', U8), M('g', t, 'greedy'), after[(i + 1) % len(after)], M('y', U8)]))
    for i, t in enumerate(unl):
        add('an unlimited type which is not last', Struct('X', [M('g', t), after[i % len(after)]]))
        add('an unlimited type which is not last', Struct('X', [M('a', U8), M('g', t), after[(i + 2) % len(after)], M('y', U8)]))
        for kind in ('fixed', 'lim', 'dyn', 'greedy'):
            add('an array of an unlimited type', Struct('X', [M('g', t, kind, 2)]))
            add('an array of an unlimited type', Struct('X', [M('a', U16), M('g', t, kind, 3)]))
        add('an array of an unlimited type', Struct('X', [M('n', U8), M('g', t, 'ext', sizer='n')]))
        add('an optional unlimited type', Struct('X', [M('g', t, 'opt')]))
        add('an optional unlimited type', Struct('X', [M('a', U8), M('g', t, 'opt')]))
        add('an unlimited union arm', Union('X', [(1, 'a', t)]))
        add('an unlimited union arm', Union('X', [(1, 'b', U8), (2, 'a', t)]))
    for i, t in enumerate(dyn):
        for kind in ('fixed', 'lim'):
            add('a fixed or limited array of a dynamic type', Struct('X', [M('d', t, kind, 2)]))
            add('a fixed or limited array of a dynamic type', Struct('X', [M('a', U8), M('d', t, kind, 1), M('z', U16)]))
        add('an optional dynamic type', Struct('X', [M('d', t, 'opt')]))
        add('an optional dynamic type', Struct('X', [M('a', U8), M('d', t, 'opt'), M('z', U8)]))
        add('a dynamic union arm', Union('X', [(1, 'a', t)]))
        add('a dynamic union arm', Union('X', [(1, 'b', U8), (2, 'a', t), (3, 'c', U16)]))
    for t in (U8, BYTE, F4, E1):
        n = t.key if isinstance(t, spec.Prim) else t.name
        head = spec.schema_text(spec.deps(Struct('Y', [M('q', t, 'fixed', 1)])))
        for s, label in (
                ('%s x<@n>;', 'a missing sizer'), ('u8 m; %s x<@n>;', 'a missing sizer'), ('%s x<@x>;', 'a missing sizer'),
                ('%s x<@n>; u8 n;', 'a sizer after its array'), ('u8 a; %s x<@n>; u32 n; u8 b;', 'a sizer after its array'),
                ('u8* n; %s x<@n>;', 'an optional sizer'), ('u32* n; u8 y; %s x<@n>;', 'an optional sizer'),
                ('float n; %s x<@n>;', 'a sizer which is not an integer'), ('double n; %s x<@n>;', 'a sizer which is not an integer'),
                ('E9 n; %s x<@n>;', 'a sizer which is not an integer'), ('S9 n; %s x<@n>;', 'a sizer which is not an integer'),
                ('U9 n; %s x<@n>;', 'a sizer which is not an integer'), ('TF9 n; %s x<@n>;', 'a sizer which is not an integer'),
                ('TE9 n; %s x<@n>;', 'a sizer which is not an integer'), ('TS9 n; %s x<@n>;', 'a sizer which is not an integer'),
                ('u8 n[2]; %s x<@n>;', 'a sizer which is an array'), ('u8 n<>; %s x<@n>;', 'a sizer which is an array'),
                ('u8 n<3>; %s x<@n>;', 'a sizer which is an array'), ('bytes n[3]; %s x<@n>;', 'a sizer which is an array'),
                ('T9 n[2]; %s x<@n>;', 'a sizer which is an array'), ('T9* n; %s x<@n>;', 'an optional sizer'),
                ('u8 m; u8 n<@m>; %s x<@n>;', 'a sizer which is an array')):
            add(label, head + 'typedef u8 T9; enum E9 { E9_A = 1 }; struct S9 { u8 a; }; union U9 { 1: u8 a; }; typedef float TF9;'
                'typedef E9 TE9; typedef S9 TS9; struct X9 { %s };' % (s % n))
    for s in ('struct X { u8 a; u8 a; };', 'struct X { u8 a; u16* a; };', 'struct X { u8 a<>; u8 b; u8 a[2]; };',
              'struct X { u8 num_of_a; u8 a<>; };', 'struct X { u8 a<>; u8 num_of_a; };', 'struct X { u8 num_of_a<2>; bytes a<2>; };',
              'struct X { u8 a<2>; u8 b; u32 num_of_a; };',
              'union X { 1: u8 a; 2: u8 a; };', 'union X { 1: u8 a; 2: u16 b; 3: u32 a; };', 'enum X { X_A = 1, X_A = 2 };',
              'enum X { X_A = 1, X_B = 2, X_A = 1 };', 'const X = 1; const X = 1;', 'const X = 1; const X = 2;', 'struct X { u8 a; }; struct X { u8 a; };',
              'typedef u8 X; typedef u8 X;', 'struct X { u8 a; }; union X { 1: u8 a; };', 'enum X { X_A = 1 }; enum Y { X_A = 1 };',
              'const X = 1; enum Y { X = 2 };', 'enum Y { X = 2 }; const X = 1;', 'const X = 1; struct X { u8 a; };',
              'struct X { u8 a; }; const X = 1;', 'typedef u8 X; struct X { u8 a; };', 'enum X { X = 1 };', 'enum X { X_A = 1 }; struct X_A { u8 a; };',
              'struct X_A { u8 a; }; enum X { X_A = 1 };', 'typedef u8 X; const X = 3;', 'enum X { X_A = 1 }; typedef u16 X;'):
        add('a duplicate name', s)
    for s in ('1: u8 a; 1: u8 b;', '1: u8 a; 0x1: u8 b;', '1: u8 a; 2: u8 b; 1: u8 c;', '3: u8 a; A9: u8 b;', 'A9: u8 a; A9: u8 b;', 'A9: u8 a; E9_A: u8 b;',
              '1 + 1: u8 a; 2: u8 b;', '010: u8 a; 8: u16 b;', '0: u8 a; 0: u64 b;', '4 / 2: u8 a; 5: u8 c; 1 << 1: u8 b;',
              '0xFFFFFFFF: u8 a; 4294967295: u8 b;'):
        add('a duplicate discriminator', 'const A9 = 3; enum E9 { E9_A = 3 }; union X { %s };' % s)
    for n in ('0', '-1', 'Z9', 'M9', '1 - 1', 'Z9 * 4', '0x0', '00', '3 - 4', '1 / 2', '1 >> 1', '-(2)', '-100000', 'E9_Z'):
        for t in ('u8 x[%s];', 'bytes x[%s];', 'u8 x<%s>;', 'bytes x<%s>;', 'F9 x[%s];', 'F9 x<%s>;', 'u8 a; u16 x[%s]; u8 b;'):
            add('a non-positive array size', 'const Z9 = 0; const M9 = -3; enum E9 { E9_Z = 0 }; struct F9 { u16 a; u8 b; }; struct X { %s };' % (t % n))
    big = ['4294967296', '0x100000000', '1 << 32', '0xFFFFFFFF + 1', 'B9', 'B9 + 5', '0xFFFFFFFFFFFFFFFF', '99999999999999999999999', '1 << 63',
           '-2147483649', '-(1 << 32)', '-0x80000001', 'N9', '-99999999999999999999']
    for n in big:
        add('an enumerator outside 32 bits', 'const B9 = 0x100000000; const N9 = -5000000000; enum X { X_A = %s };' % n)
        add('an enumerator outside 32 bits', 'const B9 = 0x100000000; const N9 = -5000000000; enum X { X_A = 1, X_B = %s, X_C = 2 }; struct S9 { X x; };' % n)
    for n in big + ['-1', '-2', '0 - 1', '-2147483648', 'M9', '-(1)']:
        add('a discriminator outside 32 bits', 'const M9 = -3; const B9 = 0x100000000; const N9 = -5000000000; union X { %s: u8 a; };' % n)
        add('a discriminator outside 32 bits', 'const M9 = -3; const B9 = 0x100000000; const N9 = -5000000000; union X { 1: u8 b; %s: u8 a; };' % n)
    # the same inside a schema which is otherwise fine
    base = spec.schema_text(spec.deps(Struct('OK', [M('a', F4), M('b', N1, 'dyn'), M('c', DYNAMIC[0])])))
    names = set(re.findall(r'\b([A-Z]\w*)', base))
    for text, label in r.sample(out, 60 if ctx.quick else len(out)):
        if not names & set(re.findall(r'\b([A-Z]\w*)', text)):
            out.append((base + text, label))
            out.append((text + base, label))
    return out + xml + isar_breakers()


STRUCT = 'class %s(prophy.with_metaclass(prophy.struct_generator, prophy.struct)):\n    _descriptor = [%s]\n'
UNION = 'class %s(prophy.with_metaclass(prophy.union_generator, prophy.union)):\n    _descriptor = [%s]\n'
LEGAL = [('F', "('a', prophy.u32)"), ('D', "('n', prophy.u32), ('a', prophy.array(prophy.u8, bound='n'))"), ('DE', "('a', D), ('b', prophy.u8)"),
         ('DN', "('a', prophy.u8), ('b', DE)"), ('DB', "('n', prophy.u8), ('a', prophy.bytes(bound='n'))"),
         ('DD', "('n', prophy.u8), ('a', prophy.array(D, bound='n'))"), ('G', "('a', prophy.array(prophy.u8))"), ('GE', "('a', prophy.u8), ('b', G)"),
         ('GN', "('a', D), ('b', GE)"), ('GB', "('a', prophy.bytes())"), ('GD', "('a', prophy.array(DE))")]


def runtime_texts():
    """Modules whose last class breaks a rule of composition (what prophyc never generates)."""
    pre = 'import prophy\n' + ''.join(STRUCT % x for x in LEGAL) + UNION % ('U', "('a', prophy.u8, 1), ('b', F, 2)") + 'TD = D\nTG = G\n'
    out = []

    def add(form, members):
        out.append(pre + form % ('X', members))
    grown = ['D', 'DE', 'DN', 'DB', 'DD', 'TD']
    unlimited = ['G', 'GE', 'GN', 'GB', 'GD', 'TG']
    for t in grown + unlimited:
        add(STRUCT, "('a', prophy.array(%s, size=2))" % t)
        add(STRUCT, "('n', prophy.u32), ('a', prophy.array(%s, bound='n', size=2))" % t)
        add(STRUCT, "('a', prophy.optional(%s))" % t)
        add(STRUCT, "('x', prophy.u8), ('a', prophy.optional(%s)), ('y', prophy.u8)" % t)
        add(UNION, "('a', %s, 1)" % t)
        add(UNION, "('a', prophy.u8, 1), ('b', %s, 2)" % t)
        add(UNION, "('a', %s, 1), ('b', F, 2)" % t)
    for t in unlimited + ['prophy.array(prophy.u8)', 'prophy.bytes()', 'prophy.array(F)', 'prophy.array(D)']:
        for after in ('prophy.u8', 'D', 'G', 'F', 'U', 'prophy.optional(prophy.u8)', 'prophy.array(prophy.u8, size=2)', 'prophy.array(prophy.u8)'):
            add(STRUCT, "('a', %s), ('b', %s)" % (t, after))
        add(STRUCT, "('x', D), ('a', %s), ('y', prophy.u8), ('z', prophy.u8)" % t)
        add(UNION, "('a', %s, 1)" % t)
        add(STRUCT, "('a', prophy.optional(%s))" % t)
    for t in unlimited:
        add(STRUCT, "('n', prophy.u32), ('a', prophy.array(%s, bound='n'))" % t)
        add(STRUCT, "('a', prophy.array(%s))" % t)
    for a in ("prophy.array(prophy.u8, bound='n')", "prophy.bytes(bound='n')", "prophy.array(F, bound='n', size=3)",
              "prophy.array(D, bound='n')", "prophy.bytes(bound='n', size=3)"):
        add(STRUCT, "('a', %s)" % a)
        add(STRUCT, "('m', prophy.u8), ('a', %s)" % a)
        add(STRUCT, "('a', %s), ('n', prophy.u32)" % a)
        add(STRUCT, "('m', prophy.u8), ('a', %s), ('x', prophy.u8), ('n', prophy.u32)" % a)
        add(UNION, "('a', %s, 1)" % a)
        add(STRUCT, "('n', prophy.u32), ('a', prophy.optional(%s))" % a)
        for n in ('prophy.optional(prophy.u32)', 'prophy.r32', 'prophy.r64', 'F', 'U', 'D', 'prophy.array(prophy.u8, size=2)', 'prophy.bytes(size=2)'):
            add(STRUCT, "('n', %s), ('a', %s)" % (n, a))
    add(UNION, "('a', prophy.array(prophy.u8, size=2), 1)")
    add(UNION, "('a', prophy.optional(prophy.u8), 1)")
    add(UNION, "('a', prophy.u8, 1), ('b', prophy.optional(F), 2)")
    for t in ('prophy.array(prophy.u8, size=2)', 'prophy.bytes(size=2)'):
        add(STRUCT, "('a', prophy.optional(%s))" % t)
    for t in ('prophy.optional(prophy.u8)', 'prophy.optional(F)', 'prophy.bytes(size=2)', 'prophy.array(prophy.u8, size=2)'):
        for how in ('size=2', "bound='n'", "bound='n', size=2", ''):
            add(STRUCT, "('n', prophy.u8), ('a', prophy.array(%s, %s))" % (t, how))
    return out


def runtime(res, items):
    for text in items:
        what = text.rsplit('class ', 1)[-1].strip()

        def load():
            pysys.load_generated(pysys.fresh_world({}), text, 'broken')
        for p, v, e in traces(load, res, what):
            if e is None:
                res.bad('runtime-rejected', ('prophy/generators.py', 'validate', '?'), 'the class is accepted', what)
            else:
                res.ok('runtime-rejected')


def corrupted_texts(ctx):
    """One-edit corruptions; whatever of them is accepted must be usable."""
    r = random.Random('C12 corrupted %s' % ctx.seed)
    texts = [t for t in c13.prophy_texts(ctx) if '"' not in t and '#' not in t and len(t) < 400]
    texts = [prefixed(t, 'P%d_' % i) for i, t in enumerate(texts)]
    r.shuffle(texts)
    return [(t, 'corrupted schema', True) for t in texts]


def batch(res, task):
    kind, items = task
    if kind == 'valid':
        usable(res, items, True)
    elif kind == 'break':
        rejected(res, items)
    elif kind == 'runtime':
        runtime(res, items)
    else:
        # only what is accepted goes through the back ends
        good = []
        for x in items:
            c = compile_one(res, x[0], 'python', 's', x[1] + ': ' + x[0])
            if c is not None and c.exc is None:
                good.append(x)
        usable(res, good, False)


def tasks(ctx):
    out = []
    for kind, items, n in (('runtime', runtime_texts(), 60), ('valid', valid_texts(ctx), 12), ('break', breaker_texts(ctx), 40), ('corrupt', corrupted_texts(ctx), 120)):
        out += [(kind, items[i:i + n]) for i in range(0, len(items), n)]
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = ('Abstract interpretation of prophyc and of the generated Python modules, and g++ -fsyntax-only on the generated C++, '
                       'over schemas keeping the documented composability rules, schemas breaking exactly one of them in every position '
                       'the grammar allows, and corrupted schema texts which happen to be accepted.')
    ctx.assumptions = ['identifiers are no keywords of the target languages', 'a back end may refuse an accepted schema by its own diagnostic']
    run_tasks(ctx, batch, tasks(ctx), 'batches of schemas')
    for k, n in (('valid-accepted', 150), ('breaker-rejected', 1500), ('python-usable', 250), ('runtime-rejected', 150), ('cpp-usable', 250), ('cpp-full-usable', 250)):
        ctx.floor(k, n)
