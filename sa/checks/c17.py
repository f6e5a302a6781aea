"""C17: isar XML, completed by a patch, gives the wire layout the prophy language gives."""

import random

from .. import family, front, pyai, pycodec, pysys, spec
from ..harness import run_tasks, traces
from ..pyai import PyExc, get_attr
from ..spec import BYTE, Const, Enum, M, Struct, Typedef, U16, U32, U64, U8, Union
from . import c13

RULES = {
    'accepted': 'what the prophy text says is accepted when said in isar XML and a patch',
    'layout': 'size, alignment and stiffness of every definition are those computed from the prophy text',
    'python-import': 'the Python module generated from the XML can be imported',
    'encoding': 'classes generated from the XML and from the prophy text encode equal values to equal bytes',
    'ignored': 'a rule naming an absent message changes nothing',
    'inapplicable': 'a rule which cannot be applied fails the compilation',
}

AT = ('prophyc/parsers/isar.py', 'IsarParser.parse', '?')
PATCH = ('prophyc/patch.py', 'patch', '?')
SHAPES = [pycodec.FULL_SHAPES[0], pycodec.FULL_SHAPES[3]]


# ------------------------------------------------------------------------------ saying it in XML

class Writer(object):
    """Writes definitions as XML and patch, choosing among the equivalent forms."""

    def __init__(self, r):
        self.r, self.xml, self.patch, self.k = r, [], [], 0

    def fresh(self, stem):
        self.k += 1
        return '%s_%d' % (stem, self.k)

    def size(self, m):
        """Attributes of a dimension of m.size elements."""
        r, n = self.r, m.size
        forms = [dict(size=n), dict(size=hex(n)), dict(size='%d + %d' % (n - 1, 1)), dict(size=n, size2=1), dict(size=1, size2=n)]
        if n % 2 == 0:
            forms += [dict(size=n // 2, size2=2), dict(size='shiftLeft(%d, 1)' % (n // 2)), dict(size='1 + 1', size2=n // 2)]
        forms.append(dict(size='bitMaskOr(%d, %d)' % (n & 1, n & ~1)))
        if r.random() < 0.3:
            c = self.fresh('SIZE')
            self.xml.append('<constant%s/>' % front.attr(name=c, value=n))
            forms = [dict(size=c), dict(size=c, size2=1), dict(size=1, size2=c)]
        return r.choice(forms)

    def member(self, el, dim=None, **kw):
        a = front.attr(**kw)
        if dim is None:
            return '<member%s/>' % a
        return '<member%s><dimension%s/></member>' % (a, front.attr(**dim))

    def struct(self, d):
        r = self.r
        xname = d.name if r.random() < 0.7 else self.fresh('Old')
        rules = []
        tag = r.choice(['struct', 'struct', 'message'])
        if all(m.kind == 'plain' for m in d.members) and r.random() < 0.3:
            tag = 'union'
            rules.append('struct')
        discs = r.sample(range(1, 40), len(d.members))
        out = []            # (name of the member after its rules, XML)
        done = []           # members present so far, in order, after the rules given so far

        def put(name, xml):
            out.append(xml)
            done.append(name)

        late = []           # rules needing the final positions
        ext = {m.sizer for m in d.members if m.kind == 'ext'}
        for i, m in enumerate(d.members):
            t = front.tname(m.type)
            name = m.name
            if tag == 'union':
                put(name, self.member('member', name=name, type=t, discriminatorValue=discs[i]))
                continue
            if r.random() < 0.15 and name not in ext:
                name = self.fresh('old')
                late.append('rename %s %s' % (name, m.name))
            wrong, typed = t, False
            if r.random() < 0.15 and m.kind != 'lim' and not spec.is_byte(m.type):
                wrong = r.choice(['u8', 'u64', 'i16'])
                late.insert(0, 'type %s %s' % (name, t))
                typed = True
            if r.random() < 0.08:
                x = self.fresh('extra')
                put(x, self.member('member', name=x, type='u64'))
                late.insert(0, 'remove %s' % x)
            if m.kind == 'plain':
                if r.random() < 0.15 and not typed and done:
                    late.insert(0, ('insert', name, t, m))
                else:
                    put(name, self.member('member', name=name, type=wrong, optional=r.choice([None, None, 'false'])))
            elif m.kind == 'opt':
                put(name, self.member('member', name=name, type=wrong, optional=r.choice(['true', 'True', 'TRUE'])))
            elif m.kind == 'fixed':
                if r.random() < 0.6:
                    put(name, self.member('member', self.size(m), name=name, type=wrong))
                else:
                    put(name, self.member('member', r.choice([None, dict(size=7)]), name=name, type=wrong))
                    late.append(('static', name, m.size))
            elif m.kind == 'dyn':
                k = r.randrange(5)
                sizer = r.choice(['num_of_' + name, self.fresh('cnt')])
                if k == 0:
                    put(name, self.member('member', dict(isVariableSize='true'), name=name, type=wrong))
                elif k == 1:
                    put(name, self.member('member', dict(isVariableSize='true', variableSizeFieldName=sizer), name=name, type=wrong))
                elif k == 2 and tag == 'message':
                    put(name, self.member('member', dict(size=9, isVariableSize='true', variableSizeFieldType='u32'), name=name, type=wrong))
                elif k == 3:
                    x = 'numOf' + name[0].upper() + name[1:]
                    put(x, self.member('member', name=x, type='u32'))
                    put(name, self.member('member', dict(size=r.choice(['THIS_IS_VARIABLE_SIZE_ARRAY', '1 + THIS_IS_VARIABLE_SIZE_ARRAY'])),
                                          name=name, type=wrong))
                else:
                    put(sizer, self.member('member', name=sizer, type='u32'))
                    put(name, self.member('member', r.choice([None, dict(size=4)]), name=name, type=wrong))
                    late.append(('dynamic', name, sizer))
            elif m.kind == 'lim':
                sizer = r.choice(['num_of_' + name, self.fresh('cnt')])
                if r.random() < 0.5 and tag != 'message':
                    kw = r.choice([dict(), dict(variableSizeFieldName=sizer), dict(variableSizeFieldType='u32')])
                    put(name, self.member('member', dict(self.size(m), isVariableSize='true', **kw), name=name, type=wrong))
                else:
                    put(sizer, self.member('member', name=sizer, type='u32'))
                    put(name, self.member('member', self.size(m), name=name, type=wrong))
                    late.append(('limited', name, sizer))
            elif m.kind == 'ext':
                if r.random() < 0.6:
                    put(name, self.member('member', dict(variableSizeFieldName='@' + m.sizer), name=name, type=wrong))
                else:
                    put(name, self.member('member', name=name, type=wrong))
                    late.append(('dynamic', name, m.sizer))
            else:
                put(name, self.member('member', r.choice([None, dict(size=2)]), name=name, type=wrong))
                late.append(('greedy', name))
        # rules are applied in their order; a renamed member is named anew afterwards
        renames = [x for x in late if isinstance(x, str) and x.startswith('rename')]
        removes = [x for x in late if isinstance(x, str) and x.startswith('remove')]
        inserts = [x for x in late if isinstance(x, tuple) and x[0] == 'insert']
        others = [x for x in late if x not in renames and x not in removes and x not in inserts]
        r.shuffle(others)
        rules += [x if isinstance(x, str) else ' '.join(map(str, x)) for x in others]
        rules += removes
        gone = [x.split()[1] for x in removes]
        present = self.after(out, tag)
        present = [x for x in present if x not in gone]
        order = [m.name for m in d.members]
        back = {x.split()[1]: x.split()[2] for x in renames}
        for _, name, t, m in sorted(inserts, key=lambda x: order.index(x[3].name)):
            # in front of the first present member which belongs to a later one
            later = set(order[order.index(m.name) + 1:])
            at = len(present)
            for i, x in enumerate(present):
                if back.get(x, x) in later or self.owner.get(x) in {y for y in present if back.get(y, y) in later}:
                    at = i
                    break
            if at == len(present) and r.random() < 0.5:
                rules.append('insert 999 %s %s' % (name, t))
            else:
                rules.append('insert %d %s %s' % (at, name, t))
            present.insert(at, name)
        rules += renames
        if xname != d.name:
            rules.insert(r.randint(0, len(rules)), 'rename %s' % d.name)
        if tag == 'union' and any(m.kind != 'plain' for m in d.members):
            raise AssertionError
        self.xml.append('<%s name="%s">%s</%s>' % (tag, xname, ''.join(out), tag))
        self.patch += ['%s %s' % (xname, x) for x in rules]

    def after(self, out, tag):
        """Names of the model members the XML members become; self.owner maps counters to their arrays."""
        import re
        names, self.owner = [], {}
        for x in out:
            name = re.search(r'name="([^"]*)"', x).group(1)
            if 'isVariableSize' in x:
                m = re.search(r'variableSizeFieldName="([^"]*)"', x)
                c = m.group(1) if m else name + '_len'
                names.append(c)
                self.owner[c] = name
            m = re.search(r'numOf(\w)(\w*)', name)
            names.append(name)
        for x in list(names):
            # explicit counters belong to the array after them
            if x.startswith(('cnt_', 'num_of_', 'numOf')) and x not in self.owner:
                i = names.index(x)
                if i + 1 < len(names):
                    self.owner[x] = names[i + 1]
        return names

    def definition(self, d):
        r = self.r
        if isinstance(d, Struct):
            return self.struct(d)
        if isinstance(d, Union):
            xname = d.name if r.random() < 0.8 else self.fresh('Old')
            arms, rules = [], []
            for disc, n, t in d.arms:
                if r.random() < 0.2:
                    o = self.fresh('old')
                    rules.append('%s rename %s %s' % (xname, o, n))
                    n = o
                v = r.choice([disc, hex(disc), '%d + 0' % disc, 'bitMaskOr(%d, 0)' % disc])
                arms.append('<member%s/>' % front.attr(name=n, type=front.tname(t), discriminatorValue=v))
            if xname != d.name:
                rules.insert(r.randint(0, len(rules)), '%s rename %s' % (xname, d.name))
            self.xml.append('<union name="%s">%s</union>' % (xname, ''.join(arms)))
            self.patch += rules
            return
        if isinstance(d, Enum):
            def val(v):
                forms = [v, v, '%d + 0' % v if v >= 0 else v]
                if v >= 0:
                    forms += [hex(v), 'bitMaskOr(%d, %d)' % (v & 0xff, v & ~0xff)]
                if v >> 31 == 1:
                    forms += [v - (1 << 32)]
                return r.choice(forms)
            self.xml.append('<enum name="%s">%s</enum>' % (d.name, ''.join(
                '<enum-member%s/>' % front.attr(name=n, value=val(v)) for n, v in d.members)))
            return
        self.xml.append(front.definition(d))

    def text(self, defs):
        for d in defs:
            self.definition(d)
        xml = list(self.xml)
        self.r.shuffle(xml)
        return '<x>\n%s\n</x>\n' % '\n'.join(xml), ''.join(x + '\n' for x in self.patch)


# ------------------------------------------------------------------------------ deciding

def compiled(files, args):
    c = pysys.compile_text(files, args + ['--python_out', '/out'])
    c.module, c.import_exc = None, None
    if c.exc is None:
        try:
            c.module = pysys.load_generated(c.world, c.written['/out/s.py'])
        except PyExc as e:
            c.import_exc = e
    return c


def layouts(c, names):
    out = {}
    for n in pyai.iterate(dict(c.nodes)['s']):
        name = get_attr(n, 'name')
        if name in names:
            out[name] = (n.cls.name, get_attr(n, 'byte_size', None), get_attr(n, 'alignment', None), pysys.plain(get_attr(n, 'kind', None)))
    return out


def single(run, res, what):
    got = traces(run, res, what)
    if len(got) != 1:
        return None
    p, c, e = got[0]
    if e is not None:
        res.skip(pysys.exc_text(e), what)
        return None
    return c


def same(res, a, b, types, what, at=AT):
    """Compilation b agrees with a about the types."""
    if b.exc is not None:
        res.bad('accepted', pysys.exc_at(b.exc) or at, pysys.exc_text(b.exc), what)
        return
    res.ok('accepted')
    comps = [t for t in types if isinstance(t, (Struct, Union))]
    la, lb = layouts(a, {t.name for t in comps}), layouts(b, {t.name for t in comps})
    for n in sorted(la):
        if lb.get(n) != la[n]:
            res.bad('layout', at, '%s is %s, from prophy text %s' % (n, lb.get(n), la[n]), what)
        else:
            res.ok('layout')
    if b.import_exc is not None:
        res.bad('python-import', pysys.exc_at(b.import_exc) or at, pysys.exc_text(b.import_exc), what)
        return
    res.ok('python-import')
    for t in comps:
        for sh in SHAPES:
            v = pycodec.shape_value(t, sh)
            if v is None:
                continue
            encs = []
            for c in (a, b):
                cls = c.module.d.get(t.name)
                got = traces(lambda: pycodec.encode(pycodec.build(cls, t, v), '<'), res, what)
                encs.append([(x, e) for p, x, e in got])
            ea, eb = encs
            if len(ea) != 1 or ea[0][1] is not None:
                continue
            if len(eb) != 1:
                continue
            x, e = eb[0]
            if e is not None:
                res.bad('encoding', pysys.exc_at(e) or at, '%s: %s' % (t.name, pysys.exc_text(e)), what)
            elif pysys.cells_differ(x, ea[0][0].cells) is not None:
                res.bad('encoding', at, '%s: byte %d of %r, from prophy text %r' % (
                    t.name, pysys.cells_differ(x, ea[0][0].cells), x, ea[0][0]), what)
            else:
                res.ok('encoding')


def both(res, items):
    for defs, seed, n in items:
        text = spec.schema_text(defs)
        a = single(lambda: compiled({'/w/s.prophy': text}, ['/w/s.prophy']), res, text)
        if a is None or a.exc is not None or a.import_exc is not None:
            res.skip('prophy text not accepted', text)
            continue
        for k in range(n):
            xml, patch = Writer(random.Random('%s %d' % (seed, k))).text(defs)
            what = 'prophy text: %s isar: %s patch: %s' % (text, xml, patch)
            files = {'/w/s.xml': xml, '/w/p.txt': patch}
            b = single(lambda: compiled(files, ['--isar', '--patch', '/w/p.txt', '/w/s.xml']), res, what)
            if b is None:
                continue
            same(res, a, b, defs, what)
            if k == 0 and b.exc is None:
                # rules for absent messages
                more = 'Nowhere type a u8\n' + patch + 'Nowhere greedy a\nNowhere rename X\nNowhere nothing\nAbsent struct\n'
                w2 = what + ' and rules for absent messages'
                c = single(lambda: compiled({'/w/s.xml': xml, '/w/p.txt': more},
                                            ['--isar', '--patch', '/w/p.txt', '/w/s.xml']), res, w2)
                if c is None:
                    continue
                if c.exc is not None:
                    res.bad('ignored', pysys.exc_at(c.exc) or PATCH, pysys.exc_text(c.exc), w2)
                elif c.written != b.written:
                    res.bad('ignored', PATCH, 'other output', w2)
                else:
                    res.ok('ignored')


# ------------------------------------------------------------------------------ rules one by one

BASE = ('<x><struct name="S"><member name="n" type="u32"/><member name="a" type="u8"><dimension size="3"/></member>'
        '<member name="o" type="u16" optional="true"/><member name="p" type="u64"/><member name="k" type="u32"/><member name="q" type="u16">'
        '<dimension size="4"/></member></struct>'
        '<union name="U"><member name="x" type="u8" discriminatorValue="7"/><member name="y" type="u64" discriminatorValue="2"/></union>'
        '<enum name="E"><enum-member name="EA" value="1"/></enum><typedef name="T" type="u8"/><constant name="C" value="2"/>'
        '<struct name="D"><member name="b" type="u8"><dimension isVariableSize="true"/></member></struct></x>')


class Patched(object):
    """What the documented rules make of the definitions of BASE."""

    def __init__(self):
        self.order = ['S', 'U']
        self.name = {'S': 'S', 'U': 'U', 'E': 'E', 'T': 'T', 'C': 'C', 'D': 'D'}
        self.kind = {'S': 'struct', 'U': 'union', 'E': 'enum', 'T': 'typedef', 'C': 'constant', 'D': 'struct'}
        self.members = {
            'S': [dict(name='n', type='u32', kind='plain'), dict(name='a', type='u8', kind='fixed', size='3'),
                  dict(name='o', type='u16', kind='opt'), dict(name='p', type='u64', kind='plain'),
                  dict(name='k', type='u32', kind='plain'), dict(name='q', type='u16', kind='fixed', size='4')],
            'U': [dict(name='x', type='u8', kind='plain'), dict(name='y', type='u64', kind='plain')],
            'D': [dict(name='num_of_b', type='u32', kind='plain'), dict(name='b', type='u8', kind='dyn', sizer='num_of_b')]}

    def apply(self, rule):
        """True; False when the rule cannot be applied; None when it does not concern any message."""
        node, action, params = rule[0], rule[1], rule[2:]
        if node not in self.kind:
            return None
        kind = self.kind[node]
        counts = {'type': 2, 'insert': 3, 'remove': 1, 'dynamic': 2, 'greedy': 1, 'static': 2, 'limited': 2, 'struct': 0}
        if action == 'rename':
            if len(params) == 1:
                self.name[node] = params[0]
                return True
            if len(params) == 2 and kind in ('struct', 'union'):
                m = self.find(node, params[0])
                if m is None:
                    return False
                m['name'] = params[1]
                return True
            return False
        if action not in counts or len(params) != counts[action]:
            return False
        if action == 'struct':
            if kind != 'union':
                return False
            self.kind[node] = 'struct'
            return True
        if kind != 'struct':
            return False
        ms = self.members[node]
        if action == 'insert':
            try:
                i = int(params[0])
            except ValueError:
                return False
            ms.insert(i, dict(name=params[1], type=params[2], kind='plain'))
            return True
        m = self.find(node, params[0])
        if m is None:
            return False
        if action == 'type':
            m['type'] = params[1]
        elif action == 'remove':
            ms.remove(m)
        elif action == 'dynamic':
            m.update(kind='dyn', sizer=params[1])
        elif action == 'greedy':
            m.update(kind='greedy')
        elif action == 'static':
            m.update(kind='fixed', size=params[1])
        elif action == 'limited':
            if m['kind'] != 'fixed' or params[1] not in [x['name'] for x in ms[:ms.index(m)]]:
                return False
            m.update(kind='lim', sizer=params[1])
        return True

    def find(self, node, name):
        return next((m for m in self.members[node] if m['name'] == name), None)

    def text(self):
        """The schema in prophy language, None where it has no way to say it."""
        key = {'r32': 'float', 'r64': 'double'}
        out = 'typedef u8 T;\nconst C = 2;\nenum E { EA = 1 };\nstruct D { u8 b<>; };\n'
        if [self.name[x] for x in 'ETC'] != ['E', 'T', 'C'] or self.name['D'] != 'D' or len(self.members['D']) != 2 or \
                self.members['D'][1] != dict(name='b', type='u8', kind='dyn', sizer='num_of_b') or \
                self.members['D'][0] != dict(name='num_of_b', type='u32', kind='plain'):
            return None
        for node in self.order:
            ms = self.members[node]
            if self.kind[node] == 'union':
                out += 'union %s { 7: %s %s; 2: %s %s; };\n' % (self.name[node], ms[0]['type'], ms[0]['name'], ms[1]['type'], ms[1]['name'])
                continue
            out += 'struct %s { ' % self.name[node]
            sizers = {m['sizer']: m for m in ms if m['kind'] == 'lim'}
            if set(sizers) - {m['name'] for m in ms}:
                return None
            for i, m in enumerate(ms):
                t = key.get(m['type'], m['type'])
                if m['name'] in sizers:
                    if m['type'] != 'u32' or m['kind'] != 'plain' or i + 1 >= len(ms) or ms[i + 1] is not sizers[m['name']] or \
                            sum(1 for x in ms if x.get('sizer') == m['name']) > 1:
                        return None
                    continue
                if m['kind'] == 'plain':
                    out += '%s %s; ' % (t, m['name'])
                elif m['kind'] == 'opt':
                    out += '%s* %s; ' % (t, m['name'])
                elif m['kind'] == 'fixed':
                    out += '%s %s[%s]; ' % (t, m['name'], m['size'])
                elif m['kind'] == 'lim':
                    out += '%s %s<%s>; ' % (t, m['name'], m['size'])
                elif m['kind'] == 'dyn':
                    out += '%s %s<@%s>; ' % (t, m['name'], m['sizer'])
                else:
                    out += '%s %s<...>; ' % (t, m['name'])
            out += '};\n'
        return out

    def type_(self, node):
        prims = {p.name: p for p in spec.PRIMS}
        prims.update(T=Typedef('T', U8), E=Enum('E', [('EA', 1)]), D=Struct('D', [M('b', U8, 'dyn')]))
        ms = self.members[node]
        if any(m['type'] not in prims for m in ms):
            return None
        if self.kind[node] == 'union':
            return Union(self.name[node], [(disc, m['name'], prims[m['type']]) for disc, m in zip((7, 2), ms)])
        out = []
        drop = {m['sizer'] for m in ms if m['kind'] == 'lim'}
        for m in ms:
            if m['name'] in drop:
                continue
            t = prims[m['type']]
            if m['kind'] in ('fixed', 'lim'):
                out.append(M(m['name'], t, m['kind'], {'C': 2}.get(m['size']) or int(m['size'])))
            elif m['kind'] == 'dyn':
                out.append(M(m['name'], t, 'ext', sizer=m['sizer']))
            else:
                out.append(M(m['name'], t, m['kind']))
        return Struct(self.name[node], out)


def random_script(r, n):
    rules = []
    names = ['n', 'a', 'o', 'p', 'k', 'q']
    for _ in range(n):
        a = r.choice(['type', 'insert', 'remove', 'dynamic', 'greedy', 'static', 'limited', 'rename', 'rename', 'struct', 'type', 'static'])
        f = r.choice(names)
        if a == 'type':
            rules.append(['S', a, f, r.choice(['u8', 'u32', 'i64', 'r32', 'E', 'T', 'D'])])
        elif a == 'insert':
            nm = 'z%d' % len(names)
            rules.append(['S', a, r.choice(['0', '1', '2', '6', '999']), nm, r.choice(['u8', 'u32', 'u16', 'i64', 'E', 'D'])])
            names.append(nm)
        elif a == 'remove':
            rules.append(['S', a, f])
        elif a == 'dynamic':
            rules.append(['S', a, f, r.choice(['n', 'k', f])])
        elif a == 'greedy':
            rules.append(['S', a, r.choice([f, names[-1], 'q'])])
        elif a == 'static':
            rules.append(['S', a, f, r.choice(['1', '2', '5', 'C'])])
        elif a == 'limited':
            rules.append(['S', a, r.choice(['a', 'q', f]), r.choice(['n', 'k'])])
        elif a == 'rename':
            if r.random() < 0.3:
                rules.append([r.choice('SU'), a, 'R%d' % len(rules)])
            else:
                nm = 'y%d' % len(rules)
                rules.append(['S', a, f, nm])
                names = [nm if x == f else x for x in names]
        else:
            rules.append(['U', 'struct'])
    return rules


INAPPLICABLE = [
    'S type none u8', 'S type a', 'S type', 'S type a u8 u16', 'U type x u16', 'E type EA u8', 'T type a u8', 'C type a u8', 'E insert 0 a u8',
    'U insert 0 a u8', 'S insert x a u8', 'S insert 0 z', 'S insert 0', 'S insert', 'S insert 0 z u8 u8', 'S insert 1.5 z u8', 'S remove none',
    'S remove', 'S remove a n', 'U remove x', 'E remove EA', 'S dynamic none n', 'S dynamic a', 'S dynamic a n n', 'S dynamic', 'U dynamic x y',
    'E dynamic EA n', 'S greedy none', 'S greedy', 'S greedy q q', 'U greedy y', 'T greedy T', 'S static none 2', 'S static a', 'S static',
    'S static a 2 2', 'U static x 2', 'C static C 2', 'S limited none n', 'S limited a', 'S limited', 'S limited a n n', 'U limited x y',
    'S limited a none', 'S limited a k', 'S limited a a', 'S limited p n', 'S limited o n', 'S limited q q', 'S limited k n', 'D limited b num_of_b',
    'S struct', 'E struct', 'T struct', 'C struct', 'U struct x', 'D struct', 'S rename', 'S rename a b c', 'S rename none b', 'U rename none b',
    'E rename EA EB', 'T rename a b', 'C rename a b', 'S nothing', 'S nothing a', 'S Type a u8', 'E nothing', 'S typ a u8', 'S dynamic none none',
    'S greedy a', 'S greedy o', 'S dynamic a k', 'S dynamic q a', 'S dynamic q o', 'S dynamic a none', 'S type q D', 'S type o D', 'S static p 0',
    'S static p -1', 'S remove n\nS limited a n', 'S rename a b\nS type a u8', 'S remove a\nS remove a',
    'S rename R\nS type none u8', 'U struct\nU struct', 'S greedy q\nS insert 999 z u8', 'S greedy q\nS limited q k',
    'S limited q k\nS limited q k', 'S limited a n\nS limited a n', 'S dynamic q k\nS limited q k', 'S limited a n\nS rename a b\nS limited b n',
]
APPLICABLE = [
    ['S greedy q', 'S static q 4'], ['S greedy q', 'S dynamic q k'], ['S dynamic q k', 'S static q 3'], ['S dynamic q k', 'S greedy q'],
    ['S static p 3'], ['S static o 2'], ['S dynamic o n'], ['S dynamic p n'], ['S remove q', 'S greedy k'], ['S limited q k'],
    ['S limited q k', 'S static q 2'], ['S limited q k', 'S dynamic q k'], ['S limited q k', 'S greedy q'], ['S static p 3', 'S dynamic p n', 'S greedy q'],
    ['S insert 1 z u32', 'S limited a z'], ['S insert 1 z u16', 'S dynamic a z'], ['S insert 999 z u8', 'S greedy z'], ['S insert 0 z E'],
    ['S insert 6 z u8', 'S static z C'], ['S rename R', 'S type a u64'], ['S rename R', 'R type none u8'], ['S rename a b', 'S type b u32'],
    ['U struct'], ['U struct', 'U static x 3'], ['U struct', 'U rename x z', 'U insert 1 w u16'], ['U rename x z'], ['U rename V'],
    ['S type o E'], ['S type a E'], ['S type p D'], ['S static a C'], ['S remove n', 'S remove o'], ['S type n u8', 'S dynamic a n'],
    ['S rename n m', 'S dynamic a m'], ['S remove k', 'S remove p', 'S remove o', 'S limited a n', 'S remove q'], ['S static n 2', 'S static k 1'],
    ['S dynamic o n', 'S static o 2'], ['S greedy q', 'S static q 2', 'S insert 999 z u8'], ['S greedy q', 'S dynamic q k', 'S insert 999 z u8'],
    ['S greedy q', 'S dynamic q k', 'S static q 2', 'S limited q k', 'S insert 999 z u8'],
]


def scripts(res, items):
    for rules in items:
        what = 'isar: %s patch: %s' % (BASE, ' / '.join(rules))
        patch = ''.join(x + '\n' for x in rules)
        ref = Patched()
        ok = True
        for x in rules:
            for y in x.split('\n'):
                ok = ok and ref.apply(y.split()) is not False
        run = lambda: compiled({'/w/s.xml': BASE, '/w/p.txt': patch}, ['--isar', '--patch', '/w/p.txt', '/w/s.xml'])
        got = traces(run, res, what)
        if len(got) != 1:
            continue
        p, b, e = got[0]
        if e is not None:
            res.skip(pysys.exc_text(e), what)
            continue
        if ok:
            text = ref.text()
            if text is None:
                continue
            a = single(lambda: compiled({'/w/s.prophy': text}, ['/w/s.prophy']), res, text)
            if a is None:
                continue
            if a.exc is None and a.import_exc is None:
                ts = [x for x in (ref.type_('S'), ref.type_('U')) if x is not None]
                same(res, a, b, ts, what + ' meaning ' + text, PATCH)
                continue
            # a composability rule is broken: the rule which broke it cannot be applied
        if b.exc is None:
            res.bad('inapplicable', PATCH, 'compiles although a rule cannot be applied', what)
        elif not c13.designed(b.exc):
            res.bad('inapplicable', pysys.exc_at(b.exc) or PATCH, pysys.exc_text(b.exc), what)
        else:
            res.ok('inapplicable')


# ------------------------------------------------------------------------------ the family

ENEG = Enum('ENEG', [('EN_A', -1), ('EN_B', 3), ('EN_C', -0x80000000)])
ENEG2 = Enum('ENEG2', [('EM_A', 0xFFFFFFFE), ('EM_B', 0), ('EM_C', 0x7FFFFFFF)])


def schemas(ctx):
    r = random.Random('C17 %s' % ctx.seed)
    out = []

    singles = [family.build(s) for s in family.singles()]
    pairs = [family.build(s) for s in r.sample(family.pairs(), 250 if ctx.quick else 2500)]
    tri = [family.build(s) for s in r.sample(family.core_triples(), 80 if ctx.quick else 1000)]
    ts = singles + pairs + tri + family.externals() + [Struct('X', [M('u', u)]) for u in r.sample(family.unions(), 40 if ctx.quick else 200)]
    ts += [Struct('X', [M('a', ENEG), M('b', ENEG2, 'opt'), M('c', ENEG, 'dyn')]), Struct('X', [M('a', ENEG2, 'fixed', 2), M('z', U8)]),
           Struct('X', [M('u', Union('UN', [(1, 'a', ENEG), (2, 'b', ENEG2)]))])]
    for i, t in enumerate(ts):
        out.append((spec.deps(t), '%s %d' % (ctx.seed, i), 2 if ctx.quick else 4))
    return out


def batch(res, task):
    kind, items = task
    {'both': both, 'scripts': scripts}[kind](res, items)


def tasks(ctx):
    r = random.Random('C17 scripts %s' % ctx.seed)
    sc = APPLICABLE + [[x] for x in INAPPLICABLE]
    sc += [[' '.join(x) for x in random_script(r, r.randint(1, 5))] for _ in range(500 if ctx.quick else 4000)]
    ss = schemas(ctx)
    return [('scripts', sc[i:i + 12]) for i in range(0, len(sc), 12)] + [('both', ss[i:i + 5]) for i in range(0, len(ss), 5)]


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of prophyc on the same definitions written in the prophy language and, in randomly chosen '
        'equivalent forms, in isar XML completed by a patch; the layouts computed and the bytes encoded by the generated classes '
        'for unknown scalar values are compared. Patch scripts are also compared with a reading of the documented rules.')
    ctx.assumptions = ['schemas of up to three members of every kind, nested definitions of the family',
                       'two value shapes per definition']
    run_tasks(ctx, batch, tasks(ctx), 'batches of schemas and patch scripts')
    for k, n in (('accepted', 500), ('layout', 1000), ('encoding', 2000), ('ignored', 200), ('inapplicable', 100), ('python-import', 500)):
        ctx.floor(k, n)
