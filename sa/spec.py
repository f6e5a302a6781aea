"""Reference statement of the wire format (docs/encoding.rst) and of the schema language.

Nothing here is taken from /repo's code.  A schema is a list of definitions built from the
classes below; `layout` and `encode` give the documented layout and canonical encoding.
"""

from .dom import Cell, Flt, Lin, sym


class Prim(object):
    stiff = 'fixed'

    def __init__(self, name, size, signed=False, flt=False, key=None):
        self.name, self.size, self.align, self.signed, self.flt = name, size, size, signed, flt
        self.key = key or name

    @property
    def lo(self):
        return -(1 << (8 * self.size - 1)) if self.signed else 0

    @property
    def hi(self):
        return (1 << (8 * self.size - (1 if self.signed else 0))) - 1

    def __repr__(self):
        return self.name


U8, U16, U32, U64 = (Prim('u%d' % n, n // 8) for n in (8, 16, 32, 64))
I8, I16, I32, I64 = (Prim('i%d' % n, n // 8, True) for n in (8, 16, 32, 64))
R32, R64 = Prim('r32', 4, flt=True, key='float'), Prim('r64', 8, flt=True, key='double')
BYTE = Prim('byte', 1, key='bytes')
PRIMS = [U8, U16, U32, U64, I8, I16, I32, I64, R32, R64]
INTS = [U8, U16, U32, U64, I8, I16, I32, I64]


class Enum(object):
    size = align = 4
    stiff = 'fixed'

    def __init__(self, name, members):
        self.name, self.members = name, members

    def __repr__(self):
        return 'enum %s{%s}' % (self.name, ','.join('%s=%s' % m for m in self.members))


class Typedef(object):
    def __init__(self, name, type_):
        self.name, self.type = name, type_

    def __repr__(self):
        return 'typedef %s %s' % (short(self.type), self.name)


class Const(object):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def __repr__(self):
        return 'const %s=%s' % (self.name, self.value)


class M(object):
    """Struct member.  kind: plain opt fixed dyn lim greedy ext."""

    def __init__(self, name, type_, kind='plain', size=None, sizer=None, size_text=None):
        self.name, self.type, self.kind, self.size, self.sizer = name, type_, kind, size, sizer
        self.size_text = size_text

    def __repr__(self):
        t = short(self.type)
        return {'plain': '%s %s', 'opt': '%s* %s', 'fixed': '%s %s[{n}]', 'dyn': '%s %s<>', 'lim': '%s %s<{n}>',
                'greedy': '%s %s<...>', 'ext': '%s %s<@{s}>'}[self.kind].format(n=self.size, s=self.sizer) % (
                    t, self.name)


class Struct(object):
    def __init__(self, name, members):
        self.name, self.members = name, members

    def __repr__(self):
        return 'struct %s{%s}' % (self.name, '; '.join(map(repr, self.members)))


class Union(object):
    stiff = 'fixed'

    def __init__(self, name, arms):
        """arms: (discriminator, name, type)"""
        self.name, self.arms = name, arms

    def __repr__(self):
        return 'union %s{%s}' % (self.name, '; '.join('%s: %s %s' % (d, short(t), n) for d, n, t in self.arms))


def short(t):
    return t.name if not isinstance(t, Prim) else t.key


def real(t):
    while isinstance(t, Typedef):
        t = t.type
    return t


def is_byte(t):
    return real(t).name == 'byte'


def up(n, a):
    return n + (-n) % a


# ------------------------------------------------------------------------------ layout

def stiffness(t):
    t = real(t)
    if isinstance(t, Struct):
        s = [member_stiffness(m) for m in t.members]
        return 'unlimited' if 'unlimited' in s else 'dynamic' if 'dynamic' in s else 'fixed'
    return 'fixed'


def member_stiffness(m):
    if m.kind == 'greedy':
        return 'unlimited'
    s = stiffness(m.type)
    if s != 'fixed':
        return s
    return 'dynamic' if m.kind in ('dyn', 'ext') else 'fixed'


def align(t):
    t = real(t)
    if isinstance(t, (Prim, Enum)):
        return t.align
    if isinstance(t, Struct):
        return max([member_align(m) for m in t.members] + [4 for m in t.members if m.kind in ('dyn', 'lim')] or [1])
    return max([4] + [align(a[2]) for a in t.arms])


def member_align(m):
    a = align(m.type)
    return max(4, a) if m.kind == 'opt' else a


def size(t):
    """Wire size of a fixed type; for the others, the size with every variable part empty."""
    t = real(t)
    if isinstance(t, (Prim, Enum)):
        return t.size
    if isinstance(t, Struct):
        return layout(t)[1]
    a = align(t)
    return up(a + max([size(x[2]) for x in t.arms]), a)


def member_size(m):
    if m.kind == 'plain':
        return size(m.type)
    if m.kind == 'opt':
        return max(4, align(m.type)) + size(m.type)
    if m.kind in ('fixed', 'lim'):
        return m.size * size(m.type)
    return 0


def fields(t):
    """Wire fields: members with the implicit counters made explicit."""
    out = []
    for m in t.members:
        if m.kind in ('dyn', 'lim'):
            out.append(M('num_of_' + m.name, U32, 'count'))
            out[-1].of = [m.name]
        out.append(m)
    return out


def count_names(t):
    return {m.sizer for m in t.members if m.kind == 'ext'}


def field_align(m):
    return 4 if m.kind == 'count' else member_align(m)


def blocks(t):
    """Index in fields(t) -> alignment required in front of it by the block rule."""
    fs = fields(t)
    starts = [0]
    for i, m in enumerate(fs[:-1]):
        if m.kind != 'count' and member_stiffness(m) != 'fixed':
            starts.append(i + 1)
    out = {}
    for k, s in enumerate(starts):
        e = starts[k + 1] if k + 1 < len(starts) else len(fs)
        if k:
            out[s] = max(field_align(m) for m in fs[s:e])
    return out


def parts(t):
    """Fields grouped into blocks."""
    fs = fields(t)
    b = sorted(blocks(t)) + [len(fs)]
    out, lo = [], 0
    for hi in b:
        out.append(fs[lo:hi])
        lo = hi
    return out


def layout(t):
    """([(field, offset)], size) for the fixed prefix; dynamic parts counted as empty."""
    out, pos = [], 0
    bl = blocks(t)
    for i, m in enumerate(fields(t)):
        pos = up(pos, bl.get(i, 1))
        pos = up(pos, field_align(m))
        out.append((m, pos))
        pos += 4 if m.kind == 'count' else member_size(m)
    return out, up(pos, align(t))


# ------------------------------------------------------------------------------ canonical encoding

class Out(object):
    def __init__(self, endian):
        self.cells, self.notes, self.endian = [], [], endian

    def pad(self, a, note):
        while len(self.cells) % a:
            self.cells.append(0)
            self.notes.append(('pad', note))

    def block(self, t, i, a, note):
        """Start of the block at field i of t."""
        self.pad(a, note)

    def fill(self, n, note):
        self.cells.extend([0] * n)
        self.notes.extend([('fill', note)] * n)

    def scalar(self, cells, note):
        cells = list(cells)
        if self.endian == '>':
            cells = cells[::-1]
        self.cells.extend(cells)
        self.notes.extend([('val', note)] * len(cells))


def scalar_cells(t, v):
    if isinstance(t, Prim) and t.flt:
        return [Cell('f%d' % t.size, v, k) for k in range(t.size)]
    if isinstance(v, int):
        return [(v >> (8 * k)) & 0xff for k in range(t.size)]
    return [Cell('i', v, k) for k in range(t.size)]


def put(o, t, v, note):
    t = real(t)
    if isinstance(t, (Prim, Enum)):
        o.scalar(scalar_cells(t, v), note)
    elif isinstance(t, Struct):
        bl = blocks(t)
        for i, m in enumerate(fields(t)):
            n = '%s.%s' % (note, m.name) if note else m.name
            if i in bl:
                o.block(t, i, bl[i], 'block of ' + n)
            o.pad(field_align(m), 'before ' + n)
            if m.kind == 'count':
                o.scalar(scalar_cells(U32, len(v[m.of[0]])), n)
            elif m.name in count_names(t):
                ln = [len(v[x.name]) for x in t.members if x.sizer == m.name]
                o.scalar(scalar_cells(real(m.type), ln[0]), n)
            else:
                put_member(o, m, v[m.name], n)
        o.pad(align(t), 'end of ' + (note or t.name))
    else:
        start = len(o.cells)
        d, av = v
        o.scalar(scalar_cells(U32, d), note + '.discriminator')
        o.pad(align(t), 'discriminator of ' + note)
        arm = [a for a in t.arms if a[0] == d][0]
        put(o, arm[2], av, note + '.' + arm[1])
        o.fill(size(t) - (len(o.cells) - start), 'arm slot of ' + note)


def put_member(o, m, v, note):
    if m.kind == 'plain':
        put(o, m.type, v, note)
    elif m.kind == 'opt':
        if v is None:
            o.fill(member_size(m), 'absent ' + note)
        else:
            o.scalar(scalar_cells(U32, 1), note + ' flag')
            o.pad(max(4, align(m.type)), 'flag of ' + note)
            put(o, m.type, v, note)
    else:
        start = len(o.cells)
        if is_byte(m.type):
            for i, c in enumerate(v):
                o.scalar([c], '%s[%d]' % (note, i))
        else:
            for i, e in enumerate(v):
                put(o, m.type, e, '%s[%d]' % (note, i))
        if m.kind in ('fixed', 'lim'):
            o.fill(member_size(m) - (len(o.cells) - start), 'slot of ' + note)


def encode(t, v, endian):
    o = Out(endian)
    put(o, t, v, '')
    return o


def tail_aligned(t, out):
    """False for the documented exception: padding follows a greedy tail."""
    return stiffness(t) != 'unlimited' or not out.notes or not (
        out.notes[-1][0] == 'pad' and out.notes[-1][1].startswith('end of '))


# ------------------------------------------------------------------------------ values

class Shape(object):
    """Chooses array lengths, optional presence, union arms for one abstract value."""

    def __init__(self, lens=(1,), opts=(True,), arms=(0,), enums=(0,)):
        self.lens, self.opts, self.arms, self.enums = list(lens), list(opts), list(arms), list(enums)
        self.i = {'l': 0, 'o': 0, 'a': 0, 'e': 0}

    def _next(self, k, seq):
        v = seq[self.i[k] % len(seq)]
        self.i[k] += 1
        return v

    def length(self, limit=None):
        n = self._next('l', self.lens)
        return n if limit is None else min(n, limit)

    def present(self):
        return self._next('o', self.opts)

    def arm(self, n):
        return self._next('a', self.arms) % n

    def enumerator(self, n):
        return self._next('e', self.enums) % n


def value(t, shape, name='v', zero=False):
    t = real(t)
    if isinstance(t, Prim):
        if zero:
            return 0.0 if t.flt else 0
        if t.flt:
            return Flt(name, None, t.size == 4)
        return sym(name, t.lo, t.hi)
    if isinstance(t, Enum):
        return t.members[shape.enumerator(len(t.members))][1]
    if isinstance(t, Struct):
        out = {}
        sizers = count_names(t)
        ext = {}
        for m in t.members:
            if m.name in sizers:
                ext[m.name] = shape.length()
                continue
            n = '%s.%s' % (name, m.name)
            if m.kind == 'plain':
                out[m.name] = value(m.type, shape, n)
            elif m.kind == 'opt':
                out[m.name] = value(m.type, shape, n) if shape.present() else None
            else:
                k = {'fixed': lambda: m.size, 'lim': lambda: shape.length(m.size), 'ext': lambda: ext[m.sizer]}.get(
                    m.kind, shape.length)()
                if is_byte(m.type):
                    out[m.name] = [Cell('in', '%s[%d]' % (n, i), 0) for i in range(k)]
                else:
                    out[m.name] = [value(m.type, shape, '%s[%d]' % (n, i)) for i in range(k)]
        return out
    a = t.arms[shape.arm(len(t.arms))]
    return (a[0], value(a[2], shape, '%s.%s' % (name, a[1])))


# ------------------------------------------------------------------------------ definitions of a schema

def deps(t, acc=None):
    """Definitions reachable from a type, dependencies first."""
    acc = [] if acc is None else acc
    if isinstance(t, Prim) or t in acc:
        return acc
    if isinstance(t, Typedef):
        deps(t.type, acc)
    elif isinstance(t, Struct):
        for m in t.members:
            deps(m.type, acc)
    elif isinstance(t, Union):
        for a in t.arms:
            deps(a[2], acc)
    acc.append(t)
    return acc


def words(defs):
    """Words of the schema text: str words and ints."""
    w = []
    for d in defs:
        if isinstance(d, Const):
            w += ['const', d.name, '='] + number(d.value) + [';']
        elif isinstance(d, Enum):
            w += ['enum', d.name, '{']
            for i, (n, v) in enumerate(d.members):
                w += ([','] if i else []) + [n, '='] + number(v)
            w += ['}', ';']
        elif isinstance(d, Typedef):
            w += ['typedef', short(d.type), d.name, ';']
        elif isinstance(d, Struct):
            w += ['struct', d.name, '{']
            for m in d.members:
                w += member_words(m)
            w += ['}', ';']
        elif isinstance(d, Union):
            w += ['union', d.name, '{']
            for disc, n, t in d.arms:
                w += number(disc) + [':', short(t), n, ';']
            w += ['}', ';']
        elif isinstance(d, list):
            w += d
    return w


def number(v):
    if isinstance(v, str):
        return [v]
    if isinstance(v, list):
        return v
    return [v] if not isinstance(v, int) or v >= 0 else ['-', -v]


def member_words(m):
    sz = m.size_text if m.size_text is not None else number(m.size)
    if m.kind == 'plain':
        return [short(m.type), m.name, ';']
    if m.kind == 'opt':
        return [short(m.type), '*', m.name, ';']
    tail = {'fixed': ['['] + sz + [']'], 'dyn': ['<', '>'], 'lim': ['<'] + sz + ['>'], 'greedy': ['<', '...', '>'],
            'ext': ['<', '@', m.sizer, '>']}[m.kind]
    return [short(m.type), m.name] + tail + [';']


def text(ws):
    return ' '.join(str(w) for w in ws) + '\n'


def schema_text(defs):
    """One definition per line."""
    return ''.join(text(words([d])) for d in defs)
