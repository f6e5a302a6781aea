"""C18: str() in Python and print() in C++ give the same, documented text."""

import random

from .. import cppfam, cppsys, family, iolib, pycodec, pysys, spec
from ..dom import AS, Flt, Hole, Lin, mktext
from ..harness import run_tasks
from ..irai import CxxExc, Fault
from ..pyai import BC, PyExc, S, call
from ..spec import BYTE, Enum, I8, I16, I32, I64, M, Struct, Typedef, U16, U32, U64, U8, Union

RULES = {
    'same-text': 'str() in Python and print() in C++ of the same value give the same text',
    'python-text': 'str() gives the documented text',
    'cpp-text': 'print() gives the documented text, without undefined behaviour or an exception',
    'decoded-text': 'a decoded message is rendered as the one which was encoded',
    'unset-bytes': 'a bytes field never assigned is rendered as an empty one',
    'float-lines': 'messages with floating-point fields give the same lines apart from the digits',
    'float-format': 'floating-point numbers are rendered with the same format',
    'printed-twice': 'rendering a message again gives the same text',
}
PY = ('prophy/composite.py', 'field_to_string', '?')
MARK = '<number>'
CPP = ('prophy_cpp/include/prophy/detail/printer.hpp', 'printer', '?')


# ------------------------------------------------------------------------------ documented text

def scalar_text(t, v):
    t = spec.real(t)
    if isinstance(t, Enum):
        return [n for n, x in t.members if x == v][-1]
    v = S.path.conc(v) if isinstance(v, Lin) else v
    return str(v) if isinstance(v, int) else Hole('d', v)


def put(out, name, t, v, depth):
    t = spec.real(t)
    pad = '  ' * depth
    if isinstance(t, (Struct, Union)):
        out.append('%s%s {\n' % (pad, name))
        body(out, t, v, depth + 1)
        out.append(pad + '}\n')
    else:
        out += ['%s%s: ' % (pad, name), scalar_text(t, v), '\n']


def quoted(x):
    return "'%s'" % ''.join({9: '\\t', 10: '\\n', 13: '\\r', 39: "\\'", 92: '\\\\'}.get(
        b, chr(b) if 32 <= b < 127 else '\\x%02x' % b) for b in x)


def body(out, t, v, depth):
    if isinstance(t, Union):
        arm = [a for a in t.arms if a[0] == v[0]][0]
        put(out, arm[1], arm[2], v[1], depth)
        return
    sizers = spec.count_names(t)
    for m in t.members:
        if m.name in sizers:
            continue
        x = v[m.name]
        if m.kind == 'plain':
            put(out, m.name, m.type, x, depth)
        elif m.kind == 'opt':
            if x is not None:
                put(out, m.name, m.type, x, depth)
        elif spec.is_byte(m.type):
            out.append('%s%s: %s\n' % ('  ' * depth, m.name, quoted(x)))
        else:
            for e in x:
                put(out, m.name, m.type, e, depth)


def documented(t, v):
    out = []
    body(out, spec.real(t), v, 0)
    return mktext(out)


# ------------------------------------------------------------------------------ values

def concrete(t, v, rnd):
    """The value with every byte string known."""
    t = spec.real(t)
    if isinstance(t, Struct):
        out = {}
        for m in t.members:
            if m.name not in v:
                continue
            x = v[m.name]
            if m.kind in ('plain', 'opt'):
                out[m.name] = None if x is None else concrete(m.type, x, rnd)
            elif spec.is_byte(m.type):
                out[m.name] = [rnd.choice(COMMON) if rnd.random() < .6 else rnd.randrange(256) for _ in x]
            else:
                out[m.name] = [concrete(m.type, e, rnd) for e in x]
        return out
    if isinstance(t, Union):
        return v[0], concrete([a for a in t.arms if a[0] == v[0]][0][2], v[1], rnd)
    return v


COMMON = [0, 1, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 34, 39, 47, 48, 57, 65, 92, 97, 102, 110, 120, 126, 127, 128, 160, 200, 254, 255]


def floats(t):
    for d in spec.deps(t):
        ts = [m.type for m in d.members] if isinstance(d, Struct) else [a[2] for a in d.arms] if isinstance(d, Union) else []
        if any(isinstance(spec.real(x), spec.Prim) and spec.real(x).flt for x in ts):
            return True
    return False


# ------------------------------------------------------------------------------ the analysis

def cpp_text(u, t, v, twice):
    r = cppsys.Run(u)
    p = r.value(t, v)
    out = []
    for _ in range(1 + twice):
        s = r.call('text_' + t.name, p)
        out.append(iolib.text_of(iolib.string_cells(s)))
    return out


def attempt(f, *a):
    try:
        return f(*a), None
    except (Fault, CxxExc, PyExc, NotBuilt) as x:
        return None, x


def to_str(msg):
    return call(BC['str'], (msg,))


class NotBuilt(Exception):
    pass


def py_texts(cls, t, v):
    try:
        msg = pycodec.build(cls, t, v)
    except PyExc as e:
        raise NotBuilt(e)
    return [to_str(msg), to_str(msg)]


def py_unset(cls, t, v):
    msg = call(cls)
    pysys.fill(msg, t, v, False)
    return to_str(msg)


def py_decoded(cls, t, v, endian):
    data = pycodec.encode(pycodec.build(cls, t, v), endian)
    msg, n = pycodec.decode(cls, data, endian)
    if pysys.cells_differ(pycodec.encode(msg, endian), data.cells) is not None:
        return None
    return to_str(msg)


def show(x):
    s = x if isinstance(x, str) else ''.join(p if isinstance(p, str) else '<%s>' % p.term if p.fmt == 'd' else '<%s %s>' % (p.fmt, p.term)
                                               for p in x.pieces) if isinstance(x, AS) else repr(x)
    return s


def lines(x):
    return show(x).split('\n')


def difference(got, want):
    g, w = lines(got), lines(want)
    for i in range(max(len(g), len(w))):
        a, b = (g[i] if i < len(g) else None), (w[i] if i < len(w) else None)
        if a != b:
            return 'line %d is %r instead of %r' % (i + 1, a, b)
    return '%r instead of %r' % (got, want)


def has_empty_bytes(t, v):
    t = spec.real(t)
    if isinstance(t, Struct):
        for m in t.members:
            if m.name not in v or v[m.name] is None:
                continue
            x = v[m.name]
            if m.kind in ('plain', 'opt'):
                if has_empty_bytes(m.type, x):
                    return True
            elif spec.is_byte(m.type):
                if not x:
                    return True
            elif any(has_empty_bytes(m.type, e) for e in x):
                return True
        return False
    if isinstance(t, Union):
        return has_empty_bytes([a for a in t.arms if a[0] == v[0]][0][2], v[1])
    return False


def check_value(res, u, t, v, what, k):
    cls = u.python.d.get(t.name)
    empty = has_empty_bytes(t, v)
    whole = k < 3 and spec.tail_aligned(t, spec.encode(t, v, '<'))

    def run():
        return (attempt(cpp_text, u, t, v, k == 0), attempt(py_texts, cls, t, v),
                attempt(py_decoded, cls, t, v, '<>'[k % 2]) if whole else (None, None),
                attempt(py_unset, cls, t, v) if empty else (None, None), documented(t, v))

    for p, got, x in cppsys.run_traces(run, res, what):
        if x is not None:
            res.skip('driver: ' + cppsys.fault_text(x), what)
            continue
        (c, ce), (py, pe), (dec, de), (un, ue), want = got
        if ce is not None:
            if isinstance(ce, PyExc):
                res.skip('driver', what)
            else:
                res.bad('cpp-text', ce.at(), cppsys.fault_text(ce), what)
        else:
            if c[0] == want:
                res.ok('cpp-text')
            else:
                res.bad('cpp-text', CPP, difference(c[0], want), what)
            if len(c) > 1:
                if c[1] == c[0]:
                    res.ok('printed-twice')
                else:
                    res.bad('printed-twice', CPP, difference(c[1], c[0]), what)
        if pe is not None:
            if isinstance(pe, NotBuilt):
                res.skip('value cannot be assigned: ' + pysys.exc_text(pe.args[0]), what)
                continue
            res.bad('python-text', pe.where() or PY, pysys.exc_text(pe), what)
            continue
        if not isinstance(py[0], (str, AS)):
            res.skip('str() is not text', what)
            continue
        if py[0] == want:
            res.ok('python-text')
        else:
            res.bad('python-text', PY, difference(py[0], want), what)
        if py[1] == py[0]:
            res.ok('printed-twice')
        else:
            res.bad('printed-twice', PY, difference(py[1], py[0]), what)
        if ce is None:
            if py[0] == c[0]:
                res.ok('same-text')
            else:
                res.bad('same-text', PY if py[0] != want else CPP, 'C++ against Python: ' + difference(c[0], py[0]), what)
        if dec is not None:
            if dec == py[0]:
                res.ok('decoded-text')
            else:
                res.bad('decoded-text', PY, difference(dec, py[0]), what)
        if empty:
            if ue is None and un == py[0]:
                res.ok('unset-bytes')
            elif ue is None:
                res.bad('unset-bytes', PY, difference(un, py[0]), what)
            else:
                res.bad('unset-bytes', PY, pysys.exc_text(ue), what)


GENERAL = ('g', '.6g', '%g', '%.6g')


def without_floats(x):
    """The text with a mark in place of every floating-point number, and the formats these are rendered with."""
    out, formats = [], set()
    for p in x.pieces if isinstance(x, AS) else [x]:
        if isinstance(p, str):
            out.append(p)
        elif p.fmt == 'float':
            out.append(MARK)
            formats.add('the shortest of at most 6 significant digits')
        elif isinstance(p.term, Flt):
            out.append(MARK)
            formats.add('the shortest of at most 6 significant digits' if p.fmt in GENERAL else
                        'the shortest digits that read back the same' if p.fmt == 'repr' else p.fmt)
        else:
            out.append(p)
    return mktext(out), formats


def check_floats(res, u, t, v, what):
    cls = u.python.d.get(t.name)

    def run():
        return attempt(cpp_text, u, t, v, False), attempt(py_texts, cls, t, v)

    for p, got, x in cppsys.run_traces(run, res, what):
        (c, ce), (py, pe) = got if x is None else ((None, x), (None, None))
        if ce is not None or pe is not None:
            res.skip('driver: floating-point text', what)
            continue
        (ct, cf), (pt, pf) = without_floats(c[0]), without_floats(py[0])
        if ct == pt:
            res.ok('float-lines')
        else:
            res.bad('float-lines', CPP, 'C++ against Python: ' + difference(ct, pt), what)
        if cf == pf:
            res.ok('float-format')
        else:
            res.bad('float-format', PY, 'numbers are written as %s by Python and as %s by C++' % (
                ', '.join(sorted(pf)), ', '.join(sorted(cf))), what)


def float_types():
    out = []
    for t in (spec.R32, spec.R64):
        td = Typedef('T' + t.name, t)
        out.append(Struct('X', [M('a', t), M('b', t, 'opt'), M('c', t, 'dyn'), M('d', t, 'fixed', 2), M('e', t, 'lim', 3), M('f', td),
                                M('g', td, 'dyn'), M('h', I8)]))
        out.append(Struct('X', [M('a', Union('UF', [(0, 'x', t), (7, 'y', U8)])), M('b', U32), M('c', t, 'greedy')]))
    return out


def batch(res, task):
    kind, types, values = task
    if kind == 'floats':
        for u in cppsys.full(res, types, ('print',), python=True):
            for t in u.types:
                for k, sh in enumerate(values[0]):
                    v = pycodec.shape_value(t, sh)
                    if v is not None:
                        check_floats(res, u, t, v, pycodec.describe(t, sh, ''))
        return
    types = [t for t in types if not floats(t)]
    if not types:
        return
    for u in cppsys.full(res, types, ('print',), python=True):
        for t in u.types:
            if kind == 'shapes':
                for k, sh in enumerate(values[0]):
                    v = pycodec.shape_value(t, sh)
                    if v is None:
                        continue
                    v = concrete(t, v, random.Random('%s %s %s' % (values[1], k, t)))
                    check_value(res, u, t, v, pycodec.describe(t, sh, ''), k)
            else:
                for k, b in enumerate(values):
                    check_value(res, u, t, bytes_value(t, b), '%s, bytes %r' % (t, bytes(b)), k + 3 if k else 0)


def bytes_value(t, b):
    v = spec.value(t, spec.Shape((len(b),), (True,), (1,), (1,)))
    return with_bytes(t, v, b)


def with_bytes(t, v, b):
    t = spec.real(t)
    if isinstance(t, Struct):
        return {m.name: v[m.name] if m.name not in v or v[m.name] is None else
                with_bytes(m.type, v[m.name], b) if m.kind in ('plain', 'opt') else
                (b[:m.size] if m.kind == 'lim' else (b * m.size)[:m.size] if m.kind == 'fixed' else b) if spec.is_byte(m.type) else
                [with_bytes(m.type, e, b) for e in v[m.name]] for m in t.members if m.name in v}
    if isinstance(t, Union):
        return v[0], with_bytes([a for a in t.arms if a[0] == v[0]][0][2], v[1], b)
    return v


EA = Enum('EA', [('EA_A', 1), ('EA_B', 2), ('EA_C', 1), ('EA_D', 2), ('EA_E', 3)])
EM = Enum('EM', [('EM_A', 0), ('EM_B', 0x7FFFFFFF), ('EM_C', 0x80000000), ('EM_D', 0xFFFFFFFF)])
INTS = [U8, U16, U32, U64, I8, I16, I32, I64]


def special():
    F = family
    out = [Struct('X', [M('a', BYTE, 'dyn')] + [M('m%d' % i, t) for i, t in enumerate(INTS)])]
    for e in (EA, EM, F.E0, Typedef('TEA', EA), Typedef('TTE', Typedef('TEM', EM))):
        out.append(Struct('X', [M('a', e), M('b', e, 'opt'), M('c', e, 'dyn'), M('d', e, 'fixed', 2), M('e', e, 'lim', 3), M('f', U8)]))
        out.append(Struct('X', [M('a', Union('UE', [(1, 'x', e), (2, 'y', U8), (3, 'z', e)])), M('g', e, 'greedy')]))
    for t in INTS:
        td = Typedef('T' + t.name, t)
        out.append(Struct('X', [M('a', t), M('b', t, 'opt'), M('c', t, 'dyn'), M('d', t, 'fixed', 2), M('e', t, 'lim', 3), M('f', td),
                                M('g', td, 'dyn')]))
        out.append(Struct('X', [M('a', Union('UI', [(0, 'x', t), (7, 'y', td)])), M('b', t, 'greedy')]))
    in1 = Struct('I1', [M('a', BYTE, 'dyn'), M('b', U32), M('c', I8, 'opt')])
    in2 = Struct('I2', [M('p', in1), M('q', in1, 'dyn'), M('r', U8)])
    in3 = Struct('I3', [M('p', in2), M('e', EA)])
    out.append(Struct('X', [M('z', in3), M('x', U16)]))
    em = Struct('EMP', [M('a', U8, 'dyn')])
    out.append(Struct('X', [M('a', em), M('b', em, 'dyn'), M('c', U8)]))
    out.append(Struct('X', [M('a', Struct('OO', [M('x', U8, 'opt')])), M('b', Struct('OP', [M('x', U8, 'opt'), M('y', EA, 'opt')]), 'opt')]))
    out.append(Struct('X', [M('a', F.GB)]))
    out.append(Struct('X', [M('c', BYTE, 'fixed', 2), M('d', BYTE, 'lim', 4), M('f', U8), M('e', BYTE, 'greedy')]))
    return out


def byte_types():
    fx = Struct('FX', [M('a', BYTE, 'fixed', 2), M('b', U8)])
    return [Struct('X', [M('a', BYTE, 'dyn'), M('b', U32), M('c', I16), M('d', EA), M('e', family.F8), M('f', I64, 'fixed', 2), M('g', BYTE, 'dyn')]),
            Struct('X', [M('a', Union('UB', [(1, 'x', fx), (2, 'y', fx)])), M('b', BYTE, 'lim', 4), M('c', U64), M('d', U8, 'opt'),
                         M('e', BYTE, 'greedy')])]


def byte_strings(quick):
    out = [[i] for i in range(256)]
    out += [[a, b] for a in COMMON for b in COMMON] if not quick else [[a, b] for a in COMMON for b in (39, 34, 48, 102, 255)]
    out += [[39, 34], [34, 39], [39, 34, 39], [92, 120, 52, 49], [0, 49, 50], [255, 97, 98], [34, 34], [37, 100], [37, 115, 37, 110]]
    return out


def tasks(ctx):
    out = []
    own = [t for t in special() if cppfam.own_sizers(t)]
    core, more = cppfam.types(ctx, 1000, 400)
    for b in pycodec.batches(own, 6):
        out.append(('shapes', b, (cppfam.SHAPES, ctx.seed)))
    out.append(('floats', float_types(), (cppfam.SHAPES, ctx.seed)))
    bs = byte_strings(ctx.quick)
    for t in byte_types():
        for i in range(0, len(bs), 60):
            out.append(('bytes', [t], bs[i:i + 60]))
    for b in pycodec.batches(core, 12):
        out.append(('shapes', b, (cppfam.SHAPES, ctx.seed)))
    for b in pycodec.batches(more, 12):
        out.append(('shapes', b, (cppfam.FEW, ctx.seed)))
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of str() of the generated Python classes and of the LLVM IR of print() of the generated C++ '
        'full codec with models of std::string and of the streams, on the same value; integers are unknown, enumerators and '
        'bytes are enumerated. The two texts are compared with each other and with the documented one, piece by piece.')
    ctx.assumptions = ['libstdc++ streams format as documented', 'floating-point numbers are compared by the format that renders them', 'array lengths 0..5']
    run_tasks(ctx, batch, tasks(ctx), 'batches of schemas')
    for r, n in (('same-text', 2000), ('python-text', 2000), ('cpp-text', 2000), ('decoded-text', 800), ('unset-bytes', 30), ('float-lines', 20),
                 ('float-format', 20)):
        ctx.floor(r, n)
