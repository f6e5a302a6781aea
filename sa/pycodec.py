"""Shared by the analyses of the Python codec: batches of types compiled and loaded abstractly."""

from . import pyai, pysys, spec
from .dom import Unsupported
from .harness import traces
from .pyai import PyExc, call, get_attr

BATCH = 20

# (lens, optionals, arms, enumerators)
FULL_SHAPES = [
    ((1,), (True,), (0,), (0,)),
    ((0,), (False,), (1,), (1,)),
    ((2, 3), (True, False), (2, 1), (2, 0)),
    ((0, 3, 1), (False, True), (1, 0), (0, 1)),
    ((5,), (True,), (0, 1), (1,)),
    ((3, 0, 2), (True, True, False), (2, 0), (1, 0)),
]
PAIR_SHAPES = [
    ((1,), (True,), (0,), (0,)),
    ((0, 3), (False, True), (1,), (1,)),
]
LONG_SHAPE = ((300,) + (1,) * 997, (True,), (0,), (0,))


def batches(types, n=BATCH):
    types = list(types)
    return [types[i:i + n] for i in range(0, len(types), n)]


def _load(types):
    pysys.reset()
    defs = []
    for i, t in enumerate(types):
        if not isinstance(t, spec.Union):
            t.name = 'X%d' % i
        spec.deps(t, defs)
    c = pysys.compile_defs(defs)
    if c.exc is not None:
        return c, None, c.exc
    text = c.written.get('/out/s.py')
    if text is None:
        raise pysys.AnalysisBroken('prophyc.main wrote no Python module: %s' % sorted(c.written))
    try:
        return c, pysys.load_generated(c.world, text), None
    except PyExc as e:
        return c, None, e


def load(res, types):
    """Yields (type, class of the analysed system) for every type prophyc accepts and Python can load."""
    c, m, e = _load(types)
    if e is None:
        return [(t, m.d[t.name]) for t in types]
    out = []
    for t in types:
        c, m, e = _load([t])
        if e is None:
            out.append((t, m.d[t.name]))
        else:
            res.skip('not accepted: ' + pysys.exc_text(e), t)
    return out


def shape_value(t, sh):
    """Value of the shape, or None when an external sizer cannot count that many elements."""
    v = spec.value(t, spec.Shape(*sh))
    return v if sizers_fit(t, v) else None


def sizers_fit(t, v):
    t = spec.real(t)
    if isinstance(t, spec.Union):
        arm = [a for a in t.arms if a[0] == v[0]][0]
        return not isinstance(spec.real(arm[2]), (spec.Struct, spec.Union)) or sizers_fit(arm[2], v[1])
    by = {m.name: m for m in t.members}
    for m in t.members:
        if m.name not in v:
            continue
        x = v[m.name]
        if m.kind == 'ext' and len(x) > spec.real(by[m.sizer].type).hi:
            return False
        if isinstance(spec.real(m.type), (spec.Struct, spec.Union)) and x is not None:
            for e in ([x] if m.kind in ('plain', 'opt') else x):
                if not sizers_fit(m.type, e):
                    return False
    return True


def build(cls, t, v):
    msg = call(cls)
    pysys.fill(msg, t, v)
    return msg


def encode(msg, endian):
    return call(get_attr(msg, 'encode'), (endian,))


def decode(cls, data, endian):
    msg = call(cls)
    n = call(get_attr(msg, 'decode'), (data, endian))
    return msg, n


def describe(t, sh, endian):
    d = [x for x in spec.deps(t) if x is not t]
    return '%s | lengths %s, optionals %s, arms %s, enumerators %s, endianness %r%s' % (
        t, list(sh[0]), list(sh[1]), list(sh[2]), list(sh[3]), endian,
        (' | with ' + ' '.join(map(str, d))) if d else '')


def member_at(note):
    return note[1] if note else 'past the end'
