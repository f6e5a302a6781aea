"""C06: decode of unknown bytes returns or raises ProphyError; accepted messages are fixpoints."""

from .. import family, pycodec, pysys, spec
from ..dom import AB, Cell
from ..harness import run_tasks, traces
from ..pyai import call, get_attr
from .c01 import trace_note

RULES = {
    'only-ProphyError': 'decode() of any bytes returns or raises ProphyError',
    'terminates': 'decode() ends within the step bound',
    'encodes': 'a decoded message can be encoded',
    'fixpoint': 'decode(encode(m)) equals m and re-encodes to the same bytes for every decoded m',
    'bounded': 'the number of decoded elements is bounded by the input length',
    'guard': 'a counter above 65536 is rejected',
}


def unknown(n):
    return AB([Cell('in', 'in[%d]' % i, 0) for i in range(n)])


def elements(v):
    if isinstance(v, dict):
        return sum(elements(x) for x in v.values())
    if isinstance(v, list):
        return len(v) + sum(elements(x) for x in v if not isinstance(x, Cell))
    if isinstance(v, tuple):
        return elements(v[1])
    return 0


def slots(t):
    """Elements a fixed message of the type has anyway."""
    t = spec.real(t)
    if isinstance(t, spec.Union):
        return max(slots(a[2]) for a in t.arms)
    if not isinstance(t, spec.Struct):
        return 0
    return sum((m.size or 0) * (1 + slots(m.type)) if m.kind == 'fixed' else slots(m.type) if m.kind in ('plain', 'opt')
               else 0 for m in t.members)


def check_length(res, t, cls, n, endian, max_paths):
    what = '%d unknown bytes decoded as %s, endianness %r%s' % (
        n, t, endian, ''.join(' | ' + str(d) for d in spec.deps(t) if d is not t))
    state = {}

    def run():
        state['phase'] = 'decode'
        m, k = pycodec.decode(cls, unknown(n), endian)
        state['phase'] = 'read'
        v = pysys.read(m, t)
        state['phase'] = 'encode'
        b = pycodec.encode(m, endian)
        state['phase'] = 'again'
        if not spec.tail_aligned(t, spec.encode(t, v, endian)):
            return v, b, None, None
        m2, _ = pycodec.decode(cls, b, endian)
        return v, b, pysys.read(m2, t), pycodec.encode(m2, endian)

    def hang(w):
        res.bad('terminates', w or '?', 'no end of %s within the step bound' % state.get('phase'), what)

    for p, r, e in traces(run, res, what, max_paths=max_paths, hang=hang, partial=True,
                          keep=lambda p, r, e: judge(res, t, n, p, r, e, state, what)):
        pass


def judge(res, t, n, p, r, e, state, what):
    if e is not None:
        ph = state['phase']
        name = e.obj.cls.name
        if ph == 'decode':
            if name == 'ProphyError':
                res.ok('only-ProphyError')
            else:
                res.bad('only-ProphyError', pysys.exc_at(e) or '?', pysys.exc_text(e) + trace_note(p), what)
        else:
            res.bad('encodes' if ph == 'encode' else 'fixpoint', pysys.exc_at(e) or '?',
                    'after a successful decode, %s: %s%s' % (ph, pysys.exc_text(e), trace_note(p)), what)
        return True
    res.ok('only-ProphyError')
    res.ok('encodes')
    v, b, v2, b2 = r
    if elements(v) > 4 * n + slots(t):
        res.bad('bounded', 'prophy/container.py', '%d elements decoded from %d bytes%s' % (elements(v), n, trace_note(p)), what)
    else:
        res.ok('bounded')
    if v2 is not None:
        d = pysys.diff(v, v2)
        if d is None and pysys.cells_differ(b2, b.cells) is not None:
            d = 'bytes %r then %r' % (b, b2)
        if d:
            res.bad('fixpoint', ('prophy/composite.py', 'decode', '?'), 'second decode differs: %s%s' % (d, trace_note(p)), what)
        else:
            res.ok('fixpoint')
    return True


def lengths(t, quick):
    base = len(spec.encode(t, spec.value(t, spec.Shape((1,), (True,), (0,), (0,))), '<').cells)
    top = base + (4 if quick else 9)
    return list(range(0, top + 1))


def batch(res, task):
    types, ends, pick, max_paths = task
    for t, cls in pycodec.load(res, types):
        ls = lengths(t, pick == 'some')
        if pick == 'some':
            k = len(ls) - 5
            ls = sorted(set([k // 2, max(0, k - 5), k - 1, k, k + 3]) & set(ls))
        for n in ls:
            for endian in ends:
                check_length(res, t, cls, n, endian, max_paths)


def guard(res, task):
    t, = task
    (t, cls), = pycodec.load(res, [t])
    n = 65537
    for m in t.members:
        if m.kind == 'dyn':
            head = [n & 0xff, (n >> 8) & 0xff, n >> 16, 0]
    data = AB(head + [Cell('in', 'in[%d]' % i, 0) for i in range(n + 3)])
    for p, r, e in traces(lambda: pycodec.decode(cls, data, '<'), res, t):
        if e is not None and e.obj.cls.name == 'ProphyError':
            res.ok('guard')
        elif e is not None:
            res.bad('only-ProphyError', pysys.exc_at(e) or '?', pysys.exc_text(e), t)
        else:
            res.bad('guard', ('prophy/generators.py', 'build_container_length_field', '?'),
                    'a counter of %d is accepted' % n, t)


def mixed(res, task):
    if len(task) == 1:
        return guard(res, task)
    return batch(res, task)


def tasks(ctx):
    one = [family.build(s) for s in family.singles()] + family.externals()
    un = [spec.Struct('X', [spec.M('u', u)]) for u in family.unions()]
    out = [(spec.Struct('X', [spec.M('a', spec.BYTE, 'dyn')]),)]
    out += [(b, '<', 'all', 400 if ctx.quick else 3000) for b in pycodec.batches(one, 4)]
    out += [(b, '>', 'some', 3000) for b in pycodec.batches(un, 10)]
    ts, ls = family.templates(0), family.last_templates(0)
    pairs = [family.build((a, b)) for a in ts for b in ts + ls]
    out += [(b, '<>'[i % 2], 'some' if ctx.quick else 'all', 300 if ctx.quick else 1500) for i, b in enumerate(pycodec.batches(pairs, 6))]
    if not ctx.quick:
        out += [(b, '>', 'some', 1500) for b in pycodec.batches([family.build(s) for s in family.pairs()], 8)]
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of the Python decoder on byte strings whose every byte is unknown, for every length up to '
        'a few bytes past a small message; all traces are enumerated (counters, flags, discriminators and enum values split '
        'the traces). Each must end in ProphyError or in a message which encodes and is a decode/encode fixpoint.')
    ctx.assumptions = ['schema shapes: all member kinds singly, core kinds pairwise',
                       'input lengths up to a one-element-per-array message plus 4 (9 when thorough) bytes',
                       'greedy tails which end unaligned are exempt from the fixpoint, as documented']
    run_tasks(ctx, mixed, tasks(ctx), 'batches of schemas')
    ctx.floor('only-ProphyError', 10000)
    ctx.floor('fixpoint', 2000)
    ctx.floor('guard', 1)
