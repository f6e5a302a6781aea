"""C02: abstract decode inverts abstract encode."""

from .. import cppfam, family, pyai, pycodec, pysys, rawfam, spec
from ..dom import AB
from ..harness import run_tasks, traces
from ..pyai import S
from .c01 import trace_note

RULES = {
    'decode-raises': 'decode() of a message\'s own encoding does not raise',
    'consumed': 'decode() reports the input length',
    'value': 'the decoded fields equal the encoded ones',
    're-encode': 'encoding the decoded message gives the same bytes',
}


def last_decoder(log):
    """The decoding function of the runtime which ran last on the trace."""
    for w in reversed(log):
        if w[0].startswith('prophy/') and 'decode' in w[1].split('.')[-1]:
            return w
    return ('prophy/composite.py', 'decode', '?')


def check_value(res, t, cls, v, endian, what):
    state = {}

    def run():
        state.clear()
        try:
            return attempt()
        except pyai.PyExc as e:
            e.state = dict(state)
            raise

    def attempt():
        msg = pycodec.build(cls, t, v)
        data = pycodec.encode(msg, endian)
        S.call_log = log = []
        state['data'], state['log'] = data, log
        try:
            m2, n = pycodec.decode(cls, data, endian)
            log = list(log)
        finally:
            S.call_log = None
        got = pysys.read(m2, t)
        state['again'] = 1
        return data, n, got, pycodec.encode(m2, endian), last_decoder(log), log

    def hang(w):
        res.bad('decode-raises', w or '?', 'does not terminate', what)

    for p, r, e in traces(run, res, what, hang=hang, partial=True):
        if e is not None:
            if 'data' not in e.state:
                res.skip('value cannot be encoded: ' + pysys.exc_text(e), what)
            elif 'again' in e.state:
                res.bad('re-encode', pysys.exc_at(e) or '?', pysys.exc_text(e) + trace_note(p), what)
            else:
                res.bad('decode-raises', pysys.exc_at(e) or '?', pysys.exc_text(e) + trace_note(p), what)
            continue
        data, n, got, again, at, log = r
        if pysys.scalar(n) != len(data):
            res.bad('consumed', at, 'reports %r consumed of %d%s' % (n, len(data), trace_note(p)), what)
        else:
            res.ok('consumed')
        d = pysys.diff(v, got)
        if d:
            res.bad('value', at, 'field %s%s; decoders on the trace: %s' % (
                d, trace_note(p), ', '.join(x[1] for x in log if x[0].startswith('prophy/'))[-600:]), what)
        else:
            res.ok('value')
        i = pysys.cells_differ(again, data.cells) if isinstance(again, AB) else 0
        if i is not None:
            res.bad('re-encode', at, 'byte %d is %r instead of %r%s' % (i, again.cells[i:i + 1], data.cells[i:i + 1],
                                                                     trace_note(p)), what)
        else:
            res.ok('re-encode')


def batch(res, task):
    types, shapes, ends = task
    for t, cls in pycodec.load(res, types):
        for sh in shapes:
            v = pycodec.shape_value(t, sh)
            if v is None or not spec.tail_aligned(t, spec.encode(t, v, '<')):
                continue
            for endian in ends:
                check_value(res, t, cls, v, endian, pycodec.describe(t, sh, endian))


def tasks(ctx):
    one = [family.build(s) for s in family.singles()] + family.externals()
    one += [spec.Struct('X', [spec.M('u', u)]) for u in family.unions()]
    out = [(b, pycodec.FULL_SHAPES, '<>') for b in pycodec.batches(one)]
    few = [family.build(s) for s in family.singles() if s[0].kind in ('dyn', 'ext', 'greedy')]
    out += [(b, [pycodec.LONG_SHAPE], '<>') for b in pycodec.batches(few, 8)]
    # the element count guard must let the largest permitted count through
    big = [spec.Struct('X', [spec.M('a', spec.BYTE, 'dyn'), spec.M('b', spec.U8)]),
           spec.Struct('X', [spec.M('n', spec.U32), spec.M('a', spec.BYTE, 'ext', sizer='n')])]
    out += [([t], [((65536,), (True,), (0,), (0,))], '<') for t in big]
    more = family.blocks() + rawfam.graded() + cppfam.random_types(ctx.seed, 300 if ctx.quick else 6000, 3, 7)
    out += [(b, pycodec.PAIR_SHAPES, '<>'[i % 2]) for i, b in enumerate(pycodec.batches(more))]
    pairs = [family.build(s) for s in family.pairs()]
    if ctx.quick:
        out += [(b, pycodec.PAIR_SHAPES, '<>'[i % 2]) for i, b in enumerate(pycodec.batches(pairs))]
    else:
        out += [(b, pycodec.PAIR_SHAPES + pycodec.FULL_SHAPES[2:4], '<>') for b in pycodec.batches(pairs)]
        tri = [family.build(s) for s in family.core_triples()]
        out += [(b, pycodec.PAIR_SHAPES, '<>'[i % 2]) for i, b in enumerate(pycodec.batches(tri))]
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of the Python encoder followed by the decoder on the abstract bytes it produced: consumed '
        'length, every decoded field (as a term over the encoded values) and the re-encoding are compared.')
    ctx.assumptions = ['schema shapes: all member kinds singly, pairwise and in blocks after a dynamic member, random sequences of 3..7 '
                       'members (triples of core kinds in the thorough tier)',
                       'array lengths 0..5, 200 and 65536 (bytes); greedy tails that end aligned',
                       'scalar values unrestricted within their range']
    run_tasks(ctx, batch, tasks(ctx), 'batches of schemas')
    ctx.floor('value', 10000)
