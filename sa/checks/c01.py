"""C01: every abstract encoding equals the documented one, cell by cell."""

from .. import cppfam, family, pyai, pycodec, pysys, rawfam, spec
from ..dom import AB
from ..harness import run_tasks, traces
from ..pyai import call

RULES = {
    'encode-cells': 'each byte of encode() is the byte of the field value (or zero padding) docs/encoding.rst puts there',
    'encode-raises': 'encode() of an assignable value does not raise',
    'assign-raises': 'assigning an in-range value does not raise',
    'default-cells': 'a fresh message encodes as the documented encoding of the default values',
}


def check_value(res, t, cls, v, endian, what, rule='encode-cells', build=None):
    def run():
        phase = 'assign-raises'
        try:
            msg = build() if build else pycodec.build(cls, t, v)
            phase = 'encode-raises'
            return pycodec.encode(msg, endian)
        except pyai.PyExc as e:
            e.phase = phase
            raise

    ref = spec.encode(t, v, endian)
    for p, got, e in traces(run, res, what, partial=True, hang=lambda w: res.bad('encode-raises', w or '?', 'does not terminate', what)):
        if e is not None:
            res.bad(e.phase, pysys.exc_at(e) or '?', pysys.exc_text(e) + trace_note(p), what)
            continue
        if not isinstance(got, AB):
            res.bad(rule, 'prophy:encode', 'encode returns %r' % (got,), what)
            continue
        i = pysys.cells_differ(got, ref.cells)
        if i is None:
            res.ok(rule)
        else:
            want = repr(ref.cells[i]) if i < len(ref.cells) else 'nothing'
            have = repr(got.cells[i]) if i < len(got) else 'nothing'
            note = ref.notes[i] if i < len(ref.notes) else None
            at = got.prov[i] if i < len(got) and got.prov[i] else got.prov[-1] if len(got) and got.prov[-1] else None
            res.bad(rule, at or ('prophy/composite.py', 'encode', '?'),
                    'byte %d (%s %s) is %s, documented: %s%s' % (i, note[0] if note else 'past', pycodec.member_at(note),
                                                               have, want, trace_note(p)), what)


def trace_note(p):
    d = p.describe()
    return ' on the trace where %s' % d if d else ''


def default_value(t):
    t = spec.real(t)
    if isinstance(t, spec.Prim):
        return 0.0 if t.flt else 0
    if isinstance(t, spec.Enum):
        return t.members[0][1]
    if isinstance(t, spec.Union):
        d, _, at = t.arms[0]
        return (d, default_value(at))
    out = {}
    sizers = spec.count_names(t)
    for m in t.members:
        if m.name in sizers:
            continue
        if m.kind == 'plain':
            out[m.name] = default_value(m.type)
        elif m.kind == 'opt':
            out[m.name] = None
        elif m.kind == 'fixed':
            out[m.name] = [0 if spec.is_byte(m.type) else default_value(m.type) for _ in range(m.size)]
        else:
            out[m.name] = []
    return out


def zero_floats(cells):
    """The documented encoding of 0.0 is all zero bytes."""
    return [0 if not isinstance(c, int) and c.kind in ('f4', 'f8') and c.term == 0.0 else c for c in cells]


def batch(res, task):
    types, shapes, ends, extra = task
    for t, cls in pycodec.load(res, types):
        for k, sh in enumerate(shapes):
            v = pycodec.shape_value(t, sh)
            if v is None:
                continue
            for endian in ends:
                check_value(res, t, cls, v, endian, pycodec.describe(t, sh, endian))
        if extra:
            v = default_value(t)
            ref = spec.encode(t, v, '<')
            what = 'fresh %s' % t
            for p, got, e in traces(lambda: pycodec.encode(call(cls), '<'), res, what):
                if e is not None:
                    res.bad('encode-raises', pysys.exc_at(e) or '?', pysys.exc_text(e), what)
                elif pysys.cells_differ(got, zero_floats(ref.cells)) is not None:
                    i = pysys.cells_differ(got, zero_floats(ref.cells))
                    res.bad('default-cells', (got.prov[min(i, len(got) - 1)] if len(got) else None) or '?',
                            'byte %d of the default encoding %r, documented %r' % (i, got, ref.cells), what)
                else:
                    res.ok('default-cells')


def tasks(ctx):
    one = [family.build(s) for s in family.singles()] + family.externals()
    one += [spec.Struct('X', [spec.M('u', u)]) for u in family.unions()]
    out = [(b, pycodec.FULL_SHAPES, '<>', True) for b in pycodec.batches(one)]
    few = [family.build(s) for s in family.singles() if s[0].kind in ('dyn', 'ext', 'greedy')]
    out += [(b, [pycodec.LONG_SHAPE], '<>', False) for b in pycodec.batches(few, 8)]
    more = family.blocks() + rawfam.graded() + cppfam.random_types(ctx.seed, 300 if ctx.quick else 6000, 3, 7)
    out += [(b, pycodec.PAIR_SHAPES, '<>'[i % 2], False) for i, b in enumerate(pycodec.batches(more))]
    pairs = [family.build(s) for s in family.pairs()]
    if ctx.quick:
        out += [(b, pycodec.PAIR_SHAPES, '<>'[i % 2], False) for i, b in enumerate(pycodec.batches(pairs))]
    else:
        out += [(b, pycodec.PAIR_SHAPES + pycodec.FULL_SHAPES[2:4], '<>', False) for b in pycodec.batches(pairs)]
        tri = [family.build(s) for s in family.core_triples()]
        out += [(b, pycodec.PAIR_SHAPES, '<>'[i % 2], False) for i, b in enumerate(pycodec.batches(tri))]
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of prophyc and of the prophy runtime as found in the source: schema texts built from the '
        'family of member kinds are compiled and the generated classes evaluated with unknown scalar values; every byte of '
        'the abstract encoding is an affine/byte-of-term cell compared with the documented layout.')
    ctx.assumptions = ['schema shapes: all member kinds singly, pairwise and in blocks after a dynamic member, random sequences of 3..7 '
                       'members (triples of core kinds in the thorough tier)',
                       'array lengths 0..5 and 200; scalar values unrestricted within their range']
    run_tasks(ctx, batch, tasks(ctx), 'batches of schemas')
    ctx.floor('encode-cells', 10000)
    ctx.floor('default-cells', 300)
