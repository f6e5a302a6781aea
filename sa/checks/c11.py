"""C11: copy_from() gives an equal message which shares nothing mutable with its source."""

from .. import family, pyai, pycodec, pylib, pysys, spec
from ..harness import run_tasks, traces
from ..pyai import call, get_attr, set_attr
from .c01 import default_value, trace_note

RULES = {
    'equal': 'after b.copy_from(a) the fields of b equal those of a',
    'encoding': 'after b.copy_from(a) both encode identically',
    'source': 'copy_from() and extend() leave the source unchanged',
    'independent': 'mutating one message leaves the other unchanged',
    'raises': 'copy_from() between messages of one type does not raise',
}

COMPOSITE = (spec.Struct, spec.Union)


def mutate(msg, t, tag):
    """Changes every leaf and every array reachable from the message through its public API."""
    t = spec.real(t)
    if isinstance(t, spec.Union):
        d = pysys.scalar(get_attr(msg, 'discriminator'))
        arm = [a for a in t.arms if a[0] == d][0]
        if isinstance(spec.real(arm[2]), COMPOSITE):
            mutate(get_attr(msg, arm[1]), arm[2], tag)
        else:
            set_attr(msg, arm[1], other(arm[2], tag + arm[1], get_attr(msg, arm[1])))
        return
    sizers = spec.count_names(t)
    for m in t.members:
        if m.name in sizers:
            continue
        comp = isinstance(spec.real(m.type), COMPOSITE)
        nm = '%s.%s' % (tag, m.name)
        if m.kind == 'plain':
            if comp:
                mutate(get_attr(msg, m.name), m.type, nm)
            else:
                set_attr(msg, m.name, other(m.type, nm, get_attr(msg, m.name)))
        elif m.kind == 'opt':
            x = get_attr(msg, m.name)
            if x is not None and comp:
                mutate(x, m.type, nm)
            elif not comp:
                set_attr(msg, m.name, other(m.type, nm, x))
        elif spec.is_byte(m.type):
            x = pyai.unwrap(get_attr(msg, m.name))
            set_attr(msg, m.name, pysys.bytes_of([0x5a] * pylib.b_len(x)))
        else:
            arr = get_attr(msg, m.name)
            n = pylib.b_len(arr)
            for i in range(n):
                if comp:
                    mutate(pyai.get_item(arr, i), m.type, '%s[%d]' % (nm, i))
                else:
                    pyai.set_item(arr, i, other(m.type, '%s[%d]' % (nm, i), pyai.get_item(arr, i)))
            if m.kind != 'fixed' and n:
                pyai.del_item(arr, 0)


def other(t, name, old):
    t = spec.real(t)
    if isinstance(t, spec.Enum):
        vals = [v for _, v in t.members]
        old = pysys.scalar(old) if old is not None else None
        return [v for v in vals if v != old][0]
    return spec.value(t, spec.Shape(), name)


def check_pair(res, t, cls, va, vb, what, wire, mutable, fresh=None):
    st = {}

    def run():
        st['phase'] = 'build'
        a = call(cls) if fresh == 'a' else pycodec.build(cls, t, va)
        b = call(cls) if fresh == 'b' else pycodec.build(cls, t, vb)
        st['phase'] = 'copy'
        call(get_attr(b, 'copy_from'), (a,))
        st['phase'] = 'after'
        out = {'b': pysys.read(b, t), 'a': pysys.read(a, t)}
        ea, eb = pycodec.encode(a, '<'), pycodec.encode(b, '<')
        out['bytes'] = (ea, eb)
        if mutable == 'b':
            mutate(b, t, 'mut')
            out['other'] = pysys.read(a, t)
        else:
            mutate(a, t, 'mut')
            out['other'] = pysys.read(b, t)
        return out

    at = ('prophy/composite_base.py', '_composite_base.copy_from', '?')
    for p, r, e in traces(run, res, what, partial=True):
        if e is not None:
            if st['phase'] == 'build':
                res.skip('cannot build: ' + pysys.exc_text(e), what)
            else:
                res.bad('raises', pysys.exc_at(e) or '?', pysys.exc_text(e) + trace_note(p), what)
            continue
        for rule, want, have in (('equal', va, r['b']), ('source', va, r['a']), ('independent', va, r['other'])):
            d = pysys.diff(want, have)
            if d:
                res.bad(rule, at, 'field %s%s' % (d, ' after mutating ' + mutable if rule == 'independent' else ''), what)
            else:
                res.ok(rule)
        ea, eb = r['bytes']
        if pysys.cells_differ(ea, eb.cells) is not None or (wire is not None and pysys.cells_differ(eb, wire) is not None):
            res.bad('encoding', at, 'encodings %r and %r' % (ea, eb), what)
        else:
            res.ok('encoding')


def check_extend(res, t, cls, m, va, what):
    """b.m.extend(a.m) keeps b's elements and appends independent copies."""
    sub = spec.real(t)
    limit = m.size if m.kind == 'lim' else None

    def run():
        a = pycodec.build(cls, t, va)
        b = call(cls)
        arr = get_attr(b, m.name)
        src = get_attr(a, m.name)
        call(get_attr(arr, 'extend'), (src,))
        if limit is None:
            call(get_attr(arr, 'extend'), (pyai.get_item(src, slice(0, 1)),))
        got = pysys.read(b, t)[m.name]
        mutate(b, t, 'mut')
        kept = pysys.read(a, t)
        mutate(a, t, 'mut2')
        return got, kept

    at = ('prophy/container.py', 'bound_composite_array.extend', '?')
    want = va[m.name] + ([] if limit is not None else va[m.name][:1])
    for p, r, e in traces(run, res, what, partial=True):
        if e is not None:
            res.bad('raises', pysys.exc_at(e) or '?', pysys.exc_text(e), what)
            continue
        d = pysys.diff(want, r[0])
        if d:
            res.bad('equal', at, 'extended array %s' % d, what)
        else:
            res.ok('equal')
        d = pysys.diff(va, r[1])
        if d:
            res.bad('independent', at, 'field %s of the source after mutating the extended array' % d, what)
        else:
            res.ok('independent')


def batch(res, task):
    types, pairs = task
    for t, cls in pycodec.load(res, types):
        for k, (sa, sb) in enumerate(pairs):
            va = spec.value(t, spec.Shape(*sa), 'a')
            vb = spec.value(t, spec.Shape(*sb), 'b')
            what = 'a: %s <- b: lengths %s, optionals %s, arms %s' % (pycodec.describe(t, sa, '<'), sb[0], sb[1], sb[2])
            check_pair(res, t, cls, va, vb, what, spec.encode(t, va, '<').cells, 'ab'[k % 2])
        dv = default_value(t)
        for sh in SHAPES[:2]:
            v = spec.value(t, spec.Shape(*sh), 'a')
            for k in 'ab':
                check_pair(res, t, cls, dv, v, 'untouched %s copied over one holding %s' % (t, sh[:3]), None, k, 'a')
                check_pair(res, t, cls, v, None, '%s holding %s copied over an untouched one' % (t, sh[:3]), None, k, 'b')
        for m in t.members:
            if m.kind in ('dyn', 'lim', 'greedy', 'ext') and isinstance(spec.real(m.type), COMPOSITE):
                for sh in SHAPES[:3]:
                    va = spec.value(t, spec.Shape(*sh), 'a')
                    if va[m.name]:
                        check_extend(res, t, cls, m, va, 'extend of %s, lengths %s' % (t, sh[0]))


SHAPES = [
    ((1,), (True,), (0,), (0,)),
    ((2, 1, 3), (True, False), (1, 0), (1, 0)),
    ((3, 2), (True,), (2, 0), (2,)),
    ((0,), (False,), (1,), (1,)),
]


def tasks(ctx):
    one = [family.build(s) for s in family.singles()] + family.externals()
    one += [spec.Struct('X', [spec.M('u', u)]) for u in family.unions()]
    allp = [(a, b) for a in SHAPES for b in SHAPES]
    full = [(a, b) for p in allp for a, b in (p, p)]        # each with both directions of mutation
    out = [(b, full) for b in pycodec.batches(one, 10)]
    few = [(SHAPES[1], SHAPES[3]), (SHAPES[1], SHAPES[0]), (SHAPES[3], SHAPES[2]), (SHAPES[2], SHAPES[3])]
    ts, ls = family.templates(0), family.last_templates(0)
    src = [(a, b) for a in ts for b in ts + ls] if ctx.quick else family.pairs()
    out += [(b, few) for b in pycodec.batches([family.build(s) for s in src])]
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of copy_from() and extend() between messages holding distinct unknown values: fields and '
        'encodings are compared as terms, then every leaf and array of one message is changed through the public API and '
        'the other is compared with its former value (any sharing of mutable state shows as a changed term).')
    ctx.assumptions = ['schema shapes: all member kinds singly with 16 pairs of value shapes, core kinds pairwise (all kinds '
                       'when thorough)', 'array lengths 0..3']
    run_tasks(ctx, batch, tasks(ctx), 'batches of schemas')
    ctx.floor('equal', 5000)
    ctx.floor('independent', 5000)
