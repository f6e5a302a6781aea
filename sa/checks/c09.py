"""C09: the generated raw swap turns a foreign-endian message into a native one, in place."""

from .. import cppsys, cxx, pycodec, rawfam, spec
from .. import irai
from ..dom import Cell
from ..harness import run_tasks
from ..irai import CxxExc, Fault

RULES = {
    'native': 'after swap() the buffer holds the native encoding of the message',
    'outside': 'swap() changes no byte outside the message, and touches no memory outside the buffer',
    'end': 'swap() returns the address one past the message',
    'greedy-prefix': 'in a message with an unlimited member, the members of the outermost struct before it are native after swap()',
    'greedy-address': 'there, the address of the unlimited member is returned',
    'smaller-part': 'all of this, where a part follows one which has a bigger alignment and ends unaligned',
}
GEN = 'prophyc/generators/cpp.py'
GUARD = 16


def units(res, types):
    out = []
    for ts, files in rawfam.generate(res, types):
        out += lower(res, ts, files)
    return out


def lower(res, ts, files):
    files = dict(files)
    files['d.cpp'] = '#include "s.pp.cpp"\n' + ''.join(
        'extern "C" void* swap_%s(void* p) { return prophy::swap(static_cast<%s*>(p)); }\n' % (t.name, t.name) for t in ts)
    try:
        return [(ts, cppsys.lower(files, 'd.cpp'))]
    except cppsys.BuildError as e:
        if len(ts) == 1:
            return unbuilt(res, files, str(e), ts[0])
        out = []
        for t in ts:
            for ts1, f1 in rawfam.generate(res, [t]):
                out += lower(res, ts1, f1)
        return out


def unbuilt(res, files, error, t):
    """A swap which does not compile swaps nothing; a header which does not is another matter."""
    text = spec.schema_text(spec.deps(t))
    if not cxx.syntax(files, 's.pp.hpp', ['-x', 'c++']) and cxx.syntax(files, 'd.cpp'):
        res.bad('native', (GEN, 'translate_struct', '?'), 'the generated swap does not compile: ' + error, text)
    else:
        res.skip(error, text)
    return []


class Pushed(spec.Out):
    """Encoding in which a block starts behind the alignment of the block before it, too."""

    def block(self, t, i, a, note):
        starts = sorted(spec.blocks(t))
        k = starts.index(i)
        if k:
            self.pad(spec.blocks(t)[starts[k - 1]], note)
        self.pad(a, note)


def falls(t, v, ref):
    o = Pushed('<')
    spec.put(o, t, v, '')
    return o.notes != ref.notes


def check_value(res, mod, t, v, what):
    big, little = spec.encode(t, v, '>'), spec.encode(t, v, '<')
    n = len(big.cells)
    fixed = n
    greedy = spec.stiffness(t) == 'unlimited'
    if greedy:
        fixed = tail_start(t, v)
    guard = [Cell('i', spec.sym('before', 0, 1 << 128 - 1), k) for k in range(GUARD)]
    after = [Cell('i', spec.sym('after', 0, 1 << 128 - 1), k) for k in range(GUARD)]

    def run():
        m = irai.Machine(mod, {}, 400000)
        b = irai.new_object('the buffer', GUARD + n + GUARD)
        b.o.data[:] = guard + list(big.cells) + after
        p = m.call('swap_' + t.name, irai.Ptr(b.o, GUARD))
        return p, list(b.o.data), b.o

    fall = falls(t, v, little)

    def bad(rule, at, text, what):
        if fall:
            res.bad('smaller-part', (GEN, 'translate_struct', '?'), '%s: %s' % (rule, text), what)
        else:
            res.bad(rule, at, text, what)

    def ok(rule):
        res.ok('smaller-part' if fall else rule)

    at = (GEN, 'translate_struct', '?')
    for p, r, x in cppsys.run_traces(run, res, what):
        if x is not None:
            bad('outside', x.at(), cppsys.fault_text(x), what)
            continue
        q, data, o = r
        got = data[GUARD:GUARD + n]
        early = [i for i in range(GUARD) if not cppsys.same(data[i], guard[i])]
        late = [i for i in range(GUARD) if not cppsys.same(data[GUARD + n + i], after[i])]
        if early or late:
            bad('outside', at, 'byte %d of the buffer is changed, the message has %d bytes' % (
                (early[0] - GUARD) if early else n + late[0], n), what)
        else:
            ok('outside')
        i = next((i for i in range(fixed) if not cppsys.same(got[i], little.cells[i])), None)
        rule = 'greedy-prefix' if greedy else 'native'
        if i is None:
            ok(rule)
        else:
            bad(rule, at, 'byte %d (%s %s) is %s instead of %s' % ((i,) + little.notes[i] + (got[i], little.cells[i])), what)
        rule = 'greedy-address' if greedy else 'end'
        off = q.off if isinstance(q, irai.Ptr) and q.o is o else None
        if isinstance(off, int):
            off -= GUARD
        elif off is not None:
            res.skip('the address returned is not a constant', what)
            continue
        if off == fixed:
            ok(rule)
        else:
            bad(rule, at, 'returns byte %s of the message instead of %d' % (off, fixed), what)


def tail_start(t, v):
    """Where the unlimited member of the outermost struct starts."""
    last = t.members[-1]
    q = spec.Out('<')
    bl = spec.blocks(t)
    fs = spec.fields(t)
    for i, m in enumerate(fs):
        q.pad(bl.get(i, 1), '')
        q.pad(spec.field_align(m), '')
        if m is last:
            return len(q.cells)
        if m.kind == 'count':
            q.scalar(spec.scalar_cells(spec.U32, len(v[m.of[0]])), '')
        elif m.name in spec.count_names(t):
            ln = [len(v[x.name]) for x in t.members if x.sizer == m.name]
            q.scalar(spec.scalar_cells(spec.real(m.type), ln[0]), '')
        else:
            spec.put_member(q, m, v[m.name], '')
    return len(q.cells)


def batch(res, task):
    types, shapes = task
    for ts, mod in units(res, types):
        for t in ts:
            for sh in shapes:
                v = pycodec.shape_value(t, sh)
                if v is not None:
                    check_value(res, mod, t, v, pycodec.describe(t, sh, ''))


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of the LLVM IR of the generated raw swap functions over the foreign-endian encoding of '
        'messages with unknown scalar values, between guard bytes; the buffer and the returned address are compared with the '
        'documented native encoding.')
    ctx.assumptions = ['buffers are aligned to 8', 'x86-64, clang front end', 'array lengths 0..5']
    a, b = rawfam.types(ctx, 1500, 400)
    ts = [(x, pycodec.FULL_SHAPES) for x in pycodec.batches(a, 24)] + [(x, pycodec.PAIR_SHAPES) for x in pycodec.batches(b, 24)]
    run_tasks(ctx, batch, ts, 'batches of schemas')
    for r, n in (('native', 4000), ('outside', 5000), ('end', 4000), ('greedy-prefix', 300), ('greedy-address', 300)):
        ctx.floor(r, n)
