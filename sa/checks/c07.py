"""C07: the C++ full decoder is safe on any bytes and accepts only what it consumes whole."""

from .. import cppfam, cppsys, cxx, pycodec, pysys, spec
from ..dom import Cell
from ..harness import run_tasks
from ..irai import CxxExc, Fault
from .. import irai
from ..pyai import S

RULES = {
    'memory-safe': 'decode() of any bytes reads and writes inside the buffer and live objects only, uses no uninitialised or '
                   'misaligned memory, and ends',
    'no-exception': 'decode() of any bytes returns instead of throwing',
    'proportionate': 'decode() requests memory in proportion to the input only',
    'exact': 'an accepted input is encoded again into as many bytes as it had',
    'enum-range': 'enumerations decoded from unchecked integers can represent each of them',
}
GEN = 'prophyc/generators/cpp_full.py'
DEC = 'prophy_cpp/include/prophy/detail/decoder.hpp'


def unknown(i):
    return Cell('in', 'in[%d]' % i, 0)


def limit(n):
    return 4096 + 512 * n


def memory(n):
    top = limit(n)

    def hook(k, lo, hi):
        if hi is not None and hi <= top:
            return
        if isinstance(k, int) or not S.path.cmp('<=', irai.lin(k), top):
            raise Fault('memory', 'up to %s bytes are requested for an input of %d bytes' % (hi, n))
    return hook


def controls(ref):
    """Positions of counters, flags and discriminators, grouped."""
    out, i, notes = [], 0, ref.notes
    while i < len(notes):
        j = i
        while j < len(notes) and notes[j] == notes[i]:
            j += 1
        if notes[i][0] == 'val' and all(isinstance(c, int) for c in ref.cells[i:j]):
            out.append((notes[i][1], range(i, j)))
        elif notes[i][0] == 'fill' and notes[i][1].startswith('absent '):
            out.append((notes[i][1], range(i, min(i + 4, j))))
        i = j
    return out


def inputs(t, refs, quick):
    """(what, cells)"""
    out, seen = [], set()

    def add(what, cells):
        k = tuple(cells)
        if k not in seen:
            seen.add(k)
            out.append((what, list(cells)))

    lens = {0, 1}
    for r in refs:
        n = len(r.cells)
        if n <= (24 if quick else 48):
            lens |= {n} if quick else {max(0, n - 1), n, n + 1}
    for n in sorted(lens):
        add('%d unknown bytes' % n, [unknown(i) for i in range(n)])
    for r in refs:
        for what, where in controls(r):
            add('%s unknown' % what, [unknown(i) if i in where else c for i, c in enumerate(r.cells)])
    if refs:
        r = max(refs, key=lambda r: len(r.cells))
        for n in range(len(r.cells)):
            add('the first %d of %d bytes' % (n, len(r.cells)), r.cells[:n])
        add('one byte more', list(r.cells) + [0])
        add('one unit more', list(r.cells) + [0] * spec.align(t))
    return out


def check_input(res, u, t, e, cells, before, what):
    n = len(cells)

    def run():
        r = cppsys.Run(u)
        p = r.fresh(t)
        if before is not None:
            r.decode(t, p, before, 'l', 'the earlier input')
        r.m.alloc_hook = memory(n)
        try:
            ok = r.decode(t, p, cells, e)
        except (Fault, CxxExc) as x:
            return 'decode', x
        r.m.alloc_hook = None
        if not ok:
            return 'rejected', None
        return 'accepted', (r.size(t, p), len(r.vector(t, p, e)))

    for p, r, x in cppsys.run_traces(run, res, what):
        if x is not None:
            res.bad('exact', x.at(), 'encoding of the accepted message: ' + cppsys.fault_text(x), what + trace(p))
            continue
        s, y = r
        if s == 'decode':
            rule = 'no-exception' if isinstance(y, CxxExc) else 'proportionate' if y.kind == 'memory' else 'memory-safe'
            res.bad(rule, y.at(), cppsys.fault_text(y), what + trace(p))
            continue
        for rule in ('memory-safe', 'no-exception', 'proportionate'):
            res.ok(rule)
        if s == 'rejected':
            continue
        if y == (n, n):
            res.ok('exact')
        else:
            res.bad('exact', (GEN, 'generate_struct_decode', '?'), 'an accepted input of %d bytes is encoded into %d, get_byte_size() '
                    'is %d' % (n, y[1], y[0]), what + trace(p))


def trace(p):
    return ' [%s]' % p.describe() if p.taken else ''


def batch(res, task):
    types, shapes, quick = task
    for u in cppsys.full(res, types, ('encode', 'decode')):
        for k, t in enumerate(u.types):
            refs = []
            for sh in shapes:
                v = pycodec.shape_value(t, sh)
                if v is not None:
                    refs.append((spec.encode(t, v, '<'), spec.encode(t, v, '>')))
            if not refs:
                continue
            before = max((r[0].cells for r in refs), key=len)
            for i, e in enumerate('lb'):
                ins = inputs(t, [r[i] for r in refs], quick)
                if i != k % 2 and quick:
                    ins = [x for x in ins if 'unknown' in x[0]][-4:]
                for j, (what, cells) in enumerate(ins):
                    check_input(res, u, t, 'n' if e == 'l' and j % 3 == 2 else e, cells, before if j % 2 else None,
                                '%s, %s endian%s, decoded as %s' % (what, {'l': 'little', 'b': 'big'}[e],
                                                                   ', object used before' if j % 2 else '', describe(t)))


def describe(t):
    return '%s%s' % (t, ''.join(' | ' + str(d) for d in spec.deps(t) if d is not t))


def enums(res, task):
    """Can the generated enumerations hold any 32 bits?  Only a fixed underlying type says so."""
    e = spec.Enum('En', [('En_a', 1), ('En_b', 2)])
    t = spec.Struct('X', [spec.M('e', e), spec.M('u', spec.Union('Un', [(1, 'a', spec.U8), (2, 'b', spec.U16)]))])
    c, files = cppsys.prepare([t], ('cpp_full',))
    if c.exc is not None or files is None:
        raise pysys.AnalysisBroken('prophyc does not take %s' % t)
    for what, fn, expr in (('enum', 'generate_enum_definition', 'En{7u}'),
                           ('union discriminator', 'generate_union_definition', 'Un::_discriminator{7u}')):
        files['w.cpp'] = '#include "s.ppf.hpp"\nusing namespace prophy::generated;\nvoid f() { (void) (%s); }\n' % expr
        if not cxx.syntax(files, 'w.cpp', ('-std=c++17',)):
            res.ok('enum-range')
        else:
            res.bad('enum-range', (GEN, fn, '?'), 'the type of an %s decoded from unchecked input has no fixed underlying type: '
                    'reading a value it cannot represent is undefined' % what, str(t))


def mixed(res, task):
    (enums if task == 'enums' else batch)(res, task)


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of the LLVM IR of the generated C++ full decoder over unknown input bytes of many lengths, '
        'canonical encodings cut at every byte, and canonical encodings with unknown counters, flags and discriminators; all '
        'branches are followed. Every access is checked against the bounds, lifetime, initialisation and alignment of its object.')
    ctx.assumptions = ['the input buffer is aligned to 8', 'inputs of up to about 100 bytes', 'at most 400 traces for one input']
    a, b = cppfam.types(ctx, 150, 80)
    ts = [(x, cppfam.FEW, ctx.quick) for x in pycodec.batches(a + b, 16)]
    run_tasks(ctx, mixed, ['enums'] + ts, 'batches of schemas')
    for r in ('memory-safe', 'no-exception', 'proportionate'):
        ctx.floor(r, 20000)
    ctx.floor('exact', 3000)
