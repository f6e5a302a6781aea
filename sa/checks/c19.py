"""C19: byte order changes only the bytes inside scalars; padding is zero."""

from .. import cppfam, cppsys, family, pycodec, pysys, spec
from ..dom import AB, Cell
from ..harness import run_tasks, traces
from ..irai import CxxExc, Fault, UNDEF

RULES = {
    'python-length': 'both byte orders of the Python codec give encodings of the same length',
    'python-scalars': 'in the Python codec the two byte orders differ exactly by the reversal of each multi-byte scalar',
    'python-padding': 'every padding byte of the Python codec is zero',
    'cpp-length': 'both byte orders of the C++ vector encoders give encodings of the same length',
    'cpp-scalars': 'in the C++ vector encoders the two byte orders differ exactly by the reversal of each multi-byte scalar',
    'cpp-padding': 'every padding byte of the C++ vector encoders is zero',
    'cpp-native': 'native encoding is the encoding in host byte order',
}


def judge(res, side, little, big, t, v, at, what):
    """little, big: lists of cells."""
    if len(little) != len(big):
        res.bad(side + '-length', at, '%d bytes in little endian, %d in big endian' % (len(little), len(big)), what)
        return
    res.ok(side + '-length')
    lo, hi = spec.encode(t, v, '<'), spec.encode(t, v, '>')
    dl, dh = cppsys.cells_differ(little, lo.cells), cppsys.cells_differ(big, hi.cells)
    if dl is None and dh is None:
        res.ok(side + '-scalars')
        res.ok(side + '-padding')
        return
    if len(little) == len(lo.cells):
        # padding: the positions the format leaves to it, in whichever encoding has its values in place
        for name, got, ref in (('little', little, lo), ('big', big, hi)):
            vals = [i for i, n in enumerate(ref.notes) if n[0] == 'val']
            if all(cppsys.same(got[i], ref.cells[i]) for i in vals):
                for i, n in enumerate(ref.notes):
                    if n[0] != 'val' and not cppsys.same(got[i], 0):
                        res.bad(side + '-padding', at, 'byte %d of the %s endian encoding (%s) is %s' % (i, name, n[1], got[i]), what)
                        return
        if dl is None or dh is None:
            name, i, got, ref = ('big', dh, big, hi) if dl is None else ('little', dl, little, lo)
            res.bad(side + '-scalars', at, 'byte %d (%s %s) of the %s endian encoding is %s, the other byte order requires %s' % (
                (i,) + ref.notes[i] + (name, got[i], ref.cells[i])), what)
            return
    # the layout itself is not the documented one: only what does not depend on it
    i = reversal(little, big)
    if i is None:
        res.ok(side + '-scalars')
    else:
        res.bad(side + '-scalars', at, 'from byte %d on, %s in little endian and %s in big endian are not reversals of scalars' % (
            i, little[i:i + 8], big[i:i + 8]), what)


def reversal(a, b):
    """None when b results from a by reversing disjoint runs of 2, 4 or 8 bytes; otherwise the first stuck position."""
    n = len(a)
    reach, worst = {0}, 0
    for i in range(n):
        if i not in reach:
            continue
        worst = i
        if cppsys.same(a[i], b[i]) or a[i] is UNDEF and b[i] is UNDEF:
            reach.add(i + 1)
        for k in (2, 4, 8):
            if i + k <= n and all(cppsys.same(a[i + j], b[i + k - 1 - j]) for j in range(k)):
                reach.add(i + k)
    return None if n in reach else worst


def check_cpp(res, u, t, v, what):
    at = ('prophy_cpp/include/prophy/detail/encoder.hpp', 'encode', '?')

    def run():
        out = {}
        for e in 'lbn':
            r = cppsys.Run(u)
            try:
                out[e] = r.vector(t, r.value(t, v), e)
            except (Fault, CxxExc) as x:
                out[e] = x
        return out

    for p, got, x in cppsys.run_traces(run, res, what):
        if x is not None or any(isinstance(c, Exception) for c in got.values()):
            res.skip('encoding fails (other properties)', what)
            continue
        judge(res, 'cpp', got['l'], got['b'], t, v, at, what)
        i = cppsys.cells_differ(got['n'], got['l'])
        if i is None:
            res.ok('cpp-native')
        elif all(c is not UNDEF for c in got['l']):
            res.bad('cpp-native', at, 'byte %d is %s, in host order %s' % (
                i, got['n'][i] if i < len(got['n']) else 'missing', got['l'][i] if i < len(got['l']) else 'missing'), what)


def check_python(res, t, cls, v, what):
    def run():
        a = pycodec.encode(pycodec.build(cls, t, v), '<')
        b = pycodec.encode(pycodec.build(cls, t, v), '>')
        return a, b
    for p, got, x in traces(run, res, what):
        if x is not None or not all(isinstance(g, AB) for g in got):
            res.skip('encoding fails (other properties)', what)
            continue
        a, b = got
        at = ('prophy/scalar.py', 'encode', '?')
        i = cppsys.cells_differ(list(b.cells), spec.encode(t, v, '>').cells)
        if i is None:
            i = cppsys.cells_differ(list(a.cells), spec.encode(t, v, '<').cells)
        if i is not None and i < min(len(a), len(b)):
            at = b.prov[i] or a.prov[i] or at
        judge(res, 'python', list(a.cells), list(b.cells), t, v, at, what)


def cpp_batch(res, task):
    types, shapes = task
    for u in cppsys.full(res, types, ('encode',)):
        for t in u.types:
            for sh in shapes:
                v = pycodec.shape_value(t, sh)
                if v is not None:
                    check_cpp(res, u, t, v, pycodec.describe(t, sh, ''))


def python_batch(res, task):
    types, shapes = task
    for t, cls in pycodec.load(res, types):
        for sh in shapes:
            v = pycodec.shape_value(t, sh)
            if v is not None:
                check_python(res, t, cls, v, pycodec.describe(t, sh, ''))


def mixed(res, task):
    (python_batch if task[0] == 'python' else cpp_batch)(res, task[1])


def tasks(ctx):
    out = [('cpp', x) for x in cppfam.tasks(ctx, 500, 200)]
    a, b = cppfam.types(ctx, 1500, 300)
    a = a + [t for t in family.externals() if not cppfam.own_sizers(t)]
    out += [('python', (x, cppfam.SHAPES)) for x in pycodec.batches(a)]
    out += [('python', (x, cppfam.FEW)) for x in pycodec.batches(b)]
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of the Python codec and of the LLVM IR of the C++ full codec: encodings of one abstract value '
        'in both byte orders are compared cell by cell, knowing which bytes form a scalar and which are padding.')
    ctx.assumptions = ['the analysed C++ target (x86-64) is little-endian', 'array lengths 0..5']
    run_tasks(ctx, mixed, tasks(ctx), 'batches of schemas')
    for r in ('python-scalars', 'python-padding', 'cpp-scalars', 'cpp-padding', 'cpp-native'):
        ctx.floor(r, 3000)
