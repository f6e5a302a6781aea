"""C03: the C++ full codec reads what the format documents and what Python writes, and writes it back."""

from .. import cppfam, cppsys, pycodec, pysys, spec
from ..dom import AB
from ..harness import run_tasks, traces
from ..irai import CxxExc, Fault

RULES = {
    'decode-accepts': 'decode() of canonical bytes returns true, without undefined behaviour or an exception',
    'round-trip': 'encode() after decode() of canonical bytes returns the identical bytes',
    'cpp-encodes': 'encode() of an object assigned through its members gives the documented bytes',
    'reused-object': 'the same holds when the object held another message before',
    'python-bytes': 'the same holds for the bytes the Python codec produces',
}
GEN = 'prophyc/generators/cpp_full.py'
NAMES = {'l': 'little', 'b': 'big', 'n': 'native'}


def where(rule):
    return {'round-trip': (GEN, 'generate_struct_encode', '?'), 'cpp-encodes': (GEN, 'generate_struct_encode', '?'),
            'decode-accepts': (GEN, 'generate_struct_decode', '?')}.get(rule, (GEN, 'generate_struct_decode', '?'))


def report(res, rule, out, want, notes, what):
    """out: (accepted, bytes, Fault)"""
    ok, got, x = out
    if x is not None:
        res.bad(rule if rule in ('cpp-encodes', 'reused-object', 'python-bytes') else 'decode-accepts', x.at(), cppsys.fault_text(x), what)
        return
    if not ok:
        res.bad('decode-accepts' if rule == 'round-trip' else rule, where('decode-accepts'), 'decode() of %r returns false' % AB(want), what)
        return
    if rule == 'round-trip':
        res.ok('decode-accepts')
    i = cppsys.cells_differ(got, want)
    if i is None:
        res.ok(rule)
        return
    n = notes[i] if notes and i < len(notes) else ('past', 'the end')
    res.bad(rule, where(rule), 'byte %d (%s %s) is %s instead of %s' % (
        i, n[0], n[1], got[i] if i < len(got) else 'missing', want[i] if i < len(want) else 'nothing'), what)


def attempt(f):
    try:
        return f()
    except (Fault, CxxExc) as x:
        return None, None, x


def check_value(res, u, t, v, other, ends, what, python=None):
    refs = {e: spec.encode(t, v, cppsys.ENDS[e]) for e in ends}
    if not all(spec.tail_aligned(t, r) for r in refs.values()):
        return
    o = spec.encode(t, other, '<') if other is not None else None
    if o is not None and not spec.tail_aligned(t, o):
        o = None

    def run():
        out = []
        for e in ends:
            ref = refs[e].cells

            def fresh():
                r = cppsys.Run(u)
                p = r.fresh(t)
                ok = r.decode(t, p, ref, e)
                return ok, r.vector(t, p, e) if ok else None, None

            def encode():
                r = cppsys.Run(u)
                return True, r.vector(t, r.value(t, v), e), None

            def reused():
                r = cppsys.Run(u)
                p = r.fresh(t)
                if not r.decode(t, p, o.cells, 'l'):
                    return None
                ok = r.decode(t, p, ref, e)
                return ok, r.vector(t, p, e) if ok else None, None

            out.append((e, 'round-trip', attempt(fresh)))
            out.append((e, 'cpp-encodes', attempt(encode)))
            if o is not None:
                out.append((e, 'reused-object', attempt(reused)))
        return out

    for p, got, x in cppsys.run_traces(run, res, what):
        if x is not None:
            res.skip('driver: ' + cppsys.fault_text(x), what)
            continue
        for e, rule, y in got:
            if y is not None:
                report(res, rule, y, refs[e].cells, refs[e].notes, '%s, %s' % (what, NAMES[e]))
    if python is None:
        return
    for e in ends:
        for p, got, x in traces(lambda: pycodec.encode(pycodec.build(python, t, v), cppsys.ENDS[e]), res, what):
            if x is not None or not isinstance(got, AB):
                continue
            if pysys.cells_differ(got, refs[e].cells) is None:
                res.ok('python-bytes')
                continue

            def foreign():
                r = cppsys.Run(u)
                q = r.fresh(t)
                ok = r.decode(t, q, got.cells, e)
                return ok, r.vector(t, q, e) if ok else None, None
            for p2, y, x2 in cppsys.run_traces(lambda: attempt(foreign), res, what):
                if x2 is None:
                    report(res, 'python-bytes', y, list(got.cells), None, '%s, %s' % (what, NAMES[e]))


def batch(res, task):
    types, shapes = task
    for u in cppsys.full(res, types, ('encode', 'decode'), python=True):
        for t in u.types:
            vs = [(sh, pycodec.shape_value(t, sh)) for sh in shapes]
            vs = [x for x in vs if x[1] is not None]
            for k, (sh, v) in enumerate(vs):
                other = vs[(k + 1) % len(vs)][1]
                check_value(res, u, t, v, other, 'lbn' if k == 0 else 'lb'[k % 2], pycodec.describe(t, sh, ''),
                            u.python.d.get(t.name) if k < 3 else None)


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of the LLVM IR of the generated C++ full codec: decode() of the documented bytes (unknown '
        'scalar values) and of the bytes the abstractly interpreted Python codec produces, into fresh and reused objects, '
        'followed by encode(); bytes are compared cell by cell.')
    ctx.assumptions = ['buffers are aligned as operator new aligns them', 'x86-64, clang front end', 'array lengths 0..5']
    run_tasks(ctx, batch, cppfam.tasks(ctx, 700, 250), 'batches of schemas')
    for r in ('round-trip', 'cpp-encodes', 'reused-object', 'python-bytes'):
        ctx.floor(r, 4000)
