"""C05: get_byte_size, the bytes written and the length of the returned vector agree."""

from .. import cppfam, cppsys, irai, pycodec, spec
from ..harness import run_tasks
from ..irai import CxxExc, Fault, UNDEF

RULES = {
    'in-bounds': 'encode(void*) into a buffer of get_byte_size() bytes writes only inside of it',
    'bytes-written': 'encode(void*) returns get_byte_size()',
    'vector-length': 'the vector returned by encode() has get_byte_size() bytes',
    'fixed-size': 'get_byte_size() of a fixed type is encoded_byte_size',
    'uncountable': 'the same for arrays with more elements than their sizer can count',
    'encode-throws': 'encoding and get_byte_size() do not throw and have no undefined behaviour',
}
GEN = 'prophyc/generators/cpp_full.py'


def check_value(res, u, t, v, ends, what):
    fixed = spec.stiffness(t) == 'fixed'

    def run():
        r = cppsys.Run(u)
        p = r.value(t, v)
        n = r.size(t, p)
        out = [n, irai.signed(cppsys.number(r.call('const_' + t.name)), 32) if fixed else None]
        for e in ends:
            got = [e, None, None, None]
            try:
                got[1] = r.encode(t, p, e, n)[0]
                got[2] = len(r.vector(t, p, e))
            except (Fault, CxxExc) as x:
                del r.m.frames[:]
                got[3] = x
            out.append(got)
        return out

    for p, v, e in cppsys.run_traces(run, res, what):
        if e is not None:
            res.bad('encode-throws', e.at(), cppsys.fault_text(e), what)
            continue
        n, const = v[:2]
        if const is not None:
            if const == n:
                res.ok('fixed-size')
            else:
                res.bad('fixed-size', (GEN, 'get_byte_size', '?'), 'get_byte_size() is %d, encoded_byte_size is %d' % (n, const), what)
        for e, k, m, x in v[2:]:
            w = '%s, %s' % (what, {'l': 'little', 'b': 'big', 'n': 'native'}[e])
            if x is not None:
                rule = 'in-bounds' if isinstance(x, Fault) and x.kind == 'bounds' else 'encode-throws'
                res.bad(rule, x.at(), '%s; get_byte_size() is %d' % (cppsys.fault_text(x), n), w)
                continue
            res.ok('in-bounds')
            if k == n:
                res.ok('bytes-written')
            else:
                res.bad('bytes-written', (GEN, 'get_byte_size', '?'), 'encode() returns %d, get_byte_size() is %d' % (k, n), w)
            if m == n:
                res.ok('vector-length')
            else:
                res.bad('vector-length', ('prophy_cpp/include/prophy/detail/message.hpp', 'encode', '?'),
                        'the vector has %d bytes, get_byte_size() is %d' % (m, n), w)


def batch(res, task):
    types, shapes = task
    for u in cppsys.full(res, types, ('encode',)):
        for t in u.types:
            for k, sh in enumerate(shapes):
                v = pycodec.shape_value(t, sh)
                if v is not None:
                    check_value(res, u, t, v, 'lbn' if k == 0 else 'lb'[k % 2], pycodec.describe(t, sh, ''))
                if cppfam.limited(t) and k < 3:
                    v = spec.value(t, cppfam.Over(*sh))
                    if pycodec.sizers_fit(t, v):
                        check_value(res, u, t, v, 'lbn' if k == 0 else 'lb'[k % 2],
                                    pycodec.describe(t, sh, '') + ' | limited arrays overfilled')


def uncountable(res, task):
    """More elements than the sizer can express."""
    t, n = task
    for u in cppsys.full(res, [t], ('encode',)):
        v = spec.value(t, spec.Shape((n,), (True,), (0,), (0,)))
        what = '%s with %d elements' % (t, n)

        def run():
            r = cppsys.Run(u)
            p = r.value(t, v)
            k = r.size(t, p)
            try:
                return k, r.encode(t, p, 'l', k)[0], None
            except (Fault, CxxExc) as x:
                return k, None, x

        for p, x, e in cppsys.run_traces(run, res, what):
            if e is not None or x[2] is not None or x[0] != x[1]:
                res.bad('uncountable', (GEN, 'generate_struct_encode', '?'), 'get_byte_size() and encode() disagree: %s' % (
                    cppsys.fault_text(e or x[2]) if e or x[2] else '%d and %d' % x[:2]), what)
            else:
                res.ok('uncountable')


def mixed(res, task):
    if isinstance(task[0], spec.Struct):
        uncountable(res, task)
    else:
        batch(res, task)


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of the LLVM IR of the generated C++ full codec and its headers: for each abstract value the '
        'result of get_byte_size() is compared with the bytes encode() accounts for, and every store of encode() is checked '
        'against a buffer of exactly that size.')
    ctx.assumptions = ['buffers are aligned as operator new aligns them', 'x86-64, clang front end',
                       'array lengths 0..5, limited arrays up to six elements beyond their limit']
    over = [(spec.Struct('X', [spec.M('n', s), spec.M('a', spec.U16, 'ext', sizer='n')]), n)
            for s, n in ((spec.U8, 256), (spec.U8, 300), (spec.I8, 130))]
    run_tasks(ctx, mixed, over + cppfam.tasks(ctx), 'batches of schemas')
    ctx.floor('uncountable', 3)
    for r in ('in-bounds', 'bytes-written', 'vector-length'):
        ctx.floor(r, 5000)
    ctx.floor('fixed-size', 1000)
