"""Abstract interpreter of LLVM IR.

Integers are constants, byte vectors with provenance (`V.cells`) or affine forms (`V.lin`); pointers are an
object and an offset; memory is made of byte cells.  A branch the domain cannot decide splits the trace.
Every access is checked against the bounds and the lifetime of its object; the code of the standard
library's templates is interpreted like any other, only functions without a body are modelled.
"""

import math
import os
import re

from . import ir
from .dom import AS, Atom, Budget, Cell, Hole, Lin, Unsupported, ladd, lmulc, mktext
from .ir import BadIR, Cur, skip_attrs, tokens
from .pyai import S


class Fault(Exception):
    """Undefined behaviour or another forbidden event on the current trace."""

    def __init__(self, kind, what):
        Exception.__init__(self, what)
        self.kind, self.what, self.stack = kind, what, stack()

    def at(self):
        return locate(self.stack)


class CxxExc(Exception):
    """A C++ exception in flight."""

    def __init__(self, kind, info=None, obj=None):
        Exception.__init__(self, kind)
        self.kind, self.stack = kind, stack()
        self.info = info or '@_ZTISt%d%s' % (len(kind), kind)      # its type's name
        self.obj = obj

    def at(self):
        return locate(self.stack)


class Undef(object):
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class V(object):
    """Integer of w bits which is not a constant."""
    __slots__ = ('w', 'cells', 'lin')

    def __init__(self, w, cells=None, lin=None):
        self.w, self.cells, self.lin = w, cells, lin

    def __repr__(self):
        return '<%s>' % (' '.join(map(str, self.cells)) if self.cells else self.lin,)


class Obj(object):
    __slots__ = ('name', 'size', 'data', 'alive', 'const', 'align', 'heap')

    def __init__(self, name, size, fill=UNDEF, align=16, heap=False):
        self.name, self.size, self.data, self.alive, self.const, self.align, self.heap = name, size, [fill] * size, True, False, align, heap

    def __repr__(self):
        return self.name


class Ptr(object):
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o is x.o and self.off == x.off

    def __ne__(self, x):
        return not self == x

    def __hash__(self):
        return hash((id(self.o), self.off))

    def __repr__(self):
        return '&%s+%s' % (self.o, self.off)


class Fn(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return isinstance(x, Fn) and x.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class PB(object):
    """Byte k of a stored pointer."""
    __slots__ = ('p', 'k')

    def __init__(self, p, k):
        self.p, self.k = p, k


class Frame(object):
    __slots__ = ('fn', 'loc', 'ret', 'exc', 'allocas')

    def __init__(self, fn):
        self.fn, self.loc, self.ret, self.exc, self.allocas = fn, None, None, None, None


class Machine(object):
    """State of one trace."""

    def __init__(self, mod, externs=None, max_steps=2000000):
        self.mod, self.externs = mod, externs or {}
        self.frames, self.globals = [], {}
        self.max_steps = max_steps
        self.steps = 0
        self.allocated = 0
        self.alloc_hook = None
        self.store_hook = None
        self.texts = {}
        self.calls = set()
        self.caught = []

    def call(self, name, *args):
        global M
        old = M
        M = self
        try:
            return call_function('@' + name, list(args))
        finally:
            M = old
            if self.calls:
                S.functions |= known_functions(self.calls)
                self.calls = set()


M = None


def stack():
    if M is None:
        return []
    return [M.mod.location(f.loc) if f.loc else (None, f.fn.name, 0) for f in M.frames]


_NAMES = {}


def known_functions(calls):
    """Functions of the analysed headers and of generated code, template arguments left out."""
    out = set()
    for c in calls:
        r = _NAMES.get(c)
        if r is None:
            f, fn, line = locate([c])
            r = _NAMES[c] = (f, re.sub(r'<.*', '', fn)) if f and not f.startswith('/') else ()
        if r:
            out.add(r)
    return out


def locate(st):
    """The innermost construct of the analysed repository or of generated code: (file, function, line)."""
    from . import pysys
    for f, fn, line in reversed(st):
        if f and (f.startswith(pysys.ROOT + '/') or f.startswith(os.path.realpath(pysys.ROOT) + '/')):
            root = pysys.ROOT if f.startswith(pysys.ROOT + '/') else os.path.realpath(pysys.ROOT)
            return (f[len(root) + 1:], fn, line)
        if f and re.search(r'\.(pp|ppf)\.[ch]pp$', f):
            return ('<generated>' + re.search(r'\.ppf?\.[ch]pp$', f).group(), fn, line)
    return st[-1] if st else ('?', '?', 0)


# ------------------------------------------------------------------------------ integers

def signed(x, w):
    return x - (1 << w) if x >> (w - 1) else x


_LINS = {}


def cells_lin(cells):
    """The unsigned number little-endian cells stand for."""
    n = len(cells)
    while n and isinstance(cells[n - 1], int) and cells[n - 1] == 0:
        n -= 1
    cs = cells[:n]
    for c in cs:
        if c is UNDEF:
            raise Fault('uninitialised', 'a value which was never set is used')
        if isinstance(c, PB):
            raise Unsupported('arithmetic on part of a pointer')
    if all(isinstance(c, int) for c in cs):
        return sum(c << (8 * k) for k, c in enumerate(cs))
    c0 = cs[0]
    if isinstance(c0, Cell) and c0.kind == 'i' and isinstance(c0.term, Lin) and all(
            isinstance(c, Cell) and c.kind == 'i' and c.sig == k and c.term == c0.term for k, c in enumerate(cs)):
        lo, hi = S.path.interval(c0.term)
        m = 1 << (8 * n)
        if lo is not None and lo >= 0 and hi is not None and hi < m:
            return c0.term
        if lo is not None and hi is not None and lo >= -(m >> 1) and hi < m and n == len(cells):
            return ladd(c0.term, m) if S.path.cmp('<', c0.term, 0) else c0.term
    a = Atom('[%s]' % ' '.join(map(str, cs)), 0, (1 << (8 * n)) - 1, tuple(cs))
    return Lin(0, ((a, 1),))


def lin(x):
    if isinstance(x, int):
        return x
    if x is UNDEF:
        raise Fault('uninitialised', 'a value which was never set is used')
    if isinstance(x, Ptr):
        raise Unsupported('address used as a number')
    if x.lin is None:
        x.lin = cells_lin(x.cells)
    return x.lin


def cells_of(x, n):
    """Little-endian cells of an n-byte integer."""
    if isinstance(x, int):
        return [(x >> (8 * k)) & 0xff for k in range(n)]
    if x is UNDEF:
        return [UNDEF] * n
    if isinstance(x, (Ptr, Fn)):
        return [PB(x, k) for k in range(n)]
    if x.cells is None:
        l = S.path.conc(x.lin)
        if isinstance(l, int):
            return [(l >> (8 * k)) & 0xff for k in range(n)]
        a = l.atom
        if a is not None and a.cells is not None:
            x.cells = tuple(a.cells) + (0,) * (n - len(a.cells))
        else:
            x.cells = tuple(Cell('i', l, k) for k in range(n))
    return list(x.cells)


def from_cells(cells, w):
    if all(type(c) is int for c in cells):
        return sum(c << (8 * k) for k, c in enumerate(cells))
    return V(w, tuple(cells))


def norm(l, w):
    """An affine form reduced modulo 2**w."""
    m = 1 << w
    if isinstance(l, int):
        return l % m
    for _ in range(18):
        lo, hi = S.path.interval(l)
        if lo is not None and hi is not None and lo >= 0 and hi < m:
            if lo == hi:
                return lo
            return V(w, None, l)
        if lo is None or lo < 0:
            if S.path.cmp('<', l, 0):
                l = ladd(l, m)
                continue
        if hi is None or hi >= m:
            if not S.path.cmp('<', l, m):
                l = ladd(l, -m)
    return opaque('mod(%r,%d)' % (l, w), w, 0, m - 1)


def opaque(name, w, lo=0, hi=None):
    return V(w, None, Lin(0, ((Atom(name, lo, (1 << w) - 1 if hi is None else hi), 1),)))


def number(x, limit=80):
    """The value as a plain int, splitting the trace over a small range."""
    if isinstance(x, int):
        return x
    l = S.path.conc(x if isinstance(x, Lin) else lin(x))
    if isinstance(l, int):
        return l
    lo, hi = S.path.interval(l)
    if lo is None or hi is None or hi - lo > limit:
        raise Unsupported('number between %s and %s needed' % (lo, hi))
    for k in range(lo, hi):
        if S.path.cmp('==', l, k):
            return k
    return hi


def ranged(x):
    if isinstance(x, int):
        return x, x
    return S.path.interval(x if isinstance(x, Lin) else lin(x))


def op_add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << w) - 1)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(b, Ptr):
            a, b = b, a
        if isinstance(b, Ptr):
            raise Unsupported('sum of addresses')
        return Ptr(a.o, ladd(a.off, signed(b, w) if isinstance(b, int) else lin(b)))
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
        return b if isinstance(a, int) else a
    if isinstance(a, V) and isinstance(b, V) and a.cells is not None and b.cells is not None and len(a.cells) == len(b.cells) and all(
            x == 0 or y == 0 for x, y in zip(a.cells, b.cells)):
        return from_cells([y if x == 0 else x for x, y in zip(a.cells, b.cells)], w)    # bytes put together
    return norm(ladd(lin(a), lin(b)), w)


def op_sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & ((1 << w) - 1)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.o is not b.o:
            raise Fault('pointers', 'difference of pointers to different objects')
        return norm(ladd(a.off, b.off, -1), w)
    if isinstance(a, Ptr) and isinstance(b, int):
        return Ptr(a.o, ladd(a.off, -signed(b, w)))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if b == 0 or a == 0:
            raise Fault('pointers', 'difference of a pointer and null')
        raise Unsupported('difference with an address')
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return norm(ladd(lin(a), lin(b), -1), w)


def op_mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & ((1 << w) - 1)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, int):
        a, b = b, a
    if whole_bytes(a, b):
        return op_shl(a, b.bit_length() - 1, w)
    la, lb = S.path.conc(lin(a)), S.path.conc(lin(b))
    if isinstance(lb, int):
        la, lb = lb, la
    if isinstance(la, int):
        if la == (1 << w) - 1:
            return norm(ladd(0, lb, -1), w)
        return norm(lmulc(lb, la), w)
    return opaque('mul(%r,%r)' % (la, lb), w)


def whole_bytes(a, k):
    """Is k a power of 256, which moves the bytes of a?"""
    return isinstance(a, V) and a.cells is not None and isinstance(k, int) and k > 1 and k & (k - 1) == 0 and k.bit_length() % 8 == 1


def bitwise(name, a, b, w, f):
    if isinstance(a, int) and isinstance(b, int):
        return f(a, b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        return f(number(a), number(b))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(b, Ptr):
            a, b = b, a
        if name == 'and' and isinstance(b, int):
            off = number(a.off)
            s = signed(b, w)
            if s < 0 and (-s) & (-s - 1) == 0:
                if -s > a.o.align:
                    raise Unsupported('alignment of an address to %d' % -s)
                return Ptr(a.o, off & s)
            if b < a.o.align:
                return off & b
        raise Unsupported('bits of an address')
    n = (w + 7) // 8
    ca, cb = cells_of(a, n), cells_of(b, n)
    out = []
    for x, y in zip(ca, cb):
        if isinstance(x, int) and isinstance(y, int):
            out.append(f(x, y))
            continue
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            if name == 'and' and y in (0, 0xff):
                out.append(0 if y == 0 else x)
                continue
            if name == 'or' and y in (0, 0xff):
                out.append(x if y == 0 else 0xff)
                continue
            if name == 'xor' and y == 0:
                out.append(x)
                continue
            if name == 'xor' and isinstance(x, Cell) and x.kind == 'xor' and isinstance(x.term[1], int):
                x, y = x.term[0], x.term[1] ^ y
                out.append(Cell('xor', (x, y), 0) if y else x)
                continue
        if x is UNDEF or y is UNDEF:
            out.append(UNDEF)
        elif x == y and name != 'xor':
            out.append(x)
        else:
            out.append(Cell(name, (x, y), 0))
    return from_cells(out, w)


def op_and(a, b, w):
    if isinstance(b, int) and isinstance(a, V) and a.cells is None and b & (b + 1) == 0:
        lo, hi = ranged(a)
        if hi is not None and hi <= b:
            return a
    return bitwise('and', a, b, w, lambda x, y: x & y)


def op_or(a, b, w):
    return bitwise('or', a, b, w, lambda x, y: x | y)


def op_xor(a, b, w):
    if isinstance(b, int) and b == (1 << w) - 1 and isinstance(a, V):
        return norm(ladd(b, lin(a), -1), w)
    return bitwise('xor', a, b, w, lambda x, y: x ^ y)


def op_shl(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a << b) & ((1 << w) - 1)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = number(b)
    if b % 8 == 0 and w % 8 == 0:
        n = w // 8
        return from_cells(([0] * (b // 8) + cells_of(a, n))[:n], w)
    return norm(lmulc(lin(a), 1 << b), w)


def op_lshr(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a >> b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = number(b)
    if b % 8 == 0 and w % 8 == 0:
        return from_cells((cells_of(a, w // 8) + [0] * (b // 8))[b // 8:], w)
    return div_const(lin(a), 1 << b, w)


def negative(x, w):
    if isinstance(x, int):
        return bool(x >> (w - 1))
    t = signed_term(x, w)
    if t is not None:
        return S.path.cmp('<', t, 0)
    return not S.path.cmp('<', lin(x), 1 << (w - 1))


def op_ashr(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, int) and isinstance(b, int):
        return (signed(a, w) >> b) & ((1 << w) - 1)
    if not negative(a, w):
        return op_lshr(a, b, w)
    b = number(b)
    if b % 8 == 0 and w % 8 == 0:
        return from_cells((cells_of(a, w // 8) + [0xff] * (b // 8))[b // 8:], w)
    raise Unsupported('arithmetic shift of an unknown negative number')


def div_const(l, k, w):
    l = S.path.conc(l)
    if isinstance(l, int):
        return l // k
    if k == 1:
        return V(w, None, l)
    if l.c % k == 0 and all(m % k == 0 for _, m in l.t):
        return norm(Lin(l.c // k, tuple((a, m // k) for a, m in l.t)), w)
    lo, hi = S.path.interval(l)
    if hi is not None and hi - lo <= 40:
        return number(l) // k
    return opaque('div(%r,%d)' % (l, k), w, 0 if lo is None else lo // k, None if hi is None else hi // k)


def op_udiv(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = number(b)
    if b == 0:
        raise Fault('division', 'division by zero')
    if whole_bytes(a, b):
        return op_lshr(a, b.bit_length() - 1, w)
    return div_const(lin(a), b, w) if not isinstance(a, int) else a // b


def op_urem(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = number(b)
    if b == 0:
        raise Fault('division', 'division by zero')
    if isinstance(a, Ptr):
        return op_and(a, b - 1, w)
    if isinstance(a, int):
        return a % b
    if whole_bytes(a, b):
        return op_and(a, b - 1, w)
    lo, hi = ranged(a)
    if hi is not None and hi < b:
        return a
    if hi is not None and hi - lo <= 40:
        return number(a) % b
    return opaque('rem(%r,%d)' % (lin(a), b), w, 0, b - 1)


def signed_term(x, w):
    """The signed number a value is the whole two's complement form of, if that is evident."""
    if not isinstance(x, V) or x.cells is None or w % 8 or len(x.cells) != w // 8:
        return None
    c0 = x.cells[0]
    if isinstance(c0, Cell) and c0.kind == 'i' and isinstance(c0.term, Lin) and all(
            isinstance(c, Cell) and c.kind == 'i' and c.sig == k and c.term == c0.term for k, c in enumerate(x.cells)):
        lo, hi = S.path.interval(c0.term)
        if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
            return c0.term
    return None


def sgn(x, w):
    """Signed linear view."""
    if isinstance(x, int):
        return signed(x, w)
    t = signed_term(x, w)
    if t is not None:
        return t
    l = lin(x)
    return ladd(l, -(1 << w)) if negative(x, w) else l


def op_sdiv(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = signed(number(b), w)
    if b == 0:
        raise Fault('division', 'division by zero')
    if isinstance(a, int):
        x = signed(a, w)
        q = abs(x) // abs(b)
        return (q if (x < 0) == (b < 0) else -q) & ((1 << w) - 1)
    if b > 0 and not negative(a, w):
        return div_const(lin(a), b, w)
    l = sgn(a, w)
    if b > 0 and isinstance(l, Lin) and l.c % b == 0 and all(m % b == 0 for _, m in l.t):
        return norm(Lin(l.c // b, tuple((t, m // b) for t, m in l.t)), w)
    raise Unsupported('division of an unknown negative number')


def op_srem(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        x, y = signed(a, w), signed(b, w)
        if y == 0:
            raise Fault('division', 'division by zero')
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & ((1 << w) - 1)
    if negative(a, w):
        raise Unsupported('remainder of an unknown negative number')
    return op_urem(a, b, w)


BIN = {'add': op_add, 'sub': op_sub, 'mul': op_mul, 'and': op_and, 'or': op_or, 'xor': op_xor, 'shl': op_shl, 'lshr': op_lshr,
       'ashr': op_ashr, 'udiv': op_udiv, 'sdiv': op_sdiv, 'urem': op_urem, 'srem': op_srem}


def icmp(pred, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 's':
            a, b = signed(a, w), signed(b, w)
        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred])
    if a is UNDEF or b is UNDEF:
        raise Fault('uninitialised', 'a condition depends on a value which was never set')
    if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
        return ptr_cmp(pred, a, b)
    if pred in ('eq', 'ne'):
        r = cells_eq(a, b, w)
        if r is None:
            r = S.path.cmp('==', lin(a), lin(b))
        return int(r == (pred == 'eq'))
    if pred[0] == 's':
        x, y = sgn(a, w), sgn(b, w)
    else:
        x, y = lin(a), lin(b)
    p = pred[1:]
    if p == 'lt':
        return int(S.path.cmp('<', x, y))
    if p == 'le':
        return int(S.path.cmp('<=', x, y))
    if p == 'gt':
        return int(S.path.cmp('<', y, x))
    return int(S.path.cmp('<=', y, x))


def cells_eq(a, b, w):
    """Equality of byte vectors where cells decide it."""
    if isinstance(a, V) and isinstance(b, V) and a.cells and b.cells and a.cells == b.cells and UNDEF not in a.cells:
        return True
    return None


def ptr_cmp(pred, a, b):
    if isinstance(a, Fn) or isinstance(b, Fn):
        return int((a == b) == (pred == 'eq'))
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        # against null, or against a small number: addresses are not null
        if pred in ('eq', 'ne'):
            return int(pred == 'ne')
        return int((pred[1:] in ('gt', 'ge')) == isinstance(a, Ptr))
    if a.o is not b.o:
        if pred in ('eq', 'ne'):
            return int(pred == 'ne')
        raise Unsupported('order of pointers to different objects')
    x, y = a.off, b.off
    if isinstance(x, int) and isinstance(y, int):
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if len(pred) == 2 else pred[1:]])
    p = pred if len(pred) == 2 else pred[1:]
    if p in ('eq', 'ne'):
        return int(S.path.cmp('==', x, y) == (p == 'eq'))
    if p == 'lt':
        return int(S.path.cmp('<', x, y))
    if p == 'le':
        return int(S.path.cmp('<=', x, y))
    if p == 'gt':
        return int(S.path.cmp('<', y, x))
    return int(S.path.cmp('<=', y, x))


def trunc(x, a, b):
    if isinstance(x, int):
        return x & ((1 << b) - 1)
    if x is UNDEF:
        return x
    if isinstance(x, Ptr):
        off = number(x.off)
        if (1 << b) <= x.o.align:
            return off & ((1 << b) - 1)
        raise Unsupported('part of an address')
    if b % 8 == 0 and x.cells is not None:
        return from_cells(x.cells[:b // 8], b)
    lo, hi = ranged(x)
    if hi is not None and hi < (1 << b):
        return V(b, None, lin(x)) if b > 1 else number(x)
    if b % 8 == 0:
        return from_cells(cells_of(x, (a + 7) // 8)[:b // 8], b)
    if b == 1:
        c = x.cells[0] if x.cells is not None else None
        return int(S.path.flag(('bit0', str(c if c is not None else x.lin)), 'lowest bit of %s' % (x,)))
    return opaque('trunc(%r,%d)' % (lin(x), b), b)


def zext(x, a, b):
    if isinstance(x, (int, Undef, Ptr)):
        return x
    if x.cells is not None:
        return V(b, tuple(x.cells) + (0,) * ((b - a) // 8), x.lin)
    return V(b, None, x.lin)


def sext(x, a, b):
    if isinstance(x, int):
        return signed(x, a) & ((1 << b) - 1)
    if x is UNDEF:
        return x
    t = signed_term(x, a)
    if t is not None and b % 8 == 0 and S.path.interval(t)[0] < 0:
        return V(b, tuple(Cell('i', t, k) for k in range(b // 8)))
    if not negative(x, a):
        return zext(x, a, b)
    if x.cells is not None:
        return V(b, tuple(x.cells) + (0xff,) * ((b - a) // 8))
    return norm(ladd(lin(x), (1 << b) - (1 << a)), b)


# ------------------------------------------------------------------------------ memory

def check(p, n, what, align=1):
    if not isinstance(p, Ptr):
        if p is UNDEF:
            raise Fault('uninitialised', 'a pointer which was never set is dereferenced')
        if isinstance(p, int):
            raise Fault('bounds', '%s of %d bytes through a null pointer' % (what, n))
        raise Unsupported('%s through an unknown pointer' % what)
    o = p.o
    if not o.alive:
        raise Fault('lifetime', '%s of %d bytes of %s after it was released' % (what, n, o.name))
    off = p.off
    if not isinstance(off, int):
        lo, hi = S.path.interval(off)
        if lo is None or lo < 0:
            if S.path.cmp('<', off, 0):
                raise Fault('bounds', '%s of %d bytes in front of %s' % (what, n, o.name))
        if hi is None or hi > o.size - n:
            if not S.path.cmp('<=', off, o.size - n):
                raise Fault('bounds', '%s of %d bytes behind %s of %d bytes' % (what, n, o.name, o.size))
        off = number(off, 4096)
    if off < 0 or off + n > o.size:
        raise Fault('bounds', '%s of %d bytes at offset %d of %s, which has %d bytes' % (what, n, off, o.name, o.size))
    if align > 1 and off % align and o.align % align == 0:
        raise Fault('alignment', '%s of %d bytes at offset %d of %s, which is not a multiple of %d' % (what, n, off, o.name, align))
    return o, off


def load_bytes(p, n, align=1):
    o, off = check(p, n, 'read', align)
    return o.data[off:off + n]


def store_bytes(p, cells, align=1):
    o, off = check(p, len(cells), 'write', align)
    if o.const:
        raise Fault('bounds', 'write to the constant %s' % o.name)
    o.data[off:off + len(cells)] = cells
    if M.store_hook is not None:
        M.store_hook(o, off, len(cells))


def load(p, t, align):
    if t.k in 'sa':
        return tuple(load(field_ptr(p, t, i), e, 1) for i, e in enumerate(elements(t)))
    n = t.measure().size
    bs = load_bytes(p, n, align)
    b0 = bs[0]
    if isinstance(b0, PB):
        if n == 8 and all(isinstance(b, PB) and b.k == k and (b.p is b0.p or b.p == b0.p) for k, b in enumerate(bs)):
            return b0.p
        return V(8 * n, tuple(bs))
    if all(b is UNDEF for b in bs):
        return UNDEF
    v = from_cells(bs, 8 * n)
    if t.k == 'i' and t.n % 8:
        return trunc(v, 8 * n, t.n)
    return v


def elements(t):
    return t.ts if t.k == 's' else [t.ts[0]] * t.n


def field_ptr(p, t, i):
    t.measure()
    off = t.offs[i] if t.k == 's' else t.ts[0].measure().size * i
    return Ptr(p.o, ladd(p.off, off)) if isinstance(p, Ptr) else p


def store(p, t, v, align):
    if t.k in 'sa':
        if v is UNDEF:
            return
        for i, e in enumerate(elements(t)):
            store(field_ptr(p, t, i), e, v[i] if v != 0 else 0, 1)
        return
    n = t.measure().size
    store_bytes(p, cells_of(v, n), align)


def new_object(name, size, align=16, heap=False):
    return Ptr(Obj(name, size, UNDEF, align, heap))


# ------------------------------------------------------------------------------ compilation of functions

class Block(object):
    __slots__ = ('name', 'phis', 'ins', 'term', 'tloc')

    def __init__(self, name):
        self.name, self.phis, self.ins, self.term, self.tloc = name, [], [], None, None


class Code(object):
    pass


class Compiler(object):
    def __init__(self, fn):
        self.fn, self.mod = fn, fn.mod
        self.template, self.regs, self.consts = [], {}, {}
        self.globals = []
        self.blocks = {}

    def reg(self, name):
        i = self.regs.get(name)
        if i is None:
            i = self.regs[name] = len(self.template)
            self.template.append(UNDEF)
        return i

    def const(self, v):
        self.template.append(v)
        return len(self.template) - 1

    def block(self, name):
        b = self.blocks.get(name)
        if b is None:
            b = self.blocks[name] = Block(name)
        return b

    def value(self, c, t):
        """Register index of an operand."""
        if c.peek()[0] == '%':
            return self.reg(c.next())
        v = constant(c, t, self.mod)
        i = self.const(v)
        if needs_machine(v):
            self.globals.append((i, v))
        return i

    def typed(self, c):
        t = c.type()
        skip_attrs(c)
        return t, self.value(c, t)

    def compile(self):
        fn = self.fn
        c = Cur(tokens(fn.head), self.mod)
        while c.peek() != fn.name:
            c.next()
        c.next()
        c.need('(')
        params = []
        while not c.eat(')'):
            if c.eat('...'):
                continue
            c.type()
            skip_attrs(c)
            params.append(self.reg(c.next()))
            c.eat(',')
        m = re.search(r'!dbg (!\d+)', fn.head)
        code = Code()
        code.params, code.fn = params, fn
        code.file = self.mod.location(m.group(1)) if m else None
        lines = []
        for l in fn.lines:
            if not l or l.lstrip().startswith(';'):
                continue
            if l.startswith('    ') or l.startswith('  ]'):
                lines[-1] += ' ' + l.strip()
            else:
                lines.append(l)
        # the entry block takes the number after the last unnamed parameter
        cur, first = None, None
        for l in lines:
            if not l.startswith(' '):
                name = l.split(';')[0].strip()
                assert name.endswith(':'), l
                name = '%' + name[:-1]
                cur = self.block(name)
                first = first or cur
                continue
            if cur is None:
                k = len([p for p in self.regs if re.match(r'%\d+$', p)])
                cur = first = self.block('%%%d' % k)
            self.line(cur, l)
        code.entry = first
        code.template = self.template
        code.globals = self.globals
        return code

    def line(self, blk, l):
        m = re.search(r', !dbg (!\d+)', l)
        loc = m.group(1) if m else None
        cut = re.search(r', ![a-z][\w.]* !', l)
        if cut:
            l = l[:cut.start()]
        elif m:
            l = l[:m.start()]
        c = Cur(tokens(l), self.mod)
        dst = None
        if c.peek(1) == '=':
            dst = self.reg(c.next())
            c.next()
        op = c.next()
        while op in ('tail', 'musttail', 'notail'):
            op = c.next()
        h = getattr(self, 'i_' + op, None)
        if h is None:
            if op in BIN:
                f = self.binary(c, dst, BIN[op])
            elif op in FBIN:
                skip_fast(c)
                f = self.binary(c, dst, lambda a, b, w, g=FBIN[op]: float_of(g(bits_float(a, w), bits_float(b, w)), w))
            else:
                def f(R, op=op):
                    raise Unsupported('instruction %s' % op)
                if op in ('indirectbr', 'callbr', 'catchswitch'):
                    blk.term = f
                    return
        elif op == 'phi':
            self.i_phi(blk, c, dst)
            return
        elif op in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
            blk.term, blk.tloc = h(c, dst), loc
            return
        else:
            f = h(c, dst)
        blk.ins.append((f, loc))

    # -- plain instructions

    def binary(self, c, dst, f):
        skip_attrs(c)
        t = c.type()
        a = self.value(c, t)
        c.need(',')
        b = self.value(c, t)
        w = t.n

        def run(R):
            R[dst] = f(R[a], R[b], w)
        return run

    def i_icmp(self, c, dst):
        pred = c.next()
        t = c.type()
        a = self.value(c, t)
        c.need(',')
        b = self.value(c, t)
        w = t.n if t.k == 'i' else 64

        def run(R):
            R[dst] = icmp(pred, R[a], R[b], w)
        return run

    def i_fcmp(self, c, dst):
        skip_fast(c)
        pred = c.next()
        t = c.type()
        a = self.value(c, t)
        c.need(',')
        b = self.value(c, t)
        w = t.n

        def run(R):
            R[dst] = fcmp(pred, R[a], R[b], w)
        return run

    def i_fneg(self, c, dst):
        skip_fast(c)
        t, a = self.typed(c)
        w = t.n

        def run(R):
            R[dst] = op_xor(R[a], 1 << (w - 1), w)
        return run

    def float_cast(self, c, dst, f):
        skip_fast(c)
        t = c.type()
        a = self.value(c, t)
        c.need('to')
        t2 = c.type()
        wa, wb = t.n, t2.n

        def run(R):
            R[dst] = f(R[a], wa, wb)
        return run

    def i_fptosi(self, c, dst):
        return self.float_cast(c, dst, float_to_int)

    def i_fptoui(self, c, dst):
        return self.float_cast(c, dst, lambda x, a, b: float_to_int(x, a, b, False))

    def i_sitofp(self, c, dst):
        return self.float_cast(c, dst, lambda x, a, b: float_of(float(known_int(x, a, True)), b))

    def i_uitofp(self, c, dst):
        return self.float_cast(c, dst, lambda x, a, b: float_of(float(known_int(x, a, False)), b))

    def i_fpext(self, c, dst):
        return self.float_cast(c, dst, float_resize)

    i_fptrunc = i_fpext

    def i_alloca(self, c, dst):
        t = c.type()
        n = None
        align = t.measure().align
        while c.eat(','):
            if c.eat('align'):
                align = int(c.next())
            else:
                n = self.typed(c)[1]
        size = t.measure().size
        name = 'a local of %s' % short(self.fn)

        def run(R):
            k = 1 if n is None else number(R[n])
            p = R[dst] = new_object(name, size * k, 16)
            fr = M.frames[-1]
            if fr.allocas is None:
                fr.allocas = []
            fr.allocas.append(p.o)
        return run

    def i_atomicrmw(self, c, dst):
        c.eat('volatile')
        f = {'add': op_add, 'sub': op_sub, 'and': op_and, 'or': op_or, 'xor': op_xor, 'xchg': lambda a, b, w: b}.get(c.next())
        p = self.typed(c)[1]
        c.need(',')
        t, v = self.typed(c)

        def run(R):
            if f is None:
                raise Unsupported('atomicrmw')
            old = load(R[p], t, 1)
            store(R[p], t, f(old, R[v], t.n or 64), 1)
            R[dst] = old
        return run

    def i_fence(self, c, dst):
        return lambda R: None

    def i_load(self, c, dst):
        c.eat('atomic')
        c.eat('volatile')
        t = c.type()
        c.need(',')
        p = self.typed(c)[1]
        skip_order(c)
        align = 1
        while c.eat(','):
            if c.eat('align'):
                align = int(c.next())
        if t.k in 'ipf':
            def run(R):
                R[dst] = load(R[p], t, align)
        else:
            def run(R):
                R[dst] = load(R[p], t, align)
        return run

    def i_store(self, c, dst):
        c.eat('atomic')
        c.eat('volatile')
        t, v = self.typed(c)
        c.need(',')
        p = self.typed(c)[1]
        skip_order(c)
        align = 1
        while c.eat(','):
            if c.eat('align'):
                align = int(c.next())

        def run(R):
            store(R[p], t, R[v], align)
        return run

    def i_getelementptr(self, c, dst):
        skip_attrs(c)
        t = c.type()
        c.need(',')
        p = self.typed(c)[1]
        idx = []
        while c.eat(','):
            it, i = self.typed(c)
            idx.append((i, it.n))
        steps, fixed = gep_plan(self, t, idx)

        def run(R):
            R[dst] = gep(R[p], fixed, [(R[i], w, k) for i, w, k in steps]) if steps else gep(R[p], fixed, ())
        return run

    def i_cast(self, c, dst, f):
        skip_attrs(c)
        t = c.type()
        a = self.value(c, t)
        c.need('to')
        t2 = c.type()
        wa, wb = t.n or 64, t2.n or 64

        def run(R):
            R[dst] = f(R[a], wa, wb)
        return run

    def i_trunc(self, c, dst):
        return self.i_cast(c, dst, trunc)

    def i_zext(self, c, dst):
        return self.i_cast(c, dst, zext)

    def i_sext(self, c, dst):
        return self.i_cast(c, dst, sext)

    def same(self, c, dst):
        return self.i_cast(c, dst, lambda x, a, b: x)

    i_ptrtoint = i_inttoptr = i_bitcast = i_addrspacecast = same

    def i_freeze(self, c, dst):
        t, a = self.typed(c)

        def run(R):
            R[dst] = R[a]
        return run

    def i_select(self, c, dst):
        _, k = self.typed(c)
        c.need(',')
        _, a = self.typed(c)
        c.need(',')
        _, b = self.typed(c)

        def run(R):
            x = R[k]
            if x is UNDEF:
                raise Fault('uninitialised', 'a condition depends on a value which was never set')
            R[dst] = R[a] if number(x) else R[b]
        return run

    def i_extractvalue(self, c, dst):
        _, a = self.typed(c)
        path = []
        while c.eat(','):
            path.append(int(c.next()))

        def run(R):
            v = R[a]
            for k in path:
                v = v[k] if v is not UNDEF and v != 0 else v
            R[dst] = v
        return run

    def i_insertvalue(self, c, dst):
        t, a = self.typed(c)
        c.need(',')
        _, b = self.typed(c)
        path = []
        while c.eat(','):
            path.append(int(c.next()))

        def put(v, t, path, x):
            if not path:
                return x
            es = elements(t)
            v = [UNDEF] * len(es) if v is UNDEF else [0] * len(es) if v == 0 else list(v)
            v[path[0]] = put(v[path[0]], es[path[0]], path[1:], x)
            return tuple(v)

        def run(R):
            R[dst] = put(R[a], t, path, R[b])
        return run

    def i_landingpad(self, c, dst):
        c.type()
        clauses = []
        cleanup = False
        while c.peek() is not None:
            x = c.next()
            if x == 'cleanup':
                cleanup = True
            elif x == 'catch':
                c.type()
                clauses.append(c.next())
                if clauses[-1] == 'bitcast':
                    c.need('(')
                    c.type()
                    clauses[-1] = c.next()
                    break
            elif x == 'filter':
                clauses.append('filter')
                break

        def run(R):
            e = M.frames[-1].exc
            for k in clauses:
                if k == 'filter':
                    raise Unsupported('exception specification')
                if k == 'null' or catches(k, e.info):
                    R[dst] = (e, typeid_for(k))
                    return
            if not cleanup:
                raise e
            R[dst] = (e, 0)
        return run

    def i_phi(self, blk, c, dst):
        t = c.type()
        src = {}
        while True:
            c.need('[')
            v = self.value(c, t)
            c.need(',')
            src[c.next()] = v
            c.need(']')
            if not c.eat(','):
                break
        blk.phis.append((dst, src))

    def args(self, c):
        c.need('(')
        out = []
        while not c.eat(')'):
            if c.peek() == 'metadata':
                d = 0
                while True:
                    x = c.peek()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        if d == 0:
                            break
                        d -= 1
                    elif x == ',' and d == 0:
                        break
                    c.next()
                c.eat(',')
                continue
            out.append(self.typed(c)[1])
            c.eat(',')
        return out

    def callee(self, c):
        """(name or register, arguments)"""
        while c.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            c.next()
        skip_attrs(c)
        c.type()
        skip_attrs(c)
        if c.peek() == '(':             # a function type
            d = 0
            while True:
                x = c.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        x = c.peek()
        if x[0] == '@':
            c.next()
            return x, None, self.args(c)
        i = self.value(c, ir.PTR)
        return None, i, self.args(c)

    def i_call(self, c, dst):
        if 'asm' in c.t:
            def run(R):
                raise Unsupported('inline assembly')
            return run
        name, i, args = self.callee(c)
        if name is not None:
            if name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime') or name == '@llvm.donothing':
                return lambda R: None

            def run(R):
                r = call_function(name, [R[a] for a in args])
                if dst is not None:
                    R[dst] = r
        else:
            def run(R):
                r = call_value(R[i], [R[a] for a in args])
                if dst is not None:
                    R[dst] = r
        return run

    # -- terminators: return the next block, None to return

    def i_invoke(self, c, dst):
        name, i, args = self.callee(c)
        while c.peek() != 'to':
            c.next()
        c.next()
        c.need('label')
        ok = self.block(c.next())
        c.need('unwind')
        c.need('label')
        bad = self.block(c.next())

        def run(R):
            depth = len(M.frames)
            try:
                a = [R[x] for x in args]
                r = call_function(name, a) if name is not None else call_value(R[i], a)
                if dst is not None:
                    R[dst] = r
                return ok
            except CxxExc as e:
                del M.frames[depth:]
                M.frames[-1].exc = e
                return bad
        return run

    def i_resume(self, c, dst):
        _, a = self.typed(c)

        def run(R):
            raise R[a][0]
        return run

    def i_br(self, c, dst):
        if c.eat('label'):
            b = self.block(c.next())
            return lambda R: b
        _, k = self.typed(c)
        c.need(',')
        c.need('label')
        x = self.block(c.next())
        c.need(',')
        c.need('label')
        y = self.block(c.next())

        def run(R):
            v = R[k]
            if v is UNDEF:
                raise Fault('uninitialised', 'a condition depends on a value which was never set')
            if not isinstance(v, int):
                v = number(v)
            return x if v else y
        return run

    def i_switch(self, c, dst):
        t, v = self.typed(c)
        c.need(',')
        c.need('label')
        other = self.block(c.next())
        c.need('[')
        cases = []
        while not c.eat(']'):
            c.type()
            n = int(c.next()) % (1 << t.n)
            c.need(',')
            c.need('label')
            cases.append((n, self.block(c.next())))
        table = dict(cases)

        def run(R):
            x = R[v]
            if x is UNDEF:
                raise Fault('uninitialised', 'a condition depends on a value which was never set')
            if not isinstance(x, int):
                l = S.path.conc(lin(x))
                if not isinstance(l, int):
                    for n, b in cases:
                        if S.path.cmp('==', l, n):
                            return b
                    return other
                x = l
            return table.get(x, other)
        return run

    def i_ret(self, c, dst):
        t = c.type()
        if t.k == 'v':
            return lambda R: None
        v = self.value(c, t)

        def run(R):
            M.frames[-1].ret = R[v]
            return None
        return run

    def i_unreachable(self, c, dst):
        def run(R):
            raise Fault('unreachable', 'execution reaches a point the language leaves undefined')
        return run


def skip_fast(c):
    while c.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
        c.next()


def skip_order(c):
    while c.peek() is not None and c.peek() != ',':
        c.next()


def short(fn):
    m = re.search(r'!dbg (!\d+)', fn.head)
    return fn.mod.location(m.group(1))[1] if m else fn.name


def gep_plan(comp, t, idx):
    """Constant offset and the (register, width, stride) of variable indices."""
    fixed, steps = 0, []
    first = True
    for i, w in idx:
        v = comp.template[i]
        isconst = i not in comp.regs.values()
        if first:
            k = t.measure().size
            first = False
        elif t.k == 's':
            t.measure()
            fixed += t.offs[v]
            t = t.ts[v]
            continue
        else:
            t = t.ts[0]
            k = t.measure().size
        if isconst and isinstance(v, int):
            fixed += signed(v, w) * k
        else:
            steps.append((i, w, k))
    return steps, fixed


def gep(p, fixed, steps):
    off = fixed
    for v, w, k in steps:
        if isinstance(v, int):
            off = ladd(off, signed(v, w) * k)
        elif v is UNDEF:
            raise Fault('uninitialised', 'an index which was never set is used')
        else:
            off = ladd(off, lmulc(sgn(v, w), k))
    if isinstance(p, Ptr):
        return Ptr(p.o, p.off + off if isinstance(off, int) and isinstance(p.off, int) else ladd(p.off, off))
    if p is UNDEF:
        return p
    if isinstance(p, int) and isinstance(off, int):
        return (p + off) & ((1 << 64) - 1)
    raise Unsupported('offset from an unknown pointer')


# ------------------------------------------------------------------------------ constants

class GRef(object):
    """Address of a global, known once there is a machine."""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name, self.off = name, off


def needs_machine(v):
    return isinstance(v, GRef) or isinstance(v, tuple) and any(map(needs_machine, v))


def resolve(v):
    if isinstance(v, GRef):
        p = global_pointer(v.name)
        return Ptr(p.o, p.off + v.off) if isinstance(p, Ptr) else p
    if isinstance(v, tuple):
        return tuple(resolve(x) for x in v)
    return v


def constant(c, t, mod):
    x = c.next()
    if x[0] == '@':
        return GRef(x)
    if x in ('null', 'false'):
        return 0
    if x == 'none':
        return 0
    if x == 'true':
        return 1
    if x in ('undef', 'poison'):
        return UNDEF
    if x == 'zeroinitializer':
        return zero(t)
    if x == '{' or x == '[' or x == '<' and c.peek() == '{':
        if x == '<':
            c.next()
        end = ']' if x == '[' else '}'
        out = []
        while not c.eat(end):
            et = c.type()
            out.append(constant(c, et, mod))
            c.eat(',')
        if x == '<':
            c.need('>')
        return tuple(out)
    if x[:2] == 'c"':
        return tuple(string_bytes(x[2:-1]))
    if x == 'getelementptr':
        skip_attrs(c)
        c.need('(')
        bt = c.type()
        c.need(',')
        pt = c.type()
        base = constant(c, pt, mod)
        idx = []
        while c.eat(','):
            skip_attrs(c)
            it = c.type()
            idx.append((constant(c, it, mod), it.n))
        c.need(')')
        off, first = 0, True
        for v, w in idx:
            v = signed(v, w)
            if first:
                off += v * bt.measure().size
                first = False
            elif bt.k == 's':
                bt.measure()
                off += bt.offs[v]
                bt = bt.ts[v]
            else:
                bt = bt.ts[0]
                off += v * bt.measure().size
        if isinstance(base, GRef):
            return GRef(base.name, base.off + off)
        return base + off
    if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
        c.need('(')
        st = c.type()
        v = constant(c, st, mod)
        c.need('to')
        c.type()
        c.need(')')
        return v
    if t.k == 'f':
        return float_bits(x, t.n)
    if re.match(r'-?\d+$', x):
        return int(x) % (1 << t.n)
    raise BadIR('constant %s' % x)


def float_bits(x, n):
    import struct
    if x.startswith('0x'):
        d = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
    else:
        d = float(x)
    return struct.unpack('<I', struct.pack('<f', d))[0] if n == 32 else struct.unpack('<Q', struct.pack('<d', d))[0]


def zero(t):
    if t.k in 'sa':
        return tuple(zero(e) for e in elements(t))
    return 0


def string_bytes(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def global_pointer(name):
    mod = M.mod
    if name in mod.funcs or name in mod.declared:
        return Fn(name)
    p = M.globals.get(name)
    if p is not None:
        return p
    g = mod.globals.get(name)
    if g is None:
        raise Unsupported('global %s' % name)
    if g.obj is not None:
        return g.obj
    c = Cur(tokens(g.text), mod)
    const = extern = False
    while True:
        x = c.next()
        if x == 'external':
            extern = True
        elif x in ('constant', 'global'):
            const = x == 'constant'
            break
    t = c.type()
    o = Obj(name.strip('@'), t.measure().size)
    p = Ptr(o)
    if extern and t.k in 'iaps':
        if name == '@__libc_single_threaded':
            store(p, t, 1, 1)
        elif not const and not (o.size == 1 and t.k == 's') and not name.startswith('@_ZTV'):
            raise Unsupported('external variable %s' % name)
    else:
        v = constant(c, t, mod)
        M.globals[name] = p
        store(p, t, resolve(v), 1)
    if const:
        o.const = True
        g.obj = p
    else:
        M.globals[name] = p
    return p


# ------------------------------------------------------------------------------ calls

MAX_DEPTH = 400


def call_value(f, args):
    if isinstance(f, Fn):
        return call_function(f.name, args)
    if isinstance(f, int):
        raise Fault('bounds', 'call through a null pointer')
    if f is UNDEF:
        raise Fault('uninitialised', 'call through a pointer which was never set')
    raise Unsupported('call through an unknown pointer')


def call_function(name, args):
    ext = M.externs.get(name)
    if ext is not None:
        return ext(*args)
    fn = M.mod.funcs.get(name)
    if fn is None:
        return library(name, args)
    if fn.outcome is None:
        from . import iolib
        fn.outcome = iolib.OVERRIDE.get(name) or iolib.TABLE.get(name, False)
    if fn.outcome:
        return fn.outcome(*args)
    code = fn.code
    if code is None:
        try:
            code = fn.code = Compiler(fn).compile()
        except (BadIR, IndexError) as e:
            raise Unsupported('IR of %s: %s' % (name, e))
    R = code.template[:]
    for i, v in code.globals:
        R[i] = resolve(v)
    for i, a in zip(code.params, args):
        R[i] = a
    fr = Frame(fn)
    frames = M.frames
    if len(frames) > MAX_DEPTH:
        raise Budget(locate(stack()))
    frames.append(fr)
    if code.file:
        M.calls.add(code.file)
    blk, prev = code.entry, None
    while True:
        if blk.phis:
            if len(blk.phis) == 1:
                d, src = blk.phis[0]
                R[d] = R[src[prev]]
            else:
                vals = [R[src[prev]] for _, src in blk.phis]
                for (d, _), v in zip(blk.phis, vals):
                    R[d] = v
        for f, fr.loc in blk.ins:
            f(R)
        M.steps += len(blk.ins) + 1
        if M.steps > M.max_steps:
            raise Budget(locate(stack()))
        fr.loc = blk.tloc
        prev, blk = blk.name, blk.term(R)
        if blk is None:
            break
    if fr.allocas is not None:
        for o in fr.allocas:
            o.alive = False
    frames.pop()
    return fr.ret


# ------------------------------------------------------------------------------ library functions

def allocate(n, name='heap block'):
    if isinstance(n, V):
        lo, hi = ranged(n)
        if M.alloc_hook is not None:
            M.alloc_hook(n, lo, hi)
        n = number(n, 4096)
    elif n is UNDEF:
        raise Fault('uninitialised', 'the size of an allocation was never set')
    if M.alloc_hook is not None:
        M.alloc_hook(n, n, n)
    if n > 1 << 22:
        raise Fault('memory', '%d bytes requested' % n)
    M.allocated += n
    return new_object('a heap block', n, 16, True)


def release(p):
    if p == 0:
        return
    if not isinstance(p, Ptr) or p.off != 0 or not p.o.heap:
        raise Fault('lifetime', 'release of something which is not an allocated block')
    if not p.o.alive:
        raise Fault('lifetime', 'a block is released twice')
    p.o.alive = False


def length(n, what):
    if n is UNDEF:
        raise Fault('uninitialised', 'the length of a copy was never set')
    return n


def copy(d, s, n, *a):
    n = length(n, 'copy')
    if isinstance(n, V):
        lo, hi = ranged(n)
        for p in (d, s):
            if isinstance(p, Ptr) and isinstance(p.off, int) and hi is not None and p.off + hi > p.o.size:
                if not S.path.cmp('<=', lin(n), p.o.size - p.off):
                    raise Fault('bounds', 'copy behind the end of %s of %d bytes' % (p.o, p.o.size))
        n = number(n, 4096)
    if n == 0:
        return d
    cells = load_bytes(s, n)
    store_bytes(d, cells)
    return d


def fill(d, v, n, *a):
    n = length(n, 'fill')
    if isinstance(n, V):
        lo, hi = ranged(n)
        if isinstance(d, Ptr) and isinstance(d.off, int) and hi is not None and d.off + hi > d.o.size:
            if not S.path.cmp('<=', lin(n), d.o.size - d.off):
                raise Fault('bounds', 'fill behind the end of %s of %d bytes' % (d.o, d.o.size))
        n = number(n, 4096)
    if n == 0:
        return d
    c = cells_of(v, 4)[0] if not isinstance(v, int) else v & 0xff
    store_bytes(d, [c] * n)
    return d


def bswap(w):
    def f(x):
        return from_cells(cells_of(x, w // 8)[::-1], w) if x is not UNDEF else x
    return f


def minmax(pred, w):
    def f(a, b):
        return a if icmp(pred, a, b, w) else b
    return f


def overflow(op, w, sign):
    def f(a, b):
        if sign:
            x, y = sgn(a, w), sgn(b, w)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            x, y = lin(a), lin(b)
            lo, hi = 0, (1 << w) - 1
        if op == 'mul':
            x, y = S.path.conc(x), S.path.conc(y)
            if isinstance(y, int):
                x, y = y, x
            if not isinstance(x, int):
                raise Unsupported('product of unknown numbers')
            r = lmulc(y, x)
        else:
            r = ladd(x, y, 1 if op == 'add' else -1)
        if S.path.cmp('<', r, lo) or S.path.cmp('<', hi, r):
            return (norm(r, w), 1)
        return (norm(r, w), 0)
    return f


def memcmp(a, b, n):
    n = number(n)
    x, y = (load_bytes(a, n), load_bytes(b, n)) if n else ((), ())
    for i, j in zip(x, y):
        if i == j and i is not UNDEF:
            continue
        if isinstance(i, int) and isinstance(j, int):
            return (1 if i > j else -1) & 0xffffffff
        c = icmp('eq', from_cells([i], 8), from_cells([j], 8), 8)
        if not c:
            return 1 if icmp('ugt', from_cells([i], 8), from_cells([j], 8), 8) else 0xffffffff
    return 0


def fsh(w, left):
    def f(a, b, k):
        k = number(k) % w
        if k == 0:
            return a if left else b
        if left:
            return op_or(op_shl(a, k, w), op_lshr(b, w - k, w), w)
        return op_or(op_shl(a, w - k, w), op_lshr(b, k, w), w)
    return f


STD_BASES = {'bad_alloc': 'exception', 'logic_error': 'exception', 'runtime_error': 'exception', 'bad_cast': 'exception',
             'bad_function_call': 'exception', 'bad_array_new_length': 'bad_alloc', 'domain_error': 'logic_error',
             'invalid_argument': 'logic_error', 'length_error': 'logic_error', 'out_of_range': 'logic_error',
             'range_error': 'runtime_error', 'overflow_error': 'runtime_error', 'underflow_error': 'runtime_error'}


def bases(info):
    """Names of the direct bases in a type's description."""
    m = re.match(r'@_ZTISt\d+(\w+)$', info)
    if m:
        b = STD_BASES.get(m.group(1))
        return ['@_ZTISt%d%s' % (len(b), b)] if b else []
    g = M.mod.globals.get(info)
    if g is None:
        return []
    return [n for n in re.findall(r'@_ZTI\w+', g.text) if n != info]


def catches(clause, info):
    if clause == info:
        return True
    if re.match(r'@_ZTIP', clause) and re.match(r'@_ZTIP', info):
        raise Unsupported('catching pointers')
    return any(catches(clause, b) for b in bases(info))


def typeid_for(p):
    if isinstance(p, Ptr):
        p = '@' + p.o.name
    if p in (0, 'null'):
        return 1
    import zlib
    return zlib.crc32(p.encode()) % 0x7fffff00 + 2


def begin_catch(e):
    if e.obj is None:
        from . import iolib
        e.obj = iolib.exception_object(e.kind)
    M.caught.append(e)
    return e.obj


def end_catch():
    if M.caught:
        M.caught.pop()


def throw(p, info, *a):
    name = '@' + info.o.name if isinstance(info, Ptr) else '?'
    raise CxxExc('thrown', name, p)


def count_bits(f):
    def g(x, *a):
        x = number(x, 256)
        return f(x)
    return g


def bits_float(x, w):
    import struct
    if x is UNDEF:
        raise Fault('uninitialised', 'a value which was never set is used')
    if not isinstance(x, int):
        raise Unsupported('arithmetic on an unknown floating point number')
    return struct.unpack('<f', struct.pack('<I', x))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', x))[0]


def float_of(d, w):
    import struct
    if w == 32:
        try:
            return struct.unpack('<I', struct.pack('<f', d))[0]
        except OverflowError:
            return 0xff800000 if d < 0 else 0x7f800000
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def float_resize(x, a, b):
    if isinstance(x, V):
        return opaque('float %d to %d of %r' % (a, b, x), b)
    return float_of(bits_float(x, a), b)


def fdiv(a, b):
    if b == 0:
        raise Unsupported('floating point division by zero')
    return a / b


def frem(a, b):
    import math
    return math.fmod(a, b)


FBIN = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': fdiv, 'frem': frem}
FCMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'gt': lambda a, b: a > b,
        'le': lambda a, b: a <= b, 'ge': lambda a, b: a >= b}


def fcmp(pred, a, b, w):
    x, y = bits_float(a, w), bits_float(b, w)
    nan = x != x or y != y
    if pred in ('true', 'false'):
        return int(pred == 'true')
    if pred in ('ord', 'uno'):
        return int(nan == (pred == 'uno'))
    if nan:
        return int(pred[0] == 'u')
    return int(FCMP[pred[1:]](x, y))


def float_to_int(x, a, b, sign=True):
    d = bits_float(x, a)
    if d != d or d in (float('inf'), float('-inf')):
        raise Fault('conversion', 'a number which is not finite becomes an integer')
    n = int(d)
    if not (-(1 << (b - 1)) <= n < 1 << (b - 1) if sign else 0 <= n < 1 << b):
        raise Fault('conversion', '%r becomes an integer of %d bits' % (d, b))
    return n % (1 << b)


def known_int(x, w, sign):
    n = number(x, 0)
    return signed(n, w) if sign else n


def float_function(f, w, n=1):
    def g(*a):
        return float_of(float(f(*[bits_float(x, w) for x in a])), w)
    return g


LIB = {
    '@_Znwm': allocate, '@_Znam': allocate, '@malloc': allocate,
    '@_ZdlPv': lambda p, *a: release(p), '@_ZdlPvm': lambda p, *a: release(p), '@_ZdaPv': lambda p, *a: release(p), '@free': release,
    '@memcpy': copy, '@memmove': copy, '@memset': fill, '@memcmp': memcmp, '@llvm.eh.typeid.for': typeid_for,
    '@llvm.eh.typeid.for.p0': typeid_for,
    '@llvm.assume': lambda *a: None, '@__cxa_begin_catch': begin_catch, '@__cxa_end_catch': end_catch, '@__cxa_throw': throw,
    '@__cxa_get_exception_ptr': lambda e: e.obj, '@_ZNSt9exceptionD2Ev': lambda p: None, '@__cxa_atexit': lambda *a: 0,
    '@__cxa_guard_acquire': lambda p: int(load_bytes(p, 1)[0] == 0), '@__cxa_guard_release': lambda p: store_bytes(p, [1]),
    '@__cxa_guard_abort': lambda p: None, '@_ZdaPvm': lambda p, *a: release(p), '@_ZnwmRKSt9nothrow_t': lambda n, *a: allocate(n),
    '@_ZnamRKSt9nothrow_t': lambda n, *a: allocate(n), '@llvm.stacksave.p0': lambda: 0, '@llvm.stackrestore.p0': lambda p: None,
    '@llvm.stacksave': lambda: 0, '@llvm.stackrestore': lambda p: None, '@_ZSt18uncaught_exceptionv': lambda: 0,
    '@llvm.objectsize.i64.p0': lambda *a: (1 << 64) - 1,
    '@llvm.expect.i1': lambda a, b: a, '@llvm.expect.i64': lambda a, b: a, '@llvm.is.constant.i1': lambda a: 0,
    '@llvm.is.constant.i64': lambda a: 0, '@llvm.is.constant.i32': lambda a: 0,
}
for _w in (8, 16, 32, 64):
    for _n, _p in (('umin', 'ult'), ('umax', 'ugt'), ('smin', 'slt'), ('smax', 'sgt')):
        LIB['@llvm.%s.i%d' % (_n, _w)] = minmax(_p, _w)
    if _w > 8:
        LIB['@llvm.bswap.i%d' % _w] = bswap(_w)
    LIB['@llvm.fshl.i%d' % _w] = fsh(_w, True)
    LIB['@llvm.ctlz.i%d' % _w] = count_bits(lambda x, w=_w: w - x.bit_length())
    LIB['@llvm.cttz.i%d' % _w] = count_bits(lambda x, w=_w: (x & -x).bit_length() - 1 if x else w)
    LIB['@llvm.ctpop.i%d' % _w] = count_bits(lambda x: bin(x).count('1'))
    LIB['@llvm.abs.i%d' % _w] = lambda x, *a, w=_w: op_sub(0, x, w) if icmp('slt', x, 0, w) else x
    LIB['@llvm.usub.sat.i%d' % _w] = lambda a, b, w=_w: op_sub(a, b, w) if icmp('ugt', a, b, w) else 0
    LIB['@llvm.fshr.i%d' % _w] = fsh(_w, False)
    for _o in ('add', 'sub', 'mul'):
        LIB['@llvm.u%s.with.overflow.i%d' % (_o, _w)] = overflow(_o, _w, False)
        LIB['@llvm.s%s.with.overflow.i%d' % (_o, _w)] = overflow(_o, _w, True)

for _n, _f in (('floor', math.floor), ('ceil', math.ceil), ('trunc', math.trunc), ('fabs', abs), ('sqrt', math.sqrt), ('pow', math.pow),
               ('fmod', math.fmod), ('log2', math.log2), ('log', math.log), ('log10', math.log10), ('exp', math.exp), ('round', None)):
    if _f is None:
        def _f(x):
            return math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)
    for _w, _t, _i in ((32, 'f', 'f32'), (64, '', 'f64')):
        LIB['@llvm.%s.%s' % (_n, _i)] = LIB['@%s%s' % (_n, _t)] = float_function(_f, _w)


def library(name, args):
    f = LIB.get(name)
    if f is not None:
        return f(*args)
    if name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'):
        return copy(*args)
    if name.startswith('@llvm.memset'):
        return fill(*args)
    if name.startswith('@llvm.lifetime') or name.startswith('@llvm.dbg') or name.startswith('@llvm.invariant') or \
            name.startswith('@llvm.experimental.noalias'):
        return 0
    if '__throw_' in name:
        raise CxxExc(re.search(r'__throw_([a-z_]+?)(?:PK|v$|E|$)', name).group(1).replace('_fmt', ''))
    if name in ('@_ZSt9terminatev', '@abort', '@exit', '@llvm.trap', '@__clang_call_terminate', '@_ZSt4exiti'):
        raise Fault('terminate', 'the process is terminated')
    if name == '@__assert_fail':
        raise Fault('assert', 'assertion fails: %s' % c_text(args[0]))
    if name == '@__cxa_rethrow':
        if M.caught:
            raise M.caught[-1]
        raise Fault('terminate', 'nothing to throw again')
    if name in ('@__cxa_allocate_exception',):
        return new_object('an exception', number(args[0]))
    if name == '@__cxa_free_exception':
        return None
    from . import iolib
    r = iolib.call(name, args)
    if r is not NotImplemented:
        return r
    raise Unsupported('library function %s' % name)


def missing(text):
    """Is there a function of a class template of the library without a body or a model?"""
    from . import iolib
    return any(n not in iolib.TABLE and '__throw_' not in n for n in re.findall(r'^declare .*?(@_ZNK?S[tadios]\w+)\(', text, re.M)
               if re.search(r'basic_(string|ostream|istream|ios|stringstream)|@_ZNK?S[adios]', n))


def c_text(p, n=None):
    """A C string, or n bytes, as text."""
    o, off = check(p, 1 if n is None else n, 'read')
    out = []
    while n is None or len(out) < n:
        if off >= o.size:
            raise Fault('bounds', 'read behind the end of the text %s' % o)
        b = o.data[off]
        off += 1
        if n is None and isinstance(b, int) and b == 0:
            break
        out.append(b)
    if all(isinstance(b, int) for b in out):
        return ''.join(map(chr, out))
    raise Unsupported('text of unknown characters')
