"""Abstract domain shared by the Python and the C++ abstract interpreters.

 * `Lin`   - an integer: affine form over atoms; every atom carries an interval which the
             branches taken on the current trace refine.
 * `Flt`   - an unknown floating point number.
 * `AB`    - a byte string of known length whose bytes are cells: either a constant or
             `Cell(kind, term, k)`, i.e. "byte of weight 256**k of `term`".  Each cell
             remembers the construct (file, function, line) which produced it.
 * `AS`    - a text made of literal pieces and holes (`Hole`) standing for unknown text.

A branch on a condition the domain cannot decide splits the trace (`Path.choose`); the set
of traces is enumerated by `explore`.  No solver is involved: a condition is decided by
intervals or it is split.
"""

import contextlib
import math


class Unsupported(Exception):
    """The analysed source uses a construct the abstract semantics does not cover."""


class Budget(Exception):
    """A trace exceeded the step bound (possible non-termination)."""


class TooManyPaths(Exception):
    pass


class Atom(object):
    __slots__ = ('name', 'lo', 'hi', 'cells', 'meta')

    def __init__(self, name, lo=None, hi=None, cells=None, meta=None):
        self.name, self.lo, self.hi, self.cells, self.meta = name, lo, hi, cells, meta

    def __eq__(self, other):
        return isinstance(other, Atom) and self.name == other.name

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Lin(object):
    """c + sum(coef * atom); always has at least one atom (otherwise it is a plain int)."""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c, self.t = c, t

    def __eq__(self, other):
        return isinstance(other, Lin) and self.c == other.c and self.t == other.t

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        out = []
        for a, k in self.t:
            out.append(a.name if k == 1 else '%s*%s' % (k, a.name))
        if self.c:
            out.append(str(self.c))
        return '+'.join(out).replace('+-', '-')

    @property
    def atom(self):
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None


def sym(name, lo=None, hi=None, cells=None, meta=None):
    return Lin(0, ((Atom(name, lo, hi, cells, meta), 1),))


def _mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].name))
    if not t:
        return c
    return Lin(c, t)


def _parts(x):
    if isinstance(x, Lin):
        return x.c, dict(x.t)
    return int(x), {}


def ladd(a, b, sb=1):
    ca, da = _parts(a)
    cb, db = _parts(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + sb * v
    return _mk(ca + sb * cb, da)


def lneg(a):
    return ladd(0, a, -1)


def lmulc(a, k):
    c, d = _parts(a)
    return _mk(c * k, {x: v * k for x, v in d.items()})


class Flt(object):
    __slots__ = ('name', 'cells', 'single', 'quot')

    def __init__(self, name, cells=None, single=False, quot=None):
        self.name, self.cells, self.single, self.quot = name, cells, single, quot

    def __eq__(self, other):
        return isinstance(other, Flt) and self.name == other.name

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(('Flt', self.name))

    def __repr__(self):
        return self.name


class Cell(object):
    """Byte of weight 256**sig of `term`; kind 'i' integer, 'f4'/'f8' IEEE float, 'in' unknown input."""
    __slots__ = ('kind', 'term', 'sig')

    def __init__(self, kind, term, sig):
        self.kind, self.term, self.sig = kind, term, sig

    def __eq__(self, other):
        return isinstance(other, Cell) and (self.kind, self.sig, self.term) == (other.kind, other.sig, other.term)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.kind, self.term, self.sig))

    def __repr__(self):
        if self.kind == 'in':
            return 'in[%s]' % self.term
        return '%s.%d' % (self.term, self.sig)


class AB(object):
    """Abstract bytes."""
    __slots__ = ('cells', 'prov')

    def __init__(self, cells, prov=None):
        self.cells = tuple(cells)
        self.prov = tuple(prov) if prov is not None else (None,) * len(self.cells)

    @classmethod
    def of(cls, b, where=None):
        return cls(tuple(b), (where,) * len(b))

    def concrete(self):
        return all(isinstance(c, int) for c in self.cells)

    def host(self):
        return bytes(self.cells)

    def __len__(self):
        return len(self.cells)

    def __eq__(self, other):
        return isinstance(other, AB) and self.cells == other.cells

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.cells)

    def __add__(self, o):
        return AB(self.cells + o.cells, self.prov + o.prov)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return AB(self.cells[i], self.prov[i])
        return self.cells[i]

    def __repr__(self):
        if self.concrete():
            return repr(self.host())
        return '<%s>' % ' '.join('%02x' % c if isinstance(c, int) else repr(c) for c in self.cells)


class Hole(object):
    """Unknown text: rendering `fmt` of `term`, or an arbitrary string."""
    __slots__ = ('fmt', 'term')

    def __init__(self, fmt, term):
        self.fmt, self.term = fmt, term

    def __eq__(self, other):
        return isinstance(other, Hole) and (self.fmt, self.term) == (other.fmt, other.term)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.fmt, self.term))

    def __repr__(self):
        return '{%s:%s}' % (self.term, self.fmt)


class AS(object):
    """Abstract text: tuple of str and Hole, adjacent literals merged, at least one hole."""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __eq__(self, other):
        return isinstance(other, AS) and self.pieces == other.pieces

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.pieces)

    def __repr__(self):
        return '<text %s>' % ''.join(p if isinstance(p, str) else repr(p) for p in self.pieces)


def mktext(pieces):
    out = []
    for p in pieces:
        if isinstance(p, AS):
            sub = p.pieces
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return AS(out)


_FORMS = {}


def form(x):
    """(pseudo atom f, k) with x = k*f + c: the terms of a linear expression as one quantity."""
    r = _FORMS.get(x.t)
    if r is None:
        k = 0
        for _, m in x.t:
            k = math.gcd(k, abs(m))
        if x.t[0][1] < 0:
            k = -k
        r = _FORMS[x.t] = (Atom(tuple((a.name, m // k) for a, m in x.t)), k)
    return r


class Path(object):
    """One trace: the choices made so far and what they imply."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []      # (index, count, label)
        self.iv = {}         # atom name, or linear form -> [lo, hi, excluded]
        self.forms = False
        self.memo = {}
        self.counter = {}

    def choose(self, n, label=''):
        if n == 1:
            return 0
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n, label))
        return c

    def fresh(self, stem):
        k = self.counter.get(stem, 0)
        self.counter[stem] = k + 1
        return '%s#%d' % (stem, k)

    # -- intervals ---------------------------------------------------------
    def bounds(self, a):
        r = self.iv.get(a.name)
        if r is None:
            return a.lo, a.hi
        return r[0], r[1]

    def interval(self, x):
        if not isinstance(x, Lin):
            return int(x), int(x)
        lo = hi = x.c
        for a, k in x.t:
            alo, ahi = self.bounds(a)
            if k < 0:
                alo, ahi = ahi, alo
            lo = None if (lo is None or alo is None) else lo + k * alo
            hi = None if (hi is None or ahi is None) else hi + k * ahi
        if len(x.t) > 1 and self.forms:
            f, k = form(x)
            r = self.iv.get(f.name)
            if r is not None:
                flo, fhi = r[0], r[1]
                if k < 0:
                    flo, fhi = fhi, flo
                if flo is not None:
                    lo = x.c + k * flo if lo is None else max(lo, x.c + k * flo)
                if fhi is not None:
                    hi = x.c + k * fhi if hi is None else min(hi, x.c + k * fhi)
        return lo, hi

    def conc(self, x):
        """The plain int an abstract integer is known to be, else the value itself."""
        if isinstance(x, Lin):
            lo, hi = self.interval(x)
            if lo is not None and lo == hi:
                return lo
        return x

    def decide(self, op, a, b):
        d = ladd(a, b, -1)
        lo, hi = self.interval(d)
        if op == '<':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == '<=':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif op == '==':
            if lo is not None and lo == hi:
                return lo == 0
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if isinstance(d, Lin):
                at, k = d.t[0] if len(d.t) == 1 else form(d)
                if (-d.c) % k:
                    return False
                v = -d.c // k
                ex = self.iv.get(at.name)
                if ex and v in ex[2]:
                    return False
        key = (op, d)
        return self.memo.get(key)

    def _refine(self, op, d, truth):
        self.memo[(op, d)] = truth
        if not isinstance(d, Lin):
            return
        if len(d.t) == 1:
            (at, k), = d.t
        else:
            at, k = form(d)
            self.forms = True
        cur = self.iv.get(at.name)
        if cur is None:
            cur = [at.lo, at.hi, set()]
        lo, hi, ex = cur[0], cur[1], set(cur[2])
        c = d.c

        def le(bound_num, div):      # x <= floor(bound_num/div)
            return bound_num // div

        if op == '==':
            if truth:
                v = -c // k
                lo = hi = v
            elif (-c) % k == 0:
                ex.add(-c // k)
        else:
            # k*x + c < 0   or <= 0, possibly negated
            strict = (op == '<')
            if truth:
                bound = -c - (1 if strict else 0)          # k*x <= bound
                if k > 0:
                    m = bound // k
                    hi = m if hi is None else min(hi, m)
                else:
                    m = -((bound) // (-k))
                    m = -(bound // (-k))
                    lo = m if lo is None else max(lo, m)
            else:
                bound = -c + (0 if strict else 1)          # k*x >= bound
                if k > 0:
                    m = -((-bound) // k)
                    lo = m if lo is None else max(lo, m)
                else:
                    m = (-bound) // (-k)
                    hi = m if hi is None else min(hi, m)
        while lo is not None and lo in ex and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and hi in ex and (lo is None or lo <= hi):
            hi -= 1
        self.iv[at.name] = [lo, hi, ex]

    def cmp(self, op, a, b, label=''):
        """Truth of `a op b` for op in < <= ==; splits the trace when undecided."""
        r = self.decide(op, a, b)
        if r is not None:
            return r
        d = ladd(a, b, -1)
        # prefer False first for equality, True first for order
        order = (False, True) if op == '==' else (True, False)
        truth = order[self.choose(2, '%s %s %s%s' % (a, op, b, label))]
        self._refine(op, d, truth)
        return truth

    def flag(self, key, label=None):
        """Undecided boolean condition identified by `key`."""
        if key in self.memo:
            return self.memo[key]
        truth = (True, False)[self.choose(2, label or str(key))]
        self.memo[key] = truth
        return truth

    def describe(self):
        return '; '.join('%s -> %d' % (l, c) for c, n, l in self.taken)


def explore(run, max_paths=2000):
    """Enumerates all traces of `run(path)`; yields (path, result)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        p = Path(prefix)
        n += 1
        if n > max_paths:
            raise TooManyPaths('more than %d traces' % max_paths)
        res = run(p)
        yield p, res
        # schedule the untried alternatives of the choices made after the prefix
        for i in range(len(p.taken) - 1, len(prefix) - 1, -1):
            c, cnt, _ = p.taken[i]
            for alt in range(c + 1, cnt):
                stack.append([x[0] for x in p.taken[:i]] + [alt])


@contextlib.contextmanager
def nothing():
    yield
