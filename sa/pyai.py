"""Abstract interpreter for the Python subset used by /repo.

The source is parsed with `ast`, each construct is translated once into an abstract
transfer function, and those are applied to abstract values (see dom.py).  Nothing of
/repo is imported or executed by the host Python.
"""

import ast
import builtins as _host_builtins
import importlib
import importlib.util
import operator
import os
import re
import string
import sys
import _string

from .dom import (AB, AS, Atom, Budget, Cell, Flt, Hole, Lin, Path, Unsupported, ladd, lmulc, lneg, mktext, sym)

sys.setrecursionlimit(100000)


# ----------------------------------------------------------------------------- values

class PClass(object):
    __slots__ = ('name', 'bases', 'mro', 'd', 'meta', 'host', 'module', 'has_dict', 'slots', 'origin')

    def __init__(self, name, bases, d, meta=None, host=None, module=None):
        self.name, self.bases, self.d, self.host, self.module = name, tuple(bases), d, host, module
        self.origin = None
        self.meta = meta
        self.mro = _c3(self)
        self.has_dict = None
        self.slots = None

    def lookup(self, name):
        for c in self.mro:
            v = c.d.get(name, MISSING)
            if v is not MISSING:
                return v
        return MISSING

    def __repr__(self):
        return '<class %s>' % self.name


def _c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            raise_('TypeError', 'Cannot create a consistent method resolution order (MRO)')
        out.append(cand)
        for s in seqs:
            if s[0] is cand:
                del s[0]


class PObj(object):
    __slots__ = ('cls', 'd', 'val', '__weakref__')

    def __init__(self, cls, val=None):
        self.cls, self.d, self.val = cls, {}, val

    def __repr__(self):
        return '<%s%s>' % (self.cls.name, '' if self.val is None else ' %r' % (self.val,))


class PFunc(object):
    __slots__ = ('name', 'node', 'code', 'parent', 'glob', 'defaults', 'kwdefaults', 'd', 'defcls', 'qual')

    def __repr__(self):
        return '<function %s>' % self.qual


class PMethod(object):
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, PMethod) and self.fn is o.fn and self.self_ is o.self_

    def __hash__(self):
        return hash((id(self.fn), id(self.self_)))


class PModule(object):
    __slots__ = ('name', 'd', 'file')

    def __init__(self, name, d=None, file=None):
        self.name, self.d, self.file = name, d if d is not None else {}, file

    def __repr__(self):
        return '<module %s>' % self.name


class PProperty(object):
    __slots__ = ('fget', 'fset', 'fdel', 'doc')

    def __init__(self, fget=None, fset=None, fdel=None, doc=None):
        self.fget, self.fset, self.fdel, self.doc = fget, fset, fdel, doc


class PStatic(object):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class PClassM(object):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class PSlot(object):
    """Descriptor created by a __slots__ entry."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class NFunc(object):
    """Library function model; `fn(*args, **kwargs)` over abstract values."""
    __slots__ = ('name', 'fn', 'bind')

    def __init__(self, name, fn, bind=False):
        self.name, self.fn, self.bind = name, fn, bind

    def __repr__(self):
        return '<library %s>' % self.name


class PSuper(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class GenObj(object):
    """Iterator object wrapping a host generator."""
    __slots__ = ('it', 'kind')

    def __init__(self, it, kind='generator'):
        self.it, self.kind = it, kind

    def __iter__(self):
        return self.it


class HostObj(object):
    """Opaque library object with a python-level model class."""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return repr(self.o)


class OSet(object):
    """set / frozenset; keeps insertion order, iteration order is a trace split in 'unordered' mode."""
    __slots__ = ('d', 'frozen')

    def __init__(self, items=(), frozen=False):
        self.d = {}
        self.frozen = frozen
        for i in items:
            if dict_find(self.d, i) is MISSING:
                self.d[hkey(i)] = i

    def __len__(self):
        return len(self.d)


class Buf(object):
    """A bytearray, or a memoryview of bytes lo..hi of `base`."""
    __slots__ = ('own', 'base', 'lo', 'hi', 'view')

    def __init__(self, ab, base=None, lo=0, hi=None):
        self.own = ab
        self.base = base
        self.lo = lo
        self.hi = hi
        self.view = base is not None

    @property
    def ab(self):
        if not self.view:
            return self.own
        b = self.base
        return (b if isinstance(b, AB) else b.ab)[self.lo:self.hi]

    def set(self, ab):
        if not self.view:
            self.own = ab
            return
        if isinstance(self.base, AB):
            raise_('TypeError', 'cannot modify read-only memory')
        if len(ab) != self.hi - self.lo:
            raise_('ValueError', 'memoryview assignment: lvalue and rvalue have different structures')
        whole = self.base.ab
        self.base.set(whole[:self.lo] + ab + whole[self.hi:])

    def part(self, sl):
        """What a slice of it is."""
        if not self.view:
            return Buf(slice_bytes(self.own, sl))
        sl = norm_slice(sl)
        lo, hi, step = sl.indices(self.hi - self.lo)
        if step != 1:
            raise Unsupported('memoryview with a step')
        return Buf(None, self.base, self.lo + lo, self.lo + max(lo, hi))

    def __len__(self):
        return self.hi - self.lo if self.view else len(self.own)


def bytes_like(v):
    """The bytes of a bytes-like value, else None."""
    v = unwrap(v)
    return v if isinstance(v, AB) else None


class DDict(dict):
    """collections.defaultdict"""
    factory = None


class CounterD(DDict):
    """collections.Counter"""


class PyExc(Exception):
    """An exception of the analysed program in flight."""

    def __init__(self, obj):
        self.obj = obj
        self.trace = None
        Exception.__init__(self, obj)

    def where(self):
        return self.trace[-1] if self.trace else None


class _Missing(object):
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()
NOTIMPL = HostObj('NotImplemented')
ELLIPSIS = HostObj('Ellipsis')


class State(object):
    """State of the analysis of one trace."""

    def __init__(self):
        self.path = Path()
        self.stack = []
        self.steps = 0
        self.max_steps = 3000000
        self.covered = set()
        self.functions = set()
        self.unordered = False
        self.variant = None
        self.depth = 0
        self.handling = []
        self.hooks = {}
        self.out = []
        self.ids = {}
        self.call_log = None


S = State()


def where():
    """Innermost analysed construct of the current trace: (file, function, line)."""
    for e in reversed(S.stack):
        if e.file and not e.file.startswith('<'):
            return (e.file, e.qual, e.line)
    return None


def trace():
    return [(e.file, e.qual, e.line) for e in S.stack]


def fmt_where(w):
    if not w:
        return '?'
    return '%s:%s (%s)' % (w[0], w[2], w[1])


# ----------------------------------------------------------------------------- builtin classes

BC = {}


def _bclass(name, bases, host=None, d=None):
    c = PClass(name, bases, d if d is not None else {}, None, host, 'builtins')
    c.has_dict = False
    BC[name] = c
    return c


OBJECT = _bclass('object', (), object)
TYPE = _bclass('type', (OBJECT,), type)
OBJECT.meta = TYPE
TYPE.meta = TYPE
for _n, _h in [('int', int), ('float', float), ('str', str), ('bytes', bytes), ('list', list), ('tuple', tuple),
               ('dict', dict), ('set', set), ('frozenset', frozenset), ('NoneType', type(None)), ('slice', slice),
               ('range', range), ('property', property), ('staticmethod', staticmethod),
               ('classmethod', classmethod), ('super', super), ('complex', complex), ('bytearray', bytearray),
               ('memoryview', memoryview)]:
    _bclass(_n, (OBJECT,), _h).meta = TYPE
_bclass('bool', (BC['int'],), bool).meta = TYPE
for _n in ('function', 'method', 'module', 'generator', 'builtin_function_or_method', 'ellipsis', 'NotImplementedType',
           'map', 'filter', 'zip', 'enumerate', 'reversed', 'iterator', 'defaultdict_', 'hostobj'):
    _bclass(_n, (OBJECT,)).meta = TYPE


def _exc_classes():
    import builtins
    todo = [v for v in vars(builtins).values() if isinstance(v, type) and issubclass(v, BaseException)]
    done = {}

    def mk(h):
        if h in done:
            return done[h]
        bases = tuple(OBJECT if b is object else mk(b) for b in h.__bases__)
        c = _bclass(h.__name__, bases, h)
        c.meta = TYPE
        c.has_dict = True
        done[h] = c
        return c

    for t in todo:
        if t.__name__ in ('EnvironmentError', 'IOError'):
            continue
        mk(t)
    BC['EnvironmentError'] = BC['IOError'] = BC['OSError']


_exc_classes()
BASEEXC = BC['BaseException']


def make_exc(cls, *args):
    if isinstance(cls, str):
        cls = BC[cls]
    o = PObj(cls)
    o.d['args'] = tuple(args)
    return o


def raise_(cls, *args):
    e = PyExc(make_exc(cls, *args))
    e.trace = trace()
    raise e


def host_call(f, *a, **k):
    """Apply a host primitive to concrete values, mapping host errors to abstract exceptions."""
    try:
        return f(*a, **k)
    except (PyExc, Unsupported, Budget):
        raise
    except RecursionError:
        raise
    except Exception as e:
        n = type(e).__name__
        if n not in BC:
            n = next(c.__name__ for c in type(e).__mro__ if c.__name__ in BC)
        raise_(n, *[x if isinstance(x, (str, int)) else str(x) for x in e.args])


def class_of(v):
    if isinstance(v, PObj):
        return v.cls
    if isinstance(v, PClass):
        return v.meta
    if isinstance(v, bool):
        return BC['bool']
    if isinstance(v, (int, Lin)):
        return BC['int']
    if isinstance(v, (float, Flt)):
        return BC['float']
    if isinstance(v, (str, AS)):
        return BC['str']
    if isinstance(v, AB):
        return BC['bytes']
    if isinstance(v, Buf):
        return BC['memoryview' if v.view else 'bytearray']
    if v is None:
        return BC['NoneType']
    if isinstance(v, list):
        return BC['list']
    if isinstance(v, tuple):
        return BC['tuple']
    if isinstance(v, dict):
        return BC['dict']
    if isinstance(v, OSet):
        return BC['frozenset'] if v.frozen else BC['set']
    if isinstance(v, PFunc):
        return BC['function']
    if isinstance(v, PMethod):
        return BC['method']
    if isinstance(v, NFunc):
        return BC['builtin_function_or_method']
    if isinstance(v, PModule):
        return BC['module']
    if isinstance(v, GenObj):
        return BC.get(v.kind, BC['generator'])
    if isinstance(v, PProperty):
        return BC['property']
    if isinstance(v, PStatic):
        return BC['staticmethod']
    if isinstance(v, PClassM):
        return BC['classmethod']
    if isinstance(v, slice):
        return BC['slice']
    if isinstance(v, range):
        return BC['range']
    if isinstance(v, PSuper):
        return BC['super']
    if isinstance(v, HostObj):
        m = getattr(v.o, '_pclass', None)
        return m or BC['hostobj']
    raise Unsupported('class of %r' % (v,))


def is_subclass(c, d):
    if isinstance(d, tuple):
        return any(is_subclass(c, x) for x in d)
    if not isinstance(c, PClass):
        raise_('TypeError', 'issubclass() arg 1 must be a class')
    if not isinstance(d, PClass):
        if isinstance(d, HostObj) and isinstance(d.o, Union):
            return is_subclass(c, d.o.types)
        if isinstance(d, (NFunc, HostObj)):
            raise Unsupported('issubclass of library type %r' % d)
        raise_('TypeError', 'issubclass() arg 2 must be a class')
    return d in c.mro


def is_instance(v, d):
    if isinstance(d, tuple):
        return any(is_instance(v, x) for x in d)
    if not isinstance(d, PClass):
        if isinstance(d, HostObj) and isinstance(d.o, Union):
            return is_instance(v, d.o.types)
        if isinstance(d, (NFunc, HostObj)):
            raise Unsupported('isinstance of library type %r' % d)
        raise_('TypeError', 'isinstance() arg 2 must be a type')
    if d.meta is not None and d.meta is not TYPE:
        f = d.meta.lookup('__instancecheck__')
        if f is not MISSING:
            r = call(bind(f, d, d.meta), (v,), {})
            if r is not NOTIMPL:
                return truth(r)
    return d in class_of(v).mro


class Union(object):
    """int | str"""

    def __init__(self, types):
        self.types = types


def unwrap(v):
    """Payload of an instance of a class derived from a builtin value type."""
    while isinstance(v, PObj) and v.val is not None:
        v = v.val
    return v.ab if isinstance(v, Buf) else v


def is_int(v):
    return isinstance(v, (int, Lin))


def is_text(v):
    return isinstance(v, (str, AS))


# ----------------------------------------------------------------------------- hashing / dict

def hkey(v):
    if isinstance(v, Lin):
        return S.path.conc(v)
    if isinstance(v, PObj):
        if v.val is not None:
            return hkey(v.val)
        h = v.cls.lookup('__hash__')
        if h is None:
            raise_('TypeError', "unhashable type: '%s'" % v.cls.name)
        if isinstance(h, PFunc):
            call(PMethod(h, v), (), {})
        eqf = v.cls.lookup('__eq__')
        if isinstance(eqf, PFunc) and h is MISSING:
            for c in v.cls.mro:
                if '__eq__' in c.d:
                    if '__hash__' not in c.d:
                        raise_('TypeError', "unhashable type: '%s'" % v.cls.name)
                    break
        return v
    if isinstance(v, tuple):
        return tuple(hkey(x) for x in v)
    if isinstance(v, (list, dict)):
        raise_('TypeError', "unhashable type: '%s'" % class_of(v).name)
    if isinstance(v, OSet):
        if not v.frozen:
            raise_('TypeError', "unhashable type: 'set'")
        return frozenset(v.d)
    return v


def is_id(k):
    return isinstance(k, Lin) and k.atom is not None and k.atom.meta == 'id'


def _symbolic_key(k):
    return isinstance(k, (Lin, AS)) and not is_id(k)


def dict_find(d, key):
    """Actual key of `d` equal to `key`, or MISSING."""
    k = hkey(key)
    if not _symbolic_key(k):
        try:
            if k in d:
                return k
        except TypeError:
            raise Unsupported('dict key %r' % (k,))
        if isinstance(k, (int, str)) and not isinstance(k, bool):
            for c in d:
                if _symbolic_key(c) and type_compatible(c, k) and truth(eq(c, k)):
                    return c
        elif isinstance(k, PObj) and isinstance(k.cls.lookup('__eq__'), PFunc) or isinstance(k, tuple) and any(
                isinstance(x, PObj) and isinstance(x.cls.lookup('__eq__'), PFunc) for x in k):
            for c in list(d):
                if type(c) is type(k) and truth(eq(c, k)):
                    return c
        return MISSING
    if k in d:
        return k
    for c in list(d):
        if type_compatible(c, k) and truth(eq(k, c)):
            return c
    return MISSING


def type_compatible(a, b):
    if is_int(a):
        return is_int(b)
    if is_text(a):
        return is_text(b)
    return False


def dict_get(d, key):
    k = dict_find(d, key)
    if k is MISSING:
        if isinstance(d, CounterD):
            return 0
        if isinstance(d, DDict) and d.factory is not None:
            v = call(d.factory, (), {})
            d[hkey(key)] = v
            return v
        raise_('KeyError', key)
    return d[k]


def mapping(o):
    """dict of what ** takes."""
    m = unwrap(o)
    if isinstance(m, dict):
        return m
    if not isinstance(m, PObj) or m.cls.lookup('keys') is MISSING:
        raise_('TypeError', 'argument after ** must be a mapping')
    d = {}
    for k in iterate(call(PMethod(m.cls.lookup('keys'), m), (), {})):
        dict_set(d, k, get_item(m, k))
    return d


def dict_set(d, key, v):
    k = dict_find(d, key)
    if k is MISSING:
        k = hkey(key)
    d[k] = v


# ----------------------------------------------------------------------------- truth, equality, order

def truth(v):
    if v is True or v is False:
        return v
    if v is None:
        return False
    if isinstance(v, PObj):
        f = v.cls.lookup('__bool__')
        if f is not MISSING:
            return truth(call(bind(f, v, v.cls), (), {}))
        f = v.cls.lookup('__len__')
        if f is not MISSING:
            return truth(ne0(call(bind(f, v, v.cls), (), {})))
        if v.val is not None:
            return truth(v.val)
        return True
    if isinstance(v, (int, float)):
        return bool(v)
    if isinstance(v, Lin):
        return not S.path.cmp('==', v, 0)
    if isinstance(v, Flt):
        return not S.path.flag(('fzero', v.name), '%s == 0.0' % v)
    if isinstance(v, AS):
        if any(isinstance(p, str) or p.fmt in ('d', 'f', 'c', '#x') or p.fmt[-1] in 'dxXo' for p in v.pieces):
            return True
        return S.path.flag(('nonempty', v), 'text %r nonempty' % (v,))
    if isinstance(v, (str, tuple, list, dict, AB, OSet, range, Buf)):
        return len(v) > 0
    if isinstance(v, HostObj):
        f = getattr(v.o, 'm___len__', None)
        if f:
            return truth(ne0(f()))
        return True
    return True


def ne0(v):
    return v if isinstance(v, (bool, int, Lin)) else v


def eq(a, b):
    """Abstract ==; returns a bool (trace split if undecided) or a program value."""
    if isinstance(a, PClass) or isinstance(b, PClass):
        if a is b:
            return True
        if isinstance(a, PClass):
            f = a.meta.lookup('__eq__')
            if isinstance(f, PFunc):
                r = call(PMethod(f, a), (b,), {})
                if r is not NOTIMPL:
                    return r
        if isinstance(b, PClass):
            f = b.meta.lookup('__eq__')
            if isinstance(f, PFunc):
                r = call(PMethod(f, b), (a,), {})
                if r is not NOTIMPL:
                    return r
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, PObj):
            f = x.cls.lookup('__eq__')
            if f is not MISSING and not (isinstance(f, NFunc) and x.val is not None):
                r = call(bind(f, x, x.cls), (y,), {})
                if r is not NOTIMPL:
                    return r
    a, b = unwrap(a), unwrap(b)
    if isinstance(a, PObj) or isinstance(b, PObj):
        return a is b
    if isinstance(a, (bool, int, Lin)) and isinstance(b, (bool, int, Lin)):
        if is_id(a) and is_id(b):
            return a == b
        return S.path.cmp('==', a, b)
    if isinstance(a, Flt) or isinstance(b, Flt):
        if a == b:
            return True
        if isinstance(a, (int, float, Lin, Flt)) and isinstance(b, (int, float, Lin, Flt)):
            return S.path.flag(('feq', str(a), str(b)))
        return False
    if is_text(a) and is_text(b):
        return text_eq(a, b)
    if isinstance(a, AB) and isinstance(b, AB):
        if a.cells == b.cells:
            return True
        if len(a) != len(b):
            return False
        if any(isinstance(x, int) and isinstance(y, int) and x != y for x, y in zip(a.cells, b.cells)):
            return False
        return cells_eq(a.cells, b.cells)
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is not y and not truth(eq(x, y)):
                return False
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            k2 = dict_find(b, k)
            if k2 is MISSING or not truth(eq(v, b[k2])):
                return False
        return True
    if isinstance(a, OSet) and isinstance(b, OSet):
        return set(a.d) == set(b.d)
    if isinstance(a, HostObj) and isinstance(b, HostObj):
        return a.o == b.o
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, (Lin,)) or isinstance(b, (Lin,)):
        if isinstance(a, float) or isinstance(b, float):
            return S.path.flag(('feq', str(a), str(b)))
        return False
    try:
        return a is b or (type(a) is type(b) and a == b)
    except TypeError:
        return False


def text_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a == b:
        return True
    pa = a.pieces if isinstance(a, AS) else (a,)
    pb = b.pieces if isinstance(b, AS) else (b,)
    # differing literal prefixes / suffixes
    if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
        n = min(len(pa[0]), len(pb[0]))
        if pa[0][:n] != pb[0][:n]:
            return False
    if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
        n = min(len(pa[-1]), len(pb[-1]))
        if n and pa[-1][-n:] != pb[-1][-n:]:
            return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, AS) and isinstance(y, str):
            key = ('is', x)
            known = S.path.memo.get(key)
            if known is not None:
                return known == y
            if y == '' and any(isinstance(p, str) for p in x.pieces):
                return False
            if len(x.pieces) == 1 and x.pieces[0].fmt == 'fresh':     # distinct by construction
                return False
            if len(x.pieces) == 1 and x.pieces[0].fmt == 'd' and not re.match(r'-?\d+$', y):
                return False
            if len(x.pieces) == 1 and x.pieces[0].fmt == 'd':
                return S.path.cmp('==', x.pieces[0].term, int(y))
            r = S.path.flag(('teq', x, y), '%r == %r' % (x, y))
            if r:
                S.path.memo[key] = y
            return r
    return S.path.flag(('teq', a, b), '%r == %r' % (a, b))


_CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
_CMPM = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
_SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}


def order(op, a, b):
    for x, y, o in ((a, b, op), (b, a, _SWAP[op])):
        if isinstance(x, PObj):
            f = x.cls.lookup(_CMPM[o])
            if f is not MISSING:
                r = call(bind(f, x, x.cls), (y,), {})
                if r is not NOTIMPL:
                    return r
    a, b = unwrap(a), unwrap(b)
    num = (bool, int, Lin, float, Flt)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, (Flt, float)) or isinstance(b, (Flt, float)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return _CMP[op](a, b)
            return S.path.flag(('ford', op, str(a), str(b)))
        if op in ('<', '<='):
            return S.path.cmp(op, a, b)
        return S.path.cmp(_SWAP[op], b, a)
    if isinstance(a, str) and isinstance(b, str):
        return _CMP[op](a, b)
    if is_text(a) and is_text(b):
        return S.path.flag(('tord', op, a, b))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        for x, y in zip(a, b):
            if x is y or truth(eq(x, y)):
                continue
            return order(op, x, y)
        return _CMP[op](len(a), len(b))
    if isinstance(a, AB) and isinstance(b, AB):
        if a.concrete() and b.concrete():
            return _CMP[op](a.host(), b.host())
        return S.path.flag(('bord', op, a.cells, b.cells))
    if isinstance(a, OSet) and isinstance(b, OSet):
        return _CMP[op](set(a.d), set(b.d))
    beyond('ordering', a, b)
    raise_('TypeError', "'%s' not supported between instances of '%s' and '%s'" % (op, class_of(a).name,
                                                                                   class_of(b).name))


def contains(c, x):
    if isinstance(c, HostObj) and hasattr(c.o, 'm___contains__'):
        return c.o.m___contains__(x)
    if isinstance(c, PClass):
        f = c.meta.lookup('__contains__')
        if f is not MISSING:
            return truth(call(bind(f, c, c.meta), (x,), {}))
    if isinstance(c, PObj):
        f = c.cls.lookup('__contains__')
        if f is not MISSING:
            return truth(call(bind(f, c, c.cls), (x,), {}))
        if c.val is None or c.cls.lookup('__iter__') is not MISSING or c.cls.lookup('__getitem__') is not MISSING:
            for y in iterate(c):
                if x is y or truth(eq(y, x)):
                    return True
            return False
        c = unwrap(c)
    if isinstance(c, dict):
        return dict_find(c, x) is not MISSING
    if isinstance(c, OSet):
        return dict_find(c.d, x) is not MISSING
    if is_text(c):
        x = unwrap(x)
        if not is_text(x):
            raise_('TypeError', "'in <string>' requires string as left operand, not %s" % class_of(x).name)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(x, str) and isinstance(c, AS):
            if any(isinstance(p, str) and x in p for p in c.pieces):
                return True
            if all(isinstance(p, str) or p.fmt in ('d', 'fresh', 'f', 'name') for p in c.pieces) and not re.search(
                    r'[\w-]', x):
                return False
        return S.path.flag(('contains', c, x), '%r in %r' % (x, c))
    if isinstance(c, (AB, Buf)):
        c = unwrap(c)
        x = unwrap(x)
        if is_int(x):
            return any(truth(eq_cell(y, x)) for y in c.cells)
        if not isinstance(x, AB):
            raise_('TypeError', "a bytes-like object is required, not '%s'" % class_of(x).name)
        if c.concrete() and x.concrete():
            return x.host() in c.host()
        if len(c) <= 12:
            return any(cells_eq(c.cells[i:i + len(x)], x.cells) for i in range(len(c) - len(x) + 1))
        return S.path.flag(('bin', c.cells, x))
    if isinstance(c, range):
        x = unwrap(x)
        if isinstance(x, int):
            return x in c
        if isinstance(x, Lin):
            if not len(c):
                return False
            lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
            return S.path.cmp('<=', lo, x) and S.path.cmp('<=', x, hi) and (
                abs(c.step) == 1 or truth(eq(binop('%', ladd(x, -lo), abs(c.step)), 0)))
    for y in iterate(c):
        if x is y or truth(eq(y, x)):
            return True
    return False


def eq_cell(y, x):
    if isinstance(y, int):
        return eq(y, x)
    return eq(cell_int(y), x)


def cells_eq(a, b):
    """Byte by byte, so that the trace on which they are the same knows the bytes; a long comparison as one flag."""
    pairs = [(x, y) for x, y in zip(a, b) if x != y]
    if len(pairs) > 12:
        return S.path.flag(('beq', tuple(a), tuple(b)))
    for x, y in pairs:
        if not truth(eq(cell_int(x), cell_int(y))):
            return False
    return True


def cell_int(c):
    if isinstance(c, int):
        return c
    if c.kind == 'i' and c.sig == 0 and isinstance(c.term, Lin):
        lo, hi = S.path.interval(c.term)
        if lo is not None and hi is not None and 0 <= lo and hi <= 255:
            return c.term
    return sym('byte(%r)' % c, 0, 255, (c,))


# ----------------------------------------------------------------------------- iteration

def beyond(what, *vs):
    """An operation on a library object whose model does not have it is not decided."""
    for v in vs:
        if isinstance(v, HostObj) and not isinstance(v.o, str) and not getattr(v.o, '_closed', False):
            raise Unsupported('%s a library object (%s)' % (what, getattr(v.o, 'name', type(v.o).__name__)))


def iterate(v):
    """Host generator over the elements of an abstract iterable."""
    if isinstance(v, (list,)):
        return _iter_list(v)
    if isinstance(v, (tuple, range)):
        return iter(v)
    if isinstance(v, str):
        return iter(v)
    if isinstance(v, dict):
        return _iter_dict(v)
    if isinstance(v, OSet):
        return iter(set_order(v))
    if isinstance(v, (AB, Buf)):
        return (cell_int(c) for c in unwrap(v).cells)
    if isinstance(v, GenObj):
        return v.it
    if isinstance(v, PObj):
        f = v.cls.lookup('__iter__')
        if f is None:
            raise_('TypeError', "'%s' object is not iterable" % v.cls.name)
        if f is not MISSING and not (isinstance(f, NFunc) and v.val is not None):
            r = call(bind(f, v, v.cls), (), {})
            return _iter_iterator(r)
        f = v.cls.lookup('__getitem__')
        if f is not MISSING and not (isinstance(f, NFunc) and v.val is not None):
            return _iter_getitem(v, f)
        if v.val is not None:
            return iterate(v.val)
    if isinstance(v, AS):
        raise Unsupported('iteration over unknown text')
    if isinstance(v, PClass):
        f = v.meta.lookup('__iter__')
        if f is not MISSING:
            return _iter_iterator(call(bind(f, v, v.meta), (), {}))
    if isinstance(v, HostObj) and hasattr(v.o, 'm___iter__'):
        return iter(v.o.m___iter__())
    if isinstance(v, HostObj) and hasattr(v.o, 'm___getitem__'):
        return _iter_items(v)
    beyond('iterating over', v)
    raise_('TypeError', "'%s' object is not iterable" % class_of(v).name)


def _iter_items(v):
    """Iteration over what only has __getitem__."""
    i = 0
    while True:
        try:
            x = get_item(v, i)
        except PyExc as e:
            if is_subclass(e.obj.cls, BC['IndexError']):
                return
            raise
        yield x
        i += 1


def _iter_list(v):
    i = 0
    while i < len(v):
        yield v[i]
        i += 1


def _iter_dict(v):
    n = len(v)
    for k in list(v):
        if len(v) != n:
            raise_('RuntimeError', 'dictionary changed size during iteration')
        yield k


def shuffled(items):
    """The items in the order of a pretended hash seed."""
    if S.variant is None or len(items) < 2 or all(i is None or isinstance(i, int) for i in items):
        return items
    import hashlib
    key = {}
    for k, i in enumerate(items):
        text = i if isinstance(i, str) else S.ids.setdefault(id(i), (i, len(S.ids)))[1]
        key[k] = hashlib.sha1(('%s/%s' % (S.variant, text)).encode()).digest()
    return [items[k] for k in sorted(key, key=key.get)]


def set_order(v):
    items = shuffled(list(v.d.values()))
    if S.unordered and len(items) > 1 and not all(isinstance(i, int) for i in items):
        if S.path.flag(('setorder', len(items), tuple(map(str, items))), 'set iteration order'):
            return items
        return items[::-1]
    return items


def _iter_iterator(r):
    if isinstance(r, GenObj):
        return r.it
    if isinstance(r, PObj) and r.cls.lookup('__next__') is not MISSING:
        return _iter_next(r)
    return iterate(r)


def _iter_next(r):
    f = bind(r.cls.lookup('__next__'), r, r.cls)
    while True:
        try:
            x = call(f, (), {})
        except PyExc as e:
            if is_subclass(e.obj.cls, BC['StopIteration']):
                return
            raise
        yield x


def _iter_getitem(v, f):
    i = 0
    m = bind(f, v, v.cls)
    while True:
        try:
            x = call(m, (i,), {})
        except PyExc as e:
            if is_subclass(e.obj.cls, (BC['IndexError'], BC['StopIteration'])):
                return
            raise
        yield x
        i += 1


# ----------------------------------------------------------------------------- attributes

def bind(f, obj, cls):
    """Descriptor binding of class attribute `f` for instance `obj`."""
    if isinstance(f, PFunc):
        return PMethod(f, obj)
    if isinstance(f, NFunc):
        return PMethod(f, obj) if f.bind else f
    if isinstance(f, PStatic):
        return f.fn
    if isinstance(f, PClassM):
        return PMethod(f.fn, cls)
    if isinstance(f, PProperty):
        if f.fget is None:
            raise_('AttributeError', 'unreadable attribute')
        return call(f.fget, (obj,), {})
    if isinstance(f, PObj) and f.cls.host is None:
        g = f.cls.lookup('__get__')
        if g is not MISSING:
            return call(bind(g, f, f.cls), (obj, cls), {})
    return f


def is_data_descriptor(v):
    return isinstance(v, PProperty) or isinstance(v, PObj) and v.cls.host is None and v.cls.lookup('__set__') is not MISSING


def class_has_dict(c):
    if c.has_dict is None:
        if '__slots__' in c.d and c.host is None:
            names = c.d['__slots__']
            if isinstance(names, str):
                names = [names]
            names = list(iterate(names))
            c.slots = set(names)
            c.has_dict = '__dict__' in c.slots or any(class_has_dict(b) for b in c.mro[1:])
        else:
            c.has_dict = c.host is None
            if c.host is None:
                c.slots = set()
    return c.has_dict


def instance_may_have(c, name):
    if class_has_dict(c):
        return True
    for b in c.mro:
        class_has_dict(b)
        if b.slots and name in b.slots:
            return True
    return False


def get_attr(o, name, default=MISSING):
    r = _get_attr(o, name)
    if r is MISSING:
        if default is not MISSING:
            return default
        for c in (list(o.mro) if isinstance(o, PClass) else []) + list(class_of(o).mro):
            if c.host is not None and hasattr(c.host, name) and name not in ('__dict__', '__weakref__', '__len__'):
                raise Unsupported('%s.%s' % (c.name, name))
        if isinstance(o, PClass):
            raise_('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, PModule):
            raise_('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
        raise_('AttributeError', "'%s' object has no attribute '%s'" % (class_of(o).name, name))
    return r


def _get_attr(o, name):
    if isinstance(o, PObj):
        if name == '__class__':
            return o.cls
        v = o.cls.lookup(name)
        if is_data_descriptor(v):
            return bind(v, o, o.cls)
        if name in o.d:
            return o.d[name]
        if v is not MISSING:
            return bind(v, o, o.cls)
        if name == '__dict__':
            return o.d
        if name == '__doc__':
            return None
        if BASEEXC in o.cls.mro:
            if name == 'message':
                return MISSING
            if name == 'with_traceback':
                return NFunc(name, lambda *_: o)
            if name == 'add_note':
                return NFunc(name, lambda n: o.d.setdefault('__notes__', []).append(n))
            if name in ('__cause__', '__context__', '__traceback__'):
                return None
            if name == '__suppress_context__':
                return False
        if o.val is not None:
            m = native_attr(o.val, name)
            if m is not MISSING:
                return m
        m = object_attr(o, name)
        if m is not MISSING:
            return m
        f = o.cls.lookup('__getattr__')
        if f is not MISSING:
            return call(bind(f, o, o.cls), (name,), {})
        return MISSING
    if isinstance(o, PClass):
        return class_attr(o, name)
    if isinstance(o, PModule):
        if name in o.d:
            return o.d[name]
        if name == '__name__':
            return o.name
        if name == '__dict__':
            return o.d
        sub = WORLD.import_module(o.name + '.' + name, True)
        if sub is None and not is_own(o.name):
            sub = unmodelled(o.name, name)
        if sub is not None:
            return sub
        return MISSING
    if isinstance(o, PSuper):
        return super_attr(o, name)
    return native_attr(o, name)


def object_attr(o, name):
    f = _OBJ_METHODS.get(name)
    if f is None:
        return MISSING
    return NFunc('object.' + name, lambda *a, **k: f(o, *a, **k))


_OBJ_METHODS = {
    '__repr__': lambda o: '<%s object>' % o.cls.name if isinstance(o, PObj) else repr_(o),
    '__str__': lambda o: str_(o),
    '__init__': lambda o, *a, **k: None,
    '__eq__': lambda o, x: True if o is x else NOTIMPL,
    '__ne__': lambda o, x: False if o is x else NOTIMPL,
    '__hash__': lambda o: id(o),
    '__setattr__': lambda o, n, v: set_attr_raw(o, n, v),
    '__getattribute__': lambda o, n: get_attr(o, n),
    '__delattr__': lambda o, n: del_attr(o, n),
}


def class_attr(c, name):
    if name == '__name__':
        return c.name
    if name == '__qualname__':
        return c.d.get('__qualname__', c.name)
    if name == '__bases__':
        return tuple(c.bases)
    if name == '__mro__':
        return tuple(c.mro)
    if name == '__class__':
        return c.meta
    if name == '__dict__':
        return c.d
    if name == '__subclasses__':
        raise Unsupported('__subclasses__')
    mv = c.meta.lookup(name) if c.meta is not None else MISSING
    if is_data_descriptor(mv):
        return bind(mv, c, c.meta)
    v = c.lookup(name)
    if v is not MISSING:
        if isinstance(v, PStatic):
            return v.fn
        if isinstance(v, PClassM):
            return PMethod(v.fn, c)
        if isinstance(v, PObj):
            return bind(v, None, c)
        return v
    if name == '__annotations__':
        return {}
    if name == '__module__':
        return c.module or 'builtins'
    if name == '__doc__':
        return None
    if mv is not MISSING:
        return bind(mv, c, c.meta)
    return class_native_attr(c, name)


def class_native_attr(c, name):
    """Unbound methods of builtin bases, e.g. Exception.__init__, type.__new__, object.__repr__."""
    if name == '__new__':
        return NFunc('__new__', builtin_new)
    for b in c.mro:
        if b.host is None:
            continue
        if issubclass(b.host, BaseException) and name == '__init__':
            return NFunc('__init__', exc_init, True)
        if issubclass(b.host, BaseException) and name in ('__str__', '__repr__'):
            fn = exc_str if name == '__str__' else repr_
            return NFunc(name, fn, True)
        if b.host is type:
            if name == '__init__':
                return NFunc('__init__', lambda *a, **k: None, True)
            if name == '__call__':
                return NFunc('__call__', lambda cl, *a, **k: instantiate(cl, a, k), True)
            if name in ('__eq__', '__ne__', '__hash__', '__setattr__', '__getattribute__'):
                f = _OBJ_METHODS[name]
                return NFunc(name, f, True)
            if name == 'mro':
                return NFunc('mro', lambda cl: list(cl.mro), True)
        if b.host is object:
            if name == '__init_subclass__':
                return PClassM(NFunc(name, lambda *a, **k: None))
            f = _OBJ_METHODS.get(name)
            if f:
                return NFunc(name, f, True)
        elif (b.name, name) in STATICS():
            return NFunc(name, STATICS()[b.name, name])
        elif hasattr(b.host, name) and b.host in (list, dict, str, set, tuple, bytes, int, float, frozenset):
            if name in ('__init__',):
                return NFunc('__init__', lambda *a, **k: None, True)
            return NFunc(name, lambda self_, *a, **k: call_value(native_attr(unwrap(self_), name), a, k), True)
    return MISSING


def EXC(name):
    from . import pylib
    return pylib.BC[name]


def STATICS():
    from . import pylib
    return pylib.STATICS


def call_value(f, a, k):
    if f is MISSING:
        raise Unsupported('native method')
    return call(f, a, k)


def exc_init(o, *a, **k):
    o.d['args'] = tuple(a)


def exc_str(o):
    args = o.d.get('args', ())
    if not args:
        return ''
    if len(args) == 1:
        if is_subclass(o.cls, BC['KeyError']):
            return repr_(args[0])
        return str_(args[0])
    return repr_(args)


def super_attr(s, name):
    obj = s.obj
    if isinstance(obj, PClass) and s.cls in obj.mro:
        mro, cls, binder = obj.mro, obj, None
        is_cls = True
    else:
        cls = class_of(obj)
        mro, is_cls = cls.mro, False
    i = mro.index(s.cls)
    for c in mro[i + 1:]:
        v = c.d.get(name, MISSING)
        if v is not MISSING:
            if is_cls:
                if isinstance(v, PStatic):
                    return v.fn
                if isinstance(v, PClassM):
                    return PMethod(v.fn, obj)
                if name == '__new__':
                    return v
                return v
            if name == '__new__':
                return v.fn if isinstance(v, PStatic) else v
            return bind(v, obj, cls)
        if c.host is not None:
            v = class_native_attr(c, name)
            if v is not MISSING:
                if name == '__new__':
                    return v
                if isinstance(v, PClassM):
                    return PMethod(v.fn, obj if is_cls else cls)
                if is_cls:
                    # type.__init__ and friends called on a class object
                    return v if not (isinstance(v, NFunc) and v.bind and TYPE in cls.meta.mro and c.host is type) \
                        else PMethod(v, obj)
                return bind(v, obj, cls)
    return MISSING


def set_attr(o, name, v):
    if isinstance(o, PObj):
        f = o.cls.lookup('__setattr__')
        if isinstance(f, PFunc):
            call(PMethod(f, o), (name, v), {})
            return
        set_attr_raw(o, name, v)
        return
    set_attr_raw(o, name, v)


def set_attr_raw(o, name, v):
    if isinstance(o, PObj):
        d = o.cls.lookup(name)
        if isinstance(d, PProperty):
            if d.fset is None:
                raise_('AttributeError', "can't set attribute '%s'" % name)
            call(d.fset, (o, v), {})
            return
        if is_data_descriptor(d):
            call(bind(d.cls.lookup('__set__'), d, d.cls), (o, v), {})
            return
        if not instance_may_have(o.cls, name):
            raise_('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
        o.d[name] = v
        h = S.hooks.get('setattr')
        if h:
            h(o, name, v)
        return
    if isinstance(o, PClass):
        if o.host is not None:
            raise_('TypeError', "cannot set '%s' attribute of immutable type '%s'" % (name, o.name))
        d = o.meta.lookup(name)
        if isinstance(d, PProperty):
            call(d.fset, (o, v), {})
            return
        o.d[name] = v
        h = S.hooks.get('setattr')
        if h:
            h(o, name, v)
        return
    if isinstance(o, PModule):
        o.d[name] = v
        return
    if isinstance(o, PFunc):
        if name == '__name__':
            o.name = v
        o.d[name] = v
        return
    if isinstance(o, HostObj):
        f = getattr(o.o, 'set_' + name, None)
        if f:
            f(v)
            return
        if hasattr(o.o, 'attrs'):
            o.o.attrs[name] = v
            return
        if getattr(o.o, '_open', False):
            setattr(o.o, name, v)
            return
    raise_('AttributeError', "'%s' object has no attribute '%s'" % (class_of(o).name, name))


def del_attr(o, name):
    if isinstance(o, PObj):
        f = o.cls.lookup('__delattr__')
        if isinstance(f, PFunc) and not (S.stack and S.stack[-1].func is f):
            call(PMethod(f, o), (name,), {})
            return
        d = o.cls.lookup(name)
        if isinstance(d, PProperty):
            if d.fdel is None:
                raise_('AttributeError', "can't delete attribute '%s'" % name)
            call(d.fdel, (o,), {})
            return
        if is_data_descriptor(d):
            f = d.cls.lookup('__delete__')
            if f is MISSING:
                raise_('AttributeError', '__delete__')
            call(bind(f, d, d.cls), (o,), {})
            return
        if name in o.d:
            del o.d[name]
            return
    elif isinstance(o, (PClass, PModule)):
        if name in o.d:
            del o.d[name]
            return
    raise_('AttributeError', name)


# ----------------------------------------------------------------------------- calls

def call(f, args=(), kwargs=None):
    kwargs = kwargs or {}
    if isinstance(f, PMethod):
        return call(f.fn, (f.self_,) + tuple(args), kwargs)
    if isinstance(f, PFunc):
        return call_pfunc(f, args, kwargs)
    if isinstance(f, NFunc):
        return f.fn(*args, **kwargs)
    if isinstance(f, PClass):
        m = f.meta.lookup('__call__')
        if isinstance(m, PFunc):
            return call(PMethod(m, f), args, kwargs)
        return instantiate(f, args, kwargs)
    if isinstance(f, PObj):
        m = f.cls.lookup('__call__')
        if m is not MISSING:
            return call(bind(m, f, f.cls), args, kwargs)
    if isinstance(f, (PStatic, PClassM)):
        return call(f.fn, args, kwargs)
    if isinstance(f, HostObj) and hasattr(f.o, 'm___call__'):
        return f.o.m___call__(*args, **kwargs)
    beyond('calling', f)
    raise_('TypeError', "'%s' object is not callable" % class_of(f).name)


def instantiate(cls, args, kwargs):
    if cls.host is not None and cls.module == 'builtins':
        f = BUILTIN_CALL.get(cls.name)
        if f is not None:
            return f(*args, **kwargs)
        if issubclass(cls.host, BaseException):
            o = PObj(cls)
            o.d['args'] = tuple(args)
            if issubclass(cls.host, OSError) and len(args) >= 2:
                o.d['errno'], o.d['strerror'] = args[0], args[1]
            return o
        raise Unsupported('instantiation of %s' % cls.name)
    new = cls.lookup('__new__')
    if new is not MISSING:
        if isinstance(new, PStatic):
            new = new.fn
        o = call(new, (cls,) + tuple(args), kwargs)
    else:
        o = builtin_new(cls, *args, **kwargs)
    if isinstance(o, (PObj, PClass)) and is_subclass(class_of(o), cls):
        init = class_of(o).lookup('__init__')
        if init is not MISSING:
            r = call(bind(init, o, cls), args, kwargs)
            if r is not None:
                raise_('TypeError', '__init__() should return None')
        elif TYPE not in cls.mro:
            b = next((c for c in cls.mro if c.host not in (None, object)), None)
            if b is None and new is MISSING and (args or kwargs):
                raise_('TypeError', '%s() takes no arguments' % cls.name)
            if b is not None and issubclass(b.host, BaseException):
                o.d['args'] = tuple(args)
    return o


def builtin_new(cls, *args, **kwargs):
    if not isinstance(cls, PClass):
        raise_('TypeError', 'object.__new__(X): X is not a type object')
    if TYPE in cls.mro:
        name, bases, d = args
        win = cls
        for b in bases:
            if isinstance(b, PClass) and is_subclass(b.meta, win):
                win = b.meta
        if win is not cls:
            f = win.lookup('__new__')
            if f is not MISSING:
                return call(f.fn if isinstance(f, PStatic) else f, (win, name, bases, d), kwargs)
        return new_class(win, name, bases, d, kwargs)
    b = next((c for c in cls.mro if c.host not in (None, object)), None)
    if b is None:
        return PObj(cls)
    if issubclass(b.host, BaseException):
        o = PObj(cls)
        o.d['args'] = tuple(args)
        return o
    val = BUILTIN_CALL[b.name](*args, **kwargs)
    if cls.host is not None:
        return val
    return PObj(cls, unwrap(val) if val is not None else None)


def new_class(meta, name, bases, d, kwargs=None):
    bases = tuple(bases) or (OBJECT,)
    for b in bases:
        if not isinstance(b, PClass):
            if isinstance(b, (NFunc, HostObj)):
                raise Unsupported('class derived from library type %r' % b)
            raise_('TypeError', 'bases must be types')
        if b.host in (bool, slice, range, type(None)):
            raise_('TypeError', "type '%s' is not an acceptable base type" % b.name)
        if not is_subclass(meta, b.meta):
            if is_subclass(b.meta, meta):
                meta = b.meta
            else:
                raise_('TypeError', 'metaclass conflict')
    c = PClass(name, bases, dict(d), meta, None, d.get('__module__'))
    c.origin = where()
    if '__slots__' in c.d:
        names = c.d['__slots__']
        names = [names] if isinstance(names, str) else list(iterate(names))
        for n in names:
            if n in c.d and n != '__dict__':
                raise_('ValueError', "'%s' in __slots__ conflicts with class variable" % n)
    for k, v in list(c.d.items()):
        if isinstance(v, PFunc) and v.defcls is None:
            v.defcls = c
        elif isinstance(v, (PStatic, PClassM)) and isinstance(v.fn, PFunc) and v.fn.defcls is None:
            v.fn.defcls = c
        elif isinstance(v, PProperty):
            for g in (v.fget, v.fset, v.fdel):
                if isinstance(g, PFunc) and g.defcls is None:
                    g.defcls = c
    if '__new__' in c.d and isinstance(c.d['__new__'], PFunc):
        c.d['__new__'] = PStatic(c.d['__new__'])
    for n in ('__init_subclass__', '__class_getitem__'):
        if isinstance(c.d.get(n), PFunc):
            c.d[n] = PClassM(c.d[n])
    for k, v in list(c.d.items()):
        if isinstance(v, PObj) and v.cls.host is None:
            f = v.cls.lookup('__set_name__')
            if f is not MISSING:
                call(bind(f, v, v.cls), (c, k), {})
    for b in c.mro[1:]:
        f = b.d.get('__init_subclass__')
        if f is not None:
            call(PMethod(f.fn, c) if isinstance(f, PClassM) else f, (), kwargs or {})
            break
    else:
        if kwargs:
            raise_('TypeError', '%s.__init_subclass__() takes no keyword arguments' % name)
    return c


def build_class(name, bases, d, metakw=None, kwargs=None):
    meta = metakw
    if meta is None:
        meta = TYPE
        for b in bases:
            if isinstance(b, PClass) and is_subclass(b.meta, meta):
                meta = b.meta
    return call(meta, (name, tuple(bases), d), kwargs or {})


class Env(object):
    __slots__ = ('vars', 'parent', 'glob', 'file', 'qual', 'line', 'is_class', 'func', 'globs', 'is_comp')

    def __init__(self, parent, glob, file, qual):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.file = file
        self.qual = qual
        self.line = 0
        self.is_class = False
        self.is_comp = False
        self.func = None
        self.globs = None


class Code(object):
    """Translated function."""
    __slots__ = ('args', 'posonly', 'vararg', 'kwonly', 'kwarg', 'body', 'is_gen', 'gbody', 'name', 'qual', 'file',
                 'line', 'doc', 'globs', 'nonlocs', 'argset', 'is_lambda', 'flocals', 'anns')


def call_pfunc(f, args, kwargs):
    code = f.code
    env = Env(f.parent, f.glob, code.file, code.qual)
    env.func = f
    env.line = code.line
    env.globs = code.globs
    v = env.vars
    names = code.args
    n = len(names)
    if len(args) > n:
        if code.vararg is None:
            raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
        v[code.vararg] = tuple(args[n:])
    elif code.vararg is not None:
        v[code.vararg] = ()
    for nm, a in zip(names, args):
        v[nm] = a
    extra = None
    if code.kwarg is not None:
        extra = {}
        v[code.kwarg] = extra
    for k, a in kwargs.items():
        if k in code.argset:
            if k in v:
                raise_('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
            v[k] = a
        elif extra is not None:
            extra[k] = a
        else:
            raise_('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
    if len(args) < n:
        nd = len(f.defaults)
        for i in range(len(args), n):
            nm = names[i]
            if nm not in v:
                j = i - (n - nd)
                if j < 0:
                    raise_('TypeError', "%s() missing required positional argument: '%s'" % (f.name, nm))
                v[nm] = f.defaults[j]
    for nm in code.kwonly:
        if nm not in v:
            if nm not in f.kwdefaults:
                raise_('TypeError', "%s() missing required keyword-only argument: '%s'" % (f.name, nm))
            v[nm] = f.kwdefaults[nm]
    S.functions.add((code.file, code.qual))
    if S.call_log is not None:
        S.call_log.append((code.file, code.qual, code.line))
    if code.is_gen:
        return GenObj(run_gen(code, env))
    if code.is_lambda:
        S.stack.append(env)
        try:
            if len(S.stack) > 600:
                raise_('RecursionError', 'maximum recursion depth exceeded')
            return code.body(env)
        finally:
            S.stack.pop()
    S.stack.append(env)
    try:
        if len(S.stack) > 600:
            raise_('RecursionError', 'maximum recursion depth exceeded')
        for s in code.body:
            r = s(env)
            if r is not None:
                if r is BRK or r is CNT:
                    raise Unsupported('loop control outside loop')
                return r.v
        return None
    finally:
        S.stack.pop()


def run_gen(code, env):
    """Host generator executing an abstract generator function, keeping S.stack balanced."""
    g = _gen_body(code, env)
    send = None
    exc = None
    while True:
        S.stack.append(env)
        if len(S.stack) > 600:
            S.stack.pop()
            raise_('RecursionError', 'maximum recursion depth exceeded')
        try:
            if exc is not None:
                e, exc = exc, None
                x = g.throw(e)
            else:
                x = g.send(send)
        except StopIteration as st:
            return st.value
        finally:
            S.stack.pop()
        try:
            send = yield x
        except GeneratorExit:
            return
        except PyExc as e:
            exc = e


def _gen_body(code, env):
    for s in code.gbody:
        r = yield from s(env)
        if r is not None:
            return r.v
    return None


class Ret(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class _Sig(object):
    pass


BRK = _Sig()
CNT = _Sig()


# ----------------------------------------------------------------------------- operators

def _num2(a, b):
    return isinstance(a, (int, Lin, float, Flt)) and isinstance(b, (int, Lin, float, Flt))


def app(op, a, b=None, lo=None, hi=None):
    if b is None:
        return sym('%s(%r)' % (op, a), lo, hi, meta=(op, a))
    return sym('(%r %s %r)' % (a, op, b), lo, hi, meta=(op, a, b))


_DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '<<': 'lshift',
           '>>': 'rshift', '|': 'or', '&': 'and', '^': 'xor', '**': 'pow'}
_HOST = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
         '%': operator.mod, '<<': operator.lshift, '>>': operator.rshift, '|': operator.or_, '&': operator.and_,
         '^': operator.xor, '**': operator.pow}


def binop(op, a, b):
    # fast path
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        if op == '<<' and b > 100000 or op == '**' and b > 10000:
            h = S.hooks.get('hugeint')
            if h:
                h(op, a, b)
            raise_('MemoryError', 'huge integer')
        return host_call(_HOST[op], a, b)
    if ta is str and tb is str and op == '+':
        if len(a) > 262144:
            # building ever longer text costs steps as well
            S.steps += len(a) >> 6
            if S.steps > S.max_steps:
                raise Budget(where())
        return a + b
    d = _DUNDER[op]
    if isinstance(a, PObj):
        f = a.cls.lookup('__%s__' % d)
        if f is not MISSING and isinstance(f, PFunc):
            r = call(PMethod(f, a), (b,), {})
            if r is not NOTIMPL:
                return r
    if isinstance(b, PObj):
        f = b.cls.lookup('__r%s__' % d)
        if f is not MISSING and isinstance(f, PFunc):
            r = call(PMethod(f, b), (a,), {})
            if r is not NOTIMPL:
                return r
    if isinstance(a, Buf) and not a.view or isinstance(b, Buf) and isinstance(a, int):
        return Buf(binop(op, unwrap(a), unwrap(b)))
    if op == '|' and (isinstance(a, PClass) or isinstance(b, PClass) or isinstance(a, HostObj) and isinstance(a.o, Union)):
        ts = []
        for x in (a, b):
            ts += list(x.o.types) if isinstance(x, HostObj) and isinstance(x.o, Union) else [class_of(None) if x is None else x]
        return HostObj(Union(tuple(ts)))
    a, b = unwrap(a), unwrap(b)
    if _num2(a, b):
        if isinstance(a, (float, Flt)) or isinstance(b, (float, Flt)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return host_call(_HOST[op], a, b)
            if op in ('<<', '>>', '|', '&', '^'):
                raise_('TypeError', "unsupported operand type(s) for %s: 'float' and 'int'" % op)
            return Flt('(%r%s%r)' % (a, op, b))
        a, b = S.path.conc(a), S.path.conc(b)
        if isinstance(a, int) and isinstance(b, int):
            return binop(op, int(a), int(b))
        return lin_op(op, a, b)
    if op == '%' and is_text(a):
        return percent(a, b)
    if op == '+':
        if is_text(a) and is_text(b):
            return mktext((a, b))
        if isinstance(a, AB) and isinstance(b, AB):
            return a + b
        if isinstance(a, list) and isinstance(b, list):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op == '*':
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Lin):
                lo, hi = S.path.interval(y)
                if isinstance(x, (str, list, tuple, AB)) and hi is not None and hi <= 0:
                    y = 0
                elif isinstance(x, AS) or isinstance(x, str):
                    return AS([Hole('repeat', (x, y))])
                else:
                    raise Unsupported('repetition by an unknown count')
            if isinstance(y, int):
                if isinstance(x, AB):
                    w = where()
                    return AB(x.cells * y, (w,) * (len(x) * max(y, 0)))
                if isinstance(x, (str, list, tuple)):
                    return x * int(y)
                if isinstance(x, AS):
                    return mktext((x,) * int(y))
    if op == '%' and isinstance(a, AB):
        return bytes_percent(a, b)
    if isinstance(a, OSet) and isinstance(b, OSet):
        if op == '|':
            return OSet(list(a.d.values()) + list(b.d.values()), a.frozen)
        if op == '&':
            return OSet([v for v in a.d.values() if dict_find(b.d, v) is not MISSING], a.frozen)
        only = [v for v in a.d.values() if dict_find(b.d, v) is MISSING]
        if op == '-':
            return OSet(only, a.frozen)
        if op == '^':
            return OSet(only + [v for v in b.d.values() if dict_find(a.d, v) is MISSING], a.frozen)
    if isinstance(a, CounterD) and isinstance(b, CounterD) and op in '+-':
        r = CounterD()
        r.factory = a.factory
        for k in list(a) + [x for x in b if x not in a]:
            n = binop(op, a.get(k, 0), b.get(k, 0))
            if S.path.cmp('<', 0, n):
                r[k] = n
        return r
    if isinstance(a, dict) and isinstance(b, dict) and op == '|':
        r = dict(a)
        r.update(b)
        return r
    if isinstance(a, HostObj) and hasattr(a.o, 'm___%s__' % d):
        return getattr(a.o, 'm___%s__' % d)(b)
    beyond('operator %s on' % op, a, b)
    raise_('TypeError', "unsupported operand type(s) for %s: '%s' and '%s'" % (op, class_of(a).name,
                                                                               class_of(b).name))


def lin_op(op, a, b):
    if op == '+':
        return ladd(a, b)
    if op == '-':
        return ladd(a, b, -1)
    if op == '*':
        if isinstance(a, int):
            return lmulc(b, a)
        if isinstance(b, int):
            return lmulc(a, b)
        return app('*', a, b)
    if op in ('//', '%', '/'):
        if not isinstance(b, int):
            if S.path.cmp('==', b, 0):
                raise_('ZeroDivisionError', 'division by zero')
        elif b == 0:
            raise_('ZeroDivisionError', 'division by zero')
        if op == '/':
            return Flt('(%r / %r)' % (a, b), quot=(a, b))
        if isinstance(b, int) and b > 0:
            if op == '%':
                ca, da = a.c, a.t
                if all(k % b == 0 for _, k in da):
                    return ca % b
                lo, hi = S.path.interval(a)
                if lo is not None and lo >= 0 and hi is not None and hi < b:
                    return a
                return app('%', a, b, 0, b - 1)
            lo, hi = S.path.interval(a)
            if all(k % b == 0 for _, k in a.t) :
                return ladd(Lin(0, tuple((x, k // b) for x, k in a.t)), a.c // b)
            return app('//', a, b, None if lo is None else lo // b, None if hi is None else hi // b)
        return app(op, a, b)
    if op == '<<' or op == '>>':
        if isinstance(b, int):
            if b < 0:
                raise_('ValueError', 'negative shift count')
        elif S.path.cmp('<', b, 0):
            raise_('ValueError', 'negative shift count')
        if isinstance(b, int) and op == '<<' and b < 10000:
            return lmulc(a, 1 << b)
        if op == '<<':
            lo, hi = S.path.interval(b)
            if hi is None or hi > 100000:
                h = S.hooks.get('hugeint')
                if h and h(op, a, b):
                    raise_('MemoryError', 'huge integer')
        if isinstance(b, int) and op == '>>':
            return lin_op('//', a, 1 << b)
        return app(op, a, b)
    if op == '&' and (isinstance(a, int) or isinstance(b, int)):
        x, m = (b, a) if isinstance(a, int) else (a, b)
        if m >= 0 and (m & (m + 1)) == 0:
            return lin_op('%', x, m + 1) if m else 0
        return app('&', x, m, 0 if m >= 0 else None, m if m >= 0 else None)
    if op in ('|', '&', '^'):
        return app(op, a, b)
    if op == '**':
        return app(op, a, b)
    raise Unsupported('integer operator %s' % op)


def unary(op, a):
    if op == 'not':
        return not truth(a)
    if isinstance(a, PObj):
        f = a.cls.lookup({'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op])
        if isinstance(f, PFunc):
            return call(PMethod(f, a), (), {})
    a = unwrap(a)
    if isinstance(a, (int, float)):
        return host_call({'-': operator.neg, '+': operator.pos, '~': operator.invert}[op], a)
    if isinstance(a, Lin):
        if op == '-':
            return lneg(a)
        if op == '+':
            return a
        return ladd(lneg(a), -1)
    if isinstance(a, Flt) and op in '+-':
        return Flt('(%s%r)' % (op, a))
    raise_('TypeError', "bad operand type for unary %s: '%s'" % (op, class_of(a).name))


# ----------------------------------------------------------------------------- subscripts

def norm_slice(s):
    def c(x):
        x = unwrap(x)
        if x is None:
            return None
        if isinstance(x, Lin):
            x = S.path.conc(x)
        if isinstance(x, Lin):
            raise Unsupported('slice with unknown bound %r' % x)
        if isinstance(x, int):
            return int(x)
        if isinstance(x, PObj) and x.cls.lookup('__index__') is not MISSING:
            return call(bind(x.cls.lookup('__index__'), x, x.cls), (), {})
        raise_('TypeError', 'slice indices must be integers or None or have an __index__ method')
    return slice(c(s.start), c(s.stop), c(s.step))


def norm_index(o, i, n):
    """Index within a sequence of length n; splits for unknown indices."""
    i = unwrap(i)
    if isinstance(i, PObj) and i.cls.lookup('__index__') is not MISSING:
        i = unwrap(call(bind(i.cls.lookup('__index__'), i, i.cls), (), {}))
    if isinstance(i, Lin):
        i = S.path.conc(i)
    if isinstance(i, Lin):
        for k in range(-n, n):
            if S.path.cmp('==', i, k):
                return k
        return n + 1
    if isinstance(i, int):
        return int(i)
    raise_('TypeError', '%s indices must be integers or slices, not %s' % (class_of(o).name, class_of(i).name))


def get_item(o, i):
    if isinstance(o, PObj):
        f = o.cls.lookup('__getitem__')
        if f is not MISSING and not (isinstance(f, NFunc) and o.val is not None):
            return call(bind(f, o, o.cls), (i,), {})
        if isinstance(o.val, dict):
            f = o.cls.lookup('__missing__')
            if f is not MISSING and dict_find(o.val, i) is MISSING:
                return call(bind(f, o, o.cls), (i,), {})
        if o.val is not None:
            return get_item(o.val, i)
        raise_('TypeError', "'%s' object is not subscriptable" % o.cls.name)
    if isinstance(o, dict):
        return dict_get(o, i)
    if isinstance(o, Buf):
        if isinstance(i, slice):
            return o.part(i)
        o = o.ab
    if isinstance(o, (list, tuple, str, AB, range)):
        if isinstance(i, slice):
            if isinstance(o, AB):
                return slice_bytes(o, i)
            return host_call(operator.getitem, o, norm_slice(i))
        k = norm_index(o, i, len(o))
        if not -len(o) <= k < len(o):
            raise_('IndexError', '%s index out of range' % class_of(o).name)
        r = o[k]
        if isinstance(o, AB):
            return cell_int(r)
        return r
    if isinstance(o, AS):
        return text_slice(o, i)
    if isinstance(o, HostObj) and hasattr(o.o, 'm___getitem__'):
        return o.o.m___getitem__(i)
    if isinstance(o, PClass):
        f = o.meta.lookup('__getitem__')
        if f is not MISSING:
            return call(bind(f, o, o.meta), (i,), {})
        f = o.lookup('__class_getitem__')
        if f is not MISSING:
            return call(bind(f, o, o), (i,), {})
        if o.host in (list, dict, tuple, set, frozenset, type):
            return o
    if isinstance(o, HostObj):
        raise Unsupported('subscript of library object %r' % o)
    raise_('TypeError', "'%s' object is not subscriptable" % class_of(o).name)


def slice_bytes(o, i):
    s = []
    n = len(o)
    for x in (i.start, i.stop):
        x = unwrap(x)
        if isinstance(x, Lin):
            x = S.path.conc(x)
        if isinstance(x, Lin):
            # unknown bound: where does it fall?
            if S.path.cmp('<', x, 0):
                raise Unsupported('negative unknown slice bound')
            for k in range(0, n):
                if S.path.cmp('<=', x, k):
                    x = k
                    break
            else:
                x = n
        s.append(x)
    return o[norm_slice(slice(s[0], s[1], i.step))]


def text_slice(o, i):
    p = o.pieces
    if isinstance(i, slice) and i.step is None:
        st, en = unwrap(i.start), unwrap(i.stop)
        pieces = list(p)
        if isinstance(st, int) and st > 0:
            if pieces and isinstance(pieces[0], str) and len(pieces[0]) >= st:
                pieces[0] = pieces[0][st:]
                st = None
        if isinstance(en, int) and en < 0:
            if pieces and isinstance(pieces[-1], str) and len(pieces[-1]) >= -en:
                pieces[-1] = pieces[-1][:en]
                en = None
        if st in (None, 0) and en is None:
            return mktext(pieces)
        return AS([Hole('slice', (o, str(i.start), str(i.stop)))])
    if isinstance(i, int):
        if i == 0 and isinstance(p[0], str):
            return p[0][0]
        if i == -1 and isinstance(p[-1], str):
            return p[-1][-1]
        if i in (0, -1) and not truth(o):
            raise_('IndexError', 'string index out of range')
        return AS([Hole('char', (o, i))])
    if isinstance(i, Lin):
        return AS([Hole('char', (o, i))])
    return AS([Hole('slice', (o, str(i)))])


def set_item(o, i, v):
    if isinstance(o, PObj):
        f = o.cls.lookup('__setitem__')
        if f is not MISSING and not (isinstance(f, NFunc) and o.val is not None):
            call(bind(f, o, o.cls), (i, v), {})
            return
        if o.val is not None:
            return set_item(o.val, i, v)
        raise_('TypeError', "'%s' object does not support item assignment" % o.cls.name)
    if isinstance(o, dict):
        dict_set(o, i, v)
        return
    if isinstance(o, list):
        if isinstance(i, slice):
            items = list(iterate(v))
            sl = norm_slice(i)
            host_call(operator.setitem, o, sl, items)
            return
        k = norm_index(o, i, len(o))
        if not -len(o) <= k < len(o):
            raise_('IndexError', 'list assignment index out of range')
        o[k] = v
        return
    if isinstance(o, Buf):
        old = o.ab
        if isinstance(i, slice):
            new = bytes_like(v)
            if new is None:
                new = call(BC['bytes'], (v,), {})
            sl = norm_slice(i)
            lo, hi, step = sl.indices(len(old))
            if step != 1:
                raise Unsupported('assignment to a stepped slice of a bytearray')
            o.set(old[:lo] + new + old[max(lo, hi):])
            return
        k = norm_index(o, i, len(old))
        if not -len(old) <= k < len(old):
            raise_('IndexError', 'bytearray index out of range')
        k %= len(old)
        o.set(old[:k] + call(BC['bytes'], ([v],), {}) + old[k + 1:])
        return
    if isinstance(o, HostObj) and hasattr(o.o, 'm___setitem__'):
        o.o.m___setitem__(i, v)
        return
    beyond('assigning to an item of', o)
    raise_('TypeError', "'%s' object does not support item assignment" % class_of(o).name)


def del_item(o, i):
    if isinstance(o, PObj):
        f = o.cls.lookup('__delitem__')
        if f is not MISSING and not (isinstance(f, NFunc) and o.val is not None):
            call(bind(f, o, o.cls), (i,), {})
            return
        if o.val is not None:
            return del_item(o.val, i)
        raise_('TypeError', "'%s' object doesn't support item deletion" % o.cls.name)
    if isinstance(o, dict):
        k = dict_find(o, i)
        if k is MISSING:
            raise_('KeyError', i)
        del o[k]
        return
    if isinstance(o, list):
        if isinstance(i, slice):
            host_call(operator.delitem, o, norm_slice(i))
            return
        k = norm_index(o, i, len(o))
        if not -len(o) <= k < len(o):
            raise_('IndexError', 'list assignment index out of range')
        del o[k]
        return
    if isinstance(o, Buf) and not o.view:
        cells, at = list(o.own.cells), list(o.own.prov)
        i = norm_slice(i) if isinstance(i, slice) else norm_index(o, i, len(cells))
        host_call(operator.delitem, cells, i)
        host_call(operator.delitem, at, i)
        o.own = AB(cells, at)
        return
    raise_('TypeError', "'%s' object doesn't support item deletion" % class_of(o).name)


# ----------------------------------------------------------------------------- text

def str_(v):
    if isinstance(v, (str, AS)):
        return v
    if isinstance(v, PObj):
        f = v.cls.lookup('__str__')
        if f is not MISSING:
            r = call(bind(f, v, v.cls), (), {})
            if not is_text(unwrap(r)):
                raise_('TypeError', '__str__ returned non-string')
            return r
        f = v.cls.lookup('__repr__')
        if f is not MISSING and isinstance(f, PFunc):
            return call(bind(f, v, v.cls), (), {})
        if BASEEXC in v.cls.mro:
            return exc_str(v)
        if v.val is not None:
            return str_(v.val)
        return repr_(v)
    if isinstance(v, HostObj) and hasattr(v.o, 'm___str__'):
        return v.o.m___str__()
    if isinstance(v, Lin):
        v = S.path.conc(v)
        if isinstance(v, Lin):
            return AS([Hole('d', v)])
    if isinstance(v, Flt):
        return AS([Hole('repr', v)])
    if isinstance(v, (bool, int, float)) or v is None:
        return str(v)
    return repr_(v)


def repr_(v):
    if isinstance(v, PObj):
        f = v.cls.lookup('__repr__')
        if f is not MISSING:
            r = call(bind(f, v, v.cls), (), {})
            if not is_text(unwrap(r)):
                raise_('TypeError', '__repr__ returned non-string')
            return r
        if BASEEXC in v.cls.mro:
            a = v.d.get('args', ())
            return mktext([v.cls.name, '('] + _sep([repr_(x) for x in a]) + [')'])
        if v.val is not None:
            return repr_(v.val)
        k = S.ids.setdefault(id(v), (v, len(S.ids)))[1]
        return mktext(['<%s object at ' % v.cls.name, AS([Hole('address', k)]), '>'])
    if isinstance(v, slice):
        return mktext(['slice('] + _sep([repr_(x) for x in (v.start, v.stop, v.step)]) + [')'])
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, AS):
        return mktext(["'", v, "'"])
    if isinstance(v, AB):
        if v.concrete():
            return repr(v.host())
        return mktext(["b", AS([Hole('bytesrepr', v.cells)])])
    if isinstance(v, (Lin, Flt)):
        return str_(v)
    if isinstance(v, (bool, int, float)) or v is None:
        return repr(v)
    if isinstance(v, list):
        return mktext(['['] + _sep([repr_(x) for x in v]) + [']'])
    if isinstance(v, tuple):
        if len(v) == 1:
            return mktext(['(', repr_(v[0]), ',)'])
        return mktext(['('] + _sep([repr_(x) for x in v]) + [')'])
    if isinstance(v, dict):
        return mktext(['{'] + _sep([mktext([repr_(k), ': ', repr_(x)]) for k, x in v.items()]) + ['}'])
    if isinstance(v, OSet):
        if not v.d:
            return 'set()'
        return mktext(['{'] + _sep([repr_(k) for k in set_order(v)]) + ['}'])
    if isinstance(v, PClass):
        f = v.meta.lookup('__repr__')
        if isinstance(f, PFunc):
            return call(PMethod(f, v), (), {})
        return "<class '%s.%s'>" % (v.module or 'builtins', v.name)
    if isinstance(v, PFunc):
        return '<function %s>' % v.name
    if v is NOTIMPL:
        return 'NotImplemented'
    return '<%s>' % class_of(v).name


def _sep(xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(', ')
        out.append(x)
    return out


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+|\*))?[hlL]?([diouxXeEfFgGcrsa%])')


def bytes_percent(fmt, arg):
    if not fmt.concrete():
        raise Unsupported('unknown bytes %')
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out = AB(())
    for lit, spec in re.findall(rb'([^%]+)|(%[-+ 0-9.]*[a-z%])', fmt.host(), re.S):
        if lit:
            out = out + AB.of(lit, where())
        elif spec == b'%%':
            out = out + AB.of(b'%', where())
        else:
            if not args:
                raise_('TypeError', 'not enough arguments for format string')
            x = unwrap(args.pop(0))
            if spec in (b'%s', b'%b') and isinstance(x, AB):
                out = out + x
            elif isinstance(x, (int, float)) and spec[-1:] in b'dixXofgc':
                out = out + AB.of(host_call(operator.mod, spec, x), where())
            else:
                raise Unsupported('bytes %% with %r' % spec)
    if args:
        raise_('TypeError', 'not all arguments converted during bytes formatting')
    return out


def percent(fmt, arg):
    pieces = fmt.pieces if isinstance(fmt, AS) else (fmt,)
    arg_t = arg
    if isinstance(arg, PObj) and isinstance(arg.val, tuple):
        arg_t = arg.val
    args = list(arg_t) if isinstance(arg_t, tuple) else [arg_t]
    used = [0]
    out = []

    def nxt():
        if used[0] >= len(args):
            raise_('TypeError', 'not enough arguments for format string')
        used[0] += 1
        return args[used[0] - 1]

    for p in pieces:
        if not isinstance(p, str):
            out.append(p)
            continue
        pos = 0
        while True:
            j = p.find('%', pos)
            if j < 0:
                out.append(p[pos:])
                break
            out.append(p[pos:j])
            m = _PCT.match(p, j)
            if not m:
                raise_('ValueError', 'unsupported format character')
            pos = m.end()
            key, flags, width, prec, conv = m.groups()
            if conv == '%':
                out.append('%')
                continue
            v = dict_get(arg_t, key) if key else nxt()
            out.append(pct_one(v, flags, width, prec, conv))
    if not isinstance(arg_t, dict) and used[0] < len(args) and not (isinstance(arg_t, tuple) and not args):
        raise_('TypeError', 'not all arguments converted during string formatting')
    return mktext(out)


def pct_one(v, flags, width, prec, conv):
    if conv in 'sra':
        t = str_(v) if conv == 's' else repr_(v)
        if width or prec:
            if isinstance(t, str):
                return ('%' + flags + (width or '') + ('.' + prec if prec else '') + 's') % t
            return AS([Hole('%' + flags + (width or '') + 's', t)])
        return t
    v = unwrap(v)
    if isinstance(v, Lin):
        v = S.path.conc(v)
    if isinstance(v, (int, float)):
        return host_call(operator.mod, '%' + flags + (width or '') + ('.' + prec if prec else '') + conv, v)
    if isinstance(v, (Lin, Flt)):
        if conv == 'd' and not flags and not width and isinstance(v, Lin):
            return AS([Hole('d', v)])
        if conv == 'c':
            return AS([Hole('c', v)])
        return AS([Hole('%' + flags + (width or '') + conv, v)])
    if conv == 'c' and is_text(v):
        return v
    raise_('TypeError', '%%%s format: a number is required, not %s' % (conv, class_of(v).name))


def format_(fmt, args, kwargs):
    if isinstance(fmt, AS):
        return mktext([format_(p, args, kwargs) if isinstance(p, str) else p for p in fmt.pieces])
    out = []
    auto = [0]
    for lit, field, spec, conv in host_call(lambda: list(string.Formatter().parse(fmt))):
        out.append(lit)
        if field is None:
            continue
        first, rest = _string.formatter_field_name_split(field)
        if first == '':
            first = auto[0]
            auto[0] += 1
        if isinstance(first, int):
            if first >= len(args):
                raise_('IndexError', 'Replacement index %d out of range for positional args tuple' % first)
            v = args[first]
        else:
            if first not in kwargs:
                raise_('KeyError', first)
            v = kwargs[first]
        for is_attr, nm in rest:
            v = get_attr(v, nm) if is_attr else get_item(v, nm)
        if conv == 'r':
            v = repr_(v)
        elif conv == 's':
            v = str_(v)
        if spec and '{' in spec:
            spec = format_(spec, args[auto[0]:] if '{}' in spec else args, kwargs)
            if '{}' in spec:
                auto[0] += 1
        out.append(format_value(v, spec or ''))
    return mktext(out)


def format_value(v, spec):
    if isinstance(v, PObj):
        f = v.cls.lookup('__format__')
        if isinstance(f, PFunc):
            return call(PMethod(f, v), (spec,), {})
    if not spec:
        return str_(v)
    v = unwrap(v)
    if isinstance(v, Lin):
        v = S.path.conc(v)
    if isinstance(v, (int, float, str)):
        return host_call(format, v, spec)
    if isinstance(v, (Lin, Flt)):
        if spec == 'd':
            return AS([Hole('d', v)])
        return AS([Hole(spec, v)])
    if isinstance(v, AS):
        return AS([Hole('format ' + spec, v)])
    raise_('TypeError', 'unsupported format string passed to %s.__format__' % class_of(v).name)


# ----------------------------------------------------------------------------- translation of source

class Compiler(object):
    """Translates one module's syntax tree to transfer functions."""

    def __init__(self, file):
        self.file = file
        self.qual = []

    # -- helpers
    def block(self, stmts):
        return [self.stmt(s) for s in stmts]

    def stmt(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            t, ln, fl = type(n).__name__, n.lineno, self.file

            def f(env):
                raise Unsupported('%s statement at %s:%s' % (t, fl, ln))
            return f
        body = m(n)
        line = n.lineno
        key = (self.file, line)

        def run(env):
            env.line = line
            S.steps += 1
            if S.steps > S.max_steps:
                raise Budget((env.file, env.qual, line))
            S.covered.add(key)
            return body(env)
        return run

    def expr(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            t, ln, fl = type(n).__name__, n.lineno, self.file

            def f(env):
                raise Unsupported('%s expression at %s:%s' % (t, fl, ln))
            return f
        return m(n)

    # -- expressions
    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bytes):
            file = self.file

            def fb(env):
                return AB.of(v, where())
            return fb
        if v is Ellipsis:
            v = ELLIPSIS

        def f(env):
            return v
        return f

    def e_Name(self, n):
        name = n.id
        line = n.lineno

        def f(env):
            e = env
            while e is not None:
                x = e.vars.get(name, MISSING)
                if x is not MISSING:
                    return x
                e = e.parent
            x = env.glob.d.get(name, MISSING)
            if x is not MISSING:
                return x
            x = BUILTINS.get(name, MISSING)
            if x is not MISSING:
                return x
            if hasattr(_host_builtins, name):
                raise Unsupported('no model of builtin %s' % name)
            raise_('NameError', "name '%s' is not defined" % name)
        return f

    def e_Attribute(self, n):
        o = self.expr(n.value)
        name = n.attr
        mang = self._mangle(name)

        def f(env):
            return get_attr(o(env), mang)
        return f

    def _mangle(self, name):
        return name

    def e_BinOp(self, n):
        l, r = self.expr(n.left), self.expr(n.right)
        op = _BIN[type(n.op)]

        def f(env):
            return binop(op, l(env), r(env))
        return f

    def e_UnaryOp(self, n):
        o = self.expr(n.operand)
        op = {ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]

        def f(env):
            return unary(op, o(env))
        return f

    def e_BoolOp(self, n):
        vs = [self.expr(v) for v in n.values]
        if isinstance(n.op, ast.And):
            def f(env):
                for v in vs[:-1]:
                    x = v(env)
                    if not truth(x):
                        return x
                return vs[-1](env)
        else:
            def f(env):
                for v in vs[:-1]:
                    x = v(env)
                    if truth(x):
                        return x
                return vs[-1](env)
        return f

    def e_Compare(self, n):
        first = self.expr(n.left)
        ops = [(type(o), self.expr(c)) for o, c in zip(n.ops, n.comparators)]
        if len(ops) == 1:
            t, c = ops[0]

            def f1(env):
                return compare(t, first(env), c(env))
            return f1

        def f(env):
            l = first(env)
            r = True
            for t, c in ops:
                x = c(env)
                r = compare(t, l, x)
                if not truth(r):
                    return r
                l = x
            return r
        return f

    def e_IfExp(self, n):
        t, a, b = self.expr(n.test), self.expr(n.body), self.expr(n.orelse)

        def f(env):
            return a(env) if truth(t(env)) else b(env)
        return f

    def e_Call(self, n):
        fn = self.expr(n.func)
        args = [(isinstance(a, ast.Starred), self.expr(a.value if isinstance(a, ast.Starred) else a)) for a in n.args]
        kws = [(k.arg, self.expr(k.value)) for k in n.keywords]
        simple = not any(s for s, _ in args) and all(k for k, _ in kws)
        line = n.lineno
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            def fs(env):
                e = env
                while e.func is None:
                    e = e.parent
                fnc = e.func
                while fnc.defcls is None:
                    e = e.parent
                    fnc = e.func
                selfname = fnc.code.args[0]
                return PSuper(fnc.defcls, e.vars[selfname])
            return fs
        if isinstance(n.func, ast.Name) and n.func.id in ('globals', 'locals', 'vars', 'dir') and not n.args and not n.keywords:
            which = n.func.id

            def scope(env):
                if which == 'globals':
                    return env.glob.d
                d = env.glob.d if env.func is None and env.parent is None and not env.is_class else env.vars
                return sorted(d) if which == 'dir' else d if env.is_class or d is env.glob.d else dict(d)
            return scope
        if simple:
            argf = [a for _, a in args]

            def f(env):
                g = fn(env)
                a = [x(env) for x in argf]
                k = {nm: x(env) for nm, x in kws}
                env.line = line
                return call(g, a, k) if not isinstance(g, PFunc) else call_pfunc(g, a, k)
            return f

        def f2(env):
            g = fn(env)
            a = []
            for star, x in args:
                if star:
                    a.extend(iterate(x(env)))
                else:
                    a.append(x(env))
            k = {}
            for nm, x in kws:
                if nm is None:
                    for kk, vv in mapping(x(env)).items():
                        if kk in k:
                            raise_('TypeError', "got multiple values for keyword argument '%s'" % kk)
                        k[kk] = vv
                else:
                    k[nm] = x(env)
            env.line = line
            return call(g, tuple(a), k)
        return f2

    def e_Tuple(self, n):
        return self._seq(n.elts, tuple)

    def e_List(self, n):
        return self._seq(n.elts, list)

    def e_Set(self, n):
        return self._seq(n.elts, OSet)

    def _seq(self, elts, mk):
        es = [(isinstance(e, ast.Starred), self.expr(e.value if isinstance(e, ast.Starred) else e)) for e in elts]
        if not any(s for s, _ in es):
            fs = [e for _, e in es]

            def f(env):
                return mk([e(env) for e in fs])
            return f

        def f2(env):
            out = []
            for s, e in es:
                if s:
                    out.extend(iterate(e(env)))
                else:
                    out.append(e(env))
            return mk(out)
        return f2

    def e_Dict(self, n):
        items = [(self.expr(k) if k is not None else None, self.expr(v)) for k, v in zip(n.keys, n.values)]

        def f(env):
            d = {}
            for k, v in items:
                if k is None:
                    for kk, vv in mapping(v(env)).items():
                        dict_set(d, kk, vv)
                else:
                    dict_set(d, k(env), v(env))
            return d
        return f

    def e_Subscript(self, n):
        o, i = self.expr(n.value), self.expr(n.slice)

        def f(env):
            return get_item(o(env), i(env))
        return f

    def e_Index(self, n):      # pragma: no cover - old ast
        return self.expr(n.value)

    def e_Slice(self, n):
        a, b, c = [self.expr(x) if x is not None else (lambda env: None) for x in (n.lower, n.upper, n.step)]

        def f(env):
            return slice(a(env), b(env), c(env))
        return f

    def e_Lambda(self, n):
        return self.function(n, '<lambda>', n.args, n.body, is_lambda=True)

    def e_JoinedStr(self, n):
        vs = [self.expr(v) for v in n.values]

        def f(env):
            return mktext([v(env) for v in vs])
        return f

    def e_FormattedValue(self, n):
        v = self.expr(n.value)
        spec = self.expr(n.format_spec) if n.format_spec else (lambda env: '')
        conv = n.conversion

        def f(env):
            x = v(env)
            if conv == 114:
                x = repr_(x)
            elif conv == 115:
                x = str_(x)
            return format_value(x, spec(env))
        return f

    def e_NamedExpr(self, n):
        v = self.expr(n.value)
        st = self.store(n.target)

        def f(env):
            x = v(env)
            e = env
            while e.is_comp:
                e = e.parent
            st(e, x)
            return x
        return f

    def _comp(self, n, elt):
        gens = []
        for g in n.generators:
            gens.append((self.expr(g.iter), self.store(g.target), [self.expr(i) for i in g.ifs]))

        def run(env, first):
            e = Env(env, env.glob, env.file, env.qual)
            e.line = env.line
            e.is_comp = True

            def rec(i):
                it, st, ifs = gens[i]
                src = first if i == 0 else iterate(it(e))
                for x in src:
                    S.steps += 1
                    if S.steps > S.max_steps:
                        raise Budget((env.file, env.qual, env.line))
                    st(e, x)
                    ok = True
                    for c in ifs:
                        if not truth(c(e)):
                            ok = False
                            break
                    if not ok:
                        continue
                    if i + 1 == len(gens):
                        yield elt(e)
                    else:
                        for y in rec(i + 1):
                            yield y
            return rec(0)
        first_iter = gens[0][0]
        return lambda env: run(env, iterate(first_iter(env)))

    def e_ListComp(self, n):
        g = self._comp(n, self.expr(n.elt))

        def f(env):
            return list(g(env))
        return f

    def e_SetComp(self, n):
        g = self._comp(n, self.expr(n.elt))

        def f(env):
            return OSet(g(env))
        return f

    def e_GeneratorExp(self, n):
        g = self._comp(n, self.expr(n.elt))

        def f(env):
            return GenObj(g(env))
        return f

    def e_DictComp(self, n):
        k, v = self.expr(n.key), self.expr(n.value)
        g = self._comp(n, lambda e: (k(e), v(e)))

        def f(env):
            d = {}
            for a, b in g(env):
                dict_set(d, a, b)
            return d
        return f

    def e_Starred(self, n):
        raise Unsupported('starred expression')

    # -- stores
    def store(self, t):
        if isinstance(t, ast.Name):
            name = t.id

            def f(env, v):
                if env.globs is not None:
                    kind = env.globs.get(name)
                    if kind == 'g':
                        env.glob.d[name] = v
                        return
                    if kind == 'n':
                        e = env.parent
                        while e is not None:
                            if name in e.vars:
                                e.vars[name] = v
                                return
                            e = e.parent
                        raise Unsupported('nonlocal %s' % name)
                env.vars[name] = v
            return f
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            nm = t.attr
            return lambda env, v: set_attr(o(env), nm, v)
        if isinstance(t, ast.Subscript):
            o, i = self.expr(t.value), self.expr(t.slice)
            return lambda env, v: set_item(o(env), i(env), v)
        if isinstance(t, (ast.Tuple, ast.List)):
            subs = [(isinstance(e, ast.Starred), self.store(e.value if isinstance(e, ast.Starred) else e))
                    for e in t.elts]
            n = len(subs)
            star = next((i for i, (s, _) in enumerate(subs) if s), None)

            def f(env, v):
                if isinstance(v, PObj) or not isinstance(v, (tuple, list, str, dict, AB, OSet, range, GenObj)):
                    items = list(iterate(v))
                else:
                    items = list(iterate(v))
                if star is None:
                    if len(items) > n:
                        raise_('ValueError', 'too many values to unpack (expected %d)' % n)
                    if len(items) < n:
                        raise_('ValueError', 'not enough values to unpack (expected %d, got %d)' % (n, len(items)))
                    for (_, s), x in zip(subs, items):
                        s(env, x)
                else:
                    after = n - star - 1
                    if len(items) < n - 1:
                        raise_('ValueError', 'not enough values to unpack')
                    for (_, s), x in zip(subs[:star], items):
                        s(env, x)
                    subs[star][1](env, items[star:len(items) - after])
                    for (_, s), x in zip(subs[star + 1:], items[len(items) - after:]):
                        s(env, x)
            return f
        if isinstance(t, ast.Starred):
            return self.store(t.value)
        raise Unsupported('store to %s' % type(t).__name__)

    def delete(self, t):
        if isinstance(t, ast.Name):
            nm = t.id

            def f(env):
                if nm not in env.vars:
                    raise_('NameError', nm)
                del env.vars[nm]
            return f
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            nm2 = t.attr
            return lambda env: del_attr(o(env), nm2)
        if isinstance(t, ast.Subscript):
            o, i = self.expr(t.value), self.expr(t.slice)
            return lambda env: del_item(o(env), i(env))
        if isinstance(t, (ast.Tuple, ast.List)):
            ds = [self.delete(e) for e in t.elts]

            def f2(env):
                for d in ds:
                    d(env)
            return f2
        raise Unsupported('del')

    # -- statements
    def s_Expr(self, n):
        e = self.expr(n.value)

        def f(env):
            e(env)
        return f

    def s_Assign(self, n):
        v = self.expr(n.value)
        ts = [self.store(t) for t in n.targets]
        if len(ts) == 1:
            t0 = ts[0]

            def f1(env):
                t0(env, v(env))
            return f1

        def f(env):
            x = v(env)
            for t in ts:
                t(env, x)
        return f

    def s_AnnAssign(self, n):
        v, t = self.expr(n.value) if n.value is not None else None, self.store(n.target)
        name = n.target.id if isinstance(n.target, ast.Name) else None
        ann = self.expr(n.annotation)

        def f(env):
            if v is not None:
                t(env, v(env))
            if env.is_class and name is not None:
                env.vars.setdefault('__annotations__', {})[name] = annotation(ann, env)
        return f

    def s_AugAssign(self, n):
        op = _BIN[type(n.op)]
        v = self.expr(n.value)
        t = n.target
        if isinstance(t, ast.Name):
            ld = self.e_Name(t)
            st = self.store(t)

            def f(env):
                st(env, inplace(op, ld(env), v(env)))
            return f
        if isinstance(t, ast.Attribute):
            o, nm = self.expr(t.value), t.attr

            def f(env):
                x = o(env)
                set_attr(x, nm, inplace(op, get_attr(x, nm), v(env)))
            return f
        o, i = self.expr(t.value), self.expr(t.slice)

        def f3(env):
            x, k = o(env), i(env)
            set_item(x, k, inplace(op, get_item(x, k), v(env)))
        return f3

    def s_Return(self, n):
        if n.value is None:
            r0 = Ret(None)
            return lambda env: r0
        v = self.expr(n.value)

        def f(env):
            return Ret(v(env))
        return f

    def s_Pass(self, n):
        return lambda env: None

    def s_Break(self, n):
        return lambda env: BRK

    def s_Continue(self, n):
        return lambda env: CNT

    def s_Global(self, n):
        return lambda env: None

    s_Nonlocal = s_Global

    def s_If(self, n):
        t = self.expr(n.test)
        a, b = self.block(n.body), self.block(n.orelse)

        def f(env):
            for s in (a if truth(t(env)) else b):
                r = s(env)
                if r is not None:
                    return r
        return f

    # -- match
    def pattern(self, p):
        """Function (env, value) telling whether the pattern matches, binding its names."""
        if isinstance(p, ast.MatchValue):
            e = self.expr(p.value)
            return lambda env, v: truth(eq(v, e(env)))
        if isinstance(p, ast.MatchSingleton):
            c = p.value
            return lambda env, v: v is c
        if isinstance(p, ast.MatchAs):
            sub = self.pattern(p.pattern) if p.pattern is not None else None
            st = self.store(ast.Name(id=p.name, ctx=ast.Store(), lineno=p.lineno)) if p.name else None

            def f_as(env, v):
                if sub is not None and not sub(env, v):
                    return False
                if st is not None:
                    st(env, v)
                return True
            return f_as
        if isinstance(p, ast.MatchOr):
            subs = [self.pattern(q) for q in p.patterns]
            return lambda env, v: any(q(env, v) for q in subs)
        if isinstance(p, ast.MatchSequence):
            star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            subs = [self.pattern(q) if not isinstance(q, ast.MatchStar) else self.store(
                ast.Name(id=q.name, ctx=ast.Store(), lineno=q.lineno)) if q.name else None for q in p.patterns]

            def f_seq(env, v):
                w = v.val if isinstance(v, PObj) and v.val is not None else v
                if not isinstance(w, (list, tuple, range)):
                    if isinstance(w, HostObj):
                        raise Unsupported('sequence pattern over a library object')
                    return False
                xs = list(w)
                if star is None:
                    return len(xs) == len(subs) and all(q(env, x) for q, x in zip(subs, xs))
                after = len(subs) - star - 1
                if len(xs) < len(subs) - 1:
                    return False
                if not all(q(env, x) for q, x in zip(subs[:star], xs)):
                    return False
                if not all(q(env, x) for q, x in zip(subs[star + 1:], xs[len(xs) - after:])):
                    return False
                if subs[star] is not None:
                    subs[star](env, xs[star:len(xs) - after])
                return True
            return f_seq
        if isinstance(p, ast.MatchMapping):
            keys = [self.expr(k) for k in p.keys]
            subs = [self.pattern(q) for q in p.patterns]
            rest = self.store(ast.Name(id=p.rest, ctx=ast.Store(), lineno=p.lineno)) if p.rest else None

            def f_map(env, v):
                w = v.val if isinstance(v, PObj) and v.val is not None else v
                if not isinstance(w, dict):
                    return False
                left = dict(w)
                for k, q in zip(keys, subs):
                    k = dict_find(w, k(env))
                    if k is MISSING or not q(env, w[k]):
                        return False
                    left.pop(k, None)
                if rest is not None:
                    rest(env, left)
                return True
            return f_map
        if isinstance(p, ast.MatchClass):
            cls = self.expr(p.cls)
            subs = [self.pattern(q) for q in p.patterns]
            kws = [(a, self.pattern(q)) for a, q in zip(p.kwd_attrs, p.kwd_patterns)]

            def f_cls(env, v):
                c = cls(env)
                if not is_instance(v, c):
                    return False
                if subs:
                    if c.host in (bool, bytes, dict, float, frozenset, int, list, set, str, tuple):
                        return len(subs) == 1 and subs[0](env, v)
                    names = list(iterate(get_attr(c, '__match_args__', ())))
                    if len(subs) > len(names):
                        raise_('TypeError', '%s() accepts %d positional sub-patterns (%d given)' % (c.name, len(names), len(subs)))
                    for q, a in zip(subs, names):
                        x = get_attr(v, a, None)
                        if not q(env, x):
                            return False
                for a, q in kws:
                    try:
                        x = get_attr(v, a)
                    except PyExc as ex:
                        if is_subclass(ex.obj.cls, EXC('AttributeError')):
                            return False
                        raise
                    if not q(env, x):
                        return False
                return True
            return f_cls
        raise Unsupported('pattern %s' % type(p).__name__)

    def s_Match(self, n):
        subj = self.expr(n.subject)
        cases = [(self.pattern(c.pattern), self.expr(c.guard) if c.guard is not None else None, self.block(c.body))
                 for c in n.cases]

        def f(env):
            v = subj(env)
            for pat, guard, body in cases:
                if pat(env, v) and (guard is None or truth(guard(env))):
                    for s in body:
                        r = s(env)
                        if r is not None:
                            return r
                    return None
        return f

    def g_Match(self, n):
        subj = self.expr(n.subject)
        cases = [(self.pattern(c.pattern), self.expr(c.guard) if c.guard is not None else None, self.gblock(c.body))
                 for c in n.cases]

        def g(env):
            v = subj(env)
            for pat, guard, body in cases:
                if pat(env, v) and (guard is None or truth(guard(env))):
                    for s in body:
                        r = yield from s(env)
                        if r is not None:
                            return r
                    return None
        return g

    def s_For(self, n):
        it = self.expr(n.iter)
        st = self.store(n.target)
        body, orelse = self.block(n.body), self.block(n.orelse)

        def f(env):
            for x in iterate(it(env)):
                S.steps += 1
                if S.steps > S.max_steps:
                    raise Budget((env.file, env.qual, env.line))
                st(env, x)
                sig = None
                for s in body:
                    sig = s(env)
                    if sig is not None:
                        break
                if sig is BRK:
                    return None
                if sig is not None and sig is not CNT:
                    return sig
            for s in orelse:
                r = s(env)
                if r is not None:
                    return r
        return f

    def s_While(self, n):
        t = self.expr(n.test)
        body, orelse = self.block(n.body), self.block(n.orelse)
        line = n.lineno

        def f(env):
            while True:
                env.line = line
                if not truth(t(env)):
                    break
                S.steps += 1
                if S.steps > S.max_steps:
                    raise Budget((env.file, env.qual, env.line))
                sig = None
                for s in body:
                    sig = s(env)
                    if sig is not None:
                        break
                if sig is BRK:
                    return None
                if sig is not None and sig is not CNT:
                    return sig
            for s in orelse:
                r = s(env)
                if r is not None:
                    return r
        return f

    def s_Assert(self, n):
        t = self.expr(n.test)
        m = self.expr(n.msg) if n.msg else None

        def f(env):
            if not truth(t(env)):
                if m is None:
                    raise_('AssertionError')
                raise_('AssertionError', m(env))
        return f

    def s_Raise(self, n):
        if n.exc is None:
            def f0(env):
                if not S.handling:
                    raise_('RuntimeError', 'No active exception to reraise')
                raise S.handling[-1]
            return f0
        e = self.expr(n.exc)
        cause = self.expr(n.cause) if n.cause else None

        def f(env):
            x = e(env)
            by = MISSING
            if cause:
                by = cause(env)
                if isinstance(by, PClass):
                    by = call(by, (), {})
            if isinstance(x, PClass):
                x = call(x, (), {})
            if isinstance(x, PObj):
                if by is not MISSING:
                    x.d['__cause__'] = by
                if S.handling and S.handling[-1].obj is not x:
                    x.d.setdefault('__context__', S.handling[-1].obj)
            if not (isinstance(x, PObj) and BASEEXC in x.cls.mro):
                raise_('TypeError', 'exceptions must derive from BaseException')
            ex = PyExc(x)
            ex.trace = trace()
            raise ex
        return f

    def s_Try(self, n):
        body = self.block(n.body)
        hs = [(self.expr(h.type) if h.type else None, h.name, self.block(h.body)) for h in n.handlers]
        orelse, final = self.block(n.orelse), self.block(n.finalbody)

        def run(stmts, env):
            for s in stmts:
                r = s(env)
                if r is not None:
                    return r

        def main(env):
            depth = len(S.stack)
            try:
                r = run(body, env)
            except PyExc as ex:
                del S.stack[depth:]
                for t, nm, hb in hs:
                    if t is None or is_subclass(ex.obj.cls, t(env)):
                        if nm:
                            env.vars[nm] = ex.obj
                        S.handling.append(ex)
                        try:
                            return run(hb, env)
                        finally:
                            S.handling.pop()
                            if nm:
                                env.vars.pop(nm, None)
                raise
            if r is not None:
                return r
            return run(orelse, env)

        if not final:
            return main

        def f(env):
            try:
                r = main(env)
            except PyExc:
                r2 = run(final, env)
                if r2 is not None:
                    return r2
                raise
            r2 = run(final, env)
            return r2 if r2 is not None else r
        return f

    def s_With(self, n):
        items = [(self.expr(i.context_expr), self.store(i.optional_vars) if i.optional_vars else None)
                 for i in n.items]
        body = self.block(n.body)

        def rec(env, k):
            if k == len(items):
                for s in body:
                    r = s(env)
                    if r is not None:
                        return r
                return None
            cm, st = items[k]
            m = cm(env)
            exit_ = cm_method(m, '__exit__')
            v = call(cm_method(m, '__enter__'), (), {})
            if st:
                st(env, v)
            depth = len(S.stack)
            try:
                r = rec(env, k + 1)
            except PyExc as ex:
                del S.stack[depth:]
                if leave(exit_, ex):
                    return None
                raise
            call(exit_, (None, None, None), {})
            return r
        return lambda env: rec(env, 0)

    def s_Import(self, n):
        al = [(a.name, a.asname) for a in n.names]

        def f(env):
            for name, asname in al:
                m = WORLD.import_module(name)
                if asname:
                    env_store(env, asname, m)
                else:
                    top = name.split('.')[0]
                    env_store(env, top, WORLD.import_module(top))
        return f

    def s_ImportFrom(self, n):
        level, mod = n.level, n.module
        al = [(a.name, a.asname) for a in n.names]

        def f(env):
            base = mod or ''
            if level:
                pkg = env.glob.d['__package__'].split('.')
                pkg = pkg[:len(pkg) - (level - 1)]
                base = '.'.join(pkg + ([mod] if mod else []))
            m = WORLD.import_module(base)
            for name, asname in al:
                if name == '*':
                    names = m.d.get('__all__') or [k for k in m.d if not k.startswith('_')]
                    for k in names:
                        env_store(env, k, m.d[k])
                    continue
                v = m.d.get(name, MISSING)
                if v is MISSING:
                    v = WORLD.import_module(base + '.' + name, True)
                    if v is None and not is_own(base):
                        v = unmodelled(base, name)
                    if v is None:
                        raise_('ImportError', "cannot import name '%s' from '%s'" % (name, base))
                env_store(env, asname or name, v)
        return f

    def s_FunctionDef(self, n):
        fn = self.function(n, n.name, n.args, n.body)
        decs = [self.expr(d) for d in n.decorator_list]
        st = self.store(ast.Name(id=n.name, ctx=ast.Store(), lineno=n.lineno))

        def f(env):
            ds = [d(env) for d in decs]
            v = fn(env)
            for d in reversed(ds):
                v = call(d, (v,), {})
            st(env, v)
        return f

    def s_ClassDef(self, n):
        decs = [self.expr(d) for d in n.decorator_list]
        bases = [self.expr(b) for b in n.bases]
        kws = [(k.arg, self.expr(k.value)) for k in n.keywords]
        self.qual.append(n.name)
        body = self.block(n.body)
        qual = '.'.join(self.qual)
        self.qual.pop()
        doc = ast.get_docstring(n, clean=False)
        st = self.store(ast.Name(id=n.name, ctx=ast.Store(), lineno=n.lineno))
        name, file = n.name, self.file

        def f(env):
            ds = [d(env) for d in decs]
            bs = [b(env) for b in bases]
            kw = {k: v(env) for k, v in kws}
            meta = kw.pop('metaclass', None)
            e = Env(env, env.glob, file, qual)
            e.is_class = True
            e.vars['__module__'] = env.glob.name
            e.vars['__qualname__'] = qual
            if doc is not None:
                e.vars['__doc__'] = doc
            S.stack.append(e)
            try:
                for s in body:
                    s(e)
            finally:
                S.stack.pop()
            c = build_class(name, bs, e.vars, meta, kw)
            for d in reversed(ds):
                c = call(d, (c,), {})
            st(env, c)
        return f

    def s_Delete(self, n):
        ds = [self.delete(t) for t in n.targets]

        def f(env):
            for d in ds:
                d(env)
        return f

    # -- functions
    def function(self, n, name, args, body, is_lambda=False):
        c = Code()
        self.qual.append(name)
        c.qual = '.'.join(self.qual)
        c.name, c.file, c.line = name, self.file, n.lineno
        c.args = [a.arg for a in args.posonlyargs + args.args]
        c.posonly = len(args.posonlyargs)
        c.kwonly = [a.arg for a in args.kwonlyargs]
        c.vararg = args.vararg.arg if args.vararg else None
        c.kwarg = args.kwarg.arg if args.kwarg else None
        c.argset = set(c.args) | set(c.kwonly)
        c.is_lambda = is_lambda
        c.doc = None
        c.globs = None
        c.gbody = None
        if is_lambda:
            c.body = self.expr(body)
            c.is_gen = False
        else:
            c.doc = ast.get_docstring(n, clean=False)
            gl = {}
            for s in _own_nodes(n):
                if isinstance(s, ast.Global):
                    for x in s.names:
                        gl[x] = 'g'
                elif isinstance(s, ast.Nonlocal):
                    for x in s.names:
                        gl[x] = 'n'
            c.globs = gl or None
            c.is_gen = any(isinstance(s, (ast.Yield, ast.YieldFrom)) for s in _own_nodes(n))
            if c.is_gen:
                c.gbody = [self.gstmt(s) for s in body]
                c.body = None
            else:
                c.body = self.block(body)
        self.qual.pop()
        c.anns = [(a.arg, self.expr(a.annotation)) for a in args.posonlyargs + args.args + args.kwonlyargs + [
            x for x in (args.vararg, args.kwarg) if x] if a.annotation is not None]
        if getattr(n, 'returns', None) is not None:
            c.anns.append(('return', self.expr(n.returns)))
        defaults = [self.expr(d) for d in args.defaults]
        kwdefaults = [(a.arg, self.expr(d)) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]

        def f(env):
            fn = PFunc()
            fn.name, fn.node, fn.code = name, n, c
            fn.qual = c.qual
            e = env
            while e is not None and e.is_class:
                e = e.parent
            fn.parent = None if (e is None or e.qual == '<module>' and e.parent is None) else e
            fn.glob = env.glob
            fn.defaults = tuple(d(env) for d in defaults)
            fn.kwdefaults = {k: d(env) for k, d in kwdefaults}
            fn.d = {}
            fn.defcls = None
            return fn
        return f

    # -- generator statements
    def gstmt(self, n):
        if not any(isinstance(s, (ast.Yield, ast.YieldFrom)) for s in _own_nodes(n, True)):
            s = self.stmt(n)

            def g0(env):
                return s(env)
                yield
            return g0
        line, key = n.lineno, (self.file, n.lineno)
        t = type(n).__name__
        m = getattr(self, 'g_' + t, None)
        if m is None:
            raise Unsupported('yield inside %s' % t)
        body = m(n)

        def g(env):
            env.line = line
            S.steps += 1
            if S.steps > S.max_steps:
                raise Budget((env.file, env.qual, line))
            S.covered.add(key)
            return (yield from body(env))
        return g

    def gexpr(self, n):
        """Expression that is itself a yield."""
        if isinstance(n, ast.Yield):
            v = self.expr(n.value) if n.value is not None else (lambda env: None)

            def g(env):
                x = v(env)
                r = yield x
                return r
            return g
        if isinstance(n, ast.YieldFrom):
            v = self.expr(n.value)

            def g2(env):
                src = v(env)
                if isinstance(src, GenObj) and hasattr(src.it, 'send'):
                    return (yield from src.it)
                for x in iterate(src):
                    yield x
            return g2
        if any(isinstance(s, (ast.Yield, ast.YieldFrom)) for s in ast.walk(n)):
            raise Unsupported('yield nested in an expression')
        e = self.expr(n)

        def g3(env):
            return e(env)
            yield
        return g3

    def g_Expr(self, n):
        e = self.gexpr(n.value)

        def g(env):
            yield from e(env)
        return g

    def g_Assign(self, n):
        e = self.gexpr(n.value)
        ts = [self.store(t) for t in n.targets]

        def g(env):
            x = yield from e(env)
            for t in ts:
                t(env, x)
        return g

    def g_Return(self, n):
        e = self.gexpr(n.value)

        def g(env):
            x = yield from e(env)
            return Ret(x)
        return g

    def gblock(self, stmts):
        return [self.gstmt(s) for s in stmts]

    def g_If(self, n):
        t = self.expr(n.test)
        a, b = self.gblock(n.body), self.gblock(n.orelse)

        def g(env):
            for s in (a if truth(t(env)) else b):
                r = yield from s(env)
                if r is not None:
                    return r
        return g

    def g_For(self, n):
        it = self.expr(n.iter)
        st = self.store(n.target)
        body, orelse = self.gblock(n.body), self.gblock(n.orelse)

        def g(env):
            for x in iterate(it(env)):
                S.steps += 1
                if S.steps > S.max_steps:
                    raise Budget((env.file, env.qual, env.line))
                st(env, x)
                sig = None
                for s in body:
                    sig = yield from s(env)
                    if sig is not None:
                        break
                if sig is BRK:
                    return None
                if sig is not None and sig is not CNT:
                    return sig
            for s in orelse:
                r = yield from s(env)
                if r is not None:
                    return r
        return g

    def g_While(self, n):
        t = self.expr(n.test)
        body, orelse = self.gblock(n.body), self.gblock(n.orelse)

        def g(env):
            while truth(t(env)):
                S.steps += 1
                if S.steps > S.max_steps:
                    raise Budget((env.file, env.qual, env.line))
                sig = None
                for s in body:
                    sig = yield from s(env)
                    if sig is not None:
                        break
                if sig is BRK:
                    return None
                if sig is not None and sig is not CNT:
                    return sig
            for s in orelse:
                r = yield from s(env)
                if r is not None:
                    return r
        return g

    def g_Try(self, n):
        body = self.gblock(n.body)
        hs = [(self.expr(h.type) if h.type else None, h.name, self.gblock(h.body)) for h in n.handlers]
        orelse, final = self.gblock(n.orelse), self.gblock(n.finalbody)

        def run(stmts, env):
            for s in stmts:
                r = yield from s(env)
                if r is not None:
                    return r

        def main(env):
            try:
                r = yield from run(body, env)
            except PyExc as ex:
                for t, nm, hb in hs:
                    if t is None or is_subclass(ex.obj.cls, t(env)):
                        if nm:
                            env.vars[nm] = ex.obj
                        S.handling.append(ex)
                        try:
                            return (yield from run(hb, env))
                        finally:
                            if S.handling and S.handling[-1] is ex:
                                S.handling.pop()
                            if nm:
                                env.vars.pop(nm, None)
                raise
            if r is not None:
                return r
            return (yield from run(orelse, env))

        def g(env):
            try:
                r = yield from main(env)
            except PyExc:
                r2 = yield from run(final, env)
                if r2 is not None:
                    return r2
                raise
            except GeneratorExit:
                for s in final:
                    for _ in s(env):
                        break
                raise
            r2 = yield from run(final, env)
            return r2 if r2 is not None else r
        return g

    def g_With(self, n):
        items = [(self.expr(i.context_expr), self.store(i.optional_vars) if i.optional_vars else None)
                 for i in n.items]
        body = self.gblock(n.body)

        def rec(env, k):
            if k == len(items):
                for s in body:
                    r = yield from s(env)
                    if r is not None:
                        return r
                return None
            cm, st = items[k]
            m = cm(env)
            exit_ = cm_method(m, '__exit__')
            v = call(cm_method(m, '__enter__'), (), {})
            if st:
                st(env, v)
            try:
                r = yield from rec(env, k + 1)
            except PyExc as ex:
                if leave(exit_, ex):
                    return None
                raise
            call(exit_, (None, None, None), {})
            return r

        def g(env):
            return (yield from rec(env, 0))
        return g


_BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<',
        ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.Pow: '**'}


def leave(exit_, ex):
    """Calls __exit__ with an exception; does it swallow it?"""
    S.handling.append(ex)
    try:
        return truth(call(exit_, (ex.obj.cls, ex if isinstance(exit_, NFunc) else ex.obj, None), {}))
    except PyExc as e:
        if e.obj is ex.obj:
            raise ex
        raise
    finally:
        S.handling.pop()


def cm_method(m, name):
    if isinstance(m, PObj):
        f = m.cls.lookup(name)
        if f is MISSING:
            raise_('TypeError', "'%s' object does not support the context manager protocol" % m.cls.name)
        return bind(f, m, m.cls)
    if isinstance(m, HostObj) and hasattr(m.o, 'm_' + name):
        return NFunc(name, getattr(m.o, 'm_' + name))
    raise_('TypeError', "'%s' object does not support the context manager protocol" % class_of(m).name)


def env_store(env, name, v):
    if env.globs is not None and env.globs.get(name) == 'g':
        env.glob.d[name] = v
    else:
        env.vars[name] = v


def annotation(expr, env):
    """Value of an annotation, which decides nothing unless a library reads it."""
    try:
        return expr(env)
    except (PyExc, Unsupported):
        return None


def _own_nodes(n, include_self=False):
    """Nodes of a function body, without nested function/class bodies."""
    todo = [n] if include_self else list(ast.iter_child_nodes(n))
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)) and not (
                include_self and x is n and False):
            continue
        todo.extend(ast.iter_child_nodes(x))


def inplace(op, a, b):
    if op == '+' and isinstance(a, list):
        a.extend(iterate(b))
        return a
    if isinstance(a, Buf) and not a.view:
        a.own = binop(op, a.own, unwrap(b))
        return a
    if op == '|' and isinstance(a, OSet) and isinstance(b, OSet):
        for k, v in b.d.items():
            a.d.setdefault(k, v)
        return a
    if isinstance(a, PObj):
        f = a.cls.lookup('__i%s__' % _DUNDER[op])
        if f is not MISSING and isinstance(f, PFunc):
            r = call(PMethod(f, a), (b,), {})
            if r is not NOTIMPL:
                return r
    return binop(op, a, b)


def compare(t, a, b):
    if t is ast.Is:
        return is_same(a, b)
    if t is ast.IsNot:
        return not is_same(a, b)
    if t is ast.Eq:
        return eq(a, b)
    if t is ast.NotEq:
        return noteq(a, b)
    if t is ast.In:
        return contains(b, a)
    if t is ast.NotIn:
        return not contains(b, a)
    return order({ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t], a, b)


def noteq(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, PObj):
            f = x.cls.lookup('__ne__')
            if isinstance(f, PFunc):
                r = call(PMethod(f, x), (y,), {})
                if r is not NOTIMPL:
                    return r
        elif isinstance(x, PClass):
            f = x.meta.lookup('__ne__')
            if isinstance(f, PFunc):
                r = call(PMethod(f, x), (y,), {})
                if r is not NOTIMPL:
                    return r
    return not truth(eq(a, b))


def is_same(a, b):
    if a is b:
        return True
    if isinstance(a, (bool,)) or isinstance(b, (bool,)):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (Lin, AS, Flt)) and a == b:
        return True
    if isinstance(a, PMethod) and a == b:
        return False
    return False


# ----------------------------------------------------------------------------- world / modules

_CODE_CACHE = {}


class World(object):
    """A set of interpreted modules loaded from a source root."""

    def __init__(self, root, libs=None):
        self.root = root
        self.modules = {}
        self.libs = libs or {}
        self.loading = []
        self.sources = {}

    def find(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def import_module(self, name, optional=False):
        if name in self.modules:
            return self.modules[name]
        if name in self.libs:
            m = self.libs[name](self)
            self.modules[name] = m
            return m
        parts = name.split('.')
        if len(parts) > 1:
            parent = self.import_module('.'.join(parts[:-1]), optional)
            if parent is None:
                return None
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.find(name) if parts[0] in ('prophy', 'prophyc') else (None, False)
        if path is None:
            if optional:
                return None
            if is_own(name):
                raise PyExc(make_exc('ImportError', 'No module named %s' % name))
            try:
                found = importlib.util.find_spec(name)
            except Exception:
                found = None
            if found is None:
                raise PyExc(make_exc('ImportError', 'No module named %s' % name))
            # a library module without a model: its names are not decided when used
            self.modules[name] = PModule(name, {})
            return self.modules[name]
        m = self.load_source(name, path, is_pkg)
        if len(parts) > 1:
            self.modules['.'.join(parts[:-1])].d[parts[-1]] = m
        return m

    def load_source(self, name, path, is_pkg, text=None, rel=None):
        if text is None:
            with open(path, encoding='utf-8') as f:
                text = f.read()
        rel = rel or os.path.relpath(path, self.root)
        self.sources[rel] = text
        m = PModule(name, {}, rel)
        m.d['__name__'] = name
        m.d['__file__'] = path
        m.d['__package__'] = name if is_pkg else name.rpartition('.')[0]
        self.modules[name] = m
        run_module(m, text, rel)
        return m


def run_module(m, text, rel):
    key = (rel, text)
    body = _CODE_CACHE.get(key)
    if body is None:
        try:
            tree = ast.parse(text, rel)
        except SyntaxError as e:
            raise_('SyntaxError', '%s: %s' % (rel, e))
        body = Compiler(rel).block(tree.body)
        _CODE_CACHE[key] = body
    env = Env(None, m, rel, '<module>')
    env.vars = m.d
    S.stack.append(env)
    try:
        for s in body:
            s(env)
    finally:
        S.stack.pop()


def is_own(name):
    top = name.split('.')[0]
    return top in ('prophy', 'prophyc') or top in getattr(CURRENT[0], 'packages', ())


class Unmodelled(object):
    """Something of the library the analysis does not know; using it is not decided."""

    def __init__(self, name):
        self.name = name

    def __getattr__(self, n):
        if n.startswith('__') or n == '_pclass':
            raise AttributeError(n)
        raise Unsupported('no model of %s' % self.name)


def unmodelled(module, name):
    """A name of a library module without a model, None if the module has no such name."""
    try:
        h = importlib.import_module(module)
    except Exception:
        return None
    if not hasattr(h, name):
        return None
    return HostObj(Unmodelled('%s.%s' % (module, name)))


class _WorldProxy(object):
    def __getattr__(self, n):
        return getattr(CURRENT[0], n)


CURRENT = [None]
WORLD = _WorldProxy()
BUILTINS = {}
BUILTIN_CALL = {}


def native_attr(o, name):
    from . import pylib
    return pylib.native_attr(o, name)
