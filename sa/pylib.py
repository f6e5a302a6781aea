"""Models of the builtins and of the library modules /repo uses, over abstract values."""

import codecs
import io
import posixpath
import re
import struct as _struct

from . import pyai, pystd
from .dom import AB, AS, Cell, Flt, Hole, Lin, Unsupported, ladd, mktext, sym
from .pyai import (BC, BUILTIN_CALL, BUILTINS, Buf, DDict, GenObj, HostObj, MISSING, NFunc, NOTIMPL, OBJECT, ELLIPSIS, OSet,
                   PClass, PClassM, PFunc, PMethod, PModule, PObj, PProperty, PStatic, PSuper, PyExc, S, TYPE, bind,
                   binop, call, class_of, contains, dict_find, dict_get, dict_set, eq, format_, get_attr, get_item,
                   hkey, host_call, is_instance, is_int, is_subclass, is_text, iterate, lin_op, make_exc, new_class,
                   norm_index, norm_slice, order, raise_, repr_, set_attr, del_attr, set_item, set_order, str_,
                   text_slice, trace, truth, unwrap, where)


# ----------------------------------------------------------------------------- builtin functions

def b_len(o):
    if isinstance(o, PObj):
        f = o.cls.lookup('__len__')
        if f is not MISSING:
            return call(bind(f, o, o.cls))
        if o.val is not None:
            return b_len(o.val)
    if isinstance(o, (str, list, tuple, dict, AB, OSet, range, Buf)):
        return len(o)
    if isinstance(o, AS):
        lit = sum(len(p) for p in o.pieces if isinstance(p, str))
        holes = tuple(p for p in o.pieces if not isinstance(p, str))
        return ladd(sym('len(%r)' % (holes,), 0, None), lit)
    if isinstance(o, HostObj) and hasattr(o.o, 'm___len__'):
        return o.o.m___len__()
    if isinstance(o, PClass):
        f = o.meta.lookup('__len__')
        if f is not MISSING:
            return call(bind(f, o, o.meta))
    pyai.beyond('len of', o)
    raise_('TypeError', "object of type '%s' has no len()" % class_of(o).name)


def b_getattr(o, name, *default):
    name = unwrap(name)
    if not isinstance(name, str):
        if is_text(name):
            raise Unsupported('getattr with an unknown name')
        raise_('TypeError', 'attribute name must be string')
    if default:
        try:
            return get_attr(o, name)
        except PyExc as e:
            if is_subclass(e.obj.cls, BC['AttributeError']):
                return default[0]
            raise
    return get_attr(o, name)


def b_hasattr(o, name):
    try:
        get_attr(o, unwrap(name))
        return True
    except PyExc as e:
        if is_subclass(e.obj.cls, BC['AttributeError']):
            return False
        raise


def b_setattr(o, name, v):
    set_attr(o, unwrap(name), v)


def b_next(it, *default):
    try:
        if isinstance(it, GenObj):
            return next(it.it)
        if isinstance(it, PObj) and it.cls.lookup('__next__') is not MISSING:
            return call(bind(it.cls.lookup('__next__'), it, it.cls))
    except StopIteration:
        if default:
            return default[0]
        raise_('StopIteration')
    except PyExc as e:
        if default and is_subclass(e.obj.cls, BC['StopIteration']):
            return default[0]
        raise
    raise_('TypeError', "'%s' object is not an iterator" % class_of(it).name)


def b_iter(o, *sentinel):
    if sentinel:
        def until():
            while True:
                try:
                    x = call(o)
                except PyExc as e:
                    if is_subclass(e.obj.cls, BC['StopIteration']):
                        return
                    raise
                if truth(pyai.eq(x, sentinel[0])):
                    return
                yield x
        return GenObj(until(), 'iterator')
    if isinstance(o, GenObj):
        return o
    return GenObj(iterate(o), 'iterator')


def _gen(it, kind):
    return GenObj(it, kind)


def b_map(f, *its):
    if len(its) == 1:
        src = iterate(its[0])
        return _gen((call(f, (x,)) for x in src), 'map')
    srcs = [iterate(i) for i in its]
    return _gen((call(f, xs) for xs in zip(*srcs)), 'map')


def b_filter(f, it):
    src = iterate(it)
    return _gen((x for x in src if truth(x if f is None else call(f, (x,)))), 'filter')


def b_zip(*its, strict=False):
    srcs = [iterate(i) for i in its]
    if not strict:
        return _gen(zip(*srcs), 'zip')

    def g():
        while srcs:
            row = [next(x, MISSING) for x in srcs]
            if all(x is MISSING for x in row):
                return
            if any(x is MISSING for x in row):
                raise_('ValueError', 'zip() arguments have different lengths')
            yield tuple(row)
    return _gen(g(), 'zip')


def b_enumerate(it, start=0):
    src = iterate(it)

    def g():
        i = start
        for x in src:
            yield (i, x)
            i = binop('+', i, 1)
    return _gen(g(), 'enumerate')


def b_reversed(o):
    if isinstance(o, PObj):
        f = o.cls.lookup('__reversed__')
        if isinstance(f, PFunc):
            return call(bind(f, o, o.cls))
        if o.val is not None:
            return b_reversed(o.val)
        n = b_len(o)
        return _gen((get_item(o, i) for i in range(n - 1, -1, -1)), 'reversed')
    if isinstance(o, (dict, AB, Buf)):
        o = list(iterate(o))
    if isinstance(o, HostObj):
        f = getattr(o.o, 'm___reversed__', None)
        if f is not None:
            return f()
        o = list(iterate(o))
    if not isinstance(o, (list, tuple, str, range)):
        raise_('TypeError', "'%s' object is not reversible" % class_of(o).name)
    return _gen(iter(list(o)[::-1]), 'reversed')


def b_any(it):
    for x in iterate(it):
        if truth(x):
            return True
    return False


def b_all(it):
    for x in iterate(it):
        if not truth(x):
            return False
    return True


def b_sum(it, start=0):
    r = start
    for x in iterate(it):
        r = binop('+', r, x)
    return r


def _extremum(args, kw, op):
    key = kw.get('key')
    if len(args) == 1:
        items = list(iterate(args[0]))
        if not items:
            if 'default' in kw:
                return kw['default']
            raise_('ValueError', '%s() iterable argument is empty' % ('max' if op == '>' else 'min'))
    else:
        items = list(args)
    best = items[0]
    bk = call(key, (best,)) if key else best
    for x in items[1:]:
        k = call(key, (x,)) if key else x
        if truth(order(op, k, bk)):
            best, bk = x, k
    return best


def b_max(*a, **k):
    return _extremum(a, k, '>')


def b_min(*a, **k):
    return _extremum(a, k, '<')


def merge_sort(items, key, reverse):
    ks = [(call(key, (x,)) if key else x, x) for x in items]
    if reverse:
        ks = ks[::-1]
    out = []
    for k, x in ks:           # stable insertion
        i = len(out)
        while i > 0 and truth(order('<', k, out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    if reverse:
        out = out[::-1]
    return [x for _, x in out]


def b_sorted(it, key=None, reverse=False):
    saved = S.unordered
    if isinstance(it, OSet):
        items = pyai.shuffled(list(it.d.values()))
    else:
        items = list(iterate(it))
    S.unordered = saved
    return merge_sort(items, key, truth(reverse))


def b_divmod(a, b):
    return (binop('//', a, b), binop('%', a, b))


def b_abs(a):
    a = unwrap(a)
    if isinstance(a, (int, float)):
        return abs(a)
    if isinstance(a, Lin):
        if S.path.cmp('<', a, 0):
            return pyai.unary('-', a)
        return a
    raise_('TypeError', 'bad operand type for abs()')


def b_ord(c):
    if isinstance(c, str):
        return host_call(ord, c)
    if isinstance(c, AS):
        return sym('ord(%r)' % (c,), 0, 0x10ffff)
    if isinstance(c, AB) and len(c) == 1:
        return pyai.cell_int(c.cells[0])
    raise_('TypeError', 'ord() expected string of length 1, but %s found' % class_of(c).name)


def b_chr(c):
    if isinstance(c, int):
        return host_call(chr, c)
    return AS([Hole('c', c)])


def b_isinstance(o, c):
    return is_instance(o, c)


def b_print(*args, **kw):
    sep = kw.get('sep', ' ')
    end = kw.get('end', '\n')
    out = []
    for i, a in enumerate(args):
        if i:
            out.append(sep)
        out.append(str_(a))
    out.append(end if end is not None else '\n')
    f = kw.get('file')
    if f is None:
        f = pyai.WORLD.import_module('sys').d['stdout']
    call(get_attr(f, 'write'), (mktext(out),))


def b_callable(o):
    return isinstance(o, (PFunc, PMethod, NFunc, PClass)) or isinstance(o, PObj) and o.cls.lookup(
        '__call__') is not MISSING


def b_id(o):
    # distinct from every other id, in an unknown order; the object is kept alive for the trace
    k = S.ids.setdefault(id(o), (o, len(S.ids)))[1]
    return sym('id@%d' % k, 0, None, meta='id')


def b_hash(o):
    o2 = unwrap(o)
    if isinstance(o2, int):
        return hash(o2)
    k = hkey(o)
    return sym('hash(%r)' % (k,), None, None)


def b_vars(o):
    return get_attr(o, '__dict__')


def b_format(v, spec=''):
    return pyai.format_value(v, spec)


def b_pow(a, b, m=None):
    if m is not None:
        return host_call(pow, known_int(a, 'pow'), known_int(b, 'pow'), known_int(m, 'pow'))
    return binop('**', a, b)


def b_round(x, n=None):
    if isinstance(x, (int, float)):
        return host_call(round, x) if n is None else host_call(round, x, n)
    raise Unsupported('round')


def b_hex(x):
    x = unwrap(x)
    if isinstance(x, int):
        return hex(x)
    return AS([Hole('#x', x)])


def known_int(x, what):
    x = unwrap(x)
    if not isinstance(x, int):
        raise Unsupported('%s of an unknown value' % what)
    return x


def b_bin(x):
    return bin(known_int(x, 'bin'))


def b_oct(x):
    return oct(known_int(x, 'oct'))


def b_ascii(x):
    r = repr_(x)
    if not isinstance(r, str):
        raise Unsupported('ascii of an unknown value')
    return ''.join(c if ord(c) < 128 else ascii(c)[1:-1] for c in r)


def b_dir(o):
    names = set()
    if isinstance(o, PModule):
        return sorted(o.d)
    if isinstance(o, PObj):
        names |= set(o.d)
    c = o if isinstance(o, PClass) else class_of(o)
    for k in c.mro:
        names |= set(k.d)
        if k.host not in (None, object):
            raise Unsupported('dir of a builtin')
    return sorted(names | set(dir(object)))


def b_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    return pyai.WORLD.open_file(file, mode, encoding, errors, newline)


for _n, _f in [('len', b_len), ('getattr', b_getattr), ('hasattr', b_hasattr), ('setattr', b_setattr),
               ('delattr', lambda o, n: del_attr(o, n)), ('next', b_next), ('iter', b_iter), ('map', b_map),
               ('filter', b_filter), ('zip', b_zip), ('enumerate', b_enumerate), ('reversed', b_reversed),
               ('any', b_any), ('all', b_all), ('sum', b_sum), ('max', b_max), ('min', b_min), ('sorted', b_sorted),
               ('divmod', b_divmod), ('abs', b_abs), ('ord', b_ord), ('chr', b_chr), ('isinstance', b_isinstance),
               ('issubclass', is_subclass), ('print', b_print), ('callable', b_callable), ('id', b_id),
               ('hash', b_hash), ('repr', repr_), ('vars', b_vars), ('format', b_format), ('pow', b_pow),
               ('round', b_round), ('hex', b_hex), ('open', b_open), ('dir', b_dir), ('bin', b_bin), ('oct', b_oct),
               ('ascii', b_ascii)]:
    BUILTINS[_n] = NFunc(_n, _f)
for _n, _c in BC.items():
    if _n not in ('NoneType', 'function', 'method', 'module', 'generator', 'builtin_function_or_method', 'ellipsis',
                  'NotImplementedType', 'map', 'filter', 'zip', 'enumerate', 'reversed', 'iterator', 'defaultdict_',
                  'hostobj'):
        BUILTINS[_n] = _c
BUILTINS['NotImplemented'] = NOTIMPL
BUILTINS['Ellipsis'] = ELLIPSIS
BUILTINS['True'], BUILTINS['False'], BUILTINS['None'] = True, False, None
BUILTINS['__debug__'] = True


# ----------------------------------------------------------------------------- constructors

SUBST = {}
USED = set()
"""Numbers which stand for unknown ones wherever they are read from text, and those which were read."""


def c_int(x=0, base=None):
    if isinstance(x, PObj) and x.val is None:
        f = x.cls.lookup('__int__')
        if f is not MISSING:
            return call(bind(f, x, x.cls))
        raise_('TypeError', "int() argument must be a string, a bytes-like object or a real number, not '%s'"
               % x.cls.name)
    x = unwrap(x)
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Lin):
        if base is not None:
            raise_('TypeError', "int() can't convert non-string with explicit base")
        return x
    if isinstance(x, (int, float)):
        if base is not None:
            raise_('TypeError', "int() can't convert non-string with explicit base")
        return host_call(int, x)
    if isinstance(x, Flt):
        q = getattr(x, 'quot', None)
        if q is not None:
            a, b = q
            lo, _ = S.path.interval(a)
            if lo is not None and lo >= 0 and isinstance(b, int) and b > 0:
                return lin_op('//', a, b)
        if S.path.flag(('finite', x.name), '%s is finite' % x):
            return sym('int(%s)' % x.name)
        raise_('ValueError', 'cannot convert float NaN to integer')
    if isinstance(x, str):
        v = host_call(int, x, base) if base is not None else host_call(int, x)
        if SUBST:
            USED.update((v, x.strip()))
            return SUBST.get(v, v)
        return v
    if isinstance(x, AS):
        if len(x.pieces) == 1 and x.pieces[0].fmt == 'd':
            return x.pieces[0].term
        v = text_value(x)
        if v is not None:
            return v
        known = S.path.memo.get(('is', x))
        if known is not None:
            return c_int(known, base)
        if S.path.flag(('intlike', x, base), '%r reads as an integer' % (x,)):
            return sym('int(%r)' % (x,))
        raise_('ValueError', mktext(['invalid literal for int(): ', x]))
    if isinstance(x, AB):
        if x.concrete():
            return host_call(int, x.host())
        raise Unsupported('int(bytes)')
    raise_('TypeError', "int() argument must be a string, a bytes-like object or a real number, not '%s'"
           % class_of(x).name)


def text_value(x):
    """Integer value of text built by parsing, e.g. a literal with a symbolic digit string."""
    if len(x.pieces) == 2 and x.pieces[0] == '-' and isinstance(x.pieces[1], Hole) and x.pieces[1].fmt == 'd':
        return pyai.unary('-', x.pieces[1].term)
    return None


def c_float(x=0.0):
    x = unwrap(x)
    if isinstance(x, (int, float)):
        return host_call(float, x)
    if isinstance(x, Lin):
        return Flt('float(%r)' % x)
    if isinstance(x, Flt):
        return x
    if isinstance(x, str):
        return host_call(float, x)
    raise_('TypeError', "float() argument must be a string or a real number, not '%s'" % class_of(x).name)


def c_bool(x=False):
    return truth(x)


def c_str(x='', *a):
    if a:
        if isinstance(x, AB):
            return bytes_decode(x)
    return str_(x)


def c_bytes(x=MISSING, *a):
    if x is MISSING:
        return AB(())
    x = unwrap(x)
    if isinstance(x, AB):
        return x
    if isinstance(x, int):
        return AB.of(host_call(bytes, x), where())
    if is_text(x):
        if not a:
            raise_('TypeError', 'string argument without an encoding')
        return str_encode(x, *a)
    if isinstance(x, (float, Flt)) or x is None:
        raise_('TypeError', "cannot convert '%s' object to bytes" % class_of(x).name)
    if isinstance(x, Lin):
        raise Unsupported('bytes of unknown length')
    cells = []
    for e in iterate(x):
        e = unwrap(e)
        if isinstance(e, int) and 0 <= e < 256:
            cells.append(int(e))
        elif isinstance(e, Lin):
            cells.extend(int_cells(e, 1))
        else:
            raise_('ValueError', 'bytes must be in range(0, 256)')
    return AB(cells, (where(),) * len(cells))


def c_bytearray(x=MISSING, *a):
    return Buf(c_bytes(x, *a))


def c_memoryview(x):
    if isinstance(x, Buf) and x.view:
        return Buf(None, x.base, x.lo, x.hi)
    b = pyai.bytes_like(x)
    if b is None:
        raise_('TypeError', "memoryview: a bytes-like object is required, not '%s'" % class_of(x).name)
    return Buf(None, x if isinstance(x, Buf) else b, 0, len(b))


def c_list(it=()):
    return list(iterate(it))


def c_tuple(it=()):
    return tuple(iterate(it))


def c_set(it=()):
    return OSet(_hashable(it))


def c_frozenset(it=()):
    return OSet(_hashable(it), True)


def _hashable(it):
    if isinstance(it, OSet):
        return list(it.d.values())
    return list(iterate(it))


def c_dict(src=MISSING, **kw):
    d = {}
    if src is not MISSING:
        s = unwrap(src)
        if isinstance(s, dict):
            d.update(s)
        elif isinstance(s, PObj) and s.cls.lookup('keys') is not MISSING:
            d.update(pyai.mapping(s))
        else:
            for pair in iterate(s):
                items = list(iterate(pair))
                if len(items) != 2:
                    raise_('ValueError', 'dictionary update sequence element has length %d; 2 is required' % len(items))
                dict_set(d, items[0], items[1])
    d.update(kw)
    return d


def c_type(*a, **k):
    if len(a) == 1:
        return class_of(a[0])
    return pyai.builtin_new(TYPE, *a, **k)


def c_object(*a):
    return PObj(OBJECT)


def c_range(*a):
    a = [S.path.conc(unwrap(x)) if is_int(unwrap(x)) else unwrap(x) for x in a]
    for x in a:
        if not is_int(x):
            raise_('TypeError', "'%s' object cannot be interpreted as an integer" % class_of(x).name)
    if any(isinstance(x, Lin) for x in a):
        if len(a) == 1:
            a = [0] + a
        if len(a) == 3 and a[2] != 1:
            raise Unsupported('range with unknown bounds and a step')
        return HostObj(LRange(a[0], a[1]))
    return host_call(range, *[int(x) for x in a])


class LRange(object):
    """range() with unknown bounds: one trace split per iteration."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def m___iter__(self):
        i = self.lo
        while S.path.cmp('<', i, self.hi):
            yield i
            i = binop('+', i, 1)

    def m___len__(self):
        d = binop('-', self.hi, self.lo)
        if S.path.cmp('<', d, 0):
            return 0
        return d


def c_property(fget=None, fset=None, fdel=None, doc=None):
    return PProperty(fget, fset, fdel, doc)


def c_super(cls=None, obj=None):
    return PSuper(cls, obj)


def c_slice(*a):
    if len(a) == 1:
        return slice(None, a[0], None)
    return slice(*a)


BUILTIN_CALL.update({
    'int': c_int, 'float': c_float, 'bool': c_bool, 'str': c_str, 'bytes': c_bytes, 'list': c_list, 'tuple': c_tuple,
    'set': c_set, 'frozenset': c_frozenset, 'dict': c_dict, 'type': c_type, 'object': c_object, 'range': c_range,
    'property': c_property, 'staticmethod': lambda f: PStatic(f), 'classmethod': lambda f: PClassM(f),
    'super': c_super, 'slice': c_slice, 'bytearray': c_bytearray, 'memoryview': c_memoryview,
})


# ----------------------------------------------------------------------------- methods of native values

def native_attr(o, name):
    if isinstance(o, (str, AS)):
        t = STR
    elif isinstance(o, AB):
        t = BYTES
    elif isinstance(o, Buf):
        return buf_attr(o, name)
    elif isinstance(o, list):
        t = LIST
    elif isinstance(o, tuple):
        t = TUPLE
    elif isinstance(o, dict):
        t = DICT
    elif isinstance(o, OSet):
        t = SET
    elif isinstance(o, (bool, int, Lin)):
        t = INT
    elif isinstance(o, (float, Flt)):
        t = FLOAT
    elif isinstance(o, GenObj):
        t = GEN
    elif isinstance(o, HostObj):
        h = o.o
        f = getattr(h, 'm_' + name, None)
        if f is not None:
            return NFunc(name, f)
        f = getattr(h, 'a_' + name, MISSING)
        if f is not MISSING:
            return f() if callable(f) else f
        d = getattr(h, 'attrs', None)
        if d is not None and name in d:
            return d[name]
        if getattr(h, '_open', False) and hasattr(h, name):
            return getattr(h, name)
        if name == '__class__':
            return class_of(o)
        if not name.startswith('__') and not getattr(h, '_closed', False):
            raise Unsupported('attribute %s of a library object (%s)' % (name, getattr(h, 'name', type(h).__name__)))
        return MISSING
    elif isinstance(o, PFunc):
        return func_attr(o, name)
    elif isinstance(o, PMethod):
        if name == '__self__':
            return o.self_
        if name == '__func__':
            return o.fn
        return native_attr(o.fn, name)
    elif isinstance(o, NFunc):
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__doc__':
            return None
        return MISSING
    elif isinstance(o, PProperty):
        if name in ('fget', 'fset', 'fdel'):
            return getattr(o, name)
        if name == 'setter':
            return NFunc(name, lambda f: PProperty(o.fget, f, o.fdel, o.doc))
        if name == 'getter':
            return NFunc(name, lambda f: PProperty(f, o.fset, o.fdel, o.doc))
        if name == 'deleter':
            return NFunc(name, lambda f: PProperty(o.fget, o.fset, f, o.doc))
        if name == '__doc__':
            return o.doc
        return MISSING
    elif isinstance(o, slice):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
        if name == 'indices':
            return NFunc(name, lambda n: host_call(norm_slice(o).indices, n))
        return MISSING
    elif isinstance(o, (PStatic, PClassM)):
        if name == '__func__':
            return o.fn
        return MISSING
    else:
        t = NONE
    if name == '__class__':
        return class_of(o)
    f = t.get(name)
    if f is None:
        f = COMMON.get(name)
    if f is None:
        return host_attr(o, name)
    return NFunc(name, lambda *a, **k: f(o, *a, **k))


def buf_append(o, x):
    o.set(o.ab + c_bytes([x]))


def buf_extend(o, it):
    b = pyai.bytes_like(it)
    o.set(o.ab + (c_bytes(it) if b is None else b))


def buf_insert(o, i, x):
    xs = list(range(len(o)))
    l_insert(xs, i, None)
    k = xs.index(None)
    o.set(o.ab[:k] + c_bytes([x]) + o.ab[k:])


def buf_pop(o, i=-1):
    r = get_item(o, i)
    pyai.del_item(o, i)
    return r


BUF = {'append': buf_append, 'extend': buf_extend, 'insert': buf_insert, 'pop': buf_pop, 'clear': lambda o: o.set(AB(())),
       'copy': lambda o: Buf(o.own), 'reverse': lambda o: o.set(o.own[::-1]), '__setitem__': set_item,
       '__delitem__': lambda o, i: pyai.del_item(o, i), '__iadd__': lambda o, x: pyai.inplace('+', o, x)}
VIEW = {'tobytes': lambda o: o.ab, 'release': lambda o: None, '__enter__': lambda o: o, '__exit__': lambda o, *a: None,
        'tolist': lambda o: list(iterate(o)), '__setitem__': set_item, 'cast': lambda o, f: o if f in ('B', 'c') else _unsup('memoryview.cast')}


def buf_attr(o, name):
    if name == '__class__':
        return class_of(o)
    if o.view and name in ('nbytes', 'itemsize', 'readonly', 'obj'):
        return {'nbytes': len(o), 'itemsize': 1, 'readonly': isinstance(o.base, AB), 'obj': o.base}[name]
    f = (VIEW if o.view else BUF).get(name)
    if f is not None:
        return NFunc(name, lambda *a, **k: f(o, *a, **k))
    if name in COMMON:
        f = COMMON[name]
        return NFunc(name, lambda *a, **k: f(o, *a, **k))
    if o.view:
        return MISSING if not hasattr(memoryview, name) else _unsup('memoryview.%s' % name)
    f = native_attr(o.own, name)
    if f is MISSING or not isinstance(f, NFunc):
        return f

    def apply(*a, **k):
        r = f.fn(*a, **k)
        return Buf(r) if isinstance(r, AB) else r
    return NFunc(name, apply)


HOST_TYPES = ((AB, bytes), ((str, AS), str), (list, list), (tuple, tuple), (dict, dict), (OSet, frozenset), (bool, bool),
              ((int, Lin), int), ((float, Flt), float), (GenObj, type(x for x in ())), (type(None), type(None)))


def host_attr(o, name):
    """A method without a model: applied by the host to known values, not decided for others."""
    for t, host in HOST_TYPES:
        if isinstance(o, t):
            break
    else:
        return MISSING
    if not hasattr(host, name):
        return MISSING

    def apply(*a, **k):
        def known(x):
            x = unwrap(x)
            if isinstance(x, AB) and x.concrete():
                return x.host()
            if x is None or type(x) in (str, int, float, bool):
                return x
            raise Unsupported('method %s.%s' % (host.__name__, name))
        if host not in (bytes, str, int, float, bool):
            raise Unsupported('method %s.%s' % (host.__name__, name))
        r = host_call(getattr(known(o), name), *[known(x) for x in a], **{n: known(x) for n, x in k.items()})
        return lift_host(r)
    if not callable(getattr(host, name)):
        return lift_host(getattr(o, name)) if type(o) is host else _unsup('attribute %s.%s' % (host.__name__, name))
    return NFunc(name, apply)


def lift_host(r):
    if isinstance(r, bytes):
        return AB.of(r, where())
    if r is None or isinstance(r, (str, int, float, bool)):
        return r
    if isinstance(r, (list, tuple)):
        return type(r)(lift_host(x) for x in r)
    raise Unsupported('host value %s' % type(r).__name__)


def func_attr(o, name):
    if name in ('__name__',):
        return o.d.get('__name__', o.name)
    if name in o.d:
        return o.d[name]
    if name == '__doc__':
        return o.code.doc
    if name == '__qualname__':
        return o.qual
    if name == '__module__':
        return o.glob.name
    if name == '__dict__':
        return o.d
    if name == '__defaults__':
        return o.defaults
    if name == '__code__':
        return HostObj(CodeModel(o))
    if name == '__get__':
        return NFunc(name, lambda inst, cls=None: o if inst is None else PMethod(o, inst))
    if name == '__annotations__':
        env = pyai.Env(o.parent, o.glob, o.code.file, o.code.qual)
        return {n: pyai.annotation(a, env) for n, a in o.code.anns}
    if name == '__kwdefaults__':
        return dict(o.kwdefaults) or None
    if name == '__globals__':
        return o.glob.d
    if name == '__call__':
        return o
    return MISSING


class CodeModel(object):
    def __init__(self, f):
        self.a_co_firstlineno = f.code.line
        self.a_co_argcount = len(f.code.args)
        self.a_co_varnames = tuple(f.code.args)


COMMON = {
    '__eq__': lambda o, x: eq(o, x),
    '__ne__': lambda o, x: pyai.noteq(o, x),
    '__len__': lambda o: b_len(o),
    '__iter__': lambda o: b_iter(o),
    '__getitem__': lambda o, i: get_item(o, i),
    '__setitem__': lambda o, i, v: set_item(o, i, v),
    '__delitem__': lambda o, i: pyai.del_item(o, i),
    '__contains__': lambda o, x: contains(o, x),
    '__str__': lambda o: str_(o),
    '__repr__': lambda o: repr_(o),
    '__hash__': lambda o: b_hash(o),
    '__lt__': lambda o, x: order('<', o, x),
    '__le__': lambda o, x: order('<=', o, x),
    '__gt__': lambda o, x: order('>', o, x),
    '__ge__': lambda o, x: order('>=', o, x),
    '__add__': lambda o, x: binop('+', o, x),
    '__mul__': lambda o, x: binop('*', o, x),
    '__bool__': lambda o: truth(o),
    '__init__': lambda o, *a, **k: None,
    '__format__': lambda o, s: pyai.format_value(o, s),
}
NONE = {}
FLOAT = {'is_integer': lambda o: o.is_integer() if isinstance(o, float) else S.path.flag(('isint', o))}
def int_to_bytes(o, length=1, byteorder='big', *, signed=False):
    n = known_int(length, 'to_bytes')
    lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed and n else (0, (1 << 8 * n) - 1)
    o = S.path.conc(unwrap(o))
    if truth(order('<', o, lo)):
        raise_('OverflowError', "can't convert negative int to unsigned" if not signed else 'int too big to convert')
    if truth(order('>', o, hi)):
        raise_('OverflowError', 'int too big to convert')
    cells = int_cells(int(o) if isinstance(o, bool) else o, n)
    return AB(cells if byteorder == 'little' else cells[::-1])


def int_from_bytes(data, byteorder='big', *, signed=False):
    b = pyai.bytes_like(unwrap(data))
    b = c_bytes(data) if b is None else b
    return cells_int(tuple(b.cells) if byteorder == 'little' else tuple(b.cells)[::-1], truth(signed)) if len(b) else 0


def d_move_to_end(o, k, last=True):
    key = dict_find(o, k)
    if key is MISSING:
        raise_('KeyError', k)
    v = o.pop(key)
    if truth(last):
        o[key] = v
    else:
        rest = dict(o)
        o.clear()
        o[key] = v
        o.update(rest)


def d_fromkeys(it, v=None):
    d = {}
    for k in iterate(it):
        pyai.dict_set(d, k, v)
    return d


STATICS = {('int', 'from_bytes'): int_from_bytes, ('dict', 'fromkeys'): d_fromkeys,
           ('str', 'maketrans'): lambda *a: host_call(str.maketrans, *a),
           ('bytes', 'fromhex'): lambda t: AB.of(host_call(bytes.fromhex, t), where()),
           ('bytearray', 'fromhex'): lambda t: c_bytearray(AB.of(host_call(bytes.fromhex, t), where())),
           ('float', 'fromhex'): lambda t: host_call(float.fromhex, t)}


INT = {'to_bytes': int_to_bytes, 'bit_length': lambda o: o.bit_length() if isinstance(o, int) else sym('bit_length(%r)' % o, 0),
       '__index__': lambda o: o, '__int__': lambda o: o}


# -- text

def _all_str(*xs):
    return all(isinstance(x, (str, int, type(None), bool)) or isinstance(x, tuple) and _all_str(*x) for x in xs)


def _strm(name):
    def f(o, *a, **k):
        a = tuple(unwrap(x) for x in a)
        a2 = tuple(S.path.conc(x) if isinstance(x, Lin) else x for x in a)
        if isinstance(o, str) and _all_str(*a2) and not k:
            return host_call(getattr(o, name), *a2)
        if isinstance(o, str) and name in ('split', 'rsplit', 'splitlines') and _all_str(*a2):
            return host_call(getattr(o, name), *a2, **k)
        if isinstance(o, str) and name == 'translate' and len(a2) == 1 and isinstance(a2[0], dict) and all(
                isinstance(x, (int, str, type(None))) for x in a2[0].values()):
            return host_call(o.translate, a2[0])
        if isinstance(o, str) and _all_str(*a2) and _all_str(*k.values()):
            return host_call(getattr(o, name), *a2, **k)
        h = ABS_STR.get(name)
        if h is None:
            if all(is_text(x) or isinstance(x, int) for x in a) or name in ('translate', 'format_map', 'maketrans'):
                raise Unsupported('str.%s on unknown text' % name)
            raise_('TypeError', 'str.%s() argument' % name)
        return h(o, *a, **k)
    return f


def _text_or_type_error(x, what):
    if not is_text(x):
        raise_('TypeError', '%s must be str, not %s' % (what, class_of(x).name))


def pieces_of(o):
    return o.pieces if isinstance(o, AS) else ((o,) if o else ())


SAFE = ('d', 'fresh', 'name', 'repr')      # holes that stand for one word of [-\w.]


def _is_word_hole(p):
    return isinstance(p, Hole) and p.fmt in SAFE


def a_split(o, sep=None, maxsplit=-1):
    ps = pieces_of(o)
    if not all(isinstance(p, str) or _is_word_hole(p) for p in ps):
        raise Unsupported('split of unknown text')
    if sep is not None and not isinstance(sep, str):
        raise Unsupported('split by unknown text')
    if isinstance(sep, str) and re.match(r'[\w.-]', sep):
        raise Unsupported('split of unknown text')
    # holes become private-use characters
    host, table = _encode_holes(ps)
    return [_decode_holes(x, table) for x in host_call(host.split, sep, maxsplit)]


def _encode_holes(ps):
    table = {}
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(p)
        else:
            ch = chr(0xE000 + len(table))
            table[ch] = p
            out.append(ch)
    return ''.join(out), table


def _decode_holes(s, table):
    if not table:
        return s
    return mktext([table.get(ch, ch) for ch in s])


def _via_host(name):
    def f(o, *a, **k):
        ps = pieces_of(o)
        if not all(isinstance(p, str) or _is_word_hole(p) for p in ps) or not _all_str(*a):
            raise Unsupported('str.%s on unknown text' % name)
        host, table = _encode_holes(ps)
        r = host_call(getattr(host, name), *a, **k)
        if isinstance(r, list):
            return [_decode_holes(x, table) for x in r]
        if isinstance(r, tuple):
            return tuple(_decode_holes(x, table) for x in r)
        return _decode_holes(r, table)
    return f


def a_join(o, it):
    parts = []
    n = 0
    for x in iterate(it):
        x = unwrap(x)
        if not is_text(x):
            raise_('TypeError', 'sequence item %d: expected str instance, %s found' % (n, class_of(x).name))
        if n:
            parts.append(o)
        parts.append(x)
        n += 1
    return mktext(parts)


def a_startswith(o, p, *a):
    if isinstance(p, tuple):
        return any(a_startswith(o, x) for x in p)
    _text_or_type_error(p, 'startswith first arg')
    if a:
        raise Unsupported('startswith')
    if isinstance(o, str) and isinstance(p, str):
        return o.startswith(p)
    if p == '':
        return True
    ps = pieces_of(o)
    if isinstance(p, str) and ps and isinstance(ps[0], str):
        if len(ps[0]) >= len(p):
            return ps[0].startswith(p)
        if not p.startswith(ps[0]):
            return False
    if isinstance(p, str) and ps and _is_word_hole(ps[0]) and not re.match(r'[\w-]', p):
        return False
    return S.path.flag(('startswith', o, p), '%r startswith %r' % (o, p))


def a_endswith(o, p, *a):
    if isinstance(p, tuple):
        return any(a_endswith(o, x) for x in p)
    _text_or_type_error(p, 'endswith first arg')
    if a:
        raise Unsupported('endswith')
    if isinstance(o, str) and isinstance(p, str):
        return o.endswith(p)
    if p == '':
        return True
    ps = pieces_of(o)
    if isinstance(p, str) and ps and isinstance(ps[-1], str):
        if len(ps[-1]) >= len(p):
            return ps[-1].endswith(p)
        if not p.endswith(ps[-1]):
            return False
    return S.path.flag(('endswith', o, p), '%r endswith %r' % (o, p))


def a_opaque(name):
    def f(o, *a, **k):
        if isinstance(o, AS) and len(o.pieces) == 1 and o.pieces[0].fmt in SAFE and name in ('strip', 'lstrip', 'rstrip') \
                and not a:
            return o
        return AS([Hole(name, (o,) + tuple(map(str, a)))])
    return f


def a_format(o, *a, **k):
    return format_(o, a, k)


def a_replace(o, x, y, n=-1):
    ps = pieces_of(o)
    if isinstance(x, str) and all(isinstance(p, str) or (_is_word_hole(p) and not re.search(r'[\w-]', x)) for p in ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                for i, q in enumerate(p.split(x)):
                    if i:
                        out.append(y)
                    out.append(q)
            else:
                out.append(p)
        return mktext(out)
    return AS([Hole('replace', (o, x, y))])


def a_encode(o, *a, **k):
    return str_encode(o, *a, **k)


def codec_error(e, data):
    exc = PyExc(make_exc(type(e).__name__, e.encoding, data, e.start, e.end, e.reason))
    exc.obj.d.update(encoding=e.encoding, object=data, start=e.start, end=e.end, reason=e.reason)
    exc.trace = trace()
    return exc


def str_encode(o, encoding='utf-8', errors='strict'):
    if isinstance(o, str):
        try:
            return AB.of(host_call(_checked, o.encode, unwrap(encoding), unwrap(errors)), where())
        except _Codec as e:
            raise codec_error(e.args[0], o)
    raise Unsupported('encode of unknown text')


class _Codec(Unsupported):
    pass


def _checked(f, *a):
    try:
        return f(*a)
    except UnicodeError as e:
        raise _Codec(e)


def bytes_decode(o, encoding='utf-8', errors='strict'):
    if o.concrete():
        try:
            return host_call(_checked, o.host().decode, unwrap(encoding), unwrap(errors))
        except _Codec as e:
            raise codec_error(e.args[0], o)
    return AS([Hole('decode', o.cells)])


def a_isdigit(o):
    if isinstance(o, AS) and len(o.pieces) == 1 and o.pieces[0].fmt == 'd':
        lo, _ = S.path.interval(o.pieces[0].term)
        if lo is not None and lo >= 0:
            return True
        return not S.path.cmp('<', o.pieces[0].term, 0)
    if isinstance(o, AS) and len(o.pieces) == 1 and o.pieces[0].fmt in ('fresh', 'name'):
        return False
    return S.path.flag(('isdigit', o), '%r is digits' % (o,))


def a_index(o, x, *a):
    raise Unsupported('index in unknown text')


ABS_STR = {
    'split': a_split, 'join': a_join, 'startswith': a_startswith, 'endswith': a_endswith, 'format': a_format,
    'strip': a_opaque('strip'), 'lstrip': a_opaque('lstrip'), 'rstrip': a_opaque('rstrip'),
    'lower': a_opaque('lower'), 'upper': a_opaque('upper'), 'title': a_opaque('title'),
    'replace': a_replace, 'encode': a_encode, 'isdigit': a_isdigit, 'splitlines': _via_host('splitlines'),
    'partition': _via_host('partition'), 'rpartition': _via_host('rpartition'), 'ljust': a_opaque('ljust'),
    'rjust': a_opaque('rjust'), 'isalnum': lambda o: S.path.flag(('isalnum', o)),
    'isidentifier': lambda o: S.path.flag(('isidentifier', o)),
}
STR = {n: _strm(n) for n in dir(str) if not n.startswith('_')}
STR['join'] = a_join
STR['format'] = a_format
STR['format_map'] = lambda o, d: format_(o, (), unwrap(d)) if isinstance(unwrap(d), dict) and all(
    isinstance(x, str) for x in unwrap(d)) and not hasattr(d, 'cls') else _unsup('str.format_map over an object')
STR['encode'] = str_encode


# -- bytes

def by_join(o, it):
    out = AB(())
    n = 0
    for x in iterate(it):
        x = unwrap(x)
        if not isinstance(x, AB):
            raise_('TypeError', 'sequence item %d: expected a bytes-like object, %s found' % (n, class_of(x).name))
        if n and len(o):
            out = out + o
        out = out + x
        n += 1
    return out


def _width(n):
    n = S.path.conc(unwrap(n))
    if isinstance(n, Lin):
        raise Unsupported('padding to an unknown width')
    if not isinstance(n, int):
        raise_('TypeError', "'%s' object cannot be interpreted as an integer" % class_of(n).name)
    return n


def by_ljust(o, n, fill=None):
    n = _width(n)
    fc = unwrap(fill).cells[0] if fill is not None else 0x20
    k = max(0, n - len(o))
    return o + AB((fc,) * k, (where(),) * k)


def by_rjust(o, n, fill=None):
    n = _width(n)
    fc = unwrap(fill).cells[0] if fill is not None else 0x20
    k = max(0, n - len(o))
    return AB((fc,) * k, (where(),) * k) + o


def _bytes(x, o=None):
    x = unwrap(x)
    if isinstance(x, AB):
        return x
    if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 256:
        return AB((x,), (where(),))
    raise_('TypeError', "a bytes-like object is required, not '%s'" % class_of(x).name)


def by_strip(o, chars=None, left=True, right=True):
    cs = AB(b' \t\n\r\v\f', (None,) * 6) if chars is None else _bytes(chars)
    if len(o) > 64 and not o.concrete():
        raise Unsupported('strip of many unknown bytes')
    a, b = 0, len(o)
    while right and a < b and any(pyai.cells_eq((o.cells[b - 1],), (c,)) for c in cs.cells):
        b -= 1
    while left and a < b and any(pyai.cells_eq((o.cells[a],), (c,)) for c in cs.cells):
        a += 1
    return o[a:b]


def by_startswith(o, p):
    p = unwrap(p)
    if isinstance(p, tuple):
        return any(by_startswith(o, x) for x in p)
    p = _bytes(p)
    return len(p) <= len(o) and truth(eq(o[:len(p)], p))


def by_endswith(o, p):
    p = unwrap(p)
    if isinstance(p, tuple):
        return any(by_endswith(o, x) for x in p)
    p = _bytes(p)
    return len(p) <= len(o) and truth(eq(o[len(o) - len(p):], p))


def by_places(o, x, a, right=False):
    """Where `x` stands in `o`, within the bounds `a`; asked one by one."""
    x = _bytes(x)
    lo, hi, _ = slice(*[_width(y) for y in (a + (0,))[:1]] + [_width(a[1]) if len(a) > 1 else None]).indices(len(o))
    at = range(lo, hi - len(x) + 1)
    for i in reversed(at) if right else at:
        if pyai.cells_eq(o.cells[i:i + len(x)], x.cells):
            yield i


def by_find(o, x, *a):
    return next(by_places(o, x, a), -1)


def by_rfind(o, x, *a):
    return next(by_places(o, x, a, True), -1)


def by_index(o, x, *a):
    i = by_find(o, x, *a)
    return raise_('ValueError', 'subsection not found') if i < 0 else i


def by_rindex(o, x, *a):
    i = by_rfind(o, x, *a)
    return raise_('ValueError', 'subsection not found') if i < 0 else i


def by_pieces(o, sep, limit=-1):
    sep = _bytes(sep)
    if not len(sep):
        raise_('ValueError', 'empty separator')
    out, at, i = [], 0, 0
    while i + len(sep) <= len(o) and (limit < 0 or len(out) < limit):
        if pyai.cells_eq(o.cells[i:i + len(sep)], sep.cells):
            out.append(o[at:i])
            at = i = i + len(sep)
        else:
            i += 1
    return out + [o[at:]]


def by_split(o, sep=None, maxsplit=-1):
    if sep is None:
        if not o.concrete():
            raise Unsupported('split of unknown bytes at white space')
        return [AB(x, (where(),) * len(x)) for x in o.host().split(None, _width(maxsplit))]
    return by_pieces(o, sep, _width(maxsplit))


def by_partition(o, sep):
    p = by_pieces(o, sep, 1)
    return (p[0], _bytes(sep), p[1]) if len(p) == 2 else (o, AB((), ()), AB((), ()))


def by_replace(o, a, b, n=-1):
    p, b = by_pieces(o, a, _width(n)), _bytes(b)
    r = p[0]
    for x in p[1:]:
        r = r + b + x
    return r


def by_hex(o):
    if o.concrete():
        return o.host().hex()
    return AS([Hole('hex', o.cells)])


BYTES = {'join': by_join, 'ljust': by_ljust, 'rjust': by_rjust, 'decode': bytes_decode, 'strip': by_strip,
         'rstrip': lambda o, c=None: by_strip(o, c, left=False), 'lstrip': lambda o, c=None: by_strip(o, c, right=False),
         'startswith': by_startswith, 'endswith': by_endswith, 'hex': by_hex, 'find': by_find, 'rfind': by_rfind,
         'index': by_index, 'rindex': by_rindex, 'count': lambda o, x: len(by_pieces(o, x)) - 1, 'split': by_split,
         'partition': by_partition, 'replace': by_replace}


def _unsup(m):
    raise Unsupported(m)


# -- list

def l_extend(o, it):
    if it is o:
        it = list(o)
    for x in iterate(it):
        o.append(x)
        if len(o) > 200000:
            raise pyai.Budget('list grows without bound')


def l_insert(o, i, x):
    i = unwrap(i)
    if isinstance(i, Lin):
        i = S.path.conc(i)
    if isinstance(i, Lin):
        for k in range(len(o)):
            if S.path.cmp('<=', i, k):
                i = k
                break
        else:
            i = len(o)
    if not isinstance(i, int):
        raise_('TypeError', "'%s' object cannot be interpreted as an integer" % class_of(i).name)
    if abs(int(i)) >> 63:
        raise_(BC['OverflowError'], 'Python int too large to convert to C ssize_t')
    o.insert(int(i), x)


def l_pop(o, i=-1):
    if not o:
        raise_('IndexError', 'pop from empty list')
    k = norm_index(o, i, len(o))
    if not -len(o) <= k < len(o):
        raise_('IndexError', 'pop index out of range')
    return o.pop(k)


def l_remove(o, x):
    for i, y in enumerate(o):
        if y is x or truth(eq(y, x)):
            del o[i]
            return
    raise_('ValueError', 'list.remove(x): x not in list')


def l_index(o, x, *a):
    lo = a[0] if a else 0
    hi = a[1] if len(a) > 1 else len(o)
    for i, y in enumerate(o):
        if i < lo or i >= hi:
            continue
        if y is x or truth(eq(y, x)):
            return i
    raise_('ValueError', '%s is not in list' % repr_(x))


def l_count(o, x):
    return sum(1 for y in o if y is x or truth(eq(y, x)))


def l_sort(o, key=None, reverse=False):
    o[:] = merge_sort(list(o), key, truth(reverse))


def l_reverse(o):
    o.reverse()


LIST = {'append': lambda o, x: o.append(x), 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'remove': l_remove,
        'index': l_index, 'count': l_count, 'sort': l_sort, 'reverse': l_reverse, 'copy': lambda o: list(o),
        'clear': lambda o: o.clear(), '__iadd__': lambda o, x: (l_extend(o, x), o)[1]}
TUPLE = {'index': l_index, 'count': l_count}


# -- dict

class View(object):
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def m___iter__(self):
        n = len(self.d)
        for k in list(self.d):
            if len(self.d) != n:
                raise_('RuntimeError', 'dictionary changed size during iteration')
            yield k if self.kind == 'keys' else self.d[k] if self.kind == 'values' else (k, self.d[k])
        if len(self.d) != n:
            raise_('RuntimeError', 'dictionary changed size during iteration')

    def m___len__(self):
        return len(self.d)

    def m___sub__(self, other):
        return OSet([k for k in self.d if not contains(other, k)])

    def m___and__(self, other):
        return OSet([k for k in self.d if contains(other, k)])

    def m___or__(self, other):
        return OSet(list(self.d) + list(iterate(other)))


def d_get(o, k, default=None):
    f = dict_find(o, k)
    return default if f is MISSING else o[f]


def d_pop(o, k, *default):
    f = dict_find(o, k)
    if f is MISSING:
        if default:
            return default[0]
        raise_('KeyError', k)
    return o.pop(f)


def d_setdefault(o, k, v=None):
    f = dict_find(o, k)
    if f is MISSING:
        dict_set(o, k, v)
        return v
    return o[f]


def d_update(o, *a, **k):
    if a:
        for kk, vv in c_dict(a[0]).items():
            dict_set(o, kk, vv)
    for kk, vv in k.items():
        dict_set(o, kk, vv)


def d_popitem(o, last=True):
    if not o:
        raise_('KeyError', 'popitem(): dictionary is empty')
    if not truth(last):
        k = next(iter(o))
        return k, o.pop(k)
    return o.popitem()


def d_copy(o):
    r = type(o)(o)
    if isinstance(o, DDict):
        r.factory = o.factory
    return r


def d_most_common(o, n=None):
    items = merge_sort(list(o.items()), NFunc('key', lambda kv: kv[1]), True)
    return items if n is None else items[:n]


DICT = {'get': d_get, 'most_common': d_most_common, 'keys': lambda o: HostObj(View(o, 'keys')), 'values': lambda o: HostObj(View(o, 'values')),
        'items': lambda o: HostObj(View(o, 'items')), 'pop': d_pop, 'setdefault': d_setdefault, 'update': d_update,
        'move_to_end': d_move_to_end, 'elements': lambda o: [k for k, n in o.items() for _ in range(known_int(n, 'elements'))],
        'clear': lambda o: o.clear(), 'copy': d_copy, 'popitem': d_popitem, 'has_key': None,
        'iteritems': None}
DICT = {k: v for k, v in DICT.items() if v}


# -- set

def s_add(o, x):
    k = dict_find(o.d, x)
    if k is MISSING:
        o.d[hkey(x)] = x


def s_update(o, *its):
    for it in its:
        for x in _hashable(it):
            s_add(o, x)


def s_discard(o, x):
    k = dict_find(o.d, x)
    if k is not MISSING:
        del o.d[k]


def s_remove(o, x):
    k = dict_find(o.d, x)
    if k is MISSING:
        raise_('KeyError', x)
    del o.d[k]


def s_pop(o):
    if not o.d:
        raise_('KeyError', 'pop from an empty set')
    x = set_order(o)[0]
    del o.d[dict_find(o.d, x)]
    return x


def _setop(op):
    def f(o, *its):
        r = o
        for it in its:
            r = binop(op, r, OSet(_hashable(it)))
        return r if r is not o else OSet(list(o.d.values()), o.frozen)
    return f


def s_issubset(o, it):
    other = OSet(_hashable(it))
    return all(dict_find(other.d, x) is not MISSING for x in o.d.values())


def s_issuperset(o, it):
    return all(dict_find(o.d, x) is not MISSING for x in _hashable(it))


def s_difference_update(o, *its):
    for it in its:
        for x in _hashable(it):
            s_discard(o, x)


def s_intersection_update(o, *its):
    for it in its:
        other = OSet(_hashable(it))
        for x in list(o.d.values()):
            if dict_find(other.d, x) is MISSING:
                s_discard(o, x)


def s_symmetric_difference_update(o, it):
    for x in list(OSet(_hashable(it)).d.values()):
        (s_add if dict_find(o.d, x) is MISSING else s_discard)(o, x)


SET = {'add': s_add, 'update': s_update, 'discard': s_discard, 'remove': s_remove, 'pop': s_pop,
       'union': _setop('|'), 'intersection': _setop('&'), 'difference': _setop('-'),
       'symmetric_difference': _setop('^'), 'issubset': s_issubset, 'issuperset': s_issuperset,
       'copy': lambda o: OSet(list(o.d.values()), o.frozen), 'clear': lambda o: o.d.clear(),
       'isdisjoint': lambda o, it: not any(dict_find(o.d, x) is not MISSING for x in _hashable(it)),
       'difference_update': s_difference_update, 'intersection_update': s_intersection_update,
       'symmetric_difference_update': s_symmetric_difference_update}


# -- iterators

def g_send(o, v):
    try:
        return o.it.send(v)
    except StopIteration:
        raise_('StopIteration')


def g_close(o):
    if hasattr(o.it, 'close'):
        o.it.close()


GEN = {'__next__': lambda o: b_next(o), 'next': None, 'send': g_send, 'close': g_close,
       'throw': lambda o, *a: o.it.throw(a[1] if len(a) > 1 and isinstance(a[1], PyExc) else PyExc(a[0]))}
GEN = {k: v for k, v in GEN.items() if v}


# ----------------------------------------------------------------------------- struct

STRUCT_ERROR = PClass('error', (BC['Exception'],), {}, TYPE, None, 'struct')
STRUCT_ERROR.has_dict = True
INT_CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
             'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}
FLT_CODES = {'f': 4, 'd': 8}


def _fmt(fmt):
    fmt = unwrap(fmt)
    if isinstance(fmt, AB):
        fmt = fmt.host().decode()
    if not isinstance(fmt, str):
        if is_text(fmt):
            raise Unsupported('unknown struct format')
        raise_('TypeError', 'Struct() argument 1 must be a str or bytes object, not %s' % class_of(fmt).name)
    order_ = '<'
    native = True
    if fmt[:1] in '<>=@!' and fmt:
        order_ = {'<': '<', '>': '>', '!': '>', '=': '<', '@': '<'}[fmt[0]]
        native = fmt[0] == '@'
        fmt = fmt[1:]
    codes = []
    for m in re.finditer(r'\s*(\d*)([a-zA-Z?])', fmt):
        n, c = m.groups()
        if c in INT_CODES or c in FLT_CODES:
            codes.extend([c] * (int(n) if n else 1))
        elif c == 'x':
            codes.extend(['x'] * (int(n) if n else 1))
        elif c == 's':
            codes.append(('s', int(n) if n else 1))
        else:
            raise_(STRUCT_ERROR, 'bad char in struct format')
    if native and len(codes) > 1:
        raise Unsupported('native struct format with several fields')
    return order_, codes


def code_size(c, native=False):
    if c == 'x':
        return 1
    if isinstance(c, tuple):
        return c[1]
    return FLT_CODES.get(c) or INT_CODES[c][0]


def int_cells(t, size):
    """Cells of an integer term, by increasing weight."""
    if isinstance(t, int):
        return tuple((t >> (8 * k)) & 0xff for k in range(size))
    a = t.atom
    if a is not None and a.cells is not None and len(a.cells) == size:
        return tuple(a.cells)
    return tuple(Cell('i', t, k) for k in range(size))


def pack_one(code, v):
    v = unwrap(v)
    if code in FLT_CODES:
        size = FLT_CODES[code]
        if isinstance(v, (bool, int, float)):
            v = host_call(float, v)
            try:
                return tuple(_struct.pack('<' + code, v))
            except OverflowError as e:
                raise_('OverflowError', str(e))
        if isinstance(v, Lin):
            lo, hi = S.path.interval(v)
            if code == 'f' and not (lo is not None and hi is not None and max(abs(lo), abs(hi)) < 2 ** 127):
                if S.path.flag(('f4over', repr(v)), '%r exceeds single precision' % v):
                    raise_('OverflowError', 'float too large to pack with f format')
            return tuple(Cell('f%d' % size, v, k) for k in range(size))
        if isinstance(v, Flt):
            if v.cells is not None and len(v.cells) == size:
                return tuple(v.cells)
            if code == 'f' and not v.single:
                if S.path.flag(('f4over', v.name), '%s exceeds single precision' % v):
                    raise_('OverflowError', 'float too large to pack with f format')
            return tuple(Cell('f%d' % size, v, k) for k in range(size))
        raise_(STRUCT_ERROR, 'required argument is not a float')
    size, signed = INT_CODES[code]
    if not is_int(v):
        raise_(STRUCT_ERROR, 'required argument is not an integer')
    lo = -(1 << (8 * size - 1)) if signed else 0
    hi = (1 << (8 * size - (1 if signed else 0))) - 1
    v = S.path.conc(v)
    if isinstance(v, int):
        if not lo <= v <= hi:
            raise_(STRUCT_ERROR, "'%s' format requires %d <= number <= %d" % (code, lo, hi))
        return int_cells(int(v), size)
    if not S.path.cmp('<=', lo, v) or not S.path.cmp('<=', v, hi):
        raise_(STRUCT_ERROR, "'%s' format requires %d <= number <= %d" % (code, lo, hi))
    return int_cells(v, size)


def st_pack(fmt, *args):
    order_, codes = _fmt(fmt)
    cells = []
    args = list(args)
    for c in codes:
        if c == 'x':
            cells.append(0)
            continue
        if not args:
            raise_(STRUCT_ERROR, 'pack expected more items for packing')
        v = args.pop(0)
        if isinstance(c, tuple):
            v = unwrap(v)
            if not isinstance(v, AB):
                raise_(STRUCT_ERROR, "argument for 's' must be a bytes object")
            cs = v.cells[:c[1]]
            cells.extend(cs + (0,) * (c[1] - len(cs)))
            continue
        one = pack_one(c, v)
        cells.extend(one if order_ == '<' else one[::-1])
    if args:
        raise_(STRUCT_ERROR, 'pack expected fewer items for packing')
    w = where()
    return AB(cells, (w,) * len(cells))


def unpack_one(code, cells):
    """Value of cells given by increasing weight."""
    size = len(cells)
    if code in FLT_CODES:
        if all(isinstance(c, int) for c in cells):
            return _struct.unpack('<' + code, bytes(cells))[0]
        c0 = cells[0]
        if isinstance(c0, Cell) and c0.kind == 'f%d' % size and all(
                isinstance(c, Cell) and c.kind == c0.kind and c.term == c0.term and c.sig == k
                for k, c in enumerate(cells)):
            if isinstance(c0.term, Flt):
                return c0.term
            return Flt('float%d(%r)' % (size * 8, c0.term), cells, True)
        return Flt('float%d[%s]' % (size * 8, ' '.join(map(repr, cells))), cells, True)
    _, signed = INT_CODES[code]
    return cells_int(cells, signed)


def cells_int(cells, signed):
    size = len(cells)
    if all(isinstance(c, int) for c in cells):
        return int.from_bytes(bytes(cells), 'little', signed=signed)
    lo = -(1 << (8 * size - 1)) if signed else 0
    hi = (1 << (8 * size - (1 if signed else 0))) - 1
    c0 = cells[0]
    if isinstance(c0, Cell) and c0.kind == 'i' and all(
            isinstance(c, Cell) and c.kind == 'i' and c.term == c0.term and c.sig == k for k, c in enumerate(cells)):
        tl, th = S.path.interval(c0.term)
        if tl is not None and th is not None and lo <= tl and th <= hi:
            return c0.term
    return sym('%s%d[%s]' % ('i' if signed else 'u', size * 8, ' '.join(map(repr, cells))), lo, hi, tuple(cells))


def st_unpack(fmt, data):
    order_, codes = _fmt(fmt)
    data = unwrap(data)
    if not isinstance(data, AB):
        raise_('TypeError', "a bytes-like object is required, not '%s'" % class_of(data).name)
    need = sum(code_size(c) for c in codes)
    if len(data) != need:
        raise_(STRUCT_ERROR, 'unpack requires a buffer of %d bytes' % need)
    return _unpack(order_, codes, data, 0)


def _unpack(order_, codes, data, pos):
    out = []
    for c in codes:
        n = code_size(c)
        cells = data.cells[pos:pos + n]
        pos += n
        if c == 'x':
            continue
        if isinstance(c, tuple):
            out.append(AB(cells))
            continue
        out.append(unpack_one(c, cells if order_ == '<' else cells[::-1]))
    return tuple(out)


def st_unpack_from(fmt, data, offset=0):
    order_, codes = _fmt(fmt)
    data = unwrap(data)
    need = sum(code_size(c) for c in codes)
    offset = S.path.conc(unwrap(offset))
    if isinstance(offset, Lin):
        raise Unsupported('unknown offset')
    if offset < 0:
        if offset + len(data) < 0:
            raise_(STRUCT_ERROR, 'offset out of range')
        offset += len(data)
    if len(data) - offset < need:
        raise_(STRUCT_ERROR, 'unpack_from requires a buffer of at least %d bytes' % need)
    return _unpack(order_, codes, data, offset)


def st_iter_unpack(fmt, data):
    order_, codes = _fmt(fmt)
    data = unwrap(data)
    need = sum(code_size(c) for c in codes)
    if not need or len(data) % need:
        raise_(STRUCT_ERROR, 'iterative unpacking requires a buffer of a multiple of %d bytes' % need)
    return _gen((_unpack(order_, codes, data, k) for k in range(0, len(data), need)), 'iterator')


def st_pack_into(fmt, buf, offset, *args):
    new = st_pack(fmt, *args)
    offset = S.path.conc(unwrap(offset))
    if isinstance(offset, Lin):
        raise Unsupported('unknown offset')
    if not isinstance(buf, Buf):
        raise_('TypeError', "a read-write bytes-like object is required, not '%s'" % class_of(buf).name)
    old = buf.ab
    if offset < 0:
        offset += len(old)
    if offset < 0 or len(old) - offset < len(new):
        raise_(STRUCT_ERROR, 'pack_into requires a buffer of at least %d bytes' % (offset + len(new)))
    buf.set(old[:offset] + new + old[offset + len(new):])


def st_calcsize(fmt):
    _, codes = _fmt(fmt)
    return sum(code_size(c) for c in codes)


class StructModel(object):
    def __init__(self, fmt):
        self.fmt = fmt
        self.a_size = st_calcsize(fmt)
        self.a_format = fmt

    def m_pack(self, *a):
        return st_pack(self.fmt, *a)

    def m_unpack(self, d):
        return st_unpack(self.fmt, d)

    def m_unpack_from(self, d, offset=0):
        return st_unpack_from(self.fmt, d, offset)

    def m_iter_unpack(self, d):
        return st_iter_unpack(self.fmt, d)

    def m_pack_into(self, buf, offset, *a):
        st_pack_into(self.fmt, buf, offset, *a)


def lib_struct(world):
    return mod('struct', pack=st_pack, unpack=st_unpack, calcsize=st_calcsize, unpack_from=st_unpack_from, iter_unpack=st_iter_unpack, pack_into=st_pack_into,
               Struct=lambda f: HostObj(StructModel(f)), error=STRUCT_ERROR)


# ----------------------------------------------------------------------------- module helpers

def mod(name, **d):
    out = {}
    for k, v in d.items():
        if callable(v) and not isinstance(v, (PClass, NFunc, PFunc, HostObj)):
            v = NFunc(name + '.' + k, v)
        out[k] = v
    return PModule(name, out)


def source_lib(name, text):
    def factory(world):
        m = PModule(name, {}, '<lib %s>' % name)
        m.d['__name__'] = name
        m.d['__package__'] = name
        m.d['__file__'] = '<lib>'
        world.modules[name] = m
        pyai.run_module(m, text, '<lib %s>' % name)
        return m
    return factory


def mixed(name, text, world, **d):
    """A module partly modelled by source, partly here."""
    m = source_lib(name, text)(world)
    m.d.update(mod(name, **d).d)
    return m


RENEW = '''
class Mold(object):
    _cls_fields = ()
    _extra_slots = ()
    _cls_make_slots = True
    _cls_dependency = None
    _cls_namespace = None

    def __repr__(self):
        return "%s(%s)" % (self.__class__.__name__, ", ".join(repr(getattr(self, f)) for f in _fields(self.__class__)))

    def __hash__(self):
        return hash(repr(self))

    def __eq__(self, other):
        if self.__class__.__name__ == type(other).__name__:
            if isinstance(other, self.__class__) and _fields(self.__class__) == _fields(other.__class__):
                return all(getattr(self, f) == getattr(other, f) for f in _fields(self.__class__))
        return NotImplemented

    def __ne__(self, other):
        are_equal = self.__eq__(other)
        if are_equal is not NotImplemented:
            return not are_equal
        return NotImplemented

    def __iter__(self):
        return (getattr(self, f) for f in _fields(self.__class__))
'''


def _mold_fields(cls):
    """Constructor parameters, as renew derives its fields."""
    out = []
    for c in reversed(cls.mro):
        init = c.d.get('__init__')
        if isinstance(init, PFunc):
            out = [a for a in init.code.args[1:]]
            if init.code.vararg:
                out.append(init.code.vararg)
            if init.code.kwarg:
                out.append(init.code.kwarg)
    return tuple(out)


def lib_renew(world):
    m = source_lib('renew', RENEW)(world)
    m.d['_fields'] = NFunc('_fields', _mold_fields)
    return m


def lib_contextlib(world):
    def contextmanager(f):
        class CM(object):
            def __init__(self, gen):
                self.gen = gen

            def m___enter__(self):
                try:
                    return next(self.gen.it)
                except StopIteration:
                    raise_('RuntimeError', "generator didn't yield")

            def m___exit__(self, t, v, tb):
                if t is None:
                    try:
                        next(self.gen.it)
                    except StopIteration:
                        return False
                    raise_('RuntimeError', "generator didn't stop")
                if isinstance(v, PObj):
                    v = PyExc(v)
                    v.trace = trace()
                try:
                    self.gen.it.throw(v)
                except StopIteration:
                    return True
                except PyExc as e:
                    if e is v or e.obj is v.obj:
                        return False
                    raise
                raise_('RuntimeError', "generator didn't stop after throw()")

            def m___call__(self, g):
                """Use as a decorator."""
                def run(*a, **k):
                    cm = CM(call(f, *self.args))
                    cm.m___enter__()
                    try:
                        r = call(g, a, k)
                    except PyExc as e:
                        if cm.m___exit__(e.obj.cls, e, None):
                            return None
                        raise
                    cm.m___exit__(None, None, None)
                    return r
                return NFunc(getattr(g, 'name', 'decorated'), run, True)

        def make(*a, **k):
            cm = CM(call(f, a, k))
            cm.args = (a, k)
            return HostObj(cm)

        wrapper = NFunc(getattr(f, 'name', 'contextmanager'), make, True)
        return wrapper
    return mixed('contextlib', pystd.CONTEXTLIB, world, contextmanager=contextmanager)


class Deque(object):
    def __init__(self, it=(), maxlen=None):
        self.items = []
        self.a_maxlen = maxlen
        self.m_extend(it)

    def m_append(self, x):
        self.items.append(x)
        if self.a_maxlen is not None:
            del self.items[:max(0, len(self.items) - self.a_maxlen)]

    def m_appendleft(self, x):
        self.items.insert(0, x)
        if self.a_maxlen is not None:
            del self.items[self.a_maxlen:]

    def m_popleft(self):
        if not self.items:
            raise_('IndexError', 'pop from an empty deque')
        return self.items.pop(0)

    def m_pop(self):
        if not self.items:
            raise_('IndexError', 'pop from an empty deque')
        return self.items.pop()

    def m_extend(self, it):
        for x in list(iterate(it)):
            self.m_append(x)

    def m_extendleft(self, it):
        for x in list(iterate(it)):
            self.m_appendleft(x)

    def m_rotate(self, n=1):
        if self.items:
            n = known_int(n, 'rotate') % len(self.items)
            self.items[:] = self.items[-n:] + self.items[:-n]

    def m_clear(self):
        self.items.clear()

    def m_copy(self):
        return HostObj(Deque(self.items, self.a_maxlen))

    def m_reverse(self):
        self.items.reverse()

    def m_remove(self, x):
        call(get_attr(self.items, 'remove'), (x,))

    def m_index(self, x):
        return call(get_attr(self.items, 'index'), (x,))

    def m_count(self, x):
        return call(get_attr(self.items, 'count'), (x,))

    def m_insert(self, i, x):
        l_insert(self.items, i, x)

    def m___len__(self):
        return len(self.items)

    def m___iter__(self):
        return iter(list(self.items))

    def m___getitem__(self, i):
        return get_item(self.items, i)

    def m___setitem__(self, i, x):
        set_item(self.items, i, x)

    def m___contains__(self, x):
        return pyai.contains(self.items, x)

    def m___repr__(self):
        return binop('+', binop('+', 'deque(', repr_(self.items)), ')')


def lib_collections(world):
    def namedtuple(name, fields, *, rename=False, defaults=None, module=None):
        if isinstance(fields, str):
            fields = fields.replace(',', ' ').split()
        fields = [unwrap(f) for f in iterate(fields)]
        dflt = list(iterate(defaults)) if defaults is not None else []
        dflt = dict(zip(fields[len(fields) - len(dflt):], dflt))

        def new(cls, *a, **k):
            vals = list(a)
            if len(vals) > len(fields):
                raise_('TypeError', '__new__() takes %d positional arguments' % (len(fields) + 1))
            for f in fields[len(vals):]:
                if f not in k and f in dflt:
                    vals.append(dflt[f])
                    continue
                if f not in k:
                    raise_('TypeError', "__new__() missing required argument: '%s'" % f)
                vals.append(k.pop(f))
            if k:
                raise_('TypeError', '__new__() got an unexpected keyword argument')
            return PObj(cls, tuple(vals))

        d = {'__new__': PStatic(NFunc('__new__', new)), '_fields': tuple(fields), '__module__': 'collections'}
        for i, f in enumerate(fields):
            d[f] = PProperty(NFunc(f, lambda o, i=i: o.val[i]))
        d['__repr__'] = NFunc('__repr__', lambda o: mktext(
            [o.cls.name, '('] + pyai._sep([mktext([f, '=', repr_(v)]) for f, v in zip(fields, o.val)]) + [')']), True)
        d['_replace'] = NFunc('_replace', lambda o, **k: PObj(o.cls, tuple(
            k.get(f, v) for f, v in zip(fields, o.val))), True)
        d['_make'] = PClassM(NFunc('_make', lambda cls, it: call(cls, tuple(iterate(it)))))
        d['_field_defaults'] = dflt
        d['__match_args__'] = tuple(fields)
        d['__getnewargs__'] = NFunc('__getnewargs__', lambda o: tuple(o.val), True)
        d['_asdict'] = NFunc('_asdict', lambda o: dict(zip(fields, o.val)), True)
        return new_class(TYPE, name, (BC['tuple'],), d)

    def defaultdict(factory=None, *a, **k):
        d = DDict(c_dict(*a, **k))
        d.factory = factory
        return d

    def counter(it=()):
        d = pyai.CounterD()
        d.factory = NFunc('zero', lambda: 0)
        if isinstance(it, dict):
            d.update(it)
        else:
            for x in iterate(it):
                dict_set(d, x, binop('+', d_get(d, x, 0), 1))
        return d

    m = mixed('collections', pystd.COLLECTIONS, world, namedtuple=namedtuple, defaultdict=defaultdict,
              OrderedDict=BC['dict'], Counter=counter, deque=lambda it=(), maxlen=None: HostObj(Deque(it, maxlen)))
    m.d['abc'] = world.import_module('collections.abc')
    return m


ARGPARSE = '''
class ArgumentTypeError(Exception):
    pass

class ArgumentError(Exception):
    pass

class Namespace(object):
    pass

SUPPRESS = "==SUPPRESS=="
REMAINDER = "..."

class ArgumentParser(object):
    def __init__(self, *a, **k):
        self.prog = a[0] if a else k.get("prog")
        self._actions = []

    def add_argument(self, *names, **k):
        self._actions.append((names, k))

    def add_argument_group(self, *a, **k):
        return self

    def add_mutually_exclusive_group(self, *a, **k):
        return self

    def print_help(self, *a):
        pass

    def print_usage(self, *a):
        pass

    def format_usage(self):
        return ""

    def format_help(self):
        return ""

    def exit(self, status=0, message=None):
        import sys
        sys.exit(status)

    def error(self, message):
        import sys
        sys.stderr.write("%s: error: %s" % (self.prog, message))
        sys.exit(2)

    def _dest(self, names, k):
        if "dest" in k:
            return k["dest"]
        for n in names:
            if n.startswith("--"):
                return n[2:].replace("-", "_")
        return names[0].lstrip("-").replace("-", "_")

    def _convert(self, k, text, names):
        f = k.get("type")
        if f is None:
            return text
        try:
            return f(text)
        except (ValueError, TypeError, ArgumentTypeError) as e:
            self.error("argument %s: %s" % ("/".join(names), e))

    def parse_args(self, args):
        ns = Namespace()
        args = list(args)
        flags = {}
        positional = []
        seen = set()
        for names, k in self._actions:
            if names and names[0].startswith("-"):
                for n in names:
                    flags[n] = (names, k)
            else:
                positional.append((names, k))
            if k.get("action") in ("version", "help"):
                continue
            default = k.get("default")
            if k.get("action") == "store_true":
                default = False
            setattr(ns, self._dest(names, k), default)
        rest = []
        i = 0
        while i < len(args):
            a = args[i]
            i += 1
            if a in flags:
                names, k = flags[a]
                seen.add(names[0])
                action = k.get("action", "store")
                dest = self._dest(names, k)
                if action == "store_true":
                    setattr(ns, dest, True)
                elif action == "version":
                    self.exit()
                else:
                    if i >= len(args):
                        self.error("argument %s: expected one argument" % "/".join(names))
                    v = self._convert(k, args[i], names)
                    i += 1
                    if action == "append":
                        cur = list(getattr(ns, dest) or [])
                        cur.append(v)
                        setattr(ns, dest, cur)
                    else:
                        setattr(ns, dest, v)
            elif a.startswith("-"):
                self.error("unrecognized arguments: %s" % a)
            else:
                rest.append(a)
        for names, k in positional:
            nargs = k.get("nargs")
            if nargs in ("*", "+"):
                if nargs == "+" and not rest:
                    self.error("too few arguments")
                setattr(ns, self._dest(names, k), [self._convert(k, x, names) for x in rest])
                rest = []
            else:
                if not rest:
                    if nargs != "?":
                        self.error("too few arguments")
                else:
                    setattr(ns, self._dest(names, k), self._convert(k, rest.pop(0), names))
        if rest:
            self.error("unrecognized arguments: %s" % " ".join(rest))
        return ns
'''


# ----------------------------------------------------------------------------- environment

class Stream(object):
    def __init__(self, name):
        self.name = name
        self.chunks = []

    def m_write(self, s):
        if not is_text(unwrap(s)):
            raise_('TypeError', 'write() argument must be str, not %s' % class_of(s).name)
        self.chunks.append(s)
        return b_len(s)

    def m_flush(self):
        pass


def lib_sys(world):
    def sys_exit(code=None):
        raise_('SystemExit', code)
    ver = PObj(PClass('version_info', (BC['tuple'],), {
        'major': PProperty(NFunc('major', lambda o: 3)), 'minor': PProperty(NFunc('minor', lambda o: 12))}, TYPE, None,
        'sys'), (3, 12, 3, 'final', 0))
    world.stdout, world.stderr = Stream('stdout'), Stream('stderr')
    m = mod('sys', exit=sys_exit, getrecursionlimit=lambda: 1000)
    m.d.update(version='3.12.3 (model)', version_info=ver, stdout=HostObj(world.stdout),
               stderr=HostObj(world.stderr), argv=['prophyc'], byteorder='little', maxsize=2 ** 63 - 1, path=[],
               modules={})
    return m


class VFile(object):
    """An open file. `stream`: opened by codecs.open() with an encoding."""

    def __init__(self, world, path, name, mode, encoding, errors, newline, stream):
        self.world, self.path, self.a_name, self.a_mode = world, path, name, mode
        self.a_encoding, self.errors, self.newline, self.stream = encoding or 'utf-8', errors or 'strict', newline, stream
        self.binary = 'b' in mode and not stream
        self.a_closed = False
        self.data, self.pos = None, 0

    def m___enter__(self):
        return self.handle

    def m___exit__(self, *a):
        self.a_closed = True
        return False

    def m_close(self):
        self.a_closed = True

    def m_flush(self):
        self.check()

    def m_readable(self):
        return 'r' in self.a_mode or '+' in self.a_mode

    def m_writable(self):
        return not self.a_mode.startswith('r') or '+' in self.a_mode

    def check(self):
        if self.a_closed:
            raise_('ValueError', 'I/O operation on closed file.')

    def load(self):
        self.check()
        if not self.m_readable():
            raise_('UnsupportedOperation' if 'UnsupportedOperation' in BC else 'OSError', 'not readable')
        if self.data is None:
            t = self.world.read_raw(self.path)
            if isinstance(t, list):
                raise Unsupported('lines of unknown text')
            if self.binary:
                self.data = t if isinstance(t, AB) else str_encode(t)
            else:
                if isinstance(t, AB):
                    t = bytes_decode(t, self.a_encoding, self.errors)
                elif isinstance(t, str) and self.a_encoding.lower().replace('_', '-') not in ('utf-8', 'utf8'):
                    t = bytes_decode(str_encode(t), self.a_encoding, self.errors)
                if isinstance(t, str) and self.newline is None and not self.stream:
                    t = t.replace('\r\n', '\n').replace('\r', '\n')
                self.data = t

    def rest(self, n=None):
        self.load()
        if self.pos == 0 and n is None:
            self.pos = None
            return self.data
        if self.pos is None:
            return AB(()) if self.binary else ''
        if not isinstance(self.data, (str, AB)):
            raise Unsupported('reading a part of unknown text')
        end = len(self.data) if n is None else min(len(self.data), self.pos + n)
        r = self.data[self.pos:end]
        self.pos = end
        return r

    def m_read(self, n=None, *a):
        return self.rest(None if n is None or n < 0 else n)

    def m_readlines(self, *a):
        t = self.world.files_of().get(self.path)
        if isinstance(t, list):
            return list(t)
        t = self.rest()
        if isinstance(t, AB):
            if not t.concrete():
                raise Unsupported('lines of unknown bytes')
            return [AB.of(x, where()) for x in io.BytesIO(t.host()).readlines()]
        if isinstance(t, str):
            return t.splitlines(True) if self.stream else list(io.StringIO(t, newline=self.newline))
        raise Unsupported('lines of unknown text')

    def m_readline(self, *a):
        self.load()
        if not isinstance(self.data, str) or self.pos is None:
            raise Unsupported('reading a line')
        i = self.data.find('\n', self.pos)
        return self.rest((len(self.data) if i < 0 else i + 1) - self.pos)

    def m___iter__(self):
        return iter(self.m_readlines())

    def m_seek(self, n, whence=0):
        self.check()
        if n or whence:
            raise Unsupported('seek')
        self.pos = 0
        return 0

    def m_write(self, s):
        self.check()
        if not self.m_writable():
            raise_('OSError', 'not writable')
        v = unwrap(s)
        if self.binary:
            v = pyai.bytes_like(v)
            if v is None:
                raise_('TypeError', "a bytes-like object is required, not '%s'" % class_of(s).name)
            t = bytes_decode(v, 'utf-8')
        elif not is_text(v):
            raise_('TypeError', 'write() argument must be str, not %s' % class_of(s).name)
        else:
            t = s
        self.world.written[self.path] = mktext((self.world.written.get(self.path, ''), t))
        return b_len(s)

    def m_writelines(self, it):
        for s in iterate(it):
            self.m_write(s)


class Machine(object):
    """Abstract file system of the analysed tool: a finite map from absolute path to contents."""

    def __init__(self, files=None, dirs=('/', '/w', '/out'), cwd='/w'):
        self.files = dict(files or {})
        self.dirs = set(dirs)
        for f in self.files:
            d = posixpath.dirname(f)
            while d not in self.dirs:
                self.dirs.add(d)
                d = posixpath.dirname(d)
        self.cwd = cwd
        self.written = {}
        self.opened = []

    def abs(self, p):
        return posixpath.normpath(posixpath.join(self.cwd, p))

    def read(self, p):
        return self.files[p]


def attach_fs(world, machine):
    world.machine = machine
    machine_written = machine.written

    def open_file(name, mode='r', encoding=None, errors=None, newline=None, stream=False):
        if isinstance(name, PObj) and name.cls.lookup('__fspath__') is not MISSING:
            name = call(get_attr(name, '__fspath__'))
        name, mode = unwrap(name), unwrap(mode)
        if not isinstance(name, str):
            if is_text(name):
                raise Unsupported('open of an unknown path')
            raise_('TypeError', 'expected str, bytes or os.PathLike object, not %s' % class_of(name).name)
        p = machine.abs(name)
        if not re.match('[rwax][bt+U]*$', mode):
            raise_('ValueError', 'invalid mode: %r' % mode)
        if 'b' in mode and not stream and (encoding is not None or newline is not None):
            raise_('ValueError', "binary mode doesn't take an encoding or newline argument")
        f = VFile(world, p, name, mode, encoding, errors, newline, stream)
        if 'r' in mode:
            if p in machine.dirs:
                raise_('IsADirectoryError', 21, 'Is a directory', name)
            if p not in machine.files and p not in machine_written:
                raise_('FileNotFoundError', 2, 'No such file or directory', name)
            machine.opened.append(p)
        else:
            if posixpath.dirname(p) not in machine.dirs:
                raise_('FileNotFoundError', 2, 'No such file or directory', name)
            if p in machine.dirs:
                raise_('IsADirectoryError', 21, 'Is a directory', name)
            if 'x' in mode and (p in machine.files or p in machine_written):
                raise_('FileExistsError', 17, 'File exists', name)
            if 'a' in mode and p in machine.files:
                raise Unsupported('appending to a given file')
            if 'a' not in mode or p not in machine_written:
                machine_written[p] = ''
        h = HostObj(f)
        f.handle = h
        return h

    def read_raw(p):
        t = machine.files[p] if p in machine.files else machine_written[p]
        if isinstance(t, BadText):
            t = b'\xff'
        return AB.of(t, where()) if isinstance(t, bytes) else t

    def read(p):
        t = read_raw(p)
        return bytes_decode(t, 'utf-8') if isinstance(t, AB) else t

    world.files_of = lambda: machine.files
    world.read_raw = read_raw
    world.open_file = open_file
    world.read = read
    world.written = machine_written


class BadText(object):
    """Contents that are not valid UTF-8."""


def lib_io(world):
    return mixed('io', pystd.IO, world, open=b_open)


def lib_codecs(world):
    def codecs_open(filename, mode='r', encoding=None, errors='strict', buffering=-1):
        return world.open_file(filename, mode, encoding, errors, None, encoding is not None)

    m = mod('codecs', open=codecs_open, encode=lambda o, *a: call(get_attr(o, 'encode'), a),
            decode=lambda o, *a: call(get_attr(o, 'decode'), a))
    for n in ('BOM_UTF8', 'BOM_UTF16_LE', 'BOM_UTF16_BE', 'BOM_UTF16', 'BOM_LE', 'BOM_BE'):
        m.d[n] = AB.of(getattr(codecs, n))
    return m


def lib_importlib(world):
    def import_module(name, package=None):
        name = unwrap(name)
        if not isinstance(name, str):
            raise Unsupported('import of an unknown module')
        if name.startswith('.'):
            package = unwrap(package)
            if not package:
                raise_('TypeError', "the 'package' argument is required to perform a relative import for %r" % name)
            rest = name.lstrip('.')
            up = len(name) - len(rest) - 1
            name = '.'.join(package.split('.')[:len(package.split('.')) - up] + ([rest] if rest else []))
        return world.import_module(name)
    return mod('importlib', import_module=import_module)


# -- what a run may see besides its inputs: unknown values

def outside(name):
    return sym('outside:' + name, 0, None)


def outside_text(name):
    return AS([Hole('outside', name)])


def environ(k, d):
    if S.path.flag(('environ', repr(k)), 'environment variable %r set' % (k,)):
        return outside_text('os.environ[%r]' % (k,))
    return d


class Environ(object):
    def m_get(self, k, d=None):
        return environ(k, d)

    def m___getitem__(self, k):
        r = environ(k, None)
        if r is None:
            raise_('KeyError', k)
        return r

    def m___contains__(self, k):
        return environ(k, None) is not None


class Outside(object):
    def __init__(self, name):
        self.name = name

    def __getattr__(self, a):
        if a.startswith('m_') and a[2:] in ('strftime', 'isoformat', 'ctime', 'timestamp', 'date', 'time', 'hexdigest', 'choice'):
            return lambda *x, **k: outside_text(self.name)
        if a.startswith('m_') and not a.startswith('m___'):
            return lambda *x, **k: outside(self.name)
        raise AttributeError(a)

    def m___str__(self):
        return outside_text(self.name)


def lib_time(world):
    return mod('time', time=lambda: outside('time'), clock=lambda: outside('time'), perf_counter=lambda: outside('time'),
               monotonic=lambda: outside('time'), strftime=lambda *a: outside_text('time'),
               ctime=lambda *a: outside_text('time'), asctime=lambda *a: outside_text('time'),
               localtime=lambda *a: HostObj(Outside('time')), gmtime=lambda *a: HostObj(Outside('time')),
               sleep=lambda *a: None)


def lib_datetime(world):
    m = mod('datetime')
    for n in ('datetime', 'date'):
        m.d[n] = mod('datetime.' + n, now=lambda *a: HostObj(Outside('time')), utcnow=lambda: HostObj(Outside('time')),
                     today=lambda: HostObj(Outside('time')))
    return m


def lib_random(world):
    return mod('random', random=lambda: outside('random'), randint=lambda *a: outside('random'),
               getrandbits=lambda *a: outside('random'), seed=lambda *a: None)


def lib_uuid(world):
    return mod('uuid', uuid4=lambda: HostObj(Outside('uuid')), uuid1=lambda: HostObj(Outside('uuid')))


def lib_os(world):
    def remove(p):
        q = world.machine.abs(unwrap(p))
        if q not in world.machine.written:
            if q in world.machine.files:
                raise Unsupported('removing a given file')
            raise_('FileNotFoundError', 2, 'No such file or directory', p)
        del world.machine.written[q]

    def rename(p, q):
        t = world.machine.written.get(world.machine.abs(unwrap(p)))
        remove(p)
        world.machine.written[world.machine.abs(unwrap(q))] = t

    m = mod('os', remove=remove, unlink=remove, rename=rename, replace=rename, fspath=lambda p: call(
        get_attr(p, '__fspath__')) if isinstance(p, PObj) else p, getcwd=lambda: world.machine.cwd, makedirs=lambda p, *a, **k: world.machine.dirs.add(
        world.machine.abs(p)), listdir=lambda p='.': pyai.shuffled(sorted(
        posixpath.basename(f) for f in world.machine.files if posixpath.dirname(f) == world.machine.abs(p))),
        getpid=lambda: outside('os.getpid()'), urandom=lambda n: outside_text('os.urandom()'),
        getlogin=lambda: outside_text('os.getlogin()'), getenv=lambda k, d=None: environ(k, d))
    m.d['path'] = world.import_module('os.path') if False else lib_os_path(world)
    m.d['environ'] = HostObj(Environ())
    m.d['sep'] = '/'
    m.d['linesep'] = '\n'
    world.modules['os.path'] = m.d['path']
    return m


def _ptext(name, f):
    def g(*a):
        a = [unwrap(x) for x in a]
        for x in a:
            if not is_text(x):
                raise_('TypeError', 'expected str, bytes or os.PathLike object, not %s' % class_of(x).name)
        if all(isinstance(x, str) for x in a):
            return host_call(f, *a)
        if name in ('join',):
            return mktext([a[0], '/', a[1]])
        if name in ('exists', 'isfile', 'isdir'):
            return S.path.flag((name, a[0]), '%s(%r)' % (name, a[0]))
        return AS([Hole(name, tuple(a))])
    return g


def lib_os_path(world):
    def mach():
        return world.machine

    def isdir(p):
        return mach().abs(p) in mach().dirs if p else False

    def isfile(p):
        return mach().abs(p) in mach().files or mach().abs(p) in mach().written if p else False

    fs = {n: _ptext(n, getattr(posixpath, n)) for n in
          ('join', 'dirname', 'basename', 'splitext', 'normpath', 'split', 'isabs')}
    fs['commonprefix'] = lambda xs: posixpath.commonprefix([x if isinstance(x, str) else _unsup('commonprefix') for x in iterate(xs)])
    fs['commonpath'] = lambda xs: host_call(posixpath.commonpath, [x if isinstance(x, str) else _unsup('commonpath') for x in iterate(xs)])
    fs['expanduser'] = fs['expandvars'] = fs['normcase'] = lambda p: p
    fs['abspath'] = _ptext('abspath', lambda p: mach().abs(p))
    fs['realpath'] = fs['abspath']
    fs['relpath'] = _ptext('relpath', lambda p, s=None: posixpath.relpath(mach().abs(p), mach().abs(s or '.')))
    fs['exists'] = _ptext('exists', lambda p: isdir(p) or isfile(p))
    fs['isdir'] = _ptext('isdir', isdir)
    fs['isfile'] = _ptext('isfile', isfile)
    m = mod('os.path', **fs)
    m.d['sep'] = '/'
    return m


def lib_re(world):
    class Match(object):
        def __init__(self, m):
            self.m = m

        def m_group(self, *a):
            return host_call(self.m.group, *a)

        def m_groups(self, *a):
            return self.m.groups(*a)

        def m_start(self, *a):
            return self.m.start(*a)

        def m_end(self, *a):
            return self.m.end(*a)

        def m_span(self, *a):
            return self.m.span(*a)

        def m_groupdict(self, *a):
            return self.m.groupdict(*a)

        def m_expand(self, t):
            return host_call(self.m.expand, t)

        def m___getitem__(self, i):
            return host_call(self.m.group, i)

        def a_string(self):
            return self.m.string

        def a_pos(self):
            return self.m.pos

        def a_endpos(self):
            return self.m.endpos

        def a_lastgroup(self):
            return self.m.lastgroup

        def a_lastindex(self):
            return self.m.lastindex

        def a_re(self):
            return HostObj(Rx(self.m.re.pattern, self.m.re.flags))

    def wrap(m):
        return HostObj(Match(m)) if m is not None else None

    def need(s):
        if not isinstance(s, str):
            raise Unsupported('regular expression over unknown text')
        return s

    class SomeMatch(object):
        """A match of text with unknown numbers: only its existence is known."""

    def numbers(neg):
        out = ['0', '7', '42', '100', '65536', '1234567890', '98765432101234567']
        return ['-' + x for x in out[1:]] if neg else out

    class SomePart(object):
        """A match of a part of such text."""

        def __init__(self, text):
            self.text = text

        def m_group(self, *a):
            if a not in ((), (0,)):
                raise Unsupported('regular expression over unknown text')
            return self.text

        def m___getitem__(self, i):
            return self.m_group(i)

    def unknown(f, s):
        """Does a pattern match text whose unknown parts are decimal numbers?"""
        if not isinstance(s, AS) or any(isinstance(x, Hole) and x.fmt != 'd' for x in s.pieces):
            raise Unsupported('regular expression over unknown text')
        signs = [S.path.cmp('<', x.term, 0) if isinstance(x, Hole) else None for x in s.pieces]
        seen = []
        for k in range(7):
            r = f(''.join(x if g is None else numbers(g)[k % len(numbers(g))] for x, g in zip(s.pieces, signs)))
            r = r if isinstance(r, list) else r is not None
            if r not in seen:
                seen.append(r)
        if len(seen) > 1:
            raise Unsupported('regular expression over unknown text')
        r = seen[0]
        return r if isinstance(r, list) else HostObj(SomeMatch()) if r else None

    class Scan(object):
        def __init__(self, s):
            self.s = s

        def m_match(self):
            return wrap(self.s.match())

        def m_search(self):
            return wrap(self.s.search())

    class Rx(object):
        def __init__(self, p, flags=0):
            self.r = host_call(re.compile, p, flags)
            self.a_pattern = p

        def m_match(self, s, *a):
            if not isinstance(s, str) and not a:
                return unknown(self.r.match, s)
            return wrap(self.r.match(need(s), *a))

        def m_search(self, s, *a):
            if not isinstance(s, str) and not a:
                return unknown(self.r.search, s)
            return wrap(self.r.search(need(s), *a))

        def m_fullmatch(self, s, *a):
            if not isinstance(s, str) and not a:
                return unknown(self.r.fullmatch, s)
            return wrap(self.r.fullmatch(need(s), *a))

        def m_findall(self, s, *a):
            if not isinstance(s, str) and not a:
                return unknown(self.r.findall, s)
            return self.r.findall(need(s), *a)

        def m_finditer(self, s, *a):
            if not isinstance(s, str) and not a:
                return GenObj(iter([HostObj(SomePart(x)) for x in
                                    unknown(lambda t: [m.group() for m in self.r.finditer(t)], s)]))
            return GenObj(iter([wrap(m) for m in self.r.finditer(need(s), *a)]))

        def m_scanner(self, s, *a):
            return HostObj(Scan(self.r.scanner(need(s), *a)))

        def m_split(self, s, maxsplit=0):
            return self.r.split(need(s), maxsplit)

        def m_subn(self, repl, s, count=0):
            n = len(list(self.r.finditer(need(s))))
            return self.m_sub(repl, s, count), min(n, count) if count else n

        def a_flags(self):
            return int(self.r.flags)

        def a_groups(self):
            return self.r.groups

        def a_groupindex(self):
            return dict(self.r.groupindex)

        def m_sub(self, repl, s, count=0):
            if isinstance(repl, str):
                return self.r.sub(repl, need(s), count)
            return self.r.sub(lambda m: call(repl, (wrap(m),)), need(s), count)

    d = {'compile': lambda p, flags=0: p if isinstance(p, HostObj) else HostObj(Rx(p, flags)),
         'escape': lambda t: re.escape(need(t)), 'purge': lambda: None}
    for n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split'):
        d[n] = lambda p, s, *a, n=n, flags=0, maxsplit=0: getattr(rx(p, flags or (
            a[-1] if a and (n != 'split' or len(a) > 1) else 0)), 'm_' + n)(
                s, *([maxsplit or (a[0] if a else 0)] if n == 'split' else []))
    d['sub'] = lambda p, r, s, count=0, flags=0: rx(p, flags).m_sub(r, s, count)
    d['subn'] = lambda p, r, s, count=0, flags=0: rx(p, flags).m_subn(r, s, count)

    def rx(p, flags=0):
        return p.o if isinstance(p, HostObj) else Rx(p, flags)
    m = mod('re', **d)
    for n in ('VERBOSE', 'MULTILINE', 'DOTALL', 'IGNORECASE', 'ASCII', 'UNICODE', 'X', 'M', 'S', 'I', 'A', 'U'):
        m.d[n] = int(getattr(re, n))
    return m


# ----------------------------------------------------------------------------- xml

class Elem(object):
    """Abstract XML element: concrete tag, attribute map with abstract values, children."""

    def __init__(self, tag, attrib=None, children=(), text=None, tail=None):
        self.tag, self.attrib, self.children, self.text = tag, dict(attrib or {}), list(children), text
        self.tail = tail
        self.h = HostObj(self)

    @classmethod
    def of(cls, e):
        return cls(e.tag, e.attrib, [cls.of(c) for c in e], e.text, e.tail)

    def __repr__(self):
        return '<Element %s>' % self.tag

    def a_tag(self):
        return self.tag

    def a_attrib(self):
        return self.attrib

    def a_text(self):
        return self.text

    def m_get(self, name, default=None):
        return d_get(self.attrib, name, default)

    def m_find(self, path):
        for e in self._find(path):
            return e.h
        return None

    def m_findall(self, path):
        return [e.h for e in self._find(path)]

    def m_iterfind(self, path):
        return GenObj(iter([e.h for e in self._find(path)]))

    def m_iter(self, tag=None):
        return GenObj(iter([e.h for e in self._walk() if tag in (None, '*') or e.tag == tag]))

    def m_findtext(self, path, default=None):
        for e in self._find(path):
            return e.text if e.text is not None else ''
        return default

    def m_itertext(self):
        out = []
        for e in self._walk():
            out += [t for t in (e.text, e.tail if e is not self else None) if t]
        return GenObj(iter(out))

    def m_set(self, name, value):
        self.attrib[name] = value

    def m___iter__(self):
        return iter([c.h for c in self.children])

    def m___len__(self):
        return len(self.children)

    def m___getitem__(self, i):
        return get_item([c.h for c in self.children], i)

    def m_keys(self):
        return list(self.attrib)

    def m_items(self):
        return list(self.attrib.items())

    def m_getroot(self):
        return self.h

    def _walk(self):
        yield self
        for c in self.children:
            for e in c._walk():
                yield e

    def _find(self, path):
        if not isinstance(path, str):
            raise Unsupported('unknown xpath')
        cur = [self]
        p = path
        deep = False
        if p.startswith('.//'):
            p, deep = p[3:], True
        elif p.startswith('./'):
            p = p[2:]
        elif p.startswith('//'):
            p, deep = p[2:], True
        for step in p.split('/'):
            m = re.match(r"([\w.*{}:-]+)(?:\[@([\w.:-]+)(?:='([^']*)')?\])?$", step)
            if not m:
                raise Unsupported('xpath %r' % path)
            tag, att, val = m.groups()
            nxt = []
            for c in cur:
                for e in (list(c._walk())[1:] if deep else c.children):
                    if tag != '*' and e.tag != tag:
                        continue
                    if att is not None and (att not in e.attrib or val is not None and e.attrib[att] != val):
                        continue
                    nxt.append(e)
            cur, deep = nxt, False
        return cur


def lib_etree(world):
    import xml.etree.ElementTree as ET
    perr = PClass('ParseError', (BC['SyntaxError'],), {}, TYPE, None, 'xml.etree.ElementTree')
    perr.has_dict = True

    def fromstring(text, *a):
        t = unwrap(text)
        if isinstance(t, HostObj) and isinstance(t.o, XmlText):
            return t.o.root.h
        if isinstance(t, AB):
            t = t.host()
        if isinstance(t, AS):
            raise Unsupported('xml parse of unknown text')
        try:
            return Elem.of(ET.fromstring(t)).h
        except ET.ParseError as e:
            raise_(perr, str(e))
        except (LookupError, ValueError, TypeError) as e:
            raise_(BC[type(e).__name__], str(e))

    def parse(source, *a):
        source = unwrap(source)
        if isinstance(source, (str, PObj)):
            source = world.open_file(source, 'rb')
        return fromstring(call(get_attr(source, 'read')))

    m = mod('xml.etree.ElementTree', fromstring=fromstring, XML=fromstring, parse=parse,
            iselement=lambda x: isinstance(x, HostObj) and isinstance(x.o, Elem))
    m.d['ParseError'] = perr
    return m


class XmlText(object):
    """File contents known only as an abstract element tree."""
    _pclass = BC['str']

    def __init__(self, root):
        self.root = root

    def m_encode(self, *a):
        return HostObj(self)


def lib_platform(world):
    return mod('platform', python_implementation=lambda: 'CPython', system=lambda: 'Linux')


class Opaque(object):
    """Library object none of whose behaviour is modelled."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


def default_libs():
    from . import plymodel
    libs = {
        'struct': lib_struct, 'renew': lib_renew, 'functools': source_lib('functools', pystd.FUNCTOOLS),
        'itertools': source_lib('itertools', pystd.ITERTOOLS), 'contextlib': lib_contextlib,
        'collections': lib_collections, 'argparse': source_lib('argparse', ARGPARSE), 'sys': lib_sys,
        'codecs': lib_codecs, 'importlib': lib_importlib, 'io': lib_io, 'os': lib_os, 're': lib_re,
        'xml': lambda w: mod('xml'), 'xml.etree': lambda w: mod('xml.etree'), 'xml.etree.ElementTree': lib_etree,
        'xml.etree.cElementTree': lib_etree, 'platform': lib_platform,
        'ply': lambda w: mod('ply'), 'ply.lex': plymodel.lib_lex, 'ply.yacc': plymodel.lib_yacc,
        'operator': lib_operator, 'copy': lib_copy, 'string': lib_string,
        'keyword': lib_keyword, 'math': lib_math, '__future__': lambda w: PModule('__future__', {n: None for n in (
            'print_function', 'division', 'absolute_import', 'unicode_literals')}),
        'warnings': lambda w: mod(
            'warnings', warn=lambda *a, **k: None), 'textwrap': lib_textwrap,
    }
    for n, t in (('abc', 'ABC'), ('collections.abc', 'COLLECTIONS_ABC'), ('types', 'TYPES'), ('typing', 'TYPING'), ('enum', 'ENUM'),
                 ('dataclasses', 'DATACLASSES'), ('bisect', 'BISECT'), ('heapq', 'HEAPQ'), ('pathlib', 'PATHLIB'),
                 ('logging', 'LOGGING'), ('numbers', 'NUMBERS'), ('graphlib', 'GRAPHLIB'), ('weakref', 'WEAKREF'),
                 ('binascii', 'BINASCII'), ('inspect', 'INSPECT')):
        libs[n] = source_lib(n, getattr(pystd, t))
    libs.update({
        'time': lib_time, 'datetime': lib_datetime, 'random': lib_random, 'uuid': lib_uuid,
        'shlex': lib_shlex, 'fnmatch': lib_fnmatch,
        'getpass': lambda w: mod('getpass', getuser=lambda: outside_text('user')),
        'socket': lambda w: mod('socket', gethostname=lambda: outside_text('host')),
    })
    return {k: v for k, v in libs.items() if v}


def lib_keyword(world):
    import keyword
    return mod('keyword', kwlist=list(keyword.kwlist), iskeyword=keyword.iskeyword)


def lib_textwrap(world):
    import textwrap
    return mixed('textwrap', pystd.TEXTWRAP, world, dedent=known(textwrap.dedent), wrap=known(textwrap.wrap),
                 fill=known(textwrap.fill), shorten=known(textwrap.shorten))


def lib_shlex(world):
    import shlex
    return mod('shlex', split=known(shlex.split), quote=known(shlex.quote))


def lib_fnmatch(world):
    import fnmatch
    return mod('fnmatch', fnmatch=known(fnmatch.fnmatchcase), fnmatchcase=known(fnmatch.fnmatchcase),
               translate=known(fnmatch.translate))


def known(f):
    """Library function over text that has to be concrete."""
    def g(s, *a, **k):
        s = unwrap(s)
        if not isinstance(s, str):
            if not is_text(s):
                raise_('TypeError', 'expected string')
            raise Unsupported('%s over unknown text' % f.__name__)
        return f(s, *a, **k)
    return g


def lib_string(world):
    m = source_lib('string', pystd.STRING)(world)
    m.d.update(_consts('string').d)
    return m


def _consts(name):
    m = __import__(name)
    return PModule(name, {k: v for k, v in vars(m).items() if isinstance(v, str) and not k.startswith('_')})


def lib_operator(world):
    d = {n: (lambda op: lambda a, b: binop(op, a, b))(o) for n, o in
         [('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'),
          ('lshift', '<<'), ('rshift', '>>'), ('or_', '|'), ('and_', '&'), ('xor', '^'), ('pow', '**')]}
    d.update(neg=lambda a: pyai.unary('-', a), pos=lambda a: pyai.unary('+', a), inv=lambda a: pyai.unary('~', a),
             invert=lambda a: pyai.unary('~', a), not_=lambda a: not truth(a),
             eq=eq, ne=pyai.noteq, lt=lambda a, b: order('<', a, b), le=lambda a, b: order('<=', a, b),
             gt=lambda a, b: order('>', a, b), ge=lambda a, b: order('>=', a, b), truth=truth,
             getitem=get_item, contains=contains, is_=pyai.is_same,
             attrgetter=lambda *n: NFunc('attrgetter', lambda o: _dotted(o, n[0]) if len(n) == 1 else tuple(
                 _dotted(o, x) for x in n)),
             itemgetter=lambda *n: NFunc('itemgetter', lambda o: get_item(o, n[0]) if len(n) == 1 else tuple(
                 get_item(o, x) for x in n)),
             methodcaller=lambda n, *a, **k: NFunc('methodcaller', lambda o: call(get_attr(o, n), a, k)))
    return mod('operator', **d)


def _dotted(o, n):
    for p in n.split('.'):
        o = get_attr(o, p)
    return o


def lib_copy(world):
    def copy_(o):
        if isinstance(o, list):
            return list(o)
        if isinstance(o, dict):
            return d_copy(o)
        if isinstance(o, OSet):
            return OSet(list(o.d.values()), o.frozen)
        if isinstance(o, PObj):
            f = o.cls.lookup('__copy__')
            if isinstance(f, PFunc):
                return call(PMethod(f, o))
            n = PObj(o.cls, o.val)
            n.d = dict(o.d)
            return n
        return o

    def deepcopy(o, memo=None):
        memo = {} if memo is None else memo
        if id(o) in memo:
            return memo[id(o)]
        if isinstance(o, list):
            r = memo[id(o)] = []
            r.extend(deepcopy(x, memo) for x in o)
            return r
        if isinstance(o, tuple):
            return tuple(deepcopy(x, memo) for x in o)
        if isinstance(o, dict):
            r = memo[id(o)] = type(o)()
            if isinstance(o, DDict):
                r.factory = o.factory
            for k, v in o.items():
                r[deepcopy(k, memo)] = deepcopy(v, memo)
            return r
        if isinstance(o, OSet):
            return OSet([deepcopy(x, memo) for x in o.d.values()], o.frozen)
        if isinstance(o, PObj):
            f = o.cls.lookup('__deepcopy__')
            if isinstance(f, PFunc):
                return call(PMethod(f, o), (memo,))
            r = memo[id(o)] = PObj(o.cls, o.val)
            for k, v in o.d.items():
                r.d[k] = deepcopy(v, memo)
            return r
        return o
    return mod('copy', copy=copy_, deepcopy=lambda o, memo=None: deepcopy(o))


def lib_math(world):
    import math

    def ceil(x):
        if isinstance(x, (int, float)):
            return host_call(math.ceil, x)
        q = getattr(x, 'quot', None)
        if q:
            a, b = q
            return pyai.unary('-', binop('//', pyai.unary('-', a), b))
        raise Unsupported('ceil')

    def floor(x):
        if isinstance(x, (int, float)):
            return host_call(math.floor, x)
        q = getattr(x, 'quot', None)
        if q:
            return binop('//', q[0], q[1])
        raise Unsupported('floor')

    def gcd(a, b):
        return host_call(math.gcd, S.path.conc(a), S.path.conc(b))
    return mod('math', ceil=ceil, floor=floor, gcd=gcd, isnan=lambda x: isinstance(x, float) and x != x,
               isinf=lambda x: isinstance(x, float) and x in (float('inf'), float('-inf')),
               prod=lambda it, start=1: _prod(it, start), isfinite=lambda x: not isinstance(x, float) or math.isfinite(x),
               inf=math.inf, nan=math.nan, pi=math.pi, e=math.e,
               **{n: (lambda f: lambda *a: host_call(f, *[x if isinstance(x, (int, float)) else _unsup('math') for x in map(unwrap, a)]))(
                   getattr(math, n)) for n in ('log', 'log2', 'log10', 'sqrt', 'trunc', 'copysign', 'ldexp', 'exp', 'fmod', 'lcm', 'isqrt',
                                               'isclose', 'comb', 'factorial', 'fabs', 'pow', 'frexp', 'modf')})


def _prod(it, start):
    for x in iterate(it):
        start = binop('*', start, x)
    return start



def make_world(root, machine=None):
    w = pyai.World(root, default_libs())
    attach_fs(w, machine or Machine())
    pyai.CURRENT[0] = w
    return w
