"""Library modules modelled by source of their own, interpreted like the analysed code."""

FUNCTOOLS = '''
WRAPPER_ASSIGNMENTS = ('__module__', '__name__', '__qualname__', '__doc__')
WRAPPER_UPDATES = ('__dict__',)

def update_wrapper(f, wrapped, *_a, **_k):
    f.__name__ = getattr(wrapped, '__name__', None)
    f.__doc__ = getattr(wrapped, '__doc__', None)
    f.__wrapped__ = wrapped
    return f

def wraps(wrapped, *_a, **_k):
    def deco(f):
        return update_wrapper(f, wrapped)
    return deco

def reduce(f, it, *initial):
    it = iter(it)
    if initial:
        acc = initial[0]
    else:
        acc = next(it, _none)
        if acc is _none:
            raise TypeError("reduce() of empty iterable with no initial value")
    for x in it:
        acc = f(acc, x)
    return acc

_none = object()

class partial(object):
    def __init__(self, func, *args, **keywords):
        self.func, self.args, self.keywords = func, args, keywords

    def __call__(self, *b, **kk):
        d = dict(self.keywords)
        d.update(kk)
        return self.func(*(self.args + b), **d)

class partialmethod(object):
    def __init__(self, func, *args, **keywords):
        self.func, self.args, self.keywords = func, args, keywords

    def __get__(self, obj, cls=None):
        return partial(self.func.__get__(obj, cls), *self.args, **self.keywords)

def lru_cache(*a, **k):
    def deco(f):
        cache = {}
        def g(*args, **kw):
            key = (args, tuple(sorted(kw.items())))
            if key not in cache:
                cache[key] = f(*args, **kw)
            return cache[key]
        g.cache_clear = cache.clear
        return update_wrapper(g, f)
    if len(a) == 1 and callable(a[0]):
        return deco(a[0])
    return deco

def cache(f):
    return lru_cache(None)(f)

class cached_property(object):
    def __init__(self, func):
        self.func = func

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        d = obj.__dict__
        if self.name not in d:
            d[self.name] = self.func(obj)
        return d[self.name]

def total_ordering(c):
    has = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if n in vars(c)]
    if '__lt__' in has:
        d = {'__gt__': lambda a, b: not (a < b or a == b), '__le__': lambda a, b: a < b or a == b, '__ge__': lambda a, b: not a < b}
    elif '__le__' in has:
        d = {'__ge__': lambda a, b: not a <= b or a == b, '__lt__': lambda a, b: a <= b and not a == b, '__gt__': lambda a, b: not a <= b}
    elif '__gt__' in has:
        d = {'__lt__': lambda a, b: not (a > b or a == b), '__ge__': lambda a, b: a > b or a == b, '__le__': lambda a, b: not a > b}
    else:
        d = {'__le__': lambda a, b: not a >= b or a == b, '__gt__': lambda a, b: a >= b and not a == b, '__lt__': lambda a, b: not a >= b}
    for n in d:
        if n not in has:
            setattr(c, n, d[n])
    return c

def cmp_to_key(f):
    class K(object):
        def __init__(self, o):
            self.o = o
        def __lt__(self, other):
            return f(self.o, other.o) < 0
        def __gt__(self, other):
            return f(self.o, other.o) > 0
        def __eq__(self, other):
            return f(self.o, other.o) == 0
    return K

def singledispatch(func):
    registry = {object: func}

    def dispatch(cls):
        for c in cls.__mro__:
            if c in registry:
                return registry[c]
        return func

    def register(cls, f=None):
        if f is None:
            if isinstance(cls, type):
                return lambda f: register(cls, f)
            f = cls
            cls = list(f.__annotations__.values())[0]
        registry[cls] = f
        return f

    def wrapper(*a, **k):
        return dispatch(type(a[0]))(*a, **k)
    wrapper.register = register
    wrapper.dispatch = dispatch
    wrapper.registry = registry
    return update_wrapper(wrapper, func)

class singledispatchmethod(object):
    def __init__(self, func):
        self.dispatcher = singledispatch(func)
        self.func = func

    def register(self, cls, f=None):
        return self.dispatcher.register(cls, f)

    def __get__(self, obj, cls=None):
        def method(*a, **k):
            return self.dispatcher.dispatch(type(a[0])).__get__(obj, cls)(*a, **k)
        return method
'''

ITERTOOLS = '''
def islice(it, *a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 and a[2] else 1
    start = start or 0
    i = 0
    nxt = start
    it = iter(it)
    while stop is None or i < stop:
        x = next(it, _end)
        if x is _end:
            return
        if i == nxt:
            yield x
            nxt += step
        i += 1

_end = object()

class _chain(object):
    def __call__(self, *its):
        for it in its:
            for x in it:
                yield x

    @staticmethod
    def from_iterable(its):
        for it in its:
            for x in it:
                yield x

chain = _chain()

def count(start=0, step=1):
    while True:
        yield start
        start += step

def repeat(x, times=None):
    if times is None:
        while True:
            yield x
    for _ in range(times):
        yield x

def cycle(it):
    saved = []
    for x in it:
        yield x
        saved.append(x)
    while saved:
        for x in saved:
            yield x

def takewhile(p, it):
    for x in it:
        if not p(x):
            return
        yield x

def dropwhile(p, it):
    it = iter(it)
    for x in it:
        if not p(x):
            yield x
            break
    for x in it:
        yield x

def filterfalse(p, it):
    for x in it:
        if not (x if p is None else p(x)):
            yield x

def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d

def starmap(f, it):
    for a in it:
        yield f(*a)

def pairwise(it):
    prev = _end
    for x in it:
        if prev is not _end:
            yield (prev, x)
        prev = x

def batched(it, n):
    batch = []
    for x in it:
        batch.append(x)
        if len(batch) == n:
            yield tuple(batch)
            batch = []
    if batch:
        yield tuple(batch)

def tee(it, n=2):
    items = list(it)
    return tuple(iter(items) for _ in range(n))

def product(*its, repeat=1):
    pools = [tuple(p) for p in its] * repeat
    out = [()]
    for p in pools:
        out = [o + (x,) for o in out for x in p]
    for o in out:
        yield o

def combinations(it, r):
    pool = tuple(it)
    def go(start, k):
        if k == 0:
            yield ()
            return
        for i in range(start, len(pool)):
            for rest in go(i + 1, k - 1):
                yield (pool[i],) + rest
    return go(0, r)

def combinations_with_replacement(it, r):
    pool = tuple(it)
    def go(start, k):
        if k == 0:
            yield ()
            return
        for i in range(start, len(pool)):
            for rest in go(i, k - 1):
                yield (pool[i],) + rest
    return go(0, r)

def permutations(it, r=None):
    pool = tuple(it)
    r = len(pool) if r is None else r
    def go(left, k):
        if k == 0:
            yield ()
            return
        for i in range(len(left)):
            for rest in go(left[:i] + left[i + 1:], k - 1):
                yield (left[i],) + rest
    return go(pool, r)

def zip_longest(*its, fillvalue=None):
    its = [iter(i) for i in its]
    while True:
        row = [next(i, _end) for i in its]
        if all(x is _end for x in row):
            return
        yield tuple(fillvalue if x is _end else x for x in row)

def groupby(it, key=None):
    group = []
    first = True
    for x in it:
        k = x if key is None else key(x)
        if first or not (k == last):
            if not first:
                yield last, iter(group)
            group = []
            last = k
            first = False
        group.append(x)
    if not first:
        yield last, iter(group)

def accumulate(it, func=None, *, initial=None):
    acc = initial
    first = initial is None
    if not first:
        yield acc
    for x in it:
        acc = x if first else (acc + x if func is None else func(acc, x))
        first = False
        yield acc
'''

CONTEXTLIB = '''
class suppress(object):
    def __init__(self, *kinds):
        self.kinds = kinds

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.kinds)

class closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()

class nullcontext(object):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *a):
        return None

class ExitStack(object):
    def __init__(self):
        self._todo = []

    def enter_context(self, c):
        r = type(c).__enter__(c) if False else c.__enter__()
        self._todo.append(c.__exit__)
        return r

    def push(self, c):
        self._todo.append(c.__exit__ if hasattr(c, '__exit__') else c)
        return c

    def callback(self, f, *a, **k):
        def done(*_):
            f(*a, **k)
        self._todo.append(done)
        return f

    def pop_all(self):
        new = ExitStack()
        new._todo, self._todo = self._todo, []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        while self._todo:
            f = self._todo.pop()
            if f(*exc):
                exc = (None, None, None)
        return exc[0] is None
'''

ABC = '''
def abstractmethod(f):
    f.__isabstractmethod__ = True
    return f

def abstractproperty(f):
    return property(f)

class ABCMeta(type):
    def __call__(cls, *a, **k):
        for c in cls.__mro__:
            for name, f in list(vars(c).items()):
                if isinstance(f, property):
                    f = f.fget
                if getattr(getattr(f, '__func__', f), '__isabstractmethod__', False) and getattr(cls, name, None) is getattr(c, name):
                    raise TypeError("Can't instantiate abstract class %s without an implementation for abstract method '%s'"
                                    % (cls.__name__, name))
        return super().__call__(*a, **k)

    def register(cls, sub):
        return sub

class ABC(metaclass=ABCMeta):
    __slots__ = ()
'''

COLLECTIONS_ABC = '''
class _Meta(type):
    def __instancecheck__(cls, o):
        if '_virtual' not in vars(cls):
            return NotImplemented
        if cls._methods == ('__call__',):
            return callable(o)
        if isinstance(o, cls._virtual):
            return True
        if cls._methods and all(hasattr(type(o), n) for n in cls._methods):
            return True
        return NotImplemented

class Iterable(metaclass=_Meta):
    _virtual = (list, tuple, str, bytes, dict, set, frozenset, range)
    _methods = ('__iter__',)

class Iterator(Iterable):
    _virtual = ()
    _methods = ('__iter__', '__next__')
    def __iter__(self):
        return self

class Generator(Iterator):
    _virtual = ()
    _methods = ('send', 'throw')

class Sized(metaclass=_Meta):
    _virtual = (list, tuple, str, bytes, dict, set, frozenset, range)
    _methods = ('__len__',)

class Hashable(metaclass=_Meta):
    _virtual = (tuple, str, bytes, int, float, frozenset)
    _methods = ()

class Container(metaclass=_Meta):
    _virtual = (list, tuple, str, bytes, dict, set, frozenset, range)
    _methods = ('__contains__',)

class Callable(metaclass=_Meta):
    _virtual = ()
    _methods = ('__call__',)

class Reversible(Iterable):
    _virtual = (list, tuple, str, bytes, dict, range)
    _methods = ('__reversed__', '__iter__')

class Collection(Sized, Iterable, Container):
    _virtual = (list, tuple, str, bytes, dict, set, frozenset, range)
    _methods = ('__len__', '__iter__', '__contains__')

class Sequence(Collection, Reversible):
    _virtual = (list, tuple, str, bytes, range)
    _methods = ()

    def __iter__(self):
        i = 0
        try:
            while True:
                yield self[i]
                i += 1
        except IndexError:
            return

    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        for i in reversed(range(len(self))):
            yield self[i]

    def index(self, value, start=0, stop=None):
        i = start
        while stop is None or i < stop:
            try:
                v = self[i]
            except IndexError:
                break
            if v is value or v == value:
                return i
            i += 1
        raise ValueError

    def count(self, value):
        return sum(1 for v in self if v is value or v == value)

class MutableSequence(Sequence):
    _virtual = (list,)
    _methods = ()

    def append(self, value):
        self.insert(len(self), value)

    def clear(self):
        while len(self):
            self.pop()

    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]

    def extend(self, values):
        for v in (list(values) if values is self else values):
            self.append(v)

    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v

    def remove(self, value):
        del self[self.index(value)]

    def __iadd__(self, values):
        self.extend(values)
        return self

class Set(Collection):
    _virtual = (set, frozenset)
    _methods = ()

class MutableSet(Set):
    _virtual = (set,)
    _methods = ()

class Mapping(Collection):
    _virtual = (dict,)
    _methods = ()

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def keys(self):
        return list(self)

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, other):
        return dict(self.items()) == dict(other.items())

class MutableMapping(Mapping):
    _virtual = (dict,)
    _methods = ()

    def pop(self, key, *default):
        try:
            v = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        del self[key]
        return v

    def clear(self):
        for k in list(self):
            del self[k]

    def update(self, other=(), **kw):
        if hasattr(other, 'keys'):
            for k in other.keys():
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default

class ByteString(Sequence):
    _virtual = (bytes,)
    _methods = ()
'''

COLLECTIONS = '''
class ChainMap(object):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __contains__(self, k):
        return any(k in m for m in self.maps)

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def __delitem__(self, k):
        del self.maps[0][k]

    def _merged(self):
        d = {}
        for m in reversed(self.maps):
            d.update(m)
        return d

    def __iter__(self):
        return iter(self._merged())

    def __len__(self):
        return len(self._merged())

    def keys(self):
        return self._merged().keys()

    def values(self):
        return self._merged().values()

    def items(self):
        return self._merged().items()

    def new_child(self, m=None, **kw):
        return ChainMap(kw if m is None else m, *self.maps)

    @property
    def parents(self):
        return ChainMap(*self.maps[1:])

from collections.abc import MutableMapping as _MM, MutableSequence as _MS

class UserDict(_MM):
    def __init__(self, d=None, /, **k):
        self.data = {}
        if d is not None:
            self.update(d)
        if k:
            self.update(k)
    def __getitem__(self, k):
        if k in self.data:
            return self.data[k]
        if hasattr(self.__class__, '__missing__'):
            return self.__class__.__missing__(self, k)
        raise KeyError(k)
    def __setitem__(self, k, v):
        self.data[k] = v
    def __delitem__(self, k):
        del self.data[k]
    def __iter__(self):
        return iter(self.data)
    def __len__(self):
        return len(self.data)
    def __contains__(self, k):
        return k in self.data
    def __repr__(self):
        return repr(self.data)
    def copy(self):
        return self.__class__(self.data)

def _plain(o):
    return o.data if isinstance(o, UserList) else o

class UserList(_MS):
    def __init__(self, l=None):
        self.data = [] if l is None else list(_plain(l))
    def __repr__(self):
        return repr(self.data)
    def __eq__(self, o):
        return self.data == _plain(o)
    def __ne__(self, o):
        return not self == o
    __hash__ = None
    def __lt__(self, o):
        return self.data < _plain(o)
    def __contains__(self, x):
        return x in self.data
    def __len__(self):
        return len(self.data)
    def __iter__(self):
        return iter(self.data)
    def __getitem__(self, i):
        return self.__class__(self.data[i]) if isinstance(i, slice) else self.data[i]
    def __setitem__(self, i, x):
        self.data[i] = x
    def __delitem__(self, i):
        del self.data[i]
    def __add__(self, o):
        return self.__class__(self.data + list(_plain(o)))
    def __radd__(self, o):
        return self.__class__(list(_plain(o)) + self.data)
    def __iadd__(self, o):
        self.data += list(_plain(o))
        return self
    def __mul__(self, n):
        return self.__class__(self.data * n)
    __rmul__ = __mul__
    def append(self, x):
        self.data.append(x)
    def insert(self, i, x):
        self.data.insert(i, x)
    def pop(self, i=-1):
        return self.data.pop(i)
    def remove(self, x):
        self.data.remove(x)
    def clear(self):
        self.data.clear()
    def copy(self):
        return self.__class__(self)
    def count(self, x):
        return self.data.count(x)
    def index(self, x, *a):
        return self.data.index(x, *a)
    def reverse(self):
        self.data.reverse()
    def sort(self, *a, **k):
        self.data.sort(*a, **k)
    def extend(self, o):
        self.data.extend(_plain(o))
'''

TYPES = '''
class SimpleNamespace(object):
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return 'namespace(%s)' % ', '.join('%s=%r' % i for i in self.__dict__.items())

    def __eq__(self, o):
        return isinstance(o, SimpleNamespace) and self.__dict__ == o.__dict__

class MappingProxyType(object):
    def __init__(self, d):
        self._d = d
    def __getitem__(self, k):
        return self._d[k]
    def __iter__(self):
        return iter(self._d)
    def __len__(self):
        return len(self._d)
    def __contains__(self, k):
        return k in self._d
    def get(self, k, d=None):
        return self._d.get(k, d)
    def keys(self):
        return self._d.keys()
    def values(self):
        return self._d.values()
    def items(self):
        return self._d.items()

def _f():
    yield 1

class _C(object):
    def m(self):
        pass

FunctionType = LambdaType = type(_f)
MethodType = type(_C().m)
GeneratorType = type(_f())
BuiltinFunctionType = type(len)
NoneType = type(None)

def new_class(name, bases=(), kwds=None, exec_body=None):
    ns = {}
    if exec_body:
        exec_body(ns)
    kwds = dict(kwds or {})
    meta = kwds.pop('metaclass', None) or (type(bases[0]) if bases else type)
    return meta(name, tuple(bases), ns, **kwds)
'''

TYPING = '''
class _Special(object):
    def __init__(self, name):
        self._name = name
    def __getitem__(self, k):
        return self
    def __call__(self, *a, **k):
        return self
    def __or__(self, o):
        return self
    def __ror__(self, o):
        return self
    def __repr__(self):
        return 'typing.' + self._name

for _n in ('Any', 'AnyStr', 'Union', 'Optional', 'List', 'Dict', 'Set', 'FrozenSet', 'Tuple', 'Type', 'Callable', 'Iterable', 'Iterator',
           'Generator', 'Sequence', 'MutableSequence', 'Mapping', 'MutableMapping', 'Literal', 'Final', 'ClassVar', 'NoReturn', 'Hashable',
           'Sized', 'Text', 'IO', 'TextIO', 'BinaryIO', 'Pattern', 'Match', 'DefaultDict', 'OrderedDict', 'Counter', 'Deque', 'Self', 'Never',
           'Annotated', 'TypeAlias', 'SupportsInt', 'ByteString', 'Collection', 'Container', 'Reversible', 'Awaitable', 'ContextManager',
           'Concatenate', 'ParamSpec', 'Required', 'NotRequired', 'LiteralString', 'AbstractSet', 'KeysView', 'ItemsView', 'ValuesView',
           'SupportsIndex'):
    globals()[_n] = _Special(_n)

TYPE_CHECKING = False

def TypeVar(name, *a, **k):
    return _Special(name)

def NewType(name, t):
    return lambda x: x

def cast(t, x):
    return x

def overload(f):
    return f

def final(f):
    return f

def no_type_check(f):
    return f

def runtime_checkable(c):
    return c

def get_type_hints(o):
    return dict(o.__annotations__)

class Generic(object):
    __slots__ = ()
    def __class_getitem__(cls, k):
        return cls

class Protocol(object):
    __slots__ = ()
    def __class_getitem__(cls, k):
        return cls

class _NamedTupleMeta(type):
    def __new__(mcs, name, bases, ns):
        if ns.get('_root'):
            return super().__new__(mcs, name, bases, ns)
        from collections import namedtuple
        fields = list(ns.get('__annotations__', {}))
        nt = namedtuple(name, fields, defaults=[ns[f] for f in fields if f in ns])
        for k, v in ns.items():
            if k not in fields and k not in ('__module__', '__qualname__', '__annotations__'):
                setattr(nt, k, v)
        return nt

class NamedTuple(metaclass=_NamedTupleMeta):
    _root = True

class TypedDict(dict):
    pass
'''

ENUM = '''
class auto(object):
    pass

class _Dict(dict):
    pass

class EnumMeta(type):
    def __new__(mcs, name, bases, ns, **kw):
        skip = ns.get('_ignore_', ())
        members = []
        rest = {}
        for k, v in ns.items():
            if (k.startswith('_') or callable(v) or isinstance(v, (property, staticmethod, classmethod)) or hasattr(type(v), '__get__')
                    or k in skip):
                rest[k] = v
            else:
                members.append((k, v))
        cls = super().__new__(mcs, name, bases, rest)
        cls._member_map_ = {}
        cls._value2member_map_ = {}
        last = None
        for k, v in members:
            if isinstance(v, auto):
                if issubclass(cls, str):
                    v = k.lower()
                elif issubclass(cls, Flag):
                    v = 1 if last is None else last * 2
                else:
                    v = 1 if last is None else last + 1
            last = v
            m = None
            for o in cls._member_map_.values():
                if o._value_ == v:
                    m = o
            if m is None:
                a = v if isinstance(v, tuple) else (v,)
                new = rest.get('__new__')
                if new is not None:
                    m = new(cls, *a)
                    if not hasattr(m, '_value_'):
                        m._value_ = v
                else:
                    base = cls._data_type_()
                    m = object.__new__(cls) if base is None else base.__new__(cls, *a)
                    m._value_ = v
                m._name_ = k
                m.__objclass__ = cls
                if hasattr(cls, '__init__') and cls._own_init_():
                    m.__init__(*a)
            cls._member_map_[k] = m
            cls._value2member_map_[v] = m
            type.__setattr__(cls, k, m)
        return cls

    def _own_init_(cls):
        return any('__init__' in vars(c) for c in cls.__mro__ if isinstance(c, EnumMeta))

    def _data_type_(cls):
        for c in cls.__mro__:
            if c in (int, str, float, bytes, tuple):
                return c
        return None

    def __call__(cls, value, *a, **k):
        if a or k:
            raise NotImplementedError
        if isinstance(value, cls):
            return value
        for m in cls._member_map_.values():
            if m._value_ == value:
                return m
        r = cls._missing_(value)
        if r is None:
            raise ValueError('%r is not a valid %s' % (value, cls.__qualname__))
        return r

    def __getitem__(cls, name):
        return cls._member_map_[name]

    def __iter__(cls):
        seen = []
        for m in cls._member_map_.values():
            if not any(m is s for s in seen):
                seen.append(m)
                yield m

    def __len__(cls):
        return len(list(iter(cls)))

    def __contains__(cls, v):
        return any(v is m or v == m._value_ for m in cls._member_map_.values())

    def __bool__(cls):
        return True

    @property
    def __members__(cls):
        return dict(cls._member_map_)

EnumType = EnumMeta

class Flag_(object):
    pass

class Enum(metaclass=EnumMeta):
    @classmethod
    def _missing_(cls, value):
        return None

    @property
    def name(self):
        return self._name_

    @property
    def value(self):
        return self._value_

    def __repr__(self):
        return '<%s.%s: %r>' % (self.__class__.__name__, self._name_, self._value_)

    def __str__(self):
        return '%s.%s' % (self.__class__.__name__, self._name_)

    def __hash__(self):
        return hash(self._name_)

    def __format__(self, spec):
        return format(str(self), spec)

class Flag(Enum):
    def __or__(self, o):
        return self._combine(self._value_ | o._value_)

    def __and__(self, o):
        return self._combine(self._value_ & o._value_)

    def __xor__(self, o):
        return self._combine(self._value_ ^ o._value_)

    def __bool__(self):
        return bool(self._value_)

    def __contains__(self, o):
        return o._value_ & self._value_ == o._value_

    def _combine(self, v):
        cls = self.__class__
        for m in cls._member_map_.values():
            if m._value_ == v:
                return m
        m = object.__new__(cls)
        m._value_ = v
        m._name_ = None
        return m

class IntEnum(int, Enum):
    def __str__(self):
        return str(self._value_)

    def __format__(self, spec):
        return format(self._value_, spec)

    __hash__ = int.__hash__

class StrEnum(str, Enum):
    def __str__(self):
        return self._value_

    def __format__(self, spec):
        return format(self._value_, spec)

    __hash__ = str.__hash__

class IntFlag(int, Flag):
    __hash__ = int.__hash__

def unique(c):
    values = []
    for m in c._member_map_.items():
        if m[0] != m[1]._name_:
            raise ValueError('duplicate values found in %r' % (c,))
    return c

def member(x):
    return x

def nonmember(x):
    return x
'''

DATACLASSES = '''
class _Missing(object):
    pass

MISSING = _Missing()
KW_ONLY = object()

class FrozenInstanceError(AttributeError):
    pass

class InitVar(object):
    def __class_getitem__(cls, k):
        return cls

class Field(object):
    def __init__(self, default, default_factory, init, repr, hash, compare, metadata, kw_only):
        self.name = None
        self.type = None
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.repr = repr
        self.hash = hash
        self.compare = compare
        self.metadata = metadata or {}
        self.kw_only = kw_only

def field(*, default=MISSING, default_factory=MISSING, init=True, repr=True, hash=None, compare=True, metadata=None, kw_only=MISSING):
    return Field(default, default_factory, init, repr, hash, compare, metadata, kw_only)

def dataclass(cls=None, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, match_args=True,
              kw_only=False, slots=False, weakref_slot=False):
    def deco(cls):
        return _process(cls, init, repr, eq, order, unsafe_hash, frozen, kw_only)
    return deco if cls is None else deco(cls)

def _process(cls, init, repr_, eq, order, unsafe_hash, frozen, kw_only):
    fs = {}
    for b in reversed(cls.__mro__[1:]):
        for f in getattr(b, '__dataclass_fields__', {}).values():
            fs[f.name] = f
    keyword = kw_only
    own = vars(cls)
    for name, t in list(own.get('__annotations__', {}).items()):
        if t is KW_ONLY:
            keyword = True
            continue
        if repr(t).startswith('typing.ClassVar') or (isinstance(t, str) and 'ClassVar' in t):
            continue
        d = own.get(name, MISSING)
        if isinstance(d, Field):
            f = d
            if f.default is MISSING:
                delattr(cls, name)
            else:
                setattr(cls, name, f.default)
        else:
            if isinstance(d, (list, dict, set)):
                raise ValueError('mutable default %s for field %s is not allowed: use default_factory' % (type(d), name))
            f = Field(d, MISSING, True, True, None, True, None, MISSING)
        if f.kw_only is MISSING:
            f.kw_only = keyword
        f.name, f.type = name, t
        fs[name] = f
    cls.__dataclass_fields__ = fs
    flist = list(fs.values())
    positional = [f for f in flist if f.init and not f.kw_only]
    cls.__match_args__ = tuple(f.name for f in positional)

    def __init__(self, *a, **k):
        if len(a) > len(positional):
            raise TypeError('%s.__init__() takes %d positional arguments but %d were given' % (cls.__name__, len(positional) + 1, len(a) + 1))
        given = dict(zip([f.name for f in positional], a))
        for n, v in k.items():
            if n not in fs or not fs[n].init:
                raise TypeError("%s.__init__() got an unexpected keyword argument '%s'" % (cls.__name__, n))
            if n in given:
                raise TypeError("%s.__init__() got multiple values for argument '%s'" % (cls.__name__, n))
            given[n] = v
        for f in flist:
            if f.name in given:
                v = given[f.name]
            elif f.default_factory is not MISSING:
                v = f.default_factory()
            elif f.default is not MISSING:
                v = f.default
            elif not f.init:
                continue
            else:
                raise TypeError("%s.__init__() missing 1 required positional argument: '%s'" % (cls.__name__, f.name))
            object.__setattr__(self, f.name, v)
        if hasattr(self, '__post_init__'):
            self.__post_init__()

    def __repr__(self):
        return '%s(%s)' % (self.__class__.__qualname__, ', '.join('%s=%r' % (f.name, getattr(self, f.name)) for f in flist if f.repr))

    def _key(o):
        return tuple(getattr(o, f.name) for f in flist if f.compare)

    def __eq__(self, other):
        if other.__class__ is not self.__class__:
            return NotImplemented
        return _key(self) == _key(other)

    def __hash__(self):
        return hash(_key(self))

    if init and '__init__' not in own:
        cls.__init__ = __init__
    if repr_ and '__repr__' not in own:
        cls.__repr__ = __repr__
    if eq and '__eq__' not in own:
        cls.__eq__ = __eq__
        if '__hash__' not in own:
            cls.__hash__ = __hash__ if frozen or unsafe_hash else None
    if order:
        cls.__lt__ = lambda a, b: _key(a) < _key(b)
        cls.__le__ = lambda a, b: _key(a) <= _key(b)
        cls.__gt__ = lambda a, b: _key(a) > _key(b)
        cls.__ge__ = lambda a, b: _key(a) >= _key(b)
    if frozen:
        def __setattr__(self, name, value):
            raise FrozenInstanceError("cannot assign to field '%s'" % name)

        def __delattr__(self, name):
            raise FrozenInstanceError("cannot delete field '%s'" % name)
        cls.__setattr__ = __setattr__
        cls.__delattr__ = __delattr__
    return cls

def fields(c):
    return tuple(c.__dataclass_fields__.values())

def is_dataclass(c):
    return hasattr(c, '__dataclass_fields__')

def _deep(v):
    if is_dataclass(v):
        return asdict(v)
    if isinstance(v, (list, tuple)):
        return type(v)(_deep(x) for x in v)
    if isinstance(v, dict):
        return {k: _deep(x) for k, x in v.items()}
    return v

def asdict(o):
    return {f.name: _deep(getattr(o, f.name)) for f in fields(o)}

def astuple(o):
    return tuple(astuple(getattr(o, f.name)) if is_dataclass(getattr(o, f.name)) else getattr(o, f.name) for f in fields(o))

def replace(o, **changes):
    k = {f.name: getattr(o, f.name) for f in fields(o) if f.init}
    k.update(changes)
    return o.__class__(**k)
'''

BISECT = '''
def bisect_right(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (a[mid] if key is None else key(a[mid])):
            hi = mid
        else:
            lo = mid + 1
    return lo

def bisect_left(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] if key is None else key(a[mid])) < x:
            lo = mid + 1
        else:
            hi = mid
    return lo

bisect = bisect_right

def insort(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)

insort_right = insort

def insort_left(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)
'''

HEAPQ = '''
def heapify(h):
    h.sort()

def heappush(h, x):
    i = 0
    while i < len(h) and not x < h[i]:
        i += 1
    h.insert(i, x)

def heappop(h):
    return h.pop(0)

def heappushpop(h, x):
    heappush(h, x)
    return heappop(h)

def heapreplace(h, x):
    r = heappop(h)
    heappush(h, x)
    return r

def nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]

def nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]

def merge(*its, key=None, reverse=False):
    return iter(sorted([x for i in its for x in i], key=key, reverse=reverse))
'''

IO = '''
SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2

class _IO(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def getvalue(self):
        return self._data

    def tell(self):
        return self._pos

    def seek(self, pos, whence=0):
        self._pos = pos if whence == 0 else self._pos + pos if whence == 1 else len(self._data) + pos
        return self._pos

    def read(self, n=-1):
        end = len(self._data) if n is None or n < 0 else min(len(self._data), self._pos + n)
        r = self._data[self._pos:end]
        self._pos = max(self._pos, end)
        return r

    def truncate(self, n=None):
        self._data = self._data[:self._pos if n is None else n]

    def writelines(self, lines):
        for x in lines:
            self.write(x)

class StringIO(_IO):
    def __init__(self, initial='', newline=None):
        self._data = initial or ''
        self._pos = 0
        self.closed = False

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected, got '%s'" % type(s).__name__)
        if not self._atend():
            n = len(s)
            self._data = self._data[:self._pos] + s + self._data[self._pos + n:]
            self._pos += n
            return n
        self._data = self._data + s
        self._pos = _END
        return len(s)

    def _atend(self):
        return self._pos is _END or self._data == '' or self._pos == len(self._data)

    def tell(self):
        return len(self._data) if self._pos is _END else self._pos

    def read(self, n=-1):
        if self._pos is _END:
            self._pos = len(self._data)
        return _IO.read(self, n)

    def readline(self):
        if self._pos is _END:
            return ''
        i = self._data.find('\\n', self._pos)
        end = len(self._data) if i < 0 else i + 1
        r = self._data[self._pos:end]
        self._pos = end
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

_END = object()

class BytesIO(_IO):
    def __init__(self, initial=b''):
        self._data = bytes(initial)
        self._pos = 0
        self.closed = False

    def write(self, b):
        b = bytes(b)
        old = self._data
        if self._pos > len(old):
            old = old + bytes(self._pos - len(old))
        self._data = old[:self._pos] + b + old[self._pos + len(b):]
        self._pos += len(b)
        return len(b)

    def getbuffer(self):
        return memoryview(self._data)

    def readinto(self, buf):
        r = self.read(len(buf))
        buf[:len(r)] = r
        return len(r)

    read1 = _IO.read
'''

PATHLIB = '''
import os

class PurePath(object):
    def __init__(self, *parts):
        parts = [str(p) for p in parts]
        p = os.path.join(*parts) if parts else '.'
        absolute = p.startswith('/')
        kept = [x for x in p.split('/') if x and x != '.']
        self._p = ('/' if absolute else '') + '/'.join(kept) or '.'

    def __str__(self):
        return self._p

    def __fspath__(self):
        return self._p

    def __repr__(self):
        return 'PosixPath(%r)' % self._p

    def __hash__(self):
        return hash(self._p)

    def __eq__(self, o):
        return isinstance(o, PurePath) and self._p == o._p

    def __lt__(self, o):
        return self._p < o._p

    def __truediv__(self, o):
        return type(self)(self._p, o)

    def __rtruediv__(self, o):
        return type(self)(o, self._p)

    def joinpath(self, *o):
        return type(self)(self._p, *o)

    @property
    def parts(self):
        return (('/',) if self._p.startswith('/') else ()) + tuple(x for x in self._p.split('/') if x and x != '.')

    @property
    def name(self):
        return os.path.basename(self._p) if self._p not in ('.', '/') else ''

    @property
    def stem(self):
        return os.path.splitext(self.name)[0]

    @property
    def suffix(self):
        return os.path.splitext(self.name)[1]

    @property
    def parent(self):
        return type(self)(os.path.dirname(self._p) or ('/' if self._p == '/' else '.'))

    @property
    def parents(self):
        out, p = [], self
        while p.parent != p:
            p = p.parent
            out.append(p)
        return out

    def as_posix(self):
        return self._p

    def is_absolute(self):
        return self._p.startswith('/')

    def with_suffix(self, s):
        return self.parent / (self.stem + s)

    def with_name(self, n):
        return self.parent / n

    def with_stem(self, n):
        return self.parent / (n + self.suffix)

    def relative_to(self, *o):
        base = type(self)(*o)
        n = len(base.parts)
        if self.parts[:n] != base.parts:
            raise ValueError('%r is not in the subpath of %r' % (self._p, base._p))
        return type(self)(*self.parts[n:])

class Path(PurePath):
    @classmethod
    def cwd(cls):
        return cls(os.getcwd())

    def exists(self):
        return os.path.exists(self._p)

    def is_file(self):
        return os.path.isfile(self._p)

    def is_dir(self):
        return os.path.isdir(self._p)

    def absolute(self):
        return type(self)(os.path.join(os.getcwd(), self._p))

    def resolve(self, strict=False):
        return type(self)(os.path.abspath(self._p))

    def open(self, mode='r', *a, **k):
        return open(self._p, mode, *a, **k)

    def read_text(self, encoding=None, errors=None):
        with open(self._p, encoding=encoding, errors=errors) as f:
            return f.read()

    def read_bytes(self):
        with open(self._p, 'rb') as f:
            return f.read()

    def write_text(self, text, *a, **k):
        with open(self._p, 'w') as f:
            return f.write(text)

PosixPath = Path
PurePosixPath = PurePath
'''

LOGGING = '''
import sys
DEBUG, INFO, WARNING, ERROR, CRITICAL = 10, 20, 30, 40, 50

class Logger(object):
    def __init__(self, name):
        self.name = name
        self.level = WARNING

    def setLevel(self, level):
        self.level = level

    def addHandler(self, h):
        pass

    def isEnabledFor(self, level):
        return level >= self.level

    def log(self, level, msg, *a, **k):
        if level >= self.level:
            sys.stderr.write('%s\\n' % (msg % a if a else msg))

    def debug(self, msg, *a, **k):
        self.log(DEBUG, msg, *a)

    def info(self, msg, *a, **k):
        self.log(INFO, msg, *a)

    def warning(self, msg, *a, **k):
        self.log(WARNING, msg, *a)

    def error(self, msg, *a, **k):
        self.log(ERROR, msg, *a)

    exception = critical = error
    warn = warning

_loggers = {}

def getLogger(name='root'):
    return _loggers.setdefault(name, Logger(name))

_root = getLogger()
debug, info, warning, error, critical, log = _root.debug, _root.info, _root.warning, _root.error, _root.critical, _root.log

def basicConfig(**k):
    if k.get('level') is not None:
        _root.setLevel(k['level'])

class Handler(object):
    def __init__(self, *a):
        pass
    def setLevel(self, level):
        pass
    def setFormatter(self, f):
        pass

StreamHandler = NullHandler = FileHandler = Handler

class Formatter(object):
    def __init__(self, *a, **k):
        pass
'''

NUMBERS = '''
class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._virtual)

class Number(metaclass=_Meta):
    _virtual = (int, float, complex)

class Complex(Number):
    _virtual = (int, float, complex)

class Real(Complex):
    _virtual = (int, float)

class Rational(Real):
    _virtual = (int,)

class Integral(Rational):
    _virtual = (int,)
'''

TEXTWRAP = '''
def indent(text, prefix, predicate=None):
    out = []
    for line in text.splitlines(True):
        if predicate(line) if predicate is not None else line.strip():
            out.append(prefix)
        out.append(line)
    return ''.join(out)
'''

STRING = '''
import re

class Template(object):
    delimiter = '$'

    def __init__(self, template):
        self.template = template

    def _fill(self, d, safe):
        out = []
        pos = 0
        for m in re.finditer(r'\\$(?:(\\$)|([_a-zA-Z][_a-zA-Z0-9]*)|\\{([_a-zA-Z][_a-zA-Z0-9]*)\\}|())', self.template):
            out.append(self.template[pos:m.start()])
            pos = m.end()
            name = m.group(2) or m.group(3)
            if m.group(1):
                out.append('$')
            elif name is None:
                if not safe:
                    raise ValueError('Invalid placeholder in string')
                out.append(m.group())
            elif safe and name not in d:
                out.append(m.group())
            else:
                out.append(str(d[name]))
        out.append(self.template[pos:])
        return ''.join(out)

    def substitute(self, *a, **k):
        return self._fill(dict(*a, **k), False)

    def safe_substitute(self, *a, **k):
        return self._fill(dict(*a, **k), True)

class Formatter(object):
    def format(self, f, *a, **k):
        return f.format(*a, **k)

def capwords(s, sep=None):
    return (sep or ' ').join(x.capitalize() for x in s.split(sep))
'''

GRAPHLIB = '''
class CycleError(ValueError):
    pass

class TopologicalSorter(object):
    def __init__(self, graph=None):
        self._info = {}
        self._ready = None
        self._out = 0
        self._done = 0
        if graph is not None:
            for node, before in graph.items():
                self.add(node, *before)

    def _get(self, node):
        if node not in self._info:
            self._info[node] = [node, 0, []]
        return self._info[node]

    def add(self, node, *before):
        if self._ready is not None:
            raise ValueError("Nodes cannot be added after a call to prepare()")
        info = self._get(node)
        info[1] += len(before)
        for b in before:
            self._get(b)[2].append(node)

    def prepare(self):
        if self._ready is not None:
            raise ValueError("cannot prepare() more than once")
        self._ready = [i[0] for i in self._info.values() if i[1] == 0]
        cycle = self._cycle()
        if cycle:
            raise CycleError("nodes are in a cycle", cycle)

    def _cycle(self):
        stack, itstack, seen, where = [], [], set(), {}
        for node in self._info:
            if node in seen:
                continue
            while True:
                if node in seen:
                    if node in where:
                        return stack[where[node]:] + [node]
                else:
                    seen.add(node)
                    itstack.append(iter(self._info[node][2]))
                    where[node] = len(stack)
                    stack.append(node)
                found = False
                while stack:
                    nxt = next(itstack[-1], self)
                    if nxt is not self:
                        node = nxt
                        found = True
                        break
                    del where[stack.pop()]
                    itstack.pop()
                if not found:
                    break
        return None

    def get_ready(self):
        if self._ready is None:
            raise ValueError("prepare() must be called first")
        result = tuple(self._ready)
        for n in result:
            self._info[n][1] = -1
        self._ready = []
        self._out += len(result)
        return result

    def is_active(self):
        if self._ready is None:
            raise ValueError("prepare() must be called first")
        return self._done < self._out or bool(self._ready)

    def __bool__(self):
        return self.is_active()

    def done(self, *nodes):
        if self._ready is None:
            raise ValueError("prepare() must be called first")
        for node in nodes:
            if node not in self._info:
                raise ValueError("node %r was not added using add()" % (node,))
            info = self._info[node]
            if info[1] >= 0:
                raise ValueError("node %r was not passed out" % (node,))
            if info[1] == -2:
                raise ValueError("node %r was already marked done" % (node,))
            info[1] = -2
            self._done += 1
            for after in info[2]:
                i = self._info[after]
                i[1] -= 1
                if i[1] == 0:
                    self._ready.append(after)

    def static_order(self):
        self.prepare()
        while self.is_active():
            group = self.get_ready()
            yield from group
            self.done(*group)
'''

WEAKREF = '''
class ref(object):
    def __init__(self, o, callback=None):
        self._o = o
    def __call__(self):
        return self._o
    def __eq__(self, other):
        return isinstance(other, ref) and self._o == other._o
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self._o)

ReferenceType = WeakMethod = ref

def proxy(o, callback=None):
    return o

class WeakKeyDictionary(dict):
    pass

class WeakValueDictionary(dict):
    pass

class WeakSet(set):
    pass
'''

BINASCII = '''
class Error(ValueError):
    pass

def hexlify(data, *sep):
    return bytes(data).hex(*sep).encode('ascii')

def unhexlify(text):
    return bytes.fromhex(text if isinstance(text, str) else text.decode('ascii'))

b2a_hex, a2b_hex = hexlify, unhexlify
'''

INSPECT = '''
class _C(object):
    def m(self):
        pass

_F, _M = type(lambda: 0), type(_C().m)

def isclass(o):
    return isinstance(o, type)

def isfunction(o):
    return type(o) is _F

def ismethod(o):
    return type(o) is _M

def isroutine(o):
    return type(o) in (_F, _M, type(len))

def getmro(cls):
    return cls.__mro__

def getdoc(o):
    doc = getattr(o, '__doc__', None)
    return cleandoc(doc) if doc is not None else None

def cleandoc(doc):
    lines = doc.expandtabs().split('\\n')
    rest = [len(l) - len(l.lstrip()) for l in lines[1:] if l.strip()]
    margin = min(rest) if rest else 0
    lines = [lines[0].lstrip()] + [l[margin:] for l in lines[1:]]
    while lines and not lines[-1]:
        lines.pop()
    while lines and not lines[0]:
        lines.pop(0)
    return '\\n'.join(lines)

def getmembers(o, predicate=None):
    found = [(n, getattr(o, n)) for n in dir(o) if hasattr(o, n)]
    return sorted([x for x in found if predicate is None or predicate(x[1])], key=lambda x: x[0])
'''
