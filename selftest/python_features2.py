import abc
import collections
import contextlib
import copy
import enum
import functools
import io
import itertools
import operator
import os.path
import re
import string
import struct
import sys
import textwrap
import types
import warnings
from typing import Any, Dict, Iterator, List, NamedTuple, Optional, Tuple, Union


def t_struct_objects():
    s = struct.Struct('<HI')
    ba = bytearray(8)
    struct.pack_into('>I', ba, 2, 0x01020304)
    s2 = struct.Struct('>q')
    return [s.size, s.pack(1, 2), s.unpack(b'\x01\x00\x02\x00\x00\x00'), s.unpack_from(b'\xff\x01\x00\x02\x00\x00\x00', 1), bytes(ba),
            struct.calcsize('<BHI'), struct.calcsize('=Q'), s2.pack(-2), s2.format, struct.unpack('>f', struct.pack('>f', 1.5)),
            [x for x in struct.iter_unpack('<H', b'\x01\x00\x02\x00')]]


def t_int_bytes():
    out = [(258).to_bytes(4, 'little'), (258).to_bytes(2, 'big'), int.from_bytes(b'\x01\x02', 'big'), int.from_bytes(b'\xff\xff', 'little', signed=True),
           (-1).to_bytes(2, 'big', signed=True), (5).bit_length(), -(-7 // 2), divmod(-7, 2), 7 & -4, ~3, 1 << 5 | 3, 6 ^ 5, pow(2, 10, 7)]
    try:
        (256).to_bytes(1, 'big')
    except OverflowError as e:
        out.append(str(e))
    return out


class Shape(abc.ABC):
    @abc.abstractmethod
    def area(self):
        """area"""

    @property
    @abc.abstractmethod
    def name(self):
        """name"""

    @classmethod
    def make(cls, *a, **k):
        return cls(*a, **k)


class Square(Shape):
    __slots__ = ('_w',)

    def __init__(self, w):
        self._w = w

    def area(self):
        return self._w ** 2

    @property
    def name(self):
        return 'square'

    @name.setter
    def name(self, v):
        raise AttributeError(v)


def t_abc():
    out = [Square.make(3).area(), Square(2).name, isinstance(Square(1), Shape)]
    try:
        Shape()
    except TypeError:
        out.append('abstract')
    try:
        Square(1).name = 5
    except AttributeError as e:
        out.append(str(e))
    try:
        Square(1).zzz = 5
    except AttributeError:
        out.append('slots')
    return out


class Field(NamedTuple):
    name: str
    type: Any = None
    size: int = 0

    @property
    def label(self):
        return '%s[%d]' % (self.name, self.size)


def t_namedtuple():
    f = Field('a', size=3)
    P = collections.namedtuple('P', 'x y')
    p = P(1, 2)
    x, y = p
    return [f.label, f._replace(size=4).label, tuple(f), f._fields, f._asdict()['name'], p, p.x, p[1], x + y, P._make([5, 6]), p == (1, 2),
            hash(p) == hash((1, 2)), sorted([P(2, 1), P(1, 2)])]


class Color(enum.Enum):
    RED = 1
    GREEN = 'g'

    def describe(self):
        return self.name.lower()


class Num(enum.IntEnum):
    A = 0
    B = 1


class Fl(enum.Flag):
    X = enum.auto()
    Y = enum.auto()


def t_enum():
    return [Color.RED.value, Color('g').name, Color['RED'] is Color.RED, Color.GREEN.describe(), [c.name for c in Color], Num.B + 1, max(Num.A, Num.B) == 1,
            Num.A == 0, Num.B > Num.A, isinstance(Num.A, int), Color.RED in (Color.RED,), {Color.RED: 1}[Color.RED], len(Color), Fl.X.value, (Fl.X | Fl.Y).value,
            bool(Fl.X & Fl.Y)]


def t_walrus_match():
    def f(x):
        match x:
            case 0:
                return 'zero'
            case int(n) if n > 10:
                return 'big%d' % n
            case [a, b]:
                return a + b
            case [a, *rest]:
                return len(rest)
            case {'k': v, **kw}:
                return v, kw
            case str() | bytes():
                return 'text'
            case Field(name=n):
                return n
            case None:
                return 'none'
            case _:
                return 'other'
    out = [f(v) for v in (0, 5, 50, [1, 2], [1, 2, 3], {'k': 1, 'z': 2}, 'x', b'', Field('q'), None, 1.5)]
    if (n := len(out)) > 5:
        out.append(n)
    out.append([y for x in range(4) if (y := x * x) % 2 == 0])
    return out


def t_functools():
    @functools.lru_cache(maxsize=None)
    def fib(n):
        return n if n < 2 else fib(n - 1) + fib(n - 2)

    @functools.singledispatch
    def kind(x):
        return 'obj'

    @kind.register(int)
    def _(x):
        return 'int'

    @kind.register(str)
    def _(x):
        return 'str'

    class C(object):
        @functools.cached_property
        def v(self):
            self.n = getattr(self, 'n', 0) + 1
            return self.n * 10

    c = C()
    add = functools.partial(operator.add, 5)

    @functools.wraps(fib)
    def w(*a):
        return fib(*a)
    return [fib(20), kind(1), kind('a'), kind(2.0), kind(True), c.v, c.v, add(3), functools.reduce(operator.mul, [1, 2, 3, 4], 1), w.__name__,
            sorted([3, 1, 2], key=functools.cmp_to_key(lambda a, b: b - a))]


@functools.total_ordering
class Ver(object):
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return self.n == o.n

    def __lt__(self, o):
        return self.n < o.n

    def __hash__(self):
        return hash(self.n)


def t_ordering():
    return [Ver(1) <= Ver(2), Ver(1) >= Ver(2), Ver(3) > Ver(2), max([Ver(1), Ver(5)]).n, Ver(1) != Ver(2), len({Ver(1), Ver(1)})]


def t_itertools():
    g = itertools.groupby([1, 1, 2, 3, 3], key=lambda x: x)
    return [[(k, list(v)) for k, v in g], list(itertools.chain([1], (2, 3))), list(itertools.chain.from_iterable([[1], [2]])),
            list(itertools.accumulate([1, 2, 3])), list(itertools.islice(itertools.count(5, 2), 3)), list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])),
            list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.zip_longest([1, 2], [3], fillvalue=0)), list(itertools.product('ab', [1, 2])),
            list(itertools.combinations([1, 2, 3], 2)), list(itertools.starmap(pow, [(2, 3)])), list(itertools.repeat(1, 3)),
            list(map(operator.itemgetter(1), [(1, 2), (3, 4)])), list(itertools.filterfalse(None, [0, 1, 0])), list(itertools.compress('abc', [1, 0, 1])),
            list(itertools.pairwise([1, 2, 3])), [list(x) for x in itertools.tee([1, 2])]]


def t_collections():
    d = collections.defaultdict(list)
    d['a'].append(1)
    o = collections.OrderedDict([('x', 1), ('y', 2)])
    o.move_to_end('x')
    c = collections.Counter('aab')
    q = collections.deque([1, 2, 3], maxlen=2)
    q.appendleft(9)
    m = collections.ChainMap({'a': 1}, {'a': 2, 'b': 3})
    return [dict(d), list(o), c['a'], c['z'], c.most_common(1), list(q), m['a'], m['b'], 'c' in m, o.popitem(last=False), {**{'a': 1}, 'b': 2},
            {'a': 1} | {'b': 2}, dict.fromkeys('ab', 0), {1: 2}.setdefault(1, 5), list(reversed({'p': 1, 'q': 2}))]


def t_context():
    log = []

    @contextlib.contextmanager
    def cm(x):
        log.append('in%s' % x)
        try:
            yield x
        except KeyError:
            log.append('caught')
        finally:
            log.append('out%s' % x)

    with cm(1) as a, cm(2) as b:
        log.append(a + b)
    with cm(3):
        raise KeyError(1)
    with contextlib.suppress(ValueError, TypeError):
        int('x')
    with contextlib.ExitStack() as st:
        st.enter_context(cm(4))
        st.callback(log.append, 'cb')
    with contextlib.closing(io.StringIO('a\nb')) as f:
        log.extend(f.readlines())
    with contextlib.nullcontext(7) as n:
        log.append(n)
    return log


class Meta(type):
    def __new__(mcs, name, bases, ns, **kw):
        cls = super().__new__(mcs, name, bases, ns)
        cls.tag = kw.get('tag', name)
        return cls

    def __init__(cls, name, bases, ns, **kw):
        super().__init__(name, bases, ns)

    def __call__(cls, *a):
        o = super().__call__(*a)
        o.made = True
        return o

    def __len__(cls):
        return 42

    def __iter__(cls):
        return iter([1, 2])

    def __contains__(cls, x):
        return x == 1


class WithMeta(metaclass=Meta, tag='T'):
    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)
        cls.sub = cls.__name__

    def __set_name__(self, o, n):
        pass


class SubMeta(WithMeta):
    pass


class Desc(object):
    def __set_name__(self, owner, name):
        self.name = '_' + name

    def __get__(self, o, t=None):
        return self if o is None else getattr(o, self.name, None)

    def __set__(self, o, v):
        setattr(o, self.name, v * 2)

    def __delete__(self, o):
        delattr(o, self.name)


class Uses(object):
    d = Desc()


def t_meta():
    u = Uses()
    u.d = 4
    out = [WithMeta.tag, WithMeta().made, len(WithMeta), list(WithMeta), 1 in WithMeta, SubMeta.sub, SubMeta.tag, u.d, type(Uses.d).__name__]
    del u.d
    out.append(u.d)
    K = type('K', (object,), {'f': lambda self: 3, 'x': 1})
    out += [K().f(), K.x, K.__name__, isinstance(K, type), K.__mro__[-1] is object, types.SimpleNamespace(a=1).a]
    K2 = types.new_class('K2', (K,), {}, lambda ns: ns.update(y=2))
    out.append(K2.y)
    return out


def t_generators():
    def g():
        x = yield 1
        y = yield x
        return y

    def h():
        r = yield from g()
        yield r

    it = h()
    out = [next(it), it.send(5), it.send(6)]
    out.append(next(it, 'end'))

    def early():
        try:
            yield 1
        finally:
            out.append('closed')
    e = early()
    next(e)
    e.close()
    out.append(sum(x * x for x in range(4)))
    a, *b, c = range(5)
    out.append((a, b, c))
    out.append([*range(2), *'ab'])
    out.append(list(iter(iter([1, 2, 0, 3]).__next__, 0)))
    return out


def t_text():
    s = 'Hello, World'
    name, v = 'x', 3.14159
    return [f'{name!r:>5}|{v:.2f}|{5:04d}|{255:#x}|{name=}', '{0.real} {1[0]} {k}'.format(5, 'ab', k=1), '%-5s|%05d|%x' % ('a', 3, 255), s.partition(', '),
            s.rpartition('l'), s.swapcase(), s.title(), s.casefold(), s.zfill(15), s.center(16, '*'), s.expandtabs(), s.splitlines(), s.removeprefix('Hel'),
            s.removesuffix('ld'), s.translate(str.maketrans('lo', 'LO')), s.find('o', 5), s.rindex('o'), s.isupper(), 'a1'.isalnum(), 'a_1'.isidentifier(),
            textwrap.dedent('  a\n    b'), textwrap.indent('a\nb', '> '), string.ascii_lowercase[:3], string.Template('$a b').substitute(a=1),
            '\n'.join(textwrap.wrap('aa bb cc dd', 5)), 'abc'[::-1], 'a,b,,c'.split(','), ' a b '.split(), 'a-b-c'.rsplit('-', 1), 'x'.encode('ascii').hex(),
            re.sub(r'(\w)(\d)', r'\2\1', 'a1 b2'), re.split(r'[,;]\s*', 'a, b;c'), [m.group('n') for m in re.finditer(r'(?P<n>\d+)', 'a12b3')],
            re.fullmatch(r'\d+', '12') is not None, re.compile('^a', re.M | re.I).findall('a\nA'), re.escape('a.b'), re.match(r'(a)|(b)', 'b').groups(),
            re.sub(r'\d', lambda m: str(int(m.group()) + 1), 'a1b2'), re.search('b+', 'abbb').span()]


def t_views():
    m = memoryview(b'abcdef')
    ba = bytearray(b'abc')
    ba += b'de'
    ba[0] = 65
    ba[1:3] = b'XYZ'
    ba.extend([1, 2])
    ba.append(3)
    del ba[-1]
    return [bytes(m[2:4]), len(m), m[0], m.tobytes()[1:2], bytes(ba), bytes(ba[::2]), ba.find(b'X'), bytes([1, 2]) + bytes(2), b'ab' * 2, b'%d-%s' % (5, b'x'),
            bytes.fromhex('0a0b'), b'abc'[1], b'abc'[1:], list(b'ab'), b'a' < b'b', max(b'ab'), ba.index(b'X'), b','.join([b'a', b'b']), m[1:3] == b'bc',
            bytearray(3) == b'\0\0\0', bytes(reversed(b'ab')), b'ab'.center(4, b'.')]


def t_exceptions():
    class E(ValueError):
        def __init__(self, code, msg='m'):
            super().__init__(msg)
            self.code = code
    out = []
    try:
        try:
            raise KeyError('k')
        except KeyError as e:
            raise E(5) from e
    except (TypeError, E) as e:
        out += [e.code, str(e), type(e.__cause__).__name__, e.args]
    else:
        out.append('no')
    finally:
        out.append('fin')
    try:
        assert 1 == 2, 'msg'
    except AssertionError as e:
        out.append(str(e))

    def f():
        for i in range(3):
            try:
                if i == 1:
                    continue
                if i == 2:
                    return i
            finally:
                out.append('f%d' % i)
    out.append(f())
    try:
        raise E(1).with_traceback(None)
    except Exception as e:
        out.append(isinstance(e, ValueError))
    try:
        [][1]
    except LookupError as e:
        out.append(type(e).__name__)
    try:
        next(iter([]))
    except StopIteration:
        out.append('stop')
    for x in []:
        pass
    else:
        out.append('else')
    return out


def t_typing_and_misc():
    def f(a: int, /, b: Optional[str] = None, *, c: Dict[str, List[int]] = {}) -> Tuple[int, ...]:
        return a, b, len(c)
    x: Union[int, str] = 5
    Alias = List[int]
    total: int
    total = 1
    d = {'b': 1, 'a': 2}
    g = globals()
    return [f(1), f(1, 'x', c={'q': []}), x, total, sorted(d.items(), key=operator.itemgetter(0)), min(d, key=d.get), 't_text' in g, sys.maxsize > 2 ** 31,
            copy.copy([1, [2]]), copy.deepcopy({'a': [1]}), callable(f), f.__name__, getattr(f, 'zz', 5), vars(types.SimpleNamespace(q=1)), isinstance(3, (int, str)),
            issubclass(bool, int), round(2.5), round(3.14159, 2), abs(-3), list(zip('ab', range(9), strict=False)), all([]), any([0, 1]), [[0] * 2 for _ in range(2)],
            sum([[1], [2]], []), 1 < 2 < 3, not None, (lambda *a, **k: (a, k))(1, z=2), {x: y for x, y in enumerate('ab')}, {1, 2} & {2, 3}, {1} | {2}, {1, 2} - {1},
            {1} <= {1, 2}, frozenset([1]) in {frozenset([1])}, 'a' 'b', 0x1F, 0o17, 0b11, 1_000, 3 // 2, -3 % 5, 2 ** -1, 7 / 2, int('ff', 16), int('0x1f', 0), ord('a'), chr(98),
            os.path.join('a', '..', 'b'), os.path.normpath('a/../b/./c'), os.path.splitext('x/y.tar.gz'), os.path.relpath('/a/b/c', '/a'), os.path.basename('/x/y'),
            slice(1, 5, 2).indices(10), list(range(10))[slice(1, 5, 2)], bool([]), id(f) == id(f), str(None), repr('a\n'), hash('a') == hash('a'), type(1) is int]


class Base(object):
    reg = {}

    def __init__(self, *args, **kwargs):
        self.args = args
        for k, v in kwargs.items():
            setattr(self, k, v)

    def __getattr__(self, n):
        if n.startswith('dyn_'):
            return n[4:]
        raise AttributeError(n)

    def __call__(self, x):
        return x + 1

    def __getitem__(self, i):
        return ('item', i)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return True

    def __bool__(self):
        return False

    def __str__(self):
        return 'S'

    def __repr__(self):
        return 'R'

    def __format__(self, s):
        return 'F' + s

    def __iter__(self):
        yield from self.args

    def __add__(self, o):
        return 'add'

    def __radd__(self, o):
        return 'radd'

    def __neg__(self):
        return 'neg'

    def __index__(self):
        return 2

    def __missing__(self, k):
        return k

    @staticmethod
    def sm(x):
        return x

    @classmethod
    def cm(cls):
        return cls.__name__


class Mixin(object):
    def hello(self):
        return 'mixin ' + super().hello()


class Root(object):
    def hello(self):
        return 'root'


class Both(Mixin, Root):
    def hello(self):
        return 'both ' + super(Both, self).hello()


class Dd(dict):
    def __missing__(self, k):
        self[k] = k * 2
        return self[k]


def t_objects():
    b = Base(1, 2, q=5)
    with b as w:
        raise ValueError()
    return [b.dyn_x, b.q, b(4), b[3], b[1:2], bool(b), str(b), repr(b), f'{b:>3}', list(b), b + 1, 1 + b, -b, [10, 20, 30][b], Base.sm(3), Base.cm(), Both().hello(),
            [c.__name__ for c in Both.__mro__], Dd()['ab'], hasattr(b, 'nope'), w is b, '%s %r' % (b, b), type(b) is Base, b.__class__.__name__, isinstance(b, Base)]


def t_closures():
    fs = [lambda i=i: i for i in range(3)]

    def counter():
        n = 0

        def inc(k=1):
            nonlocal n
            n += k
            return n
        return inc
    c = counter()
    c()
    out = [[f() for f in fs], c(5)]

    def deco(*names):
        def wrap(cls):
            for n in names:
                setattr(cls, n, property(lambda self, n=n: n.upper()))
            return cls
        return wrap

    @deco('aa', 'bb')
    class Z(object):
        pass
    out += [Z().aa, Z().bb]
    table = {'+': operator.add, '-': operator.sub, '<<': operator.lshift, '//': operator.floordiv}
    out += [table['+'](1, 2), table['<<'](1, 3), operator.attrgetter('aa')(Z()), operator.methodcaller('upper')('x')]
    try:
        out.append(undefined_name)
    except NameError as e:
        out.append(str(e))
    while True:
        break
    else:
        out.append('never')
    return out
