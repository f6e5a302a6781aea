"""Snippets whose value the abstract interpreter has to compute as Python does: see run.py."""
import struct
import functools
import itertools
import operator
import re
import os
import collections
from collections import OrderedDict, namedtuple, defaultdict, deque, Counter, ChainMap
from contextlib import contextmanager, suppress, closing, ExitStack
import string
import math
import copy
import io
import textwrap
import enum
import abc
import types
import typing
from typing import List, Dict, Optional, NamedTuple
import dataclasses
from dataclasses import dataclass, field
import bisect
import heapq


def t_bytearray():
    b = bytearray()
    b += b'ab'
    b.extend(b'cd')
    b.append(7)
    b.extend([1, 2])
    b[0] = 9
    b[1:3] = b'xyz'
    del b[0]
    struct.pack_into('>H', b, 1, 258)
    b.insert(0, 5)
    return bytes(b), len(b), b.pop(), bytes(b[1:]), b == bytes(b), list(b)


def t_memoryview():
    m = memoryview(b'abcdef')
    n = m[2:5]
    w = bytearray(4)
    v = memoryview(w)
    v[1:3] = b'zz'
    return bytes(n), n.tobytes(), len(n), n[0], bytes(w), struct.unpack_from('<H', m, 2), struct.unpack('>H', m[0:2])


def t_struct():
    s = struct.Struct('<IH')
    p = s.pack(1, 2)
    return p, s.size, s.unpack(p), s.unpack_from(p, 0), list(struct.iter_unpack('<H', b'abcd')), struct.calcsize('>Q')


def t_int_bytes():
    return (258).to_bytes(2, 'big'), (5).to_bytes(4, 'little'), int.from_bytes(b'\x01\x02', 'big'), \
        (-1).to_bytes(2, 'little', signed=True), int.from_bytes(b'\xff', 'little', signed=True), bytes([1, 2]), bytes(3)


def t_walrus():
    out = []
    it = iter([3, 2, 1, 0])
    while (x := next(it)):
        out.append(x)
    if any((y := v) > 2 for v in [1, 5, 2]):
        out.append(y)
    return out, [z := 3, z ** 2]


def t_match():
    def f(v):
        match v:
            case 0:
                return 'zero'
            case int() as n if n < 0:
                return 'neg'
            case [a, b]:
                return ('pair', a, b)
            case [a, *rest]:
                return ('seq', a, rest)
            case {'k': k, **others}:
                return ('map', k, others)
            case 'x' | 'y':
                return 'xy'
            case str(s):
                return 'str ' + s
            case None:
                return 'none'
            case P(1, yy):
                return ('P1', yy)
            case P(x=xx):
                return ('P', xx)
            case _:
                return 'other'
    return [f(v) for v in (0, -4, [1, 2], (1, 2, 3), {'k': 1, 'l': 2}, 'y', 'zz', None, P(1, 2), P(3, 4), 1.5)]


@dataclass
class P:
    x: int
    y: int = 2


@dataclass(frozen=True, order=True)
class Q:
    a: int
    b: list = field(default_factory=list, compare=False)
    c: str = field(default='c', repr=False)

    def __post_init__(self):
        assert self.a >= 0


def t_dataclass():
    q = Q(1)
    q.b.append(3)
    r = dataclasses.replace(P(5), y=7)
    try:
        q.a = 2
        frozen = False
    except dataclasses.FrozenInstanceError:
        frozen = True
    return repr(P(1)), P(1) == P(1, 2), P(1) != P(2), repr(q), repr(r), Q(1) < Q(2), dataclasses.astuple(P(1)), \
        dataclasses.asdict(P(1)), [f.name for f in dataclasses.fields(P)], frozen, hash(Q(3)) == hash(Q(3))


class NT(NamedTuple):
    a: int
    b: str = 'x'

    def both(self):
        return '%s%s' % self


def t_namedtuple():
    N = namedtuple('N', 'p q')
    n = N(1, q=2)
    a, b = n
    D = namedtuple('D', ['x', 'y'], defaults=(5,))
    return n, n._replace(p=9), n._asdict(), n.p, n[1], a, b, NT(1), NT(1).both(), N._fields, D(1), n == (1, 2), N._make([7, 8])


def t_fstrings():
    x, y, name = 5, 3.25, 'ab'
    return f'{x}', f'{x:04d}', f'{y:.1f}', f'{name!r:>6}', f'{x + 1}{{}}', f'{name:<5}|', f'{x=}', f'{x:{x}}', f'{x:#x}', f"{','.join(['a', 'b'])}", f'{1000000:,}'


def t_format():
    return '{} {}'.format(1, 2), '{0}{1}{0}'.format('a', 'b'), '{a:>4}'.format(a=1), '{!r}'.format('q'), '%s %d %r %5.2f %%' % ('a', 1, 'b', 2.5), \
        '%(k)s' % {'k': 1}, '{0.x}'.format(P(4)), '{0[1]}'.format([1, 2]), '%-5s|%05d|%x' % ('a', 3, 255), '{:{w}}'.format('a', w=3), '{:^5}|'.format('a')


def t_strings():
    s = 'Hello World'
    return s.lower(), s.upper(), s.split(), s.partition(' '), s.rpartition('o'), s.replace('o', '0'), s.find('W'), s.index('W'), s.title(), s.swapcase(), \
        s.startswith(('He', 'x')), s.endswith('d'), 'a,b,c'.split(',', 1), 'a,b,c'.rsplit(',', 1), ' a '.strip(), 'xxa'.lstrip('x'), 'abc'.center(7, '*'), \
        '5'.zfill(3), 'a\nb'.splitlines(), 'abc'[::-1], 'ab' * 2, s.count('o'), 'abc'.isalpha(), '12'.isdigit(), 'a_1'.isidentifier(), \
        'abc'.translate(str.maketrans('ab', 'xy')), 'x'.join(map(str, range(3))), s.removeprefix('Hello '), s.removesuffix('ld'), 'a\tb'.expandtabs(4), 'AbC'.casefold(), s.capitalize()


def t_comprehensions():
    return [i * j for i in range(3) for j in range(3) if i != j], {i: j for i, j in zip('ab', (1, 2))}, sorted({x % 3 for x in range(7)}), \
        list(x for x in range(3)), [[j for j in range(i)] for i in range(3)], [a if a > 1 else -a for a in range(4)]


def t_generators():
    def g(n):
        for i in range(n):
            r = yield i
            if r:
                yield r * 10

    def h():
        x = yield from g(2)
        yield ('end', x)

    def ret():
        yield 1
        return 5

    def outer():
        v = yield from ret()
        yield v
    a = g(3)
    return list(h()), next(a), a.send(4), next(a), list(outer()), sum(x for x in g(4)), list(map(lambda v: v + 1, g(2)))


def t_closures():
    def counter():
        n = 0

        def inc(by=1):
            nonlocal n
            n += by
            return n
        return inc
    c = counter()
    c()
    fs = [lambda x, k=k: x + k for k in range(3)]
    return c(5), [f(10) for f in fs]


def t_args():
    def f(a, b=2, *args, c, d=4, **kw):
        return a, b, args, c, d, kw

    def g(a, /, b, *, c=3):
        return a, b, c
    t = (1, 2)
    k = {'c': 5}
    return f(1, c=3), f(1, 2, 3, 4, c=5, e=6), f(*t, *t, **k), g(1, b=2), g(*[1], **{'b': 3}), (lambda *a, **k: (a, k))(1, x=2)


def t_star():
    a, *b = [1, 2, 3]
    *c, d = 'xyz'
    e, (f, g), *h = 1, (2, 3), 4, 5
    i = [*range(2), *b]
    j = {**{'a': 1}, 'b': 2}
    k, = (7,)
    return a, b, c, d, e, f, g, h, i, j, (*i, 9), {*i} == {0, 1, 2, 3}, k


def t_slices():
    x = list(range(10))
    x[2:4] = [0]
    del x[::3]
    y = x[:]
    y[-1:] = []
    y[1::2] = [7] * len(y[1::2])
    return x, y, x[-2:], x[::-1], 'abcdef'[1:-1:2], (1, 2, 3)[1:], b'abcd'[1:3], slice(1, 5, 2).indices(4)


def t_dicts():
    d = {'a': 1, 'b': 2}
    d.update(c=3)
    d.setdefault('d', []).append(4)
    e = d | {'z': 0}
    e |= {'y': 1}
    d.pop('a')
    return d, e, list(d.items()), sorted(d.keys()), d.get('q', 7), 'b' in d, dict.fromkeys('ab', 0), dict(zip('xy', (1, 2))), \
        {k: v for k, v in d.items() if k != 'b'}, list(reversed(d)), d == dict(d), d.keys() & {'b'} == {'b'}, max(e, key=str), dict([(1, 2)])


def t_sets():
    s = {1, 2, 3}
    t = frozenset([2, 3, 4])
    s.add(9)
    s.discard(1)
    u = set(s)
    u |= {100}
    return sorted(s), sorted(s & t), sorted(s | t), sorted(s - t), sorted(s ^ t), s <= {2, 3, 9, 10}, s.isdisjoint({77}), sorted(u), len({}), sorted(s.union([5])), s > {2}


def t_itertools():
    return list(itertools.chain([1], (2, 3))), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.islice(itertools.count(5), 3)), \
        [(k, list(g)) for k, g in itertools.groupby('aabbb')], list(itertools.accumulate([1, 2, 3])), list(itertools.product('ab', repeat=2)), \
        list(itertools.takewhile(lambda x: x < 3, range(9))), list(itertools.dropwhile(lambda x: x < 3, range(5))), list(itertools.zip_longest([1], [2, 3])), \
        list(itertools.repeat(1, 3)), list(itertools.combinations('abc', 2)), list(itertools.permutations('ab')), list(itertools.starmap(pow, [(2, 3)])), \
        list(itertools.pairwise([1, 2, 3])), list(itertools.compress('abc', [1, 0, 1])), list(itertools.filterfalse(None, [0, 1])), \
        [list(x) for x in itertools.tee([1, 2])], list(itertools.islice(itertools.cycle('ab'), 3))


def t_functools():
    @functools.lru_cache(maxsize=None)
    def fib(n):
        return n if n < 2 else fib(n - 1) + fib(n - 2)

    @functools.wraps(fib)
    def w():
        return 1

    @functools.singledispatch
    def sd(x):
        return 'any'

    @sd.register(int)
    def _(x):
        return 'int'

    @sd.register
    def _(x: str):
        return 'str'
    return functools.reduce(operator.add, [1, 2, 3]), functools.partial(pow, 2)(5), fib(10), w.__name__, sd(1), sd('a'), sd(None), \
        sorted([3, 1, 2], key=functools.cmp_to_key(lambda a, b: b - a)), functools.reduce(lambda a, b: a * b, [2, 3], 5)


class Cached:
    def __init__(self):
        self.n = 0

    @functools.cached_property
    def val(self):
        self.n += 1
        return self.n


def t_cached_property():
    c = Cached()
    return c.val, c.val, c.n


def t_operator():
    return operator.itemgetter(1)([1, 2]), operator.itemgetter(0, 2)('abc'), operator.attrgetter('x')(P(3)), operator.methodcaller('upper')('a'), \
        operator.mul(2, 3), operator.or_(1, 2), operator.lshift(1, 3), operator.contains([1], 1), operator.not_(0), operator.neg(3), operator.eq(1, 1)


def t_collections():
    dd = defaultdict(list)
    dd['a'].append(1)
    od = OrderedDict([('x', 1), ('y', 2)])
    od.move_to_end('x')
    dq = deque([1, 2, 3], maxlen=2)
    dq.appendleft(0)
    c = Counter('abca')
    cm = ChainMap({'a': 1}, {'a': 2, 'b': 3})
    return dict(dd), list(od), list(dq), c['a'], c.most_common(1), cm['a'], cm['b'], sorted(c.elements()), list(od.items()), 'q' in dd, od.popitem(last=False)


class Base:
    count = 0
    __slots__ = ()

    def __init_subclass__(cls, tag=None, **kw):
        super().__init_subclass__(**kw)
        cls.tag = tag
        Base.count += 1

    @classmethod
    def make(cls, *a):
        return cls(*a)

    @staticmethod
    def st(x):
        return x * 2

    @property
    def prop(self):
        return self.tag


class Child(Base, tag='T'):
    def __init__(self, v=0):
        super().__init__()
        self.v = v

    def __repr__(self):
        return 'Child(%r)' % self.v

    def __eq__(self, o):
        return isinstance(o, Child) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __lt__(self, o):
        return self.v < o.v

    def __add__(self, o):
        return Child(self.v + (o.v if isinstance(o, Child) else o))
    __radd__ = __add__

    def __iadd__(self, o):
        self.v += 100
        return self

    def __len__(self):
        return self.v

    def __getitem__(self, i):
        if i >= self.v:
            raise IndexError(i)
        return i * 10

    def __contains__(self, x):
        return x == 'magic'

    def __call__(self, *a):
        return a

    def __bool__(self):
        return True

    def __getattr__(self, n):
        if n.startswith('dyn_'):
            return n[4:]
        raise AttributeError(n)

    def __neg__(self):
        return Child(-self.v)

    def __index__(self):
        return self.v

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        return t is ValueError


def t_classes():
    c = Child.make(3)
    d = c + 1
    c += 1
    with Child() as z:
        raise ValueError
    return c, d, 5 + Child(1), sum([Child(1), Child(2)], Child(0)), len(c) > 3, list(Child(3)), 'magic' in c, c(1, 2), c.dyn_x, hasattr(c, 'q'), c.prop, \
        Child.st(4), -d, [0, 1, 2, 3, 4][Child(2)], sorted([Child(3), Child(1)]), {Child(1): 2}[Child(1)], Child.__name__, type(c).__mro__[1].__name__, z, \
        isinstance(c, (int, Base)), issubclass(Child, Base), c.__class__.__name__, max(Child(4), Child(2)), vars(Child(1)), Base.count >= 1


class Meta(type):
    def __new__(mcs, name, bases, ns, **kw):
        ns['added'] = name.lower()
        return super().__new__(mcs, name, bases, ns)

    def __call__(cls, *a, **k):
        o = super().__call__(*a, **k)
        o.made = True
        return o

    def __getitem__(cls, k):
        return (cls.__name__, k)

    def __iter__(cls):
        return iter([1, 2])

    @property
    def mp(cls):
        return 'mp' + cls.__name__


class WithMeta(metaclass=Meta):
    pass


def t_meta():
    Dyn = type('Dyn', (WithMeta,), {'x': 1, 'm': lambda self: self.x})
    return WithMeta.added, WithMeta().made, WithMeta['k'], list(WithMeta), WithMeta.mp, Dyn().m(), Dyn.__name__, Dyn.added


class Color(enum.Enum):
    RED = 1
    GREEN = 2
    CRIMSON = 1

    @property
    def low(self):
        return self.name.lower()


class Num(enum.IntEnum):
    A = 1
    B = enum.auto()


def t_enum():
    return Color.RED.name, Color.RED.value, Color(2) is Color.GREEN, Color['GREEN'].low, [c.name for c in Color], Num.A + 1, Num.B == 2, Color.RED is Color.CRIMSON, \
        repr(Color.RED), str(Color.RED), Color.RED == 1, isinstance(Color.RED, Color), {Color.RED: 1}[Color.RED], len(Color), sorted(Num)


class Desc:
    def __set_name__(self, owner, name):
        self.name = '_' + name

    def __get__(self, o, t=None):
        if o is None:
            return self
        return getattr(o, self.name, 'unset')

    def __set__(self, o, v):
        setattr(o, self.name, v * 2)


class HasDesc:
    d = Desc()


def t_descriptors():
    h = HasDesc()
    a = h.d
    h.d = 4
    return a, h.d, type(HasDesc.d).__name__


class Shape(abc.ABC):
    @abc.abstractmethod
    def area(self):
        pass


class Sq(Shape):
    def area(self):
        return 4


def t_abc():
    try:
        Shape()
        r = 'made'
    except TypeError:
        r = 'abstract'
    return r, Sq().area(), isinstance(Sq(), Shape)


@contextmanager
def cm(log):
    log.append('in')
    try:
        yield 5
    except KeyError:
        log.append('caught')
    finally:
        log.append('out')


def t_with():
    log = []
    with cm(log) as v:
        log.append(v)
        raise KeyError('x')
    with suppress(ValueError, TypeError):
        raise ValueError
    with cm(log) as a, cm(log) as b:
        log.append(a + b)
    with ExitStack() as st:
        st.callback(log.append, 'cb')
        st.enter_context(cm(log))
    return log


class MyErr(Exception):
    def __init__(self, msg, code=3):
        super().__init__(msg)
        self.code = code


def t_exceptions():
    out = []
    try:
        try:
            {}['x']
        except KeyError as e:
            raise MyErr('m: %s' % e) from e
    except (ValueError, MyErr) as e:
        out.append((str(e), e.code, type(e.__cause__).__name__, e.args))
    else:
        out.append('no')
    finally:
        out.append('fin')
    try:
        int('z')
    except ValueError as e:
        out.append(str(e))
    try:
        [][1]
    except IndexError as e:
        out.append(repr(e))
    for i in range(3):
        try:
            if i == 1:
                continue
            out.append(i)
        finally:
            out.append('f%d' % i)
    else:
        out.append('else')
    while True:
        break
    else:
        out.append('never')
    try:
        assert False, 'msg'
    except AssertionError as e:
        out.append(str(e))
    try:
        raise MyErr('a')
    except Exception as e:
        try:
            raise
        except MyErr as f:
            out.append(f is e)
    return out


def t_regex():
    m = re.match(r'(\w+)\s*=\s*(\d+)', 'abc = 12')
    p = re.compile(r'(?P<k>[a-z])(\d)')
    return m.group(1), m.groups(), m.start(2), re.sub(r'\d', 'x', 'a1b2'), re.findall(r'[a-z]\d', 'a1b2'), re.split(r'[,;]', 'a,b;c'), p.search('zz9').group('k'), \
        [x.group() for x in p.finditer('a1 b2')], re.sub(r'(\w)(\d)', lambda k: k.group(2) + k.group(1), 'a1'), bool(re.fullmatch('a+', 'aab')), re.escape('a.b'), \
        p.sub(r'\2\1', 'a1'), p.match('a1').groupdict(), m.end(), m.span(1), m[2]


def t_path():
    return os.path.join('a', 'b', 'c.x'), os.path.basename('/a/b.c'), os.path.splitext('a/b.c'), os.path.dirname('/a/b'), os.path.normpath('a/../b'), os.sep, \
        os.path.split('/x/y'), os.path.relpath('/a/b', '/a'), os.path.isabs('/a'), os.path.commonprefix(['ab', 'ac'])


def t_io():
    s = io.StringIO()
    s.write('ab')
    print('cd', file=s)
    print('x', 'y', sep='-', end='!', file=s)
    b = io.BytesIO()
    b.write(b'12')
    b.write(b'3')
    r = io.BytesIO(b'abcdef')
    x = r.read(2), r.tell(), r.read(), r.read(1)
    r.seek(1)
    return s.getvalue(), b.getvalue(), x, r.read(2), list(io.StringIO('a\nb\n')), len(b.getbuffer())


def t_text():
    return textwrap.dedent('  a\n  b'), textwrap.indent('a\nb', '> '), string.ascii_lowercase, string.digits, string.Template('$a b').substitute(a=1), textwrap.fill('aa bb cc', 5)


def t_numbers():
    return 7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** 10, 1 << 5, 0b101 | 0x10, ~5, 5 ^ 3, divmod(7, 2), abs(-3), round(2.5), min(3, 1, 2), max([1, 5]), sum([1, 2], 10), \
        int('ff', 16), int('0x1f', 0), hex(255), oct(8), bin(5), float('1.5'), int(3.9), bool([]), (5).bit_length(), pow(2, 5, 7), 10 / 4, 1e3, 3.0.is_integer(), \
        math.ceil(2.1), math.floor(2.9), math.gcd(4, 6), math.log2(8), int('-12'), 1_000, (7).__floordiv__(2), int.__add__(1, 2), math.inf > 5, -(-7 // 2), math.prod([2, 3]), chr(97), ord('a')


def t_sequences():
    x = [3, 1, 2]
    x.sort(reverse=True)
    y = sorted('bca', key=lambda c: -ord(c))
    z = [1] * 3 + [2]
    z.insert(1, 9)
    z.remove(1)
    return x, y, z, z.index(9), z.count(1), z.pop(), list(reversed(x)), list(enumerate('ab', 1)), list(zip([1, 2], 'ab', strict=True)), any([0, 1]), all([]), \
        (1, 2) + (3,), (1, 2) < (1, 3), [1, 2] == [1, 2], list(range(5, 0, -2)), range(3)[1], 2 in range(3), len(range(0, 10, 3)), tuple('ab'), list(filter(None, [0, 1])), \
        list(map(lambda a, b: a + b, [1], [2])), x.copy(), bisect.bisect([1, 3], 2), heapq.nsmallest(2, [3, 1, 2]), next(iter([]), 'dflt'), [None] * 2, list(zip(*[(1, 2), (3, 4)]))


def t_builtins():
    class A:
        x = 1
    a = A()
    setattr(a, 'y', 2)
    delattr(a, 'y')
    return getattr(a, 'x'), getattr(a, 'z', 5), hasattr(a, 'y'), callable(len), callable(a), isinstance(True, int), type(1) is int, type('') == str, id(a) == id(a), \
        repr('a\n'), repr(b'\x00"'), ascii('é'), str(None), repr([1, 'a', None, (1,)]), format(3, '03d'), hash('a') == hash('a'), dir(A)[-1], iter([1]).__next__(), \
        list(iter(iter([1, 2, 3]).__next__, 3)), slice(1, 2), isinstance(3, int | str), type(None).__name__, print() is None, eval('1') if False else 1, str(b'a', 'ascii'), \
        globals()['t_builtins'].__name__, len(locals()) > 0


def t_bytes():
    b = b'\x01\x02ab'
    return b[0], b[1:3], b + b'x', b * 2, b.hex(), bytes.fromhex('0a0b'), b.ljust(6, b'\0'), b.rjust(6, b'\0'), b.find(b'a'), b.startswith(b'\x01'), b.split(b'a'), \
        b.replace(b'a', b'z'), list(b), b'-'.join([b'a', b'b']), b'abc'.decode(), 'é'.encode('utf-8'), b'a' in b, 97 in b, b.count(b'a'), b'%s-%d' % (b'q', 3), b''.join(bytes((x,)) for x in b), \
        b[::-1], bytes(reversed(b)), b.zfill(6), b.index(b'b'), b.strip(b'\x01'), b.endswith(b'b'), b'ab' < b'b', bytes(b), b.isdigit(), b.center(8, b'.'), b.partition(b'a'), bool(b'')


def t_copy():
    a = [1, [2], {'k': [3]}]
    b = copy.copy(a)
    c = copy.deepcopy(a)
    a[1].append(9)
    return b, c, copy.copy(P(1)) == P(1), copy.deepcopy(P(1)) is not None


def t_decorators():
    def deco(arg):
        def wrap(f):
            @functools.wraps(f)
            def inner(*a, **k):
                return (arg, f(*a, **k))
            inner.calls = 0
            return inner
        return wrap

    @deco('x')
    def f(a):
        """doc"""
        return a

    class Reg:
        table = {}

        @classmethod
        def reg(cls, name):
            def d(fn):
                cls.table[name] = fn
                return fn
            return d

    @Reg.reg('n')
    def g():
        return 1
    return f(1), f.__name__, f.__doc__, f.calls, Reg.table['n'](), f.__wrapped__(3)


def t_annotations():
    x: int = 3
    y: Optional[List[int]] = None

    def f(a: int, *b: str, c: Dict[str, int] = None) -> 'int':
        return a
    return x, y, f(1), typing.cast(int, 5), typing.TYPE_CHECKING


def t_control():
    out = []
    for i in range(5):
        if i == 3:
            break
        elif i == 1:
            continue
        out.append(i)
    else:
        out.append('else')
    i = 0
    while i < 3:
        i += 1
        if i == 2:
            continue
        out.append(i)
    a = b = 4
    a, b = b, a + 1
    out.append(1 if a > b else 2)
    out.append(0 < a < b <= 5)
    out.append(None or 'd')
    out.append(1 and 2)
    out.append(not a)
    x = y = []
    x += [1]
    del out[0]
    global GLOB
    GLOB = 7
    return out, y, GLOB, a is not None, 1 not in [2]


def t_simplenamespace():
    n = types.SimpleNamespace(a=1, b=2)
    n.c = 3
    return n.a, vars(n), repr(n), types.MappingProxyType({'a': 1})['a']


class It:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return self

    def __next__(self):
        if self.n <= 0:
            raise StopIteration
        self.n -= 1
        return self.n

    def __reversed__(self):
        return iter('rev')


class Seq(collections.abc.MutableSequence):
    def __init__(self):
        self.v = []

    def __getitem__(self, i):
        return self.v[i]

    def __setitem__(self, i, x):
        self.v[i] = x

    def __delitem__(self, i):
        del self.v[i]

    def __len__(self):
        return len(self.v)

    def insert(self, i, x):
        self.v.insert(i, x)


def t_iterators():
    s = Seq()
    s.append(1)
    s.extend([2, 3])
    s.remove(2)
    return list(It(3)), list(reversed(It(1))), max(It(4)), s.v, s.pop(), 1 in s, list(s), s.index(1), isinstance(s, collections.abc.Sequence), isinstance([], collections.abc.Iterable), isinstance({}, collections.abc.Mapping)


class Ld(dict):
    def __missing__(self, k):
        return k * 2

    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


class Li(list):
    def second(self):
        return self[1]


class St(str):
    def __new__(cls, v, extra=0):
        o = super().__new__(cls, v.upper())
        o.extra = extra
        return o


class In(int):
    def half(self):
        return self // 2


def t_subclasses():
    d = Ld(a=1)
    s = St('abc', 5)
    return d['q'], d['a'], d.a, Li([1, 2]).second(), len(Li([1])), s, s.extra, s + 'x', In(8).half(), In(3) + 1, isinstance(s, str), sorted(Li([2, 1])), {s: 1}['ABC'], 'B' in s, St('q') == 'Q'


def t_nested_functions():
    def rec(n):
        return [] if n == 0 else rec(n - 1) + [n]

    def gen_tree(d):
        if d:
            yield from gen_tree(d - 1)
            yield d
            yield from gen_tree(d - 1)
    compose = lambda *fs: functools.reduce(lambda f, g: lambda x: f(g(x)), fs)
    return rec(3), list(gen_tree(2)), compose(str, abs)(-3)


def t_super():
    class A:
        def f(self):
            return ['A']

        @classmethod
        def c(cls):
            return [cls.__name__]

    class B(A):
        def f(self):
            return super().f() + ['B']

        @classmethod
        def c(cls):
            return super().c() + ['B']

    class C(A):
        def f(self):
            return super(C, self).f() + ['C']

    class D(B, C):
        def f(self):
            return super().f() + ['D']

        @property
        def p(self):
            return 1

        @p.setter
        def p(self, v):
            self.q = v
    d = D()
    d.p = 5
    return d.f(), D.c(), d.q, [k.__name__ for k in D.__mro__], D.f.__qualname__.split('.')[-2:], d.f.__func__ is D.f


def t_more_text_and_sets():
    import re
    import textwrap
    a, b = {1, 2, 3}, {3, 4}
    a.intersection_update([2, 3, 9], (3, 2))
    b.symmetric_difference_update([4, 5])
    it = re.compile('[(,)]').finditer('f(a, b)', 2)
    first = next(it)
    scanner = re.compile(r'\s*(\w)').scanner('a b')
    return [sorted(a), sorted(b), first.start(), [m.group() for m in it], '{a}-{b!r:>4}'.format_map({'a': 1, 'b': 'x'}),
            textwrap.indent('a\n\nb\n', '  '), textwrap.indent('a\n\nb', '  ', lambda line: True),
            scanner.match().group(1), scanner.match().group(1), scanner.match(),
            {1}.difference_update([]), 'abc'.translate({97: 'x', 98: None})]


def t_bytes_methods():
    b = b'\x00ab\x00cab\x00\x00'
    out = [b.strip(b'\x00'), b.rstrip(b'\x00'), b.lstrip(b'\x00'), b' a '.strip(), b.find(b'ab'), b.rfind(b'ab'), b.find(b'zz'),
           b.index(b'c'), b.rindex(b'a'), b.count(b'\x00'), b.count(b'ab'), b.split(b'ab'), b.split(b'\x00', 2),
           b.partition(b'c'), b.partition(b'zz'), b.replace(b'ab', b'-'), b.replace(b'\x00', b'', 1), b.endswith(b'\x00'),
           b.endswith((b'x', b'\x00\x00')), b.startswith((b'x', b'y')), b.find(b'ab', 2), b.rfind(b'ab', 0, 5), b'ab' in b,
           b'' in b, b'zz' in b, b' a  b '.split(), b.find(97), b.find(b'b', -4)]
    try:
        b.index(b'zz')
    except ValueError as e:
        out.append(str(e))
    try:
        b.split(b'')
    except ValueError as e:
        out.append(str(e))
    return out
