def t_pathlib():
    from pathlib import Path, PurePosixPath
    p = PurePosixPath('/a/b/c.tar.gz')
    return [p.name, p.stem, p.suffix, str(p.parent), str(p / '..' / 'x'), p.parts, str(p.with_suffix('.x')), str(Path('a') / 'b'), Path('a/b.prophy').stem, p.is_absolute(), str(p.relative_to('/a')), p.as_posix(), [str(x) for x in p.parents], str(p.with_name('q')), str(p.joinpath('a', 'b')), PurePosixPath('a') == PurePosixPath('a/')]

def t_graphlib():
    import graphlib
    ts = graphlib.TopologicalSorter({'c': ['a', 'b'], 'b': ['a']})
    out = list(ts.static_order())
    try:
        list(graphlib.TopologicalSorter({'a': ['b'], 'b': ['a']}).static_order())
    except graphlib.CycleError as e:
        out.append('cycle')
    return out

def t_shlex():
    import shlex
    return [shlex.split('a "b c" d'), shlex.quote('a b')]

def t_heapq_bisect():
    import heapq, bisect
    h = [3, 1, 2]
    heapq.heapify(h)
    heapq.heappush(h, 0)
    out = [heapq.heappop(h) for _ in range(len(h))]
    l = [1, 3, 5]
    bisect.insort(l, 4)
    return [out, bisect.bisect_left(l, 3), bisect.bisect(l, 3), l, heapq.nsmallest(2, [3, 1, 2]), list(heapq.merge([1, 3], [2]))]

def t_math():
    import math
    return [math.ceil(7 / 4), math.floor(2.5), math.gcd(12, 18), math.log2(8), math.isnan(float('nan')), math.prod([1, 2, 3]), math.inf > 1, math.lcm(4, 6), math.sqrt(16), math.isinf(1.0), math.copysign(1, -0.0), math.trunc(2.7)]

def t_binary():
    import binascii, array, io, sys, base64, zlib
    b = io.BytesIO()
    b.write(b'ab')
    b.write(b'c')
    b.seek(1)
    return [binascii.hexlify(b'\x01\xff'), binascii.unhexlify('01ff'), b.read(1), b.getvalue(), b.tell(), sys.byteorder]

def t_logging():
    import logging
    log = logging.getLogger(__name__)
    log.debug('x %s', 1)
    log.addHandler(logging.NullHandler())
    return [log.name != '', log.isEnabledFor(logging.ERROR)]

def t_inspect():
    import inspect, collections.abc, numbers, weakref, fractions, keyword, traceback
    def f(a, b=1, *c, **d): pass
    class C(object):
        """doc"""
        def m(self): pass
    c = C()
    r = weakref.ref(c)
    w = weakref.WeakKeyDictionary()
    w[c] = 1
    wv = weakref.WeakValueDictionary()
    wv['a'] = c
    return [inspect.isclass(C), inspect.isfunction(f), C.__doc__, inspect.getdoc(C), isinstance([], collections.abc.Sequence), isinstance({}, collections.abc.Mapping), isinstance((), collections.abc.Iterable), isinstance(f, collections.abc.Callable), isinstance(3, numbers.Integral), isinstance(True, numbers.Number), r() is c, w[c], wv['a'] is c, keyword.iskeyword('class'), inspect.ismethod(c.m)]

def t_abcs():
    import collections.abc
    class Seq(collections.abc.MutableSequence):
        def __init__(self, l): self.l = list(l)
        def __getitem__(self, i): return self.l[i]
        def __setitem__(self, i, v): self.l[i] = v
        def __delitem__(self, i): del self.l[i]
        def __len__(self): return len(self.l)
        def insert(self, i, v): self.l.insert(i, v)
    s = Seq([1, 2, 3])
    s.append(4); s.extend([5, 6]); s.remove(2); x = s.pop(); s.reverse(); s += [9]
    class M(collections.abc.Mapping):
        def __init__(self, d): self.d = d
        def __getitem__(self, k): return self.d[k]
        def __iter__(self): return iter(self.d)
        def __len__(self): return len(self.d)
    m = M({'a': 1})
    class U(collections.UserDict):
        def __setitem__(self, k, v): super().__setitem__(k, v * 2)
    u = U(a=1); u['b'] = 2
    ul = collections.UserList([1]); ul.append(2)
    return [s.l, x, s.index(3), s.count(3), 3 in s, list(s), list(reversed(s)), m.get('a'), m.get('z', 0), list(m.items()), 'a' in m, list(m.keys()), dict(u), list(ul), ul == [1, 2], {**m, 'q': 2}, (lambda **k: k)(**u), m == {'a': 1}]

def t_stringio():
    import io, csv
    s = io.StringIO()
    print('a', 1, sep='-', end=';', file=s)
    s.write('x\n')
    s.writelines(['p', 'q'])
    r = 0
    return [s.getvalue(), r, io.StringIO('a\nb').read(), [l.rstrip() for l in io.StringIO('a\nb\n')], io.StringIO('a\nb').readline()]

def t_dataclass2():
    import dataclasses
    @dataclasses.dataclass(frozen=True, order=True)
    class P:
        x: int
        y: int = 0
        z: list = dataclasses.field(default_factory=list, compare=False, repr=False)
        def __post_init__(self):
            object.__setattr__(self, 'w', self.x + self.y)
    p = P(1, 2)
    out = [p.w, P(1) < P(2), p == P(1, 2), hash(p) == hash(P(1, 2)), dataclasses.replace(p, y=5).w, dataclasses.astuple(p), [f.name for f in dataclasses.fields(P)], dataclasses.asdict(p)]
    try:
        p.x = 5
    except dataclasses.FrozenInstanceError:
        out.append('frozen')
    return out

def t_fnmatch():
    import fnmatch, difflib, pprint, datetime, decimal
    return [fnmatch.fnmatch('a.py', '*.py')]
