"""Types given to the analyses of the C++ full codec."""

import random

from . import family, pycodec, spec
from .spec import BYTE, M, Struct, U16, U32, U64, U8

SHAPES = pycodec.FULL_SHAPES
FEW = pycodec.PAIR_SHAPES


def own_sizers(t):
    """Does every sizer count one array only, here and in all nested structs?"""
    for d in spec.deps(t):
        if isinstance(d, Struct):
            s = [m.sizer for m in d.members if m.kind == 'ext']
            if len(s) != len(set(s)):
                return False
    return True


def special():
    """Shapes whose C++ objects are laid out unlike their wire form."""
    F = family
    out = []
    for c in F.FIXED + [F.E1, F.TU16, F.TF4, U8, U64]:
        out.append(Struct('X', [M('a', U8), M('b', c, 'opt'), M('c', U8)]))
        out.append(Struct('X', [M('a', U8, 'dyn'), M('b', c, 'opt')]))
        out.append(Struct('X', [M('a', U8, 'dyn'), M('b', c), M('c', U8)]))
        out.append(Struct('X', [M('a', U8, 'dyn'), M('b', c, 'lim', 2), M('c', U8)]))
        out.append(Struct('X', [M('a', U16, 'dyn'), M('b', c, 'fixed', 2)]))
        out.append(Struct('X', [M('a', c, 'dyn'), M('b', U8)]))
    out.append(Struct('X', [M('a', BYTE, 'dyn'), M('b', BYTE, 'fixed', 2), M('c', BYTE, 'lim', 3), M('d', BYTE, 'greedy')]))
    out.append(Struct('X', [M('a', U8, 'dyn'), M('b', U16, 'dyn'), M('c', U32, 'dyn'), M('d', U64, 'dyn'), M('e', U8)]))
    out.append(Struct('X', [M('a', U64, 'dyn'), M('b', U32, 'dyn'), M('c', U16, 'dyn'), M('d', U8, 'dyn'), M('e', U64)]))
    nest = Struct('NE', [M('a', F.DA, 'dyn'), M('b', F.DN)])
    out.append(Struct('X', [M('a', nest), M('b', U8), M('c', nest, 'dyn')]))
    out.append(Struct('X', [M('n', U16), M('k', U8), M('a', F.DN, 'ext', sizer='k'), M('b', U64), M('c', U8, 'ext', sizer='n'), M('d', U16)]))
    return out


def random_types(seed, n, lo=2, hi=6):
    rnd = random.Random('cpp %s' % seed)
    ts, ls = family.templates(1), family.last_templates(1)
    out = []
    for _ in range(n):
        k = rnd.randint(lo, hi)
        seq = [rnd.choice(ts) for _ in range(k - 1)] + [rnd.choice(ts + ls) if rnd.random() < .6 else rnd.choice(ts)]
        out.append(family.build(seq))
    return out


def core():
    one = [family.build(s) for s in family.singles()]
    one += [t for t in family.externals()]
    one += [Struct('X', [M('u', u)]) for u in family.unions()[::3]]
    one += special()
    return [t for t in one if own_sizers(t)]


def types(ctx, quick_pairs, quick_random):
    """(core types, further types)"""
    pairs = [family.build(s) for s in family.pairs()]
    if ctx.quick:
        k = max(1, len(pairs) // quick_pairs)
        more = pairs[ctx.seed % k::k] + random_types(ctx.seed, quick_random)
    else:
        more = pairs + random_types(ctx.seed, 10 * quick_random)
    return core(), [t for t in family.blocks() + more if own_sizers(t)]


def tasks(ctx, quick_pairs=1200, quick_random=400, n=16):
    a, b = types(ctx, quick_pairs, quick_random)
    return [(x, SHAPES) for x in pycodec.batches(a, n)] + [(x, FEW) for x in pycodec.batches(b, n)]


class Over(spec.Shape):
    """Limited arrays filled beyond their limit."""

    def length(self, limit=None):
        n = spec.Shape.length(self)
        return n if limit is None else limit + 1 + n


def limited(t):
    return any(m.kind == 'lim' for d in spec.deps(t) if isinstance(d, Struct) for m in d.members)
