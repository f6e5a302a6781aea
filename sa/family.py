"""Finite families of schema shapes.

A struct is a sequence of members; what a codec can depend on is, per member, its kind and the size,
alignment and stiffness of its type.  The families below contain every combination of those
attributes the schema language can produce up to the stated sequence length and nesting depth.
"""

import itertools

from .spec import (BYTE, Enum, I8, I16, I32, I64, M, R32, R64, Struct, Typedef, U16, U32, U64, U8, Union, PRIMS)

E1 = Enum('E1', [('E1_A', 2), ('E1_B', 7), ('E1_C', 0xFFFFFFFF)])       # no enumerator 0 or 1
E5 = Enum('E5', [('E5_A', 7), ('E5_B', 2), ('E5_C', 0)])                    # the first is not the least
E0 = Enum('E0', [('E0_A', 0), ('E0_B', 1)])
TU16 = Typedef('TU16', U16)
TE1 = Typedef('TE1', E1)

# fixed structs by (size, alignment)
F3 = Struct('F3', [M('a', U8, 'fixed', 3)])                              # 3, 1
F4 = Struct('F4', [M('a', U16), M('b', U8)])                             # 4, 2
F8 = Struct('F8', [M('a', U8), M('b', U32)])                             # 8, 4
F12 = Struct('F12', [M('a', U32), M('b', U16), M('c', U32)])             # 12, 4
F16 = Struct('F16', [M('a', U64), M('b', U8)])                           # 16, 8
FO = Struct('FO', [M('a', U8), M('b', U8, 'opt')])                       # flag alignment wider than the value's
FO2 = Struct('FO2', [M('a', U16, 'opt')])
FO8 = Struct('FO8', [M('a', U8), M('b', U64, 'opt')])
FL = Struct('FL', [M('a', U8, 'lim', 3)])
FLS = Struct('FLS', [M('a', F4, 'lim', 2), M('b', U8)])
FB = Struct('FB', [M('a', BYTE, 'lim', 5)])
FE = Struct('FE', [M('a', U8), M('b', E1)])
TF4 = Typedef('TF4', F4)
# unions
N1 = Union('N1', [(1, 'a', U8), (2, 'b', F4)])                           # 8, 4
N8 = Union('N8', [(1, 'a', U64), (3, 'b', U8), (7, 'c', F3)])            # 16, 8
NO = Union('NO', [(0, 'a', FO), (5, 'b', U16), (6, 'c', E1)])
NN = Union('NN', [(2, 'a', N8), (4, 'b', U8)])
# dynamic structs
D1 = Struct('D1', [M('a', U8, 'dyn')])
D2 = Struct('D2', [M('a', U16, 'dyn'), M('b', U8)])
D8 = Struct('D8', [M('a', U64, 'dyn')])
DB = Struct('DB', [M('a', BYTE, 'dyn'), M('b', U16), M('c', U64)])
DD = Struct('DD', [M('a', U8, 'dyn'), M('b', U8, 'dyn')])
DS = Struct('DS', [M('a', F4, 'dyn')])
DN = Struct('DN', [M('a', U8), M('b', D1), M('c', U16)])
DO = Struct('DO', [M('a', U8, 'dyn'), M('b', U16, 'opt')])
DA = Struct('DA', [M('a', D1, 'dyn'), M('b', U8)])
DX = Struct('DX', [M('n', U8), M('a', U16, 'ext', sizer='n')])
D64 = Struct('D64', [M('a', U8, 'dyn'), M('b', U64)])
# unlimited structs
G1 = Struct('G1', [M('a', U8, 'greedy')])
G4 = Struct('G4', [M('a', U16), M('b', U32, 'greedy')])
GB = Struct('GB', [M('a', BYTE, 'greedy')])
GS = Struct('GS', [M('a', F8, 'greedy')])
GD = Struct('GD', [M('a', U8, 'dyn'), M('b', U16, 'greedy')])

FIXED = [F3, F4, F8, F12, F16, FO, FO2, FO8, FL, FLS, FB, FE, N1, N8, NO, NN]
DYNAMIC = [D1, D2, D8, DB, DD, DS, DN, DO, DA, DX, D64]
UNLIMITED = [G1, G4, GB, GS, GD]


def mk(kind, t, n=None, sizer=None):
    def f(i):
        nm = 'm%d' % i
        if kind == 'ext':
            return [M('n%d' % i, sizer), M(nm, t, 'ext', sizer='n%d' % i)]
        return [M(nm, t, kind, n)]
    f.kind, f.type, f.sizer, f.n = kind, t, sizer, n
    f.label = repr(f(0)[-1])
    return f


def templates(level):
    """Member templates; level 0 = core representatives, 1 = all."""
    t = []
    core = level == 0
    for p in ([U8, U16, U32, U64] if core else PRIMS):
        t.append(mk('plain', p))
    t.append(mk('plain', E1))
    if not core:
        t.append(mk('plain', E5))
    for p in ([U8, U64] if core else [U8, U16, U32, U64, R64, E1, TU16]):
        t.append(mk('opt', p))
    for c in ([F4, F16] if core else [F3, F4, F8, F16, FO, FO8, FL, N1, N8, TF4]):
        t.append(mk('opt', c))
    for c in ([F3, F4, F8, F16, FO, N8] if core else FIXED + [TU16, TE1, TF4]):
        t.append(mk('plain', c))
    for c in ([D1, D2, D64, DN] if core else DYNAMIC):
        t.append(mk('plain', c))
    for p in ([U16, F3] if core else [U8, I16, U32, R32, I64, E1, F3, F4, F8, F16, FO, N1, N8, TU16]):
        t.append(mk('fixed', p, 3))
    for p in ([U8, U64, F4, D1] if core else [U8, I16, U32, I64, R64, E1, F3, F4, F12, F16, FO, N1, N8, TU16, TE1] + DYNAMIC):
        t.append(mk('dyn', p))
    for p in ([U8, U64, F8] if core else [U8, U16, U32, U64, R32, E1, F3, F4, F8, F16, FO, N8, TU16]):
        t.append(mk('lim', p, 3))
    t.append(mk('fixed', BYTE, 3))
    t.append(mk('dyn', BYTE))
    t.append(mk('lim', BYTE, 5))
    t.append(mk('ext', U16, sizer=U8))
    if not core:
        t.append(mk('ext', BYTE, sizer=U16))
        t.append(mk('ext', U8, sizer=U32))
        t.append(mk('ext', U64, sizer=I8))
        t.append(mk('ext', F4, sizer=U64))
        t.append(mk('ext', D1, sizer=U8))
        t.append(mk('ext', E1, sizer=I32))
    return t


def last_templates(level):
    """Members allowed only in the last position."""
    t = []
    for p in ([U8, U32, BYTE, F8] if level == 0 else [U8, U16, U32, U64, R32, BYTE, E1, F3, F4, F8, F16, FO, N8, D1, D2, D64]):
        t.append(mk('greedy', p))
    for c in ([G1, G4] if level == 0 else UNLIMITED):
        t.append(mk('plain', c))
    return t


def build(seq, name='X'):
    ms = []
    for i, f in enumerate(seq):
        ms += f(i)
    return Struct(name, ms)


def structs(seqs):
    for s in seqs:
        yield build(s)


def singles():
    return [(t,) for t in templates(1) + last_templates(1)]


def pairs():
    ts, ls = templates(1), last_templates(1)
    return [(a, b) for a in ts for b in ts + ls]


def core_triples():
    ts, ls = templates(0), last_templates(0)
    return [(a, b, c) for a in ts for b in ts for c in ts + ls]


def blocks():
    """Blocks after a dynamic member which begin with a member of small alignment."""
    ts, ls = templates(1), last_templates(1)
    out = [Struct('X', [M('a', (U8, BYTE, U16)[i % 3], 'dyn'), M('x', U8)] + f(0)) for i, f in enumerate(ts + ls)]
    out += [Struct('X', [M('a', (D1, D2)[i % 2]), M('x', U8), M('y', U16)] + f(0) + [M('z', U8)]) for i, f in enumerate(ts)]
    return out


def unions():
    arms = [U8, U16, U32, U64, I32, R32, E1, F3, F4, F8, F16, FO, FO8, FL, N1, N8, TU16]
    out = []
    for i, (a, b) in enumerate(itertools.product(arms, arms)):
        out.append(Union('W%d' % i, [(1, 'a', a), (2 + i % 7, 'b', b)]))
    return out


def externals():
    """Several arrays sharing one sizer, in various positions."""
    out = []
    for st in [U8, U16, U32, U64, I8, I16, I32, I64]:
        out.append(Struct('X', [M('n', st), M('a', U8, 'ext', sizer='n'), M('b', U16, 'ext', sizer='n')]))
        out.append(Struct('X', [M('n', st), M('z', U8), M('a', U64, 'ext', sizer='n'), M('y', U16),
                                M('b', BYTE, 'ext', sizer='n'), M('w', U8)]))
        out.append(Struct('X', [M('p', U8), M('n', st), M('q', U8, 'opt'), M('a', F4, 'ext', sizer='n')]))
    out.append(Struct('X', [M('n', U8), M('k', U16), M('a', U16, 'ext', sizer='k'), M('b', U8, 'ext', sizer='n')]))
    return out
