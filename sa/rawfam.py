"""The generated raw C++ structs, and types given to their analyses."""

from . import cppfam, cppsys, family, pysys, spec

def generate(res, types):
    """[(types, files)]; types prophyc does not take are left out."""
    c, files = cppsys.prepare(types, ('cpp',))
    if c.exc is None and files is not None:
        if 's.pp.hpp' not in files or 's.pp.cpp' not in files:
            raise pysys.AnalysisBroken('prophyc.main wrote no s.pp.hpp and s.pp.cpp: %s' % sorted(files))
        return [(types, files)]
    if len(types) == 1:
        res.skip('not accepted: ' + pysys.exc_text(c.exc) if c.exc is not None else 'generated text is not constant', types[0])
        return []
    h = len(types) // 2
    return generate(res, types[:h]) + generate(res, types[h:])


def types(ctx, quick_pairs, quick_random):
    """As for the full codec, and schemas with several arrays counted by one sizer."""
    a, b = cppfam.types(ctx, quick_pairs, quick_random)
    a = a + [t for t in family.externals() if not cppfam.own_sizers(t)] + graded()
    return a, b


def graded():
    """Blocks of falling and rising alignments after dynamic members."""
    from .spec import M, Struct, U16, U32, U64, U8
    F, out = family, []
    prims = [U8, U16, U32, U64]
    for a in prims:
        for b in prims:
            for c in prims:
                out.append(Struct('X', [M('n', U8), M('k', U8), M('l', U8), M('a', a, 'ext', sizer='n'), M('b', b, 'ext', sizer='k'),
                                        M('c', c, 'ext', sizer='l')]))
            out.append(Struct('X', [M('a', U8, 'dyn'), M('x', a), M('b', U8, 'dyn'), M('y', b), M('z', U8)]))
            out.append(Struct('X', [M('n', U8), M('x', a), M('a', U8, 'ext', sizer='n'), M('y', b), M('g', U8, 'greedy')]))
        out.append(Struct('X', [M('x', a), M('g', U8, 'greedy')]))
        out.append(Struct('X', [M('x', a), M('y', U8), M('g', U16, 'greedy')]))
        out.append(Struct('X', [M('x', a), M('y', U8), M('g', F.DA, 'greedy')]))
        out.append(Struct('X', [M('n', U8), M('x', U8, 'ext', sizer='n'), M('y', a), M('z', F.DA), M('t', U16)]))
    # counters left behind in earlier blocks
    for a in prims:
        for b in prims:
            out.append(Struct('X', [M('a', U8, 'dyn'), M('n', a), M('b', U8, 'dyn'), M('x', b), M('c', U8, 'ext', sizer='n')]))
            out.append(Struct('X', [M('a', U8, 'dyn'), M('x', b), M('b', U8, 'dyn'), M('n', a), M('c', U16, 'dyn'), M('y', U8),
                                    M('d', b, 'ext', sizer='n')]))
            out.append(Struct('X', [M('n', U8), M('a', U8, 'dyn'), M('k', a), M('b', U8, 'dyn'), M('l', U16), M('c', b, 'ext', sizer='n'),
                                    M('d', U8, 'ext', sizer='k'), M('e', U16, 'ext', sizer='l')]))
        out.append(Struct('X', [M('a', U8, 'dyn'), M('n', a), M('k', U8), M('b', U8, 'dyn'), M('c', U16, 'ext', sizer='k'),
                                M('d', U64, 'ext', sizer='n'), M('g', U8, 'greedy')]))
    for a in F.FIXED + [F.E1, F.TU16, U64]:
        out.append(Struct('X', [M('n', U8), M('a', U8, 'ext', sizer='n'), M('o', a, 'opt')]))
        out.append(Struct('X', [M('n', U8), M('a', U8, 'ext', sizer='n'), M('o', a, 'opt'), M('b', U8, 'dyn'), M('c', a)]))
        out.append(Struct('X', [M('a', U8, 'dyn'), M('o', a, 'fixed', 3), M('b', U8)]))
        out.append(Struct('X', [M('a', U8, 'dyn'), M('o', a, 'lim', 3), M('b', U16, 'greedy')]))
    return out
