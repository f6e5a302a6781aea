"""C04: the layout prophyc computes is the documented one and the Python runtime's."""

import random
import re

from .. import cxx, family, front, pyai, pycodec, pysys, rawfam, spec
from ..dom import AB
from ..harness import run_tasks, traces
from ..pyai import PyExc, get_attr

RULES = {
    'model-size': 'byte_size of the model node of a fixed type is its documented wire size',
    'model-alignment': 'alignment of the model node is the documented one',
    'model-stiffness': 'kind of the model node is the documented stiffness',
    'python-size': 'the static size of the generated class is the documented wire size of a fixed type',
    'python-alignment': 'the static alignment of the generated class is the documented one',
    'python-stiffness': 'the generated class is dynamic/unlimited exactly when documented',
    'cpp-size': 'encoded_byte_size is the wire size of a fixed type and negative otherwise',
    'encoded-length': 'every encoding of a fixed type has the documented size',
    'model-padding': 'the padding computed after every member leads to the documented offset of the next one and to the '
                     'documented end, for every length of the variable parts',
    'raw-size': 'sizeof of the raw C++ struct or union is the wire size of a fixed type',
    'accepted': 'a valid schema is compiled',
}


def at(file, name):
    return (file, name, '?')


def want_size(t):
    return spec.size(t)


def check_node(res, world, t, node, what):
    where = at('prophyc/model.py', 'evaluate_sizes')
    stiff = spec.stiffness(t)
    kind = pysys.kind_of(world, model_attr(res, node, 'kind', what))
    if kind is not None:
        if kind == stiff:
            res.ok('model-stiffness')
        else:
            res.bad('model-stiffness', at('prophyc/model.py', 'calc_wire_stiffness'),
                    '%s is classified %s, documented: %s' % (t.name, kind, stiff), what)
    if isinstance(t, spec.Typedef):
        return
    align = model_attr(res, node, 'alignment', what)
    if align is not None:
        if align == spec.align(t):
            res.ok('model-alignment')
        else:
            res.bad('model-alignment', where, '%s: %s, documented: %s' % (t.name, align, spec.align(t)), what)
    size = model_attr(res, node, 'byte_size', what)
    if size is not None and stiff == 'fixed':
        if size == spec.size(t):
            res.ok('model-size')
        else:
            res.bad('model-size', where, '%s: %s, documented: %s' % (t.name, size, spec.size(t)), what)


def check_padding(res, t, node, what):
    """Offsets that follow from the paddings of the members, against the documented ones."""
    fs = spec.fields(t)
    members = model_attr(res, node, 'members', what)
    if not isinstance(members, list) or [pyai.unwrap(get_attr(m, 'name')) for m in members] != [f.name for f in fs]:
        return
    pads = [model_attr(res, m, 'padding', what) for m in members]
    if not all(isinstance(p, int) for p in pads):
        return
    bl = spec.blocks(t)
    for k in range(9):
        want = got = 0
        for i, f in enumerate(fs):
            want = spec.up(spec.up(want, bl.get(i, 1)), spec.field_align(f))
            if want != got:
                break
            n = 4 if f.kind == 'count' else spec.member_size(f)
            if f.kind != 'count' and spec.member_stiffness(f) != 'fixed':
                n = (k + 3 * (i % 3)) % 9 * (spec.size(f.type) if spec.stiffness(f.type) == 'fixed' else spec.align(f.type))
            want += n
            got += n
            got = spec.up(got, -pads[i]) if pads[i] < 0 else got + pads[i]
        else:
            f = None
            want = spec.up(want, spec.align(t))
        if want != got:
            res.bad('model-padding', at('prophyc/model.py', 'evaluate_struct_size'),
                    'the paddings %s of %s put %s at %d, documented: %d' % (
                        pads, t.name, 'its end' if f is None else f.name, got, want), what)
            return
    res.ok('model-padding')


def model_attr(res, node, name, what):
    try:
        return pyai.unwrap(get_attr(node, name))
    except PyExc:
        res.skip('model node without attribute %s' % name, what)
        return None


def check_class(res, t, cls, what):
    where = at('prophy/generators.py', 'add_attributes')
    stiff = spec.stiffness(t)
    for rule, name, want in (
            ('python-size', '_SIZE', spec.size(t) if stiff == 'fixed' else None),
            ('python-alignment', '_ALIGNMENT', spec.align(t)),
            ('python-stiffness', '_DYNAMIC', stiff != 'fixed'),
            ('python-stiffness', '_UNLIMITED', stiff == 'unlimited')):
        if want is None:
            continue
        try:
            got = get_attr(cls, name)
        except PyExc:
            res.skip('generated class without %s' % name, what)
            continue
        if name in ('_DYNAMIC', '_UNLIMITED'):
            got = bool(got)
        if got == want:
            res.ok(rule)
        else:
            res.bad(rule, where, '%s.%s is %s, documented: %s' % (t.name, name, got, want), what)


def check_cpp(res, t, text, what):
    m = re.search(r'\bstruct\s+%s\b[^{;]*\{[^}]*?\bencoded_byte_size\s*=\s*(-?\w+)' % re.escape(t.name), text or '')
    if not m:
        res.skip('encoded_byte_size not found', what)
        return
    want = spec.size(t) if spec.stiffness(t) == 'fixed' else -1
    if m.group(1) == str(want):
        res.ok('cpp-size')
    else:
        res.bad('cpp-size', at('prophyc/generators/cpp_full.py', 'encoded_byte_size'),
                '%s: %s, documented: %s' % (t.name, m.group(1), want), what)


def all_defs(types):
    defs = []
    for t in types:
        spec.deps(t, defs)
    return defs


def named(types):
    for i, t in enumerate(types):
        if not isinstance(t, spec.Union):
            t.name = 'X%d' % i
    return all_defs(types)


def examine(res, defs, c, what, py=True):
    nodes = None
    for k, v in dict(c.nodes).items():
        if k == 's':
            nodes = v
    if nodes is None:
        res.skip('prophyc.main does not return the model', what)
        return
    by = {get_attr(n, 'name'): n for n in nodes}
    hpp = c.written.get('/out/s.ppf.hpp')
    mod = None
    if py:
        try:
            mod = pysys.load_generated(c.world, c.written['/out/s.py'])
        except PyExc as e:
            res.skip('generated module does not load: ' + pysys.exc_text(e), what)
    for d in defs:
        if not isinstance(d, (spec.Struct, spec.Union, spec.Typedef)):
            continue
        w = '%s in %s' % (d, what)
        if d.name in by:
            check_node(res, c.world, d, by[d.name], w)
            if isinstance(d, spec.Struct):
                check_padding(res, d, by[d.name], w)
        else:
            res.bad('accepted', at('prophyc/model.py', 'evaluate_model'), '%s is missing from the model' % d.name, w)
        if isinstance(d, (spec.Struct, spec.Union)):
            if mod is not None and d.name in mod.d:
                check_class(res, d, mod.d[d.name], w)
            if hpp is not None:
                check_cpp(res, d, hpp, w)


def prophy_batch(res, task):
    types, cpp = task
    defs = named(types)
    pysys.reset()
    c = pysys.compile_defs(defs, outs=('python', 'cpp_full') if cpp else ('python',))
    if c.exc is not None:
        if len(types) > 1:
            for t in types:
                prophy_batch(res, ([t], cpp))
            return
        res.skip('not accepted: ' + pysys.exc_text(c.exc), types[0])
        return
    examine(res, defs, c, 'prophy text')


def isar_batch(res, task):
    """The same definitions in XML, in several orders."""
    types, seed = task
    defs = named(types)
    orders = [('dependency order', defs), ('reverse order', defs[::-1])]
    rnd = random.Random('%s %s' % (seed, types[0]))
    for i in range(2):
        o = list(defs)
        rnd.shuffle(o)
        orders.append(('shuffled', o))
    for name, o in orders:
        pysys.reset()
        c = front.compile_isar(o, outs=('python', 'cpp_full'))
        if c.exc is not None:
            if len(types) > 1:
                for t in types:
                    isar_batch(res, ([t], seed))
                return
            res.skip('not accepted: ' + pysys.exc_text(c.exc), types[0])
            return
        examine(res, defs, c, 'isar XML in %s: %s' % (name, ', '.join(d.name for d in o)))


def encodings(res, task):
    for t, cls in pycodec.load(res, task):
        for sh in pycodec.FULL_SHAPES:
            v = pycodec.shape_value(t, sh)
            if v is None:
                continue
            what = pycodec.describe(t, sh, '<')
            for p, got, e in traces(lambda: pycodec.encode(pycodec.build(cls, t, v), '<'), res, what):
                if e is None and isinstance(got, AB):
                    if len(got) == spec.size(t):
                        res.ok('encoded-length')
                    else:
                        res.bad('encoded-length', (got.prov[-1] if len(got) and got.prov[-1] else None) or
                                at('prophy/composite.py', 'encode'),
                                '%d bytes, documented: %d' % (len(got), spec.size(t)), what)


def raw_sizes(res, types):
    for ts, files in rawfam.generate(res, types):
        a = cxx.Asserts()
        defs = []
        for t in ts:
            spec.deps(t, defs)
        for d in defs:
            if isinstance(d, spec.Union) or isinstance(d, spec.Struct) and spec.stiffness(d) == 'fixed':
                a.add('sizeof(%s) == %d' % (d.name, spec.size(d)), ('raw-size', d.name))
        bad, other = a.split(cxx.syntax(dict(files, **{'w.cpp': '#include "s.pp.hpp"\n' + a.text()}), 'w.cpp', ('-fmax-errors=0',)))
        if other:
            if len(ts) > 1:
                for t in ts:
                    raw_sizes(res, [t])
            else:
                res.skip('the header does not compile: ' + other[0], ts[0])
            continue
        for k in a.items:
            if k[1] not in bad:
                res.ok('raw-size')
        by = {d.name: d for d in defs}
        for _, n in bad:
            res.bad('raw-size', at('prophyc/generators/cpp.py', 'translate_union' if isinstance(by[n], spec.Union) else 'translate_struct'),
                    'sizeof(%s) is not %d' % (n, spec.size(by[n])), by[n])


def typedefs():
    out = []
    for k, t in enumerate(family.FIXED + family.DYNAMIC + family.UNLIMITED + spec.PRIMS + [family.E1]):
        a = spec.Typedef('TA%d' % k, t)
        b = spec.Typedef('TB%d' % k, a)
        out.append(spec.Struct('X', [spec.M('a', spec.U8), spec.M('b', b)]))
        if spec.stiffness(t) != 'unlimited':
            out.append(spec.Struct('X', [spec.M('a', b, 'dyn'), spec.M('b', a)]))
    return out


def mixed(res, task):
    {'p': prophy_batch, 'i': isar_batch, 'e': encodings, 'r': raw_sizes}[task[0]](res, task[1])


def tasks(ctx):
    one = [family.build(s) for s in family.singles()]
    one += [spec.Struct('X', [spec.M('u', u)]) for u in family.unions()] + typedefs()
    ext = family.externals()
    pairs = [family.build(s) for s in family.pairs()]
    out = [('p', (b, True)) for b in pycodec.batches(one)] + [('p', (b, False)) for b in pycodec.batches(ext)]
    out += [('i', (b, ctx.seed)) for b in pycodec.batches(one, 10)]
    out += [('p', (b, True)) for b in pycodec.batches(pairs)]
    out += [('e', b) for b in pycodec.batches([t for t in one + (pairs if not ctx.quick else pairs[::7])
                                               if spec.stiffness(t) == 'fixed'])]
    fixed = [t for t in one + pairs if spec.stiffness(t) == 'fixed']
    out += [('r', b) for b in pycodec.batches(fixed if not ctx.quick else fixed[::4], 40)]
    out += [('p', (b, True)) for b in pycodec.batches(rawfam.graded() + family.blocks())]
    if not ctx.quick:
        out += [('i', (b, ctx.seed)) for b in pycodec.batches(pairs, 10)]
        out += [('p', (b, True)) for b in pycodec.batches([family.build(s) for s in family.core_triples()])]
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of prophyc on the schema family; size, alignment and stiffness of every model node, of the '
        'generated Python class and of encoded_byte_size in the generated C++ header are compared with the documented '
        'layout rules; the paddings of members are added up for several lengths of the variable parts, and sizeof of the raw '
        'C++ types is decided by static_assert witnesses (g++ -fsyntax-only). The same definitions are also given as isar XML in dependency, reverse and shuffled order.')
    ctx.assumptions = ['schema shapes: all member kinds singly and pairwise (triples of core kinds in the thorough tier)']
    run_tasks(ctx, mixed, tasks(ctx), 'batches of schemas')
    for r in ('model-size', 'model-alignment', 'model-stiffness', 'python-alignment', 'python-stiffness', 'cpp-size'):
        ctx.floor(r, 2000)
    ctx.floor('encoded-length', 1000)
    ctx.floor('model-padding', 2000)
    ctx.floor('raw-size', 1000)
