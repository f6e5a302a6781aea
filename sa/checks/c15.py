"""C15: definition order does not matter; output is dependency-ordered and complete."""

import ast
import itertools
import random
import re

from .. import cxx, front, pyai, pysys, spec
from ..harness import run_tasks, traces
from ..pyai import PyExc, get_attr
from ..spec import Const, Enum, M, Struct, Typedef, Union

RULES = {
    'terminates': 'prophyc ends within the step bound on every acyclic definition set',
    'accepted': 'every order of an acyclic definition set is accepted',
    'complete': 'every definition is among the model nodes exactly once',
    'ordered': 'every model node follows the definitions it refers to',
    'python-order': 'the generated Python module binds each name once and only after every name it uses',
    'python-import': 'the generated Python module can be imported',
    'cpp-order': 'the generated C++ headers define each type after the types and constants it uses',
    'layout': 'size and alignment of every definition are the same for every order',
    'value': 'constants and enumerators have the same value for every order',
}

AT = ('prophyc/model.py', 'topological_sort', '?')


# Each edge style says how the definition at the tail refers to the one at the head.
#   node kinds: C constant, E enum, T typedef, S struct, U union
REFS = {
    # (referring kind, referred kind): ways
    ('C', 'C'): ['expr', 'paren', 'mul', 'plain', 'shift'],
    ('C', 'E'): ['expr', 'mul', 'plain'],
    ('E', 'C'): ['expr', 'plain', 'shift'],
    ('E', 'E'): ['expr', 'plain'],
    ('T', 'T'): ['type'], ('T', 'E'): ['type'], ('T', 'S'): ['type'], ('T', 'U'): ['type'],
    ('S', 'C'): ['size', 'sizex', 'lim', 'size2'],
    ('S', 'E'): ['type', 'opt', 'size', 'lim', 'sizex', 'size2'],
    ('S', 'T'): ['type', 'opt', 'fixed', 'dyn'],
    ('S', 'S'): ['type', 'opt', 'fixed', 'dyn'],
    ('S', 'U'): ['type', 'fixed', 'dyn'],
    ('U', 'C'): ['disc', 'discx'], ('U', 'E'): ['type', 'disc', 'discx'], ('U', 'T'): ['type'], ('U', 'S'): ['type'],
    ('U', 'U'): ['type'],
}


class Node(object):
    """A definition in the making: what it is, what it refers to and how."""

    def __init__(self, name, kind):
        self.name, self.kind, self.refs = name, kind, []

    def value_name(self, p):
        return p + self.name + '_A' if self.kind == 'E' else p + self.name

    def build(self, num, table, p, vals=None):
        """The definition; with `vals` (name -> int, extended here) expressions are replaced by their numbers."""
        name = p + self.name

        def num_of(e):
            return e if vals is None else eval(e, {}, vals)

        def val(way, r):
            n = r.value_name(p)
            return {'expr': n + ' + 1', 'paren': '(1 + %s)' % n, 'mul': '2*%s' % n, 'plain': n, 'shift': '%s << 1' % n,
                    'size': n, 'sizex': '%s*2' % n, 'lim': n, 'size2': n, 'disc': n, 'discx': '%s+100' % n}[way]

        def array(n, t, kind, e):
            return M(n, t, kind, 1, size_text=[e]) if vals is None else M(n, t, kind, num_of(e))

        if self.kind in 'CE':
            e = '+'.join('(%s)' % val(w, r) if len(self.refs) > 1 else val(w, r) for w, r in self.refs) or str(num)
            if vals is not None:
                vals[name if self.kind == 'C' else name + '_A'] = num_of(e)
                vals[name + '_B'] = 5000000 + num
            if self.kind == 'C':
                return Const(name, num_of(e))
            return Enum(name, [(name + '_A', num_of(e)), (name + '_B', num_of('%d' % (5000000 + num)))])
        if self.kind == 'T':
            return Typedef(name, table[self.refs[0][1].name] if self.refs else spec.U16)
        ms = [M('m0', [spec.U8, spec.U16, spec.U32, spec.U64][num % 4])] if self.kind == 'S' else \
            [(num_of(str(1000000 + num)), 'm0', spec.U8)]
        for i, (w, r) in enumerate(self.refs):
            n = 'm%d' % (i + 1)
            t = table.get(r.name)
            if self.kind == 'S':
                if w in ('size', 'sizex'):
                    ms.append(array(n, spec.U16, 'fixed', val(w, r)))
                elif w == 'size2':
                    ms.append(array(n, spec.U16, 'fixed', '2'))
                    ms[-1].size2 = val(w, r)
                elif w == 'lim':
                    ms.append(array(n, spec.U8, 'lim', val(w, r)))
                else:
                    ms.append(M(n, t, {'type': 'plain', 'opt': 'opt', 'fixed': 'fixed', 'dyn': 'dyn'}[w], 3))
            elif w == 'type':
                ms.append((num_of(str(2000000 + 100 * num + i)), n, t))
            else:
                ms.append((num_of(val(w, r)), n, spec.U8))
        return Struct(name, ms) if self.kind == 'S' else Union(name, ms)


def make(nodes, p, vals=None):
    """The definitions, every name prefixed."""
    table, out = {}, []
    for i, n in enumerate(nodes):
        d = n.build(i + 3, table, p, vals)
        table[n.name] = d
        out.append(d)
    return out


def valid(nodes):
    """Only dynamic types restrict how they may be referred to."""
    dynamic = set()
    for n in nodes:
        for w, r in n.refs:
            if r.name in dynamic:
                if n.kind == 'U' or w in ('opt', 'fixed') or w == 'dyn':
                    return False
                if n.kind in 'ST':
                    dynamic.add(n.name)
            if w == 'dyn':
                dynamic.add(n.name)
        if n.kind == 'T' and len(n.refs) > 1:
            return False
        if n.kind == 'U' and sum(1 for w, r in n.refs if w.startswith('disc')) > 1:
            return False
    return True


def singles():
    """Every way of referring, alone and through one intermediate definition."""
    out = []
    for (a, b), ways in sorted(REFS.items()):
        for w in ways:
            x, y = Node('B', b), Node('A', a)
            y.refs = [(w, x)]
            out.append([x, y])
            for (b2, c), ways2 in sorted(REFS.items()):
                if b2 == b:
                    for w2 in ways2:
                        x, y, z = Node('C', c), Node('B', b), Node('A', a)
                        y.refs, z.refs = [(w2, x)], [(w, y)]
                        out.append([x, y, z])
    return [o for o in out if valid(o)]


def randoms(r, n, size, without=()):
    out = []
    while len(out) < n:
        k = r.randint(3, size)
        names = ['N%d' % i for i in range(k)]
        r.shuffle(names)
        nodes = []
        for i in range(k):
            x = Node(names[i], r.choice('CCETSSSU'))
            for y in r.sample(nodes, min(len(nodes), r.randint(0, 3))):
                ways = [w for w in REFS.get((x.kind, y.kind), ()) if w not in without]
                if ways and (x.kind != 'T' or not x.refs):
                    x.refs.append((r.choice(ways), y))
            nodes.append(x)
        if valid(nodes):
            out.append(nodes)
    return out


def orders(defs, r, limit):
    n = len(defs)
    if n <= 3:
        return [list(p) for p in itertools.permutations(defs)]
    out = [list(defs), list(reversed(defs))]
    while len(out) < limit:
        p = list(defs)
        r.shuffle(p)
        out.append(p)
    return out


def uses(nodes, p):
    """name -> names of definitions it refers to"""
    return {p + n.name: {p + r.name for _, r in n.refs} for n in nodes}


# ------------------------------------------------------------------------------ names in generated text

def python_names(text):
    """[(bound names, used names)] of the top-level statements of a generated module, in order."""
    out = []
    for st in ast.parse(text).body:
        if isinstance(st, (ast.Import, ast.ImportFrom, ast.If)):
            continue
        if isinstance(st, ast.Expr):
            continue
        bound = {st.name} if isinstance(st, (ast.ClassDef, ast.FunctionDef)) else {
            t.id for t in getattr(st, 'targets', []) if isinstance(t, ast.Name)}
        used = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        out.append((bound, used))
    return out


# ------------------------------------------------------------------------------ deciding

def observe(c, stem, pre):
    """Names in node order, with layout and value of each."""
    nodes = pyai.iterate(dict(c.nodes)[stem])
    order, facts = [], {}
    for n in nodes:
        name = get_attr(n, 'name')
        order.append(name)
        cls = n.cls.name
        name = name[len(pre):]
        facts[name] = [cls] + [pysys.plain(get_attr(n, a, None)) if cls in ('Struct', 'Union') else None
                               for a in ('byte_size', 'alignment', 'kind')]
        if cls in ('Struct', 'Union'):
            facts[name].append([(get_attr(m, 'name'), get_attr(m, 'byte_size'), get_attr(m, 'alignment'),
                                 get_attr(m, 'padding', None), get_attr(m, 'numeric_size', None))
                                for m in pyai.iterate(get_attr(n, 'members'))])
    return order, facts


def values(mod, names, pre):
    out = {}
    for n in names:
        v = pyai.unwrap(mod.d.get(n)) if n in mod.d else None
        out[n[len(pre):]] = v if isinstance(v, int) else None
    return out


def one(res, nodes, defs, order, ref, what, pre, heads):
    stem = 's' + pre
    text = front.isar_text(order)
    outs = ['--python_out', '/out', '--cpp_out', '/out', '--cpp_full_out', '/out']

    def run():
        c = pysys.compile_text({'/w/%s.xml' % stem: text}, ['--isar', '/w/%s.xml' % stem] + outs)
        if c.exc is not None:
            return c, None, None, None
        try:
            mod = pysys.load_all(c)[stem]
            exc = None
        except PyExc as e:
            mod, exc = None, e
        return c, observe(c, stem, pre), mod, exc

    def hang(w):
        res.bad('terminates', w or AT, 'no end within the step bound', what)

    got = traces(run, res, what, steps=3000000, hang=hang)
    if len(got) != 1:
        return ref
    (p, r, e), = got
    if e is not None:
        res.bad('accepted', pysys.exc_at(e) or AT, pysys.exc_text(e), what)
        return ref
    c, seen, mod, exc = r
    res.ok('terminates')
    if c.exc is not None:
        res.bad('accepted', pysys.exc_at(c.exc) or AT, pysys.exc_text(c.exc), what)
        return ref
    res.ok('accepted')
    names, facts = seen
    want = [d.name for d in defs]
    if sorted(names) != sorted(want):
        res.bad('complete', AT, 'nodes %s for definitions %s' % (names, want), what)
        return ref
    res.ok('complete')
    pos = {n: i for i, n in enumerate(names)}
    us = uses(nodes, pre)
    late = [(n, u) for n in want for u in us[n] if pos[u] > pos[n]]
    if late:
        res.bad('ordered', AT, '%s precedes %s, which it refers to' % late[0], what)
    else:
        res.ok('ordered')
    # Python
    text_ = c.written.get('/out/%s.py' % stem)
    if not isinstance(text_, str):
        res.bad('complete', ('prophyc/generators/python.py', '_PythonTranslator', '?'), 'no Python module', what)
        return ref
    syms = set(want) | {m for d in defs if isinstance(d, Enum) for m, _ in d.members}
    bound, bad = set(), None
    for b, u in python_names(text_):
        for x in sorted((u & syms) - bound):
            bad = bad or 'uses %s before it is bound' % x
        for x in b & syms:
            if x in bound:
                bad = bad or 'binds %s twice' % x
        bound |= b
    if not bad and syms - bound:
        bad = 'does not bind %s' % sorted(syms - bound)[0]
    if bad:
        res.bad('python-order', AT, 'generated module ' + bad, what)
    else:
        res.ok('python-order')
    if exc is not None:
        res.bad('python-import', AT, pysys.exc_text(exc), what)
    else:
        res.ok('python-import')
    heads.append(({k.rsplit('/', 1)[-1]: v for k, v in c.written.items() if k.endswith('.hpp')}, what))
    vals = values(mod, sorted(syms), pre) if mod is not None else None
    if ref is None:
        return facts, vals
    for n in sorted(facts):
        if facts[n] != ref[0][n]:
            res.bad('layout', AT, '%s: %s instead of %s' % (n, facts[n], ref[0][n]), what)
        else:
            res.ok('layout')
    if vals is not None and ref[1] is not None:
        for n in sorted(vals):
            if vals[n] != ref[1][n]:
                res.bad('value', AT, '%s: %s instead of %s' % (n, vals[n], ref[1][n]), what)
            else:
                res.ok('value')
    return ref


ORDER_ERRORS = re.compile(r'not declared|does not name a type|incomplete type|has not been declared|invalid use|redefinition|'
                          r'not a member|conflicting declaration|unknown type')


def headers(res, heads):
    """One compile-only unit over the headers of many orders."""
    for suffix in ('.pp.hpp', '.ppf.hpp'):
        files, whats = {}, {}
        for fs, what in heads:
            for n, t in fs.items():
                if n.endswith(suffix):
                    if not isinstance(t, str):
                        res.skip('generated header depends on unknown text', what)
                        continue
                    files[n], whats[n] = t, what
        if not files:
            continue
        unit = ''.join('#include "%s"\n' % n for n in sorted(files))
        errors = cxx.syntax(dict(files, **{'w.cpp': unit}), 'w.cpp', ['-fmax-errors=0'])
        bad = {}
        for f, l, m in errors:
            if f not in whats:
                res.skip('%s:%d: %s' % (f, l, m[:100]), 'headers')
            elif not ORDER_ERRORS.search(m):
                bad.setdefault(f, None)
            elif bad.get(f) is None:
                bad[f] = '%s:%d: %s' % (f, l, m)
        for n, what in sorted(whats.items()):
            if bad.get(n):
                res.bad('cpp-order', AT, bad[n], what)
            elif n in bad:
                res.skip('header does not compile', what)
            else:
                res.ok('cpp-order')


def graph(res, task):
    heads, k = [], 0
    for nodes, seed, limit in task:
        ref = None
        perms = orders(list(range(len(nodes))), random.Random(seed), limit)
        for perm in perms:
            pre = 'p%d_' % k
            k += 1
            defs = make(nodes, pre)
            o = [defs[i] for i in perm]
            ref = one(res, nodes, defs, o, ref, '; '.join(map(repr, o)), pre, heads)
    headers(res, heads)


def tasks(ctx):
    r = random.Random('C15 %s' % ctx.seed)
    items = [(n, 'a%d' % i, 6) for i, n in enumerate(singles())]
    items += [(n, 'b%d' % i, 4 if ctx.quick else 8) for i, n in enumerate(randoms(r, 150 if ctx.quick else 900, 9))]
    return [items[i:i + 6] for i in range(0, len(items), 6)]


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of prophyc on isar definition sets: every way one definition can refer to another, alone and '
        'through an intermediate definition, in all permutations; random larger acyclic graphs in several permutations. '
        'Order and completeness are read off the model nodes and, by name analysis, off the generated modules and headers.')
    ctx.assumptions = ['isar front-end; graphs of up to nine definitions']
    run_tasks(ctx, graph, tasks(ctx), 'batches of definition sets')
    for k in ('ordered', 'python-order', 'python-import', 'cpp-order', 'layout', 'value'):
        ctx.floor(k, 1000)
