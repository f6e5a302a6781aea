"""C20: what prophyc generates for a file depends on that file and its options alone."""

import random
import re

from .. import family, front, pyai, pysys, spec
from ..harness import run_tasks, traces
from ..pyai import PyExc, S
from ..spec import M, Struct
from . import c15, c16, c17

RULES = {
    'no-outside': 'no generated text depends on identities, hashes, time, random numbers, environment, user or host',
    'hash-seed': 'generated files are the same for every iteration order of sets and directory listings',
    'repeat': 'a second compilation, in the same process and over existing outputs, generates the same files',
    'directory': 'generated files are the same whatever the working directory and the way inputs are named',
    'input-order': 'generated files are the same for every order of inputs not including one another',
    'alone': 'a file\'s outputs are the same compiled alone and together with other files',
    'other-input': 'compiling other files before, in the same process, changes nothing',
    'same-name': 'two inputs whose outputs have the same names are rejected or give outputs independent of their order',
}

AT = ('prophyc/__init__.py', 'main', '?')
OUTS = ['--python_out', '/out', '--cpp_out', '/out', '--cpp_full_out', '/out', '--prophy_out', '/out']


def execute(files, runs, cwd, variant=None, before=()):
    """Outputs of each run of main in one process: [{path: text} or diagnostic]."""
    S.variant = variant
    try:
        w = pysys.fresh_world(files, cwd=cwd)
        w.machine.dirs.add('/out')
        for k in before:
            w.machine.written[k] = '#error stale'
        main = pysys.prophyc_main(w)
        out = []
        for args in runs:
            try:
                pyai.call(main, (list(args),))
                out.append(dict(w.machine.written))
            except PyExc as e:
                out.append(pysys.exc_text(e))
        return out
    finally:
        S.variant = None


def unknown(t):
    """The first part of a text which the inputs do not determine."""
    if isinstance(t, str):
        return None
    for p in getattr(t, 'pieces', ()):
        if not isinstance(p, str):
            return '%s' % (p,)
    return repr(t)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a.splitlines(), b.splitlines())):
        if x != y:
            return 'line %d: %r instead of %r' % (i + 1, y.strip(), x.strip())
    return 'lengths %d and %d' % (len(a), len(b))


GEN = {'.py': ('prophyc/generators/python.py', 'PythonGenerator', '?'),
       '.prophy': ('prophyc/generators/prophy.py', 'SchemaGenerator', '?'),
       '.pp.hpp': ('prophyc/generators/cpp.py', 'CppGenerator', '?'),
       '.pp.cpp': ('prophyc/generators/cpp.py', 'CppGenerator', '?'),
       '.ppf.hpp': ('prophyc/generators/cpp_full.py', 'CppFullGenerator', '?'),
       '.ppf.cpp': ('prophyc/generators/cpp_full.py', 'CppFullGenerator', '?')}


def at(path):
    name = path.rsplit('/', 1)[-1]
    return GEN.get('.' + name.split('.', 1)[-1], AT)


class Scene(object):
    def __init__(self, res, files, what):
        self.res, self.files, self.what = res, files, what
        self.ref = None

    def outputs(self, rule, run):
        """Outputs of every trace; None when there is no answer."""
        got = traces(run, self.res, self.what, steps=12000000, max_paths=64)
        out = []
        for p, r, e in got:
            if e is not None:
                self.res.skip('%s: %s' % (rule, pysys.exc_text(e)), self.what)
                return []
            out.append(r)
        return out

    def check(self, rule, run, only=None, pick=lambda r: r[-1], note=''):
        """Compares each trace of `run` with the reference."""
        for r in self.outputs(rule, run):
            self.compare(rule, pick(r), only, note)

    def compare(self, rule, o, only, note):
        res, what = self.res, self.what + (' [%s]' % note if note else '')
        want = {p: t for p, t in self.ref.items() if only is None or only(p)}
        if not isinstance(o, dict):
            res.bad(rule, AT, 'rejected: %s' % o, what)
            return
        o = {p: t for p, t in o.items() if only is None or only(p)}
        if sorted(o) != sorted(want):
            res.bad(rule, AT, 'writes %s instead of %s' % (sorted(o), sorted(want)), what)
            return
        for p in sorted(want):
            u = unknown(o[p])
            if u is not None:
                res.bad('no-outside', at(p), '%s contains %s' % (p, u), what)
            elif o[p] != want[p]:
                res.bad(rule, at(p), '%s: %s' % (p, first_difference(want[p], o[p])), what)
            else:
                res.ok(rule)

    def reference(self, run):
        for r in self.outputs('reference', run):
            o = r[-1]
            if not isinstance(o, dict):
                self.res.skip('reference rejected: %s' % o, self.what)
                return False
            for p, t in sorted(o.items()):
                u = unknown(t)
                if u is not None:
                    self.res.bad('no-outside', at(p), '%s contains %s' % (p, u), self.what)
                    return False
                self.res.ok('no-outside')
            if self.ref is None:
                self.ref = o
            else:
                self.compare('no-outside', o, None, 'another trace')
        return self.ref is not None


def stem_of(path):
    return path.rsplit('/', 1)[-1].rsplit('.', 1)[0]


def belongs(stem):
    return lambda p: p.rsplit('/', 1)[-1].split('.', 1)[0] == stem


def relative(path, cwd):
    import posixpath
    return posixpath.relpath(path, cwd)


def topological(r, paths, needs):
    """A random order of the paths with everything included before what includes it."""
    left, out = list(paths), []
    while left:
        free = [p for p in left if not any(n in left for n in needs.get(p, ()))]
        p = r.choice(free)
        left.remove(p)
        out.append(p)
    return out


def cpp(text):
    """Has C++ output no restriction the schema breaks: arrays sharing a sizer?"""
    sizers = re.findall(r'(\{)|@ ?(\w+)', text)
    seen = set()
    for brace, n in sizers:
        if brace:
            seen = set()
        elif n in seen:
            return False
        seen.add(n)
    return True


def scene(res, files, inputs, needs, flags, seed, more=(), full=False):
    """Decides all rules for one set of inputs; `more` are inputs unrelated to them."""
    r = random.Random(seed)
    what = '%s: %s' % (' '.join(flags) or 'prophy', ' || '.join('%s: %s' % (p, files[p].strip()) for p in inputs))
    s = Scene(res, files, what)
    outs = OUTS if cpp(files[inputs[0]]) else OUTS[:2] + OUTS[-2:]

    def run(paths, cwd='/w', variant=None, before=(), extra=(), twice=False):
        args = flags + list(extra) + outs + list(paths)
        return lambda: execute(files, [args] * (2 if twice else 1), cwd, variant, before)

    if not s.reference(run(inputs)):
        return
    for v in range(3 if full else 2):
        s.check('hash-seed', run(inputs, variant='%s/%d' % (seed, v)), note='order %d' % v)
    s.check('repeat', run(inputs, twice=True, before=sorted(s.ref)), note='repeated')
    s.check('directory', run([relative(p, '/w') for p in inputs]), note='relative names')
    s.check('directory', run(inputs, cwd='/far/away'), note='absolute names elsewhere')
    s.check('directory', run([relative(p, '/far/away') for p in inputs], cwd='/far/away'), note='relative names elsewhere')
    if len(inputs) > 1:
        for _ in range(3):
            o = topological(r, inputs, needs)
            if o != list(inputs):
                s.check('input-order', run(o), note='order %s' % o)
        for p in inputs:
            s.check('alone', run([p]), belongs(stem_of(p)), note='%s alone' % p)
    if more:
        mine = {stem_of(p) for p in inputs}

        def only(p):
            return p.rsplit('/', 1)[-1].split('.', 1)[0] in mine
        k = r.randint(0, len(inputs))
        s.check('alone', run(list(more) + list(inputs)), only, note='after %s' % more)
        s.check('alone', run(list(inputs) + list(more)), only, note='before %s' % more)
        s.check('alone', run(list(inputs[:k]) + list(more) + list(inputs[k:])), only, note='around %s' % more)
        a, b = flags + outs + list(more), flags + outs + list(inputs)
        s.check('other-input', lambda: execute(files, [a, b], '/w'), only, note='run on %s before' % more)


# ------------------------------------------------------------------------------ scenes

def split(nodes, pre, r, isar):
    """files, inputs in dependency order, what each includes"""
    ext = '.xml' if isar else '.prophy'
    defs = c15.make(nodes, pre)
    where, k = c16.partition(nodes, r, r.randint(1, 4))
    paths, inc, extra, _, _ = c16.arrange('flat', pre, k, ext)
    files, needs = {}, {}
    for i in range(k):
        mine = [d for n, d in zip(nodes, defs) if where[n.name] == i]
        need = sorted({where[x.name] for n in nodes if where[n.name] == i for _, x in n.refs} - {i})
        needs[paths[i]] = [paths[j] for j in need]
        if isar:
            r.shuffle(mine)
            files[paths[i]] = front.isar_text(mine, [inc(i, j) for j in need])
        else:
            files[paths[i]] = ''.join('#include "%s"\n' % inc(i, j) for j in need) + spec.schema_text(mine)
    return files, paths, needs


def graphs(res, items):
    for nodes, other, seed, isar in items:
        r = random.Random(seed)
        files, inputs, needs = split(nodes, 'a_', r, isar)
        # unrelated inputs which define the same names otherwise
        f2, more, _ = split(other, 'a_', r, isar)
        twin = {p: p.replace('/w/a_', '/w/b_') for p in more}
        for p in more:
            t = f2[p]
            for q in more:
                t = t.replace(stem_of(q) + '.', stem_of(twin[q]) + '.')
            files[twin[p]] = t
        more = [twin[p] for p in more]
        files['/far/away/readme.txt'] = ''
        scene(res, files, inputs, needs, ['--isar'] if isar else [], seed, more)


def shapes(res, items):
    for name, defs, seed in items:
        files = {'/w/s.prophy': spec.schema_text(defs), '/far/away/readme.txt': ''}
        scene(res, files, ['/w/s.prophy'], {}, [], seed)


OTHER = ('<x><constant name="OTHER_N" value="3"/><enum name="OtherE"><enum-member name="OTHER_A" value="OTHER_N"/></enum>'
         '<struct name="Other"><member name="a" type="OtherE"/><member name="b" type="u64"><dimension size="OTHER_N"/></member>'
         '<member name="c" type="u16"><dimension isVariableSize="true"/></member></struct></x>')


def patched(res, items):
    for defs, seed in items:
        xml, patch = c17.Writer(random.Random(seed)).text(defs)
        files = {'/w/s.xml': xml, '/w/p.txt': patch, '/w/t.xml': OTHER, '/far/away/readme.txt': ''}
        scene(res, files, ['/w/s.xml'], {}, ['--isar', '--patch', '/w/p.txt'], seed, ['/w/t.xml'])


SAME = [
    ({'/w/a/x.prophy': 'const A = 1;\n', '/w/b/x.prophy': 'const B = 2;\n'}, ['/w/a/x.prophy', '/w/b/x.prophy'], []),
    ({'/w/a/x.prophy': 'struct A { u8 a; };\n', '/w/b/x.prophy': 'struct A { u32 a; };\n', '/w/y.prophy': 'const C = 1;\n'},
     ['/w/a/x.prophy', '/w/y.prophy', '/w/b/x.prophy'], []),
    ({'/w/a/x.xml': '<x><constant name="A" value="1"/></x>', '/w/b/x.xml': '<x><constant name="B" value="2"/></x>'},
     ['/w/a/x.xml', '/w/b/x.xml'], ['--isar']),
    ({'/w/x.prophy': 'const A = 1;\n', '/w/x.proph': 'const B = 2;\n'}, ['/w/x.prophy', '/w/x.proph'], []),
]


INC = '<x xmlns:xi="http://www.w3.org/2001/XInclude"><xi:include href="%s"/>'


def searched(res, task):
    """Inputs of several directories, which include files of one name found in different places."""
    prophy = {
        '/w/i/c.prophy': 'const A = 1;\n', '/w/d/c.prophy': 'const A = 2;\n', '/w/j/c.prophy': 'const A = 5;\n',
        '/w/d/m.prophy': 'struct M { u8 a; };\n', '/w/d/n.prophy': '#include "c.prophy"\nstruct N { u8 a[A]; };\n',
        '/w/e/x.prophy': '#include "c.prophy"\nstruct X { u8 a[A]; };\n',
        '/w/e/y.prophy': '#include "s/z.prophy"\n#include "c.prophy"\nstruct Y { u8 a[A]; u8 b[Z]; };\n',
        '/w/e/s/z.prophy': '#include "t.prophy"\nconst Z = T + 1;\n', '/w/e/s/t.prophy': 'const T = 6;\n',
        '/w/e/t.prophy': 'const T = 3;\n', '/w/i/t.prophy': 'const T = 9;\n',
        '/w/f/v.prophy': '#include "t.prophy"\nstruct V { u8 a[T]; };\n'}
    inputs = ['/w/d/m.prophy', '/w/d/n.prophy', '/w/e/x.prophy', '/w/e/y.prophy', '/w/f/v.prophy']
    const, struct = '<constant name="%s" value="%s"/></x>', '<struct name="%s"><member name="a" type="u8"><dimension size="%s"/></member></struct></x>'
    isar = {
        '/w/i/c.xml': '<x>' + const % ('A', 1), '/w/d/c.xml': '<x>' + const % ('A', 2), '/w/j/c.xml': '<x>' + const % ('A', 5),
        '/w/d/m.xml': '<x>' + struct % ('M', 3), '/w/d/n.xml': INC % 'c.xml' + struct % ('N', 'A'),
        '/w/e/x.xml': INC % 'c.xml' + struct % ('X', 'A'), '/w/e/s/z.xml': INC % 't.xml' + const % ('Z', 'T'),
        '/w/e/s/t.xml': '<x>' + const % ('T', 6), '/w/i/t.xml': '<x>' + const % ('T', 9),
        '/w/e/y.xml': INC % 's/z.xml' + struct % ('Y', 'Z'), '/w/f/v.xml': INC % 't.xml' + struct % ('V', 'T')}
    for files, flags in ((prophy, []), (isar, ['--isar'])):
        mine = [p.replace('.prophy', '.xml') if flags else p for p in inputs]
        files = dict(files, **{'/far/away/readme.txt': ''})
        for dirs in (['/w/i'], ['/w/j', '/w/i']):
            for k in range(3):
                args = flags + [x for d in dirs for x in ('-I', d)]
                scene(res, files, mine[k:] + mine[:k], {p: [] for p in mine}, args, 'search/%d' % k, full=True)


def same_names(res, task):
    for files, inputs, flags in SAME:
        what = 'inputs %s' % inputs
        s = Scene(res, files, what)
        outs = [s.outputs('same-name', lambda: execute(files, [flags + OUTS + o], '/w')) for o in (inputs, inputs[::-1])]
        if not all(outs):
            continue
        for a in outs[0]:
            for b in outs[1]:
                if not isinstance(a[-1], dict) and not isinstance(b[-1], dict):
                    res.ok('same-name')
                elif a[-1] != b[-1]:
                    res.bad('same-name', AT, 'outputs depend on the order of the inputs', what)
                else:
                    res.ok('same-name')
    # one file given twice, under several names, is one input
    for names in (['/w/x.prophy', '/w/x.prophy'], ['/w/x.prophy', 'x.prophy'], ['/w/x.prophy', '../w/x.prophy']):
        files = {'/w/x.prophy': 'const A = 1;\nstruct B { u8 a[A]; };\n'}
        s = Scene(res, files, 'inputs %s' % names)
        if s.reference(lambda: execute(files, [OUTS + names[:1]], '/w')):
            for r in s.outputs('same-name', lambda: execute(files, [OUTS + names], '/w')):
                if isinstance(r[-1], dict):
                    s.compare('same-name', r[-1], None, 'given twice')
                else:
                    res.ok('same-name')


def batch(res, task):
    kind, items = task
    {'g': graphs, 's': shapes, 'p': patched, 'n': same_names, 'i': searched}[kind](res, items)


def tasks(ctx):
    r = random.Random('C20 %s' % ctx.seed)
    n = 260 if ctx.quick else 1600
    gs = [g for g in c15.randoms(r, 3 * n, 9, ('size2',)) if c16.small(g)][:n]
    items = [(g, r.choice(gs), '%s/%d' % (ctx.seed, i), i % 2 == 1) for i, g in enumerate(gs)]
    out = [('n', None), ('i', None)] + [('g', items[i:i + 4]) for i in range(0, len(items), 4)]
    sh = [(str(k), list(v), '%s/s%d' % (ctx.seed, k)) for k, v in enumerate(types(ctx, r, 60 if ctx.quick else 600))]
    out += [('s', sh[i:i + 6]) for i in range(0, len(sh), 6)]
    ps = [(d, '%s/p%d' % (ctx.seed, i)) for i, d in enumerate(r.sample(types(ctx, r, 60), 50 if ctx.quick else 300))]
    out += [('p', ps[i:i + 6]) for i in range(0, len(ps), 6)]
    return out


def types(ctx, r, n):
    ts = [family.build(s) for s in family.singles()]
    ts += [family.build(s) for s in r.sample(family.pairs(), n)] + family.externals()
    ts += [Struct('X', [M('u', u)]) for u in r.sample(family.unions(), min(40, n))]
    return [spec.deps(t) for t in ts]


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Relational abstract interpretation of prophyc.main: the same compilation is interpreted under several iteration orders '
        'of sets and listings, repeated in one process, in other directories, under other names of the inputs, other orders '
        'of the inputs, alone and together with files defining the same names otherwise; texts written are compared. '
        'Identities, hashes, time, random numbers, environment, user and host are unknown values whose arrival in an output '
        'is an alarm.')
    ctx.assumptions = ['two or three iteration orders per compilation stand for all of them']
    run_tasks(ctx, batch, tasks(ctx), 'batches of compilations')
    for k, n in (('no-outside', 500), ('hash-seed', 1000), ('repeat', 500), ('directory', 1500), ('input-order', 300),
                 ('alone', 1000), ('other-input', 500), ('same-name', 6)):
        ctx.floor(k, n)
