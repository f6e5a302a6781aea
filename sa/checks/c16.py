"""C16: a schema split over files is the same as its concatenation; bad includes are reported."""

import random

from .. import cxx, front, pyai, pycodec, pysys, spec
from ..harness import run_tasks, traces
from ..pyai import PyExc, get_attr
from ..spec import Const, Enum, Struct, Typedef, Union
from . import c15

RULES = {
    'accepted': 'every partition of a valid schema into files including what they use is accepted',
    'once': 'each file is read once per compilation',
    'nodes': 'each file yields exactly its own definitions',
    'layout': 'every definition has the layout it has in the single file',
    'value': 'every constant has the value it has in the single file',
    'python-import': 'the generated Python modules can be imported together',
    'encoding': 'messages encode through the multi-file modules as through the single-file one',
    'cpp-compile': 'the generated headers compile with only their own includes (compile-only witness)',
    'cpp-size': 'types have the documented size in the generated headers (compile-only witness)',
    'found': 'the including file\'s directory and then the include directories in their order are searched',
    'missing-reported': 'a missing include is reported',
    'cyclic-reported': 'a cyclic include is reported',
}

AT = ('prophyc/file_processor.py', 'FileProcessor', '?')
PARSE = ('prophyc/parsers/prophy.py', 'p_include_def', '?')
OUTS = ['--python_out', '/out', '--cpp_out', '/out', '--cpp_full_out', '/out']


def partition(nodes, r, k):
    """File index of every node: never smaller than that of what it refers to, every file used."""
    where = {}
    for i, n in enumerate(nodes):
        lo = max([where[x.name] for _, x in n.refs] or [0])
        where[n.name] = r.choice([lo, lo, r.randint(lo, k - 1)])
    used = sorted(set(where.values()))
    return {n: used.index(f) for n, f in where.items()}, len(used)


ARRANGEMENTS = ['flat', 'relative', 'elsewhere', 'dirs', 'subdir', 'nested']


def arrange(kind, pre, k, ext):
    """(path of each file, text by which file i includes file j, extra arguments, how inputs are named, cwd)"""
    stem = ['%sf%d' % (pre, i) for i in range(k)]
    if kind in ('flat', 'relative', 'elsewhere'):
        paths = ['/w/%s%s' % (s, ext) for s in stem]
        cwd = {'flat': '/w', 'relative': '/w', 'elsewhere': '/other/place'}[kind]
        names = paths if kind == 'flat' else [('../../w/' if kind == 'elsewhere' else '') + s + ext for s in stem]
        return paths, lambda i, j: stem[j] + ext, [], names, cwd
    if kind == 'dirs':
        dirs = ['/inc%d' % (i % 2) if i < k - 1 else '/w' for i in range(k)]
        paths = ['%s/%s%s' % (d, s, ext) for d, s in zip(dirs, stem)]
        return paths, lambda i, j: stem[j] + ext, ['-I', '/inc0', '-I', '/inc1'], paths, '/w'
    if kind == 'subdir':
        paths = ['/w/%s%s%s' % ('sub/' if i % 2 == 0 and i < k - 1 else '', s, ext) for i, s in enumerate(stem)]

        def inc(i, j):
            a, b = 'sub/' in paths[i], 'sub/' in paths[j]
            return stem[j] + ext if a == b else ('sub/' if b else '../') + stem[j] + ext
        return paths, inc, [], paths, '/w'
    paths = ['/w/%s%s%s' % ('d/' * (k - 1 - i), s, ext) for i, s in enumerate(stem)]

    def inc(i, j):
        return 'd/' * (i - j) + stem[j] + ext
    return paths, inc, [], paths, '/'


def node_facts(n):
    cls = n.cls.name
    out = [cls]
    if cls in ('Struct', 'Union'):
        out += [pysys.plain(get_attr(n, a, None)) for a in ('byte_size', 'alignment', 'kind')]
        out.append([(get_attr(m, 'name'), get_attr(m, 'type_name', None), get_attr(m, 'byte_size', None), get_attr(m, 'alignment', None),
                     get_attr(m, 'padding', None), get_attr(m, 'numeric_size', None))
                    for m in pyai.iterate(get_attr(n, 'members'))])
    return out


def own(nodes):
    return [n for n in pyai.iterate(nodes) if n.cls.name != 'Include']


def compile_files(files, args, cwd):
    """Compiled with .facts {stem: {name: facts}} and .mods, exceptions separated."""
    c = pysys.compile_text(files, args, cwd)
    c.mods, c.load_exc, c.facts, c.order = None, None, {}, {}
    if c.exc is None:
        for stem, nodes in dict(c.nodes).items():
            c.facts[stem] = {get_attr(n, 'name'): node_facts(n) for n in own(nodes)}
            c.order[stem] = [get_attr(n, 'name') for n in own(nodes)]
        try:
            c.mods = pysys.load_all(c)
        except PyExc as e:
            c.load_exc = e
    return c


def single(res, run, what):
    got = traces(run, res, what, steps=6000000)
    if len(got) != 1:
        return None
    (p, r, e), = got
    if e is not None:
        res.bad('accepted', pysys.exc_at(e) or AT, pysys.exc_text(e), what)
        return None
    return r


def values_of(mods, names):
    ns = {}
    for m in mods.values():
        ns.update(m.d)
    return {n: pyai.unwrap(ns[n]) for n in names if n in ns}, ns


def schema(res, task, heads):
    nodes, seed, pre, mode = task
    r = random.Random(seed)
    isar = mode == 'isar'
    ext = '.xml' if isar else '.prophy'
    defs = c15.make(nodes, pre)
    numeric = c15.make(nodes, pre, {})
    k = r.randint(2, 4)
    where, k = partition(nodes, r, k)
    if k < 2:
        return
    kind = r.choice(ARRANGEMENTS[:4] if isar else ARRANGEMENTS)
    paths, inc, extra, names, cwd = arrange(kind, pre, k, ext)
    files, file_of = {}, {}
    for i in range(k):
        mine = [d for n, d in zip(nodes, defs) if where[n.name] == i]
        need = sorted({where[x.name] for n in nodes if where[n.name] == i for _, x in n.refs} - {i})
        if r.random() < 0.3:
            need = sorted(set(need) | set(r.sample(range(i), r.randint(0, i))))
        if r.random() < 0.5:
            r.shuffle(need)
        for d in mine:
            file_of[d.name] = i
        if isar:
            r.shuffle(mine)
            files[paths[i]] = front.isar_text(mine, [inc(i, j) for j in need])
        else:
            files[paths[i]] = ''.join('#include "%s"\n' % inc(i, j) for j in need) + spec.schema_text(mine)
    for d in ('/other/place', '/inc0', '/inc1'):
        files[d + '/readme.txt'] = ''
    flags = ['--isar'] if isar else []
    one = '/w/%sone%s' % (pre, ext)
    what = '%s files (%s): %s' % (mode, kind, ' || '.join('%s: %s' % (p, files[p].strip()) for p in paths))
    order = list(range(k))
    r.shuffle(order)

    ref = single(res, lambda: compile_files({one: front.isar_text(defs) if isar else spec.schema_text(defs)},
                                            flags + OUTS + [one], '/w'), what)
    c = single(res, lambda: compile_files(files, flags + extra + OUTS + [names[i] for i in order], cwd), what)
    if ref is None or c is None:
        return
    if ref.exc is not None or ref.load_exc is not None:
        res.skip('single file: %s' % pysys.exc_text(ref.exc or ref.load_exc), what)
        return
    if c.exc is not None:
        res.bad('accepted', pysys.exc_at(c.exc) or AT, pysys.exc_text(c.exc), what)
        return
    if 'warning' in c.stderr and 'warning' not in ref.stderr:
        res.bad('accepted', PARSE, 'warns: ' + c.stderr.strip(), what)
    res.ok('accepted')
    opened = [p for p in c.world.machine.opened if p in paths]
    twice = [p for p in paths if opened.count(p) != 1]
    if twice:
        res.bad('once', AT, '%s read %d times' % (twice[0], opened.count(twice[0])), what)
    else:
        res.ok('once')
    stems = ['%sf%d' % (pre, i) for i in range(k)]
    rf = ref.facts[pre + 'one']
    for i, s in enumerate(stems):
        want = sorted(n for n, f in file_of.items() if f == i)
        if sorted(c.order.get(s, [])) != want:
            res.bad('nodes', PARSE, '%s defines %s instead of %s' % (s, c.order.get(s), want), what)
            continue
        res.ok('nodes')
        for n in want:
            if c.facts[s][n] != rf[n]:
                res.bad('layout', ('prophyc/model.py', 'evaluate_model', '?'),
                        '%s: %s instead of %s' % (n, c.facts[s][n], rf[n]), what)
            else:
                res.ok('layout')
    if c.load_exc is not None:
        res.bad('python-import', ('prophyc/generators/python.py', 'translate_include', '?'), pysys.exc_text(c.load_exc), what)
    elif any(s not in c.mods for s in stems):
        res.bad('python-import', ('prophyc/__init__.py', 'generate_target_files', '?'), 'no module for %s' % [
            s for s in stems if s not in c.mods], what)
    else:
        res.ok('python-import')
        rd = ref.mods[pre + 'one'].d
        for n, d in zip(nodes, numeric):
            s = stems[file_of[d.name]]
            for x in ([d.name] if isinstance(d, Const) else [m for m, _ in d.members] if isinstance(d, Enum) else []):
                got = pyai.unwrap(c.mods[s].d.get(x)) if x in c.mods[s].d else None
                if x not in rd or got != pyai.unwrap(rd[x]):
                    res.bad('value', ('prophyc/model.py', '_collect_constants', '?'), '%s is %r in %s, %r in the single file' % (
                        x, got, s, rd.get(x)), what)
                else:
                    res.ok('value')
            if isinstance(d, (Struct, Union)):
                encode(res, c.mods[s].d.get(d.name), ref.mods[pre + 'one'].d.get(d.name), d, what)
    hs = {p.rsplit('/', 1)[-1]: t for p, t in list(c.written.items()) + list(ref.written.items()) if p.endswith('.hpp')}
    heads.append((hs, stems, numeric, what, pre + 'one'))


def encode(res, cls, one, t, what):
    if cls is None or one is None:
        res.bad('encoding', ('prophyc/generators/python.py', 'translate_struct', '?'), 'no class %s' % t.name, what)
        return
    for sh in pycodec.PAIR_SHAPES:
        v = pycodec.shape_value(t, sh)
        if v is None:
            continue

        def run():
            return [pycodec.encode(pycodec.build(x, t, v), '<') for x in (one, cls)]

        for p, got, e in traces(run, res, what):
            if e is not None:
                res.skip('encoding: ' + pysys.exc_text(e), what)
                continue
            d = pysys.cells_differ(got[1], got[0].cells)
            if d is not None:
                res.bad('encoding', ('prophyc/generators/python.py', 'translate_struct', '?'),
                        '%s: byte %d differs from the single file\'s' % (t.name, d), what)
            else:
                res.ok('encoding')


def witness(res, heads, suffix, ns, one):
    """(first error per header, failed assertions, headers, keys) of the headers of the files or of the single ones."""
    files, whats, unit, wit = {}, {}, '', cxx.Asserts()
    for hs, stems, numeric, what, single_ in heads:
        names = [s + suffix for s in ([single_] if one else reversed(stems))]
        for n in names:
            if not isinstance(hs.get(n), str):
                res.skip('generated header missing or of unknown text', what)
                return None
            files[n], whats[n] = hs[n], what
        unit += ''.join('#include "%s"\n' % n for n in names)
        for d in numeric:
            if isinstance(d, (Struct, Union)) and spec.stiffness(d) == 'fixed':
                if ns:
                    wit.add('int(%s%s::encoded_byte_size) == %d' % (ns, d.name, spec.size(d)), (d.name, what))
            elif isinstance(d, Const):
                wit.add('int(%s%s) == %d' % (ns, d.name, d.value), (d.name, what))
    bad, other = wit.split(cxx.syntax(dict(files, **{'w.cpp': unit + wit.text()}), 'w.cpp', ['-fmax-errors=0']))
    broken = {}
    for m in other:
        broken.setdefault(m.split(':')[0], m)
    return broken, set(bad), whats, wit.items


def headers(res, heads):
    for suffix, ns in (('.pp.hpp', ''), ('.ppf.hpp', 'prophy::generated::')):
        ref = witness(res, heads, suffix, ns, True)
        got = witness(res, heads, suffix, ns, False)
        if ref is None or got is None:
            continue
        unusable = {ref[2].get(f) for f in ref[0]}
        broken, bad, whats, items = got
        for n, what in sorted(whats.items()):
            if what in unusable or None in unusable:
                res.skip('single header does not compile', what)
            elif n in broken:
                res.bad('cpp-compile', ('prophyc/generators/cpp%s.py' % ('_full' if ns else ''), 'translate_include', '?'),
                        broken[n], what)
            else:
                res.ok('cpp-compile')
        if not broken and not ref[0]:
            for _, key in items:
                if key in bad and key not in ref[1]:
                    res.bad('cpp-size', ('prophyc/model.py', 'evaluate_sizes', '?'), '%s has another size or value' % key[0],
                            key[1])
                else:
                    res.ok('cpp-size')


# ------------------------------------------------------------------------------ searching and reporting

def search_cases():
    """(files, args, cwd, constant values expected in module m)"""
    m = '#include "a.prophy"\nconst M = A;\n'
    a = 'const A = %d;\n'
    out = []
    out.append(({'/w/m.prophy': m, '/w/a.prophy': a % 1, '/i/a.prophy': a % 2}, ['-I', '/i', '/w/m.prophy'], '/w', 1))
    out.append(({'/w/m.prophy': m, '/i/a.prophy': a % 2, '/j/a.prophy': a % 3}, ['-I', '/i', '-I', '/j', '/w/m.prophy'],
                '/w', 2))
    out.append(({'/w/m.prophy': m, '/i/a.prophy': a % 2, '/j/a.prophy': a % 3}, ['-I', '/j', '-I', '/i', '/w/m.prophy'],
                '/w', 3))
    out.append(({'/w/m.prophy': m, '/w/a.prophy': a % 1, '/x/a.prophy': a % 2}, ['../w/m.prophy'], '/x', 1))
    out.append(({'/w/m.prophy': m, '/i/a.prophy': a % 4}, ['-I', '../i', 'm.prophy'], '/w', 4))
    # the directory of an included file replaces that of the including one, and is restored afterwards
    out.append(({'/w/m.prophy': '#include "d/b.prophy"\n#include "a.prophy"\nconst M = A;\n', '/w/d/b.prophy':
                 'const B = 9;\n', '/w/a.prophy': a % 5, '/w/d/a.prophy': a % 6}, ['/w/m.prophy'], '/w', 5))
    out.append(({'/w/m.prophy': '#include "d/b.prophy"\nconst M = B;\n', '/w/d/b.prophy':
                 '#include "a.prophy"\nconst B = A;\n', '/w/a.prophy': a % 5, '/w/d/a.prophy': a % 6},
                ['/w/m.prophy'], '/w', 6))
    out.append(({'/w/m.prophy': '#include "d/e/b.prophy"\n#include "d/c.prophy"\nconst M = B * 10 + C;\n', '/w/d/e/b.prophy':
                 '#include "a.prophy"\nconst B = A;\n', '/w/d/e/a.prophy': a % 7, '/w/d/a.prophy': a % 8,
                 '/w/d/c.prophy': '#include "k.prophy"\nconst C = K;\n', '/w/d/k.prophy': 'const K = 3;\n',
                 '/w/k.prophy': 'const K = 4;\n'}, ['/w/m.prophy'], '/w', 73))
    # an include directory serves nested includes as well
    out.append(({'/w/m.prophy': '#include "d/b.prophy"\nconst M = B;\n', '/w/d/b.prophy':
                 '#include "a.prophy"\nconst B = A;\n', '/i/a.prophy': a % 6}, ['-I', '/i', '/w/m.prophy'], '/w', 6))
    # the same file under several spellings
    out.append(({'/w/m.prophy': '#include "a.prophy"\n#include "b.prophy"\nconst M = A + B;\n', '/w/b.prophy':
                 '#include "./a.prophy"\nconst B = A;\n', '/w/a.prophy': a % 5}, ['/w/m.prophy'], '/w', 10))
    # files of one name in several directories are different files
    out.append(({'/w/m.prophy': '#include "d/x.prophy"\n#include "e/x.prophy"\nconst M = A * 10 + B;\n', '/w/d/x.prophy':
                 a % 5, '/w/e/x.prophy': 'const B = 6;\n'}, ['/w/m.prophy'], '/w', 56))
    out.append(({'/w/m.prophy': '#include "d/m.prophy"\nconst M = A;\n', '/w/d/m.prophy': a % 5}, ['/w/m.prophy'], '/w', 5))
    out.append(({'/w/m.prophy': '#include "x.prophy"\nconst M = A;\n', '/w/x.prophy': '#include "d/x.prophy"\nconst A = B + 1;\n',
                 '/w/d/x.prophy': 'const B = 6;\n'}, ['/w/m.prophy'], '/w', 7))
    out.append(({'/w/n.prophy': '#include "a.prophy"\nconst N = A;\n', '/w/a.prophy': a % 1, '/v/m.prophy': m, '/v/a.prophy': a % 8},
                ['/w/n.prophy', '/v/m.prophy'], '/w', 8))
    # two inputs in different directories: the first one's directory is forgotten
    out.append(({'/w/m.prophy': m, '/w/a.prophy': a % 5, '/v/n.prophy': '#include "q.prophy"\nconst N = Q;\n',
                 '/v/q.prophy': 'const Q = 1;\n', '/w/q.prophy': 'const Q = 2;\n'},
                ['/v/n.prophy', '/w/m.prophy'], '/w', 5))
    out.append(({'/v/m.prophy': m, '/v/a.prophy': a % 5, '/w/n.prophy': 'const N = 1;\n', '/w/a.prophy': a % 6},
                ['/w/n.prophy', '/v/m.prophy'], '/w', 5))
    return out


def bad_cases():
    """(files, args, name which must be reported, rule)"""
    out = []
    k = 'const K = 1;\n'
    for text in ('#include "gone.prophy"\n' + k, k + '#include "gone.prophy"\n', '#include "sub/gone.prophy"\n' + k,
                 '#include "a.prophy"\n#include "gone.prophy"\n', '#include "gone.prophy"\n#include "a.prophy"\n'):
        out.append(({'/w/m.prophy': text, '/w/a.prophy': 'const A = 1;\n'}, ['/w/m.prophy'], 'gone.prophy',
                    'missing-reported'))
    out.append(({'/w/m.prophy': '#include "a.prophy"\n', '/w/a.prophy': '#include "b.prophy"\n',
                 '/w/b.prophy': '#include "gone.prophy"\n' + k}, ['/w/m.prophy'], 'gone.prophy', 'missing-reported'))
    out.append(({'/w/m.prophy': '#include "d/a.prophy"\n', '/w/d/a.prophy': '#include "here.prophy"\nconst A = 1;\n',
                 '/w/here.prophy': k}, ['/w/m.prophy'], 'here.prophy', 'missing-reported'))
    out.append(({'/w/m.prophy': '#include "a.prophy"\n', '/x/a.prophy': k, '/i/b.prophy': k},
                ['-I', '/i', '../w/m.prophy'], 'a.prophy', 'missing-reported', '/x'))
    out.append(({'/w/n.prophy': k, '/w/gone.prophy': k, '/v/m.prophy': '#include "gone.prophy"\nconst Q = 1;\n'},
                ['/w/n.prophy', '/v/m.prophy'], 'gone.prophy', 'missing-reported'))
    out.append(({'/w/m.prophy': '#include "m.prophy"\n' + k}, ['/w/m.prophy'], 'm.prophy', 'cyclic-reported'))
    out.append(({'/w/m.prophy': '#include "./m.prophy"\n' + k}, ['/w/m.prophy'], 'm.prophy', 'cyclic-reported'))
    out.append(({'/w/m.prophy': '#include "../w/m.prophy"\n' + k}, ['m.prophy'], 'm.prophy', 'cyclic-reported'))
    for n in (2, 3, 4, 6):
        fs = {'/w/f%d.prophy' % i: '#include "f%d.prophy"\nconst K%d = 1;\n' % ((i + 1) % n, i) for i in range(n)}
        out.append((fs, ['/w/f0.prophy'], 'f0.prophy', 'cyclic-reported'))
        fs = {'/w/f%d.prophy' % i: 'const K%d = 1;\n#include "f%d.prophy"\n' % (i, (i + 1) % n) for i in range(n)}
        out.append((dict(fs, **{'/w/m.prophy': '#include "f1.prophy"\n'}), ['/w/m.prophy'], 'f1.prophy', 'cyclic-reported'))
    out.append(({'/w/m.prophy': '#include "a.prophy"\n', '/w/a.prophy': '#include "b.prophy"\n#include "c.prophy"\n',
                 '/w/b.prophy': k, '/w/c.prophy': '#include "b.prophy"\n#include "m.prophy"\n'}, ['/w/m.prophy'],
                'm.prophy', 'cyclic-reported'))
    out.append(({'/w/m.prophy': '#include "a.prophy"\n', '/i/a.prophy': '#include "b.prophy"\n',
                 '/j/b.prophy': '#include "a.prophy"\n'}, ['-I', '/i', '-I', '/j', '/w/m.prophy'], 'a.prophy',
                'cyclic-reported'))
    isar = []
    for o in out:
        fs = {}
        for p, t in o[0].items():
            body = ''
            for line in t.splitlines():
                w = line.replace(';', '').split()
                if w[0] == '#include':
                    body += '<include href="%s"/>' % w[1].strip('"').replace('.prophy', '.xml')
                else:
                    body += '<constant name="%s" value="%s"/>' % (w[1], w[3])
            fs[p.replace('.prophy', '.xml')] = '<x>%s</x>' % body
        isar.append((fs, ['--isar'] + [a.replace('.prophy', '.xml') for a in o[1]], o[2].replace('.prophy', '.xml'),
                     o[3]) + o[4:])
    return out + isar


def searching(res, task):
    for i, (files, args, cwd, want) in enumerate(search_cases()):
        what = 'search %d: %s with %s in %s' % (i, sorted(files.items()), args, cwd)
        c = single(res, lambda: compile_files(files, args + ['--python_out', '/out'], cwd), what)
        if c is None:
            continue
        if c.exc is not None:
            res.bad('found', pysys.exc_at(c.exc) or AT, pysys.exc_text(c.exc), what)
            continue
        got = None
        for n in pyai.iterate(dict(c.nodes)['m']):
            if get_attr(n, 'name') == 'M':
                got = get_attr(n, 'value')
        if got != str(want):
            res.bad('found', AT, 'M is %r instead of %d' % (got, want), what)
        else:
            res.ok('found')


def reporting(res, task):
    for i, case in enumerate(bad_cases()):
        files, args, name, rule = case[:4]
        cwd = case[4] if len(case) > 4 else '/w'
        what = 'includes %d: %s with %s' % (i, sorted(files.items()), args)

        def hang(w):
            res.bad(rule, w or AT, 'no end within the step bound', what)

        got = traces(lambda: pysys.compile_text(files, args + ['--python_out', '/out'], cwd), res, what, steps=3000000,
                     hang=hang)
        for p, c, e in got:
            if e is not None:
                res.bad(rule, pysys.exc_at(e) or AT, pysys.exc_text(e), what)
                continue
            if c.exc is not None:
                text = pysys.exc_text(c.exc)
                if not pysys.diagnostic(c.exc):
                    res.bad(rule, pysys.exc_at(c.exc) or AT, 'escapes as ' + text, what)
                    continue
            elif '--isar' in args and c.stderr:
                text = c.stderr          # an isar include which cannot be had is warned about
            else:
                res.bad(rule, PARSE, 'compilation succeeds without a word', what)
                continue
            if '--isar' in args and name not in text:
                res.bad(rule, PARSE, 'the report does not name %s: %s' % (name, text), what)
            else:
                res.ok(rule)


def batch(res, task):
    kind, items = task
    if kind == 's':
        heads = []
        for k, (nodes, seed, mode) in enumerate(items):
            schema(res, (nodes, seed, 'p%d_' % k, mode), heads)
        headers(res, heads)
    elif kind == 'f':
        searching(res, items)
    else:
        reporting(res, items)


def small(nodes):
    try:
        for d in c15.make(nodes, '', {}):
            if isinstance(d, Struct) and any(m.size and m.size > 40 for m in d.members):
                return False
            if isinstance(d, Union) and len({a[0] for a in d.arms}) != len(d.arms):
                return False
            if isinstance(d, (Struct, Union)) and spec.size(d) > 3000:
                return False
            if isinstance(d, Const) and d.value > 1 << 20:
                return False
    except (OverflowError, ValueError):
        return False
    return True


def tasks(ctx):
    r = random.Random('C16 %s' % ctx.seed)
    n = 640 if ctx.quick else 4000
    graphs = [g for g in c15.randoms(r, 3 * n, 9, ('size2',)) if small(g)][:n]
    items = [(g, '%s/%d' % (ctx.seed, i), 'isar' if i % 3 == 2 else 'prophy') for i, g in enumerate(graphs)]
    return [('f', None), ('b', None)] + [('s', items[i:i + 8]) for i in range(0, len(items), 8)]


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of prophyc over a virtual file system: random acyclic schemas are partitioned into files '
        'respecting dependency order and laid out in several directory and working-directory arrangements; model nodes, '
        'generated Python modules (loaded as a package), abstract encodings and generated headers are compared with the '
        'concatenated file. Search order and missing or cyclic includes are enumerated.')
    ctx.assumptions = ['isar treats a missing or cyclic include as a warning, which counts as a report']
    run_tasks(ctx, batch, tasks(ctx), 'batches of schemas')
    for k, n in (('accepted', 100), ('once', 100), ('nodes', 250), ('layout', 400), ('value', 300), ('encoding', 250),
                 ('cpp-compile', 300), ('cpp-size', 150), ('found', 10), ('missing-reported', 14),
                 ('cyclic-reported', 20)):
        ctx.floor(k, n)
