"""The analysed Python system: prophyc and the prophy runtime, driven with abstract schemas and values."""

import os

from . import plymodel, pyai, pylib, spec
from .dom import AB, Budget, Cell, Flt, Lin, Path, TooManyPaths, Unsupported, explore, sym
from .pyai import BC, HostObj, MISSING, PClass, PObj, PyExc, S, call, get_attr, set_attr, is_subclass, str_

ROOT = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor of the analysis is gone: neither verdict is possible."""


def exc_text(e):
    try:
        msg = str_(e.obj)
    except (PyExc, Unsupported):
        msg = '?'
    w = e.where()
    return '%s: %s%s' % (e.obj.cls.name, msg, ' (%s)' % pyai.fmt_where(w) if w else '')


def exc_at(e):
    """Innermost frame of /repo the exception came from."""
    for w in reversed(e.trace or []):
        if not w[0].startswith('<'):
            return w
    return e.where()


_OUTS = {'python': '--python_out', 'cpp': '--cpp_out', 'cpp_full': '--cpp_full_out', 'prophy': '--prophy_out'}


class Compiled(object):
    pass


def reset(path=None):
    S.path = path or Path()
    S.stack = []
    S.steps = 0
    S.depth = 0
    S.handling = []
    S.out = []
    S.ids = {}


def fresh_world(files=None, dirs=None, cwd='/w'):
    m = pylib.Machine(files or {}, cwd=cwd, **({'dirs': dirs} if dirs else {}))
    return pylib.make_world(ROOT, m)


def prophyc_main(world):
    main = world.import_module('prophyc').d.get('main')
    if main is None:
        raise AnalysisBroken('prophyc.main not found')
    return main


def compile_text(files, args, cwd='/w'):
    """Abstract run of prophyc.main; returns Compiled with .written, .nodes, .exc."""
    w = fresh_world(files, cwd=cwd)
    c = Compiled()
    c.world, c.exc, c.nodes = w, None, None
    main = prophyc_main(w)
    try:
        c.nodes = call(main, (list(args),))
    except PyExc as e:
        c.exc = e
    c.written = w.machine.written
    c.stderr = ''.join(x if isinstance(x, str) else repr(x) for x in getattr(w, 'stderr', pylib.Stream('')).chunks)
    return c


def compile_defs(defs, outs=('python',), flags=(), ext='.prophy', text=None, extra=None):
    files = {'/w/s' + ext: spec.schema_text(defs) if text is None else text}
    files.update(extra or {})
    args = list(flags) + ['/w/s' + ext]
    for o in outs:
        args += [_OUTS[o], '/out']
    return compile_text(files, args)


def load_generated(world, text, name='s'):
    """The generated Python module, as a module of the analysed system."""
    if not isinstance(text, str):
        raise Unsupported('generated module depends on unknown text')
    world.generated = getattr(world, 'generated', 0) + 1
    return world.load_source('%s' % name, '/out/%s.py' % name, False, text, '<generated>/%s.py' % name)


def load_all(c, pkg='generated'):
    """Every generated Python module of a compilation, as modules of one package: {name: module}."""
    w = c.world
    texts = {}
    for path, text in c.written.items():
        if path.endswith('.py'):
            if not isinstance(text, str):
                raise Unsupported('generated module depends on unknown text')
            texts[os.path.basename(path)[:-3]] = (path, text)

    def loader(n):
        path, text = texts[n]

        def load(world):
            m = world.load_source('%s.%s' % (pkg, n), path, False, text, '<generated>/%s.py' % n)
            m.d['__package__'] = pkg
            return m
        return load

    w.modules[pkg] = pyai.PModule(pkg, {'__name__': pkg, '__package__': pkg}, '<generated>')
    for n in texts:
        w.modules.pop('%s.%s' % (pkg, n), None)
        w.libs['%s.%s' % (pkg, n)] = loader(n)
    w.packages = getattr(w, 'packages', set()) | {pkg}
    return {n: w.import_module('%s.%s' % (pkg, n)) for n in sorted(texts)}


def diagnostic(e):
    """Is this a failure through prophyc's designed error channel?"""
    return e.obj.cls.name == 'ProphycError'


# ------------------------------------------------------------------------------ messages

def bytes_of(cells):
    return AB(tuple(cells))


def fill(msg, t, v, touch=True):
    """Assigns an abstract value through the public API; without `touch` empty byte strings are left unassigned."""
    t = spec.real(t)
    if isinstance(t, spec.Struct):
        sizers = spec.count_names(t)
        for m in t.members:
            if m.name in sizers:
                continue
            mt = spec.real(m.type)
            x = v[m.name]
            comp = isinstance(mt, (spec.Struct, spec.Union))
            if m.kind == 'plain':
                if comp:
                    fill(get_attr(msg, m.name), mt, x, touch)
                else:
                    set_attr(msg, m.name, x)
            elif m.kind == 'opt':
                if x is None:
                    continue
                if comp:
                    set_attr(msg, m.name, True)
                    fill(get_attr(msg, m.name), mt, x, touch)
                else:
                    set_attr(msg, m.name, x)
            elif spec.is_byte(mt):
                if x or touch:
                    set_attr(msg, m.name, bytes_of(x))
            else:
                arr = get_attr(msg, m.name)
                if m.kind == 'fixed':
                    for i, e in enumerate(x):
                        if comp:
                            fill(pyai.get_item(arr, i), mt, e, touch)
                        else:
                            pyai.set_item(arr, i, e)
                elif comp:
                    for e in x:
                        fill(call(get_attr(arr, 'add')), mt, e, touch)
                else:
                    call(get_attr(arr, 'extend'), (list(x),))
    else:
        d, x = v
        arm = [a for a in t.arms if a[0] == d][0]
        set_attr(msg, 'discriminator', d)
        at = spec.real(arm[2])
        if isinstance(at, (spec.Struct, spec.Union)):
            fill(get_attr(msg, arm[1]), at, x, touch)
        else:
            set_attr(msg, arm[1], x)


def read(msg, t):
    """Reads a message back through the public attributes into the form of spec.value."""
    t = spec.real(t)
    if isinstance(t, spec.Struct):
        out = {}
        sizers = spec.count_names(t)
        for m in t.members:
            if m.name in sizers:
                continue
            mt = spec.real(m.type)
            x = get_attr(msg, m.name)
            comp = isinstance(mt, (spec.Struct, spec.Union))
            if m.kind == 'plain':
                out[m.name] = read(x, mt) if comp else scalar(x)
            elif m.kind == 'opt':
                out[m.name] = None if x is None else read(x, mt) if comp else scalar(x)
            elif spec.is_byte(mt):
                x = pyai.unwrap(x)
                out[m.name] = list(x.cells) if isinstance(x, AB) else [] if x == '' else x      # '' reads an unset field
            else:
                n = pylib.b_len(x)
                out[m.name] = [read(pyai.get_item(x, i), mt) if comp else scalar(pyai.get_item(x, i))
                               for i in range(n)]
        return out
    d = scalar(get_attr(msg, 'discriminator'))
    arms = [a for a in t.arms if a[0] == d]
    if not arms:
        return (d, None)
    x = get_attr(msg, arms[0][1])
    at = spec.real(arms[0][2])
    return (d, read(x, at) if isinstance(at, (spec.Struct, spec.Union)) else scalar(x))


def scalar(x):
    x = pyai.unwrap(x)
    return S.path.conc(x) if isinstance(x, Lin) else x


def diff(a, b, name=''):
    """First difference of two value trees."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            d = diff(a[k], b.get(k, 'missing'), '%s.%s' % (name, k))
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 == len(b):
        return diff(a[0], b[0], name + '.discriminator') or diff(a[1], b[1], name + '.arm')
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d elements instead of %d' % (name, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (name, i))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return None
    a, b = known(a), known(b)
    if type(a) in (int, bool) and type(b) in (int, bool) and a == b:
        return None
    if a != b or type(a) is not type(b):
        return '%s: %r instead of %r' % (name, b, a)
    return None


def cells_differ(got, want):
    """First position where abstract bytes differ from the reference cells."""
    for i, (g, w) in enumerate(zip(got.cells, want)):
        if not same_cell(g, w):
            return i
    if len(got) != len(want):
        return min(len(got), len(want))
    return None


def known(x):
    """The number an integer or a byte is on the current trace, if the trace tells."""
    if isinstance(x, Lin):
        return S.path.conc(x)
    if isinstance(x, Cell):
        if isinstance(x.term, Lin):
            t = S.path.conc(x.term)
            if isinstance(t, int):
                return (t >> (8 * x.sig)) & 0xff
        t = S.path.conc(pyai.cell_int(x))
        return t if isinstance(t, int) else x
    return x


def same_cell(g, w):
    g, w = known(g), known(w)
    if isinstance(g, int) and isinstance(w, int):
        return g == w
    if isinstance(g, Cell) and isinstance(w, Cell):
        return g.kind == w.kind and g.term == w.term and g.sig == w.sig
    return False


def plain(v):
    """A model attribute in a form in which ones of two runs compare: an enumeration member as what it stands for."""
    v = pyai.unwrap(v)
    if isinstance(v, pyai.PObj):
        for a in ('value', 'name'):
            x = pyai.unwrap(pyai.get_attr(v, a, None))
            if isinstance(x, (int, str)):
                return x
    return v


def kind_of(world, kind):
    """Documented name of a model node's kind."""
    cls = world.modules['prophyc.model'].d.get('Kind')
    if kind is None or cls is None:
        return None
    for n in ('FIXED', 'DYNAMIC', 'UNLIMITED'):
        k = pyai.get_attr(cls, n, None)
        if k is not None and (k is kind or plain(k) == plain(kind)):
            return n.lower()
    return repr(kind)
