"""C14: constant expressions denote one integer, the same in every back-end."""

import itertools
import random
import re

from .. import cxx, front, pyai, pylib, pysys, spec
from ..dom import AS, Flt, Lin, ladd, lneg, sym
from ..harness import run_tasks, traces
from ..pyai import PyExc, S, call, get_attr
from ..spec import Const, Enum, M, Struct, Union

RULES = {
    'parse-term': 'the prophy parser reduces an expression over unknown operands to the term integer arithmetic gives it',
    'model-term': 'the model-time evaluator reduces an expression over unknown operands to the same term',
    'layout-term': 'an array of unknown extent has the computed size of that many elements',
    'python-value': 'the generated Python module binds the integer the expression denotes',
    'python-size': 'the generated Python descriptor has the extent the expression denotes',
    'cpp-value': 'the C++ enum constant has the value the expression denotes (compile-only witness)',
    'cpp-extent': 'the C++ array has the extent the expression denotes (compile-only witness)',
    'accepted': 'a well-formed expression is accepted',
}

# the language's precedence, loosest first
LEVELS = [('|',), ('+', '-'), ('*', '/'), ('<<', '>>')]
OPS = ['+', '-', '*', '/', '<<', '>>']


class Bin(object):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b


class Neg(object):
    def __init__(self, a):
        self.a = a


class Leaf(object):
    def __init__(self, text, value):
        self.text, self.value = text, value


class Par(object):
    def __init__(self, a):
        self.a = a


def prec(e):
    return next(i for i, l in enumerate(LEVELS) if e.op in l) if isinstance(e, Bin) else 9


def text(e):
    """Text with parentheses exactly where given by Par."""
    if isinstance(e, Bin):
        return '%s %s %s' % (text(e.a), e.op, text(e.b))
    if isinstance(e, Neg):
        return '-%s' % text(e.a)
    if isinstance(e, Par):
        return '(%s)' % text(e.a)
    return e.text


def tree(tokens):
    """Tokens (leaves, operators, parentheses) to a tree under the language's precedence."""
    pos = [0]

    def peek():
        return tokens[pos[0]] if pos[0] < len(tokens) else None

    def atom():
        t = peek()
        pos[0] += 1
        if t == '-':
            return Neg(atom())
        if t == '(':
            e = level(0)
            assert peek() == ')'
            pos[0] += 1
            return e
        return t

    def level(i):
        if i == len(LEVELS):
            return atom()
        e = level(i + 1)
        while peek() in LEVELS[i]:
            op = peek()
            pos[0] += 1
            e = Bin(op, e, level(i + 1))
        return e
    e = level(0)
    assert pos[0] == len(tokens)
    return e


def term(e):
    if isinstance(e, Bin):
        a, b = term(e.a), term(e.b)
        return pyai.binop('//' if e.op == '/' else e.op, a, b)
    if isinstance(e, Neg):
        return lneg(term(e.a))
    if isinstance(e, Par):
        return term(e.a)
    return e.value


def inside(e):
    """Restricts the trace to operands the property speaks of: counts below 64, division of non-negative numbers."""
    if isinstance(e, Bin):
        if not inside(e.a) or not inside(e.b):
            return False
        a, b = term(e.a), term(e.b)
        if e.op in ('<<', '>>'):
            return S.path.cmp('<=', 0, b) and S.path.cmp('<=', b, 63)
        if e.op == '/':
            return S.path.cmp('<=', 0, a) and S.path.cmp('<=', 1, b)
        return True
    return inside(e.a) if isinstance(e, (Neg, Par)) else True


def still_inside(e):
    """The same once the run has split the trace further: what was decided for a term may not be kept for its parts."""
    try:
        return inside(e)
    except PyExc:
        return False


def flat_text(tokens):
    out = ''
    for t in tokens:
        out += t.text if isinstance(t, Leaf) else {'(': '(', ')': ')'}.get(t, ' %s ' % t)
    return out.strip()


def leaf(i, kind='num', shifty=True):
    v = sym('x%d' % i, 1, 63) if shifty and i else sym('x%d' % i, 0 if i == 0 else 1, 1 << 40)
    n = 900001 + i
    pylib.SUBST[n] = v
    return Leaf({'num': '%d' % n, 'hex': '0x%x' % n, 'oct': '0%o' % n}[kind], v)


def token_lists():
    """Expressions over 2 operators in every arrangement, 3 operators flat, with unary minus and parentheses."""
    out = []
    for a in OPS:
        for pat in ('l%sl', '-l%sl', 'l%s-l', '-(l%sl)'):
            out.append((pat, (a,)))
    for a, b in itertools.product(OPS, OPS):
        for pat in ('l%sl%sl', '(l%sl)%sl', 'l%s(l%sl)', '-l%sl%sl', 'l%s-l%sl', 'l%sl%s-l', '-(l%sl)%sl', '(l%s(l%sl))'):
            out.append((pat, (a, b)))
    for ops in itertools.product(OPS, OPS, OPS):
        for pat in ('l%sl%sl%sl', '(l%sl)%s(l%sl)', 'l%s(l%sl%sl)', '(l%sl%sl)%sl'):
            out.append((pat, ops))
    return out


def build(pat, ops, kinds=('num',)):
    shifty = any(o in ('<<', '>>') for o in ops)
    toks, i, k = [], 0, 0
    j = 0
    while j < len(pat):
        c = pat[j]
        if c == '%':
            toks.append(ops[k])
            k += 1
            j += 1
        elif c == 'l':
            toks.append(leaf(i, kinds[i % len(kinds)], shifty))
            i += 1
        else:
            toks.append(c)
        j += 1
    return toks


def number_of(v):
    """The integer a model attribute stands for: an int, a number's text, or abstract text of one."""
    v = pyai.unwrap(v)
    if isinstance(v, (int, Lin)):
        return v
    if isinstance(v, str):
        try:
            n = int(v, 0)
        except ValueError:
            return None
        return pylib.SUBST.get(n, n)
    if isinstance(v, AS):
        try:
            return call(pyai.BC['int'], (v,))
        except PyExc:
            return None
    return None


def nodes_of(c):
    return {get_attr(n, 'name'): n for n in dict(c.nodes)['s']}


def same(a, b):
    if isinstance(a, Lin):
        a = S.path.conc(a)
    if isinstance(b, Lin):
        b = S.path.conc(b)
    return a == b and not isinstance(a, Flt)


def where_of(e, default):
    return pysys.exc_at(e) or default


PARSE_AT = ('prophyc/parsers/prophy.py', 'Parser.p_expression_binop', '?')
CALC_AT = ('prophyc/calc.py', 'Calc.p_expression_binop', '?')


def unread():
    """A literal which stands for an unknown number, but was not read by int()."""
    return next((n for n in pylib.SUBST if not pylib.USED.intersection((n, '%d' % n, '0x%x' % n, '0%o' % n))), None)


def exact(v, want, res, rule, at, what, note=''):
    if unread() is not None:
        res.skip('literal %d is not read by int()' % unread(), what)
    elif v is None or not same(v, want):
        res.bad(rule, at, 'evaluates to %r, integer arithmetic gives %r%s' % (v, want, note), what)
    else:
        res.ok(rule)


def conc(v):
    return S.path.conc(v) if isinstance(v, Lin) else v


def positive(want):
    return S.path.decide('<', 0, want)


def prophy_terms(res, task):
    """Constant, enumerator and discriminator uses of each expression, and references to them."""
    for pat, ops, kinds in task:
        pylib.SUBST.clear()
        pylib.USED.clear()
        toks = build(pat, ops, kinds)
        t = tree(toks)
        src = flat_text(toks)
        what = 'prophy: %s' % src
        text_ = ('const R = %s;\nconst Q = R;\nenum E { E_A = %s, E_B = E_A };\nconst V = E_B + 1;\n'
                 'union U { %s: u8 a; };\n' % (src, src, src))
        for drop in ('', 'enum', 'both'):
            body = text_ if not drop else 'const R = %s;\nconst Q = R;\nconst V = Q + 1;\n' % src

            def run():
                if not inside(t):
                    return None
                c = pysys.compile_text({'/w/s.prophy': body}, ['--void_out', '/w/s.prophy'])
                if not still_inside(t):
                    return None
                want = term(t)
                if c.exc is not None:
                    return c.exc, None, legal(want)
                n = nodes_of(c)
                vals = [(n['R'], 'value', want), (n['Q'], 'value', want), (n['V'], 'value', ladd(want, 1))]
                if not drop:
                    vals += [(m, 'value', want) for m in pyai.iterate(get_attr(n['E'], 'members'))]
                    vals += [(m, 'discriminator', want) for m in pyai.iterate(get_attr(n['U'], 'members'))]
                return None, [(conc(number_of(get_attr(x, a))), conc(w)) for x, a, w in vals], None

            rejected = False
            for p, r, e in traces(run, res, what):
                if e is not None:
                    res.bad('accepted', where_of(e, PARSE_AT), pysys.exc_text(e), what)
                    continue
                if r is None:
                    continue
                exc, vals, ok = r
                if exc is not None:
                    rejected = True
                    if ok or drop:
                        res.bad('accepted', where_of(exc, PARSE_AT), pysys.exc_text(exc), what)
                    continue
                for v, w in vals:
                    exact(v, w, res, 'parse-term', PARSE_AT, what)
            if not rejected:
                break
    pylib.SUBST.clear()


def legal(want):
    """Definitely a legal enumerator and discriminator on this trace?"""
    return S.path.decide('<=', 0, want) is True and S.path.decide('<=', want, 0xFFFFFFFE) is True


def sizes(res, task):
    """Array extents: the prophy parser and the model-time evaluator."""
    for pat, ops, kinds in task:
        pylib.SUBST.clear()
        pylib.USED.clear()
        toks = build(pat, ops, kinds)
        t = tree(toks)
        src = flat_text(toks)
        what = 'array extent: %s' % src
        for front_, files, args, rule, at in (
                ('prophy', {'/w/s.prophy': 'struct X { u32 a[%s]; u16 b<%s>; };\n' % (src, src)}, ['/w/s.prophy'],
                 'parse-term', PARSE_AT),
                ('isar', {'/w/s.xml': '<x><constant name="R" value="%s"/><struct name="X"><member name="a" type="u32">'
                                      '<dimension size="%s"/></member></struct></x>' % (front.esc(src), front.esc(src))},
                 ['--isar', '/w/s.xml'], 'model-term', CALC_AT)):
            if front_ == 'isar' and 'oct' in kinds:
                continue

            def run():
                if not inside(t):
                    return None
                c = pysys.compile_text(files, ['--void_out'] + args)
                if not still_inside(t):
                    return None
                want = term(t)
                if c.exc is not None:
                    return c.exc, positive(want), None
                n = nodes_of(c)
                vals = []
                if front_ == 'isar':
                    vals.append((number_of(get_attr(n['R'], 'value')), want, rule, at))
                    if positive(want) is not True:
                        return None, None, [(conc(v), conc(w), r, a) for v, w, r, a in vals]
                for m in pyai.iterate(get_attr(n['X'], 'members')):
                    nm = get_attr(m, 'name')
                    if nm in ('a', 'b'):
                        vals.append((number_of(get_attr(m, 'numeric_size')), want, rule, at))
                    if nm == 'a':
                        vals.append((number_of(get_attr(m, 'byte_size')), pyai.binop('*', want, 4), 'layout-term',
                                     ('prophyc/model.py', 'evaluate_sizes', '?')))
                return None, None, [(conc(v), conc(w), r, a) for v, w, r, a in vals]

            w = '%s %s' % (front_, what)
            for p, r, e in traces(run, res, w):
                if e is not None:
                    res.bad('accepted', where_of(e, at), pysys.exc_text(e), w)
                    continue
                if r is None:
                    continue
                exc, pos, vals = r
                if exc is not None:
                    if pos is True or not pysys.diagnostic(exc):
                        res.bad('accepted', where_of(exc, at), pysys.exc_text(exc), w)
                    continue
                for v, want, rl, a in vals:
                    exact(v, want, res, rl, a, w)
    pylib.SUBST.clear()


# ------------------------------------------------------------------------------ whole pipeline, concrete numbers

class Rnd(object):
    """Random well-formed expression with a bounded non-negative (or any) value."""

    def __init__(self, seed, isar):
        self.r, self.isar = random.Random(seed), isar
        self.names = {}

    def leaf(self):
        r = self.r
        if self.names and r.random() < 0.4:
            n = r.choice(sorted(self.names))
            return [Leaf(n, self.names[n])]
        v = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 16, 63, 255, 256, 4096, r.randint(0, 1000)])
        k = r.choice(['d', 'x', 'd', 'X'] + (['z'] if self.isar else ['o']))
        if k == 'z':
            return [Leaf('0%d' % v, v)]
        if k == 'o' and v:
            return [Leaf('0%o' % v, v)]
        if k in 'xX':
            return [Leaf('0x%x' % v if k == 'x' else '0x%X' % v, v)]
        return [Leaf('%d' % v, v)]

    def expr(self, depth):
        r = self.r
        if depth == 0 or r.random() < 0.15:
            return self.leaf()
        x = r.random()
        if self.isar and x > 0.9:
            return self.function(depth)
        if x < 0.12:
            return ['-'] + self.leaf()
        if x < 0.25:
            return ['('] + self.expr(depth - 1) + [')']
        if x < 0.3:
            return ['-', '('] + self.expr(depth - 1) + [')']
        return self.expr(depth - 1) + [r.choice(OPS + ['|'] if self.isar else OPS)] + self.expr(depth - 1)

    def function(self, depth):
        """isar's spelled out operators."""
        while True:
            f = self.r.choice(['shiftLeft', 'bitMaskOr'])
            a, b = self.expr(depth - 1), self.expr(depth - 1 if f == 'bitMaskOr' else 0)
            x, y = self.value(a), self.value(b)
            if x is not None and y is not None and (f == 'bitMaskOr' or 0 <= y <= 40):
                return [Leaf('%s(%s, %s)' % (f, flat_text(a), flat_text(b)), x << y if f == 'shiftLeft' else x | y)]

    def value(self, toks):
        """Value under the language's precedence; None when outside the property."""
        def ev(e):
            if isinstance(e, Leaf):
                return e.value
            if isinstance(e, Neg):
                return -ev(e.a)
            a, b = ev(e.a), ev(e.b)
            if e.op == '/':
                if a < 0 or b <= 0:
                    raise ValueError
                return a // b
            if e.op in ('<<', '>>'):
                if not 0 <= b <= 40:
                    raise ValueError
                return a << b if e.op == '<<' else a >> b
            return {'+': a + b, '-': a - b, '*': a * b, '|': a | b}[e.op]
        try:
            return ev(tree(toks))
        except ValueError:
            return None

    def get(self, lo, hi, depth=None):
        while True:
            toks = self.expr(depth or self.r.randint(1, 4))
            v = self.value(toks)
            if v is not None and lo <= v <= hi:
                return toks, v


def schema(seed, isar):
    g = Rnd(seed, isar)
    defs, consts, sizes_, discs = [], {}, [], []
    for i in range(30):
        k = i % 5
        if k in (0, 1):
            toks, v = g.get(-(1 << 31), (1 << 31) - 1) if i % 10 else g.get(0, (1 << 40))
            n = 'K%d' % i
            defs.append(Const(n, flat_text(toks)))
            consts[n] = v
            if abs(v) < 100000:
                g.names[n] = v
        elif k == 2:
            ms, seen = [], set()
            for j in range(3):
                toks, v = g.get(0, 0xFFFFFFFF)
                if v in seen:
                    continue
                seen.add(v)
                ms.append(('E%d_%d' % (i, j), flat_text(toks)))
                consts[ms[-1][0]] = v
                if not isar and v < 100000:
                    g.names[ms[-1][0]] = v
            defs.append(Enum('E%d' % i, ms))
            for nm, _ in ms:
                if consts[nm] < 100000:
                    g.names[nm] = consts[nm]
        elif k == 3:
            a, av = g.get(1, 300)
            b, bv = g.get(1, 300)
            ms = [M('a', spec.U16, 'fixed', av, size_text=[flat_text(a)]), M('b', spec.U8, 'lim', bv, size_text=[flat_text(b)])]
            if isar and i % 2:
                a2, av2 = g.get(1, 20)
                b2, bv2 = g.get(1, 20)
                ms[0].size2, ms[1].size2 = flat_text(a2), flat_text(b2)
                av, bv = av * av2, bv * bv2
            defs.append(Struct('S%d' % i, ms))
            sizes_.append(('S%d' % i, av, bv))
        else:
            arms, seen = [], set()
            for j in range(3):
                toks, v = g.get(0, 0xFFFFFFFF)
                if v not in seen:
                    seen.add(v)
                    arms.append((flat_text(toks), 'a%d' % j, spec.U8))
                    discs.append(('U%d' % i, 'a%d' % j, v))
            defs.append(Union('U%d' % i, arms))
    return defs, consts, sizes_, discs


def split_includes(defs, seed):
    """The definitions spread over three files including their predecessors."""
    r = random.Random('split %s' % seed)
    cut = sorted(r.sample(range(1, len(defs)), 2))
    return [defs[:cut[0]], defs[cut[0]:cut[1]], defs[cut[1]:]]


def pipeline(res, task):
    seed, mode = task
    isar = mode.startswith('isar')
    defs, consts, sizes_, discs = schema(seed, isar)
    what = '%s schema with seed %s' % (mode, seed)
    outs = ['--python_out', '/out', '--cpp_out', '/out', '--cpp_full_out', '/out']
    pysys.reset()
    if mode == 'isar':
        c = pysys.compile_text({'/w/s.xml': front.isar_text(defs)}, ['--isar', '/w/s.xml'] + outs)
        names = ['s']
    elif mode == 'prophy':
        c = pysys.compile_text({'/w/s.prophy': spec.schema_text(defs)}, ['/w/s.prophy'] + outs)
        names = ['s']
    else:
        parts = split_includes(defs, seed)
        files = {}
        for i, p in enumerate(parts):
            if isar:
                files['/w/f%d.xml' % i] = front.isar_text(p, ['f%d.xml' % j for j in range(i)])
            else:
                inc = ''.join('#include "f%d.prophy"\n' % j for j in range(i))
                files['/w/f%d.prophy' % i] = inc + spec.schema_text(p)
        names = ['f0', 'f1', 'f2']
        c = pysys.compile_text(files, (['--isar'] if isar else []) + sorted(files) + outs)
    full = '\n'.join(map(str, defs))
    if c.exc is not None:
        res.bad('accepted', where_of(c.exc, PARSE_AT), pysys.exc_text(c.exc), what + '\n' + full)
        return
    exprs = {}
    for d in defs:
        if isinstance(d, Const):
            exprs[d.name] = d.value
        elif isinstance(d, Enum):
            exprs.update(dict(d.members))
    ev = ('prophyc/calc.py' if isar else 'prophyc/parsers/prophy.py', 'expression', '?')
    # Python
    try:
        ns = {}
        for m in pysys.load_all(c).values():
            ns.update(m.d)
        for k, v in sorted(consts.items()):
            got = pyai.unwrap(ns.get(k)) if k in ns else None
            if got == v and not isinstance(got, (float, Flt)):
                res.ok('python-value')
            else:
                res.bad('python-value', ev, '%s = %s is %r in the Python module, integer arithmetic gives %d' % (
                    k, exprs[k], got, v), what)
        for n, a, b in sizes_:
            msg = call(ns[n])
            la = pylib.b_len(get_attr(msg, 'a'))
            data = call(get_attr(msg, 'encode'), ('<',))
            want = spec.up(spec.up(2 * a, 4) + 4 + b, 4)
            if la == a and len(data) == want:
                res.ok('python-size')
            else:
                res.bad('python-size', ev, '%s.a has %r elements instead of %d, %d bytes instead of %d' % (
                    n, la, a, len(data), want), what)
        for u, arm, v in discs:
            msg = call(ns[u])
            pyai.set_attr(msg, 'discriminator', v)
            try:
                get_attr(msg, arm)
                res.ok('python-value')
            except PyExc as e:
                res.bad('python-value', ev, 'discriminator %d of %s does not select %s: %s' % (v, u, arm, pysys.exc_text(e)),
                        what)
    except PyExc as e:
        res.bad('python-value', where_of(e, ev), 'generated module: ' + pysys.exc_text(e), what + '\n' + full)
    # C++
    fs = cxx.outputs(c.written)
    if fs is None:
        res.skip('generated C++ depends on unknown text', what)
        return
    for suffix, ns in (('.pp.hpp', ''), ('.ppf.hpp', 'prophy::generated::')):
        a = cxx.Asserts()
        for k, v in sorted(consts.items()):
            lit = '%dLL' % v if v < 0 else '%dULL' % v
            a.add('%s(%s%s) == %s' % ('(long long)' if v < 0 else '(unsigned long long)', ns, k, lit), ('cpp-value', k, v))
        for n, x, y in sizes_:
            a.add('sizeof(%s%s::a) == %d' % (ns, n, 2 * x), ('cpp-extent', n + '.a', x))
            if not ns:
                a.add('sizeof(%s::b) == %d' % (n, y), ('cpp-extent', n + '.b', y))
        for u, arm, v in discs:
            a.add('(unsigned)(%s%s::discriminator_%s) == %dU' % (ns, u, arm, v), ('cpp-value', '%s.%s' % (u, arm), v))
        unit = ''.join('#include "%s%s"\n' % (n, suffix) for n in names) + a.text()
        bad, other = a.split(cxx.syntax(dict(fs, **{'w.cpp': unit}), 'w.cpp', ['-fpermissive']))
        if other:
            res.skip('generated C++ does not compile: ' + other[0][:200], what)
            continue
        for _, (rule, k, v) in a.items:
            if (rule, k, v) in bad:
                res.bad(rule, ev, '%s is not %d in %s: %s' % (k, v, suffix, exprs.get(k, '')), what + '\n' + full)
            else:
                res.ok(rule)


def mixed(res, task):
    {'p': prophy_terms, 's': sizes, 'x': pipeline}[task[0]](res, task[1])


def tasks(ctx):
    tl = token_lists()
    kinds = [('num',), ('hex', 'num'), ('oct', 'num', 'hex')]
    items = [(p, o, kinds[i % 3]) for i, (p, o) in enumerate(tl)]
    if not ctx.quick:
        items = [(p, o, k) for p, o in tl for k in kinds]
    out = [('p', items[i:i + 25]) for i in range(0, len(items), 25)]
    items = [(p, o, kinds[i % 2]) for i, (p, o) in enumerate(tl)]
    out += [('s', items[i:i + 25]) for i in range(0, len(items), 25)]
    n = 24 if ctx.quick else 120
    out += [('x', ('%s-%d' % (ctx.seed, i), m)) for i in range(n) for m in ('prophy', 'isar', 'includes', 'isar includes')]
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of both evaluators (grammar tables built from the source, semantic actions interpreted over '
        'uninterpreted integer terms): every arrangement of up to three operators, unary minus and parentheses over unknown '
        'literals reduces to the term integer arithmetic prescribes. Concrete random schemas then trace each integer through '
        'the generated Python module (interpreted abstractly) and both C++ headers (static_assert witnesses, compile only).')
    ctx.assumptions = ['precedence: unary minus, then shifts, then * and /, then + and -, then |',
                       'division only with non-negative operands, shift counts below 64']
    run_tasks(ctx, mixed, tasks(ctx), 'batches of expressions')
    for r, n in (('parse-term', 2000), ('model-term', 800), ('layout-term', 300), ('python-value', 1000),
                 ('python-size', 100), ('cpp-value', 2000), ('cpp-extent', 200)):
        ctx.floor(r, n)
