"""Model of ply: lexers and LALR parsers whose rules are functions of the analysed source.

The lexer tables come from the t_ rules, the grammar from the p_ docstrings; the semantic actions are
interpreted abstractly.
"""

import copy
import re

import ply.yacc as hyacc

from .dom import Unsupported
from .pyai import (BC, HostObj, MISSING, NFunc, PClass, PFunc, PMethod, PObj, PModule, PyExc, S, TYPE, call, get_attr,
                   is_subclass, iterate, raise_, unwrap)

LEX_ERROR = PClass('LexError', (BC['Exception'],), {}, TYPE, None, 'ply.lex')
LEX_ERROR.has_dict = True
YACC_ERROR = PClass('YaccError', (BC['Exception'],), {}, TYPE, None, 'ply.yacc')
YACC_ERROR.has_dict = True


class Tok(object):
    _open = True

    def __init__(self, type_, value, lineno=1, lexpos=0):
        self.type, self.value, self.lineno, self.lexpos = type_, value, lineno, lexpos

    def __repr__(self):
        return 'LexToken(%s,%r)' % (self.type, self.value)




def dir_names(o):
    names = set()
    if isinstance(o, PObj):
        names.update(o.d)
        for c in o.cls.mro:
            names.update(c.d)
    elif isinstance(o, PModule):
        names.update(o.d)
    elif isinstance(o, PClass):
        for c in o.mro:
            names.update(c.d)
    return sorted(names)


def fn_of(f):
    return f.fn if isinstance(f, PMethod) else f


def str_seq(v):
    return [unwrap(x) for x in iterate(v)]


def doc_of(f):
    regex = get_attr(f, 'regex', None)
    return regex if regex is not None else get_attr(f, '__doc__', None)


def state_token(name, states):
    """States and token name of a t_ rule."""
    parts = name.split('_')
    i = 1
    for i, part in enumerate(parts[1:], 1):
        if part not in states and part != 'ANY':
            break
    of = parts[1:i] if i > 1 else ['INITIAL']
    if 'ANY' in of:
        of = list(states)
    return of, '_'.join(parts[i:])


def names_of(module):
    """A rule module: names in the order ply sees them, and how to read one."""
    if module is not None:
        return dir_names(module), lambda n, *d: get_attr(module, n, *d)
    d = {}
    if S.stack:
        env = S.stack[-1]
        d.update(env.glob.d)
        d.update(env.vars)
    return list(d), lambda n, *default: d.get(n, *default)


class LexModel(object):
    _open = True

    def __init__(self, module, flags=re.VERBOSE):
        names, get = names_of(module)
        tokens = get('tokens', None)
        if not tokens:
            raise_('SyntaxError', "Can't build lexer")
        self.tokens = set(str_seq(tokens))
        lits = get('literals', None) or ''
        self.literals = set(lits) if isinstance(lits, str) else set(str_seq(lits))
        states = {'INITIAL': 'inclusive'}
        for row in iterate(get('states', None) or ()):
            name, kind = str_seq(row)
            states[name] = kind
        self.ignores, self.errors, self.eofs = {}, {}, {}
        funcs = {s: [] for s in states}
        strs = {s: [] for s in states}
        for n in names:
            if not n.startswith('t_'):
                continue
            v = get(n)
            of, t = state_token(n, states)
            for st in of:
                if t == 'ignore':
                    self.ignores[st] = unwrap(v)
                elif t == 'error':
                    self.errors[st] = v
                elif t == 'eof':
                    self.eofs[st] = v
                elif isinstance(fn_of(v), PFunc):
                    funcs[st].append((fn_of(v).code.line, t, v, doc_of(fn_of(v))))
                elif isinstance(v, str):
                    strs[st].append((t, v))
                else:
                    raise Unsupported('lexer rule %s' % n)
        self.rulesets = {}
        for st in states:
            rules = []
            for line, t, v, doc in sorted(funcs[st], key=lambda x: x[0]):
                if doc is None:
                    raise_('SyntaxError', "Can't build lexer")
                rules.append((t, v, doc))
            for t, v in sorted(strs[st], key=lambda x: len(x[1]), reverse=True):
                if t not in self.tokens and 'ignore_' not in t:
                    raise_('SyntaxError', "Can't build lexer")
                rules.append((t, None, v))
            self.rulesets[st] = []
            for t, v, doc in rules:
                try:
                    rx = re.compile(doc, flags)
                except re.error:
                    raise_('SyntaxError', "Can't build lexer")
                if rx.match(''):
                    raise_('SyntaxError', "Can't build lexer")
                self.rulesets[st].append((t, v, rx, doc))
        for st, kind in states.items():
            if st != 'INITIAL' and kind == 'inclusive':
                self.rulesets[st] += self.rulesets['INITIAL']
                for table in (self.ignores, self.errors, self.eofs):
                    if 'INITIAL' in table:
                        table.setdefault(st, table['INITIAL'])
        self.state = 'INITIAL'
        self.states = []
        self.lineno = 1
        self.lexpos = 0
        self.lexdata = None
        self.h = HostObj(self)

    def input(self, data):
        d = unwrap(data)
        self.lexpos = 0
        self.lexdata = data
        if isinstance(d, str):
            pass
        elif d is None:
            raise_('TypeError', 'object of type NoneType has no len()')
        else:
            raise Unsupported('lexing unknown text %r' % (d,))
    m_input = input

    def m_skip(self, n):
        self.lexpos += n

    def m_clone(self, object=None):
        if object is not None:
            raise Unsupported('lexer clone for another object')
        new = copy.copy(self)
        new.states = list(self.states)
        new.h = HostObj(new)
        return new.h

    def m_begin(self, state):
        if state not in self.rulesets:
            raise_('ValueError', 'Undefined state')
        self.state = state

    def m_push_state(self, state):
        self.states.append(self.state)
        self.m_begin(state)

    def m_pop_state(self):
        if not self.states:
            raise_('IndexError', 'pop from empty list')
        self.m_begin(self.states.pop())

    def m_current_state(self):
        return self.state

    def m_token(self):
        t = self.token()
        return HostObj(t) if t is not None else None

    def m___iter__(self):
        return self.h

    def m___next__(self):
        t = self.m_token()
        if t is None:
            raise_('StopIteration')
        return t

    def _tok(self, type_, value):
        tok = Tok(type_, value, self.lineno, self.lexpos)
        tok.lexer = self.h
        return tok

    def token(self):
        while True:
            data = unwrap(self.lexdata)
            if data is None:
                raise_('RuntimeError', 'No input string given with input()')
            if self.lexpos >= len(data):
                if self.state not in self.eofs:
                    return None
                r = call(self.eofs[self.state], (HostObj(self._tok('eof', '')),))
                return r.o if r is not None else None
            ch = data[self.lexpos]
            if ch in self.ignores.get(self.state, ''):
                self.lexpos += 1
                continue
            for t, f, rx, _ in self.rulesets[self.state]:
                m = rx.match(data, self.lexpos)
                if not m:
                    continue
                tok = self._tok(t, m.group())
                self.lexpos = m.end()
                if f is None:
                    if 'ignore_' in t:
                        break
                    return tok
                r = call(f, (HostObj(tok),))
                if r is None:
                    break
                r = r.o
                if r.type not in self.tokens and r.type not in self.literals:
                    raise_(LEX_ERROR, 'Rule returned an unknown token type')
                return r
            else:
                if ch in self.literals:
                    tok = self._tok(ch, ch)
                    self.lexpos += 1
                    return tok
                if self.state not in self.errors:
                    raise_(LEX_ERROR, 'Illegal character')
                at = self.lexpos
                r = call(self.errors[self.state], (HostObj(self._tok('error', data[at:])),))
                if self.lexpos == at:
                    raise_(LEX_ERROR, 'Scanning error. Illegal character')
                if r is not None:
                    return r.o


class Prod(object):
    """The `p` argument of a semantic action."""

    def __init__(self, ps):
        self.ps = ps

    def m___getitem__(self, n):
        n = unwrap(n)
        if isinstance(n, slice):
            return [s.value for s in self.ps.slice[n]]
        if n >= 0:
            if n >= len(self.ps.slice):
                raise_('IndexError', 'list index out of range')
            return getattr(self.ps.slice[n], 'value', None) if n == 0 else _value(self.ps.slice[n])
        return _value(self.ps.stack[n])

    def m___setitem__(self, n, v):
        self.ps.slice[n].value = v

    def m___len__(self):
        return len(self.ps.slice)

    def m_lineno(self, n):
        return getattr(self.ps.slice[n], 'lineno', 0)

    def m_set_lineno(self, n, v):
        self.ps.slice[n].lineno = v

    def m_lexpos(self, n):
        return getattr(self.ps.slice[n], 'lexpos', 0)

    def m_set_lexpos(self, n, v):
        self.ps.slice[n].lexpos = v

    def m_linespan(self, n):
        a = getattr(self.ps.slice[n], 'lineno', 0)
        return (a, getattr(self.ps.slice[n], 'endlineno', a))

    def m_lexspan(self, n):
        a = getattr(self.ps.slice[n], 'lexpos', 0)
        return (a, getattr(self.ps.slice[n], 'endlexpos', a))

    def m_error(self):
        raise SyntaxError

    def a_slice(self):
        return [HostObj(_Sym(s)) for s in self.ps.slice]

    def a_lexer(self):
        return self.ps.lexer.h

    def a_parser(self):
        return self.ps.parser.h


def _value(s):
    try:
        return s.value
    except AttributeError:
        raise_('AttributeError', "'YaccSymbol' object has no attribute 'value'")


class _Sym(object):
    _open = True

    def __init__(self, s):
        self.__dict__ = s.__dict__


_TABLES = {}


class _Quiet(object):
    def warning(self, *a, **k):
        pass
    info = debug = error = critical = warning


def build_tables(tokens, prec, prods, start):
    key = (tuple(tokens), tuple(prec), tuple((f, n, tuple(s)) for f, n, s, _ in prods), start)
    if key in _TABLES:
        return _TABLES[key]
    try:
        g = hyacc.Grammar(tokens)
        for term, assoc, level in prec:
            g.set_precedence(term, assoc, level)
        for fname, name, syms, line in prods:
            g.add_production(name, syms, fname, '', line)
        g.set_start(start)
        if g.undefined_symbols() or g.infinite_cycles() or g.unused_precedence():
            raise hyacc.GrammarError('bad grammar')
        lr = hyacc.LRGeneratedTable(g, 'LALR', _Quiet())
    except (hyacc.GrammarError, AssertionError) as e:
        raise_(YACC_ERROR, 'Unable to build parser: %s' % e)
    lr.grammar_obj = g
    _TABLES[key] = lr
    return lr


class YaccModel(object):
    _open = True

    def __init__(self, world, module, start=None):
        self.world = world
        self.h = HostObj(self)
        names, get = names_of(module)
        tokens = get('tokens', None)
        if not tokens:
            raise_(YACC_ERROR, 'Unable to build parser')
        tokens = str_seq(tokens)
        prec = []
        for level, row in enumerate(iterate(get('precedence', None) or ())):
            row = str_seq(row)
            for t in row[1:]:
                prec.append((t, row[0], level + 1))
        self.errorf = get('p_error', None)
        funcs = []
        for n in names:
            if n.startswith('p_') and n != 'p_error':
                v = get(n)
                if isinstance(fn_of(v), PFunc):
                    funcs.append((fn_of(v).code.line, n, v))
        funcs.sort(key=lambda x: x[:2])
        self.funcs = {n: v for _, n, v in funcs}
        prods = []
        for line, n, v in funcs:
            f = fn_of(v)
            doc = get_attr(f, '__doc__', None)
            if not doc:
                continue
            try:
                for _, dline, name, syms in hyacc.parse_grammar(doc, f.code.file, line):
                    prods.append((n, name, syms, dline))
            except SyntaxError as e:
                raise_(YACC_ERROR, 'Unable to build parser: %s' % e)
        if not prods:
            raise_(YACC_ERROR, 'Unable to build parser')
        if start is None:
            start = get('start', None)
        self.lr = build_tables(tokens, prec, prods, start)
        self.prods = prods
        self.tokens = tokens
        self.prec = prec

    def m_parse(self, input=None, lexer=None, debug=False, tracking=False, tokenfunc=None):
        if lexer is None:
            lexer = self.world.import_module('ply.lex').d.get('lexer')
            if lexer is None:
                raise_('AttributeError', "module 'ply.lex' has no attribute 'lexer'")
        if tokenfunc is not None:
            raise Unsupported('parse with a token function')
        # own productions: the tables are shared by the parsers of files including each other
        lr = copy.copy(self.lr)
        lr.lr_productions = [copy.copy(p) for p in lr.lr_productions]
        for p in lr.lr_productions:
            p.callable = self._action(p.func) if p.func else None

        def errorf(tok):
            r = call(self.errorf, (HostObj(tok) if tok is not None else None,)) if self.errorf is not None else None
            return r.o if isinstance(r, HostObj) else r
        parser = hyacc.LRParser(lr, errorf)
        parser.h = self.h
        lx = lexer.o if isinstance(lexer, HostObj) and isinstance(lexer.o, LexModel) else _Foreign(lexer)
        saved = hyacc.call_errorfunc
        hyacc.call_errorfunc = lambda f, t, p: f(t)
        try:
            # the drivers differ only in debugging output and position tracking
            return parser.parse(input, lexer=_Adapter(lx), tracking=bool(tracking))
        finally:
            hyacc.call_errorfunc = saved

    def m_restart(self):
        raise Unsupported('parser restart')

    def m_errok(self):
        raise Unsupported('parser error recovery')

    def _action(self, fname):
        f = self.funcs[fname]

        def act(ps):
            try:
                # production callables may nest (a parser invoked by an action of another file)
                call(f, (HostObj(Prod(ps)),))
            except PyExc as e:
                if is_subclass(e.obj.cls, BC['SyntaxError']) and e.obj.cls is BC['SyntaxError']:
                    raise SyntaxError
                raise
        return act


class _Foreign(object):
    """A lexer which is not one of ply, or wraps one."""

    def __init__(self, o):
        self.h = self.obj = o

    def input(self, d):
        call(get_attr(self.obj, 'input'), (d,))

    def token(self):
        t = call(get_attr(self.obj, 'token'), ())
        if t is None:
            return None
        if isinstance(t, HostObj) and isinstance(t.o, Tok):
            return t.o
        tok = Tok(get_attr(t, 'type'), get_attr(t, 'value'), get_attr(t, 'lineno', 0), get_attr(t, 'lexpos', 0))
        tok.lexer = self.h
        return tok

    lineno = property(lambda self: get_attr(self.obj, 'lineno', 0))
    lexpos = property(lambda self: get_attr(self.obj, 'lexpos', 0))


class _Adapter(object):
    def __init__(self, lx):
        self.lx = lx
        self.h = lx.h

    def input(self, d):
        self.lx.input(d)

    def token(self):
        return self.lx.token()

    @property
    def lineno(self):
        return self.lx.lineno

    @property
    def lexpos(self):
        return self.lx.lexpos


def lib_lex(world):
    from .pylib import mod

    def lex(module=None, object=None, debug=False, optimize=False, lextab='lextab', reflags=int(re.VERBOSE), **k):
        h = LexModel(object if object is not None else module, unwrap(reflags)).h
        m.d['lexer'] = h
        m.d['token'] = get_attr(h, 'token')
        m.d['input'] = get_attr(h, 'input')
        return h

    def token(r):
        def decorate(f):
            f.d['regex'] = unwrap(r) if isinstance(r, str) else get_attr(r, '__doc__')
            return f
        return NFunc('decorate', decorate)

    m = mod('ply.lex', lex=lex, TOKEN=token, Token=token)
    m.d['LexError'] = LEX_ERROR
    return m


def lib_yacc(world):
    from .pylib import mod
    m = mod('ply.yacc', yacc=lambda method='LALR', debug=False, module=None, tabmodule='parsetab', start=None, **k:
            YaccModel(world, module, start).h)
    m.d['YaccError'] = YACC_ERROR
    return m
