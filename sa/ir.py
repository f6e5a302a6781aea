"""LLVM IR of the C++ under analysis: types, constants and functions, parsed from its text form."""

import re

TOKEN = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
  | (?P<glb>@(?:"[^"]*"|[-\w.$]+))
  | (?P<meta>![\w.]*)
  | (?P<attr>\#\d+)
  | (?P<num>-?(?:0x[0-9A-Fa-f]+|\d+(?:\.\d+(?:e[-+]?\d+)?)?))
  | (?P<dots>\.\.\.)
  | (?P<word>[A-Za-z_$][\w.$]*)
  | (?P<p>[{}()\[\]<>,=*:|])
''', re.X)


def tokens(s):
    return [m.group() for m in TOKEN.finditer(s)]


# ------------------------------------------------------------------------------ types

class T(object):
    __slots__ = ('k', 'n', 'ts', 'packed', 'size', 'align', 'offs')

    def __init__(self, k, n=0, ts=(), packed=False):
        self.k, self.n, self.ts, self.packed = k, n, ts, packed
        self.size = self.align = self.offs = None

    def __repr__(self):
        return {'i': 'i%d' % self.n, 'p': 'ptr', 'f': 'f%d' % self.n, 'v': 'void'}.get(self.k) or '%s%s' % (self.k, list(self.ts))

    def measure(self):
        if self.size is not None:
            return self
        if self.k == 'i':
            b = (self.n + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            self.size, self.align = -(-b // a) * a, a
        elif self.k == 'p':
            self.size = self.align = 8
        elif self.k == 'f':
            self.size = self.align = self.n // 8
        elif self.k == 'a':
            e = self.ts[0].measure()
            self.size, self.align = e.size * self.n, e.align
        elif self.k == 's':
            pos, al, offs = 0, 1, []
            for t in self.ts:
                t.measure()
                a = 1 if self.packed else t.align
                pos += -pos % a
                offs.append(pos)
                pos += t.size
                al = max(al, a)
            self.size, self.align, self.offs = pos + -pos % al, al, offs
        else:
            self.size, self.align = 0, 1
        return self


VOID, PTR, F32, F64 = T('v'), T('p'), T('f', 32), T('f', 64)
_INT = {}


def int_type(n):
    if n not in _INT:
        _INT[n] = T('i', n)
    return _INT[n]


class BadIR(Exception):
    """Text outside the part of the IR language understood here."""


class Cur(object):
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise BadIR('%s expected at %s' % (x, ' '.join(self.t[self.i:self.i + 8])))

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            return int_type(int(x[1:]))
        if x == 'ptr':
            return PTR
        if x == 'void':
            return VOID
        if x == 'float':
            return F32
        if x == 'double':
            return F64
        if x == '{':
            return self.fields('}')
        if x == '<' and self.peek() == '{':
            self.next()
            r = self.fields('}')
            self.need('>')
            r.packed = True
            return r
        if x == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            return T('a', n, (e,))
        if x[0] == '%':
            return self.mod.type(x)
        if x in ('label', 'metadata', 'token'):
            return T(x)
        raise BadIR('type %s' % x)

    def fields(self, end):
        ts = []
        while not self.eat(end):
            ts.append(self.type())
            self.eat(',')
        return T('s', 0, ts)


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
               'returned', 'nofree', 'immarg', 'swiftself', 'nest', 'inbounds', 'noinline', 'fastcc', 'ccc', 'coldcc', 'inalloca',
               'dead_on_unwind', 'writable', 'allocalign', 'allocptr', 'swifterror', 'nsw', 'nuw', 'exact', 'disjoint', 'nneg'}


def skip_attrs(c):
    while True:
        x = c.peek()
        if x in PARAM_ATTRS:
            c.next()
        elif x in ('align', ) and c.peek(1) is not None and re.match(r'\d+$', c.peek(1)):
            c.next()
            c.next()
        elif x in ('dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'elementtype', 'byref', 'preallocated',
                   'range', 'nofpclass', 'inrange'):
            c.next()
            if c.eat('('):
                d = 1
                while d:
                    y = c.next()
                    d += (y == '(') - (y == ')')
        else:
            return


class Function(object):
    def __init__(self, mod, name, head, lines):
        self.mod, self.name, self.head, self.lines = mod, name, head, lines
        self.code = self.outcome = None
        self.dbg = None


class Global(object):
    def __init__(self, name, text):
        self.name, self.text, self.obj = name, text, None


class Module(object):
    def __init__(self, text):
        self.types, self.type_text, self.globals, self.funcs, self.declared, self.meta = {}, {}, {}, {}, set(), {}
        self.locs = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l:
                continue
            c = l[0]
            if c == '%':
                name, _, rest = l.partition(' = type ')
                self.type_text[name] = rest
            elif c == '@':
                name, _, rest = l.partition(' = ')
                self.globals[name] = Global(name, rest)
            elif c == '!':
                name, _, rest = l.partition(' = ')
                self.meta[name] = rest
            elif l.startswith('define '):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                m = re.search(r'@(?:"[^"]*"|[-\w.$]+)', l)
                self.funcs[m.group()] = Function(self, m.group(), l, body)
            elif l.startswith('declare '):
                m = re.search(r'@(?:"[^"]*"|[-\w.$]+)', l)
                self.declared.add(m.group())

    def type(self, name):
        t = self.types.get(name)
        if t is None:
            text = self.type_text.get(name)
            if text is None:
                raise BadIR('type %s' % name)
            if text.startswith('opaque'):
                t = T('opaque')
            else:
                t = Cur(tokens(text), self).type()
            self.types[name] = t
        return t

    # -- debug locations

    def attr(self, text, name):
        m = re.search(r'\b%s: ("(?:[^"\\]|\\.)*"|[^,)]*)' % name, text)
        return m.group(1).strip('"') if m else None

    def location(self, ref):
        """(file, function, line) of a DILocation or DISubprogram reference."""
        r = self.locs.get(ref)
        if r is None:
            text = self.meta.get(ref, '')
            line, scope = self.attr(text, 'line'), ref
            if 'DILocation' in text:
                scope = self.attr(text, 'scope')
            st = self.meta.get(scope, '')
            while 'DISubprogram' not in st and self.attr(st, 'scope'):
                scope = self.attr(st, 'scope')
                st = self.meta.get(scope, '')
            ft = self.meta.get(self.attr(st, 'file') or '', '')
            f = self.attr(ft, 'filename') or '?'
            if not f.startswith('/'):
                f = '%s/%s' % (self.attr(ft, 'directory') or '', f)
            r = self.locs[ref] = (f, self.attr(st, 'name') or '?', int(line or 0))
        return r
