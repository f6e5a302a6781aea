"""C10: every API operation acts on the message state as on a plain reference model.

The state of a message is the value read through its public attributes.  For every member kind, every
operation is applied in every small state with arguments from every class (in range, out of range,
wrong type, bad index); the resulting state, or the rejection, is compared with the model.  Together
with the default state this is the inductive step of the property.
"""

import random

from .. import family, pyai, pycodec, pylib, pysys, spec
from ..dom import AB, Cell, Flt, Lin, sym
from ..harness import run_tasks, traces
from ..pyai import S, call, get_attr, set_attr
from ..spec import M, Struct, Union
from .c01 import default_value, trace_note

RULES = {
    'state': 'an accepted operation leaves exactly the state of the reference model',
    'accepts': 'an operation the model accepts is accepted',
    'rejects': 'an operation the model rejects is rejected',
    'error-type': 'a rejection is a ProphyError (IndexError / ValueError of a bad index or missing element)',
    'unchanged': 'a rejected operation leaves the message unchanged',
    'encodable': 'the message can be encoded after every operation, to the documented bytes of its state',
    'isolated': 'operations on one message do not change another message of the type',
}

LIST_ERRORS = ('IndexError', 'ValueError')


class Reject(Exception):
    def __init__(self, *also):
        self.also = also


class Op(object):
    """label; impl(msg); model(state) -> None, mutating the state, or raises Reject."""

    def __init__(self, label, impl, model, split=None):
        self.label, self.impl, self.model, self.split = label, impl, model, split


WRONG = [('text', 'abc'), ('bytes', AB.of(b'ab')), ('None', None), ('list', [1]), ('dict', {})]


def scalar_args(t):
    """[(label, argument, stored value or Reject)]; covers accepted and rejected classes."""
    t = spec.real(t)
    out = []
    if isinstance(t, spec.Enum):
        for n, v in t.members:
            out.append(('enumerator %s' % n, n, v))
            out.append(('value %d' % v, v, v))
        bad = [x for x in (0, 1, 3, 5, -1, 1 << 32, (1 << 32) + 2) if x not in [v for _, v in t.members]]
        out += [('value %d' % x, x, Reject) for x in bad]
        out += [('unknown enumerator', 'NO_SUCH', Reject), ('empty text', '', Reject), ('float', 2.0, Reject)]
        out += [(l, a, Reject) for l, a in WRONG[1:]]
    elif t.flt:
        f = Flt('f', None, True)
        out += [('float', f, f), ('int', 7, 7), ('zero', 0, 0)]
        if t.size == 4:
            out += [('too large float', 1e39, Reject), ('too small float', -1e39, Reject)]
        out += [('too large int', 10 ** 400, Reject), ('infinity', float('inf'), float('inf'))]
        out += [(l, a, Reject) for l, a in WRONG]
    else:
        s = sym('arg', t.lo, t.hi)
        out += [('in range', s, s), ('minimum', t.lo, t.lo), ('maximum', t.hi, t.hi),
                ('minimum - 1', t.lo - 1, Reject), ('maximum + 1', t.hi + 1, Reject),
                ('below', sym('argl', None, t.lo - 1), Reject), ('above', sym('argh', t.hi + 1, None), Reject),
                ('float', 1.0, Reject), ('unknown float', Flt('f'), Reject)]
        out += [(l, a, Reject) for l, a in WRONG]
    return out


def few_args(t):
    """A good and some bad arguments."""
    a = scalar_args(t)
    good = [x for x in a if x[2] is not Reject]
    bad = [x for x in a if x[2] is Reject]
    return good[0], [bad[0], bad[1], bad[-1]] + [x for x in bad if 'text' in x[0] or 'None' in x[0]]


def setter(get, name, arg):
    return lambda msg: set_attr(get(msg), name, arg)


def scalar_ops(name, t, opt=False):
    out = []
    for label, arg, val in scalar_args(t):
        if opt and arg is None:
            continue

        def model(st, val=val):
            if val is Reject:
                raise Reject()
            st[name] = val
        out.append(Op('%s = <%s>' % (name, label), lambda msg, arg=arg: set_attr(msg, name, arg), model))
    if opt:
        def clear(st):
            st[name] = None
        out.append(Op('%s = None' % name, lambda msg: set_attr(msg, name, None), clear))
    return out


def bytes_cells(n, tag='w'):
    return [Cell('in', '%s[%d]' % (tag, i), 0) for i in range(n)]


def bytes_ops(m, limit, fixed):
    out = []
    lens = [0, 1, 2]
    if limit is not None:
        lens += [limit - 1, limit, limit + 1]
    for n in sorted(set(lens)):
        cells = bytes_cells(n)

        def model(st, n=n, cells=cells):
            if limit is not None and n > limit:
                raise Reject()
            st[m.name] = cells + ([0] * (limit - n) if fixed else [])
        out.append(Op('%s = %d bytes' % (m.name, n), lambda msg, cells=cells: set_attr(msg, m.name, AB(cells)), model))
    for label, arg in WRONG[:1] + WRONG[2:] + [('int', 5)]:
        def rej(st):
            raise Reject()
        out.append(Op('%s = <%s>' % (m.name, label), lambda msg, arg=arg: set_attr(msg, m.name, arg), rej))
    return out


IDX = [-3, -2, -1, 0, 1, 2, 3]
SLICES = [(a, b, c) for a in (None, -2, 0, 1, 3) for b in (None, -1, 0, 1, 2) for c in (None, 2, -1)]


def array_of(msg, name):
    return get_attr(msg, name)


def scalar_array_ops(m, limit, fixed, full=True):
    t, name = m.type, m.name
    good, bads = few_args(t)
    out = []

    def guard(st, n):
        if limit is not None and n > limit:
            raise Reject()

    # item assignment
    for i in IDX:
        for label, arg, val in [good] + bads:
            def model(st, i=i, val=val):
                if val is Reject:
                    raise Reject('IndexError')
                try:
                    st[name][i] = val
                except IndexError:
                    raise Reject('IndexError')
            out.append(Op('%s[%d] = <%s>' % (name, i, label),
                          lambda msg, i=i, arg=arg: pyai.set_item(array_of(msg, name), i, arg), model))
    for label, arg, val in scalar_args(t):
        def model(st, val=val):
            if val is Reject or not st[name]:
                raise Reject('IndexError')
            st[name][0] = val
        out.append(Op('%s[0] = <%s>' % (name, label),
                      lambda msg, arg=arg: pyai.set_item(array_of(msg, name), 0, arg), model))
    # slice assignment
    for sl in SLICES if full else SLICES[::4]:
        for n in (0, 1, 2, 3):
            vals = [spec.value(t, spec.Shape(enums=(1, 0)), 's%d' % k) for k in range(n)]

            def model(st, sl=sl, vals=vals):
                s = slice(*sl)
                new = list(st[name])
                try:
                    new[s] = vals
                except ValueError:
                    raise Reject('ValueError')
                if fixed and len(new) != len(st[name]):
                    raise Reject()
                guard(st, len(new))
                st[name] = new
            out.append(Op('%s[%s] = %d values' % (name, ':'.join('' if x is None else str(x) for x in sl), n),
                          lambda msg, sl=sl, vals=vals: pyai.set_item(array_of(msg, name), slice(*sl), list(vals)), model))
    for label, arg, val in bads:
        def model(st):
            raise Reject()
        ok = spec.value(t, spec.Shape(), 's')
        out.append(Op('%s[:2] = [good, <%s>]' % (name, label),
                      lambda msg, arg=arg, ok=ok: pyai.set_item(array_of(msg, name), slice(None, 2), [ok, arg]), model))
    out.append(Op('%s = list' % name, lambda msg: set_attr(msg, name, [1]), _reject))
    out.append(Op('%s[:] = 5' % name, lambda msg: pyai.set_item(array_of(msg, name), slice(None, None), 5), _reject_type))
    if fixed:
        return out
    # append / insert / extend / remove / delete
    for label, arg, val in scalar_args(t):
        def model(st, val=val):
            if val is Reject:
                raise Reject()
            guard(st, len(st[name]) + 1)
            st[name] = st[name] + [val]
        out.append(Op('%s.append(<%s>)' % (name, label),
                      lambda msg, arg=arg: call(get_attr(array_of(msg, name), 'append'), (arg,)), model))
    for i in IDX:
        for label, arg, val in [good] + bads[:2]:
            def model(st, i=i, val=val):
                if val is Reject:
                    raise Reject()
                guard(st, len(st[name]) + 1)
                new = list(st[name])
                new.insert(i, val)
                st[name] = new
            out.append(Op('%s.insert(%d, <%s>)' % (name, i, label),
                          lambda msg, i=i, arg=arg: call(get_attr(array_of(msg, name), 'insert'), (i, arg)), model))
    for n in range(0, 5):
        vals = [spec.value(t, spec.Shape(enums=(1, 0)), 'e%d' % k) for k in range(n)]
        for label, mk in (('list', list), ('tuple', tuple)):
            def model(st, vals=vals):
                guard(st, len(st[name]) + len(vals))
                st[name] = st[name] + vals
            out.append(Op('%s.extend(%s of %d)' % (name, label, n),
                          lambda msg, vals=vals, mk=mk: call(get_attr(array_of(msg, name), 'extend'), (mk(vals),)), model))

    def twice(st):
        guard(st, 2 * len(st[name]))
        st[name] = st[name] * 2
    out.append(Op('%s.extend(%s)' % (name, name),
                  lambda msg: call(get_attr(array_of(msg, name), 'extend'), (array_of(msg, name),)), twice))
    for label, arg, val in bads:
        ok = spec.value(t, spec.Shape(), 'e')
        out.append(Op('%s.extend([good, <%s>])' % (name, label),
                      lambda msg, arg=arg, ok=ok: call(get_attr(array_of(msg, name), 'extend'), ([ok, arg],)), _reject))
    out.append(Op('%s.extend(5)' % name, lambda msg: call(get_attr(array_of(msg, name), 'extend'), (5,)), _reject_type))
    for i in IDX:
        def model(st, i=i):
            new = list(st[name])
            try:
                del new[i]
            except IndexError:
                raise Reject('IndexError')
            st[name] = new
        out.append(Op('del %s[%d]' % (name, i), lambda msg, i=i: pyai.del_item(array_of(msg, name), i), model))
    for sl in SLICES if full else SLICES[::4]:
        def model(st, sl=sl):
            new = list(st[name])
            del new[slice(*sl)]
            st[name] = new
        out.append(Op('del %s[%s]' % (name, ':'.join('' if x is None else str(x) for x in sl)),
                      lambda msg, sl=sl: pyai.del_item(array_of(msg, name), slice(*sl)), model))

    def remove_first(msg):
        arr = array_of(msg, name)
        if pylib.b_len(arr):
            call(get_attr(arr, 'remove'), (pyai.get_item(arr, 0),))

    def remove_model(st):
        st[name] = st[name][1:]
    out.append(Op('%s.remove(first)' % name, remove_first, remove_model))
    rt = spec.real(t)
    if not isinstance(rt, spec.Enum) and not rt.flt:
        def missing(st):
            raise Reject('ValueError')
        out.append(Op('%s.remove(missing)' % name,
                      lambda msg: call(get_attr(array_of(msg, name), 'remove'), (rt.hi + 5,)), missing))
    return out


def _reject(st):
    raise Reject()


def _reject_type(st):
    raise Reject('TypeError')       # pinned by the project's own tests for arguments which are not sequences


def composite_array_ops(m, limit, fixed):
    name, t = m.name, spec.real(m.type)
    out = [Op('%s = list' % name, lambda msg: set_attr(msg, name, []), _reject)]
    if fixed:
        return out

    def guard(n):
        if limit is not None and n > limit:
            raise Reject()

    def add_model(st):
        guard(len(st[name]) + 1)
        st[name] = st[name] + [default_value(t)]
    out.append(Op('%s.add()' % name, lambda msg: call(get_attr(array_of(msg, name), 'add')), add_model))
    if isinstance(t, Struct):
        for fm in t.members:
            if fm.name in spec.count_names(t):
                continue
            ft = spec.real(fm.type)
            if fm.kind == 'plain' and isinstance(ft, (spec.Prim, spec.Enum)):
                good, bads = few_args(ft)
                for label, arg, val in [good] + bads:
                    def model(st, val=val, fm=fm):
                        if val is Reject:
                            raise Reject()
                        guard(len(st[name]) + 1)
                        e = default_value(t)
                        e[fm.name] = val
                        st[name] = st[name] + [e]
                    out.append(Op('%s.add(%s=<%s>)' % (name, fm.name, label),
                                  lambda msg, arg=arg, fm=fm: call(get_attr(array_of(msg, name), 'add'), (),
                                                                   {fm.name: arg}), model))
            elif fm.kind == 'dyn' and isinstance(ft, spec.Prim) and not spec.is_byte(ft):
                vals = [sym('k%d' % i, ft.lo, ft.hi) for i in range(2)]

                def model(st, fm=fm, vals=vals):
                    guard(len(st[name]) + 1)
                    e = default_value(t)
                    e[fm.name] = list(vals)
                    st[name] = st[name] + [e]
                out.append(Op('%s.add(%s=[..])' % (name, fm.name),
                              lambda msg, vals=vals, fm=fm: call(get_attr(array_of(msg, name), 'add'), (),
                                                                 {fm.name: list(vals)}), model))
        out.append(Op('%s.add(no_such=1)' % name,
                      lambda msg: call(get_attr(array_of(msg, name), 'add'), (), {'no_such': 1}), _reject))
    for k in (0, 1, 2, 3):
        def model(st, k=k):
            n = len(st[name])
            pick = [st[name][i % n] for i in range(k)] if n else []
            guard(n + len(pick))
            import copy
            st[name] = st[name] + copy.deepcopy(pick)

        def impl(msg, k=k):
            arr = array_of(msg, name)
            n = pylib.b_len(arr)
            pick = [pyai.get_item(arr, i % n) for i in range(k)] if n else []
            call(get_attr(arr, 'extend'), (pick,))
        out.append(Op('%s.extend(%d of its elements)' % (name, k), impl, model))

    def twice(st):
        guard(2 * len(st[name]))
        import copy
        st[name] = st[name] + copy.deepcopy(st[name])
    out.append(Op('%s.extend(itself)' % name,
                  lambda msg: call(get_attr(array_of(msg, name), 'extend'), (array_of(msg, name),)), twice))

    def bad_extend(msg):
        arr = array_of(msg, name)
        first = [pyai.get_item(arr, 0)] if pylib.b_len(arr) else []
        call(get_attr(arr, 'extend'), (first + [1],))
    out.append(Op('%s.extend([element, 1])' % name, bad_extend, _reject_type))
    for i in IDX:
        def model(st, i=i):
            new = list(st[name])
            try:
                del new[i]
            except IndexError:
                raise Reject('IndexError')
            st[name] = new
        out.append(Op('del %s[%d]' % (name, i), lambda msg, i=i: pyai.del_item(array_of(msg, name), i), model))
    for sl in SLICES[::2]:
        def model(st, sl=sl):
            new = list(st[name])
            del new[slice(*sl)]
            st[name] = new
        out.append(Op('del %s[%s]' % (name, ':'.join('' if x is None else str(x) for x in sl)),
                      lambda msg, sl=sl: pyai.del_item(array_of(msg, name), slice(*sl)), model))
    return out


def composite_ops(name, t, opt):
    out = []
    for label, arg in WRONG + [('int', 1), ('False', False)] + ([] if opt else [('True', True)]):
        if opt and arg is None:
            continue
        out.append(Op('%s = <%s>' % (name, label), lambda msg, arg=arg: set_attr(msg, name, arg), _reject))
    if opt:
        def on(st):
            st[name] = default_value(t)

        def off(st):
            st[name] = None
        out.append(Op('%s = True' % name, lambda msg: set_attr(msg, name, True), on))
        out.append(Op('%s = None' % name, lambda msg: set_attr(msg, name, None), off))
    return out


def union_ops(name, u):
    """Operations on a union member `name` of the message."""
    out = []

    def get(msg):
        return get_attr(msg, name)
    for d, n, at in u.arms:
        def switch(st, d=d, at=at):
            if st[name][0] != d:
                st[name] = (d, default_value(at))
        out.append(Op('%s.discriminator = %d' % (name, d), lambda msg, d=d: set_attr(get(msg), 'discriminator', d), switch))
        out.append(Op('%s.discriminator = %r' % (name, n), lambda msg, n=n: set_attr(get(msg), 'discriminator', n), switch))
        art = spec.real(at)
        if isinstance(art, (Struct, Union)):
            out.append(Op('%s.%s = 1' % (name, n), lambda msg, n=n: set_attr(get(msg), n, 1), _reject))

            def read_model(st, d=d):
                if st[name][0] != d:
                    raise Reject()
            out.append(Op('read %s.%s' % (name, n), lambda msg, n=n: get_attr(get(msg), n), read_model))
        else:
            for label, arg, val in scalar_args(at):
                def model(st, d=d, val=val):
                    if val is Reject or st[name][0] != d:
                        raise Reject()
                    st[name] = (d, val)
                out.append(Op('%s.%s = <%s>' % (name, n, label), lambda msg, n=n, arg=arg: set_attr(get(msg), n, arg), model))

            def read_model(st, d=d):
                if st[name][0] != d:
                    raise Reject()
            out.append(Op('read %s.%s' % (name, n), lambda msg, n=n: get_attr(get(msg), n), read_model))
    taken = [d for d, _, _ in u.arms]
    for bad in [x for x in (0, 1, 2, 3, 99, -1, 1 << 32) if x not in taken][:3] + ['no_such', '', None, [1]]:
        out.append(Op('%s.discriminator = %r' % (name, bad),
                      lambda msg, bad=bad: set_attr(get(msg), 'discriminator', bad), _reject))
    return out


def limit_of(t, m):
    if m.kind in ('fixed', 'lim'):
        return m.size
    if m.kind == 'ext':
        by = {x.name: x for x in t.members}
        return spec.real(by[m.sizer].type).hi
    return None


def ops_of(t, m, full=True):
    mt = spec.real(m.type)
    comp = isinstance(mt, (Struct, Union))
    if m.kind in ('plain', 'opt'):
        if comp:
            return composite_ops(m.name, mt, m.kind == 'opt') + (
                union_ops(m.name, mt) if isinstance(mt, Union) and m.kind == 'plain' else [])
        return scalar_ops(m.name, mt, m.kind == 'opt')
    lim = limit_of(t, m)
    if lim is not None and lim > 1000:
        lim = None
    if spec.is_byte(mt):
        return bytes_ops(m, lim, m.kind == 'fixed')
    if comp:
        return composite_array_ops(m, lim, m.kind == 'fixed')
    return scalar_array_ops(m, lim, m.kind == 'fixed', full)


def clone(v):
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    if isinstance(v, tuple):
        return (v[0], clone(v[1]))
    return v


def sharing_ok(t, st):
    """Lengths of the arrays sharing a sizer agree, at every level."""
    t = spec.real(t)
    if isinstance(t, Union):
        arm = [a for a in t.arms if a[0] == st[0]][0]
        return sharing_ok(arm[2], st[1]) if isinstance(spec.real(arm[2]), (Struct, Union)) else True
    if not isinstance(t, Struct):
        return True
    for s in spec.count_names(t):
        if len({len(st[m.name]) for m in t.members if m.sizer == s}) > 1:
            return False
    for m in t.members:
        if m.name in st and isinstance(spec.real(m.type), (Struct, Union)) and st[m.name] is not None:
            for e in ([st[m.name]] if m.kind in ('plain', 'opt') else st[m.name]):
                if not sharing_ok(m.type, e):
                    return False
    return True


def check_seq(res, t, cls, v0, seq, what, two=False):
    """Applies the operations in turn; compares the state after each with the model."""
    where_impl = [None]

    def run():
        log = []
        msg = pycodec.build(cls, t, v0) if v0 is not None else call(cls)
        rest = call(cls) if two else None
        state = clone(v0) if v0 is not None else default_value(t)
        for op in seq:
            want, rej = clone(state), None
            try:
                op.model(want)
            except Reject as r:
                rej = r
            S.call_log = calls = []
            try:
                try:
                    op.impl(msg)
                    err = None
                except pyai.PyExc as e:
                    err = e
            finally:
                S.call_log = None
            at = next((c for c in calls if c[0].startswith('prophy/')), ('prophy', 'message API', '?'))
            if err is not None:
                at = pysys.exc_at(err) or at
            log.append((op, rej, err, at))
            if rej is None and err is None:
                state = want
            got = pysys.read(msg, t)
            d = pysys.diff(state, got)
            if d:
                return log, ('unchanged' if err is not None or rej is not None else 'state', d), None, None
            if (err is None) != (rej is None):
                break
        try:
            enc = pycodec.encode(msg, '<')
        except pyai.PyExc as e:
            enc = e
        other = pysys.diff(default_value(t), pysys.read(rest, t)) if two else None
        return log, None, (state, enc), other

    for p, r, e in traces(run, res, what, steps=200000, partial=True, hang=lambda w: res.bad('state', w or '?', 'operation does not end', what)):
        if e is not None:
            res.skip('cannot build: ' + pysys.exc_text(e), what)
            continue
        log, bad, enc, other = r
        ok = True
        for op, rej, err, at in log:
            name = err.obj.cls.name if err is not None else None
            label = '%s: %s%s' % (what, ', '.join(x[0].label for x in log), trace_note(p))
            if rej is None and err is not None:
                res.bad('accepts', at, '%s raises %s' % (op.label, pysys.exc_text(err)), label)
                ok = False
            elif rej is not None and err is None:
                res.bad('rejects', at, '%s is accepted' % op.label, label)
                ok = False
            elif err is not None:
                if name == 'ProphyError' or name in rej.also:
                    res.ok('error-type')
                else:
                    res.bad('error-type', at, '%s raises %s' % (op.label, pysys.exc_text(err)), label)
                    ok = False
        if bad:
            op, rej, err, at = log[-1]
            res.bad(bad[0], at, 'after %s: %s' % (op.label, bad[1]), '%s: %s%s' % (
                what, ', '.join(x[0].label for x in log), trace_note(p)))
            continue
        if not ok:
            continue
        res.ok('unchanged' if any(x[2] is not None for x in log) else 'state')
        label = '%s: %s%s' % (what, ', '.join(x[0].label for x in log), trace_note(p))
        if other:
            res.bad('isolated', log[-1][3], 'another message reads %s' % other, label)
        elif two:
            res.ok('isolated')
        state, got = enc
        if not sharing_ok(t, state):
            if isinstance(got, pyai.PyExc) and got.obj.cls.name == 'ProphyError':
                res.ok('encodable')
            else:
                res.bad('encodable', ('prophy/generators.py', 'container_len.evaluate_size', '?'),
                        'arrays of unequal length sharing a sizer encode to %r' % (got,), label)
        elif isinstance(got, pyai.PyExc):
            res.bad('encodable', pysys.exc_at(got) or '?', pysys.exc_text(got), label)
        else:
            ref = spec.encode(t, state, '<')
            i = pysys.cells_differ(got, norm_cells(ref.cells))
            if i is not None:
                res.bad('encodable', got.prov[min(i, len(got) - 1)] or '?' if len(got) else '?',
                        'byte %d is %r instead of %r' % (i, got.cells[i:i + 1], ref.cells[i:i + 1]), label)
            else:
                res.ok('encodable')


def norm_cells(cells):
    import struct
    out = []
    for c in cells:
        if not isinstance(c, int) and c.kind in ('f4', 'f8') and isinstance(c.term, (int, float)):
            c = struct.pack('<f' if c.kind == 'f4' else '<d', c.term)[c.sig]
        out.append(c)
    return out


STATES = [
    None,
    ((0,), (False,), (0,), (0,)),
    ((1,), (True,), (1,), (1,)),
    ((2,), (True,), (0,), (0,)),
    ((3,), (True,), (2,), (2,)),
]


def batch(res, task):
    types, full, seqs, seed = task
    for t, cls in pycodec.load(res, types):
        ops = []
        for m in t.members:
            if m.name not in spec.count_names(t):
                ops += ops_of(t, m, full)
        short = {}
        for sh in STATES:
            v0 = spec.value(t, spec.Shape(*sh), 'v') if sh else None
            what = '%s holding %s%s' % (t, 'defaults' if sh is None else 'lengths %s optionals %s arms %s' % sh[:3],
                                        ''.join(' | ' + str(d) for d in spec.deps(t) if d is not t))
            for k, op in enumerate(ops):
                check_seq(res, t, cls, v0, [op], what, two=k % 3 == 0 and sh is None)
            rnd = random.Random('%s %s %s' % (seed, t, sh))
            for k in range(seqs):
                check_seq(res, t, cls, v0, [rnd.choice(ops) for _ in range(rnd.randint(2, 5))], what, two=k % 4 == 0)


def narrow(res, task):
    """Arrays bound to a narrow sizer: the sizer's capacity is a limit."""
    t, n = task
    (t, cls), = pycodec.load(res, [t])
    m = t.members[-1]
    v0 = {m.name: bytes_cells(n, 'v') if spec.is_byte(m.type) else [sym('v%d' % i, 0, 255) for i in range(n)]}
    if spec.is_byte(m.type):
        ops = [Op('%s = %d bytes' % (m.name, k), lambda msg, k=k: set_attr(msg, m.name, AB(bytes_cells(k))),
                  (lambda st, k=k: st.update({m.name: bytes_cells(k)})) if k <= n else _reject) for k in (n, n + 1)]
    else:
        ops = [Op('%s.append' % m.name, lambda msg: call(get_attr(array_of(msg, m.name), 'append'), (1,)), _reject),
               Op('%s.insert' % m.name, lambda msg: call(get_attr(array_of(msg, m.name), 'insert'), (0, 1)), _reject),
               Op('%s.extend' % m.name, lambda msg: call(get_attr(array_of(msg, m.name), 'extend'), ([1],)), _reject),
               Op('%s[0:0] =' % m.name, lambda msg: pyai.set_item(array_of(msg, m.name), slice(0, 0), [1]), _reject)]
    for op in ops:
        check_seq(res, t, cls, v0, [op], '%s holding %d elements' % (t, n))


def mixed(res, task):
    return narrow(res, task) if len(task) == 2 else batch(res, task)


Z = M('z', spec.U8)


def tasks(ctx):
    with_z = [Struct('X', m(0) + [Z]) for m in family.templates(1)]
    with_z += [Struct('X', [Z] + m(0)) for m in family.last_templates(1)]
    out = [([t], True, 40 if ctx.quick else 400, ctx.seed) for t in with_z]
    out += [([t], False, 20 if ctx.quick else 200, ctx.seed) for t in family.externals()]
    out += [(b, True, 20, ctx.seed) for b in pycodec.batches(
        [Struct('X', [M('u', u), Z]) for u in family.unions()[::(5 if ctx.quick else 1)]], 10)]
    for st, n in ((spec.U8, 255), (spec.I8, 127)):
        out += [(Struct('X', [M('n', st), M('a', x, 'ext', sizer='n')]), n) for x in (spec.U8, spec.BYTE)]
    return out


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'Abstract interpretation of the message API: each operation in each small state with unknown in-range, out-of-range '
        'and wrongly typed arguments, compared with a plain list/value model; the resulting message is read back and '
        'encoded. Single operations over all states are the inductive step; sampled sequences of 2..5 operations add '
        'hidden-state effects.')
    ctx.assumptions = ['member kinds one at a time next to a scalar neighbour', 'array lengths 0..4, indices -3..3, slices '
                       'over {None,-2,-1,0,1,2,3} and steps {None,2,-1}',
                       'TypeError is tolerated for arguments that are not sequences or messages (pinned by existing tests)']
    run_tasks(ctx, mixed, tasks(ctx), 'message types')
    ctx.floor('state', 5000)
    ctx.floor('unchanged', 5000)
    ctx.floor('encodable', 5000)
