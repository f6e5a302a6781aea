"""C08: the raw C++ structs have the layout of the wire."""

from .. import cxx, pycodec, pysys, rawfam, spec
from ..harness import run_tasks

RULES = {
    'offset': 'every member lies at the offset the format gives it, from the start of its struct or part',
    'flag': 'the flag and the value of an optional lie where the format has them',
    'sizeof': 'fixed structs and unions have the size they have on the wire',
    'arm': 'discriminator and arms of a union lie where the format has them',
    'field': 'the type of a member has the size, the kind and the number of elements of the encoded field',
    'discriminator': 'discriminator constants and enumerators have the declared values',
}
GEN = 'prophyc/generators/cpp.py'
WHERE = {'offset': 'translate_struct', 'flag': 'translate_struct', 'sizeof': 'translate_struct', 'arm': 'translate_union',
         'field': 'translate_struct', 'discriminator': 'translate_union'}

HEAD = '''#include "s.pp.hpp"
#include <cstddef>
template <typename T> struct bare { typedef T type; enum { count = 0 }; };
template <typename T, size_t N> struct bare<T[N]> { typedef T type; enum { count = N }; };
template <typename T> struct kind { enum { value = 0 }; };
#define KIND(T, K) template <> struct kind<T> { enum { value = K }; };
KIND(uint8_t, 11) KIND(uint16_t, 12) KIND(uint32_t, 14) KIND(uint64_t, 18)
KIND(int8_t, 21) KIND(int16_t, 22) KIND(int32_t, 24) KIND(int64_t, 28) KIND(float, 34) KIND(double, 38)
KIND(unsigned long long, 18) KIND(long long, 28)
'''


def kind_of(t):
    return (30 if t.flt else 20 if t.signed else 10) + t.size


def state(a, d):
    """Assertions on one definition."""
    n = d.name
    if isinstance(d, spec.Enum):
        a.add('sizeof(%s) == 4' % n, ('sizeof', n, 'an enum of 4 bytes'))
        for k, v in d.members:
            a.add('static_cast<unsigned>(%s) == %uu' % (k, int(v) & 0xffffffff), ('discriminator', n, '%s = %s' % (k, v)))
    elif isinstance(d, spec.Union):
        a.add('sizeof(%s) == %d' % (n, spec.size(d)), ('sizeof', n, 'size %d' % spec.size(d)))
        a.add('offsetof(%s, discriminator) == 0 && sizeof(%s::_discriminator) == 4' % (n, n), ('arm', n, 'discriminator at 0, 4 bytes'))
        for v, k, t in d.arms:
            a.add('offsetof(%s, %s) == %d' % (n, k, spec.align(d)), ('arm', n, 'arm %s at %d' % (k, spec.align(d))))
            a.add('static_cast<unsigned>(%s::discriminator_%s) == %uu' % (n, k, int(v) & 0xffffffff),
                  ('discriminator', n, 'discriminator_%s = %s' % (k, v)))
            member(a, n, k, t, 0)
    elif isinstance(d, spec.Struct):
        if spec.stiffness(d) == 'fixed':
            a.add('sizeof(%s) == %d' % (n, spec.size(d)), ('sizeof', n, 'size %d' % spec.size(d)))
        for i, p in enumerate(spec.parts(d)):
            s = n if i == 0 else '%s::part%d' % (n, i + 1)
            pos = 0
            for m in p:
                pos = spec.up(pos, spec.field_align(m))
                if m.kind == 'count':
                    a.add('offsetof(%s, %s) == %d' % (s, m.name, pos), ('offset', s, 'counter %s at %d' % (m.name, pos)))
                    member(a, s, m.name, spec.U32, 0)
                    pos += 4
                    continue
                if m.kind == 'opt':
                    gap = max(4, spec.align(m.type))
                    a.add('offsetof(%s, has_%s) == %d' % (s, m.name, pos), ('flag', s, 'has_%s at %d' % (m.name, pos)))
                    a.add('offsetof(%s, %s) == %d' % (s, m.name, pos + gap), ('flag', s, 'optional %s at %d' % (m.name, pos + gap)))
                    member(a, s, 'has_' + m.name, spec.U32, 0)
                else:
                    a.add('offsetof(%s, %s) == %d' % (s, m.name, pos), ('offset', s, '%s at %d' % (m.name, pos)))
                member(a, s, m.name, m.type, m.size if m.kind in ('fixed', 'lim') else 1 if m.kind in ('dyn', 'ext', 'greedy') else 0)
                pos += spec.member_size(m)


def member(a, s, name, t, count):
    d = 'bare<decltype(%s::%s)>' % (s, name)
    if count > 1:
        a.add('%s::count == %d' % (d, count), ('field', s, '%d elements of %s' % (count, name)))
    elif count:
        a.add('%s::count >= 1' % d, ('field', s, '%s is an array' % name))
    else:
        a.add('%s::count == 0' % d, ('field', s, '%s is no array' % name))
    r = spec.real(t)
    if isinstance(r, spec.Prim):
        a.add('kind<%s::type>::value == %d' % (d, 11 if spec.is_byte(r) else kind_of(r)), ('field', s, '%s is %s' % (name, r)))


def batch(res, types):
    for ts, files in rawfam.generate(res, types):
        check_files(res, ts, files)


def check_files(res, ts, files):
    a = cxx.Asserts()
    defs = []
    for t in ts:
        spec.deps(t, defs)
    for d in defs:
        state(a, d)
    files = dict(files, **{'w.cpp': HEAD + a.text()})
    errors = cxx.syntax(files, 'w.cpp', ('-fmax-errors=0',))
    bad, other = a.split(errors)
    if other:
        if len(ts) > 1:
            for t in ts:
                for ts1, f1 in rawfam.generate(res, [t]):
                    check_files(res, ts1, f1)
            return
        if [o for o in other if o.startswith('w.cpp')]:
            res.bad('offset', (GEN, 'translate_struct', '?'), 'a member of the documented structs is missing: ' + other[0], describe(ts[0]))
        else:
            res.skip('the header does not compile: ' + other[0], describe(ts[0]))
        return
    by = {d.name: d for d in defs}
    for rule in [k[0] for _, k in a.items if k not in bad]:
        res.ok(rule)
    for rule, s, what in bad:
        d = by[s.split('::')[0]]
        res.bad(rule, (GEN, 'translate_union' if isinstance(d, spec.Union) else WHERE[rule], '?'),
                'expected in %s: %s' % (s, what), describe(d))


def describe(t):
    return '%s%s' % (t, ''.join(' | ' + str(d) for d in spec.deps(t) if d is not t))


def run(ctx):
    ctx.rules = RULES
    ctx.explanation = (
        'prophyc is interpreted abstractly to obtain the raw header; static_assert witnesses on offsetof, sizeof and types '
        'state the documented layout and are decided by the g++ front end (-fsyntax-only), nothing is run.')
    ctx.assumptions = ['GCC x86-64 ABI']
    a, b = rawfam.types(ctx, 4000, 800)
    run_tasks(ctx, batch, pycodec.batches(a + b, 40), 'batches of schemas')
    for r, n in (('offset', 8000), ('flag', 500), ('sizeof', 2000), ('arm', 500), ('field', 8000), ('discriminator', 500)):
        ctx.floor(r, n)
