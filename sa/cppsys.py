"""The analysed C++ system: code generated by prophyc together with the headers, lowered to IR by clang and
interpreted abstractly.  Nothing is linked or run."""

import os
import shutil
import subprocess
import tempfile

from . import cxx, ir, irai, pysys, spec
from .dom import AB, Cell, Flt, Lin, Unsupported
from .harness import Traces, traces
from .irai import CxxExc, Fault, Machine, Ptr, UNDEF, V, from_cells
from .pyai import S

CLANG = ['clang++', '-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-inline', '-w', '-S', '-emit-llvm']


# makes the library's class templates come with their bodies
BODIES = '#include <bits/c++config.h>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE 0\n'


class BuildError(Exception):
    pass


def lower(files, unit, flags=(), timeout=300, bodies=False):
    """IR module of one translation unit."""
    d = tempfile.mkdtemp(prefix='sa_ir_')
    try:
        for n, t in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(BODIES + '#line 1\n' + t if bodies and n == unit else t)
        out = os.path.join(d, 'unit.ll')
        env = dict(os.environ, LC_ALL='C')
        r = subprocess.run(CLANG + list(flags) + ['-I' + d, '-I' + cxx.include_dir(), os.path.join(d, unit), '-o', out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout, env=env)
        if r.returncode:
            errs = [l for l in r.stdout.splitlines() if ': error: ' in l or ': fatal error: ' in l]
            raise BuildError((errs or [r.stdout])[0].replace(d + '/', '')[:400])
        opt = os.path.join(d, 'opt.ll')
        r = subprocess.run(['opt', '-S', '-passes=sroa', out, '-o', opt], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, timeout=timeout, env=env)
        if r.returncode:
            raise BuildError('opt: ' + r.stdout[:300])
        with open(opt) as f:
            text = f.read()
        if not bodies and irai.missing(text):
            return lower(files, unit, flags, timeout, True)
        return ir.Module(text)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------ drivers for the full codec

PRE = '''
#include <vector>
#include <prophy/optional.hpp>
#include <prophy/array.hpp>
#include "s.ppf.cpp"
extern "C" {
uint8_t in_u8(); uint16_t in_u16(); uint32_t in_u32(); uint64_t in_u64(); float in_f32(); double in_f64(); size_t in_len();
}
namespace prophy { namespace generated {
inline void fill(uint8_t& x) { x = in_u8(); }
inline void fill(uint16_t& x) { x = in_u16(); }
inline void fill(uint32_t& x) { x = in_u32(); }
inline void fill(uint64_t& x) { x = in_u64(); }
inline void fill(int8_t& x) { x = int8_t(in_u8()); }
inline void fill(int16_t& x) { x = int16_t(in_u16()); }
inline void fill(int32_t& x) { x = int32_t(in_u32()); }
inline void fill(int64_t& x) { x = int64_t(in_u64()); }
inline void fill(float& x) { x = in_f32(); }
inline void fill(double& x) { x = in_f64(); }
'''
MID = '''
template <typename T> void fill(std::vector<T>& v) { size_t n = in_len(); v.resize(n); for (size_t i = 0; i < n; ++i) fill(v[i]); }
template <typename T, size_t N> void fill(prophy::array<T, N>& v) { for (size_t i = 0; i < N; ++i) fill(v[i]); }
template <typename T> void fill(prophy::optional<T>& v) { if (in_len()) { v = T(); fill(*v); } else { v = prophy::optional<T>(); } }
'''
END = {'l': 'prophy::little', 'b': 'prophy::big'}
ENDS = {'l': '<', 'b': '>', 'n': '<'}          # native: the analysed target is little-endian


def driver(types, what=('encode', 'decode', 'print')):
    defs = []
    for t in types:
        spec.deps(t, defs)
    o = [PRE]
    comp = [d for d in defs if isinstance(d, (spec.Struct, spec.Union))]
    for d in defs:
        if isinstance(d, spec.Enum):
            o.append('inline void fill(%s& x) { x = static_cast<%s>(in_u32()); }\n' % (d.name, d.name))
    for d in comp:
        o.append('void fill(%s& x);\n' % d.name)
    o.append(MID)
    for d in comp:
        if isinstance(d, spec.Struct):
            sizers = spec.count_names(d)
            o.append('void fill(%s& x) { %s }\n' % (d.name, ' '.join('fill(x.%s);' % m.name for m in d.members if m.name not in sizers)))
        else:
            o.append('void fill(%s& x) { x.discriminator = static_cast<%s::_discriminator>(in_u32()); switch (x.discriminator) { %s } }\n' % (
                d.name, d.name, ' '.join('case %s::discriminator_%s: fill(x.%s); break;' % (d.name, a[1], a[1]) for a in d.arms)))
    o.append('} }\nextern "C" {\n')
    for t in types:
        n = t.name
        o.append('void* new_{0}() {{ return new {0}; }}\nvoid del_{0}({0}* x) {{ delete x; }}\nvoid fill_{0}({0}* x) {{ prophy::generated::fill(*x); }}\n'
                 'size_t size_{0}(const {0}* x) {{ return x->get_byte_size(); }}\nint const_{0}() {{ return {0}::encoded_byte_size; }}\n'.format(n))
        for e in 'lbn':
            tm = '<%s>' % END[e] if e in END else ''
            if 'encode' in what:
                o.append('size_t enc_{0}_{1}(const {0}* x, void* p) {{ return x->encode{2}(p); }}\n'.format(n, e, tm))
                o.append('void* vec_{0}_{1}(const {0}* x) {{ return new std::vector<uint8_t>(x->encode{2}()); }}\n'.format(n, e, tm))
            if 'decode' in what:
                o.append('bool dec_{0}_{1}({0}* x, const void* p, size_t n) {{ return x->decode{2}(p, n); }}\n'.format(n, e, tm))
        if 'print' in what:
            o.append('void* text_{0}(const {0}* x) {{ return new std::string(x->print()); }}\n'.format(n))
    o.append('const uint8_t* vec_data(const std::vector<uint8_t>* v) { return v->data(); }\n'
             'size_t vec_size(const std::vector<uint8_t>* v) { return v->size(); }\n}\n')
    return ''.join(o)


class Unit(object):
    """Types of one translation unit."""

    def __init__(self, types, mod, python=None):
        self.types, self.mod, self.python = types, mod, python


def prepare(types, outs):
    """Abstract run of prophyc on the types: (Compiled, generated files)."""
    pysys.reset()
    defs = []
    for i, t in enumerate(types):
        if not isinstance(t, spec.Union):
            t.name = 'X%d' % i
        spec.deps(t, defs)
    c = pysys.compile_defs(defs, outs=outs)
    if c.exc is not None:
        return c, None
    return c, cxx.outputs(c.written)


def full(res, types, what=('encode', 'decode', 'print'), python=False):
    """Units for the types; a type prophyc rejects or the compiler cannot take is left out."""
    try:
        c, files = prepare(types, ('python', 'cpp_full') if python else ('cpp_full',))
        if c.exc is not None:
            raise BuildError('not accepted: ' + pysys.exc_text(c.exc))
        if files is None:
            raise BuildError('generated text is not constant')
        if 's.ppf.cpp' not in files:
            raise pysys.AnalysisBroken('prophyc.main wrote no s.ppf.cpp: %s' % sorted(files))
        files['d.cpp'] = driver(types, what)
        mod = lower(files, 'd.cpp')
    except BuildError as e:
        if len(types) == 1:
            res.skip(str(e), types[0])
            return []
        h = len(types) // 2
        return full(res, types[:h], what, python) + full(res, types[h:], what, python)
    u = Unit(types, mod)
    u.files = files
    if python:
        u.python = pysys.load_generated(c.world, files['s.py'])
    return [u]


# ------------------------------------------------------------------------------ values

def leaves(t, v, out=None):
    """What the driver's fill() asks for, in its order."""
    out = [] if out is None else out
    t = spec.real(t)
    if isinstance(t, (spec.Prim, spec.Enum)):
        out.append(from_cells([x for x in spec.scalar_cells(t, v)], 8 * t.size))
    elif isinstance(t, spec.Union):
        d, x = v
        out.append(d)
        leaves([a for a in t.arms if a[0] == d][0][2], x, out)
    else:
        sizers = spec.count_names(t)
        for m in t.members:
            if m.name in sizers:
                continue
            x = v[m.name]
            if m.kind == 'plain':
                leaves(m.type, x, out)
            elif m.kind == 'opt':
                out.append(int(x is not None))
                if x is not None:
                    leaves(m.type, x, out)
            else:
                if m.kind != 'fixed':
                    out.append(len(x))
                for e in x:
                    if spec.is_byte(m.type):
                        out.append(from_cells([e], 8))
                    else:
                        leaves(m.type, e, out)
    return out


class Run(object):
    """One trace over a unit."""

    def __init__(self, unit, max_steps=400000):
        self.unit, self.feed = unit, []
        ext = {'@in_' + k: self.next for k in ('u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'len')}
        self.m = Machine(unit.mod, ext, max_steps)

    def next(self):
        if not self.feed:
            raise Unsupported('driver asks for more than the value has')
        return self.feed.pop(0)

    def call(self, fn, *args):
        return self.m.call(fn, *args)

    def value(self, t, v):
        self.feed = leaves(t, v)
        p = self.call('new_' + t.name)
        self.call('fill_' + t.name, p)
        if self.feed:
            raise Unsupported('driver takes less than the value has')
        return p

    def fresh(self, t):
        return self.call('new_' + t.name)

    def size(self, t, p):
        return number(self.call('size_' + t.name, p))

    def encode(self, t, p, e, room):
        """(bytes written, object of the buffer)"""
        b = irai.new_object('the buffer of %d bytes' % room, room)
        return number(self.call('enc_%s_%s' % (t.name, e), p, b)), b.o

    def vector(self, t, p, e):
        v = self.call('vec_%s_%s' % (t.name, e), p)
        n = number(self.call('vec_size', v))
        d = self.call('vec_data', v)
        return list(d.o.data[d.off:d.off + n]) if n else []

    def decode(self, t, p, cells, e, name='the input'):
        b = irai.new_object('%s of %d bytes' % (name, len(cells)), len(cells))
        b.o.data[:] = list(cells)
        b.o.const = True
        return number(self.call('dec_%s_%s' % (t.name, e), p, b, len(cells)))


def number(x):
    if x is UNDEF:
        raise Fault('uninitialised', 'a result was never set')
    return irai.number(x)


def run_traces(run, res, instance, max_paths=400):
    """(path, value, Fault or CxxExc or None)"""
    def one():
        try:
            return run(), None
        except (Fault, CxxExc) as e:
            return None, e
    return Traces((p, v[0], v[1]) for p, v, e in traces(one, res, instance, max_paths, partial=True) if e is None)


def fault_text(e):
    return e.what if isinstance(e, Fault) else 'a C++ exception is thrown (%s)' % e.kind


def cells_differ(got, want):
    for i, (g, w) in enumerate(zip(got, want)):
        if not same(g, w):
            return i
    return None if len(got) == len(want) else min(len(got), len(want))


def same(g, w):
    if g is UNDEF or w is UNDEF:
        return False
    return pysys.same_cell(g, w) or pysys.same_cell(w, g)
