"""Models of the standard streams and strings used by analysed C++ (libstdc++, x86-64).

Text lives in memory as bytes; a rendering of unknown length (say, of an unknown number) takes one byte
of kind 'text' whose term is the Hole.
"""

import re

from . import irai
from .dom import Cell, Hole, Lin, Unsupported, mktext
from .irai import Fault, Fn, Obj, Ptr, UNDEF, V, cells_of, check, from_cells, load_bytes, number, signed, store_bytes

DEC, HEX, OCT, LEFT, INTERNAL, SHOWBASE, SHOWPOS, UPPER, BOOLALPHA = 0x2, 0x8, 0x40, 0x20, 0x10, 0x200, 0x800, 0x4000, 0x1
WIDTH, FLAGS = 16, 24
STR = '@_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
CSTR = '@_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def hole(fmt, term):
    return Cell('text', Hole(fmt, term), 0)


def text_of(cells):
    """Bytes of text as str or AS."""
    out = []
    for c in cells:
        if isinstance(c, int):
            out.append(chr(c))
        elif isinstance(c, Cell) and c.kind == 'text':
            out.append(c.term)
        elif c is UNDEF:
            raise Fault('uninitialised', 'text which was never set is used')
        else:
            out.append(Hole('c', c))
    return mktext([mktext([p]) if isinstance(p, str) else p for p in out])


def chars(s):
    return [ord(c) for c in s]


# ------------------------------------------------------------------------------ memory

def at(p, k):
    return Ptr(p.o, p.off + k)


def get(p, n=8):
    bs = load_bytes(p, n)
    return bs[0].p if isinstance(bs[0], irai.PB) else from_cells(bs, 8 * n)


def put(p, v, n=8):
    store_bytes(p, cells_of(v, n))


def c_cells(p):
    """Characters of a C string, which may hold holes."""
    o, off = check(p, 1, 'read')
    out = []
    while True:
        if off >= o.size:
            raise Fault('bounds', 'read behind the end of the text %s' % o)
        b = o.data[off]
        if isinstance(b, int) and b == 0:
            return out
        if b is UNDEF:
            raise Fault('uninitialised', 'text which was never set is used')
        out.append(b)
        off += 1


def span(p, n):
    n = number(n, 4096)
    return list(load_bytes(p, n)) if n else []


# ------------------------------------------------------------------------------ streams

class Stream(object):
    def __init__(self, o, start, size, ios):
        self.o, self.start, self.size, self.ios, self.text = o, start, size, ios, []


def state():
    m = irai.M
    if getattr(m, 'streams', None) is None:
        m.streams, m.fills = [], {}
    return m


def stream(p):
    if not isinstance(p, Ptr):
        raise Unsupported('stream which is not an object')
    for s in state().streams:
        if s.o is p.o and s.start <= p.off < s.start + s.size:
            return s
    raise Unsupported('stream which was not made here')


def start_ios(p):
    store_bytes(p, [0] * 216)
    put(at(p, 8), 6)
    put(at(p, FLAGS), 0x1002, 4)


def make(p, size, ios, tables):
    m = state()
    m.streams[:] = [s for s in m.streams if not (s.o is p.o and s.start == p.off)]
    m.streams.append(Stream(p.o, p.off, size, at(p, ios)))
    start_ios(at(p, ios))
    m.fills.pop((id(p.o), p.off + ios), None)
    for k in tables:
        vt = irai.new_object('a table of a stream', 64)
        store_bytes(vt, cells_of(ios - k, 8))
        put(at(p, k), at(vt, 24))


SS = '@_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE'
OS = '@_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE'


@model(SS + 'C1Ev', SS + 'C2Ev', SS + 'C1ESt13_Ios_Openmode')
def ss_new(p, *a):
    make(p, 392, 128, (0, 16))


@model(OS + 'C1Ev', OS + 'C2Ev', OS + 'C1ESt13_Ios_Openmode')
def os_new(p, *a):
    make(p, 376, 112, (0,))


@model(SS + 'C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode')
def ss_new_text(p, s, *a):
    ss_new(p)


@model(SS + 'D1Ev', OS + 'D1Ev', SS + 'D2Ev', OS + 'D2Ev', '@_ZNSt9basic_iosIcSt11char_traitsIcEED1Ev',
       '@_ZNSt9basic_iosIcSt11char_traitsIcEED2Ev')
def stream_end(p):
    return None


@model(SS.replace('@_ZN', '@_ZNK') + '3strEv', OS.replace('@_ZN', '@_ZNK') + '3strEv')
def stream_text(ret, p):
    string_set(ret, stream(p).text)


@model(SS + '3strERKNS_12basic_stringIcS2_S3_EE', OS + '3strERKNS_12basic_stringIcS2_S3_EE')
def stream_reset(p, s):
    stream(p).text[:] = string_cells(s)


@model('@_ZNSt9basic_iosIcSt11char_traitsIcEEC1EPSt15basic_streambufIcS1_E')
def ios_new(p, buf):
    start_ios(p)


@model('@_ZNSt9basic_iosIcSt11char_traitsIcEE7copyfmtERKS2_')
def copyfmt(a, b):
    m = state()
    for k, n in ((8, 8), (WIDTH, 8), (FLAGS, 4)):
        put(at(a, k), get(at(b, k), n), n)
    m.fills[(id(a.o), a.off)] = m.fills.get((id(b.o), b.off), 32)
    return a


@model('@_ZNKSt9basic_iosIcSt11char_traitsIcEE4fillEv')
def fill_get(p):
    return state().fills.get((id(p.o), p.off), 32)


@model('@_ZNSt9basic_iosIcSt11char_traitsIcEE4fillEc')
def fill_set(p, c):
    old = fill_get(p)
    irai.M.fills[(id(p.o), p.off)] = number(c, 256)
    return old


@model('@_ZNSolsEPFRSt8ios_baseS0_E')
def manipulate(p, f):
    irai.call_value(f, [stream(p).ios])
    return p


@model('@_ZNSolsEPFRSt9basic_iosIcSt11char_traitsIcEES3_E')
def manipulate2(p, f):
    return manipulate(p, f)


@model('@_ZNSolsEPFRSoS_E')
def manipulate3(p, f):
    irai.call_value(f, [p])
    return p


@model('@_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_')
def endl(p):
    stream(p).text.append(10)
    return p


@model('@_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '@_ZNSo5flushEv')
def flush(p):
    return p


@model('@_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw')
def setw(p, n):
    put(at(stream(p).ios, WIDTH), number(n, 4096))
    return p


@model('@_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E')
def setfill(p, c):
    fill_set(stream(p).ios, c)
    return p


def format_state(s):
    return number(get(at(s.ios, FLAGS), 4), 0), signed(number(get(at(s.ios, WIDTH)), 0), 64)


def emit(p, cells, internal=0):
    s = stream(p)
    flags, width = format_state(s)
    if width > 0:
        put(at(s.ios, WIDTH), 0)
        fill = fill_get(s.ios)
        if any(isinstance(c, Cell) and c.kind == 'text' for c in cells):
            cells = [hole('width %d of %d' % (width, fill), text_of(cells))]
        elif len(cells) < width:
            pad = [fill] * (width - len(cells))
            if flags & LEFT:
                cells = cells + pad
            elif flags & INTERNAL:
                cells = cells[:internal] + pad + cells[internal:]
            else:
                cells = pad + cells
    s.text.extend(cells)
    return p


P = '@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_'


@model(P + 'PKc', P + 'PKh', P + 'PKa')
def out_text(p, t):
    return emit(p, c_cells(t))


@model(P + 'c', P + 'h', P + 'a')
def out_char(p, c):
    return emit(p, [cells_of(c, 1)[0]])


@model('@_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE')
def out_string(p, s):
    return emit(p, string_cells(s))


@model('@_ZNSo5writeEPKcl')
def out_write(p, t, n):
    stream(p).text.extend(span(t, n))
    return p


@model('@_ZNSo3putEc')
def out_put(p, c):
    stream(p).text.append(cells_of(c, 1)[0])
    return p


def integer(v, w, sign):
    """The number an argument of w bits stands for: int or Lin."""
    if v is UNDEF:
        raise Fault('uninitialised', 'a number which was never set is printed')
    if isinstance(v, int):
        v &= (1 << w) - 1
        return signed(v, w) if sign else v
    if isinstance(v, (Ptr, Fn)):
        raise Unsupported('an address is printed')
    l = irai.sgn(v, w) if sign else irai.lin(v)
    return irai.S.path.conc(l)


def digits(n, base, upper=False):
    if base == 10:
        return str(n)
    t = '%x' % n if base == 16 else '%o' % n
    return t.upper() if upper else t


def out_int(w, sign):
    def f(p, v):
        s = stream(p)
        flags, _ = format_state(s)
        base = 16 if flags & HEX and not flags & (OCT | DEC) else 8 if flags & OCT and not flags & (HEX | DEC) else 10
        n = integer(v, w, sign and base == 10)
        if isinstance(n, int):
            t = digits(n, base, flags & UPPER)
            if base == 10 and sign and n >= 0 and flags & SHOWPOS:
                t = '+' + t
            if base != 10 and flags & SHOWBASE and n:
                t = ('0X' if flags & UPPER else '0x') + t if base == 16 else '0' + t
            return emit(p, chars(t), 1 if t[:1] in '+-' else 2 if t[:2] in ('0x', '0X') else 0)
        if base == 10 and not flags & SHOWPOS:
            return emit(p, [hole('d', n)])
        return emit(p, [hole('base %d flags %x' % (base, flags & ~0x1000), n)])
    return f


for _c, _w, _s in (('i', 32, True), ('j', 32, False), ('s', 16, True), ('t', 16, False), ('l', 64, True), ('m', 64, False),
                   ('x', 64, True), ('y', 64, False)):
    TABLE['@_ZNSolsE' + _c] = out_int(_w, _s)


@model('@_ZNSolsEb')
def out_bool(p, v):
    flags, _ = format_state(stream(p))
    n = number(v)
    if flags & BOOLALPHA:
        return emit(p, chars('true' if n else 'false'))
    return out_int(32, False)(p, n)


@model('@_ZNSolsEf', '@_ZNSolsEd')
def out_float(p, v):
    return emit(p, [hole('float', repr(v))])


# ------------------------------------------------------------------------------ strings

def string_new(p):
    put(p, at(p, 16))
    put(at(p, 8), 0)
    store_bytes(at(p, 16), [0])


def string_cells(p):
    n = number(get(at(p, 8)), 4096)
    return span(get(p), n)


def string_set(p, cells, fresh=True):
    cells = list(cells)
    if not fresh:
        string_drop(p)
    if len(cells) < 16:
        put(p, at(p, 16))
        store_bytes(at(p, 16), cells + [0])
    else:
        b = irai.allocate(len(cells) + 1)
        store_bytes(b, cells + [0])
        put(p, b)
        put(at(p, 16), len(cells))
    put(at(p, 8), len(cells))


def string_drop(p):
    d = get(p)
    if isinstance(d, Ptr) and d.o is not p.o:
        irai.release(d)


@model(STR + 'C1Ev', STR + 'C2Ev', STR + 'C1ERKS3_')
def s_new(p, *a):
    string_new(p)


@model(STR + 'C1ERKS4_', STR + 'C2ERKS4_')
def s_copy(p, s):
    string_set(p, string_cells(s))


@model(STR + 'C1EOS4_', STR + 'C2EOS4_')
def s_move(p, s):
    string_set(p, string_cells(s))
    string_set(s, [], False)


@model(STR + 'C1EPKcRKS3_', STR + 'C2EPKcRKS3_', STR + 'C1IS3_EEPKcRKS3_', STR + 'C2IS3_EEPKcRKS3_')
def s_from_c(p, t, *a):
    string_set(p, c_cells(t))


@model(STR + 'C1EPKcmRKS3_')
def s_from_span(p, t, n, *a):
    string_set(p, span(t, n))


@model(STR + 'C1EmcRKS3_', STR + 'C1IS3_EEmcRKS3_', STR + 'C2IS3_EEmcRKS3_')
def s_from_fill(p, n, c, *a):
    string_set(p, [cells_of(c, 1)[0]] * number(n, 4096))


def part(cells, pos, n):
    pos = number(pos, 4096)
    if pos > len(cells):
        raise irai.CxxExc('out_of_range')
    n = number(n, 4096) if not isinstance(n, int) else n
    return pos, min(n, len(cells) - pos)


@model(STR + 'C1ERKS4_mm')
def s_from_part(p, s, pos, n):
    c = string_cells(s)
    pos, n = part(c, pos, n)
    string_set(p, c[pos:pos + n])


@model(CSTR + '6substrEmm')
def s_substr(ret, p, pos, n):
    s_from_part(ret, p, pos, n)


@model(STR + 'D1Ev', STR + 'D2Ev', STR + '10_M_disposeEv')
def s_end(p):
    string_drop(p)


@model(CSTR + '4sizeEv', CSTR + '6lengthEv')
def s_size(p):
    return get(at(p, 8))


@model(CSTR + '8capacityEv')
def s_capacity(p):
    return number(get(at(p, 8)), 4096) + 16


@model(CSTR + '5emptyEv')
def s_empty(p):
    return int(number(get(at(p, 8)), 4096) == 0)


@model(CSTR + '5c_strEv', CSTR + '4dataEv', STR + '4dataEv', CSTR + '5beginEv', STR + '5beginEv', CSTR + '7_M_dataEv', CSTR + '6cbeginEv')
def s_data(p):
    return get(p)


@model(CSTR + '3endEv', STR + '3endEv', CSTR + '4cendEv')
def s_data_end(p):
    return at(get(p), number(get(at(p, 8)), 4096))


@model(STR + 'ixEm', CSTR + 'ixEm', STR + '2atEm', CSTR + '2atEm')
def s_index(p, i):
    i = number(i, 4096)
    if i > number(get(at(p, 8)), 4096):
        raise Fault('bounds', 'index behind the end of a string')
    return at(get(p), i)


@model(STR + '4backEv', CSTR + '4backEv')
def s_back(p):
    return at(get(p), number(get(at(p, 8)), 4096) - 1)


@model(STR + '5frontEv', CSTR + '5frontEv')
def s_front(p):
    return get(p)


@model(STR + '5clearEv')
def s_clear(p):
    string_set(p, [], False)


@model(STR + 'pLEc', STR + '9push_backEc')
def s_push(p, c):
    string_set(p, string_cells(p) + [cells_of(c, 1)[0]], False)
    return p


@model(STR + '8pop_backEv')
def s_pop(p):
    string_set(p, string_cells(p)[:-1], False)


@model(STR + 'pLEPKc', STR + '6appendEPKc')
def s_add_c(p, t):
    string_set(p, string_cells(p) + c_cells(t), False)
    return p


@model(STR + 'pLERKS4_', STR + '6appendERKS4_')
def s_add(p, s):
    string_set(p, string_cells(p) + string_cells(s), False)
    return p


@model(STR + '6appendEPKcm')
def s_add_span(p, t, n):
    string_set(p, string_cells(p) + span(t, n), False)
    return p


@model(STR + '6appendEmc')
def s_add_fill(p, n, c):
    string_set(p, string_cells(p) + [cells_of(c, 1)[0]] * number(n, 4096), False)
    return p


@model(STR + 'aSERKS4_', STR + '6assignERKS4_')
def s_assign(p, s):
    string_set(p, string_cells(s), False)
    return p


@model(STR + 'aSEOS4_')
def s_assign_move(p, s):
    c = string_cells(s)
    string_set(p, c, False)
    if not (p.o is s.o and p.off == s.off):
        string_set(s, [], False)
    return p


@model(STR + 'aSEPKc', STR + '6assignEPKc')
def s_assign_c(p, t):
    string_set(p, c_cells(t), False)
    return p


@model(STR + 'aSEc')
def s_assign_char(p, c):
    string_set(p, [cells_of(c, 1)[0]], False)
    return p


@model(STR + '6insertEmmc')
def s_insert_fill(p, pos, n, c):
    t = string_cells(p)
    pos, _ = part(t, pos, 0)
    string_set(p, t[:pos] + [cells_of(c, 1)[0]] * number(n, 4096) + t[pos:], False)
    return p


@model(STR + '6insertEmPKc')
def s_insert_c(p, pos, s):
    t = string_cells(p)
    pos, _ = part(t, pos, 0)
    string_set(p, t[:pos] + c_cells(s) + t[pos:], False)
    return p


@model(STR + '6insertEmRKS4_')
def s_insert(p, pos, s):
    t = string_cells(p)
    pos, _ = part(t, pos, 0)
    string_set(p, t[:pos] + string_cells(s) + t[pos:], False)
    return p


@model(STR + '5eraseEmm')
def s_erase(p, pos, n):
    t = string_cells(p)
    pos, n = part(t, pos, n)
    string_set(p, t[:pos] + t[pos + n:], False)
    return p


@model(STR + '6resizeEm', STR + '6resizeEmc')
def s_resize(p, n, c=0):
    t, n = string_cells(p), number(n, 4096)
    string_set(p, (t + [cells_of(c, 1)[0]] * max(0, n - len(t)))[:n], False)


@model(STR + '7reserveEm', STR + '7reserveEv')
def s_reserve(p, n=0):
    return None


def same_cells(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y and not (isinstance(x, int) and isinstance(y, int)):
            raise Unsupported('comparison of unknown text')
        if x != y:
            return False
    return True


@model(CSTR + '7compareERKS4_')
def s_compare(p, s):
    a, b = string_cells(p), string_cells(s)
    if same_cells(a, b):
        return 0
    return 1 if a > b else 0xffffffff


@model(CSTR + '7compareEPKc')
def s_compare_c(p, t):
    a, b = string_cells(p), c_cells(t)
    if same_cells(a, b):
        return 0
    return 1 if a > b else 0xffffffff


@model(CSTR + '13get_allocatorEv', STR + '13get_allocatorEv')
def s_allocator(*a):
    return None


@model(STR + '13_M_local_dataEv', CSTR + '13_M_local_dataEv')
def s_local(p):
    return at(p, 16)


@model(STR + '12_Alloc_hiderC1EPcRKS3_', STR + '12_Alloc_hiderC2EPcRKS3_')
def s_hider(p, d, *a):
    put(p, d)


@model(STR + '7_M_dataEPc')
def s_set_data(p, d):
    put(p, d)


@model(STR + '9_M_createERmm')
def s_create(p, n, old):
    return irai.allocate(number(get(n), 4096) + 1)


@model(STR + '11_M_capacityEm')
def s_set_capacity(p, n):
    put(at(p, 16), n)


@model(STR + '13_M_set_lengthEm')
def s_set_length(p, n):
    put(at(p, 8), n)
    store_bytes(at(get(p), number(n, 4096)), [0])


def insert_at(p, pos, new):
    t = string_cells(p)
    pos, _ = part(t, pos, 0)
    string_set(p, t[:pos] + list(new) + t[pos:], False)
    return p


def replace_at(p, pos, n, new):
    t = string_cells(p)
    pos, n = part(t, pos, n)
    string_set(p, t[:pos] + list(new) + t[pos + n:], False)
    return p


def one(c):
    return [cells_of(c, 1)[0]]


def times(n, c):
    return one(c) * number(n, 4096)


for _n, _f in {
        STR + '6insertEmPKcm': lambda p, pos, t, n: insert_at(p, pos, span(t, n)),
        STR + '7replaceEmmPKc': lambda p, pos, n, t: replace_at(p, pos, n, c_cells(t)),
        STR + '7replaceEmmPKcm': lambda p, pos, n, t, k: replace_at(p, pos, n, span(t, k)),
        STR + '7replaceEmmRKS4_': lambda p, pos, n, s: replace_at(p, pos, n, string_cells(s)),
        STR + '7replaceEmmmc': lambda p, pos, n, k, c: replace_at(p, pos, n, times(k, c)),
        STR + '14_M_replace_auxEmmmc': lambda p, pos, n, k, c: replace_at(p, pos, n, times(k, c)),
        STR + '10_M_replaceEmmPKcm': lambda p, pos, n, t, k: replace_at(p, pos, n, span(t, k)),
        STR + '9_M_appendEPKcm': lambda p, t, n: s_add_span(p, t, n),
        STR + '9_M_assignERKS4_': lambda p, s: s_assign(p, s),
        STR + '8_M_eraseEmm': lambda p, pos, n: s_erase(p, pos, n),
        STR + '6assignEPKcm': lambda p, t, n: (string_set(p, span(t, n), False), p)[1],
        STR + '6assignEmc': lambda p, n, c: (string_set(p, times(n, c), False), p)[1],
        STR + '6assignEOS4_': lambda p, s: s_assign_move(p, s),
        STR + '6appendERKS4_mm': lambda p, s, pos, n: (string_set(p, string_cells(p) + cut(s, pos, n), False), p)[1],
        STR + '6assignERKS4_mm': lambda p, s, pos, n: (string_set(p, cut(s, pos, n), False), p)[1],
}.items():
    TABLE[_n] = _f


def cut(s, pos, n):
    c = string_cells(s)
    pos, n = part(c, pos, n)
    return c[pos:pos + n]


@model(STR + '4swapERS4_')
def s_swap(p, s):
    a, b = string_cells(p), string_cells(s)
    string_set(p, b, False)
    string_set(s, a, False)


NPOS = (1 << 64) - 1


def plain(cells):
    if not all(isinstance(c, int) for c in cells):
        raise Unsupported('search in unknown text')
    return bytes(bytearray(cells))


def finder(how):
    def f(p, what, pos):
        t, w = plain(string_cells(p)), plain(what)
        pos = number(pos, 4096) if not isinstance(pos, int) else pos
        if how == 'find':
            r = t.find(w, pos) if pos <= len(t) else -1
        elif how == 'rfind':
            r = t.rfind(w, 0, min(pos, len(t)) + len(w))
        else:
            ks = [k for k in range(len(t)) if (t[k] in w) == ('not' not in how)]
            ks = [k for k in ks if k >= pos] if 'first' in how else [k for k in ks if k <= pos]
            r = (ks[0] if 'first' in how else ks[-1]) if ks else -1
        return r & NPOS
    return f


for _n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
    _f = finder(_n)
    _m = '%s%d%s' % (CSTR, len(_n), _n)
    TABLE[_m + 'Ecm'] = lambda p, c, pos, f=_f: f(p, one(c), pos)
    TABLE[_m + 'EPKcm'] = lambda p, t, pos, f=_f: f(p, c_cells(t), pos)
    TABLE[_m + 'EPKcmm'] = lambda p, t, pos, n, f=_f: f(p, span(t, n), pos)
    TABLE[_m + 'ERKS4_m'] = lambda p, s, pos, f=_f: f(p, string_cells(s), pos)


def ordered(a, b):
    if same_cells(a, b):
        return 0
    return 1 if a > b else 0xffffffff


TABLE[CSTR + '7compareEmmRKS4_'] = lambda p, pos, n, s: ordered(cut(p, pos, n), string_cells(s))
TABLE[CSTR + '7compareEmmPKc'] = lambda p, pos, n, t: ordered(cut(p, pos, n), c_cells(t))
TABLE[CSTR + '7compareEmmRKS4_mm'] = lambda p, pos, n, s, q, m: ordered(cut(p, pos, n), cut(s, q, m))
TABLE[CSTR + '7compareEmmPKcm'] = lambda p, pos, n, t, m: ordered(cut(p, pos, n), span(t, m))


@model(CSTR + '4copyEPcmm')
def s_copy_out(p, d, n, pos):
    c = cut(p, pos, n)
    store_bytes(d, c)
    return len(c)


# ------------------------------------------------------------------------------ C strings and characters

@model('@strlen')
def strlen(t):
    c = c_cells(t)
    if any(isinstance(x, Cell) and x.kind == 'text' for x in c):
        raise Unsupported('length of unknown text')
    return len(c)


@model('@strcmp')
def strcmp(a, b):
    return ordered(c_cells(a), c_cells(b))


@model('@strncmp')
def strncmp(a, b, n):
    n = number(n, 4096)
    return ordered(c_cells(a)[:n], c_cells(b)[:n])


@model('@strchr', '@index')
def strchr(t, c):
    b = plain(c_cells(t)) + b'\0'
    k = b.find(bytes(bytearray(one(c))))
    return at(t, k) if k >= 0 else 0


@model('@strrchr')
def strrchr(t, c):
    b = plain(c_cells(t)) + b'\0'
    k = b.rfind(bytes(bytearray(one(c))))
    return at(t, k) if k >= 0 else 0


@model('@strstr')
def strstr(t, w):
    k = plain(c_cells(t)).find(plain(c_cells(w)))
    return at(t, k) if k >= 0 else 0


@model('@strcpy')
def strcpy(d, t):
    store_bytes(d, c_cells(t) + [0])
    return d


@model('@strncpy')
def strncpy(d, t, n):
    n = number(n, 4096)
    c = c_cells(t)[:n]
    if n:
        store_bytes(d, c + [0] * (n - len(c)))
    return d


@model('@strcat')
def strcat(d, t):
    store_bytes(at(d, len(c_cells(d))), c_cells(t) + [0])
    return d


@model('@memchr')
def memchr(p, c, n):
    k = plain(span(p, n)).find(bytes(bytearray(one(c))))
    return at(p, k) if k >= 0 else 0


def ctype(f):
    def g(c):
        return int(f(signed(number(c, 300), 32)))
    return g


for _n, _f in (('isprint', lambda c: 32 <= c < 127), ('isdigit', lambda c: 48 <= c < 58), ('isalpha', lambda c: chr(c & 255).isalpha() and c < 128),
               ('isalnum', lambda c: chr(c & 255).isalnum() and c < 128), ('isspace', lambda c: c == 32 or 9 <= c <= 13),
               ('isgraph', lambda c: 32 < c < 127), ('iscntrl', lambda c: 0 <= c < 32 or c == 127), ('isascii', lambda c: 0 <= c < 128),
               ('isxdigit', lambda c: c < 128 and chr(c & 255) in '0123456789abcdefABCDEF'), ('isupper', lambda c: 65 <= c <= 90),
               ('islower', lambda c: 97 <= c <= 122), ('ispunct', lambda c: 32 < c < 127 and not chr(c).isalnum()),
               ('toupper', lambda c: c - 32 if 97 <= c <= 122 else c), ('tolower', lambda c: c + 32 if 65 <= c <= 90 else c)):
    TABLE['@' + _n] = ctype(_f)


def number_in(t, base=10):
    s = plain(c_cells(t)).decode('latin-1')
    m = re.match(r'\s*([-+]?(?:0[xX][0-9a-fA-F]+|\d+))', s)
    if not m:
        return 0, 0
    base = number(base, 0)
    return int(m.group(1), base if base else 0), m.end()


def strto(w):
    def f(t, end=0, base=10):
        n, k = number_in(t, base)
        if end != 0:
            put(end, at(t, k))
        return n & ((1 << w) - 1)
    return f


for _n in ('strtol', 'strtoul', 'strtoll', 'strtoull', '__isoc23_strtol', '__isoc23_strtoul', '__isoc23_strtoll', '__isoc23_strtoull', 'atol', 'atoll'):
    TABLE['@' + _n] = strto(64)
TABLE['@atoi'] = strto(32)
TABLE['@abs'] = lambda x: irai.LIB['@llvm.abs.i32'](x)
TABLE['@labs'] = TABLE['@llabs'] = lambda x: irai.LIB['@llvm.abs.i64'](x)


@model('@__errno_location')
def errno():
    m = state()
    if getattr(m, 'errno', None) is None:
        m.errno = irai.new_object('errno', 4)
        put(m.errno, 0, 4)
    return m.errno


# ------------------------------------------------------------------------------ exceptions

def exception_new(p, text):
    vt = irai.new_object('a table of an exception', 40)
    store_bytes(vt, [0] * 16)
    for k, n in enumerate(('drop', 'drop', 'what')):
        put(at(vt, 16 + 8 * k), Fn('@sa.exception.' + n))
    put(p, at(vt, 16))
    b = irai.new_object('the text of an exception', len(text) + 1)
    store_bytes(b, list(text) + [0])
    if p.o.size >= p.off + 16:
        put(at(p, 8), b)


def exception_object(kind):
    p = irai.new_object('an exception', 16)
    exception_new(p, chars(kind))
    return p


for _n in ('runtime_error', 'logic_error', 'domain_error', 'invalid_argument', 'length_error', 'out_of_range', 'range_error',
           'overflow_error', 'underflow_error'):
    _m = '@_ZNSt%d%s' % (len(_n), _n)
    for _c in ('C1', 'C2'):
        TABLE[_m + _c + 'EPKc'] = lambda p, t: exception_new(p, c_cells(t))
        TABLE[_m + _c + 'ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'] = lambda p, s: exception_new(p, string_cells(s))
        TABLE[_m + _c + 'ERKS_'] = TABLE[_m + _c + 'EOS_'] = lambda p, q: store_bytes(p, load_bytes(q, 16))
    for _c in ('D0', 'D1', 'D2'):
        TABLE[_m + _c + 'Ev'] = lambda p: None
    TABLE['@_ZNKSt%d%s4whatEv' % (len(_n), _n)] = lambda p: get(at(p, 8))
TABLE['@_ZNKSt9exception4whatEv'] = TABLE['@sa.exception.what'] = lambda p: get(at(p, 8))
TABLE['@sa.exception.drop'] = TABLE['@_ZNSt9exceptionD2Ev'] = TABLE['@_ZNSt9exceptionD1Ev'] = lambda p: None


@model('@__dynamic_cast')
def dynamic_cast(p, src, dst, hint):
    if p == 0:
        return 0
    vt = get(p)
    info = get(at(vt, -8))
    if not isinstance(info, Ptr):
        raise Unsupported('dynamic_cast')
    if irai.catches('@' + dst.o.name, '@' + info.o.name):
        top = signed(number(get(at(vt, -16)), 0), 64)
        if '@' + dst.o.name != '@' + info.o.name and top:
            raise Unsupported('dynamic_cast')
        return at(p, top)
    return 0


# ------------------------------------------------------------------------------ trees, lists and hash tables

PARENT, LEFTN, RIGHTN = 8, 16, 24


def same(a, b):
    return a == b


@model('@_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def tree_insert(left, x, p, h):
    """Not balanced: the order of the elements does not depend on it."""
    put(x, 1, 4)
    put(at(x, PARENT), p)
    put(at(x, LEFTN), 0)
    put(at(x, RIGHTN), 0)
    if number(left):
        put(at(p, LEFTN), x)
        if same(p, h):
            put(at(h, PARENT), x)
            put(at(h, RIGHTN), x)
        elif same(p, get(at(h, LEFTN))):
            put(at(h, LEFTN), x)
    else:
        put(at(p, RIGHTN), x)
        if same(p, get(at(h, RIGHTN))):
            put(at(h, RIGHTN), x)


def tree_next(x):
    y = get(at(x, RIGHTN))
    if y != 0:
        while get(at(y, LEFTN)) != 0:
            y = get(at(y, LEFTN))
        return y
    y = get(at(x, PARENT))
    while same(x, get(at(y, RIGHTN))):
        x, y = y, get(at(y, PARENT))
    return x if same(get(at(x, RIGHTN)), y) else y


def tree_prev(x):
    if number(get(x, 4), 2) == 0 and same(get(at(get(at(x, PARENT)), PARENT)), x):
        return get(at(x, RIGHTN))
    y = get(at(x, LEFTN))
    if y != 0:
        while get(at(y, RIGHTN)) != 0:
            y = get(at(y, RIGHTN))
        return y
    y = get(at(x, PARENT))
    while same(x, get(at(y, LEFTN))):
        x, y = y, get(at(y, PARENT))
    return y


for _k in ('PSt18_Rb_tree_node_base', 'PKSt18_Rb_tree_node_base'):
    TABLE['@_ZSt18_Rb_tree_increment' + _k] = tree_next
    TABLE['@_ZSt18_Rb_tree_decrement' + _k] = tree_prev


@model('@_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def tree_erase(z, h):
    first, last = get(at(h, LEFTN)), get(at(h, RIGHTN))
    if same(first, z):
        put(at(h, LEFTN), tree_next(z) if not same(last, z) else h)
    if same(last, z):
        put(at(h, RIGHTN), tree_prev(z) if not same(first, z) else h)
    l, r, p = get(at(z, LEFTN)), get(at(z, RIGHTN)), get(at(z, PARENT))
    if l == 0:
        y = r
    elif r == 0:
        y = l
    else:
        y = r
        while get(at(y, LEFTN)) != 0:
            y = get(at(y, LEFTN))
        if not same(y, r):
            x = get(at(y, RIGHTN))
            q = get(at(y, PARENT))
            put(at(q, LEFTN), x)
            if x != 0:
                put(at(x, PARENT), q)
            put(at(y, RIGHTN), r)
            put(at(r, PARENT), y)
        put(at(y, LEFTN), l)
        put(at(l, PARENT), y)
    if y != 0:
        put(at(y, PARENT), p)
    if same(p, h):
        put(at(h, PARENT), y)
    elif same(get(at(p, LEFTN)), z):
        put(at(p, LEFTN), y)
    else:
        put(at(p, RIGHTN), y)
    return z


@model('@_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def list_hook(x, pos):
    prev = get(at(pos, 8))
    put(x, pos)
    put(at(x, 8), prev)
    put(prev, x)
    put(at(pos, 8), x)


@model('@_ZNSt8__detail15_List_node_base9_M_unhookEv')
def list_unhook(x):
    n, p = get(x), get(at(x, 8))
    put(p, n)
    put(at(n, 8), p)


@model('@_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
def list_transfer(pos, first, last):
    if same(pos, last):
        return
    a, b, c = get(at(last, 8)), get(at(first, 8)), get(at(pos, 8))
    put(a, pos)
    put(b, last)
    put(c, first)
    put(at(pos, 8), a)
    put(at(last, 8), b)
    put(at(first, 8), c)


PRIMES = (2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087)


@model('@_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def next_bucket(p, n):
    n = number(n, 4096)
    for k in PRIMES:
        if k >= n:
            put(at(p, 8), k)
            return k
    raise Unsupported('large hash table')


@model('@_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def need_rehash(p, buckets, n, more):
    b, n, more = number(buckets, 4096), number(n, 4096), number(more, 4096)
    if n + more > number(get(at(p, 8)), 4096):
        if n + more >= b:
            return (1, next_bucket(p, max(n + more + 1, 2 * b, 11)))
        put(at(p, 8), b)
    return (0, 0)


@model('@_ZSt11_Hash_bytesPKvmm')
def hash_bytes(p, n, seed):
    import zlib
    return zlib.crc32(plain(span(p, n)))


# ------------------------------------------------------------------------------ numbers as text

def to_string(w, sign):
    def f(ret, v):
        n = integer(v, w, sign)
        string_set(ret, chars(str(n)) if isinstance(n, int) else [hole('d', n)])
    return f


# functions defined in headers, of which only the outcome is of interest
OVERRIDE = {}
for _c, _w, _s in (('i', 32, True), ('j', 32, False), ('l', 64, True), ('m', 64, False), ('x', 64, True), ('y', 64, False)):
    OVERRIDE['@_ZNSt7__cxx119to_stringE' + _c] = to_string(_w, _s)


@model('@snprintf')
def snprintf(buf, size, fmt, *args):
    size = number(size, 4096)
    out = formatted(irai.c_text(fmt), list(args))
    if size:
        store_bytes(buf, out[:size - 1] + [0])
    return len(out)


@model('@sprintf')
def sprintf(buf, fmt, *args):
    out = formatted(irai.c_text(fmt), list(args))
    store_bytes(buf, out + [0])
    return len(out)


def formatted(fmt, args):
    out, i = [], 0
    for m in re.finditer(r'%([-+ 0#]*)(\d*)(hh|h|ll|l|z|j)?([diuxXocs%])|[^%]+|%', fmt):
        if m.group(4) is None:
            if m.group(0) == '%':
                raise Unsupported('format %r' % fmt)
            out += chars(m.group(0))
            continue
        flags, width, size, conv = m.groups()
        if conv == '%':
            out.append(37)
            continue
        a = args[i]
        i += 1
        if conv == 's':
            t = c_cells(a)
        elif conv == 'c':
            t = [cells_of(a, 1)[0]]
        else:
            w = {'hh': 8, 'h': 16, 'l': 64, 'll': 64, 'z': 64, 'j': 64}.get(size, 32)
            if isinstance(a, V) and a.w > w:
                a = from_cells(cells_of(a, w // 8), w)
            n = integer(a, w, conv in 'di')
            if isinstance(n, int):
                out += chars(('%' + flags + width + ('d' if conv in 'iu' else conv)) % n)
                continue
            t = [hole('d' if conv in 'diu' else conv, n)]
        if width or flags:
            if any(isinstance(c, Cell) and c.kind == 'text' for c in t):
                t = [hole('%' + flags + width + conv, text_of(t))]
            else:
                pad = [32] * (int(width or 0) - len(t))
                t = t + pad if '-' in flags else pad + t
        out += t
    return out


@model('@_ZNSo5tellpEv')
def tellp(p):
    t = stream(p).text
    if any(isinstance(c, Cell) and c.kind == 'text' for c in t):
        raise Unsupported('length of unknown text')
    return (len(t), 0)


@model('@_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv', '@_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv')
def ios_good(p):
    return 1


@model('@_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv', '@_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv',
       '@_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv', '@_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv')
def ios_bad(p):
    return 0


@model('@_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate', '@_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate')
def ios_state(p, s):
    return None


@model('@_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l')
def ostream_insert(p, t, n):
    return emit(p, span(t, n))


@model('@_ZSt4endsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_')
def ends(p):
    stream(p).text.append(0)
    return p


def call(name, args):
    f = TABLE.get(name)
    if f is None:
        return NotImplemented
    return f(*args)
