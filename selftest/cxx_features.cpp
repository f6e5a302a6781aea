// Snippets whose output the abstract interpreter of IR has to compute as the machine does: see run_cxx.py.
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <stdint.h>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

typedef std::ostringstream O;
struct Out { char* p; explicit Out(char* q): p(q) { }
    Out& operator<<(long long x) { p += std::sprintf(p, "%lld ", x); return *this; }
    Out& operator<<(long x) { return *this << (long long) x; }
    Out& operator<<(int x) { return *this << (long long) x; }
    Out& operator<<(unsigned x) { return *this << (long long) x; }
    Out& operator<<(size_t x) { return *this << (long long) x; }
    Out& operator<<(bool x) { return *this << (long long) x; }
    Out& operator<<(const std::string& s) { std::memcpy(p, s.data(), s.size()); p += s.size(); *p++ = ' '; *p = 0; return *this; }
    Out& operator<<(const char* s) { return *this << std::string(s); }
};
#define T(name) extern "C" void t_##name(char* buf) { Out o(buf); o << ""; body_##name(o); }
#define F(name) static void body_##name(Out& o); T(name) static void body_##name(Out& o)

F(memcpy_swap) {
    uint32_t x = 0x01020304, y = 0; unsigned char b[4];
    std::memcpy(b, &x, 4); std::reverse(b, b + 4); std::memcpy(&y, b, 4);
    o << (y == 0x04030201u) << (__builtin_bswap32(x) == y) << int(__builtin_bswap16(0x0102)) << (__builtin_bswap64(1) == (uint64_t(1) << 56));
}
F(algorithms) {
    int a[] = {5, 3, 1, 4}; int b[4] = {};
    std::sort(a, a + 4); std::copy(a, a + 4, b); std::reverse_copy(a, a + 4, b); std::swap_ranges(a, a + 2, b);
    o << a[0] << b[0] << *std::max_element(a, a + 4) << *std::min_element(a, a + 4) << std::accumulate(a, a + 4, 0) << (std::find(a, a + 4, 3) - a);
    std::fill(a, a + 4, 7); std::fill_n(b, 2, 9); std::transform(a, a + 4, b, [](int x) { return x * 2; });
    o << b[3] << std::count(b, b + 4, 14) << std::equal(a, a + 4, b) << std::all_of(a, a + 4, [](int x) { return x == 7; }) << std::any_of(a, a + 4, [](int x) { return x == 1; });
    std::vector<int> v(a, a + 4); v.erase(std::remove(v.begin(), v.end(), 7), v.end()); o << v.size();
    std::for_each(b, b + 4, [&](int& x) { x += 1; }); o << b[0] << std::min(3, 2) << std::max<size_t>(1, 5);
    std::iota(b, b + 4, 3); std::rotate(b, b + 1, b + 4); o << b[0] << b[3] << std::lower_bound(a, a + 4, 7) - a;
    std::generate(b, b + 4, []() { static int n = 0; return ++n; }); o << b[2]; std::iter_swap(b, b + 1); std::swap(b[2], b[3]); o << b[0] << b[2];
    std::copy_backward(b, b + 3, b + 4); o << b[3]; std::stable_sort(b, b + 4, std::greater<int>()); o << b[0];
    std::copy_n(a, 2, b); o << b[1] << std::is_sorted(b, b + 4) << std::inner_product(a, a + 4, a, 0); std::replace(b, b + 4, 7, 1); o << b[0] << std::distance(a, a + 3);
    std::partial_sum(a, a + 4, b); o << b[3] << (std::mismatch(a, a + 4, b).first - a) << std::lexicographical_compare(a, a + 4, b, b + 4) << *std::next(a, 2);
}
F(vectors) {
    std::vector<uint8_t> v; v.reserve(3); v.push_back(1); v.insert(v.end(), 3, 9); v.insert(v.begin(), 4); uint8_t raw[] = {7, 8}; v.insert(v.begin() + 1, raw, raw + 2);
    v.emplace_back(6); v.resize(10); v.erase(v.begin()); v.erase(v.begin(), v.begin() + 2); v.pop_back();
    for (uint8_t x : v) o << int(x);
    std::vector<uint8_t> w(v), z{1, 2, 3}; w.swap(z); o << w.size() << z.size() << (w == z) << (w < z) << w.front() << w.back() << w.at(1); w.clear(); o << w.empty(); w.assign(2, 5); o << int(w[1]);
    w.assign(raw, raw + 2); o << int(w[1]) << int(*w.rbegin()) << int(w.data()[0]); z = std::move(w); o << z.size(); z.shrink_to_fit();
    std::vector<std::string> s; s.push_back("a"); s.emplace_back(3, 'b'); s.insert(s.begin(), "q"); o << s[2] << s[0]; std::vector<std::vector<int> > n(2, std::vector<int>(2, 4)); o << n[1][1];
    std::vector<bool> f(3); f[1] = true; o << int(f[1]) << f.size();
}
F(strings) {
    std::string s("hello"), t; s += ' '; s += "world"; t = s.substr(6); s.insert(0, ">"); s.append(2, '!'); s.replace(0, 1, "<<"); s.erase(2, 1);
    o << s << t << s.size() << s.find("lo") << (s.find("zz") == std::string::npos) << (t == "world") << (t < s) << t.compare("world") << (t + "x" + t) << (1 + t.rfind('o')) << std::string(3, 'z') << s.find_first_of("ow");
    t.resize(3); t.push_back('q'); o << t << int(t[0]) << int(t.back()) << std::string(t.rbegin(), t.rend()); t.clear(); o << t.empty(); t.assign("abc", 2); o << t; for (char c : t) o << int(c);
    o << std::to_string(42) << std::to_string(-7LL) << std::to_string(18446744073709551615ull) << std::stoi("12") << std::atoi("34") << std::strlen("abc") << std::strcmp("a", "b") << (std::strchr("abc", 'b') != 0); std::swap(s, t); o << t;
    const char* p = "lit"; std::string q(p, p + 2); o << q << (q != "li") << (q >= "la") << q.length() << q.c_str() << s.at(0) ;
}
F(streams) {
    O s; s << "a" << 1 << ' ' << std::hex << 255 << std::dec << std::setw(5) << std::setfill('0') << 42 << 'c' << true << std::boolalpha << false << std::string("str") << uint64_t(1) << (long) -3 << short(2) << std::uppercase << std::hex << 171u << std::endl;
    std::string r = s.str(); r.erase(r.size() - 1); o << r; s.str(""); s << std::left << std::setw(4) << "ab" << '|'; o << s.str(); std::stringstream u; u << 5 << "," << 6; o << u.str();
    O w; w.write("xyz", 2); w.put('Q'); w << std::showbase << std::hex << 16 << std::noshowbase << std::oct << 8; w.width(4); w.fill('*'); w << 7; o << w.str() << int(w.tellp());
    O h; std::copy_n("abc", 3, std::ostream_iterator<char>(h, "-")); o << h.str(); std::ostream& os = h; os << "z" << std::flush; o << h.str();
}
F(printf) { char b[64]; int n = std::snprintf(b, sizeof b, "%d %u %x %02x %s %c %5d|%-4d|%lu %lld %zu %%", -3, 4u, 255, 7, "str", 'c', 42, 6, 9ul, -5ll, size_t(8)); o << b << n; std::snprintf(b, 4, "abcdef"); o << b; }
F(maps) {
    std::map<std::string, int> m; m["a"] = 1; m["c"] = 3; m.insert(std::make_pair(std::string("b"), 2)); for (auto& kv : m) o << kv.first << kv.second; o << m.count("a") << (m.find("z") == m.end()) << m.size() << m.at("b");
    std::set<int> s; s.insert(3); s.insert(1); s.insert(3); o << s.size() << *s.begin(); m.erase("a"); o << m.begin()->first;
    std::list<int> l; l.push_back(1); l.push_front(0); o << l.front() << l.size();
}
F(smart) { std::unique_ptr<int> p(new int(5)); std::unique_ptr<int[]> a(new int[3]()); a[1] = 4; std::unique_ptr<int> q = std::move(p); o << *q << !p << a[1]; q.reset(); std::shared_ptr<int> s = std::make_shared<int>(7), t = s; o << *t << s.use_count(); }
struct Base { virtual ~Base() { } virtual int f() const { return 1; } int g() const { return f() * 10; } };
struct Der : Base { int k; explicit Der(int x = 3): k(x) { } int f() const override { return k; } };
F(virt) { std::unique_ptr<Base> b(new Der(4)); o << b->g(); Der d; Base& r = d; o << r.f() << r.g(); Base* p = &d; o << (dynamic_cast<Der*>(p) != 0); }
F(lambdas) { int n = 2; auto add = [n](int x) { return x + n; }; auto inc = [&n]() { ++n; }; inc(); inc(); std::function<int(int)> f = add; o << add(3) << n << f(10); int (*fp)(int) = [](int x) { return x * x; }; o << fp(5); }
enum class Ec : uint8_t { A = 1, B }; union Un { uint32_t u; float f; uint8_t b[4]; };
F(enums) { Ec e = Ec::B; o << int(e); switch (e) { case Ec::A: o << 1; break; case Ec::B: o << 22; break; } Un u; u.u = 0x3f800000; o << (u.f == 1.0f) << int(u.b[3]); }
template <typename X> struct Size { static const size_t value = sizeof(X); };
template <typename... A> size_t total(A...) { return sizeof...(A); }
constexpr int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
template <typename X> typename std::enable_if<std::is_signed<X>::value, int>::type sgn(X) { return -1; }
template <typename X> typename std::enable_if<!std::is_signed<X>::value, int>::type sgn(X) { return 1; }
F(templates) { static_assert(fact(5) == 120, ""); o << Size<long>::value << total(1, 2, 3) << fact(4) << sgn(1) << sgn(1u) << int(alignof(double)) << std::numeric_limits<uint16_t>::max() << std::numeric_limits<int8_t>::min() << std::is_same<int, int>::value; auto t = std::make_tuple(1, 'a', 2.0); o << std::get<0>(t) << int(std::get<2>(t)); int a, b; std::tie(a, b) = std::make_pair(3, 4); o << a << b; std::array<int, 3> r = {{1, 2, 3}}; o << r.size() << r[2]; }
F(pointers) { alignas(8) unsigned char b[16] = {}; unsigned char* p = b; p += 3; uintptr_t u = reinterpret_cast<uintptr_t>(p); u = (u + 3) & ~uintptr_t(3); p = reinterpret_cast<unsigned char*>(u); o << (p - b) << int((reinterpret_cast<uintptr_t>(p) & 3) == 0); *p = 9; void* v = p; o << int(*static_cast<unsigned char*>(v)) << (b < p) << offsetof(Un, b); const unsigned char* e = std::end(b); o << (e - b); size_t left = size_t(e - p); o << left; std::ptrdiff_t d = p - e; o << (long long) d; size_t sp = 10; void* q = b + 1; q = std::align(4, 4, q, sp); o << (static_cast<unsigned char*>(q) - b) << sp; }
F(ints) { uint8_t x = 200; x += 100; int8_t y = int8_t(200); uint32_t z = uint32_t(-1); int64_t w = int64_t(z) << 4; o << int(x) << int(y) << (z == 0xffffffffu) << (w >> 8) << (7 % 3) << (-7 / 2) << (-7 % 3) << (5 ^ 3) << (~5) << (1u << 31 >> 30) << (x ? 1 : 2) << (long long) std::abs(-4) << __builtin_popcount(255) << __builtin_clz(1) << __builtin_ctz(8) << (x & 0xf) << (uint16_t(0x1234) >> 8) << !x; int k = 5; int j = k++ + ++k; o << j << k; }
F(floats) { double d = 1.5; float f = 0.25f; o << int(d * 4) << int(f * 8) << (d > f) << int(std::floor(2.7)) << int(std::ceil(2.1)) << (d == 1.5) << int(-d) << int(float(d) + f); uint64_t u; std::memcpy(&u, &d, 8); o << (u == 0x3ff8000000000000ull); }
F(exceptions) { try { throw std::runtime_error("boom"); } catch (const std::exception&) { o << "caught"; } try { std::vector<int> v(2); o << v.at(5); } catch (const std::out_of_range&) { o << "range"; } try { throw 5; } catch (int x) { o << x; } catch (...) { o << "other"; } struct G { Out& q; ~G() { q << "dtor"; } }; try { G g = {o}; throw 1; } catch (...) { o << "all"; } }
F(loops) { int n = 0; for (int i = 0; i < 10; ++i) { if (i == 2) continue; if (i == 6) break; n += i; } do { --n; } while (n > 5); while (true) { if (++n > 8) break; } o << n; goto end; o << 999; end: o << 1; int a[2][3] = {{1, 2, 3}, {4, 5, 6}}; for (auto& r : a) for (int x : r) o << x; for (int x : {7, 8}) o << x; std::initializer_list<int> il = {1, 2}; o << il.size(); static int st = 4; o << ++st; int i = 3; switch (i) { case 1: o << 1; case 3: o << 3; case 4: o << 4; break; default: o << 5; } }
struct Rule { int a = 3; std::string s{"x"}; Rule() = default; Rule(int x, std::string y): a(x), s(std::move(y)) { } Rule(const Rule&) = default; Rule& operator=(const Rule&) = default; Rule(Rule&& r) noexcept: a(r.a), s(std::move(r.s)) { r.a = 0; } bool operator==(const Rule& r) const { return a == r.a && s == r.s; } explicit operator bool() const { return a != 0; } };
F(classes) { Rule r, q(5, "yy"), c(q), m(std::move(q)); r = c; o << (r == m) << q.a << m.s << bool(q) << (m ? 1 : 0); std::vector<Rule> v; v.emplace_back(1, "a"); v.push_back(r); v.resize(5); o << v[1].s << v[4].a; std::swap(v[0], v[1]); o << v[0].s; Rule* p = new Rule[2]; o << p[1].a; delete[] p; alignas(Rule) char mem[sizeof(Rule)]; Rule* pl = new (mem) Rule(8, "zz"); o << pl->s; pl->~Rule(); }
F(hash) { std::unordered_map<int, int> m; m[3] = 4; m[9] = 1; o << m[3] << m.size() << m.count(7); std::deque<int> d; d.push_back(1); d.push_front(2); o << d[0] << d.back(); std::pair<int, std::string> p(1, "p"); o << p.second << (p < std::make_pair(2, std::string("a"))); std::function<void(int)> f = std::bind([](Out* q, int x) { *q << x; }, &o, std::placeholders::_1); f(77); }
F(iterators) { std::vector<int> v = {1, 2, 3, 4}; std::vector<int> w; std::copy(v.rbegin(), v.rend(), std::back_inserter(w)); o << w[0]; std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](int x) { return x % 2 == 0; }); o << w.size(); auto it = v.begin(); std::advance(it, 2); o << *it << std::distance(v.begin(), it) << *std::prev(v.end()); v.insert(it, w.begin(), w.end()); o << v.size() << v[3]; std::vector<int> u(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); o << u.size(); std::transform(u.begin(), u.end(), u.begin(), std::negate<int>()); o << u[1] << std::accumulate(u.begin(), u.end(), 0, [](int a, int b) { return a - b; }); auto mm = std::minmax(3, 1); o << mm.first; }

// Byte moves: every byte of out is one of the bytes of in or a constant.
#define M(name) extern "C" void m_##name(const uint8_t* in, uint8_t* out)
M(shift16) { uint16_t x; std::memcpy(&x, in, 2); x = uint16_t((x << 8) | (x >> 8)); std::memcpy(out, &x, 2); }
M(shift32) { uint32_t x; std::memcpy(&x, in, 4); x = ((x & 0xff000000u) >> 24) | ((x & 0x00ff0000u) >> 8) | ((x & 0x0000ff00u) << 8) | ((x & 0x000000ffu) << 24); std::memcpy(out, &x, 4); }
M(shift32b) { uint32_t x; std::memcpy(&x, in, 4); x = (x >> 24) + ((x >> 8) & 0xff00) + ((x << 8) & 0xff0000) + (x << 24); std::memcpy(out, &x, 4); }
M(shift64) { uint64_t x = *reinterpret_cast<const uint64_t*>(in); x = ((x << 8) & 0xFF00FF00FF00FF00ULL) | ((x >> 8) & 0x00FF00FF00FF00FFULL); x = ((x << 16) & 0xFFFF0000FFFF0000ULL) | ((x >> 16) & 0x0000FFFF0000FFFFULL); x = (x << 32) | (x >> 32); *reinterpret_cast<uint64_t*>(out) = x; }
M(rotate) { uint32_t x; std::memcpy(&x, in, 4); x = ((x << 16) | (x >> 16)); x = ((x & 0x00ff00ff) << 8) | ((x & 0xff00ff00) >> 8); std::memcpy(out, &x, 4); }
M(loop) { uint64_t x = 0; for (int i = 0; i < 8; ++i) x = (x << 8) | in[i]; std::memcpy(out, &x, 8); }
M(loop_add) { uint64_t x = 0; for (int i = 0; i < 8; ++i) x += uint64_t(in[i]) << (8 * i); std::memcpy(out, &x, 8); }
M(loop_mul) { uint32_t x = 0; for (int i = 0; i < 4; ++i) x = x * 256 + in[i]; std::memcpy(out, &x, 4); }
M(store_shift) { uint32_t x; std::memcpy(&x, in, 4); for (int i = 0; i < 4; ++i) out[i] = uint8_t(x >> (8 * (3 - i))); }
M(store_div) { uint32_t x; std::memcpy(&x, in, 4); for (int i = 0; i < 4; ++i) { out[i] = uint8_t(x % 256); x /= 256; } }
M(reverse) { std::copy(in, in + 8, out); std::reverse(out, out + 8); }
M(reverse_copy) { std::reverse_copy(in, in + 8, out); }
M(swap_pair) { std::copy(in, in + 4, out); std::swap(out[0], out[3]); std::swap(out[1], out[2]); }
M(union_) { union { uint32_t u; uint8_t b[4]; } a, r; std::memcpy(a.b, in, 4); for (size_t i = 0; i < sizeof(a); ++i) r.b[i] = a.b[3 - i]; *reinterpret_cast<uint32_t*>(out) = r.u; }
M(bswap) { uint64_t x; std::memcpy(&x, in, 8); x = __builtin_bswap64(x); std::memcpy(out, &x, 8); uint16_t y; std::memcpy(&y, in, 2); y = __builtin_bswap16(y); std::memcpy(out + 8, &y, 2); }
M(signed_) { int32_t x; std::memcpy(&x, in, 4); uint32_t u = static_cast<uint32_t>(x); u = (u >> 24) | ((u >> 8) & 0xff00u) | ((u << 8) & 0xff0000u) | (u << 24); x = static_cast<int32_t>(u); std::memcpy(out, &x, 4); }
M(float_) { float f; std::memcpy(&f, in, 4); double d; std::memcpy(&d, in, 8); *reinterpret_cast<float*>(out) = f; std::memcpy(out + 8, &d, 8); }
M(zero_fill) { std::fill_n(out, 3, uint8_t(0)); out[3] = in[1]; std::memset(out + 4, 0xff, 2); std::uninitialized_fill(out + 6, out + 8, uint8_t(7)); }
M(vec) { std::vector<uint8_t> v(in, in + 8); std::rotate(v.begin(), v.begin() + 3, v.end()); std::copy(v.rbegin(), v.rend(), out); v.reserve(20); std::copy(v.begin(), v.begin() + 2, std::back_inserter(v)); std::copy(v.end() - 2, v.end(), out + 8); }
M(str) { std::string s(reinterpret_cast<const char*>(in), 8); s += s; s.erase(1, 2); std::memcpy(out, s.data(), s.size()); }
M(lambda) { auto put = [&](size_t at, uint8_t x) { out[at] = x; }; for (size_t i = 0; i < 8; ++i) put(7 - i, in[i]); }
M(bits) { uint16_t x; std::memcpy(&x, in, 2); out[0] = x & 0xff; out[1] = (x >> 8) & 0xff; out[2] = uint8_t(~~x); out[3] = uint8_t((x ^ 0xffff) ^ 0xffff); }
M(transform) { std::transform(in, in + 8, out, [](uint8_t x) { return uint8_t(x); }); std::swap_ranges(out, out + 4, out + 4); }
M(word_pair) { uint32_t a, b; std::memcpy(&a, in, 4); std::memcpy(&b, in + 4, 4); uint64_t x = (uint64_t(__builtin_bswap32(a)) << 32) | __builtin_bswap32(b); std::memcpy(out, &x, 8); }
M(bitand_add) { uint16_t x; std::memcpy(&x, in, 2); uint16_t y = uint16_t((x & 0xff) * 256u + x / 256u); std::memcpy(out, &y, 2); }
