// The wire codec: values survive packing and unpacking (C12), conversions never invent a value (C13),
// decoding arbitrary bytes is safe (C14).
#define MSGPACK_USE_STD_VARIANT_ADAPTOR // an adaptor that users opt into
#include "rpc.h"
#include <array>
#include <chrono>
#include <complex>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
namespace mp = veigar_msgpack;
namespace cd { enum class Color : int32_t { red = 0, blue = 1000 }; enum Plain { p0, p1 = 70000 };
struct Pt { int32_t x; uint8_t y; std::string s; bool operator==(const Pt& o) const { return x == o.x && y == o.y && s == o.s; } MSGPACK_DEFINE(x, y, s); };
struct Base { int64_t b; MSGPACK_DEFINE(b); };
struct Der : Base { std::vector<Pt> v; bool f; MSGPACK_DEFINE(MSGPACK_BASE(Base), v, f); };
struct Mp { int16_t k; std::string name; std::vector<int32_t> vals; MSGPACK_DEFINE_MAP(k, name, vals); }; }
MSGPACK_ADD_ENUM(cd::Color); MSGPACK_ADD_ENUM(cd::Plain);
using namespace cd;
namespace {
template <typename T> mp::sbuffer enc(const T& v) { mp::sbuffer b; mp::pack(b, v); return b; }
template <typename T> T rt(const T& v) {
  mp::sbuffer b; mp::pack(b, v); size_t off = 0; mp::object_handle oh = mp::unpack(b.data(), b.size(), off); vs_assert(off == b.size(), "the decoder did not consume exactly the encoding");
  mp::sbuffer b2; mp::pack(b2, v); vs_assert(b2.size() == b.size() && memcmp(b.data(), b2.data(), b.size()) == 0, "two encodings of one value differ");
  return oh.get().as<T>(); }
template <typename T> T viaObject(const T& v) { mp::zone z; mp::object o(v, z); return o.as<T>(); }
template <typename T> T viaRepack(const T& v) { mp::sbuffer b; mp::pack(b, v); mp::object_handle oh = mp::unpack(b.data(), b.size()); mp::sbuffer c; mp::pack(c, oh.get()); mp::object_handle o2 = mp::unpack(c.data(), c.size()); T t; o2.get().convert(t); return t; }
template <typename T> T viaClone(const T& v) { mp::sbuffer b; mp::pack(b, v); mp::object_handle k; { mp::object_handle oh = mp::unpack(b.data(), b.size()); k = mp::clone(oh.get()); } b.clear(); return k.get().as<T>(); }
template <typename T> T viaStream(const T& v) { mp::sbuffer b; mp::pack(b, v); mp::unpacker u(nullptr, nullptr, 64); size_t cut = b.size() > 1 ? 1 + vs_choose((unsigned)(b.size() - 1 < 6 ? b.size() - 1 : 6), "cut") : b.size(); mp::object_handle oh; u.reserve_buffer(cut); memcpy(u.buffer(), b.data(), cut); u.buffer_consumed(cut); if (cut < b.size()) { vs_assert(!u.next(oh), "an object came out of a part of its encoding"); u.reserve_buffer(b.size() - cut); memcpy(u.buffer(), b.data() + cut, b.size() - cut); u.buffer_consumed(b.size() - cut); } vs_assert(u.next(oh), "a complete encoding was not decoded"); mp::object_handle n; vs_assert(!u.next(n), "more objects than encoded"); return oh.get().as<T>(); }
template <typename T> T any(const T& v) { switch (vs_choose(5, "route")) { case 0: return rt(v); case 1: return viaObject(v); case 2: return viaRepack(v); case 3: return viaClone(v); default: return viaStream(v); } }
template <typename T> void same(const T& v, const char* w) { T o = any(v); vs_assert(o == v, w); }
std::string symStr(int max) { unsigned l = vs_choose(max + 1, "len"); std::string s; for (unsigned i = 0; i < l; i++) s.push_back((char)vs_u8("ch")); return s; }
template <typename F, typename B> void fl(B bits) { F f; memcpy(&f, &bits, sizeof f); F o = any(f); B ob; memcpy(&ob, &o, sizeof f); if (f != f) vs_assert(o != o, "a NaN became a number"); else if (f == 0) vs_assert(o == 0, "zero changed"); else vs_assert(ob == bits, "a floating point number changed"); }
}
static void roundTrip(int which) {
  switch (which) {
    case 0: same<int8_t>((int8_t)vs_u8("v"), "int8"); break; case 1: same<uint8_t>(vs_u8("v"), "uint8"); break;
    case 2: same<int16_t>((int16_t)vs_u16("v"), "int16"); break; case 3: same<uint16_t>(vs_u16("v"), "uint16"); break;
    case 4: same<int32_t>(vs_i32("v"), "int32"); break; case 5: same<uint32_t>(vs_u32("v"), "uint32"); break;
    case 6: same<int64_t>(vs_i64("v"), "int64"); break; case 7: same<uint64_t>(vs_u64("v"), "uint64"); break;
    case 8: same<bool>(vs_bool("v"), "bool"); break; case 9: same<char>((char)vs_u8("v"), "char"); break;
    case 10: same<signed char>((signed char)vs_u8("v"), "signed char"); same<unsigned char>(vs_u8("w"), "unsigned char"); break;
    case 11: same<long long>(vs_i64("v"), "long long"); break; case 12: same<unsigned long long>(vs_u64("v"), "unsigned long long"); break;
    case 13: fl<double>(vs_u64("v")); break; case 14: fl<float>(vs_u32("v")); break;
    case 15: { Color c = (Color)vs_i32("v"); vs_assert(any(c) == c, "enum class"); Plain p = vs_choose(2, "p") ? p1 : p0; vs_assert(any(p) == p, "enum"); break; }
    case 16: same<wchar_t>((wchar_t)vs_i32("v"), "wchar_t"); break;
    // strings and byte vectors around every size boundary, one byte symbolic at a symbolic place
    case 20: { static const int L[] = {0, 1, 31, 32, 33, 255, 256, 257, 65535, 65536, 70000}; int n = L[vs_choose(11, "length")]; std::string s((size_t)n, 'a'); size_t at[] = {0, (size_t)n / 2, n ? (size_t)n - 1 : 0}; size_t k = at[vs_choose(3, "at")]; if (n) s[k] = (char)vs_u8("ch"); std::string o = any(s); vs_assert(o.size() == s.size(), "string length changed"); if (n) vs_assert(o[k] == s[k], "string content changed"); vs_assert(o == s, "string changed"); break; }
    case 21: { static const int L[] = {0, 1, 255, 256, 65535, 65536}; int n = L[vs_choose(6, "length")]; std::vector<char> s((size_t)n, 'a'); if (n) s[n - 1] = (char)vs_u8("ch"); vs_assert(any(s) == s, "byte vector changed"); std::vector<unsigned char> u((size_t)n, 200); if (n) u[0] = vs_u8("cu"); vs_assert(rt(u) == u && viaObject(u) == u, "unsigned byte vector changed"); break; }
    case 22: { std::string s = symStr((int)vs_param("len", 4)); vs_assert(any(s) == s, "string changed"); break; }
    case 23: { static const int L[] = {0, 1, 15, 16, 17, 65535, 65536}; int n = L[vs_choose(7, "length")]; std::vector<int32_t> v((size_t)n, 5); int32_t x = vs_i32("x"); if (n) v[n - 1] = x; std::vector<int32_t> o = n > 100 ? rt(v) : any(v); vs_assert(o.size() == v.size(), "vector length changed"); if (n) vs_assert(o[n - 1] == x && o[0] == v[0], "vector element changed"); break; }
    case 24: { static const int L[] = {0, 1, 15, 16, 17, 300}; int n = L[vs_choose(6, "length")]; std::map<int32_t, int32_t> m; int32_t x = vs_i32("x"); for (int i = 0; i < n; i++) m[i * 3] = i; if (n) m[3 * (n - 1)] = x; std::map<int32_t, int32_t> o = n > 100 ? rt(m) : any(m); vs_assert(o == m, "map changed"); break; }
    case 30: { std::list<int64_t> l{vs_i64("a"), vs_i64("b")}; same(l, "list"); std::deque<int16_t> d{(int16_t)vs_u16("c"), 7}; same(d, "deque"); break; }
    case 31: { std::set<int32_t> s{vs_i32("a"), 5}; same(s, "set"); break; }
    case 32: { std::multimap<int32_t, std::string> m{{1, symStr(1)}, {1, "b"}, {2, "c"}}; same(m, "multimap"); break; }
    case 33: { std::unordered_map<std::string, int32_t> m{{"a", vs_i32("a")}, {"bb", 2}}; same(m, "unordered map"); std::unordered_set<int32_t> s{3, 4}; same(s, "unordered set"); break; }
    case 34: { std::pair<uint16_t, std::string> p{vs_u16("a"), symStr(2)}; same(p, "pair"); break; }
    case 35: { std::tuple<int8_t, std::string, bool, uint64_t> t{(int8_t)vs_u8("a"), symStr(1), vs_bool("b"), vs_u64("c")}; same(t, "tuple"); break; }
    case 36: { std::array<int32_t, 3> a{{vs_i32("a"), vs_i32("b"), -1}}; same(a, "array"); break; }
    case 37: { std::optional<int32_t> o; if (vs_choose(2, "some")) o = vs_i32("a"); std::optional<int32_t> r = any(o); vs_assert(r.has_value() == o.has_value() && (!o || *r == *o), "optional"); break; }
    case 38: { std::vector<bool> v; unsigned n = vs_choose(4, "n"); for (unsigned i = 0; i < n; i++) v.push_back(vs_bool("b")); same(v, "vector of bool"); break; }
    case 39: { std::vector<std::vector<std::string>> v{{symStr(1)}, {}, {"x", "yz"}}; same(v, "nested vectors"); break; }
    case 40: { Pt p{vs_i32("x"), vs_u8("y"), symStr(2)}; same(p, "structure"); break; }
    case 41: { Der d; d.b = vs_i64("b"); d.v.push_back(Pt{vs_i32("x"), vs_u8("y"), symStr(1)}); d.f = vs_bool("f"); Der o = any(d); vs_assert(o.b == d.b && o.v == d.v && o.f == d.f, "derived structure"); break; }
    case 42: { Mp m; m.k = (int16_t)vs_u16("k"); m.name = symStr(1); m.vals = {vs_i32("v")}; Mp o = any(m); vs_assert(o.k == m.k && o.name == m.name && o.vals == m.vals, "map structure"); break; }
    case 43: { std::shared_ptr<int32_t> p; if (vs_choose(2, "some")) p = std::make_shared<int32_t>(vs_i32("a")); mp::sbuffer b = enc(p); mp::object_handle oh = mp::unpack(b.data(), b.size()); auto o = oh.get().as<std::shared_ptr<int32_t>>(); vs_assert(!o == !p && (!p || *o == *p), "shared_ptr"); break; }
    case 44: { std::forward_list<int32_t> l{vs_i32("a"), 2, 3}; same(l, "forward list"); break; }
    case 45: { static const int64_t S[] = {-3000000000ll, -4294967296ll, -2, -1, 0, 1, 2, 1700000000, 4294967295ll, 4294967296ll, 8000000000ll}; int64_t sec = S[vs_choose(11, "sec")]; int64_t ns = (int64_t)vs_range("ns", 0, 999999999); if (vs_choose(2, "whole")) vs_assume(ns == 0); ns += sec * 1000000000ll; std::chrono::system_clock::time_point t{std::chrono::nanoseconds(ns)}; mp::sbuffer b = enc(t); mp::object_handle oh = mp::unpack(b.data(), b.size()); auto o = oh.get().as<std::chrono::system_clock::time_point>(); vs_assert(o == t, "time point changed"); std::chrono::system_clock::time_point q; oh.get().convert(q); vs_assert(q == t, "time point changed"); break; }
    case 46: { std::array<char, 3> c{{(char)vs_u8("a"), 'b', (char)vs_u8("c")}}; same(c, "array of char"); std::list<std::string> l{symStr(1), "x"}; vs_assert(rt(l) == l, "list of strings"); std::unordered_multimap<std::string, int32_t> m{{"a", vs_i32("v")}}; vs_assert(rt(m) == m, "unordered multimap"); break; }
    case 47: { std::tuple<std::map<std::string, std::vector<Pt>>, std::optional<std::string>, std::array<uint8_t, 2>> t; std::get<0>(t)["k"].push_back(Pt{vs_i32("x"), 1, "s"}); if (vs_choose(2, "some")) std::get<1>(t) = symStr(1); std::get<2>(t) = {{vs_u8("p"), vs_u8("q")}}; same(t, "nested structure"); break; }
    case 48: { unsigned n[] = {0, 1, 2, 4, 8, 16, 17, 255, 256, 65536}; unsigned k = n[vs_choose(10, "length")]; int8_t ty = (int8_t)vs_u8("type"); std::string body(k, 'e'); if (k) body[k - 1] = (char)vs_u8("ch"); mp::sbuffer b; mp::packer<mp::sbuffer> p(b); p.pack_ext(k, ty); p.pack_ext_body(body.data(), k); mp::object_handle oh = mp::unpack(b.data(), b.size()); vs_assert(oh.get().type == mp::type::EXT && oh.get().via.ext.type() == ty && oh.get().via.ext.size == k, "ext header changed"); if (k) vs_assert(oh.get().via.ext.data()[k - 1] == body[k - 1], "ext body changed"); mp::sbuffer c; mp::pack(c, oh.get()); vs_assert(c.size() == b.size() && memcmp(c.data(), b.data(), b.size()) == 0, "ext repacked differently"); break; }
    case 49: { uint32_t a = vs_u32("a"); float fa; memcpy(&fa, &a, 4); vs_assume(fa == fa); std::vector<float> v{fa, 1.5f}; std::vector<float> o = any(v); vs_assert(o.size() == 2 && o[0] == fa && o[1] == 1.5f, "vector of float"); break; }
    case 50: { const char* s = "hello"; mp::sbuffer b = enc(s); mp::object_handle oh = mp::unpack(b.data(), b.size()); vs_assert(oh.get().as<std::string>() == "hello", "char*"); char arr[4] = {(char)vs_u8("a"), 'b', 'c', 0}; mp::sbuffer b2; mp::pack(b2, arr); mp::object_handle o2 = mp::unpack(b2.data(), b2.size()); std::string o = o2.get().as<std::string>(); vs_assert(o.size() == strlen(arr) && o == arr, "char array"); break; }
    case 51: { int32_t a[3] = {vs_i32("a"), vs_i32("b"), 3}; mp::sbuffer b; mp::pack(b, a); mp::object_handle oh = mp::unpack(b.data(), b.size()); int32_t o[3]; oh.get().convert(o); vs_assert(o[0] == a[0] && o[1] == a[1] && o[2] == 3, "C array"); break; }
    case 52: { std::complex<double> c((double)vs_i32("re"), 0.5); same(c, "complex"); uint64_t a = vs_u64("im"); double f; memcpy(&f, &a, 8); vs_assume(f == f); std::complex<double> d(1.25, f); same(d, "complex"); std::vector<std::complex<double>> v{c}; same(v, "vector of complex"); break; }
    case 53: { std::wstring w; unsigned n = vs_choose(3, "n"); for (unsigned i = 0; i < n; i++) w.push_back((wchar_t)vs_i32("w")); same(w, "wide string"); std::vector<std::wstring> v{w, L"x"}; same(v, "vector of wide strings"); break; }
    case 54: { std::vector<std::byte> v; unsigned n = vs_choose(4, "n"); for (unsigned i = 0; i < n; i++) v.push_back((std::byte)vs_u8("b")); same(v, "vector of std::byte"); std::array<std::byte, 2> a{{(std::byte)vs_u8("c"), std::byte{7}}}; same(a, "array of std::byte"); std::array<unsigned char, 3> u{{vs_u8("d"), 0, 255}}; same(u, "array of unsigned char"); std::byte y = (std::byte)vs_u8("e"); same(y, "std::byte"); break; }
    case 55: { static const int L[] = {0, 1, 31, 32, 255, 256, 65536}; int n = L[vs_choose(7, "length")]; std::string base((size_t)n, 's'); if (n) base[n - 1] = (char)vs_u8("ch"); std::string_view v(base); mp::sbuffer b = enc(v); mp::object_handle oh = mp::unpack(b.data(), b.size()); std::string_view o = oh.get().as<std::string_view>(); vs_assert(o == v, "string view"); mp::zone z; mp::object q(v, z); vs_assert(q.as<std::string>() == base, "string view"); break; }
    case 56: { timespec t; t.tv_sec = vs_choose(2, "old") ? (time_t)vs_i32("sec") : (time_t)vs_u32("sec2"); if (vs_choose(2, "far")) t.tv_sec += (time_t)1 << 34; t.tv_nsec = (long)vs_range("ns", 0, 999999999); if (vs_choose(2, "whole")) vs_assume(t.tv_nsec == 0); timespec o = any(t); vs_assert(o.tv_sec == t.tv_sec && o.tv_nsec == t.tv_nsec, "timespec"); break; }
    case 57: { static const uint32_t L[] = {0, 1, 2, 3, 4, 8, 15, 16, 17, 255, 256, 65535, 65536}; uint32_t n = L[vs_choose(13, "length")]; std::string body(n, 'e'); if (n) body[n - 1] = (char)vs_u8("ch"); mp::type::ext e((int8_t)vs_u8("type"), body.data(), n); same(e, "extension"); mp::type::ext_ref r(e); mp::sbuffer b = enc(r); mp::object_handle oh = mp::unpack(b.data(), b.size()); vs_assert(oh.get().as<mp::type::ext>() == e, "reference to an extension"); mp::type::ext_ref back = oh.get().as<mp::type::ext_ref>(); vs_assert(back == r && back.type() == e.type() && back.size() == n, "reference to an extension"); break; }
    case 58: { static const uint32_t L[] = {0, 1, 31, 32, 255, 256, 65535, 65536}; uint32_t n = L[vs_choose(8, "length")]; std::string body(n, 'e'); if (n) body[n - 1] = (char)vs_u8("ch"); mp::type::raw_ref r(body.data(), n); mp::sbuffer b = enc(r); mp::object_handle oh = mp::unpack(b.data(), b.size()); vs_assert(oh.get().as<mp::type::raw_ref>() == r && oh.get().type == mp::type::BIN, "raw bytes"); mp::type::v4raw_ref w(body.data(), n); mp::sbuffer c = enc(w); mp::object_handle o2 = mp::unpack(c.data(), c.size()); vs_assert(o2.get().as<mp::type::v4raw_ref>() == w && o2.get().type == mp::type::STR, "old raw bytes"); break; }
    case 59: { switch (vs_choose(4, "of")) { case 0: { std::multiset<int32_t> m{vs_i32("a"), 4, 4}; same(m, "multiset"); break; } case 1: { std::unordered_multiset<int32_t> u{5, 5, 6}; same(u, "unordered multiset"); break; } case 2: { mp::type::assoc_vector<int32_t, int64_t> a; a.push_back({1, 2}); a.push_back({3, vs_i64("b")}); same(a, "association list"); break; } default: { std::map<std::string, std::string> s{{symStr(1), "v"}, {"zz", symStr(1)}}; same(s, "map of strings"); } } break; }
    case 60: { mp::type::tuple<int8_t, std::string, bool> t((int8_t)vs_u8("a"), symStr(1), vs_bool("b")); auto o = any(t); vs_assert(o.get<0>() == t.get<0>() && o.get<1>() == t.get<1>() && o.get<2>() == t.get<2>(), "tuple of the codec"); std::tuple<std::wstring, std::vector<int32_t>, std::chrono::system_clock::time_point> q{L"w", {vs_i32("c")}, {}}; same(q, "tuple of containers"); std::tuple<> e; same(e, "empty tuple"); break; }
    case 61: { std::unique_ptr<int64_t> p; if (vs_choose(2, "some")) p.reset(new int64_t(vs_i64("a"))); mp::sbuffer b = enc(p); mp::object_handle oh = mp::unpack(b.data(), b.size()); auto o = oh.get().as<std::unique_ptr<int64_t>>(); vs_assert(!o == !p && (!p || *o == *p), "unique_ptr"); int32_t x = vs_i32("x"); std::reference_wrapper<int32_t> w(x); mp::sbuffer c = enc(w); mp::object_handle o2 = mp::unpack(c.data(), c.size()); vs_assert(o2.get().as<int32_t>() == x, "reference"); mp::zone z; mp::object ob(w, z); vs_assert(ob.as<int32_t>() == x, "reference"); break; }
    case 62: { char a[5] = {(char)vs_u8("a"), (char)vs_u8("b"), 'c', 'd', 'e'}; mp::sbuffer b; mp::pack(b, a); mp::object_handle oh = mp::unpack(b.data(), b.size()); char o[5]; memset(o, '?', 5); oh.get().convert(o); size_t l = strnlen(a, 5); vs_assert(memcmp(a, o, l) == 0 && (l == 5 || o[l] == 0), "C string"); unsigned char u[3] = {vs_u8("c"), 0, 9}; mp::sbuffer d; mp::pack(d, u); mp::object_handle o2 = mp::unpack(d.data(), d.size()); unsigned char v[3]; o2.get().convert(v); vs_assert(memcmp(u, v, 3) == 0, "C byte array"); break; }
    case 63: { typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds> MS; typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds> S; static const int64_t B[] = {-3000000000000ll, -2000, -1000, 0, 1000, 1700000000000ll, 4294967296000ll, 20000000000000ll}; int64_t ms = B[vs_choose(8, "base")] + (int64_t)vs_range("ms", 0, 999); MS t{std::chrono::milliseconds(ms)}; mp::sbuffer b = enc(t); mp::object_handle oh = mp::unpack(b.data(), b.size()); vs_assert(oh.get().as<MS>() == t, "time in milliseconds"); S u{std::chrono::seconds(vs_i32("s"))}; mp::sbuffer c = enc(u); mp::object_handle o2 = mp::unpack(c.data(), c.size()); vs_assert(o2.get().as<S>() == u, "time in seconds"); break; }
    case 64: { switch (vs_choose(8, "type")) { case 0: { mp::type::fix_int8 a((int8_t)vs_u8("a")); vs_assert(any(a).get() == a.get(), "integer of fixed size"); break; } case 1: { mp::type::fix_uint16 a(vs_u16("a")); vs_assert(any(a).get() == a.get(), "integer of fixed size"); break; } case 2: { mp::type::fix_int32 a(vs_i32("a")); vs_assert(any(a).get() == a.get(), "integer of fixed size"); break; } case 3: { mp::type::fix_uint64 a(vs_u64("a")); vs_assert(any(a).get() == a.get(), "integer of fixed size"); break; } case 4: { mp::type::fix_uint8 a(vs_u8("a")); vs_assert(any(a).get() == a.get(), "integer of fixed size"); break; } case 5: { mp::type::fix_int16 a((int16_t)vs_u16("a")); vs_assert(any(a).get() == a.get(), "integer of fixed size"); break; } case 6: { mp::type::fix_uint32 a(vs_u32("a")); vs_assert(any(a).get() == a.get(), "integer of fixed size"); break; } default: { mp::type::fix_int64 a(vs_i64("a")); vs_assert(any(a).get() == a.get(), "integer of fixed size"); } } break; }
    case 65: { switch (vs_choose(4, "of")) { case 0: { std::vector<std::optional<int16_t>> v{std::nullopt, (int16_t)vs_u16("a")}; same(v, "vector of optional"); break; } case 1: { std::optional<std::vector<std::string>> o; if (vs_choose(2, "some")) o = std::vector<std::string>{symStr(1)}; same(o, "optional vector"); break; } case 2: { std::deque<bool> d{vs_bool("b"), true}; same(d, "deque of bool"); break; } default: { std::list<std::pair<std::string, double>> l{{symStr(1), 0.5}}; same(l, "list of pairs"); } } break; }
    case 66: { mp::sbuffer b; mp::packer<mp::sbuffer> p(b); int64_t x = vs_i64("x"); uint64_t y = vs_u64("y"); switch (vs_choose(8, "how")) { case 0: p.pack_fix_int64(x); p.pack_fix_uint64(y); break; case 1: p.pack_int64(x); p.pack_uint64(y); break; case 2: p.pack_long_long(x); p.pack_unsigned_long_long(y); break; case 3: p.pack_long(x); p.pack_unsigned_long(y); break; case 4: x = (int32_t)x; y = (uint32_t)y; p.pack_int((int)x); p.pack_unsigned_int((unsigned)y); break; case 5: x = (int16_t)x; y = (uint16_t)y; p.pack_short((short)x); p.pack_unsigned_short((unsigned short)y); break; case 6: x = (int8_t)x; y = (uint8_t)y; p.pack_signed_char((signed char)x); p.pack_unsigned_char((unsigned char)y); break; default: x = (int32_t)x; y = (uint32_t)y; p.pack_fix_int32((int32_t)x); p.pack_fix_uint32((uint32_t)y); }
      size_t off = 0; mp::object_handle a = mp::unpack(b.data(), b.size(), off), c = mp::unpack(b.data(), b.size(), off); vs_assert(off == b.size() && a.get().as<int64_t>() == x && c.get().as<uint64_t>() == y, "integer packed on its own"); break; }
    case 70: { // containers whose elements are obtained by value
      typedef std::wstring W; unsigned n = vs_choose(4, "n"); W w[3] = {W(1, (wchar_t)vs_i32("a")), W(2, (wchar_t)vs_i32("b")), W()}; std::vector<W> v(w, w + n);
      switch (vs_choose(8, "type")) { case 0: same(v, "vector"); break; case 1: same(std::deque<W>(v.begin(), v.end()), "deque"); break; case 2: same(std::list<W>(v.begin(), v.end()), "list"); break; case 3: same(std::forward_list<W>(v.begin(), v.end()), "forward list"); break; case 4: same(std::array<W, 3>{{w[0], w[1], w[2]}}, "array"); break; case 5: { std::optional<W> o; if (n) o = w[0]; same(o, "optional"); break; } case 6: { std::variant<W, std::vector<W>> o; if (n) o = v; else o = w[0]; same(o, "variant"); std::variant<int32_t, std::string, bool> q; switch (vs_choose(3, "alternative")) { case 0: q = vs_i32("q"); break; case 1: q = std::string(1, (char)vs_u8("c")); break; default: q = vs_bool("f"); } same(q, "variant"); break; }
        default: { std::shared_ptr<W> q; if (n) q = std::make_shared<W>(w[0]); mp::sbuffer b = enc(q); mp::object_handle oh = mp::unpack(b.data(), b.size()); auto o = oh.get().as<std::shared_ptr<W>>(); vs_assert(!o == !q && (!q || *o == *q), "shared_ptr"); auto u = oh.get().as<std::unique_ptr<W>>(); vs_assert(!u == !q && (!q || *u == *q), "unique_ptr"); break; } } break; }
    case 71: { typedef std::wstring W; unsigned n = vs_choose(3, "n"), d = vs_choose(2, "double"); W w[2] = {W(1, (wchar_t)vs_range("a", 0, 255)), W(2, L'b')}; std::vector<W> v(w, w + n); if (d && n) v.push_back(w[0]);
      switch (vs_choose(4, "type")) { case 0: same(std::set<W>(v.begin(), v.end()), "set"); break; case 1: same(std::multiset<W>(v.begin(), v.end()), "multiset"); break; case 2: { std::map<W, int32_t> m; for (auto& x : v) m[x] = vs_i32("m"); same(m, "map"); std::map<int32_t, W> k; for (auto& x : v) k[(int32_t)k.size() * 1000] = x; same(k, "map"); break; } default: { std::multimap<W, int32_t> m; int32_t c = 3; for (auto& x : v) m.emplace(x, c++); same(m, "multimap"); std::multimap<int32_t, W> k; for (auto& x : v) k.emplace(5, x); auto o = any(k); vs_assert(o.size() == k.size(), "multimap"); for (auto& x : k) { unsigned c0 = 0, c1 = 0; for (auto& y : k) c0 += y.second == x.second; for (auto& y : o) c1 += y.first == 5 && y.second == x.second; vs_assert(c0 == c1, "multimap"); } break; } } break; }
    case 72: { typedef std::wstring W; unsigned n = vs_choose(3, "n"), d = vs_choose(2, "double"); W w[2] = {L"a", L"bc"}; std::vector<W> v(w, w + n); if (d && n) v.push_back(w[0]);
      switch (vs_choose(4, "type")) { case 0: same(std::unordered_set<W>(v.begin(), v.end()), "unordered set"); break; case 1: same(std::unordered_multiset<W>(v.begin(), v.end()), "unordered multiset"); break; case 2: { std::unordered_map<W, int32_t> m; for (auto& x : v) m[x] = vs_i32("m"); same(m, "unordered map"); std::unordered_map<int32_t, W> k; for (auto& x : v) k[(int32_t)k.size() * 1000] = x; same(k, "unordered map"); break; } default: { std::unordered_multimap<W, int32_t> m; int32_t c = 3; for (auto& x : v) m.emplace(x, c++); same(m, "unordered multimap"); break; } } break; }
    case 67: { // received objects compare equal exactly when what was sent is equal
      auto make = [](mp::sbuffer& b, int32_t x, uint8_t c, bool f, unsigned form, int32_t k) { mp::packer<mp::sbuffer> p(b); switch (form) { case 0: p.pack_array(2); p.pack(x); p.pack(f); break; case 1: p.pack_map(1); p.pack(k); p.pack(x); break; case 2: p.pack(std::string(2, (char)c)); break; case 3: { char d[2] = {'q', (char)c}; p.pack_bin(2); p.pack_bin_body(d, 2); break; } case 4: { char d[2] = {'q', (char)c}; p.pack_ext(2, (int8_t)k); p.pack_ext_body(d, 2); break; } case 5: p.pack_array(2); p.pack_array(1); p.pack(x); p.pack(std::string(1, (char)c)); break; case 6: p.pack(x); break; case 7: p.pack_nil(); break; default: p.pack(f); break; } };
      unsigned fa = vs_choose(9, "form"), fb = vs_choose(3, "other") == 0 ? vs_choose(9, "form2") : fa; int32_t x = vs_i32("x"), y = vs_i32("y"), k = vs_i32("k") & 127, l = vs_i32("l") & 127; uint8_t c = vs_u8("c"), d = vs_u8("d"); bool f = vs_bool("f"), g = vs_bool("g"); mp::sbuffer A, B; make(A, x, c, f, fa, k); make(B, y, d, g, fb, l); mp::object_handle a = mp::unpack(A.data(), A.size()), b = mp::unpack(B.data(), B.size());
      bool want = fa == fb; if (want) switch (fa) { case 0: want = x == y && f == g; break; case 1: want = x == y && k == l; break; case 2: case 3: want = c == d; break; case 4: want = c == d && k == l; break; case 5: want = x == y && c == d; break; case 6: want = x == y; break; case 7: break; default: want = f == g; } 
      vs_assert((a.get() == b.get()) == want, want ? "equal objects compare different" : "different objects compare equal"); vs_assert((a.get() != b.get()) == !want, "!= disagrees with =="); mp::object_handle e = mp::clone(a.get()); vs_assert(e.get() == a.get(), "a copy compares different"); if (fa == 6) vs_assert(a.get() == x && (a.get() == y) == (x == y), "an object compares wrongly with a value"); break; }
    case 68: { // views of arrays, and buffers that are moved or released
      std::vector<int32_t> v{vs_i32("a"), 3}; auto r = mp::type::make_array_ref(v); mp::sbuffer b; mp::pack(b, r); mp::object_handle oh = mp::unpack(b.data(), b.size()); vs_assert(oh.get().as<std::vector<int32_t>>() == v, "array reference"); std::vector<int32_t> o{9, 9, 9}; mp::type::array_ref<std::vector<int32_t>> t(o); oh.get().convert(t); vs_assert(o == v, "array reference"); int32_t c[3] = {7, 7, 7}; mp::type::array_ref<int32_t[3]> ct(c); oh.get().convert(ct); vs_assert(c[0] == v[0] && c[1] == 3 && c[2] == 7, "array reference"); int32_t small[1]; mp::type::array_ref<int32_t[1]> st(small); bool threw = false; try { oh.get().convert(st); } catch (mp::type_error&) { threw = true; } vs_assert(threw, "more elements than the array holds");
      mp::zone z; mp::object ob(r, z); vs_assert(ob.as<std::vector<int32_t>>() == v, "array reference"); mp::sbuffer m(std::move(b)); vs_assert(b.size() == 0 && m.size() > 0, "moved buffer"); mp::object_handle o2 = mp::unpack(m.data(), m.size()); vs_assert(o2.get().as<std::vector<int32_t>>() == v, "moved buffer"); mp::pack(b, 5); vs_assert(b.size() == 1 && b.data()[0] == 5, "a buffer that was moved from takes new data"); size_t n = m.size(); char* raw = m.release(); mp::object_handle o3 = mp::unpack(raw, n); vs_assert(o3.get().as<std::vector<int32_t>>() == v, "released buffer"); free(raw); vs_assert(m.size() == 0, "released buffer"); mp::pack(m, 6); vs_assert(m.size() == 1 && m.data()[0] == 6, "released buffer"); m.clear(); vs_assert(m.size() == 0, "cleared buffer"); mp::pack(m, -1); vs_assert(m.size() == 1 && m.data()[0] == (char)0xff, "cleared buffer"); break; }
    case 69: { // buffers that grow from any initial size
      static const int I[] = {0, 1, 2, 3, 8, 8192}; mp::sbuffer b((size_t)I[vs_choose(6, "initial")]); static const int L[] = {0, 1, 2, 7, 8, 9, 31, 8191, 8192, 8193, 20000}; int n = L[vs_choose(11, "length")]; int32_t a = vs_i32("a"); std::string t((size_t)n, 'g'); if (n) t[n - 1] = (char)vs_u8("ch"); mp::pack(b, a); mp::pack(b, t); mp::pack(b, a); size_t off = 0; mp::object_handle x = mp::unpack(b.data(), b.size(), off), y = mp::unpack(b.data(), b.size(), off), z = mp::unpack(b.data(), b.size(), off); vs_assert(off == b.size() && x.get().as<int32_t>() == a && z.get().as<int32_t>() == a && y.get().as<std::string>() == t, "a value changed in a growing buffer"); break; }
  }
  vs_reach("done");
}
#include "codec_convert.h"
extern "C" void vs_main() { int c = (int)vs_param("case", 0); if (c < 100) roundTrip(c); else convertCases(c); }
