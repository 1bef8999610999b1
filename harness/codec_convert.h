// ---- C13
namespace {
struct Src { int kind; int8_t ty = 0; uint64_t u; int64_t s; double d; float f; bool b; std::string t; std::vector<int64_t> a; };
enum { S_POS, S_NEG, S_F64, S_F32, S_BOOL, S_NIL, S_STR, S_BIN, S_ARR, S_MAP, S_EXT, S_FAILED, S_N };
mp::sbuffer* held;
void build(CallResult& r, Src& s) {
  mp::sbuffer b; mp::packer<mp::sbuffer> p(b);
  switch (s.kind) {
    case S_POS: s.u = vs_u64("u"); p.pack(s.u); break;
    case S_NEG: s.s = vs_i64("s"); vs_assume(s.s < 0); p.pack(s.s); break;
    case S_F64: { uint64_t x = vs_u64("d"); memcpy(&s.d, &x, 8); vs_assume(s.d == s.d); uint8_t raw[9] = {0xcb}; for (int i = 0; i < 8; i++) raw[1 + i] = (uint8_t)(x >> (56 - 8 * i)); b.write((const char*)raw, 9); break; }
    case S_F32: { uint32_t x = vs_u32("f"); memcpy(&s.f, &x, 4); vs_assume(s.f == s.f); uint8_t raw[5] = {0xca}; for (int i = 0; i < 4; i++) raw[1 + i] = (uint8_t)(x >> (24 - 8 * i)); b.write((const char*)raw, 5); break; }
    case S_BOOL: s.b = vs_bool("b"); p.pack(s.b); break;
    case S_NIL: p.pack_nil(); break;
    case S_STR: s.t = symStr(2); p.pack(s.t); break;
    case S_BIN: s.t = symStr(2); p.pack_bin((uint32_t)s.t.size()); p.pack_bin_body(s.t.data(), (uint32_t)s.t.size()); break;
    case S_ARR: { unsigned n = vs_choose(4, "n"); p.pack_array(n); for (unsigned i = 0; i < n; i++) { s.a.push_back(i == 0 ? vs_i64("e") : (int64_t)i); p.pack(s.a.back()); } break; }
    case S_MAP: { p.pack_map(1); p.pack("k"); s.s = vs_i64("mv"); p.pack(s.s); break; }
    case S_EXT: { s.ty = (int8_t)vs_u8("ty"); p.pack_ext(2, s.ty); p.pack_ext_body("ab", 2); break; }
    case S_FAILED: return; }
  r.errCode = ErrorCode::SUCCESS; r.obj = mp::unpack(b.data(), b.size()); }
// what each target may obtain: 0 failure, 1 success with the value stored in v
template <typename T> bool intIn(const Src& s, T& v) { typedef std::numeric_limits<T> L; if (s.kind == S_POS) { if (s.u > (uint64_t)L::max()) return false; v = (T)s.u; return true; } if (s.kind == S_NEG) { if (!L::is_signed || s.s < (int64_t)L::min()) return false; v = (T)s.s; return true; } return false; }
template <typename T> void toInt(CallResult& r, const Src& s) { T init = (T)vs_in("init", sizeof(T) * 8), v = init, w = init; bool should = intIn<T>(s, w); bool ok = r.convertObject(v); vs_assert(ok == should, should ? "a result that fits was not converted" : "an integer was invented"); vs_assert(v == w, should ? "the converted value differs from the one received" : "a failed conversion changed its destination"); vs_reach(ok ? "converted" : "refused"); }
template <typename T> void other(CallResult& r, const Src& s, T init, bool should, const T& want) { T v = init; bool ok = r.convertObject(v); vs_assert(ok == should, should ? "a result that fits was not converted" : "a value was invented"); vs_assert(v == (should ? want : init), should ? "the converted value differs from the one received" : "a failed conversion changed its destination"); vs_reach(ok ? "converted" : "refused"); }
template <typename T, typename G0, typename G1> void tupleFrom(CallResult& r, const Src& s, T init, G0 g0, G1 g1) { T v = init; bool ok = r.convertObject(v); if (!ok) { vs_assert(g0(v) == g0(init) && g1(v) == g1(init), "a failed conversion changed the target"); vs_assert(!(s.kind == S_ARR && s.a.size() == 2 && s.a[0] >= 0 && s.a[0] <= 255), "a result that fits was not converted"); return; } vs_assert(s.kind == S_ARR, "a value was invented"); if (s.a.size() > 0) vs_assert(g0(v) == s.a[0], "a value was invented"); if (s.a.size() > 1) vs_assert(g1(v) == s.a[1], "a value was invented"); }
void convertTo(int target, int srcKind) {
  Src s; s.kind = srcKind; CallResult r; build(r, s);
  switch (target) {
    case 0: toInt<int8_t>(r, s); break; case 1: toInt<uint8_t>(r, s); break; case 2: toInt<int16_t>(r, s); break; case 3: toInt<uint16_t>(r, s); break;
    case 4: toInt<int32_t>(r, s); break; case 5: toInt<uint32_t>(r, s); break; case 6: toInt<int64_t>(r, s); break; case 7: toInt<uint64_t>(r, s); break;
    case 8: toInt<char>(r, s); break; case 9: toInt<long long>(r, s); break; case 10: toInt<unsigned long long>(r, s); break;
    case 11: { bool init = vs_choose(2, "init"); other<bool>(r, s, init, s.kind == S_BOOL, s.b); break; }
    case 12: { bool num = s.kind <= S_F32; double w = s.kind == S_POS ? (double)s.u : s.kind == S_NEG ? (double)s.s : s.kind == S_F64 ? s.d : s.kind == S_F32 ? (double)s.f : 0; other<double>(r, s, 4.25, num, w); break; }
    case 13: { bool num = s.kind <= S_F32; float w = s.kind == S_POS ? (float)s.u : s.kind == S_NEG ? (float)s.s : s.kind == S_F64 ? (float)s.d : s.kind == S_F32 ? s.f : 0; other<float>(r, s, 4.25f, num, w); break; }
    case 14: other<std::string>(r, s, "init", s.kind == S_STR || s.kind == S_BIN, s.t); break;
    case 15: other<std::vector<char>>(r, s, {'i'}, s.kind == S_STR || s.kind == S_BIN, std::vector<char>(s.t.begin(), s.t.end())); break;
    case 16: { bool ok = s.kind == S_ARR; std::vector<int32_t> w; for (auto x : s.a) { if (x != (int32_t)x) ok = false; w.push_back((int32_t)x); } other<std::vector<int32_t>>(r, s, {9, 8}, ok, w); break; }
    case 17: { bool ok = s.kind == S_MAP && s.s == (int16_t)s.s; std::map<std::string, int16_t> w{{"k", (int16_t)s.s}}, i{{"i", 1}, {"j", 2}}; other<std::map<std::string, int16_t>>(r, s, i, ok, w); break; }
    case 18: tupleFrom<std::tuple<uint8_t, int32_t>>(r, s, std::make_tuple((uint8_t)3, 4), [](auto& t) { return (int64_t)std::get<0>(t); }, [](auto& t) { return (int64_t)std::get<1>(t); }); break;
    case 19: { Pt i{1, 2, "i"}; if (s.kind != S_ARR) { other<Pt>(r, s, i, false, i); break; } bool g = r.convertObject(i); if (!g) { vs_assert(i == (Pt{1, 2, "i"}), "a failed conversion changed the target"); break; } vs_assert(s.a.size() < 3, "a value was invented"); if (s.a.size() > 0) vs_assert(i.x == s.a[0], "a value was invented"); if (s.a.size() > 1) vs_assert(i.y == 1, "a value was invented"); break; }
    case 20: { bool nil = s.kind == S_NIL || s.kind == S_FAILED, in = (s.kind == S_POS && s.u <= 127) || (s.kind == S_NEG && s.s >= -128); std::optional<int8_t> w; if (in) w = (int8_t)(s.kind == S_POS ? (int64_t)s.u : s.s); other<std::optional<int8_t>>(r, s, std::optional<int8_t>(5), nil || in, w); break; }
    case 21: { std::vector<std::string> i{"i"}, e; other<std::vector<std::string>>(r, s, i, s.kind == S_ARR && s.a.empty(), e); break; }
    case 22: { std::pair<int16_t, uint64_t> i{1, 2}; bool ok = s.kind == S_ARR && s.a.size() == 2 && s.a[0] == (int16_t)s.a[0]; other<std::pair<int16_t, uint64_t>>(r, s, i, ok, ok ? std::pair<int16_t, uint64_t>((int16_t)s.a[0], (uint64_t)s.a[1]) : i); break; }
    case 23: { bool ok = (s.kind == S_POS && s.u <= 0x7fffffff) || (s.kind == S_NEG && s.s >= -0x80000000ll); Color c = Color::blue; bool g = r.convertObject(c); vs_assert(g == ok, "enum"); vs_assert((int64_t)(int32_t)c == (ok ? (s.kind == S_POS ? (int64_t)s.u : s.s) : 1000), "enum value"); break; }
    case 24: { std::set<uint8_t> i{1}, w; bool ok = s.kind == S_ARR; for (auto x : s.a) { if (x < 0 || x > 255) ok = false; w.insert((uint8_t)x); } other<std::set<uint8_t>>(r, s, i, ok, w); break; }
    case 25: { std::array<int32_t, 3> i{{1, 2, 3}}; bool ok = s.kind == S_ARR && s.a.size() == 3 && s.a[0] == (int32_t)s.a[0]; std::array<int32_t, 3> w{{ok ? (int32_t)s.a[0] : 0, 1, 2}}; other<std::array<int32_t, 3>>(r, s, i, ok, w); break; }
    case 26: { std::list<int64_t> i{1}; other<std::list<int64_t>>(r, s, i, s.kind == S_ARR, std::list<int64_t>(s.a.begin(), s.a.end())); break; }
    case 27: { std::vector<bool> i{true, false}; other<std::vector<bool>>(r, s, i, s.kind == S_ARR && s.a.empty(), std::vector<bool>()); break; }
    case 28: { bool txt = s.kind == S_STR || s.kind == S_BIN, ok = txt && s.t.size() == 2; switch (vs_choose(3, "of")) { case 0: { std::array<char, 2> i{{'i', 'j'}}, w = i; if (ok) w = {{s.t[0], s.t[1]}}; other<std::array<char, 2>>(r, s, i, ok, w); break; } case 1: { std::array<unsigned char, 2> i{{'i', 'j'}}, w = i; if (ok) w = {{(unsigned char)s.t[0], (unsigned char)s.t[1]}}; other<std::array<unsigned char, 2>>(r, s, i, ok, w); break; } default: { std::array<std::byte, 2> i{{std::byte{1}, std::byte{2}}}, w = i; if (ok) w = {{(std::byte)s.t[0], (std::byte)s.t[1]}}; other<std::array<std::byte, 2>>(r, s, i, ok, w); } } break; }
    case 29: { bool txt = s.kind == S_STR || s.kind == S_BIN; if (vs_choose(2, "of")) { std::vector<unsigned char> i{1}; other<std::vector<unsigned char>>(r, s, i, txt, std::vector<unsigned char>(s.t.begin(), s.t.end())); } else { std::vector<std::byte> i{std::byte{1}}, w; for (char c : s.t) w.push_back((std::byte)c); other<std::vector<std::byte>>(r, s, i, txt, w); } break; }
    case 30: { bool ok = s.kind == S_ARR; std::wstring w; for (auto x : s.a) { if (x != (int32_t)x) ok = false; w.push_back((wchar_t)x); } other<std::wstring>(r, s, L"i", ok, w); break; }
    case 31: { bool ok = s.kind == S_ARR && s.a.size() == 2; std::complex<double> i(4, 5), w = ok ? std::complex<double>((double)s.a[0], (double)s.a[1]) : i; other<std::complex<double>>(r, s, i, ok, w); break; }
    case 32: { bool txt = s.kind == S_STR || s.kind == S_BIN; other<std::string_view>(r, s, "i", txt, s.t); break; }
    case 33: { bool ok = s.kind == S_ARR; for (auto x : s.a) if (x != (int16_t)x) ok = false; if (vs_choose(2, "of")) { std::deque<int16_t> w; for (auto x : s.a) w.push_back((int16_t)x); other<std::deque<int16_t>>(r, s, {7}, ok, w); } else { std::forward_list<int64_t> i{1}, w(s.a.begin(), s.a.end()); other<std::forward_list<int64_t>>(r, s, i, s.kind == S_ARR, w); } break; }
    case 34: { if (vs_choose(2, "of")) { std::multiset<int64_t> i{1}; other<std::multiset<int64_t>>(r, s, i, s.kind == S_ARR, std::multiset<int64_t>(s.a.begin(), s.a.end())); } else { bool ok = s.kind == S_ARR && s.a.empty(); std::unordered_set<int64_t> i{1}, w; if (s.kind == S_ARR && !ok) break; other<std::unordered_set<int64_t>>(r, s, i, ok, w); } break; }
    case 35: { bool ok = s.kind == S_MAP; if (vs_choose(2, "of")) { std::multimap<std::string, int64_t> i{{"i", 1}}; other<std::multimap<std::string, int64_t>>(r, s, i, ok, {{"k", s.s}}); } else { std::unordered_map<std::string, int64_t> i{{"i", 1}}; other<std::unordered_map<std::string, int64_t>>(r, s, i, ok, {{"k", s.s}}); } break; }
    case 36: { std::map<int32_t, int64_t> i{{1, 1}}; other<std::map<int32_t, int64_t>>(r, s, i, false, i); std::vector<std::pair<std::string, int64_t>> v{{"i", 1}}; other<std::vector<std::pair<std::string, int64_t>>>(r, s, v, s.kind == S_ARR && s.a.empty(), {}); break; }
    case 37: { bool nil = s.kind == S_NIL || s.kind == S_FAILED; int64_t w; bool in = intIn<int64_t>(s, w); std::shared_ptr<int64_t> p = std::make_shared<int64_t>(9), p0 = p; bool g = r.convertObject(p); vs_assert(g == (nil || in), g ? "a value was invented" : "a result that fits was not converted"); if (!g) vs_assert(p == p0, "a failed conversion changed the target"); else vs_assert(nil ? !p : p && *p == w, "a result changed its value"); std::unique_ptr<int64_t> u(new int64_t(9)); g = r.convertObject(u); vs_assert(g == (nil || in), g ? "a value was invented" : "a result that fits was not converted"); if (!g) vs_assert(u && *u == 9, "a failed conversion changed the target"); else vs_assert(nil ? !u : u && *u == w, "a result changed its value"); break; }
    case 38: { mp::type::ext e; bool g = r.convertObject(e); vs_assert(g == (s.kind == S_EXT), g ? "a value was invented" : "a result that fits was not converted"); if (g) vs_assert(e.size() == 2 && e.data()[0] == 'a' && e.data()[1] == 'b' && e.type() == s.ty, "a result changed its value"); mp::type::ext_ref f; g = r.convertObject(f); vs_assert(g == (s.kind == S_EXT), g ? "a value was invented" : "a result that fits was not converted"); if (g) vs_assert(f.size() == 2 && f.data()[0] == 'a' && f.data()[1] == 'b' && f.type() == s.ty, "a result changed its value"); break; }
    case 39: { mp::type::raw_ref b; bool g = r.convertObject(b); vs_assert(g == (s.kind == S_BIN), g ? "a value was invented" : "a result that fits was not converted"); if (g) vs_assert(b.str() == s.t, "a result changed its value"); mp::type::v4raw_ref c; g = r.convertObject(c); vs_assert(g == (s.kind == S_STR), g ? "a value was invented" : "a result that fits was not converted"); if (g) vs_assert(c.str() == s.t, "a result changed its value"); break; }
    case 40: { timespec t{5, 6}; bool g = r.convertObject(t); vs_assert(!g && t.tv_sec == 5 && t.tv_nsec == 6, "a value was invented"); std::chrono::system_clock::time_point p{}, q = p; vs_assert(!r.convertObject(p) && p == q, "a value was invented"); break; }
    case 41: tupleFrom<mp::type::tuple<uint8_t, int32_t>>(r, s, mp::type::make_tuple((uint8_t)3, (int32_t)4), [](auto& t) { return (int64_t)t.template get<0>(); }, [](auto& t) { return (int64_t)t.template get<1>(); }); break;
    case 42: { std::tuple<> t; vs_assert(r.convertObject(t) == (s.kind == S_ARR) || s.kind == S_ARR, "a value was invented"); mp::type::nil_t n; vs_assert(r.convertObject(n) == (s.kind == S_NIL || s.kind == S_FAILED), "nil"); mp::object o; vs_assert(r.convertObject(o), "the object itself"); break; }
  }
  // converting again gives the same, and a moved result keeps its object
  CallResult m(std::move(r)); int64_t v = -5, w = -5; bool should = intIn<int64_t>(s, w); vs_assert(m.convertObject(v) == should && v == w, "a second conversion differs"); vs_reach("done");
}
// fixed-size and nested targets for arrays of any length: [[e, 1, ...]] of 0 to 3 elements
template <typename T> bool into(CallResult& r, T& v) { return r.convertObject(v); }
void convertNested(int target) {
  unsigned n = vs_choose(4, "n"); int64_t e = vs_i64("e"); mp::sbuffer b; mp::packer<mp::sbuffer> p(b); bool map = target == 6; if (map) { p.pack_map(1); p.pack("k"); } else p.pack_array(1); p.pack_array(n); for (unsigned i = 0; i < n; i++) p.pack(i ? (int64_t)i : e); CallResult r; r.errCode = ErrorCode::SUCCESS; r.obj = mp::unpack(b.data(), b.size()); bool in = n == 0 || e == (int32_t)e;
  auto tuples = [&](bool g, int64_t a, int64_t c, size_t have) { if (!g) { vs_assert(n != 2 || !in, "a result that fits was not converted"); return; } vs_assert(have == 1, "a value was invented"); if (n > 0) vs_assert(a == e, "a value was invented"); if (n > 1) vs_assert(c == 1, "a value was invented"); };
  auto exact = [&](bool g, unsigned want, int64_t a, int64_t c) { vs_assert(g == (n == want && in), g ? "a value was invented" : "a result that fits was not converted"); if (g && n > 0) vs_assert(a == e, "a value was invented"); if (g && n > 1) vs_assert(c == 1, "a value was invented"); };
  switch (target) {
    case 0: { std::vector<std::tuple<int32_t, int32_t>> v; bool g = into(r, v); tuples(g, v.size() ? std::get<0>(v[0]) : 0, v.size() ? std::get<1>(v[0]) : 0, v.size()); break; }
    case 1: { std::vector<std::array<int32_t, 2>> v; bool g = into(r, v); exact(g, 2, v.size() ? v[0][0] : 0, v.size() ? v[0][1] : 0); break; }
    case 2: { std::vector<std::pair<int32_t, int32_t>> v; bool g = into(r, v); exact(g, 2, v.size() ? v[0].first : 0, v.size() ? v[0].second : 0); break; }
    case 3: { std::tuple<std::array<int32_t, 2>> v; bool g = into(r, v); exact(g, 2, std::get<0>(v)[0], std::get<0>(v)[1]); break; }
    case 4: { std::array<std::tuple<int32_t, int32_t>, 1> v{}; bool g = into(r, v); tuples(g, std::get<0>(v[0]), std::get<1>(v[0]), 1); break; }
    case 5: { std::tuple<std::vector<int32_t>> v; bool g = into(r, v); vs_assert(g == in, g ? "a value was invented" : "a result that fits was not converted"); if (g) { vs_assert(std::get<0>(v).size() == n, "length"); if (n) vs_assert(std::get<0>(v)[0] == e, "a value was invented"); } break; }
    case 6: { std::map<std::string, std::array<int32_t, 3>> v; bool g = into(r, v); exact(g, 3, v.size() ? v.begin()->second[0] : 0, v.size() ? v.begin()->second[1] : 0); break; }
    case 7: { std::list<std::array<int32_t, 1>> v; bool g = into(r, v); exact(g, 1, v.size() ? v.front()[0] : 0, 0); break; }
    case 8: { struct { std::vector<std::optional<std::tuple<int32_t, int32_t>>> v; } x; bool g = into(r, x.v); tuples(g, x.v.size() && x.v[0] ? std::get<0>(*x.v[0]) : 0, x.v.size() && x.v[0] ? std::get<1>(*x.v[0]) : 0, x.v.size()); break; }
    case 9: { std::deque<std::complex<double>> v; bool g = into(r, v); vs_assert(g == (n == 2), g ? "a value was invented" : "a result that fits was not converted"); if (g) vs_assert(v[0].real() == (double)e && v[0].imag() == 1, "a value was invented"); break; }
    case 10: { std::tuple<std::tuple<int32_t, int32_t>> v; bool g = into(r, v); tuples(g, std::get<0>(std::get<0>(v)), std::get<1>(std::get<0>(v)), 1); break; }
    case 11: { std::vector<Pt> v; bool g = into(r, v); if (g) { vs_assert(v.size() == 1 && n < 3, "a value was invented"); if (n > 0) vs_assert(v[0].x == e, "a value was invented"); if (n > 1) vs_assert(v[0].y == 1, "a value was invented"); } break; }
  }
  vs_reach("done");
}
// targets whose elements are containers themselves, for arrays of any length: [[e0], [e1], [2]]
void convertOuter(int target) {
  unsigned n = vs_choose(4, "n"); int32_t e[3] = {vs_i32("e"), vs_i32("f"), 2}; mp::sbuffer b; mp::packer<mp::sbuffer> p(b); p.pack_array(n); for (unsigned i = 0; i < n; i++) { p.pack_array(1); p.pack(e[i]); } CallResult r; r.errCode = ErrorCode::SUCCESS; r.obj = mp::unpack(b.data(), b.size()); typedef std::wstring W;
  auto like = [&](const W& w, unsigned i) { vs_assert(w.size() == 1 && w[0] == (wchar_t)e[i], "a value was invented"); };
  auto partial = [&](bool g, const W& x, const W& y) { if (!g) { vs_assert(n != 2, "a result that fits was not converted"); return; } if (n > 0) like(x, 0); else vs_assert(x.empty(), "a value was invented"); if (n > 1) like(y, 1); else vs_assert(y.empty(), "a value was invented"); };
  auto exact = [&](bool g, unsigned want, const W& x, const W& y) { vs_assert(g == (n == want), g ? "a value was invented" : "a result that fits was not converted"); if (g) { like(x, 0); if (n > 1) like(y, 1); } };
  switch (target) {
    case 0: { std::tuple<W, W> t; partial(r.convertObject(t), std::get<0>(t), std::get<1>(t)); break; }
    case 1: { mp::type::tuple<W, W> t; partial(r.convertObject(t), t.get<0>(), t.get<1>()); break; }
    case 2: { std::array<W, 2> t; exact(r.convertObject(t), 2, t[0], t[1]); break; }
    case 3: { std::array<W, 3> t; exact(r.convertObject(t), 3, t[0], t[1]); break; }
    case 4: { std::pair<W, W> t; exact(r.convertObject(t), 2, t.first, t.second); break; }
    case 5: { std::tuple<W> t; bool g = r.convertObject(t); if (n == 1) vs_assert(g, "a result that fits was not converted"); if (g) { if (n > 0) like(std::get<0>(t), 0); else vs_assert(std::get<0>(t).empty(), "a value was invented"); } break; }
    case 6: { std::array<W, 1> t; exact(r.convertObject(t), 1, t[0], W()); break; }
    case 7: { mp::type::tuple<std::vector<int32_t>> t; bool g = r.convertObject(t); if (n == 1) vs_assert(g, "a result that fits was not converted"); if (g && n) vs_assert(t.get<0>().size() == 1 && t.get<0>()[0] == e[0], "a value was invented"); break; }
    case 8: { std::tuple<W, std::vector<int32_t>> t; bool g = r.convertObject(t); if (n == 2) vs_assert(g, "a result that fits was not converted"); if (g) { if (n > 0) like(std::get<0>(t), 0); if (n > 1) vs_assert(std::get<1>(t).size() == 1 && std::get<1>(t)[0] == e[1], "a value was invented"); } break; }
    case 9: { std::vector<W> t; bool g = r.convertObject(t); vs_assert(g && t.size() == n, "a result that fits was not converted"); for (unsigned i = 0; i < n; i++) like(t[i], i); std::list<W> l; vs_assert(r.convertObject(l) && l.size() == n, "a result that fits was not converted"); std::optional<std::vector<W>> o; vs_assert(r.convertObject(o) && o && *o == t, "a result that fits was not converted"); std::shared_ptr<std::vector<W>> q; vs_assert(r.convertObject(q) && q && *q == t, "a result that fits was not converted"); break; }
    case 10: { std::vector<std::tuple<W>> t; vs_assert(!r.convertObject(t) || n == 0, "a value was invented"); std::vector<std::array<W, 1>> u; vs_assert(!r.convertObject(u) || n == 0, "a value was invented"); break; }
    case 11: { mp::type::tuple<int32_t> t; vs_assert(!r.convertObject(t) || n == 0, "a value was invented"); mp::type::tuple<> z; r.convertObject(z); std::array<int32_t, 0> y; vs_assert(r.convertObject(y) == (n == 0), "a value was invented"); break; }
  }
  vs_reach("done");
}
// containers whose elements are obtained by value, from every kind of object
template <typename T, typename F> void elems(CallResult& r, bool arr, size_t n, bool fits, F at) { T t; bool g = r.convertObject(t); vs_assert(g == (arr && fits), g ? "a value was invented" : "a result that fits was not converted"); if (g) { size_t c = 0; for (auto& x : t) { at(x, c); c++; } vs_assert(c == n, "another number of elements"); } }
void convertByValue(int target) {
  typedef std::wstring W; CallResult r; Src s; s.kind = (int)vs_choose(S_N + 2, "source"); unsigned n = 0; int32_t e[3] = {vs_i32("e"), vs_i32("f"), 2}; bool arr = false, map = false, good = true;
  if (s.kind < S_N) { build(r, s); arr = s.kind == S_ARR; map = s.kind == S_MAP; good = arr ? s.a.empty() : false; n = (unsigned)s.a.size(); }
  else { n = vs_choose(4, "n"); unsigned odd = vs_choose(n + 1, "odd"); mp::sbuffer b; mp::packer<mp::sbuffer> p(b); arr = s.kind == S_N; map = !arr; if (arr) p.pack_array(n); else p.pack_map(n); for (unsigned i = 0; i < n; i++) { if (map) { p.pack_array(1); p.pack((int32_t)i); } if (i == odd) { p.pack(true); good = false; } else { p.pack_array(1); p.pack(e[i]); } } r.errCode = ErrorCode::SUCCESS; r.obj = mp::unpack(b.data(), b.size()); }
  auto at = [&](const W& w, size_t i) { vs_assert(w.size() == 1 && w[0] == (wchar_t)e[i], "a value was invented"); }; auto member = [&](const W& w, size_t) { bool f = false; for (unsigned i = 0; i < n; i++) f |= w.size() == 1 && w[0] == (wchar_t)e[i]; vs_assert(f, "a value was invented"); };
  bool distinct = true; for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < i; k++) distinct &= e[i] != e[k]; if (target >= 4 && target < 8) { vs_assume(e[0] >= 0 && e[0] < 3 && e[1] == 1); distinct = true; for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < i; k++) distinct &= e[i] != e[k]; }
  auto pairAt = [&](const std::pair<const W, W>& q, size_t) { vs_assert(q.first.size() == 1 && (unsigned)q.first[0] < n && q.second.size() == 1 && q.second[0] == (wchar_t)e[(unsigned)q.first[0]], "a value was invented"); };
  switch (target) {
    case 0: elems<std::vector<W>>(r, arr, n, good, at); break;
    case 1: elems<std::deque<W>>(r, arr, n, good, at); break;
    case 2: elems<std::list<W>>(r, arr, n, good, at); break;
    case 3: elems<std::forward_list<W>>(r, arr, n, good, at); break;
    case 4: if (distinct) elems<std::set<W>>(r, arr, n, good, member); break;
    case 5: elems<std::multiset<W>>(r, arr, n, good, member); break;
    case 6: if (distinct) elems<std::unordered_set<W>>(r, arr, n, good, member); break;
    case 7: elems<std::unordered_multiset<W>>(r, arr, n, good, member); break;
    case 8: elems<std::map<W, W>>(r, map, n, good, pairAt); break;
    case 9: elems<std::multimap<W, W>>(r, map, n, good, pairAt); break;
    case 10: elems<std::unordered_map<W, W>>(r, map, n, good, pairAt); break;
    case 11: elems<std::unordered_multimap<W, W>>(r, map, n, good, pairAt); break;
    case 13: { std::variant<W, std::vector<W>> t, z; vs_assert(!r.convertObject(t), "a value was invented"); break; }
    case 12: elems<mp::type::assoc_vector<W, W>>(r, map, n, good, [&](const std::pair<W, W>& q, size_t i) { pairAt(std::pair<const W, W>(q), i); }); break;
  }
  vs_reach("done");
}
// alternatives: an array of the number of the alternative and its value, nothing else
void convertVariant() {
  CallResult r; Src s; s.kind = (int)vs_choose(S_N + 1, "source"); if (s.kind == S_FAILED) return; int64_t idx = 0; unsigned n = 0, what = 0; int64_t x = 0; uint8_t c = 0;
  if (s.kind < S_N) build(r, s); else { n = vs_choose(4, "n"); mp::sbuffer b; mp::packer<mp::sbuffer> p(b); p.pack_array(n); what = vs_choose(4, "what"); idx = vs_i64("index"); x = vs_i64("x"); c = vs_u8("c"); for (unsigned i = 0; i < n; i++) if (i == 0) p.pack(idx); else switch (what) { case 0: p.pack(x); break; case 1: p.pack(std::string(1, (char)c)); break; case 2: p.pack_nil(); break; default: p.pack(true); } r.obj = mp::unpack(b.data(), b.size()); }
  r.errCode = ErrorCode::SUCCESS; typedef std::variant<int32_t, std::string, bool> V; V t, z = std::string("before"); t = z; bool g = r.convertObject(t); if (s.kind == S_ARR) { vs_assert(g == (s.a.size() == 2 && s.a[0] == 0), g ? "a value was invented" : "a result that fits was not converted"); if (g) vs_assert(t.index() == 0 && std::get<0>(t) == 1, "a value was invented"); vs_reach("done"); return; }
  bool want = s.kind == S_N && n == 2 && ((idx == 0 && what == 0 && x == (int32_t)x) || (idx == 1 && what == 1) || (idx == 2 && what == 3)); vs_assert(g == want, g ? "a value was invented" : "a result that fits was not converted");
  if (g) { vs_assert((int64_t)t.index() == idx, "a value was invented"); if (idx == 0) vs_assert(std::get<0>(t) == (int32_t)x, "a value was invented"); if (idx == 1) vs_assert(std::get<1>(t).size() == 1 && (uint8_t)std::get<1>(t)[0] == c, "a value was invented"); if (idx == 2) vs_assert(std::get<2>(t), "a value was invented"); } vs_reach("done");
}
// a time from an extension of any content
void convertTime() {
  static const unsigned L[] = {0, 1, 3, 4, 5, 8, 11, 12, 13}; unsigned n = L[vs_choose(9, "length")]; int8_t ty = vs_choose(2, "type") ? (int8_t)-1 : (int8_t)vs_u8("ty"); uint8_t d[16]; if (n) vs_bytes(d, n, "data"); mp::sbuffer b; mp::packer<mp::sbuffer> p(b); p.pack_ext(n, ty); p.pack_ext_body((const char*)d, n); CallResult r; r.errCode = ErrorCode::SUCCESS; r.obj = mp::unpack(b.data(), b.size());
  auto be = [&](int at, int k) { uint64_t v = 0; for (int i = 0; i < k; i++) v = v << 8 | d[at + i]; return v; }; int64_t sec = 0, ns = 0; bool ok = ty == -1 && (n == 4 || n == 8 || n == 12); if (n == 4) sec = (int64_t)be(0, 4); else if (n == 8) { uint64_t v = be(0, 8); ns = (int64_t)(v >> 34); sec = (int64_t)(v & 0x3ffffffffull); } else if (n == 12) { ns = (int64_t)be(0, 4); sec = (int64_t)be(4, 8); }
  timespec t{5, 6}; bool g = r.convertObject(t); vs_assert(g == ok, g ? "a value was invented" : "a result that fits was not converted"); vs_assert(ok ? (t.tv_sec == sec && t.tv_nsec == ns) : (t.tv_sec == 5 && t.tv_nsec == 6), "a value was invented");
  if (sec < -5000000000ll || sec > 5000000000ll || ns > 999999999) { vs_reach("done"); return; } typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds> TP; TP q{std::chrono::nanoseconds(77)}; g = r.convertObject(q); vs_assert(g == ok, g ? "a value was invented" : "a result that fits was not converted"); vs_assert(q.time_since_epoch().count() == (ok ? sec * 1000000000ll + ns : 77), "a value was invented"); vs_reach("done");
}
// ---- C14
uint64_t walked;
void walk(const mp::object& o, int depth) {
  if (depth > 40) return; walked++;
  switch (o.type) {
    case mp::type::STR: for (uint32_t i = 0; i < o.via.str.size; i++) walked += (uint8_t)o.via.str.ptr[i] == 7; break;
    case mp::type::BIN: for (uint32_t i = 0; i < o.via.bin.size; i++) walked += (uint8_t)o.via.bin.ptr[i] == 7; break;
    case mp::type::EXT: { walked += o.via.ext.type() == 3; for (uint32_t i = 0; i < o.via.ext.size; i++) walked += (uint8_t)o.via.ext.data()[i] == 7; break; }
    case mp::type::ARRAY: for (uint32_t i = 0; i < o.via.array.size; i++) walk(o.via.array.ptr[i], depth + 1); break;
    case mp::type::MAP: for (uint32_t i = 0; i < o.via.map.size; i++) { walk(o.via.map.ptr[i].key, depth + 1); walk(o.via.map.ptr[i].val, depth + 1); } break;
    case mp::type::NIL: case mp::type::BOOLEAN: case mp::type::POSITIVE_INTEGER: case mp::type::NEGATIVE_INTEGER: case mp::type::FLOAT32: case mp::type::FLOAT64: break;
    default: vs_fail("an object of no known kind was produced"); } }
// reference: length of the first complete object, 0 incomplete, -1 malformed; strict left-to-right
int64_t refLen(const uint8_t* p, uint64_t n, uint64_t at, int depth) {
  if (at >= n) return 0; uint8_t c = p[at]; uint64_t h = 1, body = 0, items = 0; auto be = [&](int k) -> int64_t { if (at + 1 + (uint64_t)k > n) return -1; uint64_t v = 0; for (int i = 0; i < k; i++) v = v << 8 | p[at + 1 + (uint64_t)i]; return (int64_t)v; }; int64_t v;
  if (c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3) return 1;
  if (c == 0xc1) return -1;
  if (c < 0x90) items = 2 * (c & 15); else if (c < 0xa0) items = c & 15; else if (c < 0xc0) body = c & 31;
  else switch (c) {
    case 0xc4: case 0xd9: v = be(1); if (v < 0) return 0; h = 2; body = (uint64_t)v; break; case 0xc5: case 0xda: v = be(2); if (v < 0) return 0; h = 3; body = (uint64_t)v; break; case 0xc6: case 0xdb: v = be(4); if (v < 0) return 0; h = 5; body = (uint64_t)v; break;
    case 0xc7: v = be(1); if (v < 0) return 0; h = 2; body = (uint64_t)v + 1; break; case 0xc8: v = be(2); if (v < 0) return 0; h = 3; body = (uint64_t)v + 1; break; case 0xc9: v = be(4); if (v < 0) return 0; h = 5; body = (uint64_t)v + 1; break;
    case 0xca: body = 4; break; case 0xcb: body = 8; break; case 0xcc: case 0xd0: body = 1; break; case 0xcd: case 0xd1: body = 2; break; case 0xce: case 0xd2: body = 4; break; case 0xcf: case 0xd3: body = 8; break;
    case 0xd4: body = 2; break; case 0xd5: body = 3; break; case 0xd6: body = 5; break; case 0xd7: body = 9; break; case 0xd8: body = 17; break;
    case 0xdc: v = be(2); if (v < 0) return 0; h = 3; items = (uint64_t)v; break; case 0xdd: v = be(4); if (v < 0) return 0; h = 5; items = (uint64_t)v; break;
    case 0xde: v = be(2); if (v < 0) return 0; h = 3; items = 2 * (uint64_t)v; break; case 0xdf: v = be(4); if (v < 0) return 0; h = 5; items = 2 * (uint64_t)v; break; }
  if (body > n - at - h) return 0; uint64_t len = h + body; for (uint64_t i = 0; i < items; i++) { int64_t k = refLen(p, n, at + len, depth + 1); if (k <= 0) return k; len += (uint64_t)k; } return (int64_t)len; }
void fillInput(std::vector<char>& b, int how, int n) {
  if (how == 0) { b.resize((size_t)n); vs_bytes(b.data(), (size_t)n, "byte"); return; }
  if (how == 1) { static const uint8_t H[] = {0xdd, 0xdb, 0xc6, 0xdf, 0xc9}; b.push_back((char)H[vs_param("kind", 0)]); uint8_t l[4]; for (int i = 0; i < 4; i++) l[i] = vs_u8("len"); uint32_t v = (uint32_t)l[0] << 24 | (uint32_t)l[1] << 16 | (uint32_t)l[2] << 8 | l[3]; if (!vs_param("dense", 0)) vs_assume((v <= 6) | (v == 100) | (v == 65536) | (v >= 0x20000000u)); for (int i = 0; i < 4; i++) b.push_back((char)l[i]); for (int i = 0; i < n; i++) b.push_back((char)vs_u8("byte")); return; }
  if (how == 2) { static const uint8_t H[] = {0xc4, 0xc5, 0xc7, 0xc8, 0xd9, 0xda, 0xdc, 0xde}; uint8_t h = H[vs_choose(8, "head")]; b.push_back((char)h); int k = (h == 0xc4 || h == 0xc7 || h == 0xd9) ? 1 : 2; for (int i = 0; i < k; i++) b.push_back((char)vs_u8("len")); if (k == 2) vs_assume(b[1] == 0 || (uint8_t)b[1] >= 0xff); vs_assume((uint8_t)b[k] <= 6 || (uint8_t)b[k] >= 0xfe); for (int i = 0; i < n; i++) b.push_back((char)vs_u8("byte")); return; }
  if (how == 3) { static const uint8_t W[] = {0x92, 0x81, 0x91, 0x82, 0xdc}; unsigned w = vs_choose(5, "wrap"); b.push_back((char)W[w]); if (w == 4) { b.push_back(0); b.push_back(2); } if (w == 1 || w == 3) b.push_back((char)0xa0); for (int i = 0; i < n; i++) b.push_back((char)vs_u8("byte")); return; }
  if (how == 5) { static const uint8_t H[] = {0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xb0, 0xbf}; static const int S[] = {4, 8, 1, 2, 4, 8, 1, 2, 4, 8, 2, 3, 5, 9, 17, 16, 31}; if (vs_choose(2, "in array")) b.push_back((char)0x91); unsigned h = vs_choose(17, "head"); b.push_back((char)H[h]); int s = S[h]; static const int D[] = {-2, -1, 0, 1}; int len = s + D[vs_choose(4, "length")]; for (int i = 0; i < len; i++) b.push_back(i < n || i == s - 1 ? (char)vs_u8("byte") : 'f'); return; }
  if (how == 4) { int d = (int)vs_param("depth", 40); for (int i = 0; i < d; i++) b.push_back((char)(vs_param("map", 0) ? (i & 1 ? 0x81 : 0x91) : 0x91)); for (int i = 0; i < n; i++) b.push_back((char)vs_u8("byte")); return; }
}
// a visitor of the parser: strings lie within the input, containers are closed as they were opened
struct SeeAll : mp::null_visitor { const char* p; size_t n; unsigned depth = 0, values = 0; bool bad = false, few = false; std::vector<uint32_t> rest; SeeAll(const char* p_, size_t n_) : p(p_), n(n_) {}
  bool in(const char* v, uint32_t l) { values++; vs_assert(!l || (v >= p && v <= p + n && l <= (size_t)(p + n - v)), "a string reaches outside the input"); return true; }
  bool visit_nil() { values++; return true; } bool visit_boolean(bool) { values++; return true; } bool visit_positive_integer(uint64_t) { values++; return true; } bool visit_negative_integer(int64_t) { values++; return true; } bool visit_float32(float) { values++; return true; } bool visit_float64(double) { values++; return true; }
  bool visit_str(const char* v, uint32_t l) { return in(v, l); } bool visit_bin(const char* v, uint32_t l) { return in(v, l); } bool visit_ext(const char* v, uint32_t l) { vs_assert(l > 0, "an extension without a type"); return in(v, l); }
  bool open(uint32_t k) { values++; depth++; rest.push_back(k); return true; } bool item() { vs_assert(!rest.empty() && rest.back() > 0, "more elements than announced"); rest.back()--; return true; } bool shut() { vs_assert(!rest.empty() && rest.back() == 0, "fewer elements than announced"); rest.pop_back(); depth--; return true; }
  bool start_array(uint32_t k) { return open(k); } bool start_map(uint32_t k) { return open(k); } bool end_array_item() { return item(); } bool end_map_value() { return item(); } bool end_array() { return shut(); } bool end_map() { return shut(); }
  void parse_error(size_t, size_t e) { bad = true; vs_assert(e <= n, "error position outside the input"); } void insufficient_bytes(size_t, size_t e) { few = true; vs_assert(e <= n, "error position outside the input"); } };
// limits given to the decoder: refused exactly when one is exceeded
void limits() {
  { std::vector<char> b; static const char* F[] = {"\x93\xa2yz\x81\x05\xc4\x03qqq\xd5\x01qq", "\x91\x91\x92\x01\x80", "\xa0", "\x82\x01\x90\x02\xc4\x00", "\xdc\x00\x02\xa1k\xc7\x00\x05", "\x05"}; static const int L[] = {15, 5, 1, 6, 8, 1}; static const unsigned M[][6] = {{3, 1, 2, 3, 3, 2}, {2, 0, 0, 0, 0, 4}, {0, 0, 0, 0, 0, 0}, {0, 2, 0, 0, 0, 2}, {2, 0, 1, 0, 1, 1}, {0, 0, 0, 0, 0, 0}};
  unsigned w = vs_choose(6, "input"); b.assign(F[w], F[w] + L[w]); uint32_t l[6]; for (int i = 0; i < 6; i++) l[i] = 0xffffffffu; unsigned which = vs_choose(6, "limit"); l[which] = vs_u32("value"); unsigned other = vs_choose(6, "limit2"); if (other != which) l[other] = vs_u32("value2") & 7;
  bool over = false; for (int i = 0; i < 6; i++) over |= M[w][i] > l[i]; int64_t live0 = vs_live();
  { bool threw = false, ref = false; mp::object_handle oh; size_t off = 0; mp::unpack_limit lim(l[0], l[1], l[2], l[3], l[4], l[5]); unsigned route = vs_choose(3, "route");
    try { if (route == 0) oh = mp::unpack(b.data(), b.size(), off, nullptr, nullptr, lim); else if (route == 1) oh = mp::unpack(b.data(), b.size(), off, ref, [](mp::type::object_type, std::size_t, void*) { return true; }, nullptr, lim); else { mp::unpacker u(nullptr, nullptr, 32, lim); u.reserve_buffer(b.size()); memcpy(u.buffer(), b.data(), b.size()); u.buffer_consumed(b.size()); vs_assert(u.next(oh), "no object"); off = b.size(); } } catch (mp::size_overflow&) { threw = true; }
    vs_assert(threw == over, over ? "a limit of the decoder was exceeded" : "input within the limits was refused"); if (!threw) { vs_assert(off == b.size(), "the decoder consumed the wrong number of bytes"); walk(oh.get(), 0); vs_reach("object"); } else vs_reach("refused"); }
  vs_assert(vs_live() == live0, "decoding leaked memory"); }
  vs_reach("done");
}
// a stream of objects through one unpacker, delivered in pieces: each object comes out exactly when it is complete
void stream() {
  int n = (int)vs_param("n", 3); { std::vector<char> b; unsigned w = vs_choose(5, "first"); static const char* F[] = {"\xa2yz", "\x92\x01\x02", "\x81\x05\xa1k", "\xc4\x01q", "\x07"}; static const int L[] = {3, 3, 4, 3, 1}; b.assign(F[w], F[w] + L[w]); for (int i = 0; i < n; i++) b.push_back((char)vs_u8("byte")); size_t N = b.size(); int64_t live0 = vs_live();
  { mp::unpacker u(nullptr, nullptr, (size_t)vs_param("buffer", 8)); size_t at = 0, fed = 0; int objs = 0; bool stop = false; unsigned c1 = 1 + vs_choose((unsigned)N, "piece"), c2 = c1 < N ? c1 + vs_choose((unsigned)(N - c1) + 1, "piece2") : c1; size_t ends[3] = {c1, c2, N};
    for (int k = 0; k < 3 && !stop; k++) { size_t c = ends[k] - fed; u.reserve_buffer(c); vs_assert(u.buffer_capacity() >= c, "less buffer than reserved"); if (c) memcpy(u.buffer(), b.data() + fed, c); u.buffer_consumed(c); fed = ends[k];
      for (;;) { int64_t want = at < fed ? refLen((const uint8_t*)b.data(), fed, at, 0) : 0; mp::object_handle oh; bool r = false, threw = false; try { r = u.next(oh); } catch (std::exception&) { threw = true; }
        if (threw) { vs_assert(want < 0, "well-formed input was rejected"); stop = true; vs_reach("malformed"); break; } vs_assert(r == (want > 0), r ? "an object came out of an incomplete encoding" : "a complete object did not come out"); if (!r) break;
        walk(oh.get(), 0); if (objs == 0) { if (w == 0) vs_assert(oh.get().as<std::string>() == "yz", "object changed"); if (w == 1) vs_assert(oh.get().as<std::vector<int>>()[1] == 2, "object changed"); if (w == 4) vs_assert(oh.get().as<int>() == 7, "object changed"); } objs++; at += (size_t)want; vs_assert(u.nonparsed_size() == fed - at, "the unread part has another length"); } }
    if (!stop) vs_assert(objs >= 1, "no object"); vs_reach("object"); }
  vs_assert(vs_live() == live0, "decoding leaked memory"); }
  vs_reach("done");
}
void decode(int how) {
  int n = (int)vs_param("n", 3); { std::vector<char> b; fillInput(b, how, n); b.shrink_to_fit(); size_t N = b.size(); int64_t want = refLen((const uint8_t*)b.data(), N, 0, 0); int64_t live0 = vs_live(); int got = 2; size_t off = 0; { mp::object_handle oh;
    unsigned route = vs_param("route", -1) >= 0 ? (unsigned)vs_param("route", 0) : vs_choose(6, "route");
    try {
      if (route == 0) { oh = mp::unpack(b.data(), N, off); got = 1; }
      else if (route == 1) { bool ref = false; oh = mp::unpack(b.data(), N, off, ref, [](mp::type::object_type, std::size_t, void*) { return true; }); got = 1; }
      else if (route == 4) { SeeAll v(b.data(), N); bool r = mp::parse(b.data(), N, off, v); vs_assert(v.depth == 0 || !r, "the parse ended inside a container"); vs_assert(!(v.bad && v.few), "malformed and incomplete at once"); got = r ? 3 : v.bad ? -1 : v.few ? 0 : -2; if (r) vs_assert(!v.bad && !v.few && v.values > 0, "parsed although not well-formed"); }
      else if (route == 5) { mp::zone z((size_t)vs_param("chunk", 8192)); mp::object o = mp::unpack(z, b.data(), N, off); got = 3; walk(o, 0); }
      else { mp::unpacker u(nullptr, nullptr, 16); size_t cut = route == 2 ? N : N > 1 ? 1 + vs_choose((unsigned)(N - 1 < 7 ? N - 1 : 7), "cut") : N; u.reserve_buffer(cut); memcpy(u.buffer(), b.data(), cut); u.buffer_consumed(cut); bool r = u.next(oh); if (r) vs_assert(want > 0 && want <= (int64_t)cut, "an object came out of an incomplete encoding"); if (!r && cut < N) { u.reserve_buffer(N - cut); memcpy(u.buffer(), b.data() + cut, N - cut); u.buffer_consumed(N - cut); r = u.next(oh); } else if (r) u.remove_nonparsed_buffer(); got = r ? 1 : 0; if (r) { off = (size_t)want; vs_assert(oh.zone() != nullptr, "object without memory"); } if (vs_choose(2, "drop")) { u.skip_nonparsed_buffer(u.nonparsed_size()); u.reset(); u.reset_zone(); } }
    } catch (mp::insufficient_bytes&) { got = 0; } catch (mp::parse_error&) { got = -1; } catch (mp::size_overflow&) { got = -2; } catch (std::bad_alloc&) { got = -2; } catch (std::exception&) { got = -2; }
    if (got == 1) { vs_assert(want > 0, want < 0 ? "malformed input was decoded" : "incomplete input was decoded"); vs_assert((int64_t)off == want, "the decoder consumed the wrong number of bytes"); walk(oh.get(), 0); mp::object_handle c = mp::clone(oh.get()); walk(c.get(), 0); mp::sbuffer s; mp::pack(s, c.get()); vs_assert(s.size() <= 2 * N, "a decoded object encodes much longer than its input"); vs_reach("object"); }
    else if (got == 3) { vs_assert(want > 0, want < 0 ? "malformed input was decoded" : "incomplete input was decoded"); vs_assert((int64_t)off == want, "the decoder consumed the wrong number of bytes"); }
    else if (got == 0) { vs_assert(want == 0, "a complete or malformed input was reported as incomplete"); vs_reach("incomplete"); }
    else if (got == -1) { vs_assert(want < 0, "well-formed input was rejected"); vs_reach("malformed"); }
    else vs_assert(want <= 0, "well-formed input was rejected"); }
  vs_assert(vs_live() == live0, "decoding leaked memory"); }
  vs_reach("done");
}
}
static void convertCases(int c) { if (c >= 200 && c < 220) { convertNested(c - 200); return; } if (c >= 220 && c < 240) { convertOuter(c - 220); return; } if (c >= 240 && c < 260) { convertByValue(c - 240); return; } if (c == 303) { convertVariant(); return; } if (c == 302) { limits(); return; } if (c == 301) { stream(); return; } if (c == 300) { convertTime(); return; } if (c < 1000) { convertTo(c - 100, (int)vs_choose(S_N, "source")); return; } decode(c - 1000); }
