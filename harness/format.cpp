// Formatted texts are complete whatever their length (C20).
#include "rpc.h"
#include "string_helper.h"
#include "log.h"
#include <stdarg.h>
#include <stdexcept>
using namespace rpc;
namespace {
const int L[] = {0, 1, 2, 511, 512, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 9000};
const int NL = sizeof L / sizeof *L;
int pickLen() { return vs_param("near", 0) ? 1023 - (int)vs_param("near", 0) / 2 + (int)vs_choose((unsigned)vs_param("near", 0), "len") : L[vs_choose((unsigned)NL, "len")]; }
// constant text with symbolic characters at both ends and around the buffer sizes
template <typename S> S text(int n, const char* nm) { S s((size_t)n, 'a'); for (int i = 0; i < n; i++) s[(size_t)i] = (typename S::value_type)('a' + i % 26); auto sym = [&](int i) { if (i >= 0 && i < n) { s[(size_t)i] = (typename S::value_type)vs_range(nm, 1, sizeof(typename S::value_type) == 1 ? 255 : 127); } }; sym(0); sym(1023); sym(1022); if (n > 2) sym(n - 1); if (n > 2048) sym(2047); return s; }
std::string viaV(const char* f, ...) { va_list a; va_start(a, f); std::string s = StringHelper::StringPrintfV(f, a); va_end(a); return s; }
bool viaOut(std::string& o, const char* f, ...) { va_list a; va_start(a, f); bool r = StringHelper::StringPrintfV(f, a, o); va_end(a); return r; }
bool viaOutW(std::wstring& o, const wchar_t* f, ...) { va_list a; va_start(a, f); bool r = StringHelper::StringPrintfV(f, a, o); va_end(a); return r; }
}
static void narrow() {
  { std::string w = StringHelper::StringPrintf("%s", "warm"); } int64_t live = vs_live(); { std::string s = text<std::string>(pickLen(), "c"), t; int d = (int)vs_choose(3, "d") * 500 - 500; std::string ds = std::to_string(d);
    switch (vs_choose(5, "form")) {
      case 0: vs_assert(StringHelper::StringPrintf("%s", s.c_str()) == s, "a text was cut or changed"); break;
      case 1: t = text<std::string>((int)vs_choose(3, "n2") * 1023, "e"); vs_assert(StringHelper::StringPrintf("<%s|%d|%s>", s.c_str(), d, t.c_str()) == "<" + s + "|" + ds + "|" + t + ">", "a text of several parts was cut or changed"); break;
      case 2: vs_assert(viaV("%s:%d", s.c_str(), d) == s + ":" + ds, "a text was cut or changed"); break;
      case 3: { std::string o = "old"; vs_assert(viaOut(o, "%d%s", d, s.c_str()) && o == ds + s, "a text was cut or changed"); break; }
      case 4: { std::string f; for (char c : s) { f.push_back(c); if (c == '%') f.push_back('%'); } std::string o; vs_assert(viaOut(o, f.c_str()) && o == s, "a text was cut or changed"); break; }
    } }
  vs_assert(vs_live() == live, "formatting leaked memory"); vs_reach("done");
}
static void wide() {
  { std::wstring w = StringHelper::StringPrintf(L"%ls", L"warm"); } int64_t live = vs_live(); { std::wstring s = text<std::wstring>(pickLen(), "c"); if (vs_choose(2, "form")) vs_assert(StringHelper::StringPrintf(L"<%ls>%d", s.c_str(), 7) == L"<" + s + L">7", "a wide text was cut or changed"); else { std::wstring o; vs_assert(viaOutW(o, L"%ls", s.c_str()) && o == s, "a wide text was cut or changed"); } }
  vs_assert(vs_live() == live, "formatting leaked memory"); vs_reach("done");
}
static void logs() { { veigar::log("%s", "warm"); } int64_t live = vs_live(); { std::string s = text<std::string>(pickLen(), "c"); veigar::log("%s", s.c_str()); std::wstring w = text<std::wstring>(pickLen(), "w"); if (vs_choose(2, "wide")) veigar::log(L"%ls\n", w.c_str()); } vs_assert(vs_live() == live, "logging leaked memory"); vs_reach("done"); }
// the texts callers get to see
static void errors() {
  static const int N[] = {1, 900, 968, 969, 970, 971, 972, 973, 974, 975, 976, 1000, 1023, 1024, 1025, 2000, 3000}; std::string fn = text<std::string>(N[vs_choose(sizeof N / sizeof *N, "len")], "c"); unsigned how = vs_choose(3, "how"); static std::string W; W = how == 2 ? text<std::string>(N[vs_choose(6, "wlen") * 3], "w") : "short"; if (how == 2) fn = fn.substr(0, 1);
  { Veigar A; vs_assert(A.init("A", 8, 4096), "init"); if (how) A.bind(fn, [](int a) -> int { if (a >= 0) throw std::runtime_error(W); return a; }); CallResult r = how ? A.syncCall("A", 1000, fn, 1) : A.syncCall("A", 1000, fn, 1, 2, 3); vs_assert(!r.isSuccess(), "success"); std::string m = r.errorMessage;
    vs_assert(m.find(fn) != std::string::npos, "the function name in an error text is not complete"); if (how) { vs_assert(m.find(W) != std::string::npos, "the cause in an error text is not complete"); vs_reach("threw"); } else { vs_assert(m.find("argument count 3") != std::string::npos || m.find("3") != std::string::npos, "the argument count in an error text is missing"); vs_reach("unknown"); } A.uninit(); W = std::string(); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: narrow(); break; case 1: wide(); break; case 2: logs(); break; case 3: errors(); break; } }
