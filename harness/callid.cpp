// Call ids (C18).
#include "rpc.h"
#include "uuid.h"
std::string nextId(const Veigar*, const std::string&) asm("_ZNK6veigar6Veigar13getNextCallIdERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE") __attribute__((weak));
using namespace rpc;
namespace {
std::string symName(int n) { std::string s; for (int i = 0; i < n; i++) s.push_back((char)vs_u8("name")); return s; }
std::string idOf(Veigar& A, const std::string& f, int how, const char* to = "nobody") { auto r = A.asyncCall(to, 100, f, 1); vs_assert(r && !r->first.empty(), "a call without id"); std::string id = r->first; A.releaseCall(id); return id; }
}
// any two calls of one instance
static void names() {
  int skip = (int)vs_param("skip", 0), max = (int)vs_param("len", 3); { Veigar A; vs_assert(A.init("A", 4, 128), "init"); std::string first = symName((int)vs_choose((unsigned)max + 1, "len")), second = symName((int)vs_choose((unsigned)max + 1, "len"));
    std::vector<std::string> ids; ids.push_back(idOf(A, first, 0)); for (int i = 0; i < skip; i++) ids.push_back(idOf(A, "f", 0)); ids.push_back(idOf(A, second, 0)); ids.push_back(idOf(A, first, 0));
    for (size_t i = 0; i < ids.size(); i++) for (size_t j = 0; j < i; j++) { if (i != 0 && i < ids.size() - 2) continue; vs_assert(ids[i] != ids[j], "two calls carry the same id"); }
    env_sleep_ms(50); A.uninit(); }
  noHandles(); vs_reach("done");
}
// two calls far apart: the ids between them are drawn without being used for calls
static void farApart() {
  static const int far[] = {254, 65534, 131070}; { Veigar A; vs_assert(A.init("A", 4, 128), "init"); std::string first = symName(1), f = "f"; std::string a = idOf(A, first, 0); int n = far[vs_choose((unsigned)vs_param("fars", 2), "far")]; if (nextId) for (int i = 0; i < n; i++) { std::string s = nextId(&A, f); vs_assert(!s.empty(), "an empty id"); }
    std::string b = idOf(A, first, 0), c = idOf(A, first, 0); vs_assert(a != b && a != c && b != c, "two calls carry the same id"); env_sleep_ms(50); A.uninit(); }
  noHandles(); vs_reach("done");
}
// what is on the wire, for a sequence of calls of all kinds
static void wire() {
  { Veigar A; vs_assert(A.init("A", 8, 128), "init"); Raw t(8, 128); t.create("T"); int n = (int)vs_param("n", 4); std::vector<std::string> ids; std::string nm = symName(1), nm2 = nm + (char)vs_u8("more"); for (int i = 0; i < n; i++) { const std::string& f = vs_choose(2, "name") ? nm : nm2; std::string id; if (vs_choose(2, "cb")) A.asyncCall([](const CallResult&) {}, "T", 500, f, i); else { auto r = A.asyncCall("T", 500, f, i); id = r->first; } Bytes m; vs_assert(Raw::take(t.call, m, 1000), "not delivered"); Call c = parseCall(m); vs_assert(c.ok && c.func == f && c.caller == "A", "call message"); if (!id.empty()) vs_assert(id == c.id, "the id given to the caller differs from the one on the wire"); ids.push_back(c.id); }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) vs_assert(ids[i] != ids[j], "two calls carry the same id"); A.uninit(); t.close(); }
  noHandles(); vs_reach("done");
}
// ids do not start again when the instance is started again or another one is
static void restarts() {
  std::vector<std::string> ids; unsigned how = vs_choose(3, "how"); { Veigar A, B; for (int r = 0; r < 3; r++) { Veigar& v = how == 1 && r == 1 ? B : A; if (how == 2) env_new_rand(); vs_assert(v.init(r == 1 && how == 1 ? "B" : "A", 4, 128), "init"); for (int i = 0; i < 2; i++) ids.push_back(idOf(v, "f", 0)); v.uninit(); } }
  for (size_t i = 0; i < ids.size(); i++) for (size_t j = 0; j < i; j++) vs_assert(ids[i] != ids[j], "calls of different instances carry the same id"); noHandles(); vs_reach("done");
}
// the random part: different randomness gives different ids, in whatever process
static void randomPart() {
  env.symRand = true; std::string u[2]; for (int i = 0; i < 2; i++) { env_new_rand(); env.randIdx = 0; env.randOther = i; u[i] = UUID::Create(); vs_assert(u[i].size() == 32, "length of the random part"); for (char c : u[i]) vs_assert(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')), "the random part is not a hexadecimal number"); }
  vs_assert(u[0] != u[1], "different randomness gives the same id"); vs_reach("done");
}
// an instance started with other randomness draws other ids, whatever part of the randomness differs
static void startRandom() {
  if (!nextId) { vs_reach("done"); return; } env.symRand = env.randUniform = true; std::string u[2]; { Veigar A; for (int i = 0; i < 2; i++) { env_new_rand(); env.randIdx = 0; env.randOther = i; vs_assert(A.init("A", 4, 128), "init"); if (vs_choose(2, "late")) nextId(&A, "f"); u[i] = nextId(&A, "f"); vs_assert(!u[i].empty(), "an empty id"); A.uninit(); } }
  vs_assert(u[0] != u[1], "different randomness gives the same id"); vs_reach("done");
}
// several threads call at once
static Veigar* VA; static std::string got[4];
static void threads() {
  int n = (int)vs_param("n", 3); { Veigar A; vs_assert(A.init("A", 8, 128), "init"); VA = &A; static int ix[4] = {0, 1, 2, 3}; int t[4]; for (auto& g : got) g.clear(); env.preemptMask = (int)vs_param("mask", P_SEM | P_MTX | P_THR); env.preemptBudget = (int)vs_param("preempt", 2);
    for (int i = 0; i < n; i++) t[i] = env_spawn([](void* p) { int k = *(int*)p; got[k] = idOf(*VA, "f", 0); }, &ix[i]); for (int i = 0; i < n; i++) env_join(t[i]); env.preemptBudget = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) vs_assert(!got[i].empty() && got[i] != got[j], "two concurrent calls carry the same id"); for (auto& g : got) g = std::string(); A.uninit(); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: names(); break; case 1: wire(); break; case 2: restarts(); break; case 3: randomPart(); break; case 4: threads(); break; case 5: farApart(); break; case 6: startRandom(); break; } }
