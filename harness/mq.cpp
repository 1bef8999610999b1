// The shared-memory message queue against a reference model, for symbolic geometry, message sizes and contents.
// Every size is a solver variable: a path stands for all geometries and sizes that take the same branches.
#include "env.h"
#include "message_queue.h"
#include <memory>
#include <vector>
using namespace veigar;
namespace {
struct Msg { uint8_t* data; int64_t size; };
struct Model { int64_t max, cap; std::vector<Msg> m; int64_t used = 0; };
uint8_t at(uint8_t* p, int64_t i, int64_t n) { int64_t k = i < n ? i : 0; return p[k]; }
// reference: room for one more message of s bytes?
bool room(const Model& r, int64_t s) { return (int64_t)r.m.size() < r.max && s <= r.cap - r.used; }
void checkCount(const Model& r, MessageQueue& q) { vs_assert(q.msgNumber() == (int64_t)r.m.size(), "the number of queued messages is wrong"); }
void push(Model& r, MessageQueue& q, int64_t s, int64_t probe) {
  if ((int64_t)r.m.size() < 100) {}
  uint8_t* d = (uint8_t*)vs_lazy((uint64_t)s, "msg", 1);
  bool fits = room(r, s), waitable = false; bool can = q.checkSpaceSufficient(s, waitable);
  vs_assert(can == fits, "space check disagrees with the free space"); if (!can) vs_assert(waitable == (s <= r.cap), "waitable flag wrong");
  bool ok = q.pushBack(d, s);
  if (ok) { vs_assert(fits, "message accepted without room"); r.m.push_back({d, s}); r.used += s; vs_reach("pushed"); }
  else { vs_assert(!fits, "message refused although there is room"); vs_reach("full"); }
  (void)probe; checkCount(r, q);
}
void pop(Model& r, MessageQueue& q, int64_t bufSize, int64_t probe) {
  uint8_t* b = (uint8_t*)vs_lazy((uint64_t)bufSize, "out", 0); int64_t w = -7;
  bool ok = q.popFront(b, bufSize, w);
  if (r.m.empty()) { vs_assert(!ok, "popped from an empty queue"); vs_assert(w == 0, "empty pop reports a size"); vs_reach("empty"); }
  else {
    Msg f = r.m[0];
    if (f.size > bufSize) { vs_assert(!ok, "popped into a buffer that is too small"); vs_assert(w == f.size, "needed size not reported"); vs_reach("small"); }
    else { vs_assert(ok, "pop failed although a message is queued"); vs_assert(w == f.size, "popped length differs from pushed length");
      vs_assert(at(b, probe, f.size) == at(f.data, probe, f.size), "popped bytes differ from pushed bytes");
      r.m.erase(r.m.begin()); r.used -= f.size; vs_reach("popped"); }
  }
  checkCount(r, q); vs_lazy_free(b);
}
// whatever happened to the queue, another participant of the same geometry can join and sees the same messages
void join(Model& r, int M, int64_t E) { MessageQueue c(M, (int32_t)E); vs_assert(c.open("q"), "a participant of the same geometry cannot open the queue any more"); checkCount(r, c); c.close(); }
}
// sequence of operations, starting from an empty queue; two handles on the same queue
static void seq() {
  int M = (int)vs_param("max", 0); int ops = (int)vs_param("ops", 5); int64_t lim = vs_param("limit", 1 << 20);
  if (M == 0) M = (int)vs_range("max", 1, 64);
  int64_t E = (int64_t)vs_range("expected", 1, (uint64_t)vs_param("emax", 1 << 16));
  vs_assume((int64_t)M * E <= lim);
  int64_t probe = (int64_t)vs_range("probe", 0, (uint64_t)lim);
  MessageQueue a(M, (int32_t)E), b(M, (int32_t)E);
  vs_assert(a.create("q"), "create failed"); bool two = vs_param("two", 1); if (two) vs_assert(b.open("q"), "open failed");
  Model r; r.max = M; r.cap = (int64_t)M * E; checkCount(r, a);
  for (int i = 0; i < ops; i++) {
    unsigned op = vs_choose(3, "op");
    if (op == 0) { int64_t s = (int64_t)vs_range("size", 1, (uint64_t)lim + 8); push(r, two ? b : a, s, probe); }
    else if (op == 1) { int64_t n = (int64_t)vs_range("buf", 0, (uint64_t)lim + 8); pop(r, a, n, probe); }
    else if (!r.m.empty()) pop(r, a, r.m[0].size, probe);
    else break;
  }
  join(r, M, E); int left = (int)r.m.size();
  for (int i = 0; i < left; i++) { pop(r, two && (i & 1) ? b : a, r.m[0].size, probe); }
  pop(r, a, 16, probe); join(r, M, E); vs_observe("left", (uint64_t)left);
  a.close(); b.close(); vs_assert(env.fds == 0 && env.maps == 0 && env.sems == 0, "queue handles leaked");
}
// full 32-bit geometry, one message
static void geom() {
  int32_t M = (int32_t)vs_range("max", 1, 0x7fffffff), E = (int32_t)vs_range("expected", 1, 0x7fffffff);
  int64_t cap = (int64_t)M * E; vs_assume(cap <= (int64_t)vs_param("limit", (1ll << 32) + (1ll << 20))); vs_assume(M <= (1 << 24));
  int64_t s = (int64_t)vs_range("size", 1, 1ull << 34), probe = (int64_t)vs_range("probe", 0, 1ull << 34);
  MessageQueue a(M, E); vs_assert(a.create("q"), "create failed");
  Model r; r.max = M; r.cap = cap;
  vs_assert(env_shm_size("q_shm") >= cap, "shared memory smaller than the promised capacity");
  push(r, a, s, probe); if (r.m.size()) { int64_t n = (int64_t)vs_range("buf", 0, 1ull << 34); vs_assume(n < s); pop(r, a, n, probe); } if (r.m.size()) { pop(r, a, r.m[0].size, probe); }
  a.close();
}
// invalid arguments
static void invalid() {
  int32_t M = (int32_t)vs_in("max", 32), E = (int32_t)vs_in("expected", 32); vs_assume(M <= 0 || E <= 0); vs_assume(M < 1000 && E < 1000);
  MessageQueue a(M, E); bool ok = a.create("q"); if (M <= 0) vs_assert(!ok, "queue without slots created");
  vs_reach(ok ? "created" : "refused");
  if (ok) { uint8_t d[4] = {1, 2, 3, 4}; bool w; vs_assert(!a.checkSpaceSufficient(4, w), "space without capacity"); vs_assert(!a.pushBack(d, 4), "pushed without capacity"); }
  a.close(); MessageQueue b(2, 8); vs_assert(b.create("q"), "create");
  uint8_t d[4] = {1, 2, 3, 4}; int64_t z = vs_i64("size"); vs_assume(z <= 0); vs_assert(!b.pushBack(d, z), "pushed a message without content"); vs_assert(!b.pushBack(nullptr, 4), "pushed null");
  int64_t w = 5; vs_assert(!b.popFront(d, 4, w) && w == 0 && b.msgNumber() == 0, "failed pushes left something behind"); b.close();
  vs_assert(env.fds == 0 && env.maps == 0 && env.sems == 0, "queue handles leaked");
}
// after any history an emptied queue has all its room again
static void roomBack() {
  int M = (int)vs_param("max", 3), ops = (int)vs_param("ops", 3); int64_t lim = 1 << 20; int64_t E = (int64_t)vs_range("expected", 1, 1 << 16), probe = (int64_t)vs_range("probe", 0, (uint64_t)lim);
  MessageQueue a(M, (int32_t)E), b(M, (int32_t)E); vs_assert(a.create("q") && b.open("q"), "create or open failed");
  Model r; r.max = M; r.cap = (int64_t)M * E;
  for (int i = 0; i < ops; i++) { unsigned op = vs_choose(2, "op"); if (op == 0) { int64_t s = (int64_t)vs_range("size", 1, (uint64_t)lim); vs_assume(room(r, s)); push(r, b, s, probe); } else if (!r.m.empty()) pop(r, a, r.m[0].size, probe); else break; }
  while (!r.m.empty()) pop(r, a, r.m[0].size, probe);
  switch (vs_choose(3, "then")) {
    case 0: { uint8_t* d = (uint8_t*)vs_lazy((uint64_t)r.cap, "full", 1); bool w; vs_assert(b.checkSpaceSufficient(r.cap, w), "an emptied queue refuses a message of the full size"); vs_assert(b.pushBack(d, r.cap), "an emptied queue refuses a message of the full size"); vs_assert(!b.checkSpaceSufficient(1, w) && w, "a full queue offers room or says waiting is pointless"); uint8_t* o = (uint8_t*)vs_lazy((uint64_t)r.cap, "o", 0); int64_t n = 0; vs_assert(a.popFront(o, r.cap, n) && n == r.cap, "full-size message not returned"); int64_t k = probe < r.cap ? probe : 0; vs_assert(o[k] == d[k], "full-size message changed"); vs_reach("full size"); break; }
    case 1: { for (int i = 0; i < M; i++) push(r, b, E, probe); bool w; vs_assert((int64_t)r.m.size() == M, "an emptied queue does not take its capacity of messages"); vs_assert(!b.checkSpaceSufficient(1, w) && w, "more messages than the capacity"); push(r, b, 1, probe); while (!r.m.empty()) pop(r, a, r.m[0].size, probe); vs_reach("full count"); break; }
    case 2: { int64_t s = (int64_t)vs_range("any", 1, (uint64_t)lim * 4); bool w = false; bool can = b.checkSpaceSufficient(s, w); vs_assert(can == (s <= r.cap), "an emptied queue judges a size wrongly"); if (!can) vs_assert(!w, "waiting cannot help a message that never fits"); uint8_t* d = (uint8_t*)vs_lazy((uint64_t)s, "d", 1); vs_assert(b.pushBack(d, s) == can, "push and space check disagree"); if (can) { r.m.push_back({d, s}); r.used += s; } vs_reach(can ? "fits" : "never fits"); break; }
  }
  join(r, M, E);
  a.close(); b.close();
}
// messages of fixed sizes through a long history: the room is exactly what is not queued
static void longRun() {
  int M = (int)vs_param("max", 4), steps = (int)vs_param("steps", 10); int64_t E = vs_param("expected", 8), probe = 0; MessageQueue a(M, (int32_t)E), b(M, (int32_t)E); vs_assert(a.create("q") && b.open("q"), "create or open failed"); Model r; r.max = M; r.cap = M * E;
  for (int i = 0; i < steps; i++) { if (vs_choose(2, "op") == 0) { static const int64_t sz[] = {1, 7, 13, 32}; push(r, b, sz[vs_choose(4, "size")], probe); } else pop(r, a, 64, probe); }
  join(r, M, E); a.close(); b.close();
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: seq(); break; case 1: geom(); break; case 2: invalid(); break; case 3: roomBack(); break; case 4: longRun(); break; } }
