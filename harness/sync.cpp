// Timed waits of the inter-process semaphore, the queue and the event: deadlines for every clock reading, and
// behaviour under every interleaving with the thread that provides what is waited for.
#include "env.h"
#include "semaphore.h"
#include "message_queue.h"
#include "event.h"
using namespace veigar;
namespace {
const int64_t MS = 1000000;
// the recorded absolute deadline against start + ms; at most slack ns later
void checkDeadline(int64_t s0, int64_t n0, int64_t ms, int64_t slack) {
  vs_assert(env.einval == 0, "wait called with an invalid deadline");
  vs_assert(env.hookCount >= 1, "no wait took place");
  vs_assert(env.hookNsec >= 0 && env.hookNsec < 1000000000, "deadline is not a valid time");
  int64_t want = s0 * 1000000000 + n0 + ms * MS, have = env.hookSec * 1000000000 + env.hookNsec;
  vs_assert(have >= want, "wait would end before the timeout"); vs_assert(have <= want + slack, "wait would end long after the timeout");
}
int64_t S0, N0; void startClock() { env.symClock = true; env.hookWait = true; timespec ts; clock_gettime(CLOCK_REALTIME, &ts); S0 = ts.tv_sec; N0 = ts.tv_nsec; }
// which: 0 semaphore, 1 queue lock, 2 queue read token
void deadline(int which) {
  Semaphore sem; MessageQueue q(2, 16); int v = (int)vs_choose(2, "available"); env.faultMask = F_SEMWAIT;
  if (which == 0) { vs_assert(sem.open("s", v), "open"); } else { vs_assert(q.create("q"), "create"); if (which == 1) { if (!v) vs_assert(q.processRWLock(10), "free lock"); } else if (v) q.notifyRead(); env.hookCount = 0; env.einval = 0; }
  startClock(); env.faultBudget = (int)vs_param("eintr", 1);
  int64_t ms = which == 1 ? (int64_t)vs_in("ms", 32) : (int64_t)vs_range("ms", 0, 1ull << 40);
  bool r = which == 0 ? sem.wait(ms) : which == 1 ? q.processRWLock((uint32_t)ms) : q.waitForRead(ms);
  vs_assert(env.einval == 0, "wait called with an invalid deadline");
  if (v) { vs_assert(r, "wait failed although a token was available"); vs_reach("token"); }
  else { vs_assert(!r, "wait succeeded without a token"); checkDeadline(S0, N0, ms, 20 * MS); vs_reach("timeout"); }
  if (which == 0) { vs_assert(env_sem_value("s") == 0, "token count after the wait is wrong"); }
  sem.close(); q.close(); vs_assert(env.sems == 0 && env.fds == 0 && env.maps == 0, "leak");
}
struct Ctx { Semaphore* sem; MessageQueue* q; Event* ev; int64_t at; int n; int op; };
// virtual time: tokens arrive later, or never
void arrival() {
  int which = (int)vs_choose(3, "which"); Semaphore sem; MessageQueue q(2, 16); if (which == 0) sem.open("s", 0); else { q.create("q"); if (which == 1) q.processRWLock(5); }
  env.wallBase = 1700000000ll * 1000000000ll + (int64_t)vs_choose(4, "fraction") * 333333333ll;
  static const int64_t waits[] = {0, 1, 30, 700, 999, 1000, 2500, -1}; int64_t ms = waits[vs_choose(which == 1 ? 7 : 8, "timeout")];
  static const int64_t ats[] = {0, 20, 650, 998, 1200, 3000}; static Ctx c; c.sem = &sem; c.q = &q; c.at = ats[vs_choose(6, "at")]; c.op = which;
  env.faultMask = F_SEMWAIT; env.faultBudget = (int)vs_param("eintr", 1);
  int64_t t0 = env.now; int th = env_spawn([](void* p) { Ctx* c = (Ctx*)p; if (c->at) env_sleep_ms(c->at); if (c->op == 0) c->sem->release(); else if (c->op == 1) c->q->processRWUnlock(); else c->q->notifyRead(); }, &c);
  if (c.at == 0) env_yield();
  bool r = which == 0 ? sem.wait(ms) : which == 1 ? q.processRWLock((uint32_t)ms) : q.waitForRead(ms); int64_t el = (env.now - t0) / MS;
  if (ms < 0) { vs_assert(r, "unlimited wait gave up"); vs_assert(el == c.at, "unlimited wait lasted wrong"); vs_reach("forever"); }
  else if (c.at < ms || c.at == 0) { vs_assert(r, "token arrived in time but the wait failed"); vs_assert(el <= c.at + 1, "woken late"); vs_reach("in time"); }
  else if (c.at > ms) { vs_assert(!r, "wait succeeded after its timeout"); vs_assert(el >= ms, "wait gave up early"); vs_assert(el <= ms + 20, "wait overslept"); vs_reach("late"); }
  vs_observe("r", r); vs_observe("el", (uint64_t)el); env_join(th); sem.close(); q.close();
}
// void wait() takes exactly one token
void plain() { Semaphore s; s.open("s", 0); static Ctx c; c.sem = &s; env.faultMask = F_SEMWAIT; env.faultBudget = 1; env.preemptMask = P_SEM; env.preemptBudget = 3; static int got; got = 0;
  int t1 = env_spawn([](void* p) { ((Ctx*)p)->sem->wait(); got++; vs_assert(env.now >= 0, "x"); }, &c); int t2 = env_spawn([](void* p) { ((Ctx*)p)->sem->wait(); got++; }, &c);
  env_sleep_ms(10); vs_assert(got == 0, "wait returned without a token"); s.release(); env_sleep_ms(10); vs_assert(got == 1, "one token must wake exactly one waiter"); s.release(); env_join(t1); env_join(t2); vs_assert(got == 2 && env_sem_value("s") == 0, "tokens lost"); s.close(); vs_reach("done"); }
// lifecycle of semaphore handles
void handles() { int n = (int)vs_param("ops", 4); Semaphore a; bool av = false; int val = -1; int init = (int)vs_range("init", 0, 1000);
  for (int i = 0; i < n; i++) { switch (vs_choose(4, "op")) {
    case 0: if (!av) { vs_assert(a.open("s", init), "open failed"); av = true; if (val < 0) val = init; } break;
    case 1: a.close(); av = false; break;
    case 2: a.release(); if (av) val++; break;
    case 3: { bool r = a.wait(0); if (!av) vs_assert(!r, "wait on a closed semaphore"); else { vs_assert(r == (val > 0), "poll result wrong"); if (r) val--; } break; } }
    vs_assert(a.valid() == av, "valid() wrong"); if (val >= 0) vs_assert(env_sem_value("s") == val, "semaphore value wrong"); }
  a.close(); vs_assert(env.sems == 0, "semaphore handle leaked"); vs_reach("done"); }
// ---- event
void evDeadline() { Event e; startClock(); int64_t ms; if (vs_choose(2, "negative")) { ms = (int64_t)vs_in("neg", 64); vs_assume(ms < 0); } else ms = (int64_t)vs_range("ms", 0, 1ull << 40);
  if (ms < 0) { // must block without limit: the model reports the blocked main thread unless somebody sets the event
    env.symClock = false; static Event* pe; pe = &e; env.hookWait = false; int64_t t0 = env.now; int t = env_spawn([](void*) { env_sleep_ms(100000); pe->set(); }, nullptr); bool r = e.wait(ms); vs_assert(r, "unlimited wait gave up"); vs_assert(env.now - t0 == 100000 * MS, "unlimited wait ended early"); env_join(t); vs_reach("forever"); return; }
  bool r = e.wait(ms); vs_assert(!r, "wait on an unset event succeeded"); if (ms > 0) checkDeadline(S0, N0, ms, 20 * MS); vs_reach("timeout"); }
void evState() { int n = (int)vs_param("ops", 5); Event e(vs_choose(2, "initial")); bool s = e.isSet(), c = false;
  for (int i = 0; i < n; i++) { switch (vs_choose(6, "op")) { case 0: e.set(); s = true; break; case 1: e.unset(); s = false; break; case 2: e.cancel(); c = true; break; case 3: e.unCancel(); c = false; break; case 4: e.reset(); s = c = false; break; case 5: { int64_t t0 = env.now; bool r = e.wait(7); vs_assert(r == (s || c), "wait result"); vs_assert((env.now - t0) / MS == (r ? 0 : 7), "wait duration"); break; } }
    vs_assert(e.isSet() == s, "isSet wrong"); vs_assert(e.isCancelled() == c, "isCancelled wrong"); } vs_reach("done"); }
// waiters and a setter, all interleavings
void evRace() { static Event e; e.reset(); static int woke, op; woke = 0; op = (int)vs_choose(2, "op"); env.preemptMask = P_MTX | P_COND; env.preemptBudget = (int)vs_param("preempt", 3); env.switchBudget = 2;
  int w = (int)vs_param("waiters", 2); int t[4]; static int64_t ms; ms = vs_choose(2, "limit") ? -1 : 5000;
  for (int i = 0; i < w; i++) t[i] = env_spawn([](void*) { int64_t t0 = env.now; bool r = e.wait(ms); vs_assert(r, "a set event did not wake its waiter"); vs_assert(env.now - t0 < 100 * MS, "woken only by the timeout"); woke++; }, nullptr);
  if (vs_choose(2, "late")) env_sleep_ms(20); if (op) e.cancel(); else e.set();
  for (int i = 0; i < w; i++) env_join(t[i]); vs_assert(woke == w, "waiter lost"); vs_assert(op ? e.isCancelled() : e.isSet(), "state lost"); vs_reach("woken"); }
// the sender's pattern: consumer unsets then drains, producers add then set
void evPattern() { static Event e; e.reset(); static int items, done, N; items = done = 0; N = (int)vs_param("items", 2); env.preemptMask = P_MTX | P_COND; env.preemptBudget = (int)vs_param("preempt", 4); env.switchBudget = 1;
  int c = env_spawn([](void*) { for (;;) { if (!e.wait(-1)) vs_fail("unlimited wait gave up"); if (e.isCancelled()) return; e.unset(); while (items > 0) { items--; done++; env_yield(); } } }, nullptr);
  for (int i = 0; i < N; i++) { items++; e.set(); } env_sleep_ms(50); vs_assert(done == N, "an item stayed although the event was set after it was added"); e.cancel(); env_join(c); vs_reach("done"); }
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: deadline((int)vs_param("which", 0)); break; case 1: arrival(); break; case 2: plain(); break; case 3: handles(); break;
  case 10: evDeadline(); break; case 11: evState(); break; case 12: evRace(); break; case 13: evPattern(); break; } }
