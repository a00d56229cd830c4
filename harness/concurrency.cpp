// S01 Semaphore, S02 CyclicBarrier, S03 LazyValue, S04 SingleTimeExecutor, S05 ThreadLocalInstance.
#include <Balau/Concurrent/Semaphore.hpp>
#include <Balau/Concurrent/CyclicBarrier.hpp>
#include <Balau/Concurrent/LazyValue.hpp>
#include <Balau/Concurrent/SingleTimeExecutor.hpp>
#include <boost/thread/tss.hpp>
#include <Balau/Concurrent/ThreadLocalInstance.hpp>
#include "../sim/hlib.h"
#include <map>
#include <new>

using namespace Balau::Concurrent;
using sim::Quiet;

// ------------------------------------------------------------------ S01
namespace {
struct SemState { long init = 0, incStarted = 0, incDone = 0, decStarted = 0, decDone = 0; int lastConsumer = -1; bool oneConsumer = true; } * g_sem;
bool semDeadlock() {
  SemState & s = *g_sem;
  long avail = s.init + s.incDone - s.decDone;
  if (s.incStarted != s.incDone) sim::fail("stuck", "an increment waits for ever");
  if (avail > 0 && s.decStarted > s.decDone) sim::fail("stuck", "%ld decrement call(s) wait for ever although %ld permit(s) are available", s.decStarted - s.decDone, avail);
  sim::probe("run ended with waiters and no permits");
  return true;
}
}
SIM_SCENARIO(S01, mixed, 3, "2-6 threads increment and decrement at random, initial count 0-3; non-trivial: at least 2 decrements completed and one had to wait") {
  sim::swarm();
  int nt = (int) sim::rndRange(2, 6), maxOps = (int) sim::rndRange(1, 8);
  SemState st; g_sem = &st;
  st.init = sim::chance(0.6) ? 0 : (long) sim::rndRange(1, 3);
  double incP = 0.35 + 0.1 * (double) sim::rnd(4);
  bool roles = sim::chance(0.5), single = sim::chance(0.3);
  struct P { bool inc, keep; int64_t pause; };
  std::vector<std::vector<P>> plan((size_t) nt);
  for (int t = 0; t < nt; ++t) { int n = (int) sim::rndRange(1, maxOps); for (int i = 0; i < n; ++i) { P p; p.inc = single ? t != 0 : roles ? (t & 1) : sim::chance(incP); p.pause = sim::chance(0.1) ? (int64_t) sim::rnd(1000000) : 0; p.keep = sim::keepOp(); plan[(size_t) t].push_back(p); } }
  static long slots[256];
  std::vector<long *> published;
  Semaphore * sem = new Semaphore((unsigned) st.init);
  sim::onDeadlock(semDeadlock);
  long waited = 0;
  auto body = [&] (int t) {
    for (auto & p : plan[(size_t) t]) {
      if (!p.keep) continue;
      if (p.pause) sim::sleepNs(p.pause);
      if (p.inc) {
        { Quiet q; long * s = &slots[st.incStarted]; sim::payloadWrite(s); *s = 1; published.push_back(s); ++st.incStarted; sim::note("increment starts"); }
        sem->increment();
        { Quiet q; ++st.incDone; sim::note("increment done"); }
      } else {
        { Quiet q; if (st.init + st.incDone - st.decDone <= 0) ++waited; ++st.decStarted; sim::note("decrement starts"); }
        sem->decrement();
        { Quiet q; ++st.decDone; sim::note("decrement done");
          if (st.lastConsumer >= 0 && st.lastConsumer != t) st.oneConsumer = false;
          st.lastConsumer = t;
          if (st.decDone > st.init + st.incStarted) sim::fail("too-many-permits", "%ld decrements completed with initial count %ld and only %ld increments started", st.decDone, st.init, st.incStarted);
          // this thread alone has consumed all permits so far: it must see what every incrementing thread did before
          if (st.oneConsumer && st.init == 0 && st.decDone == st.incStarted) { sim::probe("visibility checked"); for (long * s : published) sim::payloadRead(s); } }
      }
    }
  };
  std::vector<std::function<void ()>> bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&body, t] { HL_TRY(body(t), "a semaphore operation") });
  if (st.init || nt) { long d = 0; for (auto & v : plan) for (auto & p : v) d += !p.inc; if (d >= 2) sim::nontrivial(); }
  hl::runThreads(bodies);
  // the remaining permits are all usable
  long left = st.init + st.incDone - st.decDone;
  for (long i = 0; i < left; ++i) { ++st.decStarted; sem->decrement(); ++st.decDone; }
  delete sem;
}

// ------------------------------------------------------------------ S02
SIM_SCENARIO(S02, generations, 1, "1-6 threads pass 1-7 generations, optionally followed by a reconfiguration; non-trivial: at least 2 threads and 2 generations") {
  sim::swarm();
  int phases = (int) sim::rndRange(1, 3);
  int n0 = (int) sim::rndRange(1, 6);
  CyclicBarrier * b = new CyclicBarrier((unsigned) n0);
  static char slot[3][8][8];
  for (int ph = 0; ph < phases; ++ph) {
    int n = ph == 0 ? n0 : (int) sim::rndRange(1, 6), gens = (int) sim::rndRange(1, n > 4 ? 3 : 7);
    if (ph) b->reconfigure((unsigned) n);
    if (n > 1 && gens > 1) sim::nontrivial();
    std::vector<int> arrived((size_t) gens, 0), released((size_t) gens, 0);
    std::vector<std::vector<int64_t>> pause((size_t) n);
    for (auto & v : pause) for (int g = 0; g < gens; ++g) v.push_back(sim::chance(0.15) ? (int64_t) sim::rnd(3000000) : 0);
    // the minimiser may leave out trailing generations for all threads alike
    int useGens = gens; for (int g = gens - 1; g >= 0; --g) if (!sim::keepOp()) useGens = g;
    std::vector<std::function<void ()>> bodies;
    for (int t = 0; t < n; ++t) bodies.push_back([&, t] {
      for (int g = 0; g < useGens; ++g) {
        if (pause[(size_t) t][(size_t) g]) sim::sleepNs(pause[(size_t) t][(size_t) g]);
        { Quiet q; sim::payloadWrite(&slot[ph][g][t]); ++arrived[(size_t) g]; sim::note("arrives in generation %d", g); }
        HL_TRY(b->countdown(), "countdown")
        { Quiet q; ++released[(size_t) g]; sim::note("released from generation %d", g);
          if (arrived[(size_t) g] != n) sim::fail("released-early", "a thread was released from generation %d after %d of %d arrivals", g, arrived[(size_t) g], n);
          for (int k = 0; k < n; ++k) sim::payloadRead(&slot[ph][g][k]); }
      }
    });
    hl::runThreads(bodies);
    for (int g = 0; g < useGens; ++g) if (released[(size_t) g] != n) sim::fail("left-behind", "generation %d released %d of %d threads", g, released[(size_t) g], n);
  }
  delete b;
}

// ------------------------------------------------------------------ S03
namespace {
struct UserError { long n; };
struct Val {
  long id = 0, check = 0; std::unique_ptr<long> heap;
  Val() = default;
  explicit Val(long i) : id(i), check(~i), heap(new long(i)) {}
  Val(Val && v) noexcept : id(v.id), check(v.check), heap(std::move(v.heap)) {}
  Val(const Val & v) : id(v.id), check(v.check), heap(v.heap ? new long(*v.heap) : nullptr) {}
  Val & operator = (Val && v) noexcept { sim::payloadWrite(this); id = v.id; check = v.check; heap = std::move(v.heap); return *this; }
  Val & operator = (const Val & v) { sim::payloadWrite(this); id = v.id; check = v.check; heap.reset(v.heap ? new long(*v.heap) : nullptr); return *this; }
};
}
SIM_SCENARIO(S03, lazy, 1, "2-6 threads request 1-2 lazy values, construction functions throw or are slow in some runs; non-trivial: at least 2 threads requested the same value") {
  sim::swarm();
  int nt = (int) sim::rndRange(2, 6), nv = (int) sim::rndRange(1, 2), maxReq = (int) sim::rndRange(1, 4);
  double excP = sim::chance(0.5) ? 0.5 : 0; bool slow = sim::chance(0.5);
  struct VS { LazyValue<Val> * v = nullptr; int ok = 0, destroyed = 0, inside = 0; long goodId = 0; Val * addr = nullptr; bool withDestroy = false; };
  std::vector<VS> vs((size_t) nv); long nextId = 0;
  for (auto & s : vs) {
    s.withDestroy = sim::chance(0.7);
    VS * p = &s;
    s.v = s.withDestroy ? new LazyValue<Val>([p] (Val & x) { Quiet q; ++p->destroyed; if (&x != p->addr || x.id != p->goodId) sim::fail("wrong-value-destroyed", "the destruction function got another value than the constructed one"); }) : new LazyValue<Val>();
  }
  struct P { int v; bool keep; };
  std::vector<std::vector<P>> plan((size_t) nt);
  for (auto & p : plan) { int n = (int) sim::rndRange(1, maxReq); for (int i = 0; i < n; ++i) { P x; x.v = (int) sim::rnd((uint64_t) nv); x.keep = sim::keepOp(); p.push_back(x); } }
  std::vector<std::function<void ()>> bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&, t] {
    for (auto & p : plan[(size_t) t]) {
      if (!p.keep) continue;
      VS & s = vs[(size_t) p.v];
      bool called = false, threw = false; long mine = 0;
      try {
        Val & r = (*s.v)([&] () -> Val {
          { Quiet q; called = true; mine = ++nextId; sim::note("construct value %d as %ld", p.v, mine); if (s.ok) sim::fail("constructed-twice", "the construction function runs again after it had completed"); if (s.inside++) sim::fail("constructed-twice", "two construction functions run at the same time"); }
          if (slow) sim::sleepNs(200000); else sim::yield();
          { Quiet q; --s.inside; }
          if (excP > 0 && sim::fault(sim::F_USEREXC, excP)) { threw = true; throw UserError { mine }; }
          { Quiet q; ++s.ok; s.goodId = mine; if (s.ok > 1) sim::fail("constructed-twice", "the construction function completed %d times", s.ok); }
          return Val(mine);
        });
        Quiet q;
        sim::payloadRead(&r);
        if (threw) sim::fail("exception-lost", "the exception of the construction function did not reach its caller");
        if (!s.ok) sim::fail("unconstructed", "a value was handed out although no construction completed");
        if (!s.addr) s.addr = &r;
        if (s.addr != &r) sim::fail("different-object", "two callers received different objects");
        if (r.id != s.goodId || r.check != ~r.id || !r.heap || *r.heap != r.id) sim::fail("incomplete-value", "a caller received value %ld, constructed was %ld", r.id, s.goodId);
      } catch (const UserError & e) {
        if (!threw || e.n != mine) sim::fail("wrong-exception", "a caller received the exception of another caller's construction");
        sim::note("construction failed, reported");
      }
    }
  });
  if (nt >= 2) sim::nontrivial();
  hl::runThreads(bodies);
  for (auto & s : vs) {
    if (s.v->isConstructed() != (s.ok == 1)) sim::fail("wrong-state", "isConstructed() gives %d after %d completed constructions", (int) s.v->isConstructed(), s.ok);
    if (s.destroyed) sim::fail("destroyed-early", "the destruction function ran before the holder was destroyed");
    delete s.v;
    int want = s.ok && s.withDestroy ? 1 : 0;
    if (s.destroyed != want) sim::fail("destruction-count", "the destruction function ran %d times, expected %d", s.destroyed, want);
  }
}

// ------------------------------------------------------------------ S04
SIM_SCENARIO(S04, single, 1, "2-6 threads invoke 1-2 executors created in zeroed or dirty memory; code throws or is slow in some runs; non-trivial: at least 2 threads") {
  sim::swarm();
  int nt = (int) sim::rndRange(2, 6), nv = (int) sim::rndRange(1, 2), maxReq = (int) sim::rndRange(1, 4);
  double excP = sim::chance(0.5) ? 0.5 : 0; bool slow = sim::chance(0.5);
  static char effect[2];
  struct VS { SingleTimeExecutor * e = nullptr; char * mem = nullptr; int ok = 0, inside = 0, destroyed = 0; bool withD = false; long cur = 0; };
  std::vector<VS> vs((size_t) nv);
  static const int fills[] = { 0, 1, 0xFF, 0xA5 };
  for (int i = 0; i < nv; ++i) {
    VS & s = vs[(size_t) i]; VS * p = &s; char * ef = &effect[i];
    s.withD = sim::chance(0.6);
    int fill = fills[sim::rnd(4)]; if (fill) sim::count(sim::F_DIRTYMEM);
    s.mem = (char *) ::operator new(sizeof(SingleTimeExecutor)); memset(s.mem, fill, sizeof(SingleTimeExecutor));
    std::function<void ()> code = [=] {
      { Quiet q; sim::note("code of executor %d starts", i); if (p->ok) sim::fail("executed-twice", "the code runs again after it had completed"); if (p->inside++) sim::fail("executed-twice", "the code runs twice at the same time"); }
      if (slow) sim::sleepNs(200000); else sim::yield();
      { Quiet q; --p->inside; }
      if (excP > 0 && sim::fault(sim::F_USEREXC, excP)) throw UserError { sim::self() };
      Quiet q; ++p->ok; sim::payloadWrite(ef); sim::note("code of executor %d completes", i);
    };
    std::function<void ()> dcode = [=] { Quiet q; ++p->destroyed; };
    s.e = s.withD ? new (s.mem) SingleTimeExecutor(code, dcode) : new (s.mem) SingleTimeExecutor(code);
  }
  struct P { int v; bool keep; };
  std::vector<std::vector<P>> plan((size_t) nt);
  for (auto & p : plan) { int n = (int) sim::rndRange(1, maxReq); for (int i = 0; i < n; ++i) { P x; x.v = (int) sim::rnd((uint64_t) nv); x.keep = sim::keepOp(); p.push_back(x); } }
  bool nobody = sim::chance(0.1);
  if (nobody) for (auto & p : plan) p.clear(); else sim::nontrivial();
  std::vector<std::function<void ()>> bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&, t] {
    for (auto & p : plan[(size_t) t]) {
      if (!p.keep) continue;
      VS & s = vs[(size_t) p.v];
      try {
        (*s.e)();
        Quiet q;
        if (s.ok != 1) sim::fail("not-executed", "an invocation returned although the code has not completed");
        sim::payloadRead(&effect[p.v]);
        sim::note("invocation of executor %d returns", p.v);
      } catch (const UserError & e) {
        if (e.n != sim::self()) sim::fail("wrong-exception", "a caller received the exception of another caller");
        sim::note("invocation of executor %d throws", p.v);
      }
    }
  });
  hl::runThreads(bodies);
  for (auto & s : vs) {
    if (s.e->hasExecuted() != (s.ok == 1)) sim::fail("wrong-state", "hasExecuted() gives %d after %d completed executions", (int) s.e->hasExecuted(), s.ok);
    if (s.destroyed) sim::fail("destructor-count", "the destructor code ran before destruction");
    s.e->~SingleTimeExecutor();
    ::operator delete(s.mem);
    int want = s.ok && s.withD ? 1 : 0;
    if (s.destroyed != want) sim::fail("destructor-count", "the destructor code ran %d times, expected %d (executed %d times)", s.destroyed, want, s.ok);
  }
}

// ------------------------------------------------------------------ S05
namespace {
struct ObjRec { int thread, holder; const void * addr; int destroyed; };
std::vector<ObjRec> * g_objs;
thread_local int tl_holder = -1; // holder of the access in progress
struct Local {
  long rec;
  explicit Local(int) { init(); }
  void init() { Quiet q; rec = (long) g_objs->size(); g_objs->push_back(ObjRec { sim::self(), tl_holder, this, 0 }); }
  ~Local() { Quiet q; ObjRec & o = (*g_objs)[(size_t) rec]; if (o.addr != this) sim::fail("wrong-object-destroyed", "an object that was never created is destroyed"); if (++o.destroyed > 1) sim::fail("destroyed-twice", "a thread local object is destroyed twice"); }
  Local(const Local &) = delete;
};
struct LocalD : Local { LocalD() : Local(0) {} };

template <typename T, bool Default> void tli() {
  sim::swarm();
  int nt = (int) sim::rndRange(1, 5), nh = (int) sim::rndRange(1, 3), maxOps = (int) sim::rndRange(1, 6);
  double excP = sim::chance(0.3) ? 0.3 : 0;
  std::vector<ObjRec> objs; objs.reserve(200); g_objs = &objs;
  std::vector<ThreadLocalInstance<T> *> holders;
  for (int i = 0; i < nh; ++i) holders.push_back(new ThreadLocalInstance<T>());
  bool earlyDelete = sim::chance(0.4); // one holder is destroyed while threads that used it are still running
  bool reborn = earlyDelete && sim::chance(0.5); // and another one is then created at the same address
  int victim = earlyDelete ? (int) sim::rnd((uint64_t) nh) : -1; int usersLeft = nt; bool gone = false;
  struct P { int h; bool fn, keep, late; };
  std::vector<std::vector<P>> plan((size_t) nt + 1);
  for (auto & v : plan) { int n = (int) sim::rndRange(1, maxOps); for (int i = 0; i < n; ++i) { P p; p.h = (int) sim::rnd((uint64_t) nh); p.fn = !Default || sim::chance(0.5); p.late = sim::chance(0.3); p.keep = sim::keepOp(); v.push_back(p); } }
  auto access = [&] (const P & p, std::map<int, T *> & seen) {
    tl_holder = p.h == victim && gone ? nh : p.h; bool called = false;
    try {
      T * r;
      std::function<T * ()> make = [&] () -> T * {
        called = true; if (seen.count(p.h)) sim::fail("created-twice", "a second object is created for the same thread and holder");
        if (excP > 0 && sim::fault(sim::F_USEREXC, excP)) throw UserError { sim::self() };
        if constexpr (Default) return new T(); else return new T(1);
      };
      if constexpr (Default) r = p.fn ? &(*holders[(size_t) p.h])(make) : &(*holders[(size_t) p.h])(); else r = &(*holders[(size_t) p.h])(make);
      Quiet q;
      if (!r) sim::fail("no-object", "an access returned no object");
      ObjRec & o = objs[(size_t) r->rec];
      sim::note("holder %d gives object %ld", p.h, r->rec);
      if (o.addr != r || o.destroyed) sim::fail("dead-object", "an access returned an object that is already destroyed");
      if (o.thread != sim::self()) sim::fail("shared-object", "thread T%d received the object of thread T%d", sim::self(), o.thread);
      if (o.holder != tl_holder) sim::fail("shared-object", "holder %d returned the object of holder %d", tl_holder, o.holder);
      if (seen.count(p.h) && seen[p.h] != r) sim::fail("changed-object", "a thread received a different object from the same holder");
      seen[p.h] = r;
    } catch (const UserError & e) { if (!called || e.n != sim::self()) sim::fail("wrong-exception", "an unexpected exception was thrown"); }
  };
  std::vector<std::thread> threads;
  for (int t = 0; t < nt; ++t) threads.emplace_back([&, t] {
    std::map<int, T *> seen; { Quiet q; }
    for (auto & p : plan[(size_t) t]) if (p.keep && !(p.late && p.h == victim)) access(p, seen);
    { Quiet q; --usersLeft; }
    if (earlyDelete) { while (!gone) sim::yield(); Quiet q; seen.erase(victim); }
    for (auto & p : plan[(size_t) t]) if (p.keep && (p.h != victim || reborn)) access(p, seen);
  });
  sim::nontrivial();
  std::map<int, T *> seen;
  for (auto & p : plan[(size_t) nt]) if (p.keep && p.h != victim) access(p, seen);
  if (earlyDelete) { while (usersLeft) sim::yield(); auto *& v = holders[(size_t) victim]; if (reborn) { v->~ThreadLocalInstance<T>(); new (v) ThreadLocalInstance<T>(); } else { delete v; v = nullptr; } gone = true; }
  std::vector<int> ids;
  for (auto & t : threads) t.join();
  for (auto & o : objs) if (o.thread != sim::self() && o.destroyed != 1) sim::fail("not-destroyed", "an object of a thread that has ended was destroyed %d times", o.destroyed);
  for (auto * h : holders) delete h;
  for (auto & o : objs) if (o.destroyed != 1) sim::fail("not-destroyed", "an object was destroyed %d times although its thread or holder has ended", o.destroyed);
}
}
SIM_SCENARIO(S05, defaultConstructed, 2, "1-5 threads and the main thread access 1-3 holders, one of which may be destroyed while its users run, and replaced by another one at the same address; factories throw in some runs") { tli<LocalD, true>(); }
SIM_SCENARIO(S05, notDefaultConstructible, 1, "the same with a type that has no default constructor") { tli<Local, false>(); }
