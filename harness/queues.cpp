// Q01, Q02: ArrayBlockingQueue. Q03: SynchronizedQueue.
#include <Balau/Container/ArrayBlockingQueue.hpp>
#include <Balau/Container/SynchronizedQueue.hpp>
#include "../sim/hlib.h"
#include <deque>

using namespace Balau;
using namespace Balau::Container;
using sim::Quiet;

namespace {

// Move-only element: the payload is written by the producer and read by the receiver.
struct Payload { long id; long check; };
struct Elem {
  long id = -1;
  std::unique_ptr<Payload> p;
  Elem() = default;
  explicit Elem(long i) : id(i), p(new Payload { i, ~i }) { sim::payloadWrite(p.get()); }
  Elem(Elem && r) noexcept : id(r.id), p(std::move(r.p)) { r.id = -2; }
  Elem & operator = (Elem && r) noexcept { id = r.id; p = std::move(r.p); r.id = -2; return *this; }
  Elem(const Elem &) = delete;
  long receive() {
    if (id < 0) return id;
    if (!p) sim::fail("lost-content", "element %ld was handed out without its content", id);
    sim::payloadRead(p.get());
    if (p->id != id || p->check != ~id) sim::fail("lost-content", "element %ld was handed out with the content of element %ld", id, p->id);
    return id;
  }
};

enum K { ENQ, TRYENQ, TIMENQ, DEQ, TRYDEQ, TIMDEQ, EMPTY, FULL };
const char * const kn[] = { "enqueue", "tryEnqueue", "tryEnqueue(wait)", "dequeue", "tryDequeue", "tryDequeue(wait)", "empty", "full" };

struct Model {
  struct State { std::vector<long> q; size_t cap = 0; };
  static uint64_t hash(const State & s) { uint64_t h = 7; for (long v : s.q) h = h * 1000003 + (uint64_t) v + 1; return h; }
  static bool apply(State & s, const hl::Op & o) {
    switch (o.kind) {
      case ENQ: case TRYENQ: case TIMENQ:
        if (!o.ok) return s.q.size() >= s.cap;
        if (s.q.size() >= s.cap) return false;
        s.q.push_back(o.arg); return true;
      case DEQ: case TRYDEQ: case TIMDEQ:
        if (!o.ok) return s.q.empty();
        if (s.q.empty() || s.q.front() != o.res) return false;
        s.q.erase(s.q.begin()); return true;
      case EMPTY: return s.q.empty() == (o.res != 0);
      case FULL: return (s.q.size() >= s.cap) == (o.res != 0);
    }
    return false;
  }
};

struct Plan { int kind; long arg; int wait; int variant; int64_t pause; };
struct Rec : hl::Op { int64_t wait = 0, mono0 = 0, idle0 = 0; int nFull = 0, nSpace = 0; uint64_t lastFull = 0; };

std::vector<Rec> * g_hist;
size_t g_cap;

void describe(const std::vector<Rec> & h) {
  for (auto & o : h) sim::note("  op thread %d %s arg %ld -> %s %ld [%llu,%llu]", o.thread, kn[o.kind], o.arg, o.ok ? "ok" : "refused", o.res, (unsigned long long) o.inv, (unsigned long long) o.ret);
}

void checkHistory(bool pending) {
  Quiet q;
  std::vector<hl::Op> done; long size = 0; int pe = 0, pd = 0; bool tw = false;
  for (auto & o : *g_hist) {
    if (!o.ret) { if (o.kind <= TIMENQ) ++pe; else ++pd; if (o.kind != ENQ && o.kind != DEQ) tw = true; continue; }
    done.push_back(o);
    if (o.kind <= TIMENQ && o.ok) ++size;
    if (o.kind >= DEQ && o.kind <= TIMDEQ && o.ok) --size;
  }
  if (pending) {
    describe(*g_hist);
    if (tw) sim::fail("stuck", "a timed or immediate operation waits for ever");
    if (pd && size > 0) sim::fail("stuck", "%d dequeue call(s) wait for ever although %ld element(s) are in the queue", pd, size);
    if (pe && size < (long) g_cap) sim::fail("stuck", "%d enqueue call(s) wait for ever although only %ld of %zu places are taken", pe, size, g_cap);
    if (pe || pd) sim::probe("run ended with callers legitimately blocked");
    // a blocked enqueue must have announced that the queue is full
    for (auto & o : *g_hist) if (!o.ret && o.kind == ENQ && o.nFull != 1) sim::fail("callback", "an enqueue call that waits for space called the queue-full callback %d times", o.nFull);
  }
  Model::State s; s.cap = g_cap;
  hl::Checker<Model> c(done);
  bool ok = c.run(s);
  if (c.exhausted) { sim::probe("linearizability search gave up"); return; }
  if (!ok) { describe(*g_hist); sim::fail("not-linearizable", "the history of %zu operations on a queue of capacity %zu is not a sequential FIFO history", done.size(), g_cap); }
}
bool deadlockHook() { checkHistory(true); return true; }

// kindMix: 0 = everything, 1 = blocking operations, 2 = timed operations
void blockingQueue(bool timing) {
  sim::swarm();
  if (timing) { static const double j[] = { 0, 0.01, 0.05, 0.2 }; sim::tuning().clockJump = j[sim::rnd(4)]; sim::tuning().maxStallNs = sim::chance(0.5) ? 5000000 : 2000000000; }
  int nt = (int) sim::rndRange(2, timing ? 6 : 5);
  size_t cap = g_cap = (size_t) sim::rndRange(1, sim::chance(0.3) ? 5 : 2);
  int maxOps = (int) sim::rndRange(1, nt > 4 ? 4 : 6);
  int style = (int) sim::rnd(4); // 0 mixed, 1 blocking only, 2 mostly timed, 3 producers and consumers separated
  double pauseP = sim::chance(0.5) ? 0.3 : 0.02;
  std::vector<std::vector<Plan>> plan((size_t) nt);
  std::vector<std::vector<bool>> keep((size_t) nt);
  long id = 0;
  for (int t = 0; t < nt; ++t) {
    int n = (int) sim::rndRange(1, maxOps);
    bool producer = sim::chance(0.5);
    for (int i = 0; i < n; ++i) {
      Plan p;
      bool enq = style == 3 ? producer : sim::chance(0.5);
      uint64_t f = sim::rnd(10);
      int flavour = style == 1 ? 0 : style == 2 ? (f < 1 ? 0 : f < 3 ? 1 : 2) : (f < 5 ? 0 : f < 8 ? 1 : 2);
      p.kind = (enq ? ENQ : DEQ) + flavour;
      if (sim::chance(0.04)) p.kind = sim::chance(0.5) ? EMPTY : FULL;
      p.arg = enq ? ++id : 0;
      static const int waits[] = { 0, 1, 2, 5, 20, 100, 1000, 30000 };
      p.wait = waits[sim::rnd(8)];
      p.variant = (int) sim::rnd(4);
      p.pause = sim::chance(pauseP) ? (int64_t) sim::rnd(40) * 500000 : 0;
      plan[(size_t) t].push_back(p);
      keep[(size_t) t].push_back(sim::keepOp());
    }
  }
  std::vector<Rec> hist; hist.reserve(100); g_hist = &hist;
  bool useDefaults = sim::chance(0.5);
  int dFull = 0, dSpace = 0; (void) dFull; (void) dSpace;
  // callbacks find the operation they belong to by the element they are given
  auto onFull = [&] (const Elem & e) { Quiet q; for (auto & o : hist) if (o.kind <= TIMENQ && o.arg == e.id) { ++o.nFull; o.lastFull = sim::eventNo(); return; } sim::fail("callback", "queue-full callback called with an element (%ld) that is not being enqueued", e.id); };
  auto onSpace = [&] (const Elem & e) { Quiet q; for (auto & o : hist) if (o.kind <= TIMENQ && o.arg == e.id) { ++o.nSpace; if (o.nFull == 0) sim::fail("callback", "space-available callback called without a preceding queue-full callback"); return; } sim::fail("callback", "space-available callback called with an element (%ld) that is not being enqueued", e.id); };
  ArrayBlockingQueue<Elem> * queue = useDefaults ? new ArrayBlockingQueue<Elem>((unsigned) cap, onFull, onSpace) : new ArrayBlockingQueue<Elem>((unsigned) cap);
  std::function<void (const Elem &)> cf = onFull, cs = onSpace;
  sim::onDeadlock(deadlockHook);

  auto body = [&] (int t) {
    for (size_t i = 0; i < plan[(size_t) t].size(); ++i) {
      if (!keep[(size_t) t][i]) continue;
      const Plan & p = plan[(size_t) t][i];
      if (p.pause) sim::sleepNs(p.pause);
      size_t r;
      { Quiet q; r = hist.size(); hist.emplace_back(); Rec & o = hist[r]; o.thread = t; o.kind = p.kind; o.arg = p.arg; o.wait = p.kind == TIMENQ || p.kind == TIMDEQ ? (int64_t) p.wait * 1000000 : 0;
        sim::note("%s(%ld) wait %d ms starts", kn[p.kind], p.arg, p.wait); o.mono0 = sim::mono(); o.idle0 = sim::idleTime(); o.inv = sim::eventNo(); }
      bool ok = true; long res = 0;
      std::chrono::milliseconds w(p.wait);
      HL_TRY(
        switch (p.kind) {
          case ENQ: if (useDefaults) queue->enqueue(Elem(p.arg)); else queue->enqueue(Elem(p.arg), cf, cs); break;
          case TRYENQ: if (useDefaults) ok = queue->tryEnqueue(Elem(p.arg)); else ok = queue->tryEnqueue(Elem(p.arg), std::chrono::milliseconds(0), cf, cs); break;
          case TIMENQ: if (useDefaults) ok = queue->tryEnqueue(Elem(p.arg), w); else ok = queue->tryEnqueue(Elem(p.arg), w, cf, cs); break;
          case DEQ: res = queue->dequeue().receive(); break;
          case TRYDEQ: if (p.variant == 0) { Elem e = queue->tryDequeue(); res = e.receive(); ok = res >= 0; } else { ok = p.variant & 1; bool was = ok; Elem e = queue->tryDequeue(ok); (void) was; res = e.receive(); if (ok != (res >= 0)) sim::fail("untruthful-result", "tryDequeue reported %s but %s an element", ok ? "success" : "failure", res >= 0 ? "returned" : "did not return"); } break;
          case TIMDEQ: if (p.variant == 0) { Elem e = queue->tryDequeue(w); res = e.receive(); ok = res >= 0; } else { ok = p.variant & 1; Elem e = queue->tryDequeue(w, ok); res = e.receive(); if (ok != (res >= 0)) sim::fail("untruthful-result", "tryDequeue reported %s but %s an element", ok ? "success" : "failure", res >= 0 ? "returned" : "did not return"); } break;
          case EMPTY: res = queue->empty(); break;
          case FULL: res = queue->full(); break;
        }, kn[p.kind])
      {
        Quiet q; Rec & o = hist[r]; o.ret = sim::eventNo(); o.ok = ok; o.res = res;
        if (o.kind == DEQ && res < 0) sim::fail("lost-content", "dequeue returned an element that was never enqueued");
        int64_t idle = sim::idleTime() - o.idle0, el = sim::mono() - o.mono0;
        sim::note("%s(%ld) returns %s %ld after %.3f ms", kn[p.kind], p.arg, ok ? "ok" : "refused", res, (double) el / 1e6);
        if (o.kind != ENQ && o.kind != DEQ) {
          if (idle > o.wait + 1000000) sim::fail("late", "%s with wait time %lld ms took %lld ms in which no thread ran", kn[o.kind], (long long) (o.wait / 1000000), (long long) (idle / 1000000));
          if (!ok && o.wait && el < o.wait) sim::fail("gave-up-early", "%s with wait time %lld ms gave up after %.3f ms", kn[o.kind], (long long) (o.wait / 1000000), (double) el / 1e6);
          if (!ok && o.wait) sim::probe("timed operation gave up");
        }
        if (o.kind <= TIMENQ) {
          if (o.nFull > 1 || o.nSpace > 1) sim::fail("callback", "callbacks called more than once for one enqueue (full %d, space %d)", o.nFull, o.nSpace);
          if (ok && o.nFull != o.nSpace) sim::fail("callback", "an accepted enqueue called the queue-full callback %d and the space-available callback %d times", o.nFull, o.nSpace);
          if (!ok && (o.nFull != 1 || o.nSpace != 0)) sim::fail("callback", "a refused enqueue called the queue-full callback %d and the space-available callback %d times", o.nFull, o.nSpace);
          if (o.nFull && ok) sim::probe("enqueue waited for space");
        }
      }
    }
  };
  std::vector<std::function<void ()>> bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&body, t] { body(t); });
  hl::runThreads(bodies);
  // drain
  for (;;) {
    size_t r; { Quiet q; r = hist.size(); hist.emplace_back(); hist[r].thread = 99; hist[r].kind = TRYDEQ; hist[r].inv = sim::eventNo(); }
    bool ok = true; Elem e = queue->tryDequeue(ok); long res = e.receive();
    { Quiet q; hist[r].ok = ok; hist[r].res = res; hist[r].ret = sim::eventNo(); }
    if (!ok) break;
    if (hist.size() > 60) break;
  }
  int conc = 0;
  for (auto & o : hist) if (o.ok) ++conc;
  if (conc >= 3) sim::nontrivial();
  checkHistory(false);
  { Quiet q; }
  delete queue;
}

} // namespace

SIM_SCENARIO(Q01, mixed, 1, "2-5 threads run random enqueue/dequeue operations of every flavour on a queue of capacity 1-5; non-trivial: at least 3 operations transferred an element") { blockingQueue(false); }
SIM_SCENARIO(Q02, timed, 1, "2-6 threads, long stalls, wall clock steps and spurious wakeups; non-trivial: at least 3 operations transferred an element") { blockingQueue(true); }

// ------------------------------------------------------------------ SynchronizedQueue
namespace {
struct UModel {
  struct State { std::vector<long> q; };
  static uint64_t hash(const State & s) { uint64_t h = 7; for (long v : s.q) h = h * 1000003 + (uint64_t) v + 1; return h; }
  static bool apply(State & s, const hl::Op & o) {
    switch (o.kind) {
      case ENQ: if (o.ok) s.q.push_back(o.arg); return true;
      case DEQ: if (!o.ok) return s.q.empty(); if (s.q.empty() || s.q.front() != o.res) return false; s.q.erase(s.q.begin()); return true;
      case EMPTY: return s.q.empty() == (o.res != 0);
    }
    return false;
  }
};
}

SIM_SCENARIO(Q03, mixed, 1, "2-5 threads run random enqueue, dequeue and empty operations; allocation failures in some runs; non-trivial: at least 3 transfers and one concurrent pair") {
  sim::swarm();
  int nt = (int) sim::rndRange(2, 5), maxOps = (int) sim::rndRange(1, 6);
  double enqP = 0.3 + 0.1 * (double) sim::rnd(4);
  double allocP = sim::chance(0.2) ? 0.1 : 0;
  struct P { int kind; long arg; bool keep; };
  std::vector<std::vector<P>> plan((size_t) nt); long id = 0;
  for (auto & v : plan) { int n = (int) sim::rndRange(1, maxOps); for (int i = 0; i < n; ++i) { P p; p.kind = sim::chance(enqP) ? ENQ : sim::chance(0.75) ? DEQ : EMPTY; p.arg = ++id; p.keep = sim::keepOp(); v.push_back(p); } }
  std::vector<hl::Op> hist; hist.reserve(100);
  SynchronizedQueue<Elem> queue;
  auto body = [&] (int t) {
    for (auto & p : plan[(size_t) t]) {
      if (!p.keep) continue;
      size_t r; int64_t idle0;
      { Quiet q; r = hist.size(); hist.emplace_back(); hl::Op & o = hist[r]; o.thread = t; o.kind = p.kind; o.arg = p.arg; idle0 = sim::idleTime(); sim::note("%s(%ld) starts", kn[p.kind], p.arg); o.inv = sim::eventNo(); }
      bool ok = true; long res = 0;
      if (p.kind == ENQ) {
        Elem e(p.arg);
        try { sim::AllocFaults f(allocP); queue.enqueue(std::move(e)); } catch (const std::bad_alloc &) { ok = false; }
      } else if (p.kind == DEQ) {
        try { Elem e = queue.dequeue(); res = e.receive(); if (res < 0) sim::fail("lost-content", "dequeue returned an element that was never enqueued"); }
        catch (const Exception::EmptyException &) { ok = false; }
      } else res = queue.empty();
      { Quiet q; hl::Op & o = hist[r]; o.ok = ok; o.res = res; o.ret = sim::eventNo(); sim::note("%s(%ld) returns %s %ld", kn[p.kind], p.arg, ok ? "ok" : "refused", res);
        if (sim::idleTime() != idle0) sim::fail("waits", "%s waited for another thread", kn[p.kind]); }
    }
  };
  std::vector<std::function<void ()>> bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&body, t] { HL_TRY(body(t), "a queue operation") });
  hl::runThreads(bodies);
  for (;;) {
    Quiet q; hl::Op o; o.thread = 99; o.kind = DEQ; o.inv = sim::eventNo(); o.ok = true;
    try { Elem e = queue.dequeue(); o.res = e.receive(); } catch (const Exception::EmptyException &) { o.ok = false; }
    o.ret = sim::eventNo(); hist.push_back(o);
    if (!o.ok || hist.size() > 60) break;
  }
  int x = 0; for (auto & o : hist) if (o.kind == DEQ && o.ok) ++x;
  if (x >= 3) sim::nontrivial();
  Quiet q;
  hl::Checker<UModel> c(hist);
  if (!c.run({}) && !c.exhausted) {
    for (auto & o : hist) sim::note("  op thread %d %s arg %ld -> %s %ld [%llu,%llu]", o.thread, kn[o.kind], o.arg, o.ok ? "ok" : "refused", o.res, (unsigned long long) o.inv, (unsigned long long) o.ret);
    sim::fail("not-linearizable", "the history of %zu operations is not a sequential FIFO history", hist.size());
  }
}
