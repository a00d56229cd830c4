// M01, M02: SharedMemoryQueue. M03: MSharedMemoryObject, USharedMemoryObject.
#include <Balau/Interprocess/MSharedMemoryObject.hpp>
#include <Balau/Interprocess/USharedMemoryObject.hpp>
#include <Balau/Serialization/SerializationMacros.hpp>
#include <Balau/Interprocess/SharedMemoryQueue.hpp>
#include <boost/serialization/string.hpp>
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdlib>
#include <ctime>
#include <map>
#include <set>
#include "../sim/hlib.h"

using namespace Balau;
using namespace Balau::Interprocess;
using sim::Quiet;

namespace {

std::string bodyOf(int producer, int seq, size_t len) {
  std::string s(len, '\0'); uint32_t x = (uint32_t) (producer * 7919 + seq * 104729 + 12345);
  for (auto & c : s) { x = x * 1664525u + 1013904223u; c = (char) (x >> 24); }
  return s;
}

struct Msg {
  int producer = -1, seq = -1;
  std::string body;
  template <typename Archive> void serialize(Archive & archive, unsigned int) { archive & BoostSerialization(producer) & BoostSerialization(seq) & BoostSerialization(body); }
};

struct Recv { int consumer, producer, seq; uint64_t inv, ret; };
struct Board { // visible in all simulated processes
  int nrecv; Recv recv[400];
  int sent[8][64];            // 0 not tried, 1 accepted, 2 refused, 3 in progress
  int producersDone, ready, flag[8];
  long val[16];
  int constructions;
};
Board * B;

void checkContent(const Msg & m, const std::vector<std::vector<size_t>> & len, const char * who) {
  if (m.producer < 0 || m.producer >= (int) len.size() || m.seq < 0 || m.seq >= (int) len[(size_t) m.producer].size())
    sim::fail("altered-message", "%s received a message (%d, %d) that nobody sent", who, m.producer, m.seq);
  size_t l = len[(size_t) m.producer][(size_t) m.seq];
  if (m.body != bodyOf(m.producer, m.seq, l)) sim::fail("altered-message", "%s received message (%d, %d) with a different content (%zu bytes, %zu were sent)", who, m.producer, m.seq, m.body.size(), l);
}
void record(int consumer, const Msg & m, uint64_t inv) {
  Quiet q;
  if (B->nrecv >= 400) sim::fail("duplicate-delivery", "more messages received than were sent");
  B->recv[B->nrecv++] = Recv { consumer, m.producer, m.seq, inv, sim::eventNo() };
  sim::note("consumer %d received message (%d, %d) of %zu bytes", consumer, m.producer, m.seq, m.body.size());
}
void checkDelivery(const std::vector<std::vector<size_t>> & len, const std::vector<std::vector<unsigned>> & prio) {
  std::map<std::pair<int, int>, int> got; std::map<std::vector<int>, int> last;
  for (int i = 0; i < B->nrecv; ++i) {
    const Recv & r = B->recv[i];
    if (++got[{ r.producer, r.seq }] > 1) sim::fail("duplicate-delivery", "message (%d, %d) was received twice", r.producer, r.seq);
    std::vector<int> key { r.consumer, r.producer, (int) prio[(size_t) r.producer][(size_t) r.seq] };
    auto it = last.find(key);
    if (it != last.end() && it->second > r.seq) sim::fail("order", "consumer %d received message %d of producer %d after its message %d of the same priority", r.consumer, r.seq, r.producer, it->second);
    last[key] = r.seq;
  }
  for (size_t p = 0; p < len.size(); ++p) for (size_t s = 0; s < len[p].size(); ++s) {
    int st = B->sent[p][s]; bool rx = got.count({ (int) p, (int) s }) != 0;
    if (st == 1 && !rx) sim::fail("lost-message", "message (%zu, %zu) of %zu bytes was accepted but never received", p, s, len[p][s]);
    if (st == 2 && rx) sim::fail("untruthful-result", "message (%zu, %zu) was reported as not enqueued but was received", p, s);
    if (st == 0 && rx) sim::fail("altered-message", "message (%zu, %zu) was received but never sent", p, s);
  }
}

void setZone() {
  static const char * const tz[] = { "UTC0", "EST5EDT", "CET-1CEST", "IST-5:30", "<-11>11", "<+14>-14" };
  const char * z = tz[sim::rnd(6)];
  Quiet q; setenv("TZ", z, 1); tzset(); if (z[0] != 'U') sim::count(sim::F_TZ);
}

// Runs the bodies as simulated processes or threads and waits for all of them.
struct Actor { bool process; std::function<void ()> body; const char * what; };
struct Running { std::vector<std::pair<pid_t, const char *>> pids; std::vector<std::thread> threads; };
void guarded(const Actor & a) { HL_TRY(a.body(), a.what) }
void start(Running & r, std::vector<Actor> & actors) {
  // processes first: forking a process with several threads is not part of the workload
  for (auto & a : actors) if (a.process) { pid_t p = fork(); if (p == 0) { guarded(a); _exit(0); } r.pids.push_back({ p, a.what }); }
  for (auto & a : actors) if (!a.process) r.threads.emplace_back([&a] { guarded(a); });
}
void finish(Running & r) {
  for (auto & t : r.threads) t.join();
  for (auto & p : r.pids) { int st = 0; if (waitpid(p.first, &st, 0) != p.first || st != 0) sim::invalid("%s ended with status %d", p.second, st); }
}

size_t shmNames(std::string * first = nullptr) {
  Quiet q; size_t n = 0; DIR * d = opendir("m"); if (!d) return 0;
  while (auto * e = readdir(d)) if (e->d_name[0] != '.') { if (first && !n) *first = e->d_name; ++n; }
  closedir(d); return n;
}
void requireNoNames(const char * when) { std::string f; size_t n = shmNames(&f); if (n) sim::fail("left-behind", "%zu shared memory name(s) left after %s, for example %s", n, when, f.c_str()); }

using Q = SharedMemoryQueue<Msg>;
const unsigned smallBuffer = 16 + 40 + 4 + 4 + 8 + 64; // header, archive preamble, ints, string length, content

struct QueueHandle { // how an actor reaches the queue
  Q * shared; std::string name; bool byName; bool throws;
  std::unique_ptr<Q> own;
  Q & get() { if (!byName) return *shared; if (!own) own.reset(new Q(name, throws)); return *own; }
};

void delivery(bool chunked) {
  sim::swarm(); setZone();
  B = (Board *) sim::shared(sizeof(Board));
  int np = (int) sim::rndRange(1, 3), nc = chunked ? 1 : (int) sim::rndRange(1, 3), maxMsgs = (int) sim::rndRange(1, 6);
  unsigned cap = (unsigned) sim::rndRange(1, 4);
  unsigned buffer = chunked ? (unsigned) sim::rndRange(Q::MinimumChunkSize, sim::chance(0.5) ? 60 : 200) : 512;
  bool prios = sim::chance(0.3), throws = !chunked && sim::chance(0.2);
  int topology = (int) sim::rnd(3); // 0 threads, 1 processes, 2 mixed
  std::vector<std::vector<size_t>> len((size_t) np); std::vector<std::vector<unsigned>> prio((size_t) np); std::vector<std::vector<bool>> keep((size_t) np); std::vector<std::vector<int64_t>> pause((size_t) np);
  int total = 0;
  for (int p = 0; p < np; ++p) {
    int n = (int) sim::rndRange(1, maxMsgs);
    for (int i = 0; i < n; ++i) {
      size_t l = chunked ? (sim::chance(0.3) ? 0 : (size_t) sim::rndRange(0, sim::chance(0.3) ? 600 : 120)) : (size_t) sim::rndRange(0, 380);
      len[(size_t) p].push_back(l); prio[(size_t) p].push_back(prios ? (unsigned) sim::rnd(3) : 0); pause[(size_t) p].push_back(sim::chance(0.2) ? (int64_t) sim::rnd(50) * 1000000 : 0);
      bool k = sim::keepOp(); keep[(size_t) p].push_back(k); total += k;
    }
  }
  bool named = sim::chance(0.5);
  std::unique_ptr<Q> q;
  std::string name = "queue" + std::to_string(sim::rnd(1000));
  int ctor = (int) sim::rnd(3);
  HL_TRY(
    if (ctor == 0) q.reset(new Q(cap, buffer, throws)); else if (ctor == 1) q.reset(new Q(cap, buffer, name, throws)); else q.reset(new Q(OpenOrCreateSelector(), cap, buffer, name, throws));
  , "creating the queue")
  name = q->getName();
  std::vector<Actor> producers; std::vector<Actor> consumers;
  for (int p = 0; p < np; ++p) {
    bool proc = topology == 1 || (topology == 2 && sim::chance(0.5)), byName = named && sim::chance(0.6), ooc = sim::chance(0.3);
    producers.push_back({ proc, [&, p, byName, ooc] {
      QueueHandle h { q.get(), name, byName, throws, nullptr };
      if (byName && ooc) h.own.reset(new Q(OpenOrCreateSelector(), cap + 3, buffer + 100, name, throws));
      for (size_t i = 0; i < len[(size_t) p].size(); ++i) {
        if (!keep[(size_t) p][i]) continue;
        if (pause[(size_t) p][i]) sim::sleepNs(pause[(size_t) p][i]);
        Msg m; m.producer = p; m.seq = (int) i; m.body = bodyOf(p, (int) i, len[(size_t) p][i]);
        { Quiet qq; B->sent[p][i] = 3; sim::note("producer %d sends message %zu of %zu bytes", p, i, len[(size_t) p][i]); }
        if (prio[(size_t) p][i]) h.get().enqueue(m, prio[(size_t) p][i]); else h.get().enqueue(m);
        Quiet qq; B->sent[p][i] = 1; sim::note("producer %d has sent message %zu", p, i);
      }
    }, "a producer" });
  }
  const int poison = 1000;
  for (int c = 0; c < nc; ++c) {
    bool proc = topology == 1 || (topology == 2 && sim::chance(0.5)), byName = named && sim::chance(0.6), polls = sim::chance(0.3); int64_t poll = (int64_t) sim::rnd(20);
    consumers.push_back({ proc, [&, c, byName, polls, poll] {
      QueueHandle h { q.get(), name, byName, throws, nullptr };
      for (;;) {
        uint64_t inv = sim::eventNo(); Msg m;
        if (polls) { bool ok = false; m = h.get().tryDequeue(std::chrono::milliseconds(poll), ok); if (!ok) { sim::sleepNs(1000000); continue; } } else m = h.get().dequeue();
        if (m.producer == poison) return;
        { Quiet qq; checkContent(m, len, "a consumer"); }
        record(c, m, inv);
      }
    }, "a consumer" });
  }
  std::vector<Actor> all;
  for (auto & a : producers) all.push_back(a);
  for (auto & a : consumers) all.push_back(a);
  Running r;
  // The end marker follows all messages: it is sent when every producer has finished.
  for (auto & a : all) if (a.process) { pid_t p = fork(); if (p == 0) { guarded(a); _exit(0); } r.pids.push_back({ p, a.what }); }
  size_t np2 = 0; std::vector<std::thread> pt, ct;
  for (auto & a : producers) if (!a.process) pt.emplace_back([&a] { guarded(a); }); else ++np2;
  for (auto & a : consumers) if (!a.process) ct.emplace_back([&a] { guarded(a); });
  for (auto & t : pt) t.join();
  for (size_t i = 0; i < np2; ++i) { int st; waitpid(r.pids[i].first, &st, 0); if (st) sim::invalid("a producer ended with status %d", st); }
  for (int c = 0; c < nc; ++c) { Msg m; m.producer = poison; HL_TRY(q->enqueue(m), "enqueue") }
  for (auto & t : ct) t.join();
  for (size_t i = np2; i < r.pids.size(); ++i) { int st; waitpid(r.pids[i].first, &st, 0); if (st) sim::invalid("a consumer ended with status %d", st); }
  if (B->nrecv >= 2 && total >= 2) sim::nontrivial();
  { Quiet qq; checkDelivery(len, prio); if (!q->empty()) sim::fail("duplicate-delivery", "the queue is not empty after every message was received"); }
  if (chunked && buffer < 100) sim::probe("messages larger than the buffer");
  q.reset();
  requireNoNames("the queue was destroyed");
}

} // namespace

SIM_SCENARIO(M01, single, 1, "1-3 producers and 1-3 consumers, each a thread or a process, with inherited or opened queues of capacity 1-4 whose buffers hold every message; non-trivial: at least 2 messages were transferred") { delivery(false); }
SIM_SCENARIO(M01, chunked, 1, "1-3 producers and one consumer, messages from empty to many times the buffer; non-trivial: at least 2 messages were transferred") { delivery(true); }

// ------------------------------------------------------------------ timed operations
SIM_SCENARIO(M02, timed, 1, "1-3 producers with blocking, immediate and timed enqueues and one consumer with immediate and timed dequeues, stalls of up to 2 s, any time zone; non-trivial: a refusal and two transfers happened") {
  sim::swarm(); setZone();
  sim::tuning().maxStallNs = sim::chance(0.5) ? 5000000 : 2000000000; sim::tuning().clockJump = 0;
  B = (Board *) sim::shared(sizeof(Board));
  int np = (int) sim::rndRange(1, 3); unsigned cap = (unsigned) sim::rndRange(1, 4);
  bool chunked = sim::chance(0.6);
  unsigned buffer = chunked ? (unsigned) sim::rndRange(Q::MinimumChunkSize, 220) : 512;
  static const int waits[] = { 0, 1, 5, 20, 100, 500 };
  struct P { size_t len; unsigned prio; int kind, wait; int64_t pause; bool keep; };
  std::vector<std::vector<P>> plan((size_t) np); std::vector<std::vector<size_t>> len((size_t) np); std::vector<std::vector<unsigned>> prio((size_t) np);
  bool prios = sim::chance(0.2); double pauseP = 0.1 * (double) sim::rnd(6);
  for (int p = 0; p < np; ++p) { int n = (int) sim::rndRange(1, 6); for (int i = 0; i < n; ++i) {
    P x; x.kind = (int) sim::rnd(4); // 0 blocking, 1 immediate, 2 timed, 3 timed with priority
    bool big = chunked && sim::chance(0.5);
    x.len = big ? (size_t) sim::rndRange(0, 500) : (size_t) sim::rndRange(0, 60);
    x.prio = prios ? (unsigned) sim::rnd(3) : 0; if (x.kind == 1 || x.kind == 2) x.prio = 0;
    x.wait = waits[sim::rnd(6)]; x.pause = sim::chance(pauseP) ? (int64_t) sim::rnd(100) * 1000000 : 0; x.keep = sim::keepOp();
    plan[(size_t) p].push_back(x); len[(size_t) p].push_back(x.len); prio[(size_t) p].push_back(x.prio); } }
  struct C { int kind, wait; int64_t pause; bool keep; };
  std::vector<C> cplan; int cn = (int) sim::rndRange(1, 10);
  for (int i = 0; i < cn; ++i) { C c; c.kind = (int) sim::rnd(4); c.wait = waits[sim::rnd(6)]; c.pause = sim::chance(pauseP) ? (int64_t) sim::rnd(100) * 1000000 : 0; c.keep = sim::keepOp(); cplan.push_back(c); }
  std::unique_ptr<Q> q;
  HL_TRY(q.reset(new Q(cap, buffer)), "creating the queue")
  long * refusals = &B->val[0], * transfers = &B->val[1];
  auto timing = [&] (const char * what, bool ok, int64_t wait, int64_t mono0, int64_t idle0) {
    int64_t idle = sim::idleTime() - idle0, el = sim::mono() - mono0;
    sim::note("%s with wait time %lld ms %s after %.3f ms", what, (long long) (wait / 1000000), ok ? "succeeds" : "is refused", (double) el / 1e6);
    if (idle > wait + 1000000) sim::fail("late", "%s with wait time %lld ms took %lld ms in which nothing could run", what, (long long) (wait / 1000000), (long long) (idle / 1000000));
    if (!ok && wait && el < wait - 1000) sim::fail("gave-up-early", "%s with wait time %lld ms gave up after %.3f ms", what, (long long) (wait / 1000000), (double) el / 1e6);
    if (!ok) ++*refusals; else ++*transfers;
    if (!ok && wait) sim::probe("timed operation gave up");
  };
  std::vector<Actor> actors;
  for (int p = 0; p < np; ++p) actors.push_back({ sim::chance(0.5), [&, p] {
    for (size_t i = 0; i < plan[(size_t) p].size(); ++i) {
      const P & x = plan[(size_t) p][i]; if (!x.keep) continue;
      if (x.pause) sim::sleepNs(x.pause);
      Msg m; m.producer = p; m.seq = (int) i; m.body = bodyOf(p, (int) i, x.len);
      int64_t mono0, idle0; { Quiet qq; B->sent[p][i] = 3; sim::note("producer %d: message %zu of %zu bytes, kind %d, wait %d", p, i, x.len, x.kind, x.wait); mono0 = sim::mono(); idle0 = sim::idleTime(); }
      bool ok = true, over = false; int64_t wait = x.kind >= 2 ? (int64_t) x.wait * 1000000 : 0;
      try {
        switch (x.kind) {
          case 0: q->enqueue(m, x.prio); break;
          case 1: ok = q->tryEnqueue(m); break;
          case 2: ok = q->tryEnqueue(m, std::chrono::milliseconds(x.wait)); break;
          case 3: ok = q->tryEnqueue(m, std::chrono::milliseconds(x.wait), x.prio); break;
        }
      } catch (const Exception::SizeException &) { over = true; ok = false; }
      Quiet qq;
      if (over && x.kind == 0) sim::fail("unexpected-exception", "enqueue of an oversize message threw although oversize messages are allowed");
      if (over && x.len + 16 + 8 < buffer / 2 && buffer > 300) sim::fail("unexpected-exception", "tryEnqueue of a message of %zu bytes threw a size exception with a buffer of %u bytes", x.len, buffer);
      if (!over && !ok && x.len > buffer) sim::fail("oversize", "tryEnqueue accepted an oversize message for waiting");
      B->sent[p][i] = ok ? 1 : 2;
      if (x.kind && !over) timing("tryEnqueue", ok, wait, mono0, idle0);
    }
    Quiet qq; ++B->producersDone;
  }, "a producer" });
  Actor consumer { sim::chance(0.5), [&] {
    size_t i = 0;
    for (;;) {
      bool last; { Quiet qq; last = B->producersDone == np; }
      C c { 3, 20, 0, true }; if (i < cplan.size()) c = cplan[i]; else if (i > 3000) sim::fail("no-progress", "the consumer does not receive the messages"); else c.wait = last ? 0 : 20;
      ++i; if (!c.keep) continue;
      if (c.pause) sim::sleepNs(c.pause);
      Msg m; bool ok = (i & 1) != 0; int64_t mono0, idle0; uint64_t inv; { Quiet qq; mono0 = sim::mono(); idle0 = sim::idleTime(); inv = sim::eventNo(); }
      switch (c.kind) {
        case 0: m = q->tryDequeue(); ok = m.producer >= 0; break;
        case 1: m = q->tryDequeue(ok); break;
        case 2: m = q->tryDequeue(std::chrono::milliseconds(c.wait)); ok = m.producer >= 0; break;
        case 3: m = q->tryDequeue(std::chrono::milliseconds(c.wait), ok); break;
      }
      Quiet qq;
      if (ok != (m.producer >= 0)) sim::fail("untruthful-result", "tryDequeue reported %s but %s a message", ok ? "success" : "failure", m.producer >= 0 ? "returned" : "did not return");
      timing("tryDequeue", ok, c.kind >= 2 ? (int64_t) c.wait * 1000000 : 0, mono0, idle0);
      if (ok) { checkContent(m, len, "the consumer"); record(0, m, inv); }
      else { if (!m.body.empty()) sim::fail("untruthful-result", "tryDequeue returned part of a message"); if (last && i > cplan.size()) return; }
    }
  }, "the consumer" };
  actors.push_back(consumer);
  Running r; start(r, actors); finish(r);
  if (*refusals && *transfers >= 2) sim::nontrivial();
  { Quiet qq; checkDelivery(len, prio); }
  if (!chunked) for (unsigned i = 0; i <= cap; ++i) { // a queue at rest reports exactly how full it is
    if (q->empty() != (i == 0)) sim::fail("untruthful-result", "a queue of capacity %u that holds %u messages %s to be empty", cap, i, i ? "claims" : "does not claim");
    if (q->full() != (i == cap)) sim::fail("untruthful-result", "a queue of capacity %u that holds %u messages %s to be full", cap, i, i == cap ? "does not claim" : "claims");
    Msg m; m.producer = 0; m.seq = (int) i; m.body = bodyOf(0, (int) i, 10);
    if (q->tryEnqueue(m) != (i < cap)) sim::fail("untruthful-result", "an enqueue to a queue of capacity %u that holds %u messages %s", cap, i, i < cap ? "was refused" : "succeeded");
  }
  q.reset();
  requireNoNames("the queue was destroyed");
}

// ------------------------------------------------------------------ shared memory objects
namespace {

struct Obj {
  int tag; long param; std::atomic<long> total; std::atomic<long> slot[8]; char pad[200];
  explicit Obj(long p) : tag(0x5151), param(p), total(0) { { Quiet q; ++B->constructions; } for (auto & s : slot) s = 0; for (size_t i = 0; i < sizeof pad; ++i) pad[i] = (char) (p + (long) i); }
};
void checkObj(const Obj & o, long param, const char * who) {
  if (o.tag != 0x5151 || o.param != param) sim::fail("different-object", "%s sees an object with parameter %ld, the object was constructed with %ld", who, o.param, param);
  for (size_t i = 0; i < sizeof o.pad; ++i) if (o.pad[i] != (char) (param + (long) i)) sim::fail("different-object", "%s sees an object with an altered content", who);
}
template <typename S> void refresh(S &) {}
template <> void refresh(USharedMemoryObject<Obj> & o) { o.remap(); }

// A creator and its forked children use one object.
template <template <typename> class S> void forked() {
  sim::swarm(); B = (Board *) sim::shared(sizeof(Board));
  int n = (int) sim::rndRange(1, 3), adds = (int) sim::rndRange(1, 5); long param = (long) sim::rnd(1000);
  bool named = sim::chance(0.5), move = sim::chance(0.3), threads = sim::chance(0.3); int childExit = (int) sim::rnd(2);
  std::vector<bool> keep; for (int i = 0; i < n; ++i) keep.push_back(sim::keepOp());
  {
    std::unique_ptr<S<Obj>> first; std::string name = std::string("object") + std::string((size_t) sim::rnd(60), 'n');
    HL_TRY(if (named) first.reset(new S<Obj>(CreateOnlySelector(), name, param)); else first.reset(new S<Obj>(param)), "creating the object")
    if (move) { std::unique_ptr<S<Obj>> second(new S<Obj>(std::move(*first))); first = std::move(second); }
    checkObj(**first, param, "the creator");
    std::vector<Actor> a;
    for (int c = 0; c < n; ++c) if (keep[(size_t) c]) a.push_back({ !threads, [&, c] {
      if (!threads) refresh(*first);
      checkObj(**first, param, "a child");
      for (int i = 0; i < adds; ++i) { ++(*first)->total; (*first)->slot[c] += c + 1; }
      if (childExit && !threads) first.reset(); // the child leaves by unwinding its stack
    }, "a child" });
    Running r; start(r, a); finish(r);
    long total = (*first)->total;
    if (total != (long) a.size() * adds) sim::fail("lost-change", "%zu children added %d each but the parent sees %ld", a.size(), adds, total);
    for (int c = 0; c < n; ++c) if (keep[(size_t) c] && (*first)->slot[c] != (long) (c + 1) * adds) sim::fail("lost-change", "the changes of child %d are not seen by the parent", c);
    checkObj(**first, param, "the creator");
    if (shmNames() != 1) sim::fail("disappeared", "the object has %zu names while its creator exists", shmNames());
    if (a.size() >= 1) sim::nontrivial();
  }
  requireNoNames("the creator of the object was destroyed");
}

template <typename S, typename Sel> std::unique_ptr<S> tryOpen(Sel sel, const std::string & name) {
  try { return std::unique_ptr<S>(new S(sel, name)); } catch (const std::exception &) { return nullptr; }
}

// A creator, then openers that come and go, then the creator leaves.
template <template <typename> class S> void named() {
  sim::swarm(); B = (Board *) sim::shared(sizeof(Board));
  long param = (long) sim::rnd(1000); int n = (int) sim::rndRange(1, 4); std::string name = "object" + std::to_string(sim::rnd(100));
  int mode = (int) sim::rnd(3); // 0 create, 1 open or create, 2 create over the object left by a crashed process
  bool attachLeft = sim::chance(0.5);
  struct O { int mode; bool process, stays, twice; int adds; bool keep; };
  std::vector<O> os;
  for (int i = 0; i < n; ++i) { O o; o.mode = (int) sim::rnd(3); o.process = sim::chance(0.6); o.stays = sim::chance(0.4); o.twice = sim::chance(0.3); o.adds = (int) sim::rnd(4); o.keep = sim::keepOp(); os.push_back(o); }
  if (tryOpen<S<Obj>>(OpenOnlySelector(), name) || tryOpen<S<Obj>>(OpenReadOnlySelector(), name)) sim::fail("opened-nothing", "opening a name that does not exist succeeded");
  if (shmNames()) sim::fail("left-behind", "a failed open created a shared memory name");
  if (mode == 2) { pid_t p = fork(); if (!p) { S<Obj> o(CreateOnlySelector(), name, param + 1); o->total = 77; _exit(0); } int st; waitpid(p, &st, 0); }
  std::unique_ptr<S<Obj>> creator;
  if (mode == 2 && attachLeft) {
    // open-or-create attaches to what the other process left and does not reset it
    HL_TRY(creator.reset(new S<Obj>(OpenOrCreateSelector(), name, param)), "opening or creating the object")
    checkObj(**creator, param + 1, "a process that attaches to a left object"); if ((*creator)->total != 77) sim::fail("reset", "open-or-create reset the existing object");
    creator.reset();
    if (!tryOpen<S<Obj>>(OpenOnlySelector(), name)) sim::fail("disappeared", "an opener that left removed the object");
  }
  B->constructions = 0;
  HL_TRY(if (mode == 1) creator.reset(new S<Obj>(OpenOrCreateSelector(), name, param)); else creator.reset(new S<Obj>(CreateOnlySelector(), name, param)), "creating the object")
  if ((*creator)->total != 0) sim::fail("reappeared", "a created object has the content of an object that existed before");
  checkObj(**creator, param, "the creator");
  if (B->constructions != 1) sim::fail("different-object", "creating the object constructed it %d times", B->constructions);
  std::vector<std::unique_ptr<S<Obj>>> staying((size_t) n);
  long expected = 0;
  std::vector<Actor> actors;
  for (int i = 0; i < n; ++i) if (os[(size_t) i].keep) {
    if (os[(size_t) i].mode != 2) expected += os[(size_t) i].adds;
    actors.push_back({ os[(size_t) i].process, [&, i] {
      const O & o = os[(size_t) i];
      for (int k = 0; k < (o.twice ? 2 : 1); ++k) {
        std::unique_ptr<S<Obj>> h;
        if (o.mode == 0) h.reset(new S<Obj>(OpenOnlySelector(), name)); else if (o.mode == 1) h.reset(new S<Obj>(OpenOrCreateSelector(), name, param + 5)); else h.reset(new S<Obj>(OpenReadOnlySelector(), name));
        checkObj(**h, param, "an opener");
        if (k == 0 && o.mode != 2) for (int a = 0; a < o.adds; ++a) ++(*h)->total;
        if (!o.process && o.stays && k == 0) { Quiet q; staying[(size_t) i] = std::move(h); }
      }
    }, "an opener" });
  }
  Running r; start(r, actors); finish(r);
  if (B->constructions != 1) sim::fail("different-object", "the object was constructed %d times while its creator existed", B->constructions);
  if ((*creator)->total != expected) sim::fail("lost-change", "openers added %ld but the creator sees %ld", expected, (long) (*creator)->total);
  if (!actors.empty()) sim::nontrivial();
  { auto again = tryOpen<S<Obj>>(OpenOnlySelector(), name); if (!again) sim::fail("disappeared", "the object cannot be opened although its creator exists"); if ((*again)->total != expected) sim::fail("different-object", "a late opener sees another object"); }
  if (sim::chance(0.3)) { S<Obj> moved(std::move(*creator)); creator.reset(new S<Obj>(std::move(moved))); if (!tryOpen<S<Obj>>(OpenOnlySelector(), name)) sim::fail("disappeared", "moving the creating instance removed the name"); }
  creator.reset();
  if (tryOpen<S<Obj>>(OpenOnlySelector(), name)) sim::fail("reappeared", "the object can be opened after its creating instance was destroyed");
  requireNoNames("the creator of the object was destroyed");
  for (auto & h : staying) if (h) { if ((*h)->total < expected) sim::fail("lost-change", "a remaining opener lost the object"); sim::probe("opener outlived the creator"); }
  staying.clear();
  requireNoNames("the last opener left");
}

} // namespace

SIM_SCENARIO(M03, forkedManaged, 1, "a creator and 1-3 forked children (or threads) change one managed object; non-trivial: at least one child") { forked<MSharedMemoryObject>(); }
SIM_SCENARIO(M03, forkedUnmanaged, 1, "a creator and 1-3 forked children (or threads) change one unmanaged object; non-trivial: at least one child") { forked<USharedMemoryObject>(); }
SIM_SCENARIO(M03, namedManaged, 1, "openers of every mode come and go by name in other processes and threads; non-trivial: at least one opener") { named<MSharedMemoryObject>(); }
SIM_SCENARIO(M03, namedUnmanaged, 1, "openers of every mode come and go by name in other processes and threads; non-trivial: at least one opener") { named<USharedMemoryObject>(); }

SIM_SCENARIO(M03, race, 2, "2-4 threads and processes open or create one managed object at the same time; non-trivial: always") {
  sim::swarm(); B = (Board *) sim::shared(sizeof(Board));
  int n = (int) sim::rndRange(2, 4); std::vector<bool> proc; std::vector<int> mode;
  for (int i = 0; i < n; ++i) { proc.push_back(sim::chance(0.5)); mode.push_back(sim::chance(0.2) && i ? 1 : 0); (void) sim::keepOp(); }
  std::vector<Actor> actors;
  for (int i = 0; i < n; ++i) actors.push_back({ proc[(size_t) i], [&, i] {
    std::unique_ptr<MSharedMemoryObject<Obj>> h;
    if (mode[(size_t) i] == 1) { try { h.reset(new MSharedMemoryObject<Obj>(OpenOnlySelector(), std::string("raced"))); } catch (const std::exception &) {} }
    else h.reset(new MSharedMemoryObject<Obj>(OpenOrCreateSelector(), std::string("raced"), 100 + i));
    if (h) { ++(*h)->total; Quiet q; B->val[i] = (*h)->param; }
    { Quiet q; ++B->ready; }
    for (int k = 0; ; ++k) { { Quiet q; if (B->ready == n) break; } sim::sleepNs(1000000); }
    if (h) { checkObj(**h, B->val[i], "a racing process"); Quiet q; long seen = 0; int m = 0; for (int j = 0; j < n; ++j) if (B->val[j]) { ++m; if (!seen) seen = B->val[j]; if (B->val[j] != seen) sim::fail("different-object", "racing processes see objects with parameters %ld and %ld", seen, B->val[j]); }
      if ((*h)->total != m) sim::fail("lost-change", "%d processes each added one but %ld is seen", m, (long) (*h)->total);
      if (B->constructions != 1) sim::fail("different-object", "the object was constructed %d times", B->constructions); }
    { Quiet q; ++B->flag[0]; }
    for (int k = 0; ; ++k) { { Quiet q; if (B->flag[0] == n) break; } sim::sleepNs(1000000); }
    // Those that attached to the object leave before the one that constructed it.
    if (!h || B->val[i] != 100 + i) { h.reset(); Quiet q; ++B->flag[1]; return; }
    for (int k = 0; ; ++k) { { Quiet q; if (B->flag[1] == n - 1) break; } sim::sleepNs(1000000); }
    try { MSharedMemoryObject<Obj> again(OpenOnlySelector(), std::string("raced")); checkObj(*again, B->val[i], "a late opener"); }
    catch (const std::exception & e) { sim::fail("disappeared", "the object cannot be opened although the process that created it still has it: %s", e.what()); }
  }, "a racing process" });
  sim::nontrivial();
  Running r; start(r, actors); finish(r);
  requireNoNames("every user of the object was destroyed");
}
