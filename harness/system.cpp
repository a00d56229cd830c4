// C01, C02, U01: the system clock, sleeping and thread names, UUIDs and random number generators.
#include <functional>
#include <cstring>
#include <cmath>
#include <vector>
#include <Balau/System/Sleep.hpp>
#include <Balau/System/SystemClock.hpp>
#include <Balau/System/ThreadName.hpp>
#include <Balau/Type/UUID.hpp>
#include <Balau/Util/Random.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include "../sim/hlib.h"

using namespace Balau;
using sim::Quiet;

namespace {

// ---- C01 -----------------------------------------------------------------------------------------
struct Step { int64_t before, after; };
std::vector<Step> g_steps;
void stepTo(int64_t w) { Quiet q; Step s; s.before = sim::wall(); sim::stepWall(w - s.before); s.after = sim::wall(); g_steps.push_back(s); }

// The instants that the clock showed between two points of the run, as intervals.
struct Window {
  int64_t from; size_t steps;
  Window() { Quiet q; from = sim::wall(); steps = g_steps.size(); }
  std::vector<std::pair<int64_t, int64_t>> close() const {
    Quiet q; std::vector<std::pair<int64_t, int64_t>> v; int64_t lo = from;
    for (size_t i = steps; i < g_steps.size(); ++i) { v.push_back({ lo, g_steps[i].before }); lo = g_steps[i].after; }
    v.push_back({ lo, sim::wall() }); return v;
  }
};
void check(const char * what, int64_t value, int64_t unit, const Window & w) {
  auto v = w.close();
  for (auto & i : v) if (i.first / unit <= value && value <= i.second / unit) { if (i.first / unit != i.second / unit) sim::probe("a unit boundary passed during a query"); return; }
  sim::fail("wrong-time", "%s returned %lld units of %lld ns, the clock showed %lld to %lld ns", what, (long long) value, (long long) unit, (long long) v.back().first, (long long) v.back().second);
}
// Days since the epoch of a date (independent of the date library).
int64_t dayNumber(int64_t y, int64_t m, int64_t d) {
  static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
  int64_t n = 0; for (int64_t k = 1970; k < y; ++k) n += k % 4 == 0 && (k % 100 != 0 || k % 400 == 0) ? 366 : 365;
  for (int64_t k = 1; k < m; ++k) n += len[k - 1] + (k == 2 && y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 1 : 0);
  return n + d - 1;
}
const int64_t DAY = 86400000000000ll;
int64_t someInstant() {
  int64_t base;
  switch (sim::rnd(6)) {
    case 0: base = (int64_t) sim::rnd(95000) * DAY; break;                                 // midnight, up to 2230
    case 1: base = dayNumber(1972 + 4 * (int64_t) sim::rnd(50), 2 + (int64_t) sim::rnd(2), 1 + (int64_t) sim::rnd(2)) * DAY; break;
    case 2: base = dayNumber(1970 + (int64_t) sim::rnd(250), 1, 1) * DAY; break;
    case 3: base = (int64_t) sim::rnd(8000000000ull) * 1000000000ll; break;                 // a second
    case 4: base = (int64_t) sim::rnd(80000000000ull) * 100000000ll; break;                 // a decisecond
    default: base = (int64_t) sim::rnd(8000000000000000000ull); break;
  }
  if (sim::chance(0.3)) base = dayNumber(2100, 2 + (int64_t) sim::rnd(2), 1) * DAY;         // not a leap year
  int64_t off = sim::chance(0.7) ? sim::rndRange(-3000, 300) : sim::rndRange(-2 * DAY, 2 * DAY);
  base += off; return base < 1000 ? 1000 : base;
}

// ---- U01 -----------------------------------------------------------------------------------------
const int MAXU = 400, MAXG = 120, SEQ = 6;
struct Board { int nu, ng; unsigned char u[MAXU][16]; int who[MAXU]; uint32_t g[MAXG][SEQ]; int gwho[MAXG]; } * B;

void checkUuid(const UUID & u, int who) {
  std::string s = u.asString(); auto a = u.asArray();
  Quiet q;
  if (memcmp(a.data(), u.asBytes(), 16)) sim::fail("inconsistent-uuid", "asArray and asBytes differ");
  char want[40]; char * p = want; for (int i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) *p++ = '-'; p += sprintf(p, "%02x", a[(size_t) i]); }
  if (s != want) sim::fail("inconsistent-uuid", "the text of a UUID is %s instead of %s", s.c_str(), want);
  if ((a[6] >> 4) != 4 || (a[8] >> 6) != 2) sim::fail("inconsistent-uuid", "%s is not a random (version 4) UUID", want);
  for (int i = 0; i < B->nu; ++i) if (!memcmp(B->u[i], a.data(), 16)) sim::fail("repeated-uuid", "%s was created by %d and %d", want, B->who[i], who);
  if (B->nu < MAXU) { memcpy(B->u[B->nu], a.data(), 16); B->who[B->nu] = who; ++B->nu; }
}

// What a worker does: each entry is one operation.
struct GenOp { int kind; int64_t a, b; unsigned seed; int draws; };
template <typename T> std::string name();
template <typename G, typename T> void bounded(const char * what, T lo, T hi, int draws, unsigned seed, bool seeded) {
  auto run = [&] (G & g, std::vector<T> & out) { for (int i = 0; i < draws; ++i) out.push_back(g()); };
  std::vector<T> x, y;
  if (seeded) { G g(lo, hi, seed); G h(lo, hi, seed); run(g, x); run(h, y); } else { G g(lo, hi); run(g, x); }
  Quiet q;
  if (seeded) for (size_t i = 0; i < x.size(); ++i) if (x[i] != y[i]) sim::fail("not-repeatable", "%s with seed %u gave different numbers", what, seed);
  bool low = false, high = false;
  for (T v : x) { low = low || v == lo; high = high || v == hi; if (v < lo || v > hi || v != v) sim::fail("out-of-bounds", "%s in [%.17g, %.17g] gave %.17g", what, (double) lo, (double) hi, (double) v); }
  if (draws >= 60 && !(low && high)) sim::fail("bound-never-given", "%s in [%.17g, %.17g] never gave its %s bound in %d draws", what, (double) lo, (double) hi, low ? "upper" : "lower", draws);
}
void randomOps(const std::vector<GenOp> & ops, int who) {
  for (auto & o : ops) {
    switch (o.kind) {
      case 0: case 1: { UUID u; checkUuid(u, who); UUID c(u); Quiet q; if (!(c == u) || c != u || c < u || c > u || !(c <= u) || !(c >= u)) sim::fail("inconsistent-uuid", "a copy is not equal"); break; }
      case 2: case 3: {
        Util::UniformUInt32 g(0, 0xffffffffu); uint32_t s[SEQ]; for (auto & v : s) v = g();
        Quiet q;
        for (int i = 0; i < B->ng; ++i) if (!memcmp(B->g[i], s, sizeof s)) sim::fail("dependent-generators", "the generators of %d and %d gave the same numbers", B->gwho[i], who);
        if (B->ng < MAXG) { memcpy(B->g[B->ng], s, sizeof s); B->gwho[B->ng] = who; ++B->ng; }
        break;
      }
      case 4: bounded<Util::UniformInt32>("UniformInt32", (int) o.a, (int) o.b, o.draws, o.seed, o.seed & 1); break;
      case 5: bounded<Util::UniformInt64>("UniformInt64", (long) o.a * 1000003, (long) o.b * 1000003, o.draws, o.seed, o.seed & 1); break;
      case 6: bounded<Util::UniformDouble>("UniformDouble", (double) o.a / 8, (double) o.b / 8, o.draws, o.seed, o.seed & 1); break;
      case 7: bounded<Util::UniformFloat>("UniformFloat", (float) o.a / 8, (float) o.b / 8, o.draws, o.seed, o.seed & 1); break;
      case 8: bounded<Util::UniformUInt64>("UniformUInt64", (unsigned long long) (o.a + 1000000), (unsigned long long) (o.b + 1000000), o.draws, o.seed, o.seed & 1); break;
      case 9: { // a bound and the next number
        double d = (double) o.a / 8; float f = (float) o.a / 8;
        bounded<Util::UniformDouble>("UniformDouble", d, std::nextafter(d, 1e9), 200, o.seed, o.seed & 1); bounded<Util::UniformFloat>("UniformFloat", f, std::nextafter(f, 1e9f), 200, o.seed, o.seed & 1);
        bounded<Util::UniformInt32>("UniformInt32", (int) o.a, (int) o.a + 1, 200, o.seed, o.seed & 1); break;
      }
      default: { // seeded: the sequence of the standard generator and distribution
        Util::UniformUInt32 g(3, 1003, o.seed); std::mt19937 e(o.seed); std::uniform_int_distribution<unsigned> d(3, 1003);
        std::vector<unsigned> x, y; for (int i = 0; i < o.draws; ++i) x.push_back(g());
        Quiet q; for (int i = 0; i < o.draws; ++i) y.push_back(d(e)); if (x != y) sim::fail("not-repeatable", "seed %u does not give the numbers that belong to it", o.seed);
      }
    }
  }
}

} // namespace

SIM_SCENARIO(C01, clock, 1, "1-3 threads query the clock in every way at generated instants of 1970-2230 (around midnights, leap days, unit boundaries), stalled within queries, while the clock is stepped; non-trivial: at least 3 queries") {
  sim::swarm(); auto & t = sim::tuning(); t.clockPoints = true; t.clockJump = 0; t.maxStallNs = 2000000000;
  if (sim::chance(0.5)) t.stall = sim::chance(0.5) ? 0.3 : 0.05;
  int threads = (int) sim::rndRange(1, 3);
  struct Q { int kind; int64_t at; bool step; int via; };
  std::vector<std::vector<Q>> plan((size_t) threads);
  for (auto & p : plan) { int n = (int) sim::rndRange(2, 14); for (int i = 0; i < n; ++i) { Q q; q.kind = (int) sim::rnd(7); q.step = sim::chance(0.5); q.at = someInstant(); q.via = (int) sim::rnd(2); if (sim::keepOp()) p.push_back(q); } }
  g_steps.clear(); stepTo(someInstant());
  std::vector<std::function<void ()>> bodies; size_t total = 0;
  auto shared = std::make_shared<System::SystemClock>();
  for (auto & p : plan) total += p.size();
  if (total >= 3) sim::nontrivial();
  for (auto & p : plan) bodies.push_back([&] {
    System::SystemClock own;
    for (auto & q : p) {
      if (q.step) stepTo(q.at);
      const System::Clock & c = q.via ? (const System::Clock &) own : *shared;
      Window w;
      switch (q.kind) {
        case 0: check("now", std::chrono::duration_cast<std::chrono::nanoseconds>(c.now().time_since_epoch()).count(), 1, w); break;
        case 1: { auto d = c.today(); if (!d.ok()) sim::fail("wrong-time", "today is not a valid date"); check("today", dayNumber((int) d.year(), (unsigned) d.month(), (unsigned) d.day()), DAY, w); break; }
        case 2: check("nanotime", c.nanotime().count(), 1, w); break;
        case 3: check("microtime", c.microtime().count(), 1000, w); break;
        case 4: check("millitime", c.millitime().count(), 1000000, w); break;
        case 5: check("centitime", c.centitime().count(), 10000000, w); break;
        default: check("decitime", c.decitime().count(), 100000000, w);
      }
    }
  });
  hl::runThreads(bodies);
}

SIM_SCENARIO(C02, sleeping, 2, "1-4 threads sleep for generated durations in all four units, interrupted by signals, stalled and with clock steps; non-trivial: at least 2 sleeps") {
  sim::swarm(); auto & t = sim::tuning();
  if (sim::chance(0.5)) t.clockJump = 0.1;
  t.maxIdleNs = INT64_MAX;
  if (sim::chance(0.6)) t.sleepEintr = sim::chance(0.5) ? 0.8 : 0.2;
  int threads = (int) sim::rndRange(1, 4);
  struct Q { int unit; uint64_t n; };
  std::vector<std::vector<Q>> plan((size_t) threads); size_t total = 0;
  for (auto & p : plan) { int n = (int) sim::rndRange(1, 6); for (int i = 0; i < n; ++i) { Q q; q.unit = (int) sim::rnd(4); static const uint64_t lim[] = { 200, 5000, 3000000, 3000000000ull }; q.n = sim::chance(0.2) ? sim::rnd(3) : sim::rnd(lim[q.unit]); if (sim::chance(0.1) && q.unit < 2) q.n = sim::rnd(q.unit ? 20000000ull : 20000ull); if (sim::keepOp()) p.push_back(q); } total += p.size(); }
  if (total >= 2) sim::nontrivial();
  std::vector<std::function<void ()>> bodies;
  for (auto & p : plan) bodies.push_back([&] {
    for (auto & q : p) {
      static const int64_t unit[] = { 1000000000, 1000000, 1000, 1 };
      int64_t ask = (int64_t) q.n * unit[q.unit], a = sim::mono(), st = sim::stallTime();
      switch (q.unit) { case 0: System::Sleep::sleep(q.n); break; case 1: System::Sleep::milliSleep(q.n); break; case 2: System::Sleep::microSleep(q.n); break; default: System::Sleep::nanoSleep(q.n); }
      int64_t took = sim::mono() - a, slack = (sim::stallTime() - st) + 20000000;
      if (took < ask) sim::fail("short-sleep", "a sleep of %lld ns ended after %lld ns", (long long) ask, (long long) took);
      if (took > ask + slack) sim::fail("long-sleep", "a sleep of %lld ns ended after %lld ns", (long long) ask, (long long) took);
    }
  });
  hl::runThreads(bodies);
}

SIM_SCENARIO(C02, names, 1, "2-5 threads (some started by others, some in forked processes) set and read their names in generated interleavings; non-trivial: at least 2 threads set names") {
  sim::swarm();
  static const char * const given[] = { "a", "worker", " padded ", "  tab", "", "  ", "two words", "a name that is longer than what the kernel would keep for a thread" };
  static const char * const expect[] = { "a", "worker", "padded", "tab", "", "", "two words", "a name that is longer than what the kernel would keep for a thread" };
  int threads = (int) sim::rndRange(2, 5);
  struct Q { int kind, n; };
  std::vector<std::vector<Q>> plan((size_t) threads); int setters = 0;
  for (auto & p : plan) { int n = (int) sim::rndRange(1, 8); bool s = false; for (int i = 0; i < n; ++i) { Q q; q.kind = (int) sim::rnd(8); q.n = (int) sim::rnd(8); if (sim::keepOp()) { p.push_back(q); s |= q.kind < 3; } } setters += s; }
  if (setters >= 2) sim::nontrivial();
  std::function<void (const std::vector<Q> &, int)> body = [&] (const std::vector<Q> & p, int depth) {
    std::string mine;
    auto look = [&] (const char * when) { const std::string & s = System::ThreadName::getName(); Quiet q; if (s != mine) sim::fail("wrong-name", "the thread is called '%s' instead of '%s' %s", s.c_str(), mine.c_str(), when); };
    look("at the start");
    for (auto & q : p) {
      if (q.kind < 3) { System::ThreadName::setName(given[q.n]); { Quiet qq; mine = expect[q.n]; } look("after naming it"); }
      else if (q.kind == 6 && depth == 0) { std::thread t([&] { body({ { 0, q.n }, { 4, 0 } }, 1); }); t.join(); look("after another thread was named"); }
      else if (q.kind == 7 && depth == 0) {
        int pid = fork(); if (pid < 0) sim::invalid("fork");
        if (pid == 0) { look("in a forked process"); System::ThreadName::setName("child"); _exit(System::ThreadName::getName() == "child" ? 0 : 1); }
        int st; if (waitpid(pid, &st, 0) != pid) sim::invalid("waitpid"); if (st) sim::fail("wrong-name", "naming a thread in a forked process failed"); look("after a forked process named its thread");
      } else { sim::yield(); look("later"); }
    }
  };
  std::vector<std::function<void ()>> bodies; for (auto & p : plan) bodies.push_back([&] { body(p, 0); });
  hl::runThreads(bodies);
}

SIM_SCENARIO(U01, random, 1, "1-4 threads in each of 1-3 processes (forked in between) create UUIDs and random number generators with generated bounds and seeds; non-trivial: at least 2 threads or processes") {
  sim::swarm();
  B = (Board *) sim::shared(sizeof(Board));
  int threads = (int) sim::rndRange(1, 4), children = (int) sim::rnd(3);
  auto some = [] { std::vector<GenOp> v; int n = (int) sim::rndRange(1, 8); for (int i = 0; i < n; ++i) {
    GenOp o; o.kind = (int) sim::rnd(11); o.seed = (unsigned) sim::rnd(); o.draws = (int) sim::rndRange(1, 20);
    switch (sim::rnd(4)) { case 0: o.a = sim::rndRange(-20, 20); o.b = o.a + (int64_t) sim::rnd(3); break; case 1: o.a = sim::rndRange(-500000, 400000); o.b = o.a + (int64_t) sim::rnd(100000); break; case 2: o.a = o.b = sim::rndRange(-3, 3); break; default: o.a = -(int64_t) sim::rnd(1000); o.b = 0; }
    if (sim::keepOp()) v.push_back(o); } return v; };
  std::vector<GenOp> first = some(); std::vector<std::vector<GenOp>> plan; for (int i = 0; i < threads; ++i) plan.push_back(some());
  std::vector<std::vector<std::vector<GenOp>>> kids; for (int c = 0; c < children; ++c) { kids.emplace_back(); int n = (int) sim::rndRange(1, 2); for (int i = 0; i < n; ++i) kids.back().push_back(some()); }
  if (threads + children > 1) sim::nontrivial();
  randomOps(first, 0); // before the fork: a state that the children would inherit
  std::vector<int> pids;
  for (int c = 0; c < children; ++c) {
    int pid = fork(); if (pid < 0) sim::invalid("fork");
    if (pid == 0) {
      randomOps(kids[(size_t) c][0], 100 * (c + 1));
      if (kids[(size_t) c].size() > 1) { std::thread t([&] { randomOps(kids[(size_t) c][1], 100 * (c + 1) + 1); }); t.join(); }
      _exit(0);
    }
    pids.push_back(pid);
  }
  std::vector<std::function<void ()>> bodies; for (int i = 0; i < threads; ++i) bodies.push_back([&plan, i] { randomOps(plan[(size_t) i], i + 1); });
  hl::runThreads(bodies);
  for (int p : pids) { int st; if (waitpid(p, &st, 0) != p) sim::invalid("waitpid"); if (st) sim::fail("unexpected-exit", "a child ended with status %d", st); }
}
