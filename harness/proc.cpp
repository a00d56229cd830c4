// F01: Concurrent::Fork.
#include <functional>
#include <cstring>
#include <vector>
#include <Balau/Concurrent/Fork.hpp>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdlib>
#include <map>
#include <atomic>
#include "../sim/hlib.h"

using namespace Balau;
using Balau::Concurrent::Fork;
using sim::Quiet;
extern double sim_forkFailP;

namespace {

const int MAXC = 12;
// How a child ends: return through performFork, _exit in its function, signal, waits until it is killed.
enum End { RETURNS, EXITS, SIGNALLED, WAITS };
struct Child { End end; int status; int64_t work; int form; bool keep; int threadOwner; };
struct Board { int runs[MAXC], pidInside[MAXC], inParent; std::atomic<int> go; } * B;

int childBody(const std::vector<Child> & plan, int i, int parentPid) {
  const Child & c = plan[(size_t) i];
  sim::setExpectCrash(true);
  { Quiet q; ++B->runs[i]; B->pidInside[i] = getpid(); if (getpid() == parentPid) ++B->inParent; sim::note("child %d runs", i); }
  if (c.work) sim::sleepNs(c.work);
  switch (c.end) {
    case RETURNS: return c.status;
    case EXITS: _exit(c.status);
    case SIGNALLED: if (c.status == SIGABRT) abort(); else if (c.status == SIGSEGV) { volatile int * volatile p = nullptr; *p = 1; } else raise(c.status); break;
    case WAITS: for (;;) sim::sleepNs(3600000000000ll);
  }
  return 0;
}

} // namespace

SIM_SCENARIO(F01, children, 1, "a parent with up to 12 children that return, exit, die from signals or run until they are killed, created by all forms of performFork with failing forks, watched by one or two threads with all the query functions; non-trivial: at least 2 children were reported") {
  sim::swarm();
  sim::tuning().maxStallNs = 5000000;
  B = (Board *) sim::shared(sizeof(Board));
  int n = (int) sim::rndRange(1, MAXC), watchers = sim::chance(0.3) ? 2 : 1;
  static const int sigs[] = { SIGKILL, SIGTERM, SIGSEGV, SIGABRT, SIGFPE };
  std::vector<Child> plan;
  for (int i = 0; i < n; ++i) {
    Child c; c.end = (End) sim::rnd(4); if (sim::chance(0.3)) c.end = RETURNS;
    c.form = (int) sim::rnd(3); // 0 exitChild, 1 not exitChild, 2 without flag
    c.status = c.end == SIGNALLED ? sigs[sim::rnd(5)] : sim::chance(0.5) ? 0 : (int) sim::rnd(256);
    c.work = sim::chance(0.5) ? 0 : (int64_t) sim::rnd(200) * 1000000; c.threadOwner = (int) sim::rnd((uint64_t) watchers); c.keep = sim::keepOp();
    plan.push_back(c);
  }
  struct Step { int kind, pick; int64_t pause; bool keep; };
  std::vector<std::vector<Step>> steps((size_t) watchers);
  for (auto & s : steps) { int m = (int) sim::rndRange(2, 14); for (int i = 0; i < m; ++i) { Step x; x.kind = (int) sim::rnd(7); x.pick = (int) sim::rnd(MAXC); x.pause = sim::chance(0.4) ? (int64_t) sim::rnd(150) * 1000000 : 0; x.keep = sim::keepOp(); s.push_back(x); } }
  sim_forkFailP = sim::chance(0.3) ? 0.3 : 0;
  int parentPid = getpid();
  std::vector<int> pids((size_t) n, 0);
  for (int i = 0; i < n; ++i) {
    if (!plan[(size_t) i].keep) continue;
    const Child & c = plan[(size_t) i];
    try {
      auto f = [&] { return childBody(plan, i, parentPid); };
      int r = c.form == 0 ? Fork::performFork(f, true) : c.form == 1 ? Fork::performFork(f, false) : Fork::performFork(f);
      Quiet q;
      if (getpid() != parentPid) {
        if (c.form == 0) sim::fail("child-returned", "the child of a fork that exits the child returned");
        if (c.end != RETURNS) sim::invalid("child came back");
        if (c.form == 1 && r != c.status) sim::fail("wrong-status", "the child's function returned %d but performFork returned %d in the child", c.status, r);
        if (c.form == 2 && r != 0) sim::fail("wrong-status", "performFork returned %d in the child", r);
        tzset(); _exit(c.status);
      }
      pids[(size_t) i] = r;
      sim::note("child %d is process %d", i, r);
      if (r <= 0) sim::fail("wrong-pid", "performFork returned %d in the parent", r);
      for (int k = 0; k < i; ++k) if (pids[(size_t) k] == r) sim::fail("wrong-pid", "performFork returned the process id of another child");
    } catch (const Exception::ForkException &) {
      if (getpid() != parentPid) sim::fail("unexpected-exception", "a fork exception in a child");
      sim::probe("fork refused");
    } catch (const std::exception & e) { sim::fail("unexpected-exception", "performFork threw %.200s", e.what()); }
  }
  sim_forkFailP = 0;
  std::vector<int> killed((size_t) n, 0), reports((size_t) n, 0); int reported = 0;
  auto check = [&] (int i, const Fork::TerminationReport & r, const char * what) {
    const Child & c = plan[(size_t) i];
    Quiet q;
    sim::note("%s reports child %d: pid %d code %d status %d", what, i, r.pid, r.code, r.exitStatus);
    if (r.pid != pids[(size_t) i]) sim::fail("wrong-report", "%s of process %d gives a report for process %d", what, pids[(size_t) i], r.pid);
    if (++reports[(size_t) i] > 1) sim::fail("reported-twice", "child %d was reported twice", i);
    if (!sim::procEnded(r.pid)) sim::fail("untruthful-report", "%s reports child %d as ended but it is running", what, i);
    int code = c.end == SIGNALLED ? (c.status == SIGKILL || c.status == SIGTERM ? CLD_KILLED : CLD_DUMPED) : CLD_EXITED, status = c.status;
    bool asPlanned = c.end != WAITS && r.code == code && r.exitStatus == status, asKilled = killed[(size_t) i] && r.code == CLD_KILLED && r.exitStatus == SIGKILL;
    if (!asPlanned && !asKilled) sim::fail("wrong-report", "%s reports child %d with code %d and status %d", what, i, r.code, r.exitStatus);
    if (++reported == 2) sim::nontrivial();
  };
  auto watcher = [&] (int w, const std::vector<Step> & todo, bool drain) {
    size_t k = 0;
    for (;; ++k) {
      std::vector<int> mine;
      for (int i = 0; i < n; ++i) if (pids[(size_t) i] > 0 && !reports[(size_t) i] && (drain || plan[(size_t) i].threadOwner == w)) mine.push_back(i);
      Step s;
      if (drain) { if (mine.empty()) return; s = Step { plan[(size_t) mine[0]].end == WAITS && !killed[(size_t) mine[0]] ? 4 : 2, 0, 0, true }; }
      else { if (k >= todo.size()) return; s = todo[k]; }
      if (!s.keep) continue;
      if (s.pause) sim::sleepNs(s.pause);
      int i = mine.empty() ? -1 : mine[(size_t) s.pick % mine.size()], pid = i < 0 ? 0 : pids[(size_t) i];
      bool endedBefore; int64_t mono0, stall0; { Quiet q; endedBefore = i >= 0 && sim::procEnded(pid); mono0 = sim::mono(); stall0 = sim::stallTime(); }
      auto prompt = [&] (const char * what) { Quiet q; if (watchers == 1 && sim::mono() - mono0 > 1000000 + (sim::stallTime() - stall0) * 2) sim::fail("blocked", "%s took %.3f ms", what, (double) (sim::mono() - mono0) / 1e6); };
      try {
        switch (s.kind) {
          case 0: { // poll one
            auto r = Fork::checkForTermination(pid); prompt("checkForTermination");
            if (r.pid) { if (i < 0) sim::fail("wrong-report", "a report without a process"); check(i, r, "checkForTermination"); }
            else if (endedBefore) sim::fail("missed", "child %d had ended but checkForTermination did not report it", i);
            break; }
          case 1: { // poll all
            std::vector<int> v; std::vector<bool> e; { Quiet q; for (int m : mine) { v.push_back(pids[(size_t) m]); e.push_back(sim::procEnded(v.back())); if (s.pick & 1) { v.push_back(-v.back()); e.push_back(false); } } if (s.pick & 2) { v.push_back(0); e.push_back(false); } }
            auto rs = Fork::checkForTermination(v); prompt("checkForTermination");
            for (auto & r : rs) { int c = -1; for (int m : mine) if (pids[(size_t) m] == r.pid) c = m; if (c < 0) sim::fail("wrong-report", "a report for process %d", r.pid); check(c, r, "checkForTermination"); }
            for (size_t m = 0; m < v.size(); ++m) if (e[m]) { bool f = false; for (auto & r : rs) f |= r.pid == v[m]; if (!f) sim::fail("missed", "process %d had ended but checkForTermination did not report it", v[m]); }
            break; }
          case 2: { // wait
            if (i >= 0 && plan[(size_t) i].end == WAITS && !killed[(size_t) i]) break;
            auto r = Fork::waitOnProcess(pid);
            if (i >= 0) { if (!r.pid) sim::fail("returned-early", "waitOnProcess returned without a report"); check(i, r, "waitOnProcess"); } else if (r.pid) sim::fail("wrong-report", "a report without a process");
            break; }
          case 3: case 4: { // terminate
            { Quiet q; if (i >= 0 && !endedBefore) killed[(size_t) i] = 1; sim::note("terminate child %d", i); }
            auto r = Fork::terminateProcess(pid); prompt("terminateProcess");
            if (r.pid) { if (i < 0) sim::fail("wrong-report", "a report without a process"); check(i, r, "terminateProcess"); }
            else if (endedBefore) sim::fail("missed", "child %d had ended but terminateProcess did not report it", i);
            else if (i >= 0) { Quiet q; if (!sim::procEnded(pid)) sim::fail("not-terminated", "child %d still runs after terminateProcess", i); sim::probe("running child terminated"); }
            break; }
          case 6: { // a child that was reported before: nothing or an exception, but no second report
            std::vector<int> old; { Quiet q; for (int m = 0; m < n; ++m) if (pids[(size_t) m] > 0 && reports[(size_t) m] && plan[(size_t) m].threadOwner == w) old.push_back(pids[(size_t) m]); }
            if (old.empty()) break;
            int o = old[(size_t) s.pick % old.size()]; bool again = false;
            try { switch (s.pick % 3) { case 0: again = Fork::checkForTermination(o).pid; break; case 1: again = !Fork::checkForTermination(std::vector<int> { o }).empty(); break; default: again = Fork::waitOnProcess(o).pid; } } catch (const Exception::WaitException &) {}
            if (again) sim::fail("reported-twice", "process %d was reported again", o);
            sim::probe("reported child queried again");
            break; }
          case 5: { auto r = s.pick & 1 ? Fork::waitOnProcess(-pid) : Fork::terminateProcess(-pid); if (r.pid || r.code || r.exitStatus) sim::fail("wrong-report", "a report for an invalid process id"); break; }
        }
      } catch (const std::exception & e) { sim::fail("unexpected-exception", "query of process %d threw %.200s", pid, e.what()); }
    }
  };
  if (watchers == 1) watcher(0, steps[0], false);
  else { std::vector<std::function<void ()>> b; for (int w = 0; w < watchers; ++w) b.push_back([&, w] { watcher(w, steps[(size_t) w], false); }); hl::runThreads(b); }
  watcher(0, {}, true);
  Quiet q;
  for (int i = 0; i < n; ++i) {
    if (pids[(size_t) i] <= 0) { if (B->runs[i]) sim::fail("ran-without-fork", "the function of a failed fork was run"); continue; }
    if (B->runs[i] > 1 || (B->runs[i] == 0 && !killed[(size_t) i])) sim::fail("runs", "the function of child %d ran %d times", i, B->runs[i]);
    if (B->runs[i] && B->pidInside[i] != pids[(size_t) i]) sim::fail("wrong-pid", "child %d has process id %d, the parent was told %d", i, B->pidInside[i], pids[(size_t) i]);
  }
  if (B->inParent) sim::fail("ran-in-parent", "a child's function ran in the parent");
}
