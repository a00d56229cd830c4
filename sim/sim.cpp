// Deterministic simulator: scheduler, clocks, thread/process/lock interposition.
// Compiled WITHOUT -fsanitize=thread.
#include "core.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <semaphore.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <execinfo.h>
#include <exception>
#include <unistd.h>

namespace sim {

const char * const faultNames[] = {
  "preemption", "spurious_wakeup", "stall", "clock_step_forward", "clock_step_backward", "timeout_fired",
  "wake_order", "user_exception", "bad_alloc", "fork_failure", "crash_signal", "crash_exit", "process_kill",
  "open_failure", "read_error", "short_read", "write_error", "short_write", "disk_full", "eintr", "rename_failure",
  "stored_data_corrupted", "slow_stream", "non_utc_time_zone", "dirty_memory", "shm_failure"
};

Shared * S = nullptr;
__thread int tl_me = -1;
__thread int tl_quiet = 0;
__thread double tl_allocFault = 0;
bool g_active = false;
char g_scratch[200];

static const int64_t STEP_NS = 20;

uint64_t splitmix(uint64_t & s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static inline Task & me() { return S->T[tl_me]; }

static inline void hashIn(uint64_t & h, uint64_t v) { h ^= v; h *= 0x100000001B3ull; h ^= h >> 29; }

// ------------------------------------------------------------------ real functions
template <typename F> static F resolve(const char * n) { return (F) dlsym(RTLD_NEXT, n); }
#define RESOLVE(type, name) static decltype(resolve<type>("")) r; if (!r) r = resolve<type>(#name)

// ------------------------------------------------------------------ random
uint64_t rnd() { return splitmix(S->wprng); }
uint64_t rnd(uint64_t n) { return n <= 1 ? 0 : (uint64_t) (((unsigned __int128) splitmix(S->wprng) * n) >> 64); }
int64_t rndRange(int64_t lo, int64_t hi) { return lo + (int64_t) rnd((uint64_t) (hi - lo + 1)); }
static double unit(uint64_t & s) { return (double) (splitmix(s) >> 11) * (1.0 / 9007199254740992.0); }
bool chance(double p) { return unit(S->wprng) < p; }
static uint64_t crnd(uint64_t n) { return n <= 1 ? 0 : (uint64_t) (((unsigned __int128) splitmix(S->cprng) * n) >> 64); }
static uint64_t srnd(uint64_t n) { return n <= 1 ? 0 : (uint64_t) (((unsigned __int128) splitmix(S->prng) * n) >> 64); }

bool keepOp() {
  uint32_t i = S->opCounter++;
  return i >= MAXOPS || !S->drop[i];
}

static void record(DecKind k, int task, uint32_t idx, uint32_t val) {
  if (S->ndec >= MAXDEC) { S->decOverflow = 1; return; }
  Dec & d = S->dec[S->ndec++];
  d.kind = k; d.task = (uint8_t) task; d.idx = idx; d.val = val; d.pad = 0;
}

static bool scripted(DecKind k, int task, uint32_t idx, uint32_t & val) {
  int & c = S->repCur[k][task];
  int e = S->repStart[k][task + 1];
  while (c < e && S->rep[c].idx < idx) ++c;
  if (c < e && S->rep[c].idx == idx) { val = S->rep[c].val; ++c; return true; }
  return false;
}

unsigned choose(unsigned n, double p) {
  if (!g_active || tl_me < 0 || n < 2) return 0;
  Task & m = me();
  uint32_t idx = m.chooses++;
  uint32_t v = 0;
  if (S->replayMode) {
    if (!scripted(D_CHOOSE, tl_me, idx, v)) v = 0;
    if (v >= n) v = v % n;
  } else {
    if (p <= 0 || S->fair || !S->tune.faultsOn) return 0;
    if (unit(S->prng) < p) v = 1 + (uint32_t) srnd(n - 1);
  }
  if (v) { record(D_CHOOSE, tl_me, idx, v); hashIn(S->traceHash, 0xC000 + v + ((uint64_t) tl_me << 32)); }
  return v;
}

void count(Fault f) { if (S) ++S->faults[f]; }
uint64_t fired(Fault f) { return S->faults[f]; }
bool fault(Fault f, double p) {
  if (choose(2, p)) { count(f); return true; }
  return false;
}

// ------------------------------------------------------------------ trivial state access
bool active() { return g_active; }
int self() { return tl_me; }
int selfProc() { return tl_me < 0 ? 0 : me().proc; }
static void accountNow();
int64_t mono() { accountNow(); return S->now; }
int64_t wall() { accountNow(); return S->now + S->wallOff; }
int64_t idleTime() { return S->idle; }
int64_t stallTime() { return S->stalled; }
uint64_t eventNo() { return ++S->eventNo; }
void setWall(int64_t ns) { accountNow(); S->wallOff = ns - S->now; }
void stepWall(int64_t d) { S->wallOff += d; count(d > 0 ? F_CLOCKJUMP_FWD : F_CLOCKJUMP_BACK); hashIn(S->traceHash, (uint64_t) d); note("wall clock stepped by %lld ms", (long long) (d / 1000000)); }
Tuning & tuning() { return S->tune; }
IoFaults & ioFaults() { return S->io; }
void setFlagDiskFull(bool full) { S->diskFull = full; }
void onDeadlock(bool (*h)()) { S->deadlockHook = h; }
static const int VPID = 4000;
bool procEnded(int pid) { int i = pid - VPID; return i > 0 && i < S->nprocs && S->P[i].zombie; }
void setExpectCrash(bool on) { S->P[selfProc()].expectCrash = on; }
void nontrivial() { S->isNontrivial = 1; }

void * shared(size_t n) {
  n = (n + 63) & ~size_t(63);
  if (S->userUsed + n > USERSZ) invalid("shared harness memory exhausted");
  void * p = S->user + S->userUsed;
  S->userUsed += n;
  return p;
}

void probe(const char * name) {
  for (int i = 0; i < S->nprobes; ++i) if (!strcmp(S->probes[i].name, name)) { ++S->probes[i].n; return; }
  if (S->nprobes < MAXPROBE) { strncpy(S->probes[S->nprobes].name, name, 47); S->probes[S->nprobes++].n = 1; }
}

void note(const char * fmt, ...) {
  if (!S->verbose) return;
  int saved = errno;
  char buf[600];
  int n = snprintf(buf, sizeof buf, "[%6llu t=%.6fms T%d.P%d] ", (unsigned long long) S->eventNo, (double) (S->now - 1000000000ll) / 1e6, tl_me, selfProc());
  va_list ap; va_start(ap, fmt);
  n += vsnprintf(buf + n, sizeof buf - (size_t) n - 2, fmt, ap);
  va_end(ap);
  if (n > (int) sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  if (S->noteLen + (size_t) n < NOTESZ) { memcpy(S->notes + S->noteLen, buf, (size_t) n); S->noteLen += (size_t) n; }
  errno = saved;
}

void realExit(int c) { for (;;) syscall(SYS_exit_group, c); }

void endRun() {
  g_active = false;
  if (getenv("SIM_PROFILE")) exit(0);
  if ((pid_t) syscall(SYS_getpid) != S->rootPid) syscall(SYS_kill, S->rootPid, SIGKILL);
  realExit(0);
}

static void setVerdict(int v, const char * cls, const char * fmt, va_list ap) {
  if (S->verdict != V_NONE) return;
  snprintf(S->cls, sizeof S->cls, "%s", cls);
  vsnprintf(S->detail, sizeof S->detail, fmt, ap);
  S->verdict = v;
}

void fail(const char * cls, const char * fmt, ...) {
  ++tl_quiet;
  va_list ap; va_start(ap, fmt);
  setVerdict(V_FAIL, cls, fmt, ap);
  va_end(ap);
  note("VIOLATION %s: %s", S->cls, S->detail);
  if (S->verbose > 1) { void * b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
  endRun();
}
void invalid(const char * fmt, ...) {
  ++tl_quiet;
  va_list ap; va_start(ap, fmt);
  setVerdict(V_INVALID, "invalid", fmt, ap);
  va_end(ap);
  note("INVALID %s", S->detail);
  endRun();
}
void require(bool ok, const char * cls, const char * fmt, ...) {
  if (ok) return;
  ++tl_quiet;
  va_list ap; va_start(ap, fmt);
  setVerdict(V_FAIL, cls, fmt, ap);
  va_end(ap);
  note("VIOLATION %s: %s", S->cls, S->detail);
  if (S->verbose > 1) { void * b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
  endRun();
}
void finishRun() {
  if (S->verdict == V_NONE) S->verdict = V_OK;
  endRun();
}

Quiet::Quiet() { ++tl_quiet; }
Quiet::~Quiet() { --tl_quiet; }
AllocFaults::AllocFaults(double p) : old(tl_allocFault) { tl_allocFault = p; }
AllocFaults::~AllocFaults() { tl_allocFault = old; }

// ------------------------------------------------------------------ vector clocks
void vcJoin(VC & a, const VC & b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void vcTick() { ++me().vc.c[tl_me]; }
void vcRelease(VC & o) { vcJoin(o, me().vc); vcTick(); }
void vcAcquire(const VC & o) { vcJoin(me().vc, o); }

static AtomE * atomEntry(const volatile void * a, bool create) {
  uint64_t key = (uint64_t) (uintptr_t) a;
  uint64_t h = key * 0x9E3779B97F4A7C15ull >> 40;
  for (int i = 0; i < 64; ++i) {
    AtomE & e = S->atom[(h + (uint64_t) i) & (ATAB - 1)];
    if (e.key == key) return &e;
    if (e.key == 0) { if (!create) return nullptr; e.key = key; return &e; }
  }
  // Table crowded: share an entry. This only adds happens-before edges (never a false alarm).
  return &S->atom[h & (ATAB - 1)];
}
void atomicAcq(const volatile void * a, int mo) {
  AtomE * e = atomEntry(a, false);
  if (!e) return;
  if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) vcJoin(me().acqP, e->vc);
  else vcAcquire(e->vc);
}
void atomicRel(const volatile void * a, int mo, bool rmw) {
  AtomE * e = atomEntry(a, true);
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  const VC & src = rel ? me().vc : me().relF;
  if (rmw) vcJoin(e->vc, src); else e->vc = src;
  if (rel) vcTick();
}
void fence(int mo) {
  bool acq = mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED;
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (acq) { vcJoin(me().vc, me().acqP); }
  if (rel) { me().relF = me().vc; vcTick(); }
}

static PayE * payEntry(const void * p, bool create) {
  uint64_t key = (uint64_t) (uintptr_t) p;
  uint64_t h = key * 0x9E3779B97F4A7C15ull >> 42;
  for (int i = 0; i < 256; ++i) {
    PayE & e = S->pay[(h + (uint64_t) i) & (PTAB - 1)];
    if (e.key == key) return &e;
    if (e.key == 0) { if (!create) return nullptr; e.key = key; e.wtask = -1; return &e; }
  }
  return nullptr;
}
void payloadWrite(const void * p) {
  if (!g_active || tl_me < 0) return;
  PayE * e = payEntry(p, true);
  if (!e) return;
  const VC & v = me().vc;
  if (e->wtask >= 0 && e->wtask != tl_me && e->wclk > v.c[e->wtask])
    fail("unpublished-data", "data written by thread T%d is overwritten by thread T%d with no synchronisation in between", e->wtask, tl_me);
  for (int i = 0; i < MAXT; ++i)
    if (i != tl_me && e->r[i] > v.c[i])
      fail("unpublished-data", "data read by thread T%d is overwritten by thread T%d with no synchronisation in between", i, tl_me);
  e->wtask = tl_me; e->wclk = v.c[tl_me];
  memset(e->r, 0, sizeof e->r);
}
void payloadRead(const void * p) {
  if (!g_active || tl_me < 0) return;
  PayE * e = payEntry(p, true);
  if (!e) return;
  const VC & v = me().vc;
  if (e->wtask >= 0 && e->wtask != tl_me && e->wclk > v.c[e->wtask])
    fail("unpublished-data", "data written by thread T%d is read by thread T%d with no synchronisation in between", e->wtask, tl_me);
  e->r[tl_me] = v.c[tl_me];
}
void payloadForget(const void * p) {
  PayE * e = payEntry(p, false);
  if (e) { e->wtask = -1; memset(e->r, 0, sizeof e->r); }
}

// ------------------------------------------------------------------ scheduler
static void futexWait(uint32_t * a) {
  for (;;) {
    if (__atomic_exchange_n(a, 0u, __ATOMIC_ACQUIRE) == 1u) return;
    struct timespec poll { 0, 50000000 }; // a wakeup may be consumed by a process that is being killed
    syscall(SYS_futex, a, FUTEX_WAIT, 0u, &poll, nullptr, 0);
  }
}
static void futexSet(uint32_t * a) {
  __atomic_store_n(a, 1u, __ATOMIC_RELEASE);
  syscall(SYS_futex, a, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}

void ev(int kind, uint64_t obj) {
  ++S->syncOps;
  hashIn(S->syncHash, ((uint64_t) tl_me << 56) ^ ((uint64_t) kind << 48) ^ obj);
}

static void drawGap(Task & t) {
  if (S->replayMode) {
    int c = S->repCur[D_SCHED][tl_me];
    int e = S->repStart[D_SCHED][tl_me + 1];
    while (c < e && S->rep[c].idx <= t.steps) ++c;
    uint32_t lim = t.steps + 20000;
    t.nextStop = c < e && S->rep[c].idx < lim ? S->rep[c].idx : lim;
    if (S->fair) t.nextStop = t.steps + 500 < t.nextStop ? t.steps + 500 : t.nextStop;
    return;
  }
  uint32_t gap = 20000;
  if (S->fair) gap = 500;
  else if (S->strat == 1) {
    uint64_t g = S->gsteps;
    if (S->pctNext > g && S->pctNext - g < gap) gap = (uint32_t) (S->pctNext - g);
    else if (S->pctNext <= g) gap = 1;
  } else if (S->memGap > 0) {
    double u = unit(S->prng);
    double x = -__builtin_log(1.0 - u) * S->memGap;
    gap = x < 1 ? 1 : x > 20000 ? 20000 : (uint32_t) x;
  }
  t.nextStop = t.steps + gap;
}

static inline void accountSteps(Task & m) {
  uint32_t d = m.steps - m.stepsAtSwitch;
  m.stepsAtSwitch = m.steps;
  S->gsteps += d;
  S->now += (int64_t) d * STEP_NS;
}
// The time of the calling thread must not depend on when its steps were last added up, which differs
// between a run and its replay.
static void accountNow() { if (g_active && tl_me >= 0 && S->running == tl_me) accountSteps(me()); }

static int64_t monoDeadline(const Task & t) { return t.clockReal ? t.deadline - S->wallOff : t.deadline; }

static void makeRunnable(int i) {
  Task & t = S->T[i];
  t.state = TS_RUN; t.waitKind = W_NONE; t.timed = 0; t.spuriousArmed = 0;
}

static void fireTimers() {
  for (int i = 0; i < S->ntasks; ++i) {
    Task & t = S->T[i];
    if (t.state != TS_BLOCKED) continue;
    if (t.spuriousArmed && t.spuriousAt <= S->now) { t.wakeSpurious = 1; count(F_SPURIOUS); makeRunnable(i); continue; }
    if (t.timed && monoDeadline(t) <= S->now) { t.wakeTimeout = 1; if (t.waitKind != W_SLEEP) count(F_TIMEOUT); makeRunnable(i); }
  }
}

static void describeTasks(char * buf, size_t n) {
  static const char * const w[] = { "-", "lock", "condition", "join", "sleep", "rwlock", "static-init", "once", "child-exit", "custom" };
  size_t u = 0; buf[0] = 0;
  for (int i = 0; i < S->ntasks && u + 60 < n; ++i) {
    Task & t = S->T[i];
    if (t.state == TS_FREE || t.state == TS_DONE) continue;
    u += (size_t) snprintf(buf + u, n - u, " T%d/P%d:%s%s", i, t.proc, t.state == TS_RUN ? "runnable" : w[t.waitKind], t.timed ? "(timed)" : "");
  }
}

static bool eligible(const Task & t) { return t.state == TS_RUN && t.stallUntil <= S->now; }

static void stallMaybe() {
  Tuning & u = S->tune;
  if (u.stall > 0) {
    unsigned v = choose(9, u.stall);
    if (v) {
      static const int64_t d[] = { 0, 2000, 20000, 200000, 1000000, 5000000, 60000000, 250000000, 1500000000 };
      int64_t x = d[v] < u.maxStallNs ? d[v] : u.maxStallNs;
      me().stallUntil = S->now + x; count(F_STALL);
      note("stalled for %lld us", (long long) (x / 1000));
    }
  }
  if (u.clockJump > 0) {
    unsigned v = choose(9, u.clockJump);
    if (v) {
      static const int64_t d[] = { 0, 10, -10, 1000, -1000, 3600000, -3600000, 200, -200 };
      stepWall(d[v] * 1000000);
    }
  }
}

void schedule(Kind k, bool meRunnable) {
  Task & m = me();
  ++m.steps;
  accountSteps(m);
  if (meRunnable && k == K_SYNC && !S->fair) stallMaybe();
  if (!S->fair && S->gsteps > S->tune.faultSteps) {
    S->fair = 1;
    for (int i = 0; i < S->ntasks; ++i) S->T[i].stallUntil = 0;
    note("faults stopped, fair scheduling from here");
  }
  if (S->gsteps > S->tune.maxSteps) {
    char b[600]; describeTasks(b, sizeof b);
    fail("no-progress", "no progress within %llu steps although faults stopped at step %llu:%s", (unsigned long long) S->tune.maxSteps, (unsigned long long) S->tune.faultSteps, b);
  }
  int run[MAXT], n;
  for (;;) {
    fireTimers();
    n = 0;
    for (int i = 0; i < S->ntasks; ++i) {
      if (i == tl_me && !meRunnable && S->T[i].state == TS_RUN && k == K_EXIT) continue;
      if (eligible(S->T[i])) run[n++] = i;
    }
    if (n) break;
    int64_t next = INT64_MAX; bool anyStall = false;
    for (int i = 0; i < S->ntasks; ++i) {
      Task & t = S->T[i];
      if (t.state == TS_RUN && !(i == tl_me && k == K_EXIT)) { anyStall = true; if (t.stallUntil < next) next = t.stallUntil; }
      if (t.state == TS_BLOCKED) {
        if (t.timed && monoDeadline(t) < next) next = monoDeadline(t);
        if (t.spuriousArmed && t.spuriousAt < next) next = t.spuriousAt;
      }
    }
    if (next == INT64_MAX) {
      if (S->deadlockHook) { ++tl_quiet; if (S->deadlockHook()) finishRun(); --tl_quiet; }
      char b[900]; describeTasks(b, sizeof b);
      fail("deadlock", "nothing can run any more:%s", b);
    }
    int64_t d = next - S->now;
    if (d < 0) d = 0;
    if (anyStall) S->stalled += d; else S->idle += d;
    S->now = next;
    if (S->idleCap && S->idle > S->tune.maxIdleNs) {
      char b[600]; describeTasks(b, sizeof b);
      fail("no-progress", "only timers have been firing for %lld s of simulated time:%s", (long long) (S->idle / 1000000000), b);
    }
  }
  // default decision
  int def = -1;
  bool meIn = meRunnable && eligible(m);
  if (meIn && k != K_YIELD) def = tl_me;
  else {
    for (int d = 1; d <= MAXT && def < 0; ++d) {
      int c = (tl_me + d) % MAXT;
      for (int j = 0; j < n; ++j) if (run[j] == c) { def = c; break; }
    }
  }
  int next = def;
  uint32_t idx = m.steps;
  if (S->replayMode) {
    uint32_t v;
    if (scripted(D_SCHED, tl_me, idx, v)) {
      for (int j = 0; j < n; ++j) if (run[j] == (int) v) next = (int) v;
    } else if (S->fair && k == K_MEM && n > 1) {
      next = -1;
      for (int d = 1; d <= MAXT && next < 0; ++d) {
        int c = (tl_me + d) % MAXT;
        for (int j = 0; j < n; ++j) if (run[j] == c) { next = c; break; }
      }
    }
  } else if (S->fair) {
    if (k == K_MEM && n > 1) {
      next = -1;
      for (int d = 1; d <= MAXT && next < 0; ++d) {
        int c = (tl_me + d) % MAXT;
        for (int j = 0; j < n; ++j) if (run[j] == c) { next = c; break; }
      }
    }
  } else if (n > 1) {
    if (S->strat == 1) {
      if (S->gsteps >= S->pctNext) {
        // priority change point: the running thread drops to the lowest priority
        m.prio = --S->pctLow;
        S->pctNext = S->gsteps + 1 + srnd(S->pctLen);
      }
      if (k == K_YIELD) m.prio = --S->pctLow;
      int best = run[0];
      for (int j = 1; j < n; ++j) if (S->T[run[j]].prio > S->T[best].prio) best = run[j];
      next = best;
    } else if (!meIn || k == K_YIELD) {
      next = run[srnd((uint64_t) n)];
      if (k == K_YIELD && next == tl_me) next = run[srnd((uint64_t) n)];
    } else if (k == K_MEM ? (S->memGap > 0 && m.steps >= m.nextStop) : unit(S->prng) < S->pSync) {
      do next = run[srnd((uint64_t) n)]; while (next == tl_me);
    }
  }
  if (next != def && !S->fair) record(D_SCHED, tl_me, idx, (uint32_t) next);
  if (next == tl_me) { drawGap(m); return; }
  if (meIn) { ++S->preempts; if (k == K_MEM || k == K_SYNC) ++S->faults[F_PREEMPT]; }
  ++S->switches;
  hashIn(S->traceHash, ((uint64_t) tl_me << 48) ^ ((uint64_t) next << 40) ^ m.steps ^ ((uint64_t) k << 60));
  S->running = next;
  uint32_t * mine = &m.futex;
  futexSet(&S->T[next].futex);
  if (k == K_EXIT) return;
  futexWait(mine);
  m.stepsAtSwitch = m.steps;
  drawGap(m);
}

void memStop() {
  schedule(K_MEM, true);
}

void yield() { if (on()) schedule(K_YIELD, true); }

static void syncPoint() { if (on()) schedule(K_SYNC, true); }

void block(Wait w, uint64_t key) {
  Task & t = me();
  t.state = TS_BLOCKED; t.waitKind = w; t.waitKey = key; t.timed = 0; t.waitSeq = ++S->waitSeq;
  t.wakeTimeout = t.wakeSpurious = 0; t.spuriousArmed = 0;
  schedule(K_BLOCK, false);
}
bool blockTimed(Wait w, uint64_t key, bool clockReal, int64_t deadline, bool spuriousOk) {
  Task & t = me();
  t.state = TS_BLOCKED; t.waitKind = w; t.waitKey = key; t.timed = deadline != INT64_MAX; t.clockReal = clockReal;
  t.deadline = deadline; t.waitSeq = ++S->waitSeq; t.wakeTimeout = t.wakeSpurious = 0; t.spuriousArmed = 0;
  accountNow();
  if (spuriousOk && S->tune.spurious > 0) {
    unsigned v = choose(4, S->tune.spurious);
    if (v) { static const int64_t d[] = { 0, 0, 100000, 20000000 }; t.spuriousArmed = 1; t.spuriousAt = S->now + d[v]; }
  }
  schedule(K_BLOCK, false);
  return t.wakeTimeout;
}
void wakeAll(Wait w, uint64_t key) {
  for (int i = 0; i < S->ntasks; ++i) {
    Task & t = S->T[i];
    if (t.state == TS_BLOCKED && t.waitKind == w && t.waitKey == key) makeRunnable(i);
  }
}
void wakeOne(Wait w, uint64_t key) {
  int c[MAXT], n = 0;
  for (int i = 0; i < S->ntasks; ++i) {
    Task & t = S->T[i];
    if (t.state == TS_BLOCKED && t.waitKind == w && t.waitKey == key) {
      int j = n++;
      while (j > 0 && S->T[c[j - 1]].waitSeq > t.waitSeq) { c[j] = c[j - 1]; --j; }
      c[j] = i;
    }
  }
  if (!n) return;
  unsigned v = n > 1 ? choose((unsigned) n, 0.5) : 0;
  if (v) count(F_WAKEORDER);
  makeRunnable(c[v]);
}

void sleepNs(int64_t ns) {
  if (!on()) return;
  ev(1, 0);
  if (ns <= 0) { schedule(K_YIELD, true); return; }
  accountSteps(me());
  accountNow();
  blockTimed(W_SLEEP, 0, false, S->now + ns, false);
}
void stallSelf(int64_t ns) { if (!on()) return; accountNow(); me().stallUntil = S->now + ns; count(F_STALL); schedule(K_SYNC, true); }

void swarm() {
  Tuning & t = S->tune;
  static const double sp[] = { 0, 0, 0.02, 0.1, 0.3 };
  static const double st[] = { 0, 0, 0, 0.002, 0.02 };
  t.spurious = sp[crnd(5)];
  t.stall = st[crnd(5)];
  t.clockJump = 0;
}

// ------------------------------------------------------------------ run life cycle
static int newTask(int proc) {
  int i;
  for (i = 0; i < S->ntasks; ++i) if (S->T[i].state == TS_FREE && S->T[i].used) break;
  if (i == S->ntasks) { if (S->ntasks >= MAXT) invalid("too many simulated threads"); ++S->ntasks; }
  Task & t = S->T[i];
  uint32_t clk = t.vc.c[i], gen = t.gen, steps = t.steps, ch = t.chooses;
  memset(&t, 0, sizeof t);
  t.vc.c[i] = clk; t.gen = gen + 1; t.used = 1; t.proc = (uint8_t) proc; t.state = TS_RUN;
  t.steps = t.stepsAtSwitch = steps; t.chooses = ch;
  t.prio = S->replayMode ? 0 : (int) (1000 + srnd(1000000));
  if (tl_me >= 0) { vcJoin(t.vc, me().vc); vcTick(); }
  ++t.vc.c[i];
  return i;
}

static void crashHandler(int sig) {
  if (g_active && tl_me >= 0) {
    if (S->P[selfProc()].expectCrash) { tl_quiet = 0; procDie(CLD_DUMPED, sig); }
    ++tl_quiet;
    if (S->verbose > 1) { void * b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
    fail("crash", "signal %d (%s) raised in the code under test", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : "?");
  }
  signal(sig, SIG_DFL);
  syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), sig);
}

static pthread_key_t g_exitKey;
static void taskExit(void * p);
static void onExitHandler(int status, void *) {
  if (!g_active || tl_me < 0) return;
  procDie(CLD_EXITED, status & 0xff);
}

void enterRun() {
  // S has been prepared by the driver.
  uint64_t s = S->seed, z = S->sseed;
  S->wprng = splitmix(s); S->rndDev = splitmix(s);
  S->prng = splitmix(z); S->cprng = splitmix(z);
  S->traceHash = S->syncHash = 0xcbf29ce484222325ull;
  S->now = 1000000000ll; S->wallOff = 1583000000ll * 1000000000ll; // 2020-02-29T18:13:20Z + 1 s
  S->idleCap = 3600ll * 1000000000ll;
  new (&S->tune) Tuning();
  new (&S->io) IoFaults();
  S->rootPid = (pid_t) syscall(SYS_getpid);
  // schedule strategy of this run
  uint64_t q = crnd(100);
  static const double gaps[] = { 4, 12, 40, 120, 400, 1500, 6000, 0 };
  static const double ps[] = { 0.02, 0.1, 0.25, 0.5, 0.85 };
  S->memGap = gaps[crnd(8)];
  S->pSync = ps[crnd(5)];
  if (q < 30) { S->strat = 1; static const uint64_t lens[] = { 60, 300, 1500, 8000 }; S->pctLen = lens[crnd(4)]; S->pctNext = 1 + crnd(S->pctLen); S->pctLow = 0; }
  else S->strat = 0;
  static const int dirt[] = { 0, 0x01, 0xFF, 0xCB };
  S->dirty = dirt[crnd(4)];
  S->nprocs = 1; S->P[0].used = 1; S->P[0].realPid = S->rootPid; S->P[0].parent = -1;
  pthread_key_create(&g_exitKey, taskExit);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crashHandler; sa.sa_flags = SA_NODEFER;
  for (int sig : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(sig, &sa, nullptr);
  signal(SIGCHLD, SIG_IGN);
  on_exit(onExitHandler, nullptr);
  tl_me = newTask(0);
  S->running = tl_me;
  S->activeFlag = 1;
  g_active = true;
  drawGap(me());
}

// ------------------------------------------------------------------ synchronisation objects
// The identity of a lock lives inside the object (fields unused while simulated), so that several mappings
// and processes agree on it. Private objects copied by fork() get a fresh identity in the child.
struct ObjTag { uint32_t magic; uint32_t id; uint32_t proc; uint32_t chk; };

static Obj & objFor(ObjTag * g, bool pshared, uint32_t & idOut) {
  uint32_t proc = pshared ? 0xFFFF : (uint32_t) selfProc();
  { volatile uint32_t * w = &g->magic; *w = *w; } // every operation on a lock writes to it: faults in read-only memory
  if (g->magic == OBJ_MAGIC && g->chk == (g->id ^ 0x5A5A1234u) && g->id < (uint32_t) S->nobj && g->proc == proc) {
    idOut = g->id;
    return S->obj[g->id];
  }
  Obj * from = nullptr;
  if (g->magic == OBJ_MAGIC && g->chk == (g->id ^ 0x5A5A1234u) && g->id < (uint32_t) S->nobj) from = &S->obj[g->id];
  if (S->nobj >= MAXOBJ) invalid("too many synchronisation objects");
  uint32_t id = (uint32_t) S->nobj++;
  Obj & o = S->obj[id];
  memset((void *) &o, 0, sizeof o);
  if (from) { // the state of the parent's object at the time of the fork
    o.vc = from->vc;
    Proc & P = S->P[selfProc()];
    for (int i = 0; i < P.nheld; ++i) if (P.held[i].id == (uint32_t) (from - S->obj)) { o.owner = P.held[i].byForker ? tl_me + 1 : MAXT + 1; o.depth = 1; }
  }
  o.proc = proc;
  g->magic = OBJ_MAGIC; g->id = id; g->proc = proc; g->chk = id ^ 0x5A5A1234u;
  idOut = id;
  return o;
}
static Obj & mutexObj(pthread_mutex_t * m, uint32_t & id) {
  return objFor((ObjTag *) ((char *) m + 24), m->__data.__kind & 128, id);
}
static Obj & condObj(pthread_cond_t * c, uint32_t & id) {
  return objFor((ObjTag *) c, c->__data.__wrefs & 1, id);
}
static Obj & rwObj(pthread_rwlock_t * l, uint32_t & id) {
  return objFor((ObjTag *) l, l->__data.__shared, id);
}

static int mutexLock(pthread_mutex_t * m, bool tryOnly, bool timed, bool clockReal, int64_t deadline, bool pre) {
  if (pre) syncPoint();
  uint32_t id; mutexObj(m, id);
  int type = m->__data.__kind & 3;
  for (;;) {
    Obj & o = mutexObj(m, id);
    if (o.owner == 0) { o.owner = tl_me + 1; o.depth = 1; vcAcquire(o.vc); ev(10, id); return 0; }
    if (o.owner == tl_me + 1) {
      if (type == PTHREAD_MUTEX_RECURSIVE_NP) { ++o.depth; return 0; }
      if (tryOnly) return EBUSY;
      if (type == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    if (tryOnly) return EBUSY;
    if (timed) { if (blockTimed(W_MUTEX, id, clockReal, deadline, false)) return ETIMEDOUT; }
    else block(W_MUTEX, id);
  }
}
static int mutexUnlock(pthread_mutex_t * m, bool post) {
  uint32_t id; Obj & o = mutexObj(m, id);
  if (o.owner != tl_me + 1) {
    if ((m->__data.__kind & 3) != PTHREAD_MUTEX_TIMED_NP) return EPERM;
    fail("lock-misuse", "a lock is released by thread T%d which does not hold it (holder T%d)", tl_me, o.owner - 1);
  }
  if (--o.depth > 0) return 0;
  o.owner = 0;
  vcRelease(o.vc);
  ev(11, id);
  wakeAll(W_MUTEX, id);
  if (post) syncPoint();
  return 0;
}

static int64_t ts(const struct timespec * t) { return (int64_t) t->tv_sec * 1000000000ll + t->tv_nsec; }

static int condWait(pthread_cond_t * c, pthread_mutex_t * m, bool timed, bool clockReal, int64_t deadline) {
  syncPoint();
  uint32_t id; condObj(c, id);
  uint32_t mid; Obj & mo = mutexObj(m, mid);
  if (mo.owner != tl_me + 1) fail("lock-misuse", "condition wait without holding the lock");
  int depth = mo.depth; mo.depth = 1;
  ev(12, id);
  mutexUnlock(m, false);
  accountSteps(me());
  bool to = blockTimed(W_COND, id, clockReal, timed ? deadline : INT64_MAX, true);
  uint32_t dummy; condObj(c, dummy);
  mutexLock(m, false, false, false, 0, false);
  mutexObj(m, mid).depth = depth;
  ev(to ? 14 : 13, id);
  return to ? ETIMEDOUT : 0;
}

} // namespace sim

using namespace sim;

// ==================================================================== interposed functions
extern "C" {

int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) noexcept {
  RESOLVE(int (*)(pthread_mutex_t *, const pthread_mutexattr_t *), pthread_mutex_init);
  int rc = r(m, a);
  memset((char *) m + 24, 0, 16);
  return rc;
}
int pthread_mutex_destroy(pthread_mutex_t * m) noexcept {
  if (on()) {
    ObjTag * g = (ObjTag *) ((char *) m + 24);
    if (g->magic == OBJ_MAGIC) {
      uint32_t id; Obj & o = mutexObj(m, id);
      if (o.owner) return EBUSY;
      g->magic = 0;
    }
    return 0;
  }
  RESOLVE(int (*)(pthread_mutex_t *), pthread_mutex_destroy);
  return r(m);
}
int pthread_mutex_lock(pthread_mutex_t * m) noexcept {
  if (on()) return mutexLock(m, false, false, false, 0, true);
  if (g_active) return 0;
  RESOLVE(int (*)(pthread_mutex_t *), pthread_mutex_lock);
  return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t * m) noexcept {
  if (on()) return mutexLock(m, true, false, false, 0, true);
  if (g_active) return 0;
  RESOLVE(int (*)(pthread_mutex_t *), pthread_mutex_trylock);
  return r(m);
}
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * t) noexcept {
  if (on()) return mutexLock(m, false, true, true, ts(t), true);
  RESOLVE(int (*)(pthread_mutex_t *, const struct timespec *), pthread_mutex_timedlock);
  return r(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * t) noexcept {
  if (on()) return mutexLock(m, false, true, c == CLOCK_REALTIME, ts(t), true);
  RESOLVE(int (*)(pthread_mutex_t *, clockid_t, const struct timespec *), pthread_mutex_clocklock);
  return r(m, c, t);
}
int pthread_mutex_unlock(pthread_mutex_t * m) noexcept {
  if (on()) return mutexUnlock(m, true);
  if (g_active) return 0;
  RESOLVE(int (*)(pthread_mutex_t *), pthread_mutex_unlock);
  return r(m);
}

int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t * a) noexcept {
  RESOLVE(int (*)(pthread_cond_t *, const pthread_condattr_t *), pthread_cond_init);
  return r(c, a);
}
int pthread_cond_destroy(pthread_cond_t * c) noexcept {
  if (on()) {
    ObjTag * g = (ObjTag *) c;
    if (g->magic == OBJ_MAGIC) {
      uint32_t id; condObj(c, id);
      for (int i = 0; i < S->ntasks; ++i)
        if (S->T[i].state == TS_BLOCKED && S->T[i].waitKind == W_COND && S->T[i].waitKey == id)
          fail("destroyed-while-waited", "a condition variable is destroyed while thread T%d waits on it", i);
      g->magic = 0;
    }
    return 0;
  }
  if (g_active) return 0;
  RESOLVE(int (*)(pthread_cond_t *), pthread_cond_destroy);
  return r(c);
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
  if (on()) return condWait(c, m, false, false, 0);
  RESOLVE(int (*)(pthread_cond_t *, pthread_mutex_t *), pthread_cond_wait);
  return r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) {
  if (on()) return condWait(c, m, true, !(c->__data.__wrefs & 2), ts(t));
  RESOLVE(int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *), pthread_cond_timedwait);
  return r(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) {
  if (on()) return condWait(c, m, true, k == CLOCK_REALTIME, ts(t));
  RESOLVE(int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *), pthread_cond_clockwait);
  return r(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t * c) noexcept {
  if (on()) { uint32_t id; condObj(c, id); ev(15, id); wakeOne(W_COND, id); syncPoint(); return 0; }
  if (g_active) return 0;
  RESOLVE(int (*)(pthread_cond_t *), pthread_cond_signal);
  return r(c);
}
int pthread_cond_broadcast(pthread_cond_t * c) noexcept {
  if (on()) { uint32_t id; condObj(c, id); ev(16, id); wakeAll(W_COND, id); syncPoint(); return 0; }
  if (g_active) return 0;
  RESOLVE(int (*)(pthread_cond_t *), pthread_cond_broadcast);
  return r(c);
}

static int rwLock(pthread_rwlock_t * l, bool write, bool tryOnly, bool timed, bool clockReal, int64_t dl) {
  syncPoint();
  for (;;) {
    uint32_t id; Obj & o = rwObj(l, id);
    if (write ? (o.owner == 0 && o.readers == 0) : o.owner == 0) {
      if (write) o.owner = tl_me + 1; else ++o.readers;
      vcAcquire(o.vc); ev(write ? 20 : 21, id);
      return 0;
    }
    if (tryOnly) return EBUSY;
    if (timed) { if (blockTimed(W_RW, id, clockReal, dl, false)) return ETIMEDOUT; }
    else block(W_RW, id);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t * l) noexcept { if (on()) return rwLock(l, false, false, false, false, 0); if (g_active) return 0; RESOLVE(int (*)(pthread_rwlock_t *), pthread_rwlock_rdlock); return r(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t * l) noexcept { if (on()) return rwLock(l, true, false, false, false, 0); if (g_active) return 0; RESOLVE(int (*)(pthread_rwlock_t *), pthread_rwlock_wrlock); return r(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) noexcept { if (on()) return rwLock(l, false, true, false, false, 0); if (g_active) return 0; RESOLVE(int (*)(pthread_rwlock_t *), pthread_rwlock_tryrdlock); return r(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) noexcept { if (on()) return rwLock(l, true, true, false, false, 0); if (g_active) return 0; RESOLVE(int (*)(pthread_rwlock_t *), pthread_rwlock_trywrlock); return r(l); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t * l, const struct timespec * t) noexcept { if (on()) return rwLock(l, false, false, true, true, ts(t)); RESOLVE(int (*)(pthread_rwlock_t *, const struct timespec *), pthread_rwlock_timedrdlock); return r(l, t); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t * l, const struct timespec * t) noexcept { if (on()) return rwLock(l, true, false, true, true, ts(t)); RESOLVE(int (*)(pthread_rwlock_t *, const struct timespec *), pthread_rwlock_timedwrlock); return r(l, t); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t * l, clockid_t c, const struct timespec * t) noexcept { if (on()) return rwLock(l, false, false, true, c == CLOCK_REALTIME, ts(t)); RESOLVE(int (*)(pthread_rwlock_t *, clockid_t, const struct timespec *), pthread_rwlock_clockrdlock); return r(l, c, t); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t * l, clockid_t c, const struct timespec * t) noexcept { if (on()) return rwLock(l, true, false, true, c == CLOCK_REALTIME, ts(t)); RESOLVE(int (*)(pthread_rwlock_t *, clockid_t, const struct timespec *), pthread_rwlock_clockwrlock); return r(l, c, t); }
int pthread_rwlock_unlock(pthread_rwlock_t * l) noexcept {
  if (on()) {
    uint32_t id; Obj & o = rwObj(l, id);
    if (o.owner == tl_me + 1) o.owner = 0;
    else if (o.readers > 0) --o.readers;
    else fail("lock-misuse", "a reader/writer lock is released without being held");
    vcRelease(o.vc); ev(22, id); wakeAll(W_RW, id); syncPoint();
    return 0;
  }
  if (g_active) return 0;
  RESOLVE(int (*)(pthread_rwlock_t *), pthread_rwlock_unlock);
  return r(l);
}
int pthread_rwlock_destroy(pthread_rwlock_t * l) noexcept {
  if (g_active) { ((ObjTag *) l)->magic = 0; return 0; }
  RESOLVE(int (*)(pthread_rwlock_t *), pthread_rwlock_destroy); return r(l);
}

// ------------------------------------------------------------------ once / function static guards
int pthread_once(pthread_once_t * o, void (*f)()) {
  if (!on()) {
    if (g_active) { if (*o != 2) { *o = 2; f(); } return 0; }
    RESOLVE(int (*)(pthread_once_t *, void (*)()), pthread_once);
    return r(o, f);
  }
  syncPoint();
  for (;;) {
    int v = *(volatile int *) o;
    if (v == 2) { atomicAcq(o, __ATOMIC_ACQUIRE); return 0; }
    if (v == 0x51) { block(W_ONCE, (uint64_t) (uintptr_t) o); continue; }
    *(volatile int *) o = 0x51;
    struct Undo { pthread_once_t * o; bool ok = false; ~Undo() { *(volatile int *) o = ok ? 2 : 0; atomicRel(o, __ATOMIC_RELEASE, false); wakeAll(W_ONCE, (uint64_t) (uintptr_t) o); } } u { o };
    f();
    u.ok = true;
    return 0;
  }
}

int __cxa_guard_acquire(long long * g) {
  volatile unsigned char * b = (volatile unsigned char *) g;
  if (!on()) { return b[0] ? 0 : 1; }
  syncPoint();
  for (;;) {
    if (b[0]) { atomicAcq(g, __ATOMIC_ACQUIRE); return 0; }
    if (b[1]) { block(W_GUARD, (uint64_t) (uintptr_t) g); continue; }
    b[1] = 1;
    ev(25, 0);
    return 1;
  }
}
void __cxa_guard_release(long long * g) {
  volatile unsigned char * b = (volatile unsigned char *) g;
  b[1] = 0; b[0] = 1;
  if (on()) { atomicRel(g, __ATOMIC_RELEASE, false); wakeAll(W_GUARD, (uint64_t) (uintptr_t) g); syncPoint(); }
}
void __cxa_guard_abort(long long * g) {
  volatile unsigned char * b = (volatile unsigned char *) g;
  b[1] = 0;
  if (on()) { wakeAll(W_GUARD, (uint64_t) (uintptr_t) g); }
}

// ------------------------------------------------------------------ futexes of the C++ library (futures), POSIX semaphores
static int64_t futexNs(int64_t s, int64_t n) { return s > INT64_MAX / 1000000000 - 2 ? INT64_MAX - 1 : s * 1000000000 + n; }
static bool futexWaitUntil(unsigned * a, unsigned val, bool timed, bool clockReal, int64_t dl) {
  if (!on()) return true;
  syncPoint();
  if (__atomic_load_n(a, __ATOMIC_RELAXED) != val) return true;
  if (timed) return !blockTimed(W_FUTEX, (uint64_t) (uintptr_t) a, clockReal, dl, false);
  block(W_FUTEX, (uint64_t) (uintptr_t) a);
  return true;
}
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned * a, unsigned val, bool timed, int64_t s, int64_t n) {
  return futexWaitUntil(a, val, timed, true, futexNs(s, n));
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned * a, unsigned val, bool timed, int64_t s, int64_t n) {
  return futexWaitUntil(a, val, timed, false, futexNs(s, n));
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned * a) {
  if (on()) { wakeAll(W_FUTEX, (uint64_t) (uintptr_t) a); syncPoint(); }
}

// Identified by their address, thus shared by threads (and by forked processes at the same address).
static int semWait(sem_t * m, bool tryOnly, bool timed, bool clockReal, int64_t dl) {
  volatile int * v = (volatile int *) m;
  if (on()) syncPoint();
  for (;;) {
    if (*v > 0) { --*v; if (on()) { atomicAcq(m, __ATOMIC_ACQUIRE); ev(26, 0); } return 0; }
    if (tryOnly || !on()) { errno = EAGAIN; return -1; }
    if (timed) { if (blockTimed(W_SEM, (uint64_t) (uintptr_t) m, clockReal, dl, false)) { errno = ETIMEDOUT; return -1; } }
    else block(W_SEM, (uint64_t) (uintptr_t) m);
  }
}
int sem_init(sem_t * m, int, unsigned v) noexcept { memset(m, 0, sizeof(*m)); *(volatile int *) m = (int) v; return 0; }
int sem_destroy(sem_t *) noexcept { return 0; }
int sem_wait(sem_t * m) { return semWait(m, false, false, false, 0); }
int sem_trywait(sem_t * m) noexcept { return semWait(m, true, false, false, 0); }
int sem_timedwait(sem_t * m, const struct timespec * t) { return semWait(m, false, true, true, ts(t)); }
int sem_clockwait(sem_t * m, clockid_t c, const struct timespec * t) { return semWait(m, false, true, c == CLOCK_REALTIME, ts(t)); }
int sem_getvalue(sem_t * m, int * v) noexcept { *v = *(volatile int *) m; return 0; }
int sem_post(sem_t * m) noexcept {
  if (on()) atomicRel(m, __ATOMIC_RELEASE, false);
  ++*(volatile int *) m;
  if (on()) { ev(27, 0); wakeOne(W_SEM, (uint64_t) (uintptr_t) m); syncPoint(); }
  return 0;
}

// ------------------------------------------------------------------ threads
struct Start { void * (*f)(void *); void * arg; int task; };
struct ExitRec { int task; int round; };
static __thread ExitRec tl_exit;

} // extern "C"

namespace sim {
static void taskDone(int i) {
  Task & t = S->T[i];
  t.state = TS_DONE;
  wakeAll(W_JOIN, (uint64_t) i);
  if (t.detached) t.state = TS_FREE;
}
static void taskExit(void * p) {
  ExitRec * e = (ExitRec *) p;
  if (!g_active) return;
  if (++e->round < 3) { pthread_setspecific(g_exitKey, p); return; }
  // last round: this thread is over for the simulation
  Task & t = me();
  vcTick();
  ev(31, (uint64_t) e->task);
  taskDone(e->task);
  (void) t;
  schedule(K_EXIT, false);
  tl_me = -1;
}
} // namespace sim

extern "C" {
static void * trampoline(void * a) {
  Start s = *(Start *) a;
  ::free(a);
  tl_me = s.task;
  tl_exit = ExitRec { s.task, 0 };
  pthread_setspecific(g_exitKey, &tl_exit);
  sim::futexWait(&S->T[s.task].futex);
  S->T[s.task].stepsAtSwitch = S->T[s.task].steps;
  drawGap(S->T[s.task]);
  return s.f(s.arg);
}

int pthread_create(pthread_t * th, const pthread_attr_t * a, void * (*f)(void *), void * arg) noexcept {
  RESOLVE(int (*)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *), pthread_create);
  if (!on()) return r(th, a, f, arg);
  int t = newTask(selfProc());
  Start * s = (Start *) malloc(sizeof(Start));
  *s = Start { f, arg, t };
  int rc = r(th, a, trampoline, s);
  if (rc) { S->T[t].state = TS_FREE; ::free(s); return rc; }
  S->T[t].waitKey = (uint64_t) *th; // for join lookup while running
  S->T[t].lastRun = (uint64_t) *th;
  ev(30, (uint64_t) t);
  note("thread T%d created", t);
  syncPoint();
  return 0;
}
static int taskOf(pthread_t th) {
  for (int i = 0; i < S->ntasks; ++i)
    if (S->T[i].state != TS_FREE && S->T[i].lastRun == (uint64_t) th && S->T[i].proc == selfProc() && !S->T[i].joined) return i;
  return -1;
}
int pthread_join(pthread_t th, void ** ret) {
  RESOLVE(int (*)(pthread_t, void **), pthread_join);
  if (!on()) return r(th, ret);
  syncPoint();
  int i = taskOf(th);
  if (i < 0) return ESRCH;
  if (i == tl_me) return EDEADLK;
  while (S->T[i].state != TS_DONE) block(W_JOIN, (uint64_t) i);
  vcAcquire(S->T[i].vc);
  S->T[i].joined = 1;
  S->T[i].state = TS_FREE;
  ev(32, (uint64_t) i);
  return r(th, ret);
}
int pthread_detach(pthread_t th) noexcept {
  RESOLVE(int (*)(pthread_t), pthread_detach);
  if (on()) {
    int i = taskOf(th);
    if (i >= 0) { S->T[i].detached = 1; if (S->T[i].state == TS_DONE) S->T[i].state = TS_FREE; }
  }
  return r(th);
}
int sched_yield() noexcept {
  if (on()) { schedule(K_YIELD, true); return 0; }
  return (int) syscall(SYS_sched_yield);
}

// ------------------------------------------------------------------ clocks
static void fill(struct timespec * t, int64_t ns) { t->tv_sec = ns / 1000000000ll; t->tv_nsec = ns % 1000000000ll; }
static void clockRead() {
  if (on()) { if (S->tune.clockPoints) { ev(3, 0); schedule(K_SYNC, true); } accountSteps(me()); S->now += 100; }
}
int clock_gettime(clockid_t c, struct timespec * t) noexcept {
  if (g_active && tl_me >= 0) {
    clockRead();
    fill(t, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall() : mono());
    return 0;
  }
  return (int) syscall(SYS_clock_gettime, c, t);
}
int gettimeofday(struct timeval * t, void * z) noexcept {
  if (g_active && tl_me >= 0) { clockRead(); int64_t w = wall(); t->tv_sec = w / 1000000000ll; t->tv_usec = w % 1000000000ll / 1000; return 0; }
  return (int) syscall(SYS_gettimeofday, t, z);
}
time_t time(time_t * t) noexcept {
  if (g_active && tl_me >= 0) { clockRead(); time_t v = (time_t) (wall() / 1000000000ll); if (t) *t = v; return v; }
  struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec;
}
// Sleeps; a signal can interrupt the sleep halfway (the time that is left is returned, 0 if none).
static int64_t sleepOrSignal(int64_t ns) {
  if (ns > 0 && fault(F_EINTR, S->tune.sleepEintr)) {
    accountNow(); int64_t end = S->now + ns, part = ns / 2 + 1 < ns ? ns / 2 + 1 : 0;
    if (part) sleepNs(part);
    return S->now < end ? end - S->now : 0;
  }
  sleepNs(ns); return 0;
}
int nanosleep(const struct timespec * q, struct timespec * rem) {
  if (on()) {
    if (int64_t left = sleepOrSignal(ts(q))) { if (rem) fill(rem, left); errno = EINTR; return -1; }
    if (rem) rem->tv_sec = rem->tv_nsec = 0;
    return 0;
  }
  return (int) syscall(SYS_nanosleep, q, rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec * q, struct timespec * rem) {
  if (on()) {
    if (flags & TIMER_ABSTIME) { ev(2, 0); accountSteps(me()); blockTimed(W_SLEEP, 0, c == CLOCK_REALTIME, ts(q), false); }
    else if (int64_t left = sleepOrSignal(ts(q))) { if (rem) fill(rem, left); return EINTR; }
    return 0;
  }
  long rc = syscall(SYS_clock_nanosleep, c, flags, q, rem);
  return rc < 0 ? errno : 0;
}
int usleep(useconds_t u) {
  if (on()) { if (sleepOrSignal((int64_t) u * 1000)) { errno = EINTR; return -1; } return 0; }
  struct timespec q = { (time_t) (u / 1000000), (long) (u % 1000000) * 1000 };
  return (int) syscall(SYS_nanosleep, &q, nullptr);
}
unsigned int sleep(unsigned int s) {
  if (on()) return (unsigned) ((sleepOrSignal((int64_t) s * 1000000000ll) + 999999999ll) / 1000000000ll);
  struct timespec q = { (time_t) s, 0 };
  syscall(SYS_nanosleep, &q, nullptr);
  return 0;
}

// ------------------------------------------------------------------ randomness
static void randFill(void * p, size_t n) { unsigned char * b = (unsigned char *) p; while (n) { uint64_t v = splitmix(S->rndDev); size_t k = n < 8 ? n : 8; memcpy(b, &v, k); b += k; n -= k; } }
ssize_t getrandom(void * p, size_t n, unsigned int f) {
  if (g_active && tl_me >= 0) { randFill(p, n); return (ssize_t) n; }
  return syscall(SYS_getrandom, p, n, f);
}
int getentropy(void * p, size_t n) {
  if (g_active && tl_me >= 0) { randFill(p, n); return 0; }
  return syscall(SYS_getrandom, p, n, 0) == (long) n ? 0 : -1;
}
uint32_t arc4random() noexcept { uint32_t v; if (g_active && tl_me >= 0) randFill(&v, 4); else syscall(SYS_getrandom, &v, 4, 0); return v; }
unsigned int sim_random_device_getval(void *) asm("_ZNSt13random_device9_M_getvalEv");
unsigned int sim_random_device_getval(void *) {
  uint32_t v;
  if (g_active && tl_me >= 0) randFill(&v, 4); else syscall(SYS_getrandom, &v, 4, 0);
  return v;
}

// ------------------------------------------------------------------ processes
pid_t getpid() noexcept {
  if (g_active && tl_me >= 0) return VPID + selfProc();
  return (pid_t) syscall(SYS_getpid);
}
pid_t getppid() noexcept {
  if (g_active && tl_me >= 0) return selfProc() == 0 ? 1 : VPID + S->P[selfProc()].parent;
  return (pid_t) syscall(SYS_getppid);
}

double sim_forkFailP = 0;

pid_t fork() noexcept {
  RESOLVE(pid_t (*)(), fork);
  if (!on()) return r();
  syncPoint();
  unsigned v = choose(3, sim_forkFailP);
  if (v) { count(F_FORKFAIL); errno = v == 1 ? EAGAIN : ENOMEM; note("fork fails"); return -1; }
  if (S->nprocs >= MAXP) { char b[900]; describeTasks(b, sizeof b); fail("no-progress", "more than %d processes were created:%s", MAXP, b); }
  int p = S->nprocs++;
  Proc & P = S->P[p];
  memset(&P, 0, sizeof P);
  P.used = 1; P.parent = selfProc();
  P.expectCrash = S->P[selfProc()].expectCrash;
  int t = newTask(p);
  { Proc & Q = S->P[selfProc()]; P.nheld = Q.nheld; memcpy(P.held, Q.held, sizeof P.held); }
  for (int i = 0; i < S->nobj; ++i) {
    Obj & o = S->obj[i];
    if (o.owner && o.proc == (uint32_t) selfProc() && P.nheld < 16) { P.held[P.nheld].id = (uint32_t) i; P.held[P.nheld++].byForker = o.owner == tl_me + 1; }
  }
  pid_t pid = r();
  if (pid < 0) { invalid("real fork failed: %s", strerror(errno)); }
  if (pid == 0) {
    tl_me = t;
    pthread_setspecific(g_exitKey, nullptr);
    sim::futexWait(&S->T[t].futex);
    S->T[t].stepsAtSwitch = S->T[t].steps;
    drawGap(S->T[t]);
    return 0;
  }
  P.realPid = pid;
  ev(40, (uint64_t) p);
  note("process P%d forked (thread T%d)", p, t);
  syncPoint();
  return VPID + p;
}

static int findChild(pid_t pid) {
  int i = (int) pid - VPID;
  if (i <= 0 || i >= S->nprocs || S->P[i].parent != selfProc() || S->P[i].reaped) return -1;
  return i;
}
// returns -1 error, 0 nothing yet, else proc index
static int waitCore(int which, pid_t pid, int options, bool nowait) {
  syncPoint();
  for (;;) {
    bool any = false; int z = -1;
    if (which == P_PID) {
      int c = findChild(pid);
      if (c >= 0) { any = true; if (S->P[c].zombie) z = c; }
    } else {
      for (int i = 1; i < S->nprocs; ++i)
        if (S->P[i].used && S->P[i].parent == selfProc() && !S->P[i].reaped) { any = true; if (S->P[i].zombie && z < 0) z = i; }
    }
    if (!any) { errno = ECHILD; return -1; }
    if (z >= 0) { if (!nowait) S->P[z].reaped = 1; ev(41, (uint64_t) z); return z; }
    if (options & WNOHANG) { schedule(K_SYNC, true); return 0; }
    block(W_CHILD, (uint64_t) selfProc());
  }
}
int waitid(idtype_t which, id_t id, siginfo_t * info, int options) {
  RESOLVE(int (*)(idtype_t, id_t, siginfo_t *, int), waitid);
  if (!on()) return r(which, id, info, options);
  int z = waitCore(which, (pid_t) id, options, options & WNOWAIT);
  if (z < 0) return -1;
  if (info) {
    if (z == 0) { info->si_pid = 0; info->si_signo = 0; }
    else { info->si_signo = SIGCHLD; info->si_pid = VPID + z; info->si_code = S->P[z].code; info->si_status = S->P[z].status; }
  }
  return 0;
}
pid_t waitpid(pid_t pid, int * status, int options) {
  RESOLVE(pid_t (*)(pid_t, int *, int), waitpid);
  if (!on()) return r(pid, status, options);
  int z = waitCore(pid > 0 ? P_PID : P_ALL, pid, options, false);
  if (z <= 0) return z;
  if (status) *status = S->P[z].code == CLD_EXITED ? (S->P[z].status & 0xff) << 8 : (S->P[z].status & 0x7f) | (S->P[z].code == CLD_DUMPED ? 0x80 : 0);
  return VPID + z;
}
pid_t wait(int * status) { return waitpid(-1, status, 0); }

} // extern "C"

namespace sim {
static void markDead(int p, int code, int status) {
  Proc & P = S->P[p];
  P.zombie = 1; P.code = code; P.status = status;
  for (int i = 0; i < S->ntasks; ++i) if (S->T[i].used && S->T[i].proc == p && S->T[i].state != TS_FREE) S->T[i].state = TS_FREE;
  for (int i = 1; i < S->nprocs; ++i) if (S->P[i].parent == p) { S->P[i].parent = -2; }
  if (P.parent >= 0) wakeAll(W_CHILD, (uint64_t) P.parent);
  hashIn(S->traceHash, 0xDEAD0000u + (uint64_t) p);
}
void procDie(int code, int status) {
  int p = selfProc();
  if (p == 0) {
    if (code == CLD_EXITED) fail("unexpected-exit", "the main process exited with status %d during the run", status);
    fail("crash", "the main process died from signal %d", status);
  }
  if (code != CLD_EXITED && !S->P[p].expectCrash) fail("crash", "process P%d died from signal %d", p, status);
  if (code == CLD_EXITED) { if (S->P[p].expectCrash && status != 0) count(F_CRASH_EXIT); } else count(F_CRASH_SIGNAL);
  note("process P%d ends: %s %d", p, code == CLD_EXITED ? "exit" : "signal", status);
  tl_quiet = 0;
  vcTick();
  ev(42, (uint64_t) p);
  int me_ = tl_me;
  markDead(p, code, status);
  S->T[me_].state = TS_FREE; // schedule() does not touch the slot once the token has moved
  schedule(K_EXIT, false);
  g_active = false;
  realExit(code == CLD_EXITED ? status : 0);
}
} // namespace sim

extern "C" {
int kill(pid_t pid, int sig) noexcept {
  if (!on()) return (int) syscall(SYS_kill, pid, sig);
  syncPoint();
  int p = (int) pid - VPID;
  if (p < 0 || p >= S->nprocs || !S->P[p].used || S->P[p].reaped) { errno = ESRCH; return -1; }
  if (S->P[p].zombie || sig == 0) return 0;
  if (p == selfProc()) { procDie(sig == SIGABRT || sig == SIGSEGV ? CLD_DUMPED : CLD_KILLED, sig); }
  count(F_KILL);
  note("process P%d killed by signal %d", p, sig);
  ev(43, (uint64_t) p);
  markDead(p, sig == SIGABRT || sig == SIGSEGV || sig == SIGQUIT ? CLD_DUMPED : CLD_KILLED, sig);
  syscall(SYS_kill, S->P[p].realPid, SIGKILL);
  return 0;
}
int raise(int sig) noexcept {
  if (on()) {
    if (sig == SIGSEGV || sig == SIGABRT || sig == SIGKILL || sig == SIGTERM || sig == SIGFPE || sig == SIGBUS || sig == SIGILL)
      procDie(sig == SIGKILL || sig == SIGTERM ? CLD_KILLED : CLD_DUMPED, sig);
  }
  return (int) syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), sig);
}
void abort() noexcept {
  if (g_active && tl_me >= 0) {
    if (S->P[selfProc()].expectCrash) { tl_quiet = 0; procDie(CLD_DUMPED, SIGABRT); }
    ++tl_quiet;
    const char * what = "";
    try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); }
    catch (const std::exception & e) { what = e.what(); }
    catch (...) { what = "unknown exception"; }
    fail("crash", "abort()/std::terminate was called in the code under test %s%.300s", *what ? "because of uncaught exception: " : "", what);
  }
  signal(SIGABRT, SIG_DFL);
  syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), SIGABRT);
  realExit(134);
}
void _exit(int s) { if (g_active && tl_me >= 0) { tl_quiet = 0; procDie(CLD_EXITED, s & 0xff); } realExit(s); }
void _Exit(int s) noexcept { if (g_active && tl_me >= 0) { tl_quiet = 0; procDie(CLD_EXITED, s & 0xff); } realExit(s); }

} // extern "C"
