// Deterministic simulator: public interface for the harnesses.
//
// One process image = one simulated system. Real threads and real forked processes are
// parked and released one at a time by a seeded scheduler; clocks, timers, sleeps, locks,
// conditions, joins, process creation/termination, randomness and (in simio) file calls
// are interposed. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstddef>
#include <string>

namespace sim {

constexpr int MAXT = 32;      // simulated threads per run (all processes together)
constexpr int MAXP = 200;     // simulated processes per run (including dead ones)

// ---- fault kinds (counted when they actually fire) --------------------------------------
enum Fault {
  F_PREEMPT,        // preemption of a running thread at a memory access or sync point
  F_SPURIOUS,       // spurious condition variable wakeup
  F_STALL,          // a thread is held back for simulated time
  F_CLOCKJUMP_FWD,  // wall clock stepped forwards
  F_CLOCKJUMP_BACK, // wall clock stepped backwards
  F_TIMEOUT,        // a timed wait ended by its timeout
  F_WAKEORDER,      // notify_one woke a waiter that was not the longest waiting one
  F_USEREXC,        // user callback / construction function / stream threw
  F_BADALLOC,       // operator new threw
  F_FORKFAIL,       // fork() failed
  F_CRASH_SIGNAL,   // process died from a signal
  F_CRASH_EXIT,     // process exited in the middle of work
  F_KILL,           // process killed by another one
  F_OPENFAIL, F_READERR, F_SHORTREAD, F_WRITEERR, F_SHORTWRITE, F_ENOSPC, F_EINTR, F_RENAMEFAIL,
  F_CORRUPT,        // stored bytes flipped / truncated
  F_STREAMSLOW,     // a user stream yields in the middle of a write
  F_TZ,             // run executed in a time zone other than UTC
  F_DIRTYMEM,       // run executed with pre-dirtied memory
  F_SHMFAIL,
  F_COUNT
};
extern const char * const faultNames[];

// ---- run state ---------------------------------------------------------------------------
bool active();
int  self();                     // current simulated thread
int  selfProc();                 // current simulated process
int64_t mono();                  // simulated monotonic ns (does not advance the clock)
int64_t wall();                  // simulated realtime ns
int64_t idleTime();              // ns by which the clock advanced only because nothing could run
int64_t stallTime();
uint64_t eventNo();              // global event sequence number (advances at each call)
void setWall(int64_t ns);        // step the wall clock
void stepWall(int64_t deltaNs);  // step the wall clock (fault)

// ---- randomness: workload stream (independent of the schedule stream) ----------------------
uint64_t rnd();
uint64_t rnd(uint64_t n);        // [0, n)
int64_t  rndRange(int64_t lo, int64_t hi); // inclusive
bool chance(double p);
bool keepOp();                   // minimiser hook: false = this generated operation is dropped

// ---- schedule stream decisions (recorded / replayed / minimised) ---------------------------
// Returns 0 (default) or 1..n-1; probability p of a non-default.
unsigned choose(unsigned n, double p);
bool fault(Fault f, double p);   // choose + count
void count(Fault f);
uint64_t fired(Fault f);          // how often the fault fired so far in this run
void yield();                    // a scheduling point
void sleepNs(int64_t ns);        // simulated sleep
void stallSelf(int64_t ns);

struct Quiet { Quiet(); ~Quiet(); }; // no scheduling points inside (harness bookkeeping)
struct AllocFaults { explicit AllocFaults(double p); ~AllocFaults(); double old; };

// ---- configuration of the run's schedule, called first thing by a harness ------------------
struct Tuning {
  double spurious = 0.0, stall = 0.0, clockJump = 0.0;
  bool faultsOn = true;
  uint64_t faultSteps = 400000;   // after this many steps: no faults, fair scheduling
  uint64_t maxSteps = 4000000;    // after this many: "no-progress" violation
  int64_t maxStallNs = 5000000;
  bool clockPoints = false;        // reading a clock is a scheduling point
  double sleepEintr = 0.0;         // nanosleep is interrupted
  int64_t maxIdleNs = 3600ll * 1000000000ll; // simulated time during which nothing but timers may run
};
extern Tuning & tuning();
void swarm();                    // default swarm randomisation of fault rates

// ---- verdicts --------------------------------------------------------------------------------
[[noreturn]] void fail(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void invalid(const char * fmt, ...) __attribute__((format(printf, 1, 2))); // harness error
void require(bool ok, const char * cls, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
void note(const char * fmt, ...) __attribute__((format(printf, 1, 2))); // trace line
void probe(const char * name);   // "this rare condition was reached" counter
void nontrivial();               // mark the run as non-trivial by the harness' rule
[[noreturn]] void finishRun();   // ends the whole run successfully (also implied by return)
const char * scratch();          // scratch directory of this run (created on demand, removed by the driver)
void onDeadlock(bool (*hook)()); // called when nothing can run; return true = legitimate end of run
bool procEnded(int pid);         // the simulated process has ended (reaped or not)
void setExpectCrash(bool on);    // the current process may die by signal/abort/exit

// ---- happens-before oracle for user payload ----------------------------------------------
void payloadWrite(const void * p);
void payloadRead(const void * p);
void payloadForget(const void * p);

// ---- shared memory for harness data visible in all simulated processes ---------------------
void * shared(size_t bytes);     // zeroed; allocate before forking

// ---- harness registration ------------------------------------------------------------------
struct Scenario { const char * property; const char * name; void (*fn)(); int weight; const char * rule; };
struct Register { Register(const char * property, const char * name, void (*fn)(), int weight = 1, const char * rule = ""); };
#define SIM_SCENARIO(prop, name, weight, rule) \
  static void scn_##prop##_##name(); \
  static ::sim::Register reg_##prop##_##name(#prop, #name, &scn_##prop##_##name, weight, rule); \
  static void scn_##prop##_##name()

// simio
struct IoFaults {
  double openFail = 0, readErr = 0, shortRead = 0, writeErr = 0, shortWrite = 0, enospc = 0, eintr = 0, renameFail = 0, crash = 0; // crash: a forked process dies at an I/O call
};
void aliasFile(const char * path, const char * instead); // fopen(path) opens the other file; one at a time
IoFaults & ioFaults();           // applied to files under scratch() only
void setFlagDiskFull(bool full);   // the disk stays full after the first ENOSPC until this is called with false
}
