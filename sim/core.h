// Internal structures of the simulator (shared between sim.cpp, tsanrt.cpp, simio.cpp, driver.cpp).
#pragma once
#include "sim.h"
#include <pthread.h>
#include <time.h>
#include <sys/types.h>

namespace sim {

enum TState : uint8_t { TS_FREE = 0, TS_RUN, TS_BLOCKED, TS_DONE };
enum Wait : uint8_t { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_RW, W_GUARD, W_ONCE, W_CHILD, W_CUSTOM, W_FUTEX, W_SEM };
enum Kind : uint8_t { K_MEM, K_SYNC, K_YIELD, K_BLOCK, K_EXIT };
enum DecKind : uint8_t { D_SCHED = 0, D_CHOOSE = 1 };

constexpr uint32_t OBJ_MAGIC = 0x51D0B1EC;
constexpr int MAXOBJ = 16384;
constexpr int ATAB = 1 << 15;
constexpr int PTAB = 1 << 13;
constexpr int MAXDEC = 400000;
constexpr int MAXOPS = 4096;
constexpr int NOTESZ = 1 << 20;
constexpr int MAXPROBE = 64;
constexpr size_t USERSZ = 16u << 20;

struct VC { uint32_t c[MAXT]; };

struct Task {
  uint32_t futex;
  uint8_t state, proc, waitKind, spuriousArmed;
  uint8_t timed, clockReal, detached, joined;
  uint8_t wakeTimeout, wakeSpurious, used, pad0;
  uint64_t waitKey, waitSeq;
  int64_t deadline;       // in the clock `clockReal` says
  int64_t spuriousAt;     // mono
  int64_t stallUntil;     // mono
  uint32_t steps, chooses, nextStop, stepsAtSwitch;
  int32_t prio;
  uint32_t gen;
  VC vc, relF, acqP;
  uint64_t lastRun;
};

struct Proc {
  uint8_t used, zombie, reaped, expectCrash;
  int parent;
  int status;        // si_status
  int code;          // si_code
  pid_t realPid;
  int nheld; struct { uint32_t id; int byForker; } held[16]; // private locks that were held when the process was forked
};

struct Obj {
  int owner;         // task + 1 (mutex / rwlock writer)
  uint32_t proc;     // process of a private object, 0xFFFF = shared between processes
  int depth;
  int readers;
  uint32_t readerMask;
  VC vc;
};

struct AtomE { uint64_t key; VC vc; };
struct PayE { uint64_t key; int wtask; uint32_t wclk; uint32_t r[MAXT]; };

struct Dec { uint8_t kind, task; uint16_t pad; uint32_t idx, val; };

enum Verdict { V_NONE = 0, V_OK, V_FAIL, V_INVALID };

struct Shared {
  // run parameters (written by the driver before the run)
  uint64_t seed;       // workload seed
  uint64_t sseed;      // schedule and fault seed
  int scenario;
  int replayMode;      // 0 = generate, 1 = scripted decisions
  int verbose;
  int ndrop;
  uint8_t drop[MAXOPS];
  // everything below `begin` is cleared before each run
  char begin;
  int activeFlag;
  int running;
  int nobj;
  uint32_t opCounter;
  uint64_t prng, wprng, cprng;
  int strat; double pSync; double memGap; int pctDepth; uint64_t pctNext; uint64_t pctLen; int pctLow;
  uint64_t gsteps, syncOps, switches, preempts, eventNo, waitSeq;
  int64_t now, wallOff, idle, stalled, idleCap;
  uint64_t traceHash, syncHash;
  Tuning tune;
  IoFaults io;
  uint64_t faults[F_COUNT];
  int fair;
  pid_t rootPid;
  int verdict; char cls[96]; char detail[3000];
  int isNontrivial;
  struct { char name[48]; uint64_t n; } probes[MAXPROBE];
  int nprobes;
  int ndec; int decOverflow;
  size_t userUsed;
  size_t noteLen;
  int dirty;
  int dirUsed, diskFull;
  int nprocs, ntasks;
  bool (*deadlockHook)();
  uint64_t rndDev;
  Task T[MAXT];
  Proc P[MAXP];
  char end;
  // big tables: punched out between runs
  alignas(4096) Obj obj[MAXOBJ];
  alignas(4096) AtomE atom[ATAB];
  alignas(4096) PayE pay[PTAB];
  alignas(4096) Dec dec[MAXDEC];
  alignas(4096) char notes[NOTESZ];
  alignas(4096) char user[USERSZ];
  // replay script (kept over runs until replaced)
  alignas(4096) Dec rep[MAXDEC];
  int nrep;
  int repStart[2][MAXT + 1];
  int repCur[2][MAXT];
};

extern Shared * S;
extern __thread int tl_me;
extern __thread int tl_quiet;
extern __thread double tl_allocFault;
extern bool g_active;

uint64_t splitmix(uint64_t & s);
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull); return splitmix(s); }
inline bool on() { return g_active && tl_quiet == 0 && tl_me >= 0; }

void schedule(Kind k, bool meRunnable);
void memStop();                 // slow path of the memory access counter
void ev(int kind, uint64_t obj);
void block(Wait w, uint64_t key);                 // block until woken
bool blockTimed(Wait w, uint64_t key, bool clockReal, int64_t deadline, bool spuriousOk); // true = timed out
void wakeAll(Wait w, uint64_t key);
void wakeOne(Wait w, uint64_t key);
void vcJoin(VC & a, const VC & b);
void vcRelease(VC & obj);
void vcAcquire(const VC & obj);
void vcTick();
void atomicAcq(const volatile void * a, int mo);
void atomicRel(const volatile void * a, int mo, bool rmw);
void fence(int mo);
void enterRun();                // in the run process: become task 0
[[noreturn]] void endRun();
[[noreturn]] void procDie(int code, int status);
[[noreturn]] void realExit(int);
const std::string & scratchDirFor(pid_t);
void ioReset();
void heapInit();
void heapAccess(const void * p, size_t n, bool write);
const Scenario * scenarios(int & n);
extern char g_scratch[200];

#define REAL(name) (sim::real_##name)
} // namespace sim
