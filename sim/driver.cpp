// Driver: runs many simulated executions in worker processes, aggregates, confirms, minimises and replays.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

static Scenario g_scn[256];
static int g_nscn;
Register::Register(const char * p, const char * n, void (*f)(), int w, const char * r) { g_scn[g_nscn++] = Scenario { p, n, f, w, r }; }
const Scenario * scenarios(int & n) { n = g_nscn; return g_scn; }

static void * const SADDR = (void *) 0x300000000000ull;

static double realNow() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec * 1e-9; }

static void mapShared() {
  munmap(SADDR, sizeof(Shared));
  void * p = mmap(SADDR, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p != SADDR) { perror("mmap"); _exit(3); }
  S = (Shared *) p;
}

struct RunSpec {
  int scenario = 0;
  uint64_t wseed = 0, sseed = 0;
  bool replay = false;
  const std::vector<Dec> * decs = nullptr;
  const std::vector<int> * drop = nullptr;
  int verbose = 0;
};

struct Result {
  int worker, index, scenario, verdict, nontrivial, nprobes, strat, nprocs, ntasks, mismatch;
  uint64_t wseed, sseed, traceHash, syncHash, steps, syncOps, switches, preempts, events;
  int64_t simTime, idle;
  uint32_t ops, ndec;
  uint64_t faults[F_COUNT];
  char cls[96], detail[3000];
  struct { char name[48]; uint64_t n; } probes[MAXPROBE];
};

static std::string g_base;      // per invocation directory
static std::string g_workdir;   // per worker directory

static void clearDir(const std::string & d) {
  // only ever called for directories below g_base
  if (g_base.size() < 10 || d.compare(0, g_base.size(), g_base) != 0) return;
  pid_t p = fork();
  if (p == 0) { execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char *) nullptr); _exit(1); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
}
static bool g_dirUsed;

static void punch(void * p, size_t n) { madvise(p, n, MADV_REMOVE); }

static void execute(const RunSpec & spec, Result & R) {
  // reset
  size_t ndec = (size_t) S->ndec, nobj = (size_t) S->nobj, notes = S->noteLen, user = S->userUsed;
  (void) nobj;
  if (ndec) punch(S->dec, (ndec * sizeof(Dec) + 4095) & ~size_t(4095));
  if (notes) punch(S->notes, (notes + 4095) & ~size_t(4095));
  if (user) punch(S->user, (user + 4095) & ~size_t(4095));
  punch(S->obj, sizeof S->obj); punch(S->atom, sizeof S->atom); punch(S->pay, sizeof S->pay);
  memset(&S->begin, 0, (size_t) (&S->end - &S->begin));
  S->seed = spec.wseed; S->sseed = spec.sseed; S->scenario = spec.scenario; S->verbose = spec.verbose;
  memset(S->drop, 0, sizeof S->drop);
  if (spec.drop) for (int d : *spec.drop) if (d < MAXOPS) S->drop[d] = 1;
  S->replayMode = spec.replay;
  if (spec.replay) {
    std::vector<Dec> d = *spec.decs;
    std::stable_sort(d.begin(), d.end(), [] (const Dec & a, const Dec & b) { return std::make_tuple(a.kind, a.task, a.idx) < std::make_tuple(b.kind, b.task, b.idx); });
    S->nrep = (int) d.size();
    if (!d.empty()) memcpy(S->rep, d.data(), d.size() * sizeof(Dec));
    size_t i = 0;
    // repStart[k][t] .. repStart[k][t+1]; the two kinds occupy consecutive ranges
    for (int k = 0; k < 2; ++k) {
      for (int t = 0; t < MAXT; ++t) {
        S->repStart[k][t] = (int) i; S->repCur[k][t] = (int) i;
        while (i < d.size() && d[i].kind == k && d[i].task == t) ++i;
      }
      S->repStart[k][MAXT] = (int) i;
    }
  }
  if (g_dirUsed) { clearDir(g_workdir + "/s"); clearDir(g_workdir + "/m"); g_dirUsed = false; }
  mkdir((g_workdir + "/s").c_str(), 0777);
  mkdir((g_workdir + "/m").c_str(), 0777);

  int st = 0;
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) {
    setpgid(0, 0);
    sigset_t ss; sigemptyset(&ss); sigprocmask(SIG_SETMASK, &ss, nullptr);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (chdir(g_workdir.c_str())) _exit(98);
    enterRun();
    g_scn[spec.scenario].fn();
    finishRun();
  }
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
  bool hang = false, killed = false;
  uint64_t last = ~0ull; double lastT = realNow();
  for (;;) {
    int st2;
    pid_t w = waitpid(p, &st2, WNOHANG);
    if (w == p) { st = st2; break; }
    if (w < 0 && errno != EINTR) break;
    struct timespec t = { 1, 0 };
    sigtimedwait(&ss, nullptr, &t);
    uint64_t cur = S->gsteps + S->syncOps;
    double n = realNow();
    if (cur != last) { last = cur; lastT = n; }
    else if (n - lastT > 20 && !killed) { hang = true; killed = true; kill(-p, SIGKILL); kill(p, SIGKILL); }
  }
  kill(-p, SIGKILL);
  for (;;) { pid_t w = waitpid(-1, nullptr, 0); if (w < 0 && errno == ECHILD) break; if (w < 0 && errno != EINTR) break; }
  if (S->verdict == V_NONE) {
    if (hang) { S->verdict = V_FAIL; strcpy(S->cls, "hang"); strcpy(S->detail, "the running thread made no progress and reached no synchronisation point (endless loop)"); }
    else { S->verdict = V_INVALID; strcpy(S->cls, "invalid"); snprintf(S->detail, sizeof S->detail, "the run process ended without verdict, wait status %x", st); }
  }
  memset(&R, 0, offsetof(Result, probes));
  R.scenario = spec.scenario; R.verdict = S->verdict; R.nontrivial = S->isNontrivial; R.nprobes = S->nprobes; R.strat = S->strat;
  R.nprocs = S->nprocs; R.ntasks = S->ntasks;
  R.wseed = spec.wseed; R.sseed = spec.sseed; R.traceHash = S->traceHash; R.syncHash = S->syncHash; R.steps = S->gsteps; R.syncOps = S->syncOps;
  R.switches = S->switches; R.preempts = S->preempts; R.events = S->eventNo;
  R.simTime = S->now - 1000000000ll; R.idle = S->idle; R.ops = S->opCounter; R.ndec = (uint32_t) S->ndec;
  memcpy(R.faults, S->faults, sizeof R.faults);
  memcpy(R.cls, S->cls, sizeof R.cls); memcpy(R.detail, S->detail, sizeof R.detail);
  memcpy(R.probes, S->probes, sizeof S->probes);
  g_dirUsed = S->dirUsed;
}

static std::string jsonStr(const std::string & s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o + "\"";
}

static std::vector<std::string> splitLines(const char * p, size_t n) {
  std::vector<std::string> v; std::string cur;
  for (size_t i = 0; i < n; ++i) { if (p[i] == '\n') { v.push_back(cur); cur.clear(); } else cur += p[i]; }
  return v;
}

static std::vector<Dec> currentDecs() { return std::vector<Dec>(S->dec, S->dec + S->ndec); }

static bool writeReplay(const std::string & path, const RunSpec & sp, const std::vector<Dec> & decs, const std::vector<int> & drop, const Result & R, const std::vector<std::string> & notes) {
  FILE * f = fopen(path.c_str(), "w");
  if (!f) return false;
  fprintf(f, "# balau deterministic simulation replay file\nproperty %s\nscenario %s\nworkload_seed %llu\nschedule_seed %llu\nmode %s\nclass %s\n",
          g_scn[sp.scenario].property, g_scn[sp.scenario].name, (unsigned long long) sp.wseed, (unsigned long long) sp.sseed, sp.replay ? "decisions" : "seed", R.cls);
  std::string d = R.detail; std::replace(d.begin(), d.end(), '\n', ' ');
  fprintf(f, "detail %s\ntrace_hash %016llx\n", d.c_str(), (unsigned long long) R.traceHash);
  fprintf(f, "# operations of the generated workload left out by the minimiser\ndrop");
  for (int x : drop) fprintf(f, " %d", x);
  fprintf(f, "\n# scheduling and fault decisions that differ from the default (task, task-local counter, choice)\n");
  for (auto & x : decs) fprintf(f, "%s %d %u %u\n", x.kind == D_SCHED ? "switch" : "choice", x.task, x.idx, x.val);
  fprintf(f, "end\n# trace of the minimised run:\n");
  for (auto & l : notes) fprintf(f, "# %s\n", l.c_str());
  fclose(f);
  return true;
}

static bool readReplay(const std::string & path, RunSpec & sp, std::vector<Dec> & decs, std::vector<int> & drop, std::string & cls, uint64_t & hash) {
  FILE * f = fopen(path.c_str(), "r");
  if (!f) return false;
  char line[8192]; std::string prop, scn;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    char a[200]; unsigned x, y, z; unsigned long long u;
    if (sscanf(line, "property %199s", a) == 1) prop = a;
    else if (sscanf(line, "scenario %199s", a) == 1) scn = a;
    else if (sscanf(line, "workload_seed %llu", &u) == 1) sp.wseed = u;
    else if (sscanf(line, "schedule_seed %llu", &u) == 1) sp.sseed = u;
    else if (sscanf(line, "mode %199s", a) == 1) sp.replay = strcmp(a, "seed") != 0;
    else if (sscanf(line, "class %199s", a) == 1) cls = a;
    else if (sscanf(line, "trace_hash %llx", &u) == 1) hash = u;
    else if (!strncmp(line, "drop", 4)) { char * p = line + 4; char * e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; drop.push_back((int) v); p = e; } }
    else if (sscanf(line, "switch %u %u %u", &x, &y, &z) == 3) decs.push_back(Dec { D_SCHED, (uint8_t) x, 0, y, z });
    else if (sscanf(line, "choice %u %u %u", &x, &y, &z) == 3) decs.push_back(Dec { D_CHOOSE, (uint8_t) x, 0, y, z });
  }
  fclose(f);
  sp.scenario = -1;
  for (int i = 0; i < g_nscn; ++i) if (prop == g_scn[i].property && scn == g_scn[i].name) sp.scenario = i;
  return sp.scenario >= 0;
}

static bool sameFail(const Result & R, const std::string & cls) { return R.verdict == V_FAIL && cls == R.cls; }

// Shrinks the workload and then the decisions while the class of the violation stays the same.
static void minimise(RunSpec sp, const std::string & cls, std::vector<Dec> & decs, std::vector<int> & drop, double budget, unsigned long & runs) {
  double end = realNow() + budget;
  Result R;
  sp.replay = true; sp.drop = &drop; sp.decs = &decs;
  execute(sp, R); ++runs;
  if (!sameFail(R, cls)) return;
  int nops = (int) R.ops;
  // 1. operations, in chunks; when the recorded schedule no longer fails, search a few fresh schedules
  for (int chunk = nops / 2 > 0 ? nops / 2 : 1; chunk >= 1 && nops > 0; chunk /= 2) {
    for (int at = 0; at < nops; at += chunk) {
      if (realNow() > end - budget * 0.4) break;
      std::vector<int> d2 = drop; bool added = false;
      for (int i = at; i < at + chunk && i < nops; ++i) if (std::find(d2.begin(), d2.end(), i) == d2.end()) { d2.push_back(i); added = true; }
      if (!added) continue;
      RunSpec t = sp; t.drop = &d2; t.decs = &decs; t.replay = true;
      execute(t, R); ++runs;
      bool ok = sameFail(R, cls);
      if (ok) { decs = currentDecs(); }
      for (int k = 0; !ok && k < 40 && realNow() < end - budget * 0.4; ++k) {
        RunSpec g = sp; g.drop = &d2; g.replay = false; g.sseed = mix(sp.sseed, (uint64_t) k * 977 + 5);
        // the schedule seed also selects memory fill and fault configuration: keep those of the original
        g.sseed = k == 0 ? sp.sseed : g.sseed;
        execute(g, R); ++runs;
        if (sameFail(R, cls)) {
          std::vector<Dec> cand = currentDecs();
          // must fail as a replay under the original schedule seed
          RunSpec h = sp; h.drop = &d2; h.decs = &cand; h.replay = true;
          execute(h, R); ++runs;
          if (sameFail(R, cls)) { decs = currentDecs(); ok = true; }
        }
      }
      if (ok) drop = d2;
    }
    if (chunk == 1) break;
  }
  std::sort(drop.begin(), drop.end());
  // 2. decisions: ddmin
  size_t n = 2;
  while (decs.size() >= 1 && realNow() < end) {
    if (n > decs.size()) n = decs.size();
    size_t chunk = (decs.size() + n - 1) / n; bool reduced = false;
    for (size_t at = 0; at < decs.size() && realNow() < end; at += chunk) {
      std::vector<Dec> c;
      for (size_t i = 0; i < decs.size(); ++i) if (i < at || i >= at + chunk) c.push_back(decs[i]);
      RunSpec t = sp; t.decs = &c; t.drop = &drop; t.replay = true;
      execute(t, R); ++runs;
      if (sameFail(R, cls)) { decs = c; n = n > 2 ? n - 1 : 2; reduced = true; break; }
    }
    if (!reduced) { if (chunk <= 1) break; n = std::min(n * 2, decs.size()); }
  }
}

struct Known { std::string prop, scn, cls, text, desc; };

static std::string arg(int argc, char ** argv, const char * name, const char * def) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
static bool flag(int argc, char ** argv, const char * name) { for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], name)) return true; return false; }

static void cleanup() { if (!g_base.empty()) { std::string d = g_base; clearDir(d); } }

static bool readFull(int fd, void * p, size_t n) { char * c = (char *) p; while (n) { ssize_t r = read(fd, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= (size_t) r; } return true; }

int driverMain(int argc, char ** argv) {
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
    if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  std::string prop = arg(argc, argv, "--property", "");
  std::string only = arg(argc, argv, "--scenario", "");
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  long maxRuns = atol(arg(argc, argv, "--runs", "1000000000").c_str());
  double budget = atof(arg(argc, argv, "--budget", "20").c_str());
  int jobs = atoi(arg(argc, argv, "--jobs", "8").c_str());
  long one = atol(arg(argc, argv, "--one", "-1").c_str());
  std::string jsonOut = arg(argc, argv, "--json", "");
  std::string replayDir = arg(argc, argv, "--replay-dir", "");
  std::string replayFile = arg(argc, argv, "--replay", "");
  std::string hashes = arg(argc, argv, "--hashes", "");
  std::string knownFile = arg(argc, argv, "--known", "");
  double minBudget = atof(arg(argc, argv, "--minimise", "60").c_str());
  int recheck = atoi(arg(argc, argv, "--recheck", "32").c_str());
  int verbose = flag(argc, argv, "-v") ? 1 : 0; if (flag(argc, argv, "-vv")) verbose = 2;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (flag(argc, argv, "--list")) { for (int i = 0; i < g_nscn; ++i) printf("%s %s %d %s\n", g_scn[i].property, g_scn[i].name, g_scn[i].weight, g_scn[i].rule); return 0; }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  setenv("TZ", "UTC", 1);
  setenv("LC_ALL", "C", 1);
  heapInit();

  char tmpl1[] = "/dev/shm/bsim.XXXXXX", tmpl2[] = "/tmp/bsim.XXXXXX";
  char * d = mkdtemp(tmpl1); if (!d) d = mkdtemp(tmpl2);
  if (!d) { perror("mkdtemp"); return 3; }
  g_base = d;
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);

  std::vector<int> scn; int total = 0;
  for (int i = 0; i < g_nscn; ++i) if (prop == g_scn[i].property && (only.empty() || only == g_scn[i].name)) { scn.push_back(i); total += g_scn[i].weight; }

  auto specFor = [&] (long index) {
    RunSpec s;
    uint64_t h = mix(mix(seed, 0x5eed), (uint64_t) index);
    for (char c : prop) h = mix(h, (uint64_t) (unsigned char) c);
    uint64_t z = h;
    int k = (int) (splitmix(z) % (uint64_t) total);
    for (int i : scn) { if (k < g_scn[i].weight) { s.scenario = i; break; } k -= g_scn[i].weight; }
    s.wseed = splitmix(z); s.sseed = splitmix(z);
    return s;
  };
  auto single = [&] () { g_workdir = g_base + "/00"; mkdir(g_workdir.c_str(), 0777); mapShared(); cpu_set_t cs; sched_getaffinity(0, sizeof cs, &cs); for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &cs)) { CPU_ZERO(&cs); CPU_SET(c, &cs); break; } sched_setaffinity(0, sizeof cs, &cs); };

  if (!replayFile.empty()) {
    RunSpec s; std::vector<Dec> decs; std::vector<int> drop; std::string cls; uint64_t hash = 0;
    s.replay = true;
    if (!readReplay(replayFile, s, decs, drop, cls, hash)) { fprintf(stderr, "cannot read replay file %s\n", replayFile.c_str()); cleanup(); return 3; }
    single();
    s.decs = &decs; s.drop = &drop; s.verbose = 1 + (verbose > 1);
    Result R; execute(s, R);
    if (!flag(argc, argv, "--quiet")) fwrite(S->notes, 1, S->noteLen, stdout);
    bool ok = sameFail(R, cls);
    printf("replay: verdict=%s class=%s hash=%016llx expected class=%s hash=%016llx: %s\n", R.verdict == V_FAIL ? "violation" : R.verdict == V_OK ? "held" : "invalid", R.cls, (unsigned long long) R.traceHash, cls.c_str(), (unsigned long long) hash, ok ? (hash == R.traceHash ? "REPRODUCED" : "REPRODUCED (different trace)") : "NOT reproduced");
    if (R.verdict == V_FAIL) printf("%s: %s\n", R.cls, R.detail);
    cleanup();
    return ok ? 1 : 0;
  }
  if (scn.empty()) { fprintf(stderr, "no scenario for property '%s'\n", prop.c_str()); cleanup(); return 3; }
  if (one >= 0) {
    single();
    RunSpec s = specFor(one); s.verbose = verbose ? verbose : 1;
    Result R; execute(s, R);
    fwrite(S->notes, 1, S->noteLen, stdout);
    printf("%s/%s index %ld: verdict %d class %s: %s\n", g_scn[s.scenario].property, g_scn[s.scenario].name, one, R.verdict, R.cls, R.detail);
    printf("hash %016llx sync %016llx steps %llu switches %llu strat %d memGap %g pSync %g dirty %x simtime %.3f ms tasks %d procs %d\n", (unsigned long long) R.traceHash, (unsigned long long) R.syncHash, (unsigned long long) R.steps, (unsigned long long) R.switches, S->strat, S->memGap, S->pSync, S->dirty, (double) R.simTime / 1e6, R.ntasks, R.nprocs);
    if (R.verdict == V_FAIL && flag(argc, argv, "--min")) {
      std::vector<Dec> decs = currentDecs(); std::vector<int> drop; unsigned long runs = 0;
      minimise(s, R.cls, decs, drop, minBudget, runs);
      RunSpec m = s; m.replay = true; m.decs = &decs; m.drop = &drop; m.verbose = 1;
      execute(m, R);
      printf("---- minimised: %zu decisions, %zu ops dropped\n", decs.size(), drop.size());
      fwrite(S->notes, 1, S->noteLen, stdout);
      for (auto & x : decs) printf("%s T%d @%u -> %u\n", x.kind == D_SCHED ? "switch" : "choice", x.task, x.idx, x.val);
    }
    cleanup();
    return R.verdict == V_FAIL ? 1 : 0;
  }

  std::vector<Known> known;
  if (!knownFile.empty()) {
    // lines: KNOWN|property|scenario|class|text that the detail contains|description
    if (FILE * f = fopen(knownFile.c_str(), "r")) {
      char line[4096];
      while (fgets(line, sizeof line, f)) {
        std::string l = line; while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
        if (l.compare(0, 6, "KNOWN|") != 0) continue;
        std::vector<std::string> v; size_t a = 6;
        for (;;) { size_t b = l.find('|', a); v.push_back(l.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
        if (v.size() == 5 && v[0] == prop) known.push_back(Known { v[0], v[1], v[2], v[3], v[4] });
      }
      fclose(f);
    }
  }
  auto isKnown = [&] (const Result & R) -> int {
    for (size_t i = 0; i < known.size(); ++i)
      if (known[i].scn == g_scn[R.scenario].name && known[i].cls == R.cls && strstr(R.detail, known[i].text.c_str())) return (int) i;
    return -1;
  };

  // ---- worker pool
  double t0 = realNow();
  int pfd[2]; if (pipe(pfd)) { perror("pipe"); return 3; }
  int * stop = (int *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  cpu_set_t all; sched_getaffinity(0, sizeof all, &all); std::vector<int> cpus; for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all)) cpus.push_back(c);
  std::vector<pid_t> pids;
  for (int w = 0; w < jobs; ++w) {
    pid_t p = fork();
    if (p == 0) {
      close(pfd[0]);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      prctl(PR_SET_CHILD_SUBREAPER, 1);
      char b[16]; snprintf(b, sizeof b, "/%02d", w); g_workdir = g_base + b; mkdir(g_workdir.c_str(), 0777);
      cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpus[(size_t) w % cpus.size()], &cs); sched_setaffinity(0, sizeof cs, &cs);
      mapShared();
      static Result R;
      for (long i = w; i < maxRuns && !*(volatile int *) stop && realNow() - t0 < budget; i += jobs) {
        RunSpec s = specFor(i);
        execute(s, R);
        R.worker = w; R.index = (int) i;
        uint64_t th = R.traceHash, sh = R.syncHash; int vd = R.verdict;
        if (recheck && ((i / jobs) % recheck) == 0 && vd != V_INVALID) {
          static Result Q; execute(s, Q);
          if (Q.traceHash != th || Q.syncHash != sh || Q.verdict != vd) { R.mismatch = 1; if (getenv("SIM_DEBUG")) { static Result Z; execute(s, Z); fprintf(stderr, "index %ld: steps %llu %llu %llu sim %lld %lld %lld sync %llx %llx %llx\n", i, (unsigned long long) R.steps, (unsigned long long) Q.steps, (unsigned long long) Z.steps, (long long) R.simTime, (long long) Q.simTime, (long long) Z.simTime, (unsigned long long) sh, (unsigned long long) Q.syncHash, (unsigned long long) Z.syncHash); } }
          else R.mismatch = 2; // rechecked, same
        }
        size_t need = offsetof(Result, probes) + (size_t) R.nprobes * sizeof R.probes[0];
        char buf[sizeof(Result) + 8]; uint32_t len = (uint32_t) need;
        memcpy(buf, &len, 4); memcpy(buf + 4, &R, need);
        char * q = buf; size_t left = need + 4;
        // one writer at a time: records exceed PIPE_BUF only with long details; lock via flock on the pipe is not available, so split is avoided by a spin lock
        while (__atomic_exchange_n(&stop[1], 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield);
        while (left) { ssize_t n = write(pfd[1], q, left); if (n < 0 && errno == EINTR) continue; if (n <= 0) _exit(1); q += n; left -= (size_t) n; }
        __atomic_store_n(&stop[1], 0, __ATOMIC_RELEASE);
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  close(pfd[1]);

  unsigned long runs = 0, nontriv = 0, invalidN = 0, rechecked = 0, mismatched = 0, pctRuns = 0, multiProc = 0;
  uint64_t faults[F_COUNT] = {}, faultRuns[F_COUNT] = {}; uint64_t steps = 0, switches = 0, syncOps = 0, events = 0; double simTime = 0;
  std::unordered_set<uint64_t> traces, syncs, ntTraces;
  std::map<std::string, std::pair<uint64_t, uint64_t>> probes; std::map<std::string, unsigned long> perScn, perScnNt;
  std::map<std::string, Result> viol; std::map<int, unsigned long> knownHits; std::map<std::string, unsigned long> violCount; std::string invalidText;
  std::vector<std::string> hashLines; uint64_t maxThreads = 0;
  std::vector<long> sampleIdx;
  std::string mismatchText;
  for (;;) {
    uint32_t len; static Result R;
    memset((void *) &R, 0, sizeof R);
    if (!readFull(pfd[0], &len, 4)) break;
    if (!readFull(pfd[0], &R, len)) break;
    ++runs; ++perScn[g_scn[R.scenario].name];
    if (R.nontrivial) { ++nontriv; ++perScnNt[g_scn[R.scenario].name]; ntTraces.insert(R.traceHash); }
    if (R.strat == 1) ++pctRuns;
    if (R.nprocs > 1) ++multiProc;
    if (R.mismatch) { ++rechecked; if (R.mismatch == 1) { ++mismatched; mismatchText = "index " + std::to_string(R.index); } }
    for (int i = 0; i < F_COUNT; ++i) { faults[i] += R.faults[i]; if (R.faults[i]) ++faultRuns[i]; }
    steps += R.steps; switches += R.switches; syncOps += R.syncOps; events += R.events; simTime += (double) R.simTime * 1e-9;
    traces.insert(R.traceHash); syncs.insert(R.syncHash);
    if ((uint64_t) R.ntasks > maxThreads) maxThreads = (uint64_t) R.ntasks;
    for (int i = 0; i < R.nprobes; ++i) { auto & p = probes[R.probes[i].name]; p.first += R.probes[i].n; ++p.second; }
    if (!hashes.empty()) { char b[200]; snprintf(b, sizeof b, "%08d %d %s %016llx %016llx %llu %lld", R.index, R.verdict, R.cls, (unsigned long long) R.traceHash, (unsigned long long) R.syncHash, (unsigned long long) R.steps, (long long) R.simTime); hashLines.push_back(b); }
    if (R.nontrivial && R.verdict == V_OK && sampleIdx.size() < 2) sampleIdx.push_back(R.index);
    if (R.verdict == V_INVALID) { ++invalidN; if (invalidText.empty()) invalidText = std::string(R.detail) + " (index " + std::to_string(R.index) + ")"; }
    if (R.verdict == V_FAIL) {
      int k = isKnown(R);
      if (k >= 0) { ++knownHits[k]; continue; }
      std::string key = std::string(g_scn[R.scenario].name) + "/" + R.cls;
      ++violCount[key];
      auto it = viol.find(key);
      if (it == viol.end() || R.index < it->second.index) viol[key] = R;
      // let the batch run a little longer for a smaller example, then stop
      if (violCount[key] >= 5 || viol.size() > 3) *stop = 1;
      if (flag(argc, argv, "--keep-going")) *stop = 0;
    }
  }
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { ++invalidN; if (invalidText.empty()) invalidText = "a worker process died"; } }
  double searchWall = realNow() - t0;

  single();
  int rc = 0; std::string violJson; unsigned long minRuns = 0;
  int reported = 0;
  for (auto & kv : viol) {
    Result & V = kv.second;
    RunSpec s = specFor(V.index);
    Result R; execute(s, R);
    bool same = sameFail(R, V.cls);
    std::vector<Dec> decs = currentDecs();
    Result R2; execute(s, R2);
    if (!same || !sameFail(R2, V.cls)) {
      printf("NOT-DETERMINISTIC property=%s %s index %d: %s\n", prop.c_str(), kv.first.c_str(), V.index, V.detail);
      ++mismatched; mismatchText = kv.first; continue;
    }
    std::vector<int> drop; size_t before = decs.size(); const std::vector<Dec> recorded = decs;
    if (!strcmp(V.cls, "hang")) { /* every attempt costs the watchdog time: report as recorded */ }
    else minimise(s, V.cls, decs, drop, minBudget / (double) (reported + 1), minRuns);
    RunSpec m = s; m.replay = true; m.decs = &decs; m.drop = &drop; m.verbose = 1;
    execute(m, R);
    if (!sameFail(R, V.cls)) { // the decisions as recorded
      drop.clear(); decs = recorded; execute(m, R);
    }
    if (!sameFail(R, V.cls)) { // the seed alone
      decs.clear(); m.replay = false; execute(m, R);
    }
    if (!sameFail(R, V.cls)) {
      printf("NOT-REPLAYABLE property=%s %s index %d (%zu decisions): %s\n", prop.c_str(), kv.first.c_str(), V.index, before, V.detail); ++mismatched; mismatchText = "replay " + kv.first; continue;
    }
    std::string path = replayDir + "/" + prop + "-" + g_scn[V.scenario].name + "-" + V.cls + ".replay";
    mkdir(replayDir.c_str(), 0777);
    if (!writeReplay(path, m, decs, drop, R, splitLines(S->notes, S->noteLen))) { perror(path.c_str()); }
    printf("candidate: property=%s scenario=%s class=%s index=%d seed=%llu: %s\n", prop.c_str(), g_scn[V.scenario].name, V.cls, V.index, (unsigned long long) seed, R.detail);
    printf("  minimised from %zu decisions / %u operations to %zu decisions / %u operations\n", before, V.ops, decs.size(), V.ops - (uint32_t) std::min<size_t>(V.ops, drop.size()));
    if (!violJson.empty()) violJson += ",";
    violJson += "{\"scenario\":" + jsonStr(g_scn[V.scenario].name) + ",\"class\":" + jsonStr(V.cls) + ",\"detail\":" + jsonStr(R.detail) + ",\"index\":" + std::to_string(V.index) + ",\"count\":" + std::to_string(violCount[kv.first]) + ",\"replay\":" + jsonStr(path) + "}";
    rc = 1; ++reported;
  }
  std::string samples;
  for (long i : sampleIdx) {
    RunSpec s = specFor(i); s.verbose = 1; Result R; execute(s, R);
    auto v = splitLines(S->notes, S->noteLen);
    std::string t = "{\"scenario\":" + jsonStr(g_scn[s.scenario].name) + ",\"index\":" + std::to_string(i) + ",\"workload_seed\":" + std::to_string(s.wseed) + ",\"schedule_seed\":" + std::to_string(s.sseed) + ",\"threads\":" + std::to_string(R.ntasks) + ",\"processes\":" + std::to_string(R.nprocs) + ",\"context_switches\":" + std::to_string(R.switches) + ",\"trace\":[";
    for (size_t k = 0; k < v.size() && k < 40; ++k) { if (k) t += ","; t += jsonStr(v[k].substr(0, 300)); }
    t += "]}";
    if (!samples.empty()) samples += ","; samples += t;
  }
  cleanup();
  if (!hashes.empty()) { std::sort(hashLines.begin(), hashLines.end()); if (FILE * f = fopen(hashes.c_str(), "w")) { for (auto & l : hashLines) fprintf(f, "%s\n", l.c_str()); fclose(f); } }
  printf("property %s seed %llu: %lu runs in %.1f s (%.0f runs/h), %lu non-trivial, %zu distinct schedules, %.1f s simulated, %lu rechecked, %lu mismatches, %lu invalid %s\n", prop.c_str(), (unsigned long long) seed, runs, searchWall, (double) runs / searchWall * 3600, nontriv, traces.size(), simTime, rechecked, mismatched, invalidN, invalidText.c_str());
  if (!jsonOut.empty()) {
    FILE * f = fopen(jsonOut.c_str(), "w");
    if (!f) { perror(jsonOut.c_str()); return 3; }
    fprintf(f, "{\"runs\":%lu,\"nontrivial\":%lu,\"distinct_nontrivial\":%zu,\"distinct_traces\":%zu,\"distinct_sync_orders\":%zu,\"invalid\":%lu,\"invalid_text\":%s,\"rechecked\":%lu,\"mismatched\":%lu,\"mismatch_text\":%s,\"pct_runs\":%lu,\"multi_process_runs\":%lu,\"max_threads\":%llu,", runs, nontriv, ntTraces.size(), traces.size(), syncs.size(), invalidN, jsonStr(invalidText).c_str(), rechecked, mismatched, jsonStr(mismatchText).c_str(), pctRuns, multiProc, (unsigned long long) maxThreads);
    fprintf(f, "\"steps\":%llu,\"context_switches\":%llu,\"sync_operations\":%llu,\"events\":%llu,\"simulated_seconds\":%.3f,\"wall_s\":%.2f,\"minimiser_runs\":%lu,", (unsigned long long) steps, (unsigned long long) switches, (unsigned long long) syncOps, (unsigned long long) events, simTime, searchWall, minRuns);
    fprintf(f, "\"faults\":{"); bool first = true;
    for (int i = 0; i < F_COUNT; ++i) if (faults[i]) { fprintf(f, "%s\"%s\":{\"injected\":%llu,\"runs\":%llu}", first ? "" : ",", faultNames[i], (unsigned long long) faults[i], (unsigned long long) faultRuns[i]); first = false; }
    fprintf(f, "},\"probes\":{"); first = true;
    for (auto & p : probes) { fprintf(f, "%s%s:{\"hits\":%llu,\"runs\":%llu}", first ? "" : ",", jsonStr(p.first).c_str(), (unsigned long long) p.second.first, (unsigned long long) p.second.second); first = false; }
    fprintf(f, "},\"scenarios\":{"); first = true;
    for (int i : scn) { fprintf(f, "%s%s:{\"runs\":%lu,\"nontrivial\":%lu,\"rule\":%s}", first ? "" : ",", jsonStr(g_scn[i].name).c_str(), perScn[g_scn[i].name], perScnNt[g_scn[i].name], jsonStr(g_scn[i].rule).c_str()); first = false; }
    fprintf(f, "},\"known\":["); first = true;
    for (size_t i = 0; i < known.size(); ++i) { fprintf(f, "%s{\"scenario\":%s,\"class\":%s,\"text\":%s,\"description\":%s,\"hits\":%lu}", first ? "" : ",", jsonStr(known[i].scn).c_str(), jsonStr(known[i].cls).c_str(), jsonStr(known[i].text).c_str(), jsonStr(known[i].desc).c_str(), knownHits[(int) i]); first = false; }
    fprintf(f, "],\"samples\":[%s],\"violations\":[%s]}\n", samples.c_str(), violJson.c_str());
    fclose(f);
  }
  if (mismatched && rc == 0) rc = 2;
  if (invalidN && rc == 0 && invalidN * 200 > runs) rc = 2;
  return rc;
}

} // namespace sim

int main(int argc, char ** argv) { return sim::driverMain(argc, argv); }
