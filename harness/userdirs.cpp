// U02: directories of the user and of the application.
#include <cerrno>
#include <cstring>
#include <functional>
#include <set>
#include <vector>
#include <pwd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <boost/predef.h>
#include <Balau/Util/App.hpp>
#include "../sim/hlib.h"

using namespace Balau;
using namespace Balau::Util;
using sim::Quiet;

// ---- the user database of the simulated system ----------------------------------------------------------------
namespace {
struct Entry { std::string name, dir; };
struct Db { bool present = true; std::string name, dir, gecos; uid_t uid = 1000, euid = 1000; std::string ename, edir; double eintr = 0, error = 0, mkdirFail = 0; } db;
thread_local int g_errors; // lookups of the thread that failed, without those that were interrupted
char g_static[1 << 16]; passwd g_entry;
bool find(uid_t u, std::string & n, std::string & d) { if (!db.present) return false; if (u == db.uid) { n = db.name; d = db.dir; return true; } if (u == db.euid) { n = db.ename; d = db.edir; return true; } return false; }
// Writes the entry into a buffer; other threads can run in between.
int store(passwd * p, char * b, size_t size, const std::string & n, const std::string & d, uid_t u) {
  size_t need = n.size() + d.size() + db.gecos.size() + 16; if (size < need) return ERANGE;
  char * at = b; auto put = [&] (const std::string & s) { char * r = at; for (size_t i = 0; i < s.size(); ++i) { at[i] = s[i]; if (i % 8 == 0) sim::yield(); } at[s.size()] = 0; at += s.size() + 1; return r; };
  memset(b, '#', need); sim::yield();
  p->pw_name = put(n); p->pw_passwd = put("x"); p->pw_gecos = put(db.gecos); p->pw_dir = put(d); p->pw_shell = put("/bin/sh"); p->pw_uid = u; p->pw_gid = u; return 0;
}
int lookup(uid_t u, passwd * p, char * b, size_t size, passwd ** r) {
  *r = nullptr;
  if (sim::fault(sim::F_EINTR, db.eintr)) return EINTR;
  if (unsigned k = sim::choose(4, db.error)) { sim::count(sim::F_READERR); ++g_errors; return k == 1 ? EIO : k == 2 ? EMFILE : ENOMEM; }
  std::string n, d; { Quiet q; if (!find(u, n, d)) return 0; }
  int e = store(p, b, size, n, d, u); if (!e) *r = p;
  return e;
}
}
extern "C" {
int mkdir(const char * p, mode_t m) noexcept {
  if (!sim::active()) return (int) syscall(SYS_mkdir, p, m);
  sim::yield();
  if (sim::fault(sim::F_OPENFAIL, db.mkdirFail)) { sim::note("mkdir %s fails: ENOSPC", p); errno = ENOSPC; return -1; }
  return (int) syscall(SYS_mkdir, p, m);
}
uid_t getuid() noexcept { return db.uid; }
uid_t geteuid() noexcept { return db.euid; }
int getpwuid_r(uid_t u, passwd * p, char * b, size_t n, passwd ** r) { sim::yield(); int e = lookup(u, p, b, n, r); errno = e; return e; }
passwd * getpwuid(uid_t u) { sim::yield(); passwd * r; int e = lookup(u, &g_entry, g_static, sizeof g_static, &r); if (e) errno = e; return r; }
}

namespace {
std::string trimmed(std::string s) { while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
struct Var { bool set = false; std::string value; std::string get() const { return set ? trimmed(value) : ""; } };
Var genVar(const std::string & v, double unset) { Var r; r.set = !sim::chance(unset); r.value = sim::chance(0.15) ? (sim::chance(0.5) ? "" : "  ") : sim::chance(0.2) ? " " + v + " " : v; return r; }
void apply(const char * n, const Var & v) { if (v.set) setenv(n, v.value.c_str(), 1); else unsetenv(n); }
enum Kind { NAME, HOME, DATA, CONFIG, GDATA, GCONFIG, RUNTIME, KINDS };
const char * const kindNames[] = { "user name", "home directory", "user data directory", "user configuration directory", "global data directory", "global configuration directory", "runtime directory" };
struct Env { Var home, data, config, runtime, tmp; };
void apply(const Env & e) { apply("HOME", e.home); apply("XDG_DATA_HOME", e.data); apply("XDG_CONFIG_HOME", e.config); apply("XDG_RUNTIME_DIR", e.runtime); apply("TMPDIR", e.tmp); }
const std::string G = "The Group", A = "The App";
// What the environment and the user database say; "" = an error.
std::string expected(Kind k, const Env & e) {
  std::string home = !e.home.get().empty() ? e.home.get() : db.present ? db.dir : "";
  auto under = [&] (const std::string & a, const std::string & b) { return a.empty() ? "" : a + b; };
  switch (k) {
    case NAME: return db.present ? db.euid == db.uid ? db.name : db.ename : "";
    case HOME: return home;
    case DATA: return (!e.data.get().empty() ? e.data.get() : under(home, "/.local/share")) + (e.data.get().empty() && home.empty() ? "" : "/" + G + "/" + A);
    case CONFIG: return (!e.config.get().empty() ? e.config.get() : under(home, "/.config")) + (e.config.get().empty() && home.empty() ? "" : "/" + G + "/" + A);
    case RUNTIME: return (!e.runtime.get().empty() ? e.runtime.get() : e.tmp.get()) + "/" + G + "/" + A;
    default: { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); std::string p(b, (size_t) n); p.erase(p.rfind('/')); p.erase(p.rfind('/')); return p + "/share/" + G + "/" + A + (k == GDATA ? "/data" : "/config"); }
  }
}
bool usesDb(Kind k, const Env & e) { return k == NAME || (e.home.get().empty() && (k == HOME || (k == DATA && e.data.get().empty()) || (k == CONFIG && e.config.get().empty()))); }
std::string call(Kind k) {
  switch (k) {
    case NAME: return User::getUserName();
    case HOME: return User::getHomeDirectory().toRawString();
    case DATA: return App::getUserApplicationDataDirectory(G, A).toRawString();
    case CONFIG: return App::getUserApplicationConfigDirectory(G, A).toRawString();
    case GDATA: return App::getGlobalApplicationDataDirectory(G, A).toRawString();
    case GCONFIG: return App::getGlobalApplicationConfigDirectory(G, A).toRawString();
    default: return App::getApplicationRuntimeDataDirectory(G, A).toRawString();
  }
}
}

SIM_SCENARIO(U02, directories, 1, "1-4 threads ask 1-6 times each for the user name and the directories of the user and of the application, in 1-2 generated environments (unset, blank and padded variables, user database with and without the user, entries up to 60 kB, interrupted and failing lookups, failing directory creation); non-trivial: at least two threads, or a lookup of the user database") {
  sim::swarm(); sim::tuning().clockJump = 0;
  std::string cwd = "/proc/self/cwd/" + std::string(sim::scratch());
  int nt = (int) sim::rndRange(1, 4), phases = (int) sim::rndRange(1, 2);
  static const size_t sizes[] = { 3, 3, 3, 8, 490, 512, 1024, 5000, 60000 };
  db.present = sim::chance(0.85); db.name = "someone"; db.dir = "/home/someone"; db.gecos.assign(sizes[sim::rnd(9)], 'g'); db.ename = "other"; db.edir = "/home/other";
  if (sim::chance(0.2)) db.euid = 2000;
  if (sim::chance(0.3)) db.dir = "/srv/" + std::string(1 + sim::rnd(600), 'h');
  db.eintr = sim::chance(0.3) ? 0.3 : 0; db.error = sim::chance(0.3) ? 0.3 : 0; db.mkdirFail = sim::chance(0.3) ? 0.4 : 0;
  std::vector<Env> envs; std::vector<std::vector<std::vector<Kind>>> plan((size_t) phases);
  for (int p = 0; p < phases; ++p) {
    Env e; std::string s = p ? "2" : ""; double u = sim::chance(0.5) ? 0.7 : 0.2;
    e.home = genVar("/home/env" + s, u); e.data = genVar("/data" + s, u); e.config = genVar("/config" + s, u); e.runtime = genVar(cwd + "/run" + s, 0.4); e.tmp = genVar(cwd + "/tmp" + s, 0.2);
    if (e.runtime.get().empty() && e.tmp.get().empty()) { e.tmp.set = true; e.tmp.value = cwd + "/tmp" + s; }
    envs.push_back(e); plan[(size_t) p].resize((size_t) nt);
    for (int i = 0; i < nt; ++i) for (int n = (int) sim::rndRange(1, 6); n > 0; --n) { Kind k = (Kind) sim::rnd(KINDS); if (sim::keepOp()) plan[(size_t) p][(size_t) i].push_back(k); }
  }
  static std::vector<std::string> fixed; fixed.assign(KINDS, "");  // documented: fixed at the first (successful) call
  bool looks = false; for (auto & e : envs) for (int k = 0; k < KINDS; ++k) looks = looks || usesDb((Kind) k, e);
  if (nt > 1 || looks) sim::nontrivial();
  for (int p = 0; p < phases; ++p) {
    Env & e = envs[(size_t) p]; { Quiet q; apply(e); }
    std::vector<std::function<void ()>> bodies;
    for (int i = 0; i < nt; ++i) bodies.push_back([&, i] {
      for (Kind k : plan[(size_t) p][(size_t) i]) {
        std::string r, before = fixed[k]; bool threw = false; g_errors = 0; uint64_t mkdirFails = sim::fired(sim::F_OPENFAIL);
        try { r = call(k); }
        catch (const Exception::BalauException & x) { threw = true; }
        catch (const std::exception & x) { if (k != RUNTIME) sim::fail("unexpected-exception", "asking for the %s threw %.200s", kindNames[k], x.what()); threw = true; }
        Quiet q; std::string want = fixed[k].empty() ? expected(k, e) : fixed[k];
        sim::note("%s: %s", kindNames[k], threw ? "error" : r.c_str());
        if (threw) {
          bool excused = (usesDb(k, e) && (g_errors || !db.present)) || (k == RUNTIME && sim::fired(sim::F_OPENFAIL) != mkdirFails);
          if (k >= DATA && !before.empty()) excused = false;
          if (!excused) sim::fail("spurious-error", "asking for the %s failed, it is %s", kindNames[k], want.c_str());
          continue;
        }
        if (want.empty()) sim::fail("wrong-directory", "the %s is %s, but the system does not know it", kindNames[k], r.c_str());
        if (r != want) sim::fail("wrong-directory", "the %s is '%.100s', not '%.100s'", kindNames[k], r.c_str(), want.c_str());
        if (k >= DATA) fixed[k] = r;
        if (k == RUNTIME) { struct stat st; if (stat(r.c_str(), &st) || !S_ISDIR(st.st_mode)) sim::fail("missing-directory", "the runtime directory %s does not exist", r.c_str()); }
      }
    });
    hl::runThreads(bodies);
  }
}
