// L01 log lines, L02 reconfiguration, L03 file streams: the real logging system, with custom streams, replaced
// standard output buffers and the simulated file system below it.
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Logging/Logger.hpp>
#include <Balau/Logging/Impl/LoggingState.hpp>
#include <Balau/Logging/Impl/LoggingStreams.hpp>
#include <Balau/System/ThreadName.hpp>
#include "../sim/hlib.h"
#include <array>
#include <cstring>
#include <deque>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/stat.h>

using namespace Balau;
using sim::Quiet;

namespace {
// ------------------------------------------------------------------ sinks
struct Sink { std::string bytes; int flushes = 0; };
std::map<std::string, Sink> * g_sinks;
Sink & sinkOf(const std::string & uri) { return (*g_sinks)[uri]; }
double g_throwP = 0;
struct StreamError {};

// A thread safe custom stream.
class MemStream : public LoggingStream {
  Sink & s; bool throwing;
  public: MemStream(Sink & s_, bool t) : s(s_), throwing(t) {}
  public: void write(const LoggingSystem::LoggerString & str) override {
    sim::yield();
    if (throwing && sim::fault(sim::F_USEREXC, g_throwP)) throw StreamError();
    { Quiet q; s.bytes.append(str.data(), str.size()); }
    sim::yield();
  }
  public: void flush() override { sim::yield(); { Quiet q; ++s.flushes; } }
};
// Models the stdio buffer below cout / cerr: one call is atomic.
class StdBuf : public std::streambuf {
  Sink & s;
  public: explicit StdBuf(Sink & s_) : s(s_) {}
  protected: std::streamsize xsputn(const char * p, std::streamsize n) override { sim::yield(); { Quiet q; s.bytes.append(p, (size_t) n); } sim::yield(); return n; }
  protected: int overflow(int c) override { char ch = (char) c; xsputn(&ch, 1); return c; }
  protected: int sync() override { sim::yield(); return 0; }
};
// An ordinary stream buffer: not thread safe, slow, loses data when two threads are inside.
class SlowBuf : public std::streambuf {
  Sink & s; int inside = 0;
  public: explicit SlowBuf(Sink & s_) : s(s_) {}
  void enter() { Quiet q; if (inside++) sim::fail("unsynchronised-stream", "two threads are inside an output stream that is not thread safe"); }
  void leave() { Quiet q; --inside; }
  protected: std::streamsize xsputn(const char * p, std::streamsize n) override {
    enter();
    std::streamsize half = n / 2;
    { Quiet q; s.bytes.append(p, (size_t) half); }
    sim::yield(); if (sim::fault(sim::F_STREAMSLOW, 0.2)) sim::sleepNs(1000000);
    { Quiet q; s.bytes.append(p + half, (size_t) (n - half)); }
    leave();
    return n;
  }
  protected: int overflow(int c) override { char ch = (char) c; xsputn(&ch, 1); return c; }
  protected: int sync() override { enter(); sim::yield(); leave(); return 0; }
};
std::map<std::string, std::ostream *> * g_slow;

LoggingStream * memFactory(std::string_view uri) { Quiet q; return new MemStream(sinkOf(std::string(uri)), false); }
LoggingStream * thrFactory(std::string_view uri) { Quiet q; return new MemStream(sinkOf(std::string(uri)), true); }
LoggingStream * slowFactory(std::string_view uri) {
  std::ostream * o; { Quiet q; o = (*g_slow)[std::string(uri)]; if (!o) { o = new std::ostream(new SlowBuf(sinkOf(std::string(uri)))); (*g_slow)[std::string(uri)] = o; } }
  return new LoggingSystem::OStreamLoggingStream(*o);
}
LoggingStream * boomFactory(std::string_view) { throw StreamError(); }

// ------------------------------------------------------------------ configuration model
using Props = std::map<std::string, std::string>;
struct Conf { std::map<std::string, Props> ns; bool throws = false, malformed = false, reset = false; };
bool isStream(const std::string & k) { return k.size() >= 6 && k.compare(k.size() - 6, 6, "stream") == 0; }
void overlay(Props & base, const Props & p) {
  bool st = false; for (auto & x : p) st |= isStream(x.first);
  if (st) for (auto i = base.begin(); i != base.end();) if (isStream(i->first)) i = base.erase(i); else ++i;
  for (auto & x : p) base[x.first] = x.second;
}
Props effective(const Conf & c, const std::string & ns) {
  Props r { {"level", "info"}, {"warn-stream", "stdout"}, {"error-stream", "stderr"}, {"format", "%Y-%m-%d %H:%M:%S [%thread] %LEVEL - %namespace - %message"} };
  auto root = c.ns.find("."); if (root != c.ns.end()) overlay(r, root->second);
  if (ns.empty()) return r;
  size_t pos = 0;
  while (true) {
    size_t e = ns.find('.', pos);
    auto i = c.ns.find(ns.substr(0, e));
    if (i != c.ns.end()) overlay(r, i->second);
    if (e == std::string::npos) return r;
    pos = e + 1;
  }
}
const char * const levelNames[] = { "error", "warn", "info", "debug", "trace" };
int levelOf(const std::string & s) {
  std::string l; for (char c : s) l += (char) tolower(c);
  for (int i = 0; i < 5; ++i) if (l == levelNames[i]) return i;
  return l == "none" ? -1 : 2;
}
std::string streamOf(const Props & p, int level) {
  auto get = [&] (int l) { auto i = p.find(std::string(levelNames[l]) + "-stream"); return i == p.end() ? std::string() : i->second; };
  std::string r = get(level);
  if (!r.empty()) return r;
  auto g = p.find("stream"); if (g != p.end()) return g->second;
  for (int l = level - 1; l >= 0; --l) if (!(r = get(l)).empty()) return r;   // towards the more severe levels first
  for (int l = level + 1; l < 5; ++l) if (!(r = get(l)).empty()) return r;
  return "stdout";
}
std::string sinkUri(const std::string & s) { return s.compare(0, 4, "bad:") == 0 ? "stderr" : s; }

struct Call {
  int id = 0, thread = 0, level = 0, form = 0; std::string ns, fill, loc, threadText; bool viaLog = false, keep = true, fresh = false, threw = false;
  int64_t pause = 0, t0 = 0, t1 = 0; uint64_t inv = 0, ret = 0;
  std::string fmt, message; // message: expected text
};
std::string abbrev(const std::string & ns) {
  std::string r; size_t pos = 0;
  while (true) { size_t e = ns.find('.', pos); if (e == std::string::npos) return r + ns.substr(pos); r += ns[pos]; r += '.'; pos = e + 1; }
}
bool digits(const std::string & l, size_t & p, int n, long & v) {
  v = 0; if (p + (size_t) n > l.size()) return false;
  for (int i = 0; i < n; ++i) { char c = l[p++]; if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); }
  return true;
}
bool matchLine(const std::string & line, const std::string & format, const Call & c, std::string & why) {
  size_t p = 0; long Y = -1, y = -1, m = -1, d = -1, H = -1, M = -1, Sx = -1;
  auto lit = [&] (const std::string & s) { if (line.compare(p, s.size(), s)) { why = "expected \"" + s.substr(0, 60) + "\" at offset " + std::to_string(p); return false; } p += s.size(); return true; };
  for (size_t i = 0; i < format.size();) {
    if (format[i] != '%') { size_t e = format.find('%', i); if (e == std::string::npos) e = format.size(); if (!lit(format.substr(i, e - i))) return false; i = e; continue; }
    auto is = [&] (const char * s) { size_t n = strlen(s); if (format.compare(i, n, s)) return false; i += n; return true; };
    bool ok = true;
    if (is("%message")) ok = lit(c.message);
    else if (is("%thread")) ok = lit(c.threadText);
    else if (is("%LEVEL")) { std::string u; for (const char * q = levelNames[c.level]; *q; ++q) u += (char) toupper(*q); ok = lit(u); }
    else if (is("%level")) ok = lit(levelNames[c.level]);
    else if (is("%filename")) { size_t s = c.loc.rfind('/'); ok = lit(s == std::string::npos ? c.loc : c.loc.substr(s + 1)); }
    else if (is("%filepath")) ok = lit(c.loc);
    else if (is("%namespace")) ok = lit(c.ns);
    else if (is("%ns")) ok = lit(abbrev(c.ns));
    else if (is("%%")) ok = lit("%");
    else if (is("%\"")) ok = lit("\"");
    else if (is("%Y")) ok = digits(line, p, 4, Y);
    else if (is("%y")) ok = digits(line, p, 2, y);
    else if (is("%m")) ok = digits(line, p, 2, m);
    else if (is("%d")) ok = digits(line, p, 2, d);
    else if (is("%H")) ok = digits(line, p, 2, H);
    else if (is("%M")) ok = digits(line, p, 2, M);
    else if (is("%S")) { ok = digits(line, p, 2, Sx); if (ok && p < line.size() && line[p] == '.') { ++p; while (p < line.size() && isdigit(line[p])) ++p; } }
    else sim::invalid("bad format");
    if (!ok) { if (why.empty()) why = "no match at offset " + std::to_string(p); return false; }
  }
  if (p != line.size()) { why = "excess text at the end"; return false; }
  // The time of the line is the time of the call.
  for (int64_t t = c.t0 / 1000000000; ; t = c.t1 / 1000000000) {
    time_t tt = (time_t) t; struct tm g; gmtime_r(&tt, &g);
    if ((Y < 0 || Y == g.tm_year + 1900) && (y < 0 || y == g.tm_year % 100) && (m < 0 || m == g.tm_mon + 1) && (d < 0 || d == g.tm_mday) && (H < 0 || H == g.tm_hour) && (M < 0 || M == g.tm_min) && (Sx < 0 || Sx == g.tm_sec)) return true;
    if (t == c.t1 / 1000000000 || c.t1 - c.t0 > 1000000000) break;
  }
  if (c.t1 - c.t0 > 1000000000 || c.t1 < c.t0) return true; // held back for long, or stepped: the moment is not known
  why = "date or time is not that of the call";
  return false;
}

// ------------------------------------------------------------------ the run
const char * const formats[] = {
  "%message", "%LEVEL|%namespace|%message|end", "%Y-%m-%d %H:%M:%S [%thread] %LEVEL - %namespace - %message", "[%thread] %message [%ns]",
  "%level %filename %message", "%filepath - %ns - %message", "100%% %message %\"quoted%\" end", "%y%m%d-%H%M %message", "%message %message" };
const char * const confNs[] = { ".", "a", "a.bb", "a.bb.c", "dd", "dd.ee" };
const char * const logNs[] = { "", "a", "a.bb", "a.bb.c", "dd", "dd.ee", "a.x", "a.bb.c.yy", "zz", "dd.ee.ff.gg", "dd.ff", "a.bb.q.r" };
const char * const uris[] = { "mem:0", "mem:1", "mem:2", "slow:0", "slow:1", "stdout", "stderr", "thr:0", "bad:9" };

Conf genConf(bool rich, const std::vector<std::string> & pool) {
  Conf c;
  int n = (int) sim::rndRange(rich ? 1 : 0, rich ? 4 : 2);
  for (int i = 0; i < n; ++i) {
    Props p;
    if (sim::chance(0.6)) { static const char * const lv[] = { "trace", "debug", "info", "WARN", "error", "none", "Trace" }; p["level"] = lv[sim::rnd(7)]; }
    if (sim::chance(0.6)) p["format"] = formats[sim::rnd(sizeof formats / sizeof *formats)];
    if (sim::chance(0.3)) p["flush"] = sim::chance(0.7) ? "false" : "true";
    if (sim::chance(0.5)) p["stream"] = pool[sim::rnd(pool.size())];
    if (sim::chance(0.4)) for (int k = (int) sim::rndRange(1, 3); k-- > 0;) p[std::string(levelNames[sim::rnd(5)]) + "-stream"] = pool[sim::rnd(pool.size())];
    if (p.empty()) p["level"] = "trace";
    c.ns[i == 0 && rich ? "." : confNs[sim::rnd(6)]] = p;
  }
  return c;
}
std::string confText(const Conf & c) {
  std::string t;
  for (auto & n : c.ns) { t += n.first + " {\n"; for (auto & p : n.second) t += "    " + p.first + " = " + p.second + "\n"; t += "}\n\n"; }
  if (c.throws) t += "qq {\n    stream = boom:1\n}\n";
  if (c.malformed) t += "qq {\n    level";
  return t;
}
// The same configuration as it comes from the environment configuration of an injector.
std::shared_ptr<EnvironmentProperties> confProperties(const std::string & text) {
  Quiet q; EnvironmentConfiguration e("logging {\n" + text + "}\n"); return Injector::create(e)->getShared<EnvironmentProperties>("logging");
}
struct ConfCall { Conf conf; uint64_t inv = 0, ret = 0; bool threw = false; };
struct Engine {
  std::deque<ConfCall> confs;          // [0] is the initial one
  std::vector<std::vector<Call>> plan;
  std::map<std::string, Logger *> loggers;
  uint64_t lockInv = ~0ull, lockRet = ~0ull; bool noisy = false;
  bool definite(const ConfCall & c) const { return c.ret && !c.threw && !c.conf.throws && !c.conf.malformed && (c.ret < lockInv || noisy); }
  bool maybe(const ConfCall & c) const { return c.inv && !c.threw && !c.conf.throws && !c.conf.malformed && c.inv < lockRet; }
  std::vector<const ConfCall *> candidates(uint64_t inv, uint64_t ret) const {
    std::vector<const ConfCall *> r;
    for (auto & c : confs) {
      if (!maybe(c) || c.inv > ret) continue;
      bool sup = false;
      for (auto & o : confs) if (&o != &c && definite(o) && c.ret && o.inv > c.ret && o.ret < inv) sup = true;
      if (!sup) r.push_back(&c);
    }
    if (r.empty()) sim::invalid("no candidate configuration");
    return r;
  }
  Logger & get(const std::string & ns) {
    Logger & l = ns.empty() ? (sim::self() % 2 ? Logger::getLogger(".") : Logger::getLogger("")) : Logger::getLogger(ns);
    Quiet q;
    Logger * & p = loggers[ns];
    if (p && p != &l) sim::fail("different-loggers", "two requests for the namespace '%s' gave different loggers", ns.c_str());
    p = &l;
    return l;
  }
  static void emit(Logger & l, Call & c) {
    static const LoggingLevel lv[] = { LoggingLevel::ERROR, LoggingLevel::WARN, LoggingLevel::INFO, LoggingLevel::DEBUG, LoggingLevel::TRACE };
    SourceCodeLocation loc(c.loc.empty() ? nullptr : c.loc.c_str());
    const char * f = c.fmt.c_str(); std::string_view sv(c.fmt);
    std::string nul("n\0l", 3);
    #define WITH(fn, ...) if (c.loc.empty()) l.fn(__VA_ARGS__); else l.fn(loc, __VA_ARGS__)
    #define WITHL(...) if (c.loc.empty()) l.log(lv[c.level], __VA_ARGS__); else l.log(lv[c.level], loc, __VA_ARGS__)
    #define EMIT(...) if (c.viaLog) { WITHL(__VA_ARGS__); } else switch (c.level) { case 0: WITH(error, __VA_ARGS__); break; case 1: WITH(warn, __VA_ARGS__); break; case 2: WITH(info, __VA_ARGS__); break; case 3: WITH(debug, __VA_ARGS__); break; default: WITH(trace, __VA_ARGS__); }
    switch (c.form) {
      case 0: EMIT(f) break;
      case 1: EMIT(sv) break;
      case 2: EMIT(f, c.id) break;
      case 3: EMIT(sv, c.fill, c.id) break;
      case 4: { std::function<std::string ()> fn = [&c] () { return c.fmt; }; EMIT(fn) break; }
      case 5: EMIT(f, c.id) break;
      case 6: EMIT(sv, c.id, c.fill) break;
      default: EMIT(f, nul) break;
    }
  }
  void genCall(Call & c, int id, int t, const std::vector<std::string> & names, size_t maxLen = 9000) {
    c.id = id; c.thread = t; c.level = (int) sim::rnd(5); c.form = (int) sim::rnd(8); c.ns = names[sim::rnd(names.size())];
    c.viaLog = sim::chance(0.3); c.fresh = sim::chance(0.4);
    if (sim::chance(0.4)) c.loc = std::string("/src/dir/file") + char('a' + t) + ".cpp:" + std::to_string(id);
    size_t len = sim::chance(0.85) ? sim::rnd(30) : sim::chance(0.7) ? sim::rnd(700) : sim::rnd(9000); if (len > maxLen) len = maxLen;
    for (size_t i = 0; i < len; ++i) c.fill += (char) ('a' + (id * 7 + (int) i) % 26);
    std::string ids = std::to_string(id), tag = "<#" + ids + "#" + c.fill + ">";
    switch (c.form) {
      case 0: case 1: case 4: c.fmt = c.message = tag; break;
      case 2: c.fmt = tag + "v={}!"; c.message = tag + "v=" + ids + "!"; break;
      case 3: c.fmt = "{}" + tag + "{}"; c.message = c.fill + tag + ids; break;
      case 5: c.fmt = tag + "{} {} {}"; c.message = tag + ids + " ???? ????"; break;
      case 6: c.fmt = tag + "{}{x}{"; c.message = tag + ids + "{x}{"; break;
      default: c.fmt = tag + "[{}]"; c.message = tag + std::string("[n\0l]", 5); break;
    }
    c.pause = sim::chance(0.15) ? (int64_t) sim::rnd(2000000) : 0;
  }
  void logBody(int t) {
    if (t % 2) System::ThreadName::setName("worker-" + std::to_string(t));
    std::string text;
    { std::ostringstream o; if (t % 2) o << "worker-" << t; else o << std::this_thread::get_id(); text = o.str(); }
    std::map<std::string, Logger *> own;
    for (auto & c : plan[(size_t) t]) {
      if (!c.keep) continue;
      if (c.pause) sim::sleepNs(c.pause);
      Logger * & l = own[c.ns];
      if (!l || c.fresh) { try { l = &get(c.ns); } catch (...) { sim::fail("unexpected-exception", "getLogger threw"); } }
      { Quiet q; c.threadText = text; c.t0 = sim::wall(); c.inv = sim::eventNo(); sim::note("log call %d starts: %s to '%s'", c.id, levelNames[c.level], c.ns.c_str()); }
      try { emit(*l, c); }
      catch (const StreamError &) { Quiet q; c.threw = true; }
      catch (const std::exception & e) { sim::fail("unexpected-exception", "log call %d threw: %.200s", c.id, e.what()); }
      catch (...) { sim::fail("unexpected-exception", "log call %d threw", c.id); }
      { Quiet q; c.ret = sim::eventNo(); c.t1 = sim::wall(); sim::note("log call %d returns", c.id); }
    }
  }
  // Checks everything that has been written against the calls.
  void verify(const std::map<std::string, std::string> & content, const std::map<std::string, std::string> & sinkAlias) {
    std::map<int, Call *> byId; std::map<int, int> seen; std::map<int, std::set<std::string>> where;
    for (auto & v : plan) for (auto & c : v) if (c.keep && c.inv) byId[c.id] = &c;
    for (auto & s : content) {
      std::map<int, int> last; size_t pos = 0;
      const std::string & b = s.second;
      while (pos < b.size()) {
        size_t e = b.find('\n', pos);
        bool complete = e != std::string::npos;
        if (!complete) e = b.size();
        std::string line = b.substr(pos, e - pos); pos = e + 1;
        size_t h = line.find("<#");
        if (h == std::string::npos) {
          if (line.compare(0, 7, "LOGGING") == 0 || line.compare(0, 7, " Using ") == 0 || line.compare(0, 10, "Attempting") == 0 || s.first == "stderr") continue; // reports of the logging system
          if (line == "existing content") continue;
          sim::fail("corrupt-line", "stream %s contains a line that is not of any call: \"%.120s\"", s.first.c_str(), line.c_str());
        }
        int id = atoi(line.c_str() + h + 2);
        auto it = byId.find(id);
        if (it == byId.end()) sim::fail("corrupt-line", "stream %s contains a line of an unknown call: \"%.120s\"", s.first.c_str(), line.c_str());
        Call & c = *it->second;
        if (!complete) sim::fail("corrupt-line", "the line of call %d on stream %s has no end", id, s.first.c_str());
        bool fOk = false, sOk = false, en = false; std::string why;
        for (auto * k : candidates(c.inv, c.ret)) {
          Props p = effective(k->conf, c.ns);
          if (levelOf(p["level"]) >= c.level) en = true;
          if (!fOk) { std::string w; if (matchLine(line, p["format"], c, w)) fOk = true; else why = w + " (format " + p["format"] + ")"; }
          std::string u = sinkUri(streamOf(p, c.level)); auto al = sinkAlias.find(u); if (al != sinkAlias.end()) u = al->second;
          if (u == s.first) sOk = true;
        }
        if (!en) sim::fail("disabled-level-written", "call %d (%s to '%s') was written to %s although its level is disabled", id, levelNames[c.level], c.ns.c_str(), s.first.c_str());
        if (!fOk) sim::fail("wrong-line", "call %d on %s: line \"%.150s\" is not what the format gives: %.150s", id, s.first.c_str(), line.c_str(), why.c_str());
        if (!sOk) sim::fail("wrong-stream", "call %d (%s to '%s') was written to %s, which no configuration in force specifies", id, levelNames[c.level], c.ns.c_str(), s.first.c_str());
        if (++seen[id] > 1) sim::fail("repeated-line", "call %d was written %d times", id, seen[id]);
        if (last.count(c.thread) && last[c.thread] > id) sim::fail("line-order", "stream %s has call %d of thread %d after its call %d", s.first.c_str(), id, c.thread, last[c.thread]);
        last[c.thread] = id;
      }
    }
    for (auto & x : byId) {
      Call & c = *x.second;
      bool all = true; for (auto * k : candidates(c.inv, c.ret)) { Props p = effective(k->conf, c.ns); if (levelOf(p["level"]) < c.level) all = false; }
      if (all && !seen[c.id] && !c.threw) sim::fail("lost-line", "call %d (%s to '%s') was not written to any stream", c.id, levelNames[c.level], c.ns.c_str());
      if (c.threw && seen[c.id]) sim::fail("repeated-line", "call %d was written although its stream refused it", c.id);
    }
  }
};

struct StdRedirect {
  std::streambuf * o, * e; StdBuf bo, be;
  StdRedirect() : bo(sinkOf("stdout")), be(sinkOf("stderr")) { o = std::cout.rdbuf(&bo); e = std::cerr.rdbuf(&be); }
  ~StdRedirect() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
void setup() {
  g_sinks = new std::map<std::string, Sink>; g_slow = new std::map<std::string, std::ostream *>;
}
void registerAll() {
  Logger::registerLoggingStreamFactory("mem", memFactory);
  Logger::registerLoggingStreamFactory("thr", thrFactory);
  Logger::registerLoggingStreamFactory("slow", slowFactory);
  Logger::registerLoggingStreamFactory("boom", boomFactory);
}
std::map<std::string, std::string> memContent() { std::map<std::string, std::string> r; for (auto & s : *g_sinks) r[s.first] = s.second.bytes; return r; }
std::vector<std::string> uriPool(bool throwing) { std::vector<std::string> r; for (const char * u : uris) if (throwing || strncmp(u, "thr", 3)) r.push_back(u); return r; }
std::vector<std::string> pickNames() { std::vector<std::string> r; int n = (int) sim::rndRange(1, 5); for (int i = 0; i < n; ++i) r.push_back(logNs[sim::rnd(sizeof logNs / sizeof *logNs)]); return r; }
} // namespace

SIM_SCENARIO(L01, lines, 1, "1-5 threads make 1-6 log calls each through loggers of overlapping namespaces, formats and streams after 0-2 quiet reconfigurations; non-trivial: at least 2 threads log") {
  sim::swarm(); sim::tuning().clockJump = 0;
  setup();
  Engine g;
  bool throwing = sim::chance(0.2); g_throwP = throwing ? 0.3 : 0;
  auto pool = uriPool(throwing);
  int nt = (int) sim::rndRange(1, 5), nc = (int) sim::rndRange(0, 2), id = 1;
  std::vector<Conf> cs; for (int i = 0; i < nc; ++i) cs.push_back(genConf(true, pool));
  std::vector<int64_t> jump; for (int i = 0; i < 3; ++i) jump.push_back(sim::chance(0.3) ? (int64_t) sim::rnd(86400ull * 400) * 1000000000 : 0);
  auto names = pickNames(); bool viaEnv = sim::chance(0.25);
  g.plan.resize((size_t) nt);
  for (int t = 0; t < nt; ++t) { int n = (int) sim::rndRange(1, 6); for (int i = 0; i < n; ++i) { Call c; g.genCall(c, id++, t, names); c.keep = sim::keepOp(); g.plan[(size_t) t].push_back(c); } }
  if (nt > 1) sim::nontrivial();
  StdRedirect rd;
  if (jump[0]) sim::stepWall(jump[0]);
  g.confs.emplace_back(); g.confs.back().inv = g.confs.back().ret = sim::eventNo();
  registerAll();
  for (auto & c : cs) {
    g.confs.emplace_back(); ConfCall & k = g.confs.back(); k.conf = c; k.inv = sim::eventNo();
    if (viaEnv) { auto props = confProperties(confText(c)); HL_TRY(Logger::configure(props), "configure") }
    else { HL_TRY(Logger::configure(confText(c)), "configure") }
    k.ret = sim::eventNo();
  }
  std::vector<std::function<void ()>> bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&g, t] { g.logBody(t); });
  hl::runThreads(bodies);
  { Quiet q; g.verify(memContent(), {}); }
}

SIM_SCENARIO(L02, reconfigure, 1, "1-4 threads log while 1-2 threads configure, reset or lock the logging system, with flushing and querying; non-trivial: a log call overlapped a configuration call") {
  sim::swarm(); sim::tuning().clockJump = 0;
  setup();
  Engine g;
  auto pool = uriPool(false); pool.pop_back(); // not bad:9, as the report of the unknown scheme is not part of any log call
  int nt = (int) sim::rndRange(1, 4), nconf = (int) sim::rndRange(1, 2), id = 1;
  auto names = pickNames();
  g.plan.resize((size_t) nt);
  for (int t = 0; t < nt; ++t) { int n = (int) sim::rndRange(1, 6); for (int i = 0; i < n; ++i) { Call c; g.genCall(c, id++, t, names, 100); c.keep = sim::keepOp(); g.plan[(size_t) t].push_back(c); } }
  struct CfgOp { int kind; Conf conf; bool keep; int64_t pause; bool viaPlaceholder, viaEnv; };  // 0 configure 1 reset 2 flushAll 3 lock quiet 4 lock noisy
  std::vector<std::vector<CfgOp>> cplan((size_t) nconf);
  bool failing = sim::chance(0.3), locking = sim::chance(0.15);
  for (auto & v : cplan) { int n = (int) sim::rndRange(1, 3); for (int i = 0; i < n; ++i) {
    CfgOp o; int r = (int) sim::rnd(20); o.kind = r < 15 ? 0 : r < 17 ? 1 : 2; if (locking && &v == &cplan[0] && i == n - 1 && n > 1) o.kind = sim::chance(0.5) ? 3 : 4;
    o.conf = genConf(sim::chance(0.8), pool); if (failing && sim::chance(0.3)) (sim::chance(0.5) ? o.conf.throws : o.conf.malformed) = true;
    if (o.kind == 1) { o.conf = Conf(); o.conf.reset = true; }
    o.pause = sim::chance(0.4) ? (int64_t) sim::rnd(1000000) : 0; o.viaPlaceholder = sim::chance(0.2); o.viaEnv = sim::chance(0.2) && !o.conf.malformed; o.keep = sim::keepOp(); v.push_back(o); } }
  struct QOp { int kind; std::string ns; int level; bool keep; };
  std::vector<QOp> qplan; int nq = sim::chance(0.5) ? (int) sim::rndRange(1, 5) : 0;
  for (int i = 0; i < nq; ++i) { QOp o { (int) sim::rnd(3), names[sim::rnd(names.size())], (int) sim::rnd(5), true }; o.keep = sim::keepOp(); qplan.push_back(o); }
  Conf initial = genConf(true, pool); bool hasInitial = sim::chance(0.7);
  StdRedirect rd;
  g.confs.emplace_back(); g.confs.back().inv = g.confs.back().ret = sim::eventNo();
  registerAll();
  if (hasInitial) { g.confs.emplace_back(); ConfCall & k = g.confs.back(); k.conf = initial; k.inv = sim::eventNo(); HL_TRY(Logger::configure(confText(initial)), "configure") k.ret = sim::eventNo(); }
  auto cfgBody = [&] (int t) {
    for (auto & o : cplan[(size_t) t]) {
      if (!o.keep) continue;
      if (o.pause) sim::sleepNs(o.pause);
      if (o.kind == 2) { HL_TRY(Logger::flushAll(), "flushAll") continue; }
      if (o.kind >= 3) {
        { Quiet q; g.noisy = o.kind == 4; g.lockInv = sim::eventNo(); sim::note("lockConfiguration starts"); }
        HL_TRY(Logger::lockConfiguration(o.kind == 4), "lockConfiguration")
        { Quiet q; g.lockRet = sim::eventNo(); sim::note("lockConfiguration done"); }
        continue;
      }
      std::string text = confText(o.conf); std::map<std::string, std::string> ph;
      if (o.viaPlaceholder) { size_t p = text.find("mem:0"); if (p != std::string::npos) { text.replace(p, 5, "${where}"); ph["where"] = "mem:0"; } }
      std::shared_ptr<EnvironmentProperties> props; if (o.viaEnv && o.kind == 0) props = confProperties(text);
      ConfCall * k; { Quiet q; g.confs.emplace_back(); k = &g.confs.back(); k->conf = o.conf; k->inv = sim::eventNo(); sim::note("configure starts"); }
      bool refused = false, failed = false;
      try {
        if (o.kind == 1) Logger::resetConfiguration();
        else if (props) Logger::configure(props, ph);
        else Logger::configure(text, ph);
      }
      catch (const Exception::LoggingConfigurationException &) { refused = true; }
      catch (const StreamError &) { failed = true; }
      catch (const Exception::BalauException & e) { failed = true; if (!o.conf.malformed) sim::fail("unexpected-exception", "configure threw: %.200s", e.what()); }
      catch (const std::exception & e) { sim::fail("unexpected-exception", "configure threw: %.200s", e.what()); }
      Quiet q; k->threw = refused || failed; k->ret = sim::eventNo(); sim::note("configure %s", k->threw ? "failed" : "done");
      if (failed) sim::probe("a configuration call failed");
      if (refused) sim::probe("a configuration call was refused");
      if (refused && (!g.noisy || g.lockInv > k->ret)) sim::fail("refused-unlocked", "a configuration call was refused although the configuration is not locked");
      if (g.noisy && g.lockRet < k->inv && !k->threw) sim::fail("lock-ignored", "a configuration call made after the configuration was locked did not throw");
      if ((o.conf.throws || o.conf.malformed) && !k->threw && !(g.lockInv < k->ret)) sim::fail("bad-configuration-accepted", "a configuration that cannot be applied was accepted");
    }
  };
  auto qBody = [&] {
    for (auto & o : qplan) {
      if (!o.keep) continue;
      static const LoggingLevel lv[] = { LoggingLevel::ERROR, LoggingLevel::WARN, LoggingLevel::INFO, LoggingLevel::DEBUG, LoggingLevel::TRACE };
      Logger & l = g.get(o.ns);
      uint64_t inv = sim::eventNo();
      if (o.kind == 0) {
        bool r = l.enabled(lv[o.level]);
        Quiet q; uint64_t ret = sim::eventNo(); bool ok = false;
        for (auto * k : g.candidates(inv, ret)) { Props p = effective(k->conf, o.ns); ok |= (levelOf(p["level"]) >= o.level) == r; }
        if (!ok) sim::fail("wrong-level", "'%s' enabled(%s) gave %d, in no configuration in force", o.ns.c_str(), levelNames[o.level], (int) r);
      } else if (o.kind == 1) {
        std::string s = l.getConfiguration();
        Quiet q; uint64_t ret = sim::eventNo(); bool ok = false; std::string w;
        for (auto * k : g.candidates(inv, ret)) { Props p = effective(k->conf, o.ns); w = o.ns + " {\n"; for (auto & x : p) w += "    " + x.first + " = " + x.second + "\n"; w += "}\n"; ok |= w == s; }
        if (!ok) sim::fail("wrong-configuration", "getConfiguration of '%s' gave\n%.400s\nwhich is no configuration in force, such as\n%.400s", o.ns.c_str(), s.c_str(), w.c_str());
      } else { HL_TRY(l.flush(), "flush") }
    }
  };
  std::vector<std::function<void ()>> bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&g, t] { g.logBody(t); });
  for (int t = 0; t < nconf; ++t) bodies.push_back([&cfgBody, t] { cfgBody(t); });
  if (nq) bodies.push_back([&] { HL_TRY(qBody(), "a query") });
  hl::runThreads(bodies);
  // and once more, when everything has settled
  std::vector<Call> fin; for (auto & n : names) { Call c; g.genCall(c, id++, nt, { n }); c.pause = 0; c.keep = true; fin.push_back(c); }
  g.plan.push_back(fin);
  g.logBody(nt);
  Quiet q;
  for (auto & v : g.plan) for (auto & c : v) for (auto & k : g.confs) if (k.inv < c.ret && k.ret > c.inv) sim::nontrivial();
  g.verify(memContent(), {});
}

namespace {
std::string readAll(const std::string & p) { std::string r; FILE * f = fopen(p.c_str(), "r"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
}
SIM_SCENARIO(L03, files, 1, "1-4 threads log to 1-3 files through shared and own loggers while the logging system is flushed and reconfigured; opens may fail, writes are short or interrupted; non-trivial: at least 2 threads write to the same file") {
  sim::swarm(); sim::tuning().clockJump = 0;
  setup();
  Engine g;
  std::string base = "file:///proc/self/cwd/" + std::string(sim::scratch()) + "/";
  int nf = (int) sim::rndRange(1, 3), nt = (int) sim::rndRange(1, 4), id = 1;
  std::vector<std::string> files, pool;
  for (int i = 0; i < nf; ++i) { files.push_back((sim::chance(0.2) ? "dir" + std::to_string(i) + "/" : "") + "log" + std::to_string(i)); pool.push_back(base + files.back()); }
  bool unopenable = sim::chance(0.15); if (unopenable) { pool.push_back(base + "adir"); mkdir("s/adir", 0777); }
  bool mixed = sim::chance(0.4);
  if (mixed) { pool.push_back("mem:0"); pool.push_back("stdout"); }
  auto names = pickNames();
  g.plan.resize((size_t) nt);
  for (int t = 0; t < nt; ++t) { int n = (int) sim::rndRange(1, 6); for (int i = 0; i < n; ++i) { Call c; g.genCall(c, id++, t, names); c.keep = sim::keepOp(); g.plan[(size_t) t].push_back(c); } }
  struct Op { int kind; Conf conf; bool keep; int64_t pause; };
  std::vector<Op> ops; int no = sim::chance(0.6) ? (int) sim::rndRange(1, 3) : 0;
  for (int i = 0; i < no; ++i) { Op o; o.kind = sim::chance(0.6) ? 0 : 1; o.conf = genConf(true, pool); o.pause = sim::chance(0.5) ? (int64_t) sim::rnd(1000000) : 0; o.keep = sim::keepOp(); ops.push_back(o); }
  Conf first = genConf(true, pool); first.ns["."]["stream"] = pool[0];
  bool existing = sim::chance(0.3), openFail = sim::chance(0.2);
  if (existing) { FILE * f = fopen("s/log0", "w"); if (f) { fputs("existing content\n", f); fclose(f); } }
  auto & io = sim::ioFaults();
  if (sim::chance(0.5)) { io.shortWrite = 0.3; io.eintr = 0.2; }
  StdRedirect rd;
  g.confs.emplace_back(); g.confs.back().inv = g.confs.back().ret = sim::eventNo();
  registerAll();
  std::set<std::string> opened; // for the aliases: which uri's file could not be opened
  auto configure = [&] (const Conf & c) {
    ConfCall * k; { Quiet q; g.confs.emplace_back(); k = &g.confs.back(); k->conf = c; k->inv = sim::eventNo(); sim::note("configure starts"); }
    if (openFail) io.openFail = 0.3;
    try { Logger::configure(confText(c)); }
    catch (const std::exception & e) { sim::fail("unexpected-exception", "configure threw: %.200s", e.what()); }
    catch (...) { sim::fail("unexpected-exception", "configure threw"); }
    io.openFail = 0;
    Quiet q; k->ret = sim::eventNo(); sim::note("configure done");
  };
  // Lines of calls that returned before the flush started are in the files now.
  auto aliases = [&] {
    std::map<std::string, std::string> al; const std::string & e = sinkOf("stderr").bytes;
    for (auto & p : pool) if (p[0] == 'f' && e.find("Could not open logging file: " + p + ":") != std::string::npos) { al[p] = "stderr"; sim::probe("a logging file could not be opened"); }
    return al;
  };
  auto content = [&] (std::map<std::string, std::string> & al) {
    auto r = memContent();
    for (auto & f : files) if (!al.count(base + f)) r[base + f] = readAll(std::string("s/") + f);
    return r;
  };
  auto flushed = [&] (const std::vector<Call *> & before) {
    Quiet q;
    auto al = aliases(); auto ct = content(al); std::string all; for (auto & x : ct) all += x.second;
    for (auto * c : before) {
      bool en = true; for (auto * k : g.candidates(c->inv, c->ret)) { Props p = effective(k->conf, c->ns); if (levelOf(p["level"]) < c->level) en = false; }
      if (en && all.find("<#" + std::to_string(c->id) + "#" + c->fill + ">") == std::string::npos) sim::fail("not-flushed", "the line of call %d, which had returned before the flush, is not in its file after it", c->id);
    }
    sim::probe("flush checked");
  };
  auto returned = [&] { Quiet q; std::vector<Call *> r; for (auto & v : g.plan) for (auto & c : v) if (c.ret) r.push_back(&c); return r; };
  auto opsBody = [&] {
    for (auto & o : ops) {
      if (!o.keep) continue;
      if (o.pause) sim::sleepNs(o.pause);
      auto b = returned();
      if (o.kind == 0) configure(o.conf); else HL_TRY(Logger::flushAll(), "flushAll")
      flushed(b);
    }
  };
  configure(first);
  if (existing && readAll("s/log0").compare(0, 17, "existing content\n")) sim::fail("content-lost", "the existing content of a logging file was lost");
  std::vector<std::function<void ()>> bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&g, t] { g.logBody(t); });
  if (no) bodies.push_back(opsBody);
  hl::runThreads(bodies);
  if (nt > 1) sim::nontrivial();
  HL_TRY(Logger::flushAll(), "flushAll")
  flushed(returned());
  Quiet q;
  io = sim::IoFaults();
  auto al = aliases();
  g.verify(content(al), al);
  if (existing && readAll("s/log0").compare(0, 17, "existing content\n")) sim::fail("content-lost", "the existing content of a logging file was lost");
  if (unopenable && !al.count(base + "adir")) { for (auto & k : g.confs) if (confText(k.conf).find(base + "adir\n") != std::string::npos && k.ret) sim::fail("not-reported", "a logging path that is a directory was not reported"); }
}
