// T01, T02: the test runner in all its execution models.
#include <Balau/Testing/TestRunner.hpp>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstdlib>
#include <map>
#include <set>
#include <stdexcept>
#include "../sim/hlib.h"

using namespace Balau::Testing;
namespace TImpl = Balau::Testing::Impl;
namespace Exception = Balau::Exception;
using sim::Quiet;

namespace {

constexpr int NG = 4, NT = 6; // groups, tests per group
enum Behave { PASS, FAILS, THROWS, THROWS_OTHER, IGNORED, IGNORED_FAILS, CRASH };
enum Where { IN_TEST, IN_SETUP, IN_TEARDOWN };
enum Death { D_SEGV, D_ABORT, D_KILL, D_TERM, D_FPE, D_EXIT0, D_EXIT1, D__EXIT0, D__EXIT3, D_TERMINATE, D_COUNT };

struct Spec { Behave behave; Where where; Death death; bool late; int64_t work; int64_t work2; size_t text; int logs; bool exists; std::string name; };
struct GroupSpec { bool exists; unsigned models; bool setupFails, teardownFails, setupDies; Death death; Spec t[NT]; };
GroupSpec g_spec[NG];
bool g_armed = false; int g_special = 0; // how many of the special texts are used in messages

struct Entry { int proc; uint64_t at; unsigned off, len; };
struct Board {
  int setups[NG][NT], runs[NG][NT], teardowns[NG][NT], order; int groupSetups[NG], groupTeardowns[NG];
  int nreports[NG]; int nresults[NG]; struct { int test; int result; unsigned off, len; } results[NG][NT + 2];
  unsigned used; char text[400000]; unsigned nent; Entry ent[4000];
  int64_t end;
};
Board * B;

unsigned store(const std::string & s) {
  if (B->used + s.size() > sizeof B->text) sim::fail("output", "far too much output");
  unsigned o = B->used; memcpy(B->text + o, s.data(), s.size()); B->used += (unsigned) s.size(); return o;
}

std::string failText(int g, int i) {
  size_t n = g_spec[g].t[i].text; std::string s = "<reason " + std::to_string(g) + "." + std::to_string(i) + " ";
  uint32_t x = (uint32_t) (g * 31 + i * 7 + 5);
  static const char * const special[] = { "<", ">", "&", "\"", "'", "\n", "\xc3\xa9", "&lt;", "]]>", " ", "\x01", "\xff", "\x1b[1m", "\xe2\x82" };
  while (s.size() < n) { x = x * 1664525u + 1013904223u; if (g_special && (x >> 8) % 8 == 0) s += special[(x >> 12) % (unsigned) g_special]; else s += (char) ('a' + (x >> 24) % 26); }
  return s + ">";
}

[[noreturn]] void die(Death d) {
  sim::setExpectCrash(true);
  switch (d) {
    case D_SEGV: { volatile int * volatile p = nullptr; *p = 1; break; }
    case D_ABORT: abort();
    case D_KILL: kill(getpid(), SIGKILL); break;
    case D_TERM: raise(SIGTERM); break;
    case D_FPE: raise(SIGFPE); break;
    case D_EXIT0: exit(0);
    case D_EXIT1: exit(1);
    case D__EXIT0: _exit(0);
    case D__EXIT3: _exit(3);
    case D_TERMINATE: std::terminate();
    default: break;
  }
  sim::invalid("still alive");
}

// The test that the calling thread runs (setup and teardown do not know which test they belong to).
thread_local int tl_test = -1;

template <int G, typename T> struct Grp : public TestGroup<T> {
  using Base = TestGroup<T>;
  Grp() : Base(g_armed ? g_spec[G].models : SingleThreaded | WorkerThreads | WorkerProcesses | ProcessPerTest) {
    if (!g_armed || !g_spec[G].exists) return;
    reg<0>(); reg<1>(); reg<2>(); reg<3>(); reg<4>(); reg<5>();
  }
  template <int I> void reg() { if (g_spec[G].t[I].exists) this->registerTestCase(&Grp::template test<I>, g_spec[G].t[I].name); }
  void setup() override {
    { Quiet q; ++B->groupSetups[G]; }
    if (g_spec[G].setupDies) die(g_spec[G].death);
    if (g_spec[G].setupFails) throw std::runtime_error("setup of group " + std::to_string(G));
  }
  void teardown() override {
    { Quiet q; ++B->groupTeardowns[G]; }
    int i = tl_test;
    if (i >= 0) { const Spec & s = g_spec[G].t[i]; if (s.behave == CRASH && s.where == IN_TEARDOWN) { tl_test = -1; die(s.death); } }
    tl_test = -1;
    if (g_spec[G].teardownFails) throw std::runtime_error("teardown of group " + std::to_string(G));
  }
  template <int I> void test() {
    const Spec & s = g_spec[G].t[I];
    { Quiet q; ++B->runs[G][I]; sim::note("test %d.%d runs in process %d", G, I, getpid()); }
    tl_test = I;
    if (s.work) sim::sleepNs(s.work);
    for (int k = 0; k < s.logs; ++k) this->logLine("log of test ", G, ".", I);
    if (s.behave == CRASH && s.where == IN_TEST) die(s.death);
    if (s.behave == IGNORED || s.behave == IGNORED_FAILS) this->ignore();
    if (s.behave == FAILS || s.behave == IGNORED_FAILS) ThrowBalauException(Exception::AssertionException, failText(G, I));
    if (s.behave == THROWS) throw std::runtime_error(failText(G, I));
    if (s.behave == THROWS_OTHER) throw 42;
    if (s.work2) sim::sleepNs(s.work2);
  }
};

struct GroupA : public Grp<0, GroupA> {};
struct GroupB : public Grp<1, GroupB> {};
struct GroupC : public Grp<2, GroupC> {};
struct GroupD : public Grp<3, GroupD> {};
std::string groupFile[NG]; const char * const groupNames[NG] = { "GroupA", "GroupB", "GroupC", "GroupD" };

// Writes to the board, in the order of the writes of all threads and processes.
struct BoardWriter : public TestWriter {
  void writeString(const std::string & s) override {
    sim::yield();
    Quiet q;
    if (B->nent >= 4000) sim::fail("output", "far too many writes");
    unsigned o = store(s); B->ent[B->nent++] = Entry { getpid(), sim::eventNo(), o, (unsigned) s.size() };
  }
  std::unique_ptr<TestWriter> clone() const override { return std::unique_ptr<TestWriter>(new BoardWriter()); }
};

struct NullWriter : public TestWriter {
  void writeString(const std::string &) override {}
  std::unique_ptr<TestWriter> clone() const override { return std::unique_ptr<TestWriter>(new NullWriter()); }
};

// A stream whose use must be serialised.
struct CheckedBuf : public std::streambuf {
  std::string text; int owner = -1;
  bool checked = false;
  void enter() { if (checked) sim::payloadWrite(this); sim::yield(); }
  int overflow(int c) override { enter(); Quiet q; text += (char) c; return c; }
  std::streamsize xsputn(const char * s, std::streamsize n) override { enter(); Quiet q; text.append(s, (size_t) n); return n; }
};

struct BoardReports : public Reporters::SurefireTestReportGenerator {
  bool disk = false;
  void generate(const TImpl::TestGroupBase & group, const std::chrono::nanoseconds & d, const std::vector<const TImpl::TestResult *> & results) override {
    record(group, results);
    if (disk) Reporters::SurefireTestReportGenerator::generate(group, d, results);
  }
  void record(const TImpl::TestGroupBase & group, const std::vector<const TImpl::TestResult *> & results) {
    Quiet q;
    std::string n = group.getGroupName(); int g = -1;
    for (int k = 0; k < NG; ++k) if (n.find(groupNames[k]) != std::string::npos) g = k;
    if (g < 0) sim::fail("report", "a report for an unknown group '%s'", n.c_str());
    groupFile[g] = n;
    if (++B->nreports[g] > 1) sim::fail("report", "group %d was reported twice", g);
    for (auto * r : results) {
      if (B->nresults[g] >= NT + 2) sim::fail("report", "too many results in the report of group %d", g);
      int t = -1; for (int i = 0; i < NT; ++i) { const std::string & tn = g_spec[g].t[i].name; if (g_spec[g].t[i].exists && r->testName.size() >= tn.size() + 2 && r->testName.compare(r->testName.size() - tn.size() - 2, std::string::npos, "::" + tn) == 0) t = i; }
      auto & x = B->results[g][B->nresults[g]++];
      x.test = t; x.result = (int) r->result; x.off = store(r->resultText); x.len = (unsigned) r->resultText.size();
    }
  }
};

// ---- reading a report: a strict parser of the XML that matters here
struct Element { std::string path; std::map<std::string, std::string> a; };
std::string xmlError(const std::string & x, std::vector<Element> & out) {
  for (size_t i = 0; i < x.size();) {
    unsigned char c = (unsigned char) x[i]; int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    if (!n || i + (size_t) n > x.size()) return "invalid UTF-8";
    if (c < 0x20 && c != '\n' && c != '\t' && c != '\r') return "a control character";
    for (int k = 1; k < n; ++k) if (((unsigned char) x[i + (size_t) k] & 0xc0) != 0x80) return "invalid UTF-8";
    i += (size_t) n;
  }
  std::vector<std::string> stack; bool root = false; size_t i = x.find("?>"); if (x.compare(0, 5, "<?xml") || i == std::string::npos) return "no XML declaration";
  for (i += 2; i < x.size();) {
    if (x[i] != '<') { if (!isspace((unsigned char) x[i])) return "text"; ++i; continue; }
    if (stack.empty() && root) return "more than one root";
    if (x[i + 1] == '/') { size_t e = x.find('>', i); if (e == std::string::npos || stack.empty() || x.substr(i + 2, e - i - 2) != stack.back()) return "wrong end tag"; stack.pop_back(); if (stack.empty()) root = true; i = e + 1; continue; }
    size_t p = i + 1; auto name = [&] { size_t b = p; while (p < x.size() && (isalnum((unsigned char) x[p]) || strchr("_-.:", x[p]))) ++p; return x.substr(b, p - b); };
    Element el; std::string n = name(); if (n.empty()) return "no element name";
    for (auto & t : stack) el.path += t + "/";
    el.path += n; bool single = false;
    for (;;) {
      bool space = false; while (p < x.size() && isspace((unsigned char) x[p])) { ++p; space = true; }
      if (p >= x.size()) return "the end in a tag";
      if (x[p] == '>') { ++p; break; }
      if (x[p] == '/' && p + 1 < x.size() && x[p + 1] == '>') { p += 2; single = true; break; }
      if (!space) return "no space before an attribute";
      std::string an = name(); if (an.empty() || x[p] != '=' || (x[p + 1] != '"' && x[p + 1] != '\'')) return "a malformed attribute";
      char quote = x[p + 1]; size_t e = x.find(quote, p + 2); if (e == std::string::npos) return "an unterminated attribute";
      std::string v;
      for (size_t k = p + 2; k < e;) {
        if (x[k] == '<') return "< in an attribute";
        if (x[k] != '&') { v += x[k++]; continue; }
        size_t sc = x.find(';', k); if (sc == std::string::npos || sc > e) return "an incomplete entity";
        std::string en = x.substr(k + 1, sc - k - 1); k = sc + 1;
        if (en == "lt") v += '<'; else if (en == "gt") v += '>'; else if (en == "amp") v += '&'; else if (en == "quot") v += '"'; else if (en == "apos") v += '\''; else if (en == "#10") v += '\n'; else return "an unknown entity";
      }
      if (!el.a.emplace(an, v).second) return "a repeated attribute";
      p = e + 1;
    }
    out.push_back(el); if (!single) stack.push_back(n); else if (stack.empty()) root = true;
    i = p;
  }
  return !stack.empty() || !root ? "the end is missing" : "";
}
// A text without everything that a report may have to replace.
std::string core(const std::string & s) { std::string o; for (unsigned char c : s) if (c > 0x20 && c < 0x7f && c != '?') o += (char) c; return o; }

void checkReport(int g, const std::string & file) {
  std::string x; bool there = false; { FILE * f = fopen(file.c_str(), "r"); char b[4096]; size_t n; there = f != nullptr; while (f && (n = fread(b, 1, sizeof b, f)) > 0) x.append(b, n); if (f) fclose(f); }
  if (!there) sim::fail("report-file", "there is no report of group %d", g);
  std::vector<Element> el; std::string e = xmlError(x, el);
  if (!e.empty()) sim::fail("report-file", "the report of group %d (%zu bytes) is not well-formed XML: %s", g, x.size(), e.c_str());
  if (el.empty() || el[0].path != "testsuite") sim::fail("report-file", "the report of group %d does not start with its suite", g);
  int counts[4] = { 0, 0, 0, 0 }; int at = -1;
  auto kind = [&] (int r) { return r == (int) TImpl::TestResult::Result::Success ? 0 : r == (int) TImpl::TestResult::Result::Failure ? 1 : r == (int) TImpl::TestResult::Result::Error ? 2 : 3; };
  static const char * const names[] = { "success", "failure", "error", "skipped" };
  std::vector<int> outcome;
  for (auto & l : el) {
    if (l.path == "testsuite/testcase") { ++at; outcome.push_back(0); if (at >= B->nresults[g]) sim::fail("report-file", "the report of group %d has more than %d tests", g, B->nresults[g]); auto & n = g_spec[g].t[B->results[g][at].test].name; auto & v = l.a["name"]; if (v.size() < n.size() + 2 || v.compare(v.size() - n.size() - 2, std::string::npos, "::" + n)) sim::fail("report-file", "test %d of the report of group %d has the name %s instead of %s", at, g, v.c_str(), n.c_str()); }
    for (int k = 1; k < 4; ++k) if (l.path == std::string("testsuite/testcase/") + names[k]) {
      if (outcome.back()) sim::fail("report-file", "test %d of the report of group %d has two outcomes", at, g);
      outcome.back() = k; auto & r = B->results[g][at]; std::string want(B->text + r.off, r.len);
      if (core(want) != core(l.a["message"])) sim::fail("report-file", "the message of test %d in the report of group %d is not that of the run", at, g);
      if (want.find("\xc3\xa9") != std::string::npos && l.a["message"].find("\xc3\xa9") == std::string::npos) sim::fail("report-file", "the message of test %d in the report of group %d lost its letters", at, g);
    }
  }
  if (at + 1 != B->nresults[g]) sim::fail("report-file", "the report of group %d has %d of %d tests", g, at + 1, B->nresults[g]);
  for (int k = 0; k <= at; ++k) { int want = kind(B->results[g][k].result); ++counts[want]; if (outcome[(size_t) k] != want) sim::fail("report-file", "test %d of the report of group %d is given as %s, the run has %s", k, g, names[outcome[(size_t) k]], names[want]); }
  auto num = [&] (const char * n) { auto & v = el[0].a[n]; return v.empty() ? -1 : atoi(v.c_str()); };
  if (num("tests") != at + 1 || num("failures") != counts[1] || num("errors") != counts[2] || num("skipped") != counts[3]) sim::fail("report-file", "the suite of group %d counts %d tests, %d failures, %d errors, %d skipped; there are %d, %d, %d, %d", g, num("tests"), num("failures"), num("errors"), num("skipped"), at + 1, counts[1], counts[2], counts[3]);
}

void scenario(bool crashes, bool disk = false) {
  sim::swarm();
  sim::tuning().maxStallNs = 5000000; sim::tuning().maxSteps = 3000000;
  if (sim::tuning().clockJump > 0 && sim::chance(0.5)) sim::tuning().clockJump = 0;
  B = (Board *) sim::shared(sizeof(Board));
  static const ExecutionModel models[] = { SingleThreaded, WorkerThreads, WorkerProcesses, ProcessPerTest };
  ExecutionModel model = models[crashes ? 2 + sim::rnd(2) : sim::rnd(4)];
  int conc = (int) sim::rndRange(1, 4);
  int ng = (int) sim::rndRange(1, NG), maxT = (int) sim::rndRange(1, NT);
  double slow = 0.2 * (double) sim::rnd(5), crashP = crashes ? 0.15 + 0.2 * (double) sim::rnd(4) : 0; bool big = sim::chance(0.4);
  bool process = model >= WorkerProcesses;
  static const Death quickDeaths[] = { D_SEGV, D_KILL };
  bool anyDeath = sim::chance(0.6);
  for (int g = 0; g < NG; ++g) {
    GroupSpec & G = g_spec[g]; G.exists = g < ng; if (!G.exists) continue;
    G.models = sim::chance(0.8) ? 15u : (unsigned) sim::rndRange(1, 15); G.setupFails = sim::chance(0.05); G.teardownFails = sim::chance(0.05);
    G.death = (Death) sim::rnd(D_COUNT); G.setupDies = crashes && sim::chance(0.08);
    for (int i = 0; i < NT; ++i) {
      Spec & s = G.t[i]; s.exists = i < maxT && sim::chance(0.9);
      s.name = std::string(sim::chance(0.3) ? "case" : "test") + std::to_string(i);
      s.behave = sim::chance(0.5) ? PASS : (Behave) sim::rnd(CRASH); s.where = IN_TEST; s.death = D_SEGV;
      if (sim::chance(crashP)) { s.behave = CRASH; s.where = sim::chance(0.8) ? IN_TEST : IN_TEARDOWN; s.death = anyDeath ? (Death) sim::rnd(D_COUNT) : quickDeaths[sim::rnd(2)]; }
      s.work = sim::chance(slow) ? (int64_t) sim::rnd(300) * 1000000 : 0; s.work2 = sim::chance(slow) ? (int64_t) sim::rnd(30) * 1000000 : 0;
      s.text = big && sim::chance(0.3) ? (size_t) sim::rnd(9000) : (size_t) sim::rnd(60); s.logs = sim::chance(0.2) ? (int) sim::rnd(3) : 0;
      if (!sim::keepOp()) s.exists = false;
    }
  }
  // selection
  std::vector<std::string> globs; std::function<bool (int, int)> selected = [] (int, int) { return true; };
  int sel = sim::chance(0.4) ? (int) sim::rndRange(1, 4) : 0, sg = (int) sim::rnd(NG), st = (int) sim::rnd(NT);
  auto full = [&] (int g, int i) { return groupNames[g] + ("::" + g_spec[g].t[i].name); };
  if (sel == 1) { globs = { "*::test*" }; selected = [] (int g, int i) { return g_spec[g].t[i].name.compare(0, 4, "test") == 0; }; }
  if (sel == 2) { globs = { "*::????" + std::to_string(st) }; selected = [st] (int, int i) { return i == st; }; }
  if (sel == 3) { globs = { std::string("*") + groupNames[sg] + "::*", "*::*" + std::to_string(st) }; selected = [sg, st] (int g, int i) { return g == sg || i == st; }; }
  if (sel == 4) { globs = { "*::nothing" }; selected = [] (int, int) { return false; }; }
  bool noReports = sim::chance(0.15); int out = (int) sim::rnd(4); // 0 board, 1 board + stream, 2 board + file, 3 board + standard output
  (void) full;
  bool faulty = false;
  if (disk) { noReports = false; out &= 1; faulty = sim::chance(0.4); g_special = sim::chance(0.5) ? 14 : 9; }
  g_armed = true;
  GroupA g0; GroupB g1; GroupC g2; GroupD g3;
  static CheckedBuf sbuf; static std::ostream stream(&sbuf); sbuf.checked = !process;
  static struct Null : public std::streambuf { int overflow(int c) override { return c; } } nothing;
  if (out != 3) std::cout.rdbuf(&nothing);
  else { Quiet q; fflush(stdout); int fd = open("s/out.txt", O_WRONLY | O_CREAT | O_TRUNC, 0666); dup2(fd, 1); close(fd); }
  std::set_terminate(abort);
  std::vector<std::string> args { "-e", toString(model), "-c", std::to_string(conc) };
  if (disk) { args.push_back("-r"); args.push_back("/proc/self/cwd/s/reports"); if (sim::chance(0.5)) { Quiet q; mkdir("s/reports", 0777); } }
  for (auto & x : globs) args.push_back(x);
  std::vector<char *> argv; for (auto & a : args) argv.push_back(&a[0]);
  std::shared_ptr<TImpl::TestReportGenerator> reports; if (!noReports) { auto * r = new BoardReports(); r->disk = disk; reports.reset(r); }
  int parent = getpid(), status = -1; int64_t t0 = sim::mono();
  std::string file = "s/out.txt";
  if (disk) {
    Quiet q; auto & f = sim::ioFaults();
    if (sim::chance(0.5)) { f.shortWrite = 0.3; f.eintr = 0.05; }
    double p = sim::chance(0.5) ? 0.02 : 0.3; int k = (int) sim::rnd(3);
    if (faulty) (k == 0 ? f.openFail : k == 1 ? f.writeErr : f.enospc) = p;
  }
  if (disk) {
    HL_TRY(if (out == 0) status = TestRunner::run((int) argv.size(), argv.data(), false, reports, BoardWriter()); else status = TestRunner::run((int) argv.size(), argv.data(), false, reports, BoardWriter(), OStreamTestWriter(stream)), "the test run")
    Quiet q; sim::ioFaults() = sim::IoFaults();
  }
  else HL_TRY(
    if (out == 0) status = TestRunner::run((int) argv.size(), argv.data(), false, reports, BoardWriter());
    else if (out == 1) status = TestRunner::run((int) argv.size(), argv.data(), false, reports, BoardWriter(), OStreamTestWriter(stream));
    else if (out == 3) status = TestRunner::run((int) argv.size(), argv.data(), false, reports, BoardWriter(), StdOutTestWriter());
    else status = TestRunner::run((int) argv.size(), argv.data(), false, reports, BoardWriter(), FileTestWriter(Balau::Resource::File(file)));
  , "the test run")
  if (out == 2) { // a further run without tests replaces (and closes) the writers
    std::vector<std::string> a2 { "-e", "SingleThreaded", "nothing::nothing" }; std::vector<char *> v2; for (auto & a : a2) v2.push_back(&a[0]);
    HL_TRY(TestRunner::run((int) v2.size(), v2.data(), false, reports, NullWriter()), "an empty test run")
  }
  int64_t took = sim::mono() - t0, stalled = sim::stallTime();
  while (getpid() == parent && waitpid(-1, nullptr, 0) > 0) ; // worker processes may outlive the run by a moment
  if (sim::mono() - t0 - took > 3000000000ll + 2 * (sim::stallTime() - stalled)) sim::fail("no-progress", "worker processes went on for %.3f s after the run", (double) (sim::mono() - t0 - took) / 1e9);
  Quiet q;
  if (out == 3) { std::cout.flush(); fflush(stdout); }
  if (getpid() != parent) sim::fail("child-returned", "a child process returned from the test run");
  int64_t bound = 5000000000ll;
  for (int g = 0; g < ng; ++g) for (int i = 0; i < NT; ++i) bound += g_spec[g].t[i].work + g_spec[g].t[i].work2 + 1000000000ll;
  if (took > bound + 2 * stalled) sim::fail("no-progress", "the run took %.3f s", (double) took / 1e9);
  // the text written by the parent
  std::string text, all;
  for (unsigned i = 0; i < B->nent; ++i) { std::string s(B->text + B->ent[i].off, B->ent[i].len); all += s; if (B->ent[i].proc == parent) text += s; }
  enum { SUCCESS, FAILURE, ERROR, IGNORE };
  int counts[4] = { 0, 0, 0, 0 }, total = 0, crashed = 0, groupsRun = 0, unwritten = 0; size_t lastPos = 0; std::vector<std::pair<size_t, std::pair<int, int>>> where;
  for (int g = 0; g < ng; ++g) {
    bool any = false; int wantSetups = 0, minTeardowns = 0;
    for (int i = 0; i < NT; ++i) {
      const Spec & s = g_spec[g].t[i];
      bool sel_ = s.exists && selected(g, i), enabled = g_spec[g].models & model, run = sel_ && enabled;
      int want = run && !g_spec[g].setupFails && !g_spec[g].setupDies ? 1 : 0;
      if (B->runs[g][i] != want) sim::fail("runs", "test %d.%d (%s, %s) was run %d times", g, i, sel_ ? "selected" : "not selected", enabled ? "enabled" : "not enabled", B->runs[g][i]);
      if (!sel_) continue;
      any = true; ++total; if (run) { ++wantSetups; if (!g_spec[g].setupDies && (!want || s.behave != CRASH || s.where != IN_TEST)) ++minTeardowns; }
      int expected;
      bool td = g_spec[g].teardownFails;
      if (!enabled) expected = IGNORE;
      else if (g_spec[g].setupFails || g_spec[g].setupDies) expected = ERROR;
      else switch (s.behave) {
        case PASS: expected = td ? ERROR : SUCCESS; break;
        case FAILS: case IGNORED_FAILS: expected = td ? ERROR : FAILURE; break;
        case IGNORED: expected = td ? ERROR : IGNORE; break;
        default: expected = ERROR;
      }
      bool died = run && (g_spec[g].setupDies || (want && s.behave == CRASH)); if (died) ++crashed;
      ++counts[expected];
      if (!noReports) {
        int found = 0;
        for (int k = 0; k < B->nresults[g]; ++k) if (B->results[g][k].test == i) {
          ++found; auto & r = B->results[g][k];
          int got = r.result == (int) TImpl::TestResult::Result::Success ? SUCCESS : r.result == (int) TImpl::TestResult::Result::Failure ? FAILURE : r.result == (int) TImpl::TestResult::Result::Error ? ERROR : IGNORE;
          static const char * const names[] = { "success", "failure", "error", "ignored" };
          if (got != expected) sim::fail("wrong-result", "test %d.%d has result %s, it should be %s", g, i, names[got], names[expected]);
          std::string rt(B->text + r.off, r.len);
          if (run && !died && !g_spec[g].setupFails && (s.behave == FAILS || s.behave == THROWS || s.behave == IGNORED_FAILS) && rt.find(failText(g, i)) == std::string::npos) sim::fail("output", "the result text of test %d.%d does not have the reason of its failure", g, i);
          if (run) {
            size_t p = text.find(rt);
            if (rt.empty() || p == std::string::npos) sim::fail("output", "the result text of test %d.%d is not printed whole", g, i);
            if (rt.size() > 20 && text.find(rt, p + 1) != std::string::npos) sim::fail("output", "the result of test %d.%d is printed twice", g, i);
            where.push_back({ p, { g, i } });
          }
        }
        if (found != 1) sim::fail("results", "test %d.%d has %d results in the report", g, i, found);
      }
      if (run && want && (s.behave == FAILS || s.behave == THROWS || s.behave == IGNORED_FAILS)) {
        std::string ft = failText(g, i); size_t p = text.find(ft);
        if (p == std::string::npos) sim::fail("output", "the reason of the failure of test %d.%d is not printed whole", g, i);
        if (text.find(ft, p + 1) != std::string::npos) sim::fail("output", "the reason of the failure of test %d.%d is printed twice", g, i);
      }
      if (run) {
        // exactly one result line in the output (names also appear in the list of failures, at the start of a line's text)
        std::string line = "::" + s.name + " "; size_t n = 0;
        std::string fullName = full(g, i) + " ";
        for (size_t p = text.find(fullName); p != std::string::npos; p = text.find(fullName, p + 1)) ++n;
        if (n != 1) sim::fail("output", "the output has %zu result lines for test %d.%d", n, g, i);
      }
    }
    if (B->groupSetups[g] != wantSetups) sim::fail("runs", "%d setups for %d tests of group %d", B->groupSetups[g], wantSetups, g);
    if (B->groupTeardowns[g] != minTeardowns) sim::fail("runs", "%d teardowns for group %d, %d expected", B->groupTeardowns[g], g, minTeardowns);
    if (!noReports && B->nreports[g] != (any ? 1 : 0)) sim::fail("report", "group %d has %d reports", g, B->nreports[g]);
    if (any) ++groupsRun;
    std::string failed = std::string("Failed to write the test report of group ") + groupFile[g];
    if (disk && any && text.find(failed) != std::string::npos) { if (!sim::fired(sim::F_OPENFAIL) && !sim::fired(sim::F_WRITEERR) && !sim::fired(sim::F_ENOSPC)) sim::fail("report-file", "the report of group %d is not written although the disk works", g); ++unwritten; sim::probe("a report could not be written"); }
    else if (disk && any) checkReport(g, std::string("s/reports/TEST-") + groupFile[g] + ".xml");
    // tests of one group are printed in their order, and not mixed with other groups
    (void) lastPos;
  }
  std::sort(where.begin(), where.end());
  { std::set<int> seen; int cur = -1, last = -1;
    for (auto & w : where) { int g = w.second.first, i = w.second.second; if (g != cur) { if (!seen.insert(g).second) sim::fail("order", "the results of group %d are not together", g); cur = g; last = -1; } if (i < last) sim::fail("order", "the result of test %d.%d is printed after a later one", g, i); last = i; } }
  int expectedStatus = counts[FAILURE] + counts[ERROR] ? 1 : 0;
  if (unwritten && status == 1 && !expectedStatus) status = 0; else if (unwritten && status == 0) sim::fail("status", "the run returned 0 although %d reports could not be written", unwritten);
  if (status != expectedStatus) sim::fail("status", "the run returned %d, there were %d failures and %d errors", status, counts[FAILURE], counts[ERROR]);
  auto number = [&] (const char * label) { size_t p = text.rfind(label); if (p == std::string::npos) return -1; return atoi(text.c_str() + p + strlen(label)); };
  if (number("tests passed:") != counts[SUCCESS] || number("tests ignored:") != counts[IGNORE]) sim::fail("counts", "the summary gives %d passed and %d ignored, there were %d and %d", number("tests passed:"), number("tests ignored:"), counts[SUCCESS], counts[IGNORE]);
  if (expectedStatus && (number("tests failed:") != counts[FAILURE] || number("tests errored:") != counts[ERROR])) sim::fail("counts", "the summary gives %d failed and %d errors, there were %d and %d", number("tests failed:"), number("tests errored:"), counts[FAILURE], counts[ERROR]);
  if (out >= 2) {
    std::string got; { FILE * f = fopen("s/out.txt", "r"); char b[4096]; size_t n; while (f && (n = fread(b, 1, sizeof b, f)) > 0) got.append(b, n); if (f) fclose(f); }
    std::string banner; size_t extra = 0;
    if (out == 3) { size_t p = got.find("Running tests for command line"); extra = p == std::string::npos ? 0 : got.find_first_not_of("\n", got.find('\n', p)) ; }
    (void) banner;
    const char * what = out == 3 ? "standard output" : "the output file";
    for (unsigned i = 0; i < B->nent; ++i) if (got.find(std::string(B->text + B->ent[i].off, B->ent[i].len)) == std::string::npos) sim::fail("output", "a text of %u bytes of process %d is not whole in %s: %.60s", B->ent[i].len, B->ent[i].proc, what, std::string(B->text + B->ent[i].off, B->ent[i].len).c_str());
    if (out == 2 ? got.size() != all.size() : got.size() > all.size() + extra + 2) sim::fail("output", "%s has %zu bytes, %zu were written", what, got.size(), all.size());
  }
  if (out == 1 && !process) {
    if (sbuf.text.size() != all.size()) sim::fail("output", "the stream writer has %zu bytes, %zu were written", sbuf.text.size(), all.size());
    for (unsigned i = 0; i < B->nent; ++i) if (sbuf.text.find(std::string(B->text + B->ent[i].off, B->ent[i].len)) == std::string::npos) sim::fail("output", "a text is not whole in the stream");
  }
  if (crashes ? crashed > 0 && total > 1 : total > 1) sim::nontrivial();
  if (crashed > 1) sim::probe("several crashes in one run");
  sim::probe(model == SingleThreaded ? "single threaded" : model == WorkerThreads ? "worker threads" : model == WorkerProcesses ? "worker processes" : "process per test");
}
} // namespace

SIM_SCENARIO(T01, models, 1, "test runs of up to 24 tests in 4 groups in every execution model with 1-4 workers: passing, failing, throwing, ignored tests, failing setups and teardowns, long texts, selections; non-trivial: more than one test selected") { scenario(false); }
SIM_SCENARIO(T02, crashes, 1, "multi-process test runs in which tests die by signals, aborts and exits in their body, setup or teardown; non-trivial: a test died and there were others") { scenario(true); }
SIM_SCENARIO(T03, reports, 1, "test runs in every execution model that write Surefire reports, with messages of all kinds of characters, short, interrupted and failing disk operations and full disks; non-trivial: more than one test selected") { scenario(sim::chance(0.3), true); }
