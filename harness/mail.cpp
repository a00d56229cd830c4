// H02: e-mails sent through a simulated network.
#include <csignal>
#include <cstring>
#include <functional>
#include <map>
#include <vector>
#include <Balau/Logging/Logger.hpp>
#include <Balau/Logging/Impl/LoggingStreams.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.hpp>
#include "../sim/hlib.h"
#include "../sim/net.h"
#include "tlspeer.h"

using namespace Balau;
using sim::Quiet;
namespace net = sim::net;
using Balau::Network::Http::HttpWebApps::Impl::CurlEmailSender;

namespace {

const int64_t SEC = 1000000000ll;

// ---- the log: an e-mail that is not delivered is reported there -------------------------------------------------
int g_errors[sim::MAXT];
class MemStream : public LoggingStream {
  public: void write(const LoggingSystem::LoggerString & s) override {
    sim::yield(); Quiet q;
    if (s.compare(0, 5, "ERROR") == 0) { ++g_errors[sim::self()]; sim::note("logged: %.*s", (int) std::min(s.size(), (size_t) 160), s.c_str()); }
  }
  public: void flush() override {}
};
LoggingStream * memFactory(std::string_view) { return new MemStream; }

// ---- one mail server ------------------------------------------------------------------------------------------------
enum Stage { GREETING, EHLO, AUTH, MAIL, RCPT, DATA, BODY, STAGES };
const char * const stageNames[] = { "greeting", "EHLO", "AUTH", "MAIL", "RCPT", "DATA", "message" };
struct Mail { std::string from, to, subject, body; std::vector<std::string> cc; };
struct Message { std::string user, pw, from, data; std::vector<std::string> to; bool answered = false; int64_t at = 0; };
struct Site {
  int port = 0, cert = 0; bool verify = false; net::ConnectKind kind = net::ACCEPT; int64_t connectDelay = 0;
  std::string user, pw, agent; Mail mail; // one e-mail per server
  bool plain = true, login = true, saslIr = false, enhanced = false; int banner = 1;
  std::vector<int64_t> delays; std::vector<size_t> cuts;
  // fault: at the answer of this stage the server refuses, closes, resets, or says no more; in the middle of the answer
  int fault = 0, at = 0, code = 550, rcpt = 0; double part = 0; int sendLimit = -1; int64_t late = 0;
  // outcome
  std::vector<Message> accepted; bool secret = false; int connections = 0;
};
std::vector<Site> * g_sites;

std::string base64(const std::string & s) { static const char * a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; size_t i = 0; for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char) s[i] << 16 | (unsigned char) s[i + 1] << 8 | (unsigned char) s[i + 2]; o += a[v >> 18]; o += a[v >> 12 & 63]; o += a[v >> 6 & 63]; o += a[v & 63]; } if (i + 1 == s.size()) { unsigned v = (unsigned char) s[i] << 16; o += a[v >> 18]; o += a[v >> 12 & 63]; o += "=="; } else if (i + 2 == s.size()) { unsigned v = (unsigned char) s[i] << 16 | (unsigned char) s[i + 1] << 8; o += a[v >> 18]; o += a[v >> 12 & 63]; o += a[v >> 6 & 63]; o += '='; } return o; }

struct Server : net::Peer {
  struct Link {
    Site * site = nullptr; SSL * ssl = nullptr; BIO * in = nullptr, * out = nullptr; size_t fed = 0; std::string text; bool greeted = false, dead = false, inData = false, authed = false;
    int answers = 0, rcpts = 0, auth = 0; Message m;
  };
  std::map<int, Link> links;
  int resolve(const std::string & host, int) override { sim::fail("wrong-server", "the client asks for the name %s", host.c_str()); }
  net::ConnectKind onConnect(net::Conn & c, int64_t & delay) override {
    if (c.address != 0) sim::fail("wrong-server", "the client connects to another address");
    for (auto & s : *g_sites) if (s.port == c.port) { links[c.id].site = &s; delay = s.connectDelay; if (s.kind == net::ACCEPT || s.kind == net::ACCEPT_LATER) { ++s.connections; c.resetSends(s.sendLimit); } return s.kind; }
    sim::fail("wrong-server", "the client connects to port %d", c.port);
  }
  void flush(net::Conn & c, Link & l, bool answer, bool cutHere) {
    std::string o; char b[4096]; int n; while ((n = BIO_read(l.out, b, sizeof b)) > 0) o.append(b, (size_t) n);
    Site & s = *l.site; size_t end = cutHere ? (size_t) (s.part * (double) o.size()) : o.size(), at = 0;
    for (int i = 0; at < end; ++i) { size_t k = s.cuts.empty() || !answer ? end - at : std::min(s.cuts[(size_t) (l.answers + i) % s.cuts.size()], end - at); int64_t d = s.delays.empty() ? 0 : s.delays[(size_t) (l.answers + i) % s.delays.size()]; c.send(d, o.substr(at, k)); at += k; }
    if (cutHere) { l.dead = true; if (s.fault == 2) c.end(net::FIN, 0); if (s.fault == 3) c.end(net::RST, 0); }
  }
  void answer(net::Conn & c, Link & l, Stage st, const std::string & text, bool last = true) {
    Site & s = *l.site; std::string t = text; bool here = s.at == st && (st != RCPT || s.rcpt == l.rcpts);
    if (here && s.fault == 1) { t = std::to_string(s.code) + " no\r\n"; l.dead = st == GREETING || s.code == 421; }
    SSL_write(l.ssl, t.data(), (int) t.size()); ++l.answers; (void) last;
    if (here && s.fault == 5) c.send(s.late, std::string());
    flush(c, l, true, here && s.fault >= 2 && s.fault <= 4);
  }
  bool refused(Link & l, Stage st) { Site & s = *l.site; return s.fault == 1 && s.at == st && (st != RCPT || s.rcpt == l.rcpts); }
  void onData(net::Conn & c) override {
    Link & l = links[c.id]; Site & s = *l.site;
    if (!l.ssl) { l.ssl = SSL_new(g_ctx[s.cert]); l.in = BIO_new(BIO_s_mem()); l.out = BIO_new(BIO_s_mem()); SSL_set_bio(l.ssl, l.in, l.out); SSL_set_accept_state(l.ssl); }
    BIO_write(l.in, c.received.data() + l.fed, (int) (c.received.size() - l.fed)); l.fed = c.received.size();
    if (!SSL_is_init_finished(l.ssl)) SSL_do_handshake(l.ssl);
    ERR_clear_error();
    char b[4096]; int n; while ((n = SSL_read(l.ssl, b, sizeof b)) > 0) l.text.append(b, (size_t) n);
    ERR_clear_error();
    if (l.dead) return;
    flush(c, l, false, false);
    if (SSL_is_init_finished(l.ssl) && !l.greeted) { l.greeted = true; answer(c, l, GREETING, s.banner == 1 ? "220 mail.example ESMTP\r\n" : "220-mail.example ESMTP\r\n220-a\r\n220 ready\r\n"); }
    while (!l.dead) {
      if (l.inData) {
        size_t e = l.text.find("\r\n.\r\n"); if (e == std::string::npos) return;
        std::string raw = l.text.substr(0, e + 2), d; l.text.erase(0, e + 5); l.inData = false;
        for (size_t p = 0; p < raw.size();) { size_t q = raw.find("\r\n", p); std::string line = raw.substr(p, q - p); p = q + 2; if (!line.empty() && line[0] == '.') line.erase(0, 1); d += line + "\r\n"; }
        l.m.data = d; l.m.at = sim::wall();
        if (!refused(l, BODY)) { Message m = l.m; m.answered = !(s.at == BODY && s.fault >= 2 && s.fault <= 4); s.accepted.push_back(m); sim::note("server %d: accepts a message of %zu bytes", s.port, d.size()); check(s, s.accepted.back()); }
        answer(c, l, BODY, "250 accepted\r\n"); continue;
      }
      size_t e = l.text.find("\r\n"); if (e == std::string::npos) return;
      std::string line = l.text.substr(0, e); l.text.erase(0, e + 2); command(c, l, line);
    }
  }
  void command(net::Conn & c, Link & l, const std::string & line) {
    Site & s = *l.site; sim::note("server %d: %.60s", s.port, line.c_str());
    auto is = [&] (const char * w) { return strncasecmp(line.c_str(), w, strlen(w)) == 0; };
    if (l.auth) {
      s.secret = true;
      if (l.auth == 1) { l.auth = 0; finishAuth(c, l, line, true); }
      else if (l.auth == 2) { l.m.user = line; l.auth = 3; reply(c, l, "334 UGFzc3dvcmQ6\r\n"); }
      else { l.auth = 0; std::string u = l.m.user; finishAuth(c, l, u == base64(s.user) && line == base64(s.pw) ? base64(std::string(1, 0) + s.user + std::string(1, 0) + s.pw) : "", true); }
    }
    else if (is("EHLO ") || is("HELO ")) { std::string a = s.plain && s.login ? "PLAIN LOGIN" : s.plain ? "PLAIN" : "LOGIN"; answer(c, l, EHLO, "250-mail.example\r\n250-SIZE 100000000\r\n" + std::string(s.enhanced ? "250-ENHANCEDSTATUSCODES\r\n250-8BITMIME\r\n" : "") + "250 AUTH " + a + "\r\n"); }
    else if (is("AUTH PLAIN ")) { s.secret = true; finishAuth(c, l, line.substr(11), false); }
    else if (is("AUTH PLAIN")) { l.auth = 1; reply(c, l, "334 \r\n"); }
    else if (is("AUTH LOGIN")) { l.auth = 2; reply(c, l, "334 VXNlcm5hbWU6\r\n"); }
    else if (is("MAIL FROM:")) {
      if (!l.authed) sim::fail("wrong-dialogue", "the sender does not authenticate before it submits the e-mail");
      size_t e = line.find('>'); if (line[10] != '<' || e == std::string::npos) sim::fail("wrong-dialogue", "the sender says %s", line.c_str());
      l.m.from = line.substr(11, e - 11); answer(c, l, MAIL, "250 ok\r\n");
    }
    else if (is("RCPT TO:")) {
      size_t e = line.find('>'); if (line[8] != '<' || e == std::string::npos) sim::fail("wrong-dialogue", "the sender says %s", line.c_str());
      bool no = refused(l, RCPT); if (!no) l.m.to.push_back(line.substr(9, e - 9));
      answer(c, l, RCPT, "250 ok\r\n"); ++l.rcpts;
    }
    else if (is("DATA")) { bool no = refused(l, DATA) || l.m.to.empty(); answer(c, l, DATA, no ? "554 no\r\n" : "354 go on\r\n"); l.inData = !no; }
    else if (is("QUIT")) { reply(c, l, "221 bye\r\n"); l.dead = true; c.end(net::FIN, 0); }
    else if (is("RSET") || is("NOOP")) reply(c, l, "250 ok\r\n");
    else { if (l.authed || line != "*") sim::fail("wrong-dialogue", "the sender says %.100s", line.c_str()); reply(c, l, "501 cancelled\r\n"); }
  }
  void reply(net::Conn & c, Link & l, const std::string & t) { SSL_write(l.ssl, t.data(), (int) t.size()); ++l.answers; flush(c, l, true, false); }
  void finishAuth(net::Conn & c, Link & l, const std::string & cred, bool) {
    Site & s = *l.site;
    if (cred != base64(std::string(1, 0) + s.user + std::string(1, 0) + s.pw)) sim::fail("wrong-credentials", "the sender does not authenticate as %s", s.user.c_str());
    l.authed = !refused(l, AUTH); answer(c, l, AUTH, "235 ok\r\n");
  }
  // An accepted message is the e-mail that was given to the sender.
  static void check(const Site & s, const Message & m) {
    const Mail & x = s.mail;
    if (s.accepted.size() > 1) sim::fail("duplicate-mail", "the server has accepted the e-mail %zu times", s.accepted.size());
    if (m.from != x.from) sim::fail("wrong-mail", "the sender of the message is <%s>, not <%s>", m.from.c_str(), x.from.c_str());
    std::vector<std::string> to { x.to }; to.insert(to.end(), x.cc.begin(), x.cc.end());
    if (m.to != to) sim::fail("wrong-mail", "the message is for %zu recipients, the e-mail has %zu (or they are others)", m.to.size(), to.size());
    size_t e = m.data.find("\r\n\r\n"); if (e == std::string::npos) sim::fail("wrong-mail", "the message has no empty line between its header and its body");
    std::string head = m.data.substr(0, e + 2), body = m.data.substr(e + 4);
    std::map<std::string, std::vector<std::string>> h;
    for (size_t a = 0; a < head.size();) { size_t b = head.find("\r\n", a); std::string line = head.substr(a, b - a); a = b + 2; size_t k = line.find(": "); if (k == std::string::npos) sim::fail("wrong-mail", "the message has the header line %.80s", line.c_str()); h[line.substr(0, k)].push_back(line.substr(k + 2)); }
    auto one = [&] (const char * n, const std::string & v) { if (h[n].size() != 1 || h[n][0] != v) sim::fail("wrong-mail", "the message has %zu header lines %s%s%.100s", h[n].size(), n, h[n].empty() ? "" : ", the first is ", h[n].empty() ? "" : h[n][0].c_str()); };
    one("From", x.from); one("To", x.to); one("Subject", x.subject);
    if (s.agent.empty() ? !h["User-Agent"].empty() : (h["User-Agent"].size() != 1 || h["User-Agent"][0] != s.agent)) sim::fail("wrong-mail", "the header line User-Agent is missing or wrong");
    std::string cc, want; for (auto & v : h["Cc"]) cc += (cc.empty() ? "" : ", ") + v; for (auto & v : x.cc) want += (want.empty() ? "" : ", ") + v;
    if (cc != want) sim::fail("wrong-mail", "the header names the recipients of copies '%.100s'", cc.c_str());
    if (h["Date"].size() != 1 || h["Message-ID"].size() != 1) sim::fail("wrong-mail", "the message has %zu dates and %zu identifiers", h["Date"].size(), h["Message-ID"].size());
    for (auto & o : *g_sites) if (&o != &s) for (auto & p : o.accepted) if (p.data.find("Message-ID: " + h["Message-ID"][0]) != std::string::npos) sim::fail("wrong-mail", "two e-mails have the identifier %s", h["Message-ID"][0].c_str());
    struct tm t {}; const char * r = strptime(h["Date"][0].c_str(), "%a, %d %b %Y %H:%M:%S", &t);
    if (!r || strcmp(r, " +0000")) sim::fail("wrong-mail", "the date of the message is %s", h["Date"][0].c_str());
    if (std::abs((int64_t) timegm(&t) - m.at / SEC) > 4000) sim::fail("wrong-mail", "the message is dated %s, %ld s from now", h["Date"][0].c_str(), (long) (timegm(&t) - m.at / SEC));
    if (body != x.body + "\r\n") { size_t k = 0; while (k < body.size() && k < x.body.size() && body[k] == x.body[k]) ++k; sim::fail("wrong-mail", "the body of the message (%zu bytes) differs from the e-mail (%zu bytes) from byte %zu on", body.size(), x.body.size() + 2, k); }
  }
};

std::string address(int i) { static const char * const a[] = { "a@b.example", "first.last@sub.domain.example", "x+tag@y.example", "o'neil@z.example", "1@2.example" }; return std::string(a[sim::rnd(5)]).insert(0, i ? std::string(1, (char) ('a' + i)) : ""); }
std::string words(size_t n) { std::string o; while (o.size() < n) o += (char) (sim::chance(0.15) ? ' ' : 33 + sim::rnd(94)); return o; }

Site generate(int i, bool faults) {
  Site s; s.port = 1000 + i * 3 + (int) sim::rnd(3);
  static const char * const names[] = { "user", "user@host.example", "u", "some one" };
  s.user = names[sim::rnd(4)]; s.pw = words(1 + (size_t) sim::rnd(sim::chance(0.1) ? 200 : 20)); s.agent = sim::chance(0.5) ? "" : "agent/1.0";
  s.mail.from = address(0); s.mail.to = address(1); for (int k = (int) sim::rnd(4); k > 0; --k) s.mail.cc.push_back(address(k + 1));
  s.mail.subject = words((size_t) sim::rnd(60)); while (!s.mail.subject.empty() && s.mail.subject[0] == ' ') s.mail.subject.erase(0, 1);
  size_t n = sim::chance(0.3) ? (size_t) sim::rnd(200000) : sim::chance(0.5) ? (size_t) sim::rnd(70000) : (size_t) sim::rnd(3000);
  bool dots = sim::chance(0.3); uint64_t x = sim::rnd();
  while (s.mail.body.size() < n) { x = x * 6364136223846793005ull + 1442695040888963407ull; unsigned v = (unsigned) (x >> 33); if (v % 40 == 0) { s.mail.body += "\r\n"; if (dots && v % 3 == 0) s.mail.body += '.'; } else s.mail.body += (char) (v % 41 == 0 ? 0x80 + v / 41 % 128 : 32 + v / 41 % 95); }
  if (sim::chance(0.2)) { // the message ends near the end of a buffer
    size_t head = strlen("Date: Sat, 29 Feb 2020 00:00:00 +0000\r\nFrom: \r\nTo: \r\nMessage-ID: <00000000-0000-0000-0000-000000000000@10.0.0.1>\r\nSubject: \r\n\r\n\r\n") + (s.agent.empty() ? 0 : s.agent.size() + 14) + s.mail.from.size() + s.mail.to.size() + s.mail.subject.size();
    for (auto & c : s.mail.cc) head += c.size() + 6;
    size_t want = 16384 * (size_t) sim::rndRange(1, 8) + (size_t) sim::rnd(4), have = head + s.mail.body.size(); want -= 1;
    if (have > want) s.mail.body.resize(want > head ? want - head : 0); else s.mail.body.append(want - have, 'e');
    if (!s.mail.body.empty() && s.mail.body.back() == '\r') s.mail.body.back() = 'e';
  }
  s.plain = sim::chance(0.7); s.login = !s.plain || sim::chance(0.5); s.enhanced = sim::chance(0.5); s.banner = sim::chance(0.7);
  s.verify = sim::chance(0.5); s.cert = sim::chance(0.75) ? 0 : (int) sim::rndRange(1, 4);
  for (int k = (int) sim::rnd(6); k > 0; --k) s.delays.push_back(sim::chance(0.5) ? 0 : (int64_t) sim::rnd(sim::chance(0.5) ? 5000000 : 2 * SEC));
  for (int k = (int) sim::rnd(4); k > 0; --k) s.cuts.push_back(1 + (size_t) sim::rnd(80));
  s.kind = sim::chance(0.5) ? net::ACCEPT : net::ACCEPT_LATER; s.connectDelay = (int64_t) sim::rnd(SEC);
  int kind = faults ? (int) sim::rnd(9) : 0, at = (int) sim::rnd(STAGES), code = (int) sim::rnd(4), rc = (int) sim::rnd(4), lim = (int) sim::rnd(sim::chance(0.5) ? 3000 : 80000); double part = (double) sim::rnd(100) / 100; int64_t late = 100 * SEC + (int64_t) sim::rnd(60 * SEC); bool keep = sim::keepOp();
  static const int codes[] = { 550, 421, 451, 530 };
  if (kind && keep) {
    if (kind <= 5) { s.fault = kind; s.at = at; s.code = codes[code]; s.rcpt = rc % (int) (1 + s.mail.cc.size()); s.part = part; s.late = late; }
    else if (kind == 6) s.sendLimit = lim;
    else if (kind == 7) s.kind = code & 1 ? net::REFUSE : net::REFUSE_LATER;
    else s.kind = code & 1 ? net::SILENT : s.kind;
  }
  return s;
}

void verdict(const Site & s, int errors) {
  bool trusted = !s.verify || s.cert == 0;
  if (errors > 1) sim::fail("repeated-report", "%d errors were logged for one e-mail", errors);
  if (!trusted && (s.secret || !s.accepted.empty())) sim::fail("untrusted", "credentials were sent although the certificate of the server is: %s", certNames[s.cert]);
  if (!errors) {
    if (s.accepted.empty()) sim::fail("lost-mail", "no error was logged, but the server has not accepted the e-mail");
    if (!s.accepted[0].answered) sim::fail("lost-mail", "no error was logged, but the server has not confirmed that it accepts the e-mail");
    sim::probe("the e-mail was delivered"); return;
  }
  sim::probe("an error was logged");
  bool accepts = s.kind == net::ACCEPT || s.kind == net::ACCEPT_LATER;
  if (accepts && trusted && !s.fault && s.sendLimit < 0) sim::fail("spurious-error", "an error was logged although the server behaved correctly%s", s.accepted.empty() ? "" : " and accepted the e-mail");
}

} // namespace

SIM_SCENARIO(H02, mail, 1, "1-3 threads send 1-6 e-mails of up to 200 kB, each to a server of its own (a stand-in with a real OpenSSL server, certificates that are good, of another host, of an unknown authority, expired or not yet valid); servers refuse, close, reset or stall at a stage of the dialogue, connections are refused or ignored, answers arrive in pieces and late; non-trivial: at least two e-mails, or faults") {
  sim::swarm(); auto & t = sim::tuning(); t.clockJump = 0; t.stall = 0; t.maxIdleNs = 7200 * SEC;
  int threads = (int) sim::rndRange(1, 3), each = (int) sim::rndRange(1, 2); bool faults = sim::chance(0.6);
  auto & f = net::faults(); if (sim::chance(0.6)) { f.eintr = sim::chance(0.5) ? 0.05 : 0.01; f.shortRecv = sim::chance(0.5) ? 0.3 : 0.03; f.shortSend = sim::chance(0.5) ? 0.3 : 0; }
  static Server server; static std::vector<Site> sites; g_sites = &sites; std::vector<std::vector<int>> plan((size_t) threads);
  {
    Quiet q;
    for (int i = 0; i < threads * each; ++i) { sites.push_back(generate(i, faults)); if (sim::keepOp()) plan[(size_t) (i % threads)].push_back(i); }
    tlsSetup("IP:10.0.0.1", "IP:10.0.0.9"); sim::aliasFile("/etc/ssl/certs/ca-certificates.crt", (std::string(sim::scratch()) + "/ca.pem").c_str());
    net::start(server);
    Logger::registerLoggingStreamFactory("mem", memFactory);
    Logger::configure(". {\n level = info\n format = %LEVEL %message\n stream = mem:log\n}\n");
  }
  if (sites.size() >= 2 || faults) sim::nontrivial();
  std::vector<std::function<void ()>> bodies;
  for (auto & p : plan) bodies.push_back([&] {
    for (int i : p) {
      Site & s = sites[(size_t) i]; int before = g_errors[sim::self()];
      HL_TRY(CurlEmailSender("10.0.0.1", (unsigned short) s.port, s.user, s.pw, s.agent, s.verify).sendEmail(s.mail.from, s.mail.to, s.mail.cc, s.mail.subject, s.mail.body), "sending an e-mail");
      Quiet q; verdict(s, g_errors[sim::self()] - before);
    }
  });
  hl::runThreads(bodies);
  Quiet q;
  if (net::openSockets()) sim::fail("leaked-connection", "%d connections are still open", net::openSockets());
}
