// H01, H02: HTTP and HTTPS resources over a simulated network.
#include <csignal>
#include <functional>
#include <cstring>
#include <vector>
#include <map>
#include <sys/socket.h>
#include <Balau/Resource/Http.hpp>
#include <Balau/Type/ToString.hpp>
#include <zlib.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <openssl/err.h>
#include <sys/stat.h>
#include <unistd.h>
#include "../sim/hlib.h"
#include "../sim/net.h"
#include "tlspeer.h"

using namespace Balau;
using namespace Balau::Resource;
using sim::Quiet;
namespace net = sim::net;

namespace {

// ---- what one served resource does ----------------------------------------------------------------------------
enum Framing { LENGTH, CHUNKED, CLOSE };
struct Address { net::ConnectKind kind; int64_t delay; };
struct Site {
  std::string host, path; int port = 80; bool named = false;  // named: the port is in the URL
  int resolved = 1; std::vector<Address> addresses;
  int status = 200; Framing framing = LENGTH; std::string body; bool wide = false;
  std::vector<size_t> chunks; int interim = 0; bool lowerCase = false;
  // delivery
  std::vector<size_t> cuts; std::vector<int64_t> delays;       // pieces of the response and the time before each
  net::EndKind end = net::FIN; int64_t endDelay = 0;
  double cut = 2;                                              // the response ends after this part of it (below 1)
  int sendLimit = -1; int malformed = 0;                       // malformed: 1-4, see build()
  bool gzip = false; std::string wire;                         // the body as it is sent
  // TLS
  bool tls = false; int cert = 0; bool notify = true;
  // outcome
  std::string response; size_t headLength = 0, delivered = 0; int requests = 0, connections = 0;
};
std::vector<Site> * g_sites;

struct Server : net::Peer {
  struct Link { Site * site = nullptr; SSL * ssl = nullptr; BIO * in = nullptr, * out = nullptr; size_t fed = 0; std::string request; bool answered = false; };
  std::map<int, Link> links;
  Site * find(const std::string & host, int port) { for (auto & s : *g_sites) if (s.host == host && s.port == port) return &s; return nullptr; }
  int resolve(const std::string & host, int port) override { Site * s = find(host, port); if (!s) sim::fail("wrong-server", "the client asks for the name %s, port %d", host.c_str(), port); return s->resolved; }
  net::ConnectKind onConnect(net::Conn & c, int64_t & delay) override {
    for (auto & s : *g_sites) if (s.port == c.port) {
      links[c.id].site = &s; if (c.address >= (int) s.addresses.size()) sim::fail("wrong-server", "the client connects to an address that is not one of %s", s.host.c_str());
      auto & a = s.addresses[(size_t) c.address]; delay = a.delay;
      if (a.kind == net::ACCEPT || a.kind == net::ACCEPT_LATER) { ++s.connections; c.resetSends(s.sendLimit); }
      return a.kind;
    }
    sim::fail("wrong-server", "the client connects to port %d", c.port);
  }
  void onData(net::Conn & c) override {
    Link & l = links[c.id]; Site & s = *l.site;
    if (!s.tls) { l.request.append(c.received, l.fed, std::string::npos); l.fed = c.received.size(); answer(c, l); return; }
    if (!l.ssl) { l.ssl = SSL_new(g_ctx[s.cert]); l.in = BIO_new(BIO_s_mem()); l.out = BIO_new(BIO_s_mem()); SSL_set_bio(l.ssl, l.in, l.out); SSL_set_accept_state(l.ssl); }
    BIO_write(l.in, c.received.data() + l.fed, (int) (c.received.size() - l.fed)); l.fed = c.received.size();
    if (!SSL_is_init_finished(l.ssl)) SSL_do_handshake(l.ssl);
    ERR_clear_error();
    char b[4096]; int n; while ((n = SSL_read(l.ssl, b, sizeof b)) > 0) l.request.append(b, (size_t) n);
    ERR_clear_error();
    std::string o = pending(l); if (!o.empty()) c.send(s.delays.empty() ? 0 : s.delays[0] % 1000000000, o);
    answer(c, l);
  }
  std::string pending(Link & l) { std::string o; char b[4096]; int n; while ((n = BIO_read(l.out, b, sizeof b)) > 0) o.append(b, (size_t) n); return o; }
  void answer(net::Conn & c, Link & l) {
    Site & s = *l.site;
    auto e = l.request.find("\r\n\r\n"); if (e == std::string::npos) return;
    if (l.request.size() > e + 4) sim::fail("wrong-request", "the request is followed by %zu bytes", l.request.size() - e - 4);
    if (l.answered) return;
    l.answered = true; ++s.requests; check(l.request, s);
    std::string r = s.response; size_t n = r.size(); bool cutShort = s.cut < 1;
    if (s.tls) {
      // each part is one record or more; the parts are cut again when they are delivered
      size_t at = 0; for (size_t k : s.chunks) { size_t m = std::min(k % 5000 + 1, r.size() - at); if (!m) break; SSL_write(l.ssl, r.data() + at, (int) m); at += m; }
      if (at < r.size()) SSL_write(l.ssl, r.data() + at, (int) (r.size() - at));
      if (s.notify) SSL_shutdown(l.ssl);
      r = pending(l); n = r.size();
    }
    if (cutShort) n = (size_t) (s.cut * (double) n);
    s.delivered = n;
    size_t at = 0;
    for (size_t i = 0; at < n; ++i) { size_t m = i < s.cuts.size() ? std::min(s.cuts[i], n - at) : n - at; c.send(i < s.delays.size() ? s.delays[i] : 0, r.substr(at, m)); at += m; }
    if (s.end != net::OPEN) c.end(s.end, s.endDelay);
  }
  static void check(const std::string & q, const Site & s) {
    std::string line = "GET " + s.path + " HTTP/1.1\r\n", rest = q.substr(0, q.size() - 2), host = s.host;
    if (q.compare(0, line.size(), line)) sim::fail("wrong-request", "the request for %s is %s", s.path.c_str(), q.substr(0, q.find("\r\n")).c_str());
    int hosts = 0; bool match = false;
    for (size_t a = line.size(); a < rest.size();) {
      size_t b = rest.find("\r\n", a); std::string h = rest.substr(a, b - a); a = b + 2;
      size_t k = h.find(':'); if (k == std::string::npos || k == 0) sim::fail("wrong-request", "the request has the header line %s", h.c_str());
      std::string n = h.substr(0, k); for (auto & x : n) x = (char) tolower(x);
      if (n == "host") { ++hosts; match = h.substr(k + 1) == " " + host || h.substr(k + 1) == " " + host + ":" + std::to_string(s.port); if (h.find(':', k + 1) == std::string::npos && s.port != (s.tls ? 443 : 80)) match = false; }
      if (n == "content-length" && h.substr(k + 1) != " 0") sim::fail("wrong-request", "the request has the header line %s", h.c_str());
    }
    if (hosts != 1 || !match) sim::fail("wrong-request", "the request for %s does not name the host %s, port %d", s.path.c_str(), s.host.c_str(), s.port);
  }
};

std::string gzipped(const std::string & b, int level) {
  z_stream z {}; if (deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY) != Z_OK) sim::invalid("deflate");
  std::string o(deflateBound(&z, b.size()) + 64, 0); z.next_in = (Bytef *) b.data(); z.avail_in = (uInt) b.size(); z.next_out = (Bytef *) &o[0]; z.avail_out = (uInt) o.size();
  if (deflate(&z, Z_FINISH) != Z_STREAM_END) sim::invalid("deflate");
  o.resize(z.total_out); deflateEnd(&z); return o;
}

void build(Site & s) {
  s.wire = s.gzip ? gzipped(s.body, s.port % 10) : s.body;
  static const char * const reasons[] = { "OK", "Not Found", "Moved Permanently", "Internal Server Error" };
  std::string r; for (int i = 0; i < s.interim; ++i) r += "HTTP/1.1 100 Continue\r\n\r\n";
  const char * reason = s.status == 200 ? reasons[0] : s.status == 404 ? reasons[1] : s.status == 301 ? reasons[2] : reasons[3];
  auto name = [&] (std::string n) { if (s.lowerCase) for (auto & c : n) c = (char) tolower(c); return n; };
  r += "HTTP/1.1 " + std::to_string(s.status) + " " + reason + "\r\n" + name("Server") + ": stand-in\r\n" + name("Content-Type") + ": application/octet-stream\r\n";
  if (s.gzip) r += name("Content-Encoding") + ": gzip\r\n";
  if (s.status == 301) r += name("Location") + ": http://else.example/\r\n";
  if (s.framing == LENGTH) r += name("Content-Length") + ": " + std::to_string(s.wire.size()) + "\r\n";
  if (s.framing == CHUNKED) r += name("Transfer-Encoding") + ": chunked\r\n";
  if (s.framing == CLOSE) r += name("Connection") + ": close\r\n";
  r += "\r\n"; s.headLength = r.size();
  if (s.framing != CHUNKED) r += s.wire;
  else {
    size_t at = 0, i = 0;
    while (at < s.wire.size()) { size_t m = std::min(i < s.chunks.size() ? s.chunks[i] : s.wire.size(), s.wire.size() - at); ++i; char b[40]; snprintf(b, sizeof b, i % 3 ? "%zx\r\n" : "%zX\r\n", m); r += b; r.append(s.wire, at, m); r += "\r\n"; at += m; }
    r += "0\r\n\r\n";
  }
  // A response that no correct server sends.
  if (s.malformed == 1) { auto e = s.headLength; if (s.framing == CHUNKED && s.wire.size()) { e = r.find("\r\n", e); e += 2 + std::min(s.chunks.empty() ? s.wire.size() : s.chunks[0], s.wire.size()); r[e] = 'x'; r[e + 1] = 'y'; } else s.malformed = 2; }
  if (s.malformed && s.gzip && s.framing == LENGTH) s.malformed = 2;
  if (s.malformed == 3) { if (s.framing == CHUNKED) r[s.headLength] = 'g'; else s.malformed = 2; }
  if (s.malformed == 2) r.replace(0, 8, "SMTP/220");
  s.response = r;
}

const int64_t SEC = 1000000000ll;
int64_t someDelay() { switch (sim::rnd(4)) { case 0: return 0; case 1: return (int64_t) sim::rnd(1000000); case 2: return (int64_t) sim::rnd(200000000); default: return (int64_t) sim::rnd(4 * SEC); } }

Site generate(int index, bool tls, bool faults) {
  Site s; s.tls = tls; s.named = sim::chance(0.6);
  s.host = "served.example"; // one name (and certificate); servers are told apart by their ports
  s.port = s.named ? 1000 + index * 7 + (int) sim::rnd(7) : tls ? 443 : 80;
  static const char * const paths[] = { "/", "/a", "/a/b.txt", "/a%20b", "/q?x=1&y=2", "/a/b?c=d/e", "/x?", "/%C3%A9?k=%26" };
  s.path = paths[sim::rnd(8)];
  static const size_t sizes[] = { 0, 1, 100, 4095, 4096, 4097, 8192, 16384, 20000, 70000 };
  size_t n = sim::chance(0.5) ? sizes[sim::rnd(10)] : (size_t) sim::rnd(9000);
  s.wide = sim::chance(0.35);
  if (s.wide) { // UTF-8 text
    if (sim::chance(0.3)) s.body = "\xef\xbb\xbf";
    while (s.body.size() < n) { switch (sim::rnd(5)) { case 0: s.body += "\xc3\xa9"; break; case 1: s.body += "\xe2\x82\xac"; break; case 2: s.body += "\xf0\x9f\x98\x80"; break; case 3: s.body += '\n'; break; default: s.body += (char) ('a' + sim::rnd(26)); } }
  } else { s.body.resize(n); uint64_t x = sim::rnd(); for (auto & c : s.body) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char) (x >> 56); } }
  s.status = sim::chance(0.8) ? 200 : sim::chance(0.5) ? 404 : sim::chance(0.5) ? 301 : 500;
  s.framing = (Framing) sim::rnd(3); s.interim = sim::chance(0.1); s.lowerCase = sim::chance(0.3); s.gzip = sim::chance(0.15);
  for (int i = (int) sim::rnd(12); i > 0; --i) s.chunks.push_back(1 + (size_t) sim::rnd(sim::chance(0.5) ? 20 : 9000));
  for (int i = (int) sim::rnd(10); i > 0; --i) { s.cuts.push_back(1 + (size_t) sim::rnd(sim::chance(0.5) ? 30 : 6000)); }
  for (size_t i = 0; i <= s.cuts.size(); ++i) s.delays.push_back(sim::chance(0.7) ? 0 : someDelay());
  s.end = s.framing != CLOSE && sim::chance(0.4) ? net::OPEN : net::FIN; s.endDelay = sim::chance(0.5) ? 0 : someDelay();
  int na = (int) sim::rndRange(1, 3); s.resolved = na;
  for (int i = 0; i < na; ++i) s.addresses.push_back(Address { sim::chance(0.5) ? net::ACCEPT : net::ACCEPT_LATER, someDelay() });
  if (sim::chance(0.35)) for (int i = 0; i + 1 < na; ++i) s.addresses[(size_t) i].kind = sim::chance(0.5) ? net::REFUSE : net::REFUSE_LATER;
  int kind = faults ? (int) sim::rnd(11) : -1; bool drop = sim::keepOp();
  double cut = (double) sim::rnd(1000) / 1000; int where = (int) sim::rnd(200); int64_t late = 6 * SEC + (int64_t) sim::rnd(30 * SEC);
  if (!drop) kind = -1;
  switch (kind) {
    case 0: s.resolved = sim::chance(0.5) ? 0 : -1; break;
    case 1: for (auto & a : s.addresses) a.kind = a.delay & 1 ? net::REFUSE : net::REFUSE_LATER; break;
    case 2: for (auto & a : s.addresses) a.kind = net::SILENT; break;
    case 3: s.cut = cut; s.end = net::FIN; break;
    case 4: s.cut = cut; s.end = net::RST; break;
    case 5: s.cut = cut; s.end = net::OPEN; break;
    case 6: s.sendLimit = where; break;
    case 7: if (s.delays.empty()) s.delays.push_back(0); s.delays[(size_t) where % s.delays.size()] = late; break;
    case 8: s.end = net::RST; break;
    case 9: s.malformed = 1 + where % 3; s.interim = 0; break;
    default: break;
  }
  if (s.cut < 1 || s.end == net::RST || s.end == net::OPEN) s.notify = false;
  build(s); return s;
}
// What the served body is read as: bytes, or the code points of UTF-8 text without its byte order mark.
std::u32string decode(const std::string & b) {
  std::u32string o; size_t i = b.compare(0, 3, "\xef\xbb\xbf") == 0 ? 3 : 0;
  while (i < b.size()) { unsigned char c = (unsigned char) b[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; char32_t v = n == 1 ? c : c & (0xff >> (n + 1)); for (int k = 1; k < n; ++k) v = v << 6 | ((unsigned char) b[i + (size_t) k] & 0x3f); o += v; i += (size_t) n; }
  return o;
}

enum Result { BODY, ERROR };
template <typename UriT> Result readBytes(const std::string & url, int via, int block, std::string & out) {
  try {
    UriT u(url);
    auto consume = [&] (std::istream & in) { std::vector<char> b((size_t) block); for (;;) { in.read(b.data(), block); out.append(b.data(), (size_t) in.gcount()); if (in.gcount() < block) break; } return !in.bad(); };
    if (via == 0) { auto r = u.getByteReadResource(); return consume(r.readStream()) ? BODY : ERROR; }
    if (via == 1) { std::unique_ptr<ByteReadResource> r = u.byteReadResource(); bool ok = consume(r->readStream()); r->close(); return ok ? BODY : ERROR; }
    auto r = u.getByteReadResource(); auto moved = std::move(r); bool ok = consume(moved.readStream()); return ok ? BODY : ERROR;
  } catch (const Exception::BalauException & e) { sim::note("%.200s", e.what()); return ERROR; }
}
template <typename UriT> Result readText(const std::string & url, int via, int block, std::u32string & out) {
  try {
    UriT u(url);
    auto consume = [&] (std::u32istream & in) { std::vector<char32_t> b((size_t) block); for (;;) { in.read(b.data(), block); out.append(b.data(), (size_t) in.gcount()); if (in.gcount() < block) break; } return !in.bad(); };
    if (via == 0) { auto r = u.getUtf8To32ReadResource(); return consume(r.readStream()) ? BODY : ERROR; }
    std::unique_ptr<Utf8To32ReadResource> r = u.utf8To32ReadResource(); bool ok = consume(r->readStream()); r->close(); return ok ? BODY : ERROR;
  } catch (const Exception::BalauException & e) { sim::note("%.200s", e.what()); return ERROR; }
}

void verdict(const Site & s, Result r, const std::string & bytes, const std::u32string & text) {
  Quiet q;
  bool slow = false; for (auto d : s.delays) slow = slow || d >= 5 * SEC; // longer than the client waits
  bool accepts = false; for (auto & a : s.addresses) accepts = accepts || a.kind == net::ACCEPT || a.kind == net::ACCEPT_LATER;
  bool trusted = !s.tls || s.cert == 0;
  bool complete = s.requests == 1 && s.cut >= 1 && !s.malformed; // the server sent a complete response
  if (r == BODY) {
    if (s.requests != 1) sim::fail("fabricated", "a body of %zu bytes was read from a server that answered %d requests", bytes.size(), s.requests);
    if (!trusted) sim::fail("untrusted", "the resource was read although the certificate of the server is: %s", certNames[s.cert]);
    if (s.malformed) sim::fail("wrong-body", "%zu bytes were read as the body of a malformed response", s.wide ? text.size() : bytes.size());
    if (s.wide ? text == decode(s.body) : bytes == s.body) { if (complete) sim::probe("the body was read"); return; }
    // without a length or chunks, the body is all that arrives before an orderly end of the connection
    if (s.framing == CLOSE && s.end == net::FIN && s.cut < 1 && !s.tls && s.delivered >= s.headLength) { if (s.wide || bytes == s.body.substr(0, s.gzip ? bytes.size() : s.delivered - s.headLength)) return; }
    sim::fail("wrong-body", "%zu of the %zu bytes of the body were read without an error%s", s.wide ? text.size() : bytes.size(), s.body.size(), s.cut < 1 ? ", the response was incomplete" : "");
  }
  sim::probe("an error was reported");
  if (s.resolved > 0 && accepts && !s.connections) sim::fail("spurious-error", "none of the %d addresses was connected to although one of them accepts connections", s.resolved);
  bool quiet = s.end == net::FIN ? s.endDelay < 5 * SEC && (s.notify || !s.tls) : s.end == net::OPEN;
  if (s.framing == CLOSE && s.end != net::FIN) quiet = false;
  if (complete && trusted && s.sendLimit < 0 && !slow && quiet) sim::fail("spurious-error", "reading reported an error although the server answered completely (status %d, %zu bytes)", s.status, s.body.size());
}

void run(bool tls) {
  sim::swarm(); auto & t = sim::tuning(); t.clockJump = 0; t.maxIdleNs = 7200 * SEC; t.stall = 0;
  int threads = (int) sim::rndRange(1, tls ? 2 : 3), each = (int) sim::rndRange(1, tls ? 2 : 3);
  bool faults = sim::chance(0.6);
  auto & f = net::faults(); if (sim::chance(0.6)) { f.eintr = sim::chance(0.5) ? 0.1 : 0.01; f.shortRecv = sim::chance(0.5) ? 0.3 : 0.03; f.shortSend = sim::chance(0.5) ? 0.3 : 0; }
  struct Read { int site, via, block; };
  static Server server; static std::vector<Site> sites; g_sites = &sites;
  std::vector<std::vector<Read>> plan((size_t) threads);
  {
    Quiet q;
    for (int i = 0; i < threads * each; ++i) {
      Site s = generate(i + 1, tls, faults);
      if (tls && sim::chance(0.25)) s.cert = (int) sim::rndRange(1, 4);
      for (auto & o : sites) if (o.port == s.port) { s.named = true; s.port = 2000 + i; }
      Read r { i, (int) sim::rnd(3), sim::chance(0.3) ? 1 + (int) sim::rnd(10) : sim::chance(0.5) ? 4096 : 100000 };
      sites.push_back(s); if (sim::keepOp()) plan[(size_t) (i % threads)].push_back(r);
    }
    if (tls) tlsSetup("DNS:served.example", "DNS:else.example");
    net::start(server);
  }
  if (sites.size() >= 2 || faults) sim::nontrivial();
  std::vector<std::function<void ()>> bodies;
  for (auto & p : plan) bodies.push_back([&] {
    for (auto & r : p) {
      Site & s = sites[(size_t) r.site]; std::string bytes; std::u32string text;
      std::string url = std::string(s.tls ? "https" : "http") + "://" + s.host + (s.named ? ":" + std::to_string(s.port) : "") + s.path;
      Result res;
      HL_TRY(res = s.wide ? (s.tls ? readText<Https>(url, r.via, r.block, text) : readText<Http>(url, r.via, r.block, text)) : (s.tls ? readBytes<Https>(url, r.via, r.block, bytes) : readBytes<Http>(url, r.via, r.block, bytes)), "reading an HTTP resource");
      verdict(s, res, bytes, text);
      sigset_t m, pe; pthread_sigmask(SIG_SETMASK, nullptr, &m); sigpending(&pe);
      if (sigismember(&m, SIGPIPE) || sigismember(&pe, SIGPIPE)) sim::fail("signal-state", "after the read, SIGPIPE is %s", sigismember(&pe, SIGPIPE) ? "pending" : "blocked");
    }
  });
  hl::runThreads(bodies);
  Quiet q;
  if (net::openSockets()) sim::fail("leaked-connection", "%d connections are still open", net::openSockets());
}

} // namespace

SIM_SCENARIO(H01, plain, 3, "1-3 threads read 1-9 HTTP resources from servers with generated bodies, framing and statuses; responses arrive in pieces, are cut, reset, stalled; names do not resolve, addresses refuse or ignore connections; non-trivial: at least two reads, or faults") { run(false); }
SIM_SCENARIO(H01, tls, 2, "the same over TLS with a real OpenSSL server as the peer and certificates that are good, of another host, of an unknown authority, expired, or not yet valid") { run(true); }
