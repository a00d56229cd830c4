// Interposed socket calls (see net.h). Compiled WITHOUT -fsanitize=thread.
#include "core.h"
#include "net.h"
#include <arpa/inet.h>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim::net {
static Peer * g_peer;
static Conn * g_conn[1024];
static std::vector<Conn *> * g_all;
static Faults g_faults;
static int g_open, g_ids;

void start(Peer & p) { g_peer = &p; g_all = new std::vector<Conn *>; }
Faults & faults() { return g_faults; }
int openSockets() { return g_open; }
const std::vector<Conn *> & connections() { return *g_all; }

void Conn::send(int64_t delay, std::string data) { if (data.empty()) { lastAt += delay; return; } int64_t base = lastAt > mono() ? lastAt : mono(); lastAt = base + delay; ev.push_back(Event { lastAt, std::move(data), OPEN }); }
void Conn::end(EndKind k, int64_t delay) { int64_t base = lastAt > mono() ? lastAt : mono(); lastAt = base + delay; ev.push_back(Event { lastAt, std::string(), k }); }
void Conn::resetSends(int after) { sendLimit = after; }

static Conn * get(int fd) { return fd >= 0 && fd < 1024 ? g_conn[fd] : nullptr; }
bool is(int fd) { return get(fd) != nullptr; }
bool closed(int fd) {
  Conn * c = get(fd); if (!c) return false;
  g_conn[fd] = nullptr; --g_open; c->clientClosed = true;
  note("connection %d: closed by the client", c->id);
  return true;
}
// 0: nothing yet, 1: data, 2: end of stream, 3: reset
static int readState(Conn & c, int64_t now) {
  if (c.soError) return 3;
  if (!c.connected) return 0;
  if (c.clientShut) return 2;
  if (c.next >= c.ev.size()) return 0;
  auto & e = c.ev[c.next];
  if (e.at > now) return 0;
  return e.end == FIN ? 2 : e.end == RST ? 3 : 1;
}
static void progress(Conn & c, int64_t now) {
  if (c.connectAt >= 0 && c.connectAt <= now) {
    c.connectAt = -1;
    if (c.connectErr) c.soError = c.connectErr; else c.connected = true;
    note("connection %d: %s", c.id, c.connectErr ? strerror(c.connectErr) : "established");
  }
}
static int64_t nextEvent(Conn & c) {
  if (c.connectAt >= 0) return c.connectAt;
  if (c.connected && c.next < c.ev.size()) return c.ev[c.next].at;
  return INT64_MAX;
}
static void waitUntil(int64_t t) {
  // the wait of a thread on a connection; nobody else wakes it
  if (t == INT64_MAX) block(W_SLEEP, 0); else blockTimed(W_SLEEP, 0, false, t, false);
}
static bool live() { return g_active && tl_me >= 0 && g_peer; }
static void point(int kind) { if (on()) { ev(kind, 0); schedule(K_SYNC, true); } }
static bool interrupted() { return on() && fault(F_EINTR, g_faults.eintr); }
} // namespace sim::net

using namespace sim;
using namespace sim::net;

extern "C" {
int getaddrinfo(const char * node, const char * service, const struct addrinfo * hints, struct addrinfo ** res) {
  if (!live()) return EAI_FAIL;
  point(80);
  Quiet q;
  int port = service ? atoi(service) : 0;
  int n = g_peer->resolve(node ? node : "", port);
  if (n <= 0) { note("name %s: not resolved", node); return n == 0 ? EAI_NONAME : EAI_AGAIN; }
  struct addrinfo * first = nullptr, ** at = &first;
  for (int i = 0; i < n; ++i) {
    int fam = hints && hints->ai_family != AF_UNSPEC ? hints->ai_family : i % 2 ? AF_INET6 : AF_INET;
    struct Both { struct addrinfo a; sockaddr_in6 s; } * b = (Both *) calloc(1, sizeof(Both));
    b->a.ai_family = fam; b->a.ai_socktype = SOCK_STREAM; b->a.ai_protocol = IPPROTO_TCP; b->a.ai_addr = (sockaddr *) &b->s;
    if (fam == AF_INET) { auto * s = (sockaddr_in *) &b->s; s->sin_family = AF_INET; s->sin_port = htons((uint16_t) port); s->sin_addr.s_addr = htonl(0x0a000001u + (uint32_t) i); b->a.ai_addrlen = sizeof *s; }
    else { b->s.sin6_family = AF_INET6; b->s.sin6_port = htons((uint16_t) port); b->s.sin6_addr.s6_addr[15] = (uint8_t) (1 + i); b->a.ai_addrlen = sizeof b->s; }
    *at = &b->a; at = &b->a.ai_next;
  }
  *res = first; return 0;
}
void freeaddrinfo(struct addrinfo * a) noexcept { while (a) { auto * n = a->ai_next; free(a); a = n; } }
int gethostname(char * n, size_t z) noexcept { snprintf(n, z, "client"); return 0; }
int __res_init(void) noexcept { return 0; }

int socket(int, int, int) noexcept {
  if (!live()) { errno = EACCES; return -1; }
  point(81);
  if (on() && fault(F_OPENFAIL, g_faults.socketFail)) { errno = EMFILE; return -1; }
  int fd = (int) syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
  if (fd < 0 || fd >= 1024) { if (fd >= 0) syscall(SYS_close, fd); errno = EMFILE; return -1; }
  Quiet q;
  Conn * c = new Conn; c->id = g_ids++; g_conn[fd] = c; g_all->push_back(c); ++g_open;
  return fd;
}
int connect(int fd, const struct sockaddr * a, socklen_t) {
  Conn * c = get(fd); if (!c) { errno = ENOTSOCK; return -1; }
  point(82);
  int64_t delay = 0; ConnectKind k;
  {
    Quiet q;
    if (a->sa_family == AF_INET) { auto * s = (const sockaddr_in *) a; c->address = (int) (ntohl(s->sin_addr.s_addr) - 0x0a000001u); c->port = ntohs(s->sin_port); }
    else { auto * s = (const sockaddr_in6 *) a; c->address = s->sin6_addr.s6_addr[15] - 1; c->port = ntohs(s->sin6_port); }
    k = g_peer->onConnect(*c, delay);
  }
  if (k == ACCEPT) { c->connected = true; note("connection %d to address %d port %d: established", c->id, c->address, c->port); return 0; }
  if (k == REFUSE) { note("connection %d to address %d port %d: refused", c->id, c->address, c->port); errno = ECONNREFUSED; return -1; }
  if (k != SILENT) { c->connectAt = mono() + delay; c->connectErr = k == REFUSE_LATER ? ECONNREFUSED : 0; }
  note("connection %d to address %d port %d: in progress", c->id, c->address, c->port);
  if (c->nonblock) { errno = EINPROGRESS; return -1; }
  while (!c->connected && !c->soError) {
    int64_t t = nextEvent(*c), d = k == SILENT ? mono() + 127000000000ll : t;
    waitUntil(d); progress(*c, mono());
    if (k == SILENT) { errno = ETIMEDOUT; return -1; }
  }
  if (c->soError) { errno = c->soError; c->soError = 0; return -1; }
  return 0;
}
static ssize_t brokenPipe(Conn & c, int flags) {
  note("connection %d: send on a broken connection", c.id);
  if (flags & MSG_NOSIGNAL) { errno = EPIPE; return -1; }
  struct sigaction a; sigset_t m; sigaction(SIGPIPE, nullptr, &a); pthread_sigmask(SIG_SETMASK, nullptr, &m);
  if (a.sa_handler == SIG_DFL && !sigismember(&m, SIGPIPE)) fail("crash", "a send on connection %d, which the peer has reset, raises SIGPIPE, which ends the process", c.id);
  syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), SIGPIPE); // as the kernel does: to this thread
  errno = EPIPE; return -1;
}
ssize_t send(int fd, const void * b, size_t n, int flags) {
  Conn * c = get(fd); if (!c) { errno = ENOTSOCK; return -1; }
  point(83);
  if (!c->nonblock && interrupted()) { errno = EINTR; return -1; }
  progress(*c, mono());
  if (!c->connected) { errno = ENOTCONN; return -1; }
  if (c->clientShut) return brokenPipe(*c, flags);
  if (n > 1 && on()) if (unsigned v = choose(4, g_faults.shortSend)) { count(F_SHORTWRITE); n = v == 1 ? 1 : v == 2 ? n / 2 : n - 1; }
  // a peer that has reset the connection
  bool rst = readState(*c, mono()) == 3;
  for (size_t i = c->next; i < c->ev.size(); ++i) if (c->ev[i].end == RST && c->ev[i].at <= mono()) rst = true;
  if (!rst && c->sendLimit >= 0 && (int) (c->received.size() + n) > c->sendLimit) { c->soError = ECONNRESET; rst = true; note("connection %d: reset by the peer while sending", c->id); }
  if (rst) {
    // the first call after the reset reports it, later ones fail with EPIPE and SIGPIPE
    if (c->soError) { errno = c->soError; c->soError = 0; c->clientShut = true; return -1; }
    if (!c->clientShut) { c->clientShut = true; errno = ECONNRESET; return -1; }
    return brokenPipe(*c, flags);
  }
  Quiet q;
  c->received.append((const char *) b, n);
  note("connection %d: client sends %zu bytes", c->id, n);
  g_peer->onData(*c);
  return (ssize_t) n;
}
ssize_t recv(int fd, void * b, size_t n, int flags) {
  Conn * c = get(fd); if (!c) { errno = ENOTSOCK; return -1; }
  point(84);
  if (n == 0) return 0;
  int64_t limit = c->rcvTimeout > 0 ? mono() + c->rcvTimeout : INT64_MAX;
  for (;;) {
    if (!c->nonblock && !(flags & (MSG_PEEK | MSG_DONTWAIT)) && interrupted()) { errno = EINTR; return -1; }
    progress(*c, mono());
    int st = readState(*c, mono());
    if (st == 3) { note("connection %d: reset", c->id); c->soError = 0; errno = ECONNRESET; c->clientShut = true; return -1; }
    if (st == 2) { note("connection %d: end of stream", c->id); return 0; }
    if (st == 1) break;
    if (c->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    int64_t t = nextEvent(*c);
    if (t > limit) { waitUntil(limit); progress(*c, mono()); if (readState(*c, mono()) == 0) { note("connection %d: receive timeout", c->id); errno = EAGAIN; return -1; } }
    else waitUntil(t);
  }
  if (n > 1 && on() && !(flags & MSG_PEEK)) if (unsigned v = choose(4, g_faults.shortRecv)) { count(F_SHORTREAD); n = v == 1 ? 1 : v == 2 ? n / 2 : n - 1; }
  size_t got = 0, next = c->next, pos = c->pos; int64_t now = mono();
  while (got < n && next < c->ev.size() && c->ev[next].end == OPEN && c->ev[next].at <= now) {
    auto & e = c->ev[next]; size_t k = e.data.size() - pos; if (k > n - got) k = n - got;
    memcpy((char *) b + got, e.data.data() + pos, k); got += k; pos += k;
    if (pos == e.data.size()) { ++next; pos = 0; }
  }
  if (!(flags & MSG_PEEK)) { c->next = next; c->pos = pos; c->bytesIn += (int) got; }
  return (ssize_t) got;
}
// Readiness of a descriptor: bit 0 readable, bit 1 writable, bit 2 error.
static int ready(Conn & c) {
  int64_t now = mono(); progress(c, now);
  int r = 0, st = readState(c, now);
  if (st) r |= 1;
  if (c.connected || c.soError) r |= 2;
  if (c.soError) r |= 4;
  return r;
}
static int64_t limitOf(int64_t ns) { return ns < 0 ? INT64_MAX : mono() + ns; }

int select(int n, fd_set * r, fd_set * w, fd_set * e, struct timeval * tv) {
  bool any = false; for (int i = 0; i < n; ++i) if (((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w)) || (e && FD_ISSET(i, e))) && get(i)) any = true;
  if (!any) return (int) syscall(SYS_select, n, r, w, e, tv);
  point(85);
  if (interrupted()) { errno = EINTR; return -1; }
  int64_t limit = limitOf(tv ? tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll : -1);
  for (;;) {
    fd_set ro, wo, eo; FD_ZERO(&ro); FD_ZERO(&wo); FD_ZERO(&eo); int k = 0; int64_t next = INT64_MAX;
    for (int i = 0; i < n; ++i) {
      Conn * c = get(i); if (!c) continue;
      int st = ready(*c);
      if (r && FD_ISSET(i, r)) { if (st & 5) { FD_SET(i, &ro); ++k; } else { int64_t t = nextEvent(*c); if (t < next) next = t; } }
      if (w && FD_ISSET(i, w)) { if (st & 2) { FD_SET(i, &wo); ++k; } else if (c->connectAt >= 0 && c->connectAt < next) next = c->connectAt; }
    }
    bool out = !k && mono() >= limit;
    if (k || out) {
      if (r) *r = ro;
      if (w) *w = wo;
      if (e) *e = eo;
      if (tv) { int64_t left = limit - mono(); if (left < 0) left = 0; tv->tv_sec = left / 1000000000; tv->tv_usec = left % 1000000000 / 1000; }
      if (out) { count(F_TIMEOUT); note("select: timeout"); }
      return k;
    }
    waitUntil(next < limit ? next : limit);
  }
}
int poll(struct pollfd * p, nfds_t n, int ms) {
  bool any = false; for (nfds_t i = 0; i < n; ++i) if (get(p[i].fd)) any = true;
  if (!any && !live()) return (int) syscall(SYS_poll, p, n, ms);
  point(86);
  if (interrupted()) { errno = EINTR; return -1; }
  int64_t limit = limitOf(ms < 0 ? -1 : ms * 1000000ll);
  for (;;) {
    int k = 0; int64_t next = INT64_MAX;
    for (nfds_t i = 0; i < n; ++i) {
      Conn * c = get(p[i].fd); p[i].revents = 0;
      if (!c) { if (p[i].fd >= 0 && syscall(SYS_poll, p + i, 1, 0) == 1) ++k; continue; } // a pipe to itself
      int st = ready(*c);
      if ((p[i].events & POLLIN) && (st & 1)) p[i].revents |= POLLIN;
      if ((p[i].events & POLLOUT) && (st & 2)) p[i].revents |= POLLOUT;
      if (st & 4) p[i].revents |= POLLERR;
      if (p[i].revents) ++k; else { int64_t t = nextEvent(*c); if (((p[i].events & POLLIN) || c->connectAt >= 0) && t < next) next = t; }
    }
    if (k || mono() >= limit) { if (!k) count(F_TIMEOUT); return k; }
    waitUntil(next < limit ? next : limit);
  }
}
int setsockopt(int fd, int level, int name, const void * v, socklen_t n) noexcept {
  Conn * c = get(fd); if (!c) { errno = ENOTSOCK; return -1; }
  if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && n >= sizeof(timeval)) { auto * t = (const timeval *) v; (name == SO_RCVTIMEO ? c->rcvTimeout : c->sndTimeout) = t->tv_sec * 1000000000ll + t->tv_usec * 1000ll; }
  return 0;
}
int getsockopt(int fd, int level, int name, void * v, socklen_t * n) noexcept {
  Conn * c = get(fd); if (!c) { errno = ENOTSOCK; return -1; }
  memset(v, 0, *n);
  if (level == SOL_SOCKET && name == SO_ERROR && *n >= sizeof(int)) { *(int *) v = c->soError; c->soError = 0; *n = sizeof(int); }
  return 0;
}
int shutdown(int fd, int) noexcept {
  Conn * c = get(fd); if (!c) { errno = ENOTSOCK; return -1; }
  if (!c->connected) { errno = ENOTCONN; return -1; }
  c->clientShut = true; return 0;
}
int getpeername(int fd, struct sockaddr * a, socklen_t * n) noexcept {
  Conn * c = get(fd); if (!c) { errno = ENOTSOCK; return -1; }
  sockaddr_in s {}; s.sin_family = AF_INET; s.sin_port = htons((uint16_t) c->port); s.sin_addr.s_addr = htonl(0x0a000001u + (uint32_t) c->address);
  memcpy(a, &s, *n < sizeof s ? *n : sizeof s); *n = sizeof s; return 0;
}
int getsockname(int fd, struct sockaddr * a, socklen_t * n) noexcept {
  Conn * c = get(fd); if (!c) { errno = ENOTSOCK; return -1; }
  sockaddr_in s {}; s.sin_family = AF_INET; s.sin_port = htons((uint16_t) (40000 + c->id)); s.sin_addr.s_addr = htonl(0x0a0000ffu);
  memcpy(a, &s, *n < sizeof s ? *n : sizeof s); *n = sizeof s; return 0;
}
static int doFcntl(int fd, int cmd, long arg) {
  if (Conn * c = get(fd)) {
    if (cmd == F_GETFL) return O_RDWR | (c->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { c->nonblock = arg & O_NONBLOCK; return 0; }
  }
  return (int) syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return doFcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return doFcntl(fd, cmd, a); }
}
