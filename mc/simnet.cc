// In-process TCP model behind the socket API. Descriptors FD0..FD0+MAXFD-1 are simulated.
#include "engine.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sstream>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define VIS extern "C" __attribute__((visibility("default")))

namespace mc {
NetOpts net_opts;
static const int FD0 = 600, MAXFD = 300;

struct Sock;
typedef std::shared_ptr<Sock> SockP;
struct Sock {
  int id = 0;
  bool lib = false;              // created by library code
  bool nonblock = false;
  enum K { FRESH, LISTEN, CONNECTING, STREAM, FAILED } k = FRESH;
  sockaddr_in local{}, remote{};
  bool bound = false;
  std::deque<SockP> backlog; int backlog_max = 0;
  std::weak_ptr<Sock> peer;
  std::string rx;                // bytes received, not yet read
  bool rx_eof = false;           // peer sent FIN
  bool dead = false;             // connection is gone (reset, or both ends have sent FIN)
  bool wr_closed = false, rd_closed = false, fin = false;
  int so_error = 0;              // pending error, reported once
  int connect_result = 0;        // errno when connecting finishes, -1 never
  bool ending = false;           // shut down after a connect whose connection is gone already
  bool asked = false;            // connect has been answered with "in progress" and not been asked again
  bool linger0 = false;
  bool closed = false;
  uint64_t rx_total = 0, tx_total = 0;
};

static std::map<int, SockP> fds;
static int next_id, next_port, bad_count, created, resolves, resolve_fails;
static std::vector<SockP> held;
static std::string bad_text;
static std::map<std::string, std::string> hosts;
static std::vector<std::weak_ptr<Sock>> all_socks;

void net_reset() {
  fds.clear(); all_socks.clear(); next_id = 1; next_port = 40000; bad_count = 0; created = 0; bad_text.clear(); hosts.clear(); held.clear(); resolves = resolve_fails = 0;
  hosts["localhost"] = "127.0.0.1";
}
uint64_t net_hash() {
  uint64_t h = 17;
  for (auto& e : fds) {
    const Sock& s = *e.second;
    h = h * 1000003 + e.first; h = h * 31 + s.k; h = h * 31 + (s.rx_eof | (s.so_error != 0) << 1 | s.dead << 2 | s.wr_closed << 3);
    h = h * 1000003 + s.rx.size(); h = h * 1000003 + s.rx_total; h = h * 1000003 + s.tx_total; h = h * 31 + s.backlog.size();
  }
  return h;
}

static bool is_sim(int fd) { return fd >= FD0 && fd < FD0 + MAXFD; }
static SockP get(int fd) { auto i = fds.find(fd); return i == fds.end() ? SockP() : i->second; }
static SockP get_op(int fd, const char* op) {
  SockP s = get(fd);
  if (!s) {
    bad_count++;
    std::ostringstream m; m << op << " on closed descriptor by thread " << tl_self->name << "; ";
    if (bad_text.size() < 500) bad_text += m.str();
    trace("%s: %s on closed descriptor %d", tl_self->name.c_str(), op, fd);
    errno = EBADF;
  }
  return s;
}
static int alloc_fd(const SockP& s) {
  for (int f = FD0; f < FD0 + MAXFD; f++) if (!fds.count(f)) { fds[f] = s; return f; }
  errno = EMFILE; return -1;
}
static SockP new_sock(bool lib) { SockP s = std::make_shared<Sock>(); s->id = next_id++; s->lib = lib; created++; all_socks.push_back(s); return s; }
static bool injected() { return !tl_self->peer; }
static bool faulty(const SockP& s, int fd) { return injected() && s->lib && fd >= net_opts.fault_min_fd && (net_opts.fault_from.empty() || net_opts.fault_from == inet_ntoa(s->remote.sin_addr)); }
static bool any_ip(in_addr_t a) { return a == htonl(INADDR_ANY); }

static SockP find_listener(const sockaddr_in& a) {
  for (auto& e : fds) {
    Sock& s = *e.second;
    if (s.k == Sock::LISTEN && s.local.sin_port == a.sin_port && (any_ip(s.local.sin_addr.s_addr) || s.local.sin_addr.s_addr == a.sin_addr.s_addr || any_ip(a.sin_addr.s_addr))) return e.second;
  }
  return SockP();
}

// peers of a closed / reset connection
static void take_rst(const SockP& s) {
  if (s->dead || s->closed) { s->dead = true; return; }
  s->so_error = s->rx_eof ? EPIPE : ECONNRESET; s->dead = true;
}
static void send_rst(const SockP& s) { SockP p = s->peer.lock(); if (p) take_rst(p); s->dead = true; }
static void send_fin(const SockP& s) {
  SockP p = s->peer.lock();
  s->wr_closed = s->fin = true;
  if (p && !p->dead) p->rx_eof = true;
  if (s->rx_eof) { s->dead = true; if (p) p->dead = true; }
}
static void do_close(const SockP& s) {
  if (s->closed) return;
  s->closed = true;
  if (s->k == Sock::LISTEN) {
    for (auto& b : s->backlog) { send_rst(b); b->closed = true; }
    s->backlog.clear();
  }
  if ((s->k == Sock::STREAM || s->k == Sock::CONNECTING) && !s->dead) {
    if (s->linger0 || !s->rx.empty()) send_rst(s);
    else if (!s->fin) send_fin(s);
  }
}

// readiness ----------------------------------------------------------------------------------------
static void settle_connect(const SockP& s) {
  if (s->k != Sock::CONNECTING || s->connect_result < 0) return;
  if (s->connect_result == 0) s->k = Sock::STREAM;
  else { s->k = Sock::FAILED; s->so_error = s->connect_result; }
}
static short readiness(const SockP& s) {
  short r = 0;
  settle_connect(s);
  switch (s->k) {
    case Sock::FRESH: r = POLLOUT | POLLHUP; break;
    case Sock::LISTEN: if (!s->backlog.empty()) r |= POLLIN; break;
    case Sock::CONNECTING: break;
    case Sock::FAILED: r = POLLIN | POLLOUT | POLLHUP | (s->so_error ? POLLERR : 0); break;
    case Sock::STREAM: {
      bool rd = s->rx_eof || s->rd_closed || s->dead, wr = s->wr_closed || s->dead;
      SockP p = s->peer.lock();
      if (!s->rx.empty() || rd) r |= POLLIN;
      if (wr || !p || p->closed || p->rx.size() < net_opts.sndbuf) r |= POLLOUT;
      if (rd && wr) r |= POLLHUP;
      if (s->so_error) r |= POLLERR;
      break;
    }
  }
  return r;
}
static ssize_t sim_recv(int fd, void* buf, size_t len, int flags, const char* op) {
  sched_point(op);
  Guard g;
  SockP s = get_op(fd, op);
  if (!s) return -1;
  settle_connect(s);
  for (;;) {
    if (s->k == Sock::FAILED) { if (!s->so_error) return 0; errno = s->so_error; s->so_error = 0; return -1; }
    if (s->k != Sock::STREAM) { errno = ENOTCONN; return -1; }
    if (faulty(s, fd) && net_opts.recv_fault && choose(2, C_FAULT, "recv-reset")) {
      s->rx.clear(); send_rst(s); s->rx_eof = true; hist(77); errno = ECONNRESET; return -1;
    }
    if (!s->rx.empty()) {
      size_t n = std::min(len, s->rx.size());
      if (injected() && s->lib && net_opts.recv_max) n = std::min(n, net_opts.recv_max);
      if (injected() && s->lib && n > 1 && !(flags & MSG_PEEK)) {
        if (net_opts.recv_split == 2) { int c = choose((int)n, C_IO, "recv-length"); if (c) n = c; }
        else if (net_opts.recv_split == 1) {
          size_t alt[3] = {1, n / 2, n - 1}; int na = n == 2 ? 1 : n == 3 ? 2 : 3; if (n == 3) alt[1] = 2;
          int c = choose(na + 1, C_IO, "recv-length"); if (c) n = alt[c - 1];
        }
      }
      memcpy(buf, s->rx.data(), n);
      if (!(flags & MSG_PEEK)) { s->rx.erase(0, n); s->rx_total += n; }
      trace("%s: recv(%d) -> %zu", tl_self->name.c_str(), fd, n);
      hist(0x2000 + fd * 131 + n);
      hb_acquire(s.get());
      return n;
    }
    if (s->so_error && !s->rx_eof) { int e = s->so_error; s->so_error = 0; trace("%s: recv(%d) -> %s", tl_self->name.c_str(), fd, strerror(e)); errno = e; return -1; }
    if (s->rx_eof || s->rd_closed || s->dead) { trace("%s: recv(%d) -> EOF", tl_self->name.c_str(), fd); return 0; }
    if (s->nonblock || (flags & MSG_DONTWAIT)) { trace("%s: recv(%d) -> EAGAIN", tl_self->name.c_str(), fd); errno = EAGAIN; return -1; }
    block("recv", [s] { return !s->rx.empty() || s->rx_eof || s->dead || s->closed || s->rd_closed; });
  }
}

// would a write to a broken connection kill the process?

static bool sigpipe(int flags) {       // would the process be killed?
  if ((flags & MSG_NOSIGNAL) || !injected()) return false;
  struct sigaction sa; if (sigaction(SIGPIPE, nullptr, &sa) == 0 && sa.sa_handler != SIG_DFL && sa.sa_handler != mc_sigpipe) return false;
  sigset_t m; sigemptyset(&m); return !(pthread_sigmask(SIG_SETMASK, nullptr, &m) == 0 && sigismember(&m, SIGPIPE));
}
static ssize_t sim_send(int fd, const void* buf, size_t len, int flags, const char* op) {
  sched_point(op);
  Guard g;
  SockP s = get_op(fd, op);
  if (!s) return -1;
  settle_connect(s);
  if (s->k == Sock::FAILED) { int e = s->so_error ? s->so_error : EPIPE; s->so_error = 0; errno = e; return -1; }
  if (s->k != Sock::STREAM) { errno = s->k == Sock::CONNECTING ? EAGAIN : EPIPE; return -1; }
  if (faulty(s, fd) && net_opts.send_fault && choose(2, C_FAULT, "send-error")) {
    s->rx.clear(); send_rst(s); s->rx_eof = true;
    if (sigpipe(flags)) violation("sigpipe", "a write to a broken connection would raise SIGPIPE and kill the process");
    errno = EPIPE; return -1;
  }
  if (s->dead || s->wr_closed) {
    int e = s->so_error ? s->so_error : EPIPE; s->so_error = 0;
    if (e != EPIPE) { errno = e; return -1; }
    if (sigpipe(flags)) violation("sigpipe", "a write to a broken connection would raise SIGPIPE and kill the process");
    trace("%s: send(%d) -> EPIPE", tl_self->name.c_str(), fd);
    errno = EPIPE; return -1;
  }
  if (!len) return 0;
  for (;;) {
    SockP p = s->peer.lock();
    if (!p || p->closed) {       // the other end is fully closed: data is answered by a reset
      take_rst(s); s->tx_total += len; trace("%s: send(%d) %zu to closed peer", tl_self->name.c_str(), fd, len);
      return len;
    }
    if (s->dead) { errno = EPIPE; return -1; }
    if (p->rd_closed && p->fin) { take_rst(p); take_rst(s); s->tx_total += len; return len; }    // nobody can read it: reset
    size_t room = p->rx.size() < net_opts.sndbuf ? net_opts.sndbuf - p->rx.size() : 0;
    if (!room) {
      if (s->nonblock || (flags & MSG_DONTWAIT)) { trace("%s: send(%d) -> EAGAIN", tl_self->name.c_str(), fd); errno = EAGAIN; return -1; }
      block("send", [s, p] { return p->rx.size() < net_opts.sndbuf || p->closed || s->dead || s->closed; });
      continue;
    }
    size_t n = std::min(len, room);
    if (injected() && s->lib && net_opts.send_max) n = std::min(n, net_opts.send_max);
    if (injected() && s->lib && n > 1) {
      if (net_opts.send_split == 2) { int c = choose((int)n, C_IO, "send-length"); if (c) n = c; }
      else if (net_opts.send_split == 1) {
        size_t alt[3] = {1, n / 2, n - 1}; int na = n == 2 ? 1 : n == 3 ? 2 : 3; if (n == 3) alt[1] = 2;
        int c = choose(na + 1, C_IO, "send-length"); if (c) n = alt[c - 1];
      }
    }
    p->rx.append((const char*)buf, n); s->tx_total += n;
    trace("%s: send(%d) %zu of %zu", tl_self->name.c_str(), fd, n, len);
    hist(0x3000 + fd * 131 + n);
    hb_release(p.get());
    return n;
  }
}

// ---- harness helpers -----------------------------------------------------------------------------
namespace net {
void add_host(const std::string& n, const std::string& ip) { Guard g; hosts[n] = ip; }
std::vector<int> open_fds(bool lib) { Guard g; std::vector<int> r; for (auto& e : fds) if (!lib || e.second->lib) r.push_back(e.first); return r; }
int bad_ops() { return bad_count; }
std::string bad_ops_text() { return bad_text; }
std::string remote_ip(int fd) { Guard g; SockP s = get(fd); return s ? inet_ntoa(s->remote.sin_addr) : ""; }
int sockets_created() { return created; }
int resolver_calls() { return resolves; }
int resolver_failures() { return resolve_fails; }
void release_connects(bool refuse) {
  Guard g; std::vector<SockP> v; v.swap(held);
  for (auto& s : v) {
    if (s->closed || s->k != Sock::CONNECTING) continue;
    SockP l = refuse ? SockP() : find_listener(s->remote);
    if (!l) { s->connect_result = ECONNREFUSED; continue; }
    SockP c = new_sock(false); created--;
    c->k = Sock::STREAM; c->local = l->local; c->remote = s->local; c->peer = s; s->peer = c;
    l->backlog.push_back(c); s->connect_result = 0;
  }
  hist(0x6100 + (int)v.size());
}
static sockaddr_in mk(const std::string& ip, int port) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr(ip.c_str()); return a; }
int tcp_connect(const std::string& ip, int port, const std::string& from) {
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  if (fd < 0) return -1;
  sockaddr_in l = mk(from, 0); ::bind(fd, (sockaddr*)&l, sizeof l);
  sockaddr_in a = mk(ip, port);
  if (::connect(fd, (sockaddr*)&a, sizeof a)) { ::close(fd); return -1; }
  return fd;
}
int tcp_listen(const std::string& ip, int port, int backlog) {
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a = mk(ip, port);
  if (::bind(fd, (sockaddr*)&a, sizeof a) || ::listen(fd, backlog)) { ::close(fd); return -1; }
  return fd;
}
int tcp_accept(int l, int64_t to) {
  if (to >= 0) { struct pollfd p = {l, POLLIN, 0}; if (::poll(&p, 1, (int)to) <= 0) return -1; }
  return ::accept(l, nullptr, nullptr);
}
bool send_all(int fd, const std::string& d) {
  size_t o = 0;
  while (o < d.size()) { ssize_t n = ::send(fd, d.data() + o, d.size() - o, MSG_NOSIGNAL); if (n <= 0) return false; o += n; }
  return true;
}
std::string recv_some(int fd, size_t max) {
  std::string b;
  size_t have = 0; { Guard g; SockP s = get(fd); if (s) have = s->rx.size(); }
  { Guard g; b.resize(std::min(max, std::max(have, (size_t)4096))); }
  ssize_t n = ::recv(fd, &b[0], b.size(), 0);
  Guard g; b.resize(n > 0 ? n : 0); return b;
}
bool recv_would_block(int fd) { Guard g; SockP s = get(fd); return s && s->rx.empty() && !s->rx_eof && !s->dead; }
bool peer_gone(int fd) { Guard g; SockP s = get(fd); return !s || s->rx_eof || s->dead; }
void reset(int fd) { sched_point("reset"); Guard g; SockP s = get(fd); if (!s) return; s->linger0 = true; fds.erase(fd); do_close(s); }
void close_fd(int fd) { ::close(fd); }
void shut_wr(int fd) { ::shutdown(fd, SHUT_WR); }
}
}  // namespace mc

using namespace mc;

#define PASS(...) return syscall(__VA_ARGS__)

VIS int socket(int d, int t, int p) {
  if (!managed() || d != AF_INET) PASS(SYS_socket, d, t, p);
  sched_point("socket");
  Guard g;
  if (injected() && net_opts.socket_fault && choose(2, C_FAULT, "socket-emfile")) { errno = EMFILE; return -1; }
  SockP s = new_sock(injected());
  if (t & SOCK_NONBLOCK) s->nonblock = true;
  int fd = alloc_fd(s);
  trace("%s: socket -> %d", tl_self->name.c_str(), fd);
  return fd;
}
VIS int bind(int fd, const struct sockaddr* a, socklen_t n) {
  if (!managed() || !is_sim(fd)) PASS(SYS_bind, fd, a, n);
  sched_point("bind"); Guard g;
  SockP s = get_op(fd, "bind"); if (!s) return -1;
  sockaddr_in in = *(const sockaddr_in*)a;
  if (injected() && net_opts.bind_fault && choose(2, C_FAULT, "bind-inuse")) { errno = EADDRINUSE; return -1; }
  if (!in.sin_port) in.sin_port = htons(next_port++);
  for (auto& e : fds) if (e.second->k == Sock::LISTEN && e.second->local.sin_port == in.sin_port &&
      (any_ip(in.sin_addr.s_addr) || any_ip(e.second->local.sin_addr.s_addr) || e.second->local.sin_addr.s_addr == in.sin_addr.s_addr)) { errno = EADDRINUSE; return -1; }
  s->local = in; s->bound = true; return 0;
}
VIS int listen(int fd, int b) {
  if (!managed() || !is_sim(fd)) PASS(SYS_listen, fd, b);
  sched_point("listen"); Guard g;
  SockP s = get_op(fd, "listen"); if (!s) return -1;
  if (!s->bound) { s->local.sin_family = AF_INET; s->local.sin_port = htons(next_port++); s->local.sin_addr.s_addr = INADDR_ANY; s->bound = true; }
  s->k = Sock::LISTEN; s->backlog_max = b; trace("%s: listen(%d)", tl_self->name.c_str(), fd); return 0;
}
static int sim_accept(int fd, struct sockaddr* a, socklen_t* n, int flags) {
  sched_point("accept"); Guard g;
  SockP s = get_op(fd, "accept"); if (!s) return -1;
  if (s->k != Sock::LISTEN) { errno = EINVAL; return -1; }
  if (injected() && net_opts.accept_fault && (net_opts.fault_from.empty() || (!s->backlog.empty() && net_opts.fault_from == inet_ntoa(s->backlog.front()->remote.sin_addr)))) {
    int c = choose(4, C_FAULT, "accept-error");
    if (c == 1) { if (!s->backlog.empty()) { SockP b = s->backlog.front(); s->backlog.pop_front(); send_rst(b); b->closed = true; } errno = ECONNABORTED; return -1; }
    if (c == 2) { errno = EMFILE; return -1; }
    if (c == 3) { errno = EINTR; return -1; }
  }
  while (s->backlog.empty()) {
    if (s->nonblock) { errno = EAGAIN; return -1; }
    block("accept", [s] { return !s->backlog.empty() || s->closed; });
    if (s->closed) { errno = EINVAL; return -1; }
  }
  SockP c = s->backlog.front(); 
  int nf = alloc_fd(c); if (nf < 0) return -1;
  s->backlog.pop_front();
  c->lib = injected(); c->nonblock = flags & SOCK_NONBLOCK;
  if (a && n) { memcpy(a, &c->remote, std::min<size_t>(*n, sizeof(sockaddr_in))); *n = sizeof(sockaddr_in); }
  trace("%s: accept(%d) -> %d", tl_self->name.c_str(), fd, nf);
  hist(0x4000 + nf);
  return nf;
}
VIS int accept(int fd, struct sockaddr* a, socklen_t* n) { if (!managed() || !is_sim(fd)) PASS(SYS_accept, fd, a, n); return sim_accept(fd, a, n, 0); }
VIS int accept4(int fd, struct sockaddr* a, socklen_t* n, int fl) { if (!managed() || !is_sim(fd)) PASS(SYS_accept4, fd, a, n, fl); return sim_accept(fd, a, n, fl); }

VIS int connect(int fd, const struct sockaddr* a, socklen_t n) {
  if (!managed() || !is_sim(fd)) PASS(SYS_connect, fd, a, n);
  sched_point("connect"); Guard g;
  SockP s = get_op(fd, "connect"); if (!s) return -1;
  sockaddr_in in = *(const sockaddr_in*)a;
  trace("%s: connect(%d) to %s:%d", tl_self->name.c_str(), fd, inet_ntoa(in.sin_addr), ntohs(in.sin_port));
  settle_connect(s);
  if (s->k == Sock::CONNECTING) { errno = EALREADY; return -1; }
  if (s->asked) {                // the result of the connect that went on in the background
    s->asked = false;
    if (s->k == Sock::STREAM && !s->dead) return 0;
    int e = s->so_error ? s->so_error : ECONNABORTED; s->so_error = 0; s->k = Sock::FRESH; s->dead = false; s->rx_eof = s->fin = s->wr_closed = s->rd_closed = false; errno = e; return -1;
  }
  if (s->k == Sock::FAILED || s->ending) { errno = EINVAL; return -1; }
  if (s->k == Sock::STREAM) { errno = EISCONN; return -1; }
  if (!s->bound) { s->local.sin_family = AF_INET; s->local.sin_port = htons(next_port++); s->local.sin_addr.s_addr = htonl(INADDR_LOOPBACK); s->bound = true; }
  s->remote = in;
  SockP l = find_listener(in);
  int mode = 0;   // 0 normal, 1 the other of immediate/in-progress, 2 refused now, 3 refused later, 4 never
  if (injected() && net_opts.connect_modes && s->nonblock) mode = choose(5, C_FAULT, "connect-mode");
  if (mode == 2) l.reset();
  bool full = l && (int)l->backlog.size() > l->backlog_max;
  if (injected() && net_opts.connect_hold && s->nonblock) {
    held.push_back(s); s->k = Sock::CONNECTING; s->connect_result = -1; errno = EINPROGRESS; return -1;
  }
  if (mode == 4 || full) {
    if (!s->nonblock) { block("connect", [] { return false; }); }
    s->k = Sock::CONNECTING; s->connect_result = -1; errno = EINPROGRESS; return -1;
  }
  if (!l) {
    if (s->nonblock && net_opts.connect_inprogress != (mode == 1) && mode != 2) { s->k = Sock::CONNECTING; s->asked = true; s->connect_result = ECONNREFUSED; errno = EINPROGRESS; return -1; }
    errno = ECONNREFUSED; return -1;
  }
  if (mode == 3) { s->k = Sock::CONNECTING; s->asked = true; s->connect_result = ECONNREFUSED; errno = EINPROGRESS; return -1; }
  SockP c = new_sock(false); created--;
  c->k = Sock::STREAM; c->local = l->local; c->remote = s->local; c->peer = s; s->peer = c;
  // keep the server end alive through the backlog
  l->backlog.push_back(c);
  hist(0x5000 + fd);
  bool inprog = s->nonblock && (net_opts.connect_inprogress != (mode == 1));
  if (inprog) { s->k = Sock::CONNECTING; s->asked = true; s->connect_result = 0; errno = EINPROGRESS; return -1; }
  s->k = Sock::STREAM;
  return 0;
}
// the kernel reads and writes the caller's buffers
#define PC_ __builtin_return_address(0)
static ssize_t got_in(void* b, ssize_t n, void* pc) { if (n > 0) race_access(b, n, true, pc); return n; }
VIS ssize_t recv(int fd, void* b, size_t n, int f) { if (!managed() || !is_sim(fd)) PASS(SYS_recvfrom, fd, b, n, f, nullptr, nullptr); return got_in(b, sim_recv(fd, b, n, f, "recv"), PC_); }
VIS ssize_t recvfrom(int fd, void* b, size_t n, int f, struct sockaddr* a, socklen_t* al) { if (!managed() || !is_sim(fd)) PASS(SYS_recvfrom, fd, b, n, f, a, al); return got_in(b, sim_recv(fd, b, n, f, "recv"), PC_); }
VIS ssize_t read(int fd, void* b, size_t n) { if (!managed() || !is_sim(fd)) PASS(SYS_read, fd, b, n); return got_in(b, sim_recv(fd, b, n, 0, "read"), PC_); }
VIS ssize_t send(int fd, const void* b, size_t n, int f) { if (!managed() || !is_sim(fd)) PASS(SYS_sendto, fd, b, n, f, nullptr, 0); race_access(b, n, false, PC_); return sim_send(fd, b, n, f, "send"); }
VIS ssize_t sendto(int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t al) { if (!managed() || !is_sim(fd)) PASS(SYS_sendto, fd, b, n, f, a, al); race_access(b, n, false, PC_); return sim_send(fd, b, n, f, "send"); }
VIS ssize_t write(int fd, const void* b, size_t n) { if (!managed() || !is_sim(fd)) PASS(SYS_write, fd, b, n); race_access(b, n, false, PC_); return sim_send(fd, b, n, 0, "write"); }
VIS ssize_t sendmsg(int fd, const struct msghdr* m, int f) {
  if (!managed() || !is_sim(fd)) PASS(SYS_sendmsg, fd, m, f);
  std::string d; { Guard g; for (size_t i = 0; i < m->msg_iovlen; i++) d.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); }
  ssize_t r = sim_send(fd, d.data(), d.size(), f, "sendmsg"); Guard g; d = std::string(); return r;
}
VIS ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!managed() || !is_sim(fd)) PASS(SYS_writev, fd, v, c);
  std::string d; { Guard g; for (int i = 0; i < c; i++) d.append((char*)v[i].iov_base, v[i].iov_len); }
  ssize_t r = sim_send(fd, d.data(), d.size(), 0, "writev"); Guard g; d = std::string(); return r;
}
VIS int shutdown(int fd, int how) {
  if (!managed() || !is_sim(fd)) PASS(SYS_shutdown, fd, how);
  sched_point("shutdown"); Guard g;
  SockP s = get_op(fd, "shutdown"); if (!s) return -1;
  settle_connect(s);
  if (s->asked && s->dead) s->ending = true;
  s->asked = false;
  if (s->k != Sock::STREAM || s->dead) {
    if (how != SHUT_RD) s->wr_closed = true;
    if (how != SHUT_WR) s->rd_closed = true; errno = ENOTCONN; return -1; }
  if (how == SHUT_WR || how == SHUT_RDWR) { if (!s->fin) send_fin(s); }
  if (how == SHUT_RD || how == SHUT_RDWR) s->rd_closed = true;
  trace("%s: shutdown(%d,%d)", tl_self->name.c_str(), fd, how);
  return 0;
}
VIS int close(int fd) {
  if (!managed() || !is_sim(fd)) PASS(SYS_close, fd);
  sched_point("close"); Guard g;
  SockP s = get_op(fd, "close"); if (!s) return -1;
  trace("%s: close(%d)", tl_self->name.c_str(), fd);
  fds.erase(fd); do_close(s); hist(0x6000 + fd);
  return 0;
}
VIS int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!managed() || !is_sim(fd)) PASS(SYS_fcntl, fd, cmd, arg);
  Guard g; SockP s = get_op(fd, "fcntl"); if (!s) return -1;
  if (cmd == F_SETFL) {
    if (faulty(s, fd) && net_opts.fcntl_fault && choose(2, C_FAULT, "fcntl-error")) { errno = EINVAL; return -1; }
    s->nonblock = arg & O_NONBLOCK; return 0;
  }
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  return 0;
}
VIS int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
VIS int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); void* arg = va_arg(ap, void*); va_end(ap);
  if (!managed() || !is_sim(fd)) PASS(SYS_ioctl, fd, rq, arg);
  Guard g; SockP s = get_op(fd, "ioctl"); if (!s) return -1;
  if (rq == FIONBIO) s->nonblock = *(int*)arg != 0;
  if (rq == FIONREAD) *(int*)arg = (int)s->rx.size();
  return 0;
}
VIS int setsockopt(int fd, int l, int o, const void* v, socklen_t n) {
  if (!managed() || !is_sim(fd)) PASS(SYS_setsockopt, fd, l, o, v, n);
  Guard g; SockP s = get_op(fd, "setsockopt"); if (!s) return -1;
  if (l == SOL_SOCKET && o == SO_LINGER) { const struct linger* lg = (const struct linger*)v; s->linger0 = lg->l_onoff && lg->l_linger == 0; }
  return 0;
}
VIS int getsockopt(int fd, int l, int o, void* v, socklen_t* n) {
  if (!managed() || !is_sim(fd)) PASS(SYS_getsockopt, fd, l, o, v, n);
  Guard g; SockP s = get_op(fd, "getsockopt"); if (!s) return -1;
  int val = 0;
  settle_connect(s);
  if (l == SOL_SOCKET && o == SO_ERROR) { val = s->so_error; s->so_error = 0; }
  if (l == SOL_SOCKET && o == SO_TYPE) val = SOCK_STREAM;
  memcpy(v, &val, std::min<size_t>(*n, sizeof val)); *n = sizeof val; return 0;
}
VIS int getsockname(int fd, struct sockaddr* a, socklen_t* n) {
  if (!managed() || !is_sim(fd)) PASS(SYS_getsockname, fd, a, n);
  Guard g; SockP s = get_op(fd, "getsockname"); if (!s) return -1;
  memcpy(a, &s->local, std::min<size_t>(*n, sizeof(sockaddr_in))); *n = sizeof(sockaddr_in); return 0;
}
VIS int getpeername(int fd, struct sockaddr* a, socklen_t* n) {
  if (!managed() || !is_sim(fd)) PASS(SYS_getpeername, fd, a, n);
  Guard g; SockP s = get_op(fd, "getpeername"); if (!s) return -1;
  if (s->k != Sock::STREAM) { errno = ENOTCONN; return -1; }
  memcpy(a, &s->remote, std::min<size_t>(*n, sizeof(sockaddr_in))); *n = sizeof(sockaddr_in); return 0;
}

static int poll_eval(struct pollfd* p, nfds_t n) {
  int c = 0;
  for (nfds_t i = 0; i < n; i++) {
    p[i].revents = 0;
    if (p[i].fd < 0) continue;
    SockP s = get(p[i].fd);
    if (!s) p[i].revents = POLLNVAL;
    else p[i].revents = readiness(s) & (p[i].events | POLLERR | POLLHUP);
    if (p[i].revents) c++;
  }
  return c;
}
VIS int poll(struct pollfd* p, nfds_t n, int to) {
  bool sim = false;
  if (managed()) { for (nfds_t i = 0; i < n; i++) if (is_sim(p[i].fd)) sim = true; if (n == 0) sim = true; }
  if (!sim) PASS(SYS_poll, p, n, to);
  sched_point("poll"); Guard g;
  int64_t dl = to < 0 ? -1 : vnow() + to;
  // a signal may arrive at once or, when nothing happens meanwhile, in the middle of the wait
  int intr = injected() && net_opts.poll_eintr && to != 0 ? choose(3, C_FAULT, "poll-eintr") : 0;
  if (intr == 2 && block("poll", [p, n] { return poll_eval(p, n) > 0; }, vnow() + (to > 0 ? to / 2 : 10))) intr = 0;
  if (intr) {
    for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
    trace("%s: poll -> EINTR", tl_self->name.c_str());
    errno = EINTR; return -1;
  }
  for (nfds_t i = 0; i < n; i++) if (!get(p[i].fd)) { bad_count++; if (bad_text.size() < 500) bad_text += "poll on closed descriptor; "; }
  int c = poll_eval(p, n);
  if (!c && to != 0) {
    block("poll", [p, n] { return poll_eval(p, n) > 0; }, dl);
    c = poll_eval(p, n);
  }
  if (c) for (nfds_t i = 0; i < n; i++) if (p[i].revents) { SockP s = get(p[i].fd); if (s) settle_connect(s); }
  if (tracing()) { std::ostringstream o; for (nfds_t i = 0; i < n; i++) o << " " << p[i].fd << ":" << p[i].events << ">" << p[i].revents; trace("%s: poll(to=%d)%s -> %d", tl_self->name.c_str(), to, o.str().c_str(), c); }
  return c;
}
VIS int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t* m) {
  if (!managed()) PASS(SYS_ppoll, p, n, ts, m, 8);
  return poll(p, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1);
}
VIS int select(int nf, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  std::vector<struct pollfd> v;
  bool sim = false;
  if (managed()) {
    Guard g;
    for (int f = FD0; f < nf && f < FD0 + MAXFD; f++) {
      short ev = 0; bool any = false;
      if (r && FD_ISSET(f, r)) { ev |= POLLIN; any = true; }
      if (w && FD_ISSET(f, w)) { ev |= POLLOUT; any = true; }
      if (e && FD_ISSET(f, e)) { ev |= POLLPRI; any = true; }
      if (any) { v.push_back(pollfd{f, ev, 0}); sim = true; }
    }
  }
  if (!sim) { { Guard g; v = std::vector<struct pollfd>(); } PASS(SYS_select, nf, r, w, e, tv); }
  if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) { errno = EINVAL; Guard g; v = std::vector<struct pollfd>(); return -1; }
  int c = poll(v.data(), v.size(), tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
  Guard g;
  if (c >= 0) {
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    c = 0;
    for (auto& p : v) {
      if (p.revents & POLLNVAL) { errno = EBADF; c = -1; break; }
      if ((p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p.fd, r); c++; }
      if ((p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); c++; }
    }
  }
  v = std::vector<struct pollfd>();
  return c;
}

// ---- resolver ------------------------------------------------------------------------------------
static bool resolve(const char* name, std::vector<in_addr>& v) {
  in_addr a;
  if (inet_aton(name, &a)) { v.push_back(a); return true; }
  auto i = hosts.find(name);
  if (i == hosts.end()) return false;
  std::istringstream ss(i->second); std::string w;
  while (ss >> w) if (inet_aton(w.c_str(), &a)) v.push_back(a);
  return !v.empty();
}
VIS int gethostbyname_r(const char* name, struct hostent* h, char* buf, size_t n, struct hostent** res, int* err) {
  if (!managed()) {
    static decltype(&::gethostbyname_r) real = nullptr;
    if (!real) real = (decltype(&::gethostbyname_r))dlsym(RTLD_NEXT, "gethostbyname_r");
    return real(name, h, buf, n, res, err);
  }
  sched_point("resolve"); 
  Guard g;
  std::vector<in_addr> v;
  int mode = injected() && net_opts.resolve_fault ? choose(2, C_FAULT, "resolve-fails") : 0;
  trace("%s: resolve(%s)%s", tl_self->name.c_str(), name, mode ? " fails" : "");
  resolves++;
  if (mode || !resolve(name, v)) { resolve_fails++; *res = nullptr; *err = mode ? TRY_AGAIN : HOST_NOT_FOUND; return mode ? EAGAIN : 0; }
  size_t len = strlen(name) + 1, need = 16 + v.size() * sizeof(in_addr) + (v.size() + 2) * sizeof(char*) + len;
  if (n < need) { *res = nullptr; *err = NETDB_INTERNAL; errno = ERANGE; return ERANGE; }
  char* p = (char*)(((uintptr_t)buf + 7) & ~(uintptr_t)7);
  char** list = (char**)p; char** alias = list + v.size() + 1; in_addr* as = (in_addr*)(alias + 1); char* nm = (char*)(as + v.size());
  for (size_t i = 0; i < v.size(); i++) { as[i] = v[i]; list[i] = (char*)&as[i]; }
  list[v.size()] = nullptr; alias[0] = nullptr; memcpy(nm, name, len);
  h->h_name = nm; h->h_aliases = alias; h->h_addrtype = AF_INET; h->h_length = 4; h->h_addr_list = list;
  *res = h; *err = 0; return 0;
}
__attribute__((weak)) VIS int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** res) {
  if (!managed()) {
    static decltype(&::getaddrinfo) real = nullptr;
    if (!real) real = (decltype(&::getaddrinfo))dlsym(RTLD_NEXT, "getaddrinfo");
    return real(node, service, hints, res);
  }
  sched_point("resolve");
  Guard g;
  std::vector<in_addr> v;
  int mode = injected() && net_opts.resolve_fault ? choose(2, C_FAULT, "resolve-fails") : 0;
  trace("%s: getaddrinfo(%s)%s", tl_self->name.c_str(), node ? node : "", mode ? " fails" : "");
  resolves++;
  if (mode) { resolve_fails++; return EAI_AGAIN; }
  if (!node) { in_addr a; a.s_addr = htonl(hints && (hints->ai_flags & AI_PASSIVE) ? INADDR_ANY : INADDR_LOOPBACK); v.push_back(a); }
  else if (!resolve(node, v)) { resolve_fails++; return EAI_NONAME; }
  struct addrinfo** at = res; *res = nullptr;
  for (auto& a : v) {
    struct N { struct addrinfo ai; sockaddr_in sa; }* n = (N*)calloc(1, sizeof(N));
    n->sa.sin_family = AF_INET; n->sa.sin_addr = a; n->sa.sin_port = htons(service ? atoi(service) : 0);
    n->ai.ai_family = AF_INET; n->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; n->ai.ai_protocol = hints ? hints->ai_protocol : 0;
    n->ai.ai_addrlen = sizeof(sockaddr_in); n->ai.ai_addr = (sockaddr*)&n->sa; *at = &n->ai; at = &n->ai.ai_next;
  }
  return 0;
}
__attribute__((weak)) VIS void freeaddrinfo(struct addrinfo* a) {
  if (!managed()) {
    static decltype(&::freeaddrinfo) real = nullptr;
    if (!real) real = (decltype(&::freeaddrinfo))dlsym(RTLD_NEXT, "freeaddrinfo");
    real(a); return;
  }
  Guard g; while (a) { struct addrinfo* n = a->ai_next; free(a); a = n; }
}
VIS struct hostent* gethostbyname(const char* name) {
  if (!managed()) {
    static decltype(&::gethostbyname) real = nullptr;
    if (!real) real = (decltype(&::gethostbyname))dlsym(RTLD_NEXT, "gethostbyname");
    return real(name);
  }
  static struct hostent h; static char buf[65536]; struct hostent* r; int e;
  gethostbyname_r(name, &h, buf, sizeof buf, &r, &e); return r;
}
VIS int gethostname(char* b, size_t n) { snprintf(b, n, "localhost"); return 0; }
