// The simulated kernel against the real one: every sequence of operations on both ends of a connection, inside
// the bound, is carried out on simulated sockets and on real loopback sockets; the answers must be the same.
// Run by hand (check --conformance): it uses the real network stack, so it is not a part of any registered check.
#include "mc.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/net.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdio.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace mc;
namespace {
int r_socket(bool R) { return R ? (int)syscall(SYS_socket, AF_INET, SOCK_STREAM, 0) : socket(AF_INET, SOCK_STREAM, 0); }
int r_bind(bool R, int f, sockaddr_in* a) { return R ? (int)syscall(SYS_bind, f, a, sizeof *a) : bind(f, (sockaddr*)a, sizeof *a); }
int r_listen(bool R, int f) { return R ? (int)syscall(SYS_listen, f, 5) : listen(f, 5); }
int r_name(bool R, int f, sockaddr_in* a) { socklen_t l = sizeof *a; return R ? (int)syscall(SYS_getsockname, f, a, &l) : getsockname(f, (sockaddr*)a, &l); }
int r_connect(bool R, int f, sockaddr_in* a) { return R ? (int)syscall(SYS_connect, f, a, sizeof *a) : connect(f, (sockaddr*)a, sizeof *a); }
int r_accept(bool R, int f) { return R ? (int)syscall(SYS_accept, f, nullptr, nullptr) : accept(f, nullptr, nullptr); }
ssize_t r_send(bool R, int f, const char* d, size_t n) { return R ? syscall(SYS_sendto, f, d, n, MSG_NOSIGNAL, nullptr, 0) : send(f, d, n, MSG_NOSIGNAL); }
ssize_t r_recv(bool R, int f, char* d, size_t n) { return R ? syscall(SYS_recvfrom, f, d, n, 0, nullptr, nullptr) : recv(f, d, n, 0); }
int r_shut(bool R, int f, int h) { return R ? (int)syscall(SYS_shutdown, f, h) : shutdown(f, h); }
int r_close(bool R, int f) { return R ? (int)syscall(SYS_close, f) : close(f); }
int r_poll(bool R, pollfd* p, int n) { return R ? (int)syscall(SYS_poll, p, n, 0) : poll(p, n, 0); }
int r_nb(bool R, int f) { return R ? (int)syscall(SYS_fcntl, f, F_SETFL, O_NONBLOCK) : fcntl(f, F_SETFL, O_NONBLOCK); }
int r_err(bool R, int f) { int e = 0; socklen_t l = sizeof e; int c = R ? (int)syscall(SYS_getsockopt, f, SOL_SOCKET, SO_ERROR, &e, &l) : getsockopt(f, SOL_SOCKET, SO_ERROR, &e, &l); return c ? -1 : e; }
int r_linger(bool R, int f) { struct linger g = {1, 0}; return R ? (int)syscall(SYS_setsockopt, f, SOL_SOCKET, SO_LINGER, &g, sizeof g) : setsockopt(f, SOL_SOCKET, SO_LINGER, &g, sizeof g); }
int r_select(bool R, int f, fd_set* r, fd_set* w, fd_set* e) { timeval t = {0, 0}; return R ? (int)syscall(SYS_select, f + 1, r, w, e, &t) : select(f + 1, r, w, e, &t); }

// a full table of sockets that wait for their last minute to pass makes the kernel drop connections: ask again later
const int PATIENCE = 2;
void rest() { timespec t = {10, 0}; syscall(SYS_nanosleep, &t, nullptr); }

enum { SEND, RECV, RECV_ALL, SHUT_W, SHUT_RW, CLOSE, RST, POLL, SELECT, SO_ERR, NOPS };
const char* ON[] = {"send", "recv1", "recv", "shut-wr", "shut-rdwr", "close", "reset", "poll", "select", "so-error"};

struct Pair {
  bool R; int l = -1, fd[2] = {-1, -1}; bool ok = false; int sent[2] = {0, 0};
  explicit Pair(bool r) : R(r) {
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(R ? 0 : 3000); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    static unsigned turn; if (R) a.sin_addr.s_addr = htonl(0x7f000001 + ((getpid() % 251) << 16) + ((turn++ / 500 % 251) << 8));   // ports stay in use for a while: move on
    l = r_socket(R); if (r_bind(R, l, &a) || r_listen(R, l) || r_name(R, l, &a)) return;
    fd[0] = r_socket(R); if (r_connect(R, fd[0], &a)) return;
    fd[1] = r_accept(R, l); if (fd[1] < 0) return;
    if (R) for (int f : fd) { int one = 1; syscall(SYS_setsockopt, f, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }   // no waiting for acknowledgements
    r_nb(R, fd[0]); r_nb(R, fd[1]); ok = true;
  }
  ~Pair() { for (int f : {fd[0], fd[1]}) if (f >= 0) { r_linger(R, f); r_close(R, f); } if (l >= 0) r_close(R, l); }
  std::string res(long r) { int e = errno; return r < 0 ? std::string(strerrorname_np(e)) : std::to_string(r); }
  std::string step(int side, int op) {
    int& f = fd[side]; if (f < 0) return "-";
    char b[64];
    switch (op) {
      case SEND: { b[0] = 'a' + sent[side]; b[1] = 'A' + sent[side]; sent[side]++; return res(r_send(R, f, b, 2)); }
      case RECV: case RECV_ALL: { errno = 0; ssize_t n = r_recv(R, f, b, op == RECV ? 1 : 60); std::string s = res(n); if (n > 0) s += ":" + std::string(b, n); return s; }
      case SHUT_W: return res(r_shut(R, f, SHUT_WR));
      case SHUT_RW: return res(r_shut(R, f, SHUT_RDWR));
      case CLOSE: { std::string s = res(r_close(R, f)); f = -1; return s; }
      case RST: { r_linger(R, f); std::string s = res(r_close(R, f)); f = -1; return s; }
      case POLL: { pollfd p{f, POLLIN | POLLOUT, 0}; int n = r_poll(R, &p, 1); std::string s = res(n); for (auto& x : {std::pair<int, const char*>{POLLIN, " IN"}, {POLLOUT, " OUT"}, {POLLERR, " ERR"}, {POLLHUP, " HUP"}}) if (p.revents & x.first) s += x.second; return s; }
      case SELECT: { fd_set r, w, e; FD_ZERO(&r); FD_ZERO(&w); FD_ZERO(&e); FD_SET(f, &r); FD_SET(f, &w); FD_SET(f, &e); int n = r_select(R, f, &r, &w, &e); return res(n) + (FD_ISSET(f, &r) ? " R" : "") + (FD_ISSET(f, &w) ? " W" : "") + (FD_ISSET(f, &e) ? " E" : ""); }
      case SO_ERR: { int e = r_err(R, f); return e > 0 ? strerrorname_np(e) : std::to_string(e); }
    }
    return "?";
  }
};
std::string run(bool R, const std::vector<int>& ops, std::string& text) {
  Pair p(R); std::string out = p.ok ? "" : "cannot connect"; text.clear();
  for (int o : ops) { std::string s = p.step(o / NOPS, o % NOPS); out += s + "; "; text += std::string(o / NOPS ? "S." : "C.") + ON[o % NOPS] + " = " + s + "; "; }
  for (int s = 0; s < 2; s++) for (int o : {(int)POLL, (int)RECV_ALL, (int)RECV_ALL}) { std::string x = p.step(s, o); out += x + "; "; text += std::string(s ? "S." : "C.") + ON[o] + " = " + x + "; "; }
  return out;
}
// making connections: a client that does not wait, a listening socket with nobody in a hurry to accept
const char* CN[] = {"C.connect", "C.connect-refused", "C.poll", "C.select", "C.send", "C.recv", "C.so-error", "C.shut-wr", "C.close", "L.poll", "L.accept", "L.close", "S.poll", "S.send", "S.recv", "S.close"};
std::string connecting(bool R, const std::vector<int>& ops, std::string& text) {
  Pair p(R); text.clear();
  if (!p.ok) return "cannot set up";
  sockaddr_in a{}; r_name(R, p.l, &a);
  sockaddr_in no = a;
  { int f = r_socket(R); no.sin_port = htons(R ? 0 : 3001); r_bind(R, f, &no); r_name(R, f, &no); r_close(R, f); }    // a port nobody listens on
  for (int i = 0; i < 2; i++) { r_linger(R, p.fd[i]); r_close(R, p.fd[i]); p.fd[i] = -1; }
  p.fd[0] = r_socket(R); r_nb(R, p.fd[0]); r_nb(R, p.l);
  std::string out; bool gone = false;
  static const int LOCAL[] = {-1, -1, POLL, SELECT, SEND, RECV_ALL, SO_ERR, SHUT_W, CLOSE};
  auto one = [&](int o) {
    std::string s;
    if (o < 2) s = p.fd[0] < 0 ? "-" : p.res(r_connect(R, p.fd[0], o ? &no : &a));
    else if (o < 9) s = p.step(0, LOCAL[o]);
    else if (o == 9) { if (gone) s = "-"; else { pollfd q{p.l, POLLIN | POLLOUT, 0}; s = p.res(r_poll(R, &q, 1)) + "/" + std::to_string(q.revents); } }
    else if (o == 10) { if (gone || p.fd[1] >= 0) s = "-"; else { int n = r_accept(R, p.l); s = n < 0 ? p.res(n) : "accepted"; if (n >= 0) { p.fd[1] = n; r_nb(R, n); if (R) { int v = 1; syscall(SYS_setsockopt, n, IPPROTO_TCP, TCP_NODELAY, &v, sizeof v); } } } }
    else if (o == 11) { if (gone) s = "-"; else { s = p.res(r_close(R, p.l)); p.l = -1; gone = true; } }
    else s = p.step(1, o == 12 ? (int)POLL : o == 13 ? (int)SEND : o == 14 ? (int)RECV_ALL : (int)CLOSE);
    out += s + "; "; text += std::string(CN[o]) + " = " + s + "; ";
  };
  for (int o : ops) one(o);
  for (int o : {2, 5, 6, 9, 12, 14}) one(o);
  return out;
}
void connects(int depth) {
  std::vector<int> ops; { Guard g; ops.reserve(16); }
  for (int i = 0; i < depth; i++) { int o = choose(16, C_FREE, "operation"); Guard g; ops.push_back(o); }
  net_opts.connect_inprogress = true;
  std::string a, b, ta, tb;
  { AsLib al; a = connecting(false, ops, ta); }
  { Guard g; b = connecting(true, ops, tb); for (int i = 0; a != b && i < PATIENCE; i++) { rest(); b = connecting(true, ops, tb); } }
  Guard g; outcome(b);
  if (a != b) violation("kernel", "\n  simulated: " + ta + "\n  real:      " + tb);
  a = b = ta = tb = std::string(); ops = std::vector<int>();
}
void sequences(int depth) {
  std::vector<int> ops; { Guard g; ops.reserve(16); }
  for (int i = 0; i < depth; i++) { int o = choose(2 * NOPS, C_FREE, "operation"); Guard g; ops.push_back(o); }
  std::string a, b, ta, tb;
  { AsLib al; a = run(false, ops, ta); }
  { Guard g; b = run(true, ops, tb); for (int i = 0; a != b && i < PATIENCE; i++) { rest(); b = run(true, ops, tb); } }
  Guard g; outcome(b);
  if (a != b) violation("kernel", "\n  simulated: " + ta + "\n  real:      " + tb);
  a = b = ta = tb = std::string(); ops = std::vector<int>();
}
}
int main(int argc, char** argv) {
  return driver_main(argc, argv, [](Driver& D) {
    for (int d = 1; d <= (D.quick() ? 4 : 5); d++) { Scenario s; s.name = "sequences-" + std::to_string(d); s.note = "every sequence of operations on both ends of a connection"; s.run = [d] { sequences(d); }; s.managed = true; s.leaks = false; D.scenarios.push_back(s); }
    for (int d = 1; d <= (D.quick() ? 4 : 5); d++) { Scenario s; s.name = "connecting-" + std::to_string(d); s.note = "every sequence of operations around connect and accept"; s.run = [d] { connects(d); }; s.managed = true; s.leaks = false; D.scenarios.push_back(s); }
  });
}
