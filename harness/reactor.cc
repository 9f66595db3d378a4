// C21: the event loop, driven by every history of registrations, readiness changes and waits.
#include "net.h"
#include "conc.h"
#include <libiqxmlrpc/reactor_impl.h>
#include <boost/thread/mutex.hpp>

using namespace nk;
using iqnet::Reactor_base;

namespace {
enum { IN = Reactor_base::INPUT, OUT = Reactor_base::OUTPUT };
struct H;
struct World {
  std::unique_ptr<Reactor_base> r;
  std::vector<H*> h;
  bool in_wait = false;
  int invoked = 0;
};
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };

struct H : iqnet::Event_handler {
  World& w; int i, fd = -1, peer = -1;
  int mask = 0;                       // the interest this handler has, as registered
  bool stopper = false, catches = false;
  bool readable = false, writable = true, closed_peer = false;
  int got_in = 0, got_out = 0, finished = 0, logged = 0;
  bool removed_in_round = false, changed_in_round = false; int round_mask = 0; bool round_ready = false;
  std::function<void(H&, bool&)> act;
  H(World& w_, int n) : w(w_), i(n) {}
  bool is_stopper() const override { return stopper; }
  bool catch_in_reactor() const override { return catches; }
  void log_exception(const std::exception&) override { logged++; }
  void log_unknown_exception() override { logged++; }
  void finish() override { finished++; }
  iqnet::Socket::Handler get_handler() const override { return fd; }
  void called(int kind, bool& term) {
    w.invoked++;
    std::string me = std::string(kind == IN ? "input" : "output") + " handler of descriptor " + std::to_string(i);
    if (!w.in_wait) violation("outside", me + " invoked outside the wait");
    if (!(mask & kind)) {
      if (!(kind == OUT && closed_peer)) violation("uninvited", me + " invoked, but it is registered for " + (mask == 0 ? "nothing" : mask == IN ? "input" : "output"));
    }
    bool announced = fake & kind; fake &= ~kind;
    if (announced) { (kind == IN ? got_in : got_out)--; }
    if (!announced && kind == IN && !readable && !closed_peer) violation("not-ready", me + " invoked although nothing can be read");
    if (!announced && kind == OUT && !writable && !closed_peer) violation("not-ready", me + " invoked although nothing can be written");
    if (++(kind == IN ? got_in : got_out) > 1) violation("twice", me + " invoked twice in one wait");
    trace("%s", me.c_str());
    if (act) { auto a = act; a(*this, term); }
  }
  void handle_input(bool& t) override { called(IN, t); }
  void handle_output(bool& t) override { called(OUT, t); }
  void reg(int m) { w.r->register_handler(this, (Reactor_base::Event_mask)m); mask |= m; changed_in_round = true; }
  void unreg(int m) { w.r->unregister_handler(this, (Reactor_base::Event_mask)m); mask &= ~m; changed_in_round = true; if (!mask) removed_in_round = true; }
  void unreg() { w.r->unregister_handler(this); mask = 0; changed_in_round = removed_in_round = true; }
  void set_readable(bool y) {
    if (y == readable || closed_peer) return;
    if (y) net::send_all(peer, "x"); else { char c; ::recv(fd, &c, 1, 0); }
    readable = y;
  }
  void set_writable(bool y) {
    if (y == writable || closed_peer) return;
    if (y) net::recv_some(peer); else net::send_all(fd, "1234");
    writable = y;
  }
  bool ready() const { return ((mask & IN) && (readable || closed_peer)) || ((mask & OUT) && (writable || closed_peer)) || (mask && closed_peer && reset_); }
  bool reset_ = false;
  int fake = 0;                       // events announced by hand
  void announce(int m) { w.r->fake_event(this, (Reactor_base::Event_mask)m); if (mask) fake |= m; }
};

struct Env {
  World w; int l = -1;
  std::vector<std::unique_ptr<H>> hs;
  Env(int n, bool locked) {
    net_opts.sndbuf = 4;
    if (locked) w.r.reset(new iqnet::Reactor<boost::mutex>); else w.r.reset(new iqnet::Reactor<iqnet::Null_lock>);
    l = net::tcp_listen("127.0.0.1", 700);
    for (int i = 0; i < n; i++) {
      hs.emplace_back(new H(w, i)); w.h.push_back(hs.back().get());
      hs[i]->peer = net::tcp_connect("127.0.0.1", 700); hs[i]->fd = net::tcp_accept(l);
    }
  }
  ~Env() { for (auto& h : hs) { net::close_fd(h->fd); net::close_fd(h->peer); } net::close_fd(l); }
  // one wait and its oracle; quiet: handlers have no actions of their own
  void wait(int ms, int later_ms = -1) {
    bool any = false, reg = false, real = false; int nstop = 0;
    for (auto& h : hs) {
      h->got_in = h->got_out = 0; h->removed_in_round = h->changed_in_round = false; h->round_mask = h->mask; h->round_ready = h->ready();
      any |= h->round_ready; reg |= h->mask != 0; if (h->mask && !h->stopper) real = true; if (h->mask && h->stopper) nstop++;
    }
    int64_t t0 = now_ms(); bool r = false, none = false, threw = false; std::string err;
    w.invoked = 0; w.in_wait = true;
    { AsLib al;
      try { r = w.r->handle_events(ms); }
      catch (const Reactor_base::No_handlers&) { none = true; }
      catch (const Boom&) { threw = true; }
      catch (int) { threw = true; }
      catch (const std::exception& e) { err = e.what(); } }
    w.in_wait = false;
    std::string st; for (auto& h : hs) st += " [" + std::to_string(h->i) + ": interest " + std::to_string(h->round_mask) + (h->round_ready ? " ready" : "") + " got " + std::to_string(h->got_in) + "/" + std::to_string(h->got_out) + "]";
    if (!err.empty()) { violation("error", "waiting raised: " + err + st); return; }
    if (!reg || !real) {
      if (w.invoked && !reg) violation("uninvited", "a handler was invoked although none is registered" + st);
      if (!reg && r) violation("result", "the wait reports an event although no handler is registered");
      if (reg && !real && !none) violation("stoppers", "only stoppers are registered, but the wait did not say so" + st);
      outcome("none;"); return;
    }
    if (none) { violation("stoppers", "the wait claims that there are no handlers" + st); return; }
    if (threw) { outcome("threw;"); return; }
    for (auto& h : hs) if (h->round_ready && !h->got_in && !h->got_out && !h->changed_in_round) violation("missed", "descriptor " + std::to_string(h->i) + " is ready but its handler was not invoked" + st);
    if (any) {
      if (!r) violation("result", "the wait reports a timeout although a handler was ready" + st);
      if (now_ms() != t0) violation("late", "the wait took time although a handler was ready" + st);
    } else if (later_ms >= 0 && (ms < 0 || later_ms < ms)) {
      if (!r || !w.invoked) violation("result", "something became ready during the wait, but it was not reported" + st);
      if (now_ms() - t0 != later_ms) violation("late", "something became ready after " + std::to_string(later_ms) + " ms, reported after " + std::to_string(now_ms() - t0) + st);
    } else {
      if (r) violation("result", "the wait reports an event although nothing was ready" + st);
      if (now_ms() - t0 != ms) violation("timeout", "a wait of " + std::to_string(ms) + " ms without an event took " + std::to_string(now_ms() - t0) + " ms" + st);
    }
    outcome(st + ";");
  }
};

std::string opname(int o, int n) {
  static const char* k[] = {"+in", "+out", "-in", "-out", "-all", "readable", "writable"};
  if (o < n * 7) return k[o % 7] + std::to_string(o / 7);
  return o == n * 7 ? "wait0" : "wait50";
}
void apply(Env& e, int o, int n) {
  if (tracing()) trace("op %s", opname(o, n).c_str());
  if (o == n * 7) { e.wait(0); return; }
  if (o == n * 7 + 1) { e.wait(50); return; }
  H& h = *e.hs[o / 7];
  switch (o % 7) {
    case 0: h.reg(IN); break;
    case 1: h.reg(OUT); break;
    case 2: h.unreg(IN); break;
    case 3: h.unreg(OUT); break;
    case 4: h.unreg(); break;
    case 5: h.set_readable(!h.readable); break;
    case 6: h.set_writable(!h.writable); break;
  }
}
// histories of length depth over n descriptors, each finished by a wait
void histories(int n, int depth, bool locked, int stopper) {
  sched_opts.preempt = false;
  Env e(n, locked);
  if (stopper >= 0) e.hs[stopper]->stopper = true;
  for (int d = 0; d < depth && !violated(); d++) apply(e, choose(n * 7 + 2, C_FREE, "op"), n);
  e.wait(0);
}
// events announced by hand are delivered in the next wait, once, to handlers interested in them
void announced(bool locked) {
  sched_opts.preempt = false;
  Env e(2, locked);
  for (int i = 0; i < 2; i++) {
    H& h = *e.hs[i]; int m = choose(4, C_FREE, "interest");
    if (m & 1) h.reg(IN);
    if (m & 2) h.reg(OUT);
    if (choose(2, C_FREE, "readable")) h.set_readable(true);
    if (choose(2, C_FREE, "writable") == 0) h.set_writable(false);
  }
  for (int k = 0; k < 2 && !violated(); k++) {
    int want[2];
    for (int i = 0; i < 2; i++) { H& h = *e.hs[i]; int f = choose(4, C_FREE, "announce"); want[i] = 0; if (f & h.mask) { h.announce((f & h.mask) & IN ? IN : OUT); want[i] = 1; } else if (f == 1 || f == 2) { h.announce(f); h.fake = 0; } }
    int reg = e.hs[0]->mask | e.hs[1]->mask;
    for (auto& h : e.hs) h->got_in = h->got_out = 0;
    int n[2] = {0, 0}; for (int i = 0; i < 2; i++) e.hs[i]->act = [&n, i](H&, bool&) { n[i]++; };
    e.w.in_wait = true; { AsLib al; e.w.r->handle_events(0); } e.w.in_wait = false;
    for (int i = 0; i < 2; i++) {
      H& h = *e.hs[i]; h.act = nullptr;
      int exp = want[i] + (h.ready() ? 1 : 0);
      if (n[i] != exp && reg && !violated()) violation("announced", "descriptor " + std::to_string(i) + " has interest " + std::to_string(h.mask) + ", announced " + std::to_string(want[i]) + (h.ready() ? ", ready" : "") + ": invoked " + std::to_string(n[i]) + " time(s)");
      outcome(std::to_string(n[i]));
      if (want[i]) h.fake = 0;
    }
    if (choose(2, C_FREE, "remove")) e.hs[0]->unreg();
  }
}
// two descriptors in every state of interest and readiness, then one removal or addition, waits in between
void interrupted(int n, bool locked, int waits) {
  sched_opts.preempt = false;
  net_opts.poll_eintr = true;
  Env e(n, locked);
  for (int i = 0; i < n; i++) {
    int m = choose(4, C_FREE, "interest"); int rd = choose(2, C_FREE, "readable"), wr = choose(2, C_FREE, "writable");
    if (m & 1) e.hs[i]->reg(IN);
    if (m & 2) e.hs[i]->reg(OUT);
    e.hs[i]->set_readable(rd); e.hs[i]->set_writable(wr);
  }
  static const int tos[] = {0, 50, 1500};
  for (int k = 0; k < waits && !violated(); k++) e.wait(tos[choose(3, C_FREE, "timeout")]);
}
// something becomes ready while the loop waits
void late_event(bool locked, bool eintr) {
  sched_opts.preempt = false;
  net_opts.poll_eintr = eintr;
  Env e(2, locked);
  int kind = choose(2, C_FREE, "kind"), at = choose(3, C_FREE, "delay"), to = choose(4, C_FREE, "timeout");
  static const int ats[] = {1, 20, 3000}, tos[] = {50, 5000, -1, 3000000};
  H& h = *e.hs[0];
  if (kind == 0) h.reg(IN); else { h.set_writable(false); h.reg(OUT); }
  if (choose(2, C_FREE, "other")) e.hs[1]->reg(IN);
  if (tos[to] >= 0 && ats[at] >= tos[to]) { e.wait(tos[to]); return; }
  int t = spawn("peer", [&] { sleep_ms(ats[at]); if (kind == 0) h.set_readable(true); else h.set_writable(true); }, true);
  e.wait(tos[to], ats[at]);
  join(t);
  h.unreg(kind == 0 ? IN : OUT);
  e.wait(0);
}
// long waits: the wait must not end early and must not fail
void long_wait(bool locked) {
  sched_opts.preempt = false;
  Env e(1, locked);
  static const int tos[] = {0, 1, 999, 1000, 1001, 60000, 2147484, 2147483647};
  e.hs[0]->reg(IN);
  e.wait(tos[choose(8, C_FREE, "timeout")]);
}
// handlers that act while the loop is delivering events
void callbacks(int n, bool locked, bool catches, int depth) {
  sched_opts.preempt = false;
  Env e(n, locked);
  for (int i = 0; i < n; i++) {
    H& h = *e.hs[i]; h.catches = catches;
    int m = 1 + choose(3, C_FREE, "interest"); h.reg(m & 1 ? IN : OUT); if (m == 3) h.reg(OUT);
    if (choose(2, C_FREE, "readable")) h.set_readable(true);
  }
  int acts = 0; bool term_wanted[4] = {}, threw[4] = {};
  auto act = [&](H& h, bool& term) {
    if (acts >= depth) return;
    int a = choose(11 + (n - 1) * 3, C_FREE, "action"); if (a == 10 + (n - 1) * 3) a = -1;
    if (a) acts++;
    trace("action %d of %d", a, h.i);
    switch (a) {
      case 0: break;
      case 1: term = true; term_wanted[h.i] = true; h.mask = 0; h.removed_in_round = h.changed_in_round = true; break;
      case 2: threw[h.i] = true; if (catches) { h.mask = 0; h.removed_in_round = h.changed_in_round = true; } throw Boom();
      case -1: threw[h.i] = true; if (catches) { h.mask = 0; h.removed_in_round = h.changed_in_round = true; } throw 5;   // not derived from std::exception
      case 3: h.unreg(); break;
      case 4: h.unreg(IN); break;
      case 5: h.unreg(OUT); break;
      case 6: h.reg(IN); break;
      case 7: h.reg(OUT); break;
      case 8: h.set_readable(false); break;
      case 9: if (h.mask & IN) { h.unreg(IN); h.reg(OUT); } else { h.unreg(OUT); h.reg(IN); } break;
      default: {
        int k = (a - 10) / 3; H& o = *e.hs[k >= h.i ? k + 1 : k];
        if ((a - 10) % 3 == 0) o.unreg(); else if ((a - 10) % 3 == 1) o.unreg(IN); else o.unreg(OUT);
      }
    }
  };
  for (auto& h : e.hs) h->act = act;
  for (int k = 0; k < 2 && !violated(); k++) {
    e.wait(0);
    for (auto& h : e.hs) {
      int want = (term_wanted[h->i] || (threw[h->i] && catches)) ? 1 : 0;
      if (h->finished != want && !violated()) violation("finish", "descriptor " + std::to_string(h->i) + (want ? " ended, but its end was not reported once" : " was reported as ended although it did not end"));
      if (h->logged != (threw[h->i] && catches ? 1 : 0) && !violated()) violation("logged", "an exception of a handler was not reported to it");
    }
  }
  for (auto& h : e.hs) h->act = nullptr;
  if (!violated()) e.wait(0);
}
// registrations made by another thread while the loop waits
void cross_thread() {
  Env e(2, true);
  H &a = *e.hs[0], &b = *e.hs[1];
  a.reg(IN);
  int m = choose(3, C_FREE, "what");
  b.set_readable(true);
  int t = spawn("other", [&] { if (m == 0) b.reg(IN); else if (m == 1) b.reg(OUT); else { b.reg(IN); b.unreg(IN); } a.set_readable(true); }, true);
  // a becomes readable at some moment: the wait ends for it, and possibly for b as well
  for (int k = 0; k < 2; k++) {
    for (auto& h : e.hs) { h->got_in = h->got_out = 0; }
    bool r = false; e.w.in_wait = true;
    { AsLib al; r = e.w.r->handle_events(-1); }
    e.w.in_wait = false;
    if (!r) violation("result", "the wait reports a timeout");
  }
  join(t);
  for (auto& h : e.hs) h->unreg();
}
// a peer that closes or resets: the handler is told, whatever it is registered for
void hangup(bool locked) {
  sched_opts.preempt = false;
  Env e(2, locked);
  H& h = *e.hs[0];
  int m = 1 + choose(3, C_FREE, "interest"), how = choose(2, C_FREE, "end");
  h.reg(m & 1 ? IN : OUT); if (m == 3) h.reg(OUT);
  if (m == 2) h.set_writable(false);
  if (choose(2, C_FREE, "other")) e.hs[1]->reg(IN);
  e.wait(0);
  if (how == 0 && m == 2) return;      // an orderly end is no news for somebody who only writes
  h.closed_peer = true; h.reset_ = how == 1;
  if (how == 0) { if (!h.writable) net::recv_some(h.peer); net::shut_wr(h.peer); } else { net::reset(h.peer); h.peer = net::tcp_connect("127.0.0.1", 700); }
  e.wait(0);
  if (choose(2, C_FREE, "again")) e.wait(50);
}
// many descriptors with interests and readiness of all kinds, some removed while events are delivered
void many(bool locked) {
  sched_opts.preempt = false;
  static const int N[] = {5, 17, 40, 100};
  int n = N[choose(4, C_FREE, "descriptors")], interest = choose(4, C_FREE, "interest"), ready = choose(4, C_FREE, "readable"), removes = choose(4, C_FREE, "removes");
  Env e(n, locked);
  for (int i = 0; i < n; i++) {
    H& h = *e.hs[i]; int m = interest < 3 ? interest + 1 : i % 4;
    if (m & 1) h.reg(IN); if (m & 2) h.reg(OUT);
    if (ready == 1 || (ready == 2 && i % 3 == 0) || (ready == 3 && i == n - 1)) h.set_readable(true);
    if (i % 2) h.set_writable(false);
  }
  e.wait(0);
  for (auto& h : e.hs) h->act = [&](H& h, bool& term) {
    if (removes == 1 && h.i % 2 == 0) h.unreg();
    if (removes == 2 && h.i + 1 < n && e.hs[h.i + 1]->mask) e.hs[h.i + 1]->unreg();
    if (removes == 3 && h.i % 5 == 0) { term = true; h.mask = 0; h.removed_in_round = h.changed_in_round = true; }
  };
  if (!violated()) e.wait(0);
  for (auto& h : e.hs) h->act = nullptr;
  for (int i = 0; i < n && !violated(); i += 7) { H& h = *e.hs[i]; if (h.mask) h.unreg(); else h.reg(IN); }
  if (!violated()) e.wait(0);
  if (!violated()) e.wait(50);
}
}  // namespace

void nk::c21(Driver& D) {
  bool q = D.quick(), sel = D.is("select"), race = D.is("race");
  D.assumptions = {"descriptors are stream sockets of the simulated network; when input and output are both ready one of the two handlers is invoked"};
  auto add = [&](const std::string& n, std::function<void()> f, Budget b, const std::string& note) {
    Scenario s; s.name = n; s.note = note; s.run = f; s.budget = b; s.leaks = true; D.scenarios.push_back(s);
  };
  if (race) { add("cross-thread", [] { cross_thread(); }, Budget().tot(3).set(C_PREEMPT, 3).set(C_SWITCH, 2), "interest changed by another thread while the loop runs"); return; }
  int d2 = sel ? (q ? 5 : 6) : 6;
  add("histories-1", [=] { histories(1, q ? 6 : 8, false, -1); }, Budget(), "all histories of length 6 (thorough 8) over one descriptor, 9 operations");
  add("histories-2", [=] { histories(2, d2, false, -1); }, Budget(), "all histories of length " + std::to_string(d2) + " over two descriptors, 16 operations");
  add("histories-2-locked", [=] { histories(2, 4, true, -1); }, Budget(), "all histories of length 4 over two descriptors, locking reactor");
  add("histories-3", [=] { histories(3, 4, false, -1); }, Budget(), "all histories of length 4 over three descriptors, 23 operations");
  add("stopper", [=] { histories(2, 4, false, 1); }, Budget(), "all histories of length 4 over two descriptors, one of them a stopper");
  for (int k = 0; k < 2; k++) {
    std::string sfx = k ? "-locked" : "";
    add("interrupted" + sfx, [=] { interrupted(2, k, 2); }, Budget().tot(2).set(C_FAULT, 2), "every interest and readiness of two descriptors, two waits of 0, 50 or 1500 ms, up to two interruptions");
    add("late-event" + sfx, [=] { late_event(k, true); }, Budget().tot(2).set(C_FAULT, 2), "readiness that appears during the wait, up to two interruptions");
    add("long-wait" + sfx, [=] { long_wait(k); }, Budget(), "timeouts up to the largest one");
    for (int c = 0; c < 2; c++) add(std::string("callbacks-") + (c ? "caught" : "plain") + sfx, [=] { callbacks(2, k, c, 2); }, Budget(), "handlers that change registrations, end or throw while events are delivered, up to two such actions, two descriptors");
    add("announced" + sfx, [=] { announced(k); }, Budget(), "events announced by hand, every interest and readiness of two descriptors, two waits");
    add("hangup" + sfx, [=] { hangup(k); }, Budget(), "peer closes or resets, every interest");
  }
  for (int k = 0; k < 2; k++) add(k ? "many-locked" : "many", [=] { many(k); }, Budget(), "5, 17, 40 or 100 descriptors, 4 patterns each of interest, readiness and removal");
  add("callbacks-3", [=] { callbacks(3, false, true, 1); }, Budget(), "one such action, three descriptors");
  add("cross-thread", [] { cross_thread(); }, Budget().tot(3).set(C_PREEMPT, 3).set(C_SWITCH, 2), "interest changed by another thread while the loop runs");
}
