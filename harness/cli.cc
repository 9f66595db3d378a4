// C22 replies of calls, C23 timeouts, C24 requests on the wire, C25 addresses; client side of C15.
#include "peerkit.h"
#include "cli.h"
#include "lokit.h"

using namespace nk;

namespace {
bool accounting;      // C15: sockets and memory of the client are judged as well

enum Kind { GOOD, GOOD_CLOSE, GOOD_THEN_CLOSE, GOOD_THEN_RESET, FAULT, CLOSE, RESET, CUT_CLOSE, CUT_RESET, ERR500, BAD_BODY, NOT_HTTP,
            SHORT_LEN, LONG_LEN, HALF_READ, NO_LEN, TWICE, EMPTY_BODY, SHAPES, LATE, HALF_LATE, CUT_SILENT, NKIND };
const char* KN[] = {"good", "good-close", "good-then-close", "good-then-reset", "fault", "close", "reset", "cut-close", "cut-reset", "error-500", "bad-body", "not-http",
            "short-length", "long-length", "half-read", "no-length", "twice", "empty-body", "shapes", "late", "half-late", "cut-silent"};
struct Act { int kind = GOOD; size_t cut = 0; int shape = 0; };

std::string want_of(const Act& a, int no, size_t pad) {
  if (a.kind == FAULT) return "fault " + std::to_string(100 + no) + " \"" + text_of(no) + "\"";
  return "result \"" + esc(text_of(no, pad)) + "\"";
}
const int TMO = 3;                       // seconds
std::string bytes_of(const Act& a, int no, size_t pad, bool keep) {
  std::string k = keep ? "keep-alive" : "close", body = result_xml(text_of(no, pad));
  switch (a.kind) {
    case GOOD_CLOSE: return http_reply(body, "close");
    case FAULT: return http_reply(fault_xml(100 + no, text_of(no)), k);
    case ERR500: return http_reply(body, k, 500);
    case BAD_BODY: return http_reply("<methodResponse><params><param>" + std::to_string(no), k);
    case NOT_HTTP: return "%%% " + std::to_string(no) + "\r\n\r\n" + body;
    case SHORT_LEN: return http_reply(body, k, 200, body.size() - 5);
    case LONG_LEN: return http_reply(body, k, 200, body.size() + 5);
    case NO_LEN: return "HTTP/1.1 200 OK\r\nConnection: " + k + "\r\n\r\n" + body;
    case TWICE: return http_reply(body, k) + http_reply(body, k);
    case EMPTY_BODY: return http_reply("", k);
    default: return http_reply(body, k, 200, -1, a.shape);
  }
}
// what the peer does with call no
void perform(PeerSrv& s, PeerSrv::C& c, const Act& a, int no, size_t pad, bool keep) {
  std::string t; { Guard g; t = bytes_of(a, no, pad, keep); }
  auto done = [&] { Guard g; t = std::string(); };
  switch (a.kind) {
    case CLOSE: case HALF_READ: s.drop(c, false); break;
    case RESET: s.drop(c, true); break;
    case CUT_CLOSE: case CUT_RESET: case CUT_SILENT: { { Guard g; t.resize(std::min(t.size() - 1, a.cut)); } net::send_all(c.fd, t); if (a.kind != CUT_SILENT) s.drop(c, a.kind == CUT_RESET); break; }
    case LATE: sleep_ms(TMO * 1000 + 500); net::send_all(c.fd, t); break;
    case HALF_LATE: { size_t cut = std::min(t.size() - 1, a.cut); std::string h; { Guard g; h = t.substr(0, cut); } net::send_all(c.fd, h); sleep_ms(TMO * 1000 + 500); { Guard g; h = t.substr(cut); } net::send_all(c.fd, h); Guard g; h = std::string(); break; }
    case LONG_LEN: case NO_LEN: net::send_all(c.fd, t); s.drop(c, false); break;
    case GOOD_CLOSE: case GOOD_THEN_CLOSE: case NOT_HTTP: net::send_all(c.fd, t); s.drop(c, false); break;
    case GOOD_THEN_RESET: net::send_all(c.fd, t); s.drop(c, true); break;
    default: net::send_all(c.fd, t); break;
  }
  done();
}
enum Need { MUST, MAY, NEVER };
Need need_of(int kind) {
  switch (kind) {
    case GOOD: case GOOD_CLOSE: case GOOD_THEN_CLOSE: case FAULT: case TWICE: case SHAPES: return MUST;
    case GOOD_THEN_RESET: return MAY;
    default: return NEVER;
  }
}
bool usable_after(int kind) { return kind == GOOD || kind == FAULT || kind == SHAPES; }

struct Seq { int calls = 2; bool last_good = true; int first = 0, last = NKIND; bool all_cuts = false; size_t pad = 0, rpad = 0; bool toggle = false; bool timeouts = true; int recv_max = -1; size_t sndbuf = 0; };

void end_accounting(const char* who) {
  if (!accounting) return;
  Guard g; auto f = net::open_fds(true);
  if (!f.empty()) violation("fd-leak", std::string(who) + ": " + std::to_string(f.size()) + " socket(s) of the client are still open after it was destroyed");
  judge_bad_ops(who);
}

Act pick_act(const Seq& q, bool timeouts) {
  Act a; a.kind = q.first + choose(q.last - q.first, C_FREE, "peer");
  if ((a.kind == LATE || a.kind == HALF_LATE || a.kind == CUT_SILENT) && !timeouts) a.kind = GOOD;
  if (a.kind == CUT_CLOSE || a.kind == CUT_RESET || a.kind == HALF_LATE || a.kind == CUT_SILENT) {
    Guard g; size_t n = bytes_of(Act(), 1, q.rpad, true).size();
    if (q.all_cuts) a.cut = 1 + choose((int)n - 1, C_FREE, "cut");
    else { size_t h = bytes_of(Act(), 1, q.rpad, true).find("\r\n\r\n"); size_t at[] = {1, 12, h / 2, h + 2, h + 4, h + 20, n - 20, n - 1}; a.cut = at[choose(8, C_FREE, "cut")]; }
  }
  if (a.kind == SHAPES) a.shape = 1 + choose(3, C_FREE, "shape");
  return a;
}

// calls with one client against a peer that does something different with each of them
void c22_seq(const Seq& q) {
  reset_log();
  bool keep = choose(2, C_FREE, "keep-alive"), tmo = q.timeouts && choose(2, C_FREE, "timeout");
  if (q.recv_max >= 0) net_opts.recv_max = q.recv_max;
  if (q.sndbuf) net_opts.sndbuf = q.sndbuf;
  std::vector<Act> acts;
  for (int i = 0; i < q.calls; i++) { Act a = q.last_good && i == q.calls - 1 ? Act() : pick_act(q, tmo); Guard g; acts.push_back(a); }
  {
    PeerSrv srv; 
    srv.act = [&](Seen& s, PeerSrv::C& c) {
      if (s.no < 1 || s.no > q.calls) { violation("bad-request", "the server received " + esc(s.raw, 200)); return; }
      perform(srv, c, acts[s.no - 1], s.no, q.rpad, keep);
    };
    srv.start();
    std::string text;
    {
      std::unique_ptr<HttpClient> cl;
      { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); if (tmo) cl->set_timeout(TMO); cl->set_keep_alive(keep); }
      bool conn_ok = true;
      for (int i = 0; i < q.calls && !violated(); i++) {
        if (q.toggle && choose(2, C_FREE, "toggle")) { AsLib al; keep = !keep; cl->set_keep_alive(keep); conn_ok = true; }
        if (acts[i].kind == TWICE && keep) acts[i].kind = GOOD;      // unsolicited bytes on a kept connection: see assumptions
        Got r; { AsLib al; r = call_no(*cl, i + 1, q.pad); }
        Guard g;
        const Act& a = acts[i]; std::string want = want_of(a, i + 1, q.rpad), who = "call " + std::to_string(i + 1) + " (peer: " + KN[a.kind] + ")";
        int times = 0; for (auto& s : srv.seen) if (s.no == i + 1) times++;
        if (times > 1) violation("sent-twice", who + " was sent " + std::to_string(times) + " times");
        if (r.ok && r.text != want) violation("wrong-reply", who + " returned " + r.text + ", its reply was " + want);
        else if (r.ok && (need_of(a.kind) == NEVER || !times)) violation("no-reply", who + " returned " + r.text + " although the peer did not produce such a reply");
        else if (!r.ok && need_of(a.kind) == MUST && conn_ok) violation("failed", who + " failed although the peer replied correctly: " + r.text);
        text += std::string(KN[a.kind]) + (r.ok ? ":ok " : ":err ");
        if (!keep || !r.ok) conn_ok = true; else conn_ok = usable_after(a.kind);
        r = Got();
      }
      { AsLib al; cl.reset(); }
      { Guard g; outcome(text); text = std::string(); }
    }
    wait_idle();
    srv.stop();
  }
  { Guard g; acts = std::vector<Act>(); }
  end_accounting("client");
}

// replies whose length meets the size of the read buffer
void c22_sizes() {
  reset_log();
  static const int D[] = {-2, -1, 0, 1, 2};
  int mult = 1 + choose(2, C_FREE, "buffers"); int d = D[choose(5, C_FREE, "size")]; bool keep = choose(2, C_FREE, "keep-alive"); int seg = choose(4, C_FREE, "segments");
  bool after = choose(2, C_FREE, "second-call");
  size_t total = 65536 * mult + d;
  size_t pad; { Guard g; size_t base = http_reply(result_xml(text_of(1, 10000)), keep ? "keep-alive" : "close").size() - 10000; pad = total - base; 
    while (http_reply(result_xml(text_of(1, pad)), keep ? "keep-alive" : "close").size() > total) pad--; }
  {
    PeerSrv srv;
    srv.act = [&](Seen& s, PeerSrv::C& c) {
      std::string t; { Guard g; t = http_reply(result_xml(text_of(s.no, pad)), keep ? "keep-alive" : "close"); if (t.size() != total) { violation("harness", "size"); } }
      size_t h = t.find("\r\n\r\n") + 4;
      size_t cut = seg == 0 ? 0 : seg == 1 ? h : seg == 2 ? 65536 : t.size() - 65536;
      std::string p; 
      if (cut && cut < t.size()) { { Guard g; p = t.substr(0, cut); t.erase(0, cut); } net::send_all(c.fd, p); wait_idle(); }
      net::send_all(c.fd, t);
      if (!keep) srv.drop(c, false);
      Guard g; t = std::string(); p = std::string();
    };
    srv.start();
    {
      std::unique_ptr<HttpClient> cl; { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); }
      for (int i = 1; i <= 1 + after && !violated(); i++) {
        Got r; { AsLib al; r = call_no(*cl, i); }
        Guard g; if (!r.ok || r.text != want_of(Act(), i, pad)) violation("failed", "call " + std::to_string(i) + " with a reply of " + std::to_string(total) + " bytes: " + r.text);
        outcome(std::to_string(total)); r = Got();
      }
      AsLib al; cl.reset();
    }
    srv.stop();
  }
  end_accounting("client");
}

// several clients against the library's own server
void c22_both(int threads, int clients, int calls) {
  reset_log();
  bool keep = choose(2, C_FREE, "keep-alive");
  Box b(threads); b.start();
  std::vector<int> ts; std::vector<std::string> out; { Guard g; out.resize(clients); }
  for (int k = 0; k < clients; k++) {
    int t = spawn("client", [&, k] {
      HttpClient cl(iqnet::Inet_addr("127.0.0.1", 3000)); cl.set_keep_alive(keep);
      for (int i = 0; i < calls; i++) {
        int no = 10 * (k + 1) + i; Got r = call_no(cl, no);
        Guard g; if (!r.ok || r.text != "result i4:" + std::to_string(no)) violation("wrong-reply", "client " + std::to_string(k) + ", call " + std::to_string(no) + ": " + r.text);
        out[k] += r.text + ";"; r = Got();
      }
    }, false);
    Guard g; ts.push_back(t);
  }
  for (int t : ts) join(t);
  wait_idle();
  { Guard g; std::string o; for (auto& s : out) o += s; outcome(o); std::map<std::string, int> n; for (auto& c : L().calls) if (++n[c.arg] > 1) violation("twice", "call " + c.arg + " was executed twice"); }
  judge_server(b, "server");
  b.stop(); b.destroy();
  { Guard g; ts = std::vector<int>(); out = std::vector<std::string>(); }
  reset_log();
}

// connecting fails, then the same client is used again
void c22_connect() {
  reset_log();
  net_opts.connect_modes = net_opts.socket_fault = net_opts.fcntl_fault = net_opts.recv_fault = net_opts.send_fault = net_opts.resolve_fault = true;
  bool keep = choose(2, C_FREE, "keep-alive"), listening = choose(2, C_FREE, "listening"), host = choose(2, C_FREE, "by-name"), proxy = choose(2, C_FREE, "proxy");
  net::add_host("peer.example", "127.0.0.1");
  {
    std::unique_ptr<PeerSrv> srv; std::unique_ptr<HttpClient> cl;
    auto mk = [&] {
      { Guard g; srv.reset(new PeerSrv); srv->act = [&, keep](Seen& s, PeerSrv::C& c) { perform(*srv, c, Act(), s.no, 0, keep); }; }
      srv->start();
    };
    if (listening) mk();
    { AsLib al; iqnet::Inet_addr a(host ? "peer.example" : "127.0.0.1", 3000);
      cl.reset(new HttpClient(proxy ? iqnet::Inet_addr("10.0.0.9", 80) : a)); if (proxy) cl->set_proxy(a); cl->set_timeout(TMO); cl->set_keep_alive(keep); }
    std::string text;
    for (int i = 1; i <= 3 && !violated(); i++) {
      if (i == 3) { net_opts = NetOpts(); if (!srv) mk(); }
      Got r; { AsLib al; r = call_no(*cl, i); }
      Guard g; std::string want = want_of(Act(), i, 0);
      if (r.ok && r.text != want) violation("wrong-reply", "call " + std::to_string(i) + " returned " + r.text);
      if (r.ok && !srv) violation("no-reply", "call " + std::to_string(i) + " succeeded without a server");
      if (!r.ok && i == 3) violation("failed", "call 3 failed although the server is healthy: " + r.text + " after " + text);
      text += r.text + "; "; r = Got();
    }
    { Guard g; outcome(text); text = std::string(); }
    { AsLib al; cl.reset(); }
    wait_idle();
    if (srv) srv->stop();
    Guard g; srv.reset();
  }
  net_opts = NetOpts();
  end_accounting("client");
}

Scenario mk(const std::string& n, const std::string& note, std::function<void()> run, Budget b = Budget()) { Scenario s; s.name = n; s.note = note; s.run = run; s.budget = b; s.leaks = accounting; return s; }
void client_scenarios(Driver& D) {
  bool q = D.quick(), asan = D.is("asan"); auto& S = D.scenarios;
  std::string kinds = std::to_string(NKIND) + " behaviours of the peer";
  Seq s;
  s = Seq(); s.calls = 3; S.push_back(mk("peer-3", "three calls, the first two meet any of " + kinds + " (cuts at 8 places), the last one a healthy peer; keep-alive and timeout on and off", [s] { c22_seq(s); }));
  s = Seq(); s.calls = 2; s.all_cuts = true; s.first = CUT_CLOSE; s.last = CUT_RESET + 1; S.push_back(mk("cuts-2", "reply of the first call cut at every byte, then a healthy peer", [s] { c22_seq(s); }));
  s = Seq(); s.calls = 2; s.all_cuts = true; s.first = LATE; s.last = NKIND; S.push_back(mk("late-2", "reply of the first call late or half late or cut at every byte and silent", [s] { c22_seq(s); }));
  if (!accounting && !D.is("select")) { s = Seq(); s.calls = 4; s.last = q ? LATE : NKIND; s.timeouts = !q; S.push_back(mk("peer-4", std::string("four calls, the first three meet any of ") + (q ? "the behaviours other than silence" : "the behaviours"), [s] { c22_seq(s); })); }
  for (int rm : {1, 7}) { s = Seq(); s.calls = 3; s.recv_max = rm; S.push_back(mk("peer-3-recv" + std::to_string(rm), "the same as peer-3 with reads of " + std::to_string(rm) + " byte(s)", [s] { c22_seq(s); })); }
  s = Seq(); s.calls = 3; s.toggle = true; S.push_back(mk("toggle-3", "keep-alive switched between calls", [s] { c22_seq(s); }));
  s = Seq(); s.calls = 2; s.pad = 300; s.sndbuf = 100; S.push_back(mk("small-window", "requests larger than the peer's window", [s] { c22_seq(s); }));
  if (!asan) {
    s = Seq(); s.calls = 2; s.last = TWICE + 1; S.push_back(mk("split-recv", "two calls, every single short read", [s] { net_opts.recv_split = 2; c22_seq(s); }, Budget().tot(1).set(C_IO, 1)));
    s = Seq(); s.calls = 2; s.last = TWICE + 1; S.push_back(mk("split-send", "two calls, every single short write", [s] { net_opts.send_split = 2; c22_seq(s); }, Budget().tot(1).set(C_IO, 1)));
    s = Seq(); s.calls = 2; s.last = GOOD + 1; s.timeouts = false; S.push_back(mk("split-2", "two calls answered well, every pair of short reads or short writes", [s] { net_opts.recv_split = net_opts.send_split = 2; c22_seq(s); }, Budget().tot(q ? 1 : 2).set(C_IO, q ? 1 : 2)));
  }
  S.push_back(mk("sizes", "replies around one and two read buffers in length, four segmentations", [] { c22_sizes(); }));
  S.push_back(mk("connect", "every way of connecting and failing, resolver, socket and transfer errors in two calls, then a healthy server", [] { c22_connect(); }, Budget().tot(q ? 3 : 4).set(C_FAULT, q ? 3 : 4)));
}
}  // namespace
#include "cli_more.h"
#include "cli_why.h"

void nk::c22(Driver& D) {
  bool q = D.quick();
  D.assumptions = {"a server sends bytes only in answer to a request: bytes that arrive on an idle kept connection after a complete reply are not modelled"};
  accounting = false;
  auto& S = D.scenarios;
  if (D.is("race")) {
    S.push_back(mk("both-serial", "two clients with two calls each and the library's server", [] { c22_both(0, 2, 2); }, Budget().tot(2).set(C_PREEMPT, q ? 1 : 2).set(C_SWITCH, 1)));
    S.push_back(mk("both-pool", "two clients with two calls each and the library's server with two workers", [] { c22_both(2, 2, 2); }, Budget().tot(1).set(C_PREEMPT, 1).set(C_SWITCH, 1)));
    S.push_back(mk("both-3", "three clients with a call each and the library's server", [] { c22_both(0, 3, 1); }, Budget().tot(1).set(C_PREEMPT, 1).set(C_SWITCH, 1)));
    return;
  }
  client_scenarios(D);
  S.push_back(mk("both-long", "three clients with 8 calls each and the library's server", [] { c22_both(0, 3, 8); }, Budget().tot(1).set(C_PREEMPT, 1)));
  S.push_back(mk("both-long-pool", "eight clients with 10 calls each and four workers", [] { c22_both(4, 8, 10); }, Budget().tot(0)));
  S.push_back(mk("both-serial", "two clients with two calls each and the library's server", [] { c22_both(0, 2, 2); }, Budget().tot(q ? 3 : 4).set(C_PREEMPT, q ? 2 : 3).set(C_SWITCH, 2)));
  if (!D.is("select")) S.push_back(mk("both-pool", "two clients with two calls each and the library's server with two workers", [] { c22_both(2, 2, 2); }, Budget().tot(q ? 2 : 3).set(C_PREEMPT, q ? 2 : 3).set(C_SWITCH, 1)));
}
void nk::c15_client(Driver& D) {
  accounting = true;
  client_scenarios(D);
}

int main(int argc, char** argv) {
  return driver_main(argc, argv, [](Driver& D) {
    if (D.property == "C15") c15_client(D);
    if (D.property == "C22") c22(D);
    if (D.property == "C23") c23(D);
    if (D.property == "C24") c24(D);
    if (D.property == "C25") c25(D);
    if (D.property == "C30") c30(D);
    if (D.property == "C32") c32(D);
    if (D.property == "C33") c33(D);
  });
}
