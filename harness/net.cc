// Server-side HTTP properties over the simulated network: C07 - C12.
#include "net.h"
#include <libiqxmlrpc/value_type.h>
using namespace mc;
using namespace nk;

namespace nk {
// ------------------------------------------------------------------------------------------- C07
// request shapes: same call written with different line ends, bodies and headers
struct Shape { const char* name; Exp e; std::string body; };
static std::vector<Shape>& shapes() {
  static std::vector<Shape>* v = nullptr;
  if (v) return *v;
  Guard g; v = new std::vector<Shape>;
  auto add = [&](const char* n, Rq r, const std::string& call, const std::string& rpc, bool any = false) {
    Exp e; e.text = r.text(); e.call = call; e.rpc = rpc; e.any_rpc = any; e.keep = r.keep; v->push_back(Shape{n, e, r.body});
  };
  auto body = [](int k, const std::string& ws) { return "<methodCall>" + ws + "<methodName>echo</methodName>" + ws + "<params><param>" + xint(k) + "</param></params></methodCall>"; };
  Rq r;
  r = Rq(); r.xml_type = false; r.body = body(1, ""); add("crlf", r, "echo(i4:1)", "result i4:1");
  r = Rq(); r.xml_type = false; r.nl = "\n"; r.body = body(2, "\r\n\r\n"); add("lf-head/crlf-body", r, "echo(i4:2)", "result i4:2");
  r = Rq(); r.xml_type = false; r.body = body(3, "\n\n"); add("crlf-head/lf-body", r, "echo(i4:3)", "result i4:3");
  r = Rq(); r.xml_type = false; r.body = body(4, "\r\n\r\n"); add("crlf-head/crlf-body", r, "echo(i4:4)", "result i4:4");
  r = Rq(); r.xml_type = false; r.keep = false; r.body = body(5, ""); add("close", r, "echo(i4:5)", "result i4:5");
  r = Rq(); r.xml_type = false; r.body = ""; add("empty-body", r, "", "fault", true);
  r = Rq(); r.xml_type = false; r.nl = "\n"; r.headers = {"X-Tag :  a b ", "host:h"}; r.body = body(6, "\n"); add("lf-xheader", r, "echo(i4:6)", "result i4:6");
  r = Rq(); r.xml_type = false; r.body = call_xml("nosuch"); add("unknown-method", r, "", "fault", true);
  r = Rq(); r.xml_type = false; r.body = "\r\n\r\n\n" + body(8, "") + "\r\n\r\n"; add("body in blank lines", r, "echo(i4:8)", "result i4:8");
  r = Rq(); r.xml_type = false; r.body = body(9, std::string("\0\0", 2)); add("zero bytes in body", r, "", "fault", true);
  r = Rq(); r.xml_type = false; r.body = body(1, "<!--\r\n\r\nPOST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc-->"); add("request in body", r, "echo(i4:1)", "result i4:1");
  r = Rq(); r.xml_type = false; r.body = body(2, ""); add("blank lines before", r, "echo(i4:2)", "result i4:2"); v->back().e.text = "\r\n\n\r\n" + v->back().e.text;
  return *v;
}

// the packet reader alone: every way to cut one request into up to four pieces
static void c07_reader(int max_cuts) {
  auto& sh = shapes();
  int k = choose((int)sh.size(), C_FREE, "shape");
  const std::string& t = sh[k].e.text;
  size_t n = t.size();
  int c1 = choose((int)n, C_FREE, "first-cut");       // 0 = no cut
  const std::string& want_body = sh[k].body;
  auto run = [&](const std::vector<size_t>& cuts) {
    iqxmlrpc::http::Packet_reader rd;
    std::unique_ptr<iqxmlrpc::http::Packet> p;
    size_t at = 0; std::string err; size_t done_at = 0;
    try {
      for (size_t i = 0; i <= cuts.size() && !p; i++) {
        size_t to = i < cuts.size() ? cuts[i] : n;
        if (to == at) continue;
        p.reset(rd.read_request(t.substr(at, to - at))); at = to; done_at = at;
      }
    } catch (const std::exception& e) { err = e.what(); }
    std::string why;
    if (!err.empty()) why = "refused: " + err;
    else if (!p) why = "not recognised as complete";
    else if (done_at != n) why = "taken as complete after " + std::to_string(done_at) + " of " + std::to_string(n) + " bytes";
    else if (p->content() != want_body) why = "body read as " + esc(p->content(), 120);
    else if (p->header()->conn_keep_alive() != sh[k].e.keep) why = "connection option lost";
    if (!why.empty()) { Guard g; std::ostringstream m; m << "request '" << sh[k].name << "' cut at"; for (auto c : cuts) m << " " << c; m << ": " << why; violation("reader-" + std::string(sh[k].name), m.str()); return false; }
    return true;
  };
  std::vector<size_t> cuts; if (c1) cuts.push_back(c1);
  if (!run(cuts)) return;
  uint64_t cnt = 1;
  if (c1 && max_cuts >= 2)
    for (size_t c2 = c1 + 1; c2 < n; c2++) {
      if (!run({(size_t)c1, c2})) return; cnt++;
      if (max_cuts >= 3) for (size_t c3 = c2 + 1; c3 < n; c3++) { if (!run({(size_t)c1, c2, c3})) return; cnt++; }
    }
  for (uint64_t i = 0; i < cnt; i++) state(((uint64_t)k << 40) ^ ((uint64_t)c1 << 24) ^ i);
  outcome(sh[k].name);
}

// whole server: a series of requests, every way (up to the budget) to cut the reads
static void c07_server(const std::vector<int>& pool, int len, bool pipelined, int fixed_chunk, int threads = 0) {
  reset_log();
  auto& sh = shapes();
  std::vector<Exp> e;
  for (int i = 0; i < len; i++) {
    e.push_back(sh[pool[choose((int)pool.size(), C_FREE, "request")]].e);
    if (!e.back().keep) break;
  }
  if (fixed_chunk) net_opts.recv_max = 1 + choose(fixed_chunk, C_FREE, "chunk"); else net_opts.recv_split = 2;
  Box b(threads); b.start();
  {
    Conn c; c.open();
    if (pipelined) {
      std::string all; { Guard g; for (auto& x : e) all += x.text; }
      c.send(all); wait_idle(); c.drain(); Guard g; all = std::string();
    } else for (size_t i = 0; i < e.size(); i++) { c.send(e[i].text); wait_idle(); c.drain(); }
    judge(c, e, pipelined ? "pipelined requests" : "requests in turn"); judge_calls(e, "requests"); judge_server(b, "server");
    { Guard g; outcome(c.rd.text() + calls_text()); }
    c.close(); wait_idle();
  }
  b.stop(); b.destroy();
  { Guard g; e.clear(); e.shrink_to_fit(); }
  reset_log();
}

void c07(Driver& D) {
  bool q = D.quick();
  Scenario s; s.leaks = false;
  s.name = "reader-cuts"; s.managed = false; s.run = [q] { c07_reader(q ? 2 : 3); };
  s.note = "12 request shapes, every placement of up to 2 (thorough 3) cuts";
  D.scenarios.push_back(s);
  s.managed = true;
  s.name = "server-chunks"; s.run = [] { c07_server({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 2, false, 200); };
  s.note = "all pairs of shapes sent in turn, every fixed read size 1..200"; D.scenarios.push_back(s);
  s.name = "server-chunks-pipelined"; s.run = [] { c07_server({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 2, true, 400); };
  s.note = "all pairs of shapes sent back to back, every fixed read size 1..400"; D.scenarios.push_back(s);
  s.name = "server-cuts"; s.budget.tot(q ? 1 : 2).set(C_IO, q ? 1 : 2); s.run = [] { c07_server({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 2, false, 0); };
  s.note = "all pairs of shapes sent in turn, every placement of up to 1 (thorough 2) short reads"; D.scenarios.push_back(s);
  s.name = "server-cuts-pipelined"; s.run = [] { c07_server({0, 1, 3, 4, 5, 7, 8, 9, 10, 11}, 2, true, 0); };
  s.note = "pairs of shapes sent back to back, every placement of short reads"; D.scenarios.push_back(s);
  s.name = "server-cuts2-pipelined"; s.budget.tot(2).set(C_IO, 2); s.run = [] { c07_server({0}, 2, true, 0); };
  s.note = "two requests back to back, every placement of up to 2 short reads"; D.scenarios.push_back(s);
  s.name = "three-pipelined"; s.budget.tot(1).set(C_IO, 1); s.run = [q] { c07_server({0, 1, 4, 5}, 3, true, 0, q ? 0 : 0); };
  s.note = "three requests back to back, every short read"; D.scenarios.push_back(s);
  s.name = "pool-pipelined"; s.run = [] { c07_server({0, 1, 4, 5}, 2, true, 0, 1); };
  s.note = "pairs back to back with a worker thread, every short read"; D.scenarios.push_back(s);
}

// ------------------------------------------------------------------------------------------- C08
static Exp c08_req(int k, int v) {
  switch (k) {
    case 0: return x_echo(v);
    case 1: return x_big(300);
    case 2: return x_fault();
    case 3: return x_unknown();
    case 4: return x_echo(v, false);
    default: return x_big(40, false);
  }
}
static void c08_writes(int len, int threads, bool slow) {
  reset_log();
  std::vector<Exp> e;
  for (int i = 0; i < len; i++) { e.push_back(c08_req(choose(6, C_FREE, "request"), 10 + i)); if (!e.back().keep) break; }
  if (slow) net_opts.sndbuf = 1 + choose(60, C_FREE, "window") * 7; else net_opts.send_split = 2;
  Box b(threads); b.start();
  {
    Conn c; c.open();
    for (size_t i = 0; i < e.size(); i++) {
      c.send(e[i].text); wait_idle();
      if (slow) for (int k = 0; k < 100000 && !net::recv_would_block(c.fd) && !c.eof; k++) { std::string s = net::recv_some(c.fd, 37); if (s.empty()) c.eof = true; else c.rd.feed(s); { Guard g; s = std::string(); } wait_idle(); }
      else c.drain();
    }
    judge(c, e, "connection"); judge_calls(e, "connection"); judge_server(b, "server"); judge_bad_ops("server");
    { Guard g; outcome(c.rd.text()); }
    c.close(); wait_idle();
  }
  b.stop(); b.destroy();
  { Guard g; e = std::vector<Exp>(); }
  reset_log();
}
// the ways a client can ask for the connection to be kept or not
static void c08_keep() {
  reset_log();
  static const char* H[] = {"Connection: keep-alive", "Connection: Keep-Alive", "connection: KEEP-ALIVE", "CONNECTION:Keep-alive", "Connection:   keep-alive", "Connection: close", "Connection: Close", ""};
  int k = choose(8, C_FREE, "header"), v = choose(2, C_FREE, "version"), place = choose(2, C_FREE, "place"), len = choose(2, C_FREE, "reply");
  bool keep = k < 5;
  Box b; b.start();
  {
    Conn c; c.open(); std::vector<Exp> e;
    { Guard g;
      Exp x = len ? x_big(300) : x_echo(4); x.keep = keep;
      Rq r; r.keep = false; r.line = v ? "POST /RPC HTTP/1.0" : "POST /RPC HTTP/1.1";
      if (place == 0 && *H[k]) r.line += "\r\n" + std::string(H[k]); else if (*H[k]) r.headers = {H[k]};
      r.body = len ? call_xml("big", xint(300)) : call_xml("echo", xint(4)); x.text = r.text();
      e.push_back(x); if (keep) e.push_back(x_echo(5)); }
    for (auto& x : e) { c.send(x.text); wait_idle(); c.drain(); }
    judge(c, e, "connection"); judge_calls(e, "connection"); judge_server(b, "server");
    if (keep && c.gone()) { Guard g; violation("not-kept", std::string("the server closed a connection it was asked to keep: \"") + H[k] + "\""); }
    { Guard g; outcome(std::string(H[k]) + " | " + c.rd.text()); }
    c.close(); wait_idle(); Guard g; e = {};
  }
  b.stop(); b.destroy(); reset_log();
}
// several connections, their requests cut in two, all interleavings of the pieces
static void c08_mix(int conns, int per, int threads, bool pipelined_second) {
  reset_log();
  Box b(threads); b.start();
  {
    std::vector<Conn> c(conns); std::vector<std::vector<Exp>> e(conns); std::vector<std::vector<std::string>> seg(conns); std::vector<size_t> at(conns, 0);
    for (int i = 0; i < conns; i++) {
      Guard g;
      for (int k = 0; k < per; k++) {
        Exp x = k == per - 1 && i == 1 ? x_echo(100 * i + k, false) : x_echo(100 * i + k); e[i].push_back(x);
        seg[i].push_back(x.text.substr(0, x.text.size() - 25)); seg[i].push_back(x.text.substr(x.text.size() - 25));
      }
      if (pipelined_second && per > 1) { seg[i][1] += seg[i][2]; seg[i].erase(seg[i].begin() + 2); }
    }
    for (int i = 0; i < conns; i++) c[i].open();
    for (;;) {
      std::vector<int> can; { Guard g; for (int i = 0; i < conns; i++) if (at[i] < seg[i].size()) can.push_back(i); }
      if (can.empty()) break;
      int i = can[choose((int)can.size(), C_FREE, "which-connection")];
      c[i].send(seg[i][at[i]++]);
      wait_idle(); for (auto& x : c) x.drain();
      Guard g; can = std::vector<int>();
    }
    for (int i = 0; i < conns; i++) judge(c[i], e[i], "connection " + std::to_string(i));
    { Guard g; std::map<std::string, int> n; for (auto& k : L().calls) n[k.arg]++; for (auto& k : n) if (k.second != 1) violation("calls", "call " + k.first + " executed " + std::to_string(k.second) + " times"); }
    judge_server(b, "server"); judge_bad_ops("server");
    { Guard g; for (auto& x : c) outcome(x.rd.text() + "| "); }
    for (auto& x : c) x.close();
    wait_idle();
    Guard g; e.clear(); e.shrink_to_fit(); seg.clear(); seg.shrink_to_fit(); at = std::vector<size_t>(); 
  }
  b.stop(); b.destroy();
  reset_log();
}
// client threads run freely against the server: schedules up to the budget
static void c08_threads(int clients, int per, int threads) {
  reset_log();
  Box b(threads); b.start();
  {
    std::vector<Conn> c(clients); std::vector<std::vector<Exp>> e(clients); std::vector<int> t;
    for (int i = 0; i < clients; i++) { Guard g; for (int k = 0; k < per; k++) e[i].push_back(x_echo(100 * i + k, k + 1 < per || i != 1)); }
    for (int i = 0; i < clients; i++) {
      int id = spawn(i ? "clientB" : "clientA", [&, i] { c[i].open(); for (size_t k = 0; k < e[i].size(); k++) { c[i].send(e[i][k].text); if (!c[i].wait(k + 1)) break; } });
      Guard g; t.push_back(id);
    }
    for (int x : t) join(x);
    wait_idle(); for (auto& x : c) x.drain();
    for (int i = 0; i < clients; i++) judge(c[i], e[i], "client " + std::to_string(i));
    { Guard g; std::map<std::string, int> n; for (auto& k : L().calls) n[k.arg]++; if ((int)L().calls.size() != clients * per) violation("calls", "calls made: " + calls_text()); }
    judge_server(b, "server"); judge_bad_ops("server");
    { Guard g; for (auto& x : c) outcome(x.rd.text() + "| "); outcome(calls_text()); }
    for (auto& x : c) x.close();
    wait_idle();
    Guard g; e.clear(); e.shrink_to_fit(); t = std::vector<int>();
  }
  b.stop(); b.destroy();
  reset_log();
}
// many connections, or many requests on one
static void c08_many() {
  reset_log();
  static const int N[] = {8, 33, 70, 130};
  int n = N[choose(4, C_FREE, "connections")], order = choose(3, C_FREE, "order"), threads = choose(2, C_FREE, "pool") * 3, gone = choose(3, C_FREE, "gone"), cut = choose(2, C_FREE, "cut");
  Box b(threads); b.start();
  {
    std::vector<Conn> c(n); std::vector<std::vector<Exp>> e(n); for (int i = 0; i < n; i++) { c[i].open(); if (i % 30 == 29) wait_idle(); }
    auto at = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2); };
    for (int r = 0; r < 3; r++) {
      for (int i = 0; i < n; i++) { int k = at(i); if (c[k].fd < 0) continue; Exp x = c08_req((k + r) % 4, k * 10 + r); { Guard g; e[k].push_back(x); } if (cut) { c[k].send(x.text.substr(0, 40)); } else c[k].send(x.text); Guard g; x = Exp(); }
      if (cut) { wait_idle(); for (int i = 0; i < n; i++) if (c[at(i)].fd >= 0) c[at(i)].send(e[at(i)].back().text.substr(40)); }
      wait_idle(); for (auto& x : c) if (x.fd >= 0) x.drain();
      for (int k = 0; k < n && !violated(); k++) if (c[k].fd >= 0) judge(c[k], e[k], "connection " + std::to_string(k));
      if (r == 0 && gone) { for (int k = 0; k < n; k++) if (gone == 1 ? k % 3 == 1 : k < n / 2) c[k].close(); wait_idle(); }
    }
    judge_server(b, "server"); judge_bad_ops("server"); for (auto& x : c) x.close(); wait_idle();
    Guard g; e = {}; outcome("all answered");
  }
  b.stop(); b.destroy(); reset_log();
}
static void c08_long() {
  reset_log();
  static const int N[] = {20, 100, 5000};
  int n = N[choose(3, C_FREE, "requests")], threads = choose(2, C_FREE, "pool"), at_once = choose(2, C_FREE, "at-once"), mix = choose(2, C_FREE, "kinds");
  if (n == 5000 && !at_once) { outcome("-"); return; }
  Box b(threads); b.start();
  {
    Conn c; c.open(); std::vector<Exp> e; std::string all;
    for (int i = 0; i < n; i++) { Exp x = c08_req(mix ? i % 4 : 0, i); { Guard g; e.push_back(x); if (at_once) all += x.text; } if (!at_once) { c.send(x.text); wait_idle(); c.drain(); } Guard g; x = Exp(); }
    for (size_t p = 0; at_once && p < all.size(); p += 60000) { c.send(all.substr(p, 60000)); wait_idle(); c.drain(); }
    for (size_t was = 0; was != c.rd.out.size();) { was = c.rd.out.size(); wait_idle(); c.drain(); }
    judge(c, e, "connection"); judge_calls(e, "connection"); judge_server(b, "server");
    c.close(); wait_idle(); Guard g; e = {}; all = std::string(); outcome("all answered");
  }
  b.stop(); b.destroy(); reset_log();
}
void c08(Driver& D) {
  bool q = D.quick();
  Scenario s; s.leaks = false;
  s.name = "short-writes"; s.budget.tot(1).set(C_IO, 1); s.run = [] { c08_writes(2, 0, false); };
  s.note = "all sequences of 2 request kinds out of 6, every length of one short write"; D.scenarios.push_back(s);
  s.name = "short-writes-2"; s.budget.tot(2).set(C_IO, 2); s.run = [q] { c08_writes(q ? 1 : 2, 0, false); };
  s.note = "1 request (thorough: 2), every pair of short writes"; D.scenarios.push_back(s);
  s.name = "small-window"; s.budget = Budget(); s.run = [q] { c08_writes(q ? 2 : 3, 0, true); };
  s.note = "sequences of 2 (3) requests, 60 window sizes, client reads 37 bytes at a time"; D.scenarios.push_back(s);
  s.name = "small-window-pool"; s.run = [] { c08_writes(2, 1, true); }; s.note = "the same with a worker thread"; D.scenarios.push_back(s);
  s.name = "many"; s.run = c08_many; s.note = "8, 33, 70 or 130 connections with three requests each, in 3 orders, some of which go"; D.scenarios.push_back(s);
  s.name = "long"; s.run = c08_long; s.note = "20, 100 or 5000 requests on one connection, in turn or back to back"; D.scenarios.push_back(s);
  s.name = "keep-alive"; s.run = c08_keep; s.note = "8 spellings of the wish to keep or close, 2 protocol versions, first or last header, 2 replies"; D.scenarios.push_back(s);
  s.name = "interleaved"; s.run = [] { c08_mix(3, 2, 0, false); };
  s.note = "3 connections with 2 requests each in 2 pieces each: all interleavings"; D.scenarios.push_back(s);
  s.name = "interleaved-pool"; s.run = [q] { c08_mix(q ? 2 : 3, 2, 2, false); }; s.note = "2 (3) connections, 2 worker threads: all interleavings of the pieces"; D.scenarios.push_back(s);
  s.name = "interleaved-switch-pool"; s.budget.tot(q ? 1 : 2).set(C_SWITCH, q ? 1 : 2).set(C_PREEMPT, q ? 1 : 2); s.run = [] { c08_mix(2, 2, 2, true); };
  s.note = "2 connections, second request sent together with the end of the first, 2 workers, up to 1 (2) scheduling deviations"; D.scenarios.push_back(s);
  s.name = "client-threads"; s.budget.tot(q ? 2 : 3).set(C_PREEMPT, q ? 2 : 3).set(C_SWITCH, q ? 2 : 3); s.run = [] { c08_threads(2, 2, 0); };
  s.note = "2 client threads with 2 requests each against the serial server, up to 2 (3) scheduling deviations"; D.scenarios.push_back(s);
  s.name = "client-threads-pool"; s.run = [] { c08_threads(2, 1, 2); };
  s.note = "2 client threads, 2 worker threads, up to 2 (3) scheduling deviations"; D.scenarios.push_back(s);
}
}  // namespace nk

int main(int argc, char** argv) {
  return driver_main(argc, argv, [](Driver& D) {
    if (D.property == "C07") c07(D);
    if (D.property == "C08") c08(D);
    if (D.property == "C09") c09(D);
    if (D.property == "C10") c10(D);
    if (D.property == "C11") c11(D);
    if (D.property == "C12") c12(D);
    if (D.property == "C13") c13(D);
    if (D.property == "C14") c14(D);
    if (D.property == "C15") c15(D);
    if (D.property == "C16") c16(D);
    if (D.property == "C17") c17(D);
    if (D.property == "C31") c31(D);
    if (D.property == "C32") c32(D);
    if (D.property == "C33") c33(D);
  });
}
