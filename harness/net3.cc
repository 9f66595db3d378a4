// Server-side HTTP properties over the simulated network: C13 - C17.
#include "net.h"
#include <libiqxmlrpc/value_type.h>
#include <set>
using namespace mc;
using namespace nk;

namespace nk {
static std::string body_echo(int v) { return "<methodCall><methodName>echo</methodName><params><param>" + xint(v) + "</param></params></methodCall>"; }

// ------------------------------------------------------------------------------------------- C13
struct Fw : iqnet::Firewall_base {
  std::string msg; bool dflt = false; std::vector<std::string> seen;
  bool grant(const iqnet::Inet_addr& a) override { Guard g; std::string h = a.get_host_name(); seen.push_back(h); return h.compare(0, 8, "127.0.0.") == 0; }
  std::string message() override { return dflt ? iqnet::Firewall_base::message() : msg; }
};
static void c13_run(int n, int threads, bool faults, bool rerun) {
  reset_log();
  Fw fw; int mk = choose(n > 3 ? 4 : 6, C_FREE, "message");
  { Guard g; if (mk == 0) fw.dflt = true; if (mk == 2) fw.msg = "go away"; if (mk == 3) fw.msg = std::string(3000, 'm'); if (mk == 4) fw.msg = "!"; if (mk == 5) fw.msg = std::string("a\0\r\nb", 5); }
  std::string full; { Guard g; full = fw.dflt ? "HTTP/1.0 403 Forbidden\r\n" : fw.msg; }
  { Guard g; net_opts.fault_from = "10.0.0.9"; }
  if (faults) { net_opts.recv_fault = net_opts.send_fault = net_opts.fcntl_fault = net_opts.accept_fault = true; net_opts.send_split = 1; }
  Box b(threads); b.srv->set_firewall(&fw); b.start();
  size_t base = net::open_fds().size();
  {
    Conn ok; std::vector<Exp> oke; int okn = 0;
    auto good = [&](const char* when) {
      Exp x; { Guard g; x = x_echo(100 + okn++); oke.push_back(x); }
      if (ok.fd < 0) ok.open();
      ok.send(x.text); wait_idle(); ok.drain();
      judge(ok, oke, std::string("granted client ") + when); Guard g; x = Exp();
    };
    for (int i = 0; i < n && !violated(); i++) {
      int k = choose(6, C_FREE, "client");   // 0 granted client request, others: denied client variants
      if (k == 0) { good("between denied ones"); continue; }
      Conn d; d.open(3000, "10.0.0.9");
      std::string rq1; { Guard g; rq1 = rq_echo(1); }
      if (k >= 2) d.send(rq1);
      if (k == 3) d.close();
      if (k == 4) d.reset();
      if (k == 5) { wait_idle(); d.send(rq1); }
      wait_idle();
      if (d.fd >= 0) {
        std::string got; while (!net::recv_would_block(d.fd)) { std::string s = net::recv_some(d.fd); if (s.empty()) break; Guard g; got += s; s = std::string(); }
        Guard g;
        if (got.size() > full.size() || full.compare(0, got.size(), got) != 0) violation("denied-served", "a denied client received " + esc(got, 200));
        if (!faults && (k == 1 || k == 5) && got != full) violation("denied-message", "a denied client received '" + esc(got, 100) + "' of the message '" + esc(full, 100) + "'");
        if (!net::peer_gone(d.fd)) violation("denied-open", "a denied client is still connected");
        outcome(std::to_string(got.size()) + " "); got = std::string();
      }
      d.close(); wait_idle();
      Guard g; rq1 = std::string();
      size_t now = net::open_fds().size() - (ok.fd >= 0 ? 1 : 0);
      if (now != base) violation("denied-leak", "after a denied client the server has " + std::to_string(now) + " sockets open instead of " + std::to_string(base));
    }
    if (!violated()) good("at the end");
    for (auto& c : L().calls) { Guard g; if (c.arg == "i4:1") violation("denied-executed", "a request of a denied client was executed"); }
    judge_server(b, "server"); judge_bad_ops("server");
    if (rerun && !violated()) {
      ok.close(); wait_idle(); b.stop(); { Guard g; ok = Conn(); oke.clear(); } b.start();
      good("after the server was run again");
      Conn d; d.open(3000, "10.0.0.9"); { std::string t; { Guard g; t = rq_echo(1); } d.send(t); Guard g; t = std::string(); } wait_idle();
      { Guard g; for (auto& c : L().calls) if (c.arg == "i4:1") violation("denied-executed", "a request of a denied client was executed after the server was run again"); if (!net::peer_gone(d.fd)) violation("denied-open", "a denied client is connected after the server was run again"); }
      d.close(); wait_idle();
    }
    ok.close(); wait_idle(); Guard g; oke = {};
  }
  b.stop(); b.destroy();
  { Guard g; fw.msg = std::string(); fw.seen = {}; full = std::string(); net_opts.fault_from = std::string(); }
  reset_log();
}
// decisions that differ by address and by time, the firewall changed between runs
struct FwTable : iqnet::Firewall_base {
  std::map<std::string, bool> ok; std::vector<std::string> asked; std::string msg;
  bool grant(const iqnet::Inet_addr& a) override { Guard g; std::string h = a.get_host_name(); asked.push_back(h); auto i = ok.find(h); return i != ok.end() && i->second; }
  std::string message() override { return msg; }
};
static void c13_changing(int n, int runs, int threads) {
  reset_log();
  static const char* FROM[] = {"127.0.0.1", "1.0.0.127", "10.0.0.9", "255.255.255.254", "0.0.0.1"};
  FwTable f[2]; { Guard g; f[0].msg = "first"; f[1].msg = "second one"; }
  Box b(threads); size_t nfrom = runs > 1 ? 2 : 5; int no = 0;
  for (int r = 0; r < runs && !violated(); r++) {
    int w = runs > 1 ? choose(3, C_FREE, "firewall") : 1;           // 0 none
    b.srv->set_firewall(w ? &f[w - 1] : nullptr); b.start(); size_t base = net::open_fds().size();
    if (runs > 1) { Guard g; f[0].ok = {{FROM[0], true}}; f[1].ok = {{FROM[1], true}}; }
    for (int i = 0; i < n && !violated(); i++) {
      int at = choose((int)nfrom, C_FREE, "address"); bool yes = w == 0 || (runs > 1 ? at == w - 1 : choose(2, C_FREE, "grant") == 0); no++;
      { Guard g; if (runs == 1) f[0].ok[FROM[at]] = yes; f[0].asked.clear(); f[1].asked.clear(); reset_log(); }
      Conn c; c.open(3000, FROM[at]); std::vector<Exp> e; std::string t; { Guard g; e.push_back(x_echo(no)); t = e[0].text; }
      wait_idle(); c.send(t); wait_idle();
      if (yes) { c.drain(); judge(c, e, std::string("granted client ") + FROM[at]); Guard g; if (L().calls.size() != 1 || L().calls[0].peer != FROM[at]) violation("granted", std::string("the call of ") + FROM[at] + " was not executed for that client"); }
      else {
        std::string got; while (!net::recv_would_block(c.fd)) { std::string s = net::recv_some(c.fd); if (s.empty()) break; Guard g; got += s; s = std::string(); }
        Guard g; const std::string& full = f[w - 1].msg;
        if (got != full) violation("message", std::string("denied client ") + FROM[at] + " received '" + esc(got, 100) + "', the message is '" + full + "'");
        if (!net::peer_gone(c.fd)) violation("denied-open", "a denied client is still connected");
        if (!L().calls.empty()) violation("denied-executed", "a request of a denied client was executed");
        got = std::string();
      }
      { Guard g; for (int k = 0; k < 2; k++) { bool mine = w == k + 1; if (mine ? f[k].asked.empty() : !f[k].asked.empty()) violation("asked", mine ? "the firewall was not asked" : "a firewall that is not installed was asked"); for (auto& a : f[k].asked) if (a != FROM[at]) violation("asked", "the firewall was asked about " + a + " when " + FROM[at] + " came"); }
        outcome(std::string(FROM[at]) + (yes ? "+ " : "- ")); }
      c.close(); wait_idle(); Guard g; e = {}; t = std::string();
      if (net::open_fds().size() != base) violation("denied-leak", "a socket is left open");
    }
    judge_server(b, "server"); b.stop();
  }
  b.destroy(); { Guard g; for (auto& x : f) { x.ok.clear(); x.asked = {}; x.msg = std::string(); } } reset_log();
}
void c13(Driver& D) {
  bool q = D.quick(); bool as = D.is("asan");
  Scenario s; s.leaks = true;
  s.name = "histories"; s.run = [q, as] { c13_run(as ? 2 : q ? 4 : 5, 0, false, false); }; s.note = "all histories of 4 (5) clients, denied ones acting in 5 ways, 4 messages"; D.scenarios.push_back(s);
  s.name = "histories-pool"; s.run = [as] { c13_run(as ? 2 : 3, 1, false, false); }; s.note = "histories of 3 with a worker thread"; D.scenarios.push_back(s);
  s.name = "run-again"; s.run = [] { c13_run(1, 0, false, true); }; s.note = "the server is stopped and run again"; D.scenarios.push_back(s);
  s.name = "decisions"; s.run = [as] { c13_changing(as ? 2 : 4, 1, 0); }; s.note = "4 clients from 5 addresses, each granted or denied, the firewall asked about the right one"; D.scenarios.push_back(s);
  s.name = "decisions-pool"; s.run = [] { c13_changing(2, 1, 1); }; s.note = "two clients with a worker thread"; D.scenarios.push_back(s);
  s.name = "changed"; s.run = [as] { c13_changing(as ? 1 : 2, as ? 2 : 3, 0); }; s.note = "three runs, each with no firewall or one of two"; D.scenarios.push_back(s);
  s.name = "faults"; s.budget.tot(as ? 1 : q ? 2 : 3).set(C_FAULT, q ? 2 : 3).set(C_IO, q ? 1 : 2); s.run = [q] { c13_run(2, 0, true, false); };
  s.note = "histories of 2, up to 2 (3) failing or short socket calls made for the denied client"; D.scenarios.push_back(s);
}

// ------------------------------------------------------------------------------------ C14 and C15
// what client A may send
static const std::vector<std::pair<const char*, std::string>>& payloads() {
  static std::vector<std::pair<const char*, std::string>>* v = nullptr; if (v) return *v;
  Guard g; v = new std::vector<std::pair<const char*, std::string>>;
  std::string e = rq_echo(1);
  auto add = [&](const char* n, const std::string& t) { v->push_back({n, t}); };
  add("nothing", "");
  add("half a header", e.substr(0, 20));
  add("header without its end", e.substr(0, e.find("\r\n\r\n") + 3));
  add("header only", e.substr(0, e.find("\r\n\r\n") + 4));
  add("half a body", e.substr(0, e.size() - 30));
  add("a request", e);
  add("a request to close", rq_echo(1, false));
  add("two requests", e + rq_echo(2));
  add("a request and a half", e + e.substr(0, 50));
  add("GET", "GET / HTTP/1.1\r\nHost: x\r\n\r\n");
  add("garbage", std::string("\x16\x03\x01\0\0\r\n\xff\xfe\r\n\r\n", 14));
  add("a header line without colon", "POST / HTTP/1.1\r\nnocolon\r\n\r\nmore");
  { Rq r; r.body = "<methodCall><oops"; add("bad document", r.text()); }
  { Rq r; r.body = ""; add("empty document", r.text()); }
  add("a call that raises", rq("raise", xint(2)));
  add("an unknown method", rq("nosuch", ""));
  add("a call with a large reply", rq("big", xint(5000)));
  { Rq r; r.headers = {"Expect: 100-continue"}; r.body = body_echo(3); add("an expectation", r.head()); add("an expectation and half a body", r.head() + r.body.substr(0, 10)); }
  { Rq r; r.length = false; add("no length", r.head()); }
  add("too much", "POST / HTTP/1.1\r\nContent-Length: 100000\r\n\r\n");
  return *v;
}
struct AOpt { int threads = 0; bool faults = false; bool leak = false; size_t max_sz = 2000; bool window = false; int clients = 1; int split = 0; };
static void c14_run(AOpt o) {
  reset_log();
  { Guard g; net_opts.fault_from = "10.0.0.9"; }
  if (o.faults) net_opts.recv_fault = net_opts.send_fault = net_opts.fcntl_fault = net_opts.accept_fault = true;
  net_opts.recv_split = net_opts.send_split = o.split;
  if (o.window) net_opts.sndbuf = 1000;
  int destroy_early = 0;
  {
    Box b(o.threads); b.srv->set_max_request_sz(20000); b.start();
    size_t base = net::open_fds().size();
    {
      Conn B; std::vector<Exp> be; int bn = 0;
      auto good = [&](const char* when) {
        if (violated()) return;
        Exp x; { Guard g; x = x_echo(100 + bn++); be.push_back(x); }
        if (B.fd < 0) B.open();
        B.send(x.text); wait_idle(); B.drain();
        judge_server(b, when); if (!violated()) judge(B, be, std::string("other client ") + when); Guard g; x = Exp();
      };
      std::vector<Conn> A(o.clients);
      int bfirst = choose(2, C_FREE, "other-client-connected-before");
      if (bfirst) good("before");
      for (int i = 0; i < o.clients; i++) {
        auto& p = payloads()[choose((int)payloads().size(), C_FREE, "payload")];
        int end = choose(4, C_FREE, "ending");              // stays, closes, resets, half-closes
        bool seen = choose(2, C_FREE, "server-sees-payload-first");
        { Guard g; trace("client A%d: %s, then %s%s", i, p.first, end == 0 ? "stays" : end == 1 ? "closes" : end == 2 ? "resets" : "half-closes", seen ? "" : " at once"); }
        A[i].open(3000, "10.0.0.9"); A[i].send(p.second);
        if (seen) good("after the payload");
        if (end == 1) A[i].close(); if (end == 2) A[i].reset(); if (end == 3 && A[i].fd >= 0) net::shut_wr(A[i].fd);
        good("after the ending");
      }
      for (auto& a : A) { if (a.fd >= 0) { a.drain(); { Guard g; outcome(a.rd.text()); } } a.close(); }
      wait_idle(); good("at the end");
      judge_bad_ops("server");
      { Guard g; size_t now = net::open_fds().size(); if (!violated() && now != base + 1) violation("socket-leak", "after client A ended the server has " + std::to_string(now) + " sockets open instead of " + std::to_string(base + 1)); }
      B.close(); wait_idle();
      { Guard g; size_t now = net::open_fds().size(); if (!violated() && now != base) violation("socket-leak", "after all clients ended the server has " + std::to_string(now) + " sockets open instead of " + std::to_string(base)); }
      Guard g; be = {}; A = {};
    }
    b.stop(); b.destroy();
  }
  if (o.leak) { Guard g; auto l = net::open_fds(); if (!violated() && !l.empty()) violation("server-sockets", std::to_string(l.size()) + " socket(s) of the server are still open after it was destroyed"); judge_bad_ops("server"); }
  { Guard g; net_opts.fault_from = std::string(); }
  reset_log();
}
// client A breaks its connection while its call is being executed by a worker
static void c14_executing(bool leak, bool faults, int workers) {
  reset_log();
  { Guard g; net_opts.fault_from = "10.0.0.9"; }
  if (faults) net_opts.recv_fault = net_opts.send_fault = true;
  int stage = 0;
  { Guard g; L().on_call = [&stage](Method*, const std::string&) { bool hold; { Guard g2; hold = L().calls.back().arg == "i4:1"; } if (hold) { stage = 1; block_until("release", [&stage] { return stage == 2; }); } }; }
  Box b(workers); b.start(); size_t base = net::open_fds().size();
  {
    Conn A, B; std::vector<Exp> be; int bn = 0;
    auto good = [&](const char* when) {
      if (violated()) return;
      Exp x; { Guard g; x = x_echo(100 + bn++); be.push_back(x); }
      if (B.fd < 0) B.open();
      B.send(x.text); wait_idle(); B.drain(); judge_server(b, when); if (!violated()) judge(B, be, std::string("other client ") + when); Guard g; x = Exp();
    };
    A.open(3000, "10.0.0.9"); { std::string t; { Guard g; t = rq_echo(1, choose(2, C_FREE, "keep")); if (choose(2, C_FREE, "pipelined")) t += rq_echo(2); } A.send(t); Guard g; t = std::string(); } wait_idle();
    if (stage != 1 && !faults && !violated()) violation("not-started", "the call was not started");
    int end = choose(3, C_FREE, "ending");
    if (end == 1) A.close(); if (end == 2) A.reset();
    if (workers > 1) good("while the call is executed");
    stage = 2; wait_idle();
    good("after the call");
    A.close(); wait_idle(); good("at the end"); judge_bad_ops("server");
    { Guard g; size_t now = net::open_fds().size(); if (!violated() && now != base + 1) violation("socket-leak", "after client A ended the server has " + std::to_string(now) + " sockets open instead of " + std::to_string(base + 1)); outcome(A.rd.text() + B.rd.text()); }
    B.close(); wait_idle(); Guard g; be = {};
  }
  b.stop(); b.destroy();
  if (leak) { Guard g; auto l = net::open_fds(); if (!violated() && !l.empty()) violation("server-sockets", std::to_string(l.size()) + " socket(s) of the server are still open after it was destroyed"); }
  { Guard g; net_opts.fault_from = std::string(); }
  reset_log();
}
static void c1415(Driver& D, bool leak) {
  bool q = D.quick(); bool as = D.is("asan");
  Scenario s; s.leaks = leak;
  AOpt o; o.leak = leak;
  s.name = "clients-1"; s.run = [o] { c14_run(o); }; s.note = "21 payloads x 4 endings x seen first or not x other client connected before or after"; D.scenarios.push_back(s);
  s.name = "clients-1-pool"; o.threads = 1; s.run = [o] { c14_run(o); }; s.note = "the same with a worker thread"; D.scenarios.push_back(s);
  o.threads = 0; o.window = true; s.name = "clients-1-window"; s.run = [o] { c14_run(o); }; s.note = "the same with windows of 1000 bytes that client A does not read"; D.scenarios.push_back(s);
  o.threads = 1; s.name = "clients-1-window-pool"; s.run = [o] { c14_run(o); }; s.note = "the same with a worker thread"; D.scenarios.push_back(s);
  o.threads = 0; o.window = false;
  s.name = "executing"; s.run = [leak] { c14_executing(leak, false, 2); }; s.note = "client A breaks off while its call is executed by a worker"; D.scenarios.push_back(s);
  if (!as) { o.clients = 2; s.name = "clients-2"; s.run = [o] { c14_run(o); }; s.note = "two such clients, all pairs of payload and ending"; D.scenarios.push_back(s); o.clients = 1; }
  o.faults = true; s.budget.tot(as ? 2 : 3).set(C_FAULT, as ? 2 : 3);
  s.name = "faults"; s.run = [o] { c14_run(o); }; s.note = "up to 2 (3) failing accept, recv, send or fcntl calls made for client A"; D.scenarios.push_back(s);
  s.name = "faults-pool"; o.threads = 1; s.run = [o] { c14_run(o); }; s.note = "the same with a worker thread"; D.scenarios.push_back(s);
  s.name = "faults-window"; o.window = true; o.threads = 0; s.run = [o] { c14_run(o); }; s.note = "failing calls with small windows"; D.scenarios.push_back(s);
  o.window = false; o.clients = 2; if (!as && !q) { s.budget.tot(1); s.name = "faults-2"; s.run = [o] { c14_run(o); }; s.note = "two such clients and one failing call"; D.scenarios.push_back(s); }
  s.budget.tot(3);
  s.name = "faults-executing"; s.run = [leak] { c14_executing(leak, true, 2); }; s.note = "failing calls while a worker executes"; D.scenarios.push_back(s);
  o = AOpt(); o.leak = leak; o.faults = true; o.split = 1; s.budget.tot(as ? 1 : 2).set(C_FAULT, 1).set(C_IO, as ? 1 : 2);
  s.name = "faults-short"; s.run = [o] { c14_run(o); }; s.note = "one failing call combined with a short read or write"; D.scenarios.push_back(s);
  s.budget = Budget(); s.budget.tot(1).set(C_SWITCH, 1).set(C_PREEMPT, 1); o = AOpt(); o.leak = leak; o.threads = 1;
  s.name = "switch-pool"; s.run = [o] { c14_run(o); }; s.note = "one scheduling deviation with a worker thread"; if (!as) D.scenarios.push_back(s);
}
void c14(Driver& D) { c1415(D, false); }

// ------------------------------------------------------------------------------------------- C16
struct Out { std::string text, call, rpc; bool any; };
static int g_code; static std::string* g_text;
class Fails : public Method { void execute(const Param_list& p, Value& r) override { note_call(this, p); r = "half done"; throw iqxmlrpc::Fault(g_code, *g_text); } };
class Bytes : public Method { void execute(const Param_list& p, Value& r) override { note_call(this, p); static const char* B[] = {"\xff\xfe", "a\x01z", "\xc3", "\xed\xa0\x80"}; r = std::string(B[p[0].get_int()]); } };
class Long : public Method { void execute(const Param_list& p, Value&) override { note_call(this, p); int n = p[0].get_int(); if (n < 0) throw iqxmlrpc::Fault(-n, std::string(-n, '<')); throw std::runtime_error(std::string(n, '&')); } };
class Leaves : public Method { void execute(const Param_list& p, Value&) override { note_call(this, p); } };
static const std::vector<Out>& outs16() {
  static std::vector<Out>* v = nullptr; if (v) return *v;
  Guard g; v = new std::vector<Out>;
  auto add = [&](const std::string& body, const std::string& call, const std::string& rpc, bool any = false) { Rq r; r.xml_type = false; r.body = body; v->push_back(Out{r.text(), call, rpc, any}); };
  add(call_xml("echo", xint(5)), "echo(i4:5)", "result i4:5");
  add(call_xml("echo"), "echo()", "result nil");
  add(call_xml("echo", "<value><array><data><value><string>a&lt;b</string></value><value><boolean>1</boolean></value></data></array></value>"), "", "");
  v->back().rpc = "result [\"a<b\",true,]"; v->back().call = "echo([\"a<b\",true,])";
  add(call_xml("leaves"), "leaves()", "result i4:0");
  for (int k = 0; k < 8; k++) {
    static const char* R[] = {"fault 17 \"seventeen & <more>\"", "fault -32500 \"plain error\"", "fault", "fault 99 \"library error\"", "fault -5 \"\"", "fault", "fault", "fault"};
    add(call_xml("raise", xint(k)), "raise(i4:" + std::to_string(k) + ")", R[k], k == 2 || k > 4);
  }
  for (int n : {-90, 300, -5000, 5000}) add(call_xml("long", xint(n)), "long(i4:" + std::to_string(n) + ")", n < 0 ? "fault " + std::to_string(-n) + " \"" + esc(std::string(-n, '<')) + "\"" : "fault -32500 \"" + esc(std::string(n, '&')) + "\"");
  for (int k = 0; k < 4; k++) add(call_xml("bytes", xint(k)), "bytes(i4:" + std::to_string(k) + ")", "", true);   // not expressible in XML: only the connection is judged
  add(call_xml("raise", xstr("not a number")), "raise(\"not a number\")", "fault", true);
  add(call_xml("nosuch", xint(1)), "", "fault", true);
  add(call_xml("echo "), "", "fault", true);
  add("<methodCall><methodName>echo</methodName><params><param>", "", "fault", true);
  add("", "", "fault", true);
  add("not xml", "", "fault", true);
  add("<methodResponse><params><param>" + xint(1) + "</param></params></methodResponse>", "", "fault", true);
  add(call_xml("echo", "<value><int>12x</int></value>"), "", "fault", true);
  add(call_xml("echo", "<value><foo>1</foo></value>"), "", "fault", true);
  add(call_xml("echo", "<value><base64>!</base64></value>"), "", "fault", true);
  add(call_xml("echo", "<value><dateTime.iso8601>x</dateTime.iso8601></value>"), "", "fault", true);
  add("<methodCall><params/></methodCall>", "", "fault", true);
  return *v;
}
static void c16_run(int n, int threads, bool pipelined) {
  reset_log();
  Box b(threads); iqxmlrpc::register_method<Leaves>(*b.srv, "leaves"); iqxmlrpc::register_method<Long>(*b.srv, "long"); iqxmlrpc::register_method<Bytes>(*b.srv, "bytes"); b.start();
  {
    Conn c; c.open(); std::vector<Exp> e; std::string all;
    for (int i = 0; i <= n; i++) {
      Exp x; if (i == n) x = x_echo(77); else { auto& o = outs16()[choose((int)outs16().size(), C_FREE, "outcome")]; Guard g; x.text = o.text; x.call = o.call; x.rpc = o.rpc; x.any_rpc = o.any; }
      { Guard g; e.push_back(x); }
      if (pipelined) { Guard g; all += x.text; } else { c.send(x.text); wait_idle(); c.drain(); }
      Guard g; x = Exp();
    }
    if (pipelined) { c.send(all); wait_idle(); c.drain(); }
    judge(c, e, "connection"); judge_calls(e, "connection"); judge_server(b, "server");
    { Guard g; outcome(c.rd.text()); }
    c.close(); wait_idle(); Guard g; e = {}; all = std::string();
  }
  b.stop(); b.destroy(); reset_log();
}
// the same requests to a server with serial and to one with pooled execution: the replies are the same
static void c16_same(int n) {
  reset_log();
  std::vector<int> pick; for (int i = 0; i < n; i++) { int k = choose((int)outs16().size(), C_FREE, "outcome"); Guard g; pick.push_back(k); }
  std::string got[2]; size_t calls[2];
  for (int m = 0; m < 2; m++) {
    Box b(m, 3000 + m); iqxmlrpc::register_method<Leaves>(*b.srv, "leaves"); iqxmlrpc::register_method<Long>(*b.srv, "long"); iqxmlrpc::register_method<Bytes>(*b.srv, "bytes"); b.start();
    {
      Conn c; c.open(3000 + m);
      for (int k : pick) { c.send(outs16()[k].text); wait_idle(); c.drain(); }
      judge_server(b, m ? "pooled server" : "serial server");
      { Guard g; for (auto& r : c.rd.out) got[m] += std::to_string(r.code) + " " + r.rpc() + "\n"; if (c.gone()) got[m] += "connection gone\n"; calls[m] = L().calls.size(); }
      c.close(); wait_idle();
    }
    b.stop(); b.destroy(); reset_log();
  }
  Guard g;
  if (got[0] != got[1]) violation("modes-differ", "serial and pooled execution answer differently: \"" + esc(got[0]) + "\" and \"" + esc(got[1]) + "\"");
  if (calls[0] != calls[1]) violation("modes-differ", "serial and pooled execution call methods a different number of times");
  outcome(got[0]);
  pick = {}; got[0] = got[1] = std::string();
}
// faults with every code and text, alone
static void c16_faults(int threads) {
  reset_log();
  static const int codes[] = {0, 1, -1, 17, -32601, 2147483647, -2147483647 - 1, 99999};
  static const char* texts[] = {"", "plain", "a & b < c > d \" '", "two\nlines", " spaces ", "\xc3\xa9\xe2\x82\xac", "]]>", "&amp;", "<value>", "tab\there"};
  g_code = codes[choose(8, C_FREE, "code")]; std::string t; { Guard g; t = texts[choose(10, C_FREE, "text")]; } g_text = &t;
  Box b(threads); iqxmlrpc::register_method<Fails>(*b.srv, "fails"); b.start();
  {
    Conn c; c.open(); std::vector<Exp> e;
    { Guard g; Exp x; x.text = rq("fails", ""); x.call = "fails()"; x.rpc = "fault " + std::to_string(g_code) + " \"" + esc(t) + "\""; e.push_back(x); e.push_back(x_echo(3)); }
    for (auto& x : e) { c.send(x.text); wait_idle(); c.drain(); }
    judge(c, e, "connection"); judge_calls(e, "connection"); judge_server(b, "server");
    { Guard g; outcome(c.rd.text()); }
    c.close(); wait_idle(); Guard g; e = {};
  }
  b.stop(); b.destroy(); { Guard g; t = std::string(); } reset_log();
}
// several calls of different connections in a pool
static void c16_conc(int workers) {
  reset_log();
  Box b(workers); iqxmlrpc::register_method<Leaves>(*b.srv, "leaves"); iqxmlrpc::register_method<Long>(*b.srv, "long"); b.start();
  {
    std::vector<Conn> c(2); std::vector<std::vector<Exp>> e(2);
    for (auto& x : c) x.open();
    for (int i = 0; i < 2; i++) { auto& o = outs16()[choose(14, C_FREE, "outcome")]; Guard g; Exp x; x.text = o.text; x.call = o.call; x.rpc = o.rpc; x.any_rpc = o.any; e[i].push_back(x); e[i].push_back(x_echo(50 + i)); }
    for (int i = 0; i < 2; i++) c[i].send(e[i][0].text);
    wait_idle(); for (auto& x : c) x.drain();
    for (int i = 0; i < 2; i++) c[i].send(e[i][1].text);
    wait_idle(); for (auto& x : c) x.drain();
    for (int i = 0; i < 2; i++) judge(c[i], e[i], "connection " + std::to_string(i));
    judge_server(b, "server");
    for (auto& x : c) x.close(); wait_idle(); Guard g; e = {}; c = {};
  }
  b.stop(); b.destroy(); reset_log();
}
void c16(Driver& D) {
  bool q = D.quick(); bool as = D.is("asan");
  Scenario s; s.leaks = false;
  s.name = "outcomes"; s.run = [q, as] { c16_run(as ? 2 : q ? 3 : 4, 0, false); }; s.note = "all sequences of 3 (4) outcomes out of 32 followed by a call, serial"; D.scenarios.push_back(s);
  s.name = "outcomes-pool"; s.run = [q, as] { c16_run(as ? 2 : 3, 1, false); }; s.note = "sequences of 3 with a worker thread"; D.scenarios.push_back(s);
  s.name = "outcomes-pipelined"; s.run = [] { c16_run(2, 0, true); }; s.note = "sequences of 2 sent back to back"; D.scenarios.push_back(s);
  s.name = "outcomes-pipelined-pool"; s.run = [] { c16_run(2, 2, true); }; s.note = "sequences of 2 sent back to back, two worker threads"; D.scenarios.push_back(s);
  s.name = "faults"; s.run = [] { c16_faults(0); }; s.note = "8 fault codes x 10 fault texts"; D.scenarios.push_back(s);
  s.name = "faults-pool"; s.run = [] { c16_faults(1); }; s.note = "the same with a worker thread"; D.scenarios.push_back(s);
  s.name = "same"; s.run = [] { c16_same(2); }; s.note = "each pair of 32 outcomes to a serial and to a pooled server: same replies, same codes and texts"; D.scenarios.push_back(s);
  s.name = "concurrent"; if (!as) s.budget.tot(1).set(C_SWITCH, 1).set(C_PREEMPT, 1); s.run = [] { c16_conc(2); }; s.note = "two connections with outcomes out of 14 in two workers, one scheduling deviation"; D.scenarios.push_back(s);
}

// ------------------------------------------------------------------------------------------- C17
static std::vector<std::string>* g_seq;
static void mark(const std::string& s) { Guard g; g_seq->push_back(s); }
struct Tagged : Method { std::string tag; explicit Tagged(const std::string& t) : tag(t) {} void execute(const Param_list& p, Value& r) override { mark(tag + ":" + name()); r = tag; } };
struct TagFactory : iqxmlrpc::Method_factory_base { std::string tag; explicit TagFactory(const std::string& t) : tag(t) {} Method* create() override { return new Tagged(tag); } };
static void fn_a(Method* m, const Param_list&, Value& r) { mark("fn:" + m->name()); r = std::string("fn"); }
struct Disp : iqxmlrpc::Method_dispatcher_base {
  std::string tag; std::vector<std::string> names; Disp(const std::string& t, const std::vector<std::string>& n) : tag(t), names(n) {}
  Method* do_create_method(const std::string& n) override { for (auto& x : names) if (x == n) return new Tagged(tag); return nullptr; }
  void do_get_methods_list(iqxmlrpc::Array& a) const override { for (auto& x : names) a.push_back(x); }
};
struct Icpt : iqxmlrpc::Interceptor {
  std::string tag; int mode; Icpt(const std::string& t, int m) : tag(t), mode(m) {}   // mode 0 passes on, 1 answers itself, 2 changes the result
  void process(Method* m, const Param_list& p, Value& r) override {
    mark("+" + tag);
    if (mode == 1) r = std::string("by " + tag); else yield(m, p, r);
    if (mode == 2) r = std::string("changed");
    mark("-" + tag);
  }
};
struct Model17 {
  std::map<std::string, std::string> reg; std::vector<std::pair<std::string, std::vector<std::string>>> disp; std::vector<std::pair<std::string, int>> ic; bool intro = false;
  std::string find(const std::string& n) const {
    auto i = reg.find(n); if (i != reg.end()) return i->second;
    for (auto& d : disp) for (auto& x : d.second) if (x == n) return d.first;
    return "";
  }
  std::set<std::string> names() const { std::set<std::string> s; for (auto& r : reg) s.insert(r.first); for (auto& d : disp) s.insert(d.second.begin(), d.second.end()); return s; }
};
static void c17_probe(Box& b, Model17& m, Conn& c, std::vector<Exp>& e) {
  static const char* N[] = {"a", "b", "c", "A", "ab", "a.b", "system.listMethods"};
  for (const char* n : N) {
    Exp x; std::vector<std::string> want; std::string got_names;
    { 
      Guard g; g_seq->clear(); x.text = rq(n, ""); std::string tag = m.find(n);
      if (tag.empty()) { x.any_rpc = true; x.rpc = "fault"; }
      else {
        std::string res = tag; std::vector<std::string> post; bool stop = false;
        for (size_t i = m.ic.size(); i-- > 0 && !stop;) { want.push_back("+" + m.ic[i].first); post.insert(post.begin(), "-" + m.ic[i].first); if (m.ic[i].second == 1) { stop = true; res = "by " + m.ic[i].first; } }
        if (!stop && tag != "#list") want.push_back(tag + ":" + n);
        want.insert(want.end(), post.begin(), post.end());
        bool ch = false; { bool reach = true; for (size_t i = m.ic.size(); i-- > 0 && reach;) { if (m.ic[i].second == 2) { ch = true; break; } if (m.ic[i].second == 1) reach = false; } }
        if (ch) res = "changed";
        if (tag == "#list" && res == "#list") { x.any_rpc = true; x.rpc = "result ["; } else x.rpc = "result \"" + esc(res) + "\"";
      }
      e.push_back(x);
    }
    c.send(x.text); wait_idle(); c.drain();
    if (!judge(c, e, std::string("call of ") + n)) return;
    Guard g;
    if (*g_seq != want) { std::string s; for (auto& k : *g_seq) s += k + " "; s += "expected: "; for (auto& k : want) s += k + " "; violation("chain", std::string("call of ") + n + " ran: " + s); return; }
    if (x.rpc == "result [") {
      std::string r = c.rd.out.back().rpc(); std::set<std::string> got; std::string cur; bool in = false;
      for (char ch : r) { if (ch == '"') { if (in) got.insert(cur); cur.clear(); in = !in; } else if (in) cur += ch; }
      if (got != m.names()) { violation("introspection", "listed " + r); return; }
    }
    outcome(c.rd.out.back().rpc()); x = Exp();
  }
}
static void c17_run(int n, int threads, bool between) {
  reset_log(); std::vector<std::string> seq; g_seq = &seq;
  Box b(threads, 3000, false); Model17 m;
  b.start();
  {
    Conn c; c.open(); std::vector<Exp> e; int id = 0;
    for (int i = 0; i < n && !violated(); i++) {
      int op = choose(11, C_FREE, "operation"); id++;
      std::string t; { Guard g; t = "m" + std::to_string(id); }
      switch (op) {
        case 0: b.srv->register_method("a", new TagFactory(t)); { Guard g; m.reg["a"] = t; } break;
        case 1: b.srv->register_method("b", new TagFactory(t)); { Guard g; m.reg["b"] = t; } break;
        case 2: iqxmlrpc::register_method(*b.srv, "a", fn_a); { Guard g; m.reg["a"] = "fn"; } break;
        case 3: b.srv->push_dispatcher(new Disp(t, {"a", "c"})); { Guard g; m.disp.push_back({t, {"a", "c"}}); } break;
        case 4: b.srv->push_dispatcher(new Disp(t, {"c", "b", "a.b"})); { Guard g; m.disp.push_back({t, {"c", "b", "a.b"}}); } break;
        case 5: b.srv->enable_introspection(); { Guard g; m.reg["system.listMethods"] = "#list"; } break;
        case 6: b.srv->push_interceptor(new Icpt(t, 0)); { Guard g; m.ic.push_back({t, 0}); } break;
        case 7: b.srv->push_interceptor(new Icpt(t, 1)); { Guard g; m.ic.push_back({t, 1}); } break;
        case 8: b.srv->push_interceptor(new Icpt(t, 2)); { Guard g; m.ic.push_back({t, 2}); } break;
        case 9: b.srv->register_method("A", new TagFactory(t)); { Guard g; m.reg["A"] = t; } break;
        case 10: b.srv->register_method("system.listMethods", new TagFactory(t)); { Guard g; m.reg["system.listMethods"] = t; } break;
      }
      if (between || i == n - 1) c17_probe(b, m, c, e);
      Guard g; t = std::string();
    }
    judge_server(b, "server"); c.close(); wait_idle(); Guard g; e = {};
  }
  b.stop(); b.destroy(); { Guard g; seq = {}; m = Model17(); }
  reset_log();
}
// setting up and running a server while socket calls fail
static void c15_setup(int threads) {
  reset_log();
  net_opts.socket_fault = net_opts.bind_fault = net_opts.fcntl_fault = net_opts.accept_fault = true;
  bool taken = choose(2, C_FREE, "port-taken"); int other = -1;
  if (taken) other = net::tcp_listen("127.0.0.1", 3000);
  for (int round = 0; round < 2; round++) {
    std::unique_ptr<Box> b; std::string err;
    { AsLib al; try { b.reset(new Box(threads)); } catch (const std::exception& e) { Guard g; err = e.what(); } }
    if (b) {
      for (int k = 0; k < 2; k++) {
        b->start();
        if (b->returned) { Guard g; outcome("loop ended: " + b->escaped + " "); b->tid = b->tid; b->escaped.clear(); }
        else {
          Conn c; c.open(); std::vector<Exp> e; { Guard g; e.push_back(x_echo(5)); }
          if (c.fd >= 0) { c.send(e[0].text); wait_idle(); c.drain(); }
          { Guard g; outcome(c.rd.text()); }
          c.close(); wait_idle(); Guard g; e = {};
        }
        b->stop();
      }
      b->destroy(); Guard g; b->escaped = std::string();
    } else { Guard g; outcome("not created: " + err + " "); }
    b.reset();
    Guard g; err = std::string(); auto l = net::open_fds(); if (!l.empty() && !violated()) violation("setup-sockets", std::to_string(l.size()) + " socket(s) of the server are still open after it was destroyed");
    if (other >= 0 && round == 0) { Guard g2; }
  }
  judge_bad_ops("server");
  if (other >= 0) net::close_fd(other);
  reset_log();
}
void c15(Driver& D) {
  c1415(D, true);
  {
    Scenario s; s.leaks = false; s.budget.tot(2).set(C_FAULT, 2);
    s.name = "setup-faults"; s.run = [] { c15_setup(0); }; s.note = "server created, run twice, destroyed, twice over; up to 2 failing socket, bind, fcntl or accept calls, port free or taken"; D.scenarios.push_back(s);
  }
  Scenario s; s.leaks = true; bool as = D.is("asan");
  s.name = "outcomes"; s.run = [] { c16_run(2, 0, false); }; s.note = "all pairs of 32 method outcomes, serial"; D.scenarios.push_back(s);
  s.name = "outcomes-pool"; s.run = [] { c16_run(2, 1, true); }; s.note = "all pairs of 32 method outcomes back to back, worker thread"; D.scenarios.push_back(s);
  s.name = "registrations"; s.run = [as] { c17_run(as ? 2 : 3, 0, false); }; s.note = "all histories of 3 registrations out of 11 kinds"; D.scenarios.push_back(s);
}
// names of all kinds, known to the server, to a dispatcher, to two or to none
static void c17_names(int threads) {
  reset_log();
  static const std::vector<std::string>& N = *new std::vector<std::string>{"a", ".", ".a", "a.", "a..b", "system.", "system.a", "System.listMethods", "system.listMethods2", "0", "-", "_", "/", ":", "a:b", "a/b", "a b", "a,b", "\xc3\xa9", "\xe2\x82\xac.\xf0\x9f\x98\x80", "&", "<a>", "\"", "'", "%s%n", "\\n", std::string(64, 'n'), std::string(255, 'n'), std::string(256, 'n'), std::string(4000, 'n'), "nil", "echo"};
  std::vector<std::string> seq; g_seq = &seq;
  int k = choose((int)N.size(), C_FREE, "name"), at = choose(16, C_FREE, "known-to"), lst = choose(2, C_FREE, "introspection"), other = choose((int)N.size(), C_FREE, "other-name");
  Box b(threads, 3000, false); const std::string& n = N[k]; std::string want;
  { AsLib al;
    if (at & 1) b.srv->register_method(n, new TagFactory("server"));
    if (at & 2) b.srv->push_dispatcher(new Disp("first", {N[other], n}));
    if (at & 4) b.srv->push_dispatcher(new Disp("second", {n}));
    if (at & 8) b.srv->register_method(N[other], new TagFactory("another"));
    if (lst) b.srv->enable_introspection(); }
  { Guard g; want = (at & 8) && other == k ? "another" : at & 1 ? "server" : at & 2 ? "first" : at & 4 ? "second" : ""; }
  b.start();
  { Conn c; c.open(); std::vector<Exp> e; Exp x; std::string q;
    { Guard g; for (char ch : n) q += ch == '&' ? std::string("&amp;") : ch == '<' ? std::string("&lt;") : std::string(1, ch); x.text = rq(q, ""); if (want.empty()) { x.any_rpc = true; x.rpc = "fault"; } else x.rpc = "result \"" + want + "\""; e.push_back(x); e.push_back(x); }
    for (int i = 0; i < 2; i++) { c.send(x.text); wait_idle(); c.drain(); }
    judge(c, e, "call of " + n.substr(0, 40)); judge_server(b, "server");
    { Guard g; std::vector<std::string> w; if (!want.empty()) w.assign(2, want + ":" + n); if (seq != w && !violated()) violation("chain", "call of " + esc(n, 60) + " ran " + (seq.empty() ? "nothing" : esc(seq[0], 60)) + ", expected " + (w.empty() ? "nothing" : esc(w[0], 60))); outcome(c.rd.text()); }
    c.close(); wait_idle(); Guard g; e = {}; x = Exp(); q = std::string(); }
  b.stop(); b.destroy(); { Guard g; seq = {}; want = std::string(); } reset_log();
}
// a method sees its own name, client and header fields, whatever other requests carried
static void c17_context(int n, int threads, bool at_once) {
  reset_log();
  static const char* FROM[] = {"127.0.0.1", "10.0.0.9", "192.168.7.255"}; static const char* NAME[] = {"echo", "Echo", "echo.two"};
  static const std::vector<std::pair<std::vector<std::string>, std::string>>& X = *new std::vector<std::pair<std::vector<std::string>, std::string>>{
    {{}, ""}, {{"X-A: 1"}, "x-a=1;"}, {{"X-A: 2", "x-b: two words "}, "x-a=2;x-b=two words;"}, {{"x-LONG: " + std::string(300, 'v'), "Y-A: 3", "Xa: 4"}, "x-long=" + std::string(300, 'v') + ";"}, {{"X-A:", "User-Agent: me"}, "x-a=;"}};
  Box b(threads, 3000, false); { AsLib al; for (auto* k : NAME) iqxmlrpc::register_method<Echo>(*b.srv, k); } b.start();
  {
    std::vector<Conn> c(3); std::vector<std::vector<Exp>> e(3); std::map<std::string, std::string> want; std::vector<std::string> texts(3); bool up[3] = {};
    for (int i = 0; i < n && !violated(); i++) {
      int at = choose(3, C_FREE, "client"), x = choose((int)X.size(), C_FREE, "headers"), nm = choose(3, C_FREE, "name");
      if (!up[at]) { c[at].open(3000, FROM[at]); up[at] = true; }
      std::string t;
      { Guard g; Rq r; r.headers = X[x].first; r.body = call_xml(NAME[nm], xint(i + 1)); Exp k; k.text = t = r.text(); k.rpc = "result i4:" + std::to_string(i + 1); e[at].push_back(k); want["i4:" + std::to_string(i + 1)] = std::string(NAME[nm]) + " from " + FROM[at] + " with " + X[x].second; texts[at] += t; }
      if (!at_once) { c[at].send(t); wait_idle(); c[at].drain(); }
      Guard g; t = std::string();
    }
    if (at_once) { for (int k = 0; k < 3; k++) if (up[k]) c[k].send(texts[k]); wait_idle(); for (int k = 0; k < 3; k++) if (up[k]) c[k].drain(); }
    for (int k = 0; k < 3 && !violated(); k++) if (up[k]) judge(c[k], e[k], std::string("client ") + FROM[k]);
    { Guard g; std::string all;
      for (auto& k : L().calls) { std::string got = k.name + " from " + k.peer + " with " + k.xh; all += got.substr(0, 60) + " "; auto w = want.find(k.arg); if (w == want.end() || w->second != got) violation("context", "call " + k.arg + " of " + (w == want.end() ? "nobody" : esc(w->second, 200)) + " was executed as " + esc(got, 200)); }
      if (L().calls.size() != (size_t)n) violation("calls", std::to_string(n) + " calls, executed " + std::to_string(L().calls.size()));
      outcome(all.substr(0, 100)); }
    for (auto& k : c) k.close();
    wait_idle(); judge_server(b, "context");
    Guard g; e = std::vector<std::vector<Exp>>(); want.clear(); texts = std::vector<std::string>();
  }
  b.stop(); b.destroy(); reset_log();
}
void c17(Driver& D) {
  bool q = D.quick(); bool as = D.is("asan");
  Scenario s; s.leaks = false;
  s.name = "histories"; s.run = [q, as] { c17_run(as ? 2 : q ? 4 : 5, 0, false); }; s.note = "all histories of 4 (5) registrations out of 11 kinds, then 7 names called"; D.scenarios.push_back(s);
  s.name = "histories-interleaved"; s.run = [as] { c17_run(as ? 2 : 3, 0, true); }; s.note = "histories of 3, the 7 names called after every step"; D.scenarios.push_back(s);
  s.name = "histories-pool"; s.run = [as] { c17_run(as ? 2 : 3, 1, false); }; s.note = "histories of 3 with a worker thread"; D.scenarios.push_back(s);
  s.name = "names"; s.run = [] { c17_names(0); }; s.note = "32 names known to the server, one or two dispatchers or none, beside each other name"; if (!as) D.scenarios.push_back(s);
  s.name = "context"; s.run = [as] { c17_context(as ? 1 : 2, 0, false); }; s.note = "calls by three names of one method from 3 addresses with 5 sets of header fields, in every order"; D.scenarios.push_back(s);
  s.name = "context-pool"; s.budget.tot(1).set(C_PREEMPT, 1).set(C_SWITCH, 1); s.run = [as] { c17_context(as ? 1 : 2, 2, true); }; s.note = "the same with two workers, all at once, every preemption"; D.scenarios.push_back(s);
  s.budget = Budget(); if (!as) { s.name = "context-3"; s.run = [] { c17_context(3, 0, false); }; s.note = "sequences of three"; D.scenarios.push_back(s); }
}
}  // namespace nk
