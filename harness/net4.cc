// C31: exceptions raised by code the application plugs into the server.
#include "net.h"
#include "lokit.h"
using namespace mc;
using namespace nk;

namespace nk {
namespace {
enum Site { NONE, AUTH, ANON, GRANT, MESSAGE, DISPATCH, FACTORY, BEFORE, AFTER, LISTING, LOG, NSITES };
const char* SN[] = {"nothing", "authentication", "anonymous authentication", "firewall decision", "firewall message", "dispatcher", "method factory", "interceptor before the call", "interceptor after the call", "listing of a dispatcher", "log"};
const char* EN[] = {"a standard exception", "a library exception", "a fault", "an object of another type", "bad_alloc", "a network error", "a number"};
const int NEX = 7;
int g_site, g_kind; int* g_raised;
void hook(int s) {
  if (s != g_site) return;
  { Guard g; ++*g_raised; }
  switch (g_kind) {
    case 0: throw std::runtime_error("hook failed");
    case 1: throw iqxmlrpc::Exception("hook failed", 44);
    case 2: throw iqxmlrpc::Fault(45, "hook failed");
    case 3: throw Thrown();
    case 4: throw std::bad_alloc();
    case 5: throw iqnet::network_error("hook failed", false);
    default: throw 5;
  }
}
struct HAuth : iqxmlrpc::Auth_Plugin_base {
  bool do_authenticate(const std::string&, const std::string&) const override { hook(AUTH); return true; }
  bool do_authenticate_anonymous() const override { hook(ANON); return true; }
};
struct HWall : iqnet::Firewall_base {
  bool grant(const iqnet::Inet_addr& a) override { hook(GRANT); Guard g; return a.get_host_name() != "10.0.0.9"; }
  std::string message() override { hook(MESSAGE); return "no"; }
};
struct HFactory : iqxmlrpc::Method_factory_base { Method* create() override { hook(FACTORY); return new Echo; } };
struct HDisp : iqxmlrpc::Method_dispatcher_base {
  Method* do_create_method(const std::string& n) override { hook(DISPATCH); return n == "other" ? new Echo : nullptr; }
  void do_get_methods_list(iqxmlrpc::Array& a) const override { a.push_back(Value("x")); hook(LISTING); a.push_back(Value("other")); }
};
struct HIcpt : iqxmlrpc::Interceptor {
  void process(Method* m, const Param_list& p, Value& r) override { hook(BEFORE); yield(m, p, r); hook(AFTER); }
};
struct HBuf : std::streambuf {
  int overflow(int c) override { hook(LOG); return c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { hook(LOG); return n; }
};
struct HServer : Box {
  HAuth auth; HWall wall; HBuf buf; std::ostream log;
  HServer(int threads) : Box(threads, 3000, false), log(&buf) {
    AsLib al; log.exceptions(std::ios::badbit); srv->log_errors(&log);
    srv->set_auth_plugin(auth); srv->set_firewall(&wall);
    srv->register_method("echo", new HFactory); srv->push_dispatcher(new HDisp); srv->enable_introspection(); srv->push_interceptor(new HIcpt);
  }
};
std::string hrq(int site, int v) {
  Guard g; Rq r;
  if (site != ANON) r.headers.push_back("Authorization: Basic dTpw");
  r.body = site == LISTING ? call_xml("system.listMethods") : call_xml(site == DISPATCH ? "other" : site == LOG ? "unknown" : "echo", xint(v));
  return r.text();
}
// n steps: a request on one of two connections or a new client, the plug-in raising at one site
void c31_run(int n, int threads, int kinds = NEX) {
  reset_log(); int raised = 0; g_raised = &raised; g_site = NONE;
  HServer b(threads); b.start();
  size_t base = net::open_fds().size();
  {
    Conn c[2]; std::vector<Exp> e[2], all; c[0].open(); c[1].open(); wait_idle();
    for (int i = 0; i < n && !violated(); i++) {
      int site = choose(NSITES, C_FREE, "site"), kind = site == NONE ? 0 : choose(kinds, C_FREE, "exception"); if (kinds == 2 && kind) kind = 3;
      if (site == GRANT || site == MESSAGE) {
        g_site = site; g_kind = kind; int before = raised;
        Conn d; d.open(3000, site == GRANT ? "10.0.0.8" : "10.0.0.9"); { std::string t = hrq(NONE, 1); d.send(t); wait_idle(); Guard g; t = std::string(); }
        g_site = NONE;
        judge_server(b, SN[site]);
        Guard g; std::string got; while (!violated() && d.fd >= 0 && !net::recv_would_block(d.fd)) { std::string s = net::recv_some(d.fd); if (s.empty()) break; got += s; }
        if (raised != before + 1) violation("not-asked", std::string("the ") + SN[site] + " was not asked for");
        else if (!got.empty()) violation("served", std::string("a client whose ") + SN[site] + " raised " + EN[kind] + " received " + esc(got, 100));
        else if (!net::peer_gone(d.fd)) violation("not-closed", std::string("a client whose ") + SN[site] + " raised " + EN[kind] + " is still connected");
        got = std::string(); d.close();
        continue;
      }
      int at = choose(2, C_FREE, "connection"); Exp x;
      {
        Guard g; x.text = hrq(site, 100 + i); std::string a = "(i4:" + std::to_string(100 + i) + ")";
        if (site == NONE) x.rpc = "result i4:" + std::to_string(100 + i); else { x.rpc = kind == 2 && site != LOG ? "fault 45 \"hook failed\"" : "fault"; x.any_rpc = kind != 2 || site == LOG; }
        if (site == NONE || site == AFTER) x.call = "echo" + a;
        e[at].push_back(x); all.push_back(x);
      }
      g_site = site; g_kind = kind; int before = raised;
      c[at].send(x.text); wait_idle(); c[at].drain();
      g_site = NONE; b.log.clear();
      { Guard g; if (site != NONE && raised != before + 1) violation("not-asked", std::string("the ") + SN[site] + " was not asked for"); x = Exp(); }
      if (!violated()) { judge_server(b, SN[site]); judge(c[at], e[at], std::string("after ") + SN[site] + " raised " + EN[kind] + ", its client"); }
    }
    for (int k = 0; k < 2 && !violated(); k++) { Exp x; { Guard g; x = x_echo(300 + k); x.text = hrq(NONE, 300 + k); e[k].push_back(x); all.push_back(x); } c[k].send(x.text); wait_idle(); c[k].drain(); judge(c[k], e[k], "a client at the end"); Guard g; x = Exp(); }
    if (!violated()) { judge_calls(all, "all requests"); judge_server(b, "server"); judge_bad_ops("server"); }
    { Guard g; outcome(c[0].rd.text() + "| " + c[1].rd.text()); }
    c[0].close(); c[1].close(); wait_idle();
    Guard g; size_t now = net::open_fds().size(); if (!violated() && now != base) violation("socket-leak", std::to_string(now - base) + " socket(s) left open");
    e[0] = e[1] = all = {};
  }
  b.stop(); b.destroy(); reset_log();
}
}
// ---- C32: any allocation of the server fails while it works on a request
namespace {
const char* RN[] = {"call", "call with a struct", "call that raises a fault", "call of an unknown method", "malformed document", "malformed header", "call in two parts", "two calls at once", "call that asks before it sends"};
void c32_run(int threads) {
  reset_log();
  int kind = choose(9, C_FREE, "request"); bool early = choose(2, C_FREE, "request before");
  Box b(threads); b.retry = true; b.start(); size_t base = net::open_fds().size();
  {
    Conn a, d; std::vector<Exp> e, ed; std::string part; a.open(); d.open(); wait_idle();
    if (early) { Exp x; { Guard g; x = x_echo(50); e.push_back(x); } a.send(x.text); wait_idle(); a.drain(); judge(a, e, "first request"); Guard g; x = Exp(); }
    std::string t;
    {
      Guard g; Rq r; r.body = call_xml("echo", xint(7));
      if (kind == 1) r.body = call_xml("echo", "<struct><member><name>a</name><value>text that does not fit into a small string</value></member></struct>");
      if (kind == 2) r.body = call_xml("raise", xint(1));
      if (kind == 3) r.body = call_xml("nothing", xint(1));
      if (kind == 4) r.body = "<methodCall><methodName>echo</methodName><params><param><oops/></param></params></methodCall>";
      if (kind == 8) r.headers.push_back("Expect: 100-continue");
      t = r.text();
      if (kind == 5) t = "POST /RPC HTTP/1.1\r\nContent-Length: x\r\n\r\n";
      if (kind == 7) t += t;
      if (kind == 6 || kind == 8) { size_t p = t.find("\r\n\r\n") + (kind == 8 ? 4 : 14); part = t.substr(p); t.resize(p); }
    }
    sched_opts.nomem = true;
    a.send(t); wait_idle(); a.drain();
    if (!part.empty()) { a.send(part); wait_idle(); a.drain(); }
    sched_opts.nomem = false;
    std::string who; { Guard g; who = std::string(RN[kind]) + (early ? " on a used connection" : ""); t = part = std::string(); }
    judge_server(b, who);
    bool gone = net::peer_gone(a.fd);
    {
      Guard g; std::string txt = a.rd.text(); outcome(std::string(gone ? "closed " : "open ") + (txt.empty() ? "" : txt.substr(0, 40)));
      size_t need = (early ? 1 : 0) + (kind == 7 ? 2 : 1);
      size_t whole = 0; for (auto& r : a.rd.out) if (r.code != 100) whole++;
      if (!violated() && !a.rd.err.empty()) violation("reply", "a client with a " + who + " received a broken reply: " + a.rd.err);
      if (!violated() && whole > need) violation("reply", "a client with a " + who + " received " + std::to_string(whole) + " replies");
      for (size_t i = early ? 1 : 0; i < a.rd.out.size() && !violated(); i++) {
        const Rep& r = a.rd.out[i]; static const char* W[] = {"result i4:7", "result {\"a\"=\"text", "", "", "", "", "result i4:7", "result i4:7", "result i4:7"};
        if (r.code == 200 && r.rpc().compare(0, 6, "result") == 0 && (!*W[kind] || r.rpc().compare(0, strlen(W[kind]), W[kind]) != 0)) violation("reply", "a client with a " + who + " received " + r.rpc());
      }
      if (!violated() && !gone && whole < need) violation("no-reply", "a client with a " + who + " waits for its reply for ever");
      txt = std::string();
    }
    for (int k = 0; k < 2 && !violated(); k++) { Exp x; { Guard g; x = x_echo(300 + k); ed.push_back(x); } d.send(x.text); wait_idle(); d.drain(); judge(d, ed, "another client"); Guard g; x = Exp(); }
    if (!violated()) { judge_server(b, "server"); judge_bad_ops("server"); }
    a.close(); d.close(); wait_idle();
    Guard g; size_t now = net::open_fds().size(); if (!violated() && now != base) violation("socket-leak", std::to_string(now - base) + " socket(s) left open");
    e = ed = {}; who = std::string();
  }
  b.stop(); b.destroy(); reset_log();
}
// the same request served under the classic locale and under another one
const char* CN[] = {"an int", "a double", "a long reply", "a fault", "an unknown method", "a document that is none", "a long request", "a double with a comma", "a request over the limit", "a request in capitals", "a list of methods", "a length with a comma"};
void c33_run(int threads) {
  reset_log(); int l = 1 + choose(lo::COUNT - 1, C_FREE, "locale"), kind = choose(12, C_FREE, "request"), first = choose(2, C_FREE, "order"); bool begin = choose(2, C_FREE, "start");
  auto put = [&](bool on) { Guard g; if (!lo::set(on ? l : 0)) { fprintf(stderr, "locale %s could not be set\n", lo::name(l)); abort(); } };
  fake_time = 1700000000; put(begin);
  Box b(threads); { AsLib al; if (kind == 8) b.srv->set_max_request_sz(1100); if (kind == 9) b.srv->set_verification_level(iqxmlrpc::http::HTTP_CHECK_STRICT); b.srv->enable_introspection(); }
  b.start(); std::string raw[2];
  for (int i = 0; i < 2; i++) {
    std::string t; { Guard g; Rq r; r.keep = false; r.body = call_xml("echo", xint(1234567));
      if (kind == 1) r.body = call_xml("echo", "<double>1234.5</double>"); if (kind == 2) r.body = call_xml("big", xint(1500)); if (kind == 3) r.body = call_xml("raise", xint(0)); if (kind == 4) r.body = call_xml("nothing", xint(1));
      if (kind == 5) r.body = "<methodCall/>"; if (kind == 6 || kind == 8) r.body = call_xml("echo", "<string>" + std::string(1200, 's') + "</string>"); if (kind == 7) r.body = call_xml("echo", "<double>1,5</double>"); if (kind == 10) r.body = call_xml("system.listMethods", "");
      r.headers = {"CONNECTION: KEEP-ALIVE", "X-IDENTITY: I"}; if (kind == 11) { r.length = false; r.headers.push_back("Content-Length: 1,000"); } t = r.text(); if (kind == 9) for (size_t k = 18; k < t.find("\r\n\r\n"); k++) if (t[k] >= 'a' && t[k] <= 'z') t[k] -= 32; }
    put(i != first); int fd = net::tcp_connect("127.0.0.1", 3000, "127.0.0.1"); net::send_all(fd, t); wait_idle();
    while (!net::recv_would_block(fd)) { std::string s = net::recv_some(fd); Guard g; if (s.empty()) { raw[i] += "(end)"; break; } raw[i] += s; s = std::string(); }
    net::close_fd(fd); wait_idle(); Guard g; t = std::string();
  }
  put(false); judge_server(b, "server");
  b.stop(); b.destroy(); fake_time = -1;
  Guard g; if (!violated() && raw[0] != raw[1]) violation("reply", std::string(CN[kind]) + " is answered by " + esc(raw[!first], 500) + " under a locale with " + lo::name(l) + ", by " + esc(raw[first], 500) + " under the classic one");
  if (!violated() && raw[0].empty()) violation("no-reply", std::string(CN[kind]) + " is not answered");
  outcome(raw[0].substr(0, 30)); state(hash_str(raw[0] + std::to_string(l))); raw[0] = raw[1] = std::string(); reset_log();
}
}
void c33(Driver& D) {
  Scenario s; s.name = "server"; s.note = "each of 12 requests under the classic locale and under each of " + std::to_string(lo::COUNT - 1) + " others, the server created under either"; s.run = [] { c33_run(0); }; D.scenarios.push_back(s);
  s.budget.tot(0); s.name = "server-pool"; s.note = "the same with a worker thread"; s.run = [] { c33_run(1); }; D.scenarios.push_back(s);
}
void c32(Driver& D) {
  bool q = D.quick(); Scenario s; s.leaks = true; s.budget.tot(q ? 1 : 2).set(C_FAULT, q ? 1 : 2);
  s.name = "server"; s.note = "each of 9 kinds of request, first or second of its connection, " + std::string(q ? "one allocation" : "up to two allocations") + " of the server failing; another client after it"; s.run = [] { c32_run(0); }; D.scenarios.push_back(s);
  s.budget = Budget().tot(1).set(C_FAULT, 1); s.name = "server-pool"; s.note = "the same with a worker thread, one failure"; s.run = [] { c32_run(1); }; D.scenarios.push_back(s);
}
void c31(Driver& D) {
  bool q = D.quick(), as = D.is("asan"); Scenario s; s.leaks = true;
  s.name = "serial"; s.note = "all histories of 2 (3) requests or clients, none or one of 10 plugged-in functions raising one of 7 exceptions each"; s.run = [q, as] { c31_run(as || q ? 2 : 3, 0); }; D.scenarios.push_back(s);
  if (!as) { s.name = "serial-3"; s.note = "histories of 3, two kinds of exception"; s.run = [] { c31_run(3, 0, 2); }; D.scenarios.push_back(s); s.name = "pool-3"; s.note = "the same with two worker threads"; s.run = [] { c31_run(3, 2, 2); }; D.scenarios.push_back(s); }
  s.name = "pool"; s.note = "the same with a worker thread"; s.run = [] { c31_run(2, 1); }; D.scenarios.push_back(s);
}
}
