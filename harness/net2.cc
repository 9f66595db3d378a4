// Server-side HTTP properties over the simulated network: C09 - C12.
#include "net.h"
#include <libiqxmlrpc/value_type.h>
using namespace mc;
using namespace nk;

namespace nk {
static std::string body_echo(int v) { return "<methodCall><methodName>echo</methodName><params><param>" + xint(v) + "</param></params></methodCall>"; }
static std::string call_of(int v) { return "echo(i4:" + std::to_string(v) + ")"; }
static std::string res_of(int v) { return "result i4:" + std::to_string(v); }

// ------------------------------------------------------------------------------------------- C09
// One request assembled from independent header features; the expected answer follows from the features alone.
struct Bad { std::string text; std::vector<int> codes; bool ok; bool expects; };
static Bad c09_build(int meth, int len, int line, int exp, int ct, bool strict, bool keep, int v, const char* nl = "\r\n") {
  Guard g; Bad b; b.expects = exp == 1 || exp == 2;
  static const char* M[] = {"POST /RPC2 HTTP/1.1", "GET /RPC2 HTTP/1.1", "PUT / HTTP/1.0", "post / HTTP/1.1", "POSTER / HTTP/1.1", "DELETE", "POST / HTTP/1.0", "POST /a/b?c=d HTTP/1.1"};
  std::string body = body_echo(v), n = std::to_string(body.size());
  std::vector<std::string> h;
  if (meth && meth < 6) b.codes.push_back(405);
  switch (len) {
    case 0: h.push_back("Content-Length: " + n); break;
    case 1: h.push_back("CONTENT-LENGTH:\t" + n + "  "); break;
    case 2: b.codes.push_back(411); break;
    case 3: h.push_back("Content-Length: " + n + "x"); break;
    case 4: h.push_back("Content-Length: -" + n); break;
    case 5: h.push_back("Content-Length:"); break;
    case 6: h.push_back("Content-Length: +" + n); break;
    case 7: h.push_back("Content-Length: " + n + " " + n); break;
    case 8: h.push_back("Content-Length: 0x" + n); break;
    case 9: h.push_back("Content-Length: " + n); h.push_back("Content-length: a"); break;
    case 10: h.push_back("Content-Length: a"); h.push_back("Content-Length: " + n); break;
  }
  if (len >= 3) b.codes.push_back(400);
  static const char* E[] = {"", "Expect: 100-continue", "expect:100-CONTINUE", "Expect: 200-ok", "Expect: something", "Expect: x100-continue", "Expect: nothing"};
  if (exp) h.push_back(E[exp]);
  if (exp == 6) h.insert(h.begin(), E[1]);
  if (exp >= 3) b.codes.push_back(417);
  static const char* T[] = {"", "Content-Type: text/xml", "content-type: TEXT/XML; charset=utf-8", "Content-Type: text/plain", "Content-Type: application/xml", "Content-Type:", "Content-Type: text/html"};
  if (ct) h.push_back(T[ct]);
  if (ct == 6) h.insert(h.begin(), T[1]);
  if (ct >= 3 && strict) b.codes.push_back(415);
  if (keep) h.push_back("Connection: keep-alive");
  h.push_back("X-Other: a:b"); 
  if (line == 1) h.insert(h.begin(), "no colon here");
  if (line == 2) h.insert(h.begin() + h.size() / 2, "nocolon");
  if (line == 3) h.push_back("x");
  if (line == 4) h.insert(h.begin(), "X-Empty:");
  if (line >= 1 && line <= 3) b.codes.push_back(400);
  b.ok = b.codes.empty();
  b.text = std::string(M[meth]) + nl; for (auto& l : h) b.text += l + nl;
  b.text += nl + body;
  return b;
}
static void c09_run(int depth, int threads, bool cuts) {
  reset_log();
  bool strict = choose(2, C_FREE, "strict");
  int meth, len, line, exp, ct, keep, first, chunk, tail, nl = 0;
  if (depth >= 2) {   // all combinations
    meth = choose(8, C_FREE, "method-line"); len = choose(11, C_FREE, "length"); line = choose(5, C_FREE, "extra-line"); exp = choose(7, C_FREE, "expect"); ct = choose(7, C_FREE, "type");
    keep = choose(2, C_FREE, "keep"); first = 0; chunk = 0; tail = 0;
  } else {            // one feature off at a time (two with depth 1), all surroundings
    meth = len = line = exp = ct = 0;
    for (int i = 0; i <= depth; i++)
      switch (choose(5, C_FREE, "feature")) {
        case 0: meth = choose(8, C_FREE, "method-line"); break;
        case 1: len = choose(11, C_FREE, "length"); break;
        case 2: line = choose(5, C_FREE, "extra-line"); break;
        case 3: exp = choose(7, C_FREE, "expect"); break;
        case 4: ct = choose(7, C_FREE, "type"); break;
      }
    keep = choose(2, C_FREE, "keep"); first = choose(2, C_FREE, "after-good"); tail = choose(3, C_FREE, "tail"); nl = choose(2, C_FREE, "line-end");
    static const int CH[] = {0, 1, 3, 16, 50}; chunk = cuts ? 0 : CH[choose(5, C_FREE, "chunk")];
  }
  if (cuts) net_opts.recv_split = 2; else net_opts.recv_max = chunk;
  Bad b = c09_build(meth, len, line, exp, ct, strict, keep, 7, nl ? "\n" : "\r\n");
  Box x(threads); if (strict) x.srv->set_verification_level(iqxmlrpc::http::HTTP_CHECK_STRICT); x.start();
  {
    Conn c; c.open();
    std::vector<Exp> e;
    if (first) { Guard g; Exp k = x_echo(1); e.push_back(k); }
    if (first) { c.send(e[0].text); wait_idle(); c.drain(); }
    { Guard g; Exp k; k.text = b.text; if (b.ok) { k.call = call_of(7); k.rpc = res_of(7); k.keep = keep; } else { k.codes = b.codes; k.code = b.codes[0]; k.keep = false; } e.push_back(k); }
    std::string t; { Guard g; t = b.text; if (tail == 1) { Exp k = x_echo(9); t += k.text; if (b.ok && keep) e.push_back(k); } }
    c.send(t); if (tail == 2 && !b.ok) net::shut_wr(c.fd);
    wait_idle(); c.drain();
    judge(c, e, "connection"); judge_calls(e, "connection"); judge_server(x, "server");
    { Guard g; outcome(c.rd.text() + calls_text()); }
    c.close(); wait_idle();
    Guard g; e = std::vector<Exp>(); t = std::string();
  }
  x.stop(); x.destroy();
  { Guard g; b = Bad(); }
  reset_log();
}
void c09(Driver& D) {
  bool q = D.quick();
  Scenario s; s.leaks = false;
  s.name = "one-defect"; s.run = [] { c09_run(0, 0, false); };
  s.note = "one deviation of method line, length, header line, expectation or type x strict/weak x keep-alive x first/second request x 5 read sizes x line ends x followed by another request or by end of stream";
  D.scenarios.push_back(s);
  s.name = "combinations"; s.run = [] { c09_run(2, 0, false); };
  s.note = "all combinations of 8 method lines, 11 lengths, 5 header lines, 7 expectations, 7 types, strict/weak, keep-alive"; D.scenarios.push_back(s);
  s.name = "one-defect-cuts"; s.budget.tot(1).set(C_IO, 1); s.run = [] { c09_run(0, 0, true); };
  s.note = "one deviation, every single cut of the reads"; D.scenarios.push_back(s);
  s.budget = Budget();
  s.name = "one-defect-pool"; s.run = [] { c09_run(0, 1, false); }; s.note = "one deviation with a worker thread"; D.scenarios.push_back(s);
  if (!q) { s.name = "two-defects"; s.run = [] { c09_run(1, 0, false); }; s.note = "two deviations in all surroundings"; D.scenarios.push_back(s); }
}

// ------------------------------------------------------------------------------------------- C10
// a request of exactly n bytes; pad: 0 body, 1 header, 2 both, 3 body (LF header)
static std::string sized(int v, size_t n, int pad, bool keep) {
  for (size_t hp = 0, bp = 0;;) {
    std::string nl = pad == 3 ? "\n" : "\r\n";
    std::string body = "<methodCall><methodName>echo</methodName>" + std::string(bp, ' ') + "<params><param>" + xint(v) + "</param></params></methodCall>";
    std::string t = "POST / HTTP/1.1" + nl + "Content-Length: " + std::to_string(body.size()) + nl + (keep ? "Connection: keep-alive" + nl : "") + "X-P: " + std::string(hp, 'p') + nl + nl + body;
    if (t.size() == n) return t;
    if (t.size() > n) { if (hp == 0) return ""; hp--; continue; }   // crossing a digit of the length: give back a header byte
    size_t miss = n - t.size();
    if (miss > 20) { miss -= 10; if (pad == 1) hp += miss; else if (pad == 2) { hp += miss / 2; bp += miss - miss / 2; } else bp += miss; }
    else if (pad == 1) hp++; else if (pad == 2 && hp <= bp) hp++; else bp++;
  }
}
static void c10_run(int len, bool pipelined, bool cuts, int threads, bool big) {
  reset_log();
  static const int CH[] = {0, 1, 2, 7, 64, 100, 230};
  size_t max = big ? (choose(2, C_FREE, "max") ? 70000 : 0) : 260;
  std::vector<Exp> e; std::vector<bool> fits; bool dead = false;
  if (cuts) net_opts.recv_split = 2; else net_opts.recv_max = big ? 0 : CH[choose(7, C_FREE, "chunk")];
  for (int i = 0; i < len && !dead; i++) {
    int keep = choose(2, C_FREE, "keep"), pad = choose(4, C_FREE, "pad");
    size_t n;
    if (big) { static const int N[] = {69999, 70000, 70001, 200000}; n = N[choose(4, C_FREE, "size")]; }
    else { static const int N[] = {-20, -2, -1, 0, 1, 2, 40, 400}; n = max + N[choose(cuts ? 6 : 8, C_FREE, "size")]; }
    Guard g; Exp x; x.text = sized(i + 1, n, pad, keep);
    if (x.text.size() != n) { violation("harness", "cannot build a request of that size"); return; }
    if (max == 0 || n < max) { x.call = call_of(i + 1); x.rpc = res_of(i + 1); x.keep = keep; if (!keep) dead = true; }
    else { x.code = 413; x.keep = false; dead = true; }
    e.push_back(x);
  }
  Box b(threads); b.srv->set_max_request_sz(max); b.start();
  {
    Conn c; c.open();
    if (pipelined) { std::string t; { Guard g; for (auto& x : e) t += x.text; } c.send(t); wait_idle(); c.drain(); Guard g; t = std::string(); }
    else for (auto& x : e) { c.send(x.text); wait_idle(); c.drain(); }
    judge(c, e, "connection"); judge_calls(e, "connection"); judge_server(b, "server");
    { Guard g; outcome(c.rd.text() + calls_text()); }
    c.close(); wait_idle();
  }
  b.stop(); b.destroy();
  { Guard g; e = std::vector<Exp>(); fits = std::vector<bool>(); }
  reset_log();
}
// the client stops in the middle: a header without end, or a declared length that is too large
static void c10_open_end() {
  reset_log();
  static const int CH[] = {0, 1, 7, 100};
  net_opts.recv_max = CH[choose(4, C_FREE, "chunk")];
  int kind = choose(2, C_FREE, "kind"), first = choose(2, C_FREE, "after-good"); int d = choose(3, C_FREE, "size") - 1;
  size_t max = 260;
  std::string t; bool over; {
    Guard g; 
    if (kind == 0) { t = "POST / HTTP/1.1\r\nX-P: "; t += std::string(max + d - t.size(), 'p'); over = t.size() >= max; }
    else { for (int body = 0;; body++) { t = "POST / HTTP/1.1\r\nContent-Length: " + std::to_string(body) + "\r\nConnection: keep-alive\r\n\r\n"; if (t.size() + body == max + d) break; if (body > 1000) { violation("harness", "size"); return; } } over = d >= 0; t += "<m"; }
  }
  Box b; b.srv->set_max_request_sz(max); b.start();
  {
    Conn c; c.open(); std::vector<Exp> e;
    if (first) { { Guard g; e.push_back(x_echo(1)); e[0].text = sized(1, max - 1, 0, true); } c.send(e[0].text); wait_idle(); c.drain(); }
    c.send(t); wait_idle(); c.drain();
    if (over) { Guard g; Exp x; x.code = 413; x.keep = false; e.push_back(x); }
    if (over) judge(c, e, "connection"); else { Guard g; if (c.rd.out.size() != e.size() || c.gone()) violation("early", "unfinished request below the limit was answered or cut off: " + c.rd.text()); }
    judge_calls(e, "connection"); judge_server(b, "server");
    { Guard g; outcome(c.rd.text() + calls_text()); }
    c.close(); wait_idle(); Guard g; e = std::vector<Exp>();
  }
  b.stop(); b.destroy();
  { Guard g; t = std::string(); }
  reset_log();
}
// declared lengths up to and beyond the range of machine words, with the body withheld or begun
static void c10_huge() {
  reset_log();
  static const unsigned long long BASE[] = {1ull << 8, 1ull << 15, 1ull << 16, 1ull << 31, 1ull << 32, 1ull << 33, 1ull << 63};
  static const int MAX[] = {260, 70000};
  int bi = choose(7, C_FREE, "base"); int off = choose(400, C_FREE, "below");   // off 0 is the power itself
  size_t max = MAX[choose(2, C_FREE, "max")]; bool body = choose(2, C_FREE, "body"), after = choose(2, C_FREE, "after-good");
  unsigned long long n = BASE[bi] - off;
  std::string t; size_t hs; { Guard g; t = "POST / HTTP/1.1\r\nContent-Length: " + std::to_string(n) + "\r\nConnection: keep-alive\r\n\r\n"; hs = t.size(); }
  if (hs + n < max && hs + n >= n) { outcome("below the limit"); return; }
  { Guard g; if (body) t += call_xml("echo", xint(5)); }
  Box b; b.srv->set_max_request_sz(max); b.start();
  {
    Conn c; c.open(); std::vector<Exp> e;
    if (after) { { Guard g; e.push_back(x_echo(1)); } c.send(e[0].text); wait_idle(); c.drain(); }
    c.send(t); wait_idle(); c.drain();
    { Guard g; Exp x; x.code = 413; if (n > 0xffffffffull) x.codes = {413, 400}; x.keep = false; e.push_back(x); }
    judge(c, e, "connection"); judge_calls(e, "connection"); judge_server(b, "server");
    { Guard g; outcome(c.rd.text() + calls_text()); }
    c.close(); wait_idle(); Guard g; e = std::vector<Exp>();
  }
  b.stop(); b.destroy();
  { Guard g; t = std::string(); }
  reset_log();
}
// the limit changed by a method between the requests of connections that stay open
static iqxmlrpc::Server* g_limit_srv;
class Limit : public iqxmlrpc::Method { void execute(const iqxmlrpc::Param_list& p, iqxmlrpc::Value& r) override { note_call(this, p); g_limit_srv->set_max_request_sz(p[0].get_int()); r = 1; } };
static void c10_changed(int n) {
  reset_log();
  static const int MAX[] = {0, 300, 400};
  Box b; iqxmlrpc::register_method<Limit>(*b.srv, "limit"); g_limit_srv = b.srv.get(); size_t max = MAX[choose(3, C_FREE, "max")]; b.srv->set_max_request_sz(max); b.start();
  {
    std::vector<Conn> c(2); std::vector<std::vector<Exp>> e(2); bool dead[2] = {}; for (auto& x : c) x.open();
    for (int i = 0; i < n && !violated(); i++) {
      int at = choose(2, C_FREE, "connection"), what = choose(6, C_FREE, "request"); Exp x; size_t size = 0; int to = -1;
      if (dead[at]) continue;
      { Guard g;
        if (what < 3) { to = MAX[what]; x.text = rq("limit", xint(to)); size = x.text.size(); x.call = "limit(i4:" + std::to_string(to) + ")"; x.rpc = "result i4:1"; }
        else { size = what == 3 ? 299 : what == 4 ? 300 : 401; x.text = sized(i + 1, size, 0, true); x.call = call_of(i + 1); x.rpc = res_of(i + 1); }
        if (max && size >= max) { x.call = x.rpc = ""; x.code = 413; x.keep = false; dead[at] = true; to = -1; }
        e[at].push_back(x); }
      c[at].send(x.text); wait_idle(); c[at].drain();
      if (to >= 0) max = to;
      Guard g; x = Exp();
    }
    for (int k = 0; k < 2; k++) judge(c[k], e[k], "connection " + std::to_string(k));
    { Guard g; size_t want = 0; for (auto& v : e) for (auto& x : v) want += !x.call.empty(); if (L().calls.size() != want) violation("calls", std::to_string(want) + " requests are within the limit, executed " + std::to_string(L().calls.size())); outcome(c[0].rd.text() + c[1].rd.text()); }
    judge_server(b, "server"); for (auto& x : c) x.close(); wait_idle(); Guard g; e = {};
  }
  b.stop(); b.destroy(); reset_log();
}
void c10(Driver& D) {
  bool q = D.quick();
  Scenario s; s.leaks = false;
  s.name = "sizes-1"; s.run = [] { c10_run(1, false, false, 0, false); }; s.note = "one request, 8 sizes around the limit x 4 splits between header and body x 7 read sizes"; D.scenarios.push_back(s);
  s.name = "sizes-2"; s.run = [] { c10_run(2, false, false, 0, false); }; s.note = "two requests in turn, the same product for each"; D.scenarios.push_back(s);
  s.name = "sizes-2-pipelined"; s.run = [] { c10_run(2, true, false, 0, false); }; s.note = "two requests back to back"; D.scenarios.push_back(s);
  s.name = "sizes-2-pool"; s.run = [] { c10_run(2, true, false, 1, false); }; s.note = "the same with a worker thread"; D.scenarios.push_back(s);
  s.name = "sizes-cuts"; s.budget.tot(1).set(C_IO, 1); s.run = [] { c10_run(1, false, true, 0, false); }; s.note = "one request, sizes around the limit, every single cut"; D.scenarios.push_back(s);
  s.name = "sizes-cuts-2"; s.run = [] { c10_run(2, true, true, 0, false); }; s.note = "two requests back to back, every single cut"; s.budget.tot(q ? 1 : 1); D.scenarios.push_back(s);
  s.budget = Budget();
  s.name = "large"; s.run = [] { c10_run(2, false, false, 0, true); }; s.note = "limit 70000 or none, sizes beyond one read buffer"; D.scenarios.push_back(s);
  s.name = "changed"; s.run = [q] { c10_changed(q ? 4 : 5); }; s.note = "4 (5) requests on two connections, some of which change the limit"; D.scenarios.push_back(s);
  s.name = "open-end"; s.run = [] { c10_open_end(); }; s.note = "unfinished header of the limit's size, declared length over the limit with the body withheld"; D.scenarios.push_back(s);
  s.name = "huge"; s.run = [] { c10_huge(); }; s.note = "declared lengths of 2^8, 2^15, 2^16, 2^31, 2^32, 2^33, 2^63 and each of the 399 numbers below, two limits, body withheld or begun, first or second request"; D.scenarios.push_back(s);
}

// ------------------------------------------------------------------------------------------- C11
// kinds of a request: 0 plain, 1 expects and withholds the body, 2 expects and sends everything, 3 expects and sends a part of the body,
// 4 expects, body in three pieces after the interim reply
static void c11_run(int len, int threads, int mode) {
  reset_log();
  if (mode == 1) net_opts.send_split = 2;
  if (mode == 2) net_opts.recv_split = 2;
  if (mode == 3) net_opts.sndbuf = 1 + choose(18, C_FREE, "window");
  Box b(threads); b.start();
  {
    Conn c; c.open(); std::vector<Exp> e; std::string shape; bool dead = false;
    auto pump = [&] {
      wait_idle();
      if (mode == 3) for (int k = 0; k < 5000 && !c.eof && !net::recv_would_block(c.fd); k++) { std::string s = net::recv_some(c.fd, 1 + net_opts.sndbuf); if (s.empty()) c.eof = true; else c.rd.feed(s); { Guard g; s = std::string(); } wait_idle(); }
      else c.drain();
    };
    for (int i = 0; i < len && !dead && !violated(); i++) {
      int kind = choose(5, C_FREE, "kind"), keep = i + 1 < len ? choose(4, C_FREE, "keep") != 3 : choose(2, C_FREE, "keep");
      bool early = mode == 3 && kind == 1 && choose(2, C_FREE, "body-before-interim-is-read");
      size_t before; std::string head, body;
      {
        Guard g; Rq r; r.keep = keep; r.xml_type = false; r.body = body_echo(i + 1); if (kind) r.headers = {i % 2 ? "expect: 100-Continue" : "Expect: 100-continue"};
        head = r.head(); body = r.body; before = c.rd.out.size();
        Exp x; x.call = call_of(i + 1); x.rpc = res_of(i + 1); x.keep = keep; e.push_back(x); dead = !keep;
      }
      auto interim = [&] { int n = 0; for (size_t k = before; k < c.rd.out.size(); k++) n += c.rd.out[k].code == 100; return n; };
      if (kind == 0 || kind == 2) { { Guard g; head += body; } c.send(head); pump(); }
      else if (kind == 1 || kind == 4) {
        c.send(head);
        if (early) wait_idle(); else {
          pump();
          Guard g; if (c.rd.out.size() != before + 1 || interim() != 1) { violation("interim", "request " + std::to_string(i + 1) + ": body withheld, received " + c.rd.text() + " instead of one interim reply"); }
        }
        if (violated()) break;
        if (kind == 1) { c.send(body); pump(); }
        else { std::string p; { Guard g; p = body.substr(0, 1); } c.send(p); pump(); { Guard g; p = body.substr(1, 20); } c.send(p); pump(); { Guard g; p = body.substr(21); } c.send(p); pump(); Guard g; p = std::string(); }
      } else {
        std::string p; { Guard g; p = head + body.substr(0, 30); } c.send(p); pump(); { Guard g; p = body.substr(30); } c.send(p); pump(); Guard g; p = std::string();
      }
      {
        Guard g; int n = interim(); size_t add = c.rd.out.size() - before;
        if (kind == 0 && n) violation("interim", "request " + std::to_string(i + 1) + " did not expect 100-continue: " + c.rd.text());
        else if ((kind == 1 || kind == 4) && n != 1) violation("interim", "request " + std::to_string(i + 1) + " got " + std::to_string(n) + " interim replies: " + c.rd.text());
        else if (n > 1) violation("interim", "request " + std::to_string(i + 1) + " got " + std::to_string(n) + " interim replies: " + c.rd.text());
        else if (n && add && c.rd.out[before].code != 100) violation("interim", "interim reply after the final reply: " + c.rd.text());
        head = std::string(); body = std::string();
      }
    }
    if (!violated()) { judge(c, e, "connection"); judge_calls(e, "connection"); judge_server(b, "server"); judge_bad_ops("server"); }
    { Guard g; outcome(c.rd.text() + calls_text()); }
    c.close(); wait_idle(); Guard g; e = std::vector<Exp>(); shape = std::string();
  }
  b.stop(); b.destroy();
  reset_log();
}
void c11(Driver& D) {
  bool q = D.quick();
  Scenario s; s.leaks = false;
  s.name = "histories"; s.run = [q] { c11_run(q ? 3 : 4, 0, 0); }; s.note = "all histories of 3 (thorough 4) requests out of 5 kinds, keep-alive or not"; D.scenarios.push_back(s);
  s.name = "histories-pool"; s.run = [] { c11_run(3, 1, 0); }; s.note = "the same with a worker thread"; D.scenarios.push_back(s);
  s.name = "short-writes"; s.budget.tot(q ? 1 : 2).set(C_IO, q ? 1 : 2); s.run = [] { c11_run(2, 0, 1); }; s.note = "histories of 2, every length of 1 (2) short writes, also inside the interim reply"; D.scenarios.push_back(s);
  s.name = "short-writes-pool"; s.run = [] { c11_run(2, 1, 1); }; s.note = "the same with a worker thread"; D.scenarios.push_back(s);
  s.name = "cuts"; s.run = [] { c11_run(2, 0, 2); }; s.note = "histories of 2, every single (double) cut of the reads"; D.scenarios.push_back(s);
  s.budget = Budget();
  s.name = "window"; s.run = [] { c11_run(2, 0, 3); }; s.note = "histories of 2, windows of 1..18 bytes, body sent before or after the interim reply was read"; D.scenarios.push_back(s);
  s.name = "window-pool"; s.run = [] { c11_run(2, 1, 3); }; s.note = "the same with a worker thread"; D.scenarios.push_back(s);
  s.name = "window-pool-switch"; s.budget.tot(1).set(C_SWITCH, 1).set(C_PREEMPT, 1); s.run = [] { c11_run(1, 1, 3); }; s.note = "one request, windows of 1..18 bytes, one scheduling deviation"; D.scenarios.push_back(s);
}

// ------------------------------------------------------------------------------------------- C12
static std::string odd_user() { return std::string(190, 'u') + " \xc3\xa9"; }
static std::string odd_pw() { return " " + std::string(400, '\\') + "\r\n:\xff"; }
static std::string zero_pw() { return std::string("a\0b", 3); }
struct Plug : iqxmlrpc::Auth_Plugin_base {
  bool anon = false;
  mutable std::vector<std::string> asked;
  bool do_authenticate(const std::string& u, const std::string& p) const override {
    Guard g; asked.push_back(u + "|" + p);
    return (u == "user" && p == "pw") || (u == "other" && p == "p:w:") || (u == "nopw" && p == "") || (u == "" && p == "x") || (u == odd_user() && p == odd_pw()) || (u == "zero" && p == zero_pw());
  }
  bool do_authenticate_anonymous() const override { Guard g; asked.push_back("anonymous"); return anon; }
};
static std::string b64(const std::string& s) {
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o; size_t i = 0;
  for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += A[v & 63]; }
  if (i + 1 == s.size()) { unsigned v = (unsigned char)s[i] << 16; o += A[v >> 18]; o += A[v >> 12 & 63]; o += "=="; }
  else if (i + 2 == s.size()) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += "="; }
  return o;
}
struct Cred { std::string header; int what; std::string user, pw; };   // what: 0 none, 1 well-formed user:pw, 2 unusable (must be refused)
static const std::vector<Cred>& creds() {
  static std::vector<Cred>* v = nullptr; if (v) return *v;
  Guard g; v = new std::vector<Cred>;
  auto basic = [&](const std::string& u, const std::string& p, const char* scheme = "Basic") { v->push_back(Cred{std::string("Authorization: ") + scheme + " " + b64(u + ":" + p), 1, u, p}); };
  v->push_back(Cred{"", 0, "", ""});
  basic("user", "pw"); basic("other", "p:w:"); basic("user", "pw2"); basic("user", "p"); basic("user", ""); basic("USER", "pw"); basic("nopw", ""); basic("user", "pw", "bAsIc");
  basic("", "x"); basic("other", "p"); basic("other", "pw"); basic("use", "r:pw"); basic("nopw", "pw"); basic("", "");
  v->push_back(Cred{"Authorization: Digest " + b64("user:pw"), 2, "", ""});
  v->push_back(Cred{"Authorization: Basic", 2, "", ""});
  v->push_back(Cred{"Authorization:", 2, "", ""});
  v->push_back(Cred{"Authorization: Basic " + b64("user:pw") + " x", 2, "", ""});
  v->push_back(Cred{"Authorization: Basic !!!!", 2, "", ""});
  v->push_back(Cred{"Authorization: " + b64("user:pw"), 2, "", ""});
  v->push_back(Cred{"Authorization: Basic " + b64("user"), 1, "user", ""});
  v->push_back(Cred{"Authorization: Basic " + b64("nopw"), 1, "nopw", ""});
  basic(odd_user(), odd_pw()); basic(odd_user().substr(0, 64), odd_pw()); basic(odd_user(), odd_pw().substr(0, 255)); basic("zero", zero_pw()); basic("zero", "a"); basic(std::string("user\0x", 6), "pw"); basic("user", "pw ");
  return *v;
}
// conns connections with their own histories; n requests in total, each on a chosen connection
static void c12_run(int n, int conns, int threads, bool pipelined, int limit) {
  reset_log();
  int plug = choose(3, C_FREE, "plugin");   // 0 none, 1 no anonymous, 2 anonymous allowed
  Plug P; P.anon = plug == 2;
  Box b(threads); if (plug) b.srv->set_auth_plugin(P); b.start();
  {
    std::vector<Conn> c(conns); std::vector<std::vector<Exp>> e(conns); std::vector<std::string> want, users, asks;
    for (auto& x : c) x.open();
    std::string all;
    for (int i = 0; i < n; i++) {
      int at = conns > 1 ? choose(conns, C_FREE, "connection") : 0;
      const Cred& k = creds()[choose(limit ? limit : (int)creds().size(), C_FREE, "credentials")];
      std::string t;
      {
        Guard g; Rq r; r.xml_type = false; if (!k.header.empty()) r.headers = {k.header}; r.body = body_echo(i + 1);
        t = r.text(); Exp x; x.text = t; bool ok; std::string user = "-";
        if (!plug) ok = true;
        else if (k.what == 0) { ok = P.anon; asks.push_back("anonymous"); }
        else if (k.what == 2) ok = false;
        else { ok = (k.user == "user" && k.pw == "pw") || (k.user == "other" && k.pw == "p:w:") || (k.user == "nopw" && k.pw == "") || (k.user == "" && k.pw == "x") || (k.user == odd_user() && k.pw == odd_pw()) || (k.user == "zero" && k.pw == zero_pw()); if (ok && !k.user.empty()) user = k.user; asks.push_back(k.user + "|" + k.pw); }
        if (ok) { x.call = call_of(i + 1); x.rpc = res_of(i + 1); users.push_back(call_of(i + 1) + user); }
        else { x.codes = {401, 200}; x.any_rpc = true; x.rpc = "fault"; x.code = 401; }
        e[at].push_back(x);
      }
      if (pipelined) { Guard g; all += t; } else { c[at].send(t); wait_idle(); for (auto& x : c) x.drain(); }
      Guard g; t = std::string();
    }
    if (pipelined) { c[0].send(all); wait_idle(); c[0].drain(); }
    for (int i = 0; i < conns; i++) judge(c[i], e[i], "connection " + std::to_string(i));
    {
      Guard g; std::vector<std::string> got; for (auto& k : L().calls) got.push_back(k.name + "(" + k.arg + ")" + k.user);
      if (got != users) { std::string m; for (auto& s : got) m += s + " "; m += "expected: "; for (auto& s : users) m += s + " "; violation("auth-calls", "invoked (with user): " + m); }
      auto squeeze = [](std::vector<std::string>& v) { v.erase(std::unique(v.begin(), v.end()), v.end()); }; squeeze(P.asked); squeeze(asks);
      if (P.asked != asks) { std::string m; for (auto& s : P.asked) m += s + " "; m += "expected: "; for (auto& s : asks) m += s + " "; violation("auth-asked", "the plug-in was asked about: " + m); }
      for (auto& x : c) outcome(x.rd.text());
    }
    judge_server(b, "server");
    for (auto& x : c) x.close(); wait_idle();
    Guard g; e = {}; want = {}; users = {}; asks = {}; all = std::string();
  }
  b.stop(); b.destroy();
  { Guard g; P.asked = std::vector<std::string>(); }
  reset_log();
}
void c12(Driver& D) {
  bool q = D.quick();
  Scenario s; s.leaks = false;
  s.name = "histories"; s.run = [] { c12_run(3, 1, 0, false, 0); }; s.note = "all histories of 3 requests out of 30 credential forms on one connection, 3 plug-in settings"; D.scenarios.push_back(s);
  s.name = "histories-4"; s.run = [q] { c12_run(4, 1, 0, false, q ? 9 : 16); }; s.note = "all histories of 4 requests out of 9 (thorough 16) forms"; D.scenarios.push_back(s);
  s.name = "pipelined"; s.run = [] { c12_run(3, 1, 0, true, 0); }; s.note = "all triples sent back to back"; D.scenarios.push_back(s);
  s.name = "two-connections"; s.run = [q] { c12_run(3, 2, 0, false, q ? 9 : 14); }; s.note = "histories of 3 requests spread over two connections"; D.scenarios.push_back(s);
  s.name = "histories-pool"; s.run = [] { c12_run(2, 1, 1, false, 0); }; s.note = "all pairs with a worker thread"; D.scenarios.push_back(s);
}
}  // namespace nk
