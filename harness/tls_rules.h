// What the server's configuration asks for holds over TLS too; stopping a TLS server. Included by tls.cc.
namespace {
struct RAuth : public iqxmlrpc::Auth_Plugin_base {
  int raises = 0;
  void fail() const { if (raises == 1) throw std::runtime_error("plug-in"); if (raises == 2) throw 17; }
  bool do_authenticate(const std::string& u, const std::string& p) const override { fail(); Guard g; return u == "user" && p == "pw"; }
  bool do_authenticate_anonymous() const override { fail(); return false; }
};
struct RWall : public iqnet::Firewall_base {
  int deny = 0, raises = 0, asked = 0; bool long_msg = false;
  bool grant(const iqnet::Inet_addr&) override { bool no = asked++ < deny; if (no && raises == 1) throw std::runtime_error("wall"); if (no && raises == 2) throw 17; return !no; }
  std::string message() override { return long_msg ? std::string(3000, 'm') : iqnet::Firewall_base::message(); }
};
enum { R_NONE, R_SIZE, R_AUTH, R_STRICT, R_AUTH_RAISES, R_AUTH_RAISES_INT, NR };
enum { Q_ECHO, Q_GET, Q_NOLEN, Q_COLON, Q_BADLEN, Q_EXPECT, Q_PLAIN, Q_LONG, Q_LONGHEAD, Q_GOOD, Q_WRONG, Q_DIGEST, Q_CONT, Q_CLOSE, NQ };
Exp r_exp(int cfg, int k, int no) {
  Guard g; Exp x; Rq r; std::string v = xint(no); x.call = "echo(i4:" + std::to_string(no) + ")"; x.rpc = "result i4:" + std::to_string(no);
  auto refuse = [&](int code) { x.call = x.rpc = ""; x.code = code; x.keep = false; };
  bool creds = false; bool size = cfg == R_SIZE, auth = cfg == R_AUTH, raises = cfg == R_AUTH_RAISES || cfg == R_AUTH_RAISES_INT;
  r.body = call_xml("echo", v);
  switch (k) {
    case Q_GET: r.line = "GET /RPC HTTP/1.1"; refuse(405); break;
    case Q_NOLEN: r.length = false; r.body = ""; refuse(411); break;
    case Q_COLON: r.headers = {"no colon here"}; refuse(400); break;
    case Q_BADLEN: r.length = false; r.headers = {"Content-Length: x12"}; r.body = ""; refuse(400); break;
    case Q_EXPECT: r.headers = {"Expect: the-unexpected"}; refuse(417); break;
    case Q_PLAIN: r.xml_type = false; r.headers = {"Content-Type: text/plain"}; if (cfg == R_STRICT) refuse(415); break;
    case Q_LONG: { r.body = "<methodCall><methodName>echo</methodName><params><param>" + v + "</param></params><!--" + std::string(1200, ' ') + "--></methodCall>"; if (size) refuse(413); break; }
    case Q_LONGHEAD: r.headers = {"X-Long: " + std::string(1200, 'h')}; if (size) refuse(413); break;
    case Q_GOOD: r.headers = {"Authorization: Basic dXNlcjpwdw=="}; creds = true; break;
    case Q_WRONG: r.headers = {"Authorization: Basic dXNlcjpwdzI="}; break;
    case Q_DIGEST: r.headers = {"Authorization: Digest dXNlcjpwdw=="}; break;
    case Q_CONT: r.headers = {"Expect: 100-continue"}; x.interim = 1; break;
    case Q_CLOSE: r.keep = false; x.keep = false; break;
  }
  if (x.code == 200 && auth && !creds) { bool k = x.keep; refuse(401); x.keep = k; }
  if (raises && x.code == 200) { x.call = ""; x.any_rpc = true; x.rpc = "fault"; x.codes = {200, 400, 401, 500}; }
  x.text = r.text(); return x;
}
void c26_rules(int n, bool pipe_too) {
  tls_reset();
  int cfg = choose(NR, C_FREE, "configuration"), ver = 2 + choose(2, C_FREE, "version"), threads = choose(2, C_FREE, "pool"); bool pipe = pipe_too && choose(2, C_FREE, "pipelined");
  RAuth au; au.raises = cfg == R_AUTH_RAISES ? 1 : cfg == R_AUTH_RAISES_INT ? 2 : 0;
  { Box b(threads, 3000, true, true);
    { AsLib al; if (cfg == R_SIZE) b.srv->set_max_request_sz(1000); if (cfg == R_STRICT) b.srv->set_verification_level(iqxmlrpc::http::HTTP_CHECK_STRICT); if (cfg == R_AUTH || au.raises) b.srv->set_auth_plugin(au); }
    b.start(); int base = lib_fds();
    { TConn c; std::vector<Exp> e; std::string all, who; bool over = false;
      if (!c.dial(ver)) violation("refused", "no session: " + c.t.err);
      for (int i = 0; i < n && !violated() && !over && !c.eof; i++) {
        Exp x; { Guard g; int k; { k = choose(NQ, C_FREE, "request"); } x = r_exp(cfg, k, i + 1); }
        if (au.raises && x.codes.size()) x.keep = true;
        { Guard g; e.push_back(x); over = !x.keep; all += x.text; }
        if (!pipe) {
          if (!c.send(x.text)) break;
          wait_idle(); c.drain();
          // what a failing plug-in leads to is the server's choice between an error and a fault
          if (x.codes.size()) { Guard g; if (c.eof || (!c.rd.out.empty() && !c.rd.out.back().keep())) { e.back().keep = false; over = true; } }
        }
        Guard g; x = Exp();
      }
      if (pipe && !violated()) { c.send(all); wait_idle(); c.drain(); if (au.raises) { Guard g; std::vector<Exp> f; for (size_t i = 0; i < e.size(); i++) { f.push_back(e[i]); size_t fin = 0; bool kp = true; for (auto& r : c.rd.out) if (r.code != 100 && fin++ == i) kp = r.keep(); if (!kp) { f.back().keep = false; break; } } e = f; } }
      wait_idle(); c.drain();
      { Guard g; who = "configuration " + std::to_string(cfg); }
      if (!violated() && judge(c, e, who)) judge_calls(e, who);
      if (!violated()) { Guard g; size_t in = 0, want = 0; for (auto& r : c.rd.out) if (r.code == 100) in++; for (auto& x : e) if (x.interim == 1) want++; if (in > want) violation("interim", who + ": " + std::to_string(in) + " interim replies"); }
      judge_server(b, who); reset_log();
      // another client is served as the configuration says
      if (!violated()) { TConn o; std::vector<Exp> eo; { Guard g; eo = {r_exp(cfg, Q_GOOD, 50)}; } if (!o.dial(ver)) violation("refused", "next client: " + o.t.err); else { o.send(eo[0].text); wait_idle(); o.drain(); if (au.raises) { Guard g; if (!o.rd.out.empty() && !o.rd.out.back().keep()) eo[0].keep = false; } if (judge(o, eo, who + ", next client")) judge_calls(eo, who); } o.close(); Guard g; eo = std::vector<Exp>(); }
      { Guard g; outcome(std::to_string(cfg) + c.rd.text().substr(0, 120)); }
      c.close(); wait_idle(); judge_server(b, who);
      if (!violated()) { int now = lib_fds(); Guard g; if (now != base) violation("fd-leak", who + ": " + std::to_string(now - base) + " connection(s) not released after all clients left"); }
      Guard g; e = std::vector<Exp>(); all = std::string(); who = std::string(); }
    b.stop(); b.destroy(); }
  if (!violated()) end_world("server"); reset_log();
}
// clients the firewall turns away at a TLS server
void c26_wall() {
  tls_reset();
  int deny = 1 + choose(2, C_FREE, "denied"), ver = 2 + choose(2, C_FREE, "version"), threads = choose(2, C_FREE, "pool"), how = choose(4, C_FREE, "client"), before = choose(2, C_FREE, "before");
  RWall w; w.raises = choose(3, C_FREE, "raises"); w.long_msg = choose(2, C_FREE, "message"); w.deny = 0;
  { Box b(threads, 3000, true, true); b.srv->set_firewall(&w); b.start(); int base = lib_fds();
    { TConn o; if (before) { o.dial(ver); more_call(o, 90, "before"); }
      w.asked = 0; w.deny = deny;
      for (int k = 0; k < deny && !violated(); k++) {
        TConn c; bool up = false;
        if (how == 0) { up = c.dial(ver); if (up) { c.send(rq_echo(1)); wait_idle(); } }
        else { c.open(3000); if (how == 1) net::send_all(c.fd, rq_echo(1)); wait_idle(); if (how == 3) c.close(true); }
        wait_idle();
        { Guard g; if (up) violation("session", "a denied client got a TLS session"); }
        if (how && how != 3 && !violated()) { std::string d; while (!net::recv_would_block(c.fd)) { std::string x = net::recv_some(c.fd); if (x.empty()) break; Guard g; d += x; x = std::string(); } Guard g; if (d.size() && w.message().compare(0, d.size(), d) != 0) violation("message", "a denied client received " + esc(d, 80)); d = std::string(); }
        if (!violated() && how != 3 && net::recv_would_block(c.fd)) violation("not-closed", "a denied client stays connected");
        if (before && !violated()) more_call(o, 91 + k, "denied");
        c.close();
      }
      wait_idle(); if (!violated()) fresh_call(ver, 50, "granted client");
      { Guard g; for (auto& k : L().calls) if (k.arg == "i4:1") violation("calls", "a denied client's call was executed"); }
      o.close(); wait_idle(); judge_server(b, "firewall");
      if (!violated()) { int now = lib_fds(); Guard g; if (now != base) violation("fd-leak", std::to_string(now - base) + " connection(s) not released after all clients left"); }
      { Guard g; outcome(calls_text()); } }
    b.stop(); b.destroy(); }
  if (!violated()) end_world("server"); reset_log();
}
// the server is stopped while sessions are in every stage, and runs again
void c26_stop(int rounds) {
  tls_reset();
  int ver = 2 + choose(2, C_FREE, "version"), threads = choose(2, C_FREE, "pool");
  { Box b(threads, 3000, true, true); int tid0 = -1; (void)tid0; b.start();
    { TConn o; o.dial(ver); more_call(o, 90, "before");
      for (int k = 0; k < rounds && !violated(); k++) {
        int stage = choose(6, C_FREE, "stage"), quiet = choose(2, C_FREE, "quiet");
        TConn c; Exp e = x_echo(k + 1, true);
        if (stage == 1) c.open(3000);
        if (stage == 2) { c.open(3000); net::send_all(c.fd, std::string("\x16\x03\x01", 3)); }
        if (stage >= 3) { if (!c.dial(ver)) violation("refused", c.t.err); }
        if (stage == 4) { c.t.cut = c.t.sent + 5; c.t.at_cut = [] { wait_idle(); }; std::string part; { Guard g; part = e.text.substr(0, e.text.size() / 2); } c.send(part); Guard g; part = std::string(); }
        if (stage == 5) { c.send(e.text); }
        if (quiet) wait_idle();
        b.stop();
        if (b.returned != true) violation("stop", "the loop did not return");
        if (!violated()) b.start();
        if (!violated() && stage == 4) { std::string part; { Guard g; part = e.text.substr(e.text.size() / 2); } c.send(part); Guard g; part = std::string(); }
        if (!violated() && stage == 3) c.send(e.text);
        if (!violated() && stage >= 3) { wait_idle(); c.drain(); std::vector<Exp> ev; { Guard g; ev = {e}; } judge(c, ev, "session kept over a stop"); Guard g; ev = std::vector<Exp>(); }
        if (!violated()) more_call(o, 91 + k, "after a stop"); if (!violated()) fresh_call(ver, 50 + k, "after a stop");
        c.close(); wait_idle(); Guard g; e = Exp();
      }
      judge_server(b, "stop"); o.close(); wait_idle(); }
    { Guard g; outcome(calls_text()); }
    b.stop(); b.destroy(); }
  if (!violated()) end_world("server"); reset_log();
}
}  // namespace
void c26_more(Driver& D) {
  bool q = D.quick(); auto& S = D.scenarios;
  S.push_back(mk("rules-1", "each of 14 kinds of request under 6 configurations (size limit, authentication, strict checks, failing plug-in)", [] { c26_rules(1, false); }));
  S.push_back(mk("rules-2", "pairs of them, one after the other or at once", [] { c26_rules(2, true); }));
  if (!q) S.push_back(mk("rules-3", "triples of them", [] { c26_rules(3, true); }));
  S.push_back(mk("wall", "clients the firewall turns away or fails to check", [] { c26_wall(); }));
  S.push_back(mk("stop", "stopped and run again with sessions in every stage", [q] { c26_stop(q ? 2 : 3); }));
}
