// C26 TLS sessions, C27 verification, C28 HTTPS through a proxy; TLS part of C15.
#include "tlskit.h"
#include "cli.h"
#include "lokit.h"

using namespace nk;

namespace {
enum Need { MUST, MAY, NEVER };
bool accounting;
Lens len_srv[4], len_srv_cert[4], len_srv_chain[4];          // bytes of a session with the server under test, per version
Lens len_cli[4];

Scenario mk(const std::string& n, const std::string& note, std::function<void()> run, Budget b = Budget()) { Scenario s; s.name = n; s.note = note; s.run = run; s.budget = b; s.leaks = accounting; return s; }

void end_world(const char* who) {
  Guard g;
  auto f = net::open_fds(true);
  if (!f.empty()) violation("fd-leak", std::string(who) + ": " + std::to_string(f.size()) + " socket(s) of the library are still open");
  if (live_ssl()) violation("tls-leak", std::string(who) + ": " + std::to_string(live_ssl()) + " TLS object(s) of the library were not released");
  judge_bad_ops(who);
}
int lib_fds() { Guard g; return (int)net::open_fds(true).size(); }

// one complete exchange with a fresh client; violation if it does not work
bool fresh_call(int ver, int v, const char* who) {
  TConn c; bool ok = c.dial(ver); Exp e = x_echo(v, false);
  if (ok) { c.send(e.text); c.wait(1); wait_idle(); c.drain(); }
  Guard g;
  if (!ok) { violation("refused", std::string(who) + ": no TLS session could be set up: " + c.t.err); return false; }
  std::vector<Exp> ev{e}; bool r = judge(c, ev, who, false); e = Exp(); ev.clear(); return r;
}
// an established connection makes another call
bool more_call(TConn& c, int v, const char* who) {
  // its record arrives in two parts
  c.t.cut = c.t.sent + 3; c.t.at_cut = [] { wait_idle(); };
  Exp e = x_echo(v, true); size_t n = c.rd.out.size(); bool ok = c.send(e.text); if (ok) ok = c.wait(n + 1);
  Guard g; if (!ok) violation("other-client", std::string(who) + ": a call on another, healthy connection was not answered " + c.t.err);
  else if (c.rd.out.back().rpc() != e.rpc) violation("other-client", std::string(who) + ": got " + c.rd.out.back().rpc());
  e = Exp(); return ok;
}
const char* END_N[] = {"closes", "resets", "falls silent"};

// the ciphertext of a client is cut, ended or damaged at every byte
void c26_server(int mode, int step) {              // 0 cut, 1 end, 2 flip
  tls_reset();
  int ver = 2 + choose(2, C_FREE, "version"); int threads = choose(2, C_FREE, "pool");
  int cert = mode ? choose(2, C_FREE, "certificate") : 0; Verif ver_cl; if (cert) iqnet::ssl::ctx->verify_client(false, &ver_cl);
  long n = (cert ? len_srv_cert : len_srv)[ver].client; long at = choose((int)((n + step - 1) / step), C_FREE, "position") * step;
  int how = mode == 1 ? choose(3, C_FREE, "ending") : mode == 2 ? 0 : 0;
  static const int BITS[] = {0, 7}; int bit = mode == 2 ? BITS[choose(2, C_FREE, "bit")] : 0;
  {
    Box b(threads, 3000, true, true); b.start(); int base = lib_fds();
    std::string who; { Guard g; who = std::string("client that ") + (mode == 0 ? "pauses" : mode == 1 ? END_N[how] : "sends a damaged byte") + " at byte " + std::to_string(at) + " of " + std::to_string(n); }
    std::vector<Exp> e; { Guard g; e = {x_echo(1, true), x_echo(2, false)}; }
    { TConn o; if (!o.dial(3)) violation("refused", "first client: " + o.t.err); else more_call(o, 90, "before");
      TConn c; int v = 91;
      if (mode == 0) { c.t.cut = at; c.t.at_cut = [&] { wait_idle(); more_call(o, v++, "pause"); }; }
      if (mode == 1) { c.t.limit = at; c.t.at_limit = [&] { if (how < 2) { wait_idle(); c.close(how == 1); } }; }
      if (mode == 2) { c.t.flip = at; c.t.flip_bit = bit; c.t.impatient = true; }
      reset_log();
      bool ok = c.dial(ver, cert ? W().cl_cert : nullptr), s1 = false, s2 = false;
      if (mode == 2 && !ok && c.fd >= 0) wait_idle();
      if (ok && (s1 = c.send(e[0].text))) {
        if (mode == 0) c.wait(1);
        else { wait_idle(); c.drain(); }
      }
      if (ok && s1 && !c.eof && !c.t.ended) { s2 = c.send(e[1].text); if (mode == 0) c.wait(2); else { wait_idle(); c.drain(); } }
      wait_idle(); 
      if (!violated()) {
        if (mode == 0) { judge(c, e, who); }
        else { Guard g; std::string got; for (auto& k : L().calls) if (k.arg == "i4:1" || k.arg == "i4:2") got += k.arg; else violation("calls", who + ": invoked " + k.name + "(" + k.arg + ")");
          if (got != "" && got != "i4:1" && got != "i4:1i4:2") violation("calls", who + ": invoked " + got);
          if (!c.rd.err.empty()) violation("bad-reply", who + ": " + c.rd.err);
          for (size_t i = 0; i < c.rd.out.size() && i < 2; i++) if (c.rd.out[i].rpc() != e[i].rpc) violation("wrong-reply", who + ": " + c.rd.out[i].rpc()); }
        if (!violated()) more_call(o, v++, who.c_str());
        if (!violated()) { std::string w2; { Guard g; w2 = who + ", next client"; } fresh_call(ver, 50, w2.c_str()); Guard g; w2 = std::string(); }
        judge_server(b, who);
        { Guard g; outcome(std::string(ok ? "up " : "down ") + (s1 ? "1" : "") + (s2 ? "2 " : " ") + c.rd.text() + " " + calls_text()); }
      }
      c.close(); o.close(); wait_idle();
      if (!violated()) { int now = lib_fds(); Guard g; if (now != base) violation("fd-leak", who + ": " + std::to_string(now - base) + " connection(s) not released after all clients left"); }
      if (!violated() && live_ssl()) violation("tls-leak", who);
    }
    b.stop(); b.destroy(); Guard g; who = std::string(); e = std::vector<Exp>();
  }
  if (!violated()) end_world("server"); reset_log();
}

// what a client may send instead of a handshake, or inside a session
void c26_garbage() {
  tls_reset();
  static const std::vector<std::string>& G = *new std::vector<std::string>{"", "\n", "GET / HTTP/1.0\r\n\r\n", rq_echo(1), std::string(300, 'A'), std::string(20000, '\x16'), std::string("\x15\x03\x01\x00\x02\x02\x28", 7), std::string("\x16\x03\x01\xff\xff", 5) + std::string(70000, 'z'), std::string("\x16\x03\x01\x00\x00", 5), std::string("\x17\x03\x03\x00\x05hello", 10), std::string("\x80\x2e\x01\x00\x02", 5) + std::string(44, 'q')};
  int g = choose((int)G.size(), C_FREE, "garbage"), how = choose(3, C_FREE, "ending"), inside = choose(2, C_FREE, "inside"), threads = choose(2, C_FREE, "pool"); int rep = 1 + choose(2, C_FREE, "times");
  { Box b(threads, 3000, true, true); b.start(); int base = lib_fds();
    { TConn o; o.dial(3); more_call(o, 90, "before");
      TConn idle; idle.open(3000);                    // a connection that never speaks
      for (int k = 0; k < rep && !violated(); k++) {
        TConn c; if (inside) { c.dial(2 + k % 2); net::send_all(c.fd, G[g]); } else { c.open(3000); net::send_all(c.fd, G[g]); }
        wait_idle(); if (how < 2) c.close(how == 1); wait_idle();
        more_call(o, 91 + k, "garbage"); if (!violated()) fresh_call(2 + k % 2, 50 + k, "after garbage");
        c.close();
      }
      idle.close(); o.close(); wait_idle(); judge_server(b, "garbage");
      if (!violated()) { int now = lib_fds(); Guard gg; if (now != base) violation("fd-leak", std::to_string(now - base) + " connection(s) not released after all clients left"); }
    }
    b.stop(); b.destroy(); }
  if (!violated()) end_world("server"); reset_log();
}

// clients that end the session properly, or half-way, around a request that is being executed or answered
void c26_goodbye() {
  tls_reset();
  int ver = 2 + choose(2, C_FREE, "version"), threads = choose(2, C_FREE, "pool"), rqn = choose(5, C_FREE, "request"), cn = choose(2, C_FREE, "close-notify"), how = choose(4, C_FREE, "ending"), when = choose(3, C_FREE, "when"), small = choose(2, C_FREE, "window");
  if (small) net_opts.sndbuf = 300;
  bool open = false;
  { Box b(threads, 3000, true, true); b.start(); int base = lib_fds();
    { Guard g; L().on_call = [&open](Method*, const std::string&) { bool hold; { Guard g2; hold = L().calls.back().arg == "i4:7"; } if (hold) block_until("release", [&open] { return open; }); }; }
    { TConn o; o.dial(3); more_call(o, 90, "before");
      TConn c; c.dial(ver); std::vector<Exp> e; std::string part;
      { Guard g; e = {x_echo(1, true), x_echo(1, false), x_big(3000), x_echo(7)}; if (rqn < 4) part = e[rqn].text; if (rqn == 4) { part = e[0].text; part.resize(part.size() - 5); } }
      c.send(part);
      if (when) wait_idle();
      if (when == 2) c.drain();
      if (cn) c.t.close_notify();
      if (how == 1) { if (small) wait_idle(); net::shut_wr(c.fd); }
      else if (how < 3) c.close(how == 2);
      if (rqn == 3) { if (when) wait_idle(); open = true; }
      wait_idle();
      more_call(o, 91, "after"); if (!violated()) fresh_call(ver, 50, "after");
      c.close(); wait_idle(); o.close(); wait_idle(); judge_server(b, "goodbye");
      if (!violated()) { int now = lib_fds(); Guard g; if (now != base) violation("fd-leak", std::to_string(now - base) + " connection(s) not released after all clients left"); }
      if (!violated() && live_ssl()) violation("tls-leak", "sessions not released");
      Guard g; outcome(c.rd.text().substr(0, 80)); e = std::vector<Exp>(); part = std::string();
    }
    b.stop(); b.destroy(); }
  net_opts = NetOpts();
  if (!violated()) end_world("server"); reset_log();
}

// requests of every kind, carried in records and segments of every shape
void c26_requests() {
  tls_reset();
  int ver = 2 + choose(2, C_FREE, "version"), threads = choose(2, C_FREE, "pool"), kind = choose(11, C_FREE, "requests"), shape = choose(6, C_FREE, "records"), tr = choose(4, C_FREE, "transport");
  std::vector<Exp> e; bool pipe = false;
  { Guard g; auto bad = [](const std::string& line, bool len, int code, bool ctype = true) { Exp x; Rq r; r.line = line; r.length = len; r.xml_type = ctype; r.body = len ? call_xml("echo", xint(1)) : ""; x.text = r.text(); x.code = code; x.keep = false; return x; };
    switch (kind) {
      case 0: e = {x_echo(1, false)}; break;
      case 1: e = {x_echo(1), x_echo(2), x_echo(3, false)}; break;
      case 2: e = {x_echo(1), x_echo(2), x_echo(3, false)}; pipe = true; break;
      case 3: e = {x_big(40000), x_echo(2, false)}; break;
      case 4: { Exp x; std::string big(40000, 'q'); x.text = rq("echo", xstr(big)); x.call = "echo(\"" + esc(big) + "\")"; x.rpc = "result \"" + esc(big) + "\""; e = {x, x_echo(2, false)}; break; }
      case 5: e = {x_fault(), x_unknown(), x_echo(3, false)}; break;
      case 6: e = {bad("GET /RPC HTTP/1.1", true, 405)}; break;
      case 7: e = {x_echo(1), bad("POST /RPC HTTP/1.1", false, 411)}; break;
      case 8: { Exp x = x_echo(1, false); size_t p = x.text.find("\r\n\r\n"); x.text.insert(p, "\r\nExpect: 100-continue"); e = {x}; break; }
      case 9: e = {x_big(16384), x_big(16300), x_echo(3, false)}; pipe = true; break;
      case 10: e = {x_echo(1), x_echo(2), x_echo(3, false)}; break;      // keys are renewed before each request
    } }
  static const size_t RM[] = {0, 1, 3, 0}, SB[] = {1 << 20, 1 << 20, 1 << 20, 200}; 
  bool huge = kind == 3 || kind == 4 || kind == 9; if (huge && shape == 1) shape = 5; if (huge && (tr == 1 || tr == 2)) { net_opts.recv_max = 500; } else net_opts.recv_max = RM[tr];
  net_opts.sndbuf = SB[tr]; if (huge && tr == 3) net_opts.sndbuf = 5000;
  static const size_t RS[] = {0, 1, 7, 100, 16384, 1000};
  { Box b(threads, 3000, true, true); b.start();
    { TConn c; 
      if (!c.dial(ver)) violation("refused", "no session: " + c.t.err);
      else if (pipe) { std::string all; { Guard g; for (auto& x : e) all += x.text; } c.send(all, RS[shape]); c.wait(e.size()); Guard g; all = std::string(); }
      else { size_t n = 0; for (size_t i = 0; i < e.size() && !c.eof; i++) { if (kind == 10 && ver == 3) { Guard g; SSL_key_update(c.t.s, i % 2 ? SSL_KEY_UPDATE_NOT_REQUESTED : SSL_KEY_UPDATE_REQUESTED); } if (!c.send(e[i].text, RS[shape])) break; n++; while (!c.eof && c.rd.err.empty()) { size_t fin = 0; { Guard g; for (auto& r : c.rd.out) if (r.code != 100) fin++; } if (fin >= n) break; c.wait(c.rd.out.size() + 1); } } }
      wait_idle(); c.drain();
      if (!violated() && judge(c, e, "TLS")) judge_calls(e, "TLS");
      if (!violated() && !e.back().keep && !c.t.got_close_notify()) violation("no-close-notify", "the server closed the TLS session without saying so");
      { Guard g; outcome(std::to_string(kind) + c.rd.text().substr(0, 60)); }
      judge_server(b, "TLS"); }
    b.stop(); b.destroy(); Guard g; e = std::vector<Exp>(); }
  net_opts = NetOpts();
  if (!violated()) end_world("server"); reset_log();
}

// the library on both sides
struct Both { int calls = 2; size_t pad = 0; };
void c26_both(const Both& q) {
  NetOpts keep_o = net_opts; net_opts = NetOpts();
  tls_reset();
  int threads = choose(2, C_FREE, "pool"); bool keep = choose(2, C_FREE, "keep-alive");
  { Box b(threads, 3000, true, true); b.start();
    { std::unique_ptr<HttpsClient> cl; { AsLib al; cl.reset(new HttpsClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); cl->set_timeout(3); }
      net_opts = keep_o; { Guard g; net_opts.fault_min_fd = net::open_fds(true).back() + 1; }   // not the server's own wake-up channel
      std::string text; bool failed = false;
      for (int i = 1; i <= q.calls && !violated(); i++) {
        bool last = i == q.calls; if (last) { NetOpts o = net_opts; net_opts.recv_fault = net_opts.send_fault = net_opts.socket_fault = net_opts.fcntl_fault = net_opts.connect_modes = net_opts.accept_fault = false; }
        Got r; { AsLib al; Param_list pl; pl.push_back(Value(i)); if (q.pad) pl.push_back(Value(std::string(q.pad, 'p'))); r = call_client(*cl, "echo", pl); }
        Guard g; std::string want = "result i4:" + std::to_string(i); int ran = 0; std::string me = "i4:" + std::to_string(i); for (auto& k : L().calls) if (k.arg.substr(0, k.arg.find(',')) == me) ran++;
        if (r.ok && r.text != want) violation("wrong-reply", "call " + std::to_string(i) + " returned " + r.text);
        else if (r.ok && ran != 1) violation("calls", "call " + std::to_string(i) + " was executed " + std::to_string(ran) + " times");
        else if (!r.ok && ran > 1) violation("calls", "failed call " + std::to_string(i) + " was executed " + std::to_string(ran) + " times");
        // a connection kept from before may have been broken by a fault on the server's side: the first call on it may fail
        else if (!r.ok && !keep_o.recv_fault && !keep_o.send_fault && !keep_o.socket_fault && !keep_o.accept_fault) violation("failed", "call " + std::to_string(i) + ": " + r.text);
        else if (!r.ok && last && !keep) violation("failed", "call " + std::to_string(i) + " without any fault: " + r.text + " after " + text);
        else if (!r.ok && last && failed) violation("failed", "second failure without any fault: " + r.text + " after " + text);
        failed = false; text += r.ok ? "ok " : "err "; r = Got();
      }
      if (!violated() && keep_o.recv_fault) {         // now it must work
        Got r; { AsLib al; r = call_no(*cl, 77); } if (!r.ok && keep) { AsLib al; r = call_no(*cl, 78); }
        Guard g; if (!r.ok) violation("failed", "no call works any more: " + r.text + " after " + text); r = Got();
      }
      { Guard g; outcome(text); text = std::string(); }
      AsLib al; cl.reset(); }
    wait_idle(); judge_server(b, "both");
    b.stop(); b.destroy(); }
  net_opts = NetOpts();
  if (!violated()) end_world("both"); reset_log();
}

// clients in threads of their own
void c26_threads(int threads, int clients, int calls) {
  tls_reset(); bool keep = choose(2, C_FREE, "keep-alive");
  { Box b(threads, 3000, true, true); b.start();
    std::vector<int> ts; std::vector<std::string> out; { Guard g; out.resize(clients); }
    for (int k = 0; k < clients; k++) {
      int t = spawn("client", [&, k] {
        HttpsClient cl(iqnet::Inet_addr("127.0.0.1", 3000)); cl.set_keep_alive(keep);
        for (int i = 0; i < calls; i++) { int no = 10 * (k + 1) + i; Got r = call_no(cl, no); Guard g; if (!r.ok || r.text != "result i4:" + std::to_string(no)) violation("wrong-reply", "client " + std::to_string(k) + ", call " + std::to_string(no) + ": " + r.text); out[k] += r.text + ";"; r = Got(); }
      }, false);
      Guard g; ts.push_back(t);
    }
    for (int t : ts) join(t);
    wait_idle();
    { Guard g; std::string o; for (auto& s : out) o += s; outcome(o); std::map<std::string, int> n; for (auto& c : L().calls) if (++n[c.arg] > 1) violation("twice", "call " + c.arg + " was executed twice"); }
    judge_server(b, "server"); b.stop(); b.destroy();
    Guard g; ts = std::vector<int>(); out = std::vector<std::string>(); }
  if (!violated()) end_world("both"); reset_log();
}

// ---- the client against a TLS server that misbehaves -------------------------------------------------------
enum TK { T_GOOD, T_GOOD_CN, T_GOOD_ABRUPT, T_GOOD_RESET, T_FAULT, T_CN, T_CN_STAY, T_ABRUPT, T_RESET, T_CUT_CN, T_CUT_ABRUPT, T_CUT_RESET, T_CUT_CIPHER, T_GARBAGE, T_HTTP, T_FLIP, T_KEYUPD, T_RENEG, T_RECS, T_RECS_SEG, T_LATE, T_CUT_SILENT, T_CN_LATE, NTK, T_RENEG_OTHER };
const char* TN[] = {"good", "good-close-notify", "good-abrupt", "good-reset", "fault", "close-notify", "close-notify-stay", "abrupt", "reset", "cut-close-notify", "cut-abrupt", "cut-reset", "cut-ciphertext", "garbage", "plain-http", "damaged", "key-update", "renegotiate", "records", "records-segments", "late", "cut-silent", "close-notify-late"};
struct TAct { int kind = T_GOOD; size_t cut = 0; };
struct TlsSrv {
  int tid = -1, port; int ver; bool keep = true; std::vector<TAct> acts; std::vector<Seen> seen; int conns = 0; SSL_CTX* ctx = nullptr; size_t pad = 0;
  bool renegotiated = false; std::function<bool(TlsSrv&, int)> before;   // speaks in clear first; false: connection dealt with
  std::function<void(TlsEnd&, int)> on_conn;    // before the handshake, with the number of the connection
  int lfd = -1, ctl = -1; bool stopping = false;
  TlsSrv(int v, int p = 3000) : port(p), ver(v) {}
  void start() { lfd = net::tcp_listen("127.0.0.1", port); ctl = net::tcp_listen("127.0.0.1", port + 100); tid = spawn("peer", [this] { loop(); }, true); wait_idle(); }
  bool wait_fd(int fd) {                          // false: stop requested or a new connection while this one is silent
    pollfd p[3] = {{fd, POLLIN, 0}, {ctl, POLLIN, 0}, {lfd, POLLIN, 0}};
    ::poll(p, 3, -1); if (p[0].revents) return true; return false;
  }
  void loop() {
    for (;;) {
      pollfd p[2] = {{lfd, POLLIN, 0}, {ctl, POLLIN, 0}}; ::poll(p, 2, -1);
      if (p[1].revents) break;
      if (p[0].revents) { int f = net::tcp_accept(lfd); if (f >= 0) { conns++; serve(f); } }
    }
    net::close_fd(lfd); net::close_fd(ctl);
  }
  void serve(int f) {
    if (before && !before(*this, f)) return;
    TlsEnd t; t.init(ctx ? ctx : W().sv, f, true, ver); if (on_conn) on_conn(t, conns);
    std::string buf; bool ok = t.handshake();
    while (ok && !t.ended) {
      Seen s; bool have; { Guard g; have = take_request(buf, s); }
      if (have) { { Guard g; s.conn = conns; seen.push_back(s); s = Seen(); } int no = seen.back().no; act(t, no >= 1 && no <= (int)acts.size() ? acts[no - 1] : TAct(), no); continue; }
      bool pend; { Guard g; s = Seen(); pend = SSL_pending(t.s) > 0 || BIO_ctrl_pending(t.in) > 0; }
      if (!pend && !wait_fd(t.fd)) break;
      std::string d = t.read(); if (d.empty()) break;
      Guard g; buf += d; d = std::string();
    }
    if (!t.ended) t.close(); t.done();
    Guard g; buf = std::string();
  }
  std::string reply(const TAct& a, int no) { std::string k = keep ? "keep-alive" : "close"; if (a.kind == T_FAULT) return http_reply(fault_xml(100 + no, text_of(no)), k); return http_reply(result_xml(text_of(no, pad)), a.kind == T_GOOD_CN ? "close" : k); }
  void act(TlsEnd& t, const TAct& a, int no) {
    std::string r; { Guard g; r = reply(a, no); }
    auto part = [&] { Guard g; r.resize(std::min(r.size() - 1, a.cut)); };
    switch (a.kind) {
      case T_GOOD_CN: t.write(r); t.close_notify(); t.close(); break;
      case T_GOOD_ABRUPT: t.write(r); t.close(); break;
      case T_GOOD_RESET: t.write(r); t.close(true); break;
      case T_CN: t.close_notify(); t.close(); break;
      case T_CN_STAY: t.close_notify(); break;
      case T_ABRUPT: t.close(); break;
      case T_RESET: t.close(true); break;
      case T_CUT_CN: part(); t.write(r); t.close_notify(); t.close(); break;
      case T_CUT_ABRUPT: part(); t.write(r); t.close(); break;
      case T_CUT_RESET: part(); t.write(r); t.close(true); break;
      case T_CUT_CIPHER: t.limit = t.sent + (long)a.cut; t.at_limit = [&t] { t.close(); }; t.write(r); if (!t.ended) t.close(); break;
      case T_GARBAGE: net::send_all(t.fd, "some garbage in between"); break;
      case T_HTTP: net::send_all(t.fd, r); break;
      case T_FLIP: t.flip = t.sent + (long)a.cut; t.flip_bit = 3; t.write(r); break;
      case T_KEYUPD: { Guard g; SSL_key_update(t.s, SSL_KEY_UPDATE_REQUESTED); } t.write(r); break;
      case T_RENEG: { int x; { Guard g; x = SSL_renegotiate(t.s); } if (x == 1) t.handshake(); t.write(r); break; }
      case T_RENEG_OTHER: { int x; { Guard g; SSL_use_certificate(t.s, SSL_CTX_get0_certificate(W().sv_other)); SSL_use_PrivateKey(t.s, SSL_CTX_get0_privatekey(W().sv_other)); x = SSL_renegotiate(t.s); } 
        if (x == 1 && t.handshake()) {                    // asks for it; the rest follows while reading
          bool in = false, over = false;
          for (int k = 0; k < 8 && !over; k++) { if (!wait_fd(t.fd) || !t.pull()) break; bool init; { Guard g; ERR_clear_error(); char b; SSL_peek(t.s, &b, 1); init = SSL_in_init(t.s); } if (!t.ship()) break; if (init) in = true; else if (in) over = true; }
          renegotiated = over;
        }
        t.write(r); break; }
      case T_RECS: t.write(r, 1 + a.cut % 50); break;
      case T_RECS_SEG: t.cut = t.sent + (long)a.cut; t.at_cut = [] { wait_idle(); }; t.write(r, 60); break;
      case T_LATE: { pollfd p[2] = {{lfd, POLLIN, 0}, {ctl, POLLIN, 0}}; if (::poll(p, 2, TMO_S() * 1000 + 500) > 0) t.close(); else t.write(r); break; }
      case T_CUT_SILENT: part(); t.write(r); break;
      case T_CN_LATE: t.write(r); sleep_ms(100); t.close_notify(); break;
      default: t.write(r); break;
    }
    Guard g; r = std::string();
  }
  static int TMO_S() { return 3; }
  void stop() { if (tid < 0) return; int f = net::tcp_connect("127.0.0.1", port + 100); join(tid); net::close_fd(f); tid = -1; }
  ~TlsSrv() { stop(); Guard g; seen = std::vector<Seen>(); acts = std::vector<TAct>(); on_conn = nullptr; before = nullptr; }
};
// what a failed call is reported as; "tls" stands for the exceptions of the TLS layer
std::string cause_t(const TAct& a) {
  switch (a.kind) {
    case T_LATE: case T_CUT_SILENT: return "timeout";
    case T_FLIP: return "network tls timeout";        // a damaged length makes the client wait for more
    default: return "network tls";
  }
}
bool judge_why = false;
void judge_cause(const Got& r, const std::string& want, const std::string& who) {
  Guard g; if (!judge_why || violated() || r.ok) return;
  if ((" " + want + " ").find(" " + r.kind + " ") == std::string::npos) violation("cause", who + " is reported as " + r.kind + " error (" + r.text + "), not as " + want);
}
Need need_t(int k) { switch (k) { case T_GOOD: case T_GOOD_CN: case T_GOOD_ABRUPT: case T_FAULT: case T_KEYUPD: case T_RENEG: case T_RECS: case T_RECS_SEG: case T_CN_LATE: return MUST; case T_GOOD_RESET: return MAY; default: return NEVER; } }
bool usable_t(int k) { return k == T_GOOD || k == T_FAULT || k == T_KEYUPD || k == T_RENEG || k == T_RECS || k == T_RECS_SEG; }
struct TSeq { int calls = 2; int first = 0, last = NTK; bool all_cuts = false; size_t recv_max = 0, sndbuf = 0; size_t pad = 0, rpad = 0; bool tmo = true; };
std::string t_want(const TAct& a, int no, size_t pad) { return a.kind == T_FAULT ? "fault " + std::to_string(100 + no) + " \"" + text_of(no) + "\"" : "result \"" + esc(text_of(no, pad)) + "\""; }

void c26_client(const TSeq& q) {
  tls_reset();
  int ver = 2 + choose(2, C_FREE, "version"); bool keep = choose(2, C_FREE, "keep-alive"), tmo = q.tmo && choose(2, C_FREE, "timeout");
  { TlsSrv srv(ver); srv.keep = keep; srv.pad = q.rpad;
    for (int i = 0; i < q.calls; i++) {
      TAct a; if (i + 1 < q.calls) {
        a.kind = q.first + choose(q.last - q.first, C_FREE, "peer");
        bool silent = a.kind == T_LATE || a.kind == T_CUT_SILENT || a.kind == T_FLIP;
        if ((silent && !tmo) || (a.kind == T_KEYUPD && ver == 2) || (a.kind == T_RENEG && ver == 3)) a.kind = T_GOOD;
        size_t n; { Guard g; n = srv.reply(TAct(), 1).size(); }
        bool c = a.kind == T_CUT_CN || a.kind == T_CUT_ABRUPT || a.kind == T_CUT_RESET || a.kind == T_CUT_SILENT || a.kind == T_CUT_CIPHER || a.kind == T_FLIP || a.kind == T_RECS || a.kind == T_RECS_SEG;
        if (c) { if (q.all_cuts) a.cut = choose((int)n - 1, C_FREE, "cut") + (a.kind == T_CUT_CIPHER || a.kind == T_FLIP || a.kind == T_RECS_SEG ? 0 : 1); else { size_t at[] = {1, 5, 30, n - 1}; a.cut = at[choose(4, C_FREE, "cut")]; } }
      }
      Guard g; srv.acts.push_back(a);
    }
    if (q.recv_max) net_opts.recv_max = q.recv_max; if (q.sndbuf) net_opts.sndbuf = q.sndbuf;
    srv.start(); std::string text;
    { std::unique_ptr<HttpsClient> cl; { AsLib al; cl.reset(new HttpsClient(iqnet::Inet_addr("127.0.0.1", 3000))); if (tmo) cl->set_timeout(TlsSrv::TMO_S()); cl->set_keep_alive(keep); }
      bool conn_ok = true;
      for (int i = 0; i < q.calls && !violated(); i++) {
        long long t0 = now_ms(); Got r; { AsLib al; r = call_no(*cl, i + 1, q.pad); }
        Guard g; if (r.timeout && now_ms() - t0 < (tmo ? TlsSrv::TMO_S() * 1000 : 1000000)) violation("early-timeout", "call " + std::to_string(i + 1) + " timed out after " + std::to_string(now_ms() - t0) + " ms");
        const TAct& a = srv.acts[i]; std::string want = t_want(a, i + 1, q.rpad), who = "call " + std::to_string(i + 1) + " (peer: " + TN[a.kind] + ", TLS 1." + std::to_string(ver) + ")";
        int times = 0; for (auto& s : srv.seen) if (s.no == i + 1) times++;
        if (times > 1) violation("sent-twice", who + " was sent " + std::to_string(times) + " times");
        if (r.ok && r.text != want) violation("wrong-reply", who + " returned " + r.text + ", its reply was " + want);
        else if (r.ok && (need_t(a.kind) == NEVER || !times)) violation("no-reply", who + " returned " + r.text + " although the peer produced no such reply");
        else if (!r.ok && need_t(a.kind) == MUST && conn_ok) violation("failed", who + " failed although the peer replied correctly: " + r.text);
        judge_cause(r, conn_ok ? cause_t(a) : cause_t(a) + " network tls", who);
        if (conn_ok && tmo && (a.kind == T_LATE || a.kind == T_CUT_SILENT) && now_ms() - t0 > TlsSrv::TMO_S() * 1000 + 1000) violation("late-timeout", who + ": " + std::to_string(now_ms() - t0) + " ms");
        text += std::string(TN[a.kind]) + (r.ok ? ":ok " : ":err ");
        conn_ok = !keep || !r.ok || usable_t(a.kind); r = Got();
      }
      { Guard g; outcome(text); text = std::string(); }
      AsLib al; cl.reset(); }
    wait_idle(); srv.stop(); }
  net_opts = NetOpts();
  if (!violated()) end_world("client");
}
// the server's side of the handshake ends, is damaged or pauses at every byte; the next call meets a healthy server
void c26_client_hs(int mode) {
  tls_reset();
  int ver = 2 + choose(2, C_FREE, "version"); long n = len_cli[ver].server_hs; long at = choose((int)n, C_FREE, "position"); int how = mode == 1 ? choose(3, C_FREE, "ending") : 0; bool keep = choose(2, C_FREE, "keep-alive");
  { TlsSrv srv(ver); srv.keep = keep;
    srv.on_conn = [&](TlsEnd& t, int k) { if (k > 1) return; TlsEnd* p = &t; if (mode == 0) { t.cut = at; t.at_cut = [] { sleep_ms(1000); }; } if (mode == 1) { t.limit = at; t.at_limit = [p, how] { if (how < 2) { wait_idle(); p->close(how == 1); } }; } if (mode == 2) { t.flip = at; t.flip_bit = 0; } };
    srv.start();
    { std::unique_ptr<HttpsClient> cl; { AsLib al; cl.reset(new HttpsClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_timeout(TlsSrv::TMO_S()); cl->set_keep_alive(keep); }
      for (int i = 1; i <= 2 && !violated(); i++) {
        Got r; { AsLib al; r = call_no(*cl, i); }
        Guard g; std::string want = "result \"" + text_of(i) + "\"";
        if (r.ok && r.text != want) violation("wrong-reply", "call " + std::to_string(i) + ": " + r.text);
        if (!r.ok && (mode == 0 || i == 2)) violation("failed", "call " + std::to_string(i) + ": " + r.text);
        if (mode == 1 && i == 1 && how == 2 && !r.ok && !r.timeout) violation("failed", "silent handshake ended with " + r.text);
        judge_cause(r, mode == 2 ? "network tls timeout" : how == 2 ? "timeout" : "network tls", "call " + std::to_string(i));
        outcome(r.ok ? "ok" : r.text.substr(0, 60)); r = Got();
      }
      AsLib al; cl.reset(); }
    wait_idle(); srv.stop(); }
  if (!violated()) end_world("client");
}
}  // namespace

void c26(Driver& D) {
  bool q = D.quick(), asan = D.is("asan"); auto& S = D.scenarios;
  D.assumptions = {"OpenSSL itself is trusted; its random numbers are replaced by a fixed sequence, session caching is off", "Ed25519 certificates, TLS 1.2 and 1.3"};
  int st = accounting || asan ? 5 : 1;
  S.push_back(mk("requests", "11 request sequences in 6 record sizes over 4 transports, serial and pool, TLS 1.2 and 1.3", [] { c26_requests(); }));
  S.push_back(mk("cut", "the client's bytes arrive in two parts, cut at every byte; another client is served in between", [st] { c26_server(0, st); }));
  S.push_back(mk("end", "the client closes, resets or falls silent at every byte", [st] { c26_server(1, st); }));
  S.push_back(mk("damage", "one bit of every byte damaged", [st] { c26_server(2, st); }));
  S.push_back(mk("garbage", "something else than TLS before or in a session", [] { c26_garbage(); }));
  S.push_back(mk("goodbye", "sessions ended properly or not, around a request", [] { c26_goodbye(); }));
  TSeq t;
  t = TSeq(); t.calls = 3; S.push_back(mk("peer-3", "three calls of the client, the first two meet any of " + std::to_string((int)NTK) + " behaviours of the server", [t] { c26_client(t); }));
  t = TSeq(); t.calls = 2; t.all_cuts = true; t.first = T_CUT_CN; t.last = T_CUT_CIPHER + 1; S.push_back(mk("reply-cuts", "the reply cut at every byte", [t] { c26_client(t); }));
  t = TSeq(); t.calls = 2; t.all_cuts = true; t.first = T_FLIP; t.last = T_RECS_SEG + 1; S.push_back(mk("reply-damage", "every byte of the reply damaged, records of every size", [t] { c26_client(t); }));
  t = TSeq(); t.calls = 3; t.recv_max = 1; t.last = T_LATE; t.tmo = false; S.push_back(mk("peer-3-recv1", "the same with reads of one byte", [t] { c26_client(t); }));
  t = TSeq(); t.calls = 2; t.sndbuf = 200; t.pad = 500; t.rpad = 3000; t.last = T_LATE; t.tmo = false; S.push_back(mk("window", "large requests and replies through a window of 200 bytes", [t] { c26_client(t); }));
  for (int m = 0; m < 3; m++) { static const char* N[] = {"handshake-pause", "handshake-end", "handshake-damage"}; S.push_back(mk(N[m], "the server's handshake at every byte", [m] { c26_client_hs(m); })); }
  if (!asan && !accounting) {
    S.push_back(mk("threads-serial", "two clients in threads, scheduling deviations", [] { c26_threads(0, 2, 1); }, Budget().tot(q ? 2 : 3).set(C_PREEMPT, q ? 2 : 3).set(C_SWITCH, 2)));
    S.push_back(mk("threads-pool", "two clients in threads and two workers, scheduling deviations", [] { c26_threads(2, 2, 1); }, Budget().tot(q ? 1 : 2).set(C_PREEMPT, q ? 1 : 2).set(C_SWITCH, 1)));
    Both b;
    S.push_back(mk("both-recv", "library on both sides, every short read", [b] { net_opts.recv_split = 2; c26_both(b); }, Budget().tot(1).set(C_IO, 1)));
    S.push_back(mk("both-send", "library on both sides, every short write", [b] { net_opts.send_split = 2; c26_both(b); }, Budget().tot(1).set(C_IO, 1)));
    b.pad = 40000; S.push_back(mk("both-big", "library on both sides, large call through a small window", [b] { net_opts.sndbuf = 3000; net_opts.recv_split = net_opts.send_split = 1; c26_both(b); }, Budget().tot(1).set(C_IO, 1)));
  }
  Both f; f.calls = 3; S.push_back(mk("both-fault", "library on both sides, transport faults", [f] { net_opts.recv_fault = net_opts.send_fault = net_opts.socket_fault = net_opts.fcntl_fault = net_opts.accept_fault = true; c26_both(f); }, Budget().tot(q ? 2 : 3).set(C_FAULT, q ? 2 : 3)));
}

#include "tls_more.h"
#include "tls_rules.h"

int main(int argc, char** argv) {
  tls_world();
  for (int v = 2; v <= 3; v++) {
    std::string r1 = rq_echo(1), r2 = rq_echo(2, false);
    in_memory(W().cl, lib_ctx(), v, {r1}, {r1});
    len_srv[v] = in_memory(W().cl, lib_ctx(), v, {r1, r2}, {r1, r1});
    len_srv_cert[v] = in_memory(W().cl_cert, lib_ctx(), v, {r1, r2}, {r1, r1}, true);
    len_srv_chain[v] = in_memory(W().cl_chain, lib_ctx(), v, {r1, r2}, {r1, r1}, true);
    len_cli[v] = in_memory(lib_ctx(), W().sv, v, {r1}, {r1});
  }
  return driver_main(argc, argv, [](Driver& D) {
    accounting = D.property == "C15";
    other_kind = [](const std::exception& e) -> const char* { return dynamic_cast<const iqnet::ssl::exception*>(&e) ? "tls" : "other"; };
    judge_why = D.property == "C30";
    if (D.property == "C26") { c26(D); c26_more(D); }
    // the same over TLS as in the other harnesses over plain HTTP
    static const std::map<std::string, std::vector<std::string>> SHARED = {
      {"C07", {"cut", "requests"}}, {"C08", {"requests", "goodbye", "both-send", "both-big"}}, {"C09", {"requests", "rules-1", "rules-2"}}, {"C10", {"rules-1", "rules-2"}}, {"C11", {"requests", "rules-2"}}, {"C12", {"rules-1", "rules-2"}}, {"C13", {"wall"}}, {"C16", {"requests", "rules-2"}},
      {"C18", {"stop"}}, {"C31", {"rules-1", "rules-2", "wall"}},
      {"C14", {"end", "damage", "garbage", "goodbye"}}, {"C19", {"requests", "threads-pool"}},
      {"C22", {"peer-3", "reply-cuts", "reply-damage", "window", "handshake-end", "both-recv", "both-fault", "tunnel-proxy-2", "tunnel-peer"}},
      {"C23", {"peer-3", "handshake-pause", "handshake-end", "tunnel-proxy-2"}}, {"C30", {"peer-3", "handshake-end", "handshake-damage", "tunnel-proxy-2", "tunnel-proxy-3", "tunnel-peer"}}};
    auto sh = SHARED.find(D.property);
    if (sh != SHARED.end()) {
      auto& S = D.scenarios; c26(D); c26_more(D); size_t n = S.size(); c28(D); for (size_t i = n; i < S.size(); i++) S[i].name = "tunnel-" + S[i].name;
      S.erase(std::remove_if(S.begin(), S.end(), [&](const Scenario& s) { return std::find(sh->second.begin(), sh->second.end(), s.name) == sh->second.end(); }), S.end());
      for (auto& s : S) s.name = "tls-" + s.name;
    }
    if (D.property == "C15") {
      c26(D); static const std::vector<std::string> keep = {"requests", "end", "garbage", "goodbye", "peer-3", "handshake-end", "both-fault"};
      auto& S = D.scenarios; S.erase(std::remove_if(S.begin(), S.end(), [&](const Scenario& s) { return std::find(keep.begin(), keep.end(), s.name) == keep.end(); }), S.end());
      size_t n = S.size(); c28(D); S.erase(std::remove_if(S.begin() + n, S.end(), [&](const Scenario& s) { return s.name != "proxy-2" && s.name != "peer"; }), S.end());
      for (size_t i = 0; i < S.size(); i++) S[i].name = (i < n ? "tls-" : "tunnel-") + S[i].name;
    }
    if (D.property == "C27") c27(D);
    if (D.property == "C28") c28(D);
    if (D.property == "C33") c33_tls(D);
  });
}
