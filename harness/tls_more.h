// C27 verification of certificates, C28 HTTPS through a proxy. Included by tls.cc.
#pragma once

namespace {
// ---- C27 --------------------------------------------------------------------------------------------------
enum { V_NONE, V_ACCEPT, V_REJECT, V_PREV, V_THROW, FEWV, V_THROW_ODD = FEWV, V_BY_NAME, V_NOT_AUTHORITY, V_NOT_MEMBER, NV };
const char* VN[] = {"no verifier", "accepting verifier", "rejecting verifier", "verifier that follows the library's finding", "verifier that throws", "verifier that throws something odd", "verifier that knows one name", "verifier that rejects the authority", "verifier that rejects the member"};
const char* CERT[] = {"no certificate", "own certificate", "another certificate", "a certificate signed by an authority"};
int decide(int v, bool prev, const std::string& name, const std::string& good) { return v == V_ACCEPT ? 1 : v == V_REJECT ? 0 : v == V_PREV ? prev : v == V_THROW ? 2 : v == V_THROW_ODD ? 3 : v == V_NOT_AUTHORITY ? name != "authority" : v == V_NOT_MEMBER ? name != "member" : name == good ? 1 : 0; }
// a peer is accepted if each of its certificates is
bool accepts(int v, const std::string& name, const std::string& good, bool trusted) {
  bool chain = name == "member";
  return v == V_NONE || (decide(v, chain && trusted, name, good) == 1 && (!chain || decide(v, trusted, "authority", good) == 1));
}
// the certificates are self-signed: the names they carry
std::string cn_of(SSL_CTX* c) { Guard g; char b[200] = ""; X509* x = c ? SSL_CTX_get0_certificate(c) : nullptr; if (x) X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, b, sizeof b); return b; }

struct VOpt { int conns = 2; bool cuts = false; size_t recv_max = 0; bool resume = false, few = false; };
// the server under test and raw clients, each with its own verifier setting and certificate
void c27_server(const VOpt& q) {
  tls_reset();
  int threads = choose(2, C_FREE, "pool"); int ver = 2 + choose(2, C_FREE, "version");
  if (q.recv_max) net_opts.recv_max = q.recv_max;
  std::vector<std::unique_ptr<Verif>> vs; SSL_SESSION* sess = nullptr; int ran = 0;
  { Box b(threads, 3000, true, true); b.start(); int base = lib_fds();
    for (int k = 0; k < q.conns && !violated(); k++) {
      int v = choose(q.few ? FEWV : NV, C_FREE, "verifier"), req = choose(2, C_FREE, "required"), cert = choose(4, C_FREE, "certificate"), tr = v != V_NONE && cert == 3 ? choose(2, C_FREE, "trusted") : 0;
      trust(tr); SSL_CTX* cc = cert == 0 ? W().cl : cert == 1 ? W().cl_cert : cert == 2 ? W().cl_other : W().cl_chain; std::string name = cn_of(cert ? cc : nullptr), good = cn_of(W().cl_cert);
      Verif* vf = nullptr;
      { Guard g; vs.emplace_back(new Verif); vf = vs.back().get(); vf->rule = [v, good](bool p, const std::string& n) { return decide(v, p, n, good); }; }
      iqnet::ssl::ctx->verify_client(req, v == V_NONE ? nullptr : vf);
      bool allowed = v == V_NONE || (cert == 0 ? !req : accepts(v, name, good, tr));
      std::string who; { Guard g; who = "connection " + std::to_string(k + 1) + " (" + VN[v] + (req ? ", required" : "") + ", client with " + CERT[cert] + ", TLS 1." + std::to_string(ver) + ")"; }
      TConn c; if (q.cuts) { long n = (cert == 3 ? len_srv_chain : cert ? len_srv_cert : len_srv)[ver].client; c.t.cut = choose((int)n - 1, C_FREE, "cut") + 1; c.t.at_cut = [] { wait_idle(); }; }
      c.open(3000); c.t.init(cc, c.fd, false, ver); bool resumed = false;
      if (sess) { Guard g; SSL_set_session(c.t.s, sess); }
      bool up = c.t.handshake(); Exp e = x_echo(10 + k, true);
      { Guard g; resumed = up && SSL_session_reused(c.t.s); }
      if (up) { c.send(e.text); c.wait(1); wait_idle(); c.drain(); }
      { Guard g; int now = (int)L().calls.size(); bool executed = now != ran; ran = now; bool replied = !c.rd.out.empty();
      if (!allowed && executed) violation("executed", who + ": a method was executed");
      else if (!allowed && !c.rd.out.empty()) violation("reply", who + ": got " + c.rd.text());
      else if (!allowed && !c.rd.buf.empty()) violation("reply", who + ": got " + esc(c.rd.buf, 60));
      else if (!allowed && !c.gone()) violation("kept", who + ": the connection stays open");
      // a client may try to resume a session: that may be refused where certificates are verified
      else if (allowed && !sess && (!executed || !replied || c.rd.out[0].rpc() != e.rpc)) violation("refused", who + ": the call was not served: " + c.rd.text() + c.t.err);
      else if (v != V_NONE && cert && !vf->asked && !(sess && !up) && !(sess && !executed)) violation("not-asked", who + ": the verifier was not asked");
      else if (v != V_NONE && cert && !vf->seen.empty() && (cert == 3 ? allowed && std::find(vf->seen.begin(), vf->seen.end(), name) == vf->seen.end() : vf->seen[0] != name)) violation("not-asked", who + ": the verifier saw " + vf->seen[0]);
      outcome(std::string(up ? "up" : "down") + (executed ? " run" : "") + (replied ? " reply" : "") + (resumed ? " resumed" : "") + (allowed ? " allowed" : " denied"));
      if (q.resume && !sess && replied) sess = SSL_get1_session(c.t.s);
      e = Exp(); who = std::string(); name = good = std::string(); }
      if (q.resume && up && !c.eof) c.t.close_notify();   // otherwise the session cannot be resumed
      c.close(); wait_idle();
    }
    if (!violated()) { int now = lib_fds(); Guard g; if (now != base) violation("fd-leak", std::to_string(now - base) + " connection(s) not released"); if (live_ssl()) violation("tls-leak", "sessions not released"); }
    judge_server(b, "server"); b.stop(); b.destroy(); }
  { Guard g; if (sess) SSL_SESSION_free(sess); vs.clear(); vs.shrink_to_fit(); }
  net_opts = NetOpts(); iqnet::ssl::ctx->verify_client(false, nullptr);
  if (!violated()) end_world("server"); reset_log();
}

// the client under test and raw servers
void c27_client(int calls, bool reneg, size_t recv_max, bool cuts, bool few = false) {
  tls_reset();
  int ver = reneg ? 2 : 2 + choose(2, C_FREE, "version"); bool keep = choose(2, C_FREE, "keep-alive");
  if (recv_max) net_opts.recv_max = recv_max;
  std::vector<std::unique_ptr<Verif>> vs; std::vector<int> vk, sc, tk; std::string good = cn_of(W().sv);
  { TlsSrv srv(ver); srv.keep = keep;
    for (int i = 0; i < calls; i++) { int v = choose(few ? FEWV : NV, C_FREE, "verifier"), c = choose(3, C_FREE, "server-certificate"), t = v != V_NONE && c == 2 ? choose(2, C_FREE, "trusted") : 0; Guard g; tk.push_back(t); vk.push_back(v); sc.push_back(c); TAct a; if (reneg && i == 0) a.kind = T_RENEG_OTHER; srv.acts.push_back(a); }
    long cut = cuts ? 1 + choose((int)len_cli[ver].server_hs - 1, C_FREE, "cut") : 0;
    int cur = 0;
    srv.on_conn = [&](TlsEnd& t, int) { if (cut) { t.cut = cut; t.at_cut = [] { wait_idle(); }; } Guard g; if (reneg) SSL_set_options(t.s, SSL_OP_NO_TICKET | SSL_OP_NO_SESSION_RESUMPTION_ON_RENEGOTIATION); if (sc[cur]) { SSL_CTX* o = sc[cur] == 2 ? W().sv_chain : W().sv_other; SSL_use_certificate(t.s, SSL_CTX_get0_certificate(o)); SSL_use_PrivateKey(t.s, SSL_CTX_get0_privatekey(o)); if (sc[cur] == 2) SSL_add1_chain_cert(t.s, W().authority); } };
    srv.start(); int conns = 0; int conn_v = 0, conn_c = 0, conn_t = 0;
    { std::unique_ptr<HttpsClient> cl; { AsLib al; cl.reset(new HttpsClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); }
      for (int i = 0; i < calls && !violated(); i++) {
        cur = i; Verif* vf; { Guard g; int v = vk[i]; vs.emplace_back(new Verif); vf = vs.back().get(); vf->rule = [v, good](bool p, const std::string& n) { return decide(v, p, n, good); }; }
        trust(tk[i]); iqnet::ssl::ctx->verify_server(vk[i] == V_NONE ? nullptr : vf);
        Got r; { AsLib al; r = call_no(*cl, i + 1); }
        Guard g; bool fresh = srv.conns != conns; conns = srv.conns; if (fresh) { conn_v = vk[i]; conn_c = sc[i]; conn_t = tk[i]; }
        std::string name = cn_of(conn_c == 2 ? W().sv_chain : conn_c ? W().sv_other : W().sv); bool allowed = accepts(conn_v, name, good, conn_t);
        int times = 0; for (auto& s : srv.seen) if (s.no == i + 1) times++;
        bool swapped = reneg && i == 0 && srv.renegotiated;   // the server showed the other certificate before it replied
        if (swapped) { name = cn_of(W().sv_other); allowed = allowed && accepts(conn_v, name, good, false); }
        std::string who = "call " + std::to_string(i + 1) + " (" + VN[conn_v] + ", server shows '" + name + "', TLS 1." + std::to_string(ver) + ")";
        std::string saw; for (auto& x : vf->seen) saw += x + " "; if (!allowed && r.ok) violation("reply", who + " returned " + r.text + "; verifier saw " + saw);
        else if (!allowed && times && !swapped) violation("sent", who + ": the call was sent to the server");
        else if (allowed && !r.ok && !(reneg && i == 0)) violation("refused", who + " failed: " + r.text);
        else if (allowed && r.ok && r.text != "result \"" + text_of(i + 1) + "\"") violation("wrong-reply", who + ": " + r.text);
        else if (fresh && conn_v != V_NONE && !vf->asked) violation("not-asked", who + ": the verifier was not asked");
        outcome(std::string(fresh ? "fresh " : "kept ") + (r.ok ? "ok" : "refused") + (swapped ? " swapped" : "")); r = Got();
      }
      AsLib al; cl.reset(); }
    wait_idle(); srv.stop(); }
  { Guard g; vs.clear(); vs.shrink_to_fit(); vk = sc = tk = std::vector<int>(); good = std::string(); }
  net_opts = NetOpts(); iqnet::ssl::ctx->verify_server(nullptr);
  if (!violated()) end_world("client");
}
// the fingerprints of many certificates, judged one after another by one verifier: the last two bytes of the signature vary
void c27_fingers() {
  int hi = choose(256, C_FREE, "byte"); Verif v; int n = 0;
  { Guard g; v.rule = [](bool p, const std::string&) { return p; }; }
  std::string der; { Guard g; X509* x = SSL_CTX_get0_certificate(W().sv); unsigned char* d = nullptr; int l = i2d_X509(x, &d); der.assign((char*)d, l); OPENSSL_free(d); }
  for (int lo = 0; lo < 256 && !violated(); lo++) {
    X509* x; X509_STORE_CTX* c;
    { Guard g; der[der.size() - 2] = (char)hi; der[der.size() - 1] = (char)lo; const unsigned char* p = (const unsigned char*)der.data(); x = d2i_X509(nullptr, &p, der.size()); c = X509_STORE_CTX_new(); X509_STORE_CTX_init(c, nullptr, x, nullptr); X509_STORE_CTX_set_current_cert(c, x); }
    bool prev = lo & 1; int r = v.verify(prev, c); n++;
    Guard g; if (r != (int)prev) violation("decision", "the verifier said " + std::to_string(prev) + ", the session was told " + std::to_string(r));
    X509_STORE_CTX_free(c); X509_free(x);
  }
  Guard g; if (v.asked != n) violation("asked", "the verifier was asked " + std::to_string(v.asked) + " times of " + std::to_string(n)); der = std::string(); outcome("fingerprints");
}
// the library on both sides
void c27_both() {
  tls_reset();
  int threads = choose(2, C_FREE, "pool"); bool keep = choose(2, C_FREE, "keep-alive"); int vsv = choose(NV, C_FREE, "verifier-of-server"), vcl = choose(NV, C_FREE, "verifier-of-client"), req = choose(2, C_FREE, "required");
  Verif a, c; std::string good = cn_of(W().sv); { Guard g; a.rule = [&](bool p, const std::string& n) { return decide(vsv, p, n, good); }; c.rule = [&](bool p, const std::string& n) { return decide(vcl, p, n, good); }; }
  { Box b(threads, 3000, true, true); b.start();
    iqnet::ssl::ctx->verify_client(req, vsv ? &a : nullptr); iqnet::ssl::ctx->verify_server(vcl ? &c : nullptr);
    bool oks = accepts(vsv, good, good, false), okc = accepts(vcl, good, good, false);
    { std::unique_ptr<HttpsClient> cl; { AsLib al; cl.reset(new HttpsClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); }
      for (int i = 1; i <= 2 && !violated(); i++) {
        Got r; { AsLib al; r = call_no(*cl, i); } wait_idle();
        Guard g; std::string who = std::string("server with ") + VN[vsv] + ", client with " + VN[vcl]; int ran = (int)L().calls.size();
        if (oks && okc) { if (!r.ok || r.text != "result i4:" + std::to_string(i)) violation("refused", who + ": " + r.text); if (ran != i) violation("calls", who + ": " + calls_text()); }
        else { if (r.ok) violation("reply", who + ": call returned " + r.text); if (ran) violation("executed", who + ": " + calls_text()); }
        outcome(r.ok ? "ok" : "refused"); r = Got();
      }
      AsLib al; cl.reset(); }
    wait_idle(); judge_server(b, "both"); b.stop(); b.destroy(); }
  iqnet::ssl::ctx->verify_client(false, nullptr); iqnet::ssl::ctx->verify_server(nullptr);
  { Guard g; good = std::string(); }
  if (!violated()) end_world("both"); reset_log();
}

// ---- C28 --------------------------------------------------------------------------------------------------
enum { P_OK, P_OK11, P_OK_HEADERS, P_OK_LF, P_OK_PHRASE, P_OK_LONG, P_OK_LENGTH, P_OK_BARE, P_MUST,   // until here the tunnel is there
       P_204 = P_MUST, P_403, P_407, P_502, P_301, P_GARBAGE, P_BINARY, P_EMPTY, P_RESET, P_500BODY, P_403_BARE, P_403_BLANK, P_NEG, P_NOCODE, P_CUT_CLOSE, P_CUT_RESET, P_CUT_SILENT, P_SILENT, P_OK_JUNK, NP };
const char* PN[] = {"200", "200 (1.1)", "200 with headers", "200 with bare line feeds", "200 with a long phrase", "200 with 65 KB of headers", "200 with a content length", "200 without phrase", "204", "403", "407", "502", "301", "garbage", "binary garbage", "closes", "resets", "500 with a body", "403 without phrase", "403 with a blank phrase", "negative code", "no code", "cut and closed", "cut and reset", "cut and silent", "silent", "200 with junk behind"};
std::string p_text(int k) {
  static const std::string ok = "HTTP/1.0 200 Connection established\r\n\r\n";
  switch (k) {
    case P_OK: case P_CUT_CLOSE: case P_CUT_RESET: case P_CUT_SILENT: return ok;
    case P_OK11: return "HTTP/1.1 200 OK\r\n\r\n";
    case P_OK_HEADERS: return "HTTP/1.1 200 Connection established\r\nProxy-agent: some/1.0\r\nVia: 1.1 proxy\r\nConnection: close\r\n\r\n";
    case P_OK_LF: return "HTTP/1.0 200 Connection established\n\n";
    case P_OK_PHRASE: return "HTTP/1.0 200 " + std::string(2000, 'x') + "\r\n\r\n";
    case P_OK_LONG: { std::string s = "HTTP/1.0 200 Connection established\r\nX-Fill: "; return s + std::string(65536 - s.size(), 'f') + "ffff\r\n\r\n"; }
    case P_OK_LENGTH: return "HTTP/1.0 200 Connection established\r\nContent-Length: 5\r\n\r\n";
    case P_OK_BARE: return "HTTP/1.1 200\r\n\r\n";
    case P_204: return "HTTP/1.1 204 No content\r\n\r\n";
    case P_403: return "HTTP/1.0 403 Forbidden\r\n\r\n";
    case P_407: return "HTTP/1.1 407 Proxy Authentication Required\r\nProxy-Authenticate: Basic realm=\"x\"\r\nContent-Length: 3\r\n\r\nabc";
    case P_502: return "HTTP/1.0 502 Bad gateway\r\n\r\n";
    case P_301: return "HTTP/1.0 301 Moved\r\nLocation: https://elsewhere/\r\n\r\n";
    case P_GARBAGE: return "what is this?\r\n\r\n";
    case P_BINARY: return std::string("\x15\x03\x01\x00\x02\x02\x28\r\n\r\n", 11);
    case P_500BODY: return "HTTP/1.0 500 Oops\r\nContent-Type: text/html\r\nContent-Length: 12\r\n\r\nhello world!";
    case P_403_BARE: return "HTTP/1.1 403\r\n\r\n";
    case P_403_BLANK: return "HTTP/1.1 403 \r\n\r\n";
    case P_NEG: return "HTTP/1.0 -200 OK\r\n\r\n";
    case P_NOCODE: return "HTTP/1.0 OK\r\n\r\n";
    case P_OK_JUNK: return ok + "junk in between";
  }
  return "";
}
struct PSeq { int calls = 2; bool vary_proxy = true, vary_peer = false, cuts = false; size_t recv_max = 0, sndbuf = 0; int first = 0, last = NP; bool name = false, loc = false; };
struct Loc { bool on; explicit Loc(int l) : on(l) { if (on) { Guard g; if (!lo::set(l)) { fprintf(stderr, "locale %s could not be set\n", lo::name(l)); abort(); } } } ~Loc() { if (on) { Guard g; lo::set(0); } } };
void c28_run(const PSeq& q) {
  tls_reset();
  Loc loc(q.loc ? 1 + choose(lo::COUNT - 1, C_FREE, "locale") : 0);
  int ver = 2 + choose(2, C_FREE, "version"); bool keep = choose(2, C_FREE, "keep-alive"), tmo = choose(2, C_FREE, "timeout"); int host = q.name ? choose(3, C_FREE, "target") : 0;
  static const char* HOST[] = {"127.0.0.1", "target.example", "A-Long-Name.Of-A-Host.Unknown.Here.Which.Has.More.Than.64.Characters.Example"}; static const int PORT[] = {3000, 443, 65535};
  net::add_host("target.example", "127.0.0.1"); net::add_host("proxy.example", "127.0.0.1");
  std::vector<int> pk; std::vector<size_t> pc; std::vector<std::string> clear; std::string early;
  if (q.recv_max) net_opts.recv_max = q.recv_max; if (q.sndbuf) net_opts.sndbuf = q.sndbuf;
  { TlsSrv srv(ver); srv.keep = keep;
    for (int i = 0; i < q.calls; i++) {
      bool last = i + 1 == q.calls; int k = last || !q.vary_proxy ? P_OK : q.first + choose(q.last - q.first, C_FREE, "proxy"); if ((k == P_SILENT || k == P_CUT_SILENT) && !tmo) k = P_EMPTY;
      size_t cut = 0; size_t n; { Guard g; n = p_text(k).size(); }
      if (k == P_CUT_CLOSE || k == P_CUT_RESET || k == P_CUT_SILENT) cut = choose((int)n, C_FREE, "cut"); else if (q.cuts && !last && n > 1 && n < 200) cut = 1 + choose((int)n - 1, C_FREE, "cut");
      TAct a; if (!last && q.vary_peer) { a.kind = choose(T_LATE + 1, C_FREE, "peer"); if ((a.kind == T_LATE || a.kind == T_FLIP) && !tmo) a.kind = T_GOOD; if ((a.kind == T_KEYUPD && ver == 2) || (a.kind == T_RENEG && ver == 3)) a.kind = T_GOOD; a.cut = 40; }
      Guard g; pk.push_back(k); pc.push_back(cut); srv.acts.push_back(a);
    }
    int cur = 0;
    // the proxy: reads the request in clear, answers; a TLS server stands behind it
    srv.before = [&](TlsSrv& s, int fd) {
      std::string buf; int k = pk[cur]; size_t cut = pc[cur];
      while (buf.find("\r\n\r\n") == std::string::npos) { std::string d = net::recv_some(fd); if (d.empty()) { net::close_fd(fd); Guard g; clear.push_back(buf); buf = std::string(); return false; } Guard g; buf += d; d = std::string(); }
      wait_idle(); bool more = !net::recv_would_block(fd);
      { Guard g; size_t e = buf.find("\r\n\r\n") + 4; if (more || buf.size() > e) early = buf.substr(e) + "..."; clear.push_back(buf.substr(0, e)); buf = p_text(k); }
      bool go = k < P_MUST || k == P_OK_JUNK || k == P_204;
      if (k == P_SILENT) {}
      else if (k == P_EMPTY) { net::close_fd(fd); fd = -1; }
      else if (k == P_RESET) { net::reset(fd); fd = -1; }
      else if (k == P_CUT_CLOSE || k == P_CUT_RESET || k == P_CUT_SILENT) { { Guard g; buf.resize(cut); } if (cut) net::send_all(fd, buf); if (k == P_CUT_CLOSE) { net::close_fd(fd); fd = -1; } if (k == P_CUT_RESET) { wait_idle(); net::reset(fd); fd = -1; } }
      else { std::string a; { Guard g; a = buf.substr(0, cut); buf.erase(0, cut); } if (!a.empty()) { net::send_all(fd, a); wait_idle(); } net::send_all(fd, buf); Guard g; a = std::string(); }
      { Guard g; buf = std::string(); }
      // nothing may follow where the proxy has not agreed
      if (!go && fd >= 0) { s.wait_fd(fd); std::string d; if (!net::recv_would_block(fd)) d = net::recv_some(fd); { Guard g; if (!d.empty()) early = d; d = std::string(); } net::close_fd(fd); }
      return go;
    };
    srv.start();
    { std::unique_ptr<HttpsClient> cl;
      { AsLib al; cl.reset(new HttpsClient(iqnet::Inet_addr(HOST[host], PORT[host]))); cl->set_proxy(iqnet::Inet_addr(host ? "proxy.example" : "127.0.0.1", 3000)); cl->set_keep_alive(keep); if (tmo) cl->set_timeout(TlsSrv::TMO_S()); cl->set_authinfo("secretuser", "secretpass"); iqxmlrpc::XHeaders h; h["X-Secret"] = "secretheader"; cl->set_xheaders(h); }
      bool conn_ok = true; std::string text; size_t conns = 0;
      for (int i = 0; i < q.calls && !violated(); i++) {
        cur = i; long long t0 = now_ms(); Got r; { AsLib al; r = call_no(*cl, i + 1); }
        Guard g; int k = pk[i]; const TAct& a = srv.acts[i]; bool fresh = clear.size() != conns; conns = clear.size();
        std::string who = "call " + std::to_string(i + 1) + " (proxy: " + PN[k] + (pc[i] ? " cut at " + std::to_string(pc[i]) : "") + ", server: " + TN[a.kind] + ", TLS 1." + std::to_string(ver) + ")", want = t_want(a, i + 1, 0);
        int times = 0; for (auto& s : srv.seen) if (s.no == i + 1) times++;
        Need nd = !fresh ? need_t(a.kind) : k < P_MUST ? need_t(a.kind) : k == P_204 || k == P_OK_JUNK ? (need_t(a.kind) == NEVER ? NEVER : MAY) : NEVER;
        if (k == P_OK_BARE || k == P_OK_LF) if (fresh && nd == MUST) nd = MAY;
        if (!early.empty()) violation("early", who + ": the client went on before the proxy had agreed");
        if (times > 1) violation("sent-twice", who);
        if (r.ok && r.text != want) violation("wrong-reply", who + " returned " + r.text);
        else if (r.ok && (nd == NEVER || !times)) violation("no-reply", who + " returned " + r.text);
        else if (!r.ok && nd == MUST && conn_ok) violation("failed", who + ": " + r.text);
        if (r.timeout && (!tmo || now_ms() - t0 < TlsSrv::TMO_S() * 1000)) violation("early-timeout", who + " timed out after " + std::to_string(now_ms() - t0) + " ms");
        if (!r.timeout && fresh && (k == P_SILENT || k == P_CUT_SILENT)) violation("no-timeout", who + ": " + r.text);
        { std::string cause = cause_t(a); int code = 0;
          if (fresh) switch (k) {
            case P_403: code = 403; break; case P_407: code = 407; break; case P_502: code = 502; break; case P_301: code = 301; break; case P_500BODY: code = 500; break;
            case P_204: case P_OK_LF: case P_OK_BARE: cause += " http protocol"; break;
            case P_GARBAGE: case P_BINARY: case P_NOCODE: cause = "protocol"; break;
            case P_403_BARE: case P_403_BLANK: cause = "protocol http"; break;
            case P_NEG: cause = "protocol http"; break;
            case P_EMPTY: case P_RESET: case P_CUT_CLOSE: case P_CUT_RESET: cause = "network"; break;
            case P_SILENT: case P_CUT_SILENT: cause = "timeout"; break;
          }
          if (code) cause = "http";
          judge_cause(r, conn_ok || fresh ? cause : cause + " network tls", who);
          if (judge_why && code && !r.ok && r.code != code) violation("status", who + ": the caller was told " + std::to_string(r.code)); }
        for (auto& c : clear) {
          std::string l = c.substr(0, c.find("\r\n")), t = std::string("CONNECT ") + HOST[host] + ":" + std::to_string(PORT[host]) + " HTTP/1.";
          if (l != t + "0" && l != t + "1") violation("connect", who + ": the proxy was asked '" + esc(l) + "'");
          std::string low = c; for (auto& ch : low) ch = tolower(ch);
          for (const char* s : {"secret", "authorization", "methodcall", "c2vjcmv0dxnlc", "post "}) if (low.find(s) != std::string::npos) violation("clear", who + ": the proxy was sent " + esc(c, 300));
        }
        for (auto& s : srv.seen) if (s.no == i + 1 && (s.raw.find("c2VjcmV0dXNlcjpzZWNyZXRwYXNz") == std::string::npos || s.raw.find("secretheader") == std::string::npos)) violation("request", who + ": credentials or headers missing behind the proxy: " + esc(s.raw, 300));
        text += std::string(r.ok ? "ok" : r.timeout ? "timeout" : "err") + (fresh ? "/new " : "/kept ");
        conn_ok = !keep || !r.ok || usable_t(a.kind); r = Got();
      }
      { Guard g; outcome(text); text = std::string(); }
      AsLib al; cl.reset(); }
    wait_idle(); srv.stop(); }
  { Guard g; pk = std::vector<int>(); pc = std::vector<size_t>(); clear = std::vector<std::string>(); early = std::string(); }
  net_opts = NetOpts();
  if (!violated()) end_world("client");
}
}  // namespace

void c27(Driver& D) {
  bool q = D.quick(); auto& S = D.scenarios;
  D.assumptions = {"OpenSSL itself is trusted; its random numbers are replaced by a fixed sequence", "Ed25519 self-signed certificates, TLS 1.2 and 1.3"};
  VOpt v;
  v.conns = q ? 2 : 3; S.push_back(mk("server", "clients one after another, each with any verifier setting and certificate", [v] { c27_server(v); }));
  v = VOpt(); v.conns = 1; v.few = q; v.cuts = true; S.push_back(mk("server-cuts", "the client's bytes cut at every place", [v] { c27_server(v); }));
  v = VOpt(); v.conns = 2; v.few = true; v.recv_max = 1; S.push_back(mk("server-recv1", "reads of one byte", [v] { c27_server(v); }));
  v = VOpt(); v.conns = 2; v.few = true; v.resume = true; S.push_back(mk("server-resume", "a later client tries to resume the session of an earlier one", [v] { c27_server(v); }));
  S.push_back(mk("client", "calls one after another, each with any verifier setting and server certificate", [q] { c27_client(q ? 2 : 3, false, 0, false); }));
  S.push_back(mk("client-cuts", "the server's handshake cut at every place", [q] { c27_client(1, false, 0, true, q); }));
  S.push_back(mk("client-recv1", "reads of one byte", [] { c27_client(2, false, 1, false, true); }));
  S.push_back(mk("client-renegotiation", "the server shows another certificate in the middle of the session", [] { c27_client(2, true, 0, false); }));
  S.push_back(mk("both", "library on both sides, all pairs of verifiers", [] { c27_both(); }));
  S.push_back(mk("fingers", "the fingerprint of 65536 certificates", [] { c27_fingers(); }));
}
void c33_tls(Driver& D) {
  D.assumptions = {"OpenSSL itself is trusted; its random numbers are replaced by a fixed sequence"};
  PSeq p; p.calls = 2; p.name = true; p.loc = true; p.last = P_204; D.scenarios.push_back(mk("tunnel", "calls through a proxy's tunnel under each of " + std::to_string(lo::COUNT - 1) + " locales, three targets", [p] { c28_run(p); }));
}
void c28(Driver& D) {
  bool q = D.quick(); auto& S = D.scenarios;
  D.assumptions = {"OpenSSL itself is trusted; its random numbers are replaced by a fixed sequence"};
  PSeq p;
  p = PSeq(); p.calls = 2; S.push_back(mk("proxy-2", "two calls, the first meets any answer of the proxy (cut at every byte)", [p] { c28_run(p); }));
  p = PSeq(); p.calls = 3; p.last = q ? P_CUT_CLOSE : NP; S.push_back(mk("proxy-3", "three calls, two of them meet any answer", [p] { c28_run(p); }));
  p = PSeq(); p.calls = 2; p.cuts = true; p.last = P_CUT_CLOSE; S.push_back(mk("segments", "every answer in two parts, at every byte", [p] { c28_run(p); }));
  p = PSeq(); p.calls = 3; p.vary_proxy = false; p.vary_peer = true; S.push_back(mk("peer", "the server behind the proxy misbehaves", [p] { c28_run(p); }));
  p = PSeq(); p.calls = 2; p.recv_max = 1; p.last = P_CUT_CLOSE; S.push_back(mk("recv1", "reads of one byte", [p] { c28_run(p); }));
  p = PSeq(); p.calls = 2; p.sndbuf = 20; p.last = P_CUT_CLOSE; S.push_back(mk("window", "a window of 20 bytes", [p] { c28_run(p); }));
  p = PSeq(); p.calls = 2; p.name = true; p.last = P_CUT_CLOSE; S.push_back(mk("names", "targets given by address or name, resolvable here or not", [p] { c28_run(p); }));
}
