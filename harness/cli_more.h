// C23, C24 and C25 (included by cli.cc)
namespace {
// ---- C23: timeouts -----------------------------------------------------------------------------------
struct Tm { bool eintr = false; int window = 200; bool all_cuts = false; bool fast_first = false; };

void c23_run(const Tm& q) {
  reset_log();
  static const int TS[] = {1, 2, -1};
  int ti = TS[q.all_cuts ? 0 : choose(3, C_FREE, "timeout")]; int64_t T = ti > 0 ? ti * 1000 : -1;
  bool small = q.all_cuts || q.eintr, keep = !small && choose(2, C_FREE, "keep-alive"), proxy = !small && choose(2, C_FREE, "proxy"), refuse = !q.all_cuts && choose(2, C_FREE, "refuse");
  // delays before each step of the peer: connect, three reads of the request, two or three pieces of the reply
  const int NS = 7; int64_t d[NS] = {0}; bool stalled = false; int nz = 0;
  for (int i = 0; i < NS && !stalled; i++) {
    if (refuse && i) break;
    if (q.all_cuts && i < 4) continue;
    if (ti > 0) { static const int M[] = {0, -1, 1, 2}; int c = choose(4, C_FREE, "delay"); if (c) { d[i] = c == 3 ? 5 * T : T + M[c]; if (d[i] > T) stalled = true; nz++; } }
    else { int c = choose(3, C_FREE, "delay"); d[i] = c == 0 ? 0 : c == 1 ? 5000 : 86400000; }
  }
  std::string reply; { Guard g; reply = http_reply(result_xml(text_of(1)), keep ? "keep-alive" : "close"); }
  size_t hdr = reply.find("\r\n\r\n") + 4, c1, c2;
  if (q.all_cuts) { c1 = 1 + choose((int)reply.size() - 2, C_FREE, "cut"); c2 = std::max(c1 + 1, reply.size() - 1); }
  else { static const int K[][2] = {{10, 40}, {-2, 0}, {0, 10}}; int k = q.eintr || refuse ? 0 : choose(3, C_FREE, "cut"); c1 = k ? hdr + K[k][0] : 10; c2 = k ? hdr + K[k][1] : 40; }
  // reference: when does the call end
  int64_t t = 0, end = -1; bool want_tmo = false, want_err = false;
  for (int i = 0; i < NS; i++) {
    if (T >= 0 && d[i] > T) { want_tmo = true; end = t + T; break; }
    t += d[i];
    if (i == 0 && refuse) { want_err = true; end = t; break; }
  }
  if (end < 0) end = t;
  net_opts.connect_hold = true; net_opts.sndbuf = q.window; net_opts.poll_eintr = q.eintr;
  int lfd = net::tcp_listen("127.0.0.1", 3000);
  std::string got_req;
  int64_t base = now_ms();
  int p = spawn("peer", [&] {
    sleep_ms(d[0]); net::release_connects(refuse);
    if (refuse) return;
    // the client may have given up before: nothing to accept then
    int fd = net::tcp_accept(lfd, 0); if (fd < 0) return;
    auto rd = [&](size_t n) { std::string s = net::recv_some(fd, n); Guard g; bool ok = !s.empty(); got_req += s; s = std::string(); return ok; };
    bool ok = true;
    for (int i = 1; i <= 2 && ok; i++) { sleep_ms(d[i]); ok = rd(q.window); }
    if (ok) sleep_ms(d[3]);
    while (ok) { Seen s; bool full; { Guard g; std::string b = got_req; full = take_request(b, s); s = Seen(); } if (full) break; ok = rd(4096); }
    size_t at[] = {0, c1, c2, reply.size()};
    for (int i = 0; i < 3 && ok; i++) { sleep_ms(d[4 + i]); std::string s; { Guard g; s = reply.substr(at[i], at[i + 1] - at[i]); } ok = net::send_all(fd, s); Guard g; s = std::string(); }
    net::close_fd(fd);
  }, true);
  Got r;
  { AsLib al;
    iqnet::Inet_addr a("127.0.0.1", 3000);
    HttpClient cl(proxy ? iqnet::Inet_addr("10.0.0.9", 80) : a); if (proxy) cl.set_proxy(a); if (ti > 0) cl.set_timeout(ti); cl.set_keep_alive(keep);
    r = call_no(cl, 1, 1500);
  }
  join(p); net::close_fd(lfd);
  { Guard g; std::ostringstream o; for (auto x : d) o << x << " "; o << "ms before the steps, timeout " << ti << " s, cuts " << c1 << "," << c2 << (refuse ? ", refused" : "");
    int64_t took = r.t1 - base; std::string w = want_tmo ? "timeout" : want_err ? "an error" : "the reply";
    std::string have = r.ok ? "the reply" : r.timeout ? "timeout" : "an error";
    if (have != w || (r.ok && r.text != want_of(Act(), 1, 0))) violation("wrong-end", "expected " + w + " after " + std::to_string(end) + " ms, got " + (r.ok ? r.text : r.text) + " after " + std::to_string(took) + " ms; delays " + o.str());
    else if (took != end) violation("wrong-time", "expected " + w + " after " + std::to_string(end) + " ms, it came after " + std::to_string(took) + " ms; delays " + o.str());
    outcome(have + " " + std::to_string(took)); r = Got(); reply = std::string(); got_req = std::string(); }
  net_opts = NetOpts();
}
// the second call on a kept connection falls silent
void c23_second() {
  reset_log();
  int point = choose(4, C_FREE, "silent-at"); bool send_late = choose(2, C_FREE, "late"); int calls_before = 1 + choose(2, C_FREE, "before");
  { PeerSrv srv; int n = 0;
    srv.act = [&](Seen& s, PeerSrv::C& c) {
      std::string t; { Guard g; t = bytes_of(Act(), s.no, 0, true); } n++;
      if (n == calls_before + 1) { static const size_t at[] = {0, 20, 100, 150}; { Guard g; t.resize(at[point]); } if (!t.empty()) { sleep_ms(500); net::send_all(c.fd, t); } if (send_late) { sleep_ms(TMO * 1000 + 1); net::send_all(c.fd, "x"); } }
      else net::send_all(c.fd, t);
      Guard g; t = std::string();
    };
    srv.start();
    { std::unique_ptr<HttpClient> cl; { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_timeout(TMO); cl->set_keep_alive(true); }
      for (int i = 1; i <= calls_before + 2; i++) {
        sleep_ms(10000);                                        // idle time between calls does not count
        Got r; { AsLib al; r = call_no(*cl, i); }
        Guard g; bool silent = i == calls_before + 1; int64_t took = r.t1 - r.t0, want = silent ? TMO * 1000 + (point ? 500 : 0) : 0;
        if (silent ? !r.timeout : !r.ok) violation("wrong-end", "call " + std::to_string(i) + ": " + r.text);
        else if (took != want) violation("wrong-time", "call " + std::to_string(i) + " ended after " + std::to_string(took) + " ms instead of " + std::to_string(want));
        outcome(r.text); r = Got();
      }
      AsLib al; cl.reset(); }
    wait_idle(); srv.stop(); }
}
// the timeout is changed between calls
void c23_change() {
  reset_log();
  int seq[3]; for (int& x : seq) { static const int V[] = {-1, 1, 3}; x = V[choose(3, C_FREE, "timeout")]; }
  bool keep = choose(2, C_FREE, "keep-alive");
  { PeerSrv srv;
    srv.act = [&](Seen& s, PeerSrv::C& c) { std::string t; { Guard g; t = bytes_of(Act(), s.no, 0, keep); } sleep_ms(2000); net::send_all(c.fd, t); Guard g; t = std::string(); };
    srv.start();
    { std::unique_ptr<HttpClient> cl; { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); }
      for (int i = 0; i < 3; i++) {
        { AsLib al; cl->set_timeout(seq[i]); }
        Got r; { AsLib al; r = call_no(*cl, i + 1); }
        Guard g; bool tmo = seq[i] == 1; int64_t took = r.t1 - r.t0;
        // a serial peer answers the abandoned request first: up to one second more
        if (tmo ? !r.timeout || took != 1000 : !r.timeout && !r.ok) violation("wrong-end", "call " + std::to_string(i + 1) + " with timeout " + std::to_string(seq[i]) + ": " + r.text + " after " + std::to_string(took));
        if (!tmo && !r.ok && (seq[i] < 0 || took != seq[i] * 1000)) violation("wrong-end", "call " + std::to_string(i + 1) + " with timeout " + std::to_string(seq[i]) + ": " + r.text + " after " + std::to_string(took));
        outcome(r.text); r = Got();
      }
      AsLib al; cl.reset(); }
    wait_idle(); srv.stop(); }
}

// timeouts of weeks and more: a peer that answers after a while is waited for
void c23_huge() {
  reset_log();
  static const int TMOS[] = {86400, 2147482, 2147483, 2147484, 2150000, 4294967, 4294968, 4294970, 1000000000, 2147483647}; static const int64_t LATE_MS[] = {0, 1000, 5000, 3600000, 20 * 86400000ll};
  int tmo = TMOS[choose(10, C_FREE, "timeout")], at = choose(2, C_FREE, "slow-at"); int64_t late = LATE_MS[choose(tmo == 86400 ? 4 : 5, C_FREE, "late")]; bool keep = choose(2, C_FREE, "keep-alive");
  { PeerSrv srv;
    srv.act = [&](Seen& s, PeerSrv::C& c) {
      std::string t, a; { Guard g; t = bytes_of(Act(), s.no, 0, keep); if (at) { a = t.substr(0, 30); t.erase(0, 30); } }
      if (at) net::send_all(c.fd, a); if (late) sleep_ms(late); net::send_all(c.fd, t); Guard g; t = a = std::string(); };
    srv.start();
    { std::unique_ptr<HttpClient> cl; { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); cl->set_timeout(tmo); }
      for (int i = 1; i <= 2 && !violated(); i++) {
        Got r; { AsLib al; r = call_no(*cl, i); }
        Guard g; int64_t took = r.t1 - r.t0; std::string who = "call " + std::to_string(i) + " with a timeout of " + std::to_string(tmo) + " s answered after " + std::to_string(late) + " ms";
        if (!r.ok) violation("wrong-end", who + ": " + r.text + " after " + std::to_string(took) + " ms");
        else if (took != late) violation("wrong-time", who + " ended after " + std::to_string(took) + " ms");
        outcome(std::to_string(late)); r = Got();
      }
      AsLib al; cl.reset(); }
    wait_idle(); srv.stop(); }
}

// ---- C24: what is sent -----------------------------------------------------------------------------------
struct Cfg { int uri = 0, vhost = 0, by_name = 0, cred = 0, cx = 0, px = 0, proxy = 0, keep = 0, val = 0; };
typedef std::map<std::string, std::string> SM;
const std::string& LONG_URI = *new std::string("/" + std::string(2000, 'u'));
const char* URIS[] = {"/RPC", "/", "/a/b?c=d&e=%20f", "x/y", "/a#b", "/?", "/%00", "/RPC/", "//", "/a;b=c", "/%s%n", "/\"'", "*", "/~u/.x", "/RPC2", "/http://x/", "/a:80", "/\xc3\xa9", LONG_URI.c_str()};
const char* VHOSTS[] = {"", "other.example", "h", "127.0.0.1", "UPPER.example", "a-very-long-name.which.has.more.than.sixty.four.characters.in.its.parts.example", "[::1]", "x_y"};
struct Cred { std::string u, p; };
const Cred& cred(int i) { static const std::vector<Cred>& v = *new std::vector<Cred>{{"", ""}, {"joe", "secret"}, {"joe", ""}, {"joe", "a:b:"}, {std::string(70, 'u'), std::string(50, 'p')}, {"j\xc3\xb6", "\x01\xff "}, {"a", "b"}, {"ab", "c"}}; return v[i]; }
const int NCRED = 8;
const SM& cxh(int i) { static const std::vector<SM>& v = *new std::vector<SM>{{}, {{"X-A", "1"}}, {{"X-A", "1"}, {"x-Bee", "two words: yes"}}, {{"x-c", ""}}, {{"X-L", std::string(300, 'l')}}}; return v[i]; }
const int NCX = 5;
const SM& pxh(int i) { static const std::vector<SM>& v = *new std::vector<SM>{{}, {{"x-a", "9"}}, {{"X-C", "call"}, {"X-BEE", "z"}}}; return v[i]; }
const int NPX = 3;
iqxmlrpc::XHeaders mkxh(const SM& m) { iqxmlrpc::XHeaders x; for (auto& e : m) x[e.first] = e.second; return x; }
void fill(Param_list& p, int v) {
  switch (v) {
    case 0: p.push_back(Value(1)); break;
    case 1: break;
    case 2: p.push_back(Value(std::string("a<b>&\"c\"\xc3\xa9"))); p.push_back(Value(-7)); break;
    case 3: { iqxmlrpc::Struct s; s.insert("k", Value(true)); s.insert("m", Value(2.5)); p.push_back(Value(s)); iqxmlrpc::Array a; a.push_back(Value(int64_t(5000000000))); a.push_back(Value(iqxmlrpc::Nil())); p.push_back(Value(a)); break; }
    case 4: p.push_back(Value(std::string(3000, 'w'))); break;
  }
}
const int NVAL = 5;
std::string params_text(int v) { Guard g; Param_list p; fill(p, v); return show_params(p); }
std::string lower(std::string s) { for (auto& c : s) c = tolower(c); return s; }
SM want_xh(const Cfg& c) { SM m; for (auto& e : cxh(c.cx)) m[lower(e.first)] = e.second; for (auto& e : pxh(c.px)) m[lower(e.first)] = e.second; return m; }
std::string ref_b64(const std::string& s) {
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
  for (size_t i = 0; i < s.size(); i += 3) { unsigned n = 0; int k = 0; for (; k < 3; k++) n = n << 8 | (i + k < s.size() ? (unsigned char)s[i + k] : 0); size_t r = std::min<size_t>(3, s.size() - i); o += A[n >> 18]; o += A[n >> 12 & 63]; o += r > 1 ? A[n >> 6 & 63] : '='; o += r > 2 ? A[n & 63] : '='; }
  return o;
}
void judge_request(const Cfg& c, const Seen& s, int call) {
  std::string who = "request " + std::to_string(call) + ": ";
  std::string host = *VHOSTS[c.vhost] ? VHOSTS[c.vhost] : c.by_name ? "peer.example" : "127.0.0.1", hp = host + ":3000", u = URIS[c.uri];
  std::string target = c.proxy ? "http://" + hp + (u[0] == '/' ? "" : "/") + u : u;
  auto bad = [&](const std::string& what) { violation("request", who + what + "\n" + esc(s.raw, 600)); };
  if (!s.err.empty()) return bad(s.err);
  if (s.line != "POST " + target + " HTTP/1.0" && s.line != "POST " + target + " HTTP/1.1") return bad("request line " + s.line + ", configured " + target);
  auto has = [&](const char* n) { return s.h.count(n) > 0; }; auto val = [&](const char* n) { return has(n) ? s.h.at(n) : std::string("(none)"); };
  if (val("host") != hp) return bad("host " + val("host"));
  if (val("content-length") != std::to_string(s.body.size()) || s.body.empty()) return bad("content length " + val("content-length"));
  if (val("content-type").compare(0, 8, "text/xml")) return bad("content type " + val("content-type"));
  if ((lower(val("connection")) == "keep-alive") != (c.keep != 0)) return bad("connection " + val("connection"));
  const Cred& cr = cred(c.cred);
  if (cr.u.empty() ? has("authorization") : val("authorization") != "Basic " + ref_b64(cr.u + ":" + cr.p)) return bad("authorization " + val("authorization"));
  SM x; for (auto& e : s.h) if (e.first.compare(0, 2, "x-") == 0) x[e.first] = e.second;
  if (x != want_xh(c)) return bad("extra headers differ from the configured ones");
  RefDoc d = ref_request(s.body); Param_list p;
  std::string want = "call some.method("; fill(p, c.val); for (auto& v : p) want += show(from_lib(v)) + ","; want += ")"; const std::string& norm = d.text;
  if (d.verdict == RefDoc::INVALID) return bad("body: " + d.text);
  if (norm != want) return bad("body means " + norm + ", called " + want);
}
struct CfgSet { bool full = false; int calls = 1; };
void pick(Cfg& c, int what) {          // one setting changed
  switch (what) {
    case 0: c.cred = choose(NCRED, C_FREE, "credentials"); break;
    case 1: c.cx = choose(NCX, C_FREE, "client-headers"); break;
    case 2: c.px = choose(NPX, C_FREE, "call-headers"); break;
    case 3: c.keep = choose(2, C_FREE, "keep-alive"); break;
    case 4: c.proxy = 1; break;
    case 5: c.val = choose(NVAL, C_FREE, "parameters"); break;
  }
}
// all combinations in the first call, then single changes of settings between further calls; fixed = constructor settings
void c24_wire(int combos, int calls, int changes) {
  reset_log();
  Cfg c; 
  if (combos == 0) c.uri = choose(2, C_FREE, "uri"); else if (combos < 3) { c.uri = choose(4, C_FREE, "uri"); c.vhost = choose(2, C_FREE, "vhost"); c.by_name = choose(2, C_FREE, "by-name"); }
  if (combos == 3) { c.uri = choose(sizeof URIS / sizeof *URIS, C_FREE, "uri-kind"); c.vhost = choose(sizeof VHOSTS / sizeof *VHOSTS, C_FREE, "vhost-kind"); c.by_name = choose(2, C_FREE, "by-name"); c.proxy = choose(2, C_FREE, "proxy"); c.keep = choose(2, C_FREE, "keep"); }
  if (combos == 2) { pick(c, 0); pick(c, 1); pick(c, 2); pick(c, 3); c.proxy = choose(2, C_FREE, "proxy"); pick(c, 5); }
  net::add_host("peer.example", "127.0.0.1");
  { PeerSrv direct(3000), prox(3128); int nd = 0, np = 0;
    direct.act = [&](Seen& s, PeerSrv::C& k) { nd++; std::string t; { Guard g; t = http_reply(result_xml("d"), c.keep ? "keep-alive" : "close"); } net::send_all(k.fd, t); Guard g; t = std::string(); };
    prox.act = [&](Seen& s, PeerSrv::C& k) { np++; std::string t; { Guard g; t = http_reply(result_xml("p"), c.keep ? "keep-alive" : "close"); } net::send_all(k.fd, t); Guard g; t = std::string(); };
    direct.start(); prox.start();
    { std::unique_ptr<HttpClient> cl;
      auto apply = [&](const Cfg& n, const Cfg* o) { AsLib al;
        if (!o || o->cred != n.cred) cl->set_authinfo(cred(n.cred).u, cred(n.cred).p);
        if (!o || o->cx != n.cx) cl->set_xheaders(mkxh(cxh(n.cx)));
        if (!o || o->keep != n.keep) cl->set_keep_alive(n.keep);
        if (n.proxy && (!o || !o->proxy)) cl->set_proxy(iqnet::Inet_addr("127.0.0.1", 3128)); };
      { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr(c.by_name ? "peer.example" : "127.0.0.1", 3000), URIS[c.uri], VHOSTS[c.vhost])); }
      apply(c, nullptr);
      for (int i = 1; i <= calls && !violated(); i++) {
        if (i > 1) { Cfg o = c; c.px = 0; c.val = 0; for (int k = 0; k < changes; k++) pick(c, choose(7, C_FREE, "change")); apply(c, &o); }
        int before = nd + np;
        Got r; { AsLib al; Param_list p; fill(p, c.val); iqxmlrpc::XHeaders x = mkxh(pxh(c.px)); r = call_client(*cl, "some.method", p, c.px ? &x : nullptr); }
        Guard g;
        if (!r.ok || r.text != (c.proxy ? "result \"p\"" : "result \"d\"")) violation("failed", "call " + std::to_string(i) + ": " + r.text + (c.proxy ? " (proxy set)" : ""));
        else if (nd + np != before + 1) violation("request", "call " + std::to_string(i) + " was sent as " + std::to_string(nd + np - before) + " requests");
        else judge_request(c, c.proxy ? prox.seen.back() : direct.seen.back(), i);
        outcome(r.text + std::to_string(c.keep)); r = Got();
      }
      AsLib al; cl.reset(); }
    wait_idle();
    { Guard g; for (auto* s : {&direct, &prox}) for (auto& k : s->cs) if (!k.buf.empty()) violation("request", "bytes beyond the request were sent: " + esc(k.buf)); }
    direct.stop(); prox.stop(); }
}
struct TakeAll : public iqxmlrpc::Auth_Plugin_base {
  std::string u, p; bool do_authenticate(const std::string& a, const std::string& b) const override { Guard g; const_cast<TakeAll*>(this)->u = a; const_cast<TakeAll*>(this)->p = b; return true; }
  bool do_authenticate_anonymous() const override { return true; }
};
class Any : public Method { void execute(const Param_list& p, Value& r) override { note_call(this, p); r = (int)p.size(); } };
// the library's server reads back what the client was given
void c24_both() {
  reset_log();
  Cfg c; c.uri = choose(4, C_FREE, "uri"); pick(c, 0); pick(c, 1); pick(c, 2); pick(c, 3); pick(c, 5);
  int threads = choose(2, C_FREE, "pool");
  TakeAll au; Box b(threads, 3000); { AsLib al; b.srv->set_auth_plugin(au); iqxmlrpc::register_method<Any>(*b.srv, "some.method"); }
  b.start();
  { AsLib al; HttpClient cl(iqnet::Inet_addr("127.0.0.1", 3000), URIS[c.uri]); cl.set_authinfo(cred(c.cred).u, cred(c.cred).p); cl.set_xheaders(mkxh(cxh(c.cx))); cl.set_keep_alive(c.keep);
    for (int i = 0; i < 2; i++) {
      Param_list p; fill(p, c.val); iqxmlrpc::XHeaders x = mkxh(pxh(c.px));
      Got r = call_client(cl, "some.method", p, &x);
      Guard g; size_t n = L().calls.size(); std::string xs; for (auto& e : want_xh(c)) xs += e.first + "=" + e.second + ";";
      if (!r.ok || r.text != "result i4:" + std::to_string(p.size())) violation("failed", r.text);
      else if (n != (size_t)i + 1) violation("readback", "the method ran " + std::to_string(n) + " times");
      else {
        const Call& k = L().calls.back(); const Cred& cr = cred(c.cred);
        if (k.name != "some.method" || k.arg != params_text(c.val)) violation("readback", "called " + k.name + "(" + k.arg + ")");
        if (k.xh != xs) violation("readback", "extra headers " + esc(k.xh) + ", sent " + esc(xs));
        if (k.user != (cr.u.empty() ? "-" : cr.u)) violation("readback", "user " + esc(k.user));
        if (!cr.u.empty() && (au.u != cr.u || au.p != cr.p)) violation("readback", "credentials " + esc(au.u) + ":" + esc(au.p));
      }
      outcome(r.text); r = Got();
    }
    if (!violated()) {   // a single value instead of a list
      iqxmlrpc::Response r = cl.execute("some.method", iqxmlrpc::Value(7));
      Guard g; c.px = 0; std::string xs; for (auto& e : want_xh(c)) xs += e.first + "=" + e.second + ";";
      if (r.is_fault() || r.value().get_int() != 1) violation("failed", "a call with a single value");
      else if (L().calls.size() != 3 || L().calls.back().arg != "i4:7" || L().calls.back().xh != xs) violation("readback", "a call with a single value was read as (" + (L().calls.empty() ? std::string() : L().calls.back().arg + ") with " + esc(L().calls.back().xh)));
    } }
  wait_idle(); judge_server(b, "server"); b.stop(); b.destroy(); reset_log();
  Guard g; au.u = au.p = std::string();
}
// header values and names with line breaks must not reach the wire
void c24_breaks() {
  reset_log();
  static const char* BR[] = {"\r", "\n", "\r\n", "\r\nX-Evil: 1", "\n\n<x/>"};
  int br = choose(5, C_FREE, "break"), pos = choose(3, C_FREE, "position"), where = choose(4, C_FREE, "where"); bool keep = choose(2, C_FREE, "keep-alive");
  std::string v; { Guard g; v = "abcd"; v.insert(pos == 0 ? 0 : pos == 1 ? 2 : 4, BR[br]); }
  { PeerSrv srv; bool any = false; srv.raw = [&](PeerSrv::C& c) { any = true; std::string t; { Guard g; t = http_reply(result_xml("d"), "close"); } net::send_all(c.fd, t); Guard g; t = std::string(); };
    srv.start(); std::string got;
    { AsLib al;
      try {
        HttpClient cl(iqnet::Inet_addr("127.0.0.1", 3000)); cl.set_keep_alive(keep);
        iqxmlrpc::XHeaders x, y; iqxmlrpc::XHeaders& t = where & 1 ? x : y;
        if (where & 2) t["X-" + v] = "v"; else t["X-N"] = v;
        cl.set_xheaders(x); Param_list p; p.push_back(Value(1)); cl.execute("echo", p, y);
        Guard g; got = "accepted";
      } catch (const std::exception& e) { Guard g; got = "refused"; }
    }
    wait_idle();
    { Guard g; if (any) violation("injection", std::string("a header ") + (where & 2 ? "name" : "value") + " with a line break (" + esc(v) + ") was put on the wire"); outcome(got); got = std::string(); v = std::string(); }
    srv.stop(); }
}

// which names may be used for extra headers, and how the collection behaves
void c24_names() {
  reset_log();
  static const char* N[] = {"X-A", "x-a", "X-", "X-a-B", "x-B2", "X", "-X-", "", "XA", "Host", "content-length", "Authorization", " X-A", "Y-A"};
  auto ok = [](int i) { return i < 5; };
  int n[3]; for (int& x : n) x = choose(14, C_FREE, "name");
  int way = choose(3, C_FREE, "way"); bool per_call = choose(2, C_FREE, "per-call");     // ways: one by one, a map, a map that replaces others
  std::string seen, want, err; int count = 0; SM m, src;
  {
    Guard g;
    for (int i = 0; i < 3; i++) { src[N[n[i]]] = "v" + std::to_string(i); if (way == 0 && ok(n[i])) m[lower(N[n[i]])] = "v" + std::to_string(i); }
    if (way) for (auto& e : src) if (lower(e.first).compare(0, 2, "x-") == 0) m[lower(e.first)] = e.second;
    for (auto& e : m) want += e.first + "=" + e.second + ";";
  }
  { PeerSrv srv;
    srv.act = [&](Seen& s, PeerSrv::C& c) {
      std::string t;
      { Guard g; count++; for (auto& e : s.h) if (e.first.compare(0, 2, "x-") == 0) seen += e.first + "=" + e.second + ";";
        if (!s.err.empty() || s.h["host"] != "127.0.0.1:3000" || s.h["content-length"] != std::to_string(s.body.size()) || s.h.count("authorization") || s.h.count("y-a") || s.h.count("xa") || s.h.count("x") || s.h.count("-x-")) seen += " and wrong headers: " + esc(s.raw, 400);
        t = http_reply(result_xml("d"), "close"); }
      net::send_all(c.fd, t); srv.drop(c, false); Guard g; t = std::string();
    };
    srv.start();
    {
      AsLib al; HttpClient cl(iqnet::Inet_addr("127.0.0.1", 3000)); iqxmlrpc::XHeaders x, none; Param_list p; p.push_back(Value(1));
      auto bad = [&](const std::string& t) { Guard g; err = t; };
      if (way == 2) x["X-Old"] = "o";
      if (way) x = src;
      else for (int i = 0; i < 3; i++) {
        bool thrown = false; size_t before = x.size();
        try { x[N[n[i]]] = std::string("v") + char('0' + i); } catch (const std::invalid_argument&) { thrown = true; }
        if (thrown == ok(n[i]) || (thrown && x.size() != before)) bad(std::string("name '") + N[n[i]] + "' is " + (thrown ? "refused" : "accepted"));
      }
      if (x.size() != m.size() || !std::equal(m.begin(), m.end(), x.begin())) bad("the collection does not hold what was put into it");
      for (int i = 0; i < 14; i++) { iqxmlrpc::XHeaders::const_iterator f = x.find(N[i]); Guard g; std::string lo = lower(N[i]); if ((f != x.end()) != (m.count(lo) > 0) || (f != x.end() && f->second != m[lo])) bad(std::string("find ") + N[i]); lo = std::string(); }
      if (!per_call) cl.set_xheaders(x);
      try { cl.execute("echo", p, per_call ? x : none); } catch (const std::exception& e) { bad(std::string("the call failed: ") + e.what()); }
    }
    wait_idle();
    { Guard g; std::string who = std::string("names '") + N[n[0]] + "', '" + N[n[1]] + "', '" + N[n[2]] + "', way " + std::to_string(way) + ": ";
      if (!err.empty()) violation("names", who + err); else if (count != 1 || seen != want) violation("names", who + "on the wire " + seen + " instead of " + want);
      outcome(want); seen = want = err = std::string(); m = SM(); src = SM(); }
    srv.stop(); }
}

// ---- C25: addresses -----------------------------------------------------------------------------------------
std::string show_sa(const sockaddr_in* s) { Guard g; return std::string(s->sin_family == AF_INET ? "" : "family? ") + inet_ntoa(s->sin_addr) + ":" + std::to_string(ntohs(s->sin_port)); }
std::string use_addr(const iqnet::Inet_addr& a) {
  std::string r;
  try { const sockaddr_in* s = a.get_sockaddr(); Guard g; r = show_sa(s); }
  catch (const iqnet::network_error&) { Guard g; r = "network_error"; }
  catch (const std::exception& e) { Guard g; r = std::string("exception ") + e.what(); }
  return r;
}
// a history of uses with failures of the resolver
void c25_history(int uses) {
  int kind = choose(4, C_FREE, "name");            // known name, literal address, name that appears later, unknown name
  static const char* N[] = {"a.example", "10.1.2.3", "late.example", "none.example"};
  int extra = kind == 0 ? choose(4, C_FREE, "addresses") : 0; static const int EX[] = {0, 5, 120, 400};
  net_opts.resolve_fault = true; 
  { Guard g; std::string l = "10.1.2.3"; for (int i = 0; i < EX[extra]; i++) l += " 10.9." + std::to_string(i / 250) + "." + std::to_string(i % 250 + 1); net::add_host("a.example", l); net::add_host("b.example", "10.7.7.7"); }
  int late = kind == 2 ? choose(uses, C_FREE, "appears") : -1;
  {
    AsLib al;
    std::vector<iqnet::Inet_addr> v; v.reserve(16); v.push_back(iqnet::Inet_addr(N[kind], 3000)); v.push_back(v[0]);
    iqnet::Inet_addr other("b.example", 81);
    bool resolved = false;
    std::string text;
    for (int i = 0; i < uses && !violated(); i++) {
      if (i == late) net::add_host("late.example", "10.1.2.3");
      int w = choose(5, C_FREE, "use");              // original, copy, new copy, a different address, name and port only
      int f0 = net::resolver_failures();
      std::string r; bool o = false;
      if (w == 2) v.push_back(v[choose((int)v.size(), C_FREE, "copy-of")]);
      if (w == 4) { if (v[0].get_host_name() != N[kind] || v[1].get_port() != 3000) violation("name", "name or port changed"); continue; }
      if (w == 3) { r = use_addr(other); o = true; } else r = use_addr(w == 0 ? v[0] : w == 1 ? v[1] : v.back());
      Guard g;
      bool failed = net::resolver_failures() != f0, exists = o || kind < 2 || (kind == 2 && i >= late); std::string want = o ? "10.7.7.7:81" : "10.1.2.3:3000";
      if (r != "network_error" && r != want) violation("wrong-address", "use " + std::to_string(i + 1) + " of " + (o ? "b.example:81" : std::string(N[kind]) + ":3000") + " gave " + r + " after: " + text);
      if (r == "network_error" && exists && !failed) violation("no-address", "use " + std::to_string(i + 1) + " failed although the resolver answered; after: " + text);
      if (r == want && !exists) violation("wrong-address", "an unknown name resolved");
      if (resolved && !o && r == "network_error" && !failed) violation("no-address", "a resolved address stopped working");
      if (r == want && !o) resolved = true;
      text += (o ? "other:" : "") + r + " "; r = std::string();
    }
    Guard g; outcome(text); text = std::string(); v = std::vector<iqnet::Inet_addr>();
  }
  net_opts = NetOpts();
}
void c25_threads(int n, int uses, bool faults) {
  net_opts.resolve_fault = faults;
  net::add_host("a.example", "10.1.2.3");
  { std::unique_ptr<iqnet::Inet_addr> a; { AsLib al; a.reset(new iqnet::Inet_addr("a.example", 3000)); }
    std::vector<int> ts; std::vector<std::string> out; { Guard g; out.resize(n); }
    for (int i = 0; i < n; i++) {
      std::shared_ptr<iqnet::Inet_addr> c; { AsLib al; c.reset(i % 2 ? new iqnet::Inet_addr(*a) : new iqnet::Inet_addr(*a)); }
      int t = spawn("user", [&, i, c] {
        for (int k = 0; k < uses; k++) { std::string r = use_addr(*c); Guard g; out[i] += r + " "; if (r != "10.1.2.3:3000" && !(faults && r == "network_error")) violation("wrong-address", "thread " + std::to_string(i) + " got " + r); r = std::string(); }
        if (c->get_port() != 3000) violation("name", "port");
      }, false);
      Guard g; ts.push_back(t);
    }
    for (int t : ts) join(t);
    Guard g; std::string o; for (auto& s : out) o += s + "/ "; outcome(o); ts = std::vector<int>(); out = std::vector<std::string>(); AsLib al; a.reset(); }
  net_opts = NetOpts();
}
// every port through every constructor; every byte of an address
void c25_values() {
  int part = choose(5, C_FREE, "part");
  AsLib al;
  if (part == 0) for (int p = 0; p < 65536 && !violated(); p++) {
    sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(p); s.sin_addr.s_addr = htonl(0x0a010203);
    iqnet::Inet_addr a(p), b("10.1.2.3", p), c(s); std::string ps; { Guard g; ps = std::to_string(p); }
    Guard g;
    if (a.get_port() != p || b.get_port() != p || c.get_port() != p) violation("port", ps);
    if (show_sa(a.get_sockaddr()) != "0.0.0.0:" + ps || show_sa(b.get_sockaddr()) != "10.1.2.3:" + ps || show_sa(c.get_sockaddr()) != "10.1.2.3:" + ps) violation("wrong-address", "port " + ps);
    if (c.get_host_name() != "10.1.2.3") violation("name", c.get_host_name());
    ps = std::string();
  }
  else for (int x = 0; x < 256 && !violated(); x++) {
    uint32_t ip = 0x0a010203; int sh = 8 * (part - 1); ip = (ip & ~(255u << sh)) | (uint32_t)x << sh;
    sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(7); s.sin_addr.s_addr = htonl(ip);
    Guard g; std::string t = inet_ntoa(s.sin_addr); AsLib al2;
    iqnet::Inet_addr c(s), d(t, 7);
    if (c.get_host_name() != t || show_sa(c.get_sockaddr()) != t + ":7" || show_sa(d.get_sockaddr()) != t + ":7") violation("wrong-address", t);
  }
}
void c25_breaks() {
  static const char* BR[] = {"\r", "\n", "\r\n", "\n\r", " ", "\t"};
  int br = choose(6, C_FREE, "break"), pos = choose(9, C_FREE, "position");
  AsLib al; std::string n; { Guard g; n = "ab.examp"; n.insert(pos, BR[br]); }
  std::string r;
  try { iqnet::Inet_addr a(n, 80); Guard g; r = "accepted"; } catch (const std::exception&) { Guard g; r = "refused"; }
  Guard g; if (br < 4 && r != "refused") violation("line-break", "a name with a line break was accepted: " + esc(n)); outcome(r); r = n = std::string();
}
}  // namespace

void nk::c23(Driver& D) {
  accounting = false; bool q = D.quick(); auto& S = D.scenarios;
  D.assumptions = {"virtual time: computing takes no time; a timeout of zero is outside the property"};
  Tm t;
  S.push_back(mk("stalls", "seven steps of the peer (connect, three reads of the request, three pieces of the reply), each after no time, just below, just above or far above the timeout; no timeout: up to a day each", [t] { c23_run(t); }));
  t.window = 60; S.push_back(mk("stalls-60", "the same with a window of 60 bytes", [t] { c23_run(t); }));
  if (!q) { t.window = 1; S.push_back(mk("stalls-1", "the same with a window of one byte", [t] { c23_run(t); })); }
  t = Tm(); t.eintr = true; S.push_back(mk("interrupted", "the same with one interrupted wait", [t] { c23_run(t); }, Budget().tot(q ? 1 : 2).set(C_FAULT, q ? 1 : 2)));
  t = Tm(); t.all_cuts = true; S.push_back(mk("cuts", "silence after every byte of the reply", [t] { c23_run(t); }));
  S.push_back(mk("second-call", "a kept connection falls silent in a later call", [] { c23_second(); }));
  S.push_back(mk("change", "timeout changed between calls", [] { c23_change(); }));
  S.push_back(mk("huge", "timeouts of a day to 68 years, answers after up to 20 days", [] { c23_huge(); }));
}
void nk::c24(Driver& D) {
  accounting = false; bool q = D.quick(); auto& S = D.scenarios;
  D.assumptions = {"an empty user name means no credentials; an empty path is outside the property"};
  S.push_back(mk("settings", "4 paths, 2 virtual hosts, 8 credentials, 5 client header sets, 3 call header sets, keep-alive, proxy, 5 parameter lists: all combinations, one call", [] { c24_wire(2, 1, 0); }));
  S.push_back(mk("changes-2", "two calls, every change of up to two settings between them", [] { c24_wire(1, 2, 2); }));
  S.push_back(mk("changes-n", std::to_string(q ? 4 : 5) + " calls, every change of one setting between them", [q] { c24_wire(0, q ? 4 : 5, 1); }));
  if (!q) S.push_back(mk("changes-3", "three calls, every change of up to two settings between them", [] { c24_wire(0, 3, 2); }));
  S.push_back(mk("targets", "19 kinds of paths, 8 virtual hosts, direct and by a proxy, two calls", [] { c24_wire(3, 2, 0); }));
  S.push_back(mk("server", "all combinations read back by the library's server, serial and pool", [] { c24_both(); }));
  S.push_back(mk("names", "three of 14 names of extra headers, one by one or at once, per client or per call", [] { c24_names(); }));
  S.push_back(mk("line-breaks", "line breaks in names and values of headers", [] { c24_breaks(); }));
}
void nk::c25(Driver& D) {
  accounting = false; bool q = D.quick(), race = D.is("race"); auto& S = D.scenarios;
  auto thr = [&](const char* n, int k, int u, bool f, int pre, int flt) { S.push_back(mk(n, std::to_string(k) + " threads with copies of one address, " + std::to_string(u) + " uses each" + (f ? ", failing lookups" : ""), [k, u, f] { c25_threads(k, u, f); }, Budget().tot(pre + flt + 2).set(C_PREEMPT, pre).set(C_SWITCH, 2).set(C_FAULT, flt))); };
  thr("threads-2", 2, 2, false, 5, 0); thr("threads-2-fail", 2, 2, true, 4, 2); thr("threads-3", 3, 2, true, 3, 1);
  if (race) return;
  S.push_back(mk("history", "sequences of uses of an address and its copies, lookups failing in every pattern", [q] { c25_history(q ? 4 : 5); }, Budget().tot(6).set(C_FAULT, 6)));
  S.push_back(mk("values", "65536 ports through three constructors, every value of every byte of an address", [] { c25_values(); }));
  S.push_back(mk("line-breaks", "line breaks at every position of a name", [] { c25_breaks(); }));
}
