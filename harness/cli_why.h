// C30: the exception of a failed call fits its cause. Included by cli.cc.
namespace {
// what the caller learns from a call
struct Why { std::string kind, text; int code = 0; };
Why why_of(iqxmlrpc::Client_base& c, int no, size_t pad = 0) {
  Why w; auto set = [&](const char* k, const std::string& t, int code = 0) { Guard g; w.kind = k; w.text = t; w.code = code; };
  Param_list pl; pl.push_back(Value(no)); if (pad) pl.push_back(Value(std::string(pad, 'p')));
  try {
    iqxmlrpc::Response r = c.execute("echo", pl);
    if (!r.is_fault()) { Guard g; set("result", show(from_lib(r.value()))); return w; }
    set("fault", r.fault_string(), r.fault_code());
    try { r.value(); Guard g; set("broken", "a fault gave a value"); }
    catch (const iqxmlrpc::Exception& e) { Guard g; if (e.code() != w.code || e.what() != w.text) set("broken", "asked for its value a fault raised " + std::to_string(e.code()) + " " + e.what()); }
    catch (...) { Guard g; set("broken", "asked for its value a fault raised something else"); }
  }
  catch (const iqxmlrpc::Client_timeout& e) { set("timeout", e.what()); }
  catch (const iqxmlrpc::http::Error_response& e) { set("http", e.response_header()->phrase(), e.response_header()->code()); }
  catch (const iqnet::network_error& e) { set("network", e.what()); }
  catch (const iqxmlrpc::http::Malformed_packet& e) { set("protocol", e.what()); }
  catch (const iqxmlrpc::Parse_error& e) { set("protocol", e.what()); }
  catch (const iqxmlrpc::XML_RPC_violation& e) { set("protocol", e.what()); }
  catch (const std::exception& e) { set("other", e.what()); }
  catch (...) { set("other", "unknown"); }
  return w;
}
std::string show_why(const Why& w) { Guard g; return w.kind + " " + std::to_string(w.code) + " \"" + w.text + "\""; }

// every status, in several shapes of reply
std::string status_reply(int code, int phrase, int shape, bool keep, std::string& said) {
  static const char* P[] = {"Not Found", "", "Teapot", "Moved: see elsewhere"};
  said = P[phrase];
  std::string l = "HTTP/1." + std::to_string(shape & 1) + " " + std::to_string(code) + (said.empty() ? "" : " " + said) + "\r\n", k = keep ? "keep-alive" : "close";
  switch (shape / 2) {
    case 0: return l + "Content-Length: 0\r\nConnection: " + k + "\r\n\r\n";
    case 1: return l + "Content-Type: text/html\r\nContent-Length: 13\r\nConnection: " + k + "\r\n\r\n<html></html>";
    case 2: { std::string b = result_xml(text_of(1)); return l + "Connection: " + k + "\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; }
    default: return l + "Connection: close\r\n\r\n";
  }
}
void c30_status(bool all_codes, bool cuts) {
  reset_log();
  int code, phrase = 0, shape = 0;
  static const int C[] = {401, 201, 204, 301, 400, 403, 404, 407, 413, 500, 502, 503, 599};
  if (all_codes) { code = 201 + choose(399, C_FREE, "status"); shape = 2 * choose(4, C_FREE, "shape"); }
  else { code = C[choose(cuts ? 3 : 13, C_FREE, "status")]; phrase = choose(4, C_FREE, "phrase"); shape = choose(8, C_FREE, "shape"); }
  bool keep = choose(2, C_FREE, "keep-alive");
  std::string t, said; { Guard g; t = status_reply(code, phrase, shape, keep, said); }
  size_t cut = cuts ? choose((int)t.size(), C_FREE, "cut") : 0;
  {
    PeerSrv srv;
    srv.act = [&](Seen& s, PeerSrv::C& c) {
      if (s.no == 2) { perform(srv, c, Act(), s.no, 0, keep); return; }
      if (cut) { std::string h; { Guard g; h = t.substr(0, cut); } net::send_all(c.fd, h); wait_idle(); { Guard g; h = t.substr(cut); } net::send_all(c.fd, h); Guard g; h = std::string(); }
      else net::send_all(c.fd, t);
      if (shape / 2 == 3 || !keep) srv.drop(c, false);
    };
    srv.start();
    std::unique_ptr<HttpClient> cl;
    { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); }
    Why w; { AsLib al; w = why_of(*cl, 1); }
    {
      Guard g;
      if (w.kind != "http" || w.code != code) violation("status", "the server answered " + std::to_string(code) + ", the caller got " + show_why(w));
      else if (w.text != said) violation("phrase", "the server answered " + std::to_string(code) + " " + said + ", the caller got " + show_why(w));
      outcome(w.kind);
    }
    { AsLib al; w = why_of(*cl, 2); }
    { Guard g; if (w.kind != "result") violation("next", "the call after a status of " + std::to_string(code) + ": " + show_why(w)); w = Why(); }
    { AsLib al; cl.reset(); }
    wait_idle();
    srv.stop();
  }
  Guard g; t = std::string(); said = std::string();
}

// a peer that speaks something else, sometimes much like HTTP
void c30_other() {
  reset_log();
  static const char* LN[] = {"what is this?", "ICY 200 OK", "SSH-2.0-OpenSSH_9.6 200", "200 OK HTTP/1.1", "HTP/1.1 200 OK", "HTTP/1.1 abc OK", "HTTP/1.1", "HTTP/1.1 2x0 OK", "HTTP/1.1 200OK", "HTTP/1.1 0x200 OK", "HTTP1.1 200 OK", "x HTTP/1.1 200 OK", "RTSP/1.0 404 Not Found", "220 mail.example ESMTP", "+OK 200", "<methodResponse>"};
  int ln = choose(16, C_FREE, "line"), shape = choose(4, C_FREE, "shape"), eol = choose(2, C_FREE, "eol"); bool keep = choose(2, C_FREE, "keep-alive"), cl0 = choose(2, C_FREE, "closes");
  std::string t, n; { Guard g; n = eol ? "\n" : "\r\n"; std::string b = result_xml(text_of(1)); t = LN[ln] + n; if (shape == 1) t += "Content-Length: 0" + n; if (shape == 2) t += "Content-Length: " + std::to_string(b.size()) + n; if (shape == 3) t += "Content-Type: text/xml" + n; t += n; if (shape >= 2) t += b; b = std::string(); }
  size_t cut = choose(3, C_FREE, "cut") * (t.size() / 3);
  {
    PeerSrv srv;
    srv.act = [&](Seen& s, PeerSrv::C& c) {
      if (s.no == 2) { perform(srv, c, Act(), s.no, 0, keep); return; }
      if (cut) { std::string h; { Guard g; h = t.substr(0, cut); } net::send_all(c.fd, h); wait_idle(); { Guard g; h = t.substr(cut); } net::send_all(c.fd, h); Guard g; h = std::string(); }
      else net::send_all(c.fd, t);
      if (cl0) srv.drop(c, false);
    };
    srv.start();
    std::unique_ptr<HttpClient> cl;
    { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); cl->set_timeout(5); }
    Why w; { AsLib al; w = why_of(*cl, 1); }
    { Guard g; if (w.kind != "protocol") violation("not-http", std::string("the peer answered '") + LN[ln] + "', the caller got " + show_why(w)); outcome(w.kind); }
    { AsLib al; w = why_of(*cl, 2); }
    { Guard g; if (w.kind != "result") violation("next", std::string("the call after '") + LN[ln] + "': " + show_why(w)); w = Why(); }
    { AsLib al; cl.reset(); }
    wait_idle();
    srv.stop();
  }
  Guard g; t = std::string(); n = std::string();
}

// causes of each behaviour of the peer
std::string cause_of(const Act& a) {
  switch (a.kind) {
    case GOOD: case GOOD_CLOSE: case GOOD_THEN_CLOSE: case TWICE: case SHAPES: return "result";
    case GOOD_THEN_RESET: return "result|network";
    case FAULT: return "fault";
    case CLOSE: case RESET: case HALF_READ: case CUT_CLOSE: case CUT_RESET: case LONG_LEN: return "network";
    case ERR500: return "http";
    case NOT_HTTP: return "protocol|http";
    case LATE: case HALF_LATE: case CUT_SILENT: return "timeout";
    default: return "protocol";
  }
}
void c30_seq(const Seq& q) {
  reset_log();
  bool keep = choose(2, C_FREE, "keep-alive");
  if (q.recv_max > 0) net_opts.recv_max = q.recv_max;
  std::vector<Act> acts;
  for (int i = 0; i < q.calls; i++) { Act a = pick_act(q, true); Guard g; acts.push_back(a); }
  {
    PeerSrv srv;
    srv.act = [&](Seen& s, PeerSrv::C& c) { if (s.no >= 1 && s.no <= q.calls) perform(srv, c, acts[s.no - 1], s.no, 0, keep); };
    srv.start();
    std::unique_ptr<HttpClient> cl;
    { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_timeout(TMO); cl->set_keep_alive(keep); }
    bool stale = false; std::string text;
    for (int i = 0; i < q.calls && !violated(); i++) {
      if (acts[i].kind == TWICE && keep) acts[i].kind = GOOD;
      Why w; { AsLib al; w = why_of(*cl, i + 1); }
      Guard g;
      std::string want = cause_of(acts[i]); if (stale) want += "|network";     // the kept connection may have ended meanwhile
      std::string who = "call " + std::to_string(i + 1) + " (peer: " + KN[acts[i].kind] + ", cut " + std::to_string(acts[i].cut) + ")";
      if (("|" + want + "|").find("|" + w.kind + "|") == std::string::npos) violation("cause", who + " should be reported as " + want + ", the caller got " + show_why(w));
      if (w.kind == "http" && acts[i].kind == ERR500 && (w.code != 500 || w.text != "OK")) violation("status", who + ": " + show_why(w));
      if (w.kind == "fault" && (w.code != 101 + i || w.text != text_of(i + 1))) violation("fault", who + ": " + show_why(w));
      stale = keep && w.kind != "network" && w.kind != "timeout" && w.kind != "http" && w.kind != "protocol" && !usable_after(acts[i].kind);
      text += w.kind + " "; w = Why(); want = std::string(); who = std::string();
    }
    { Guard g; outcome(text); text = std::string(); }
    { AsLib al; cl.reset(); }
    wait_idle();
    srv.stop();
  }
  Guard g; acts = std::vector<Act>();
}

// every code and text of a fault reaches the caller, as do the faults of a batch of calls after one another
void c30_faults(int calls) {
  reset_log();
  static const int C[] = {0, 1, -1, 77, 200, 404, -32700, 2147483647, -2147483647 - 1};
  static const char* X[] = {"", "0", "sorry", " two  words ", "&lt;b&gt; &amp; &#65;", "\xd0\xb9\xe2\x82\xac"};
  static const char* T[] = {"", "0", "sorry", " two  words ", "<b> & A", "\xd0\xb9\xe2\x82\xac"};
  bool keep = choose(2, C_FREE, "keep-alive"); int shape = choose(3, C_FREE, "shape");
  std::vector<std::pair<int, int>> f;
  for (int i = 0; i < calls; i++) { int c = choose(10, C_FREE, "code"), t = c == 9 ? 0 : choose(6, C_FREE, "text"); Guard g; f.emplace_back(c, t); }
  auto body = [&](int i) -> std::string {
    if (f[i].first == 9) return result_xml("0");
    std::string c = std::to_string(C[f[i].first]), t = X[f[i].second];
    std::string mc = "<member><name>faultCode</name><value>" + (shape == 1 ? "<i4>" + c + "</i4>" : "<int>" + c + "</int>") + "</value></member>", mt = "<member><name>faultString</name><value>" + (shape == 1 ? t : "<string>" + t + "</string>") + "</value></member>";
    return "<?xml version=\"1.0\"?>\n<methodResponse><fault><value><struct>" + (shape == 2 ? mt + mc : mc + mt) + "</struct></value></fault></methodResponse>";
  };
  {
    PeerSrv srv;
    srv.act = [&](Seen& s, PeerSrv::C& c) { std::string t; { Guard g; t = http_reply(body(s.no - 1), keep ? "keep-alive" : "close"); } net::send_all(c.fd, t); if (!keep) srv.drop(c, false); Guard g; t = std::string(); };
    srv.start();
    std::unique_ptr<HttpClient> cl;
    { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); }
    for (int i = 0; i < calls && !violated(); i++) {
      Why w; { AsLib al; w = why_of(*cl, i + 1); }
      Guard g;
      int k = f[i].first;
      if (k == 9 ? w.kind != "result" : w.kind != "fault" || w.code != C[k] || w.text != T[f[i].second])
        violation("fault", "call " + std::to_string(i + 1) + " was answered by " + (k == 9 ? std::string("a result") : "fault " + std::to_string(C[k]) + " \"" + T[f[i].second] + "\"") + ", the caller got " + show_why(w));
      outcome(w.kind); w = Why();
    }
    { AsLib al; cl.reset(); }
    wait_idle();
    srv.stop();
  }
  Guard g; f = std::vector<std::pair<int, int>>();
}

// connecting: refused, unanswered, no descriptors, no such name; then a healthy server
void c30_connect() {
  reset_log();
  int how = choose(5, C_FREE, "how"); bool keep = choose(2, C_FREE, "keep-alive"), host = choose(2, C_FREE, "by-name"), proxy = choose(2, C_FREE, "proxy"), again = choose(2, C_FREE, "again");
  if (how == 4 && !host) how = 0;
  net::add_host("peer.example", "127.0.0.1");
  {
    std::unique_ptr<PeerSrv> srv; std::unique_ptr<HttpClient> cl;
    auto mk = [&] { { Guard g; srv.reset(new PeerSrv); srv->act = [&, keep](Seen& s, PeerSrv::C& c) { perform(*srv, c, Act(), s.no, 0, keep); }; } srv->start(); };
    if (how != 0) mk();
    { AsLib al; iqnet::Inet_addr a(how == 4 ? "nowhere.example" : host ? "peer.example" : "127.0.0.1", 3000);
      cl.reset(new HttpClient(proxy ? iqnet::Inet_addr("10.0.0.9", 80) : a)); if (proxy) cl->set_proxy(a); cl->set_timeout(TMO); cl->set_keep_alive(keep); }
    std::string want = how == 1 ? "timeout" : "network";
    for (int i = 1; i <= 1 + again && !violated(); i++) {
      if (how == 1) net_opts.connect_hold = true;
      if (how == 2) net_opts.socket_fault = true;
      if (how == 3) net_opts.recv_fault = net_opts.send_fault = true;
      Why w; { AsLib al; w = why_of(*cl, i); }
      net_opts = NetOpts();
      Guard g; bool may = how == 2 || how == 3;          // these faults happen only where the explorer puts them
      if (w.kind != want && !(may && w.kind == "result")) violation("cause", "call " + std::to_string(i) + " should be reported as " + want + ", the caller got " + show_why(w));
      outcome(w.kind + " "); w = Why();
    }
    if (how == 1) net::release_connects(true);
    if (how != 4 && !violated()) {
      if (!srv) mk();
      Why w; { AsLib al; w = why_of(*cl, 3); }
      Guard g; if (w.kind != "result") violation("next", "the server is healthy, the caller got " + show_why(w)); w = Why();
    }
    { AsLib al; cl.reset(); }
    wait_idle();
    if (srv) srv->stop();
    Guard g; srv.reset(); want = std::string();
  }
  net_opts = NetOpts();
}

// the library's own server refuses in each of its ways
struct NoOne : iqxmlrpc::Auth_Plugin_base {
  bool do_authenticate(const std::string& u, const std::string& p) const override { return u == "u" && p == "p"; }
  bool do_authenticate_anonymous() const override { return false; }
};
struct Odd : Method {
  void execute(const Param_list& p, Value& r) override {
    switch (p[0].get_int() % 100) {
      case 1: throw iqxmlrpc::Fault(77, "seventy & <seven>");
      case 2: throw std::runtime_error("went wrong");
      case 3: throw iqxmlrpc::Invalid_meth_params();
      case 4: throw 5;
      case 5: throw iqxmlrpc::Fault(-1, "");
      default: r = p[0];
    }
  }
};
void c30_server() {
  reset_log();
  int threads = choose(2, C_FREE, "pool"); bool keep = choose(2, C_FREE, "keep-alive");
  NoOne au; Box b(threads, 3000, false);
  { AsLib al; b.srv->set_auth_plugin(au); b.srv->set_max_request_sz(2000); iqxmlrpc::register_method<Odd>(*b.srv, "echo"); }
  b.start();
  {
    std::unique_ptr<HttpClient> cl; { AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep); }
    for (int i = 1; i <= 3 && !violated(); i++) {
      int how = choose(8, C_FREE, "how");
      { AsLib al; cl->set_authinfo("u", how == 6 ? "x" : "p"); }
      Why w; { AsLib al; w = why_of(*cl, 100 * i + how, how == 7 ? 3000 : 0); }
      Guard g; std::string got = show_why(w), want;
      switch (how) {
        case 1: want = "fault 77 \"seventy & <seven>\""; break;
        case 2: want = "fault -32500 \"went wrong\""; break;
        case 3: want = "fault -32602 \"Server error. Invalid method parameters.\""; break;
        case 4: want = "fault -32500 \"Unknown Error\""; break;
        case 5: want = "fault -1 \"\""; break;
        case 6: want = "http 401 \"Unauthorized\""; break;
        case 7: want = "http 413 \"Request Entity Too Large\""; break;
        default: want = "result 0 \"i4:" + std::to_string(100 * i) + "\""; break;
      }
      // a text of the library's own is not part of the contract
      if (how == 2 || how == 4) { if (w.kind != "fault") violation("cause", "a method that throws: " + got); }
      else if (how == 3) { if (w.kind != "fault" || w.code != -32602) violation("cause", "wrong parameters: " + got); }
      else if (how >= 6) { if (w.kind != "http" || w.code != (how == 6 ? 401 : 413)) violation("cause", "should be reported as " + want + ", the caller got " + got); }
      else if (got != want) violation("cause", "should be reported as " + want + ", the caller got " + got);
      outcome(w.kind + std::to_string(w.code) + " "); w = Why(); got = want = std::string();
    }
    { AsLib al; cl.reset(); }
  }
  wait_idle();
  judge_server(b, "server");
  b.stop(); b.destroy();
}
}  // namespace

void nk::c30(Driver& D) {
  bool q = D.quick(); auto& S = D.scenarios; accounting = false;
  D.assumptions = {"a server sends bytes only in answer to a request", "interim replies (1xx) are not sent to a client that did not ask for them"};
  Seq s;
  S.push_back(mk("status-all", "every status from 201 to 599, with and without content and content length, followed by a good reply", [] { c30_status(true, false); }));
  S.push_back(mk("status-shapes", "13 statuses, 4 phrases, 8 shapes of reply", [] { c30_status(false, false); }));
  S.push_back(mk("status-cuts", "3 statuses, 4 phrases, 8 shapes, cut in two at every byte", [] { c30_status(false, true); }));
  S.push_back(mk("not-http", "16 first lines that are not those of an HTTP reply, with and without content", [] { c30_other(); }));
  S.push_back(mk("faults-1", "one call answered by a fault of 9 codes, 6 texts, 3 ways to write it", [] { c30_faults(1); }));
  S.push_back(mk("faults-2", "two calls answered by such faults or a result", [] { c30_faults(2); }));
  s = Seq(); s.calls = 2; s.last_good = false; S.push_back(mk("peer-2", "two calls that meet any of the behaviours of the peer", [s] { c30_seq(s); }));
  s = Seq(); s.calls = 3; s.last_good = false; S.push_back(mk("peer-3", "three calls that meet any of the behaviours", [s] { c30_seq(s); }));
  if (!q) { S.push_back(mk("faults-3", "three calls answered by such faults or a result", [] { c30_faults(3); })); s = Seq(); s.calls = 4; s.last_good = false; s.last = LATE; S.push_back(mk("peer-4", "four calls that meet any of the behaviours other than silence", [s] { c30_seq(s); })); }
  s = Seq(); s.calls = 1; s.last_good = false; s.all_cuts = true; S.push_back(mk("cuts-1", "a reply cut at every byte by close, reset, silence, delay", [s] { c30_seq(s); }));
  s = Seq(); s.calls = 2; s.last_good = false; s.recv_max = 1; S.push_back(mk("peer-2-recv1", "the same as peer-2 with reads of one byte", [s] { c30_seq(s); }));
  S.push_back(mk("connect", "refused, unanswered, faults, unknown names, one or two calls, then a healthy server", [] { c30_connect(); }, Budget().tot(q ? 2 : 3).set(C_FAULT, q ? 2 : 3)));
  S.push_back(mk("server", "three calls refused or failed by the library's own server in any of its ways", [] { c30_server(); }));
}

// ---- C32: any allocation of the client fails
namespace {
void c32_client() {
  reset_log();
  static const int K[] = {GOOD, FAULT, ERR500, CLOSE, GOOD_CLOSE};
  int kind = K[choose(5, C_FREE, "reply")], how = choose(4, C_FREE, "client"); bool keep = choose(2, C_FREE, "keep-alive"), early = choose(2, C_FREE, "call before");
  std::string what; { Guard g; what = std::string("call (peer: ") + KN[kind] + ", client " + std::to_string(how) + (keep ? ", kept connection" : "") + (early ? ", second call)" : ")"); }
  {
    PeerSrv srv; int bad = early ? 2 : 1;
    std::vector<std::string> sent;      // requests as they were received, their numbers left out
    srv.act = [&](Seen& s, PeerSrv::C& c) { { Guard g; std::string r = s.raw; size_t p = r.find("<i4>"); if (p != std::string::npos && p + 4 < r.size()) r[p + 4] = '#'; sent.push_back(r); } Act a; if (s.no == bad) a.kind = kind; perform(srv, c, a, s.no, 0, keep); };
    srv.start();
    std::unique_ptr<HttpClient> cl; std::string res;
    auto build = [&] {
      AsLib al; cl.reset(new HttpClient(iqnet::Inet_addr("127.0.0.1", 3000))); cl->set_keep_alive(keep);
      if (how == 1) cl->set_authinfo("user", "a password that does not fit into a small string");
      if (how == 2) { iqxmlrpc::XHeaders h; h["X-Some-Header"] = "a value that does not fit into a small string"; cl->set_xheaders(h); }
      if (how == 3) cl->set_proxy(iqnet::Inet_addr("127.0.0.1", 3000));
    };
    build();
    if (early) { Why w; { AsLib al; w = why_of(*cl, 1); } Guard g; if (w.kind != "result") violation("first", "the call before: " + show_why(w)); w = Why(); }
    bool failed = false;
    {
      AsLib al; sched_opts.nomem = true;
      try {
        Param_list pl; pl.push_back(Value(bad));
        iqxmlrpc::Response r = cl->execute("echo", pl);
        Guard g; sched_opts.nomem = false; res = r.is_fault() ? "fault" : show(from_lib(r.value()));
      }
      catch (const std::exception& e) { Guard g; sched_opts.nomem = false; res = std::string("failed: ") + e.what(); failed = true; }
      catch (...) { Guard g; sched_opts.nomem = false; res = "failed"; failed = true; }
      sched_opts.nomem = false;
    }
    {
      Guard g; std::string want = kind == GOOD || kind == GOOD_CLOSE ? show(RV::str(text_of(bad))) : kind == FAULT ? "fault" : "failed";
      if (!failed && res != want) violation("reply", what + " gave " + res);
      outcome((failed ? "failed " : "done ") + std::to_string(kind));
    }
    int no = bad + 1; bool stale = keep && !failed && kind == GOOD_CLOSE;
    for (int i = 0; i < 2 && !violated(); i++, no++) {
      Why w; { AsLib al; w = why_of(*cl, no); }
      Guard g;
      if (i == 0 && stale && w.kind == "network") { w = Why(); continue; }
      if (w.kind != "result" || w.text != show(RV::str(text_of(no)))) violation("next", "after a " + what + " that ended with " + res + " the next call gave " + show_why(w));
      w = Why();
    }
    { AsLib al; cl.reset(); }
    wait_idle();
    srv.stop(); judge_bad_ops("client");
    Guard g; for (auto& r : sent) if (!violated() && r != sent.back()) violation("request", what + " was sent as " + esc(r, 600));
    res = std::string(); sent = std::vector<std::string>();
  }
  Guard g; what = std::string();
}
}
namespace {
// the same call made under the classic locale and under another one
void c33_client() {
  reset_log(); int l = 1 + choose(lo::COUNT - 1, C_FREE, "locale"), how = choose(4, C_FREE, "client"), size = choose(3, C_FREE, "size"), first = choose(2, C_FREE, "order"); bool keep = choose(2, C_FREE, "keep-alive");
  PeerSrv srv; std::vector<std::string> sent; std::string got[2]; srv.act = [&](Seen& s, PeerSrv::C& c) {
    { Guard g; sent.push_back(s.raw); }
    std::string b; { Guard g; b = "<methodResponse><params><param><value><array><data><value><i4>1234567</i4></value><value><double>1234.5</double></value><value><i8>-9876543210</i8></value><value>" + std::string(size == 2 ? 1500 : 5, 'r') + "</value></data></array></value></param></params></methodResponse>"; b = "HTTP/1.1 200 OK\r\nCONTENT-TYPE: TEXT/XML\r\nCONTENT-LENGTH: " + std::to_string(b.size()) + "\r\n" + (keep ? "CONNECTION: KEEP-ALIVE\r\n" : "") + "\r\n" + b; }
    net::send_all(c.fd, b); if (!keep) srv.drop(c, false); Guard g; b = std::string(); };
  srv.start();
  for (int i = 0; i < 2; i++) {
    bool other = i != first; if (other) { Guard g; if (!lo::set(l)) { fprintf(stderr, "locale %s could not be set\n", lo::name(l)); abort(); } }
    { AsLib al; HttpClient cl(iqnet::Inet_addr("127.0.0.1", 3000)); cl.set_keep_alive(keep);
      if (how == 1) cl.set_authinfo("user", "word"); if (how == 3) cl.set_proxy(iqnet::Inet_addr("127.0.0.1", 3000));
      if (how == 2) { iqxmlrpc::XHeaders h; h["X-IDENTITY"] = "I"; cl.set_xheaders(h); }
      Param_list pl; pl.push_back(Value(1234567)); pl.push_back(Value(1234.5)); pl.push_back(Value(std::string(size ? 1500 : 5, 'p')));
      std::string r; try { iqxmlrpc::Response p = cl.execute("echo", pl); Guard g; const RV v = from_lib(p.value()); r = "ok"; if (!(v == RV::arr({RV::in(1234567), RV::db(1234.5), RV::i8(-9876543210LL), RV::str(std::string(size == 2 ? 1500 : 5, 'r'))}))) r = "another value"; } catch (const std::exception& e) { Guard g; r = std::string("failed: ") + e.what(); }
      Guard g; got[i] = r; r = std::string(); }
    if (other) { Guard g; lo::set(0); }
    wait_idle();
  }
  srv.stop(); Guard g; std::string u = std::string(" under a locale with ") + lo::name(l);
  for (int i = 0; i < 2; i++) if (got[i] != "ok") violation("reply", "call " + std::to_string(i + 1) + (i != first ? u : "") + " gave " + got[i]);
  if (sent.size() != 2) violation("requests", std::to_string(sent.size()) + " requests"); else if (sent[0] != sent[1]) violation("request", "a request was sent as " + esc(sent[!first], 500) + u + ", else as " + esc(sent[first], 500));
  outcome(got[0]); state(hash_str(sent[0] + std::to_string(l)));
  sent = std::vector<std::string>(); got[0] = got[1] = u = std::string();
}
}
void nk::c33(Driver& D) { Scenario s; s.name = "client"; s.note = "a call under the classic locale and under each of " + std::to_string(lo::COUNT - 1) + " others, 4 kinds of client, short and long requests and replies"; s.run = c33_client; D.scenarios.push_back(s); }
void nk::c32(Driver& D) {
  accounting = true; bool q = D.quick(); Scenario s; s.leaks = true; s.name = "client"; s.note = "a call with each of 4 kinds of client, 5 behaviours of the peer, kept connection or not, first or second call, " + std::string(q ? "one allocation" : "up to two allocations") + " failing; two calls after it";
  s.budget.tot(q ? 1 : 2).set(C_FAULT, q ? 1 : 2); s.run = c32_client; D.scenarios.push_back(s);
}
