// Shared pieces of the network harnesses: server under test, raw HTTP peers, reference HTTP reader.
#pragma once
#include "refdoc.h"
#include "rv.h"
#include <libiqxmlrpc/libiqxmlrpc.h>
#include <libiqxmlrpc/auth_plugin.h>
#include <libiqxmlrpc/executor.h>
#include <libiqxmlrpc/firewall.h>
#include <libiqxmlrpc/http_server.h>
#include <libiqxmlrpc/http_errors.h>
#include <libiqxmlrpc/https_server.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <sstream>

namespace nk {
using namespace mc;
using iqxmlrpc::Value; using iqxmlrpc::Param_list; using iqxmlrpc::Method; using iqxmlrpc::Server;

// ---- what the methods under test did ---------------------------------------------------------------
struct Call { std::string name, arg, user, xh, peer; int thread; };
struct Log {
  std::vector<Call> calls;
  std::map<std::string, int> begun, ended;
  std::function<void(Method*, const std::string&)> on_call;
};
inline Log*& log_() { static Log* l = new Log; return l; }
inline Log& L() { return *log_(); }
inline void reset_log() { Guard g; L() = Log(); }

struct Thrown {};   // not derived from std::exception

inline std::string show_params(const Param_list& p) {
  Guard g; std::string s; for (auto& v : p) s += (s.empty() ? "" : ",") + show(from_lib(v)); return s;
}
inline void note_call(Method* m, const Param_list& p) {
  Guard g;
  Call c; c.name = m->name(); c.arg = show_params(p); c.user = m->authenticated() ? m->authname() : "-"; c.peer = m->peer_addr().get_host_name(); c.thread = self_id();
  std::ostringstream x; for (auto i = m->xheaders().begin(); i != m->xheaders().end(); ++i) x << i->first << "=" << i->second << ";";
  c.xh = x.str();
  L().calls.push_back(c);
  trace("%s: method %s(%s)", mc::self_id() >= 0 ? "call" : "", c.name.c_str(), c.arg.c_str());
}
// echo: returns its first parameter (nil if none)
class Echo : public Method {
  void execute(const Param_list& p, Value& r) override {
    note_call(this, p);
    std::function<void(Method*, const std::string&)> f; { Guard g; f = L().on_call; }
    if (f) f(this, name());
    if (p.empty()) r = iqxmlrpc::Nil(); else r = p[0];
    Guard g; f = nullptr;
  }
};
class Raise : public Method {
  void execute(const Param_list& p, Value& r) override {
    note_call(this, p);
    int k = p.empty() ? 0 : p[0].get_int();
    switch (k) {
      case 0: throw iqxmlrpc::Fault(17, "seventeen & <more>");
      case 1: throw std::runtime_error("plain error");
      case 2: throw Thrown();
      case 3: throw iqxmlrpc::Exception("library error", 99);
      case 4: throw iqxmlrpc::Fault(-5, "");
      case 5: throw iqxmlrpc::Invalid_meth_params();
      case 6: throw std::bad_alloc();
      default: throw 5;
    }
    r = 1;
  }
};
// reply of n characters
class Big : public Method {
  void execute(const Param_list& p, Value& r) override { note_call(this, p); r = std::string(p.empty() ? 10 : p[0].get_int(), 'y'); }
};

// ---- requests ------------------------------------------------------------------------------------
inline std::string xint(int v) { return "<value><int>" + std::to_string(v) + "</int></value>"; }
inline std::string xstr(const std::string& v) { return "<value><string>" + v + "</string></value>"; }
inline std::string call_xml(const std::string& m, const std::string& v = "") {
  return "<?xml version=\"1.0\"?><methodCall><methodName>" + m + "</methodName>" + (v.empty() ? "" : "<params><param>" + v + "</param></params>") + "</methodCall>";
}
struct Rq {
  std::string line = "POST /RPC HTTP/1.1";
  std::vector<std::string> headers;   // verbatim lines
  bool length = true; bool keep = true; bool xml_type = true;
  std::string nl = "\r\n";
  std::string body;
  std::string head() const {
    std::string s = line + nl;
    if (xml_type) s += "Content-Type: text/xml" + nl;
    if (length) s += "Content-Length: " + std::to_string(body.size()) + nl;
    if (keep) s += "Connection: keep-alive" + nl;
    for (auto& h : headers) s += h + nl;
    return s + nl;
  }
  std::string text() const { return head() + body; }
};
inline std::string rq_echo(int v, bool keep = true) { Guard g; Rq r; r.keep = keep; r.body = call_xml("echo", xint(v)); return r.text(); }
inline std::string rq(const std::string& m, const std::string& v, bool keep = true) { Guard g; Rq r; r.keep = keep; r.body = call_xml(m, v); return r.text(); }

// ---- reference HTTP reply reader -------------------------------------------------------------------
struct Rep {
  int code = 0; std::map<std::string, std::string> h; std::string body; std::string head;
  std::string rpc() const { RefDoc d = ref_response(body); return d.verdict == RefDoc::INVALID ? "invalid(" + d.text + ")" : d.text; }
  bool keep() const { auto i = h.find("connection"); return i != h.end() && i->second == "keep-alive"; }
};
struct Reader {          // incremental: feed everything received on one connection
  std::string buf; std::vector<Rep> out; std::string err;
  void feed(const std::string& s) { Guard g; buf += s; while (err.empty() && step()) {} }
  bool step() {
    size_t e = buf.find("\r\n\r\n");
    if (e == std::string::npos) {
      static const std::string p = "HTTP/1.1 ";
      if (buf.compare(0, std::min(buf.size(), p.size()), p, 0, std::min(buf.size(), p.size())) != 0) err = "reply does not start with a status line: " + esc(buf, 80);
      return false;
    }
    Rep r; std::string head = buf.substr(0, e + 2); r.head = head;
    size_t p = head.find("\r\n"); std::string st = head.substr(0, p);
    if (st.compare(0, 9, "HTTP/1.1 ") != 0 || st.size() < 13 || st[12] != ' ') { err = "bad status line: " + esc(st, 80); return false; }
    r.code = atoi(st.c_str() + 9);
    if (r.code < 100 || r.code > 599) { err = "bad status code: " + esc(st, 80); return false; }
    p += 2;
    while (p < head.size()) {
      size_t q = head.find("\r\n", p); std::string l = head.substr(p, q - p); p = q + 2;
      size_t c = l.find(": "); if (c == std::string::npos) { err = "bad header line: " + esc(l, 80); return false; }
      std::string n = l.substr(0, c); for (auto& ch : n) ch = tolower(ch);
      if (n.empty() || n.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-.^_`|~") != std::string::npos) { err = "bad header name: " + esc(n, 80); return false; }
      if (r.h.count(n)) { err = "header given twice: " + n; return false; }
      r.h[n] = l.substr(c + 2);
    }
    size_t len = 0;
    if (r.code == 405 && (!r.h.count("allow") || r.h["allow"] != "POST")) { err = "status 405 without the list of allowed methods"; return false; }
    if (r.code == 401 && (!r.h.count("www-authenticate") || r.h["www-authenticate"].compare(0, 6, "Basic ") != 0)) { err = "status 401 without a challenge"; return false; }
    if (r.code == 100) { if (!r.h.empty()) { err = "interim reply with headers"; return false; } }
    else {
      auto i = r.h.find("content-length"); if (i == r.h.end()) { err = "reply without content length"; return false; }
      if (i->second.empty() || i->second.find_first_not_of("0123456789") != std::string::npos) { err = "bad content length " + esc(i->second); return false; }
      len = strtoul(i->second.c_str(), nullptr, 10);
      auto k = r.h.find("connection"); if (k == r.h.end() || (k->second != "close" && k->second != "keep-alive")) { err = "reply without a usable connection header"; return false; }
    }
    if (buf.size() < e + 4 + len) return false;
    r.body = buf.substr(e + 4, len); buf.erase(0, e + 4 + len);
    out.push_back(r);
    return true;
  }
  std::string text() const {
    std::string s; for (auto& r : out) { s += std::to_string(r.code); if (r.code == 200) s += ":" + r.rpc(); s += r.code == 100 ? "" : r.keep() ? "/k" : "/c"; s += " "; }
    if (!buf.empty()) s += "partial "; if (!err.empty()) s += "ERR(" + err + ") ";
    return s;
  }
};

// ---- raw peers (used from harness threads) -----------------------------------------------------------
struct Conn {
  int fd = -1; Reader rd; bool eof = false;
  void open(int port = 3000, const std::string& from = "127.0.0.1") { fd = net::tcp_connect("127.0.0.1", port, from); }
  bool send(const std::string& s) { return fd >= 0 && net::send_all(fd, s); }
  // takes everything that is there now
  void drain() {
    while (fd >= 0 && !eof) {
      if (net::recv_would_block(fd)) return;
      std::string s = net::recv_some(fd);
      if (s.empty()) { eof = true; break; }
      rd.feed(s); { Guard g; s = std::string(); }
    }
  }
  // blocks until n complete replies or end of stream
  bool wait(size_t n) {
    while (rd.out.size() < n && !eof && rd.err.empty()) {
      std::string s = net::recv_some(fd);
      if (s.empty()) { eof = true; break; }
      rd.feed(s); { Guard g; s = std::string(); }
    }
    return rd.out.size() >= n;
  }
  bool gone() { return fd < 0 || eof || net::peer_gone(fd); }
  void close() { if (fd >= 0) { net::close_fd(fd); fd = -1; } }
  void reset() { if (fd >= 0) { net::reset(fd); fd = -1; } }
  ~Conn() { Guard g; rd = Reader(); }
};

// ---- the server under test ---------------------------------------------------------------------------
struct Box {
  std::unique_ptr<iqxmlrpc::Executor_factory_base> ef;
  std::unique_ptr<iqxmlrpc::Server> srv;
  int tid = -1; bool returned = false, retry = false; std::string escaped;     // retry: the application goes on when the loop ends for lack of memory
  explicit Box(int threads = 0, int port = 3000, bool methods = true, bool tls = false) {
    AsLib al;
    if (threads) ef.reset(new iqxmlrpc::Pool_executor_factory(threads)); else ef.reset(new iqxmlrpc::Serial_executor_factory);
    iqnet::Inet_addr at("127.0.0.1", port);
    if (tls) srv.reset(new iqxmlrpc::Https_server(at, ef.get())); else srv.reset(new iqxmlrpc::Http_server(at, ef.get()));
    if (methods) {
      iqxmlrpc::register_method<Echo>(*srv, "echo");
      iqxmlrpc::register_method<Raise>(*srv, "raise");
      iqxmlrpc::register_method<Big>(*srv, "big");
    }
  }
  void run_here() {
    while (retry) { try { srv->work(); returned = true; return; } catch (const std::bad_alloc&) {} catch (...) { break; } }
    try { srv->work(); }
    catch (const std::exception& e) { Guard g; escaped = std::string("exception left the server loop: ") + e.what(); }
    catch (...) { Guard g; escaped = "unknown exception left the server loop"; }
    returned = true;
  }
  void start() { returned = false; tid = spawn("server", [this] { run_here(); }, false); wait_idle(); }
  void start_nowait() { returned = false; tid = spawn("server", [this] { run_here(); }, false); }
  bool alive() const { return !returned; }
  void stop() {
    if (tid < 0) return;
    { AsLib al; if (!returned) srv->set_exit_flag(); }
    join(tid); tid = -1;
  }
  void destroy() { AsLib al; ef.reset(); srv.reset(); }
  ~Box() { stop(); destroy(); Guard g; escaped = std::string(); }
};

inline std::string calls_text() {
  Guard g; std::string s; for (auto& c : L().calls) s += c.name + "(" + c.arg + ") "; return s;
}
}
