// A scripted HTTP server (raw peer) and a client under test, shared by the client-side properties.
#pragma once
#include "net.h"
#include <libiqxmlrpc/client.h>
#include <libiqxmlrpc/client_conn.h>
#include <libiqxmlrpc/http_client.h>
#include <poll.h>
#include <sys/socket.h>

namespace nk {
// ---- reference reader of requests --------------------------------------------------------------------
struct Seen {
  std::string raw, line, body, call; std::map<std::string, std::string> h; std::vector<std::string> names; int conn = 0; int64_t at = 0; std::string err;
  int no = -1;                        // number of the call, from its first parameter
};
inline bool take_request(std::string& buf, Seen& s) {
  size_t e = buf.find("\r\n\r\n"); if (e == std::string::npos) return false;
  std::string head = buf.substr(0, e + 2); size_t p = head.find("\r\n"); s.line = head.substr(0, p); p += 2;
  while (p < head.size()) {
    size_t q = head.find("\r\n", p); std::string l = head.substr(p, q - p); p = q + 2;
    size_t c = l.find(": "); if (c == std::string::npos) { s.err = "bad header line " + esc(l, 60); continue; }
    std::string n = l.substr(0, c); for (auto& ch : n) ch = tolower(ch);
    if (s.h.count(n)) s.err = "header given twice: " + n;
    s.h[n] = l.substr(c + 2); s.names.push_back(n);
  }
  size_t len = 0; auto i = s.h.find("content-length"); if (i != s.h.end()) len = strtoul(i->second.c_str(), nullptr, 10);
  if (buf.size() < e + 4 + len) return false;
  s.body = buf.substr(e + 4, len); s.raw = buf.substr(0, e + 4 + len); buf.erase(0, e + 4 + len);
  RefDoc d = ref_request(s.body); s.call = d.verdict == RefDoc::INVALID ? "invalid(" + d.text + ")" : d.text;
  size_t k = s.call.find("i4:"); if (k != std::string::npos) s.no = atoi(s.call.c_str() + k + 3);
  return true;
}

// ---- replies -------------------------------------------------------------------------------------------
inline std::string text_of(int no, size_t pad = 0) { return "reply " + std::to_string(no) + " " + std::string(pad, 'r'); }
inline std::string result_xml(const std::string& t) { return "<?xml version=\"1.0\"?><methodResponse><params><param><value><string>" + t + "</string></value></param></params></methodResponse>"; }
inline std::string fault_xml(int code, const std::string& t) { return "<?xml version=\"1.0\"?><methodResponse><fault><value><struct><member><name>faultCode</name><value><int>" + std::to_string(code) + "</int></value></member><member><name>faultString</name><value><string>" + t + "</string></value></member></struct></value></fault></methodResponse>"; }
inline std::string http_reply(const std::string& body, const std::string& conn, int code = 200, long len = -1, int shape = 0) {
  std::string n = std::to_string(len < 0 ? (long)body.size() : len), c = std::to_string(code);
  switch (shape) {
    case 1: return "HTTP/1.0 " + c + " OK\nContent-Length: " + n + "\nConnection: " + conn + "\n\n" + body;
    case 2: return "HTTP/1.1 " + c + " All is fine\r\nSERVER:x y\r\nX-Extra:  a: b \r\ncontent-LENGTH:" + n + "\r\nConnection: " + conn + "\r\nContent-Type: text/xml; charset=utf-8\r\n\r\n" + body;
    case 3: return "HTTP/1.1 " + c + "\r\nContent-Length:   " + n + "   \r\nConnection: " + conn + "\r\n\r\n" + body;
    default: return "HTTP/1.1 " + c + " OK\r\nConnection: " + conn + "\r\nContent-Length: " + n + "\r\nContent-Type: text/xml\r\nServer: peer\r\n\r\n" + body;
  }
}

// ---- a raw server that handles one request after the other by calling act(request, connection) -----------
struct PeerSrv {
  int tid = -1; int port; std::string ip; bool stopping = false;
  std::vector<Seen> seen; int conns = 0;
  struct C { int fd; int id; std::string buf; bool dead = false; };
  std::vector<C> cs;
  std::function<void(Seen&, C&)> act;
  std::function<void(C&)> raw;                    // if set: called on new bytes instead of act
  std::function<bool(C&)> on_accept;              // false: connection is handled by nobody
  explicit PeerSrv(int p = 3000, const std::string& i = "127.0.0.1") : port(p), ip(i) {}
  void start() { tid = spawn("peer", [this] { loop(); }, true); wait_idle(); }
  void drop(C& c, bool rst) { if (c.fd >= 0) { if (rst) net::reset(c.fd); else net::close_fd(c.fd); } c.fd = -1; c.dead = true; }
  void loop() {
    int l = net::tcp_listen(ip, port), ctl = net::tcp_listen("127.0.0.1", 100 + port);
    for (;;) {
      std::vector<pollfd> p;
      { Guard g; p.push_back({l, POLLIN, 0}); p.push_back({ctl, POLLIN, 0}); for (auto& c : cs) if (!c.dead) p.push_back({c.fd, POLLIN, 0}); }
      ::poll(p.data(), p.size(), -1);
      bool nw = p[0].revents, st = p[1].revents; std::vector<int> rd;
      { Guard g; for (size_t i = 2; i < p.size(); i++) if (p[i].revents) rd.push_back(p[i].fd); p = std::vector<pollfd>(); }
      if (st) break;
      for (int f : rd) {
        size_t k = 0; while (k < cs.size() && cs[k].fd != f) k++;
        if (k == cs.size()) continue;
        std::string d = net::recv_some(f);
        if (d.empty()) { drop(cs[k], false); continue; }
        { Guard g; cs[k].buf += d; d = std::string(); }
        if (raw) { raw(cs[k]); continue; }
        for (;;) {
          Seen s; { Guard g; s.conn = cs[k].id; s.at = now_ms(); if (cs[k].dead || !take_request(cs[k].buf, s)) break; seen.push_back(s); }
          act(seen.back(), cs[k]);
          Guard g; s = Seen();
        }
      }
      { Guard g; rd = std::vector<int>(); }
      if (nw) { int f = net::tcp_accept(l); if (f >= 0) { { Guard g; C c; c.fd = f; c.id = ++conns; cs.push_back(c); } if (on_accept && !on_accept(cs.back())) cs.back().dead = true; } }
    }
    for (auto& c : cs) if (c.fd >= 0) net::close_fd(c.fd);
    net::close_fd(l); net::close_fd(ctl);
    Guard g; cs = std::vector<C>();
  }
  void stop() { if (tid < 0) return; int f = net::tcp_connect("127.0.0.1", 100 + port); join(tid); net::close_fd(f); tid = -1; }
  ~PeerSrv() { stop(); Guard g; seen = std::vector<Seen>(); act = nullptr; raw = nullptr; on_accept = nullptr; ip = std::string(); }
};

// ---- one call ----------------------------------------------------------------------------------------------
struct Got { bool ok = false, timeout = false; std::string text; int64_t t0 = 0, t1 = 0; std::string kind; int code = 0; };
inline const char* (*other_kind)(const std::exception&) = nullptr;   // names exceptions that only some harnesses know
inline Got call_client(iqxmlrpc::Client_base& c, const std::string& method, const Param_list& pl, const iqxmlrpc::XHeaders* xh = nullptr) {
  Got g; g.t0 = now_ms();
  auto set = [&](bool ok, const std::string& t, const char* kind, int code = 0) { Guard gg; g.ok = ok; g.text = t; g.kind = kind; g.code = code; };
  try {
    iqxmlrpc::Response r = xh ? c.execute(method, pl, *xh) : c.execute(method, pl);
    Guard gg;
    if (r.is_fault()) set(true, "fault " + std::to_string(r.fault_code()) + " \"" + esc(r.fault_string()) + "\"", "fault", r.fault_code());
    else set(true, "result " + show(from_lib(r.value())), "result");
  }
  catch (const iqxmlrpc::Client_timeout& e) { g.timeout = true; set(false, "timeout", "timeout"); }
  catch (const iqxmlrpc::http::Error_response& e) { set(false, std::string("exception: ") + e.what(), "http", e.response_header()->code()); }
  catch (const iqnet::network_error& e) { set(false, std::string("exception: ") + e.what(), "network"); }
  catch (const iqxmlrpc::http::Malformed_packet& e) { set(false, std::string("exception: ") + e.what(), "protocol"); }
  catch (const iqxmlrpc::Parse_error& e) { set(false, std::string("exception: ") + e.what(), "protocol"); }
  catch (const iqxmlrpc::XML_RPC_violation& e) { set(false, std::string("exception: ") + e.what(), "protocol"); }
  catch (const std::exception& e) { set(false, std::string("exception: ") + e.what(), other_kind ? other_kind(e) : "other"); }
  catch (...) { set(false, "unknown exception", "other"); }
  g.t1 = now_ms();
  return g;
}
inline Got call_no(iqxmlrpc::Client_base& c, int no, size_t pad = 0) {
  Param_list pl; pl.push_back(Value(no)); if (pad) pl.push_back(Value(std::string(pad, 'p')));
  return call_client(c, "echo", pl);
}
typedef iqxmlrpc::Client<iqxmlrpc::Http_client_connection> HttpClient;
}
