// Expectations about one connection, shared by the server-side properties.
#pragma once
#include "netkit.h"
namespace nk {
struct Exp {
  std::string text;              // bytes of the request
  std::string call;              // "name(args)" the server must invoke, "" none
  int code = 200; std::string rpc; bool any_rpc = false;
  bool keep = true;
  std::vector<int> codes;        // alternatives for code
  int interim = -1;              // expected number of interim replies (-1: 0)
};
inline Exp x_echo(int v, bool keep = true) { Guard g; Exp e; e.text = rq_echo(v, keep); e.call = "echo(i4:" + std::to_string(v) + ")"; e.rpc = "result i4:" + std::to_string(v); e.keep = keep; return e; }
inline Exp x_big(int n, bool keep = true) { Guard g; Exp e; e.text = rq("big", xint(n), keep); e.call = "big(i4:" + std::to_string(n) + ")"; e.rpc = "result \"" + esc(std::string(n, 'y')) + "\""; e.keep = keep; return e; }
inline Exp x_fault(bool keep = true) { Guard g; Exp e; e.text = rq("raise", xint(0), keep); e.call = "raise(i4:0)"; e.rpc = "fault 17 \"seventeen & <more>\""; e.keep = keep; return e; }
inline Exp x_unknown(bool keep = true) { Guard g; Exp e; e.text = rq("nosuch", "", keep); e.any_rpc = true; e.rpc = "fault"; e.keep = keep; return e; }

// compares the final replies of a connection with what was expected; n = number of requests completely sent
inline bool judge(Conn& c, const std::vector<Exp>& e, const std::string& who, bool check_open = true) {
  Guard g;
  if (!c.rd.err.empty()) { violation("bad-reply", who + ": " + c.rd.err); return false; }
  std::vector<Rep*> fin; for (auto& r : c.rd.out) if (r.code != 100) fin.push_back(&r);
  if (!c.rd.buf.empty()) { violation("partial-reply", who + ": incomplete reply, got " + c.rd.text() + " and " + esc(c.rd.buf, 60)); return false; }
  if (fin.size() != e.size()) { violation("reply-count", who + ": " + std::to_string(e.size()) + " request(s) but " + std::to_string(fin.size()) + " reply(ies): " + c.rd.text() + " calls: " + calls_text()); return false; }
  for (size_t i = 0; i < e.size(); i++) {
    std::string at = who + " request " + std::to_string(i + 1) + ": ";
    bool ok = e[i].codes.empty() ? fin[i]->code == e[i].code : false; for (int k : e[i].codes) if (k == fin[i]->code) ok = true;
    if (!ok) { violation("status", at + "expected status " + std::to_string(e[i].code) + ", got " + c.rd.text()); return false; }
    if (fin[i]->code == 200) {
      std::string r = fin[i]->rpc();
      bool m = e[i].any_rpc ? r.compare(0, e[i].rpc.size(), e[i].rpc) == 0 : r == e[i].rpc;
      if (!m) { violation("wrong-reply", at + "expected " + e[i].rpc + ", got " + r); return false; }
    }
    if (fin[i]->keep() != e[i].keep) { violation("keep-alive", at + (e[i].keep ? "keep-alive not confirmed" : "close not announced") + ": " + c.rd.text()); return false; }
  }
  if (check_open && !e.empty()) {
    bool gone = c.gone();
    if (e.back().keep && gone) { violation("closed", who + ": connection was closed although keep-alive was agreed"); return false; }
    if (!e.back().keep && !gone) { violation("not-closed", who + ": connection stays open after a reply that announced close"); return false; }
  }
  return true;
}
inline bool judge_calls(const std::vector<Exp>& e, const std::string& who) {
  Guard g; std::string want; for (auto& x : e) if (!x.call.empty()) want += x.call + " ";
  std::string got = calls_text();
  if (got != want) { violation("calls", who + ": invoked " + (got.empty() ? "nothing" : got) + ", expected " + (want.empty() ? "nothing" : want)); return false; }
  return true;
}
inline bool judge_server(Box& b, const std::string& who) {
  Guard g;
  if (b.returned || !b.escaped.empty()) { violation("server-died", who + ": the server loop ended: " + b.escaped); return false; }
  return true;
}
inline bool judge_bad_ops(const std::string& who) {
  Guard g; if (net::bad_ops()) { violation("closed-fd", who + ": " + net::bad_ops_text()); return false; } return true;
}
void c07(Driver&); void c08(Driver&); void c09(Driver&); void c10(Driver&); void c11(Driver&); void c12(Driver&);
void c13(Driver&); void c14(Driver&); void c15(Driver&); void c16(Driver&); void c17(Driver&); void c31(Driver&); void c32(Driver&); void c33(Driver&);
}
