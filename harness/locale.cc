// C33: the locale of the application has no influence. What is written and read under it is compared with the classic one.
#include "rv.h"
#include "libiqxmlrpc/http.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include "libiqxmlrpc/xheaders.h"
#include "lokit.h"
#include <cstring>
using namespace mc;
using namespace iqxmlrpc;

namespace {
struct LOp { std::string name; std::function<std::string()> f; };
std::vector<LOp>* LOPS;
std::string doc_of(const RV& v) { Param_list p; p.push_back(to_lib(v)); return dump_request(Request("m", p)) + dump_response(Response(new Value(to_lib(v)))); }
std::string parse_of(const std::string& tag, const std::string& text) {
  Response r = parse_response("<methodResponse><params><param><value><" + tag + ">" + text + "</" + tag + "></value></param></params></methodResponse>");
  RV v = from_lib(r.value()); if (v.k != RV::DBL) return show(v); double d = r.value().get_double(); uint64_t u; memcpy(&u, &d, sizeof u); return "double " + std::to_string(u);
}
std::string cased(const std::string& s, int how) { std::string r = s; for (size_t i = 0; i < r.size(); i++) if (isalpha((unsigned char)r[i])) r[i] = how == 0 ? r[i] & ~32 : how == 1 ? r[i] | 32 : (i & 1) ? r[i] | 32 : r[i] & ~32; return r; }
std::string read_of(const std::string& text, bool strict, size_t max) {
  http::Packet_reader rd; rd.set_verification_level(strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK); rd.set_max_size(max);
  std::unique_ptr<http::Packet> p(rd.read_request(text)); if (!p) return rd.expect_continue() ? "waits, asked to go on" : "waits";
  const http::Request_header* h = dynamic_cast<const http::Request_header*>(p->header()); std::string u, w, r = std::to_string(p->content().size()) + (h->conn_keep_alive() ? " keep" : " close");
  if (h->has_authinfo()) { h->get_authinfo(u, w); r += " " + u + "/" + w; }
  XHeaders x; h->get_xheaders(x); for (auto& i : x) r += " " + i.first + "=" + i.second;
  return r;
}
void make() {
  LOPS = new std::vector<LOp>; auto add = [](const std::string& n, std::function<std::string()> f) { LOPS->push_back(LOp{n, f}); };
  static const long I[] = {0, 7, 999, 1000, -1000, 12345, 1234567, -1234567, 2147483647L, -2147483648L};
  for (long i : I) { add("int " + std::to_string(i), [=] { return doc_of(RV::in((int)i)); }); add("int64 " + std::to_string(i), [=] { return doc_of(RV::i8(i)); }); }
  add("int64 max", [] { return doc_of(RV::i8(9223372036854775807LL)); }); add("int64 min", [] { return doc_of(RV::i8(-9223372036854775807LL - 1)); });
  static const double D[] = {0, 0.5, -0.5, 1000, 1234.5, 1234567.25, 1e22, 1e-7, 1e300, -1.7976931348623157e308, 0.1};
  for (double d : D) { char b[40]; snprintf(b, sizeof b, "double %g", d); add(b, [=] { return doc_of(RV::db(d)); }); }
  add("boolean", [] { return doc_of(RV::bo(true)); }); add("date", [] { return doc_of(RV::date("20240229T23:59:58")); }); add("binary", [] { return doc_of(RV::bin(std::string("\xa0\x85_", 3))); });
  add("container", [] { return doc_of(RV::map({{"a", RV::arr({RV::in(5000), RV::db(1.5)})}, {"b", RV::i8(-123456789)}})); });
  add("fault", [] { return dump_response(Response(-32500, "text")); });
  static const char* T[] = {"i4", "int", "i8", "double", "boolean"};
  static const char* X[] = {"0", "1", "1000", "-1000", "1234567", "1,000", "1.000", "1 000", "1.234.567", "1,234,567", "1 2 3", "1.5", "1,5", "-0,25", "1234.5", "1.234,5", "1e3", "1e-3", "+7", "7.", ",5", "12_", "_12", "12\xc2\xa0", "wahr", "true"};
  for (auto t : T) for (auto x : X) add(std::string("reading ") + t + " " + x, [=] { return parse_of(t, x); });
  add("reading fault", [] { Response r = parse_response(dump_response(Response(-32500, "text"))); return std::to_string(r.fault_code()); });
  static const char* DT[] = {"20240229T23:59:58", "2024022 T23:59:58", "20240229T23:59:5 ", "2.240229T23:59:58"};
  for (auto t : DT) add(std::string("reading date ") + t, [=] { return parse_of("dateTime.iso8601", t); });
  static const char* B[] = {"YWJj", "YW Jj", "YW\nJj", "YW_Jj", "YW\xc2\xa0Jj"};
  for (auto t : B) add(std::string("reading base64 ") + esc(t), [=] { return parse_of("base64", t); });
  for (int port : {0, 80, 999, 1000, 8080, 65535}) add("request header, port " + std::to_string(port), [=] { http::Request_header h("/RPC", "host", port); return h.dump(); });
  for (int code : {100, 200, 404, 500, 1000}) add("response header " + std::to_string(code), [=] { http::Response_header h(code, "Phrase"); return h.dump(); });
  for (size_t n : {0, 5, 999, 1000, 123456}) { add("packet of " + std::to_string(n), [=] { http::Packet p(new http::Response_header, std::string(n, 'x')); p.set_keep_alive(); return p.dump(); }); add("request packet of " + std::to_string(n), [=] { http::Request_header* h = new http::Request_header("/", "host", 3000); h->set_authinfo("user", "word"); XHeaders x; x["X-IDENTITY"] = "I"; h->set_xheaders(x); http::Packet p(h, std::string(n, 'x')); return p.dump(); }); }
  for (int how = 0; how < 3; how++) for (int strict = 0; strict < 2; strict++) {
    for (size_t n : {5, 999, 1000, 1234}) for (size_t max : {0, 1200}) add("reading a request of " + std::to_string(n) + (how == 0 ? ", capitals" : how == 1 ? ", small letters" : ", mixed letters") + (strict ? ", strict" : "") + (max ? ", limited" : ""), [=] {
      return read_of("POST /RPC HTTP/1.1\r\n" + cased("Host", how) + ": h\r\n" + cased("User-Agent", how) + ": u\r\n" + cased("Content-Type", how) + ": " + cased("text/xml", how) + "\r\n" + cased("Content-Length", how) + ": " + std::to_string(n) + "\r\n" + cased("Authorization", how) + ": " + cased("Basic", how) + " dXNlcjp3b3Jk\r\n" + cased("Connection", how) + ": " + cased("keep-alive", how) + "\r\n" + cased("X-Identity", how) + ": Ii\r\n\r\n" + std::string(n, 'x'), strict, max); });
    add(std::string("reading a request that asks first, letters ") + std::to_string(how) + (strict ? ", strict" : ""), [=] { return read_of("POST /RPC HTTP/1.1\r\nHost: h\r\nContent-Type: text/xml\r\nContent-Length: 1000\r\n" + cased("Expect", how) + ": " + cased("100-continue", how) + "\r\n\r\n", strict, 0); });
  }
  for (auto n : {"1000", "1,000", "1.000", "1 000", "10_", "\xb2", "10\xb2", "-1", "1e3"}) for (int strict = 0; strict < 2; strict++) add(std::string("content length ") + esc(n) + (strict ? ", strict" : ""), [=] { return read_of("POST /RPC HTTP/1.1\r\nContent-Type: text/xml\r\nContent-Length: " + std::string(n) + "\r\n\r\n" + std::string(1000, 'x'), strict, 0); });
  for (auto l : {"HTTP/1.1 200 OK", "HTTP/1.1 1,000 OK", "HTTP/1.1 200 I am fine", "HTTP/1.1_200_OK", "HTTP/1.1 200 OK_", "HTTP/1.1 200 OK\xa0", "HTTP/1.1 40.4 X"}) add(std::string("status line ") + esc(l), [=] {
    http::Packet_reader rd; std::unique_ptr<http::Packet> p(rd.read_response(std::string(l) + "\r\nCONTENT-LENGTH: 1000\r\nCONNECTION: KEEP-ALIVE\r\n\r\n" + std::string(1000, 'x'), false)); if (!p) return std::string("waits");
    const http::Response_header* h = dynamic_cast<const http::Response_header*>(p->header()); return std::to_string(h->code()) + " " + h->phrase() + (h->conn_keep_alive() ? " keep " : " close ") + std::to_string(p->content().size()); });
  for (auto k : {"X-IDENTITY", "x-identity", "X-iDeNtItY", "I-X"}) add(std::string("extra header ") + k, [=] { XHeaders x; x[k] = "v"; std::string r; for (auto& i : x) r += i.first; return r + (x.find("x-identity") != x.end() ? " found" : " not found") + (x.find("X-IDENTITY") != x.end() ? " found" : " not found"); });
  add("extra headers from a map", [] { std::map<std::string, std::string> m; m["X-IDENTITY"] = "a"; m["x-ii"] = "b"; XHeaders x; x = m; std::string r; for (auto& i : x) r += i.first + "=" + i.second + " "; return r; });
}
std::string run_op(const LOp& o) { try { return o.f(); } catch (const std::exception& e) { return std::string("refused"); } }
void one() {
  const LOp& o = (*LOPS)[choose((int)LOPS->size(), C_FREE, "operation")]; int l = 1 + choose(lo::COUNT - 1, C_FREE, "locale"), swap = choose(2, C_FREE, "order");
  fake_time = 1700000000;
  std::string a, b; bool ok = true;
  if (swap) { { Guard g; ok = lo::set(l); } b = run_op(o); { Guard g; lo::set(0); } a = run_op(o); }
  else { a = run_op(o); { Guard g; ok = lo::set(l); } b = run_op(o); { Guard g; lo::set(0); } }
  fake_time = -1;
  if (!ok) { Guard g; fprintf(stderr, "locale %s could not be set\n", lo::name(l)); abort(); }
  if (a != b) violation("locale", o.name + " gives \"" + esc(b, 700) + "\" under a locale with " + lo::name(l) + " and \"" + esc(a, 700) + "\" under the classic one");
  outcome(a == "refused" ? "refused" : "done"); state(hash_str(o.name + a + std::to_string(l)));
}
}
void c33_codec(Driver& D) {
  make(); Scenario s; s.managed = false; s.name = "operations"; s.note = std::to_string(LOPS->size()) + " ways to write or read numbers, documents and headers under each of " + std::to_string(lo::COUNT - 1) + " locales, before and after the classic one";
  s.run = one; D.scenarios.push_back(s);
}
