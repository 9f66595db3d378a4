// Value, document and codec properties: C01 .. C06.
#include "rv.h"
#include <sstream>
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include "refdoc.h"
#include <climits>
#include <cfloat>
#include <ctime>
#include <set>

using namespace mc;
using namespace iqxmlrpc;

static uint64_t H(const std::string& s) { return hash_str(s); }

// =================================================================================================
// C01
// =================================================================================================
enum Pos { P_PARAM, P_PARAM2, P_RESULT, P_FAULT_STR, NPOS };

// sends v through the given position of a document and returns what the receiver sees
static void roundtrip(const std::vector<RV>& params, const char* what) {
  // request position
  Guard* g = nullptr; (void)g;
  std::string doc;
  try {
    Param_list pl;
    for (auto& p : params) pl.push_back(to_lib(p));
    doc = dump_request(Request("m.n", pl));
    state(H(doc));
    std::unique_ptr<Request> r(parse_request(doc));
    if (r->get_name() != "m.n") violation("roundtrip", std::string(what) + ": method name changed in " + esc(doc, 2000));
    std::vector<RV> got;
    for (auto& v : r->get_params()) got.push_back(from_lib(v));
    if (got != params) {
      std::string m; for (auto& x : params) m += show(x) + " "; m += "=> "; for (auto& x : got) m += show(x) + " ";
      violation("roundtrip", std::string(what) + " as call parameter(s): " + m + " via " + esc(doc, 2000));
    }
  } catch (const std::exception& e) {
    std::string m; for (auto& x : params) m += show(x) + " ";
    violation("roundtrip", std::string(what) + ": call with " + m + " is not read back: " + e.what() + " doc " + esc(doc, 2000));
  }
}
static void roundtrip_result(const RV& v, const char* what) {
  for (int omit = 0; omit < 2; omit++) {
    Value::omit_string_tag_in_responses(omit);
    std::string doc;
    try {
      doc = dump_response(Response(new Value(to_lib(v))));
      state(H(doc));
      Response r = parse_response(doc);
      if (r.is_fault()) violation("roundtrip", std::string(what) + ": result " + show(v) + " read back as fault");
      else { RV got = from_lib(r.value()); if (got != v) violation("roundtrip", std::string(what) + (omit ? " as result (string tags omitted): " : " as result: ") + show(v) + " => " + show(got) + " via " + esc(doc, 2000)); }
    } catch (const std::exception& e) {
      violation("roundtrip", std::string(what) + ": result " + show(v) + (omit ? " (string tags omitted)" : "") + " is not read back: " + e.what() + " doc " + esc(doc, 2000));
    }
    Value::omit_string_tag_in_responses(false);
  }
}
static void roundtrip_fault(int code, const std::string& text) {
  for (int omit = 0; omit < 2; omit++) {
    Value::omit_string_tag_in_responses(omit);
    std::string doc;
    try {
      doc = dump_response(Response(code, text));
      state(H(doc));
      Response r = parse_response(doc);
      if (!r.is_fault() || r.fault_code() != code || r.fault_string() != text)
        violation("roundtrip", "fault (" + std::to_string(code) + ", \"" + esc(text) + "\")" + (omit ? " with string tags omitted" : "") + " read back as " + (r.is_fault() ? std::to_string(r.fault_code()) + " \"" + esc(r.fault_string()) + "\"" : "a result"));
    } catch (const std::exception& e) {
      violation("roundtrip", "fault (" + std::to_string(code) + ", \"" + esc(text) + "\")" + (omit ? " with string tags omitted" : "") + " is not read back: " + e.what() + " doc " + esc(doc, 2000));
    }
    Value::omit_string_tag_in_responses(false);
  }
}
static void everywhere(const RV& v, const char* what) {
  roundtrip({v}, what);
  roundtrip({RV::in(1), v, RV::str("z")}, what);
  roundtrip({RV::arr({v})}, what);
  roundtrip({RV::arr({v, v, v}), RV::bo(true)}, what);
  roundtrip({RV::map({{"k", v}}), v}, what);
  roundtrip({RV::map({{"a", v}, {"b", v}, {"c", RV::arr({v, RV::map({{"d", v}})})}})}, what);
  roundtrip_result(v, what);
  roundtrip_result(RV::arr({v, RV::in(7), v}), what);
  roundtrip_result(RV::map({{"k", v}, {"l", RV::arr({v})}}), what);
  if (v.k == RV::STR) { roundtrip_fault(3, v.s); roundtrip({RV::map({{v.s, RV::in(1)}, {v.s + "x", RV::nil()}})}, what); roundtrip_result(RV::map({{v.s, v}}), what); }
  if (v.k == RV::INT) roundtrip_fault((int)v.i, "f");
}

static std::vector<RV> scalar_set() {
  std::vector<RV> s;
  for (int v : {0, 1, -1, 9, 10, -10, 255, 256, 65535, 65536, INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1, 1000000000, -1000000000}) s.push_back(RV::in(v));
  for (int64_t v : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)INT_MAX + 1, (int64_t)INT_MIN - 1, (int64_t)INT_MAX, (int64_t)1 << 53, ((int64_t)1 << 53) + 1, INT64_MAX, INT64_MIN, INT64_MIN + 1}) s.push_back(RV::i8(v));
  for (int k = 0; k < 32; k++) { s.push_back(RV::in((int)(1u << k))); s.push_back(RV::in((int)((1u << k) - 1))); }
  for (int k = 0; k < 64; k++) { s.push_back(RV::i8((int64_t)(1ull << k))); s.push_back(RV::i8((int64_t)((1ull << k) - 1))); s.push_back(RV::i8(-(int64_t)((1ull << k) >> 1) - 1)); }
  s.push_back(RV::bo(true)); s.push_back(RV::bo(false)); s.push_back(RV::nil());
  s.push_back(RV::arr()); s.push_back(RV::map());
  for (double d : {0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 1.0 / 3, 3.14159265358979, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e100, 1e-5, 1e-7, 1e-100, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_MIN / 2, DBL_TRUE_MIN, DBL_EPSILON, 9007199254740993.0, 123456789.123456789, 0.30000000000000004, 5e-324, 100.0, 12345678.0}) s.push_back(RV::db(d));
  for (int n = 0; n < 12; n++) { std::string b; for (int k = 0; k < n; k++) b += (char)(k * 37 + 200); s.push_back(RV::bin(b)); s.push_back(RV::bin(std::string(n, '\0'))); }
  std::string all; for (int k = 0; k < 256; k++) all += (char)k;
  s.push_back(RV::bin(all)); s.push_back(RV::bin(std::string(5000, 'q'))); s.push_back(RV::bin(all + all + all + all));
  for (const char* d : {"19000101T00:00:00", "20240229T23:59:59", "99991231T23:59:59", "20381231T12:00:01", "19700101T00:00:00", "20000101T10:20:30"}) s.push_back(RV::date(d));
  return s;
}

static const char* CH[] = {"a", " ", "\n", "\t", "\r", "<", ">", "&", "\"", "'", "]", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbf\xbd", "0", "\x7f", "\xc2\x85", "%", ";"};
static const int NCH = sizeof CH / sizeof *CH;

static RV gen_tree(int& nodes, int depth, int maxdepth) {
  // leaf alphabet + two composite constructors
  static const RV leaves[] = {RV::in(5), RV::str("x"), RV::nil(), RV::str(""), RV::str(" "), RV::bo(true), RV::bin("ab"), RV::bin(""), RV::db(1.5), RV::i8(5), RV::date("20240101T01:02:03")};
  const int nl = sizeof leaves / sizeof *leaves;
  nodes--;
  int c = choose(depth < maxdepth ? nl + 2 : nl, C_FREE, "node");
  if (c < nl) return leaves[c];
  RV r = c == nl ? RV::arr() : RV::map();
  int n = choose(std::min(nodes, 3) + 1, C_FREE, "children");
  static const char* keys[] = {"a", "b", "c"};
  for (int i = 0; i < n; i++) {
    if (nodes <= 0) break;
    RV x = gen_tree(nodes, depth + 1, maxdepth);
    if (r.k == RV::ARR) r.a.push_back(x); else r.m[keys[i]] = x;
  }
  return r;
}
// all trees of at most n nodes over a small leaf alphabet, deeper
static RV gen_small(int& nodes, int depth, int maxdepth) {
  static const RV leaves[] = {RV::in(5), RV::nil(), RV::str(""), RV::str("x")};
  nodes--;
  int c = choose(depth < maxdepth ? 6 : 4, C_FREE, "node");
  if (c < 4) return leaves[c];
  RV r = c == 4 ? RV::arr() : RV::map();
  int n = choose(std::min(nodes, 4) + 1, C_FREE, "children");
  static const char* keys[] = {"a", "b", "", "d"};
  for (int i = 0; i < n; i++) {
    if (nodes <= 0) break;
    RV x = gen_small(nodes, depth + 1, maxdepth);
    if (r.k == RV::ARR) r.a.push_back(x); else r.m[keys[i]] = x;
  }
  return r;
}

static void c01(Driver& D) {
  bool q = D.quick();
  auto add = [&](const char* name, const char* note, std::function<void()> f) { Scenario s; s.name = name; s.note = note; s.run = f; s.managed = false; D.scenarios.push_back(s); };
  add("scalars", "every boundary scalar in every position (parameter, among parameters, array, struct, nested, result, fault)", [] {
    Guard* none = nullptr; (void)none;
    static std::vector<RV>* S; if (!S) { Guard g; S = new std::vector<RV>(scalar_set()); }
    int i = choose((int)S->size(), C_FREE, "scalar"); everywhere((*S)[i], "scalar");
  });
  add("texts", q ? "every text of up to 3 characters over 20 character classes, in every position" : "every text of up to 4 characters over 20 character classes, in every position", [q] {
    std::string t; int max = q ? 3 : 4;
    for (int i = 0; i < max; i++) { int c = choose(NCH + 1, C_FREE, "char"); if (c == 0) break; t += CH[c - 1]; }
    everywhere(RV::str(t), "text");
  });
  add("long-texts", "texts around the parser's chunk sizes with a special character at and around each boundary", [] {
    static const int base[] = {0, 1, 255, 256, 299, 300, 509, 511, 512, 513, 1023, 1024, 2047, 2048, 3999, 4000, 4001, 4095, 4096, 4097, 8192, 16384, 65535, 65536};
    static const char* sp[] = {"&", "<", "\xc3\xa9", "\r", " ", "\xf0\x9f\x98\x80", "]]>", "\n"};
    int n = base[choose(24, C_FREE, "len")]; int off = choose(7, C_FREE, "off"); int k = choose(8, C_FREE, "special"); int pre = choose(2, C_FREE, "shift");
    std::string t(n, 'y'); size_t at = n > off + 3 ? n - off : 0; t.insert(at, sp[k]); if (pre) t = sp[k] + t;
    RV v = RV::str(t); roundtrip({v}, "long text"); roundtrip({RV::map({{t, v}})}, "long key"); roundtrip_result(v, "long text"); roundtrip_fault(1, t);
    roundtrip({RV::bin(t)}, "long binary");
  });
  add("doubles", "every binary exponent with 16 mantissa patterns and both signs", [] {
    int e = choose(2047, C_FREE, "exponent");
    static const uint64_t man[] = {0, 1, 2, 0xfffffffffffffULL, 0xffffffffffffeULL, 0x8000000000000ULL, 0x5555555555555ULL, 0xaaaaaaaaaaaaaULL, 0x123456789abcdULL, 0x999999999999aULL, 0x3333333333333ULL, 0x10000000ULL, 0x7ffffffffffffULL, 0xcccccccccccccULL, 0xfedcba9876543ULL, 0x0000080000000ULL};
    std::vector<RV> v;
    for (uint64_t m : man) for (int s = 0; s < 2; s++) { uint64_t b = ((uint64_t)s << 63) | ((uint64_t)e << 52) | m; double d; memcpy(&d, &b, 8); v.push_back(RV::db(d)); }
    roundtrip(v, "doubles"); roundtrip_result(RV::arr(v), "doubles");
  });
  int N = q ? 5 : 6;
  add("trees", "every value tree of up to N nodes over 11 leaf kinds, arrays and structs", [N] {
    int nodes = N; RV v = gen_tree(nodes, 0, 3); roundtrip({v}, "tree"); roundtrip_result(v, "tree");
  });
  int N2 = q ? 5 : 7;
  add("deep-trees", "every value tree of up to N nodes, depth 5, over 4 leaf kinds, arrays and structs with empty names", [N2] {
    int nodes = N2; RV v = gen_small(nodes, 0, 5); roundtrip({v, RV::in(1)}, "tree"); roundtrip_result(v, "tree");
  });
  add("param-lists", "every list of up to 4 parameters over 9 values", [] {
    static const RV set[] = {RV::in(1), RV::str(""), RV::nil(), RV::str(" "), RV::arr(), RV::map(), RV::arr({RV::nil(), RV::nil()}), RV::map({{"a", RV::nil()}, {"b", RV::str("t")}}), RV::bin("")};
    std::vector<RV> p; int n = choose(5, C_FREE, "count");
    for (int i = 0; i < n; i++) p.push_back(set[choose(9, C_FREE, "param")]);
    roundtrip(p, "parameters");
  });
  add("nesting", "nesting depth 1..60 of arrays, structs and alternations, wide containers", [] {
    int d = 1 + choose(60, C_FREE, "depth"), kind = choose(3, C_FREE, "kind"), leaf = choose(4, C_FREE, "leaf");
    static const RV leaves[] = {RV::in(1), RV::nil(), RV::str(""), RV::arr()};
    RV v = leaves[leaf];
    for (int i = 0; i < d; i++) { bool arr = kind == 0 || (kind == 2 && i % 2); v = arr ? RV::arr({v, RV::in(i)}) : RV::map({{"n", v}, {"o", RV::in(i)}}); }
    roundtrip({v, RV::str("end")}, "nesting"); roundtrip_result(v, "nesting");
    RV w = kind ? RV::map() : RV::arr();
    for (int i = 0; i < d * 10; i++) { if (kind) w.m["k" + std::to_string(i)] = leaves[leaf]; else w.a.push_back(leaves[leaf]); }
    roundtrip({w, RV::str("end")}, "wide"); roundtrip_result(w, "wide");
  });
  add("counts", "every number of parameters, elements and members up to 300, and around larger powers", [] {
    static const int more[] = {511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 10000};
    int i = choose(301 + 15, C_FREE, "count"), kind = choose(3, C_FREE, "kind"), n = i <= 300 ? i : more[i - 301];
    auto el = [&](int k) { return kind == 0 ? RV::in(k) : kind == 1 ? RV::str(std::to_string(k)) : k % 2 ? RV::arr({RV::in(k)}) : RV::map({{"k", RV::in(k)}}); };
    std::vector<RV> p; RV m = RV::map(); for (int k = 0; k < n; k++) { p.push_back(el(k)); m.m["k" + std::to_string(k)] = el(k); }
    roundtrip(p, "parameters"); roundtrip({RV::arr(p), m, RV::str("end")}, "elements"); roundtrip_result(RV::arr(p), "elements"); roundtrip_result(m, "members");
  });
  add("deep-nesting", "nesting depth up to 600", [] {
    int d = 60 + 30 * choose(19, C_FREE, "depth"), kind = choose(3, C_FREE, "kind");
    RV v = RV::in(d); for (int i = 0; i < d; i++) { bool arr = kind == 0 || (kind == 2 && i % 2); v = arr ? RV::arr({v}) : RV::map({{"n", v}}); }
    roundtrip({v}, "nesting"); roundtrip_result(v, "nesting");
  });
  add("method-names", "method names of up to 3 characters over 20 classes, and long ones", [] {
    std::string t; int len = choose(4, C_FREE, "length");
    if (!len) { static const int L[] = {10, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 70000}; t = std::string(L[choose(10, C_FREE, "long")], 'm'); }
    for (int i = 0; i < len; i++) t += CH[choose(NCH, C_FREE, "char")];
    std::string doc = dump_request(Request(t, Param_list(2, Value(5)))); state(H(doc));
    try { std::unique_ptr<Request> r(parse_request(doc)); if (r->get_name() != t || r->get_params().size() != 2) violation("method-name", "call of \"" + esc(t, 200) + "\" is read back as \"" + esc(r->get_name(), 200) + "\""); }
    catch (const std::exception& e) { violation("method-name", "call of \"" + esc(t, 200) + "\" is not read back: " + e.what()); }
  });
  add("characters", "every character of XML 1.0, in texts of 64", [] {
    int at = choose(0x110000 / 64, C_FREE, "block") * 64; std::string t;
    for (int c = at; c < at + 64; c++) {
      if (c < 0x20 && c != 9 && c != 10 && c != 13) continue;
      if ((c >= 0xd800 && c < 0xe000) || c == 0xfffe || c == 0xffff) continue;
      if (c < 0x80) t += (char)c; else if (c < 0x800) { t += (char)(0xc0 | c >> 6); t += (char)(0x80 | (c & 63)); }
      else if (c < 0x10000) { t += (char)(0xe0 | c >> 12); t += (char)(0x80 | (c >> 6 & 63)); t += (char)(0x80 | (c & 63)); }
      else { t += (char)(0xf0 | c >> 18); t += (char)(0x80 | (c >> 12 & 63)); t += (char)(0x80 | (c >> 6 & 63)); t += (char)(0x80 | (c & 63)); }
    }
    RV v = RV::str(t); roundtrip({v, RV::map({{t, v}})}, "characters"); roundtrip_result(v, "characters"); roundtrip_fault(1, t);
  });
  D.assumptions = {"texts are valid UTF-8 made of XML 1.0 characters", "doubles are finite", "date-times lie in years 1900-9999"};
}

// =================================================================================================
// C02: documents against a reference decoder built on libxml2's tree interface
// =================================================================================================
static void judge(const std::string& doc, bool response, const char* what) {
  state(H(doc));
  RefDoc ref;
  { Guard g; ref = response ? ref_response(doc) : ref_request(doc); }
  std::string got; bool accepted = false;
  try {
    if (!response) {
      std::unique_ptr<Request> r(parse_request(doc));
      accepted = true;
      got = "call " + esc(r->get_name()) + "(";
      for (auto& v : r->get_params()) got += show(from_lib(v)) + ",";
      got += ")";
    } else {
      Response r = parse_response(doc);
      accepted = true;
      got = r.is_fault() ? "fault " + std::to_string(r.fault_code()) + " \"" + esc(r.fault_string()) + "\"" : "result " + show(from_lib(r.value()));
    }
  } catch (const std::exception& e) { got = std::string("refused"); }
  outcome(ref.verdict == RefDoc::VALID ? "valid" : ref.verdict == RefDoc::INVALID ? "invalid" : "unspecified"); outcome(accepted ? "/accepted" : "/refused");
  if (ref.verdict == RefDoc::VALID) {
    if (!accepted) violation("valid-refused", std::string(what) + ": valid document refused, it denotes " + ref.text + ": " + esc(doc, 1500));
    else if (got != ref.text) violation("decoded-wrong", std::string(what) + ": document denotes " + ref.text + " but was decoded as " + got + ": " + esc(doc, 1500));
  } else if (ref.verdict == RefDoc::INVALID && accepted)
    violation("invalid-accepted", std::string(what) + ": document is invalid (" + ref.text + ") but was decoded as " + got + ": " + esc(doc, 1500));
}

// insertion of insignificant matter at every place between two tags
static const char* JUNK[] = {"", " ", "\n\t", "<!-- c -->", "<?pi x?>", " <!----> "};
static std::string WS(const char* l) { return JUNK[choose(6, C_SCRIPT, l)]; }
// spellings of a text
static std::string spell(const std::string& t, const char* l) {
  int c = choose(8, C_SCRIPT, l);
  std::string r;
  switch (c) {
    case 0: return t;
    case 1: for (unsigned char ch : t) { char b[16]; snprintf(b, sizeof b, "&#%d;", ch); r += b; } return r;
    case 2: for (unsigned char ch : t) { char b[16]; snprintf(b, sizeof b, "&#x%X;", ch); r += b; } return r;
    case 3: return "<![CDATA[" + t + "]]>";
    case 4: return t.substr(0, t.size() / 2) + "<!-- in -->" + t.substr(t.size() / 2);
    case 5: return t.substr(0, t.size() / 2) + "<![CDATA[" + t.substr(t.size() / 2) + "]]>";
    case 6: return "<![CDATA[" + t.substr(0, t.size() / 2) + "]]>" + t.substr(t.size() / 2);
    default: return t.substr(0, t.size() / 2) + "<?pi y?>" + t.substr(t.size() / 2) + "<!--e-->";
  }
}
static std::string doc_value(int depth);
static std::string scalar_doc() {
  switch (choose(12, C_FREE, "scalar")) {
    case 0: return "<i4>" + spell("42", "t") + "</i4>";
    case 1: return "<int>" + spell("-7", "t") + "</int>";
    case 2: return "<i8>" + spell("5000000000", "t") + "</i8>";
    case 3: return "<boolean>" + spell("1", "t") + "</boolean>";
    case 4: return "<double>" + spell("-1.25", "t") + "</double>";
    case 5: return "<string>" + spell("te xt", "t") + "</string>";
    case 6: return "<string>" + std::string(choose(2, C_SCRIPT, "blank") ? "  " : "") + "</string>";
    case 7: return spell("plain text", "t");
    case 8: return "<base64>" + spell("YWJj", "t") + "</base64>";
    case 9: return "<dateTime.iso8601>" + spell("20240131T10:20:30", "t") + "</dateTime.iso8601>";
    case 10: return choose(2, C_SCRIPT, "nilform") ? "<nil></nil>" : "<nil/>";
    default: return choose(2, C_SCRIPT, "strform") ? "<string/>" : "";
  }
}
static std::string doc_value(int depth) {
  std::string in; bool plain = false;
  int k = depth > 0 ? choose(3, C_FREE, "kind") : 0;
  if (k == 0) { in = scalar_doc(); plain = in.empty() || in[0] != '<' || in.compare(0, 9, "<![CDATA[") == 0; }
  else if (k == 1) {
    int n = choose(3, C_FREE, "n"); in = "<array>" + WS("w") + "<data>" + WS("w");
    for (int i = 0; i < n; i++) in += doc_value(depth - 1) + WS("w");
    in += "</data>" + WS("w") + "</array>";
  } else {
    int n = choose(3, C_FREE, "n"); in = "<struct>" + WS("w");
    static const char* nm[] = {"a", "b c"};
    for (int i = 0; i < n; i++) in += "<member>" + WS("w") + "<name>" + spell(nm[i], "nm") + "</name>" + WS("w") + doc_value(depth - 1) + WS("w") + "</member>" + WS("w");
    in += "</struct>";
  }
  if (plain) return "<value>" + in + "</value>";
  return "<value>" + WS("w") + in + WS("w") + "</value>";
}
static std::string gen_doc(bool resp, int depth) {
  static const char* pro[] = {"", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!-- first -->", "\xef\xbb\xbf"};
  std::string d = pro[choose(5, C_SCRIPT, "prolog")];
  if (!resp) {
    d += "<methodCall>" + WS("w") + "<methodName>" + spell("sys.call", "name") + "</methodName>" + WS("w");
    int n = choose(depth > 1 ? 3 : 4, C_FREE, "params");
    if (n) {
      d += "<params>" + WS("w");
      for (int i = 1; i < n; i++) d += "<param>" + WS("w") + doc_value(i == 1 ? depth : 0) + WS("w") + "</param>" + WS("w");
      d += "</params>" + WS("w");
    }
    d += "</methodCall>" + WS("w");
  } else {
    d += "<methodResponse>" + WS("w");
    if (choose(2, C_FREE, "fault")) {
      std::string c = "<member>" + WS("w") + "<name>" + spell("faultCode", "fc") + "</name>" + WS("w") + "<value><int>" + spell("-32", "code") + "</int></value></member>";
      std::string s = "<member><name>faultString</name>" + WS("w") + "<value>" + (choose(2, C_SCRIPT, "ft") ? "oh no" : "<string>" + spell("oh no", "fs") + "</string>") + "</value></member>";
      bool sw = choose(2, C_SCRIPT, "order");
      d += "<fault>" + WS("w") + "<value>" + WS("w") + "<struct>" + WS("w") + (sw ? s : c) + WS("w") + (sw ? c : s) + "</struct>" + WS("w") + "</value>" + WS("w") + "</fault>";
    } else d += "<params>" + WS("w") + "<param>" + WS("w") + doc_value(depth) + WS("w") + "</param>" + WS("w") + "</params>";
    d += WS("w") + "</methodResponse>" + WS("w");
  }
  return d;
}

// base documents for mutation, as token lists
static std::vector<std::string> tokens(const std::string& d) {
  std::vector<std::string> t; size_t i = 0;
  while (i < d.size()) { size_t e = d[i] == '<' ? d.find('>', i) + 1 : d.find('<', i); if (e == std::string::npos) e = d.size(); t.push_back(d.substr(i, e - i)); i = e; }
  return t;
}
static const char* BASES[] = {
  "<methodCall><methodName>m</methodName><params><param><value><i4>1</i4></value></param><param><value>t</value></param></params></methodCall>",
  "<methodCall><methodName>m</methodName><params><param><value><array><data><value><nil/></value><value><int>2</int></value></data></array></value></param></params></methodCall>",
  "<methodCall><methodName>m</methodName><params><param><value><struct><member><name>a</name><value><string>s</string></value></member><member><name>b</name><value/></member></struct></value></param></params></methodCall>",
  "<methodCall><methodName>m</methodName></methodCall>",
  "<methodCall><methodName>m</methodName><params><param><value><struct><member><name>a</name><value><array><data><value><struct></struct></value></data></array></value></member></struct></value></param><param><value><base64>YQ==</base64></value></param></params></methodCall>",
  "<methodResponse><params><param><value><i4>1</i4></value></param></params></methodResponse>",
  "<methodResponse><params><param><value><array><data><value>x</value><value><double>1.5</double></value></data></array></value></param></params></methodResponse>",
  "<methodResponse><fault><value><struct><member><name>faultCode</name><value><int>4</int></value></member><member><name>faultString</name><value><string>no</string></value></member></struct></value></fault></methodResponse>",
  "<methodResponse><params><param><value><struct><member><name>a</name><value><boolean>0</boolean></value></member></struct></value></param></params></methodResponse>",
};
static const int NB = sizeof BASES / sizeof *BASES;
static const char* ALPHA[] = {"<methodCall>", "</methodCall>", "<methodName>", "</methodName>", "<params>", "</params>", "<param>", "</param>", "<value>", "</value>", "<value/>", "<i4>", "</i4>", "<int>", "</int>", "<i8>", "</i8>",
  "<string>", "</string>", "<nil/>", "<array>", "</array>", "<data>", "</data>", "<data/>", "<struct>", "</struct>", "<struct/>", "<member>", "</member>", "<name>", "</name>", "<name/>", "<methodResponse>", "</methodResponse>", "<fault>", "</fault>",
  "<junk>", "</junk>", "<junk/>", "5", "x", " ", "<!-- -->", "<![CDATA[5]]>", "&amp;", "&#48;", "<boolean>", "</boolean>", "<double>", "</double>", "<base64>", "</base64>", "<dateTime.iso8601>", "</dateTime.iso8601>", "<param/>", "<params/>", "<array/>", "<?pi?>", "&undef;", "<", "\x01", "\xff"};
static const int NA = sizeof ALPHA / sizeof *ALPHA;
// whole elements used for insertion
static const char* ELEM[] = {"<junk/>", "<junk>1</junk>", "<value/>", "<value><i4>3</i4></value>", "<param><value>q</value></param>", "<params></params>", "<params><param><value/></param></params>", "<methodName>z</methodName>", "<member><name>z</name><value/></member>",
  "<name>z</name>", "<data></data>", "<i4>8</i4>", "<nil/>", "<string>u</string>", "<struct></struct>", "<array><data/></array>", "<fault><value/></fault>", "<!-- x -->", "<![CDATA[7]]>", " ", "text", "<param/>", "<member/>", "<array/>", "<methodCall/>", "<int/>"};
static const int NE = sizeof ELEM / sizeof *ELEM;

static void c02(Driver& D) {
  bool q = D.quick();
  auto add = [&](const char* name, const char* note, std::function<void()> f, Budget b = Budget()) { Scenario s; s.name = name; s.note = note; s.run = f; s.managed = false; s.budget = b; D.scenarios.push_back(s); };
  for (int r = 0; r < 2; r++) {
    add(r ? "grammar-response" : "grammar-request", "every document derived from the grammar (value depth 1) with up to the bounded number of insertions of white space, comments, processing instructions, alternative spellings", [r] { judge(gen_doc(r, 1), r, "derived"); }, Budget().tot(q ? 1 : 2).set(C_SCRIPT, q ? 1 : 2));
    add(r ? "grammar-response-deep" : "grammar-request-deep", "every document derived from the grammar (value depth 2), one deviation at most", [r] { judge(gen_doc(r, 2), r, "derived"); }, Budget().tot(q ? 0 : 1).set(C_SCRIPT, q ? 0 : 1));
    add(r ? "grammar-response-plain2" : "grammar-request-plain2", "documents with scalar values and two simultaneous insertions", [r] { judge(gen_doc(r, 0), r, "derived"); }, Budget().tot(2).set(C_SCRIPT, 2));
  }
  add("token-mutations", "every deletion, duplication, replacement by and insertion of every token of the alphabet at every position of 9 base documents, read as request and as response", [] {
    int b = choose(NB, C_FREE, "base"); std::vector<std::string> t = tokens(BASES[b]);
    int at = choose((int)t.size() + 1, C_FREE, "at");
    int k = choose(2 + 2 * NA, C_FREE, "mutation");
    std::vector<std::string> u = t;
    if (k == 0) { if (at < (int)u.size()) u.erase(u.begin() + at); }
    else if (k == 1) { if (at < (int)u.size()) u.insert(u.begin() + at, u[at]); }
    else if (k < 2 + NA) { if (at < (int)u.size()) u[at] = ALPHA[k - 2]; }
    else u.insert(u.begin() + at, ALPHA[k - 2 - NA]);
    std::string d; for (auto& x : u) d += x;
    judge(d, b >= 5, "mutated");
  });
  add("element-insertions", "every insertion of every whole element at every position, and removal of every element", [] {
    int b = choose(NB, C_FREE, "base"); std::vector<std::string> t = tokens(BASES[b]);
    int at = choose((int)t.size() + 1, C_FREE, "at"); int k = choose(NE + 2, C_FREE, "element");
    std::vector<std::string> u = t;
    if (k < NE) u.insert(u.begin() + at, ELEM[k]);
    else {
      // remove the whole element that begins here, or move it one element further
      if (at >= (int)t.size() || t[at][0] != '<' || t[at][1] == '/') return;
      int dep = 0, e = at;
      for (; e < (int)t.size(); e++) { if (t[e][0] != '<') continue; if (t[e][1] == '/') dep--; else if (t[e][t[e].size() - 2] != '/') dep++; if (dep == 0) break; }
      std::vector<std::string> el(t.begin() + at, t.begin() + e + 1);
      u.erase(u.begin() + at, u.begin() + e + 1);
      if (k == NE + 1) { int to = choose((int)u.size() + 1, C_FREE, "to"); u.insert(u.begin() + to, el.begin(), el.end()); }
    }
    std::string d; for (auto& x : u) d += x;
    judge(d, b >= 5, "mutated");
  });
  if (!q) add("element-insertions-2", "every pair of insertions of whole elements", [] {
    int b = choose(NB, C_FREE, "base"); std::vector<std::string> u = tokens(BASES[b]);
    int at = choose((int)u.size() + 1, C_FREE, "at"); int k = choose(NE, C_FREE, "element"); u.insert(u.begin() + at, ELEM[k]);
    int at2 = at + 1 + choose((int)u.size() - at, C_FREE, "at2"); int k2 = choose(NE, C_FREE, "element2"); u.insert(u.begin() + at2, ELEM[k2]);
    std::string d; for (auto& x : u) d += x; judge(d, b >= 5, "mutated twice");
  });
  add("truncations", "every truncation of every base document, and every single byte replaced by each of 12 bytes", [] {
    int b = choose(NB, C_FREE, "base"); std::string d = BASES[b]; int at = choose((int)d.size() + 1, C_FREE, "at"); int k = choose(13, C_FREE, "byte");
    if (k == 0) d = d.substr(0, at); else if (at < (int)d.size()) d[at] = "<>/&; \n\0x\xff\xc3" "1"[k - 1];
    judge(d, b >= 5, "damaged"); judge(d, b < 5, "damaged");
  });
  add("values", "every sequence of up to N tokens of a value alphabet between the tags of a value, as parameter, array element, member and result", [q] {
    static const char* A[] = {"<i4>", "</i4>", "<string>", "</string>", "<nil/>", "<nil>", "</nil>", "<array>", "</array>", "<data>", "</data>", "<struct>", "</struct>", "<member>", "</member>", "<name>", "</name>", "<value>", "</value>", "5", " ", "a", "<!---->", "<![CDATA[6]]>", "<double/>"};
    std::string in; int n = q ? 4 : 5;
    for (int i = 0; i < n; i++) { int c = choose(26, C_FREE, "token"); if (!c) break; in += A[c - 1]; }
    std::string v = "<value>" + in + "</value>";
    judge("<methodCall><methodName>m</methodName><params><param>" + v + "</param><param><value><i4>9</i4></value></param></params></methodCall>", false, "value");
    judge("<methodCall><methodName>m</methodName><params><param><value><array><data>" + v + "<value><i4>9</i4></value></data></array></value></param></params></methodCall>", false, "value");
    judge("<methodCall><methodName>m</methodName><params><param><value><struct><member><name>n</name>" + v + "</member><member><name>o</name><value><i4>9</i4></value></member></struct></value></param></params></methodCall>", false, "value");
    judge("<methodResponse><params><param>" + v + "</param></params></methodResponse>", true, "value");
  });
  add("numbers", "every text of up to 4 characters over a numeric alphabet in every scalar type", [q] {
    static const char* A[] = {"0", "1", "9", "-", "+", ".", "e", "x", " ", "f"};
    static const char* T[] = {"i4", "int", "i8", "boolean", "double"};
    std::string s; int n = q ? 4 : 5;
    for (int i = 0; i < n; i++) { int c = choose(11, C_FREE, "char"); if (!c) break; s += A[c - 1]; }
    for (auto t : T) judge("<methodResponse><params><param><value><" + std::string(t) + ">" + s + "</" + t + "></value></param></params></methodResponse>", true, "number");
  });
  add("limits", "integers at and around the limits of their type", [] {
    static const char* N[] = {"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4294967296", "99999999999999999999999", "0000000001", "-0", "1e400", "-1e400", "1e-400", "1.7976931348623157e308", "0x10", "NaN", "true"};
    static const char* T[] = {"i4", "int", "i8", "boolean", "double", "base64", "dateTime.iso8601"};
    std::string s = N[choose(19, C_FREE, "n")]; std::string t = T[choose(7, C_FREE, "t")];
    judge("<methodResponse><params><param><value><" + t + ">" + s + "</" + t + "></value></param></params></methodResponse>", true, "number");
  });
  add("names", "every element of 9 base documents and of values of all types under each of 12 similar names, its start tag, its end tag or both", [] {
    static const char* V[] = {"<i4>1</i4>", "<int>1</int>", "<i8>1</i8>", "<boolean>1</boolean>", "<double>1</double>", "<base64>AAAA</base64>", "<dateTime.iso8601>20240101T00:00:00</dateTime.iso8601>", "<string>1</string>", "<nil></nil>", "<array><data></data></array>", "<struct><member><name>n</name><value>v</value></member></struct>"};
    int b = choose(NB + 11, C_FREE, "base"); std::vector<std::string> t = tokens(b < NB ? BASES[b] : "<methodResponse><params><param><value>" + std::string(V[b - NB]) + "</value></param></params></methodResponse>");
    int at = choose((int)t.size(), C_FREE, "at"), how = choose(12, C_FREE, "name"), ends = choose(3, C_FREE, "tags");
    if (t[at].size() < 3 || t[at][0] != '<' || !isalpha((unsigned char)t[at][1]) || t[at][t[at].size() - 2] == '/') return;
    std::string n = t[at].substr(1, t[at].size() - 2), m = n; int depth = 0; size_t e = at;
    for (; e < t.size(); e++) { if (t[e] == "<" + n + ">") depth++; else if (t[e] == "</" + n + ">" && !--depth) break; }
    switch (how) {
      case 0: for (auto& c : m) c = toupper(c); break; case 1: m[0] = toupper(m[0]); break; case 2: m.back() = toupper(m.back()); break; case 3: m += "s"; break; case 4: m += n; break; case 5: m.pop_back(); break;
      case 6: m.erase(0, 1); break; case 7: m += "_"; break; case 8: m = "_" + m; break; case 9: m.insert(m.size() / 2, "-"); break; case 10: m += "1"; break; default: m += "\xc3\xa9"; break;
    }
    if (m.empty()) return;
    if (ends != 1) t[at] = "<" + m + ">"; if (ends != 2 && e < t.size()) t[e] = "</" + m + ">";
    std::string d; for (auto& s : t) d += s;
    judge(d, false, "name"); judge(d, true, "name");
  });
  add("epilogue", "matter after the root element of documents of many sizes", [] {
    static const int L[] = {0, 100, 400, 500, 600, 1000, 2000, 4000, 5000, 40000}; static const char* E[] = {"", "x", "<a/>", "<methodCall/>", "</x>", "<", "&amp;", "<!-- ok -->", " \n ", "<?pi ok?>", "<!-- ok --> <a/>", "<![CDATA[x]]>", "<!DOCTYPE x>", "\xff", "<methodCall><methodName>m</methodName></methodCall>", "<!-- ok -->\n\n\n<value/>"};
    static const char* V[] = {"", "<i4>1</i4>", "<nil/>", "<struct></struct>", "<array><data></data></array>", "t"};
    int l = L[choose(10, C_FREE, "length")], e = choose(16, C_FREE, "epilogue"), v = choose(6, C_FREE, "value"), gap = choose(3, C_FREE, "gap"); bool resp = choose(2, C_FREE, "response");
    std::string val = "<value>" + std::string(V[v]) + "</value>", pad = "<!--" + std::string(l, 'c') + "-->", ep = std::string(gap == 0 ? 0 : gap == 1 ? 600 : 5000, ' ') + E[e];
    if (resp) judge("<methodResponse>" + pad + "<params><param>" + val + "</param></params></methodResponse>" + ep, true, "epilogue");
    else { judge("<methodCall><methodName>m</methodName>" + pad + "<params><param>" + val + "</param></params></methodCall>" + ep, false, "epilogue"); judge("<methodCall>" + pad + "<methodName>m</methodName></methodCall>" + ep, false, "epilogue"); }
  });
  add("defaults", "empty integers while default values are configured, in every position", [] {
    int which = choose(4, C_FREE, "configured"), form = choose(9, C_FREE, "form"), pos = choose(4, C_FREE, "position");
    static const char* F[] = {"<i4/>", "<i4></i4>", "<int/>", "<int></int>", "<i8/>", "<i8></i8>", "<i4>6</i4>", "<i8>6</i8>", "<double/>"};
    if (which & 1) Value::set_default_int(-5); if (which & 2) Value::set_default_int64(-6);
    std::string v = std::string("<value>") + F[form] + "</value>", want;
    if (form < 4) want = which & 1 ? "i4:-5" : ""; else if (form < 6) want = which & 2 ? "i8:-6" : ""; else if (form == 6) want = "i4:6"; else if (form == 7) want = "i8:6";
    static const char* P[] = {"%", "[%,%,]", "{\"n\":%,}", "%"}; std::string doc, exp;
    for (const char* c = P[pos]; *c; c++) if (*c == '%') exp += want; else exp += *c;
    if (pos == 1) v = "<value><array><data>" + v + v + "</data></array></value>"; if (pos == 2) v = "<value><struct><member><name>n</name>" + v + "</member></struct></value>";
    doc = "<methodResponse><params><param>" + v + "</param></params></methodResponse>"; state(H(doc + std::to_string(which)));
    try { Response r = parse_response(doc); std::string got = show(from_lib(r.value())); if (want.empty()) violation("invalid-accepted", "empty number accepted without a configured default: " + doc); else if (got != exp) violation("decoded-wrong", doc + " decoded as " + got); }
    catch (const std::exception& e) { if (!want.empty()) violation("valid-refused", doc + " refused although a default is configured"); }
    Value::drop_default_int(); Value::drop_default_int64();
  });
  add("defaults-history", "defaults set, changed and dropped in every order", [] {
    bool hi = false, hl = false; int vi = 0; int64_t vl = 0; int n = 1 + choose(4, C_FREE, "steps"); std::string hist;
    auto has = [&](const char* tag, bool have, const std::string& want) {
      std::string doc = std::string("<methodResponse><params><param><value><") + tag + "/></value></param></params></methodResponse>", got;
      try { Response r = parse_response(doc); got = show(from_lib(r.value())); } catch (const std::exception&) { got = ""; }
      if (got != (have ? want : "")) violation("default", hist + " then <" + tag + "/> gave '" + got + "' instead of '" + (have ? want : "") + "'");
    };
    for (int i = 0; i < n && !violated(); i++) {
      switch (choose(7, C_FREE, "step")) {
        case 0: Value::set_default_int(vi = 0); hi = true; hist += "int=0 "; break;
        case 1: Value::set_default_int(vi = -5); hi = true; hist += "int=-5 "; break;
        case 2: Value::drop_default_int(); hi = false; hist += "no int "; break;
        case 3: Value::set_default_int64(vl = 0); hl = true; hist += "int64=0 "; break;
        case 4: Value::set_default_int64(vl = 1ll << 40); hl = true; hist += "int64=2^40 "; break;
        case 5: Value::set_default_int64(vl = -1); hl = true; hist += "int64=-1 "; break;
        default: Value::drop_default_int64(); hl = false; hist += "no int64 "; break;
      }
      has("i4", hi, "i4:" + std::to_string(vi)); has("int", hi, "i4:" + std::to_string(vi)); has("i8", hl, "i8:" + std::to_string(vl));
      std::unique_ptr<Int> di(Value::get_default_int()); std::unique_ptr<Int64> dl(Value::get_default_int64());
      if (hi != !!di || (di && di->value() != vi) || hl != !!dl || (dl && dl->value() != vl)) violation("default", hist + ": the configured defaults are not reported");
    }
    Value::drop_default_int(); Value::drop_default_int64(); outcome(std::string(hi ? "int " : "") + (hl ? "int64" : ""));
  });
  add("hostile", "very deep nesting, huge texts, many attributes, unusual encodings: no crash, no hang", [] {
    int k = choose(11, C_FREE, "kind"), sz = choose(6, C_FREE, "size");
    static const int depth[] = {10, 100, 1000, 10000, 50000, 200000};
    int n = depth[sz]; std::string d = "<methodCall><methodName>m</methodName><params><param>", t;
    auto rep = [](const std::string& s, int n) { std::string o; o.reserve(s.size() * n); for (int i = 0; i < n; i++) o += s; return o; };
    switch (k) {
      case 0: t = rep("<value><array><data>", n); break;
      case 1: t = rep("<value><array><data>", n) + rep("</data></array></value>", n); break;
      case 2: t = rep("<value><struct><member><name>a</name>", n) + "<value/>" + rep("</member></struct></value>", n); break;
      case 3: t = "<value>" + std::string(n, 'x') + "</value>"; break;
      case 4: t = "<value><i4>" + std::string(n, '9') + "</i4></value>"; break;
      case 5: t = rep("<a>", n) + rep("</a>", n); break;
      case 6: t = "<value>" + rep("&amp;", n) + "</value>"; break;
      case 7: t = "<value>" + rep("<!---->", n) + "</value>"; break;
      case 9: {
        std::string dtd = "<!DOCTYPE r [<!ENTITY a0 \"xxxxxxxxxx\">"; for (int i = 1; i <= 4 + sz * 2; i++) { std::string p = "&a" + std::to_string(i - 1) + ";"; dtd += "<!ENTITY a" + std::to_string(i) + " \"" + rep(p, 10) + "\">"; }
        d = dtd + "]>" + d; t = "<value><string>&a" + std::to_string(4 + sz * 2) + ";</string></value>"; break; }
      case 8: t = "<value " + rep("a='b' ", n) + "/>"; break;
      default: t = "<value><array><data>" + rep("<value/>", n) + "</data></array></value>"; break;
    }
    d += t + "</param></params></methodCall>";
    try { std::unique_ptr<Request> r(parse_request(d)); outcome("accepted"); std::string o = dump_request(*r); } catch (const std::exception& e) { outcome("refused"); }
  });
  D.assumptions = {"verdicts of the reference decoder leave open: stray text between elements, blank untagged strings, white space inside numbers, boolean texts other than 0 and 1, infinities, repeated member names, attributes, name space prefixes, document type declarations"};
}

// =================================================================================================
// C03
// =================================================================================================
#include "fsguard.h"
static void c03(Driver& D) {
  auto add = [&](const char* name, const char* note, std::function<void()> f) { Scenario s; s.name = name; s.note = note; s.run = f; s.managed = false; D.scenarios.push_back(s); };
  add("declarations", "declaration kind x system identifier x reference position x document kind", [] {
    static const char* SYS[] = {"file:///canary/secret.txt", "/canary/secret.txt", "canary-secret.txt", "http://127.0.0.1:9/x", "ftp://127.0.0.1/x", "file:///etc/hostname", "./canary-secret.txt", "data:text/plain,CANARY", "/proc/self/status", "http://[::1]/x", "compress:/canary/x", "file:///canary/secret.gz", "../canary-secret.txt", "catalog.xml"};
    int s = choose(14, C_FREE, "system"), k = choose(15, C_FREE, "declaration"), p = choose(9, C_FREE, "position");
    bool resp = choose(2, C_FREE, "response"); bool pub = choose(2, C_FREE, "public");
    std::string id = pub ? std::string("PUBLIC \"-//X//Y\" \"") + SYS[s] + "\"" : std::string("SYSTEM \"") + SYS[s] + "\"";
    std::string dtd, ref = "&e;", pre = "<?xml version=\"1.0\"?>";
    std::string root = resp ? "methodResponse" : "methodCall", attr;
    switch (k) {
      case 0: dtd = "<!DOCTYPE r [<!ENTITY e " + id + ">]>"; break;
      case 1: dtd = "<!DOCTYPE r " + id + ">"; break;
      case 2: dtd = "<!DOCTYPE r [<!ENTITY % p " + id + "> %p;]>"; break;
      case 3: dtd = "<!DOCTYPE r " + id + " [<!ENTITY e \"internal\">]>"; break;
      case 4: dtd = "<!DOCTYPE r [<!ENTITY a " + id + "><!ENTITY e \"x&a;y\">]>"; break;
      case 5: dtd = "<!DOCTYPE r [<!ENTITY % p \"<!ENTITY e " + std::string("SYSTEM '") + SYS[s] + "'>\"> %p;]>"; break;
      case 6: dtd = "<?xml-stylesheet type=\"text/xsl\" href=\"" + std::string(SYS[s]) + "\"?>"; ref = "t"; break;
      case 7: attr = " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:noNamespaceSchemaLocation=\"" + std::string(SYS[s]) + "\""; ref = "t"; break;
      case 8: ref = "<xi:include xmlns:xi=\"http://www.w3.org/2001/XInclude\" href=\"" + std::string(SYS[s]) + "\" parse=\"text\"/>"; break;
      case 9: dtd = "<!DOCTYPE r [<!NOTATION n " + id + "><!ENTITY e " + id + " NDATA n>]>"; ref = "t"; break;
      case 10: dtd = "<!DOCTYPE r [<!ELEMENT r ANY><!ATTLIST r a CDATA #FIXED \"v\"><!ENTITY e " + id + ">]>"; break;
      case 11: dtd = "<!DOCTYPE " + root + " " + id + ">"; pre = "<?xml version=\"1.0\" standalone=\"no\"?>"; break;
      case 12: dtd = "<!DOCTYPE r [<!ENTITY % p " + id + "><!ENTITY e \"q\">%p;<!ENTITY e \"z\">]>"; break;
      case 13: pre = "<?xml version=\"1.0\"?><?oasis-xml-catalog catalog=\"" + std::string(SYS[s]) + "\"?>"; dtd = "<!DOCTYPE r [<!ENTITY e " + id + ">]>"; break;
      default: attr = " xmlns=\"" + std::string(SYS[s]) + "\" xml:base=\"" + SYS[s] + "\""; ref = "t"; break;
    }
    std::string name = "m", val = "<string>t</string>", extra;
    switch (p) {
      case 0: val = "<string>" + ref + "</string>"; break;
      case 1: val = ref; break;
      case 2: name = ref; break;
      case 3: val = "<struct><member><name>" + ref + "</name><value>v</value></member></struct>"; break;
      case 4: val = "<array><data><value>a" + ref + "b</value></data></array>"; break;
      case 5: extra = ref; break;
      case 6: val = "<base64>" + ref + "</base64>"; break;
      case 7: val = "<string a=\"" + (ref[0] == '&' ? ref : std::string("v")) + "\">t</string>"; break;
      default: val = "<i4>" + ref + "</i4>"; break;
    }
    std::string d = resp ? pre + dtd + "<methodResponse" + attr + ">" + extra + "<params><param><value>" + val + "</value></param></params></methodResponse>"
                         : pre + dtd + "<methodCall" + attr + "><methodName>" + name + "</methodName>" + extra + "<params><param><value>" + val + "</value></param></params></methodCall>";
    state(H(d));
    fs_begin();
    std::string seen; bool ok = false;
    try {
      if (resp) { Response r = parse_response(d); ok = true; seen = r.is_fault() ? r.fault_string() : show(from_lib(r.value())); }
      else { std::unique_ptr<Request> r(parse_request(d)); ok = true; seen = r->get_name(); for (auto& v : r->get_params()) seen += show(from_lib(v)); }
    } catch (const std::exception& e) { seen = e.what(); }
    std::string eff = fs_end();
    outcome(ok ? "accepted" : "refused");
    if (!eff.empty()) violation("outside-effect", "decoding made the process perform " + eff + " for document " + esc(d, 900));
    if (seen.find("CANARY") != std::string::npos) violation("outside-content", "content of an external resource appears in the result of decoding " + esc(d, 900));
  });
  add("sequences", "every sequence of up to 3 documents out of 9, a hostile one included", [] {
    static const char* R = "<methodCall><methodName>m</methodName><params><param><value><string>&e;</string></value></param></params></methodCall>";
    for (int i = 0; i < 3; i++) {
      int k = choose(10, C_FREE, "document"); if (!k) break;
      std::string d;
      switch (k) {
        case 1: d = BASES[0]; break; case 2: d = BASES[7]; break; case 3: d = "<broken"; break; case 4: d = "<methodCall><params/></methodCall>"; break;
        case 5: d = std::string("<!DOCTYPE r [<!ENTITY e SYSTEM \"file:///canary/secret.txt\">]>") + R; break;
        case 6: d = std::string("<!DOCTYPE r SYSTEM \"/canary/secret.txt\">") + R; break;
        case 7: d = std::string("<!DOCTYPE r [<!ENTITY % p SYSTEM \"http://127.0.0.1:9/x\"> %p;]>") + R; break;
        case 8: d = std::string("<!DOCTYPE r [<!ENTITY e \"int\">]>") + R; break;
        default: d = std::string("<!DOCTYPE r [<!ENTITY e SYSTEM \"canary-secret.txt\">]>") + BASES[7]; break;
      }
      state(H(d)); fs_begin(); std::string seen;
      try { std::unique_ptr<Request> r(parse_request(d)); for (auto& v : r->get_params()) seen += show(from_lib(v)); } catch (const std::exception& e) { seen = e.what(); }
      try { Response r = parse_response(d); if (!r.is_fault()) seen += show(from_lib(r.value())); } catch (const std::exception& e) { seen += e.what(); }
      std::string eff = fs_end();
      if (!eff.empty()) violation("outside-effect", "decoding made the process perform " + eff + " for document " + esc(d, 900));
      if (seen.find("CANARY") != std::string::npos) violation("outside-content", "content of an external resource appears in the result of decoding " + esc(d, 900));
    }
  });
  D.assumptions = {"an outside effect is an open/openat/fopen/stat-like or socket call made while decoding; calls made by libxml2 are seen because they go through the process's own definitions of these functions"};
}

// =================================================================================================
// C04
// =================================================================================================
static std::string ref_b64(const std::string& d) {
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t i = 0; i < d.size(); i += 3) {
    unsigned char b[3] = {0, 0, 0}; size_t n = std::min<size_t>(3, d.size() - i);
    for (size_t k = 0; k < n; k++) b[k] = d[i + k];
    o += A[b[0] >> 2]; o += A[(b[0] & 3) << 4 | b[1] >> 4];
    o += n > 1 ? A[(b[1] & 15) << 2 | b[2] >> 6] : '='; o += n > 2 ? A[b[2] & 63] : '=';
  }
  return o;
}
static int ref_b64_dec(const std::string& t, std::string& out) {  // 1 decodes, 0 must be refused
  std::string s; for (unsigned char c : t) if (!(c == ' ' || (c >= 9 && c <= 13))) s += c;
  if (s.size() % 4) return 0;
  auto ix = [](unsigned char c) { if (c >= 'A' && c <= 'Z') return c - 'A'; if (c >= 'a' && c <= 'z') return c - 'a' + 26; if (c >= '0' && c <= '9') return c - '0' + 52; if (c == '+') return 62; if (c == '/') return 63; return -1; };
  out.clear();
  for (size_t i = 0; i < s.size(); i += 4) {
    bool last = i + 4 == s.size(); int pad = 0;
    if (last) { if (s[i + 3] == '=') pad = s[i + 2] == '=' ? 2 : 1; }
    unsigned v = 0;
    for (int k = 0; k < 4; k++) { int x = k >= 4 - pad ? 0 : ix(s[i + k]); if (x < 0) return 0; v = v << 6 | x; }
    out += (char)(v >> 16); if (pad < 2) out += (char)(v >> 8); if (pad < 1) out += (char)v;
  }
  return 1;
}
static void b64_enc(const std::string& d) {
  std::unique_ptr<Binary_data> b(Binary_data::from_data(d)), b2(Binary_data::from_data(d.data(), d.size()));
  std::string want = ref_b64(d);
  if (b->get_base64() != want) { violation("encode", "bytes " + esc(d) + " encoded as " + esc(b->get_base64()) + " instead of " + want); return; }
  if (b->get_data() != d || b2->get_data() != d || b2->get_base64() != want) violation("encode", "raw data not preserved for " + esc(d));
  try {
    std::unique_ptr<Binary_data> e(Binary_data::from_base64(want));
    if (e->get_data() != d) violation("decode", want + " decoded as " + esc(e->get_data()) + " instead of " + esc(d));
    std::unique_ptr<Value_type> c(e->clone());
  } catch (const std::exception& e) { violation("decode", "canonical text " + want + " refused: " + e.what()); }
}
static void b64_dec(const std::string& t) {
  std::string want; int ok = ref_b64_dec(t, want);
  try {
    std::unique_ptr<Binary_data> e(Binary_data::from_base64(t));
    if (!ok) violation("bad-text-decoded", "text \"" + esc(t) + "\" is not base64 but was decoded to \"" + esc(e->get_data()) + "\"");
    else if (e->get_data() != want) violation("decode", "text \"" + esc(t) + "\" decoded to \"" + esc(e->get_data()) + "\" instead of \"" + esc(want) + "\"");
  } catch (const std::exception& e) { if (ok) violation("decode", "text \"" + esc(t) + "\" refused: " + e.what()); }
}
static void c04(Driver& D) {
  bool q = D.quick();
  auto add = [&](const char* name, const char* note, std::function<void()> f) { Scenario s; s.name = name; s.note = note; s.run = f; s.managed = false; D.scenarios.push_back(s); };
  add("bytes", "every byte string of up to 3 bytes (16.8 million), encoded, compared with RFC 4648 and decoded", [] {
    int n = choose(3, C_FREE, "len");
    if (n == 0) { b64_enc(""); return; }
    std::string d; d += (char)choose(256, C_FREE, "b0");
    state(H(d));
    if (n == 1) { b64_enc(d); return; }
    d += (char)choose(256, C_FREE, "b1"); state(H(d)); b64_enc(d); d += 'x';
    for (int k = 0; k < 256; k++) { d[2] = (char)k; b64_enc(d); }
  });
  add("lengths", "every length up to 300 with 6 byte patterns, and lengths around powers of two up to 70000", [] {
    int n = choose(300 + 40, C_FREE, "len"), p = choose(6, C_FREE, "pattern"); size_t len = n < 300 ? n : (size_t)(1 << (7 + (n - 300) / 4)) - 1 + (n % 4);
    std::string d; for (size_t i = 0; i < len; i++) d += (char)(p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i : p == 3 ? i * 31 + 7 : p == 4 ? 128 + (i % 128) : (i % 3) * 85);
    state(H(d)); b64_enc(d);
  });
  int L = q ? 6 : 7;
  add("texts", "every text of up to N characters over 13 character classes decoded and compared with a reference decoder", [L] {
    static const char A[] = {'A', 'z', '0', '+', '/', '=', ' ', '\n', '-', '\0', '\x80', '\xff', '\t'};
    std::string t; for (int i = 0; i < L; i++) { int c = choose(14, C_FREE, "char"); if (!c) break; t += A[c - 1]; }
    state(H(t)); b64_dec(t);
  });
  add("texts8", "every text of up to 9 characters over {Q,/,=,blank,!}", [q] {
    static const char A[] = {'Q', '/', '=', ' ', '!'}; std::string t; for (int i = 0; i < (q ? 8 : 9); i++) { int c = choose(6, C_FREE, "char"); if (!c) break; t += A[c - 1]; }
    state(H(t)); b64_dec(t);
  });
  add("each-char", "every byte value at every position of a text", [] {
    int base = choose(4, C_FREE, "base"); static const char* B[] = {"QUJD", "QUI=", "QQ==", "QUJDREVG"}; std::string t = B[base];
    int at = choose((int)t.size(), C_FREE, "at"); int c = choose(256, C_FREE, "byte"); t[at] = (char)c; state(H(t)); b64_dec(t);
  });
  add("white-space", "every placement of up to 2 white space runs in encodings of 0..7 bytes; through documents too", [] {
    int n = choose(8, C_FREE, "len"); std::string d; for (int i = 0; i < n; i++) d += (char)(i * 67 + 130);
    std::string t = ref_b64(d); static const char* W[] = {" ", "\n", "\r\n", "\t ", "\v", "\f"};
    for (int k = 0; k < 2; k++) { int at = choose((int)t.size() + 1, C_FREE, "at"); int w = choose(7, C_FREE, "ws"); if (w) t.insert(at, W[w - 1]); }
    state(H(t)); b64_dec(t);
    if (t.find_first_of("\v\f") == std::string::npos && n) try {
      Response r = parse_response("<methodResponse><params><param><value><base64>" + t + "</base64></value></param></params></methodResponse>");
      if (r.value().get_binary().get_data() != d) violation("decode", "document text " + esc(t) + " decoded wrongly");
    } catch (const std::exception& e) { violation("decode", "document text " + esc(t) + " refused: " + e.what()); }
  });
}

// =================================================================================================
// C05
// =================================================================================================
static int ref_date(const std::string& s) {   // 1 accepted, 0 refused
  if (s.size() != 17) return 0;
  for (int i = 0; i < 17; i++) { if (i == 8) { if (s[i] != 'T') return 0; } else if (i == 11 || i == 14) { if (s[i] != ':') return 0; } else if (s[i] < '0' || s[i] > '9') return 0; }
  auto n = [&](int at, int l) { int v = 0; for (int i = 0; i < l; i++) v = v * 10 + s[at + i] - '0'; return v; };
  int y = n(0, 4), mo = n(4, 2), d = n(6, 2), h = n(9, 2), mi = n(12, 2), se = n(15, 2);
  if (mo < 1 || mo > 12 || d < 1 || d > 31 || h > 23 || mi > 59) return 0;
  if (y < 1900 || se > 59) return -1;     // years before 1900 and leap seconds are left open
  return 1;
}
static void date_one(const std::string& t) {
  int ok = ref_date(t);
  for (int via = 0; via < 2; via++) {
    if (via && (t.find_first_of("<&") != std::string::npos)) continue;
    if (via && !ok) { bool plain = true; for (unsigned char c : t) if (c < 32 || c > 126) plain = false; if (!plain) continue; }
    try {
      std::string back; struct tm tm;
      if (!via) { Date_time d(t); back = d.to_string(); tm = d.get_tm(); Date_time e(d); if (e.to_string() != back) violation("copy", "copy of " + t + " differs"); }
      else { Response r = parse_response("<methodResponse><params><param><value><dateTime.iso8601>" + t + "</dateTime.iso8601></value></param></params></methodResponse>"); back = r.value().get_datetime().to_string(); tm = r.value().get_datetime().get_tm(); }
      if (ok == 0) violation("bad-date-accepted", "text \"" + esc(t) + "\" accepted as a date-time, written back as \"" + esc(back) + "\"");
      else if (back != t) violation("date-changed", "text \"" + esc(t) + "\" written back as \"" + esc(back) + "\"");
      else if (ok == 1) {
        char b[64]; snprintf(b, sizeof b, "%04d%02d%02dT%02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
        if (t != b) violation("date-fields", "fields of \"" + t + "\" read as " + b);
      }
    } catch (const std::exception& e) { if (ok == 1) violation("date-refused", "text \"" + esc(t) + "\" refused: " + e.what()); }
  }
}
static void c05(Driver& D) {
  bool q = D.quick(); (void)q;
  auto add = [&](const char* name, const char* note, std::function<void()> f) { Scenario s; s.name = name; s.note = note; s.run = f; s.managed = false; D.scenarios.push_back(s); };
  add("field-pairs", "every pair of values 00-99 of every two fields after the year", [] {
    static const int at[] = {4, 6, 9, 12, 15};
    std::string t = "20240115T10:20:30"; int f = choose(5, C_FREE, "field"), v = choose(100, C_FREE, "value"), g = choose(5, C_FREE, "other"); if (g == f) return;
    auto put = [&](int p, int x) { t[p] = '0' + x / 10; t[p + 1] = '0' + x % 10; };
    put(at[f], v);
    for (int w = 0; w < 100; w++) { put(at[g], w); state(H(t)); date_one(t); }
  });
  add("years", "every year 0000-9999 at three dates", [] {
    int y = choose(10000, C_FREE, "year"); char b[32]; for (const char* r : {"0101T00:00:00", "1231T23:59:59", "0229T12:30:01"}) { snprintf(b, sizeof b, "%04d%s", y, r); state(H(b)); date_one(b); }
  });
  add("characters", "every byte value at every position of two texts", [] {
    std::string t = choose(2, C_FREE, "base") ? "20240229T23:59:59" : "19011001T01:01:05"; int at = choose(17, C_FREE, "at"), c = choose(256, C_FREE, "byte"); t[at] = (char)c; state(H(t)); date_one(t);
  });
  add("two-characters", "every pair of positions replaced by every pair of 12 characters", [] {
    static const char A[] = {'0', '9', 'T', ':', ' ', '-', '+', '.', 'Z', 'x', '3', '\t'}; std::string t = "20111012T14:08:55";
    int a = choose(17, C_FREE, "a"), b = choose(17, C_FREE, "b"); t[a] = A[choose(12, C_FREE, "ca")]; t[b] = A[choose(12, C_FREE, "cb")]; state(H(t)); date_one(t);
  });
  add("lengths", "every truncation and extension, leading and trailing characters, every deletion and duplication", [] {
    std::string b = "20240229T23:59:59"; int k = choose(6, C_FREE, "kind"), n = choose(18, C_FREE, "n"); static const char A[] = {'0', ' ', 'T', ':', 'Z', '\0'}; char c = A[choose(6, C_FREE, "char")];
    std::string t = k == 0 ? b.substr(0, n) : k == 1 ? b + std::string(n, c) : k == 2 ? std::string(n, c) + b : k == 3 ? (n < 17 ? b.substr(0, n) + b.substr(n + 1) : b) : k == 4 ? b.substr(0, n) + c + b.substr(n) : std::string(n, c);
    state(H(t)); date_one(t);
  });
  add("broken-down", "date-times built from broken-down time with every boundary combination of fields", [] {
    struct tm tm; memset(&tm, 0, sizeof tm);
    static const int Y[] = {0, 70, 99, 100, 124, 138, 8099}, M[] = {0, 1, 8, 9, 11}, DD[] = {1, 9, 10, 28, 31}, HH[] = {0, 9, 10, 23}, MI[] = {0, 9, 59}, SS[] = {0, 9, 59};
    tm.tm_year = Y[choose(7, C_FREE, "y")]; tm.tm_mon = M[choose(5, C_FREE, "mo")]; tm.tm_mday = DD[choose(5, C_FREE, "d")]; tm.tm_hour = HH[choose(4, C_FREE, "h")]; tm.tm_min = MI[choose(3, C_FREE, "mi")]; tm.tm_sec = SS[choose(3, C_FREE, "s")];
    char b[64]; snprintf(b, sizeof b, "%04d%02d%02dT%02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
    state(H(b));
    for (int via = 0; via < 3; via++) try {
      std::string t; struct tm r;
      if (via == 0) { Date_time d(&tm); t = d.to_string(); r = d.get_tm(); }
      else if (via == 1) { Value v(&tm); t = v.get_datetime().to_string(); r = v; }
      else { Response x = parse_response(dump_response(Response(new Value(&tm)))); t = x.value().get_datetime().to_string(); r = x.value(); }
      if (t != b) violation("tm-written", std::string("moment ") + b + " written as " + t);
      if (r.tm_year != tm.tm_year || r.tm_mon != tm.tm_mon || r.tm_mday != tm.tm_mday || r.tm_hour != tm.tm_hour || r.tm_min != tm.tm_min || r.tm_sec != tm.tm_sec) violation("tm-read", std::string("moment ") + b + " read back differently");
    } catch (const std::exception& e) { violation("tm-refused", std::string("moment ") + b + ": " + e.what()); }
  });
  add("every-field", "the broken-down time of a decoded text, all its fields, whatever the memory held before", [] {
    static const char* T[] = {"19700101T00:00:00", "20240229T23:59:59", "20380119T03:14:07", "99991231T00:00:60"};
    const char* t = T[choose(4, C_FREE, "text")]; int fill = choose(256, C_FREE, "fill"), via = choose(3, C_FREE, "via");
    std::string got[2];
    for (int k = 0; k < 2; k++) {
      alignas(16) static char buf[sizeof(Date_time)]; memset(buf, k ? fill : 0x11, sizeof buf); asm volatile("" : : "r"(buf) : "memory");
      Date_time* d = new (buf) Date_time(std::string(t)); struct tm r;
      if (via == 0) r = d->get_tm(); else if (via == 1) { Date_time c(*d); r = c.get_tm(); } else { Value v(*d); r = v; }
      d->~Date_time();
      std::ostringstream o; o << r.tm_year << " " << r.tm_mon << " " << r.tm_mday << " " << r.tm_hour << " " << r.tm_min << " " << r.tm_sec << " " << r.tm_isdst << " " << r.tm_wday << " " << r.tm_yday << " " << r.tm_gmtoff;
      got[k] = o.str();
    }
    state(H(got[0]));
    if (got[0] != got[1]) violation("tm-undetermined", std::string("the same text ") + t + " gives different broken-down times: " + got[0] + " and " + got[1]);
  });
  add("clock", "date-times made from the clock at the boundaries of minutes, days, months, years and daylight saving time, in 4 time zones", [] {
    static const time_t B[] = {0, 59, 86399, 951782399, 951868799, 1078012800, 1709164799, 1711846800, 1711846799, 1729990800, 1729994400, 2147483647, 4102444799LL, 946684799, 1710054000, 1730610000};
    static const char* Z[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45"};
    fake_time = B[choose(16, C_FREE, "moment")] + choose(3, C_FREE, "offset") - 1; if (fake_time < 0) fake_time = 0;
    setenv("TZ", Z[choose(4, C_FREE, "zone")], 1); tzset(); bool local = choose(2, C_FREE, "local");
    struct tm w; if (local) { time_t ft = fake_time; localtime_r(&ft, &w); } else { time_t ft = fake_time; gmtime_r(&ft, &w); };
    if (!local) {                                                              // an oracle of its own for UTC
      long d = fake_time / 86400, y = 1970, m = 0; auto leap = [](long y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }; static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      while (d >= (leap(y) ? 366 : 365)) d -= leap(y++) ? 366 : 365;
      while (d >= L[m] + (m == 1 && leap(y))) { d -= L[m] + (m == 1 && leap(y)); m++; }
      if (w.tm_year + 1900 != y || w.tm_mon != m || w.tm_mday != d + 1) fatal_violation("oracle", "the calendar disagrees with itself");
    }
    char b[64]; snprintf(b, sizeof b, "%04d%02d%02dT%02d:%02d:%02d", w.tm_year + 1900, w.tm_mon + 1, w.tm_mday, w.tm_hour, w.tm_min, w.tm_sec);
    Date_time d(local); std::string t = d.to_string(); struct tm r = d.get_tm();
    Value v(d); std::string u = parse_response(dump_response(Response(new Value(v)))).value().get_datetime().to_string();
    fake_time = -1; setenv("TZ", "UTC", 1); tzset();
    state(H(t));
    if (t != b || u != b) violation("clock", std::string("the clock says ") + b + (local ? " local time" : " UTC") + ", the date-time is " + t + ", received as " + u);
    if (r.tm_year != w.tm_year || r.tm_mon != w.tm_mon || r.tm_mday != w.tm_mday || r.tm_hour != w.tm_hour || r.tm_min != w.tm_min || r.tm_sec != w.tm_sec) violation("clock", std::string("the broken-down time is not that of the clock at ") + b);
  });
  D.assumptions = {"years before 1900 and seconds 60 and 61 are left open by the oracle (accepted texts must still be written back unchanged)"};
}

void c06(Driver& D);
void c32_values(Driver& D);
void c33_codec(Driver& D);

int main(int argc, char** argv) {
  return driver_main(argc, argv, [](Driver& D) {
    if (D.property == "C01") c01(D);
    if (D.property == "C02") c02(D);
    if (D.property == "C03") c03(D);
    if (D.property == "C04") c04(D);
    if (D.property == "C05") c05(D);
    if (D.property == "C06") c06(D);
    if (D.property == "C32") c32_values(D);
    if (D.property == "C33") c33_codec(D);
  });
}
