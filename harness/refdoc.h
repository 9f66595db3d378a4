// Reference decoder of XML-RPC documents, written from the specification over libxml2's tree interface.
#pragma once
#include "rv.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <cerrno>
#include <climits>
#include <cstdlib>

struct RefDoc { enum V { VALID, INVALID, OPEN } verdict = INVALID; std::string text; };

namespace refdoc {
struct Bad { std::string why; };
struct Ctx { bool open = false; std::string why; void leave_open(const std::string& w) { open = true; why = w; } };
inline bool blank(const std::string& s) { return s.find_first_not_of(" \t\r\n") == std::string::npos; }
inline std::string nm(xmlNodePtr n) { return (const char*)n->name; }
struct Kids { std::vector<xmlNodePtr> el; std::string text; bool has_text = false; bool cdata = false; };
inline Kids kids(xmlNodePtr n, Ctx& c) {
  Kids k;
  if (n->properties || n->nsDef || n->ns) c.leave_open("attributes or name spaces");
  for (xmlNodePtr x = n->children; x; x = x->next) {
    if (x->type == XML_ELEMENT_NODE) k.el.push_back(x);
    else if (x->type == XML_TEXT_NODE || x->type == XML_CDATA_SECTION_NODE) {
      k.text += x->content ? (const char*)x->content : ""; k.has_text = true; if (x->type == XML_CDATA_SECTION_NODE) k.cdata = true;
    } else if (x->type == XML_COMMENT_NODE || x->type == XML_PI_NODE) {}
    else c.leave_open("entity reference");
  }
  return k;
}
inline Kids elements(xmlNodePtr n, Ctx& c) {       // element content: stray text is left open
  Kids k = kids(n, c);
  if (!blank(k.text) || k.cdata) c.leave_open("stray text");
  return k;
}
inline std::string pcdata(xmlNodePtr n, Ctx& c) {
  Kids k = kids(n, c);
  if (!k.el.empty()) throw Bad{"element inside " + nm(n)};
  return k.text;
}
inline bool is_int(const std::string& s) { size_t i = s.size() && (s[0] == '-' || s[0] == '+'); if (i == s.size()) return false; return s.find_first_not_of("0123456789", i) == std::string::npos; }
inline int64_t integer(const std::string& t, Ctx& c, int64_t lo, int64_t hi) {
  std::string s = t;
  size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n");
  if (b == std::string::npos) throw Bad{"empty number"};
  if (b != 0 || e != s.size() - 1) { c.leave_open("white space in number"); s = s.substr(b, e - b + 1); }
  if (!is_int(s)) throw Bad{"not an integer: " + s};
  if (s[0] == '+') c.leave_open("plus sign");
  errno = 0; char* end; long long v = strtoll(s.c_str(), &end, 10);
  if (errno == ERANGE || v < lo || v > hi) throw Bad{"integer out of range"};
  return v;
}
inline RV value(xmlNodePtr n, Ctx& c);
inline RV typed(xmlNodePtr n, Ctx& c) {
  std::string t = nm(n);
  if (t == "i4" || t == "int") return RV::in((int)integer(pcdata(n, c), c, INT_MIN, INT_MAX));
  if (t == "i8") return RV::i8(integer(pcdata(n, c), c, INT64_MIN, INT64_MAX));
  if (t == "boolean") { std::string s = pcdata(n, c); if (s == "0" || s == "1") return RV::bo(s == "1"); int64_t v = integer(s, c, INT_MIN, INT_MAX); c.leave_open("boolean other than 0 and 1"); return RV::bo(v); }
  if (t == "double") {
    std::string s = pcdata(n, c); size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n");
    if (b == std::string::npos) throw Bad{"empty number"};
    if (b != 0 || e != s.size() - 1) { c.leave_open("white space in number"); s = s.substr(b, e - b + 1); }
    // [sign] digits [. digits] [e [sign] digits]
    size_t i = 0; bool strict = true; if (s[i] == '-' || s[i] == '+') { if (s[i] == '+') strict = false; i++; }
    size_t d1 = 0, d2 = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { i++; d1++; }
    if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) { i++; d2++; } if (!d1 || !d2) strict = false; }
    bool ok = d1 + d2 > 0;
    if (ok && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t d3 = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { i++; d3++; } if (!d3) ok = false; }
    if (!ok || i != s.size()) {
      std::string l; for (char ch : s) l += tolower(ch);
      size_t p = l.size() && (l[0] == '-' || l[0] == '+');
      if (l.compare(p, std::string::npos, "inf") == 0 || l.compare(p, std::string::npos, "nan") == 0 || l.compare(p, std::string::npos, "infinity") == 0 || l.compare(p, 2, "0x") == 0) { c.leave_open("special double"); return RV::db(0); }
      throw Bad{"not a double: " + s};
    }
    if (!strict) c.leave_open("unusual double");
    errno = 0; double v = strtod(s.c_str(), nullptr); if (errno == ERANGE) c.leave_open("double out of range");
    return RV::db(v);
  }
  if (t == "string") return RV::str(pcdata(n, c));
  if (t == "nil") { Kids k = kids(n, c); if (!k.el.empty()) throw Bad{"content in nil"}; if (k.has_text) c.leave_open("text in nil"); return RV::nil(); }
  if (t == "base64") {
    std::string s = pcdata(n, c), p; for (unsigned char ch : s) if (!isspace(ch)) p += ch;
    if (p.size() % 4) throw Bad{"base64 length"};
    std::string o; static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (size_t i = 0; i < p.size(); i += 4) {
      unsigned v = 0; int pad = 0;
      for (int k = 0; k < 4; k++) { char ch = p[i + k]; size_t x = A.find(ch); if (ch == '=' && k >= 2 && i + 4 == p.size() && (k == 3 || p[i + 3] == '=')) { pad++; x = 0; } else if (x == std::string::npos) throw Bad{"base64 character"}; v = v << 6 | x; }
      o += (char)(v >> 16); if (pad < 2) o += (char)(v >> 8); if (pad < 1) o += (char)v;
    }
    return RV::bin(o);
  }
  if (t == "dateTime.iso8601") {
    std::string s = pcdata(n, c); bool ok = s.size() == 17;
    for (size_t i = 0; ok && i < 17; i++) ok = i == 8 ? s[i] == 'T' : (i == 11 || i == 14) ? s[i] == ':' : isdigit((unsigned char)s[i]) != 0;
    if (!ok) throw Bad{"date-time"};
    auto f = [&](int at, int l) { return atoi(s.substr(at, l).c_str()); };
    if (f(4, 2) < 1 || f(4, 2) > 12 || f(6, 2) < 1 || f(6, 2) > 31 || f(9, 2) > 23 || f(12, 2) > 59) throw Bad{"date-time field"};
    if (f(0, 4) < 1900 || f(15, 2) > 59) c.leave_open("unusual date");
    return RV::date(s);
  }
  if (t == "array") {
    Kids k = elements(n, c); if (k.el.empty()) { c.leave_open("array without data"); return RV::arr(); } if (k.el.size() != 1 || nm(k.el[0]) != "data") throw Bad{"array without a single data"};
    Kids d = elements(k.el[0], c); RV r = RV::arr();
    for (auto x : d.el) { if (nm(x) != "value") throw Bad{"data content"}; r.a.push_back(value(x, c)); }
    return r;
  }
  if (t == "struct") {
    Kids k = elements(n, c); RV r = RV::map();
    for (auto m : k.el) {
      if (nm(m) != "member") throw Bad{"struct content"};
      Kids p = elements(m, c); if (p.el.size() != 2 || nm(p.el[0]) != "name" || nm(p.el[1]) != "value") throw Bad{"member content"};
      std::string name = pcdata(p.el[0], c);
      RV v = value(p.el[1], c);
      if (r.m.count(name)) c.leave_open("repeated member name");
      r.m[name] = v;
    }
    return r;
  }
  throw Bad{"unknown element " + t};
}
inline RV value(xmlNodePtr n, Ctx& c) {
  Kids k = kids(n, c);
  if (k.el.empty()) { if (k.has_text && blank(k.text)) { c.leave_open("blank untagged string"); } return RV::str(k.text); }
  if (!blank(k.text) || k.cdata) c.leave_open("stray text");
  if (k.el.size() != 1) throw Bad{"several elements in a value"};
  return typed(k.el[0], c);
}
struct Doc { xmlDocPtr d; Doc(const std::string& s) { d = xmlReadMemory(s.data(), (int)s.size(), nullptr, nullptr, XML_PARSE_NONET | XML_PARSE_HUGE | XML_PARSE_NOERROR | XML_PARSE_NOWARNING); } ~Doc() { if (d) xmlFreeDoc(d); } };
}

inline RefDoc ref_request(const std::string& s) {
  using namespace refdoc; RefDoc r; Ctx c;
  Doc d(s);
  if (!d.d) { r.verdict = RefDoc::INVALID; r.text = "not well-formed"; return r; }
  if (d.d->intSubset || d.d->extSubset) c.leave_open("document type");
  try {
    xmlNodePtr root = xmlDocGetRootElement(d.d);
    if (!root || nm(root) != "methodCall") throw Bad{"root"};
    Kids k = elements(root, c);
    if (k.el.empty() || k.el.size() > 2 || nm(k.el[0]) != "methodName") throw Bad{"methodCall content"};
    if (k.el.size() == 2 && nm(k.el[1]) != "params") throw Bad{"methodCall content"};
    std::string name = pcdata(k.el[0], c), t = "call " + esc(name) + "(";
    if (name.empty() || blank(name)) c.leave_open("blank method name");
    if (k.el.size() == 2) for (auto p : elements(k.el[1], c).el) {
      if (nm(p) != "param") throw Bad{"params content"};
      Kids v = elements(p, c); if (v.el.size() != 1 || nm(v.el[0]) != "value") throw Bad{"param content"};
      t += show(value(v.el[0], c)) + ",";
    }
    r.text = t + ")"; r.verdict = c.open ? RefDoc::OPEN : RefDoc::VALID;
  } catch (const Bad& b) { r.verdict = c.open ? RefDoc::OPEN : RefDoc::INVALID; r.text = b.why; }
  return r;
}
inline RefDoc ref_response(const std::string& s) {
  using namespace refdoc; RefDoc r; Ctx c;
  Doc d(s);
  if (!d.d) { r.verdict = RefDoc::INVALID; r.text = "not well-formed"; return r; }
  if (d.d->intSubset || d.d->extSubset) c.leave_open("document type");
  try {
    xmlNodePtr root = xmlDocGetRootElement(d.d);
    if (!root || nm(root) != "methodResponse") throw Bad{"root"};
    Kids k = elements(root, c); if (k.el.size() != 1) throw Bad{"methodResponse content"};
    if (nm(k.el[0]) == "params") {
      Kids p = elements(k.el[0], c); if (p.el.size() != 1 || nm(p.el[0]) != "param") throw Bad{"params content"};
      Kids v = elements(p.el[0], c); if (v.el.size() != 1 || nm(v.el[0]) != "value") throw Bad{"param content"};
      r.text = "result " + show(value(v.el[0], c));
    } else if (nm(k.el[0]) == "fault") {
      Kids v = elements(k.el[0], c); if (v.el.size() != 1 || nm(v.el[0]) != "value") throw Bad{"fault content"};
      RV x = value(v.el[0], c);
      if (x.k != RV::MAP || x.m.size() != 2 || !x.m.count("faultCode") || !x.m.count("faultString") || x.m["faultCode"].k != RV::INT || x.m["faultString"].k != RV::STR) throw Bad{"fault struct"};
      r.text = "fault " + std::to_string(x.m["faultCode"].i) + " \"" + esc(x.m["faultString"].s) + "\"";
    } else throw Bad{"methodResponse content"};
    r.verdict = c.open ? RefDoc::OPEN : RefDoc::VALID;
  } catch (const Bad& b) { r.verdict = c.open ? RefDoc::OPEN : RefDoc::INVALID; r.text = b.why; }
  return r;
}
