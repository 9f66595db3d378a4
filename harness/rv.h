// Reference values: a plain tree that the library's values are compared with.
#pragma once
#include "mc.h"
#include "libiqxmlrpc/libiqxmlrpc.h"
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

struct RV {
  enum K { NIL, INT, I8, BOOL, DBL, STR, BIN, DATE, ARR, MAP } k = NIL;
  int64_t i = 0; double d = 0; std::string s; std::vector<RV> a; std::map<std::string, RV> m;
  static RV nil() { return RV(); }
  static RV in(int v) { RV r; r.k = INT; r.i = v; return r; }
  static RV i8(int64_t v) { RV r; r.k = I8; r.i = v; return r; }
  static RV bo(bool v) { RV r; r.k = BOOL; r.i = v; return r; }
  static RV db(double v) { RV r; r.k = DBL; r.d = v; return r; }
  static RV str(const std::string& v) { RV r; r.k = STR; r.s = v; return r; }
  static RV bin(const std::string& v) { RV r; r.k = BIN; r.s = v; return r; }
  static RV date(const std::string& v) { RV r; r.k = DATE; r.s = v; return r; }
  static RV arr(std::vector<RV> v = {}) { RV r; r.k = ARR; r.a = std::move(v); return r; }
  static RV map(std::map<std::string, RV> v = {}) { RV r; r.k = MAP; r.m = std::move(v); return r; }
  bool operator==(const RV& o) const {
    if (k != o.k) return false;
    switch (k) {
      case NIL: return true;
      case INT: case I8: case BOOL: return i == o.i;
      case DBL: return std::memcmp(&d, &o.d, sizeof d) == 0;
      case STR: case BIN: case DATE: return s == o.s;
      case ARR: return a == o.a;
      case MAP: return m == o.m;
    }
    return false;
  }
  bool operator!=(const RV& o) const { return !(*this == o); }
};

inline std::string esc(const std::string& s, size_t max = 200) {
  std::string o;
  for (unsigned char c : s) {
    if (o.size() > max) { uint64_t h = 1469598103934665603ull; for (unsigned char x : s) h = (h ^ x) * 1099511628211ull; char b[48]; snprintf(b, sizeof b, "...[%zu bytes, %016llx]", s.size(), (unsigned long long)h); o += b; break; }
    if (c == '\\' || c == '"') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += c;
  }
  return o;
}
inline std::string show(const RV& v) {
  char b[64];
  switch (v.k) {
    case RV::NIL: return "nil";
    case RV::INT: snprintf(b, sizeof b, "i4:%lld", (long long)v.i); return b;
    case RV::I8: snprintf(b, sizeof b, "i8:%lld", (long long)v.i); return b;
    case RV::BOOL: return v.i ? "true" : "false";
    case RV::DBL: snprintf(b, sizeof b, "d:%.17g", v.d); return b;
    case RV::STR: return "\"" + esc(v.s) + "\"";
    case RV::BIN: return "bin:" + esc(v.s);
    case RV::DATE: return "date:" + esc(v.s);
    case RV::ARR: { std::string o = "["; for (auto& x : v.a) o += show(x) + ","; return o + "]"; }
    case RV::MAP: { std::string o = "{"; for (auto& x : v.m) o += "\"" + esc(x.first) + "\":" + show(x.second) + ","; return o + "}"; }
  }
  return "?";
}

// library value from a reference value, through the public constructors
inline iqxmlrpc::Value to_lib(const RV& v) {
  using namespace iqxmlrpc;
  switch (v.k) {
    case RV::NIL: return Value(Nil());
    case RV::INT: return Value((int)v.i);
    case RV::I8: return Value((int64_t)v.i);
    case RV::BOOL: return Value(v.i != 0);
    case RV::DBL: return Value(v.d);
    case RV::STR: return Value(v.s);
    case RV::BIN: { std::unique_ptr<Binary_data> b(Binary_data::from_data(v.s)); return Value(*b); }
    case RV::DATE: return Value(Date_time(v.s));
    case RV::ARR: { Array a; for (auto& x : v.a) a.push_back(to_lib(x)); return Value(a); }
    case RV::MAP: { Struct s; for (auto& x : v.m) s.insert(x.first, to_lib(x.second)); return Value(s); }
  }
  return Value(Nil());
}
// what a user reads from a library value through the public accessors
inline RV from_lib(const iqxmlrpc::Value& v) {
  using namespace iqxmlrpc;
  int n = v.is_nil() + v.is_int() + v.is_int64() + v.is_bool() + v.is_double() + v.is_string() + v.is_binary() + v.is_datetime() + v.is_array() + v.is_struct();
  if (n != 1) return RV::str("<<value with " + std::to_string(n) + " types>>");
  if (v.is_nil()) return RV::nil();
  if (v.is_int()) return RV::in(v.get_int());
  if (v.is_int64()) return RV::i8(v.get_int64());
  if (v.is_bool()) return RV::bo(v.get_bool());
  if (v.is_double()) return RV::db(v.get_double());
  if (v.is_string()) return RV::str(v.get_string());
  if (v.is_binary()) return RV::bin(v.get_binary().get_data());
  if (v.is_datetime()) return RV::date(v.get_datetime().to_string());
  if (v.is_array()) {
    RV r = RV::arr();
    for (Array::const_iterator i = v.arr_begin(); i != v.arr_end(); ++i) r.a.push_back(from_lib(*i));
    if (v.size() != r.a.size()) return RV::str("<<array size differs from iteration>>");
    return r;
  }
  RV r = RV::map();
  const Struct& s = v.the_struct();
  for (Struct::const_iterator i = s.begin(); i != s.end(); ++i) r.m[i->first] = from_lib(*i->second);
  if (s.size() != r.m.size()) return RV::str("<<struct size differs from iteration>>");
  return r;
}
