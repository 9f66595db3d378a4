// C06: values, arrays and structs behave as independent deep values for every history of operations.
#include "rv.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include <algorithm>
#include <array>
#include <sstream>
using namespace mc;
using namespace iqxmlrpc;

namespace {
struct Err { std::string k; };
struct Model { RV v[3]; };
RV& need(RV& x, RV::K k) { if (x.k != k) throw Err{"cast"}; return x; }
RV& at(RV& x, int i) { need(x, RV::ARR); if (i < 0 || i >= (int)x.a.size()) throw Err{"range"}; return x.a[i]; }
RV& mem(RV& x, const std::string& n) { need(x, RV::MAP); auto it = x.m.find(n); if (it == x.m.end()) throw Err{"field"}; return it->second; }

struct Op { std::string name; std::function<void(Value*)> lib; std::function<void(Model&)> ref; bool core; };

std::vector<Op>* make_ops() {
  auto* ops = new std::vector<Op>;
  auto add = [&](const std::string& n, std::function<void(Value*)> l, std::function<void(Model&)> r, bool core = false) { ops->push_back(Op{n, l, r, core}); };
  for (int d = 0; d < 3; d++) {
    std::string D(1, 'a' + d);
    add(D + "=7", [=](Value* v) { v[d] = 7; }, [=](Model& m) { m.v[d] = RV::in(7); });
    add(D + "='s'", [=](Value* v) { v[d] = "s"; }, [=](Model& m) { m.v[d] = RV::str("s"); });
    add(D + "=nil", [=](Value* v) { v[d] = Nil(); }, [=](Model& m) { m.v[d] = RV::nil(); });
    add(D + "=[]", [=](Value* v) { v[d] = Array(); }, [=](Model& m) { m.v[d] = RV::arr(); }, true);
    add(D + "={}", [=](Value* v) { v[d] = Struct(); }, [=](Model& m) { m.v[d] = RV::map(); }, true);
    add(D + "=" + D + "[0]", [=](Value* v) { v[d] = v[d][0]; }, [=](Model& m) { RV t = at(m.v[d], 0); m.v[d] = t; }, true);
    add(D + "=" + D + ".k", [=](Value* v) { v[d] = v[d]["k"]; }, [=](Model& m) { RV t = mem(m.v[d], "k"); m.v[d] = t; }, true);
    add(D + "[0]=" + D, [=](Value* v) { v[d][0] = v[d]; }, [=](Model& m) { RV t = m.v[d]; at(m.v[d], 0) = t; }, true);
    add(D + ".k=" + D, [=](Value* v) { v[d]["k"] = v[d]; }, [=](Model& m) { RV t = m.v[d]; mem(m.v[d], "k") = t; });
    add(D + "[1]=" + D + "[0]", [=](Value* v) { v[d][1] = v[d][0]; }, [=](Model& m) { RV t = at(m.v[d], 0); at(m.v[d], 1) = t; });
    add(D + ".arr=" + D + "[0].arr", [=](Value* v) { v[d].the_array() = v[d][0].the_array(); }, [=](Model& m) { RV t = need(at(m.v[d], 0), RV::ARR); m.v[d].a = std::vector<RV>(t.a); });
    add(D + ".st=" + D + ".k.st", [=](Value* v) { v[d].the_struct() = v[d]["k"].the_struct(); }, [=](Model& m) { RV t = need(mem(m.v[d], "k"), RV::MAP); m.v[d].m = std::map<std::string, RV>(t.m); });
    add(D + ".insert(k," + D + ".k)", [=](Value* v) { v[d].insert("k", v[d]["k"]); }, [=](Model& m) { RV t = mem(m.v[d], "k"); m.v[d].m["k"] = t; });
    add(D + ".insert(n," + D + ".k)", [=](Value* v) { v[d].insert("n", v[d]["k"]); }, [=](Model& m) { RV t = mem(m.v[d], "k"); m.v[d].m["n"] = t; }, true);
    add(D + ".push(" + D + "[0])", [=](Value* v) { v[d].push_back(v[d][0]); }, [=](Model& m) { RV t = at(m.v[d], 0); m.v[d].a.push_back(t); });
    add(D + ".arr.clear", [=](Value* v) { v[d].the_array().clear(); }, [=](Model& m) { need(m.v[d], RV::ARR).a.clear(); });
    add(D + ".st.clear", [=](Value* v) { v[d].the_struct().clear(); }, [=](Model& m) { need(m.v[d], RV::MAP).m.clear(); });
    add(D + ".erase(k)", [=](Value* v) { v[d].the_struct().erase("k"); }, [=](Model& m) { need(m.v[d], RV::MAP).m.erase("k"); }, true);
    add(D + ".erase(zz)", [=](Value* v) { v[d].the_struct().erase("zz"); }, [=](Model& m) { need(m.v[d], RV::MAP).m.erase("zz"); });
    add(D + ".find(k)->second=5", [=](Value* v) { Struct& s = v[d].the_struct(); Struct::iterator i = s.find("k"); if (i != s.end()) *i->second = 5; else throw Struct::No_field("k"); }, [=](Model& m) { mem(m.v[d], "k") = RV::in(5); });
    add(D + "[9]=1", [=](Value* v) { v[d][9] = 1; }, [=](Model& m) { at(m.v[d], 9) = RV::in(1); });
    add(D + "[-1]=1", [=](Value* v) { v[d][-1] = 1; }, [=](Model& m) { at(m.v[d], -1) = RV::in(1); });
    add(D + ".zz=1", [=](Value* v) { v[d]["zz"] = 1; }, [=](Model& m) { mem(m.v[d], "zz") = RV::in(1); });
    add(D + ".push(ptr 3)", [=](Value* v) { v[d].the_array().push_back(Value_ptr(new Value(3))); }, [=](Model& m) { need(m.v[d], RV::ARR).a.push_back(RV::in(3)); });
    add(D + ".insert(k,ptr 4)", [=](Value* v) { v[d].the_struct().insert("k", Value_ptr(new Value(4))); }, [=](Model& m) { need(m.v[d], RV::MAP).m["k"] = RV::in(4); }, true);
    for (int s = 0; s < 3; s++) {
      std::string S(1, 'a' + s);
      add(D + "=" + S, [=](Value* v) { v[d] = v[s]; }, [=](Model& m) { RV t = m.v[s]; m.v[d] = t; }, true);
      add(D + ".push(" + S + ")", [=](Value* v) { v[d].push_back(v[s]); }, [=](Model& m) { RV t = m.v[s]; need(m.v[d], RV::ARR).a.push_back(t); }, true);
      add(D + ".insert(k," + S + ")", [=](Value* v) { v[d].insert("k", v[s]); }, [=](Model& m) { RV t = m.v[s]; need(m.v[d], RV::MAP).m["k"] = t; }, true);
      add(D + ".arr=" + S + ".arr", [=](Value* v) { v[d].the_array() = v[s].the_array(); }, [=](Model& m) { need(m.v[d], RV::ARR); RV t = need(m.v[s], RV::ARR); m.v[d] = t; });
      add(D + ".st=" + S + ".st", [=](Value* v) { v[d].the_struct() = v[s].the_struct(); }, [=](Model& m) { need(m.v[d], RV::MAP); RV t = need(m.v[s], RV::MAP); m.v[d] = t; });
      if (s != d) {
        add(D + "[0]=" + S, [=](Value* v) { v[d][0] = v[s]; }, [=](Model& m) { at(m.v[d], 0) = RV(m.v[s]); });
        add(D + ".k=" + S, [=](Value* v) { v[d]["k"] = v[s]; }, [=](Model& m) { mem(m.v[d], "k") = RV(m.v[s]); });
        add(D + "=" + S + "[0]", [=](Value* v) { v[d] = v[s][0]; }, [=](Model& m) { m.v[d] = RV(at(m.v[s], 0)); });
        add(D + "=" + S + ".k", [=](Value* v) { v[d] = v[s]["k"]; }, [=](Model& m) { m.v[d] = RV(mem(m.v[s], "k")); });
        add(D + ".arr.assign(" + S + ")", [=](Value* v) { v[d].the_array(); v[s].the_array(); v[d].the_array().assign(v[s].arr_begin(), v[s].arr_end()); }, [=](Model& m) { need(m.v[d], RV::ARR); m.v[d].a = std::vector<RV>(need(m.v[s], RV::ARR).a); });
      }
      if (s > d) {
        add(D + ".arr.swap(" + S + ")", [=](Value* v) { v[d].the_array().swap(v[s].the_array()); }, [=](Model& m) { need(m.v[d], RV::ARR); need(m.v[s], RV::ARR); std::swap(m.v[d].a, m.v[s].a); }, true);
        add(D + ".st.swap(" + S + ")", [=](Value* v) { v[d].the_struct().swap(v[s].the_struct()); }, [=](Model& m) { need(m.v[d], RV::MAP); need(m.v[s], RV::MAP); std::swap(m.v[d].m, m.v[s].m); });
      }
      if (s == d) {
        add(D + ".arr.swap(self)", [=](Value* v) { v[d].the_array().swap(v[d].the_array()); }, [=](Model& m) { need(m.v[d], RV::ARR); });
        add(D + ".st.swap(self)", [=](Value* v) { v[d].the_struct().swap(v[d].the_struct()); }, [=](Model& m) { need(m.v[d], RV::MAP); });
      }
    }
  }
  return ops;
}
std::vector<Op>* OPS; std::vector<int>* CORE;

template <class F> bool bad_cast(F f) { try { f(); return false; } catch (const Value::Bad_cast&) { return true; } catch (...) { return false; } }
// every typed accessor succeeds exactly for the value's own type
void accessors(const Value& v, const RV& m, const std::string& hist) {
  static const char* tn[] = {"nil", "i4", "i8", "boolean", "double", "string", "base64", "dateTime.iso8601", "array", "struct"};
  auto chk = [&](bool ok, const char* w) { if (!ok) violation("accessor", std::string("accessor ") + w + " behaves wrongly on " + show(m) + " after " + hist); };
  chk(v.type_name() == tn[m.k], "type_name");
  chk(bad_cast([&] { v.get_int(); }) == (m.k != RV::INT), "get_int");
  chk(bad_cast([&] { v.get_int64(); }) == (m.k != RV::I8), "get_int64");
  chk(bad_cast([&] { v.get_bool(); }) == (m.k != RV::BOOL), "get_bool");
  chk(bad_cast([&] { v.get_double(); }) == (m.k != RV::DBL), "get_double");
  chk(bad_cast([&] { v.get_string(); }) == (m.k != RV::STR), "get_string");
  chk(bad_cast([&] { v.get_binary(); }) == (m.k != RV::BIN), "get_binary");
  chk(bad_cast([&] { v.get_datetime(); }) == (m.k != RV::DATE), "get_datetime");
  chk(bad_cast([&] { v.the_array(); }) == (m.k != RV::ARR), "the_array");
  chk(bad_cast([&] { v.the_struct(); }) == (m.k != RV::MAP), "the_struct");
  chk(bad_cast([&] { v.size(); }) == (m.k != RV::ARR), "size");
  chk(bad_cast([&] { v.has_field("k"); }) == (m.k != RV::MAP), "has_field");
  chk(bad_cast([&] { (int)v; }) == (m.k != RV::INT), "operator int");
  chk(bad_cast([&] { (std::string) v; }) == (m.k != RV::STR), "operator string");
  chk(bad_cast([&] { (int64_t)v; }) == (m.k != RV::I8), "operator int64");
  chk(bad_cast([&] { (bool)v; }) == (m.k != RV::BOOL), "operator bool");
  chk(bad_cast([&] { (double)v; }) == (m.k != RV::DBL), "operator double");
  chk(bad_cast([&] { Binary_data b(v.operator Binary_data()); }) == (m.k != RV::BIN), "operator Binary_data");
  chk(bad_cast([&] { struct tm t(v.operator tm()); (void)t; }) == (m.k != RV::DATE), "operator tm");
  chk(bad_cast([&] { v.arr_begin(); }) == (m.k != RV::ARR), "arr_begin");
  chk(bad_cast([&] { v.arr_end(); }) == (m.k != RV::ARR), "arr_end");
  chk(bad_cast([&] { v[0]; }) == (m.k != RV::ARR), "operator[](int)");
  chk(bad_cast([&] { v["k"]; }) == (m.k != RV::MAP), "operator[](const char*)");
  chk(bad_cast([&] { v[std::string("k")]; }) == (m.k != RV::MAP), "operator[](string)");
  const bool is[] = {v.is_nil(), v.is_int(), v.is_int64(), v.is_bool(), v.is_double(), v.is_string(), v.is_binary(), v.is_datetime(), v.is_array(), v.is_struct()};
  for (int i = 0; i < 10; i++) chk(is[i] == (i == (int)m.k), "is_...");
  if (m.k == RV::INT) chk((int)v == v.get_int(), "operator int");
  if (m.k == RV::I8) chk((int64_t)v == v.get_int64(), "operator int64");
  if (m.k == RV::BOOL) chk((bool)v == v.get_bool(), "operator bool");
  if (m.k == RV::DBL) chk((double)v == v.get_double(), "operator double");
  if (m.k == RV::STR) chk((std::string)v == v.get_string(), "operator string");
  if (m.k == RV::BIN) { Binary_data b(v.operator Binary_data()); chk(b.get_data() == v.get_binary().get_data() && b.get_base64() == v.get_binary().get_base64(), "operator Binary_data"); }
  if (m.k == RV::DATE) { struct tm a(v.operator tm()), b(v.get_datetime().get_tm()); chk(a.tm_year == b.tm_year && a.tm_mon == b.tm_mon && a.tm_mday == b.tm_mday && a.tm_hour == b.tm_hour && a.tm_min == b.tm_min && a.tm_sec == b.tm_sec, "operator tm"); }
  if (m.k == RV::MAP) {
    const Struct& s = v.the_struct(); size_t n = 0; auto w = m.m.begin();
    chk(s.size() == m.m.size(), "Struct::size");
    for (Struct::const_iterator i = s.begin(); i != s.end(); ++i, n++) { if (w == m.m.end()) { chk(false, "Struct::begin/end"); break; } chk(i->first == w->first && from_lib(*i->second) == w->second, "Struct iteration"); ++w; }
    chk(n == m.m.size(), "Struct iteration");
    for (auto& x : m.m) { chk(&v[x.first] == &s[x.first] && &v[x.first.c_str()] == &s[x.first] && s.find(x.first) != s.end() && s.find(x.first)->second == &s[x.first] && s.has_field(x.first), "Struct access"); chk(from_lib(s[x.first]) == x.second, "Struct::operator[]"); }
    for (const char* k : {"", "K", "kk", "none"}) if (!m.m.count(k)) { int thrown = 0; try { s[k]; } catch (const Struct::No_field&) { thrown++; } try { v[k]; } catch (const Struct::No_field&) { thrown++; } try { v[std::string(k)]; } catch (const Struct::No_field&) { thrown++; } chk(thrown == 3 && !s.has_field(k) && s.find(k) == s.end(), "access to a missing member"); }
  }
  if (m.k == RV::ARR) {
    const Array& a = v.the_array(); size_t n = 0;
    chk(v.size() == m.a.size() && a.size() == m.a.size(), "size");
    for (Array::const_iterator i = v.arr_begin(); i != v.arr_end(); n++) { if (n >= m.a.size()) { chk(false, "Array::begin/end"); break; } chk(&*i == &a[n] && i.operator->() == &v[(int)n], "Array iteration"); if (n & 1) ++i; else { Array::const_iterator o = i++; chk(&*o == &a[n], "postfix increment"); } }
    chk(n == m.a.size(), "Array iteration");
    for (Array::const_iterator i = a.end(); !(i == a.begin()) && n; n--) { if (n & 1) --i; else { Array::const_iterator o = i--; chk(n == m.a.size() ? o == a.end() : &*o == &a[n], "postfix decrement"); } chk(&*i == &a[n - 1], "Array iteration backwards"); }
    chk(n == 0, "Array iteration backwards");
    for (int b : {-1, (int)m.a.size(), (int)m.a.size() + 1, 2147483647, -2147483647 - 1}) { bool thrown = false; try { v[b]; } catch (const Array::Out_of_range&) { thrown = true; } chk(thrown, "operator[] out of range"); }
  }
  if (m.k == RV::MAP) { chk(v.has_field("k") == (m.m.count("k") > 0), "has_field"); chk(!v.has_field("none"), "has_field"); chk((v.the_struct().find("k") != v.the_struct().end()) == (m.m.count("k") > 0), "find"); }
  if (m.k == RV::ARR) { bool thrown = false; try { v[(int)m.a.size()]; } catch (const Array::Out_of_range&) { thrown = true; } chk(thrown, "operator[]"); for (size_t i = 0; i < m.a.size(); i++) chk(from_lib(v[(int)i]) == m.a[i], "operator[]"); }
}
size_t weight(const RV& r) { size_t n = 1; for (auto& x : r.a) n += weight(x); for (auto& x : r.m) n += weight(x.second); return n; }

void history_run(int depth, bool core, int init) {
  Model m; 
  {
    if (init == 0) { m.v[0] = RV::in(1); m.v[1] = RV::arr({RV::in(2), RV::str("x")}); m.v[2] = RV::map({{"k", RV::in(3)}}); }
    else if (init == 1) { m.v[0] = RV::arr({RV::arr({RV::in(1)}), RV::nil()}); m.v[1] = RV::arr(); m.v[2] = RV::arr({RV::map({{"k", RV::str("y")}})}); }
    else { m.v[0] = RV::map({{"k", RV::map({{"k", RV::in(1)}, {"n", RV::nil()}})}}); m.v[1] = RV::map(); m.v[2] = RV::map({{"k", RV::arr({RV::in(9)})}, {"n", RV::in(2)}}); }
  }
  Value v[3] = {to_lib(m.v[0]), to_lib(m.v[1]), to_lib(m.v[2])};
  std::string hist = "init" + std::to_string(init);
  for (int i = 0; i < depth; i++) {
    int c = choose((core ? (int)CORE->size() : (int)OPS->size()) + 1, C_FREE, "op");
    if (c == 0) break;
    const Op& op = (*OPS)[core ? (*CORE)[c - 1] : c - 1];
    hist += "; " + op.name;
    Model keep = m; std::string want = "ok", got = "ok";
    try { op.ref(m); } catch (const Err& e) { want = e.k; m = keep; }
    if (weight(m.v[0]) + weight(m.v[1]) + weight(m.v[2]) > 400) return;
    try { op.lib(v); }
    catch (const Value::Bad_cast&) { got = "cast"; } catch (const Array::Out_of_range&) { got = "range"; } catch (const Struct::No_field&) { got = "field"; }
    catch (const std::exception& e) { got = std::string("exception ") + e.what(); }
    if (got != want) { violation("operation", "after " + hist + " the operation gave '" + got + "' instead of '" + want + "'"); return; }
    std::string st;
    for (int k = 0; k < 3; k++) {
      RV g = from_lib(v[k]);
      if (g != m.v[k]) { violation("contents", std::string("after ") + hist + " variable " + char('a' + k) + " is " + show(g) + " instead of " + show(m.v[k])); return; }
      st += show(g) + "|";
    }
    state(hash_str(st));
    for (int k = 0; k < 3; k++) if (state(hash_str("value " + show(m.v[k])))) accessors(v[k], m.v[k], hist);
  }
}
}

// ---- C32: any allocation fails
namespace {
struct NoMem { NoMem() { sched_opts.nomem = true; } ~NoMem() { sched_opts.nomem = false; } };
void start_state(Model& m, int init) {
  if (init == 0) { m.v[0] = RV::in(1); m.v[1] = RV::arr({RV::in(2), RV::str("x")}); m.v[2] = RV::map({{"k", RV::in(3)}}); }
  else if (init == 1) { m.v[0] = RV::arr({RV::arr({RV::in(1)}), RV::nil()}); m.v[1] = RV::arr({RV::bin("b"), RV::date("20240101T01:02:03")}); m.v[2] = RV::arr({RV::map({{"k", RV::str("a text that does not fit into a small string")}})}); }
  else { m.v[0] = RV::map({{"k", RV::map({{"k", RV::in(1)}, {"n", RV::nil()}})}}); m.v[1] = RV::map({{"k", RV::i8(5)}, {"z", RV::db(1)}}); m.v[2] = RV::map({{"k", RV::arr({RV::in(9)})}, {"n", RV::bo(true)}}); }
}
void nomem_ops(int init, int n) {
  Model m; start_state(m, init);
  Value v[3] = {to_lib(m.v[0]), to_lib(m.v[1]), to_lib(m.v[2])};
  std::string hist = "init" + std::to_string(init);
  for (int i = 0; i < n; i++) {
    const Op& op = (*OPS)[choose((int)OPS->size(), C_FREE, "op")]; hist += "; " + op.name;
    Model keep = m; std::string want = "ok", got = "ok";
    try { op.ref(m); } catch (const Err& e) { want = e.k; m = keep; }
    try { NoMem no; op.lib(v); }
    catch (const std::bad_alloc&) { got = "memory"; }
    catch (const Value::Bad_cast&) { got = "cast"; } catch (const Array::Out_of_range&) { got = "range"; } catch (const Struct::No_field&) { got = "field"; }
    catch (const std::exception& e) { got = std::string("exception ") + e.what(); }
    if (got == "memory") m = keep;
    else if (got != want) { violation("operation", "after " + hist + " the operation gave '" + got + "' instead of '" + want + "'"); return; }
    for (int k = 0; k < 3; k++) { RV g = from_lib(v[k]); if (g != m.v[k]) { violation("contents", std::string("after ") + hist + (got == "memory" ? ", which ran out of memory," : "") + " variable " + char('a' + k) + " is " + show(g) + " instead of " + show(m.v[k])); return; } }
    state(hash_str(hist)); outcome(got + " ");
  }
}
}
namespace {
const RV& nomem_value(int i) {
  static const RV set[] = {RV::nil(), RV::in(-5), RV::i8(5000000000LL), RV::bo(true), RV::db(-0.5), RV::str(""), RV::str("<&>"), RV::str(std::string(40, 't')), RV::bin(std::string("a\0b", 3)), RV::bin(std::string(40, 'b')), RV::date("20240229T23:59:58"), RV::arr(), RV::map(),
    RV::arr({RV::in(1), RV::str("text"), RV::nil()}), RV::map({{"k", RV::in(1)}, {"a name that does not fit into a small string", RV::str("v")}}), RV::arr({RV::arr({RV::map({{"k", RV::arr({RV::bin("q")})}})}), RV::arr()}), RV::map({{"a", RV::map({{"b", RV::map({{"c", RV::str(std::string(40, 'c'))}})}})}})};
  return set[i];
}
const int N_NOMEM_VALUES = 17;
template <class F> std::string nomem_try(F f) {
  std::string r;
  try { NoMem no; f(r); }
  catch (const std::exception& e) { Guard g; r = "failed"; }
  return r;
}
// one message: encoded and decoded, any allocation failing once; what comes out is right or nothing comes out
void nomem_doc() {
  int kind = choose(5, C_FREE, "message"), a = choose(N_NOMEM_VALUES, C_FREE, "value"), b = kind == 1 ? choose(N_NOMEM_VALUES, C_FREE, "second value") : 0;
  const RV& va = nomem_value(a); const RV& vb = nomem_value(b);
  std::string what = std::string(kind == 0 ? "call with " : kind == 1 ? "call with two parameters " : kind == 2 ? "result " : kind == 3 ? "result without string tags " : "refused document with ") + show(va) + (kind == 1 ? ", " + show(vb) : "");
  if (kind == 3) Value::omit_string_tag_in_responses(true);
  std::string want, doc, exp;
  { Guard g; Param_list pl; pl.push_back(to_lib(va)); if (kind == 1) pl.push_back(to_lib(vb));
    exp = kind < 2 ? "m.n(" + show(va) + "," + (kind == 1 ? show(vb) + "," : "") + ")" : show(va);
    want = kind < 2 || kind == 4 ? dump_request(Request("m.n", pl)) : dump_response(Response(new Value(to_lib(va)))); }
  if (kind < 4) {
    Param_list pl; pl.push_back(to_lib(va)); if (kind == 1) pl.push_back(to_lib(vb));
    doc = nomem_try([&](std::string& r) { if (kind < 2) { Request q("m.n", pl); r = dump_request(q); } else { Response q(new Value(pl[0])); r = dump_response(q); } });
    if (doc != "failed" && doc != want) violation("encoded", what + " was encoded as " + esc(doc, 1500));
    outcome(doc == "failed" ? "not encoded " : "encoded ");
  }
  std::string bad = want;
  if (kind == 4) { size_t p = bad.rfind("</param>"); bad.insert(p, "<value>late</value>"); }
  std::string got = nomem_try([&](std::string& r) {
    if (kind < 2 || kind == 4) { std::unique_ptr<Request> q(parse_request(bad)); Guard g; r = q->get_name() + "("; for (auto& v : q->get_params()) r += show(from_lib(v)) + ","; r += ")"; }
    else { Response q = parse_response(bad); Guard g; r = q.is_fault() ? "fault" : show(from_lib(q.value())); } });
  if (kind == 4 ? got != "failed" : got != "failed" && got != exp) violation("decoded", what + " was decoded as " + got);
  outcome(got == "failed" ? "not decoded " : "decoded ");
  Value::omit_string_tag_in_responses(false);
  state(hash_str(what + got + doc));
}
}
void c32_values(Driver& D) {
  OPS = make_ops(); bool q = D.quick();
  for (int init = 0; init < 3; init++) {
    Scenario s; s.managed = false; s.name = "values-" + std::to_string(init); s.note = "every " + std::string(q ? "pair" : "triple") + " of " + std::to_string(OPS->size()) + " operations on three variables, one allocation failing";
    s.budget.tot(1).set(C_FAULT, 1); s.run = [=] { nomem_ops(init, q ? 2 : 3); }; D.scenarios.push_back(s);
  }
  Scenario s; s.managed = false; s.name = "messages"; s.note = "calls, results and refused documents with each of " + std::to_string(N_NOMEM_VALUES) + " values encoded and decoded, " + "up to two allocations failing";
  s.budget.tot(2).set(C_FAULT, 2); s.run = nomem_doc; D.scenarios.push_back(s);
  D.assumptions = {"memory requests of the XML parser itself (libxml2) succeed"};
}
void c06(Driver& D) {
  OPS = make_ops(); CORE = new std::vector<int>; for (size_t i = 0; i < OPS->size(); i++) if ((*OPS)[i].core) CORE->push_back(i);
  bool q = D.quick();
  auto add = [&](const std::string& name, const std::string& note, std::function<void()> f) { Scenario s; s.name = name; s.note = note; s.run = f; s.managed = false; D.scenarios.push_back(s); };
  for (int init = 0; init < 3; init++) {
    add("histories-" + std::to_string(init), "every history of up to " + std::to_string(q ? 2 : 3) + " of " + std::to_string(OPS->size()) + " operations on three variables", [=] { history_run(q ? 2 : 3, false, init); });
    add("core-histories-" + std::to_string(init), "every history of up to " + std::to_string(q ? 3 : 4) + " of " + std::to_string(CORE->size()) + " core operations on three variables", [=] { history_run(q ? 3 : 4, true, init); });
  }
  add("ways", "every way to build, read and replace a value of each kind gives the same value", [] {
    static const RV set[] = {RV::nil(), RV::in(0), RV::in(-5), RV::i8(0), RV::i8(-5000000000LL), RV::bo(false), RV::bo(true), RV::db(-0.5), RV::str(""), RV::str("s"), RV::bin(""), RV::bin(std::string("a\0b", 3)), RV::date("20240229T23:59:58"), RV::arr(), RV::arr({RV::in(1), RV::arr({RV::str("q")})}), RV::map(), RV::map({{"", RV::in(1)}, {"k", RV::map({{"k", RV::nil()}})}})};
    const RV& r = set[choose(17, C_FREE, "value")]; const RV& o = set[choose(17, C_FREE, "other")]; int way = choose(8, C_FREE, "way");
    Value src = to_lib(r), v = to_lib(o);
    switch (way) {
      case 0: v = src; break;
      case 1: { Value t(src); v = t; break; }
      case 2: { Array a; a.push_back(v); a[0] = src; v = Value(a)[0]; break; }
      case 3: { Struct s; s.insert("x", v); s["x"] = src; s.insert("y", v); v = Value(s)["x"]; break; }
      case 4: { Value* p = new Value(src); Array a; a.push_back(Value_ptr(p)); Value h(a); a.clear(); v = h[0]; break; }
      case 5: { Struct s; s.insert("x", Value_ptr(new Value(v))); s.insert("x", Value_ptr(new Value(src))); Value h(s); s.erase("x"); v = h[std::string("x")]; break; }
      case 6:
        switch (r.k) {
          case RV::NIL: v = Nil(); break; case RV::INT: v = src.get_int(); break; case RV::I8: v = src.get_int64(); break; case RV::BOOL: v = src.get_bool(); break; case RV::DBL: v = src.get_double(); break;
          case RV::STR: if (r.s.find('\0') == std::string::npos) v = src.get_string().c_str(); else v = src; break;
          case RV::BIN: v = src.get_binary(); break; case RV::DATE: v = src.get_datetime(); break; case RV::ARR: v = src.the_array(); break; default: v = src.the_struct(); break;
        } break;
      default:
        switch (r.k) {
          case RV::STR: v = src.get_string(); break; case RV::BIN: { std::unique_ptr<Binary_data> b(Binary_data::from_data(r.s.data(), r.s.size())), c(Binary_data::from_base64(src.get_binary().get_base64())); v = *b; if (from_lib(Value(*c)) != r) violation("contents", "from_base64 of " + show(r)); break; }
          case RV::DATE: { struct tm t(src.operator tm()); v = &t; break; }
          case RV::ARR: { Array a; a.assign(src.arr_begin(), src.arr_end()); v = a; break; }
          case RV::MAP: { Struct s; for (Struct::const_iterator i = src.the_struct().begin(); i != src.the_struct().end(); ++i) s.insert(i->first, *i->second); v = s; break; }
          default: { Value t(src); v = t; break; }
        }
    }
    std::string h = "way " + std::to_string(way) + " over " + show(o);
    if (from_lib(v) != r || from_lib(src) != r) violation("contents", h + ": " + show(r) + " became " + show(from_lib(v)) + ", the source is " + show(from_lib(src)));
    accessors(v, r, h); accessors(src, r, h);
    std::ostringstream a, b; print_value(v, a); print_value(src, b); if (a.str() != b.str() || a.str().empty()) violation("print", h + ": equal values of " + show(r) + " print differently");
    state(hash_str(h + show(r)));
  });
  add("copies", "copies of every scalar kind, of binaries and date-times with filled and unfilled caches, are independent", [] {
    static const RV set[] = {RV::nil(), RV::in(1), RV::i8(1), RV::bo(true), RV::db(0.5), RV::str("s"), RV::bin("xyz"), RV::bin(""), RV::date("20240101T01:02:03"), RV::arr({RV::bin("q"), RV::date("20240101T01:02:03")}), RV::map({{"a", RV::bin("q")}})};
    int a = choose(11, C_FREE, "a"), b = choose(11, C_FREE, "b"), order = choose(4, C_FREE, "order");
    Value x = to_lib(set[a]);
    if (order & 1) from_lib(x);
    if ((order & 2) && set[a].k == RV::BIN) x.get_binary().get_base64();
    Value y(x), z = to_lib(set[b]);
    z = y; y = to_lib(set[b]);
    if (from_lib(x) != set[a] || from_lib(y) != set[b] || from_lib(z) != set[a]) violation("contents", "copies of " + show(set[a]) + " and " + show(set[b]) + " are not independent");
    std::ostringstream o; print_value(x, o); print_value(y, o);
    Value* p = new Value(x); Value q2(*p); delete p; if (from_lib(q2) != set[a]) violation("contents", "copy does not outlive its source");
    state(hash_str(show(set[a]) + show(set[b])));
  });
}
