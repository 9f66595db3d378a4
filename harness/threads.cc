// C29: threads that share nothing, or only read what they share, do not influence one another.
#include "net.h"
#include "conc.h"
#include <libiqxmlrpc/request.h>
#include <libiqxmlrpc/response.h>
#include <libiqxmlrpc/http_client.h>

using namespace nk;
using namespace iqxmlrpc;

namespace {
const char* FULL =
  "<?xml version=\"1.0\"?><methodCall><methodName>a.b</methodName><params>"
  "<param><value><struct><member><name>k</name><value><i4>-7</i4></value></member><member><name>l</name><value><array><data><value>t &amp; u</value><value><boolean>1</boolean></value></data></array></value></member></struct></value></param>"
  "<param><value><base64>AAEC/w==</base64></value></param><param><value><dateTime.iso8601>20240229T23:59:58</dateTime.iso8601></value></param>"
  "<param><value><double>-2.5</double></value></param><param><value><nil/></value></param><param><value><i8>123456789012</i8></value></param></params></methodCall>";
const char* REPLY = "<?xml version=\"1.0\"?><methodResponse><params><param><value><struct><member><name>x</name><value><string>y</string></value></member></struct></value></param></params></methodResponse>";
const char* FAULT = "<?xml version=\"1.0\"?><methodResponse><fault><value><struct><member><name>faultCode</name><value><int>4</int></value></member><member><name>faultString</name><value><string>no &lt;way&gt;</string></value></member></struct></value></fault></methodResponse>";

RV tree() {
  return RV::map({{"a", RV::arr({RV::in(1), RV::str("two & <3>"), RV::db(0.25), RV::nil(), RV::bo(true)})}, {"b", RV::bin(std::string("\0\x01\xff", 3))}, {"c", RV::date("19991231T00:00:01")}, {"d", RV::i8(1LL << 40)}});
}
std::string shown(const Value& v) { Guard g; return show(from_lib(v)); }
std::string raised(const std::function<void()>& f) {
  try { f(); } catch (const iqxmlrpc::Exception& e) { Guard g; return std::string("exception ") + std::to_string(e.code()) + " " + e.what(); }
  catch (const std::exception& e) { Guard g; return std::string("exception ") + e.what(); }
  Guard g; return "no exception";
}
// what the harness builds is not attributed to the library
template <class F> std::string text(F f) { Guard g; return f(); }
Value build() { RV t; { Guard g; t = tree(); } Value v = to_lib(t); { Guard g; t = RV(); } return v; }

const int NOPS = 11;
std::string op(int k) {
  switch (k) {
    case 0: { Param_list pl; pl.push_back(build()); pl.push_back(Value(5)); Request r("m.n", pl); return dump_request(r); }
    case 1: { std::unique_ptr<Request> r(parse_request(FULL)); Guard g; std::string s = r->get_name(); for (auto& v : r->get_params()) s += " " + show(from_lib(v)); return s; }
    case 2: { Response r(new Value(build())); return dump_response(r); }
    case 3: { Response r = parse_response(REPLY); return shown(r.value()); }
    case 4: { Response r = parse_response(FAULT); std::string d = dump_response(Response(r.fault_code(), r.fault_string())); Guard g; return std::to_string(r.fault_code()) + r.fault_string() + " " + d; }
    case 5: return raised([] { std::unique_ptr<Request> r(parse_request("<methodCall><methodName>a</methodName><params><param><value><int>1</int></value></param>")); });
    case 6: return raised([] { std::unique_ptr<Request> r(parse_request("<methodCall><methodName>a</methodName><params><param><value><int>one</int></value></param></params></methodCall>")); });
    case 7: {
      std::unique_ptr<Binary_data> a(Binary_data::from_data("some bytes\xff")), b(Binary_data::from_base64("c29t\nZSBieXRlcw=="));
      std::string s = raised([] { std::unique_ptr<Binary_data> c(Binary_data::from_base64("c29*")); });
      Guard g; return a->get_base64() + " " + b->get_data() + " " + s;
    }
    case 8: {
      Date_time a(std::string("20250131T01:02:03")); Date_time b(&a.get_tm());
      std::string s = raised([] { Date_time c(std::string("20250131 01:02:03")); });
      std::string t = b.to_string(); Guard g; return t + " " + a.to_string() + " " + s;
    }
    case 9: {
      Date_time l(true), u(false); Guard g;
      return l.to_string().substr(8, 1) + u.to_string().substr(8, 1) + std::to_string(l.to_string().size() + u.to_string().size());
    }
    default: {
      Value a = build(), b = a; Value c = 1; c = b; b["a"][1] = std::string("changed"); b.insert("e", Value(9));
      std::string s = raised([&] { c["a"].get_string(); }) + raised([&] { c["nosuch"]; }) + raised([&] { (void)c["a"][17]; });
      Guard g; return show(from_lib(a)) + show(from_lib(b)) + show(from_lib(c)) + s;
    }
  }
}
void judge_op(int k, const std::string& got, const std::string& alone, const char* what) {
  Guard g;
  if (got != alone) violation("influenced", std::string(what) + " " + std::to_string(k) + " gives \"" + esc(got, 600) + "\" beside another thread and \"" + esc(alone, 600) + "\" alone");
}

// every thread performs its own operations on its own objects
void c29_own(int threads, int per, bool cold) {
  std::vector<std::vector<int>> pick(threads); std::vector<std::vector<std::string>> got(threads), want(threads);
  for (int i = 0; i < threads; i++) for (int j = 0; j < per; j++) {
    int lo = i && j == 0 && per == 1 ? pick[i - 1][0] : 0;              // threads are alike: unordered choice
    int k = lo + choose(NOPS - lo, C_FREE, "operation"); Guard g; pick[i].push_back(k);
  }
  auto alone = [&] { for (int i = 0; i < threads; i++) for (int k : pick[i]) { std::string s = op(k); Guard g; want[i].push_back(s); s = std::string(); } };
  if (!cold) alone();
  sched_opts.alloc = !cold;
  std::vector<int> t;
  for (int i = 0; i < threads; i++) { int id = spawn("user", [&, i] { for (int k : pick[i]) { std::string s = op(k); Guard g; got[i].push_back(s); s = std::string(); } }, false); Guard g; t.push_back(id); }
  for (int x : t) join(x);
  sched_opts.alloc = false;
  if (cold) alone();
  for (int i = 0; i < threads; i++) for (int j = 0; j < per; j++) { judge_op(pick[i][j], got[i][j], want[i][j], "operation"); outcome(text([&] { return std::to_string(hash_str(got[i][j])); })); }
  Guard g; pick.clear(); got.clear(); want.clear(); t.clear();
}

// threads that read the same objects
struct Shared {
  Value v; Request rq; Response rs, flt; Binary_data* bin; Date_time dt;
  static Param_list pl() { Param_list p; p.push_back(build()); p.push_back(build()); return p; }
  Shared() : v(build()), rq("m.n", pl()), rs(new Value(build())), flt(7, "seven"), bin(Binary_data::from_data("raw")), dt(std::string("20010203T04:05:06")) {}
  ~Shared() { delete bin; }
};
const int NREADS = 9;
std::string read_op(int k, const Shared& s) {
  switch (k) {
    case 0: return dump_request(s.rq);
    case 1: return dump_response(s.rs);
    case 2: return dump_response(s.flt);
    case 3: { Value c(s.v); return shown(c); }
    case 4: { Value c(1); c = s.v; Response r(new Value(c)); return dump_response(r); }
    case 5: { std::string b = s.bin->get_base64(), d = s.bin->get_data(); Guard g; return b + " " + d; }
    case 6: { const std::string& b = s.v["b"].get_binary().get_base64(); Guard g; return b; }
    case 7: { std::string a = s.v["c"].get_datetime().to_string(), b = s.dt.to_string(); Guard g; return a + b; }
    default: return shown(s.v);
  }
}
void c29_shared(int threads, bool cold) {
  std::unique_ptr<Shared> s(new Shared);
  std::vector<int> pick; std::vector<std::string> got(threads), want(threads);
  for (int i = 0; i < threads; i++) { int lo = i ? pick[i - 1] : 0; int k = lo + choose(NREADS - lo, C_FREE, "read"); Guard g; pick.push_back(k); }
  { Shared o; for (int i = 0; i < threads; i++) { std::string x = read_op(pick[i], o); Guard g; want[i] = x; x = std::string(); } }
  sched_opts.alloc = !cold;
  std::vector<int> t;
  for (int i = 0; i < threads; i++) { int id = spawn("reader", [&, i] { std::string x = read_op(pick[i], *s); Guard g; got[i] = x; x = std::string(); }, false); Guard g; t.push_back(id); }
  for (int x : t) join(x);
  sched_opts.alloc = false;
  for (int i = 0; i < threads; i++) { judge_op(pick[i], got[i], want[i], "read"); outcome(text([&] { return std::to_string(hash_str(got[i])); })); }
  s.reset();
  Guard g; pick.clear(); got.clear(); want.clear(); t.clear();
}

// servers and clients of their own in different threads
void c29_servers(int threads, bool clients) {
  reset_log();
  {
    Box a(threads, 3000), b(threads, 3001); a.start(); b.start();
    std::string got[2], want[2]; int t[2];
    for (int i = 0; i < 2; i++) {
      int kind = choose(3, C_FREE, "call");
      { Guard g; want[i] = kind == 0 ? "i4:" + std::to_string(40 + i) : kind == 1 ? "fault" : "\"" + std::string(30 + i, 'y') + "\""; }
      t[i] = spawn("user", [&, i, kind] {
        if (clients) {
          Client<Http_client_connection> c(iqnet::Inet_addr("127.0.0.1", 3000 + i), "/RPC"); c.set_keep_alive(true);
          std::string r = raised([&] {
            Response x = kind == 0 ? c.execute("echo", Value(40 + i)) : kind == 1 ? c.execute("nosuch", Value(1)) : c.execute("big", Value(30 + i));
            Guard g; got[i] = x.is_fault() ? "fault" : show(from_lib(x.value()));
          });
          Guard g; if (got[i].empty()) got[i] = r;
        } else {
          Conn c; c.open(3000 + i); c.send(kind == 0 ? rq_echo(40 + i) : kind == 1 ? rq("nosuch", "") : rq("big", xint(30 + i))); c.wait(1);
          { Guard g; got[i] = c.rd.out.empty() ? "nothing" : c.rd.out[0].rpc(); if (got[i].compare(0, 5, "fault") == 0) got[i] = "fault"; if (got[i].compare(0, 7, "result ") == 0) got[i].erase(0, 7); }
          c.close();
        }
      }, !clients);
    }
    for (int x : t) join(x);
    { Guard g; for (int i = 0; i < 2; i++) { if (got[i] != want[i]) violation("influenced", "call to server " + std::to_string(i) + ": \"" + got[i] + "\" instead of \"" + want[i] + "\""); outcome(got[i] + "/"); got[i] = want[i] = std::string(); } }
    wait_idle();
    a.stop(); b.stop(); a.destroy(); b.destroy();
  }
  judge_bad_ops("end"); reset_log();
}
}  // namespace

void nk::c29(Driver& D) {
  bool q = D.quick(), race = D.is("race");
  D.assumptions = {"threads share no object, or only read the objects they share; global settings are made before the threads start"};
  Scenario s;
  if (race) {
    s.apart = true;
    s.name = "own-1"; s.run = [] { c29_own(2, 1, true); }; s.note = "each pair of 11 operations, first use in the process; happens-before monitor"; D.scenarios.push_back(s);
    s.name = "own-2"; s.run = [q] { c29_own(2, 2, true); }; s.note = "two threads with two operations each"; if (!q) D.scenarios.push_back(s);
    s.name = "own-3-threads"; s.run = [] { c29_own(3, 1, true); }; s.note = "three threads"; D.scenarios.push_back(s);
    s.name = "shared-2"; s.run = [] { c29_shared(2, true); }; s.note = "each pair of 9 ways to read the same objects; happens-before monitor"; D.scenarios.push_back(s);
    s.name = "shared-3"; s.run = [] { c29_shared(3, true); }; s.note = "three readers"; D.scenarios.push_back(s);
    s.apart = false; s.leaks = false;
    for (int n = 0; n < 2; n++) for (int c = 0; c < 2; c++) {
      s.name = std::string("servers-") + (c ? "clients" : "peers") + (n ? "-pool" : ""); s.run = [n, c] { c29_servers(n, c); }; s.note = "two servers in two threads, called at the same time"; s.budget = Budget().tot(1).set(C_PREEMPT, 1).set(C_SWITCH, 1); D.scenarios.push_back(s);
    }
    return;
  }
  s.budget = Budget().tot(1).set(C_PREEMPT, 1).set(C_SWITCH, 1);
  s.name = "own-1"; s.run = [] { c29_own(2, 1, false); }; s.note = "each pair of 11 operations, one preemption at any allocation"; D.scenarios.push_back(s);
  s.name = "shared-2"; s.run = [] { c29_shared(2, false); }; s.note = "each pair of 9 ways to read the same objects, one preemption at any allocation"; D.scenarios.push_back(s);
  s.name = "own-2"; s.run = [] { c29_own(2, 2, false); }; s.note = "two threads with two operations each"; if (!q) D.scenarios.push_back(s);
  s.budget = Budget().tot(2).set(C_PREEMPT, 2).set(C_SWITCH, 2);
  s.name = "shared-2-twice"; s.run = [] { c29_shared(2, false); }; s.note = "two preemptions"; D.scenarios.push_back(s);
  s.name = "own-1-twice"; s.run = [] { c29_own(2, 1, false); }; s.note = "two preemptions"; if (!q) D.scenarios.push_back(s);
  s.leaks = false;
  for (int n = 0; n < 2; n++) for (int c = 0; c < 2; c++) {
    s.name = std::string("servers-") + (c ? "clients" : "peers") + (n ? "-pool" : ""); s.run = [n, c] { c29_servers(n, c); }; s.note = "two servers in two threads, called at the same time; two deviations";
    s.budget = Budget().tot(q && n ? 1 : 2).set(C_PREEMPT, 2).set(C_SWITCH, 2); D.scenarios.push_back(s);
  }
}
