// C18 stop requests, C19 pooled execution, C20 destruction of the pool.
#include "net.h"
#include "conc.h"
#include <libiqxmlrpc/server_conn.h>
#include <set>
#include <sstream>

using namespace nk;

namespace {
// a method that gives other threads a chance in the middle of its execution
class Slow : public Method {
  void execute(const Param_list& p, Value& r) override {
    { Guard g; L().begun[show_params(p)]++; }
    note_call(this, p);
    yield_point("method");
    r = p[0];
    Guard g; L().ended[show_params(p)]++;
  }
};
// a method that ends only when as many calls as the test wants are being executed at the same time
class Meet : public Method {
public:
  static int inside, need;
  void execute(const Param_list& p, Value& r) override {
    note_call(this, p);
    inside++;
    block_until("the other calls", [] { return inside >= need; });
    r = p[0];
  }
};
int Meet::inside, Meet::need;
// a method that writes to the log of its server
class Log : public Method {
  void execute(const Param_list& p, Value& r) override {
    note_call(this, p);
    server().log_message("<" + std::to_string(p[0].get_int()) + ">");
    yield_point("method");
    r = p[0];
  }
};
// the log: every write to it can be interrupted
struct LogBuf : std::streambuf {
  std::string text;
  std::streamsize xsputn(const char* s, std::streamsize n) override { yield_point("log"); Guard g; text.append(s, n); return n; }
  int overflow(int c) override { yield_point("log"); Guard g; if (c != EOF) text += char(c); return c == EOF ? 0 : c; }
};
// a method that asks its server to stop
class Stopper : public Method {
  void execute(const Param_list& p, Value& r) override {
    note_call(this, p);
    yield_point("method");
    server().set_exit_flag();
    r = p[0];
  }
};
Exp x_call(const std::string& m, int v) { Guard g; Exp e; e.text = rq(m, xint(v), true); e.call = m + "(i4:" + std::to_string(v) + ")"; e.rpc = "result i4:" + std::to_string(v); return e; }

void add_methods(Box& b) {
  iqxmlrpc::register_method<Slow>(*b.srv, "slow");
  iqxmlrpc::register_method<Meet>(*b.srv, "meet");
  iqxmlrpc::register_method<Log>(*b.srv, "log");
  iqxmlrpc::register_method<Stopper>(*b.srv, "stop");
}

// ---- C18 -------------------------------------------------------------------------------------------
struct StopCfg { int threads = 0, clients = 0, stops = 1; bool from_method = false, before = false, settle = false; int rounds = 2; bool traffic_after = true; };

// every reply that was not delivered before the stop must arrive once the server runs again
void c18_run(const StopCfg& c) {
  reset_log();
  Box b(c.threads); add_methods(b);
  std::vector<std::unique_ptr<Conn>> cs; std::vector<std::vector<Exp>> want;
  int val = 10;
  for (int round = 0; round < c.rounds && !violated(); round++) {
    if (c.before) { AsLib al; b.srv->set_exit_flag(); }
    std::vector<int> ts;
    if (c.settle) b.start(); else b.start_nowait();
    // traffic
    size_t first = cs.size();
    if (c.settle || c.from_method) {
      if (!c.settle) block_until("listening", [&] { int f = net::tcp_connect("127.0.0.1", 3000); if (f >= 0) net::close_fd(f); return f >= 0; });
      for (int i = 0; i < c.clients; i++) {
        { Guard g; cs.emplace_back(new Conn); want.emplace_back(); }
        cs.back()->open();
      }
    }
    if (c.from_method) {
      for (int i = 0; i < c.clients; i++) {
        Exp e = x_call(i == 0 ? "stop" : "slow", val++);
        cs[first + i]->send(e.text); Guard g; want[first + i].push_back(e);
      }
    } else if (!c.before) {
      for (int i = 0; i < c.stops; i++) ts.push_back(spawn("stopper", [&] { b.srv->set_exit_flag(); }, false));
      if (c.settle) for (int i = 0; i < c.clients; i++) {
        Exp e = x_call("slow", val++);
        cs[first + i]->send(e.text); Guard g; want[first + i].push_back(e);
      }
    }
    wait_idle();
    for (int t : ts) join(t);
    wait_idle();
    if (!b.escaped.empty()) { violation("server-died", b.escaped); }
    if (!b.returned) violation("not-stopped", "a stop request was made and nothing else can happen, but the server loop has not returned: " + calls_text());
    if (!b.returned) { AsLib al; b.srv->set_exit_flag(); }
    join(b.tid); b.tid = -1;
    if (violated()) return;

    // run again: clients are served as before
    b.start();
    if (b.returned && c.stops > 1) { join(b.tid); b.tid = -1; b.start(); }   // a request made after the loop had ended counts for this run
    if (b.returned) { violation("not-rerunnable", "the server loop returned at once although no stop request was made: " + b.escaped); return; }
    if (c.traffic_after) {
      Conn n; n.open(); Exp e = x_call("slow", val++); n.send(e.text); wait_idle(); n.drain();
      judge(n, {e}, "client after the restart"); n.close();
      for (size_t i = 0; i < cs.size(); i++) {
        Conn& k = *cs[i]; k.drain();
        if (k.gone()) continue;                         // closed with the listening socket: never accepted
        judge(k, want[i], "connection opened before the stop");
        Exp m = x_call("slow", val++); k.send(m.text); { Guard g; want[i].push_back(m); }
        wait_idle(); k.drain(); judge(k, want[i], "connection opened before the stop");
      }
    }
    outcome("ok;");
    b.stop();
    for (auto& k : cs) k->close();
    Guard g; cs.clear(); want.clear();
  }
  { Guard g; std::map<std::string, int> n; for (auto& k : L().calls) if (++n[k.name + k.arg] > 1) violation("twice", k.name + " " + k.arg + " was executed twice"); }
  for (auto& k : cs) k->close();
  b.stop(); b.destroy();
  judge_bad_ops("end");
  Guard g; cs.clear(); want.clear();
}

// ---- C19 -------------------------------------------------------------------------------------------
struct PoolCfg { int threads = 1, conns = 1, rounds = 1, grow = 0; bool threads_clients = false, meet = false; };
void c19_run(const PoolCfg& c) {
  reset_log();
  Box b(c.threads); add_methods(b);
  std::vector<std::unique_ptr<Conn>> cs; std::vector<std::vector<Exp>> want;
  b.start();
  { Guard g; for (int i = 0; i < c.conns; i++) { cs.emplace_back(new Conn); want.emplace_back(); } }
  int val = 1;
  for (int r = 0; r < c.rounds && !violated(); r++) {
    std::vector<int> ts;
    Meet::inside = 0; Meet::need = c.conns;
    if (r == 0) for (auto& k : cs) k->open();
    if (c.grow && r == 0) { int t = spawn("grower", [&] { static_cast<iqxmlrpc::Pool_executor_factory*>(b.ef.get())->add_threads(c.grow); }, false); Guard g; ts.push_back(t); }
    for (int i = 0; i < c.conns; i++) {
      Exp e = x_call(c.meet ? "meet" : "slow", val++);
      { Guard g; want[i].push_back(e); }
      if (c.threads_clients) { Conn* k = cs[i].get(); int t = spawn("client", [k, e] { k->send(e.text); }, true); Guard g; ts.push_back(t); }
      else cs[i]->send(e.text);
    }
    wait_idle();
    for (int t : ts) join(t);
    wait_idle();
    if (c.meet && Meet::inside < c.conns) {
      violation("idle-worker", std::to_string(Meet::inside) + " of " + std::to_string(c.conns) + " calls are being executed by " + std::to_string(c.threads + c.grow) + " workers and the others are not taken up");
      Meet::need = 0; wait_idle();
    }
    for (int i = 0; i < c.conns; i++) { cs[i]->drain(); judge(*cs[i], want[i], "connection " + std::to_string(i)); }
    judge_server(b, "pool");
    Guard g; ts = std::vector<int>();
  }
  {
    Guard g; std::map<std::string, int> n, w;
    for (auto& k : L().calls) n[k.name + "(" + k.arg + ")"]++;
    for (auto& v : want) for (auto& e : v) w[e.call]++;
    if (n != w && !violated()) violation("calls", "calls executed: " + calls_text());
    std::string who; std::map<int, int> th; for (auto& k : L().calls) th[k.thread]++;
    for (auto& k : th) who += std::to_string(k.second) + "/"; outcome(who + " " + calls_text());
  }
  for (auto& k : cs) k->close();
  wait_idle();
  b.stop(); b.destroy();
  judge_bad_ops("end");
  Guard g; cs.clear(); want.clear();
}

// methods and the server itself write to the log at the same time
void c19_log(int threads, int conns, bool broken) {
  reset_log();
  LogBuf buf; std::ostream os(&buf);
  Box b(threads); add_methods(b); { AsLib al; b.srv->log_errors(&os); }
  std::vector<std::unique_ptr<Conn>> cs; std::vector<std::vector<Exp>> want;
  b.start();
  { Guard g; for (int i = 0; i < conns; i++) { cs.emplace_back(new Conn); want.emplace_back(); } }
  for (auto& k : cs) k->open();
  Conn bad; if (broken) bad.open();
  for (int i = 0; i < conns; i++) { Exp e = x_call("log", i + 1); { Guard g; want[i].push_back(e); } cs[i]->send(e.text); }
  if (broken) bad.send(x_unknown().text);
  wait_idle();
  for (int i = 0; i < conns; i++) { cs[i]->drain(); judge(*cs[i], want[i], "connection " + std::to_string(i)); }
  judge_server(b, "log");
  {
    Guard g; std::multiset<std::string> lines; std::string l; std::istringstream in(buf.text);
    while (std::getline(in, l)) lines.insert(l);
    for (int i = 0; i < conns; i++) if (lines.count("<" + std::to_string(i + 1) + ">") != 1) violation("log", "message " + std::to_string(i + 1) + " is not a line of the log: " + buf.text);
    if ((int)lines.size() != conns + broken) violation("log", "lines of the log: " + buf.text);
    outcome(std::to_string(lines.size()));
  }
  for (auto& k : cs) k->close();
  if (broken) bad.close();
  wait_idle();
  b.stop(); b.destroy();
  judge_bad_ops("end");
  Guard g; cs.clear(); want.clear(); buf.text = std::string();
}

// ---- C20 -------------------------------------------------------------------------------------------
// a connection that only records the replies it is given
struct Sink : iqxmlrpc::Server_connection {
  int replies = 0;
  Sink() : Server_connection(iqnet::Inet_addr("127.0.0.1", 9)) {}
  void do_schedule_response() override { Guard g; replies++; response = std::string(); }
};
struct Quick : Method {
  static int begun, ended, alive; static bool over; int kind;
  Quick(int k) : kind(k) { alive++; }
  ~Quick() { alive--; }
  void execute(const Param_list&, Value& r) override {
    begun++;
    if (over) violation("after-end", "a call was started after the destruction of the pool had returned");
    yield_point("method");
    if (kind == 1) throw iqxmlrpc::Fault(3, "three");
    if (kind == 2) throw Thrown();
    r = 1; ended++;
  }
};
int Quick::begun, Quick::ended, Quick::alive; bool Quick::over;

// pool of n threads, q calls queued by another thread or this one, then destruction at any moment
void c20_run(int n, int q, bool other_thread, int add, bool spurious, int kind) {
  sched_opts.spurious = spurious;
  Quick::begun = Quick::ended = Quick::alive = 0; Quick::over = false;
  {
    std::unique_ptr<iqxmlrpc::Serial_executor_factory> sf; std::unique_ptr<iqxmlrpc::Http_server> srv;
    { AsLib al; sf.reset(new iqxmlrpc::Serial_executor_factory); srv.reset(new iqxmlrpc::Http_server(iqnet::Inet_addr("127.0.0.1", 3000), sf.get())); }
    std::vector<std::unique_ptr<Sink>> sinks; for (int i = 0; i < q; i++) sinks.emplace_back(new Sink);
    AsLib al;
    iqxmlrpc::Pool_executor_factory* pf = new iqxmlrpc::Pool_executor_factory(n);
    auto feed = [&] {
      for (int i = 0; i < q; i++) {
        iqxmlrpc::Executor* e = pf->create(new Quick(kind), srv.get(), sinks[i].get());
        Param_list pl; e->execute(pl);
      }
    };
    if (other_thread) { int t = spawn("feeder", feed, false); join(t); } else feed();
    if (add) pf->add_threads(add);
    delete pf;
    Quick::over = true;
    if (live_threads()) violation("threads-left", std::to_string(live_threads()) + " thread(s) of the pool still exist after its destruction has returned");
    int b0 = Quick::begun;
    wait_idle();
    if (Quick::begun != b0) violation("after-end", "calls were started after the destruction of the pool had returned");
    int rep = 0; for (auto& s : sinks) { rep += s->replies; if (s->replies > 1) violation("twice", "a call was answered twice"); }
    if (rep != Quick::begun) violation("half", std::to_string(Quick::begun) + " call(s) were started but " + std::to_string(rep) + " answered");
    if (kind == 0 && Quick::begun != Quick::ended) violation("half", "a call was started but not completed");
    if (Quick::begun > q) violation("twice", "more calls were executed than queued");
    if (Quick::alive) violation("kept", std::to_string(Quick::alive) + " call(s) neither executed nor dropped");
    outcome(std::to_string(Quick::begun) + " of " + std::to_string(q) + " executed");
    srv.reset(); sf.reset();
  }
  judge_bad_ops("end");
}
// the same through a server: calls arrive over connections, the loop is stopped, then the pool goes away
void c20_server(int n, int conns) {
  reset_log();
  Box b(n); add_methods(b);
  b.start();
  std::vector<std::unique_ptr<Conn>> cs;
  for (int i = 0; i < conns; i++) { { Guard g; cs.emplace_back(new Conn); } cs.back()->open(); cs.back()->send(x_call("slow", i).text); }
  b.stop();                       // may happen before, during or after any of the calls
  { AsLib al; b.ef.reset(); }
  if (live_threads()) violation("threads-left", std::to_string(live_threads()) + " thread(s) of the pool still exist after its destruction has returned");
  size_t k = L().calls.size();
  wait_idle();
  if (L().calls.size() != k) violation("after-end", "a call was started after the destruction of the pool had returned");
  { Guard g; for (auto& e : L().begun) if (L().ended[e.first] != e.second) violation("half", "a call was started but not completed"); outcome(std::to_string(k)); }
  for (auto& c : cs) c->close();
  b.destroy();
  judge_bad_ops("end");
  Guard g; cs.clear();
}
}  // namespace

static std::string nm(std::initializer_list<std::string> l) { std::string s; for (auto& x : l) s += (s.empty() ? "" : "-") + x; return s; }

void nk::c18(Driver& D) {
  bool q = D.quick(), race = D.is("race");
  D.assumptions = {"threads are switched at synchronisation and socket operations; accesses between them are checked for data races in the race build"};
  auto add = [&](const std::string& n, StopCfg c, int pre, int sw, const std::string& note) {
    Scenario s; s.name = n; s.note = note; s.leaks = false;
    s.run = [c] { c18_run(c); };
    s.budget = Budget().tot(pre + sw).set(C_PREEMPT, pre).set(C_SWITCH, sw);
    D.scenarios.push_back(s);
  };
  int P = race ? 2 : q ? 3 : 4;
  StopCfg c;
  c = StopCfg(); c.rounds = 2; add("thread-serial", c, P, 1, "stop from another thread racing with the start of the loop, two runs each followed by a run that serves a client; " + std::to_string(P) + " preemptions");
  c = StopCfg(); c.rounds = 1; c.threads = 1; add("thread-pool", c, P, 1, "the same with one worker");
  c = StopCfg(); c.rounds = 1; c.stops = 2; add("two-stops", c, race ? 2 : 3, 1, "two threads ask for a stop");
  c = StopCfg(); c.rounds = 1; c.stops = 2; c.threads = 1; add("two-stops-pool", c, race ? 1 : q ? 2 : 3, 1, "two threads ask for a stop, pooled");
  c = StopCfg(); c.rounds = 3; c.before = true; add("before", c, 2, 1, "stop requested before the loop is entered, three times");
  c = StopCfg(); c.rounds = 1; c.before = true; c.threads = 1; add("before-pool", c, race ? 1 : 2, 1, "the same, pooled");
  c = StopCfg(); c.rounds = 1; c.settle = true; c.clients = 2; add("traffic-serial", c, race ? 2 : 3, 1, "stop while two clients send a call each; pending replies arrive after the restart");
  c = StopCfg(); c.rounds = 1; c.settle = true; c.clients = 1; c.threads = 1; add("traffic-pool1", c, race ? 1 : 2, 1, "stop while a client sends a call, one worker");
  c = StopCfg(); c.rounds = 1; c.settle = true; c.clients = 2; c.threads = 2; add("traffic-pool2", c, race || q ? 1 : 2, 1, "stop while two clients send a call each, two workers");
  c = StopCfg(); c.rounds = 2; c.settle = true; c.clients = 2; c.from_method = true; add("method-serial", c, 2, 1, "stop from a method while another client sends a call");
  c = StopCfg(); c.rounds = 1; c.settle = true; c.clients = 1; c.from_method = true; c.threads = 1; add("method-pool1", c, race ? 1 : 2, 1, "stop from a method on a worker");
  c = StopCfg(); c.rounds = 1; c.settle = true; c.clients = 2; c.from_method = true; c.threads = 2; add("method-pool2", c, race || q ? 1 : 2, 1, "stop from a method on a worker while another worker executes a call");
}

void nk::c19(Driver& D) {
  bool q = D.quick(), race = D.is("race");
  D.assumptions = {"threads are switched at synchronisation and socket operations; accesses between them are checked for data races in the race build"};
  auto add = [&](PoolCfg c, int pre, int sw) {
    Scenario s; s.leaks = false;
    s.name = nm({"pool" + std::to_string(c.threads), "conns" + std::to_string(c.conns), "rounds" + std::to_string(c.rounds)}) + (c.grow ? "-grow" : "") + (c.meet ? "-meet" : "") + (c.threads_clients ? "-clients" : "");
    s.note = std::to_string(c.threads) + " workers, " + std::to_string(c.conns) + " connections, " + std::to_string(c.rounds) + " calls each" + (c.grow ? ", pool grows meanwhile" : "") + (c.meet ? ", each call waits for the others to be executed too" : "") + "; " + std::to_string(pre) + " preemptions and " + std::to_string(sw) + " switch choices";
    s.run = [c] { c19_run(c); };
    s.budget = Budget().tot(std::max(pre, sw) + (pre && sw ? (race ? 0 : 1) : 0)).set(C_PREEMPT, pre).set(C_SWITCH, sw);
    D.scenarios.push_back(s);
  };
  PoolCfg c;
  c = PoolCfg(); c.threads = 1; c.conns = 1; c.rounds = 2; add(c, race ? 2 : q ? 3 : 4, 1);
  c = PoolCfg(); c.threads = 1; c.conns = 2; c.rounds = 1; add(c, race ? 1 : 3, 2);
  c = PoolCfg(); c.threads = 2; c.conns = 2; c.rounds = 1; add(c, race ? 1 : 2, 2);
  c = PoolCfg(); c.threads = 2; c.conns = 2; c.rounds = 2; add(c, race ? 1 : 2, 1);
  c = PoolCfg(); c.threads = 2; c.conns = 3; c.rounds = 1; add(c, race || q ? 1 : 2, 2);
  c = PoolCfg(); c.threads = 3; c.conns = 3; c.rounds = 1; add(c, 1, q ? 1 : 2);
  c = PoolCfg(); c.threads = 1; c.conns = 2; c.rounds = 1; c.grow = 1; add(c, race ? 1 : q ? 2 : 3, 1);
  c = PoolCfg(); c.threads = 1; c.conns = 2; c.rounds = 1; c.threads_clients = true; add(c, race ? 1 : 2, 2);
  c = PoolCfg(); c.meet = true; c.threads = 2; c.conns = 2; c.rounds = 2; add(c, race ? 1 : 2, 1);
  c = PoolCfg(); c.meet = true; c.threads = 3; c.conns = 3; c.rounds = 1; add(c, 1, race || q ? 1 : 2);
  c = PoolCfg(); c.meet = true; c.threads = 3; c.conns = 2; c.rounds = 1; add(c, race ? 1 : 2, 1);
  c = PoolCfg(); c.meet = true; c.threads = 1; c.grow = 1; c.conns = 2; c.rounds = 1; add(c, race ? 1 : 2, 1);
  if (!race) {   // more of everything
    c = PoolCfg(); c.threads = 6; c.conns = 6; c.rounds = 1; add(c, 1, 0);
    c = PoolCfg(); c.threads = 1; c.conns = 12; c.rounds = 2; add(c, 1, 0);
    c = PoolCfg(); c.threads = 4; c.conns = 12; c.rounds = 2; add(c, 1, 0);
    c = PoolCfg(); c.meet = true; c.threads = 6; c.conns = 6; c.rounds = 2; add(c, 1, 0);
    c = PoolCfg(); c.threads = 2; c.grow = 4; c.conns = 8; c.rounds = 1; add(c, 1, 0);
  }
  for (int n = 1; n <= 2; n++) for (int k = 1; k <= 2; k++) for (int bad = 0; bad < 2; bad++) {
    if (n > k) continue;
    Scenario s; s.leaks = false; s.name = "log-pool" + std::to_string(n) + "-conns" + std::to_string(k) + (bad ? "-unknown" : "");
    s.note = std::to_string(k) + " calls that write to the server's log" + (bad ? " while the server reports an unknown method there" : "");
    s.run = [=] { c19_log(n, k, bad); };
    s.budget = Budget().tot(race ? 1 : 2).set(C_PREEMPT, race ? 1 : 2).set(C_SWITCH, 1);
    D.scenarios.push_back(s);
  }
}

void nk::c20(Driver& D) {
  bool q = D.quick(), race = D.is("race");
  D.assumptions = {"the pool is destroyed by the thread that owns it, after the server loop has ended or before it was entered"};
  auto add = [&](int n, int k, bool other, int more, bool sp, int kind, int pre, int sw) {
    Scenario s; s.leaks = true;
    s.name = "pool" + std::to_string(n) + (more ? "+" + std::to_string(more) : "") + "-queued" + std::to_string(k) + (other ? "-feeder" : "") + (sp ? "-spurious" : "") + (kind ? "-throws" + std::to_string(kind) : "");
    s.note = std::to_string(n) + " workers" + (more ? " and " + std::to_string(more) + " added later" : "") + ", " + std::to_string(k) + " queued calls; " + std::to_string(pre) + " preemptions, " + std::to_string(sw) + " switch choices" + (sp ? ", one spurious wake-up" : "");
    s.run = [=] { c20_run(n, k, other, more, sp, kind); };
    s.budget = Budget().tot(pre + sw).set(C_PREEMPT, pre).set(C_SWITCH, sw).set(C_FAULT, sp ? 1 : 0);
    D.scenarios.push_back(s);
  };
  bool asan = D.is("asan");
  int P = race ? 1 : q ? 2 : 3;
  static const int pre[3][3] = {{4, 3, 2}, {3, 2, 1}, {2, 1, 1}};   // build variant x workers
  for (int n = 1; n <= 3; n++) for (int k = 0; k <= 3; k++) add(n, k, false, 0, false, 0, pre[race ? 2 : asan ? 1 : 0][n - 1] + (q ? 0 : 1), n == 3 ? 1 : 2);
  for (int k = 0; k <= 3; k++) add(0, k, false, 0, false, 0, 1, 1);        // nobody to take them
  add(0, 2, false, 1, false, 0, P, 1); add(0, 3, false, 2, false, 0, race ? 1 : 2, 1);
  if (!race) { add(6, 0, false, 0, false, 0, 1, asan ? 0 : 1); add(6, 8, false, 0, false, 0, 1, 0); add(9, 3, false, 0, false, 0, asan ? 0 : 1, 0); add(1, 40, false, 0, false, 0, 1, 0); add(2, 20, false, 6, false, 0, 1, 0); }
  add(1, 1, true, 0, false, 0, P, 1);
  add(2, 2, true, 0, false, 0, P, 1);
  add(1, 1, false, 1, false, 0, P, 1);
  add(1, 1, false, 0, true, 0, P, 1);
  add(2, 2, false, 0, true, 0, race ? 1 : 2, 1);
  add(1, 2, false, 0, false, 1, P, 1);
  add(1, 2, false, 0, false, 2, P, 1);
  for (int n = 1; n <= 2; n++) {
    Scenario s; s.leaks = false; s.name = "server-pool" + std::to_string(n); s.note = "calls from two connections, loop stopped and pool destroyed at any moment";
    s.run = [n] { c20_server(n, 2); };
    s.budget = Budget().tot(race ? 1 : 2).set(C_PREEMPT, race ? 1 : 2).set(C_SWITCH, 1);
    D.scenarios.push_back(s);
  }
}

int main(int argc, char** argv) {
  return driver_main(argc, argv, [](Driver& D) {
    if (D.property == "C18") c18(D);
    if (D.property == "C19") c19(D);
    if (D.property == "C20") c20(D);
    if (D.property == "C21") c21(D);
    if (D.property == "C29") c29(D);
  });
}
