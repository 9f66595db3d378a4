// Choice-tree explorer, controlled scheduler and simulated network: public interface for harnesses.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// Classes of choices. C_FREE alternatives cost nothing (all combinations are explored); every other
// non-default alternative costs one unit of its class and one unit of the total.
enum Cls { C_FREE = 0, C_PREEMPT, C_SWITCH, C_IO, C_FAULT, C_SCRIPT, NCLS };

struct Budget {
  int total = 0;
  int cls[NCLS] = {0, 0, 0, 0, 0, 0};
  Budget& set(Cls c, int n) { cls[c] = n; return *this; }
  Budget& tot(int n) { total = n; return *this; }
};

struct Scenario {
  std::string name;
  std::function<void()> run;
  Budget budget;
  bool managed = true;        // run under the controlled scheduler
  bool leaks = true;          // every tracked block allocated in the execution must be gone afterwards
  uint64_t max_exec = 0;      // 0 = no cap
  std::string note;           // what is enumerated (goes to evidence)
  int batch_ms = 60;
  bool apart = false;         // each execution in a process of its own, where nothing has been used before
};

// ---- inside an execution -------------------------------------------------------------------------
int choose(int n, Cls cls, const char* label);
void violation(const std::string& sig, const std::string& msg);
[[noreturn]] void fatal_violation(const std::string& sig, const std::string& msg);
bool violated();
void outcome(const std::string& s);          // appends to the observable outcome of this execution
bool state(uint64_t h);                      // records a visited abstract state; true if new to this worker
uint64_t hash_str(const std::string& s);
bool tracing();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// engine code runs with this guard: allocations inside are not attributed to the library
struct Guard { Guard(); ~Guard(); };

// ---- scheduler -----------------------------------------------------------------------------------
int spawn(const char* name, std::function<void()> fn, bool peer = true);
void join(int tid);
void wait_idle();                            // blocks until no other thread can run (before time advances)
void sleep_ms(int64_t ms);                   // virtual time
void yield_point(const char* label);         // explicit scheduling point
int64_t now_ms();
extern int64_t fake_time;                      // if not negative, what the clock says
void block_until(const char* why, const std::function<bool()>& pred);
int self_id();
int live_threads();                          // threads of the library that have not ended
struct AsLib { bool was; AsLib(); ~AsLib(); };   // this thread acts for the library (sockets it opens are the library's)
uint64_t history();                          // hash of the schedule-visible history so far

struct SchedOpts {
  bool spurious = false;       // condition waits may wake spuriously (C_FAULT)
  bool preempt = true;         // offer preemption at synchronisation / socket operations
  bool atomics = true;         // atomic loads, stores and exchanges are scheduling points (race build)
  bool alloc = false;          // allocations of the library (and of libxml2) are scheduling points
  bool nomem = false;          // operator new of the library may fail (C_FAULT)
  int max_steps = 200000;
};
extern SchedOpts sched_opts;

// ---- simulated network ---------------------------------------------------------------------------
struct NetOpts {
  // which nondeterministic answers are offered to library threads
  int recv_split = 0;          // 0 none, 1 sparse {1, n/2, n-1}, 2 every length
  int send_split = 0;
  bool recv_fault = false;     // ECONNRESET
  bool send_fault = false;     // EPIPE
  bool accept_fault = false;   // ECONNABORTED, EMFILE
  bool socket_fault = false;   // EMFILE
  bool fcntl_fault = false;
  bool poll_eintr = false;
  bool resolve_fault = false;
  bool bind_fault = false;
  bool connect_modes = false;  // immediate / in progress / refused now / refused later / never
  bool connect_hold = false;   // a non-blocking connect stays in progress until net::release_connects()
  bool connect_inprogress = true; // default answer of a non-blocking connect
  size_t sndbuf = 1 << 20;     // capacity of a direction
  size_t recv_max = 0, send_max = 0;   // every read / write of the library moves at most this many bytes (0: no limit)
  int fault_min_fd = 0;        // recv/send/fcntl faults only on descriptors from this one on
  std::string fault_from;      // recv/send/fcntl faults only on connections with this remote address
};
extern NetOpts net_opts;

namespace net {
void add_host(const std::string& name, const std::string& ip);
std::vector<int> open_fds(bool library_only = true);  // simulated descriptors still open
int bad_ops();                               // operations on closed simulated descriptors so far
std::string bad_ops_text();
int sockets_created();
int resolver_calls(); int resolver_failures();
std::string remote_ip(int fd);
// helpers for peer threads (plain semantics, no injected behaviour)
int tcp_connect(const std::string& ip, int port, const std::string& from_ip = "127.0.0.1");
int tcp_listen(const std::string& ip, int port, int backlog = 10);
int tcp_accept(int lfd, int64_t timeout_ms = -1);
bool send_all(int fd, const std::string& data);
std::string recv_some(int fd, size_t max = 1 << 20);   // blocks; "" on EOF or error
bool recv_would_block(int fd);
void reset(int fd);                          // abortive close
void close_fd(int fd);
void shut_wr(int fd);
void release_connects(bool refuse);          // finishes the held connects
bool peer_gone(int fd);                      // the other side closed or reset
}

// ---- driver --------------------------------------------------------------------------------------
struct Driver {
  std::string property, tier, variant;
  std::vector<Scenario> scenarios;
  std::vector<std::string> assumptions;
  bool quick() const { return tier != "thorough"; }
  bool is(const std::string& v) const { return variant.size() > v.size() && variant.compare(variant.size() - v.size(), v.size(), v) == 0; }   // build variant
};
int driver_main(int argc, char** argv, const std::function<void(Driver&)>& setup);

// memory accounting hooks
void mem_begin();
size_t mem_live();            // tracked blocks still live
std::string mem_report(int max);
void mem_end();
}
