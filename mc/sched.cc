// Controlled scheduler: pthread interposition, baton passing, virtual time.
#include "engine.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <set>
#include <sstream>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define VIS extern "C" __attribute__((visibility("default")))

namespace mc {
void mem_init();
SchedOpts sched_opts;
__thread Thr* tl_self = nullptr;
bool g_active = false;
static std::vector<Thr*> threads;
static int64_t g_now;
int64_t fake_time = -1;
static int g_steps;
static uint64_t g_hist;

struct Mx { Thr* owner = nullptr; int count = 0; };
struct Cw { Thr* t; bool signaled; };
struct Cv { std::vector<Cw*> waiters; };
struct Rw { Thr* writer = nullptr; int readers = 0; };
static std::map<const void*, Mx> mutexes;
static std::map<const void*, Cv> conds;
static std::map<const void*, Rw> rwlocks;

uint64_t history() { return g_hist; }
void hist(uint64_t v) { g_hist = (g_hist ^ v) * 0x9e3779b97f4a7c15ULL; g_hist ^= g_hist >> 29; }
int64_t vnow() { return g_now; }
int64_t now_ms() { return g_now; }
int live_threads() { int n = 0; for (Thr* t : threads) if (t->id && !t->peer && t->st != Thr::DONE) n++; return n; }
int self_id() { return tl_self ? tl_self->id : -1; }

static void futex_wait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void wait_turn(Thr* t) {
  for (int spin = 0; spin < 200; spin++) { if (__atomic_load_n(&t->turn, __ATOMIC_ACQUIRE)) break; __builtin_ia32_pause(); }
  while (!__atomic_load_n(&t->turn, __ATOMIC_ACQUIRE)) futex_wait(&t->turn, 0);
  __atomic_store_n(&t->turn, 0, __ATOMIC_RELAXED);
}
static void give_turn(Thr* t) { __atomic_store_n(&t->turn, 1, __ATOMIC_RELEASE); futex_wake(&t->turn); }

std::string threads_text() {
  Guard g; std::ostringstream s;
  for (Thr* t : threads) {
    static const char* n[] = {"runnable", "blocked", "waiting for idle", "done"};
    s << "[" << t->id << " " << t->name << ": " << n[t->st];
    if (t->st == Thr::BLOCK) s << " in " << t->why;
    s << "] ";
  }
  return s.str();
}

static bool enabled(Thr* t) {
  if (t->st == Thr::RUN) return true;
  if (t->st == Thr::BLOCK) return t->ready() || (t->deadline >= 0 && g_now >= t->deadline);
  return false;
}

static uint64_t fingerprint() {
  uint64_t h = 0x77;
  for (Thr* t : threads) { h = h * 1000003 + t->st * 7 + t->id; h ^= (uintptr_t)0 + hash_str(t->why); }
  return h ^ net_hash();
}

// picks the next thread to run when the current one cannot continue (cur == nullptr: it ended)
static Thr* pick(Thr* cur) {
  for (;;) {
    std::vector<Thr*> en;
    int base = cur ? cur->id : 0;
    size_t n = threads.size();
    for (size_t k = 1; k <= n; k++) { Thr* t = threads[(base + k) % n]; if (enabled(t)) en.push_back(t); }
    if (en.empty()) for (Thr* t : threads) if (t->st == Thr::IDLE) { t->st = Thr::RUN; en.push_back(t); break; }
    if (en.empty()) {
      int64_t best = -1;
      for (Thr* t : threads) if (t->st == Thr::BLOCK && t->deadline >= 0 && (best < 0 || t->deadline < best)) best = t->deadline;
      if (best >= 0) { g_now = best; trace("-- time advances to %lld ms", (long long)g_now); continue; }
      fatal_violation("deadlock", "no thread can make progress: " + threads_text());
    }
    int c = choose((int)en.size(), C_SWITCH, "next-thread");
    return en[c];
  }
}

static void switch_to(Thr* me, Thr* next) {
  if (me == next) return;
  if (tracing()) trace("-- switch %s -> %s", me->name.c_str(), next->name.c_str());
  give_turn(next);
  wait_turn(me);
}

static void resume_from_block(Thr* me) {
  me->timed_out = !(me->ready && me->ready());
  me->st = Thr::RUN; me->why = ""; me->ready = nullptr; me->deadline = -1;
}

void sched_point(const char* op, const void* obj) {
  (void)obj;
  Guard g;
  Thr* me = tl_self;
  if (++g_steps > sched_opts.max_steps) fatal_violation("step-limit", "execution does not end (livelock): " + threads_text());
  if (tracing()) trace("%s: %s", me->name.c_str(), op);
  state(fingerprint());
  if (!sched_opts.preempt || tl_static) return;
  std::vector<Thr*> en; en.push_back(me);
  size_t n = threads.size();
  for (size_t k = 1; k < n; k++) { Thr* t = threads[(me->id + k) % n]; if (t != me && enabled(t)) en.push_back(t); }
  if (en.size() < 2) return;
  int c = choose((int)en.size(), C_PREEMPT, op);
  if (c) switch_to(me, en[c]);
}

bool block(const char* why, const std::function<bool()>& pred, int64_t deadline) {
  Guard g;
  if (pred()) return true;
  Thr* me = tl_self;
  if (deadline >= 0 && g_now >= deadline) return false;
  if (++g_steps > sched_opts.max_steps) fatal_violation("step-limit", "execution does not end (livelock): " + threads_text());
  me->st = Thr::BLOCK; me->why = why; me->ready = pred; me->deadline = deadline; me->timed_out = false;
  state(fingerprint());
  Thr* nx = pick(me);
  if (nx != me) switch_to(me, nx);
  resume_from_block(me);
  return !me->timed_out;
}

void block_until(const char* why, const std::function<bool()>& pred) { block(why, pred); }
void yield_point(const char* label) { sched_point(label); }
void sleep_ms(int64_t ms) { block("sleep", [] { return false; }, g_now + ms); }
void wait_idle() {
  Guard g;
  Thr* me = tl_self;
  me->st = Thr::IDLE; me->why = "idle";
  Thr* nx = pick(me);
  if (nx != me) switch_to(me, nx);
  me->st = Thr::RUN;
}

// ---- threads -----------------------------------------------------------------------------------
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*join_t)(pthread_t, void**);
}
extern "C" {
int ___interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) __attribute__((weak));
int ___interceptor_pthread_join(pthread_t, void**) __attribute__((weak));
}
namespace mc {
template <class F> static F real_fn(const char* n) { Guard g; return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) \
  static decltype(&::name) real = nullptr; \
  if (!real) real = mc::real_fn<decltype(&::name)>(#name);

static int real_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (___interceptor_pthread_create) return ___interceptor_pthread_create(t, a, f, arg);
  static create_t r = nullptr; if (!r) r = real_fn<create_t>("pthread_create");
  return r(t, a, f, arg);
}
static int real_join(pthread_t t, void** r) {
  if (___interceptor_pthread_join) return ___interceptor_pthread_join(t, r);
  static join_t f = nullptr; if (!f) f = real_fn<join_t>("pthread_join");
  return f(t, r);
}

static void* trampoline(void* p) {
  Thr* t = (Thr*)p;
  tl_engine++;
  wait_turn(t);
  tl_self = t;
  race_stack_reset(t);
  tl_engine--;
  t->ret = t->fn(t->arg);
  tl_engine++;
  return t->ret;   // the baton is passed on from the thread-specific-data destructor, see below
}
// Thread-specific destructors (boost's thread data, libxml2's globals) run after the start routine
// returns; ours must run last, so it re-arms itself for the last iteration glibc performs.
static pthread_key_t end_key;
static void at_thread_end(void* p) {
  Thr* t = (Thr*)p;
  if (t->last_obj < 2) { t->last_obj++; pthread_setspecific(end_key, t); return; }
  tl_engine++;
  t->st = Thr::DONE;
  hist(0x1000 + t->id);
  trace("%s: thread ends", t->name.c_str());
  Thr* nx = pick(t);
  give_turn(nx);
}
static void* trampoline2(void* p) {
  Thr* t = (Thr*)p;
  t->last_obj = 0;
  pthread_setspecific(end_key, t);
  return trampoline(p);
}

static Thr* new_thread(void* (*fn)(void*), void* arg, const char* name, bool peer) {
  Guard g;
  if (threads.size() >= (size_t)MAXT) fatal_violation("threads", "too many threads in the scenario");
  Thr* t = new Thr; t->id = (int)threads.size(); t->name = name; t->fn = fn; t->arg = arg; t->peer = peer;
  threads.push_back(t);
  hb_fork(tl_self, t);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  int r = real_create(&t->pt, &at, trampoline2, t);
  pthread_attr_destroy(&at);
  if (r) { fprintf(stderr, "pthread_create failed %d\n", r); _exit(3); }
  return t;
}

AsLib::AsLib() { was = tl_self->peer; tl_self->peer = false; }
AsLib::~AsLib() { tl_self->peer = was; }

struct SpawnArg { std::function<void()> f; };
static void* spawn_main(void* p) {
  SpawnArg* a = (SpawnArg*)p;
  a->f();
  { Guard g; delete a; }
  return nullptr;
}
int spawn(const char* name, std::function<void()> fn, bool peer) {
  SpawnArg* a;
  { Guard g; a = new SpawnArg{fn}; }
  Thr* t = new_thread(spawn_main, a, name, peer);
  return t->id;
}
static void join_thr(Thr* t) {
  sched_point("join");
  block("join", [t] { return t->st == Thr::DONE; });
  hb_join(tl_self, t);
  if (!t->real_joined) { t->real_joined = true; Guard g; real_join(t->pt, nullptr); }
}
void join(int id) { join_thr(threads[id]); }

void engine_init() { mem_init(); pthread_key_create(&end_key, at_thread_end); }

void run_managed(const std::function<void()>& fn) {
  Thr main;
  {
    Guard g;
    net_reset(); mutexes.clear(); conds.clear(); rwlocks.clear();
    sched_opts = SchedOpts(); net_opts = NetOpts();
    g_now = 1000000; g_steps = 0; g_hist = 0x5151;
    main.id = 0; main.name = "main"; main.peer = true;
    threads.clear(); threads.push_back(&main);
    tl_self = &main;
    race_begin();
    g_active = true;
  }
  fn();
  {
    Guard g;
    std::string alive;
    for (Thr* t : threads) if (t != &main && t->st != Thr::DONE) alive += t->name + " ";
    if (!alive.empty()) fatal_violation("thread-left", "threads still running at the end of the scenario: " + threads_text());
    g_active = false;
    race_end();
    for (Thr* t : threads) if (t != &main) { if (!t->real_joined) real_join(t->pt, nullptr); delete t; }
    threads.clear(); tl_self = nullptr;
  }
}

static Thr* by_pthread(pthread_t p) { for (Thr* t : threads) if (t->id && pthread_equal(t->pt, p)) return t; return nullptr; }

}  // namespace mc

using namespace mc;

VIS int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!managed()) return real_create(th, a, fn, arg);
  char nm[32]; snprintf(nm, sizeof nm, "lib%zu", threads.size());
  Thr* t = new_thread(fn, arg, nm, false);
  *th = t->pt;
  if (a) { int d = 0; pthread_attr_getdetachstate(a, &d); if (d == PTHREAD_CREATE_DETACHED) t->detached = true; }
  sched_point("thread-create");
  return 0;
}
VIS int pthread_join(pthread_t p, void** r) {
  if (!managed()) return real_join(p, r);
  Thr* t = by_pthread(p);
  if (!t) return ESRCH;
  join_thr(t);
  if (r) *r = t->ret;
  return 0;
}
VIS int pthread_detach(pthread_t p) {
  if (!managed()) { REAL(pthread_detach); return real(p); }
  Thr* t = by_pthread(p); if (t) t->detached = true;
  return 0;
}

// caller inside this executable? (library, harness and static boost are; libxml2, libssl are not)
extern "C" char __executable_start, etext;
static inline bool in_exe(void* ra) { return (char*)ra >= &__executable_start && (char*)ra < &etext; }

static int mlock(pthread_mutex_t* m, bool tryonly, int64_t deadline = -1) {
  int kind = m->__data.__kind & 3;
  sched_point(tryonly ? "trylock" : "lock", m);
  Guard g;
  Mx& x = mutexes[m];
  if (x.owner == tl_self) {
    if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { x.count++; return 0; }
    if (tryonly) return EBUSY;
    if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
  }
  if (x.owner && tryonly) return EBUSY;
  while (x.owner) if (!block("mutex", [&x] { return x.owner == nullptr; }, deadline)) return ETIMEDOUT;
  x.owner = tl_self; x.count = 1;
  hb_acquire(m); hist((uint64_t)tl_self->id * 3 + 1);
  return 0;
}
static int munlock(pthread_mutex_t* m) {
  Guard g;
  Mx& x = mutexes[m];
  if (x.owner != tl_self) { violation("unlock", "mutex released by a thread that does not hold it"); return EPERM; }
  if (--x.count == 0) { hb_release(m); x.owner = nullptr; }
  return 0;
}
static bool mx_mine(void* ra, const void* m) { if (!managed()) return false; return in_exe(ra) || mutexes.count(m); }

VIS int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!mx_mine(__builtin_return_address(0), m)) { REAL(pthread_mutex_lock); return real(m); }
  return mlock(m, false);
}
VIS int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!mx_mine(__builtin_return_address(0), m)) { REAL(pthread_mutex_trylock); return real(m); }
  return mlock(m, true);
}
static int64_t abs_ms(const struct timespec* ts) { return ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000; }
VIS int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!mx_mine(__builtin_return_address(0), m)) { REAL(pthread_mutex_timedlock); return real(m, ts); }
  return mlock(m, false, abs_ms(ts));
}
VIS int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!mx_mine(__builtin_return_address(0), m)) { REAL(pthread_mutex_unlock); return real(m); }
  return munlock(m);
}
VIS int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (managed()) {
    Guard g; auto i = mutexes.find(m);
    if (i != mutexes.end()) {
      if (i->second.owner) violation("destroy-locked", "a mutex was destroyed while locked");
      mutexes.erase(i);
    }
  }
  REAL(pthread_mutex_destroy); return real(m);
}

static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  sched_point("cond-wait", c);
  Guard g;
  if (sched_opts.spurious && choose(2, C_FAULT, "spurious-wakeup")) {
    int n = mutexes[m].count; mutexes[m].count = 1; munlock(m); mlock(m, false); mutexes[m].count = n; return 0;
  }
  Cw w{tl_self, false};
  conds[c].waiters.push_back(&w);
  int n = mutexes[m].count; mutexes[m].count = 1; munlock(m);
  bool ok = block("cond", [&w] { return w.signaled; }, deadline);
  if (!w.signaled) {
    auto& v = conds[c].waiters;
    for (size_t i = 0; i < v.size(); i++) if (v[i] == &w) { v.erase(v.begin() + i); break; }
  } else hb_acquire(c);
  Mx& x = mutexes[m];
  while (x.owner) block("mutex", [&x] { return x.owner == nullptr; });
  x.owner = tl_self; x.count = n; hb_acquire(m); hist((uint64_t)tl_self->id * 3 + 2);
  return ok || w.signaled ? 0 : ETIMEDOUT;
}
VIS int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!managed()) { REAL(pthread_cond_wait); return real(c, m); }
  return cwait(c, m, -1);
}
VIS int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!managed()) { REAL(pthread_cond_timedwait); return real(c, m, ts); }
  return cwait(c, m, abs_ms(ts));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
VIS int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!managed()) { REAL(pthread_cond_clockwait); return real(c, m, k, ts); }
  return cwait(c, m, abs_ms(ts));
}
VIS int pthread_cond_signal(pthread_cond_t* c) {
  if (!managed()) { REAL(pthread_cond_signal); return real(c); }
  sched_point("cond-signal", c);
  Guard g;
  auto& v = conds[c].waiters;
  hb_release(c);
  if (v.empty()) return 0;
  int k = choose((int)v.size(), C_SWITCH, "which-waiter");
  v[k]->signaled = true; v.erase(v.begin() + k);
  return 0;
}
VIS int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!managed()) { REAL(pthread_cond_broadcast); return real(c); }
  sched_point("cond-broadcast", c);
  Guard g;
  hb_release(c);
  auto& v = conds[c].waiters;
  for (Cw* w : v) w->signaled = true;
  v.clear();
  return 0;
}
VIS int pthread_cond_destroy(pthread_cond_t* c) {
  if (managed()) {
    Guard g; auto i = conds.find(c);
    if (i != conds.end()) {
      if (!i->second.waiters.empty()) violation("destroy-waited", "a condition was destroyed while a thread waits on it");
      conds.erase(i);
    }
    return 0;
  }
  REAL(pthread_cond_destroy); return real(c);
}
VIS int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!managed() || !in_exe(__builtin_return_address(0))) { REAL(pthread_rwlock_rdlock); return real(l); }
  sched_point("rdlock", l); Guard g; Rw& r = rwlocks[l];
  while (r.writer) block("rdlock", [&r] { return !r.writer; });
  r.readers++; hb_acquire(l); return 0;
}
VIS int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!managed() || !in_exe(__builtin_return_address(0))) { REAL(pthread_rwlock_wrlock); return real(l); }
  sched_point("wrlock", l); Guard g; Rw& r = rwlocks[l];
  while (r.writer || r.readers) block("wrlock", [&r] { return !r.writer && !r.readers; });
  r.writer = tl_self; hb_acquire(l); return 0;
}
VIS int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!managed() || !in_exe(__builtin_return_address(0))) { REAL(pthread_rwlock_unlock); return real(l); }
  Guard g; Rw& r = rwlocks[l]; hb_release(l);
  if (r.writer == tl_self) r.writer = nullptr; else if (r.readers) r.readers--;
  return 0;
}
VIS int sched_yield() {
  if (!managed()) return syscall(SYS_sched_yield);
  sched_point("yield");
  // a yielding thread lets everybody else run first
  return 0;
}

// ---- time --------------------------------------------------------------------------------------
static const time_t EPOCH = 1700000000;
VIS int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!managed()) return syscall(SYS_nanosleep, a, b);
  sched_point("sleep"); block("sleep", [] { return false; }, g_now + abs_ms(a)); return 0;
}
VIS int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
  if (!managed()) { return syscall(SYS_clock_nanosleep, c, fl, a, b) ? errno : 0; }
  sched_point("sleep");
  block("sleep", [] { return false; }, fl & TIMER_ABSTIME ? abs_ms(a) : g_now + abs_ms(a)); return 0;
}
VIS int usleep(useconds_t us) {
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
VIS int clock_gettime(clockid_t c, struct timespec* t) {
  if (!managed()) return syscall(SYS_clock_gettime, c, t);
  t->tv_sec = g_now / 1000; t->tv_nsec = (g_now % 1000) * 1000000; return 0;
}
VIS time_t time(time_t* p) {
  time_t v;
  if (fake_time >= 0) v = fake_time;
  else if (!managed()) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); v = t.tv_sec; }
  else v = EPOCH + (g_now - 1000000) / 1000;
  if (p) *p = v;
  return v;
}
VIS int gettimeofday(struct timeval* t, void* z) {
  (void)z;
  if (fake_time >= 0) { t->tv_sec = fake_time; t->tv_usec = 0; return 0; }
  if (!managed()) return syscall(SYS_gettimeofday, t, nullptr);
  t->tv_sec = EPOCH + (g_now - 1000000) / 1000; t->tv_usec = (g_now % 1000) * 1000; return 0;
}
