// Happens-before monitor: runtime for code compiled with -fsanitize=thread. One thread runs at a time,
// so the shadow needs no locking; vector clocks follow the synchronisation seen by the scheduler.
#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <cstdarg>
#include <ctime>
#include <malloc.h>
#include <sstream>
#include <unistd.h>

namespace mc {
struct Acc { uint32_t clk; uint8_t tid, mask, wr, used; void* pc; };
struct Cell { uintptr_t key; uint32_t gen; Acc a[6]; };
static const size_t NC = 1 << 17;
static Cell* cells;
static uint32_t gen = 1;
static size_t used_cells;
static std::map<const void*, std::vector<uint64_t>> clocks;
static bool on;

static Cell* find(uintptr_t k, bool make) {
  size_t i = (k * 0x9e3779b97f4a7c15ULL) >> 47 & (NC - 1);
  for (;;) {
    Cell& c = cells[i];
    if (c.gen != gen) {
      if (!make) return nullptr;
      if (++used_cells > NC * 3 / 4) { fprintf(stderr, "race monitor: shadow full\n"); _exit(3); }
      memset(&c, 0, sizeof c); c.key = k; c.gen = gen; return &c;
    }
    if (c.key == k) return &c;
    i = (i + 1) & (NC - 1);
  }
}
static std::string where(void* pc) {
  Dl_info d; std::ostringstream s;
  if (dladdr(pc, &d) && d.dli_sname) {
    int st; char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    s << (st == 0 ? n : d.dli_sname); free(n);
  } else s << "static function at +0x" << std::hex << ((char*)pc - (char*)(dladdr(pc, &d) ? d.dli_fbase : nullptr));
  return s.str();
}
static void report(const Acc& o, const Acc& n) {
  Guard g;
  std::string a = where(o.pc), b = where(n.pc);
  if (tracing()) trace("%s: data race: %s in %s, earlier %s in %s", tl_self->name.c_str(), n.wr ? "write" : "read", b.c_str(), o.wr ? "write" : "read", a.c_str());
  violation("data-race", std::string("unsynchronised access to shared memory: ") + (n.wr ? "write in " : "read in ") + b + " and " + (o.wr ? "write in " : "read in ") + a);
}
static void access(uintptr_t p, size_t n, bool wr, void* pc) {
  Thr* me = tl_self;
  while (n) {
    uintptr_t k = p >> 3; unsigned off = p & 7; size_t m = 8 - off < n ? 8 - off : n;
    uint8_t mask = (uint8_t)(((1u << m) - 1) << off);
    Acc na{(uint32_t)me->vc[me->id], (uint8_t)me->id, mask, (uint8_t)wr, 1, pc};
    Cell* c = find(k, true);
    int slot = -1, weak = -1;
    for (int i = 0; i < 6; i++) {
      Acc& o = c->a[i];
      if (!o.used) { if (slot < 0) slot = i; continue; }
      if (o.tid == me->id) {
        if (o.mask == mask && o.wr <= (uint8_t)wr) slot = i;      // this access covers the older one
        else if (o.clk == na.clk && o.wr >= (uint8_t)wr && (o.mask & mask) == mask) { slot = -2; }
        continue;
      }
      bool ordered = o.clk <= me->vc[o.tid];
      if ((o.mask & mask) && (o.wr || wr) && !ordered) report(o, na);
      if (ordered) weak = i;
    }
    if (slot == -1) slot = weak >= 0 ? weak : 5;
    if (slot >= 0) c->a[slot] = na;
    p += m; n -= m;
  }
}
static inline bool live() { return on && tl_self && tl_engine == 0 && g_active; }

void hb_acquire(const void* o) {
  if (!on || !tl_self) return;
  auto i = clocks.find(o); if (i == clocks.end()) return;
  for (int t = 0; t < MAXT; t++) if (i->second[t] > tl_self->vc[t]) tl_self->vc[t] = i->second[t];
}
void hb_release(const void* o) {
  if (!on || !tl_self) return;
  auto& v = clocks[o]; if (v.empty()) v.assign(MAXT, 0);
  for (int t = 0; t < MAXT; t++) if (tl_self->vc[t] > v[t]) v[t] = tl_self->vc[t];
  tl_self->vc[tl_self->id]++;
}
void hb_fork(Thr* p, Thr* c) {
  if (p) { for (int t = 0; t < MAXT; t++) c->vc[t] = p->vc[t]; p->vc[p->id]++; }
  c->vc[c->id] = 1;
}
void hb_join(Thr* p, Thr* c) { for (int t = 0; t < MAXT; t++) if (c->vc[t] > p->vc[t]) p->vc[t] = c->vc[t]; }
void race_begin() {
  if (!cells) cells = (Cell*)calloc(NC, sizeof(Cell));
  gen++; used_cells = 0; clocks.clear(); on = true; tl_self->vc[tl_self->id] = 1;
}
void race_end() { on = false; }
static void forget(uintptr_t a, size_t n) { for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; k++) if (Cell* c = find(k, false)) memset(c->a, 0, sizeof c->a); }
// stacks are handed from ended threads to new ones
void race_stack_reset(Thr* t) {
  pthread_attr_t a; void* p; size_t n;
  if (pthread_getattr_np(t->pt, &a)) return;
  pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a);
  uintptr_t lo = (uintptr_t)p, hi = lo + n;
  for (size_t i = 0; i < NC; i++) if (cells[i].gen == gen && cells[i].key >= lo >> 3 && cells[i].key < hi >> 3) memset(cells[i].a, 0, sizeof cells[i].a);
}
void race_alloc(void* p) { if (on) forget((uintptr_t)p, malloc_usable_size(p)); }
void race_access(const void* p, size_t n, bool wr, void* pc) { if (live()) access((uintptr_t)p, n, wr, pc); }
void race_free(void* p, void* pc) { if (!on) return; size_t n = malloc_usable_size(p); if (live()) access((uintptr_t)p, n, true, pc); forget((uintptr_t)p, n); }
}
using namespace mc;
#define PC __builtin_return_address(0)
#define ACC(p, n, w) do { if (live()) access((uintptr_t)(p), (n), (w), PC); } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { ACC(p, n, false); } \
  void __tsan_write##n(void* p) { ACC(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { ACC(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { ACC(p, n, true); } \
  void __tsan_read_write##n(void* p) { ACC(p, n, true); } \
  void __tsan_unaligned_read_write##n(void* p) { ACC(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) ACC(p, 8, true); }
void __tsan_vptr_read(void** p) { ACC(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { ACC(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { ACC(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { ACC(s, n, false); ACC(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { ACC(s, n, false); ACC(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { ACC(d, n, true); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
// Atomics: performed as such, ordering according to the memory order given; each is a scheduling point
// when the scenario asks for it.
static void at_point(const void* p) { if (managed() && sched_opts.atomics && tl_static == 0) sched_point("atomic", p); }
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void a_acq(const void* p, int mo) { if (live() && acq(mo)) { Guard g; hb_acquire(p); } }
static void a_rel(const void* p, int mo) { if (live() && rel(mo)) { Guard g; hb_release(p); } }
#define AT(bits, T) \
  extern "C" T __tsan_atomic##bits##_load(const volatile T* p, int mo) { at_point((void*)p); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); a_acq((void*)p, mo); return v; } \
  extern "C" void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_point((void*)p); a_rel((void*)p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { at_point((void*)p); a_acq((void*)p, mo); a_rel((void*)p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { a_acq((void*)p, mo); a_rel((void*)p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { a_acq((void*)p, mo); a_rel((void*)p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { a_acq((void*)p, mo); a_rel((void*)p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { a_acq((void*)p, mo); a_rel((void*)p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { a_acq((void*)p, mo); a_rel((void*)p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { a_acq((void*)p, mo); a_rel((void*)p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { at_point((void*)p); a_acq((void*)p, mo); a_rel((void*)p, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { at_point((void*)p); a_acq((void*)p, mo); a_rel((void*)p, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { at_point((void*)p); a_acq((void*)p, mo); a_rel((void*)p, mo); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// exceptions live in memory of their own
extern "C" void* __cxa_allocate_exception(size_t n) noexcept {
  static void* (*real)(size_t) = nullptr;
  if (!real) { Guard gd; real = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception"); }
  void* p = real(n);
  if (on && n) forget((uintptr_t)p, n);
  return p;
}

// functions of the C library that read or write memory of the caller, if that is code of ours
extern "C" char __executable_start, etext;
#define LACC(p, n, w) do { char* pc_ = (char*)PC; if (pc_ >= &__executable_start && pc_ < &etext) ACC(p, n, w); } while (0)
template <class F> static F next(F& f, const char* n) { if (!f) { Guard g; f = (F)dlsym(RTLD_NEXT, n); } return f; }
#define NEXT(name) static decltype(&name) real; next(real, #name)
extern "C" int __vsnprintf_chk(char*, size_t, int, size_t, const char*, va_list);
extern "C" {
size_t strlen(const char* s) { size_t n = (const char*)rawmemchr(s, 0) - s; LACC(s, n + 1, false); return n; }
int vsnprintf(char* d, size_t n, const char* f, va_list a) { int r = __vsnprintf_chk(d, n, 0, (size_t)-1, f, a); if (n && r >= 0) LACC(d, (size_t)r < n ? (size_t)r + 1 : n, true); return r; }
int snprintf(char* d, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = __vsnprintf_chk(d, n, 0, (size_t)-1, f, a); va_end(a); if (n && r >= 0) LACC(d, (size_t)r < n ? (size_t)r + 1 : n, true); return r; }
int sprintf(char* d, const char* f, ...) { va_list a; va_start(a, f); int r = __vsnprintf_chk(d, (size_t)1 << 30, 0, (size_t)-1, f, a); va_end(a); if (r >= 0) LACC(d, (size_t)r + 1, true); return r; }
char* strcpy(char* d, const char* s) { size_t n = (const char*)rawmemchr(s, 0) - s + 1; LACC(s, n, false); LACC(d, n, true); return (char*)memmove(d, s, n); }
char* strncpy(char* d, const char* s, size_t n) { NEXT(strncpy); LACC(d, n, true); return real(d, s, n); }
char* strcat(char* d, const char* s) { NEXT(strcat); size_t n = (const char*)rawmemchr(s, 0) - s + 1, l = (char*)rawmemchr(d, 0) - d; LACC(s, n, false); LACC(d + l, n, true); return real(d, s); }
int memcmp(const void* a, const void* b, size_t n) { NEXT(memcmp); LACC(a, n, false); LACC(b, n, false); return real(a, b, n); }
size_t strftime(char* d, size_t n, const char* f, const struct tm* t) { NEXT(strftime); LACC(t, sizeof *t, false); size_t r = real(d, n, f, t); if (r) LACC(d, r + 1, true); return r; }
struct tm* gmtime(const time_t* t) { NEXT(gmtime); struct tm* r = real(t); if (r) LACC(r, sizeof *r, true); return r; }
struct tm* localtime(const time_t* t) { NEXT(localtime); struct tm* r = real(t); if (r) LACC(r, sizeof *r, true); return r; }
struct tm* gmtime_r(const time_t* t, struct tm* o) { NEXT(gmtime_r); LACC(o, sizeof *o, true); return real(t, o); }
struct tm* localtime_r(const time_t* t, struct tm* o) { NEXT(localtime_r); LACC(o, sizeof *o, true); return real(t, o); }
char* asctime(const struct tm* t) { NEXT(asctime); char* r = real(t); if (r) LACC(r, 26, true); return r; }
char* ctime(const time_t* t) { NEXT(ctime); char* r = real(t); if (r) LACC(r, 26, true); return r; }
char* strtok(char* s, const char* d) { NEXT(strtok); static char last; LACC(&last, 1, true); return real(s, d); }
}
