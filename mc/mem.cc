// Heap accounting: blocks obtained through operator new (or libxml2's allocator) by managed code.
#include "mc.h"
#include "engine.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <sstream>
#include <execinfo.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <libxml/xmlmemory.h>
#include <libxml/parser.h>

namespace mc {
__thread int tl_engine = 0;
__thread int tl_static = 0;
Guard::Guard() { tl_engine++; }
Guard::~Guard() { tl_engine--; }

struct Ent { void* p; size_t n; };
struct Bt { void* bt[10]; int nb; };
static size_t TAB = 1 << 13;
static Bt* bts;                    // only while tracing
static Ent* tab;
static volatile int lk;
static size_t cnt, used;
static bool on;
static void lock() { while (__sync_lock_test_and_set(&lk, 1)) __builtin_ia32_pause(); }
static void unlock() { __sync_lock_release(&lk); }
static size_t slot(void* p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 32; }
static void* const TOMB = (void*)1;

static void add(void* p, size_t n) {
  lock();
  size_t i = slot(p) & (TAB - 1);
  while (tab[i].p && tab[i].p != TOMB && tab[i].p != p) i = (i + 1) & (TAB - 1);
  if (!tab[i].p) used++;
  if (tab[i].p != p) cnt++;
  tab[i].p = p; tab[i].n = n;
  if (bts) { tl_engine++; bts[i].nb = backtrace(bts[i].bt, 10); tl_engine--; }
  if (used > TAB / 2) {
    Ent* o = tab; Bt* ob = bts; size_t ot = TAB;
    if (cnt > TAB / 4) TAB *= 2;
    tab = (Ent*)calloc(TAB, sizeof(Ent)); if (ob) bts = (Bt*)calloc(TAB, sizeof(Bt));
    used = 0;
    for (size_t k = 0; k < ot; k++) if (o[k].p && o[k].p != TOMB) {
      size_t j = slot(o[k].p) & (TAB - 1); while (tab[j].p) j = (j + 1) & (TAB - 1);
      tab[j] = o[k]; if (ob) bts[j] = ob[k]; used++;
    }
    free(o); free(ob);
  }
  unlock();
}
static void del(void* p) {
  lock();
  size_t i = slot(p) & (TAB - 1);
  while (tab[i].p) { if (tab[i].p == p) { tab[i].p = TOMB; cnt--; break; } i = (i + 1) & (TAB - 1); }
  unlock();
}
void mem_begin() {
  if (!tab) tab = (Ent*)calloc(TAB, sizeof(Ent));
  else if (used) { memset(tab, 0, TAB * sizeof(Ent)); }
  if (tracing() && !bts) bts = (Bt*)calloc(TAB, sizeof(Bt));
  cnt = used = 0; on = true;
}
void mem_end() { on = false; }
size_t mem_live() { return cnt; }
std::string mem_report(int max) {
  Guard g; std::ostringstream s; int k = 0;
  for (size_t i = 0; i < TAB && k < max; i++) if (tab[i].p && tab[i].p != TOMB) {
    s << (k++ ? ", " : "") << tab[i].n << " bytes";
    if (bts) {
      s << " at [";
      for (int b = 2; b < bts[i].nb; b++) { Dl_info d; if (dladdr(bts[i].bt[b], &d) && d.dli_sname) s << d.dli_sname << " "; else s << bts[i].bt[b] << " "; }
      s << "]";
    }
  }
  return s.str();
}
static inline void point() { if (sched_opts.alloc && tl_static == 0 && managed()) sched_point("allocation"); }
static inline void fail_point() {
  if (!sched_opts.nomem || !on || tl_engine || tl_static || (managed() && tl_self->peer)) return;
  if (choose(2, C_FAULT, "out of memory")) throw std::bad_alloc();
}
static inline void* get(size_t n) {
  point();
  fail_point();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (on && tl_engine == 0) { add(p, n); memset(p, 0xa5, n < 4096 ? n : 4096); }        // nothing relies on what memory held before
  race_alloc(p);
  return p;
}
static inline void put(void* p) {
  if (!p) return;
  if (on) del(p);
  race_free(p, __builtin_return_address(0));
  free(p);
}
static void* x_malloc(size_t n) { point(); void* p = malloc(n); if (p && on && tl_engine == 0) { add(p, n); memset(p, 0xa5, n < 4096 ? n : 4096); } if (p) race_alloc(p); return p; }
static void x_free(void* p) { put(p); }
static void* x_realloc(void* o, size_t n) { if (o && on) del(o); if (o) race_free(o, __builtin_return_address(0)); void* p = realloc(o, n); if (p && on && tl_engine == 0) add(p, n); if (p) race_alloc(p); return p; }
static char* x_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)x_malloc(n); if (p) memcpy(p, s, n); return p; }
static void quiet(void*, const char*, ...) {}
void mem_init() {
  xmlMemSetup(x_free, x_malloc, x_realloc, x_strdup);
  xmlInitParser();
  xmlSetGenericErrorFunc(nullptr, quiet);
  xmlThrDefSetGenericErrorFunc(nullptr, quiet);
  void* b[4]; backtrace(b, 4);
}
}

// initialisation of function-local statics
extern "C" int __cxa_guard_acquire(__cxxabiv1::__guard* g) {
  static int (*real)(void*) = nullptr;
  if (!real) { mc::Guard gd; real = (int (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_acquire"); }
  int r = real(g);
  if (r) mc::tl_static++;
  return r;
}
extern "C" void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept {
  static void (*real)(void*) = nullptr;
  if (!real) { mc::Guard gd; real = (void (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_release"); }
  if (mc::managed()) { mc::Guard gd; mc::hb_release(g); }
  mc::tl_static--;
  real(g);
}
extern "C" void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept {
  static void (*real)(void*) = nullptr;
  if (!real) { mc::Guard gd; real = (void (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_abort"); }
  mc::tl_static--;
  real(g);
}
void* operator new(size_t n) { return mc::get(n); }
void* operator new[](size_t n) { return mc::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return mc::get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return mc::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { mc::put(p); }
void operator delete[](void* p) noexcept { mc::put(p); }
void operator delete(void* p, size_t) noexcept { mc::put(p); }
void operator delete[](void* p, size_t) noexcept { mc::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc::put(p); }
