// Internal interface between the parts of the engine.
#pragma once
#include "mc.h"
#include <pthread.h>
#include <vector>
#include <functional>
#include <string>
#include <map>

namespace mc {

void engine_init();
void mc_sigpipe(int);
void run_managed(const std::function<void()>& fn);

static const int MAXT = 16;

struct Thr {
  int id = 0;
  std::string name;
  enum St { RUN, BLOCK, IDLE, DONE } st = RUN;
  std::function<bool()> ready;
  const char* why = "";
  int64_t deadline = -1;
  bool timed_out = false;
  int turn = 0;                 // futex
  bool peer = false;            // harness thread: plain sockets, no injected behaviour
  pthread_t pt{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool joined = false, detached = false, real_joined = false;
  uint64_t vc[MAXT] = {0};
  uint64_t last_obj = 0;
};

extern __thread Thr* tl_self;
extern __thread int tl_engine;
extern __thread int tl_static;   // initialising a function-local static: others would wait for it outside the scheduler
extern bool g_active;            // an execution is running under the scheduler

inline bool managed() { return tl_self && tl_engine == 0 && g_active; }

void sched_point(const char* op, const void* obj = nullptr);
// blocks the calling thread; true if the predicate came true, false on deadline
bool block(const char* why, const std::function<bool()>& pred, int64_t deadline = -1);
int64_t vnow();
void hist(uint64_t v);

void net_reset();
uint64_t net_hash();
std::string threads_text();

// happens-before bookkeeping (no-ops unless the race monitor is linked in)
void hb_acquire(const void* obj);
void hb_release(const void* obj);
void hb_fork(Thr* parent, Thr* child);
void hb_join(Thr* parent, Thr* child);
void race_begin();
void race_end();
void race_stack_reset(Thr* t);
void race_alloc(void* p);
void race_access(const void* p, size_t n, bool wr, void* pc);
void race_free(void* p, void* pc);
}
