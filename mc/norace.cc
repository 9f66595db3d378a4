// Stand-ins used when the happens-before monitor is not linked in.
#include "engine.h"
namespace mc {
void hb_acquire(const void*) {}
void hb_release(const void*) {}
void hb_fork(Thr*, Thr*) {}
void hb_join(Thr*, Thr*) {}
void race_begin() {}
void race_end() {}
void race_stack_reset(Thr*) {}
void race_alloc(void*) {}
void race_access(const void*, size_t, bool, void*) {}
void race_free(void*, void*) {}
}
