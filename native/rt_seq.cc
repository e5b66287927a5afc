// no scheduling control: single threaded harnesses
#include <cstdint>
extern "C" { void vp_rt_start(const char*) {} void vp_rt_stop() {}
int sym_thread(void (*)(void*), void*) { return 0; } void sym_join_all(void) {}
int sym_tid(void) { return 0; } void sym_yield(void) {}
__attribute__((weak)) void sym_atomic_begin(void) {} __attribute__((weak)) void sym_atomic_end(void) {} }
extern "C" { __attribute__((weak)) void sym_mutex_lock(void*) {} __attribute__((weak)) void sym_mutex_unlock(void*) {} }
