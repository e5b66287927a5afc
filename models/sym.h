// Harness API: implemented by the symbolic executor (engine/builtins.inc) and,
// for replay against the really compiled code, by native/native_rt.cc.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_u64(const char* name);
uint32_t sym_u32(const char* name);
uint8_t sym_u8(const char* name);
uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi);
void sym_assume(int c);
void sym_assert(int c, const char* msg);
void sym_fail(const char* msg);
void sym_reach(const char* label);
int64_t sym_param(const char* name, int64_t dflt);
uint64_t sym_concretize(uint64_t v);
int sym_is_symbolic(uint64_t v);
int sym_is_concrete_run(void);
void sym_observe(const char* name, const void* p, size_t n);
void sym_observe_u64(const char* name, uint64_t v);
int64_t sym_heap_live(void);
void sym_unmodelled(const char* what);
void sym_print(const char* what, uint64_t v);
int sym_and(int a, int b);
int sym_or(int a, int b);
uint64_t sym_ite64(int c, uint64_t a, uint64_t b);
int sym_thread(void (*fn)(void*), void* arg);
void sym_join_all(void);
void sym_yield(void);
void sym_mutex_lock(void*);
int sym_mutex_trylock(void*);
void sym_mutex_unlock(void*);
void sym_mutex_rlock(void*);
void sym_mutex_runlock(void*);
void sym_mutex_destroy(void*);
void sym_cond_block(void*);
void sym_cond_signal(void*);
int sym_tid(void);
// environment, overridable by a harness (weak defaults in the models / native runtime)
int64_t env_wall_nanos(void);
int64_t env_steady_nanos(void);
}
static inline double sym_double(const char* name) {
  uint64_t u = sym_u64(name);
  double d;
  memcpy(&d, &u, 8);
  return d;
}
static inline uint64_t dbits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static inline bool sym_same_double(double a, double b) {  // bitwise, NaNs identified
  return a == b ? true : (a != a && b != b);
}
// a value 0..n-1, one path each
static inline uint64_t sym_pick(const char* name, uint64_t n) {
  return sym_concretize(sym_range(name, 0, n - 1));
}
