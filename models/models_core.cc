// Models of libc / libstdc++ out-of-line functions, executed symbolically together with the code
// under test. Compiled with -fno-builtin so that the loops below stay loops.
#include "sym.h"
#include <string>
#include <stdexcept>
#include <new>
#include <list>
#include <map>
#include <unordered_map>
#include <chrono>
#include <thread>
#include <system_error>
#include <functional>
#include <mutex>
#include <condition_variable>
#include <cerrno>

template class std::__cxx11::basic_string<char>;

extern "C" void* __cxa_init_primary_exception_model(void* o) { return o; }
// ---- environment clocks
extern "C" __attribute__((weak)) int64_t env_wall_nanos(void) { return 1600000000000000000ll; }
extern "C" __attribute__((weak)) int64_t env_steady_nanos(void) { return 1000000000000ll; }

namespace std {
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(env_steady_nanos())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(env_wall_nanos())); }
} }

// ---- exceptions
const char* __cow_dup(const char* s) { return s; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
logic_error::logic_error(const char* s) : _M_msg() { *(const char**)(void*)&_M_msg = s; }
logic_error::logic_error(const string& s) : _M_msg() { *(const char**)(void*)&_M_msg = strdup(s.c_str()); }
logic_error::logic_error(const logic_error& o) noexcept : exception(), _M_msg() { *(const char**)(void*)&_M_msg = o.what(); }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return *(const char* const*)(const void*)&_M_msg; }
runtime_error::runtime_error(const char* s) : _M_msg() { *(const char**)(void*)&_M_msg = s; }
runtime_error::runtime_error(const string& s) : _M_msg() { *(const char**)(void*)&_M_msg = strdup(s.c_str()); }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(), _M_msg() { *(const char**)(void*)&_M_msg = o.what(); }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return *(const char* const*)(const void*)&_M_msg; }
__cow_string::__cow_string() { *(const char**)(void*)this = nullptr; }
__cow_string::~__cow_string() {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_optional_access() { throw logic_error("bad optional access"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_bad_cast() { throw logic_error("bad_cast"); }

// ---- list hooks
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* pos) noexcept { _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
  _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// ---- hash table growth policy
static const size_t kPrimes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t p = 14033;
  for (size_t i = 0; i < sizeof kPrimes / sizeof kPrimes[0]; ++i) if (kPrimes[i] >= n) { p = kPrimes[i]; break; }
  _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor);
  return p;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    size_t want = n_elt + n_ins;
    if (_M_next_resize == 0 && want < 11) want = 11;
    size_t mb = (size_t)((double)want / (double)_M_max_load_factor);
    if (mb >= n_bkt) { size_t a = mb + 1, b = n_bkt * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
    _M_next_resize = (size_t)((double)n_bkt * (double)_M_max_load_factor);
    return {false, 0};
  }
  return {false, 0};
}
}
// ---- red-black tree (kept as an unbalanced search tree: same in-order behaviour)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x && x->_M_parent != nullptr && x->_M_color == _S_red) {
    // header: its rightmost (header is coloured red, real nodes are black in this model)
    return x->_M_right;
  }
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = nullptr; _Rb_tree_node_base* xp = nullptr;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_left) t = t->_M_left; h._M_left = t; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_right) t = t->_M_right; h._M_right = t; } }
  }
  (void)xp;
  return y;
}
// equal strings must hash alike whether their bytes are constants or symbolic: depend on the length only
size_t _Hash_bytes(const void*, size_t len, size_t seed) { return seed + len * 31; }
size_t _Fnv_hash_bytes(const void*, size_t len, size_t seed) { return seed + len * 31; }
void ios_base_library_init() {}
// ---- error categories
inline namespace _V2 {
error_category::~error_category() noexcept {}
__cow_string error_category::_M_message(int) const { return __cow_string(); }
error_condition error_category::default_error_condition(int) const noexcept { return error_condition(); }
bool error_category::equivalent(int, const error_condition&) const noexcept { return false; }
bool error_category::equivalent(const error_code&, int) const noexcept { return false; }
static struct vp_cat : error_category { const char* name() const noexcept override { return "vp"; } string message(int) const override { return "error"; } } the_cat;
const error_category& system_category() noexcept { return the_cat; }
const error_category& generic_category() noexcept { return the_cat; }
}
// ---- threads and condition variables (a harness that starts real threads supplies vp_thread_start)
extern "C" __attribute__((weak)) unsigned long vp_thread_start(void (*)(void*), void*) { sym_unmodelled("std::thread"); return 1; }
extern "C" __attribute__((weak)) void vp_thread_join(unsigned long) { sym_unmodelled("std::thread::join"); }
extern "C" __attribute__((weak)) int vp_cond_wait(void*, void* m, const void*) { sym_mutex_unlock(m); sym_mutex_lock(m); return 110; }   // until: null if without limit
extern "C" __attribute__((weak)) void vp_cond_notify(void*) {}
extern "C" __attribute__((weak)) unsigned vp_concurrency(void) { return 2; }
struct vp_state { virtual ~vp_state(); virtual void run() = 0; };   // layout of thread::_State
static void vp_run_state(void* p) { auto* s = (vp_state*)p; s->run(); delete s; }
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { *(unsigned long*)(void*)&_M_id = vp_thread_start(vp_run_state, s.release()); }
void thread::join() { vp_thread_join(*(unsigned long*)(void*)&_M_id); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return vp_concurrency(); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_all() noexcept { vp_cond_notify(this); }
void condition_variable::notify_one() noexcept { vp_cond_notify(this); }
void condition_variable::wait(unique_lock<mutex>& l) { vp_cond_wait(this, l.mutex(), nullptr); }


}  // namespace std
