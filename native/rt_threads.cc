// Replays one recorded schedule: the threads of the harness are coroutines, and every scheduling
// point (vp_sched, inserted before each atomic access; mutex operations; thread end; joins) takes the
// next entry of the schedule the symbolic execution recorded.
#include "../models/sym.h"
#include "harness.h"
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>
extern "C" void VP_ENTRY();
static struct Reg { Reg() { vp_entries()[VP_ENTRY_NAME] = VP_ENTRY; } } reg_;
enum St { Run, Mtx, Join, Cond, Done };
struct Th { ucontext_t c; St st = Run; void* wait = nullptr; bool shared = false, sig = false; void (*fn)(void*) = nullptr; void* arg = nullptr; std::vector<char> stack; };
struct M { int owner = -1, readers = 0; };
static std::vector<Th*>& T() { static std::vector<Th*> t{new Th}; return t; }
static std::map<void*, M>& MX() { static std::map<void*, M> m; return m; }
static unsigned cur; static int nlive = 1, atom; static std::string sched; static size_t sp;
static void bye(int rc, const char* m) { fprintf(stderr, "%s\n", m); fflush(nullptr); _exit(rc); }
static bool enabled(unsigned i) {
  Th& t = *T()[i];
  switch (t.st) { case Run: return true; case Mtx: { M& m = MX()[t.wait]; return t.shared ? m.owner < 0 : m.owner < 0 && m.readers == 0; }
    case Join: for (unsigned k = 0; k < T().size(); k++) if (k != i && T()[k]->st != Done) return false; return true;
    case Cond: return t.sig; default: return false; }
}
static unsigned take() { if (sp >= sched.size()) bye(78, "DIVERGED: schedule exhausted"); unsigned t = sched[sp++] - '0'; if (t >= T().size()) bye(78, "DIVERGED: bad thread in schedule"); return t; }
static void* stk0; static size_t stk0n;
static void go(unsigned to) {
  if (to == cur) return; unsigned from = cur; cur = to; void* fs = nullptr; Th& t = *T()[to];
  __sanitizer_start_switch_fiber(T()[from]->st == Done ? nullptr : &fs, to ? t.stack.data() : stk0, to ? t.stack.size() : stk0n);
  swapcontext(&T()[from]->c, &t.c);
  const void* b; size_t n; __sanitizer_finish_switch_fiber(fs, &b, &n);
}
static void away() {
  std::vector<unsigned> en; for (unsigned i = 0; i < T().size(); i++) if (i != cur && enabled(i)) en.push_back(i);
  if (en.empty()) { if (T()[cur]->st != Done && enabled(cur)) return; bye(96, "DEADLOCK"); }
  go(take());
}
static void entry() { const void* b; size_t n; __sanitizer_finish_switch_fiber(nullptr, &b, &n); if (!stk0) { stk0 = (void*)b; stk0n = n; } Th& t = *T()[cur]; t.fn(t.arg); t.st = Done; nlive--; away(); }
extern "C" {
void vp_rt_start(const char* s) { sched = s; }
void vp_rt_stop() {}
void vp_sched() { if (nlive < 2 || atom) return; go(take()); }
int sym_thread(void (*fn)(void*), void* arg) {
  Th* t = new Th; t->fn = fn; t->arg = arg; t->stack.resize(1 << 20); getcontext(&t->c); t->c.uc_stack.ss_sp = t->stack.data(); t->c.uc_stack.ss_size = t->stack.size(); t->c.uc_link = nullptr; makecontext(&t->c, entry, 0);
  T().push_back(t); nlive++; return (int)T().size() - 1;
}
void sym_join_all(void) { Th& t = *T()[cur]; t.st = Join; while (!enabled(cur)) away(); t.st = Run; nlive = 1; }
void sym_yield(void) { vp_sched(); }
void sym_atomic_begin(void) { atom++; }
void sym_atomic_end(void) { atom--; }
int sym_tid(void) { return (int)cur; }
void sym_mutex_lock(void* a) { vp_sched(); Th& t = *T()[cur]; M& m = MX()[a]; while (m.owner >= 0 || m.readers) { if (m.owner == (int)cur) bye(96, "DEADLOCK: locked twice"); t.st = Mtx; t.wait = a; t.shared = false; away(); } t.st = Run; m.owner = cur; }
int sym_mutex_trylock(void* a) { vp_sched(); M& m = MX()[a]; if (m.owner >= 0 || m.readers) return 0; m.owner = cur; return 1; }
void sym_mutex_unlock(void* a) { M& m = MX()[a]; if (m.owner != (int)cur) bye(95, "unlock of a mutex not held"); m.owner = -1; }
void sym_mutex_rlock(void* a) { vp_sched(); Th& t = *T()[cur]; M& m = MX()[a]; while (m.owner >= 0) { if (m.owner == (int)cur) bye(96, "DEADLOCK: locked twice"); t.st = Mtx; t.wait = a; t.shared = true; away(); } t.st = Run; m.readers++; }
void sym_mutex_runlock(void* a) { M& m = MX()[a]; if (m.readers > 0) m.readers--; }
void sym_mutex_destroy(void* a) { auto i = MX().find(a); if (i != MX().end()) { if (i->second.owner >= 0) bye(95, "destroying a held mutex"); MX().erase(i); } }
void sym_cond_block(void* a) { Th& t = *T()[cur]; t.st = Cond; t.sig = false; t.wait = a; away(); t.st = Run; t.sig = false; }
void sym_cond_signal(void* a) { for (auto* t : T()) if (t->st == Cond && t->wait == a) t->sig = true; }
}
