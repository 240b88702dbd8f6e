// A controlled scheduler: the logical threads are fibers of one OS thread. Every
// lock of an absl::Mutex and every Yield() is a scheduling point; the chooser
// decides who runs (default: the running thread goes on, another one is a
// preemption). ThreadSanitizer sees each fiber as a thread of its own, and switches
// do not synchronise, so two accesses race exactly if the program's own mutexes do
// not order them - whatever the order they are executed in.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <ucontext.h>
#include <vector>
#include "absl/synchronization/mutex.h"
#include "choose.h"
extern "C" { void* __tsan_get_current_fiber(); void* __tsan_create_fiber(unsigned); void __tsan_destroy_fiber(void*); void __tsan_switch_to_fiber(void*, unsigned); void __tsan_acquire(void*); void __tsan_release(void*); }
#define NOTSAN __attribute__((no_sanitize("thread"), noinline))
namespace sched {
struct Fiber { ucontext_t uc; char* stack = nullptr; void* tsan = nullptr; std::function<void()>* fn = nullptr; bool done = false, waiting = false; void* want = nullptr; int id = 0; };
// What the fibers touch is plain memory, accessed by uninstrumented code only.
struct Core { Fiber f[8]; int n = 0, cur = -1; ucontext_t main_uc; void* main_tsan = nullptr; void* held[64]; int holder[64]; int nheld = 0; };
inline Core* g_core = nullptr;
inline NOTSAN int Holder(Core* r, void* m) { for (int i = 0; i < r->nheld; ++i) if (r->held[i] == m) return r->holder[i]; return -1; }
inline NOTSAN void ToMain() { Core* r = g_core; Fiber* me = &r->f[r->cur]; __tsan_switch_to_fiber(r->main_tsan, 1); swapcontext(&me->uc, &r->main_uc); }
inline NOTSAN bool Enabled(Core* r, Fiber* f) { if (f->done || f->waiting) return false; return !(f->want && Holder(r, f->want) >= 0); }
// A scheduling point of the running fiber.
inline NOTSAN void Yield() { Core* r = g_core; if (r && r->cur >= 0) ToMain(); }
// Waits until another thread has made progress.
inline NOTSAN void Wait() { Core* r = g_core; if (r && r->cur >= 0) { r->f[r->cur].waiting = true; ToMain(); } }
inline NOTSAN void Progress() { Core* r = g_core; if (r) for (int i = 0; i < r->n; ++i) if (i != r->cur) r->f[i].waiting = false; }
inline NOTSAN void Lock(void* m) {
  Core* r = g_core; if (!r || r->cur < 0) return; Fiber* me = &r->f[r->cur]; me->want = m; ToMain(); while (Holder(r, m) >= 0) ToMain();
  me->want = nullptr; if (r->nheld == 64) std::abort(); r->held[r->nheld] = m; r->holder[r->nheld++] = me->id; __tsan_acquire(m);
}
inline NOTSAN void Unlock(void* m) {
  Core* r = g_core; if (!r || r->cur < 0) return; __tsan_release(m);
  for (int i = 0; i < r->nheld; ++i) if (r->held[i] == m) { r->held[i] = r->held[r->nheld - 1]; r->holder[i] = r->holder[r->nheld - 1]; --r->nheld; return; }
}
inline NOTSAN void Entry() { Core* r = g_core; Fiber* me = &r->f[r->cur]; ToMain(); (*me->fn)(); me->done = true; Progress(); __tsan_release(me); ToMain(); }
inline vsched::Hooks g_hooks_{&Lock, &Unlock};
struct Result { bool deadlock = false, endless = false; uint64_t points = 0; std::string trace; };
inline NOTSAN void Resume(Core& r, int k) { r.cur = k; __tsan_switch_to_fiber(r.f[k].tsan, 1); swapcontext(&r.main_uc, &r.f[k].uc); r.cur = -1; }
// Runs the threads under one schedule.
inline NOTSAN Result Execute(Chooser& choose, std::vector<std::function<void()>>& fns, uint64_t limit = 5000) {
  Result res; Core& r = *new Core; constexpr size_t kStack = 1 << 18; static std::vector<char*> pool;
  r.main_tsan = __tsan_get_current_fiber(); r.n = (int)fns.size(); g_core = &r;
  for (int i = 0; i < r.n; ++i) {
    Fiber& f = r.f[i]; f.id = i; f.fn = &fns[i]; if (pool.empty()) f.stack = (char*)malloc(kStack); else { f.stack = pool.back(); pool.pop_back(); }
    getcontext(&f.uc); f.uc.uc_stack.ss_sp = f.stack; f.uc.uc_stack.ss_size = kStack; f.uc.uc_link = nullptr; makecontext(&f.uc, &Entry, 0); f.tsan = __tsan_create_fiber(0);
    r.cur = i; __tsan_switch_to_fiber(f.tsan, 0); swapcontext(&r.main_uc, &f.uc); r.cur = -1;
  }
  vsched::g_hooks = &g_hooks_; int last = -1;
  for (;;) {
    int en[8], n = 0; if (last >= 0 && Enabled(&r, &r.f[last])) en[n++] = last;
    for (int i = 0; i < r.n; ++i) if (i != last && Enabled(&r, &r.f[i])) en[n++] = i;
    if (!n) {
      bool all = true, waited = false; for (int i = 0; i < r.n; ++i) { all &= r.f[i].done; if (r.f[i].waiting && !r.f[i].done) { r.f[i].waiting = false; waited = true; } }
      if (all) break; if (waited && ++res.points < limit) continue;
      res.deadlock = !waited; res.endless = waited; break;
    }
    if (++res.points > limit) { res.endless = true; break; }
    last = en[n > 1 ? choose(n) : 0]; if (res.trace.size() < 300) res.trace += (char)('0' + last);
    Resume(r, last);
  }
  vsched::g_hooks = nullptr; g_core = nullptr;
  for (int i = 0; i < r.n; ++i) if (r.f[i].done) { __tsan_acquire(&r.f[i]); __tsan_destroy_fiber(r.f[i].tsan); pool.push_back(r.f[i].stack); }
  if (!res.deadlock && !res.endless) delete &r;  // stuck threads are left behind
  return res;
}
}  // namespace sched
