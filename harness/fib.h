// Threads as fibers under a controlled scheduler.  Included by one file only.
//
// The synchronisation operations of the C and C++ libraries are replaced, so
// that real, unmodified multi-threaded code runs in one operating system thread
// and every synchronisation operation is a point at which the scheduler decides
// who continues.  The decisions (also which waiter a signal wakes, and those a
// harness adds with Choose) come from a random number generator, or are
// enumerated, or follow a given list of fibers.
#ifndef VERIF_FIB_H
#define VERIF_FIB_H
#include <cxxabi.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <chrono>
#include <map>
#include <set>
#include "common.h"
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace vh {

struct Sched;
inline Sched *gS = nullptr;

struct Sched {
  struct Fiber {
    ucontext_t ctx;
    char *stack = nullptr;
    std::function<void()> fn;
    std::function<bool()> ready;     // empty: ready
    bool done = false, sleeping = false, user = false;
    int tag = -1;                    // on whose behalf it runs (inherited)
    long wake = 0;                   // sleeping: not before this step, if others can run
    char eh[16] = {0};
    std::string where;
  };
  std::vector<std::unique_ptr<Fiber>> f;
  ucontext_t main_ctx;
  char main_eh[16];
  int cur = -1;
  long steps = 0, max_steps = 400000;
  std::function<void()> on_stuck;    // before the event that says how

  // ---- choices
  Rng rng{1};
  bool enumerate = false;            // all choices in order, instead of random ones
  std::vector<std::pair<int, int>> taken;   // (choice, number of choices)
  std::vector<int> forced;           // enumeration: choices to repeat first
  int preemptions = 0, bound = 1 << 30;
  std::vector<int> schedule;         // fibers, used first
  size_t at = 0;
  int policy = 0;                    // random mode: 0 random, 1 run on, 2 priorities, 3 newest first, 4 oldest first, 5 round robin
  bool spurious = false;             // waits may return without being signalled
  std::map<int, int> prio;

  // ---- synchronisation objects
  std::map<void *, int> owner;                          // mutex -> fiber
  std::map<void *, std::vector<int>> waiting;           // condition -> fibers
  std::set<int> woken;

  int Choose(int k) {
    if (k <= 1) return 0;
    int c;
    if (enumerate) {
      size_t i = taken.size();
      c = i < forced.size() ? forced[i] : 0;
      if (c >= k) c = k - 1;
      taken.push_back({c, k});
    } else c = (int)rng.below(k);
    return c;
  }
  // after a run in enumeration mode: the next choices, false if there are none
  bool NextChoices() {
    while (!taken.empty() && taken.back().first + 1 >= taken.back().second) taken.pop_back();
    if (taken.empty()) return false;
    taken.back().first++;
    forced.clear();
    for (auto &c : taken) forced.push_back(c.first);
    return true;
  }

  int Spawn(std::function<void()> fn, bool user) {
    auto x = std::make_unique<Fiber>();
    x->fn = std::move(fn);
    x->user = user;
    x->stack = (char *)malloc(kStack);
    getcontext(&x->ctx);
    x->ctx.uc_stack.ss_sp = x->stack;
    x->ctx.uc_stack.ss_size = kStack;
    x->ctx.uc_link = nullptr;
    x->tag = cur >= 0 ? f[cur]->tag : -1;
    int id = (int)f.size();
    makecontext(&x->ctx, (void (*)())Entry, 1, id);
    f.push_back(std::move(x));
    prio[id] = (int)rng.below(1000000);
    return id;
  }
  static constexpr size_t kStack = 256 << 10;
  static void Entry(int id) {
    gS->f[id]->fn();
    gS->f[id]->done = true;
    gS->Leave();
    abort();
  }
  void Leave() {
    Fiber &me = *f[cur];
    memcpy(me.eh, __cxxabiv1::__cxa_get_globals(), 16);
    swapcontext(&me.ctx, &main_ctx);
  }
  // The current fiber waits until `ready` holds and it is chosen to continue.
  void Wait(std::function<bool()> ready, const char *where = "") {
    if (cur < 0) {
      if (ready && !ready()) { Ev("failed")("what", std::string("blocked outside of a fiber: ") + where); OnCrash(1001); }
      return;
    }
    f[cur]->ready = std::move(ready);
    f[cur]->where = where;
    Leave();
    f[cur]->ready = nullptr;
  }
  void Yield() { if (cur >= 0) Wait(nullptr); }
  void Sleep() {
    if (cur < 0) return;
    Fiber &me = *f[cur];
    me.sleeping = true;
    me.wake = steps + 2 + Choose(6) * 7;
    Wait(nullptr);
    f[cur]->sleeping = false;
  }

  int Pick(const std::vector<int> &en) {
    while (at < schedule.size()) {
      int want = schedule[at++];
      for (int e : en) if (e == want) return e;
    }
    auto has = [&](int x) { for (int e : en) if (e == x) return true; return false; };
    if (enumerate) {
      if (cur >= 0 && has(cur)) {
        if (preemptions >= bound) return cur;
        std::vector<int> o = {cur};
        for (int e : en) if (e != cur) o.push_back(e);
        int c = o[Choose((int)o.size())];
        if (c != cur) preemptions++;
        return c;
      }
      return en[Choose((int)en.size())];
    }
    switch (policy) {
      case 1: if (cur >= 0 && has(cur) && !rng.chance(3)) return cur; return rng.pick(en);
      case 2: {
        if (rng.chance(2)) prio[en[rng.below(en.size())]] = (int)rng.below(1000000);
        int b = en[0];
        for (int e : en) if (prio[e] > prio[b]) b = e;
        return b;
      }
      case 3: return rng.chance(5) ? rng.pick(en) : en.back();
      case 4: return rng.chance(5) ? rng.pick(en) : en.front();
      case 5: for (int k = 1; k <= (int)f.size(); k++) { int c = (cur + k + (int)f.size()) % (int)f.size(); if (has(c)) return c; } return en[0];
      default: return rng.pick(en);
    }
  }
  // Runs until all fibers started by the harness are done and nothing else can
  // move; if the execution gets stuck, an event says how and the process ends.
  void Run() {
    gS = this;
    while (true) {
      std::vector<int> en, asleep;
      bool all = true;
      for (int i = 0; i < (int)f.size(); i++) {
        if (f[i]->done) { if (f[i]->stack) { free(f[i]->stack); f[i]->stack = nullptr; } continue; }
        if (f[i]->user) all = false;
        if (f[i]->sleeping && f[i]->wake > steps) { asleep.push_back(i); continue; }
        if (!f[i]->ready || f[i]->ready()) en.push_back(i);
      }
      if (all && en.empty()) break;
      if (en.empty()) en = asleep;
      if (en.empty() || steps > max_steps) {
        std::vector<std::string> stuck;
        for (auto &x : f) if (!x->done && x->user) stuck.push_back(x->where);
        if (on_stuck) on_stuck();
        Ev(en.empty() ? "deadlock" : "livelock")("at", stuck);
        // the abandoned fibers still own objects: nothing can follow
        Flush();
        _exit(0);
      }
      cur = Pick(en);
      steps++;
      memcpy(main_eh, __cxxabiv1::__cxa_get_globals(), 16);
      memcpy((void *)__cxxabiv1::__cxa_get_globals(), f[cur]->eh, 16);
      swapcontext(&main_ctx, &f[cur]->ctx);
      memcpy((void *)__cxxabiv1::__cxa_get_globals(), main_eh, 16);
    }
    cur = -1;
    gS = nullptr;
  }
  ~Sched() { for (auto &x : f) if (x->stack) free(x->stack); }
};

inline bool InFiber() { return gS && gS->cur >= 0; }
inline void SchedPoint() { if (InFiber()) gS->Yield(); }

}  // namespace vh

// ---- replaced functions ----------------------------------------------------------
// Outside of fibers there is one thread only and locks are never contended.
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  using namespace vh;
  if (!InFiber()) return 0;
  gS->Wait([m] { return !gS->owner.count(m); }, "mutex");
  gS->owner[m] = gS->cur;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  using namespace vh;
  if (!InFiber()) return 0;
  gS->Yield();
  if (gS->owner.count(m)) return EBUSY;
  gS->owner[m] = gS->cur;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  using namespace vh;
  if (!InFiber()) return 0;
  gS->owner.erase(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return pthread_mutex_lock((pthread_mutex_t *)m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return pthread_mutex_lock((pthread_mutex_t *)m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return pthread_mutex_unlock((pthread_mutex_t *)m); }

static int vh_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  using namespace vh;
  if (!InFiber()) { Ev("failed")("what", "wait outside of a fiber"); OnCrash(1001); }
  int me = gS->cur;
  gS->owner.erase(m);
  gS->waiting[c].push_back(me);
  bool free_ok = timed || (gS->spurious && gS->Choose(8) == 1);
  gS->Wait([m, me, free_ok] { return !gS->owner.count(m) && (free_ok || gS->woken.count(me)); }, "condition");
  bool was = gS->woken.erase(me) > 0;
  auto &w = gS->waiting[c];
  for (size_t i = 0; i < w.size(); i++) if (w[i] == me) { w.erase(w.begin() + i); break; }
  gS->owner[m] = me;
  return was || !timed ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return vh_cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return vh_cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return vh_cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) {
  using namespace vh;
  if (!InFiber()) return 0;
  gS->Yield();
  auto &w = gS->waiting[c];
  if (w.empty()) return 0;
  int i = gS->Choose((int)w.size());
  gS->woken.insert(w[i]);
  w.erase(w.begin() + i);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  using namespace vh;
  if (!InFiber()) return 0;
  gS->Yield();
  for (int x : gS->waiting[c]) gS->woken.insert(x);
  gS->waiting[c].clear();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  using namespace vh;
  if (!gS) { Ev("failed")("what", "a thread outside of the scheduler"); OnCrash(1002); }
  int id = gS->Spawn([fn, arg] { fn(arg); }, false);
  *t = (pthread_t)(0x1000 + id);
  gS->Yield();
  return 0;
}
int pthread_join(pthread_t t, void **r) {
  using namespace vh;
  int id = (int)(t - 0x1000);
  if (r) *r = nullptr;
  if (InFiber()) gS->Wait([id] { return gS->f[id]->done; }, "join");
  return 0;
}
int pthread_detach(pthread_t) { return 0; }
int sched_yield() { vh::SchedPoint(); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { if (vh::InFiber()) vh::gS->Sleep(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { if (vh::InFiber()) vh::gS->Sleep(); return 0; }
int usleep(useconds_t) { if (vh::InFiber()) vh::gS->Sleep(); return 0; }
unsigned sleep(unsigned) { if (vh::InFiber()) vh::gS->Sleep(); return 0; }

// futures
bool vh_futex_wait(void *, unsigned *addr, unsigned val, bool timed, long, long)
    __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool vh_futex_wait(void *, unsigned *addr, unsigned val, bool timed, long, long) {
  using namespace vh;
  if (!gS) return true;
  gS->Wait([=] { return timed || __atomic_load_n(addr, __ATOMIC_ACQUIRE) != val; }, "future");
  return __atomic_load_n(addr, __ATOMIC_ACQUIRE) != val;
}
bool vh_futex_wait_steady(void *a, unsigned *addr, unsigned val, bool timed, long s, long ns)
    __asm__("_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool vh_futex_wait_steady(void *a, unsigned *addr, unsigned val, bool timed, long s, long ns) { return vh_futex_wait(a, addr, val, timed, s, ns); }
void vh_futex_notify(unsigned *) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void vh_futex_notify(unsigned *) { vh::SchedPoint(); }
}
#endif
