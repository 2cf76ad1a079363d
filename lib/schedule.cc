// See schedule.h.  Compiled without instrumentation.
#include "schedule.h"

#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include <unordered_map>
#include <vector>

namespace {

constexpr unsigned kMax = 24;  // threads per run
constexpr unsigned long kFairAfter = 6000, kGiveUpAfter = 150000;
unsigned long long_run = 0;  // further steps allowed to this run
using u64 = unsigned long;
using uptr = unsigned long;

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

struct VC {
  std::array<unsigned, kMax> c{};
  void join(VC const& o) {
    for (auto i = 0U; i != kMax; ++i) c[i] = std::max(c[i], o.c[i]);
  }
};

enum class St { kRunnable, kBlocked, kSleeping, kDone };

struct Thread {
  unsigned id = 0;
  St st = St::kRunnable;
  char const* why = "";  // what it waits for
  void const* on = nullptr;
  bool timed = false;  // a timed wait: may give up
  bool timed_out = false;
  bool joined = false, detached = false;
  std::atomic<int> baton{0};
  VC vc, acq_pending, rel_fence;
  bool has_rel_fence = false;
  unsigned long priority = 0;
  pthread_t handle{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
};

struct Mutex {
  Thread* owner = nullptr;
  unsigned depth = 0;
  VC vc;
};
struct RwLock {
  Thread* writer = nullptr;
  std::vector<Thread*> readers;
  VC vc, rvc;
};
struct Cond {
  std::vector<Thread*> waiters;
};
struct Granule {  // 8 bytes of memory: last write and reads per byte set
  struct Acc {
    unsigned char tid = 255, mask = 0;
    unsigned clock = 0;
    uptr pc = 0;
  };
  Acc w[2];  // two byte sets are enough for what the code does, then the older is dropped
  std::array<Acc, 4> r;
};

struct World {
  unsigned long give_up_after = kGiveUpAfter;
  pbt::Case* c = nullptr;
  std::vector<std::unique_ptr<Thread>> threads;
  Thread* current = nullptr;
  unsigned long steps = 0, switches = 0;
  std::string failure;
  bool failed = false;

  // strategy
  int strategy = 0;
  unsigned stay = 1;
  bool spurious = false;
  std::vector<unsigned long> change;  // PCT change points, or preemption points
  unsigned long low_priority = 1000;

  std::unordered_map<uptr, Mutex> mutexes;
  std::unordered_map<uptr, RwLock> rwlocks;
  std::unordered_map<uptr, Cond> conds;
  std::unordered_map<uptr, VC> atomics;  // release clocks
  std::unordered_map<uptr, Granule> shadow;
};
World* w = nullptr;  // active run
unsigned hw_threads = 4;
thread_local Thread* self = nullptr;
thread_local int in_engine = 0;

struct Engine {  // code of the engine may be shared with instrumented code
  Engine() { ++in_engine; }
  ~Engine() { --in_engine; }
};

bool active() { return w != nullptr && self != nullptr && in_engine == 0; }

[[noreturn]] void die(char const* what) {
  ++in_engine;
  fprintf(stderr, "%s\n", what);
  if (w != nullptr) {
    for (auto const& t : w->threads) {
      fprintf(stderr, "  thread %u: %s%s%s\n", t->id,
              t->st == St::kRunnable ? "runnable" : t->st == St::kDone ? "ended" : "waits for ",
              t->st == St::kBlocked || t->st == St::kSleeping ? t->why : "", t.get() == w->current ? " (current)" : "");
    }
  }
  fflush(stderr);
  _exit(70);
}

// ------------------------------------------------------------ scheduling
void baton_wait(Thread& t) {
  while (t.baton.exchange(0, std::memory_order_acquire) == 0) {
    raw_syscall(SYS_futex, reinterpret_cast<long>(&t.baton), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  }
}
void baton_pass(Thread& t) {
  t.baton.store(1, std::memory_order_release);
  raw_syscall(SYS_futex, reinterpret_cast<long>(&t.baton), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

std::vector<Thread*> runnable_threads() {
  auto r = std::vector<Thread*>{};
  for (auto const& t : w->threads) if (t->st == St::kRunnable) r.push_back(t.get());
  return r;
}

Thread* choose() {
  auto r = runnable_threads();
  auto& c = *w->c;
  auto* const cur = w->current;
  if (r.empty()) {
    // only sleeping threads or timed waits can go on
    for (auto const& t : w->threads) if (t->st == St::kSleeping || (t->st == St::kBlocked && t->timed)) r.push_back(t.get());
    if (r.empty()) die("DEADLOCK: no thread can go on");
    auto* const t = r[c.below(r.size())];
    t->timed_out = true;
    t->st = St::kRunnable;
    return t;
  }
  // rarely a sleeping thread goes on although others could
  if (w->steps > kFairAfter || (w->steps & 63U) == 63U) {
    for (auto const& t : w->threads) {
      if (t->st == St::kSleeping) { t->timed_out = true; t->st = St::kRunnable; r.push_back(t.get()); }
    }
  }
  if (w->steps > w->give_up_after) die("LIVELOCK: the threads do not finish under a fair schedule");
  if (w->steps > kFairAfter) {  // fair
    auto it = std::find_if(r.begin(), r.end(), [&](Thread* t) { return t->id > cur->id; });
    return it == r.end() ? r.front() : *it;
  }
  if (r.size() == 1) return r[0];
  auto const cur_runs = std::find(r.begin(), r.end(), cur) != r.end();
  switch (w->strategy) {
    case 0: {  // random walk, stays with the current thread more or less often
      if (cur_runs) {
        auto const v = c.below(w->stay + r.size() - 1);
        if (v < w->stay) return cur;
        r.erase(std::find(r.begin(), r.end(), cur));
        return r[v - w->stay];
      }
      return r[c.below(r.size())];
    }
    case 1: {  // priorities with change points (PCT)
      if (std::find(w->change.begin(), w->change.end(), w->steps) != w->change.end()) cur->priority = --w->low_priority;
      return *std::max_element(r.begin(), r.end(), [](Thread* a, Thread* b) { return a->priority < b->priority; });
    }
    default: {  // few preemptions
      if (cur_runs && std::find(w->change.begin(), w->change.end(), w->steps) == w->change.end()) return cur;
      if (cur_runs) r.erase(std::find(r.begin(), r.end(), cur));
      return r[c.below(r.size())];
    }
  }
}

// gives the processor to the chosen thread; returns when it is ours again
void reschedule() {
  ++w->steps;
  auto* const me = self;
  auto* const next = choose();
  if (next == me) return;
  if (me->st == St::kRunnable) ++w->switches;
  w->current = next;
  auto const done = me->st == St::kDone;
  baton_pass(*next);
  if (!done) baton_wait(*me);
}

void schedule_point() { reschedule(); }

void block(char const* why, void const* on, bool const timed = false) {
  self->st = St::kBlocked;
  self->why = why;
  self->on = on;
  self->timed = timed;
  self->timed_out = false;
  reschedule();
}
void wake_all(char const*, void const* on) {
  for (auto const& t : w->threads) {
    if (t->st == St::kBlocked && t->on == on) t->st = St::kRunnable;
  }
}

// ------------------------------------------------------------ happens before
void tick(Thread& t) { ++t.vc.c[t.id]; }
void acquire(VC const& v) { self->vc.join(v); }
void release_to(VC& v) { v.join(self->vc); tick(*self); }
void release_store(VC& v) { v = self->vc; tick(*self); }

[[noreturn]] void race(uptr a, Granule::Acc const& o, char const* what_old, char const* what_new, uptr pc) {
  ++in_engine;
  auto const show = [](uptr const p) {
    Dl_info i;
    if (dladdr(reinterpret_cast<void*>(p), &i) != 0) {
      fprintf(stderr, "    pc 0x%lx (%s+0x%lx)\n", p, i.dli_sname ? i.dli_sname : "binary",
              p - reinterpret_cast<uptr>(i.dli_sname ? i.dli_saddr : i.dli_fbase));
    }
  };
  fprintf(stderr, "DATA RACE on %p: %s by thread %u is not ordered with earlier %s by thread %u\n", reinterpret_cast<void*>(a), what_new, self->id, what_old, o.tid);
  show(pc);
  show(o.pc);
  die("unsynchronised accesses");
}

void access(uptr const a, unsigned const n, bool const write, uptr const pc) {
  auto const first = a & ~7UL, last = (a + n - 1) & ~7UL;
  auto const me = self->id;
  auto const clock = self->vc.c[me];
  for (auto g = first; g <= last; g += 8) {
    auto const lo = g < a ? a - g : 0, hi = std::min<uptr>(8, a + n - g);
    auto const mask = static_cast<unsigned char>(((1U << hi) - 1U) & ~((1U << lo) - 1U));
    auto& s = w->shadow[g];
    for (auto const& x : s.w) {
      if (x.tid != 255 && x.tid != me && (x.mask & mask) != 0 && x.clock > self->vc.c[x.tid]) race(a, x, "write", write ? "write" : "read", pc);
    }
    if (write) {
      for (auto& x : s.r) {
        if (x.tid == 255 || (x.mask & mask) == 0) continue;
        if (x.tid != me && x.clock > self->vc.c[x.tid]) race(a, x, "read", "write", pc);
        if ((x.mask & ~mask) == 0) x.tid = 255;  // ordered before this write
      }
      auto& slot = (s.w[0].tid == 255 || (s.w[0].mask & ~mask) == 0) ? s.w[0] : (s.w[1].tid == 255 || (s.w[1].mask & ~mask) == 0) ? s.w[1]
                   : s.w[0].tid == me && s.w[0].clock <= s.w[1].clock ? s.w[0] : s.w[1];
      slot = {static_cast<unsigned char>(me), mask, clock, pc};
    } else {
      Granule::Acc* slot = nullptr;
      for (auto& x : s.r) if (x.tid == me && x.mask == mask) slot = &x;
      if (slot == nullptr) for (auto& x : s.r) if (x.tid == 255) slot = &x;
      if (slot == nullptr) slot = &s.r[w->steps & 3U];
      *slot = {static_cast<unsigned char>(me), mask, clock, pc};
    }
  }
}
void forget(void* const p, std::size_t const n) {
  if (p == nullptr || w->shadow.empty()) return;
  auto const a = reinterpret_cast<uptr>(p) & ~7UL, e = reinterpret_cast<uptr>(p) + n;
  if (n / 8 > w->shadow.size()) {
    std::erase_if(w->shadow, [&](auto const& x) { return x.first >= a && x.first < e; });
  } else {
    for (auto g = a; g < e; g += 8) w->shadow.erase(g);
  }
  if (n / 8 < 64) for (auto g = a; g < e; g += 4) w->atomics.erase(g);
}

// ------------------------------------------------------------ mutexes
void lock(pthread_mutex_t* const m, bool const point = true) {
  if (point) schedule_point();
  auto const key = reinterpret_cast<uptr>(m);
  while (true) {
    auto& x = w->mutexes[key];
    if (x.owner == nullptr || (x.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) {
      x.owner = self;
      ++x.depth;
      acquire(x.vc);
      return;
    }
    block("a mutex", m);
  }
}
bool try_lock(pthread_mutex_t* const m) {
  schedule_point();
  auto& x = w->mutexes[reinterpret_cast<uptr>(m)];
  if (x.owner != nullptr && !(x.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return false;
  x.owner = self;
  ++x.depth;
  acquire(x.vc);
  return true;
}
void unlock(pthread_mutex_t* const m, bool const point = true) {
  if (point) schedule_point();
  auto& x = w->mutexes[reinterpret_cast<uptr>(m)];
  if (x.owner != self) die("a mutex is unlocked by a thread that does not hold it");
  if (--x.depth == 0) {
    x.owner = nullptr;
    release_store(x.vc);
    wake_all("a mutex", m);
  }
}
char const* const kCond = "a condition variable";
int cond_wait(pthread_cond_t* const cv, pthread_mutex_t* const m, bool const timed) {
  schedule_point();
  unlock(m, false);
  w->conds[reinterpret_cast<uptr>(cv)].waiters.push_back(self);
  auto timed_out = false;
  if (w->spurious && w->steps < kFairAfter && w->c->below(12) == 11) {
    schedule_point();  // a spurious wake-up
  } else {
    block(kCond, cv, timed);
    timed_out = self->timed_out;
  }
  std::erase(w->conds[reinterpret_cast<uptr>(cv)].waiters, self);
  lock(m, false);
  return timed_out ? ETIMEDOUT : 0;
}
void cond_wake(pthread_cond_t* const cv, bool const all) {
  schedule_point();
  auto& x = w->conds[reinterpret_cast<uptr>(cv)];
  if (all) {
    for (auto* t : x.waiters) if (t->st == St::kBlocked) t->st = St::kRunnable;
    x.waiters.clear();
    return;
  }
  auto c = std::vector<Thread*>{};
  for (auto* t : x.waiters) if (t->st == St::kBlocked) c.push_back(t);
  if (c.empty()) return;
  auto* const t = c.size() == 1 || w->steps >= kFairAfter ? c[0] : c[w->c->below(c.size())];
  t->st = St::kRunnable;
  std::erase(x.waiters, t);
}

// ------------------------------------------------------------ real functions
template <typename F>
F real(char const* const name, char const* const version = nullptr) {
  auto* const p = version ? dlvsym(RTLD_NEXT, name, version) : nullptr;
  return reinterpret_cast<F>(p ? p : dlsym(RTLD_NEXT, name));
}
#define REAL(f) ([] { static auto const p = real<decltype(&f)>(#f); return p; }())

void* thread_main(void* const p) {
  auto* const t = static_cast<Thread*>(p);
  ++in_engine;
  self = t;
  baton_wait(*t);
  --in_engine;
  auto* const result = t->fn(t->arg);
  ++in_engine;
  tick(*t);
  t->st = St::kDone;
  wake_all("the end of a thread", t);
  reschedule();
  self = nullptr;  // the run may be over by now
  return result;
}

}  // namespace

// ---------------------------------------------------------------- interface
namespace sched {
bool controlled() { return w != nullptr; }
unsigned self() { return ::self == nullptr ? 0 : ::self->id; }
unsigned live() {
  Engine e;
  auto n = 0U;
  for (auto const& t : w->threads) n += t->st != St::kDone ? 1U : 0U;
  return n;
}
unsigned started() { return static_cast<unsigned>(w->threads.size()) - 1U; }
unsigned long steps() { return w->steps; }
unsigned long switches() { return w->switches; }
void hardware_threads(unsigned const n) { hw_threads = n; }
void expect_long(unsigned long const n) { long_run = n; }
void report(std::string const& s) {
  Engine e;
  if (w != nullptr && !w->failed) { w->failed = true; w->failure = s; }
}
void point() {
  if (active()) { Engine e; schedule_point(); }
}

void run(pbt::Case& c, std::function<void()> const& body) {
  static auto const pinned = [] {  // handing over is cheaper on one processor
    cpu_set_t s, one;
    if (sched_getaffinity(0, sizeof s, &s) != 0) return false;
    auto cpus = std::vector<int>{};
    for (auto i = 0; i != CPU_SETSIZE; ++i) if (CPU_ISSET(i, &s)) cpus.push_back(i);
    if (cpus.empty()) return false;
    CPU_ZERO(&one);
    CPU_SET(cpus[static_cast<std::size_t>(getpid()) % cpus.size()], &one);
    return sched_setaffinity(0, sizeof one, &one) == 0;
  }();
  (void)pinned;
  auto world = World{};
  auto leftover = false;
  {
    Engine e;
    world.c = &c;
    world.give_up_after = kGiveUpAfter + std::exchange(long_run, 0UL);
    world.threads.push_back(std::make_unique<Thread>());
    auto* const t = world.threads[0].get();
    tick(*t);
    world.current = t;
    world.strategy = static_cast<int>(c.below(3));
    world.spurious = c.chance(1, 3);
    if (world.strategy == 0) {
      world.stay = c.of({1U, 2U, 6U, 20U});
    } else {
      for (auto k = c.below(5); k != 0; --k) world.change.push_back(1 + c.below(c.of({30UL, 100UL, 400UL})));
      if (world.strategy == 1) t->priority = 1000 + c.below(1000);
    }
    ::self = t;
    w = &world;
  }
  auto ex = std::exception_ptr{};
  try {
    body();
  } catch (...) {
    ex = std::current_exception();
  }
  {
    Engine e;
    for (auto i = std::size_t{0}; i != world.threads.size(); ++i) {
      auto* const t = world.threads[i].get();
      if (t == ::self) continue;
      if (t->st != St::kDone) {
        leftover = true;
        while (t->st != St::kDone) block("the end of a thread", t);
      }
      if (!t->joined && !t->detached) pthread_detach(t->handle);
    }
    w = nullptr;
    ::self = nullptr;
  }
  if (ex) std::rethrow_exception(ex);
  if (world.failed) throw pbt::Fail{world.failure};
  if (leftover) throw pbt::Fail{"threads are left running"};
}
}  // namespace sched

unsigned std::thread::hardware_concurrency() noexcept { return hw_threads; }

// ---------------------------------------------------------------- interposed
extern "C" {

int pthread_create(pthread_t* const out, pthread_attr_t const* const attr, void* (*fn)(void*), void* const arg) {
  if (!active()) return REAL(pthread_create)(out, attr, fn, arg);
  Engine e;
  schedule_point();
  if (w->threads.size() == kMax) die("more than 23 threads in one run");
  auto t = std::make_unique<Thread>();
  t->id = static_cast<unsigned>(w->threads.size());
  t->fn = fn;
  t->arg = arg;
  t->vc = self->vc;
  tick(*self);
  tick(*t);
  if (w->strategy == 1) t->priority = 1000 + w->c->below(1000);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 256 * 1024);
  if (auto const r = REAL(pthread_create)(&t->handle, &a, &thread_main, t.get()); r != 0) return r;
  pthread_attr_destroy(&a);
  *out = t->handle;
  w->threads.push_back(std::move(t));
  schedule_point();
  return 0;
}
int pthread_join(pthread_t const h, void** const ret) {
  if (!active()) return REAL(pthread_join)(h, ret);
  Engine e;
  schedule_point();
  for (auto const& p : w->threads) {
    auto* const t = p.get();
    if (t->id == 0 || t->joined || !pthread_equal(t->handle, h)) continue;
    while (t->st != St::kDone) block("the end of a thread", t);
    t->joined = true;
    acquire(t->vc);
    return REAL(pthread_join)(h, ret);
  }
  return REAL(pthread_join)(h, ret);
}
int pthread_detach(pthread_t const h) {
  if (w != nullptr && self != nullptr) {
    Engine e;
    for (auto const& t : w->threads) if (t->id != 0 && !t->joined && pthread_equal(t->handle, h)) t->detached = true;
  }
  return REAL(pthread_detach)(h);
}

int pthread_mutex_lock(pthread_mutex_t* const m) noexcept {
  if (!active()) return REAL(pthread_mutex_lock)(m);
  Engine e;
  lock(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* const m, timespec const* const t) noexcept {
  if (!active()) return REAL(pthread_mutex_timedlock)(m, t);
  Engine e;
  lock(m);
  return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* const m, clockid_t const c, timespec const* const t) noexcept {
  if (!active()) return REAL(pthread_mutex_clocklock)(m, c, t);
  Engine e;
  lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* const m) noexcept {
  if (!active()) return REAL(pthread_mutex_trylock)(m);
  Engine e;
  return try_lock(m) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* const m) noexcept {
  if (!active()) return REAL(pthread_mutex_unlock)(m);
  Engine e;
  unlock(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* const c, pthread_mutex_t* const m) {
  if (!active()) return REAL(pthread_cond_wait)(c, m);
  Engine e;
  return cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* const c, pthread_mutex_t* const m, timespec const* const t) {
  if (!active()) return REAL(pthread_cond_timedwait)(c, m, t);
  Engine e;
  return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* const c, pthread_mutex_t* const m, clockid_t const id, timespec const* const t) {
  if (!active()) return REAL(pthread_cond_clockwait)(c, m, id, t);
  Engine e;
  return cond_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* const c) noexcept {
  if (!active()) return REAL(pthread_cond_signal)(c);
  Engine e;
  cond_wake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* const c) noexcept {
  if (!active()) return REAL(pthread_cond_broadcast)(c);
  Engine e;
  cond_wake(c, true);
  return 0;
}

// glibc waits in the destructor for threads still inside the wait; there are none
int pthread_cond_destroy(pthread_cond_t* const c) noexcept {
  if (!active()) return REAL(pthread_cond_destroy)(c);
  Engine e;
  auto const it = w->conds.find(reinterpret_cast<uptr>(c));
  if (it != w->conds.end()) {
    for (auto* t : it->second.waiters) if (t->st == St::kBlocked) die("a condition variable is destroyed while a thread waits on it");
    w->conds.erase(it);
  }
  return 0;
}

static int rw(pthread_rwlock_t* const l, bool const write, bool const try_only) {
  schedule_point();
  while (true) {
    auto& x = w->rwlocks[reinterpret_cast<uptr>(l)];
    if (x.writer == nullptr && (!write || x.readers.empty())) {
      acquire(x.vc);
      if (write) { x.writer = self; acquire(x.rvc); }
      else x.readers.push_back(self);
      return 0;
    }
    if (try_only) return EBUSY;
    block("a shared mutex", l);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* const l) noexcept {
  if (!active()) return REAL(pthread_rwlock_rdlock)(l);
  Engine e;
  return rw(l, false, false);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* const l) noexcept {
  if (!active()) return REAL(pthread_rwlock_wrlock)(l);
  Engine e;
  return rw(l, true, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* const l) noexcept {
  if (!active()) return REAL(pthread_rwlock_tryrdlock)(l);
  Engine e;
  return rw(l, false, true);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* const l) noexcept {
  if (!active()) return REAL(pthread_rwlock_trywrlock)(l);
  Engine e;
  return rw(l, true, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t* const l) noexcept {
  if (!active()) return REAL(pthread_rwlock_unlock)(l);
  Engine e;
  schedule_point();
  auto& x = w->rwlocks[reinterpret_cast<uptr>(l)];
  if (x.writer == self) {
    x.writer = nullptr;
    release_store(x.vc);
  } else {
    auto const it = std::find(x.readers.begin(), x.readers.end(), self);
    if (it == x.readers.end()) die("a shared mutex is unlocked by a thread that does not hold it");
    x.readers.erase(it);
    release_to(x.rvc);
  }
  wake_all("a shared mutex", l);
  return 0;
}

int pthread_once(pthread_once_t* const o, void (*fn)(void)) {
  if (!active()) return REAL(pthread_once)(o, fn);
  auto const key = reinterpret_cast<uptr>(o);
  auto run = false;
  {
    Engine e;
    schedule_point();
    while (true) {
      if (*o == 2) { acquire(w->atomics[key]); return 0; }
      if (*o == 0) { *o = 1; run = true; break; }
      block("a call_once", o);
    }
  }
  if (run) {
    try {
      fn();
    } catch (...) {
      Engine e;
      *o = 0;
      wake_all("a call_once", o);
      throw;
    }
    Engine e;
    release_to(w->atomics[key]);
    *o = 2;
    wake_all("a call_once", o);
  }
  return 0;
}

int __cxa_guard_acquire(u64* const g) {
  auto* const b = reinterpret_cast<unsigned char*>(g);
  if (!active()) {
    if (b[0] != 0) return 0;
    b[1] = 1;
    return 1;
  }
  Engine e;
  schedule_point();
  while (true) {
    if (b[0] != 0) { acquire(w->atomics[reinterpret_cast<uptr>(g)]); return 0; }
    if (b[1] == 0) { b[1] = 1; return 1; }
    block("a static variable", g);
  }
}
static void guard_end(u64* const g, unsigned char const done) {
  auto* const b = reinterpret_cast<unsigned char*>(g);
  b[0] = done;
  b[1] = 0;
  if (!active()) return;
  Engine e;
  release_to(w->atomics[reinterpret_cast<uptr>(g)]);
  wake_all("a static variable", g);
}
void __cxa_guard_release(u64* const g) { guard_end(g, 1); }
void __cxa_guard_abort(u64* const g) { guard_end(g, 0); }

int sched_yield() noexcept {
  if (!active()) return static_cast<int>(raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  Engine e;
  // let somebody else run if possible: a spinning thread must not starve others
  auto const r = runnable_threads();
  if (r.size() > 1) {
    self->st = St::kSleeping;
    self->why = "others (yield)";
    auto* const me = self;
    ++w->steps;
    auto* next = choose();
    if (me->st == St::kSleeping) me->st = St::kRunnable;
    if (next != me) {
      w->current = next;
      baton_pass(*next);
      baton_wait(*me);
    }
  } else {
    schedule_point();
  }
  return 0;
}
static void pause_thread() {
  self->st = St::kSleeping;
  self->why = "time to pass";
  reschedule();
  self->st = St::kRunnable;
}
int nanosleep(timespec const* const t, timespec* const r) {
  if (!active()) return REAL(nanosleep)(t, r);
  Engine e;
  pause_thread();
  return 0;
}
int clock_nanosleep(clockid_t const c, int const f, timespec const* const t, timespec* const r) {
  if (!active()) return REAL(clock_nanosleep)(c, f, t, r);
  Engine e;
  pause_thread();
  return 0;
}
int usleep(useconds_t const us) {
  if (!active()) {
    timespec t{static_cast<time_t>(us / 1000000U), static_cast<long>(us % 1000000U) * 1000L};
    return REAL(nanosleep)(&t, nullptr);
  }
  Engine e;
  pause_thread();
  return 0;
}

long syscall(long const n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && active()) {
    auto const op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
    auto* const addr = reinterpret_cast<int*>(a[0]);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      Engine e;
      schedule_point();
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
      block("a futex", addr, a[3] != 0);
      if (self->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      Engine e;
      schedule_point();
      auto k = a[2];
      auto woken = 0L;
      for (auto const& t : w->threads) {
        if (k <= 0) break;
        if (t->st == St::kBlocked && t->on == addr && strcmp(t->why, "a futex") == 0) { t->st = St::kRunnable; --k; ++woken; }
      }
      return woken;
    }
  }
  auto const r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
  return r;
}

// ---------------------------------------------------------------- memory
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);

void* malloc(size_t const n) noexcept {
  auto* const p = __libc_malloc(n);
  if (active() && p != nullptr) { Engine e; forget(p, n); }
  return p;
}
void free(void* const p) noexcept {
  if (active() && p != nullptr) { Engine e; forget(p, malloc_usable_size(p)); }
  __libc_free(p);
}
void* calloc(size_t const n, size_t const m) noexcept {
  auto* const p = __libc_calloc(n, m);
  if (active() && p != nullptr) { Engine e; forget(p, n * m); }
  return p;
}
void* realloc(void* const o, size_t const n) noexcept {
  if (active() && o != nullptr) { Engine e; forget(o, malloc_usable_size(o)); }
  auto* const p = __libc_realloc(o, n);
  if (active() && p != nullptr) { Engine e; forget(p, n); }
  return p;
}

// ---------------------------------------------------------------- instrumentation
#define PC reinterpret_cast<uptr>(__builtin_return_address(0))
#define PLAIN(n)                                                                                                   \
  void __tsan_read##n(void* a) { if (active()) { Engine e; access((uptr)a, n, false, PC); } }                       \
  void __tsan_write##n(void* a) { if (active()) { Engine e; access((uptr)a, n, true, PC); } }                       \
  void __tsan_read_write##n(void* a) { if (active()) { Engine e; access((uptr)a, n, true, PC); } }                  \
  void __tsan_unaligned_read##n(void* a) { if (active()) { Engine e; access((uptr)a, n, false, PC); } }             \
  void __tsan_unaligned_write##n(void* a) { if (active()) { Engine e; access((uptr)a, n, true, PC); } }             \
  void __tsan_unaligned_read_write##n(void* a) { if (active()) { Engine e; access((uptr)a, n, true, PC); } }        \
  void __tsan_volatile_read##n(void* a) { if (active()) { Engine e; access((uptr)a, n, false, PC); } }              \
  void __tsan_volatile_write##n(void* a) { if (active()) { Engine e; access((uptr)a, n, true, PC); } }              \
  void __tsan_unaligned_volatile_read##n(void* a) { if (active()) { Engine e; access((uptr)a, n, false, PC); } }    \
  void __tsan_unaligned_volatile_write##n(void* a) { if (active()) { Engine e; access((uptr)a, n, true, PC); } }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** a, void* v) { if (*a != v && active()) { Engine e; access((uptr)a, 8, true, PC); } }
void __tsan_vptr_read(void** a) { if (active()) { Engine e; access((uptr)a, 8, false, PC); } }
void __tsan_read_range(void* a, uptr n) { if (n != 0 && active()) { Engine e; access((uptr)a, (unsigned)n, false, PC); } }
void __tsan_write_range(void* a, uptr n) { if (n != 0 && active()) { Engine e; access((uptr)a, (unsigned)n, true, PC); } }
void* __tsan_memcpy(void* d, void const* s, uptr n) {
  if (n != 0 && n < 65536 && active()) { Engine e; access((uptr)s, (unsigned)n, false, PC); access((uptr)d, (unsigned)n, true, PC); }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, void const* s, uptr n) {
  if (n != 0 && n < 65536 && active()) { Engine e; access((uptr)s, (unsigned)n, false, PC); access((uptr)d, (unsigned)n, true, PC); }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, uptr n) {
  if (n != 0 && n < 65536 && active()) { Engine e; access((uptr)d, (unsigned)n, true, PC); }
  return memset(d, v, n);
}

// memory orders as the instrumentation passes them: relaxed, consume, acquire, release, acq_rel, seq_cst
static bool acq(int const mo) { return mo == 1 || mo == 2 || mo >= 4; }
static bool rel(int const mo) { return mo >= 3; }
static void before_load(uptr const a, int const mo) {
  auto const it = w->atomics.find(a);
  if (it == w->atomics.end()) return;
  if (acq(mo)) acquire(it->second);
  else self->acq_pending.join(it->second);
}
static void at_store(uptr const a, int const mo, bool const rmw) {
  if (rel(mo)) {
    auto& v = w->atomics[a];
    if (rmw) release_to(v);
    else release_store(v);
  } else if (self->has_rel_fence) {
    auto& v = w->atomics[a];
    if (rmw) v.join(self->rel_fence);
    else v = self->rel_fence;
  } else if (!rmw) {
    w->atomics.erase(a);
  }
}

#define ATOMIC(bits, T)                                                                                            \
  T __tsan_atomic##bits##_load(T const volatile* a, int mo) {                                                      \
    if (active()) { Engine e; schedule_point(); before_load((uptr)a, mo); }                                        \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                   \
  }                                                                                                                \
  void __tsan_atomic##bits##_store(T volatile* a, T v, int mo) {                                                   \
    if (active()) { Engine e; schedule_point(); at_store((uptr)a, mo, false); }                                    \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                \
  RMW(bits, T, exchange, __atomic_exchange_n)                                                                      \
  RMW(bits, T, fetch_add, __atomic_fetch_add)                                                                      \
  RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                                      \
  RMW(bits, T, fetch_and, __atomic_fetch_and)                                                                      \
  RMW(bits, T, fetch_or, __atomic_fetch_or)                                                                        \
  RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                                      \
  RMW(bits, T, fetch_nand, __atomic_fetch_nand)                                                                    \
  static bool cas##bits(T volatile* a, T* c, T v, int mo, int fmo, bool weak) {                                    \
    if (!active()) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
    Engine e;                                                                                                      \
    schedule_point();                                                                                              \
    auto const cur = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                         \
    if (cur == *c && !(weak && w->spurious && w->steps < kFairAfter && w->c->below(12) == 11)) {                   \
      before_load((uptr)a, mo);                                                                                    \
      at_store((uptr)a, mo, true);                                                                                 \
      __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                    \
      return true;                                                                                                 \
    }                                                                                                              \
    before_load((uptr)a, fmo);                                                                                     \
    *c = cur;                                                                                                      \
    return false;                                                                                                  \
  }                                                                                                                \
  int __tsan_atomic##bits##_compare_exchange_strong(T volatile* a, T* c, T v, int mo, int fmo) {                   \
    return cas##bits(a, c, v, mo, fmo, false);                                                                     \
  }                                                                                                                \
  int __tsan_atomic##bits##_compare_exchange_weak(T volatile* a, T* c, T v, int mo, int fmo) {                     \
    return cas##bits(a, c, v, mo, fmo, true);                                                                      \
  }                                                                                                                \
  T __tsan_atomic##bits##_compare_exchange_val(T volatile* a, T c, T v, int mo, int fmo) {                         \
    cas##bits(a, &c, v, mo, fmo, false);                                                                           \
    return c;                                                                                                      \
  }
#define RMW(bits, T, name, op)                                                                                     \
  T __tsan_atomic##bits##_##name(T volatile* a, T v, int mo) {                                                     \
    if (active()) { Engine e; schedule_point(); before_load((uptr)a, mo); at_store((uptr)a, mo, true); }           \
    return op(a, v, __ATOMIC_SEQ_CST);                                                                             \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned)
ATOMIC(64, unsigned long)

void __tsan_atomic_thread_fence(int mo) {
  if (!active()) return;
  Engine e;
  schedule_point();
  if (acq(mo)) acquire(self->acq_pending);
  if (rel(mo)) { self->rel_fence = self->vc; self->has_rel_fence = true; tick(*self); }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
