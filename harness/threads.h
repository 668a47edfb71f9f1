// Thread schedules for the harnesses of the tsan variant: the worker threads
// are delayed at random around the locks, and the order in which the locks are
// taken is recorded. The recording uses relaxed atomics only, which order
// nothing and therefore hide no race.
#ifndef VF_THREADS_H
#define VF_THREADS_H
#ifdef VF_THREADS
#include "vf.h"
#include "mlir/IR/AffineExpr.h"
#include "mlir/IR/AffineMap.h"
#include "mlir/IR/MLIRContext.h"
#include "llvm/Support/ThreadPool.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

namespace vf {
struct Schedule {
  static constexpr unsigned N = 4096;
  std::atomic<uint8_t> order[N];
  std::atomic<unsigned> events{0};
  std::atomic<unsigned> threads{0};
  std::atomic<uint64_t> seed{0};
  std::atomic<int> level{0};
};
inline Schedule &schedule() {
  static Schedule s;
  return s;
}
struct ThreadState {
  unsigned id;
  uint64_t x, seed = 0;
  ThreadState()
      : id(schedule().threads.fetch_add(1, std::memory_order_relaxed)) {}
};
inline ThreadState &me() {
  static thread_local ThreadState t;
  return t;
}
inline void perturb() {
  auto &s = schedule();
  auto &t = me();
  uint64_t seed = s.seed.load(std::memory_order_relaxed);
  if (t.seed != seed) {
    t.seed = seed;
    t.x = seed * 0x9e3779b97f4a7c15ull + t.id * 0xbf58476d1ce4e5b9ull + 1;
  }
  t.x ^= t.x << 13;
  t.x ^= t.x >> 7;
  t.x ^= t.x << 17;
  int level = s.level.load(std::memory_order_relaxed);
  unsigned d = (t.x >> 20) & 255;
  if (level == 0)
    return;
  if (level == 1) {
    if (d < 64)
      sched_yield();
  } else if (level == 2) {
    if (d < 32)
      usleep(1 + (d & 31));
    else if (d < 128)
      sched_yield();
  } else if (t.id % 3 == (seed >> 8) % 3 && d < 96)
    usleep(20 + d); // one thread is slow
}
inline void locked() {
  auto &s = schedule();
  unsigned n = s.events.fetch_add(1, std::memory_order_relaxed);
  s.order[n % Schedule::N].store(me().id, std::memory_order_relaxed);
}
inline mlir::MLIRContext *threadedContext() {
  static mlir::MLIRContext *c = [] {
    auto *m = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
    auto strategy = llvm::hardware_concurrency(4);
    strategy.Limit = false;
    m->setThreadPool(*new llvm::StdThreadPool(strategy));
    // The uniquer of libMLIR, which is not instrumented, publishes its shards
    // through atomics that the detector cannot see: create them all here.
    for (int i = 0; i < 2000; ++i) {
      auto d = mlir::getAffineDimExpr(i, m);
      auto k = mlir::getAffineConstantExpr(i - 1000, m);
      (void)mlir::AffineMap::get(i + 1, 0, d + k, m);
    }
    return m;
  }();
  return c;
}

// Runs a case under a random schedule; the schedule is part of its identity.
struct RegisterThreaded {
  RegisterThreaded(const char *prop, const char *name, uint64_t quick,
                   uint64_t thorough, const char *rule, CaseFn fn) {
    streams().push_back(
        {"C10", std::string(prop) + "-" + name, "at least two threads took a lock; identity: the order in which the "
         "threads took the locks, with the case", quick / 10 + 1, thorough / 8 + 1,
         [fn](Case &c) {
           auto &s = schedule();
           s.level.store(c.rng.in(0, 3), std::memory_order_relaxed);
           s.seed.store(c.rng.next() | 1, std::memory_order_relaxed);
           s.events.store(0, std::memory_order_relaxed);
           fn(c);
           unsigned n = s.events.load(std::memory_order_relaxed);
           c.count("locks taken", n);
           n = std::min(n, Schedule::N);
           std::string order;
           unsigned seen = 0, switches = 0;
           for (unsigned i = 0; i < n; ++i) {
             unsigned t = s.order[i].load(std::memory_order_relaxed);
             order += (char)t;
             if (t < 32)
               seen |= 1u << t;
             switches += i && order[i] != order[i - 1];
           }
           c.count("thread switches between locks", switches);
           c.nontriv = __builtin_popcount(seen) > 1;
           if (c.nontriv)
             c.count("cases with several threads at the locks");
           c.hash = hashStr(order) ^ (hashStr(c.text) * 31);
         }});
  }
};
#undef VF_STREAM
#define VF_STREAM(prop, name, q, t, rule)                                      \
  static void VF_CAT(vf_fn_, __LINE__)(vf::Case & c);                          \
  static vf::RegisterThreaded VF_CAT(vf_reg_, __LINE__)(                       \
      prop, name, q, t, rule, VF_CAT(vf_fn_, __LINE__));                       \
  static void VF_CAT(vf_fn_, __LINE__)(vf::Case & c)
} // namespace vf

// (linked with --wrap=pthread_mutex_lock: the locks of the code under test)
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *m);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  vf::perturb();
  int r = __real_pthread_mutex_lock(m);
  vf::locked();
  vf::perturb();
  return r;
}
#endif
#endif
