// P03: thread pools.
#include <bits/stdc++.h>

#include "pbt.h"
#include "schedule.h"
#include "utl/thread_pool.h"

using namespace pbt;

namespace {
struct PerThread {
  int init = 0, fin = 0, jobs = 0;
};
}  // namespace

PROP(rounds, 5) {
  auto const hw = static_cast<unsigned>(c.below(5));
  auto const rounds = c.below(5);
  auto counts = std::vector<std::size_t>{};
  auto work = std::vector<std::vector<unsigned>>{};
  for (auto r = std::size_t{0}; r != rounds; ++r) {
    counts.push_back(c.below(c.chance(1, 8) ? 20 : 6));
    work.emplace_back();
    for (auto i = std::size_t{0}; i != counts.back(); ++i) work.back().push_back(static_cast<unsigned>(c.below(3)));
  }
  auto const init_work = static_cast<unsigned>(c.below(3)), fin_work = static_cast<unsigned>(c.below(3));
  auto const with_init = c.chance(3, 4);
  auto const pause = c.below(3);
  c.note(hw, " hardware threads, jobs per round ", str(counts));
  auto const total = std::accumulate(counts.begin(), counts.end(), std::size_t{0});
  c.nontrivial(hw >= 2 && total >= 2);
  c.label_if(rounds >= 2, "several rounds");
  c.label_if(rounds == 0, "destroyed at once");
  c.label_if(hw == 0, "unknown number of hardware threads");
  c.label_if(std::count(counts.begin(), counts.end(), std::size_t{0}) != 0, "empty round");
  sched::hardware_threads(hw);

  auto th = std::array<PerThread, 64>{};
  auto round = std::vector<int>(1, -1);  // the round in progress, no synchronisation of its own
  auto begun = std::vector<std::vector<int>>{}, ended = begun;
  for (auto const n : counts) { begun.emplace_back(n); ended.emplace_back(n); }
  auto workers = 0U;
  sched::run(c, [&] {
    {
      auto const init = [&] {
        auto& t = th[sched::self()];
        for (auto k = 0U; k != init_work; ++k) sched::point();
        if (++t.init != 1) sched::report("the initializer ran twice on one thread");
        if (t.jobs != 0) sched::report("the initializer ran behind a job");
      };
      auto const fin = [&] {
        auto& t = th[sched::self()];
        for (auto k = 0U; k != fin_work; ++k) sched::point();
        if (++t.fin != 1) sched::report("the finalizer ran twice on one thread");
        if (t.init != 1) sched::report("the finalizer ran without initializer");
      };
      auto const pool = with_init ? std::make_unique<utl::thread_pool>(init, fin) : std::make_unique<utl::thread_pool>();
      workers = sched::started();
      for (auto r = std::size_t{0}; r != rounds; ++r) {
        auto const n = counts[r];
        round[0] = static_cast<int>(r);
        for (auto k = std::size_t{0}; k != pause; ++k) sched::point();
        pool->execute(n, [&, r, n](std::size_t const i) {
          if (round[0] != static_cast<int>(r)) return sched::report("a job runs in another round");
          if (i >= n) return sched::report("a job outside the range was called: " + std::to_string(i));
          auto& t = th[sched::self()];
          if (sched::self() == 0 && with_init) sched::report("a job runs on the calling thread");
          if (with_init && t.init != 1) sched::report("a job runs before the initializer");
          if (t.fin != 0) sched::report("a job runs behind the finalizer");
          ++t.jobs;
          if (++begun[r][i] != 1) sched::report("a job was started twice");
          for (auto k = 0U; k != work[r][i]; ++k) sched::point();
          ++ended[r][i];
        });
        CHECK_EQ(begun[r], std::vector<int>(n, 1), "starts per job in round ", r);
        CHECK_EQ(ended[r], std::vector<int>(n, 1), "ends per job in round ", r);
        CHECK_EQ(sched::started(), workers, "threads started behind the constructor");
      }
    }
    CHECK_EQ(sched::live(), 1U, "threads are left running");
    CHECK(workers >= 1, "no threads");
    auto used = 0;
    for (auto i = 0U; i != th.size(); ++i) {
      if (with_init && i >= 1 && i <= workers) {
        CHECK_EQ(th[i].init, 1, "initializer calls on thread ", i);
        CHECK_EQ(th[i].fin, 1, "finalizer calls on thread ", i);
      } else {
        CHECK_EQ(th[i].init + th[i].fin, 0, "on thread ", i);
      }
      used += th[i].jobs != 0 ? 1 : 0;
    }
    c.label_if(used >= 2, "jobs on several threads");
  });
}

// as many jobs as workers are in progress at once: jobs that wait for each
// other finish (otherwise the scheduler sees a deadlock)
PROP(at_once, 1) {
  auto const hw = static_cast<unsigned>(2 + c.below(3));
  auto const rounds = 1 + c.below(3);
  auto counts = std::vector<std::size_t>{};
  for (auto r = std::size_t{0}; r != rounds; ++r) counts.push_back(1 + c.below(hw));
  sched::hardware_threads(hw);
  c.note(hw, " hardware threads, jobs that wait for each other in every round ", str(counts));
  c.nontrivial(*std::max_element(counts.begin(), counts.end()) >= 2);
  sched::run(c, [&] {
    auto pool = utl::thread_pool{};
    for (auto const n : counts) {
      auto missing = n;
      auto m = std::mutex{};
      auto cv = std::condition_variable{};
      pool.execute(n, [&](std::size_t) {
        auto lk = std::unique_lock{m};
        if (--missing == 0) cv.notify_all();
        cv.wait(lk, [&] { return missing == 0; });
      });
      CHECK_EQ(missing, 0U);
    }
  });
}

// job counts around the limits of narrow counters, the same pool for all rounds
PROP_HUGE(many_jobs, 60) {
  auto const hw = static_cast<unsigned>(1 + c.below(4));
  auto counts = std::vector<std::size_t>{};
  for (auto r = std::size_t{0}, n = 1 + c.below(2); r <= n; ++r) counts.push_back(c.flip() ? c.huge(70000) : c.below(4));
  sched::hardware_threads(hw);
  c.note(hw, " hardware threads, jobs per round ", str(counts));
  c.nontrivial(hw >= 2);
  sched::expect_long(60 * std::accumulate(counts.begin(), counts.end(), std::size_t{0}));
  sched::run(c, [&] {
    auto pool = utl::thread_pool{};
    for (auto const n : counts) {
      auto runs = std::vector<int>(n);
      pool.execute(n, [&](std::size_t const i) {
        if (i >= n) return sched::report("a job outside the range was called: " + std::to_string(i));
        ++runs[i];
      });
      CHECK_EQ(std::count(runs.begin(), runs.end(), 1), static_cast<long>(n), "jobs that ran once");
    }
  });
}
