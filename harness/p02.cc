// P02: errors in parallel loops.
#include <bits/stdc++.h>

#include "pbt.h"
#include "schedule.h"
#include "utl/parallel_for.h"

using namespace pbt;

namespace {
struct Odd : std::runtime_error {
  Odd(std::size_t const i, bool const p) : std::runtime_error{(p ? "progress " : "job ") + std::to_string(i)}, job{i}, in_progress{p} {}
  std::size_t job;
  bool in_progress;
};
struct Null : std::streambuf {
  int overflow(int const ch) override { return ch; }
  std::streamsize xsputn(char const*, std::streamsize const n) override { return n; }
} null_buf;

struct Setup {
  explicit Setup(Case& c) : Setup(c, c.below(c.chance(1, 6) ? 25 : 9)) {}
  Setup(Case& c, std::size_t const jobs) : n{jobs}, hw(static_cast<unsigned>(c.below(5))), quit{c.flip()} {
    auto bulk = c.bulk();
    auto const varied = n < 100;
    auto const density = c.of({1U, 2U, 4U, 9U, 10U});
    for (auto i = std::size_t{0}; i != n; ++i) {
      work.push_back(varied ? static_cast<unsigned>(c.below(3)) : 0U);
      // 0: succeeds, 1: the job fails, 2: the progress report fails
      auto const f = varied ? (c.chance(density, 10) ? static_cast<int>(1 + c.below(2)) : 0)
                            : (bulk(9) < density ? static_cast<int>(1 + bulk(1)) : 0);
      fails.push_back(f);
      any = any || f != 0;
    }
    begun.resize(n);
    ended.resize(n);
    reported.resize(n);
    thread.resize(n);
    threw_on.fill(0);
    late.fill(0);
    sched::hardware_threads(hw);
    if (!varied) sched::expect_long(60 * n);
    c.note(n, " jobs, ", hw, " hardware threads, ", quit ? "quit" : "continue", ", failing (1: job, 2: progress) ", varied ? str(fails) : "many");
    c.label(quit ? "quitting" : "continuing");
    auto const k = std::count_if(fails.begin(), fails.end(), [](int const x) { return x != 0; });
    c.label_if(k == 0, "nothing fails");
    c.label_if(k >= 2, "several failures");
    c.label_if(k == static_cast<long>(n) && n != 0, "all jobs fail");
    c.nontrivial(k >= 1 && n >= 2 && hw >= 2);
  }
  void job(std::size_t const i) {
    if (i >= n) return sched::report("a job outside the range was called");
    if (quit && threw_on[sched::self()] != 0) sched::report("a thread goes on behind its error when quitting");
    // once a thread has ended (by an error, or as no job is left), every other
    // thread starts no more than the job it was about to take
    if (quit && sched::live() < 1 + sched::started() && ++late[sched::self()] > 1) sched::report("jobs go on behind an error when quitting");
    ++begun[i];
    thread[i] = sched::self();
    for (auto k = 0U; k != work[i]; ++k) sched::point();
    if (begun[i] != 1) sched::report("job " + std::to_string(i) + " was started twice");
    if (fails[i] == 1) { ++threw_on[sched::self()]; throw Odd{i, false}; }
    ++ended[i];
  }
  void progress(std::size_t const i) {
    if (i >= n) return sched::report("progress for a job outside the range");
    if (ended[i] != 1) sched::report("progress for a job that has not ended: " + std::to_string(i));
    ++reported[i];
    if (fails[i] == 2) { ++threw_on[sched::self()]; throw Odd{i, true}; }
  }
  template <typename F>
  void check(F&& loop) {
    auto errors = utl::errors_t{};
    auto thrown = std::optional<Odd>{};
    try {
      errors = loop(quit ? utl::parallel_error_strategy::QUIT_EXEC : utl::parallel_error_strategy::CONTINUE_EXEC);
    } catch (Odd const& e) {
      thrown = e;
    }
    CHECK_EQ(sched::live(), 1U, "threads are left running");
    for (auto i = std::size_t{0}; i != n; ++i) {
      CHECK(begun[i] <= 1 && ended[i] <= 1 && reported[i] <= 1, "job ", i, " ran twice");
      CHECK_EQ(ended[i], fails[i] == 1 ? 0 : begun[i], "job ", i, " was started but did not end");
      CHECK_EQ(reported[i], ended[i], "progress of job ", i);
      if (!quit || !any) CHECK_EQ(begun[i], 1, "job ", i, " did not run");
    }
    if (quit) {
      CHECK_EQ(thrown.has_value(), any, "an exception");
      CHECK_EQ(errors.size(), 0U);
      if (thrown) {
        CHECK(thrown->job < n && fails[thrown->job] == (thrown->in_progress ? 2 : 1) && begun[thrown->job] == 1, "unexpected exception ", thrown->what());
      }
    } else {
      CHECK(!thrown.has_value(), "an exception escaped although jobs continue: ", thrown ? thrown->what() : "");
      auto seen = std::vector<int>(n);
      for (auto const& [i, e] : errors) {
        CHECK(i < n, "an error record for job ", i);
        ++seen[i];
        CHECK(e != nullptr, "an error record without exception");
        try {
          std::rethrow_exception(e);
        } catch (Odd const& x) {
          CHECK_EQ(x.job, i, "exception of another job in the record");
          CHECK_EQ(x.in_progress, fails[i] == 2);
          CHECK_EQ(std::string{x.what()}, (x.in_progress ? "progress " : "job ") + std::to_string(i), "message");
        }
      }
      for (auto i = std::size_t{0}; i != n; ++i) CHECK_EQ(seen[i], fails[i] != 0 ? 1 : 0, "error records for job ", i);
    }
  }
  std::size_t n;
  unsigned hw;
  bool quit, any = false;
  std::vector<unsigned> work;
  std::vector<int> fails, begun, ended, reported;
  std::vector<unsigned> thread;
  std::array<int, 64> threw_on, late;
};
struct Local {
  int x = 0;
};
}  // namespace

static void records(Case& c, Setup& s) {
  auto const kind = c.draw(4);
  auto values = std::vector<std::size_t>(s.n);
  std::iota(values.begin(), values.end(), std::size_t{0});
  auto const progress = [&](std::size_t const i) { s.progress(i); };
  auto* const old = std::clog.rdbuf(&null_buf);
  auto const restore = std::unique_ptr<int, std::function<void(int*)>>(new int, [&](int* p) { delete p; std::clog.rdbuf(old); });
  sched::run(c, [&] {
    s.check([&](utl::parallel_error_strategy const e) {
      switch (kind) {
        case 0: return utl::parallel_for_run(s.n, [&](std::size_t const i) { s.job(i); }, progress, e);
        case 1: return utl::parallel_for_run_threadlocal<Local>(s.n, [&](Local& l, std::size_t const i) { ++l.x; s.job(i); }, progress, e);
        case 2: return utl::parallel_for(values, [&](std::size_t& i) { s.job(i); }, progress, e);
        case 3: return utl::parallel_for(std::as_const(values), [&](std::size_t const& i) { s.job(i); }, progress, e);
        default: return utl::parallel_for("jobs", std::as_const(values), std::size_t{3}, [&](std::size_t const i) { s.job(i); }, progress, e);
      }
    });
  });
}

PROP(records_and_exceptions, 5) {
  auto s = Setup{c};
  records(c, s);
}

PROP_HUGE(many_jobs, 60) {
  auto s = Setup{c, c.huge(70000)};
  records(c, s);
}

// without a strategy: quit
PROP(default_strategy, 1) {
  auto s = Setup{c};
  s.quit = true;
  for (auto& f : s.fails) f = f != 0 ? 1 : 0;
  auto const kind = c.draw(4);
  auto values = std::vector<std::size_t>(s.n);
  std::iota(values.begin(), values.end(), std::size_t{0});
  auto* const old = std::clog.rdbuf(&null_buf);
  auto const restore = std::unique_ptr<int, std::function<void(int*)>>(new int, [&](int* p) { delete p; std::clog.rdbuf(old); });
  sched::run(c, [&] {
    s.check([&](utl::parallel_error_strategy) {
      auto const fn = [&](std::size_t const i) { s.job(i); if (s.fails[i] == 0) ++s.reported[i]; };
      switch (kind) {
        case 0: return utl::parallel_for_run(s.n, fn);
        case 1: return utl::parallel_for_run_threadlocal<Local>(s.n, [&](Local&, std::size_t const i) { fn(i); });
        case 2: return utl::parallel_for(values, fn);
        case 3: return utl::parallel_for("jobs", values, std::size_t{2}, fn);
        default: return utl::parallel_for(std::as_const(values), fn);
      }
    });
  });
}
