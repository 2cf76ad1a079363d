// P01: parallel loops run every job exactly once.
#include <bits/stdc++.h>

#include "pbt.h"
#include "schedule.h"
#include "utl/parallel_for.h"

using namespace pbt;

namespace {
// what happened, written without synchronisation: a job that runs twice, or
// that still runs when the loop has returned, is a data race as well
struct Log {
  explicit Log(std::size_t const n) : begun(n), ended(n), reported(n), thread(n) {}
  void run(std::size_t const i, unsigned const work) {
    if (i >= begun.size()) {
      sched::report("a job outside the range was called: " + std::to_string(i));
      return;
    }
    ++begun[i];
    thread[i] = sched::self();
    for (auto k = 0U; k != work; ++k) sched::point();
    if (begun[i] != 1) sched::report("job " + std::to_string(i) + " was started twice");
    ++ended[i];
  }
  void progress(std::size_t const i) {
    if (i >= reported.size()) {
      sched::report("progress for a job outside the range: " + std::to_string(i));
      return;
    }
    if (ended[i] != 1) sched::report("progress for a job that has not ended: " + std::to_string(i));
    if (++reported[i] != 1) sched::report("progress reported twice for job " + std::to_string(i));
  }
  void finished(bool const with_progress) {
    CHECK_EQ(sched::live(), 1U, "threads are left running");
    auto const once = std::vector<int>(begun.size(), 1);
    CHECK_EQ(begun, once, "starts per job");
    CHECK_EQ(ended, once, "ends per job");
    if (with_progress) CHECK_EQ(reported, once, "reports per job");
  }
  std::vector<int> begun, ended, reported;
  std::vector<unsigned> thread;
};

struct Setup {
  explicit Setup(Case& c) : Setup(c, c.below(c.chance(1, 6) ? 30 : 9)) {}
  Setup(Case& c, std::size_t const jobs) : n{jobs}, hw(static_cast<unsigned>(c.below(5))), log{n} {
    auto const varied = n < 100;
    for (auto i = std::size_t{0}; i != n; ++i) work.push_back(varied ? static_cast<unsigned>(c.below(3)) : 0U);
    sched::hardware_threads(hw);
    if (!varied) sched::expect_long(60 * n);
    c.note(n, " jobs, ", hw, " hardware threads");
    c.label_if(hw == 0, "unknown number of hardware threads");
    c.label_if(n < hw, "more threads than jobs");
    c.label_if(n == 0, "no jobs");
  }
  std::size_t n;
  unsigned hw;
  std::vector<unsigned> work;
  Log log;
};

void done(Case& c, Setup const& s) {
  auto const threads = std::set<unsigned>(s.log.thread.begin(), s.log.thread.end());
  c.label_if(threads.size() >= 2, "jobs on several threads");
  c.nontrivial(s.n >= 2 && s.hw >= 2);
}

struct Null : std::streambuf {
  int overflow(int const ch) override { return ch; }
  std::streamsize xsputn(char const*, std::streamsize const n) override { return n; }
} null_buf;

struct Local {
  Local() : owner{sched::self()} { at = constructed++; alive[at] = 1; }
  Local(Local const&) = delete;
  Local& operator=(Local const&) = delete;
  ~Local() {
    if (owner != sched::self()) sched::report("thread-local state destroyed by another thread");
    jobs[at] = count;
    alive[at] = 0;
  }
  unsigned owner;
  unsigned at;
  int count = 0;
  static std::atomic<unsigned> constructed;
  static std::array<int, 64> alive, jobs;
};
std::atomic<unsigned> Local::constructed{0};
std::array<int, 64> Local::alive{}, Local::jobs{};
}  // namespace

PROP(indices, 4) {
  auto s = Setup{c};
  auto const kind = c.draw(2);
  unsigned long steps = 0;
  sched::run(c, [&] {
    auto const fn = [&](std::size_t const i) { s.log.run(i, s.work[std::min(i, s.n)]); };
    auto progress = [&](std::size_t const i) { s.log.progress(i); };
    s.work.push_back(0);
    auto errors = utl::errors_t{};
    switch (kind) {
      case 0: errors = utl::parallel_for_run(s.n, fn); break;
      case 1: errors = utl::parallel_for_run(s.n, fn, progress); break;
      default: errors = utl::parallel_for_run(s.n, fn, [&](std::size_t const i) { s.log.progress(i); }, utl::parallel_error_strategy::CONTINUE_EXEC); break;
    }
    CHECK_EQ(errors.size(), 0U, "errors without any failure");
    s.log.finished(kind != 0);
    steps = sched::steps();
  });
  done(c, s);
}

PROP(thread_local_state, 3) {
  auto s = Setup{c};
  Local::constructed = 0;
  Local::alive.fill(0);
  Local::jobs.fill(0);
  auto const progress = c.flip();
  sched::run(c, [&] {
    s.work.push_back(0);
    auto const fn = [&](Local& l, std::size_t const i) {
      if (l.owner != sched::self()) sched::report("thread-local state of another thread");
      if (Local::alive[l.at] != 1) sched::report("thread-local state is gone");
      ++l.count;
      s.log.run(i, s.work[std::min(i, s.n)]);
    };
    auto const errors = progress ? utl::parallel_for_run_threadlocal<Local>(s.n, fn, [&](std::size_t const i) { s.log.progress(i); })
                                 : utl::parallel_for_run_threadlocal<Local>(s.n, fn);
    CHECK_EQ(errors.size(), 0U, "errors without any failure");
    s.log.finished(progress);
    CHECK_EQ(std::accumulate(Local::alive.begin(), Local::alive.end(), 0), 0, "thread-local states outlive the loop");
    CHECK_EQ(std::accumulate(Local::jobs.begin(), Local::jobs.end(), 0), static_cast<int>(s.n), "jobs seen by the thread-local states");
  });
  done(c, s);
}

PROP(elements, 4) {
  auto s = Setup{c};
  auto const kind = c.draw(5);
  auto const progress = c.flip();
  auto values = std::vector<int>(s.n);
  std::iota(values.begin(), values.end(), 0);
  sched::run(c, [&] {
    auto const visit = [&](int const v) { s.log.run(static_cast<std::size_t>(v), v >= 0 && static_cast<std::size_t>(v) < s.n ? s.work[static_cast<std::size_t>(v)] : 0); };
    auto const call = [&](auto&& jobs, auto&& fn) {
      auto const errors = progress ? utl::parallel_for(jobs, fn, [&](std::size_t const i) { s.log.progress(i); }) : utl::parallel_for(jobs, fn);
      CHECK_EQ(errors.size(), 0U, "errors without any failure");
    };
    switch (kind) {
      case 0: {  // elements are modified in place
        auto copy = values;
        call(copy, [&](int& x) { visit(x); x += 1000; });
        for (auto i = std::size_t{0}; i != s.n; ++i) CHECK_EQ(copy[i], static_cast<int>(i) + 1000, "element after the loop");
        break;
      }
      case 1: call(std::as_const(values), visit); break;
      case 2: { auto const l = std::list<int>(values.begin(), values.end()); call(l, visit); break; }
      case 3: { auto const l = std::set<int>(values.begin(), values.end()); call(l, visit); break; }
      case 4: {
        auto d = std::deque<std::unique_ptr<int>>{};
        for (auto const v : values) d.push_back(std::make_unique<int>(v));
        call(d, [&](std::unique_ptr<int>& x) { visit(*x); x = nullptr; });
        for (auto const& x : d) CHECK(x == nullptr, "an element was not visited");
        break;
      }
      default: { auto const l = std::map<int, int>{[&] { auto m = std::map<int, int>{}; for (auto const v : values) m.emplace(v, v); return m; }()}; call(l, [&](std::pair<int const, int> const& p) { visit(p.second); }); break; }
    }
    s.log.finished(progress);
  });
  done(c, s);
}

// the variant that logs
PROP(logged, 1) {
  auto s = Setup{c};
  auto const mod = 1 + c.below(5);
  auto const progress = c.flip();
  auto values = std::vector<int>(s.n);
  std::iota(values.begin(), values.end(), 0);
  auto const desc = c.text(c.len(5), "ab {}%");
  auto text = std::ostringstream{};
  auto const one = s.hw <= 1;  // lines of several threads may be mixed
  auto* const old = std::clog.rdbuf(one ? static_cast<std::streambuf*>(text.rdbuf()) : &null_buf);
  auto const restore = std::unique_ptr<int, std::function<void(int*)>>(new int, [&](int* p) { delete p; std::clog.rdbuf(old); });
  sched::run(c, [&] {
    auto const visit = [&](int const v) { s.log.run(static_cast<std::size_t>(v), s.work[static_cast<std::size_t>(v)]); };
    auto const errors = progress ? utl::parallel_for(desc, values, mod, visit, [&](std::size_t const i) { s.log.progress(i); })
                                 : utl::parallel_for(desc, values, mod, visit);
    CHECK_EQ(errors.size(), 0U);
    s.log.finished(progress);
  });
  if (one) {
    auto const t = text.str();
    auto at = std::size_t{0};
    auto lines = std::size_t{0};
    for (auto i = std::size_t{0}; i < s.n; i += mod) {
      auto const want = desc + " " + std::to_string(i) + "/" + std::to_string(s.n) + "\n";
      auto const p = t.find(want, at);
      CHECK(p != std::string::npos, quote(want), " missing in ", quote(t));
      at = p + want.size();
      ++lines;
    }
    CHECK_EQ(static_cast<std::size_t>(std::count(t.begin(), t.end(), '\n')), lines, "lines of the log");
  }
  done(c, s);
}

namespace {
// everybody waits until all have come
struct Meeting {
  explicit Meeting(std::size_t const n) : missing{n} {}
  void come() {
    auto lk = std::unique_lock{m};
    if (--missing == 0) cv.notify_all();
    cv.wait(lk, [&] { return missing == 0; });
  }
  std::size_t missing;
  std::mutex m;
  std::condition_variable cv;
};
}  // namespace

// as many jobs as hardware threads are in progress at once: jobs that wait for
// each other finish (otherwise the scheduler sees a deadlock)
PROP(at_once, 1) {
  auto const hw = static_cast<unsigned>(2 + c.below(3));
  auto const n = 2 + c.below(hw - 1);
  auto const kind = c.draw(2);
  auto const lead = c.below(4);  // jobs ahead of those that meet
  sched::hardware_threads(hw);
  c.note(n, " jobs wait for each other behind ", lead, " others, ", hw, " hardware threads");
  c.nontrivial();
  auto values = std::vector<std::size_t>(lead + n);
  std::iota(values.begin(), values.end(), std::size_t{0});
  sched::run(c, [&] {
    auto meeting = Meeting{n};
    auto const fn = [&](std::size_t const i) { if (i >= lead) meeting.come(); };
    switch (kind) {
      case 0: utl::parallel_for_run(lead + n, fn); break;
      case 1: utl::parallel_for_run_threadlocal<int>(lead + n, [&](int&, std::size_t const i) { fn(i); }); break;
      default: utl::parallel_for(std::as_const(values), fn); break;
    }
    CHECK_EQ(meeting.missing, 0U);
  });
}

// job counts around the limits of narrow counters
PROP_HUGE(many_jobs, 60) {
  auto s = Setup{c, c.huge(70000)};
  auto const kind = c.draw(4);
  auto const mod = c.of({std::size_t{1}, std::size_t{7}, std::size_t{1000}, s.n});
  auto values = std::vector<std::size_t>(s.n);
  std::iota(values.begin(), values.end(), std::size_t{0});
  auto* const old = std::clog.rdbuf(&null_buf);
  auto const restore = std::unique_ptr<int, std::function<void(int*)>>(new int, [&](int* p) { delete p; std::clog.rdbuf(old); });
  sched::run(c, [&] {
    auto const fn = [&](std::size_t const i) { s.log.run(i, 0); };
    auto const progress = [&](std::size_t const i) { s.log.progress(i); };
    auto errors = utl::errors_t{};
    switch (kind) {
      case 0: errors = utl::parallel_for_run(s.n, fn, progress); break;
      case 1: errors = utl::parallel_for_run_threadlocal<int>(s.n, [&](int& l, std::size_t const i) { ++l; fn(i); }, progress); break;
      case 2: errors = utl::parallel_for(values, fn, progress); break;
      case 3: errors = utl::parallel_for(std::as_const(values), fn, progress); break;
      default: errors = utl::parallel_for("jobs", values, mod, fn, progress); break;
    }
    CHECK_EQ(errors.size(), 0U);
    s.log.finished(true);
  });
  done(c, s);
}
