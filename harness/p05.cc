// P05: one progress tracker, several threads.
#include <bits/stdc++.h>

#include "pbt.h"
#include "schedule.h"
#include "utl/progress_tracker.h"

using namespace pbt;

namespace {
struct Setup {
  explicit Setup(Case& c) {
    switch (c.draw(3)) {
      case 0: in_high = c.below(8); break;
      case 1: in_high = c.below(30); break;
      case 2: in_high = 100; break;
      default: in_high = 1 + c.draw(1000); break;
    }
    if (c.chance(2, 3)) {
      low = static_cast<float>(c.below(100));
      high = low + static_cast<float>(c.below(101 - static_cast<std::size_t>(low)));
      mod = static_cast<float>(1 + c.below(20));
    }
    c.note("in_high ", in_high, ", out ", low, " to ", high, " in steps of ", mod);
  }
  void configure(utl::progress_tracker& t) const { t.out_bounds(low, high).out_mod(mod).in_high(in_high); }
  // what a tracker that saw only the final input shows
  float reference(std::size_t const in) const {
    auto t = utl::progress_tracker{[](utl::progress_tracker const&) {}};
    configure(t);
    t.update(in);
    return t.out_.load();
  }
  std::size_t in_high;
  float low = 0.F, high = 100.F, mod = 1.F;
};
}  // namespace

PROP(concurrent_updates, 6) {
  auto const s = Setup{c};
  auto const threads = 2 + c.below(3);
  auto const monotonic = c.flip();
  auto const with_status = c.chance(1, 3);  // one more thread changes the status
  auto const start = c.chance(1, 3) ? c.below(s.in_high + 1) : 0;
  auto plan = std::vector<std::vector<std::size_t>>{};
  auto sum = start, top = start;
  auto total = std::size_t{0};
  for (auto i = std::size_t{0}; i != threads; ++i) {
    plan.emplace_back();
    for (auto k = c.below(5); k != 0; --k) {
      auto const v = monotonic ? c.below(s.in_high + 3) : c.chance(2, 3) ? std::size_t{1} : c.below(s.in_high / 2 + 3);
      plan.back().push_back(v);
      sum += v;
      top = std::max(top, v);
      ++total;
    }
  }
  c.note(monotonic ? "monotonic updates " : "increments ", str(plan), " on ", start, with_status ? ", status changes" : "");
  c.label(monotonic ? "monotonic updates" : "increments");
  c.label_if(with_status, "status changes at the same time");
  c.nontrivial(std::count_if(plan.begin(), plan.end(), [](auto const& p) { return !p.empty(); }) >= 2);
  auto const ref_start = s.reference(start);
  sched::run(c, [&] {
    auto log = std::atomic<unsigned>{0};
    // set by the observer of the thread that made the change
    auto t = utl::progress_tracker{[&](utl::progress_tracker const& x) {
      auto const out = x.out_.load();
      if (out < s.low || out > s.high) sched::report("the percentage is out of bounds: " + std::to_string(out));
      ++log;
    }};
    s.configure(t);
    if (start != 0) t.update(start);
    auto const before = log.load();
    if (start != 0) CHECK_EQ(t.out_.load(), ref_start);
    auto pool = std::vector<std::thread>{};
    for (auto const& p : plan) {
      pool.emplace_back([&] {
        auto last = t.out_.load();
        auto const inc = t.increment_fn();
        auto const upd = t.update_fn();
        for (auto const v : p) {
          if (monotonic) {
            v % 2 == 0 ? upd(v) : t.update_monotonic(v);
          } else if (v == 1) {
            inc();
          } else {
            t.increment(v);
          }
          auto const now = t.out_.load();
          // inputs only grow
          if (now < last) sched::report("the percentage fell from " + std::to_string(last) + " to " + std::to_string(now));
          // and this thread's own update is in
          if (monotonic && t.in_.load() < v) sched::report("an update is lost");
          last = now;
        }
      });
    }
    if (with_status) {
      pool.emplace_back([&] {
        for (auto k = 0; k != 2; ++k) t.status(k == 0 ? "working" : "still working").show_progress(k != 0);
      });
    }
    for (auto& p : pool) p.join();
    auto const in = monotonic ? top : sum;
    CHECK_EQ(t.in_.load(), in, "the final input");
    CHECK_EQ(t.out_.load(), total == 0 && start == 0 ? s.low : s.reference(in), "the final percentage for ", in, " of ", s.in_high);
    if (t.out_.load() != (start == 0 ? s.low : ref_start)) CHECK(log.load() > before, "the percentage changed, but the observer was not called");
    if (with_status) CHECK_EQ(t.status_, std::string{"still working"});
  });
}

// the observer is called by every thread that changed the percentage, after
// the change: what the last observer to look saw is the final percentage
PROP(observers_see_the_end, 3) {
  auto const s = Setup{c};
  auto const threads = 2 + c.below(3);
  auto const each = 1 + c.below(3);
  c.note(threads, " threads, ", each, " increments each");
  c.nontrivial();
  sched::run(c, [&] {
    auto m = std::mutex{};
    auto shown = s.low;
    auto t = utl::progress_tracker{[&](utl::progress_tracker const& x) {
      auto const lk = std::lock_guard{m};
      shown = x.out_.load();
    }};
    s.configure(t);
    auto pool = std::vector<std::thread>{};
    for (auto i = std::size_t{0}; i != threads; ++i) {
      pool.emplace_back([&] { for (auto k = std::size_t{0}; k != each; ++k) t.increment(); });
    }
    for (auto& p : pool) p.join();
    CHECK_EQ(shown, t.out_.load(), "the percentage shown last");
    CHECK_EQ(shown, s.reference(threads * each), "the final percentage");
  });
}
