// P06 with several threads: lookups, updates and drawing at the same time.
#include <bits/stdc++.h>

#include "p06.h"
#include "pbt.h"
#include "schedule.h"
#include "terminal.h"
#include "utl/progress_tracker.h"

using namespace pbt;

namespace {
struct Redirect {
  Redirect() : buf{term}, old{std::cout.rdbuf(&buf)} { utl::get_global_progress_trackers().clear(); }
  ~Redirect() {
    utl::get_global_progress_trackers().clear();
    std::cout.rdbuf(old);
  }
  Terminal term;
  TerminalBuf buf;
  std::streambuf* old;
};
struct Op {
  int kind;
  std::size_t name, value;
};
}  // namespace

PROP(threads, 5) {
  static auto const names = std::array<std::string, 3>{"one", "two", "a name of some length"};
  auto const threads = 2 + c.below(3);
  auto const silent = c.chance(1, 4);
  auto const ready = c.flip();  // the trackers exist already
  auto plan = std::vector<std::vector<Op>>{};
  auto sums = std::array<std::size_t, 3>{};
  auto activated = std::set<std::size_t>{};
  auto ensured = std::set<std::size_t>{};
  for (auto i = std::size_t{0}; i != threads; ++i) {
    plan.emplace_back();
    for (auto k = c.below(4); k != 0; --k) {
      auto const o = Op{static_cast<int>(c.draw(5)), c.below(3), 1 + c.below(40)};
      plan.back().push_back(o);
      c.note("thread ", i, ": op ", o.kind, " on ", names[o.name], " ", o.value);
      switch (o.kind) {
        case 0: break;
        case 1:
        case 2: sums[o.name] += o.value; break;
        case 3: break;
        case 4: activated.insert(o.name); break;
        default: ensured.insert(o.name); break;
      }
    }
  }
  c.label_if(silent, "silent");
  c.nontrivial(std::count_if(plan.begin(), plan.end(), [](auto const& p) { return !p.empty(); }) >= 2);
  sched::run(c, [&] {
    auto r = Redirect{};
    auto const bars = utl::global_progress_bars{silent};
    auto& g = utl::get_global_progress_trackers();
    if (ready) for (auto const& n : names) g.get_tracker(n);
    auto first = std::array<utl::progress_tracker_ptr, 3>{};
    auto m = std::mutex{};
    // what a lookup returns is the same for everybody
    auto const got = [&](std::size_t const n, utl::progress_tracker_ptr const& p) {
      auto const lk = std::lock_guard{m};
      if (p == nullptr) return sched::report("no tracker for a name");
      if (first[n] == nullptr) first[n] = p;
      if (first[n] != p) sched::report("two trackers for one name");
    };
    auto pool = std::vector<std::thread>{};
    for (auto i = std::size_t{0}; i != threads; ++i) {
      pool.emplace_back([&, i] {
        for (auto const& o : plan[i]) {
          auto const& n = names[o.name];
          switch (o.kind) {
            case 0: got(o.name, g.get_tracker(n)); break;
            case 1:
            case 2: {
              auto const t = g.get_tracker(n);
              got(o.name, t);
              t->increment(o.value);
              break;
            }
            case 3: {
              auto const t = g.get_tracker(n);
              got(o.name, t);
              t->status("busy").show_progress(o.value % 4 != 0);
              break;
            }
            case 4: got(o.name, utl::activate_progress_tracker(n)); break;
            default: {
              auto const t = utl::get_active_progress_tracker_or_activate(n);
              if (t == nullptr) sched::report("no active tracker");
              // once there is an active tracker it stays
              try {
                if (utl::get_active_progress_tracker() == nullptr) sched::report("no active tracker");
              } catch (std::runtime_error const&) {
                sched::report("the active tracker is gone");
              }
              if (o.value % 3 == 0) g.print();
              break;
            }
          }
        }
      });
    }
    for (auto& p : pool) p.join();
    for (auto n = std::size_t{0}; n != 3; ++n) {
      if (first[n] == nullptr) continue;
      CHECK(g.get_tracker(names[n]) == first[n], "another tracker for ", names[n]);
      CHECK_EQ(first[n]->in_.load(), sums[n], "work done on ", names[n]);
    }
    if (!activated.empty() || !ensured.empty()) {
      auto const a = utl::get_active_progress_tracker();
      auto ok = false;
      for (auto const n : activated) ok = ok || g.get_tracker(names[n]) == a;
      if (activated.empty()) for (auto const n : ensured) ok = ok || g.get_tracker(names[n]) == a;
      CHECK(ok, "the active tracker is none of those activated");
    }
    CHECK(r.buf.pending.empty(), "not flushed");
    CHECK(r.term.broken == nullptr, r.term.broken);
    if (silent) {
      CHECK(r.term.rows.empty(), "drawn while silent: ", str(r.term.text()));
      return;
    }
    // what is on the screen is one drawing: lines of the trackers in name order,
    // the final one if every tracker's last change has been drawn
    auto const text = r.term.text();
    g.print();
    auto want = std::vector<std::string>{};
    for (auto const& [n, t] : g.trackers_) want.push_back(draw_line(n, View{t->show_progress_, t->out_.load(), t->status_}));
    CHECK_EQ(r.term.text(), want, "the screen behind a last redraw");
    // nothing has changed since the threads ended: each change was followed by
    // a redraw of its own, so the last drawing already showed everything,
    // except trackers that were only looked up
    for (auto const& line : text) CHECK(std::find(want.begin(), want.end(), line) != want.end(), "an outdated line is left on the screen: ", quote(line));
    for (auto n = std::size_t{0}; n != 3; ++n) {
      if (first[n] == nullptr || first[n]->in_.load() == 0) continue;
      if (first[n]->out_.load() == 0.F) continue;
      auto const l = draw_line(names[n], View{first[n]->show_progress_, first[n]->out_.load(), first[n]->status_});
      CHECK(std::find(text.begin(), text.end(), l) != text.end(), "a change was not drawn: ", quote(l), " in ", str(text));
    }
  });
}
