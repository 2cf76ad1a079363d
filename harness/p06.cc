// P06: the registry of progress trackers and its drawing.
#include <bits/stdc++.h>

#include "pbt.h"
#include "p06.h"
#include "terminal.h"
#include "utl/progress_tracker.h"

using namespace pbt;

namespace {
struct Tracked {
  utl::progress_tracker_ptr p;
  std::string name;  // empty: not from the registry
  bool registered = true;
  View view;
  std::vector<utl::progress_tracker_ptr> more{};  // others that hold it
};

struct World {
  explicit World(Case& c) : c_{c}, buf{term} {
    old = std::cout.rdbuf(&buf);
    utl::get_global_progress_trackers().clear();
  }
  ~World() {
    while (!bars.empty()) bars.pop_back();
    utl::get_global_progress_trackers().clear();
    std::cout.rdbuf(old);
  }
  World(World const&) = delete;

  bool silent() const { return bars.empty() || bars.back().second; }
  Tracked* find(std::string const& n) {
    for (auto& t : all) if (t->registered && t->name == n) return t.get();
    return nullptr;
  }
  // the screen: everything above `base` stays, the block below is redrawn
  void redraw() {
    if (silent()) return;
    auto names = std::map<std::string, View>{};
    for (auto const& t : all) if (t->registered) names.emplace(t->name, t->view);
    screen.resize(base);
    for (auto const& [n, v] : names) screen.push_back(draw_line(n, v));
  }
  void cleared() {
    base = screen.size();
    for (auto& t : all) t->registered = false;
    active = nullptr;
  }
  Tracked* got(utl::progress_tracker_ptr const& p, std::string const& name) {
    CHECK(p != nullptr, "no tracker for ", quote(name));
    if (auto* const t = find(name)) {
      CHECK(t->p == p, "another tracker for ", quote(name));
      return t;
    }
    for (auto const& t : all) CHECK(t->p != p, "the tracker for ", quote(name), " is that of ", quote(t->name), t->registered ? "" : " (cleared)");
    all.push_back(std::make_unique<Tracked>(Tracked{p, name, true, View{}}));
    auto& t = *all.back();
    t.more.resize(c_.below(3), p);
    CHECK(p->show_progress_ && p->out_.load() == 0.F && p->status_.empty() && p->in_.load() == 0, "the tracker for ", quote(name), " is not new");
    return &t;
  }
  void check(std::string const& what) {
    CHECK(buf.pending.empty(), "not flushed: ", quote(buf.pending), " ", what);
    CHECK(term.broken == nullptr, term.broken, " ", what);
    auto have = term.text();
    auto want = screen;
    while (!have.empty() && have.back().empty()) have.pop_back();
    while (!want.empty() && want.back().empty()) want.pop_back();
    CHECK_EQ(have, want, "the screen, ", what);
    // the cursor is below the drawing
    CHECK_EQ(term.row, screen.size(), "the cursor, ", what);
    CHECK_EQ(term.col, 0U, "the cursor, ", what);
  }

  Case& c_;
  Terminal term;
  TerminalBuf buf;
  std::streambuf* old;
  std::vector<std::unique_ptr<Tracked>> all;
  Tracked* active = nullptr;
  std::vector<std::pair<std::unique_ptr<utl::global_progress_bars>, bool>> bars;
  std::vector<std::string> screen;
  std::size_t base = 0;
};

std::string name(Case& c) {
  switch (c.draw(3)) {
    case 0: return c.of({"a", "b", "ab"});
    case 1: return c.text(1 + c.below(3), "ab_");
    case 2: return c.text(10 + c.below(c.chance(1, 8) ? 100 : 6), "xy {}%");
    default: return "";
  }
}
}  // namespace

PROP(history, 8) {
  auto w = World{c};
  auto const n = 1 + c.more(40);
  auto changes = 0, lookups = 0;
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const op = c.draw(18);
    auto what = std::string{};
    auto const say = [&](auto const&... x) {
      what = cat(x...);
      c.note(what);
    };
    auto* t = w.all.empty() ? nullptr : w.all[c.below(w.all.size())].get();
    if (op <= 1) {  // bars on, loud or silent
      auto const silent = op == 1 && c.flip();
      say("global_progress_bars{", silent, "}");
      if (w.bars.size() < 4) {
        w.bars.emplace_back(silent || op == 1 ? std::make_unique<utl::global_progress_bars>(silent) : std::make_unique<utl::global_progress_bars>(), silent);
        c.label_if(w.bars.size() >= 2, "nested bar scopes");
      }
    } else if (op == 2) {
      if (!w.bars.empty() && c.chance(1, 2)) {
        say("~global_progress_bars");
        w.bars.pop_back();
        w.cleared();
        c.label("end of a bar scope");
      }
    } else if (op == 3) {
      if (c.chance(1, 3)) {
        say("clear()");
        utl::get_global_progress_trackers().clear();
        w.cleared();
        c.label("clear");
      }
    } else if (op == 4) {
      auto* const a = c.chance(1, 8) ? nullptr : t;
      say("activate(", a == nullptr ? "none" : quote(a->name), a != nullptr && !a->registered ? ", cleared)" : ")");
      auto const p = utl::activate_progress_tracker(a == nullptr ? utl::progress_tracker_ptr{} : a->p);
      CHECK(p == (a == nullptr ? nullptr : a->p), "activation returns another tracker");
      w.active = a;
    } else if (op == 5) {
      auto const s = name(c);
      say("activate(", quote(s), ")");
      w.active = w.got(utl::activate_progress_tracker(s), s);
      ++lookups;
    } else if (op == 6) {
      say("get_active()");
      auto p = utl::progress_tracker_ptr{};
      auto refused = false;
      try {
        p = utl::get_active_progress_tracker();
      } catch (std::runtime_error const&) {
        refused = true;
      }
      CHECK_EQ(refused, w.active == nullptr, "asking for the active tracker is refused");
      if (!refused) CHECK(p == w.active->p, "another tracker is active than ", quote(w.active->name));
      c.label_if(refused, "no active tracker");
    } else if (op == 7) {
      auto const s = name(c);
      say("get_active_or_activate(", quote(s), ")");
      auto const p = utl::get_active_progress_tracker_or_activate(s);
      if (w.active != nullptr) {
        CHECK(p == w.active->p, "another tracker is active than ", quote(w.active->name));
      } else {
        w.active = w.got(p, s);
      }
      ++lookups;
    } else if (op <= 9) {
      auto const s = t != nullptr && c.flip() ? t->name : name(c);
      say("get_tracker(", quote(s), ")");
      w.got(utl::get_global_progress_trackers().get_tracker(s), s);
      ++lookups;
    } else if (op == 10) {
      say("print()");
      utl::get_global_progress_trackers().print();
      w.redraw();
    } else if (t != nullptr) {
      auto before = t->view;
      if (op <= 12) {
        t->view.status = c.text(c.chance(1, 12) ? 60 + c.below(250) : c.more(8), "ab {}%|0");
        say(quote(t->name), ".status(", quote(t->view.status), ")");
        t->p->status(t->view.status);
      } else if (op == 13) {
        t->view.show = c.flip();
        say(quote(t->name), ".show_progress(", t->view.show, ")");
        t->p->show_progress(t->view.show);
      } else if (op == 14) {
        auto const wide = c.chance(1, 5);
        auto const lo = wide ? static_cast<float>(c.below(140000)) - 70000.F : static_cast<float>(c.below(50));
        auto const hi = wide ? lo + static_cast<float>(c.below(70000)) : 50.F + static_cast<float>(c.below(60));
        c.label_if(lo < 0.F || hi > 255.F, "bounds beyond percentages");
        auto const mod = c.of({1.F, 2.5F, 0.5F, 0.001F});
        say(quote(t->name), ".out_bounds(", lo, ", ", hi, ").out_mod(", mod, ")");
        auto const same = t->p->out_low_ == lo && t->p->out_high_ == hi && t->p->out_mod_ == mod;
        t->p->out_bounds(lo, hi).out_mod(mod);
        if (!same) {
          t->view.out = lo;
          before.show = !t->view.show;  // a redraw is due anyway
        }
      } else {
        if (c.chance(1, 4)) {
          auto const high = c.of({std::size_t{100}, std::size_t{1000}, std::size_t{99999}, std::size_t{7}});
          say(quote(t->name), ".in_high(", high, ")");
          auto const same = t->p->in_high_ == high;
          t->p->in_high(high);
          if (!same) {
            t->view.out = t->p->out_low_;
            before.show = !t->view.show;  // a redraw is due anyway
          }
        }
        auto const v = c.flip() ? c.below(120) : t->p->in_high_ - c.below(std::min(t->p->in_high_, std::size_t{3}) + 1);
        say(quote(t->name), ".update(", v, ")");
        t->p->update(v);
        t->view.out = t->p->out_.load();
      }
      if (t->view.show != before.show || t->view.out != before.out || t->view.status != before.status) {
        ++changes;
        c.label_if(!t->registered, "change of a tracker that was cleared");
        c.label_if(w.silent(), "change while silent");
        c.label_if(!w.silent(), "redraw");
        w.redraw();
      }
    }
    w.check(what);
  }
  c.nontrivial(changes >= 2 && lookups >= 1);
  if (c.flip()) {  // nothing of it is left in a new scope
    while (!w.bars.empty()) {
      w.bars.pop_back();
      w.cleared();
    }
    c.note("a new scope");
    w.bars.emplace_back(std::make_unique<utl::global_progress_bars>(), false);
    w.got(utl::get_global_progress_trackers().get_tracker("last"), "last");
    utl::get_global_progress_trackers().print();
    w.redraw();
    w.check("a new scope");
  }
}

// as many trackers as narrow numbers do not count
PROP_HUGE(many_trackers, 3) {
  auto w = World{c};
  auto const n = 250 + c.below(c.chance(1, 3) ? 1200 : 40);
  c.note(n, " trackers");
  c.nontrivial();
  w.bars.emplace_back(std::make_unique<utl::global_progress_bars>(), false);
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const s = cat("t", i);
    w.got(utl::get_global_progress_trackers().get_tracker(s), s);
  }
  utl::get_global_progress_trackers().print();
  w.redraw();
  w.check("all of them");
  for (auto k = 0; k != 3; ++k) {
    auto& t = *w.all[c.below(n)];
    t.view.status = cat("step ", k);
    t.p->status(t.view.status);
    w.redraw();
    w.check(cat(t.name, ".status(", k, ")"));
  }
}
