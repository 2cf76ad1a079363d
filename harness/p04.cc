// P04: progress trackers against a reference model.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/progress_tracker.h"

using namespace pbt;

namespace {
struct Snapshot {
  bool operator==(Snapshot const&) const = default;
  friend std::ostream& operator<<(std::ostream& o, Snapshot const& s) {
    return o << "{" << (s.show ? "shown" : "hidden") << " " << s.out << "% " << quote(s.status) << "}";
  }
  bool show = true;
  float out = 0.F;
  std::string status;
};

struct Model {
  // the percentages that are right for the input: usually one, two when the
  // share lies on the boundary of two steps as far as float can tell
  std::pair<long double, long double> outs() const {
    auto const range = static_cast<long double>(high) - low;
    auto const ratio = in_high == 0 ? 1.0L : static_cast<long double>(in) / static_cast<long double>(in_high);
    auto const steps = range * ratio / mod;
    auto const eps = 1e-6L * (4 + std::abs(steps));
    auto const at = [&](long double const s) {
      return std::clamp(low + std::round(s) * static_cast<long double>(mod), static_cast<long double>(low), static_cast<long double>(high));
    };
    return {at(steps - eps), at(steps + eps)};
  }
  float low = 0.F, high = 100.F, mod = 1.F;
  std::uint64_t in_high = 100, in = 0;
  bool show = true;
  std::string status;
};

struct Run {
  explicit Run(Case& c)
      : c_{c}, t{[this](utl::progress_tracker const& x) { called(x); }} {}
  void called(utl::progress_tracker const& x) {
    CHECK_EQ(static_cast<void const*>(&x), static_cast<void const*>(&t), "the observer got another tracker");
    seen.push_back(Snapshot{x.show_progress_, x.out_.load(), x.status_});
    if (!nested.empty()) {  // the observer may use the tracker itself
      auto const s = std::exchange(nested, "");
      t.status(s);
    }
  }
  // one statement: what it may do to the tracker, then what must have happened
  void expect(bool const config_changed, float const out_before, std::string const& what) {
    auto const out = t.out_.load();
    auto const due = config_changed || out != out_before;
    if (due && !nested_now.empty()) {
      CHECK_EQ(seen.size(), nested_now == m.status ? 1U : 2U, "calls of the observer, ", what, " (the first one sets the status)");
      CHECK_EQ(seen[0], (Snapshot{m.show, out, m.status}), "seen by the observer, ", what);
      m.status = nested_now;
      if (seen.size() == 2) CHECK_EQ(seen[1], (Snapshot{m.show, out, m.status}), "seen by the observer (nested), ", what);
    } else {
      CHECK_EQ(seen.size(), due ? 1U : 0U, "calls of the observer, ", what);
      if (due) CHECK_EQ(seen[0], (Snapshot{m.show, out, m.status}), "seen by the observer, ", what);
    }
    seen.clear();
    nested.clear();
    CHECK_EQ(t.status_, m.status, what);
    CHECK_EQ(t.show_progress_, m.show, what);
    CHECK_EQ(t.in_.load(), m.in, what);
  }
  void check_out(std::string const& what) {
    auto const out = static_cast<long double>(t.out_.load());
    auto const [a, b] = m.outs();
    auto const tol = 1e-4L + 1e-5L * (std::abs(a) + std::abs(b) + std::abs(m.low) + std::abs(m.high));
    CHECK(std::abs(out - a) <= tol || std::abs(out - b) <= tol, "out = ", static_cast<double>(out), ", expected ", static_cast<double>(a),
          a == b ? "" : cat(" or ", static_cast<double>(b)), ", ", what, " (bounds ", m.low, " to ", m.high, " in steps of ", m.mod, ", ", m.in, " of ", m.in_high, " done)");
    CHECK(t.out_.load() >= m.low && t.out_.load() <= m.high, "out = ", t.out_.load(), " is out of bounds, ", what);
  }
  Case& c_;
  Model m;
  std::vector<Snapshot> seen;
  std::string nested, nested_now;
  utl::progress_tracker t;
};

float bound(Case& c) {
  switch (c.draw(5)) {
    case 0: return 0.F;
    case 1: return 100.F;
    case 2: return static_cast<float>(c.range(0, 100));
    case 3: return static_cast<float>(c.range(-80, 480)) / 4.F;
    case 4: return static_cast<float>(c.range(-7000, 7000)) / 7.F;
    default: return std::numeric_limits<float>::quiet_NaN();
  }
}
float step(Case& c) {
  switch (c.draw(5)) {
    case 0: return 1.F;
    case 1: return static_cast<float>(c.range(1, 30));
    case 2: return static_cast<float>(c.range(1, 64)) / 8.F;
    case 3: return 0.1F * static_cast<float>(c.range(1, 30));
    case 4: return static_cast<float>(c.range(-2, 0));
    default: return std::numeric_limits<float>::quiet_NaN();
  }
}
std::uint64_t amount(Case& c) {
  switch (c.draw(5)) {
    case 0: return c.draw(3);
    case 1:
    case 2: return c.draw(100);
    case 3: return c.draw(100000);
    case 4: return c.draw(400);
    default: return c.any_int<std::uint64_t>();
  }
}

// one step of a configuration chain
struct Step {
  int kind;
  float a, b;
  std::uint64_t n;
  bool flag;
  std::string text;
  bool bad() const { return (kind == 3 && !(a <= b)) || (kind == 4 && !(a > 0)); }
  template <typename T>
  utl::progress_tracker::tracker_update apply(T&& x) const {
    switch (kind) {
      case 0: return x.status(text);
      case 1: return x.show_progress(flag);
      case 2: return x.reset_bounds();
      case 3: return x.out_bounds(a, b);
      case 4: return x.out_mod(a);
      default: return x.in_high(n);
    }
  }
  template <typename T>
  static bool set(T& x, T const& v) {
    if (x == v) return false;
    x = v;
    return true;
  }
  void model(Model& m, bool& status, bool& bounds) const {
    switch (kind) {
      case 0: status |= set(m.status, text); break;
      case 1: status |= set(m.show, flag); break;
      case 2:
        bounds |= set(m.low, 0.F);
        bounds |= set(m.high, 100.F);
        bounds |= set(m.mod, 1.F);
        bounds |= set(m.in_high, std::uint64_t{100});
        break;
      case 3:
        bounds |= set(m.low, a);
        bounds |= set(m.high, b);
        break;
      case 4: bounds |= set(m.mod, a); break;
      default: bounds |= set(m.in_high, n); break;
    }
  }
  std::string str() const {
    switch (kind) {
      case 0: return ".status(" + quote(text) + ")";
      case 1: return cat(".show_progress(", flag, ")");
      case 2: return ".reset_bounds()";
      case 3: return cat(".out_bounds(", a, ", ", b, ")");
      case 4: return cat(".out_mod(", a, ")");
      default: return cat(".in_high(", n, ")");
    }
  }
};
Step make_step(Case& c) {
  auto s = Step{static_cast<int>(c.draw(5)), 0, 0, 0, false, ""};
  switch (s.kind) {
    case 0: s.text = c.text(c.len(4), "ab"); break;
    case 1: s.flag = c.flip(); break;
    case 3:
      s.a = bound(c);
      s.b = bound(c);
      if (s.a > s.b && c.chance(4, 5)) std::swap(s.a, s.b);
      break;
    case 4: s.a = step(c); break;
    case 5: s.n = amount(c); break;
    default: break;
  }
  return s;
}

utl::progress_tracker::tracker_update chain(utl::progress_tracker& t, std::vector<Step> const& steps) {
  switch (steps.size()) {
    case 1: return steps[0].apply(t);
    case 2: return steps[1].apply(steps[0].apply(t));
    case 3: return steps[2].apply(steps[1].apply(steps[0].apply(t)));
    default: return steps[3].apply(steps[2].apply(steps[1].apply(steps[0].apply(t))));
  }
}
}  // namespace

PROP(history, 8) {
  auto r = Run{c};
  auto& t = r.t;
  auto& m = r.m;
  CHECK_EQ((Snapshot{t.show_progress_, t.out_.load(), t.status_}), Snapshot{}, "a new tracker");
  auto const n = 1 + c.more(30);
  auto updates = 0, configs = 0;
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const before = t.out_.load();
    if (c.chance(1, 8)) r.nested = c.text(1 + c.below(2), "abc");
    r.nested_now = r.nested;
    auto const op = c.draw(9);
    if (op <= 2) {
      ++configs;
      auto steps = std::vector<Step>{};
      for (auto k = 1 + c.below(4); k != 0; --k) steps.push_back(make_step(c));
      auto what = std::string{};
      for (auto const& s : steps) what += s.str();
      auto const hold = c.chance(1, 5);
      c.note(what, hold ? " (held)" : "", r.nested.empty() ? "" : " the observer sets the status to " + r.nested);
      auto status = false, bounds = false, refused = false;
      for (auto const& s : steps) {
        if (s.bad()) {
          refused = true;
          break;
        }
        s.model(m, status, bounds);
      }
      auto threw = false;
      try {
        if (hold) {
          auto u = chain(t, steps);
          CHECK_EQ(r.seen.size(), 0U, "the observer was called before the end of the chain ", what);
        } else {
          chain(t, steps);
        }
      } catch (Fail const&) {
        throw;
      } catch (std::runtime_error const&) {
        threw = true;
      }
      CHECK_EQ(threw, refused, "bounds or steps refused, ", what);
      c.label_if(refused, "refused bounds or step");
      c.label_if(steps.size() > 1, "chained configuration");
      if (bounds) {
        m.in = 0;
        c.label("bounds changed");
        CHECK_EQ(t.out_.load(), m.low, "out behind ", what);
        r.expect(true, before, what);
      } else {
        CHECK_EQ(t.out_.load(), before, "out behind ", what);
        r.expect(status, before, what);
      }
    } else {
      ++updates;
      auto const v = amount(c);
      auto what = std::string{};
      auto const old_in = m.in;
      switch (op) {
        case 3: what = cat("update(", v, ")"); m.in = v; c.note(what); t.update(v); break;
        case 4: what = cat("update_monotonic(", v, ")"); m.in = std::max(m.in, v); c.note(what); t.update_monotonic(v); break;
        case 5: what = cat("update_fn()(", v, ")"); m.in = std::max(m.in, v); c.note(what); t.update_fn()(v); break;
        case 6: what = "increment_fn()()"; m.in += 1; c.note(what); t.increment_fn()(); break;
        case 7: what = "increment()"; m.in += 1; c.note(what); t.increment(); break;
        default: what = cat("increment(", v, ")"); m.in += v; c.note(what); t.increment(v); break;
      }
      r.check_out(what);
      CHECK(m.in < old_in || t.out_.load() >= before, "the percentage fell from ", before, " to ", t.out_.load(), ", ", what);
      r.expect(false, before, what);
      c.label_if(m.in > m.in_high, "more work than expected");
      c.label_if(m.in_high == 0, "no work expected");
      c.label_if(m.mod > m.high - m.low, "step above the range");
    }
  }
  c.nontrivial(updates >= 2 && configs >= 1);
}

// every amount of work of a plain job: the percentage is the rounded share
PROP(sweep, 2) {
  auto calls = 0;
  auto t = utl::progress_tracker{[&](utl::progress_tracker const&) { ++calls; }};
  auto const n = 1 + c.below(300);
  auto const low = c.range(0, 99), high = c.range(low, 100), mod = c.range(1, 12);
  c.note("out_bounds(", low, ", ", high, ").out_mod(", mod, ").in_high(", n, ")");
  c.nontrivial(n >= 2 && high > low);
  t.out_bounds(static_cast<float>(low), static_cast<float>(high)).out_mod(static_cast<float>(mod)).in_high(n);
  CHECK(calls <= 1);
  calls = 0;
  auto changes = 0;
  auto last = low;
  for (auto i = std::size_t{0}; i <= n; ++i) {
    t.update(i);
    // exact in integers: round(range * i / (n * mod)), halves up
    auto const num = static_cast<long>(high - low) * static_cast<long>(i), den = static_cast<long>(n) * mod;
    auto const q = num / den, rest = num % den;
    auto const at = [&](long const k) { return static_cast<int>(std::clamp<long>(low + k * mod, low, high)); };
    auto const out = static_cast<int>(t.out_.load());
    CHECK_EQ(static_cast<float>(out), t.out_.load(), "not a whole number at ", i);
    if (2 * rest == den) {
      CHECK(out == at(q) || out == at(q + 1), "out = ", out, " at ", i);
    } else {
      CHECK_EQ(out, at(2 * rest > den ? q + 1 : q), "out at ", i);
    }
    if (out != last) ++changes;
    last = out;
    CHECK_EQ(calls, changes, "calls of the observer at ", i);
  }
}
