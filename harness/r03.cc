// R03: pipelines and views leave their sources alone, can be evaluated again,
// and keep temporaries alive.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/enumerate.h"
#include "utl/nwise.h"
#include "utl/pairwise.h"
#include "utl/pipes.h"
#include "utl/zip.h"

using namespace pbt;

namespace {
// long strings: a moved-from element is empty
using Vec = std::vector<std::string>;
Vec strings(Case& c) {
  auto v = Vec(c.more(12));
  for (auto& s : v) s = c.of({"a long text, no small string optimisation", "another text which lives on the heap for sure", "short"}) + std::to_string(c.draw(2));
  return v;
}
Vec uniq(Vec v) {
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
bool shortish(std::string const& s) { return s.size() < 8; }
Vec without_short(Vec v) {
  v.erase(std::remove_if(v.begin(), v.end(), shortish), v.end());
  return v;
}
Vec before_short(Vec v) {
  v.erase(std::find_if(v.begin(), v.end(), shortish), v.end());
  return v;
}
auto rm() { return utl::remove_if([](std::string const& s) { return shortish(s); }); }
auto tw() { return utl::take_while([](std::string const& s) { return !shortish(s); }); }
auto id() { return utl::transform([](std::string const& s) { return s; }); }
// functions that take their argument by value or by any reference
auto val() { return utl::transform([](std::string s) { return s; }); }
auto any() { return utl::transform([](auto&& s) { return std::string{std::forward<decltype(s)>(s)}; }); }
auto rm_val() { return utl::remove_if([](std::string const s) { return shortish(s); }); }
auto tw_val() { return utl::take_while([](std::string const s) { return !shortish(s); }); }
}  // namespace

PROP(source_is_not_modified, 4) {
  auto v = strings(c);
  auto const old = v;
  auto const kind = c.draw(28);
  c.note("source = ", str(v), ", kind ", kind);
  c.nontrivial(v.size() >= 2);
  switch (kind) {
    case 18: CHECK_EQ(utl::all(v) | val() | utl::vec(), old); break;
    case 19: CHECK_EQ(utl::all(v) | any() | utl::vec(), old); break;
    case 20: CHECK_EQ(utl::all(v) | rm_val() | utl::vec(), without_short(old)); break;
    case 21: CHECK_EQ(utl::all(v) | tw_val() | utl::vec(), before_short(old)); break;
    case 22: CHECK_EQ(utl::all(v) | utl::unique() | val() | tw_val() | any() | utl::vec(), before_short(uniq(old))); break;
    case 23: (void)(v | utl::find([](std::string const s) { return shortish(s); })); break;
    case 24: (void)(utl::all(v) | utl::find([](std::string const s) { return shortish(s); })); break;
    case 25: (void)(v | utl::accumulate([](std::string a, std::string s) { return s.size() > a.size() ? s : a; }, std::string{})); break;
    case 26: utl::all(v) | utl::for_each([](std::string s) { s += "x"; }); break;
    case 27: (void)(v | utl::count([](std::string s) { s += "x"; return shortish(s); })); break;
    case 28: {
      auto got = Vec{};
      for (auto s : utl::all(v) | utl::iterable()) {
        got.push_back(s);
        s += "x";
      }
      CHECK_EQ(got, old);
      break;
    }
    case 0: CHECK_EQ(utl::all(v) | utl::vec(), old); break;
    case 1: CHECK_EQ(utl::all(v) | utl::unique() | utl::vec(), uniq(old)); break;
    case 2: CHECK_EQ(utl::all(v) | rm() | utl::vec(), without_short(old)); break;
    case 3: CHECK_EQ(utl::all(v) | tw() | utl::vec(), before_short(old)); break;
    case 4: CHECK_EQ(utl::all(v) | id() | utl::vec(), old); break;
    case 5: CHECK_EQ(utl::all(v) | id() | utl::unique() | tw() | utl::vec(), before_short(uniq(old))); break;
    case 6: (void)(v | utl::find([](std::string const& s) { return shortish(s); })); break;
    case 7: (void)(v | utl::accumulate([](std::size_t const a, std::string const& s) { return a + s.size(); }, std::size_t{0})); break;
    case 8: CHECK_EQ(v | utl::insert<std::set<std::string>>(), (std::set<std::string>{old.begin(), old.end()})); break;
    case 9: CHECK_EQ(v | utl::emplace<std::set<std::string>>(), (std::set<std::string>{old.begin(), old.end()})); break;
    case 10: CHECK_EQ(utl::all(v) | utl::emplace_back<std::deque<std::string>>(), (std::deque<std::string>{old.begin(), old.end()})); break;
    case 11: CHECK_EQ(utl::all(v) | utl::to<std::set<std::string>>(), (std::set<std::string>{old.begin(), old.end()})); break;
    case 12: {
      auto got = Vec{};
      for (auto const& s : utl::all(v) | rm() | utl::iterable()) got.push_back(s);
      CHECK_EQ(got, without_short(old));
      break;
    }
    case 13: (void)(v | utl::count([](std::string const& s) { return shortish(s); })); break;
    case 14: for (auto const [a, b] : utl::zip(v, old)) CHECK_EQ(a, b); break;
    case 15: for (auto const [i, s] : utl::enumerate(v)) CHECK_EQ(s, old[i]); break;
    case 16: for (auto const [a, b] : utl::pairwise(v)) { (void)a; (void)b; } break;
    default: {
      auto const cv = v;
      CHECK_EQ(utl::all(cv) | id() | utl::vec(), old);
      CHECK_EQ(utl::all(cv) | utl::unique() | utl::vec(), uniq(old));
      CHECK_EQ(cv, old);
    }
  }
  CHECK_EQ(v, old, "the source was modified");
}

// a named range is used by several pipelines, a named pipeline runs again
PROP(ranges_are_reusable, 3) {
  auto const v = strings(c);
  c.note("source = ", str(v));
  c.nontrivial(v.size() >= 2);
  auto r = utl::all(v);
  auto h = utl::all(Vec{v});  // holds its elements
  auto p = utl::all(v) | rm();
  auto q = utl::all(v) | id() | utl::unique();
  auto t = utl::all(Vec{v}) | id();
  for (auto k = 2 + c.draw(4); k != 0; --k) {
    auto const kind = c.draw(13);
    c.note("use ", kind);
    switch (kind) {
      case 0: CHECK_EQ(r | utl::unique() | utl::vec(), uniq(v)); break;
      case 1: CHECK_EQ(r | rm() | utl::vec(), without_short(v)); break;
      case 2: CHECK_EQ(r | tw() | utl::vec(), before_short(v)); break;
      case 3: CHECK_EQ(h | utl::unique() | utl::vec(), uniq(v)); break;
      case 4: CHECK_EQ(h | tw() | utl::vec(), before_short(v)); break;
      case 5: {
        auto got = Vec{};
        for (auto const& s : h | utl::iterable()) got.push_back(s);
        CHECK_EQ(got, v);
        break;
      }
      case 6: CHECK_EQ(p | utl::vec(), without_short(v)); break;
      case 7: CHECK_EQ(q | utl::vec(), uniq(v)); break;
      case 8: CHECK_EQ(t | utl::unique() | utl::vec(), uniq(v)); break;
      case 9: CHECK_EQ(t | tw() | utl::vec(), before_short(v)); break;
      case 10: CHECK_EQ(p | utl::unique() | tw() | utl::vec(), before_short(uniq(without_short(v)))); break;
      case 11: CHECK_EQ(h | id() | utl::vec(), v); break;
      case 12: {
        auto got = Vec{};
        t | rm() | utl::for_each([&](std::string const& s) { got.push_back(s); });
        CHECK_EQ(got, without_short(v));
        break;
      }
      default: CHECK_EQ(h | utl::vec(), v); break;
    }
  }
}

namespace {
template <typename P>
void runs(Case& c, P& p, Vec const& e) {
  for (auto k = 2 + c.draw(4); k != 0; --k) {
    auto const kind = c.draw(7);
    c.note("use ", kind);
    switch (kind) {
      case 0: CHECK_EQ(p | utl::vec(), e); break;
      case 1: {
        auto got = Vec{};
        p | utl::for_each([&](std::string const& s) { got.push_back(s); });
        CHECK_EQ(got, e);
        break;
      }
      case 2: {  // stops early
        auto n = c.len(e.size() + 1);
        auto i = std::size_t{0};
        for (auto it = p.begin(); p.valid(it) && i != n; p.next(it), ++i) {
          CHECK(i < e.size(), "more than ", e.size(), " elements");
          CHECK_EQ(p.read(it), e[i]);
        }
        CHECK_EQ(i, std::min(n, e.size()));
        break;
      }
      case 3: {
        auto const n = c.len(e.size() + 1);
        auto i = std::size_t{0};
        auto r = p | utl::iterable();
        for (auto const& s : r) {
          CHECK(i < e.size(), "more than ", e.size(), " elements");
          CHECK_EQ(s, e[i]);
          if (++i == n) break;
        }
        CHECK_EQ(i, n == 0 ? e.size() : std::min(n, e.size()));
        i = 0;
        for (auto const& s : r) { CHECK(i < e.size()); CHECK_EQ(s, e[i]); ++i; }
        CHECK_EQ(i, e.size());
        break;
      }
      case 4: {
        auto copy = p;
        CHECK_EQ(copy | utl::vec(), e, "a copy");
        break;
      }
      case 5: {
        auto const f = p | utl::find([&](std::string const& s) { return !e.empty() && s == e.back(); });
        CHECK_EQ(f.has_value(), !e.empty());
        break;
      }
      case 6: CHECK_EQ(p | utl::count([](std::string const&) { return true; }), e.size()); break;
      default: CHECK_EQ(p | id() | tw() | utl::vec(), before_short(e)); break;
    }
  }
}
}  // namespace
// every step can be the last one of a pipeline that runs again, also after a
// run that stopped early
PROP(pipelines_run_again, 3) {
  auto const v = strings(c);
  auto const kind = c.draw(11);
  c.note("source = ", str(v), ", pipeline ", kind);
  c.nontrivial(v.size() >= 2);
  switch (kind) {
    case 0: { auto p = utl::all(v) | tw(); runs(c, p, before_short(v)); break; }
    case 1: { auto p = utl::all(Vec{v}) | tw(); runs(c, p, before_short(v)); break; }
    case 2: { auto p = utl::all(v) | tw() | id(); runs(c, p, before_short(v)); break; }
    case 3: { auto p = utl::all(v) | rm() | tw(); runs(c, p, before_short(without_short(v))); break; }
    case 4: { auto p = utl::all(v) | tw() | rm(); runs(c, p, without_short(before_short(v))); break; }
    case 5: { auto p = utl::all(v) | utl::unique() | tw(); runs(c, p, before_short(uniq(v))); break; }
    case 6: { auto p = utl::all(v) | tw() | utl::unique(); runs(c, p, uniq(before_short(v))); break; }
    case 7: { auto p = utl::all(v) | rm(); runs(c, p, without_short(v)); break; }
    case 8: { auto p = utl::all(Vec{v}) | rm() | utl::unique() | id(); runs(c, p, uniq(without_short(v))); break; }
    case 9: { auto p = utl::all(v) | utl::unique(); runs(c, p, uniq(v)); break; }
    case 10: { auto p = utl::all(v) | id() | rm(); runs(c, p, without_short(v)); break; }
    default: {
      auto const n = c.range(0, 9), stop = c.range(0, 9);
      auto p = utl::iota(0, n) | utl::transform([](int const i) { return std::to_string(i) + " is a long text, not in the buffer"; }) |
               utl::take_while([=](std::string const& s) { return std::stoi(s) != stop; });
      auto e = Vec{};
      for (auto i = 0; i < n && i != stop; ++i) e.push_back(std::to_string(i) + " is a long text, not in the buffer");
      runs(c, p, e);
      break;
    }
  }
}

namespace {
// the views too
template <typename V, typename F>
void walks(Case& c, V&& view, std::size_t const n, F&& check) {
  for (auto k = 2 + c.draw(3); k != 0; --k) {
    auto const stop = c.flip() ? n : c.len(n);
    c.note("walk up to ", stop);
    auto i = std::size_t{0};
    for (auto&& x : view) {
      if (i == stop) break;
      check(i, x);
      ++i;
    }
    CHECK_EQ(i, stop);
  }
}
}  // namespace
PROP(views_run_again, 1) {
  auto const v = strings(c);
  auto const kind = c.draw(7);
  c.note("elements = ", str(v), ", view ", kind);
  c.nontrivial(v.size() >= 2);
  auto const zipped = [&](std::size_t const i, auto const& x) { CHECK_EQ(std::get<0>(x), v[i]); CHECK_EQ(std::get<1>(x), v[i]); };
  auto const numbered = [&](std::size_t const i, auto const& x) { CHECK_EQ(std::get<0>(x), i); CHECK_EQ(std::get<1>(x), v[i]); };
  auto const pairs = [&](std::size_t const i, auto const& x) { CHECK_EQ(std::get<0>(x), v[i]); CHECK_EQ(std::get<1>(x), v[i + 1]); };
  auto const less = [&](std::size_t const k) { return v.size() < k ? 0 : v.size() - k; };
  auto const w = v;
  switch (kind) {
    case 0: { auto z = utl::zip(v, w); walks(c, z, v.size(), zipped); break; }
    case 1: { auto z = utl::zip(Vec{v}, w); walks(c, z, v.size(), zipped); break; }
    case 2: { auto e = utl::enumerate(v); walks(c, e, v.size(), numbered); break; }
    case 3: { auto e = utl::enumerate(Vec{v}); walks(c, e, v.size(), numbered); break; }
    case 4: { auto p = utl::pairwise(v); walks(c, p, less(1), pairs); break; }
    case 5: { auto p = utl::pairwise(Vec{v}); walks(c, p, less(1), pairs); break; }
    case 6: { auto p = utl::nwise<3>(std::list<std::string>(v.begin(), v.end())); walks(c, p, less(2), pairs); break; }
    default: { auto z = utl::czip(v, Vec{v}); walks(c, z, v.size(), zipped); break; }
  }
}

namespace {
// pipelines over temporaries which outlive the full expression
auto hold_all(Vec v) { return utl::all(std::move(v)); }
auto hold_transform(Vec v) { return utl::all(std::move(v)) | id(); }
auto hold_unique(Vec v) { return utl::all(std::move(v)) | utl::unique(); }
auto hold_remove(Vec v) { return utl::all(std::move(v)) | rm(); }
auto hold_chain(Vec v) { return utl::all(std::move(v)) | rm() | id() | utl::unique(); }
auto hold_raw(Vec v) { return utl::all(std::move(v)) | id() | id(); }
auto hold_take(Vec v) { return utl::all(std::move(v)) | tw(); }
auto hold_iterable(Vec v) { return utl::all(std::move(v)) | rm() | utl::iterable(); }
}  // namespace

PROP(temporaries_are_kept, 3) {
  auto const v = strings(c);
  auto const kind = c.draw(12);
  c.note("source = ", str(v), ", kind ", kind);
  c.nontrivial(v.size() >= 2);
  auto scribble = [] { auto waste = std::vector<std::string>(3, "overwrites freed memory, if there is any to be found"); return waste.size(); };
  switch (kind) {
    case 0: { auto r = hold_all(v); scribble(); CHECK_EQ(r | utl::vec(), v); break; }
    case 1: { auto r = hold_transform(v); scribble(); CHECK_EQ(r | utl::vec(), v); break; }
    case 2: { auto r = hold_unique(v); scribble(); CHECK_EQ(r | utl::vec(), uniq(v)); break; }
    case 3: { auto r = hold_remove(v); scribble(); CHECK_EQ(r | utl::vec(), without_short(v)); break; }
    case 4: { auto r = hold_chain(v); scribble(); CHECK_EQ(r | utl::vec(), uniq(without_short(v))); break; }
    case 5: { auto r = hold_raw(v); scribble(); CHECK_EQ(r | utl::vec(), v); break; }
    case 6: { auto r = hold_take(v); scribble(); CHECK_EQ(r | utl::vec(), before_short(v)); break; }
    case 7: {
      auto got = Vec{};
      for (auto const& s : hold_iterable(v)) got.push_back(s);
      CHECK_EQ(got, without_short(v));
      break;
    }
    case 8: {
      auto i = std::size_t{0};
      for (auto const [a, b] : utl::zip(Vec{v}, v)) { CHECK_EQ(a, v[i]); CHECK_EQ(b, v[i]); ++i; }
      CHECK_EQ(i, v.size());
      break;
    }
    case 9: {
      auto i = std::size_t{0};
      for (auto const [n, s] : utl::enumerate(Vec{v})) { CHECK_EQ(n, i); CHECK_EQ(s, v[i]); ++i; }
      CHECK_EQ(i, v.size());
      break;
    }
    case 10: {
      auto i = std::size_t{0};
      for (auto const [a, b] : utl::pairwise(Vec{v})) { CHECK_EQ(a, v[i]); CHECK_EQ(b, v[i + 1]); ++i; }
      CHECK_EQ(i + 1, std::max<std::size_t>(v.size(), 1));
      break;
    }
    case 11: {
      auto z = utl::czip(Vec{v}, Vec{v});
      scribble();
      CHECK_EQ(z.size(), v.size());
      auto i = std::size_t{0};
      for (auto const [a, b] : z) { CHECK_EQ(a, v[i]); CHECK_EQ(b, v[i]); ++i; }
      break;
    }
    default: {
      auto n = utl::nwise<3>(Vec{v});
      scribble();
      auto i = std::size_t{0};
      for (auto const [x, y, z] : n) { CHECK_EQ(x, v[i]); CHECK_EQ(y, v[i + 1]); CHECK_EQ(z, v[i + 2]); ++i; }
      CHECK_EQ(i + 2, std::max<std::size_t>(v.size(), 2));
      CHECK_EQ(n.size(), i);
    }
  }
}

// functions and elements that can only be moved, functions with state of their own
PROP(move_only, 2) {
  auto v = std::vector<std::unique_ptr<int>>{};
  auto plain = std::vector<int>{};
  for (auto k = c.more(10); k != 0; --k) plain.push_back(static_cast<int>(c.draw(9))), v.push_back(std::make_unique<int>(plain.back()));
  auto const limit = static_cast<int>(c.draw(9));
  c.note("source = ", str(plain), ", limit ", limit);
  c.nontrivial(plain.size() >= 2);
  auto const own = [&] { return std::make_unique<int>(limit); };
  auto const deref = [] { return utl::transform([](std::unique_ptr<int> const& p) { return *p; }); };
  auto big = std::vector<int>{}, first = std::vector<int>{}, more = std::vector<int>{};
  for (auto const x : plain) {
    if (x >= limit) big.push_back(x);
    more.push_back(x + limit);
  }
  for (auto const x : plain) {
    if (x >= limit) break;
    first.push_back(x);
  }
  CHECK_EQ(utl::all(v) | deref() | utl::vec(), plain);
  CHECK_EQ(utl::all(v) | deref() | utl::remove_if([p = own()](int const x) { return x < *p; }) | utl::vec(), big);
  CHECK_EQ(utl::all(v) | deref() | utl::take_while([p = own()](int const x) { return x < *p; }) | utl::vec(), first);
  CHECK_EQ(utl::all(v) | utl::transform([p = own()](std::unique_ptr<int> const& x) { return *x + *p; }) | utl::vec(), more);
  CHECK_EQ(plain | utl::count([p = own()](int const x) { return x >= *p; }), big.size());
  auto const found = plain | utl::find([p = own()](int const x) { return x >= *p; });
  CHECK_EQ(found.has_value(), !big.empty());
  if (found) CHECK_EQ(*found, big.front());
  CHECK_EQ(plain | utl::accumulate([p = own()](int const a, int const x) { return a + x + *p; }, 0), std::accumulate(more.begin(), more.end(), 0));
  auto seen = std::vector<int>{};
  utl::all(v) | utl::for_each([p = own(), &seen](std::unique_ptr<int> const& x) { seen.push_back(*x + *p); });
  CHECK_EQ(seen, more);
  CHECK_EQ(utl::generate([p = own()] { return (*p)++; }) | utl::take_while([&](int const x) { return x < limit + 3; }) | utl::vec(), (std::vector<int>{limit, limit + 1, limit + 2}));
  // the elements are still there
  for (auto i = std::size_t{0}; i != v.size(); ++i) CHECK(v[i] != nullptr && *v[i] == plain[i], "element ", i, " was moved");
  // a named function is used itself, with its state
  struct Count {
    int n = 0;
    bool operator()(int const x) { ++n; return x >= 0; }
  };
  auto f = Count{}, g = Count{}, h = Count{};
  (void)(plain | utl::count(f));
  CHECK_EQ(f.n, static_cast<int>(plain.size()), "calls by count");
  utl::all(plain) | utl::for_each(g);
  CHECK_EQ(g.n, static_cast<int>(plain.size()), "calls by for_each");
  (void)(utl::all(plain) | utl::transform(h) | utl::vec());
  CHECK_EQ(h.n, static_cast<int>(plain.size()), "calls by transform");
}
