// A08: conversions and wrappers of standard algorithms.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/concat.h"
#include "utl/helpers/algorithm.h"
#include "utl/repeat_n.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"

using namespace pbt;

namespace {
using Vec = std::vector<int>;
Vec ints(Case& c, std::size_t const max = 50) {
  auto v = Vec(c.more(max));
  auto key = c.keys(c.of({1, 5, 20, 500}));
  for (auto& x : v) x = key();
  if (c.chance(1, 4)) std::sort(v.begin(), v.end());
  return v;
}
std::string text(int const x) { return "number " + std::to_string(x) + " as a text on the heap"; }
}  // namespace

PROP(to_vec_and_transform_to, 3) {
  auto v = ints(c);
  auto const old = v;
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto e = std::vector<std::string>{};
  for (auto const x : v) e.push_back(text(x));
  auto const l = std::list<int>(v.begin(), v.end());
  CHECK_EQ(utl::to_vec(v, text), e);
  CHECK_EQ(utl::to_vec(l, text), e);
  CHECK_EQ(utl::to_vec(v.begin(), v.end(), text), e);
  CHECK_EQ(utl::to_vec(l.begin(), l.end(), text), e);
  CHECK_EQ(utl::to_vec(Vec{v}, text), e);
  CHECK_EQ(utl::to_vec(l), v);
  CHECK_EQ(utl::to_vec(v), v);
  CHECK_EQ(utl::to_vec(e), e);
  CHECK_EQ(utl::transform_to<std::vector<std::string>>(l, text), e);
  auto s = std::string{};
  for (auto const x : v) s += static_cast<char>('a' + (x % 5 + 5) % 5);
  CHECK_EQ(utl::transform_to<std::string>(v, [](int const x) { return static_cast<char>('a' + (x % 5 + 5) % 5); }), s);
  // appends to what is there
  auto out = std::vector<std::string>{"first"};
  utl::transform_to(v, out, text);
  auto eo = e;
  eo.insert(eo.begin(), "first");
  CHECK_EQ(out, eo);
  // every element is transformed once, in order
  auto seen = Vec{};
  (void)utl::to_vec(v, [&](int const x) { seen.push_back(x); return x; });
  CHECK_EQ(seen, v);
  // elements may be taken out
  auto moved = e;
  CHECK_EQ(utl::to_vec(moved, [](std::string& x) { return std::move(x); }), e);
  static_assert(std::is_same_v<decltype(utl::to_vec(v, [](int const& x) -> int const& { return x; })), Vec>);
  CHECK_EQ(v, old, "the input was modified");
}

PROP(to_set_and_concat, 3) {
  auto v = ints(c), w = ints(c);
  c.note("elements ", str(v), " and ", str(w));
  c.nontrivial(v.size() >= 2);
  auto e = std::set<std::string>{};
  for (auto const x : v) e.insert(text(x));
  CHECK_EQ(utl::to_set(v, text), e);
  CHECK_EQ(utl::to_set(v.begin(), v.end(), text), e);
  CHECK_EQ(utl::to_set(std::list<int>(v.begin(), v.end()), text), e);
  auto a = v;
  auto& r = utl::concat(a, w);
  CHECK(&r == &a, "concat returns something else");
  auto ea = v;
  for (auto const x : w) ea.push_back(x);
  CHECK_EQ(a, ea);
  auto d = std::deque<int>(v.begin(), v.end());
  utl::concat(d, std::list<int>(w.begin(), w.end()));
  CHECK_EQ((Vec{d.begin(), d.end()}), ea);
  utl::concat(a, Vec{});
  CHECK_EQ(a, ea);
  auto const n = c.below(20);
  CHECK_EQ(utl::repeat_n(c.range(7, 9) * 0 + 7, n), Vec(n, 7));
  CHECK_EQ(utl::repeat_n(text(1), n), std::vector<std::string>(n, text(1)));
  CHECK_EQ((utl::repeat_n<int, std::deque<int>>(3, n)), std::deque<int>(n, 3));
}

PROP(searching, 4) {
  auto v = ints(c);
  auto const m = c.range(1, 6), r = c.range(-3, 3);
  auto const x = !v.empty() && c.flip() ? c.from(v) : c.keys(6)();
  c.note("elements ", str(v), ", x % ", m, " == ", r, ", find ", x);
  c.nontrivial(v.size() >= 2);
  auto const p = [&](int const y) { return y % m == r; };
  auto n = 0L, first = -1L, at = -1L;
  for (auto i = std::size_t{0}; i != v.size(); ++i) {
    if (p(v[i])) { ++n; if (first == -1) first = static_cast<long>(i); }
    if (v[i] == x && at == -1) at = static_cast<long>(i);
  }
  auto const size = static_cast<long>(v.size());
  auto const l = std::list<int>(v.begin(), v.end());
  auto const& cv = v;
  CHECK_EQ(utl::all_of(v, p), n == size);
  CHECK_EQ(utl::any_of(v, p), n != 0);
  CHECK_EQ(utl::none_of(v, p), n == 0);
  CHECK_EQ(utl::all_of(l, p), n == size);
  CHECK_EQ(utl::any_of(l, p), n != 0);
  CHECK_EQ(utl::none_of(l, p), n == 0);
  CHECK_EQ(utl::count_if(cv, p), n);
  CHECK_EQ(utl::count_if(l, p), n);
  CHECK_EQ(utl::find_if(v, p) - v.begin(), first == -1 ? size : first);
  CHECK_EQ(std::distance(l.begin(), utl::find_if(l, p)), first == -1 ? size : first);
  CHECK_EQ(utl::find(cv, x) - cv.begin(), at == -1 ? size : at);
  CHECK_EQ(std::distance(l.begin(), utl::find(l, x)), at == -1 ? size : at);
  auto const lt = [](int const a, int const b) { return a < b; };
  auto const gt = [](int const a, int const b) { return a > b; };
  CHECK_EQ(utl::is_sorted(v, lt), std::is_sorted(v.begin(), v.end()));
  CHECK_EQ(utl::is_sorted(v, gt), std::is_sorted(v.rbegin(), v.rend()));
  auto const w = c.flip() ? v : ints(c);
  CHECK_EQ(utl::equal(v, w), v == w, "other: ", str(w));
  CHECK_EQ(utl::equal(l, w), v == w, "other: ", str(w));
  auto const hi = utl::max_element(v, lt), lo = utl::min_element(v, lt);
  if (v.empty()) {
    CHECK(hi == v.end() && lo == v.end(), "an extremum of nothing");
  } else {
    CHECK_EQ(hi - v.begin(), std::max_element(v.begin(), v.end()) - v.begin());
    CHECK_EQ(lo - v.begin(), std::min_element(v.begin(), v.end()) - v.begin());
    CHECK_EQ(*utl::max_element(v, gt), *std::min_element(v.begin(), v.end()));
  }
}

PROP(ordering, 3) {
  auto v = ints(c);
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto e = v;
  std::sort(e.begin(), e.end());
  auto a = v;
  utl::sort(a);
  CHECK_EQ(a, e);
  auto d = std::deque<int>(v.begin(), v.end());
  utl::sort(d, std::greater<int>{});
  CHECK_EQ((Vec{d.rbegin(), d.rend()}), e);
  if (!v.empty()) {
    auto b = v;
    auto const k = c.below(v.size());
    auto const desc = c.flip();
    desc ? utl::nth_element(b, k, std::greater<int>{}) : utl::nth_element(b, k);
    if (desc) std::reverse(e.begin(), e.end());
    CHECK_EQ(b[k], e[k], "element ", k);
    for (auto i = std::size_t{0}; i != b.size(); ++i) CHECK(i < k ? (desc ? b[i] >= b[k] : b[i] <= b[k]) : (desc ? b[i] <= b[k] : b[i] >= b[k]), "element ", i, " on the wrong side of ", k);
    std::sort(b.begin(), b.end());
    if (desc) std::reverse(e.begin(), e.end());
    CHECK_EQ(b, e, "elements lost or invented");
  }
  auto f = v;
  auto const x = c.range(-9, 9);
  utl::fill(f, x);
  CHECK_EQ(f, Vec(v.size(), x));
}

PROP_HUGE(large_containers, 16) {
  auto g = c.bulk();
  auto v = Vec(c.huge());
  auto const keys = c.of<std::uint64_t>({1, 300, 100000});
  for (auto& x : v) x = static_cast<int>(g(keys));
  auto const x = v.back();
  c.note(v.size(), " elements up to ", keys);
  c.nontrivial();
  auto const is_x = [&](int const y) { return y == x; };
  auto const lt = [](int const a, int const b) { return a < b; };
  auto const at = std::find(v.begin(), v.end(), x) - v.begin();
  CHECK_EQ(utl::count_if(v, is_x), std::count(v.begin(), v.end(), x));
  CHECK_EQ(utl::find(v, x) - v.begin(), at);
  CHECK_EQ(utl::find_if(v, is_x) - v.begin(), at);
  CHECK_EQ(utl::max_element(v, lt) - v.begin(), std::max_element(v.begin(), v.end()) - v.begin());
  CHECK_EQ(utl::min_element(v, lt) - v.begin(), std::min_element(v.begin(), v.end()) - v.begin());
  auto w = v;
  auto const changed = static_cast<std::size_t>(g(v.size() - 1));
  CHECK(utl::equal(v, w));
  ++w[changed];
  CHECK(!utl::equal(v, w), "element ", changed, " differs");
  CHECK(!utl::all_of(w, [&](int const y) { return y != w[changed]; }));
  CHECK(utl::any_of(w, [&](int const y) { return y == w[changed]; }));
  CHECK(!utl::none_of(w, [&](int const y) { return y == w[changed]; }));
  auto doubled = Vec{};
  for (auto const y : v) doubled.push_back(2 * y);
  CHECK(utl::to_vec(v, [](int const y) { return 2 * y; }) == doubled, "to_vec");
  CHECK(utl::to_set(v, [](int const y) { return 2 * y; }) == std::set<int>(doubled.begin(), doubled.end()), "to_set");
  CHECK(utl::to_set(v.begin(), v.end(), [](int const y) { return 2 * y; }) == std::set<int>(doubled.begin(), doubled.end()), "to_set of a range");
  CHECK(utl::to_vec(v.begin(), v.end(), [](int const y) { return 2 * y; }) == doubled, "to_vec of a range");
  CHECK(utl::to_vec(v) == v, "to_vec without function");
  CHECK(utl::transform_to<Vec>(v, [](int const y) { return 2 * y; }) == doubled, "transform_to");
  auto both = v;
  utl::concat(both, doubled);
  auto e = v;
  e.insert(e.end(), doubled.begin(), doubled.end());
  CHECK(both == e, "concat");
  CHECK(utl::repeat_n(x, v.size()) == Vec(v.size(), x), "repeat_n");
  auto s = v;
  std::sort(s.begin(), s.end());
  CHECK_EQ(utl::is_sorted(v, lt), v == s);
  CHECK(utl::is_sorted(s, lt));
  auto n = v;
  utl::nth_element(n, changed);
  CHECK_EQ(n[changed], s[changed]);
  utl::sort(v);
  CHECK(v == s, "sort");
}
