// A04: equal_ranges splits a container into its groups of equal elements.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"

using namespace pbt;

namespace {
using P = std::pair<int, int>;
using Vec = std::vector<P>;
Vec items(Case& c) {
  auto v = Vec(c.more(60));
  auto key = c.keys(c.of({0, 1, 3, 10, 50}));
  for (auto& x : v) x = {key(), c.range(0, 3)};
  return v;
}
// collects groups; they have to tile the container without gaps
template <typename It>
auto collect(std::vector<Vec>& r, It const first, It& pos, std::size_t const max) {
  return [&r, &pos, first, max](It lo, It hi) {
    CHECK(lo == pos, "a gap or an overlap before group ", r.size());
    auto g = Vec{};
    for (; lo != hi; ++lo) { g.push_back(*lo); CHECK(g.size() <= max, "group too large"); }
    CHECK(!g.empty(), "empty group");
    pos = hi;
    r.push_back(std::move(g));
  };
}
Vec flat(std::vector<Vec> const& g) {
  auto r = Vec{};
  for (auto const& x : g) r.insert(r.end(), x.begin(), x.end());
  return r;
}
}  // namespace

PROP(sorted_groups, 4) {
  auto v = items(c);
  auto const old = v;
  c.note("items ", str(v));
  c.nontrivial(v.size() >= 2);
  auto groups = std::vector<Vec>{};
  auto pos = v.begin();
  auto const kind = c.draw(4);
  c.note("order ", kind);
  auto const lt = [&](P const& x, P const& y) { return kind == 0 ? x < y : kind == 1 ? x.first < y.first : kind == 2 ? x.first > y.first : kind == 3 ? x.first % 3 < y.first % 3 : x.second > y.second; };
  auto const fn = collect(groups, v.begin(), pos, v.size());
  kind == 0 ? utl::equal_ranges(v, fn) : utl::equal_ranges(v, lt, fn);
  CHECK(pos == v.end(), "the last group is missing");
  CHECK_EQ(flat(groups), v);
  for (auto const& g : groups) for (auto const& x : g) CHECK(!lt(x, g[0]) && !lt(g[0], x), "unequal elements in one group");
  for (auto i = std::size_t{1}; i < groups.size(); ++i) CHECK(lt(groups[i - 1][0], groups[i][0]), "groups are not ascending");
  auto a = v, b = old;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  CHECK_EQ(a, b, "elements were lost or invented");
  auto keys = std::set<P, decltype(lt)>(old.begin(), old.end(), lt);
  CHECK_EQ(groups.size(), keys.size());
}

PROP(neighbouring_groups, 4) {
  auto v = items(c);
  auto const old = v;
  c.note("items ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const rel = c.draw(2);
  auto const by_key = rel != 0;
  auto const eq = [&](P const& x, P const& y) { return rel == 0 ? x == y : rel == 1 ? x.first == y.first : x.first % 2 == y.first % 2; };
  auto e = std::vector<Vec>{};
  for (auto const& x : v) {
    if (e.empty() || !eq(e.back()[0], x)) e.emplace_back();
    e.back().push_back(x);
  }
  auto groups = std::vector<Vec>{};
  auto const kind = c.draw(3);
  auto const run = [&](auto& cont) {
    auto pos = cont.begin();
    auto const fn = collect(groups, cont.begin(), pos, v.size());
    if (by_key) kind == 1 ? utl::equal_ranges_linear(cont.begin(), cont.end(), eq, fn) : utl::equal_ranges_linear(cont, eq, fn);
    else kind == 1 ? utl::equal_ranges_linear(cont.begin(), cont.end(), fn) : utl::equal_ranges_linear(cont, fn);
    CHECK(pos == cont.end(), "the last group is missing");
  };
  if (kind == 2) {
    auto const l = std::list<P>(v.begin(), v.end());
    run(l);
  } else if (kind == 3) {
    auto const& cv = v;
    run(cv);
  } else {
    run(v);
  }
  CHECK_EQ(groups, e);
  CHECK_EQ(v, old, "the container was modified");
}

namespace {
// elements whose own order and equality are not the ones to be used
struct N {
  int key, noise;
  bool operator<(N const& o) const { return noise < o.noise; }
  bool operator>(N const& o) const { return noise > o.noise; }
  bool operator<=(N const& o) const { return noise <= o.noise; }
  bool operator>=(N const& o) const { return noise >= o.noise; }
  bool operator==(N const& o) const { return noise == o.noise; }
  bool operator!=(N const& o) const { return noise != o.noise; }
};
}  // namespace

PROP(only_the_given_relation_counts, 2) {
  auto v = std::vector<N>(c.more(30));
  auto key = c.keys(c.of({0, 1, 3})), noise = c.keys(c.of({0, 1, 2}));
  for (auto& x : v) x = {key(), noise()}, c.note("key ", x.key, " noise ", x.noise);
  c.nontrivial(v.size() >= 2);
  auto e = std::vector<std::multiset<std::pair<int, int>>>{}, got = e;
  auto const add = [](auto& to, auto lo, auto hi) {
    to.emplace_back();
    for (; lo != hi; ++lo) to.back().emplace(lo->key, lo->noise);
  };
  auto fn = [&](auto lo, auto hi) { CHECK(lo != hi, "empty group"); add(got, lo, hi); CHECK(got.size() <= v.size(), "too many groups"); };
  auto const eq = [](N const& x, N const& y) { return x.key == y.key; };
  auto const lt = [](N const& x, N const& y) { return x.key < y.key; };
  auto const sorted = c.flip();
  auto ref = v;
  if (sorted) std::stable_sort(ref.begin(), ref.end(), lt);
  for (auto i = ref.begin(), j = i; i != ref.end(); i = j) {
    while (j != ref.end() && j->key == i->key) ++j;
    add(e, i, j);
  }
  if (sorted) utl::equal_ranges(v, lt, fn);
  else c.flip() ? utl::equal_ranges_linear(v, eq, fn) : utl::equal_ranges_linear(v.begin(), v.end(), eq, fn);
  CHECK_EQ(got, e, "groups");
}

PROP_HUGE(large_groups, 16) {
  auto g = c.bulk();
  auto v = std::vector<int>(c.huge());
  auto const keys = c.of<std::uint64_t>({0, 1, 300, 1000000});
  for (auto& x : v) x = static_cast<int>(g(keys));
  c.note(v.size(), " elements, keys up to ", keys);
  c.nontrivial();
  auto const groups_of = [](std::vector<int> const& x) {
    auto r = std::vector<std::pair<int, std::size_t>>{};
    for (auto const k : x) {
      if (r.empty() || r.back().first != k) r.emplace_back(k, 0U);
      ++r.back().second;
    }
    return r;
  };
  auto got = std::vector<std::pair<int, std::size_t>>{};
  auto fn = [&](auto lo, auto hi) { got.emplace_back(*lo, static_cast<std::size_t>(std::distance(lo, hi))); };
  auto l = v;
  utl::equal_ranges_linear(l, fn);
  CHECK(got == groups_of(v), "other groups of neighbours");
  got.clear();
  auto s = v;
  std::sort(s.begin(), s.end());
  utl::equal_ranges(v, fn);
  CHECK(v == s, "not sorted");
  CHECK(got == groups_of(s), "other groups");
}
