// A03: power_set_intersection visits every pair of equal elements once.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/power_set_intersection.h"

using namespace pbt;

namespace {
struct E { int key, id; };
bool operator<(E const& a, E const& b) { return a.key < b.key; }
std::ostream& operator<<(std::ostream& o, E const& e) { return o << e.key << "#" << e.id; }
template <typename K>
std::vector<E> sorted(Case& c, K key, int const first_id) {
  auto v = std::vector<E>(c.more(24));
  for (auto& x : v) x.key = key();
  std::sort(v.begin(), v.end());
  auto id = first_id;
  for (auto& x : v) x.id = id++;
  return v;
}
}  // namespace

PROP(every_pair_once, 4) {
  auto const keys = c.keys(c.of({0, 1, 2, 4, 15}));
  auto a = sorted(c, keys, 0);
  auto b = sorted(c, keys, 1000);
  auto const desc = c.chance(1, 4);
  if (desc) {
    std::reverse(a.begin(), a.end());
    std::reverse(b.begin(), b.end());
  }
  c.note("a ", str(a), "\nb ", str(b));
  c.nontrivial(!a.empty() && !b.empty());
  auto e = std::vector<std::pair<int, int>>{};
  for (auto const& x : a) for (auto const& y : b) if (x.key == y.key) e.emplace_back(x.id, y.id);
  c.label_if(!e.empty(), "common elements");
  c.label_if(e.size() >= 4, "several pairs");
  auto got = std::vector<std::pair<int, int>>{};
  auto fn = [&](E const& x, E const& y) {
    got.emplace_back(x.id, y.id);
    CHECK(got.size() <= e.size(), "more pairs than there are: ", str(got));
  };
  auto const lt = [](E const& x, E const& y) { return y < x; };
  switch (c.draw(2)) {
    case 0: desc ? utl::power_set_intersection(a, b, fn, lt) : utl::power_set_intersection(a, b, fn); break;
    case 1: desc ? utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), fn, lt) : utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), fn); break;
    default: {
      auto const la = std::list<E>(a.begin(), a.end()), lb = std::list<E>(b.begin(), b.end());
      desc ? utl::power_set_intersection(la, lb, fn, lt) : utl::power_set_intersection(la, lb, fn);
    }
  }
  std::sort(got.begin(), got.end());
  std::sort(e.begin(), e.end());
  CHECK_EQ(got, e, "(first of the first range, second of the second)");
}

namespace {
// elements whose own order is not the one to be used
struct N {
  int key, id, noise;
  bool operator<(N const& o) const { return noise < o.noise; }
  bool operator>(N const& o) const { return noise > o.noise; }
  bool operator==(N const& o) const { return noise == o.noise; }
};
}  // namespace

PROP(only_the_given_order_counts, 2) {
  auto key = c.keys(c.of({0, 1, 2, 4}));
  auto noise = c.keys(2);
  auto const side = [&](int id) {
    auto v = std::vector<N>(c.more(16));
    for (auto& x : v) x = {key(), 0, noise()};
    std::sort(v.begin(), v.end(), [](N const& x, N const& y) { return x.key < y.key; });
    for (auto& x : v) x.id = id++, c.note("key ", x.key, " id ", x.id, " noise ", x.noise);
    return v;
  };
  auto a = side(0), b = side(1000);
  c.nontrivial(!a.empty() && !b.empty());
  auto e = std::vector<std::pair<int, int>>{}, got = e;
  for (auto const& x : a) for (auto const& y : b) if (x.key == y.key) e.emplace_back(x.id, y.id);
  auto fn = [&](N const& x, N const& y) {
    got.emplace_back(x.id, y.id);
    CHECK(got.size() <= e.size(), "more pairs than there are: ", str(got));
  };
  auto const lt = [](N const& x, N const& y) { return x.key < y.key; };
  c.flip() ? utl::power_set_intersection(a, b, fn, lt) : utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), fn, lt);
  std::sort(got.begin(), got.end());
  std::sort(e.begin(), e.end());
  CHECK_EQ(got, e, "(first of the first range, second of the second)");
}

PROP_HUGE(long_ranges, 12) {
  auto g = c.bulk();
  auto const side = [&](std::size_t const n) {
    auto v = std::vector<E>(n);
    auto k = 0;
    for (auto i = std::size_t{0}; i != n; ++i) v[i] = {k += static_cast<int>(g(3) == 0 ? 0 : g(2)), static_cast<int>(i)};
    return v;
  };
  auto a = side(c.huge()), b = side(c.huge());
  if (c.chance(1, 4)) b = {{a.back().key, 7}};
  if (c.chance(1, 4)) for (auto& x : a) x.key = 5;
  if (a.back().key == 5) b = {{4, 0}, {5, 1}, {5, 2}, {6, 3}};
  c.note(a.size(), " and ", b.size(), " elements");
  c.nontrivial();
  auto e = std::vector<std::pair<int, int>>{}, got = e;
  for (auto i = std::size_t{0}, j = std::size_t{0}; i != a.size(); ++i) {
    while (j != b.size() && b[j].key < a[i].key) ++j;
    for (auto k = j; k != b.size() && b[k].key == a[i].key; ++k) e.emplace_back(a[i].id, b[k].id);
  }
  auto fn = [&](E const& x, E const& y) { got.emplace_back(x.id, y.id); };
  utl::power_set_intersection(a, b, fn);
  std::sort(got.begin(), got.end());
  std::sort(e.begin(), e.end());
  CHECK(got == e, "other pairs");
}
