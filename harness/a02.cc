// A02: sorted_diff reports exactly what turns one sequence into the other.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/sorted_diff.h"

using namespace pbt;

namespace {
struct E {
  int key, value;
  bool operator==(E const&) const = default;
  // unrelated to the orders that are given
  bool operator<(E const& o) const { return std::pair(value, o.key) < std::pair(o.value, key); }
};
std::ostream& operator<<(std::ostream& o, E const& e) { return o << e.key << ":" << e.value; }
using Vec = std::vector<E>;
template <typename K>
Vec sorted(Case& c, bool const unique, K key) {
  auto v = Vec(c.more(40));
  for (auto& x : v) x = {key(), c.range(0, 2)};
  std::stable_sort(v.begin(), v.end(), [](E const& x, E const& y) { return x.key < y.key; });
  if (unique) v.erase(std::unique(v.begin(), v.end(), [](E const& x, E const& y) { return x.key == y.key; }), v.end());
  return v;
}
struct Ev {
  char kind;  // +, -, ~
  E from, to;
  bool operator==(Ev const&) const = default;
};
std::ostream& operator<<(std::ostream& o, Ev const& e) { return o << e.kind << e.from << "/" << e.to; }
// the i-th elements with one key belong together
std::vector<Ev> model(Vec const& a, Vec const& b, int const mod) {
  auto m = std::map<int, std::pair<Vec, Vec>>{};
  for (auto const& x : a) m[x.key].first.push_back(x);
  for (auto const& x : b) m[x.key].second.push_back(x);
  auto r = std::vector<Ev>{};
  for (auto const& [k, p] : m) {
    for (auto i = std::size_t{0}; i < std::max(p.first.size(), p.second.size()); ++i) {
      if (i >= p.first.size()) r.push_back({'+', {}, p.second[i]});
      else if (i >= p.second.size()) r.push_back({'-', p.first[i], {}});
      else if (p.first[i].value % mod != p.second[i].value % mod) r.push_back({'~', p.first[i], p.second[i]});
    }
  }
  return r;
}
struct Log {
  void operator()(utl::op const o, E const& e) {
    CHECK(o == utl::op::kAdd || o == utl::op::kDel);
    got.push_back(o == utl::op::kAdd ? Ev{'+', {}, e} : Ev{'-', e, {}});
  }
  void operator()(E const& a, E const& b) { got.push_back({'~', a, b}); }
  std::vector<Ev> got;
};
}  // namespace

PROP(edit_script, 4) {
  auto const unique = c.chance(2, 3);
  auto const keys = c.keys(c.of({1, 4, 12, 40}));
  auto a = sorted(c, unique, keys);
  auto b = sorted(c, unique, keys);
  if (c.chance(1, 5)) b = a;
  c.note("a ", str(a), "\nb ", str(b));
  c.nontrivial(!a.empty() && !b.empty());
  c.label_if(!unique, "duplicate keys");
  auto const desc = c.chance(1, 5);
  auto lt = [&](E const& x, E const& y) { return desc ? x.key > y.key : x.key < y.key; };
  auto const mod = c.of({3, 3, 2, 1});
  auto eq = [&](E const& x, E const& y) {
    CHECK_EQ(x.key, y.key, "compared elements with different keys");
    return x.value % mod == y.value % mod;
  };
  if (desc) {
    std::stable_sort(a.begin(), a.end(), lt);
    std::stable_sort(b.begin(), b.end(), lt);
  }
  auto log = Log{};
  switch (c.draw(2)) {
    case 0: utl::sorted_diff(a, b, lt, eq, log); break;
    case 1: utl::sorted_diff(a.begin(), a.end(), b.begin(), b.end(), lt, eq, log); break;
    default: {
      auto const la = std::list<E>(a.begin(), a.end()), lb = std::list<E>(b.begin(), b.end());
      utl::sorted_diff(la, lb, lt, eq, log);
    }
  }
  auto e = model(a, b, mod);
  if (desc) {
    auto const key = [](Ev const& x) { return x.kind == '+' ? x.to.key : x.from.key; };
    std::stable_sort(e.begin(), e.end(), [&](Ev const& x, Ev const& y) { return key(x) > key(y); });
  }
  CHECK_EQ(log.got, e);
  // applying it to a gives b
  auto ms = std::multiset<std::pair<int, int>>{};
  for (auto const& x : a) ms.emplace(x.key, x.value);
  for (auto const& x : log.got) {
    if (x.kind != '+') {
      auto const it = ms.find({x.from.key, x.from.value});
      CHECK(it != ms.end(), "removes what is not there: ", x.from);
      ms.erase(it);
    }
    if (x.kind != '-') ms.emplace(x.to.key, x.to.value);
  }
  auto mb = std::multiset<std::pair<int, int>>{};
  for (auto const& x : b) mb.emplace(x.key, x.value);
  if (mod == 3) CHECK_EQ(ms, mb, "applied to the first sequence");
}

PROP(names_of_operations, 1) {
  auto const o = c.flip() ? utl::op::kAdd : utl::op::kDel;
  CHECK_EQ(utl::to_str(o), (o == utl::op::kAdd ? std::string_view{"add"} : std::string_view{"del"}));
  auto const a = sorted(c, true, c.keys(5));
  auto log = Log{};
  auto const lt = [](E const& x, E const& y) { return x.key < y.key; };
  auto const eq = [](E const& x, E const& y) { return x == y; };
  utl::sorted_diff(a, a, lt, eq, log);
  CHECK(log.got.empty(), "a sequence differs from itself: ", str(log.got));
  utl::sorted_diff(a, Vec{}, lt, eq, log);
  CHECK_EQ(log.got.size(), a.size());
  c.nontrivial(!a.empty());
}

PROP_HUGE(long_sequences, 12) {
  auto g = c.bulk();
  auto const side = [&](std::size_t const n) {
    auto v = Vec(n);
    auto k = 0;
    for (auto& x : v) x = {k += static_cast<int>(g(2)), static_cast<int>(g(1))};
    return v;
  };
  auto const a = side(c.huge()), b = side(c.huge());
  c.note(a.size(), " and ", b.size(), " elements");
  c.nontrivial();
  auto const lt = [](E const& x, E const& y) { return x.key < y.key; };
  auto const eq = [](E const& x, E const& y) { return x.value == y.value; };
  auto log = Log{};
  utl::sorted_diff(a, b, lt, eq, log);
  CHECK(log.got == model(a, b, 3), "another edit script");
}
