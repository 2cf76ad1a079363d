// R06: nwise and pairwise yield every window of neighbours.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/nwise.h"
#include "utl/pairwise.h"

using namespace pbt;

namespace {
template <typename C, std::size_t... I>
auto window(C const& v, std::size_t const i, std::index_sequence<I...>) { return std::array<int, sizeof...(I)>{v[i + I]...}; }
template <typename T>
auto arr(T const& t) { return std::apply([](auto const&... x) { return std::array<int, sizeof...(x)>{x...}; }, t); }

template <std::size_t N>
std::vector<std::array<int, N>> windows(std::vector<int> const& v) {
  auto r = std::vector<std::array<int, N>>{};
  for (auto i = std::size_t{0}; i + N <= v.size(); ++i) r.push_back(window(v, i, std::make_index_sequence<N>{}));
  return r;
}
template <std::size_t N, typename R>
void walk(R&& r, std::vector<std::array<int, N>> const& e) {
  auto got = std::vector<std::array<int, N>>{};
  for (auto const& t : r) {
    got.push_back(arr(t));
    CHECK(got.size() <= e.size(), "more than ", e.size(), " windows");
  }
  CHECK_EQ(got, e, "N = ", N);
  CHECK_EQ(r.size(), e.size(), "size, N = ", N);
  CHECK_EQ(r.begin() == r.end(), e.empty());
  CHECK_EQ(r.begin() != r.end(), !e.empty());
}
template <std::size_t N, typename C>
void check(C& cont, std::vector<int> const& v) {
  auto const e = windows<N>(v);
  walk<N>(utl::nwise<N>(cont), e);
  walk<N>(utl::nwise<N>(std::as_const(cont)), e);
  walk<N>(utl::nwise<N>(C{cont}), e);
}
template <typename C>
void any_n(Case& c, C& cont, std::vector<int> const& v) {
  auto const n = c.range(1, 6);
  c.note("N ", n);
  switch (n) {
    case 1: check<1>(cont, v); break;
    case 2: check<2>(cont, v); break;
    case 3: check<3>(cont, v); break;
    case 4: check<4>(cont, v); break;
    case 5: check<5>(cont, v); break;
    default: check<8>(cont, v); break;
  }
}
std::vector<int> ints(Case& c) {
  auto v = std::vector<int>(c.more(50));
  for (auto& x : v) x = c.range(-50, 50);
  return v;
}
}  // namespace

PROP(every_window, 4) {
  auto v = ints(c);
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  c.label_if(v.size() < 3, "shorter than a window of three");
  switch (c.draw(4)) {
    case 0: any_n(c, v, v); break;
    case 1: { auto d = std::deque<int>(v.begin(), v.end()); any_n(c, d, v); break; }
    case 2: { auto l = std::list<int>(v.begin(), v.end()); any_n(c, l, v); break; }
    case 3: { auto f = std::forward_list<int>(v.begin(), v.end()); any_n(c, f, v); break; }
    default: {
      auto s = std::multiset<int>(v.begin(), v.end());
      auto const sv = std::vector<int>(s.begin(), s.end());
      any_n(c, s, sv);
    }
  }
}

PROP(pairs, 3) {
  auto v = ints(c);
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const e = windows<2>(v);
  walk<2>(utl::pairwise(v), e);
  walk<2>(utl::pairwise(std::as_const(v)), e);
  walk<2>(utl::pairwise(std::vector<int>{v}), e);
  auto got = std::vector<std::array<int, 2>>{};
  for (auto it = utl::pairwise_begin(v); it != utl::pairwise_end(v); ++it) {
    auto const [a, b] = *it;
    got.push_back({a, b});
    CHECK(got.size() <= e.size(), "more than ", e.size(), " pairs");
  }
  CHECK_EQ(got, e, "pairwise_begin, pairwise_end");
  auto const& cv = v;
  CHECK_EQ(std::accumulate(utl::pairwise_begin(cv), utl::pairwise_end(cv), 0L,
                           [](long const s, auto const& p) { return s + std::get<1>(p) - std::get<0>(p); }),
           v.empty() ? 0L : static_cast<long>(v.back()) - v.front());
}

// elements are references into the container; nothing is skipped on writes
PROP(writes_go_through, 3) {
  auto v = ints(c);
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto e = v;
  for (auto i = std::size_t{1}; i < e.size(); ++i) e[i] = (e[i] + e[i - 1]) % 1000;
  if (c.flip()) {
    for (auto [a, b] : utl::pairwise(v)) b = (a + b) % 1000;
  } else {
    auto l = std::list<int>(v.begin(), v.end());
    for (auto [a, b] : utl::pairwise(l)) b = (a + b) % 1000;
    v.assign(l.begin(), l.end());
  }
  CHECK_EQ(v, e);
  auto i = std::size_t{0};
  for (auto const& [a, b, d] : utl::nwise<3>(v)) {
    CHECK(&a == &v[i] && &b == &v[i + 1] && &d == &v[i + 2], "copies at ", i);
    ++i;
  }
}

PROP_HUGE(large_containers, 16) {
  auto g = c.bulk();
  auto v = std::vector<int>(c.huge());
  for (auto& x : v) x = static_cast<int>(g(1000));
  c.note(v.size(), " elements");
  c.nontrivial();
  auto i = std::size_t{0};
  for (auto const& [a, b] : utl::pairwise(v)) {
    CHECK(&a == &v[i] && &b == &v[i + 1], "pair ", i);
    ++i;
  }
  CHECK_EQ(i + 1, v.size());
  auto const l = std::list<int>(v.begin(), v.end());
  i = 0;
  for (auto const& [a, b, d] : utl::nwise<3>(l)) {
    CHECK(a == v[i] && b == v[i + 1] && d == v[i + 2], "window ", i);
    ++i;
  }
  CHECK_EQ(i + 2, v.size());
  CHECK_EQ(utl::nwise<3>(v).size(), v.size() - 2);
  CHECK_EQ(utl::nwise<7>(l).size(), v.size() - 6);
  CHECK_EQ(utl::pairwise(v).size(), v.size() - 1);
}

namespace {
// several iterators over one range, stepped in any order
template <std::size_t N, typename R>
void wander(Case& c, R&& r, std::vector<std::array<int, N>> const& e) {
  using It = decltype(r.begin());
  auto its = std::vector<std::pair<It, std::size_t>>(3, {r.begin(), 0U});
  for (auto k = c.draw(30); k != 0; --k) {
    auto& [it, pos] = its[c.draw(2)];
    switch (c.draw(4)) {
      case 0: { auto const& [from, p] = its[c.draw(2)]; auto const copy = from; it = copy; pos = p; break; }
      case 1: it = r.begin(); pos = 0; break;
      case 2: {
        if (pos == e.size()) break;
        auto const& same = ++it;
        ++pos;
        CHECK(&same == &it, "++ yields another iterator");
        break;
      }
      default: if (pos != e.size()) { ++it; ++pos; }
    }
    CHECK_EQ(it == r.end(), pos == e.size(), "at ", pos);
    CHECK_EQ(it != r.end(), pos != e.size(), "at ", pos);
    for (auto const& [other, p] : its) {
      CHECK_EQ(it == other, pos == p, pos, " and ", p);
      CHECK_EQ(it != other, pos != p, pos, " and ", p);
      if (p == e.size()) continue;
      CHECK_EQ(arr(*other), e[p], "through a const iterator at ", p);
    }
    if (pos != e.size()) CHECK_EQ(arr(*it), e[pos], "at ", pos);
  }
}
template <std::size_t N, typename C>
void wander_all(Case& c, C& cont, std::vector<int> const& v) {
  auto const e = windows<N>(v);
  switch (c.draw(3)) {
    case 0: wander<N>(c, utl::nwise<N>(cont), e); break;
    case 1: wander<N>(c, utl::nwise<N>(std::as_const(cont)), e); break;
    case 2: wander<N>(c, utl::nwise<N>(C{cont}), e); break;
    default: {  // a copy and what was moved from the copy
      auto r = utl::nwise<N>(C{cont});
      auto copy = r;
      auto const moved = std::move(r);
      wander<N>(c, moved, e);
      wander<N>(c, copy, e);
    }
  }
}
}  // namespace

PROP(iterator_history, 2) {
  auto v = ints(c);
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 3);
  switch (c.draw(3)) {
    case 0: wander_all<2>(c, v, v); break;
    case 1: wander_all<3>(c, v, v); break;
    case 2: { auto l = std::list<int>(v.begin(), v.end()); wander_all<2>(c, l, v); break; }
    default: { auto f = std::forward_list<int>(v.begin(), v.end()); wander_all<4>(c, f, v); break; }
  }
}
