// R05: enumerate yields every element with its position.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/enumerate.h"

using namespace pbt;

namespace {
std::vector<int> ints(Case& c, std::size_t const n) {
  auto v = std::vector<int>(n);
  for (auto& x : v) x = c.range(-50, 50);
  return v;
}
template <typename C>
void walk(C&& cont, std::vector<int> const& e) {
  auto i = std::size_t{0};
  for (auto const [n, x] : utl::enumerate(std::forward<C>(cont))) {
    CHECK(i < e.size(), "more than ", e.size(), " elements");
    CHECK_EQ(n, i);
    CHECK_EQ(x, e[i]);
    ++i;
  }
  CHECK_EQ(i, e.size());
}
}  // namespace

PROP(indices_and_elements, 4) {
  auto v = ints(c, c.more(60));
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const old = v;
  auto const d = std::deque<int>(v.begin(), v.end());
  auto const l = std::list<int>(v.begin(), v.end());
  auto const f = std::forward_list<int>(v.begin(), v.end());
  auto const ms = std::multiset<int>(v.begin(), v.end());
  walk(v, v);
  walk(std::as_const(v), v);
  walk(std::vector<int>{v}, v);
  walk(d, v);
  walk(l, v);
  walk(f, v);
  walk(std::list<int>{l}, v);
  walk(ms, std::vector<int>(ms.begin(), ms.end()));
  int arr[5] = {1, 2, 3, 4, c.range(0, 9)};
  walk(arr, std::vector<int>(arr, arr + 5));
  auto bits = std::vector<bool>{};
  for (auto const x : v) bits.push_back(x > 0);
  auto i = std::size_t{0};
  for (auto const [n, b] : utl::enumerate(bits)) { CHECK_EQ(n, i); CHECK_EQ(static_cast<bool>(b), v[i] > 0); ++i; }
  CHECK_EQ(i, v.size());
  CHECK_EQ(v, old);
}

PROP(elements_are_references, 3) {
  auto v = ints(c, c.more(40));
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto e = v;
  auto const at = c.below(45);
  for (auto [i, x] : utl::enumerate(v)) {
    CHECK(&x == &v[i], "element ", i, " is a copy");
    x += static_cast<int>(i);
    if (i == at) x = 1000;
  }
  for (auto i = std::size_t{0}; i != e.size(); ++i) e[i] = i == at ? 1000 : e[i] + static_cast<int>(i);
  CHECK_EQ(v, e);
  auto const& cv = v;
  for (auto const [i, x] : utl::enumerate(cv)) CHECK(&x == &cv[i], "element ", i, " is a copy");
  auto l = std::list<int>(v.begin(), v.end());
  for (auto [i, x] : utl::enumerate(l)) x -= static_cast<int>(i);
  auto i = 0;
  for (auto const x : l) { CHECK_EQ(x, v[static_cast<std::size_t>(i)] - i); ++i; }
}

// a range of pointers yields the pointers
PROP(pointers, 2) {
  auto v = ints(c, c.more(40));
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto p = std::vector<int*>{};
  for (auto& x : v) p.push_back(&x);
  std::reverse(p.begin(), p.end());
  auto i = std::size_t{0};
  for (auto const [n, x] : utl::enumerate(p)) {
    CHECK_EQ(n, i);
    CHECK(x == p[i], "wrong pointer at ", i);
    ++i;
  }
  CHECK_EQ(i, p.size());
}

namespace {
// it is a position in a sequence, whichever way it got there
template <typename C>
void history(Case& c, C& cont, std::vector<int> const& v, bool const from_end) {
  auto e = utl::enumerate(cont);
  auto const n = static_cast<std::ptrdiff_t>(v.size());
  auto it = e.begin();
  auto const first = e.begin();
  auto const last = e.end();
  auto pos = std::ptrdiff_t{0};
  using It = decltype(it);
  using Cat = typename std::iterator_traits<It>::iterator_category;
  constexpr auto random = std::is_base_of_v<std::random_access_iterator_tag, Cat>;
  constexpr auto bidir = std::is_base_of_v<std::bidirectional_iterator_tag, Cat>;
  if (from_end) {
    it = e.end();
    pos = n;
  }
  c.label_if(from_end && bidir && n != 0, "backwards from the end");
  for (auto k = c.draw(20); k != 0; --k) {
    auto const op = c.draw(7);
    switch (op) {
      case 0:
      case 1: if (pos != n) { ++it; ++pos; } break;
      case 2:
        if (pos != n) {
          auto const old = it++;
          auto const [i, x] = *old;
          CHECK_EQ(i, static_cast<std::size_t>(pos), "it++");
          CHECK_EQ(x, v[static_cast<std::size_t>(pos)], "it++");
          ++pos;
        }
        break;
      case 3: if constexpr (bidir) { if (pos != 0) { --it; --pos; } } break;
      case 4:
        if constexpr (bidir) {
          if (pos != 0) {
            auto const old = it--;
            if (pos != n) {
              auto const [i, x] = *old;
              CHECK_EQ(i, static_cast<std::size_t>(pos), "it--");
              CHECK_EQ(x, v[static_cast<std::size_t>(pos)], "it--");
            }
            --pos;
          }
        }
        break;
      case 5:
        if constexpr (random) {
          auto const d = c.range<std::ptrdiff_t>(-pos, n - pos);
          c.note("+= ", d);
          it += d;
          pos += d;
        }
        break;
      case 6:
        if constexpr (random) {
          auto const d = c.range<std::ptrdiff_t>(pos - n, pos);
          c.note("-= ", d);
          it -= d;
          pos -= d;
        }
        break;
      default: {
        auto const copy = it;
        it = copy;
        break;
      }
    }
    c.note("op ", op, " -> position ", pos);
    CHECK_EQ(it != last, pos != n);
    CHECK_EQ(it != first, pos != 0);
    if constexpr (random) {
      CHECK_EQ(it - first, pos);
      CHECK_EQ(first - it, -pos);
      CHECK_EQ(last - it, n - pos);
      CHECK_EQ(last - first, n);
    } else {
      CHECK_EQ(it - first, pos);
      CHECK_EQ(last - it, n - pos);
      CHECK_EQ(last - first, n);
    }
    if (pos != n) {
      auto const [i, x] = *it;
      CHECK_EQ(i, static_cast<std::size_t>(pos));
      CHECK_EQ(x, v[static_cast<std::size_t>(pos)]);
    }
  }
}
}  // namespace

PROP(iterator_history, 4) {
  auto v = ints(c, c.more(30));
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const from_end = c.flip();
  switch (c.draw(4)) {
    case 4: { auto const s = std::multiset<int>(v.begin(), v.end()); history(c, s, std::vector<int>(s.begin(), s.end()), from_end); break; }
    case 0: history(c, v, v, from_end); break;
    case 1: { auto const d = std::deque<int>(v.begin(), v.end()); history(c, d, v, from_end); break; }
    case 2: { auto l = std::list<int>(v.begin(), v.end()); history(c, l, v, from_end); break; }
    default: { auto l = std::forward_list<int>(v.begin(), v.end()); history(c, l, v, from_end); break; }
  }
}

namespace {
// the numbers from first on, 2^40 of them: nothing is stored
struct Numbers {
  struct It {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = std::int64_t;
    using difference_type = std::ptrdiff_t;
    using pointer = std::int64_t const*;
    using reference = std::int64_t;
    std::int64_t operator*() const { return p; }
    std::int64_t operator[](difference_type const n) const { return p + n; }
    It& operator++() { ++p; return *this; }
    It operator++(int) { return It{p++}; }
    It& operator--() { --p; return *this; }
    It operator--(int) { return It{p--}; }
    It& operator+=(difference_type const n) { p += n; return *this; }
    It& operator-=(difference_type const n) { p -= n; return *this; }
    friend It operator+(It const a, difference_type const n) { return It{a.p + n}; }
    friend It operator+(difference_type const n, It const a) { return It{a.p + n}; }
    friend It operator-(It const a, difference_type const n) { return It{a.p - n}; }
    friend difference_type operator-(It const a, It const b) { return a.p - b.p; }
    auto operator<=>(It const&) const = default;
    std::int64_t p{0};
  };
  It begin() const { return It{first}; }
  It end() const { return It{first + (std::int64_t{1} << 40)}; }
  std::int64_t first;
};
}  // namespace
PROP(far_positions, 1) {
  auto const n = Numbers{c.range<std::int64_t>(-1000, 1000)};
  auto e = utl::enumerate(n);
  auto it = e.begin();
  auto pos = std::int64_t{0};
  c.nontrivial();
  for (auto k = 1 + c.draw(8); k != 0; --k) {
    auto d = std::int64_t{1} << c.range(0, 39);
    d += c.range<std::int64_t>(-3, 3);
    if (c.flip()) d = -d;
    if (pos + d < 0 || pos + d >= std::int64_t{1} << 40) d = -pos;
    c.note("+= ", d);
    if (c.flip()) it += d; else it -= -d;
    pos += d;
    CHECK_EQ(it - e.begin(), pos);
    CHECK_EQ(e.end() - it, (std::int64_t{1} << 40) - pos);
    auto const [i, x] = *it;
    CHECK_EQ(i, static_cast<std::size_t>(pos));
    CHECK_EQ(x, n.first + pos);
    auto step = it;
    ++step;
    if (pos + 1 != std::int64_t{1} << 40) CHECK_EQ(std::get<0>(*step), static_cast<std::size_t>(pos + 1));
    if (pos != 0) { step = it; --step; CHECK_EQ(std::get<0>(*step), static_cast<std::size_t>(pos - 1)); }
  }
}

// positions beyond the range of narrow integers
PROP_HUGE(large_containers, 16) {
  auto v = std::vector<int>(c.huge());
  std::iota(v.begin(), v.end(), 7);
  c.note(v.size(), " elements");
  c.nontrivial();
  walk(v, v);
  walk(std::list<int>(v.begin(), v.end()), v);
  auto const backwards = [&](auto&& container, char const* const name) {
    auto r = utl::enumerate(container);
    auto at = r.end();
    for (auto n = v.size(); n != 0; --n) {
      --at;
      auto const [i, x] = *at;
      CHECK_EQ(i, n - 1, "position from behind in a ", name);
      CHECK_EQ(x, v[n - 1], "element from behind in a ", name);
    }
    CHECK(!(at != r.begin()), "the begin of a ", name);
  };
  backwards(std::list<int>(v.begin(), v.end()), "list");
  backwards(std::set<int>(v.begin(), v.end()), "set");
  backwards(std::deque<int>(v.begin(), v.end()), "deque");
  auto e = utl::enumerate(v);
  auto it = e.begin();
  auto const d = c.range<std::ptrdiff_t>(0, static_cast<std::ptrdiff_t>(v.size()) - 1);
  it += d;
  auto const [i, x] = *it;
  CHECK_EQ(i, static_cast<std::size_t>(d));
  CHECK_EQ(x, v[i]);
  CHECK_EQ(it - e.begin(), d);
  CHECK_EQ(e.end() - it, static_cast<std::ptrdiff_t>(v.size()) - d);
  auto back = e.end();
  --back;
  CHECK_EQ(std::get<0>(*back), v.size() - 1);
}
