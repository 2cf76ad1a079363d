// R04: zip walks several containers in lockstep.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/zip.h"

using namespace pbt;

namespace {
std::vector<int> ints(Case& c, std::size_t const n) {
  auto v = std::vector<int>(n);
  for (auto& x : v) x = c.range(-50, 50);
  return v;
}
std::vector<std::string> strs(Case& c, std::size_t const n) {
  auto v = std::vector<std::string>(n);
  for (auto& x : v) x = c.text(c.more(30), "abc");
  return v;
}
std::list<long> longs(Case& c, std::size_t const n) {
  auto v = std::list<long>(n);
  for (auto& x : v) x = c.range<long>(-50, 50);
  return v;
}
using Tup = std::tuple<int, std::string, long>;
std::vector<Tup> rows(std::vector<int> const& a, std::vector<std::string> const& b, std::list<long> const& l) {
  auto r = std::vector<Tup>{};
  auto it = l.begin();
  for (auto i = std::size_t{0}; i != a.size(); ++i, ++it) r.emplace_back(a[i], b[i], *it);
  return r;
}
template <typename Z>
std::vector<Tup> walk(Z&& z) {
  auto r = std::vector<Tup>{};
  for (auto&& [x, y, w] : z) r.emplace_back(x, y, w);
  return r;
}
// positions as a history of ++ and -- steps on one iterator
template <typename Z>
void history(Case& c, Z&& z, std::vector<Tup> const& e) {
  auto it = begin(z);
  auto const first = begin(z);
  auto const last = end(z);
  auto pos = std::size_t{0};
  for (auto k = c.draw(25); k != 0; --k) {
    if (c.chance(2, 3)) {
      if (pos == e.size()) continue;
      ++it, ++pos;
    } else {
      if (pos == 0) continue;
      --it, --pos;
    }
    CHECK_EQ(it == first, pos == 0, "at ", pos);
    CHECK_EQ(it != first, pos != 0, "at ", pos);
    CHECK_EQ(it == last, pos == e.size(), "at ", pos);
    CHECK_EQ(it != last, pos != e.size(), "at ", pos);
    if (pos != e.size()) {
      auto const [x, y, w] = *it;
      CHECK_EQ((Tup{x, y, w}), e[pos], "at ", pos);
      auto const copy = it;
      auto const [x1, y1, w1] = *copy;
      CHECK_EQ((Tup{x1, y1, w1}), e[pos], "copy at ", pos);
    }
  }
}
}  // namespace

PROP(lockstep, 4) {
  auto const n = c.more(40);
  auto a = ints(c, n);
  auto b = strs(c, n);
  auto l = longs(c, n);
  auto const e = rows(a, b, l);
  auto const kind = c.draw(8);
  c.note("rows ", str(e), ", kind ", kind);
  c.nontrivial(n >= 2);
  switch (kind) {
    case 0: { auto z = utl::zip(a, b, l); CHECK_EQ(walk(z), e); CHECK_EQ(z.size(), n); history(c, z, e); break; }
    case 1: { auto const z = utl::zip(a, b, l); CHECK_EQ(walk(z), e); CHECK_EQ(z.size(), n); history(c, z, e); break; }
    case 2: { auto const z = utl::czip(a, b, l); CHECK_EQ(walk(z), e); CHECK_EQ(z.size(), n); history(c, z, e); break; }
    case 3: {
      auto const& ca = a;
      auto const& cb = b;
      auto const& cl = l;
      auto z = utl::zip(ca, cb, cl);
      CHECK_EQ(walk(z), e);
      history(c, z, e);
      break;
    }
    case 4: { auto z = utl::zip_unchecked(a, b, l); CHECK_EQ(walk(z), e); history(c, z, e); break; }
    case 5: { auto const z = utl::czip_no_size_check(a, b, l); CHECK_EQ(walk(z), e); break; }
    case 6: { auto z = utl::zip(std::vector<int>{a}, b, std::list<long>{l}); CHECK_EQ(walk(z), e); history(c, z, e); break; }
    case 7: { auto z = utl::zip_no_size_check(a, b, l); CHECK_EQ(walk(z), e); break; }
    default: { auto const z = utl::czip_unchecked(a, b, l); CHECK_EQ(walk(z), e); history(c, z, e); break; }
  }
  auto z = utl::zip(a, b, l);
  auto const cz = utl::czip(a, b, l);
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const [x, y, w] = z[i];
    CHECK_EQ((Tup{x, y, w}), e[i], "operator[]");
    auto const [x1, y1, w1] = cz[i];
    CHECK_EQ((Tup{x1, y1, w1}), e[i], "const operator[]");
  }
  CHECK_EQ(static_cast<std::size_t>(std::distance(begin(z), end(z))), n);
  // standard algorithms
  auto const limit = c.range(-50, 50);
  CHECK_EQ(std::count_if(begin(cz), end(cz), [&](auto&& t) { return std::get<0>(t) < limit; }),
           std::count_if(e.begin(), e.end(), [&](auto&& t) { return std::get<0>(t) < limit; }));
}

// one to five containers; the same one several times
PROP(numbers_of_containers, 2) {
  auto const n = c.more(20);
  auto const a = ints(c, n);
  auto const b = ints(c, n);
  auto const d = std::deque<int>(a.begin(), a.end());
  auto const s = strs(c, n);
  c.note("a ", str(a), ", b ", str(b));
  c.nontrivial(n >= 2);
  auto i = std::size_t{0};
  for (auto const [x] : utl::zip(a)) CHECK_EQ(x, a[i++]);
  CHECK_EQ(i, n);
  i = 0;
  for (auto const [x, y] : utl::zip(a, b)) { CHECK_EQ(x, a[i]); CHECK_EQ(y, b[i]); ++i; }
  CHECK_EQ(i, n);
  i = 0;
  for (auto const [x, y, z, w] : utl::czip(a, b, d, s)) { CHECK_EQ(x, a[i]); CHECK_EQ(y, b[i]); CHECK_EQ(z, a[i]); CHECK_EQ(w, s[i]); ++i; }
  CHECK_EQ(i, n);
  i = 0;
  for (auto const [x, y, z, w, v] : utl::zip(a, a, b, d, s)) { CHECK_EQ(x, a[i]); CHECK_EQ(y, a[i]); CHECK_EQ(z, b[i]); CHECK_EQ(w, a[i]); CHECK_EQ(v, s[i]); ++i; }
  CHECK_EQ(i, n);
}

// the elements are the containers' own
PROP(writes_go_through, 3) {
  auto const n = c.more(30);
  auto a = ints(c, n);
  auto b = strs(c, n);
  auto l = longs(c, n);
  auto ea = a;
  auto eb = b;
  auto el = std::vector<long>{l.begin(), l.end()};
  c.note("a ", str(a), ", b ", str(b));
  c.nontrivial(n >= 2);
  auto const add = c.range(1, 9);
  auto const kind = c.draw(3);
  auto i = std::size_t{0};
  switch (kind) {
    case 0:
      for (auto [x, y, w] : utl::zip(a, b, l)) { x += add; y += "!"; w = x; }
      for (; i != n; ++i) { ea[i] += add; eb[i] += "!"; el[i] = ea[i]; }
      break;
    case 1: {
      auto z = utl::zip(a, b, l);
      auto const at = c.draw(20);
      for (auto it = begin(z); it != end(z); ++it, ++i) {
        if (i == at) { auto [x, y, w] = *it; y = "changed"; w = 1000; x = add; }
      }
      if (at < n) { eb[at] = "changed"; el[at] = 1000; ea[at] = add; }
      break;
    }
    case 2: {
      auto z = utl::zip(a, b, l);
      if (n == 0) return;
      auto const at = c.below(n);
      auto [x, y, w] = z[at];
      x = 77, y.clear(), w -= 5;
      ea[at] = 77, eb[at].clear(), el[at] -= 5;
      break;
    }
    default: {
      // one container read only, one temporary
      auto const& cb = b;
      for (auto [x, y, w] : utl::zip(a, cb, std::vector<int>(n, add))) {
        static_assert(std::is_const_v<std::remove_reference_t<decltype(y)>>);
        x += w;
      }
      for (auto& x : ea) x += add;
    }
  }
  CHECK_EQ(a, ea);
  CHECK_EQ(b, eb);
  CHECK_EQ((std::vector<long>{l.begin(), l.end()}), el);
  for (auto&& t : utl::czip(a, b)) {
    static_assert(std::is_const_v<std::remove_reference_t<std::tuple_element_t<0, std::decay_t<decltype(t)>>>>);
    static_assert(std::is_const_v<std::remove_reference_t<std::tuple_element_t<1, std::decay_t<decltype(t)>>>>);
  }
}

// no element is copied
namespace {
struct Counted {
  explicit Counted(int const v) : v_{v} {}
  Counted(Counted const& o) : v_{o.v_} { ++copies; }
  Counted(Counted&& o) noexcept : v_{o.v_} {}
  Counted& operator=(Counted const& o) { v_ = o.v_; ++copies; return *this; }
  Counted& operator=(Counted&& o) noexcept { v_ = o.v_; return *this; }
  int v_;
  static inline int copies = 0;
};
}  // namespace
PROP(no_copies, 1) {
  auto const n = c.more(20);
  auto mk = [&] {
    auto v = std::vector<Counted>{};
    for (auto i = std::size_t{0}; i != n; ++i) v.emplace_back(static_cast<int>(i));
    return v;
  };
  auto a = mk();
  auto const b = mk();
  c.note("n ", n);
  c.nontrivial(n >= 2);
  Counted::copies = 0;
  auto sum = 0;
  for (auto&& [x, y] : utl::zip(a, b)) sum += x.v_ + y.v_;
  for (auto&& [x, y] : utl::czip(a, b)) sum += x.v_ + y.v_;
  for (auto&& [x, y] : utl::zip(mk(), b)) sum += x.v_ + y.v_;
  auto e = 0;
  for (auto const& x : b) e += 6 * x.v_;
  CHECK_EQ(sum, e);
  CHECK_EQ(Counted::copies, 0);
}

PROP(different_sizes_are_refused, 2) {
  auto const n = c.more(12);
  auto const m = c.more(12);
  auto const k = c.more(12);
  auto const a = ints(c, n);
  auto const b = strs(c, m);
  auto const l = longs(c, k);
  c.note("sizes ", n, " ", m, " ", k);
  auto const refused = [](auto&& fn) {
    try {
      fn();
    } catch (std::exception const&) {
      return true;
    }
    return false;
  };
  c.nontrivial(n != m || m != k);
  c.label_if(n == m && m == k, "equal sizes");
  CHECK_EQ(refused([&] { (void)utl::zip(a, b); }), n != m);
  CHECK_EQ(refused([&] { (void)utl::czip(a, b); }), n != m);
  CHECK_EQ(refused([&] { (void)utl::zip(a, b, l); }), n != m || n != k);
  CHECK_EQ(refused([&] { (void)utl::czip(b, a, l); }), n != m || n != k);
  CHECK_EQ(refused([&] { (void)utl::zip(a, a, a, l); }), n != k);
  CHECK_EQ(refused([&] { (void)utl::zip(std::list<long>{l}, a, a, a); }), n != k);
  CHECK_EQ(refused([&] { (void)utl::czip(l, l, a, l, l); }), n != k);
}

// containers larger than memory: their elements are computed
namespace {
struct Vast {
  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::uint64_t;
    using difference_type = std::ptrdiff_t;
    using pointer = value_type const*;
    using reference = value_type;
    reference operator*() const { return i * 3; }
    iterator& operator++() { return ++i, *this; }
    iterator operator++(int) { return {i++}; }
    iterator& operator--() { return --i, *this; }
    bool operator==(iterator const& o) const { return i == o.i; }
    bool operator!=(iterator const& o) const { return i != o.i; }
    std::uint64_t i;
  };
  using const_iterator = iterator;
  iterator begin() const { return {0}; }
  iterator end() const { return {n}; }
  std::size_t size() const { return n; }
  std::uint64_t n;
};
}  // namespace
PROP(vast_containers, 1) {
  auto const small = c.below(6);
  auto const vast = [&] { return Vast{(c.below(3) << c.of({32, 33, 40, 16, 8})) + (c.chance(1, 4) ? c.below(6) : small)}; };
  auto const a = vast(), b = vast(), d = vast();
  auto const l = ints(c, small);
  c.note("sizes ", a.n, " ", b.n, " ", d.n, " ", small);
  c.nontrivial(std::max({a.n, b.n, d.n}) > 0xFFFFU);
  auto const refused = [](auto&& fn) {
    try {
      fn();
    } catch (std::exception const&) {
      return true;
    }
    return false;
  };
  CHECK_EQ(refused([&] { (void)utl::zip(a, b, d); }), a.n != b.n || b.n != d.n);
  CHECK_EQ(refused([&] { (void)utl::czip(a, l); }), a.n != small);
  CHECK_EQ(refused([&] { (void)utl::zip(l, d); }), d.n != small);
  if (a.n != b.n || a.n == 0) return;
  auto const z = utl::zip(a, b);
  CHECK_EQ(z.size(), a.n);
  auto it = z.end();
  --it;
  CHECK((*it == std::tuple{(a.n - 1) * 3, (a.n - 1) * 3}), "the last elements");
  it = z.begin();
  for (auto i = std::uint64_t{0}; i != std::min(a.n, std::uint64_t{4}); ++i, ++it) CHECK((*it == std::tuple{i * 3, i * 3}), "element ", i);
}

// sizes which a narrow counter confuses with each other
PROP_HUGE(large_containers, 16) {
  auto const n = c.huge();
  auto const m = c.flip() ? n : n % 256 + (c.flip() ? 0 : 256);
  c.note("sizes ", n, " ", m);
  c.nontrivial();
  auto a = std::vector<int>(n);
  std::iota(a.begin(), a.end(), 0);
  auto const b = std::deque<long>(m, 3);
  auto const refused = [](auto&& fn) {
    try {
      fn();
    } catch (std::exception const&) {
      return true;
    }
    return false;
  };
  CHECK_EQ(refused([&] { (void)utl::zip(a, b); }), n != m);
  CHECK_EQ(refused([&] { (void)utl::czip(a, a, b); }), n != m);
  if (n != m) return;
  auto i = std::size_t{0};
  for (auto [x, y] : utl::zip(a, b)) {
    CHECK_EQ(static_cast<std::size_t>(x), i);
    CHECK_EQ(y, 3L);
    ++i;
  }
  CHECK_EQ(i, n);
  auto z = utl::zip(a, b);
  CHECK_EQ(z.size(), n);
  CHECK_EQ(static_cast<std::size_t>(std::distance(begin(z), end(z))), n);
  auto const at = c.below(n);
  CHECK_EQ(static_cast<std::size_t>(std::get<0>(z[at])), at);
  i = 0;
  for (auto [x, y] : utl::zip_unchecked(a, b)) i += static_cast<std::size_t>(x) + static_cast<std::size_t>(y) - 3;
  CHECK_EQ(i, n * (n - 1) / 2);
}

namespace {
template <typename Z>
void ordered(Case& c, Z&& z, std::size_t const n) {
  for (auto k = 0; k != 6; ++k) {
    auto const i = c.draw(n), j = c.draw(n);
    auto const x = std::next(begin(z), static_cast<long>(i)), y = std::next(begin(z), static_cast<long>(j));
    CHECK_EQ(x < y, i < j, i, " and ", j);
    CHECK_EQ(x <= y, i <= j, i, " and ", j);
    CHECK_EQ(x > y, i > j, i, " and ", j);
    CHECK_EQ(x >= y, i >= j, i, " and ", j);
    CHECK_EQ(x == y, i == j, i, " and ", j);
    CHECK_EQ(std::distance(std::min(x, y), std::max(x, y)), static_cast<long>(std::max(i, j) - std::min(i, j)));
  }
  auto steps = std::size_t{0};
  for (auto it = begin(z); it < end(z); ++it) ++steps;
  CHECK_EQ(steps, n, "steps while below the end");
}
}  // namespace

PROP(positions_are_ordered, 1) {
  auto const n = c.more(40);
  auto a = ints(c, n);
  auto b = strs(c, n);
  auto d = std::deque<int>(a.begin(), a.end());
  c.note(n, " rows");
  c.nontrivial(n >= 2);
  auto z = utl::zip(a, b, d);
  auto const cz = utl::czip(d, a);
  ordered(c, z, n);
  ordered(c, std::as_const(z), n);
  ordered(c, cz, n);
  auto const single = utl::zip(std::vector<int>{a});
  ordered(c, single, n);
}
