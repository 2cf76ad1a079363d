// R07: iterators built from a few operations behave like positions.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/iterator_facade.h"

using namespace pbt;

namespace {
using Vec = std::vector<int>;
// random access, by value
struct Square : utl::iterator_facade<Square> {
  Square() = default;
  explicit Square(long const i) : i_{i} {}
  long dereference() const { return i_ * i_; }
  void advance(std::ptrdiff_t const n) { i_ += n; }
  std::ptrdiff_t distance_to(Square const& o) const { return o.i_ - i_; }
  long i_{0};
};
// the positions themselves, also very distant ones
struct Number : utl::iterator_facade<Number> {
  Number() = default;
  explicit Number(long const i) : i_{i} {}
  long dereference() const { return i_; }
  void advance(std::ptrdiff_t const n) { i_ += n; }
  std::ptrdiff_t distance_to(Number const& o) const { return o.i_ - i_; }
  long i_{0};
};
// random access, with increment, decrement and equal_to of its own
struct Full : utl::iterator_facade<Full> {
  Full() = default;
  explicit Full(int* p) : p_{p} {}
  int& dereference() const { return *p_; }
  void increment() { ++p_; ++calls; }
  void decrement() { --p_; ++calls; }
  void advance(std::ptrdiff_t const n) { p_ += n; }
  std::ptrdiff_t distance_to(Full const& o) const { return o.p_ - p_; }
  bool equal_to(Full const& o) const { return p_ == o.p_; }
  int* p_{nullptr};
  int calls{0};
};
// bidirectional
struct Node { int v; Node *prev, *next; };
struct Bidir : utl::iterator_facade<Bidir> {
  Bidir() = default;
  explicit Bidir(Node* n) : n_{n} {}
  Node& dereference() const { return *n_; }
  void increment() { n_ = n_->next; }
  void decrement() { n_ = n_->prev; }
  bool equal_to(Bidir const& o) const { return n_ == o.n_; }
  Node* n_{nullptr};
};
// forward, with a sentinel
struct End {};
struct Until : utl::iterator_facade<Until> {
  using sentinel_type = End;
  explicit Until(char const* s) : s_{s} {}
  char dereference() const { return *s_; }
  void increment() { ++s_; }
  bool at_end() const { return *s_ == '\0'; }
  bool equal_to(Until const& o) const { return s_ == o.s_; }
  char const* s_;
};
// single pass
struct Reader : utl::iterator_facade<Reader> {
  static constexpr bool single_pass_iterator = true;
  using sentinel_type = End;
  explicit Reader(std::deque<int>* q) : q_{q} {}
  int dereference() const { return q_->front(); }
  void increment() { q_->pop_front(); }
  bool at_end() const { return q_->empty(); }
  std::deque<int>* q_;
};
// steps of one only
struct Step : utl::iterator_facade<Step> {
  explicit Step(int const i) : i_{i} {}
  int dereference() const { return i_; }
  void advance(std::ptrdiff_t const n) {
    CHECK(n == 1 || n == -1, "advance is called with ", n);
    i_ += static_cast<int>(n);
  }
  bool equal_to(Step const& o) const { return i_ == o.i_; }
  int i_;
};
// around another iterator
template <typename It>
struct Wrap : utl::iterator_wrapper_facade<Wrap<It>, It> {
  using utl::iterator_wrapper_facade<Wrap<It>, It>::iterator_wrapper_facade;
  Wrap() = default;
  decltype(auto) dereference() const { return *this->wrapped_iterator; }
};

template <typename It>
concept Random = std::is_same_v<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>;
template <typename It>
concept Both = Random<It> || std::is_same_v<typename std::iterator_traits<It>::iterator_category, std::bidirectional_iterator_tag>;

static_assert(Random<Square> && Random<Full> && Both<Bidir> && !Random<Bidir>);
static_assert(std::is_same_v<std::iterator_traits<Until>::iterator_category, std::forward_iterator_tag>);
static_assert(std::is_same_v<std::iterator_traits<Reader>::iterator_category, std::input_iterator_tag>);
static_assert(Random<Wrap<Vec::iterator>> && Random<Wrap<int const*>> && Both<Wrap<std::list<int>::iterator>> && !Random<Wrap<std::list<int>::iterator>>);
static_assert(std::is_same_v<std::iterator_traits<Full>::value_type, int>);
static_assert(std::is_same_v<std::iterator_traits<Full>::reference, int&>);
static_assert(std::is_same_v<std::iterator_traits<Square>::value_type, long>);

// `at(p)` is the value at position p of [lo, hi)
template <typename It, typename At>
void history(Case& c, It const first, long const lo, long const hi, At&& at) {
  struct V { It it; long pos; };
  auto vars = std::vector<V>{{first, lo}, {first, lo}};
  auto ok = [&](It const& it, long const p, char const* what) {
    if (p < hi) CHECK_EQ(*it, at(p), what, ": position ", p);
  };
  for (auto k = c.draw(30); k != 0; --k) {
    auto& a = vars[c.below(2)];
    auto const op = c.draw(12);
    switch (op) {
      case 0:
      case 1: if (a.pos != hi) { ++a.pos; auto& r = ++a.it; CHECK(&r == &a.it, "++it returns something else"); } break;
      case 2: if (a.pos != hi) { auto const old = a.it++; ok(old, a.pos, "it++"); ++a.pos; } break;
      case 3: if constexpr (Both<It>) { if (a.pos != lo) { --a.pos; auto& r = --a.it; CHECK(&r == &a.it, "--it returns something else"); } } break;
      case 4: if constexpr (Both<It>) { if (a.pos != lo) { auto const old = a.it--; ok(old, a.pos, "it--"); --a.pos; } } break;
      case 5: if constexpr (Random<It>) { auto const d = c.range(lo - a.pos, hi - a.pos); a.it += d; a.pos += d; } break;
      case 6: if constexpr (Random<It>) { auto const d = c.range(a.pos - hi, a.pos - lo); a.it -= d; a.pos -= d; } break;
      case 7: if constexpr (Random<It>) { auto const d = c.range(lo - a.pos, hi - a.pos); auto const n = a.it + d; ok(n, a.pos + d, "it + n"); auto const m = d + a.it; CHECK(m == n, "n + it"); ok(a.it, a.pos, "it + n changed it"); } break;
      case 8: if constexpr (Random<It>) { auto const d = c.range(a.pos - hi, a.pos - lo); auto const n = a.it - d; ok(n, a.pos - d, "it - n"); } break;
      case 9: if constexpr (Random<It>) { if (lo != hi) { auto const d = c.range(lo - a.pos, hi - 1 - a.pos); CHECK_EQ(a.it[d], at(a.pos + d), "it[", d, "]"); } } break;
      case 10: if constexpr (Random<It>) { auto const d = static_cast<unsigned>(c.range(0L, hi - a.pos)); a.it += d; a.pos += d; auto const back = a.it - d; ok(back, a.pos - d, "unsigned step"); } break;
      case 11: { auto const n = c.draw(5); auto const p = std::min(hi, a.pos + static_cast<long>(n)); auto it = a.it; std::advance(it, p - a.pos); ok(it, p, "std::advance"); break; }
      default: vars[0] = vars[1]; break;
    }
    c.note("op ", op, ": ", vars[0].pos, " ", vars[1].pos);
    for (auto const& v : vars) ok(v.it, v.pos, "after the step");
    auto const &x = vars[0], &y = vars[1];
    CHECK_EQ(x.it == y.it, x.pos == y.pos);
    CHECK_EQ(x.it != y.it, x.pos != y.pos);
    if constexpr (Random<It>) {
      CHECK_EQ(x.it - y.it, x.pos - y.pos);
      CHECK_EQ(y.it - x.it, y.pos - x.pos);
      CHECK_EQ(x.it < y.it, x.pos < y.pos);
      CHECK_EQ(x.it <= y.it, x.pos <= y.pos);
      CHECK_EQ(x.it > y.it, x.pos > y.pos);
      CHECK_EQ(x.it >= y.it, x.pos >= y.pos);
    }
  }
}
Vec ints(Case& c) {
  auto v = Vec(c.more(25));
  for (auto& x : v) x = c.range(-99, 99);
  return v;
}
}  // namespace

PROP(iterator_history, 5) {
  auto v = ints(c);
  auto const kind = c.draw(7);
  c.note("elements ", str(v), ", kind ", kind);
  c.nontrivial(v.size() >= 2);
  auto const n = static_cast<long>(v.size());
  auto const at = [&](long const i) { return v[static_cast<std::size_t>(i)]; };
  switch (kind) {
    case 0: { auto const lo = c.range(-20L, 20L), hi = lo + c.range(2L, 30L); history(c, Square{lo}, lo, hi, [](long const i) { return i * i; }); break; }
    case 1: history(c, Full{v.data()}, 0, n, at); break;
    case 2: history(c, Wrap<Vec::iterator>{v.begin()}, 0, n, at); break;
    case 3: { auto l = std::list<int>(v.begin(), v.end()); history(c, Wrap<std::list<int>::iterator>{l.begin()}, 0, n, at); break; }
    case 4: { auto d = std::deque<int>(v.begin(), v.end()); history(c, Wrap<std::deque<int>::const_iterator>{d.cbegin()}, 0, n, at); break; }
    case 5: history(c, Step{-3}, -3, 20, [](long const i) { return static_cast<int>(i); }); break;
    case 6: { auto const s = c.text(c.more(20), "abc"); history(c, Until{s.c_str()}, 0, static_cast<long>(s.size()), [&](long const i) { return s[static_cast<std::size_t>(i)]; }); break; }
    default: {
      auto nodes = std::vector<Node>(v.size() + 1);
      for (auto i = std::size_t{0}; i != nodes.size(); ++i) nodes[i] = {i < v.size() ? v[i] : 0, i == 0 ? nullptr : &nodes[i - 1], i + 1 == nodes.size() ? nullptr : &nodes[i + 1]};
      auto it = Bidir{nodes.data()};
      auto pos = 0L;
      for (auto k = c.draw(30); k != 0; --k) {
        if (c.chance(2, 3)) { if (pos != n) { if (c.flip()) ++it; else it++; ++pos; } }
        else if (pos != 0) { if (c.flip()) --it; else it--; --pos; }
        CHECK_EQ(it->v, nodes[static_cast<std::size_t>(pos)].v);
        CHECK_EQ((*it).v, nodes[static_cast<std::size_t>(pos)].v);
        CHECK(&*it == &nodes[static_cast<std::size_t>(pos)], "not the element itself");
        it->v += 1;
      }
    }
  }
}

PROP(distant_positions, 2) {
  auto const lo = -(1L << c.draw(61U)), hi = 1L << c.draw(61U);
  c.note("positions ", lo, " to ", hi);
  c.nontrivial(hi - lo > 0xFFFF);
  c.label_if(hi - lo > 0x100000000L, "more than 32 bits");
  history(c, Number{lo}, lo, hi, [](long const i) { return i; });
  // distances of other types
  auto const pos = c.range(lo, hi);
  auto const it = Number{pos};
  auto const step = [&](auto const d) {
    auto const n = static_cast<long>(d);
    CHECK_EQ(*(it + d), pos + n);
    CHECK_EQ(*(d + it), pos + n);
    CHECK_EQ(*(it - d), pos - n);
    CHECK_EQ(it[d], pos + n);
    auto x = it;
    x += d;
    CHECK_EQ(*x, pos + n);
    x -= d;
    CHECK_EQ(*x, pos);
    x -= d;
    CHECK_EQ(*x, pos - n);
  };
  step(c.any_int<std::int8_t>());
  step(c.any_int<std::uint8_t>());
  step(c.any_int<std::int16_t>());
  step(c.any_int<std::uint16_t>());
  step(c.any_int<int>());
  step(c.any_int<unsigned>());
  step(c.range(lo, hi));
  step(static_cast<std::size_t>(c.range(0L, hi)));
}

PROP(sentinels, 2) {
  auto const s = c.text(c.more(30), "ab");
  c.note("text ", quote(s));
  c.nontrivial(s.size() >= 2);
  auto got = std::string{};
  auto it = Until{s.c_str()};
  for (; it != End{}; ++it) {
    CHECK(!(it == End{}) && !(End{} == it) && End{} != it, "end before the end");
    got += *it;
    CHECK(got.size() <= s.size(), "end missed");
  }
  CHECK(it == End{} && End{} == it && !(End{} != it), "no end");
  CHECK_EQ(got, s);
  auto const v = ints(c);
  auto q = std::deque<int>(v.begin(), v.end());
  auto sum = Vec{};
  auto r = Reader{&q};
  static_assert(std::is_void_v<decltype(r++)>);
  while (r != End{}) {
    sum.push_back(*r);
    if (c.flip()) ++r; else r++;
    CHECK(sum.size() <= v.size(), "end missed");
  }
  CHECK_EQ(sum, v);
}

// algorithms of the standard library, and the arrow on values
namespace {
struct Pairs : utl::iterator_facade<Pairs> {
  Pairs() = default;
  Pairs(Vec const* v, std::size_t const i) : v_{v}, i_{i} {}
  std::pair<std::size_t, int> dereference() const { return {i_, (*v_)[i_]}; }
  void advance(std::ptrdiff_t const n) { i_ = static_cast<std::size_t>(static_cast<std::ptrdiff_t>(i_) + n); }
  std::ptrdiff_t distance_to(Pairs const& o) const { return static_cast<std::ptrdiff_t>(o.i_) - static_cast<std::ptrdiff_t>(i_); }
  Vec const* v_{nullptr};
  std::size_t i_{0};
};
}  // namespace
PROP(with_algorithms, 3) {
  auto v = ints(c);
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const b = Pairs{&v, 0}, e = Pairs{&v, v.size()};
  CHECK_EQ(std::distance(b, e), static_cast<std::ptrdiff_t>(v.size()));
  auto i = std::size_t{0};
  for (auto it = b; it != e; ++it, ++i) { CHECK_EQ(it->first, i); CHECK_EQ(it->second, v[i]); }
  auto const limit = c.range(-99, 99);
  CHECK_EQ(std::count_if(b, e, [&](auto const& p) { return p.second < limit; }), std::count_if(v.begin(), v.end(), [&](int const x) { return x < limit; }));
  using W = Wrap<Vec::iterator>;
  auto s = v;
  auto r = v;
  std::sort(W{s.begin()}, W{s.end()});
  std::sort(r.begin(), r.end());
  CHECK_EQ(s, r, "std::sort");
  auto const lb = std::lower_bound(W{s.begin()}, W{s.end()}, limit);
  CHECK_EQ(lb - W{s.begin()}, std::lower_bound(r.begin(), r.end(), limit) - r.begin(), "std::lower_bound");
  std::reverse(W{s.begin()}, W{s.end()});
  std::reverse(r.begin(), r.end());
  CHECK_EQ(s, r, "std::reverse");
  auto l = std::list<int>(v.begin(), v.end());
  using WL = Wrap<std::list<int>::iterator>;
  std::reverse(WL{l.begin()}, WL{l.end()});
  auto rv = v;
  std::reverse(rv.begin(), rv.end());
  CHECK_EQ((Vec{l.begin(), l.end()}), rv, "std::reverse of a list");
}
