// R01: a pipeline computes what the same steps compute on a vector, one step
// after the other.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/pipes.h"

using namespace pbt;

namespace {
using Vec = std::vector<int>;

struct Fn {  // transformations
  int kind, a;
  int operator()(int const x) const {
    switch (kind) {
      case 0: return (x * 3 + a) % 1000;
      case 1: return x / 2;
      case 2: return -x;
      default: return x % 5;
    }
  }
};
struct Pred {
  int kind, a;
  bool operator()(int const x) const {
    switch (kind) {
      case 0: return x % 2 == a % 2;
      case 1: return x < a;
      case 2: return x % 3 != a % 3;
      case 3: return true;
      default: return false;
    }
  }
};
Fn fn(Case& c) { return {c.range(0, 3), c.range(0, 50)}; }
Pred pred(Case& c) { return {c.range(0, 4), c.range(-5, 30)}; }

enum Op { kTransform, kRemoveIf, kTakeWhile, kUnique };
struct Step {
  int op;
  Fn f;
  Pred p;
};
Step step(Case& c) { return {c.range(0, 3), fn(c), pred(c)}; }
std::string name(Step const& s) {
  switch (s.op) {
    case kTransform: return cat("transform(", s.f.kind, ",", s.f.a, ")");
    case kRemoveIf: return cat("remove_if(", s.p.kind, ",", s.p.a, ")");
    case kTakeWhile: return cat("take_while(", s.p.kind, ",", s.p.a, ")");
    default: return "unique()";
  }
}
Vec eager(Vec const& v, Step const& s) {
  auto r = Vec{};
  for (auto const x : v) {
    switch (s.op) {
      case kTransform: r.push_back(s.f(x)); break;
      case kRemoveIf: if (!s.p(x)) r.push_back(x); break;
      case kTakeWhile: if (!s.p(x)) return r; r.push_back(x); break;
      default: if (r.empty() || r.back() != x) r.push_back(x); break;
    }
  }
  return r;
}

// a range of ints whose type does not show how it was built
struct AnyRange {
  using result_t = int;
  struct Base {
    virtual ~Base() = default;
    virtual void begin() = 0;
    virtual int read() = 0;
    virtual void next() = 0;
    virtual bool valid() = 0;
  };
  template <typename R>
  struct Impl final : Base {
    explicit Impl(R r) : r_{std::move(r)} {}
    void begin() override { it_.emplace(r_.begin()); }
    int read() override { return r_.read(*it_); }
    void next() override { r_.next(*it_); }
    bool valid() override { return r_.valid(*it_); }
    R r_;
    std::optional<decltype(std::declval<R&>().begin())> it_;
  };
  struct It {};
  template <typename R>
    requires(!std::is_same_v<std::decay_t<R>, AnyRange>)
  explicit AnyRange(R&& r) : p_{std::make_shared<Impl<std::decay_t<R>>>(std::forward<R>(r))} {}
  It begin() const { p_->begin(); return {}; }
  int read(It const&) const { return p_->read(); }
  void next(It const&) const { p_->next(); }
  bool valid(It const&) const { return p_->valid(); }
  std::shared_ptr<Base> p_;
};
}  // namespace
template <>
struct utl::is_range<AnyRange> : std::true_type {};
namespace {

AnyRange apply(AnyRange r, Step const& s) {
  switch (s.op) {
    case kTransform: return AnyRange{std::move(r) | utl::transform(Fn{s.f})};
    case kRemoveIf: return AnyRange{std::move(r) | utl::remove_if(Pred{s.p})};
    case kTakeWhile: return AnyRange{std::move(r) | utl::take_while(Pred{s.p})};
    default: return AnyRange{std::move(r) | utl::unique()};
  }
}

constexpr auto kSinks = 13U;
template <typename R>
void sink(Case& c, R&& r, Vec const& e, unsigned const kind) {
  switch (kind) {
    case 0: CHECK_EQ(std::forward<R>(r) | utl::vec(), e, "vec"); break;
    case 1: {
      auto got = Vec{};
      std::forward<R>(r) | utl::for_each([&](int const x) { got.push_back(x); });
      CHECK_EQ(got, e, "for_each");
      break;
    }
    case 2: {
      auto const p = pred(c);
      CHECK_EQ(std::forward<R>(r) | utl::count([=](int const x) { return p(x); }),
               static_cast<std::size_t>(std::count_if(e.begin(), e.end(), p)), "count");
      break;
    }
    case 3: {
      auto s = std::size_t{0};
      for (auto const x : e) s += static_cast<std::size_t>(x);
      CHECK_EQ(std::forward<R>(r) | utl::sum(), s, "sum");
      break;
    }
    case 4: {
      if (e.empty()) return;
      auto const avg = std::forward<R>(r) | utl::avg();
      auto const m = static_cast<double>(std::accumulate(e.begin(), e.end(), 0LL)) / static_cast<double>(e.size());
      CHECK(std::abs(avg - m) < 1e-9 * (1 + std::abs(m)), "avg ", avg, " vs ", m);
      break;
    }
    case 5: {
      auto const init = c.range(-2000, 40);
      auto m = init;
      for (auto const x : e) m = std::max(m, x);
      CHECK_EQ(std::forward<R>(r) | (utl::max<int>{init}), static_cast<double>(m), "max");
      break;
    }
    case 6: {
      auto const p = pred(c);
      auto const it = std::find_if(e.begin(), e.end(), p);
      auto const f = std::forward<R>(r) | utl::find([=](int const x) { return p(x); });
      CHECK_EQ(f.has_value(), it != e.end(), "find");
      if (f) CHECK_EQ(*f, *it, "find");
      break;
    }
    case 7: {
      auto h = 7UL;
      for (auto const x : e) h = h * 31UL + static_cast<unsigned long>(x);
      auto const got = std::forward<R>(r) | utl::accumulate([](unsigned long const acc, int const x) { return acc * 31UL + static_cast<unsigned long>(x); }, 7UL);
      CHECK_EQ(got, h, "accumulate");
      break;
    }
    case 8: CHECK_EQ(std::forward<R>(r) | utl::insert<std::set<int>>(), (std::set<int>{e.begin(), e.end()}), "insert"); break;
    case 9: CHECK_EQ(std::forward<R>(r) | utl::emplace<std::multiset<int>>(), (std::multiset<int>{e.begin(), e.end()}), "emplace"); break;
    case 10: CHECK_EQ(std::forward<R>(r) | utl::emplace_back<std::list<int>>(), (std::list<int>{e.begin(), e.end()}), "emplace_back"); break;
    case 11: CHECK_EQ(std::forward<R>(r) | utl::to<std::set<int>>(), (std::set<int>{e.begin(), e.end()}), "to"); break;
    case 12: CHECK_EQ(std::forward<R>(r) | utl::emplace_back_to<std::deque<int>>(), (std::deque<int>{e.begin(), e.end()}), "emplace_back_to"); break;
    default: {
      auto got = Vec{};
      for (auto const x : std::forward<R>(r) | utl::iterable()) got.push_back(x);
      CHECK_EQ(got, e, "iterable");
      break;
    }
  }
}

Vec numbers(Case& c, std::size_t const max = 40) {
  auto v = Vec(c.more(max));
  auto const hi = c.of({2, 5, 30, 999});
  auto const lo = c.flip() ? 0 : -hi;
  for (auto& x : v) x = c.range(lo, hi);
  if (c.chance(1, 4)) std::sort(v.begin(), v.end());
  return v;
}

template <typename R>
void sink_few(Case&, R&& r, Vec const& e, unsigned const kind) {
  if (kind % 2 == 0) {
    CHECK_EQ(std::forward<R>(r) | utl::vec(), e, "vec");
  } else {
    auto got = Vec{};
    for (auto const x : std::forward<R>(r) | utl::iterable()) got.push_back(x);
    CHECK_EQ(got, e, "iterable");
  }
}

// the types of the library's own ranges, nested up to three levels
template <int Depth, typename R>
void typed(Case& c, R&& r, Vec const& e, unsigned const kind) {
  if constexpr (Depth == 0) {
    // two sinks per type: the others run in `mixed`
    sink_few(c, std::forward<R>(r), e, kind);
  } else {
    if (c.chance(1, 6)) return sink_few(c, std::forward<R>(r), e, kind);
    auto const s = step(c);
    c.note("| ", name(s));
    auto const n = eager(e, s);
    switch (s.op) {
      case kTransform: return typed<Depth - 1>(c, std::forward<R>(r) | utl::transform(Fn{s.f}), n, kind);
      case kRemoveIf: return typed<Depth - 1>(c, std::forward<R>(r) | utl::remove_if(Pred{s.p}), n, kind);
      case kTakeWhile: return typed<Depth - 1>(c, std::forward<R>(r) | utl::take_while(Pred{s.p}), n, kind);
      default: return typed<Depth - 1>(c, std::forward<R>(r) | utl::unique(), n, kind);
    }
  }
}
}  // namespace

PROP(any_number_of_steps, 4) {
  auto v = numbers(c);
  c.note("source = ", str(v));
  auto const source = c.draw(6);
  c.note("source kind ", source);
  auto r = std::optional<AnyRange>{};
  auto const list = std::list<int>{v.begin(), v.end()};
  auto const set = std::multiset<int>{v.begin(), v.end()};
  switch (source) {
    case 0: r.emplace(utl::all(v)); break;
    case 1: r.emplace(utl::all(list)); break;
    case 2: r.emplace(utl::all(Vec{v})); break;
    case 3: r.emplace(utl::all(v.data(), v.data() + v.size())); break;
    case 4: v.assign(set.begin(), set.end()); r.emplace(utl::all(set)); break;
    case 5: {
      auto const a = c.range(-20, 20), b = a + c.range(-3, 40);
      v.clear();
      for (auto i = a; i < b; ++i) v.push_back(i);
      r.emplace(utl::iota(a, b));
      break;
    }
    default: {
      auto const a = c.range(-20, 20), n = c.range(0, 40);
      v.clear();
      for (auto i = 0; i < n; ++i) v.push_back((a + i) * (a + i) % 17);
      r.emplace(utl::generate([a, i = 0]() mutable { auto const x = a + i++; return std::pair{i, x * x % 17}; }) |
                utl::take_while([n](std::pair<int, int> const& x) { return x.first <= n; }) |
                utl::transform([](std::pair<int, int> const& x) { return x.second; }));
      break;
    }
  }
  auto const steps = c.more(8);
  auto e = v;
  for (auto i = std::size_t{0}; i != steps; ++i) {
    auto const s = step(c);
    c.note("| ", name(s));
    e = eager(e, s);
    r.emplace(apply(*r, s));
  }
  auto const k = static_cast<unsigned>(c.draw(kSinks));
  c.note("sink ", k, "\nexpected elements: ", str(e));
  c.nontrivial(v.size() >= 2 && steps >= 1);
  c.label_if(e.empty(), "nothing left");
  c.label_if(steps >= 3, "three or more steps");
  sink(c, *r, e, k);
}

PROP(nested_types, 5) {
  auto const v = numbers(c);
  c.note("source = ", str(v));
  c.nontrivial(v.size() >= 2);
  typed<3>(c, utl::all(v), v, static_cast<unsigned>(c.draw(1)));
}

// sums beyond 32 bits, and other types of numbers
namespace {
template <typename T>
void wide(Case& c) {
  auto v = std::vector<T>(c.more(30));
  for (auto& x : v) x = static_cast<T>(c.chance(1, 3) ? c.draw(40) : c.draw(static_cast<std::uint64_t>(std::min<std::uint64_t>(std::numeric_limits<T>::max(), 1ULL << 45U))));
  c.note(sizeof(T), " bytes: ", str(v));
  if (sizeof(T) == 8 && c.chance(1, 4)) {  // above the limit of signed numbers
    auto w = v;
    w.push_back(std::numeric_limits<T>::max() / 2 + static_cast<T>(c.draw(1ULL << 60U)));
    auto const sum = std::accumulate(w.begin(), w.end(), std::uint64_t{0});
    CHECK_EQ(static_cast<double>(utl::all(w) | utl::sum()), static_cast<double>(sum), "sum as a double");
  }
  auto s = std::uint64_t{0};
  for (auto const x : v) s += x;
  auto const keep = static_cast<T>(c.draw(3));
  auto some = std::uint64_t{0};
  auto n = std::size_t{0};
  for (auto const x : v) {
    if (x % 4 == keep) continue;
    some += x;
    ++n;
  }
  c.nontrivial(s > (1ULL << 32U));
  auto const rm = [&] { return utl::remove_if([=](T const x) { return x % 4 == keep; }); };
  CHECK_EQ(utl::all(v) | utl::sum(), s, "sum");
  CHECK_EQ(utl::all(v) | rm() | utl::sum(), some, "sum behind remove_if");
  auto const close = [](double const a, double const b) { return std::abs(a - b) <= 1e-12 * b; };
  if (!v.empty()) CHECK(close(utl::all(v) | utl::avg(), static_cast<double>(s) / static_cast<double>(v.size())), "avg ", utl::all(v) | utl::avg());
  if (n != 0) CHECK(close(utl::all(v) | rm() | utl::avg(), static_cast<double>(some) / static_cast<double>(n)), "avg behind remove_if");
  auto m = T{0};
  for (auto const x : v) m = std::max(m, x);
  CHECK_EQ(utl::all(v) | utl::max<T>(), static_cast<double>(m), "max");
  CHECK_EQ(utl::all(v) | utl::count([](T const x) { return x > 7; }), static_cast<std::size_t>(std::count_if(v.begin(), v.end(), [](T const x) { return x > 7; })), "count");
  CHECK_EQ(utl::all(v) | utl::accumulate([](std::uint64_t const a, T const x) { return a + x; }, std::uint64_t{0}), s, "accumulate");
  CHECK_EQ(utl::all(v) | utl::accumulate([](std::int64_t const a, T const x) { return a - static_cast<std::int64_t>(x); }, std::int64_t{0}), -static_cast<std::int64_t>(s), "accumulate");
}
}  // namespace
PROP(wide_sums, 1) {
  switch (c.draw(3)) {
    case 0: return wide<std::uint64_t>(c);
    case 1: return wide<std::uint32_t>(c);
    case 2: return wide<std::uint16_t>(c);
    default: return wide<std::uint8_t>(c);
  }
}

// sinks directly on containers, pointers to containers and plain ranges
PROP(sinks_on_sources, 2) {
  auto const v = numbers(c);
  c.note("source = ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const k = static_cast<unsigned>(c.draw(kSinks));
  switch (c.draw(3)) {
    case 0: sink(c, utl::all(v), v, k); break;
    case 1: sink(c, utl::all(Vec{v}), v, k); break;
    case 2: {
      auto const a = c.range(-9, 9), b = a + c.range(-3, 40);
      auto e = Vec{};
      for (auto i = a; i < b; ++i) e.push_back(i);
      sink(c, utl::iota(a, b), e, k);
      break;
    }
    default: {
      auto const p = pred(c);
      CHECK_EQ(v | utl::count([=](int const x) { return p(x); }), static_cast<std::size_t>(std::count_if(v.begin(), v.end(), p)));
      auto const* ptr = &v;
      CHECK_EQ(ptr | utl::count([=](int const x) { return p(x); }), static_cast<std::size_t>(std::count_if(v.begin(), v.end(), p)));
      CHECK_EQ(utl::all(v) | utl::transform(Fn{1, 2}) | utl::vec(), eager(v, {kTransform, {1, 2}, {}}));
      auto const f = v | utl::find([=](int const x) { return p(x); });
      auto const it = std::find_if(v.begin(), v.end(), p);
      CHECK_EQ(f.has_value(), it != v.end());
      if (f) CHECK_EQ(*f, *it);
      auto h = 0L;
      for (auto const x : v) h = h * 3 % 100003 + x;
      CHECK_EQ(v | utl::accumulate([](long const acc, int const x) { return acc * 3 % 100003 + x; }, 0L), h);
      CHECK_EQ(v | utl::sum(), std::accumulate(v.begin(), v.end(), std::size_t{0}));
    }
  }
}

// elements that are not numbers
namespace {
using Map = std::map<std::string, std::size_t>;
std::pair<std::string const, std::size_t> to_pair(std::string const& s) { return {s, s.size()}; }
}  // namespace
PROP(strings_and_pairs, 2) {
  auto v = std::vector<std::string>(c.more(15));
  for (auto& s : v) s = c.text(c.more(25), "ab");
  c.note("source = ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const n = c.below(6);
  auto e = std::vector<std::string>{};
  for (auto const& s : v) if (s.size() >= n && (e.empty() || e.back() != s + "!")) e.push_back(s + "!");
  CHECK_EQ(utl::all(v) | utl::remove_if([&](std::string const& s) { return s.size() < n; }) |
               utl::transform([](std::string const& s) { return s + "!"; }) | utl::unique() | utl::vec(), e);
  auto m = Map{};
  for (auto const& s : v) m.emplace(s, s.size());
  CHECK_EQ(utl::all(v) | utl::transform([](std::string const& s) { return to_pair(s); }) |
               utl::emplace<Map>(), m);
  CHECK_EQ(utl::all(m) | utl::transform([](auto const& kv) { return kv.second; }) | utl::sum(),
           std::accumulate(m.begin(), m.end(), std::size_t{0}, [](std::size_t const a, auto const& kv) { return a + kv.second; }));
  auto longest = std::string{};
  for (auto const& s : v) if (s.size() > longest.size()) longest = s;
  CHECK_EQ(utl::all(v) | utl::accumulate([](std::string a, std::string const& s) { return s.size() > a.size() ? s : a; }, std::string{}), longest);
}

// more elements than a narrow counter can count
PROP_HUGE(long_sources, 40) {
  auto g = c.bulk();
  auto v = Vec(c.huge());
  auto const hi = c.of<std::uint64_t>({1, 3, 999});
  for (auto& x : v) x = static_cast<int>(g(hi));
  c.note(v.size(), " elements up to ", hi);
  c.nontrivial();
  auto r = AnyRange{utl::all(v)};
  auto e = v;
  for (auto i = c.draw(3); i != 0; --i) {
    auto const s = step(c);
    c.note("| ", name(s));
    e = eager(e, s);
    r = apply(r, s);
  }
  auto const k = static_cast<unsigned>(c.draw(kSinks));
  c.note("sink ", k);
  sink(c, r, e, k);
}

// other containers, element types and functions that return references
namespace {
template <typename A, typename B>
void counted(Case& c) {
  auto const base = static_cast<A>(c.flip() ? c.draw(300) : c.any_int<std::uint8_t>() + (std::numeric_limits<A>::max() / 2));
  auto const n = c.below(40);
  auto const to = static_cast<B>(base + static_cast<A>(n));
  auto e = std::vector<A>{};
  for (auto i = base; std::cmp_less(i, to); ++i) e.push_back(i);
  c.note("iota(", +base, ", ", +to, ")");
  CHECK_EQ(utl::iota(base, to) | utl::vec(), e, "iota");
  auto const rm = utl::iota(base, to) | utl::remove_if([](A const x) { return x % 3 == 0; }) | utl::vec();
  auto r = std::vector<A>{};
  for (auto const x : e) if (x % 3 != 0) r.push_back(x);
  CHECK_EQ(rm, r, "iota | remove_if");
}
struct Person {
  std::string name;
  int age;
};
}  // namespace
PROP(other_sources, 2) {
  auto const v = numbers(c);
  auto const kind = c.draw(11);
  c.note("source = ", str(v), ", kind ", kind);
  c.nontrivial(v.size() >= 2);
  auto const f = [](int const x) { return x % 7; };
  auto e = Vec{};
  for (auto const x : v) e.push_back(f(x));
  switch (kind) {
    case 0: counted<int, int>(c); break;
    case 1: counted<std::int64_t, std::int64_t>(c); break;
    case 2: counted<std::uint32_t, std::uint32_t>(c); break;
    case 3: counted<std::size_t, std::size_t>(c); break;
    case 4: counted<std::uint32_t, std::uint64_t>(c); break;
    case 5: {  // proxies
      auto b = std::vector<bool>{};
      for (auto const x : v) b.push_back(x % 2 == 0);
      auto const got = utl::all(b) | utl::transform([](bool const x) { return x ? 1 : 0; }) | utl::vec();
      CHECK_EQ(got.size(), b.size());
      for (auto i = std::size_t{0}; i != b.size(); ++i) CHECK_EQ(got[i], b[i] ? 1 : 0, "element ", i);
      CHECK_EQ(utl::all(b) | utl::count([](bool const x) { return x; }), static_cast<std::size_t>(std::count(b.begin(), b.end(), true)));
      break;
    }
    case 6: {
      auto const l = std::forward_list<int>{v.begin(), v.end()};
      CHECK_EQ(utl::all(l) | utl::transform(f) | utl::vec(), e);
      break;
    }
    case 7: {
      int a[5] = {1, 1, 2, static_cast<int>(c.draw(5)), 7};
      auto u = Vec(a, a + 5);
      u.erase(std::unique(u.begin(), u.end()), u.end());
      CHECK_EQ(utl::all(a) | utl::unique() | utl::vec(), u);
      CHECK_EQ((utl::all({1, 2, 3, 3}) | utl::unique() | utl::vec()), (Vec{1, 2, 3}));
      break;
    }
    case 8: {
      auto const d = std::deque<int>{v.begin(), v.end()};
      CHECK_EQ(utl::all(d.begin(), d.end()) | utl::transform(f) | utl::vec(), e);
      CHECK_EQ(utl::all(d.rbegin(), d.rend()) | utl::vec(), (Vec{v.rbegin(), v.rend()}));
      break;
    }
    case 9: {
      auto p = std::vector<Person>{};
      for (auto const x : v) p.push_back({"name " + std::to_string(x), x});
      auto const names = utl::all(p) | utl::transform([](Person const& x) -> std::string const& { return x.name; }) | utl::vec();
      CHECK_EQ(names.size(), p.size());
      for (auto i = std::size_t{0}; i != p.size(); ++i) CHECK_EQ(names[i], p[i].name);
      auto const last = utl::all(p) | utl::remove_if([](Person const& x) { return x.age % 2 == 0; }) | utl::transform([](Person const& x) -> int const& { return x.age; }) | utl::accumulate([](int, int const x) { return x; }, -1);
      auto m = -1;
      for (auto const x : v) if (x % 2 != 0) m = x;
      CHECK_EQ(last, m);
      // writing through the range
      utl::all(p) | utl::for_each([](Person& x) { ++x.age; });
      for (auto i = std::size_t{0}; i != p.size(); ++i) CHECK_EQ(p[i].age, v[i] + 1);
      break;
    }
    case 10: {
      auto w = std::vector<double>{};
      for (auto const x : v) w.push_back(x / 8.0);
      auto m = -1e9;
      for (auto const x : w) m = std::max(m, x);
      CHECK_EQ(utl::all(w) | (utl::max<double>{-1e9}), m);
      CHECK_EQ(utl::all(w) | utl::accumulate([](double const a, double const x) { return std::max(a, x); }, -1e9), m);
      CHECK_EQ(utl::all(w) | utl::transform([](double const x) { return static_cast<int>(x * 8.0); }) | utl::vec(), v);
      break;
    }
    default: {
      auto ss = std::stringstream{};
      for (auto const x : v) ss << x << ' ';
      CHECK_EQ(utl::all(std::istream_iterator<int>{ss}, std::istream_iterator<int>{}) | utl::transform(f) | utl::vec(), e);
      auto m = std::unordered_map<int, int>{};
      for (auto const x : v) ++m[x];
      CHECK_EQ(utl::all(m) | utl::transform([](auto const& kv) { return static_cast<std::size_t>(kv.second); }) | utl::sum(), v.size());
      CHECK_EQ((m | utl::insert<std::map<int, int>>()), (std::map<int, int>{m.begin(), m.end()}));
      break;
    }
  }
}

// the average of numbers of any sign, with fractions
PROP(averages, 1) {
  auto v = std::vector<double>(1 + c.more(20));
  for (auto& x : v) x = (static_cast<double>(c.draw(4000)) - (c.flip() ? 2000.0 : 0.0)) / c.of({1.0, 2.0, 8.0, 10.0});
  auto const b = std::accumulate(v.begin(), v.end(), 0.0);
  c.note("values ", str(v));
  c.nontrivial(v.size() >= 2);
  c.label_if(b < 0, "negative average");
  auto const n = static_cast<double>(v.size());
  auto const close = [](double const x, double const y) { return std::abs(x - y) <= 1e-9 * (1 + std::abs(y)); };
  CHECK(close(utl::all(v) | utl::avg(), b / n), "avg ", utl::all(v) | utl::avg(), " vs ", b / n);
  auto f = std::vector<float>(v.begin(), v.end());
  auto const fb = std::accumulate(f.begin(), f.end(), 0.0);
  CHECK(close(utl::all(f) | utl::avg(), fb / n), "avg of floats");
  auto const half = utl::all(v) | utl::transform([](double const x) { return x / 2; }) | utl::avg();
  CHECK(close(half, b / n / 2), "avg of halves");
  auto i = std::vector<signed char>{};
  for (auto const x : v) i.push_back(static_cast<signed char>(static_cast<int>(x) % 128));
  CHECK(close(utl::all(i) | utl::avg(), static_cast<double>(std::accumulate(i.begin(), i.end(), 0)) / n), "avg of small numbers");
}

namespace {
// equality tells more than the order, or there is no order at all
struct Version {
  int major = 0, minor = 0;
  bool operator==(Version const&) const = default;
  bool operator<(Version const& o) const { return major < o.major; }
};
struct Color {
  int x = -1;
  bool operator==(Color const& o) const { return x == o.x; }
};
}  // namespace

// predicates whose result is not a bool, elements that are only equal or not,
// containers that keep the order of equal keys, sources that repeat themselves
PROP(odd_types, 2) {
  auto const v = numbers(c);
  auto const mask = 1 << c.below(6);
  auto const kind = c.draw(7);
  c.note("source = ", str(v), ", mask ", mask, ", kind ", kind);
  c.nontrivial(v.size() >= 2);
  auto const bit = [mask](int const x) { return x & mask; };  // an int
  auto const is = [mask](int const x) { return (x & mask) != 0; };
  auto without = Vec{};
  for (auto const x : v) if (!is(x)) without.push_back(x);
  switch (kind) {
    case 0:
      CHECK_EQ(utl::all(v) | utl::count([&](int const x) { return bit(x); }), static_cast<std::size_t>(std::count_if(v.begin(), v.end(), is)), "count");
      CHECK_EQ(utl::all(v) | utl::remove_if([&](int const x) { return bit(x); }) | utl::vec(), without, "remove_if");
      break;
    case 1: {
      auto const it = std::find_if(v.begin(), v.end(), is);
      auto const f = utl::all(v) | utl::find([&](int const x) { return bit(x); });
      CHECK_EQ(f.has_value(), it != v.end(), "find");
      if (f) CHECK_EQ(*f, *it, "find");
      auto const e = Vec{v.begin(), std::find_if_not(v.begin(), v.end(), is)};
      CHECK_EQ(utl::all(v) | utl::take_while([&](int const x) { return bit(x); }) | utl::vec(), e, "take_while");
      break;
    }
    case 2: {  // pointers as truth values
      auto p = std::vector<int const*>{};
      for (auto const& x : v) p.push_back(is(x) ? &x : nullptr);
      auto const self = [](int const* const x) { return x; };
      CHECK_EQ(utl::all(p) | utl::count(self), v.size() - without.size(), "count");
      CHECK_EQ((utl::all(p) | utl::remove_if(self) | utl::vec()).size(), without.size(), "remove_if");
      break;
    }
    case 3: {
      auto s = std::vector<Version>{};
      for (auto const x : v) s.push_back({x / 4, x % 4});
      auto e = s;
      e.erase(std::unique(e.begin(), e.end()), e.end());
      if (!s.empty() && s[0] == Version{}) s.insert(s.begin(), Version{});
      CHECK((utl::all(s) | utl::unique() | utl::vec()) == e, "unique versions");
      break;
    }
    case 4: {
      auto s = std::vector<Color>{};
      for (auto const x : v) s.push_back({x & mask});
      auto e = s;
      e.erase(std::unique(e.begin(), e.end()), e.end());
      CHECK((utl::all(s) | utl::unique() | utl::vec()) == e, "unique colors");
      break;
    }
    case 5: {  // equal keys stay in order
      using M = std::multimap<int, std::size_t>;
      auto e = M{};
      auto s = std::vector<std::pair<int const, std::size_t>>{};
      for (auto i = std::size_t{0}; i != v.size(); ++i) { s.emplace_back(v[i] % 3, i); e.emplace(v[i] % 3, i); }
      CHECK((utl::all(s) | utl::insert<M>()) == e, "insert into a multimap");
      CHECK((utl::all(s) | utl::emplace<M>()) == e, "emplace into a multimap");
      CHECK((utl::all(s) | utl::to<M>()) == e, "to a multimap");
      auto const byMod = [](int const a, int const b) { return a % 4 < b % 4; };
      using S = std::multiset<int, decltype(byMod)>;
      auto const got = utl::all(v) | utl::insert<S>();
      auto const want = S{v.begin(), v.end()};
      CHECK_EQ((Vec{got.begin(), got.end()}), (Vec{want.begin(), want.end()}), "insert into a multiset");
      break;
    }
    case 6: {  // the first of several equal keys stays
      using M = std::map<int, std::size_t>;
      auto e = M{};
      auto s = std::vector<std::pair<int const, std::size_t>>{};
      for (auto i = std::size_t{0}; i != v.size(); ++i) { s.emplace_back(v[i] % 5, i); e.emplace(v[i] % 5, i); }
      CHECK((utl::all(s) | utl::insert<M>()) == e, "insert into a map");
      CHECK((utl::all(s) | utl::emplace<M>()) == e, "emplace into a map");
      break;
    }
    default: {  // a generator that returns the same value several times
      auto w = v;
      w.push_back(5000);
      auto i = std::size_t{0};
      CHECK_EQ(utl::generate([&] { return w[i++]; }) | utl::take_while([](int const x) { return x != 5000; }) | utl::vec(), v, "generate");
      CHECK_EQ(i, w.size(), "calls of the generator");
      break;
    }
  }
}

// functions with a state: called once for each element, in order
PROP(functions_with_state, 1) {
  auto const v = numbers(c);
  auto const n = 1 + c.below(5);
  auto const kind = c.draw(6);
  c.note("source = ", str(v), ", every ", n, "th, kind ", kind);
  c.nontrivial(v.size() > n);
  auto seen = Vec{};
  auto const nth = [&](int const x) { seen.push_back(x); return seen.size() % n == 0; };
  auto every = Vec{}, others = Vec{};
  for (auto i = std::size_t{0}; i != v.size(); ++i) ((i + 1) % n == 0 ? every : others).push_back(v[i]);
  switch (kind) {
    case 0: CHECK_EQ(utl::all(v) | utl::remove_if(nth) | utl::vec(), others, "remove_if"); break;
    case 1: {
      auto got = Vec{};
      for (auto const x : utl::all(v) | utl::remove_if(nth) | utl::iterable()) got.push_back(x);
      CHECK_EQ(got, others, "remove_if | iterable");
      break;
    }
    case 2: CHECK_EQ(utl::all(v) | utl::count(nth), every.size(), "count"); break;
    case 3: {
      auto const f = utl::all(v) | utl::find(nth);
      CHECK_EQ(f.has_value(), !every.empty(), "find");
      if (f) CHECK_EQ(*f, every[0], "find");
      CHECK_EQ(seen, (Vec{v.begin(), v.begin() + static_cast<long>(std::min(n, v.size()))}), "calls");
      return;
    }
    case 4: utl::all(v) | utl::for_each(nth); break;
    case 5: CHECK_EQ(utl::all(v) | utl::accumulate([&](std::size_t const a, int const x) { return a + (nth(x) ? 1U : 0U); }, std::size_t{0}), every.size(), "accumulate"); break;
    default: CHECK_EQ(utl::all(v) | utl::transform([&](int const x) { return nth(x) ? 1 : 0; }) | utl::sum(), every.size(), "transform | sum"); break;
  }
  CHECK_EQ(seen, v, "calls");
}
