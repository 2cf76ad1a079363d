// R02: pipelines are lazy and bounded: they pull no more from their source than
// the result needs and never step behind its end.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/pipes.h"

using namespace pbt;

namespace {
using Vec = std::vector<int>;

// an iterator that reports every misuse
struct Checked {
  using iterator_category = std::input_iterator_tag;
  using value_type = int;
  using difference_type = std::ptrdiff_t;
  using pointer = int const*;
  using reference = int const&;
  struct Log {
    std::size_t furthest = 0;  // elements that were looked at
    std::size_t reads = 0;
  };
  Vec const* v;
  std::size_t i;
  Log* log;
  int const& operator*() const {
    CHECK(i < v->size(), "an element behind the end was read");
    log->furthest = std::max(log->furthest, i + 1);
    ++log->reads;
    return (*v)[i];
  }
  Checked& operator++() {
    CHECK(i < v->size(), "moved behind the end");
    ++i;
    return *this;
  }
  Checked operator++(int) {
    auto const old = *this;
    ++*this;
    return old;
  }
  int const* operator->() const { return &**this; }
  bool operator==(Checked const& o) const { return i == o.i; }
  bool operator!=(Checked const& o) const { return i != o.i; }
};

Vec numbers(Case& c) {
  auto v = Vec(c.more(30));
  for (auto& x : v) x = c.range(-3, 6);
  return v;
}
}  // namespace

// every step and sink on a source that reports misuse
PROP(never_behind_the_end, 4) {
  auto const v = numbers(c);
  auto const a = c.range(-3, 7), b = c.range(-3, 7);
  c.note("source = ", str(v), ", a = ", a, ", b = ", b);
  c.nontrivial(v.size() >= 2);
  auto log = Checked::Log{};
  auto const src = [&] { return utl::all(Checked{&v, 0, &log}, Checked{&v, v.size(), &log}); };
  auto const is_a = [a](int const x) { return x == a; };
  auto const not_a = [a](int const x) { return x != a; };
  auto const is_b = [b](int const x) { return x == b; };
  auto const twice = [](int const x) { return 2 * x; };
  auto const first_a = static_cast<std::size_t>(std::find(v.begin(), v.end(), a) - v.begin());
  auto const upto_a = Vec{v.begin(), v.begin() + static_cast<std::ptrdiff_t>(first_a)};
  auto without_b = Vec{};
  for (auto const x : v) if (x != b) without_b.push_back(x);
  auto uniq = v;
  uniq.erase(std::unique(uniq.begin(), uniq.end()), uniq.end());
  switch (c.draw(11)) {
    case 0: CHECK_EQ(src() | utl::vec(), v); break;
    case 1: CHECK_EQ(src() | utl::take_while(not_a) | utl::vec(), upto_a);
      CHECK(log.furthest <= first_a + 1, "looked at ", log.furthest, " elements, ", first_a, " were taken");
      break;
    case 2: CHECK_EQ(src() | utl::remove_if(is_b) | utl::vec(), without_b); break;
    case 3: CHECK_EQ(src() | utl::unique() | utl::vec(), uniq); break;
    case 4: CHECK_EQ((src() | utl::transform(twice) | utl::vec()).size(), v.size()); break;
    case 5: {
      auto const f = src() | utl::find(is_a);
      CHECK_EQ(f.has_value(), first_a != v.size());
      CHECK(log.furthest <= first_a + 1, "find looked at ", log.furthest, " elements, the first match is number ", first_a);
      break;
    }
    case 6: {
      auto got = Vec{};
      src() | utl::take_while(not_a) | utl::remove_if(is_b) | utl::for_each([&](int const x) { got.push_back(x); });
      auto e = Vec{};
      for (auto const x : upto_a) if (x != b) e.push_back(x);
      CHECK_EQ(got, e);
      CHECK(log.furthest <= first_a + 1);
      break;
    }
    case 7: {
      auto e = Vec{};
      for (auto const x : without_b) { if (x == a) break; e.push_back(x); }
      CHECK_EQ(src() | utl::remove_if(is_b) | utl::take_while(not_a) | utl::vec(), e);
      if (a != b) CHECK(log.furthest <= first_a + 1);
      break;
    }
    case 8: {
      auto e = upto_a;
      e.erase(std::unique(e.begin(), e.end()), e.end());
      CHECK_EQ(src() | utl::take_while(not_a) | utl::unique() | utl::vec(), e);
      CHECK(log.furthest <= first_a + 1);
      break;
    }
    case 9: {
      auto got = Vec{};
      for (auto const x : src() | utl::take_while(not_a) | utl::iterable()) got.push_back(x);
      CHECK_EQ(got, upto_a);
      CHECK(log.furthest <= first_a + 1);
      break;
    }
    case 10: CHECK_EQ(src() | utl::count(is_a), static_cast<std::size_t>(std::count(v.begin(), v.end(), a))); break;
    default: {  // nothing is looked at before something is asked for
      auto p = src() | utl::transform(twice) | utl::remove_if(is_b) | utl::unique() | utl::take_while(not_a);
      CHECK_EQ(log.reads, 0U, "the pipeline ran although nobody asked for a result");
      (void)p;
      break;
    }
  }
}

// endless sources
PROP(endless_sources, 3) {
  auto const limit = c.range(0, 60);
  auto const mod = c.range(1, 7), rest = c.range(0, 6);
  auto const kind = c.draw(5);
  c.note("limit = ", limit, ", mod = ", mod, ", rest = ", rest, ", kind ", kind);
  c.nontrivial(limit >= 2);
  auto pulled = 0, transformed = 0;
  auto const gen = [&] { return utl::generate([&] { return pulled++; }); };
  auto const below = [limit](int const x) { return x < limit; };
  auto const hit = [=](int const x) { return x % mod == rest % mod; };
  auto e = Vec{};
  switch (kind) {
    case 0:
      for (auto i = 0; i < limit; ++i) e.push_back(i);
      CHECK_EQ(gen() | utl::take_while(below) | utl::vec(), e);
      CHECK(pulled <= limit + 1, "pulled ", pulled, " values, needed ", limit);
      break;
    case 1: {
      auto const f = gen() | utl::find([=](int const x) { return x == limit; });
      CHECK(f.has_value() && *f == limit);
      CHECK_EQ(pulled, limit + 1, "find pulled more than it needs");
      break;
    }
    case 2:
      for (auto i = 0; i < limit; ++i) if (!hit(i)) e.push_back(i);
      CHECK_EQ(gen() | utl::take_while(below) | utl::remove_if(hit) | utl::vec(), e);
      CHECK(pulled <= limit + 1);
      break;
    case 3: {
      for (auto i = 0; i < limit; ++i) e.push_back(i * 10);
      CHECK_EQ(gen() | utl::transform([&](int const x) { transformed = std::max(transformed, x + 1); return x * 10; }) |
                   utl::take_while([=](int const x) { return x < limit * 10; }) | utl::vec(), e);
      CHECK(pulled <= limit + 1 && transformed <= limit + 1, "pulled ", pulled, " transformed ", transformed);
      break;
    }
    case 4:
      for (auto i = 0; i < limit; ++i) if (e.empty() || e.back() != i / mod) e.push_back(i / mod);
      CHECK_EQ(gen() | utl::take_while(below) | utl::transform([=](int const x) { return x / mod; }) | utl::unique() | utl::vec(), e);
      CHECK(pulled <= limit + 1);
      break;
    default: {
      auto n = 0;
      for (auto const x : gen() | utl::take_while(below) | utl::iterable()) { CHECK_EQ(x, n); ++n; }
      CHECK_EQ(n, limit);
      CHECK(pulled <= limit + 1);
      break;
    }
  }
}

// single-pass input: every element is taken exactly once and in order
PROP(single_pass_input, 2) {
  auto const v = numbers(c);
  c.note("source = ", str(v));
  c.nontrivial(v.size() >= 2);
  auto ss = std::stringstream{};
  for (auto const x : v) ss << x << ' ';
  auto const b = c.range(-3, 6);
  auto e = Vec{};
  for (auto const x : v) if (x != b) e.push_back(x * 2);
  auto const got = utl::all(std::istream_iterator<int>{ss}, std::istream_iterator<int>{}) |
                   utl::remove_if([=](int const x) { return x == b; }) |
                   utl::transform([](int const x) { return x * 2; }) | utl::vec();
  CHECK_EQ(got, e);
}
