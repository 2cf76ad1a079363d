// A09: is_uniform.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/is_uniform.h"

using namespace pbt;

namespace {
using Vec = std::vector<int>;
Vec ints(Case& c) {
  auto const n = c.more(40);
  auto key = c.keys(5);
  auto v = Vec(n, key());
  switch (c.draw(3)) {
    case 0: break;
    case 1: if (n != 0) v[c.below(n)] = key(); break;  // at most one stands out
    case 2: if (n != 0) v[c.flip() ? 0 : n - 1] = key(); break;
    default: for (auto& x : v) x = c.range(0, 2); break;
  }
  return v;
}
}  // namespace

PROP(all_elements_are_equal, 4) {
  auto v = ints(c);
  auto const old = v;
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const e = std::set<int>(v.begin(), v.end()).size() <= 1;
  c.label_if(e, "uniform");
  c.label_if(v.empty(), "empty");
  auto l = std::list<int>(v.begin(), v.end());
  auto const f = std::forward_list<int>(v.begin(), v.end());
  CHECK_EQ(utl::is_uniform(v), e);
  CHECK_EQ(utl::is_uniform(std::as_const(v)), e);
  CHECK_EQ(utl::is_uniform(Vec{v}), e);
  CHECK_EQ(utl::is_uniform(l), e);
  CHECK_EQ(utl::is_uniform(f), e);
  CHECK_EQ(utl::is_uniform(v.begin(), v.end()), e);
  CHECK_EQ(utl::is_uniform(l.begin(), l.end()), e);
  auto b = v.begin();
  auto const end = v.end();
  CHECK_EQ(utl::is_uniform(b, end), e, "named iterators");
  CHECK(b == v.begin(), "the iterator was moved");
  CHECK_EQ(v, old, "the elements were modified");
  CHECK_EQ((Vec{l.begin(), l.end()}), old, "the elements were modified");
}

PROP(all_keys_are_equal, 4) {
  auto v = ints(c);
  auto const old = v;
  auto const m = c.range(1, 4);
  c.note("elements ", str(v), " modulo ", m);
  c.nontrivial(v.size() >= 2);
  auto const key = [&](int const x) { return (x % m + m) % m; };
  auto keys = std::set<int>{};
  for (auto const x : v) keys.insert(key(x));
  auto const e = keys.size() <= 1;
  c.label_if(e, "uniform");
  auto l = std::list<int>(v.begin(), v.end());
  CHECK_EQ(utl::is_uniform(v, key), e);
  CHECK_EQ(utl::is_uniform(std::as_const(v), key), e);
  CHECK_EQ(utl::is_uniform(l, key), e);
  CHECK_EQ(utl::is_uniform(v.begin(), v.end(), key), e);
  auto b = l.begin();
  CHECK_EQ(utl::is_uniform(b, l.end(), key), e);
  CHECK(b == l.begin(), "the iterator was moved");
  CHECK_EQ(v, old, "the elements were modified");
}

namespace {
// elements that are only equal or not
struct Name {
  std::string s;
  bool operator==(Name const&) const = default;
};
// the order knows less than the equality
struct Version {
  int major, minor;
  bool operator==(Version const&) const = default;
  bool operator<(Version const& o) const { return major < o.major; }
};
}  // namespace

PROP(other_elements, 3) {
  auto v = ints(c);
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const e = std::set<int>(v.begin(), v.end()).size() <= 1;
  c.label_if(e, "uniform");
  switch (c.draw(7)) {
    case 0: {
      auto w = std::vector<Name>{};
      for (auto const x : v) w.push_back({"a name that is not a short string " + std::to_string(x)});
      CHECK_EQ(utl::is_uniform(w), e, "names");
      CHECK_EQ(utl::is_uniform(w, [](Name const& x) -> std::string const& { return x.s; }), e, "strings by reference");
      CHECK_EQ(utl::is_uniform(w, [](Name const& x) { return x; }), e, "copies");
      break;
    }
    case 1: {
      auto w = std::vector<Version>{};
      for (auto const x : v) w.push_back({1, x});
      CHECK_EQ(utl::is_uniform(w), e, "versions");
      CHECK_EQ(utl::is_uniform(w, [](Version const& x) { return x; }), e, "versions as keys");
      CHECK(utl::is_uniform(w, [](Version const& x) { return x.major; }), "equal keys");
      break;
    }
    case 2: {
      auto w = std::vector<double>{};
      for (auto const x : v) w.push_back(1.0 + x * 1e-15);
      CHECK_EQ(utl::is_uniform(w), std::set<double>(w.begin(), w.end()).size() <= 1, "numbers close to each other");
      for (auto& x : w) x = x < 1.0 ? -0.0 : 0.0;
      CHECK(utl::is_uniform(w), "zeros of either sign are equal");
      if (!w.empty()) {
        w[c.below(w.size())] = std::nan("");
        CHECK_EQ(utl::is_uniform(w), w.size() == 1, "not a number equals nothing");
      }
      break;
    }
    case 3: {  // the high part differs
      auto w = std::vector<std::uint64_t>{};
      auto const shift = c.below(60);
      for (auto const x : v) w.push_back(7U + (static_cast<std::uint64_t>(x + 5L) << shift));
      CHECK_EQ(utl::is_uniform(w), std::set<std::uint64_t>(w.begin(), w.end()).size() <= 1, "wide numbers");
      CHECK_EQ(utl::is_uniform(v, [&](int const x) { return 7U + (static_cast<std::uint64_t>(x + 5L) << shift); }), std::set<std::uint64_t>(w.begin(), w.end()).size() <= 1, "wide keys");
      break;
    }
    case 4: {
      auto w = std::vector<bool>{};
      for (auto const x : v) w.push_back(x > 0);
      CHECK_EQ(utl::is_uniform(w), std::set<bool>(w.begin(), w.end()).size() <= 1, "bits");
      break;
    }
    case 5: {
      auto const d = std::deque<int>(v.begin(), v.end());
      CHECK_EQ(utl::is_uniform(d), e, "deque");
      CHECK_EQ(utl::is_uniform(d.rbegin(), d.rend()), e, "from behind");
      auto const s = std::multiset<int>(v.begin(), v.end());
      CHECK_EQ(utl::is_uniform(s), e, "multiset");
      auto const t = std::string(v.begin(), v.end());
      CHECK_EQ(utl::is_uniform(t), std::set<char>(t.begin(), t.end()).size() <= 1, "string");
      int a[6] = {3, 3, 3, 3, 3, c.range(2, 3)};
      CHECK_EQ(utl::is_uniform(a), a[5] == 3, "array");
      CHECK_EQ(utl::is_uniform(a, [](int const x) { return x / 2; }), true, "keys of an array");
      CHECK_EQ(utl::is_uniform(v.data(), v.data() + v.size()), e, "pointers");
      break;
    }
    case 6: {  // elements that cannot be copied
      auto w = std::vector<std::unique_ptr<int>>{};
      for (auto const x : v) w.push_back(std::make_unique<int>(x));
      CHECK_EQ(utl::is_uniform(w, [](std::unique_ptr<int> const& x) { return *x; }), e, "what is pointed to");
      CHECK_EQ(utl::is_uniform(w), w.size() <= 1, "different pointers");
      for (auto& x : w) x = nullptr;
      CHECK(utl::is_uniform(w), "null pointers");
      break;
    }
    default: {  // a part of a container
      auto w = v;
      w.insert(w.begin(), 99);
      w.push_back(98);
      CHECK_EQ(utl::is_uniform(w.begin() + 1, w.end() - 1), e, "without the first and the last");
      CHECK_EQ(utl::is_uniform(w.begin() + 1, w.end() - 1, [](int const x) { return x; }), e, "without the first and the last");
      break;
    }
  }
}

namespace {
// elements whose own equality says nothing about their keys
struct Noisy {
  int key, noise;
  bool operator==(Noisy const& o) const { return noise == o.noise; }
  bool operator<(Noisy const& o) const { return noise < o.noise; }
};
struct Incomparable {
  int key;
};
}  // namespace

PROP(only_the_keys_count, 2) {
  auto const keys = ints(c), noise = ints(c);
  auto v = std::vector<Noisy>{};
  auto w = std::vector<Incomparable>{};
  for (auto i = std::size_t{0}; i != keys.size(); ++i) {
    v.push_back({keys[i], noise.empty() ? 0 : noise[i % noise.size()]});
    w.push_back({keys[i]});
    c.note("key ", v[i].key, " noise ", v[i].noise);
  }
  c.nontrivial(v.size() >= 2);
  auto const e = std::set<int>(keys.begin(), keys.end()).size() <= 1;
  c.label_if(e, "uniform");
  auto const l = std::list<Noisy>(v.begin(), v.end());
  auto const key = [](Noisy const& x) { return x.key; };
  CHECK_EQ(utl::is_uniform(v, key), e);
  CHECK_EQ(utl::is_uniform(l, key), e);
  CHECK_EQ(utl::is_uniform(v.begin(), v.end(), key), e);
  CHECK_EQ(utl::is_uniform(l.begin(), l.end(), key), e);
  CHECK_EQ(utl::is_uniform(w, [](Incomparable const& x) { return x.key; }), e);
  CHECK_EQ(utl::is_uniform(w, [](Incomparable const& x) { return std::to_string(x.key) + " as a text that needs memory"; }), e, "keys which are temporary texts");
  auto n = std::set<int>{};
  for (auto const& x : v) n.insert(x.noise);
  CHECK_EQ(utl::is_uniform(v), n.size() <= 1, "by their own equality");
}

PROP_HUGE(long_ranges, 16) {
  auto v = std::vector<int>(c.huge(), 4);
  auto const n = v.size();
  auto const odd = c.below(3);
  if (odd == 1) v[c.below(n)] = 5;
  if (odd == 2) v[c.of({n - 1, n / 2, std::min<std::size_t>(n - 1, 256), std::min<std::size_t>(n - 1, 65536)})] = 5;
  c.note(n, " elements, ", odd != 0 ? "one stands out" : "all alike");
  c.nontrivial();
  CHECK_EQ(utl::is_uniform(v), odd == 0);
  CHECK_EQ(utl::is_uniform(v, [](int const x) { return x; }), odd == 0);
  CHECK(utl::is_uniform(v, [](int const x) { return x / 2; }) == (odd == 0 || 5 / 2 == 4 / 2));
}
