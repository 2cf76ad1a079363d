// A05: removing and inserting elements.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/insert_sorted.h"

using namespace pbt;

namespace {
using P = std::pair<int, std::string>;
std::vector<int> ints(Case& c) {
  auto v = std::vector<int>(c.more(50));
  auto key = c.keys(c.of({1, 4, 12, 200}));
  for (auto& x : v) x = key();
  return v;
}
template <typename T>
std::vector<T> without(std::vector<T> const& v, auto&& pred) {
  auto r = std::vector<T>{};
  for (auto const& x : v) if (!pred(x)) r.push_back(x);
  return r;
}
}  // namespace

PROP(erase_keeps_the_rest, 3) {
  auto const v = ints(c);
  auto const el = !v.empty() && c.flip() ? c.from(v) : c.keys(5)();
  c.note("elements ", str(v), ", erased ", el);
  c.nontrivial(v.size() >= 2);
  auto const e = without(v, [&](int const x) { return x == el; });
  c.label_if(e.size() + 2 <= v.size(), "erased several");
  auto a = v;
  utl::erase(a, el);
  CHECK_EQ(a, e);
  auto d = std::deque<int>(v.begin(), v.end());
  utl::erase(d, el);
  CHECK_EQ((std::vector<int>{d.begin(), d.end()}), e);
  auto s = std::set<int>(v.begin(), v.end());
  auto es = s;
  es.erase(el);
  utl::erase(s, el);
  auto s1 = std::set<int>(v.begin(), v.end());
  utl::erase(std::move(s1), el);
  CHECK_EQ(s1, es, "erase of an rvalue set");
  CHECK_EQ(s, es);
  auto b = v;
  utl::erase(std::move(b), el);
  CHECK_EQ(b, e, "erase of an rvalue");
  // the erased value may live in the container
  if (!v.empty()) {
    auto f = v;
    auto const i = c.below(v.size());
    utl::erase(f, f[i]);
    CHECK_EQ(f, without(v, [&](int const x) { return x == v[i]; }), "element of the container");
  }
}

PROP(erase_if_keeps_the_rest, 3) {
  auto const v = ints(c);
  auto const m = c.range(1, 5), r = c.range(-4, 4);
  c.note("elements ", str(v), ", erased if % ", m, " == ", r);
  c.nontrivial(v.size() >= 2);
  auto const pred = [&](int const x) { return x % m == r; };
  auto const e = without(v, pred);
  auto a = v;
  auto calls = std::size_t{0};
  utl::erase_if(a, [&](int const x) { ++calls; return pred(x); });
  CHECK_EQ(a, e);
  CHECK_EQ(calls, v.size(), "calls of the predicate");
  auto l = std::list<int>(v.begin(), v.end());
  utl::erase_if(l, pred);
  CHECK_EQ((std::vector<int>{l.begin(), l.end()}), e);
  auto s = std::vector<std::string>{};
  auto es = std::vector<std::string>{};
  for (auto const x : v) s.push_back("a text which needs memory " + std::to_string(x));
  for (auto const x : e) es.push_back("a text which needs memory " + std::to_string(x));
  utl::erase_if(s, [&](std::string const& x) { return pred(std::stoi(x.substr(26))); });
  CHECK_EQ(s, es);
  auto u = std::vector<std::unique_ptr<int>>{};
  for (auto const x : v) u.push_back(std::make_unique<int>(x));
  utl::erase_if(u, [&](std::unique_ptr<int> const& x) { return pred(*x); });
  auto got = std::vector<int>{};
  for (auto const& x : u) got.push_back(*x);
  CHECK_EQ(got, e);
}

PROP(duplicates, 3) {
  auto const v = ints(c);
  c.note("elements ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const set = std::set<int>(v.begin(), v.end());
  c.label_if(set.size() != v.size(), "has duplicates");
  auto const e = std::vector<int>(set.begin(), set.end());
  auto a = v;
  utl::erase_duplicates(a);
  CHECK_EQ(a, e);
  auto d = std::deque<int>(v.begin(), v.end());
  utl::erase_duplicates(d);
  CHECK_EQ((std::vector<int>{d.begin(), d.end()}), e);
  // an order and an equality of one's own
  auto b = v;
  utl::erase_duplicates(b, std::greater<int>{}, std::equal_to<int>{});
  CHECK_EQ(b, (std::vector<int>{set.rbegin(), set.rend()}));
  auto keys = v;
  auto const m = c.range(1, 7);
  auto const key = [&](int const x) { return (x % m + m) % m; };
  utl::erase_duplicates(keys, [&](int const x, int const y) { return key(x) < key(y); }, [&](int const x, int const y) { return key(x) == key(y); });
  auto ks = std::set<int>{};
  for (auto const x : v) ks.insert(key(x));
  auto got = std::vector<int>{};
  for (auto const x : keys) { got.push_back(key(x)); CHECK(set.contains(x), "invented ", x); }
  CHECK_EQ(got, (std::vector<int>{ks.begin(), ks.end()}), "keys modulo ", m);
  // a part of a container
  auto p = v;
  auto const lo = c.below(v.size() + 1), hi = lo + c.below(v.size() - lo + 1);
  auto part = std::set<int>(v.begin() + static_cast<long>(lo), v.begin() + static_cast<long>(hi));
  utl::erase_duplicates(p, p.begin() + static_cast<long>(lo), p.begin() + static_cast<long>(hi), std::less<int>{}, std::equal_to<int>{});
  auto ep = std::vector<int>(v.begin(), v.begin() + static_cast<long>(lo));
  ep.insert(ep.end(), part.begin(), part.end());
  ep.insert(ep.end(), v.begin() + static_cast<long>(hi), v.end());
  CHECK_EQ(p, ep, "from ", lo, " to ", hi);
}

// equality may tell more elements apart than the order does
PROP(finer_equality, 1) {
  using Row = std::pair<int, int>;
  auto v = std::vector<Row>(c.more(20));
  for (auto& [k, x] : v) { k = c.range(0, 3); x = c.range(0, 2); }
  c.note("rows ", str(v));
  c.nontrivial(v.size() >= 2);
  auto const less = [](Row const& a, Row const& b) { return a.first < b.first; };
  auto const lo = c.flip() ? 0 : c.below(v.size() + 1), hi = lo == 0 ? v.size() : lo + c.below(v.size() - lo + 1);
  auto got = v;
  auto const b = got.begin() + static_cast<long>(lo), e = got.begin() + static_cast<long>(hi);
  c.note("from ", lo, " to ", hi);
  if (lo == 0) {
    utl::erase_duplicates(got, less, std::equal_to<Row>{});
  } else {
    utl::erase_duplicates(got, b, e, less, std::equal_to<Row>{});
  }
  CHECK(got.size() <= v.size());
  auto const rest = v.size() - hi;
  CHECK(got.size() >= lo + rest);
  auto const ge = got.end() - static_cast<long>(rest);
  auto const gb = got.begin() + static_cast<long>(lo);
  CHECK(std::equal(v.begin(), v.begin() + static_cast<long>(lo), got.begin()), "changed before the part");
  CHECK(std::equal(ge, got.end(), v.begin() + static_cast<long>(hi)), "changed behind the part");
  CHECK(std::is_sorted(gb, ge, less), "not sorted: ", str(got));
  CHECK(std::adjacent_find(gb, ge) == ge, "equal neighbours: ", str(got));
  auto const values = std::set<Row>(v.begin() + static_cast<long>(lo), v.begin() + static_cast<long>(hi));
  CHECK_EQ((std::set<Row>{gb, ge}), values, "values lost or invented");
}

namespace {
// elements whose own order and equality are not the ones to be used
struct N {
  int key, noise;
  bool operator<(N const& o) const { return noise < o.noise; }
  bool operator==(N const& o) const { return noise == o.noise; }
  bool operator!=(N const& o) const { return noise != o.noise; }
};
}  // namespace

PROP(only_the_given_relations_count, 1) {
  auto v = std::vector<N>(c.more(30));
  auto key = c.keys(c.of({0, 1, 3, 20})), noise = c.keys(c.of({0, 1, 2}));
  auto keys = std::set<int>{};
  auto all = std::set<std::pair<int, int>>{};
  for (auto& x : v) {
    x = {key(), noise()};
    keys.insert(x.key);
    all.emplace(x.key, x.noise);
    c.note("key ", x.key, " noise ", x.noise);
  }
  c.nontrivial(v.size() >= 2);
  auto const desc = c.flip();
  auto const lt = [&](N const& x, N const& y) { return desc ? x.key > y.key : x.key < y.key; };
  auto const eq = [](N const& x, N const& y) { return x.key == y.key; };
  auto e = std::vector<int>(keys.begin(), keys.end());
  if (desc) std::reverse(e.begin(), e.end());
  c.flip() ? utl::erase_duplicates(v, lt, eq) : utl::erase_duplicates(v, v.begin(), v.end(), lt, eq);
  auto got = std::vector<int>{};
  for (auto const& x : v) {
    got.push_back(x.key);
    CHECK(all.contains({x.key, x.noise}), "invented ", x.key, "/", x.noise);
  }
  CHECK_EQ(got, e, "one element per key");
}

PROP(insertion_history, 4) {
  auto const desc = c.chance(1, 3);
  auto const lt = [&](int const x, int const y) { return desc ? x > y : x < y; };
  auto v = std::vector<int>{};
  auto d = std::deque<int>{};
  auto model = std::set<int, decltype(lt)>(lt);
  auto key = c.keys(c.of({3, 12, 200}));
  auto const n = c.more(40);
  c.nontrivial(n >= 2);
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const x = key();
    c.note("insert ", x);
    auto const is_new = model.insert(x).second;
    c.label_if(!is_new, "inserted again");
    auto const [it, inserted] = desc ? utl::insert_sorted(v, x, lt) : utl::insert_sorted(v, x);
    CHECK_EQ(inserted, is_new);
    CHECK(it >= v.begin() && it < v.end(), "iterator outside");
    CHECK_EQ(*it, x);
    CHECK_EQ(v, (std::vector<int>{model.begin(), model.end()}));
    auto const [jt, jnew] = utl::insert_sorted(d, x, lt);
    CHECK_EQ(jnew, is_new);
    CHECK_EQ(*jt, x);
    CHECK_EQ((std::vector<int>{d.begin(), d.end()}), v);
  }
}

PROP(insertion_by_key, 1) {
  auto v = std::vector<P>{};
  auto ms = std::multiset<P>{};
  auto const n = c.more(25);
  c.nontrivial(n >= 2);
  auto const lt = [](P const& x, P const& y) { return x.first < y.first; };
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const x = P{c.range(0, 4), c.of({"one text, long enough to be on the heap", "another text, long enough to be on the heap"})};
    auto const [it, inserted] = utl::insert_sorted(v, x, lt);
    CHECK(*it == x, "iterator to another element");
    if (inserted) ms.insert(x);
    else CHECK(ms.contains(x), "refused a new element");
    CHECK(std::is_sorted(v.begin(), v.end(), lt), "not sorted");
    auto s = v;
    std::sort(s.begin(), s.end());
    CHECK_EQ(s, (std::vector<P>{ms.begin(), ms.end()}));
  }
}

PROP_HUGE(large_containers, 12) {
  auto g = c.bulk();
  auto v = std::vector<int>(c.huge());
  auto const keys = c.of<std::uint64_t>({1, 300, 70000});
  for (auto& x : v) x = static_cast<int>(g(keys));
  auto const el = v[g(v.size() - 1)];
  c.note(v.size(), " elements up to ", keys, ", erased ", el);
  c.nontrivial();
  auto a = v;
  utl::erase(a, el);
  CHECK(a == without(v, [&](int const x) { return x == el; }), "erase");
  auto b = v;
  utl::erase_if(b, [&](int const x) { return x % 2 == el % 2; });
  CHECK(b == without(v, [&](int const x) { return x % 2 == el % 2; }), "erase_if");
  auto d = v;
  utl::erase_duplicates(d);
  auto const set = std::set<int>(v.begin(), v.end());
  auto s = std::vector<int>(set.begin(), set.end());
  CHECK(d == s, "erase_duplicates");
  for (auto i = 0; i != 50; ++i) {
    auto const x = static_cast<int>(g(keys)) * (g(3) == 0 ? -1 : 1);
    auto const at = std::lower_bound(s.begin(), s.end(), x);
    auto const is_new = at == s.end() || *at != x;
    auto const pos = at - s.begin();
    if (is_new) s.insert(at, x);
    auto const [it, inserted] = utl::insert_sorted(d, x);
    CHECK_EQ(inserted, is_new);
    CHECK_EQ(it - d.begin(), pos);
    CHECK(d == s, "after the insertion of ", x);
  }
}
