// A01: joins of sorted sequences pair equal groups, and report the rest.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/join.h"

using namespace pbt;

namespace {
struct A { int key; int id; };
struct B { int id; short key; };
struct Key {
  int key(A const& a) const { return a.key; }
  int key(B const& b) const { return b.key; }
};
struct Ev {
  char kind;  // m, a, b
  int key;
  std::vector<int> as, bs;
  bool operator==(Ev const&) const = default;
};
std::ostream& operator<<(std::ostream& o, Ev const& e) { return o << e.kind << e.key << str(e.as) << "x" << str(e.bs); }

template <typename T, typename K>
std::vector<T> sorted(Case& c, std::size_t const max, K key) {
  auto v = std::vector<T>(c.more(max));
  for (auto& x : v) x.key = key();
  std::sort(v.begin(), v.end(), [](T const& x, T const& y) { return x.key < y.key; });
  for (auto i = std::size_t{0}; i != v.size(); ++i) v[i].id = static_cast<int>(i);
  return v;
}
std::vector<Ev> model(std::vector<A> const& a, std::vector<B> const& b) {
  auto m = std::map<int, Ev>{};
  for (auto const& x : a) m[x.key].as.push_back(x.id);
  for (auto const& x : b) m[x.key].bs.push_back(x.id);
  auto r = std::vector<Ev>{};
  for (auto& [k, e] : m) {
    e.key = k;
    e.kind = e.as.empty() ? 'b' : e.bs.empty() ? 'a' : 'm';
    r.push_back(e);
  }
  return r;
}
std::vector<Ev> only(std::vector<Ev> const& v, std::string_view const kinds) {
  auto r = std::vector<Ev>{};
  for (auto const& e : v) if (kinds.find(e.kind) != std::string_view::npos) r.push_back(e);
  return r;
}
template <typename It>
std::vector<int> ids(It lo, It const hi, std::size_t const max) {
  auto r = std::vector<int>{};
  for (; lo != hi; ++lo) {
    r.push_back(lo->id);
    CHECK(r.size() <= max, "the end of a group lies before its begin");
  }
  return r;
}
// handlers reporting into `got`
struct Log {
  std::vector<Ev> got;
  std::size_t max;
  auto match() {
    return [this](auto a0, auto a1, auto b0, auto b1) {
      CHECK(a0 != a1 && b0 != b1, "a match without elements");
      got.push_back({'m', a0->key, ids(a0, a1, max), ids(b0, b1, max)});
      limit();
    };
  }
  auto left() {
    return [this](auto a0, auto a1) { CHECK(a0 != a1, "empty group"); got.push_back({'a', a0->key, ids(a0, a1, max), {}}); limit(); };
  }
  auto right() {
    return [this](auto b0, auto b1) { CHECK(b0 != b1, "empty group"); got.push_back({'b', b0->key, {}, ids(b0, b1, max)}); limit(); };
  }
  void limit() const { CHECK(got.size() <= 2 * max + 2, "too many groups"); }
};
template <typename CA, typename CB, typename... L>
void run(Case& c, CA& a, CB& b, std::vector<Ev> const& e, std::size_t const max, L... less) {
  auto log = Log{{}, max};
  auto const its = c.flip();
  switch (c.draw(2)) {
    case 0:
      its ? utl::inner_join(a.begin(), a.end(), b.begin(), b.end(), less..., log.match()) : utl::inner_join(a, b, less..., log.match());
      CHECK_EQ(log.got, only(e, "m"), "inner join");
      break;
    case 1:
      its ? utl::left_join(a.begin(), a.end(), b.begin(), b.end(), less..., log.match(), log.left()) : utl::left_join(a, b, less..., log.match(), log.left());
      CHECK_EQ(log.got, only(e, "ma"), "left join");
      break;
    default:
      its ? utl::full_join(a.begin(), a.end(), b.begin(), b.end(), less..., log.match(), log.left(), log.right()) : utl::full_join(a, b, less..., log.match(), log.left(), log.right());
      CHECK_EQ(log.got, e, "full join");
      break;
  }
}
bool operator<(A const& x, A const& y) { return x.key < y.key; }
bool operator<(A const& x, B const& y) { return x.key < y.key; }
bool operator<(B const& x, A const& y) { return x.key < y.key; }
bool operator<(B const& x, B const& y) { return x.key < y.key; }
}  // namespace

PROP(groups, 4) {
  auto const keys = c.keys<short>(c.of({1, 3, 6, 30}));
  auto a = sorted<A>(c, 40, keys);
  auto b = sorted<B>(c, 40, keys);
  auto const e = model(a, b);
  c.note("groups ", str(e));
  c.nontrivial(!a.empty() && !b.empty());
  c.label_if(a.empty() != b.empty(), "one side empty");
  c.label_if(only(e, "m").size() != 0, "matches");
  c.label_if(!e.empty() && e.back().kind == 'b', "right group last");
  auto const max = a.size() + b.size();
  switch (c.draw(3)) {
    case 0: run(c, a, b, e, max); break;
    case 1: run(c, a, b, e, max, utl::join_less<Key>{}); break;
    case 2: {
      auto const la = std::list<A>(a.begin(), a.end());
      auto const lb = std::forward_list<B>(b.begin(), b.end());
      run(c, la, lb, e, max);
      break;
    }
    default: {  // descending
      std::reverse(a.begin(), a.end());
      std::reverse(b.begin(), b.end());
      auto r = model(a, b);
      std::reverse(r.begin(), r.end());
      run(c, a, b, r, max, [](auto const& x, auto const& y) { return x.key > y.key; });
    }
  }
}

// swapping the sides swaps the roles
PROP(swapped_sides, 2) {
  auto const keys = c.keys(c.of({1, 3, 6, 30}));
  auto const a = sorted<A>(c, 30, keys);
  auto const b = sorted<A>(c, 30, keys);
  auto show = [](std::vector<A> const& v) { auto s = std::string{}; for (auto const& x : v) s += cat(x.key, " "); return s; };
  c.note("a ", show(a), "\nb ", show(b));
  c.nontrivial(!a.empty() && !b.empty());
  using Row = std::tuple<int, int, int>;  // key, id in a, id in b
  auto const all = [](auto const& x, auto const& y, bool const swap) {
    auto r = std::vector<Row>{};
    utl::full_join(
        x, y, [](A const& p, A const& q) { return p.key < q.key; },
        [&](auto a0, auto a1, auto b0, auto b1) {
          for (auto i = a0; i != a1; ++i) for (auto j = b0; j != b1; ++j) swap ? r.emplace_back(i->key, j->id, i->id) : r.emplace_back(i->key, i->id, j->id);
        },
        [&](auto a0, auto a1) { for (auto i = a0; i != a1; ++i) swap ? r.emplace_back(i->key, -1, i->id) : r.emplace_back(i->key, i->id, -1); },
        [&](auto b0, auto b1) { for (auto i = b0; i != b1; ++i) swap ? r.emplace_back(i->key, i->id, -1) : r.emplace_back(i->key, -1, i->id); });
    std::sort(r.begin(), r.end());
    return r;
  };
  CHECK_EQ(all(a, b, false), all(b, a, true));
}

namespace {
// elements whose own order and equality have nothing to do with the order
// the join is asked to use
struct N {
  int key, id, noise;
  bool operator<(N const& o) const { return noise < o.noise; }
  bool operator>(N const& o) const { return noise > o.noise; }
  bool operator<=(N const& o) const { return noise <= o.noise; }
  bool operator>=(N const& o) const { return noise >= o.noise; }
  bool operator==(N const& o) const { return noise == o.noise; }
  bool operator!=(N const& o) const { return noise != o.noise; }
};
}  // namespace

PROP(only_the_given_order_counts, 2) {
  auto key = c.keys(c.of({1, 3, 8}));
  auto noise = c.keys(2);
  auto const side = [&] {
    auto v = std::vector<N>(c.more(20));
    for (auto& x : v) x = {key(), 0, noise()};
    std::sort(v.begin(), v.end(), [](N const& x, N const& y) { return x.key < y.key; });
    auto id = 0;
    for (auto& x : v) x.id = id++;
    return v;
  };
  auto a = side(), b = side();
  auto m = std::map<int, Ev>{};
  for (auto const& x : a) m[x.key].as.push_back(x.id), c.note("a ", x.key, " noise ", x.noise);
  for (auto const& x : b) m[x.key].bs.push_back(x.id), c.note("b ", x.key, " noise ", x.noise);
  auto e = std::vector<Ev>{};
  for (auto& [k, ev] : m) {
    ev.key = k;
    ev.kind = ev.as.empty() ? 'b' : ev.bs.empty() ? 'a' : 'm';
    e.push_back(ev);
  }
  c.nontrivial(!a.empty() && !b.empty());
  auto const max = a.size() + b.size();
  if (c.flip()) run(c, a, b, e, max, [](N const& x, N const& y) { return x.key < y.key; });
  else {
    auto const la = std::list<N>(a.begin(), a.end());
    run(c, la, b, e, max, [](N const& x, N const& y) { return x.key < y.key; });
  }
}

PROP_HUGE(large_groups, 16) {
  auto g = c.bulk();
  auto const n = c.huge(), m = c.huge();
  auto const keys = c.of({1, 2, 50, 100000});
  auto const side = [&](std::size_t const len, auto proto) {
    auto v = std::vector<decltype(proto)>(len);
    auto k = std::vector<int>(len);
    for (auto& x : k) x = static_cast<int>(g(static_cast<std::uint64_t>(keys))) % 30000;
    std::sort(k.begin(), k.end());
    for (auto i = std::size_t{0}; i != len; ++i) {
      v[i].key = static_cast<decltype(v[i].key)>(k[i]);
      v[i].id = static_cast<int>(i);
    }
    return v;
  };
  auto a = side(n, A{});
  auto b = side(m, B{});
  auto const e = model(a, b);
  c.note(n, " and ", m, " elements, ", e.size(), " groups");
  c.nontrivial();
  run(c, a, b, e, n + m);
}
