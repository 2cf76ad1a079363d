// A07: get_or_create and get_or_create_index.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"

using namespace pbt;

namespace {
struct Odd : std::runtime_error { using runtime_error::runtime_error; };
// a map without emplace_hint
template <typename K, typename V>
struct plain_map {
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<K const, V>;
  using iterator = typename std::list<value_type>::iterator;
  using const_iterator = typename std::list<value_type>::const_iterator;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = value_type&;
  using const_reference = value_type const&;
  iterator find(K const& k) { return std::find_if(l_.begin(), l_.end(), [&](auto const& e) { return e.first == k; }); }
  const_iterator find(K const& k) const { return std::find_if(l_.begin(), l_.end(), [&](auto const& e) { return e.first == k; }); }
  bool contains(K const& k) const { return find(k) != l_.end(); }
  size_type count(K const& k) const { return contains(k) ? 1U : 0U; }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) {
    return insert(value_type(std::forward<A>(a)...));
  }
  template <typename Q, typename... A>
  std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) {
    if (auto const it = find(k); it != l_.end()) return {it, false};
    l_.emplace_back(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...));
    return {std::prev(l_.end()), true};
  }
  template <typename Q, typename A>
  std::pair<iterator, bool> insert_or_assign(Q&& k, A&& a) {
    auto const r = try_emplace(std::forward<Q>(k));
    r.first->second = std::forward<A>(a);
    return r;
  }
  std::pair<iterator, bool> insert(value_type v) {
    if (auto const it = find(v.first); it != l_.end()) return {it, false};
    l_.push_back(std::move(v));
    return {std::prev(l_.end()), true};
  }
  template <typename Q>
  V& operator[](Q&& k) { return try_emplace(std::forward<Q>(k)).first->second; }
  V& at(K const& k) { return find(k)->second; }
  V const& at(K const& k) const { return find(k)->second; }
  std::size_t size() const { return l_.size(); }
  bool empty() const { return l_.empty(); }
  iterator begin() { return l_.begin(); }
  iterator end() { return l_.end(); }
  const_iterator begin() const { return l_.begin(); }
  const_iterator end() const { return l_.end(); }
  std::list<value_type> l_;
};
template <typename M>
std::map<std::string, int> contents(M& m) {
  auto r = std::map<std::string, int>{};
  for (auto const& [k, v] : m) r.emplace(k, v);
  return r;
}
template <typename M>
void history(Case& c) {
  auto m = M{};
  auto model = std::map<std::string, int>{};
  auto addr = std::map<std::string, int*>{};
  auto const n = c.more(30);
  auto const wide = c.chance(1, 4);
  c.nontrivial(n >= 2);
  auto next = 1;
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto key = wide ? c.text(3, "abcdefghijklmnopqrstuvwxyz") : c.text(c.range<std::size_t>(1, 2), "abc");
    if (wide && !model.empty() && c.flip()) key = std::next(model.begin(), static_cast<long>(c.below(model.size())))->first;
    if (c.chance(1, 4)) key += " and a suffix which makes it a long key";
    auto const known = model.find(key);
    auto const is_new = known == model.end();
    auto calls = 0;
    switch (c.draw(4)) {
      case 0: {  // the factory fails
        c.note("failing factory for ", key);
        auto thrown = false;
        try {
          auto& r = utl::get_or_create(m, key, [&]() -> int { ++calls; throw Odd{"no value"}; });
          CHECK(!is_new, "no exception");
          CHECK_EQ(r, known->second);
        } catch (Odd const&) {
          thrown = true;
        }
        CHECK_EQ(thrown, is_new);
        CHECK_EQ(calls, is_new ? 1 : 0, "calls of the factory");
        break;
      }
      case 1: {  // the value is changed through the reference
        c.note("change ", key);
        auto& r = utl::get_or_create(m, key, [&] { ++calls; return next; });
        if (is_new) model[key] = next;
        CHECK_EQ(r, model[key]);
        r = model[key] = -next;
        CHECK_EQ(calls, is_new ? 1 : 0, "calls of the factory");
        break;
      }
      case 2: {  // the key is handed over
        auto copy = key;
        c.note("hand over ", key);
        auto& r = utl::get_or_create(m, std::move(copy), [&] { ++calls; return next; });
        if (is_new) model[key] = next;
        CHECK_EQ(r, model[key]);
        CHECK_EQ(calls, is_new ? 1 : 0, "calls of the factory");
        break;
      }
      default: {
        c.note("get ", key);
        auto const copy = key;
        auto& r = utl::get_or_create(m, key, [&] { ++calls; return next; });
        CHECK_EQ(key, copy, "the key was modified");
        if (is_new) model[key] = next;
        CHECK_EQ(r, model[key]);
        CHECK_EQ(calls, is_new ? 1 : 0, "calls of the factory");
        if (!addr.contains(key)) addr[key] = &r;
        CHECK(addr[key] == &r, "another element");
      }
    }
    ++next;
    CHECK_EQ(contents(m), model);
  }
}
template <typename M>
void index(Case& c) {
  auto m = M{};
  auto order = std::vector<std::string>{};
  auto const n = c.more(40);
  auto const wide = c.chance(1, 4);
  c.nontrivial(n >= 2);
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const key = c.text(c.range<std::size_t>(1, wide ? 3 : 2), wide ? "abcdefghijklm" : "abcd");
    c.note("index of ", key);
    auto const it = std::find(order.begin(), order.end(), key);
    auto const e = static_cast<std::size_t>(it - order.begin());
    if (it == order.end()) order.push_back(key);
    CHECK_EQ(static_cast<std::size_t>(utl::get_or_create_index(m, key)), e);
    CHECK_EQ(m.size(), order.size());
    for (auto k = order.size() > 40 && i + 1 != n ? order.size() - 20 : std::size_t{0}; k != order.size(); ++k) CHECK_EQ(static_cast<std::size_t>(m[order[k]]), k, "index of ", order[k]);
  }
}
}  // namespace

PROP(creates_once, 4) {
  switch (c.draw(2)) {
    case 0: history<std::map<std::string, int>>(c); break;
    case 1: history<std::unordered_map<std::string, int>>(c); break;
    default: history<plain_map<std::string, int>>(c); break;
  }
}
PROP(dense_indices, 3) {
  switch (c.draw(3)) {
    case 0: index<std::map<std::string, std::size_t>>(c); break;
    case 1: index<std::unordered_map<std::string, std::size_t>>(c); break;
    case 2: index<std::map<std::string, unsigned>>(c); break;
    default: index<plain_map<std::string, std::size_t>>(c); break;
  }
}
// the factory looks at the map it creates a value for, values only move
PROP(move_only_values, 1) {
  auto m = std::map<int, std::unique_ptr<int>>{};
  auto const n = c.more(20);
  auto const keys = c.of({6, 6, 30, 1000});
  c.nontrivial(n >= 2);
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const k = c.range(0, keys);
    auto const is_new = !m.contains(k);
    auto const size = m.size();
    auto& r = utl::get_or_create(m, k, [&] { CHECK_EQ(m.size(), size, "created before the factory ran"); return std::make_unique<int>(k * 10); });
    CHECK(r != nullptr && *r == k * 10, "wrong value");
    CHECK(&r == &m.at(k), "another element");
    CHECK_EQ(m.size(), size + (is_new ? 1 : 0));
  }
}
// the factory asks the same map for other keys (memoised recursion)
namespace {
template <typename M>
void recursion(Case& c) {
  auto const n = 1 + c.more(40);
  auto deps = std::vector<std::vector<int>>(n);
  auto value = std::vector<std::uint64_t>(n);
  for (auto i = std::size_t{0}; i != n; ++i) {
    value[i] = 1;
    if (i != 0) for (auto k = c.below(4); k != 0; --k) {
      deps[i].push_back(static_cast<int>(c.flip() ? i - 1 : c.below(i)));
      value[i] = value[i] * 3 + value[static_cast<std::size_t>(deps[i].back())];
    }
    c.note(i, " needs ", str(deps[i]));
  }
  c.nontrivial(n >= 2);
  auto m = M{};
  auto created = std::vector<int>(n);
  auto const get = [&](auto&& self, int const k) -> std::uint64_t& {
    return utl::get_or_create(m, k, [&] {
      ++created[static_cast<std::size_t>(k)];
      auto v = std::uint64_t{1};
      for (auto const d : deps[static_cast<std::size_t>(k)]) v = v * 3 + self(self, d);
      return v;
    });
  };
  for (auto i = 1 + c.below(5); i != 0; --i) {
    auto const k = static_cast<int>(c.flip() ? n - 1 : c.below(n));
    c.note("get ", k);
    auto& r = get(get, k);
    CHECK_EQ(r, value[static_cast<std::size_t>(k)], "value of ", k);
    auto const it = m.find(k);
    CHECK(it != m.end() && &it->second == &r, "another element");
  }
  auto count = std::size_t{0};
  for (auto const& [k, v] : m) {
    CHECK_EQ(v, value[static_cast<std::size_t>(k)], "value of ", k);
    CHECK_EQ(created[static_cast<std::size_t>(k)], 1, "creations of ", k);
    ++count;
  }
  CHECK_EQ(static_cast<std::size_t>(std::accumulate(created.begin(), created.end(), 0)), count, "entries");
}
}  // namespace
PROP(recursive_factories, 1) {
  c.flip() ? recursion<std::map<int, std::uint64_t>>(c) : recursion<std::unordered_map<int, std::uint64_t>>(c);
}
// looked up by something the key is made from
PROP(keys_of_another_type, 1) {
  auto m = std::map<std::string, int, std::less<>>{};
  auto model = std::map<std::string, int>{};
  auto const n = c.more(20);
  c.nontrivial(n >= 2);
  for (auto i = 0; i != static_cast<int>(n); ++i) {
    auto const key = c.text(c.range<std::size_t>(1, 2), "abc") + c.of({"", " and a suffix which makes it a long key"});
    c.note("get ", key);
    auto const e = model.emplace(key, i).first->second;
    auto calls = 0;
    auto const f = [&] { ++calls; return i; };
    auto const known = m.contains(key);
    auto const& r = c.flip() ? utl::get_or_create(m, std::string_view{key}, f) : utl::get_or_create(m, key.c_str(), f);
    CHECK_EQ(r, e);
    CHECK_EQ(calls, known ? 0 : 1, "calls of the factory");
    CHECK_EQ(m.at(key), e);
    CHECK_EQ(m.size(), model.size());
  }
}
// more keys than a narrow index can count
PROP_HUGE(many_indices, 16) {
  auto const n = c.huge();
  c.note(n, " keys");
  c.nontrivial();
  auto const run = [&](auto m) {
    auto g = c.bulk();
    auto model = std::unordered_map<int, std::size_t>{};
    for (auto i = std::size_t{0}; i != n; ++i) {
      auto const key = g(8) == 0 && i != 0 ? static_cast<int>(g(i - 1)) : static_cast<int>(i);
      auto const e = model.emplace(key, model.size()).first->second;
      CHECK_EQ(static_cast<std::size_t>(utl::get_or_create_index(m, key)), e, "key ", key);
      CHECK_EQ(static_cast<std::size_t>(m.at(key)), e, "key ", key);
    }
    CHECK_EQ(m.size(), model.size());
  };
  c.flip() ? run(std::unordered_map<int, std::size_t>{}) : run(std::map<int, unsigned>{});
}
