// A06: sort_by orders several columns by one of them.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/sort_by.h"

using namespace pbt;

namespace {
template <typename T, typename... U>
void check(Case& c, std::vector<T> const& key, std::vector<U> const&... rest) {
  auto const n = key.size();
  auto rows = std::vector<std::tuple<T, U...>>{};
  for (auto i = std::size_t{0}; i != n; ++i) rows.emplace_back(key[i], rest[i]...);
  auto k = key;
  auto cols = std::tuple<std::vector<U>...>{rest...};
  c.note("rows ", str(rows));
  c.nontrivial(n >= 2);
  auto const r = std::apply([&](auto&... x) {
    return c.flip() ? utl::sort_by(k, x...) : utl::sort_by(std::vector<T>{k}, std::vector<U>{x}...);
  }, cols);
  auto got = std::vector<std::tuple<T, U...>>{};
  std::apply([&](auto const&... col) {
    ((CHECK_EQ(col.size(), n)), ...);
    for (auto i = std::size_t{0}; i != n; ++i) got.emplace_back(col[i]...);
  }, r);
  for (auto i = std::size_t{1}; i < n; ++i) CHECK(!(std::get<0>(got[i]) < std::get<0>(got[i - 1])), "not ascending at ", i, ": ", str(got));
  auto a = got;
  auto b = rows;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  CHECK_EQ(a, b, "rows were torn apart, lost or invented");
  CHECK_EQ(k, key, "the input was modified");
  std::apply([&](auto const&... x) { ((CHECK_EQ(x, rest, "the input was modified")), ...); }, cols);
}
template <typename T>
std::vector<T> col(Case& c, std::size_t const n) {
  auto v = std::vector<T>(n);
  auto const wide = c.chance(1, 4);
  auto num = c.keys<std::conditional_t<std::is_integral_v<T>, T, int>>(std::is_same_v<T, char> || std::is_same_v<T, unsigned char> ? c.of({1, 5, 100}) : c.of({1, 5, 1000}));
  for (auto& x : v) {
    if constexpr (std::is_same_v<T, std::string>) x = c.text(c.more(20), "ab");
    else if constexpr (std::is_integral_v<T>) x = num();
    else x = wide ? num() * 1e300 : num();
  }
  return v;
}
}  // namespace

PROP(rows_stay_together, 4) {
  auto const n = c.more(60);
  switch (c.draw(4)) {
    case 0: check(c, col<int>(c, n)); break;
    case 1: check(c, col<int>(c, n), col<int>(c, n)); break;
    case 2: check(c, col<std::string>(c, n), col<double>(c, n), col<char>(c, n)); break;
    case 3: check(c, col<double>(c, n), col<std::string>(c, n), col<std::string>(c, n), col<int>(c, n)); break;
    default: check(c, col<unsigned char>(c, n), col<long>(c, n)); break;
  }
}

// columns may be left empty
PROP(empty_columns, 2) {
  auto const n = c.more(40);
  auto key = col<int>(c, n);
  auto a = c.flip() ? col<int>(c, n) : std::vector<int>{};
  auto b = std::vector<std::string>{};
  c.note("key ", str(key), ", a ", str(a));
  c.nontrivial(n >= 2);
  auto const [k, ra, rb] = utl::sort_by(key, a, b);
  auto s = key;
  std::sort(s.begin(), s.end());
  CHECK_EQ(k, s);
  CHECK(rb.empty(), "invented a column");
  CHECK_EQ(ra.size(), a.size());
  if (!a.empty()) {
    auto x = std::multiset<std::pair<int, int>>{}, y = x;
    for (auto i = std::size_t{0}; i != n; ++i) { x.emplace(key[i], a[i]); y.emplace(k[i], ra[i]); }
    CHECK_EQ(x, y, "rows were torn apart");
  }
}

PROP_HUGE(many_rows, 12) {
  auto g = c.bulk();
  auto const n = c.huge();
  auto const keys = c.of<std::uint64_t>({3, 300, 10000000});
  c.note(n, " rows, keys up to ", keys);
  c.nontrivial();
  auto key = std::vector<unsigned>(n);
  auto id = std::vector<int>(n);
  auto const salt = static_cast<unsigned>(g(1000));
  for (auto i = std::size_t{0}; i != n; ++i) key[i] = static_cast<unsigned>(g(keys)), id[i] = static_cast<int>(i);
  auto tag = std::vector<unsigned>(n);
  for (auto i = std::size_t{0}; i != n; ++i) tag[i] = key[i] * 31U + static_cast<unsigned>(i) + salt;
  auto const [k, ri, rt] = utl::sort_by(key, id, tag);
  CHECK_EQ(k.size(), n);
  CHECK_EQ(ri.size(), n);
  CHECK_EQ(rt.size(), n);
  auto seen = std::vector<bool>(n);
  for (auto i = std::size_t{0}; i != n; ++i) {
    if (i != 0) CHECK(k[i - 1] <= k[i], "not ascending at ", i);
    auto const row = static_cast<std::size_t>(ri[i]);
    CHECK(row < n && !seen[row], "row ", row, " appears twice");
    seen[row] = true;
    CHECK_EQ(k[i], key[row], "row ", row);
    CHECK_EQ(rt[i], tag[row], "row ", row);
  }
}
