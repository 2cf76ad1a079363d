// A10: bits of a number.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/for_each_bit_set.h"

using namespace pbt;

namespace {
template <typename T>
void check(Case& c) {
  using U = std::make_unsigned_t<T>;
  auto const v = c.any_int<T>();
  auto const u = static_cast<std::uint64_t>(static_cast<U>(v));
  c.note("value ", static_cast<long long>(v), " of ", sizeof(T), " bytes");
  c.nontrivial((u & (u - 1)) != 0);
  auto const bits = std::bitset<64>{u};
  auto e = std::vector<unsigned>{};
  for (auto i = 0U; i != sizeof(T) * 8; ++i) {
    CHECK_EQ(utl::has_bit_set(v, i), bits[i], "bit ", i);
    if (bits[i]) e.push_back(i);
  }
  auto got = std::vector<unsigned>{};
  utl::for_each_set_bit(v, [&](auto const b) { got.push_back(static_cast<unsigned>(b)); });
  CHECK_EQ(got, e);
  auto back = std::uint64_t{0};
  utl::for_each_set_bit(v, [&](auto const b) { back |= std::uint64_t{1} << b; });
  CHECK_EQ(back, u);
}
}  // namespace

PROP(bits, 1) {
  switch (c.draw(7)) {
    case 0: check<std::uint8_t>(c); break;
    case 1: check<std::int8_t>(c); break;
    case 2: check<std::uint16_t>(c); break;
    case 3: check<std::int16_t>(c); break;
    case 4: check<std::uint32_t>(c); break;
    case 5: check<std::int32_t>(c); break;
    case 6: check<std::uint64_t>(c); break;
    default: check<std::int64_t>(c); break;
  }
}
static_assert([] { auto n = 0; utl::for_each_set_bit(0b1011U, [&](unsigned) { ++n; }); return n; }() == 3 && utl::has_bit_set(4U, 2U));
