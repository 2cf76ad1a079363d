#pragma once
// Minimal stand-in for felixguendling/cista (not available offline).
// Only what utl's headers use. See DESIGN.md, "cista stand-in".
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

namespace cista::detail {

template <typename T, typename = void>
struct has_cista_members : std::false_type {};
template <typename T>
struct has_cista_members<
    T, std::void_t<decltype(std::declval<T&>().cista_members())>>
    : std::true_type {};
template <typename T>
inline constexpr auto const has_cista_members_v = has_cista_members<T>::value;

struct any_init {
  template <typename T>
  operator T() const;
};

template <std::size_t>
using any_init_at = any_init;

template <typename T, std::size_t... I>
constexpr auto constructible(std::index_sequence<I...>, int)
    -> decltype(T{any_init_at<I>{}...}, true) {
  return true;
}
template <typename T, std::size_t... I>
constexpr bool constructible(std::index_sequence<I...>, long) {
  return false;
}

constexpr std::size_t kMaxFields = 12;

template <typename T, std::size_t N = kMaxFields>
constexpr std::size_t count_fields() {
  if constexpr (N == 0U) {
    return 0U;
  } else if constexpr (constructible<T>(std::make_index_sequence<N>{}, 0)) {
    return N;
  } else {
    return count_fields<T, N - 1U>();
  }
}

}  // namespace cista::detail

namespace cista {

template <typename T>
auto to_tuple(T& t) {
  using D = std::remove_const_t<T>;
  if constexpr (detail::has_cista_members_v<T>) {
    return t.cista_members();
  } else {
    constexpr auto const n = detail::count_fields<D>();
    if constexpr (n == 0U) {
      return std::tie();
#define VP_CISTA(k, ...)            \
  }                                 \
  else if constexpr (n == k) {      \
    auto& [__VA_ARGS__] = t;        \
    return std::tie(__VA_ARGS__);
      VP_CISTA(1, a)
      VP_CISTA(2, a, b)
      VP_CISTA(3, a, b, c)
      VP_CISTA(4, a, b, c, d)
      VP_CISTA(5, a, b, c, d, e)
      VP_CISTA(6, a, b, c, d, e, f)
      VP_CISTA(7, a, b, c, d, e, f, g)
      VP_CISTA(8, a, b, c, d, e, f, g, h)
      VP_CISTA(9, a, b, c, d, e, f, g, h, i)
      VP_CISTA(10, a, b, c, d, e, f, g, h, i, j)
      VP_CISTA(11, a, b, c, d, e, f, g, h, i, j, k)
      VP_CISTA(12, a, b, c, d, e, f, g, h, i, j, k, l)
#undef VP_CISTA
    }
  }
}

}  // namespace cista
