// Shared by the text and CSV harnesses.
#pragma once
#include <algorithm>
#include <string>
#include <string_view>
#include <vector>

#include "pbt.h"
#include "utl/parser/cstr.h"

namespace text {

using pbt::Case;
using pbt::Exact;

inline utl::cstr slice(Exact const& e) { return utl::cstr{e.data(), e.size()}; }

// checks that `s` is exactly bytes [from, from+n) of `e`
#define CHECK_SLICE(e, s, from_, n_)                                            \
  do {                                                                          \
    auto const& slice_ = (s);                                                   \
    CHECK((e).holds(slice_.data(), slice_.length()), "slice of length ",        \
          slice_.length(), " leaves the text of length ", (e).size());          \
    CHECK_EQ(slice_.length(), static_cast<std::size_t>(n_));                    \
    if (slice_.length() != 0) {                                                 \
      CHECK_EQ(static_cast<std::size_t>(slice_.data() - (e).data()),            \
               static_cast<std::size_t>(from_));                                \
    }                                                                           \
  } while (false)

// the content equality of a slice and a model string
#define CHECK_TEXT(e, s, expected)                                              \
  do {                                                                          \
    auto const& slice_ = (s);                                                   \
    CHECK((e).holds(slice_.data(), slice_.length()), "slice of length ",        \
          slice_.length(), " leaves the text of length ", (e).size());          \
    CHECK_EQ(std::string_view(slice_.data(), slice_.length()),                  \
             std::string_view(expected));                                       \
  } while (false)

// a line: some bytes without the terminator
inline std::string line_body(Case& c, std::string_view const alphabet, std::size_t const max) {
  return c.text(c.more(max), alphabet);
}

}  // namespace text
