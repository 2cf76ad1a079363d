#pragma once
// Stand-in for cista::raw::generic_string with its interface. Short strings
// (up to 15 bytes) are stored inline and longer ones either owned or, after
// set_non_owning, only referred to, as in cista.
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <ostream>
#include <string>
#include <string_view>

namespace cista::raw {

struct generic_string {
  using msize_t = std::uint32_t;
  using value_type = char;
  using size_type = msize_t;
  using iterator = char const*;
  using const_iterator = char const*;

  static constexpr struct owning_t {
  } owning{};
  static constexpr struct non_owning_t {
  } non_owning{};

  static msize_t mstrlen(char const* s) noexcept {
    return static_cast<msize_t>(std::strlen(s));
  }

  generic_string() = default;
  generic_string(std::string_view s, owning_t) { set_owning(s); }
  generic_string(std::string_view s, non_owning_t) { set_non_owning(s); }
  generic_string(std::string const& s, owning_t) { set_owning(s); }
  generic_string(std::string const& s, non_owning_t) { set_non_owning(s); }
  generic_string(char const* s, owning_t) { set_owning(s); }
  generic_string(char const* s, non_owning_t) { set_non_owning(s); }
  generic_string(char const* s, msize_t const len, owning_t) {
    set_owning(s, len);
  }
  generic_string(char const* s, msize_t const len, non_owning_t) {
    set_non_owning(s, len);
  }

  void reset() {
    owns_ = true;
    ref_ = {};
    s_.clear();
  }

  void set_owning(std::string const& s) {
    set_owning(s.data(), static_cast<msize_t>(s.size()));
  }
  void set_owning(std::string_view s) {
    set_owning(s.data(), static_cast<msize_t>(s.size()));
  }
  void set_owning(char const* s) { set_owning(s, mstrlen(s)); }
  void set_owning(char const* s, msize_t const len) {
    auto copy = (s == nullptr || len == 0U) ? std::string{}
                                            : std::string(s, len);
    reset();
    s_ = std::move(copy);
  }

  void set_non_owning(std::string const& s) {
    set_non_owning(s.data(), static_cast<msize_t>(s.size()));
  }
  void set_non_owning(std::string_view s) {
    set_non_owning(s.data(), static_cast<msize_t>(s.size()));
  }
  void set_non_owning(char const* s) { set_non_owning(s, mstrlen(s)); }
  void set_non_owning(char const* s, msize_t const len) {
    if (s == nullptr || len <= kShort) {
      set_owning(s, len);
    } else {
      reset();
      owns_ = false;
      ref_ = std::string_view{s, len};
    }
  }

  void assign(char const* s, std::size_t const len) {
    set_non_owning(s, static_cast<msize_t>(len));
  }

  bool is_short() const { return owns_ && s_.size() <= kShort; }
  std::string_view view() const { return owns_ ? std::string_view{s_} : ref_; }
  operator std::string_view() const { return view(); }
  std::string str() const { return std::string{view()}; }
  msize_t size() const { return static_cast<msize_t>(view().size()); }
  msize_t length() const { return size(); }
  bool empty() const { return view().empty(); }
  char const* data() const { return view().data(); }
  char const* internal_data() const { return data(); }
  char const* begin() const { return data(); }
  char const* end() const { return data() + size(); }
  friend char const* begin(generic_string const& s) { return s.begin(); }
  friend char const* end(generic_string const& s) { return s.end(); }
  char operator[](std::size_t const i) const { return view()[i]; }
  char front() const { return view().front(); }
  char back() const { return view().back(); }

  generic_string& erase(msize_t const pos, msize_t const n) {
    auto copy = str();
    copy.erase(pos, n);
    set_owning(copy);
    return *this;
  }

  bool starts_with(std::string_view v) const { return view().starts_with(v); }

  friend bool operator==(generic_string const& a, generic_string const& b) {
    return a.view() == b.view();
  }
  friend bool operator!=(generic_string const& a, generic_string const& b) {
    return a.view() != b.view();
  }
  friend bool operator<(generic_string const& a, generic_string const& b) {
    return a.view() < b.view();
  }
  friend bool operator==(generic_string const& a, std::string_view b) {
    return a.view() == b;
  }
  friend bool operator==(generic_string const& a, char const* b) {
    return a.view() == std::string_view{b};
  }
  friend std::ostream& operator<<(std::ostream& out, generic_string const& s) {
    return out << s.view();
  }

  static constexpr auto const kShort = 15U;
  bool owns_{true};
  std::string s_;
  std::string_view ref_;
};

}  // namespace cista::raw
