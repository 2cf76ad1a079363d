// A small property-based testing engine.
//
// A property is a function of a `Case`; every choice the generators make is
// drawn from the case's choice tape.  The engine fills tapes from a seeded
// generator (or from libFuzzer bytes), runs many cases in parallel worker
// processes, and shrinks a failing tape to a minimal one by deleting, zeroing
// and lowering entries, running every candidate in a process of its own, so
// sanitizer reports, signals and endless loops are failures like any other.
#pragma once

#include <unistd.h>

#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define PBT_ASAN 1
#endif
#endif

namespace pbt {

struct Fail {
  std::string msg;
};

// ---------------------------------------------------------------- case
constexpr std::size_t kTapeCap = 1U << 16U;

struct Tape {
  std::uint32_t len;
  std::uint64_t v[kTapeCap];
};

struct Case {
  // source of choices: exactly one of the three is active
  enum class Mode { kRandom, kTape, kBytes } mode = Mode::kRandom;
  std::uint64_t rng[4] = {1, 2, 3, 4};
  std::uint64_t const* in = nullptr;
  std::size_t in_len = 0, in_pos = 0;
  std::uint8_t const* bytes = nullptr;
  std::size_t bytes_len = 0, bytes_pos = 0;

  Tape* tape = nullptr;  // everything drawn is recorded here

  bool verbose = false;  // collect a description of the case
  std::string desc;
  int desc_fd = -1;  // also write it here at once (survives a crash)
  bool nontrivial_ = false;
  std::vector<char const*> labels;
  unsigned size = 100;
  bool quick = true;

  std::uint64_t next_random() {
    auto const rotl = [](std::uint64_t x, int k) {
      return (x << k) | (x >> (64 - k));
    };
    auto const result = rotl(rng[1] * 5, 7) * 9;
    auto const t = rng[1] << 17;
    rng[2] ^= rng[0];
    rng[3] ^= rng[1];
    rng[1] ^= rng[2];
    rng[0] ^= rng[3];
    rng[2] ^= t;
    rng[3] = rotl(rng[3], 45);
    return result;
  }

  // uniform in [0, max]
  std::uint64_t draw(std::uint64_t const max) {
    std::uint64_t v = 0;
    if (tape->len >= kTapeCap) {
      return 0;  // out of tape: simplest choice
    }
    switch (mode) {
      case Mode::kRandom:
        v = next_random();
        v = max == ~0ULL ? v : v % (max + 1);
        break;
      case Mode::kTape:
        v = in_pos < in_len ? in[in_pos] : 0;
        ++in_pos;
        v = max == ~0ULL || v <= max ? v : v % (max + 1);
        break;
      case Mode::kBytes: {
        auto m = max;
        while (m != 0) {
          v = (v << 8U) | (bytes_pos < bytes_len ? bytes[bytes_pos] : 0);
          ++bytes_pos;
          m >>= 8U;
        }
        v = max == ~0ULL ? v : v % (max + 1);
        break;
      }
    }
    tape->v[tape->len] = v;
    ++tape->len;
    return v;
  }

  // ---- generators
  std::size_t below(std::size_t const n) {
    return n <= 1 ? 0 : static_cast<std::size_t>(draw(n - 1));
  }
  template <typename T = int>
  T range(T const lo, T const hi) {
    return static_cast<T>(
        static_cast<std::uint64_t>(lo) +
        draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo)));
  }
  bool flip() { return draw(1) == 1; }
  // true with probability num/den (false is the simple choice)
  bool chance(unsigned const num, unsigned const den) {
    return draw(den - 1) >= den - num;
  }
  template <typename T>
  T of(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  template <typename V>
  auto const& from(V const& v) {
    return v[below(v.size())];
  }
  // mostly small lengths, sometimes up to max
  std::size_t len(std::size_t const max) {
    auto const cls = draw(9);
    auto const cap = cls < 2   ? std::size_t{2}
                     : cls < 5 ? std::size_t{6}
                     : cls < 8 ? std::size_t{20}
                               : max;
    return static_cast<std::size_t>(draw(std::min(cap, max)));
  }
  // the same, and once in a while up to ten times as much, often next to a power of two
  std::size_t more(std::size_t const max) {
    auto const cls = draw(79);
    if (cls != 79) {
      auto const cap = cls < 16   ? std::size_t{2}
                       : cls < 40 ? std::size_t{6}
                       : cls < 64 ? std::size_t{20}
                                  : max;
      return static_cast<std::size_t>(draw(std::min(cap, max)));
    }
    if (flip()) return static_cast<std::size_t>(draw(10 * max));
    auto p = std::size_t{1};
    for (auto i = range(3U, 9U); i != 0 && 2 * p < 10 * max; --i) p *= 2;
    return p + below(3) - 1;
  }
  // a way to draw values of a domain with 2k+1 members: mostly the small numbers around 0,
  // sometimes spread over all of T, including its ends
  template <typename T = int>
  auto keys(int const k) {
    using L = std::numeric_limits<T>;
    auto const wide = draw(5) == 5;
    return [this, k, wide] {
      auto const x = range(-k, k);
      if (!wide) return static_cast<T>(x);
      if (x == -k && k != 0) return L::min();
      if (x == k && k != 0) return L::max();
      return static_cast<T>(x * static_cast<T>(L::max() / (k + 1)));
    };
  }
  // any value of an integral type, boundary values over-represented
  template <typename T>
  T any_int() {
    using L = std::numeric_limits<T>;
    switch (draw(7)) {
      case 0: return static_cast<T>(draw(9));
      case 1: return static_cast<T>(draw(127));
      case 2: return static_cast<T>(L::max() - static_cast<T>(draw(3)));
      case 3: return static_cast<T>(L::min() + static_cast<T>(draw(3)));
      case 4: {  // around a power of two
        auto const p = std::uint64_t{1} << draw(sizeof(T) * 8 - 1);
        return static_cast<T>(p + draw(4) - 2);
      }
      case 5: {  // around a power of ten
        auto p = std::uint64_t{1};
        for (auto i = draw(19); i != 0; --i) p *= 10;
        return static_cast<T>(p + draw(4) - 2);
      }
      default:
        return static_cast<T>(draw(static_cast<std::uint64_t>(
            std::numeric_limits<std::make_unsigned_t<T>>::max())));
    }
  }
  std::string text(std::size_t const n, std::string_view const alphabet) {
    auto s = std::string{};
    s.reserve(n);
    for (auto i = std::size_t{0}; i != n; ++i) s += alphabet[below(alphabet.size())];
    return s;
  }
  // a size around the limits of narrow integers, for PROP_HUGE
  std::size_t huge(std::size_t const max = 140000) {
    auto const at = [&](unsigned const p) { return std::min<std::size_t>(flip() ? p : range(p - 6U, p + 6U), max); };
    switch (draw(3)) {
      case 0: return at(256U);
      case 1: return at(32768U);
      case 2: return at(65536U);
      default: return std::min<std::size_t>(range(65530U, 140000U), max);
    }
  }
  // a long stream of values from one choice, for PROP_HUGE
  struct Bulk {
    std::uint64_t x;
    std::uint64_t operator()(std::uint64_t const max) {
      x += 0x9e3779b97f4a7c15ULL;
      auto z = x;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
      z ^= z >> 31;
      return max == ~0ULL ? z : z % (max + 1);
    }
  };
  Bulk bulk() { return {draw(~0ULL)}; }
  std::string raw(std::size_t const n) {
    auto s = std::string(n, '\0');
    for (auto& c : s) c = static_cast<char>(draw(255));
    return s;
  }

  // ---- reporting
  template <typename... A>
  void note(A const&... a) {
    if (verbose) {
      auto ss = std::ostringstream{};
      (ss << ... << a);
      ss << '\n';
      auto const s = ss.str();
      desc += s;
      if (desc_fd != -1) [[maybe_unused]] auto const r = ::write(desc_fd, s.data(), s.size());
    }
  }
  void label(char const* l) { labels.push_back(l); }
  void label_if(bool const b, char const* l) {
    if (b) labels.push_back(l);
  }
  void nontrivial(bool const b = true) { nontrivial_ = nontrivial_ || b; }
};

// ---------------------------------------------------------------- checks
inline std::string quote(std::string_view const s) {
  static constexpr auto const hex = "0123456789abcdef";
  auto r = std::string{"\""};
  for (auto const ch : s) {
    auto const u = static_cast<unsigned char>(ch);
    if (ch == '\n') r += "\\n";
    else if (ch == '\r') r += "\\r";
    else if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (u < 0x20 || u >= 0x7f) { r += "\\x"; r += hex[u >> 4]; r += hex[u & 15]; }
    else r += ch;
    if (r.size() > 4000) { r += "...(truncated)"; break; }
  }
  return r + "\"";
}

template <typename T>
concept Streamable = requires(std::ostream& o, T const& t) { o << t; };
template <typename T>
concept Iterable = requires(T const& t) { t.begin(); t.end(); };
template <typename T>
concept TupleLike = requires { std::tuple_size<T>::value; };

template <typename T>
void show(std::ostream& o, T const& t) {
  if constexpr (std::is_convertible_v<T const&, std::string_view>) {
    o << quote(std::string_view(t));
  } else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> ||
                       std::is_same_v<T, unsigned char>) {
    o << static_cast<int>(t);
  } else if constexpr (std::is_same_v<T, bool>) {
    o << (t ? "true" : "false");
  } else if constexpr (std::is_floating_point_v<T>) {
    auto const p = o.precision(17);
    o << t;
    o.precision(p);
  } else if constexpr (Iterable<T>) {
    o << "[";
    auto first = true;
    for (auto const& e : t) {
      if (!first) o << ", ";
      first = false;
      show(o, static_cast<std::remove_cvref_t<decltype(e)> const&>(e));
    }
    o << "]";
  } else if constexpr (TupleLike<T>) {
    o << "(";
    std::apply(
        [&](auto const&... e) {
          auto first = true;
          ((o << (first ? "" : ", "), first = false,
            show(o, static_cast<std::remove_cvref_t<decltype(e)> const&>(e))),
           ...);
        },
        t);
    o << ")";
  } else if constexpr (requires { t.has_value(); *t; }) {
    if (t.has_value()) show(o, *t); else o << "none";
  } else if constexpr (Streamable<T>) {
    o << t;
  } else {
    o << "<?>";
  }
}
template <typename T>
std::string str(T const& t) {
  auto ss = std::ostringstream{};
  show(ss, t);
  auto s = ss.str();
  if (s.size() > 6000) { s.resize(6000); s += "...(truncated)"; }
  return s;
}

template <typename... A>
[[noreturn]] void fail(A const&... a) {
  auto ss = std::ostringstream{};
  (ss << ... << a);
  throw Fail{ss.str()};
}

#define CHECK(cond, ...)                                                     \
  do {                                                                       \
    if (!(cond)) {                                                           \
      ::pbt::fail(__FILE__, ":", __LINE__, ": " #cond " does not hold. ",    \
                  ##__VA_ARGS__);                                            \
    }                                                                        \
  } while (false)

template <typename A, typename B, typename M>
void check_eq(A const& a, B const& b, char const* const as, char const* const bs,
              char const* const file, int const line, M&& more) {
  if (!(a == b)) {
    fail(file, ":", line, ": ", as, " = ", str(a), " but expected ", bs, " = ", str(b), ". ", more());
  }
}
template <typename... A>
std::string cat(A const&... a) {
  auto ss = std::ostringstream{};
  (ss << ... << a);
  return ss.str();
}

// a function call: temporaries in the arguments live long enough
#define CHECK_EQ(a, b, ...) \
  ::pbt::check_eq((a), (b), #a, #b, __FILE__, __LINE__, [&] { return ::pbt::cat(__VA_ARGS__); })

// ---------------------------------------------------------------- memory
// A heap copy of `s` with poisoned bytes directly before and after it: reading
// one byte outside is reported, whatever the length.
struct Exact {
  explicit Exact(std::string_view const s) : n_{s.size()} {
    base_ = static_cast<char*>(::operator new(n_ + 2 * kPad));
    p_ = base_ + kPad;
    if (n_ != 0) std::memcpy(p_, s.data(), n_);
#ifdef PBT_ASAN
    __asan_poison_memory_region(base_, kPad);
    __asan_poison_memory_region(p_ + n_, kPad);
#else
    std::memset(base_, 'x', kPad);
    std::memset(p_ + n_, 'x', kPad);
#endif
  }
  Exact(Exact const&) = delete;
  Exact& operator=(Exact const&) = delete;
  ~Exact() {
#ifdef PBT_ASAN
    __asan_unpoison_memory_region(base_, n_ + 2 * kPad);
#endif
    ::operator delete(base_);
  }
  char const* data() const { return p_; }
  std::size_t size() const { return n_; }
  std::string_view view() const { return {p_, n_}; }
  // [p, p+n) lies inside the buffer (an empty slice anywhere in [begin, end])
  bool holds(char const* p, std::size_t const n) const {
    auto const a = reinterpret_cast<std::uintptr_t>(p);
    auto const b = reinterpret_cast<std::uintptr_t>(p_);
    return a >= b && a <= b + n_ && n <= b + n_ - a;
  }

  static constexpr std::size_t kPad = 32;
  std::size_t n_;
  char *base_, *p_;
};

// ---------------------------------------------------------------- registry
struct Prop {
  char const* name;
  unsigned weight;
  void (*fn)(Case&);
  unsigned few = 0;  // weight 0: this many cases (ten times as many if thorough)
};
inline std::vector<Prop>& props() {
  static std::vector<Prop> v;
  return v;
}
struct Reg {
  Reg(char const* n, unsigned w, void (*f)(Case&), unsigned few = 0) { props().push_back({n, w, f, few}); }
};
#define PROP(name, weight)                                             \
  static void prop_##name(::pbt::Case& c);                             \
  static ::pbt::Reg const reg_##name{#name, weight, &prop_##name};     \
  static void prop_##name([[maybe_unused]] ::pbt::Case& c)

// few, expensive cases: inputs beyond the range of narrow integers
#define PROP_HUGE(name, count)                                             \
  static void prop_##name(::pbt::Case& c);                                 \
  static ::pbt::Reg const reg_##name{#name, 0, &prop_##name, count};       \
  static void prop_##name([[maybe_unused]] ::pbt::Case& c)

// run once at the start of every process that runs cases
inline std::function<void()>& process_init() {
  static std::function<void()> f;
  return f;
}

}  // namespace pbt
