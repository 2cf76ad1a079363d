// T02: slicing and trimming stay inside the text and select what was asked for.
#include <sys/mman.h>

#include "text.h"

using namespace pbt;
using namespace text;
using utl::cstr;

namespace {
std::string bytes(Case& c) {
  switch (c.draw(3)) {
    case 0: return c.text(c.more(60), " \nab");
    case 1: return c.text(c.more(60), "ab,\n\r ");
    case 2: return c.text(c.more(60), std::string_view{" \n\r\t\va\0\x80,", 9});
    default: return c.raw(c.more(60));
  }
}
// a position, mostly around the text, sometimes far behind it
std::size_t position(Case& c, std::size_t const len) {
  switch (c.draw(7)) {
    case 0: return 0;
    case 1: return len;
    case 2: return len + c.draw(4);
    case 3: return ~std::size_t{0} - c.draw(3);
    case 4: return std::size_t{1} << c.draw(63);
    default: return c.below(len + 1);
  }
}
bool space(char const x) { return x == ' ' || x == '\n'; }
}  // namespace

// a history of slicing operations, compared with [from, from+n) offsets
PROP(history, 4) {
  auto const t = bytes(c);
  Exact const e{t};
  c.note("text = ", quote(t));
  auto s = slice(e);
  auto from = std::size_t{0}, n = t.size();
  auto const steps = 1 + c.draw(7);
  for (auto i = 0U; i != steps; ++i) {
    auto const op = c.draw(12);
    auto p = std::size_t{0}, q = std::size_t{0};
    switch (op) {
      case 0:
        if (n == 0) break;
        ++s, ++from, --n;
        break;
      case 1: p = c.below(n + 1); s += p; from += p; n -= p; c.note("+= ", p); break;
      case 2: p = c.below(n + 1); s = s + p; from += p; n -= p; c.note("+ ", p); break;
      case 3:
        p = position(c, n), q = position(c, n);
        c.note("substr(", p, ", size ", q, ")");
        s = s.substr(p, utl::size{q});
        p = std::min(p, n), q = std::min(q, n - p);
        from += p, n = q;
        break;
      case 4:
        p = position(c, n), q = position(c, n);
        if (q < p) std::swap(p, q);
        c.note("substr(", p, ", ", q, ")");
        s = s.substr(p, q);
        p = std::min(p, n), q = std::min(q, n);
        from += p, n = q - p;
        break;
      case 5:
        p = position(c, n);
        c.note("substr(", p, ")");
        s = s.substr(p);
        p = std::min(p, n);
        from += p, n -= p;
        break;
      case 6:
        p = position(c, n), q = c.flip() ? position(c, n) : utl::field::MAX_SIZE;
        c.note("substr(field{", p, ", ", q, "})");
        s = s.substr(utl::field{p, q});
        p = std::min(p, n);
        q = q == static_cast<std::size_t>(utl::field::MAX_SIZE) ? n - p : std::min(q, n - p);
        from += p, n = q;
        break;
      case 7: c.note("trim"); s = s.trim();
        while (n != 0 && space(t[from])) ++from, --n;
        while (n != 0 && space(t[from + n - 1])) --n;
        break;
      case 8: c.note("skip_whitespace_front"); s = s.skip_whitespace_front();
        while (n != 0 && space(t[from])) ++from, --n;
        break;
      case 9: c.note("skip_whitespace_back"); s = s.skip_whitespace_back();
        while (n != 0 && space(t[from + n - 1])) --n;
        break;
      case 10: {
        auto const d = n != 0 && c.flip() ? t[from + c.below(n)] : static_cast<char>(c.draw(255));
        c.note("get_until(", static_cast<int>(d), ")");
        s = utl::get_until(s, d);
        n = std::min(t.substr(from, n).find(d), n);
        break;
      }
      case 11:
        c.note("strip_cr");
        s = utl::strip_cr(s);
        if (n != 0 && t[from + n - 1] == '\r') --n, c.label("carriage return stripped");
        break;
      default:
        c.note("get_line");
        s = utl::get_line(s);
        n = std::min(t.substr(from, n).find('\n'), n);
        if (n != 0 && t[from + n - 1] == '\r') --n, c.label("carriage return stripped");
        break;
    }
    CHECK_SLICE(e, s, from, n);
    if (i != 0 && n != 0) c.nontrivial();
  }
}

// a request that makes no sense is cut to an empty slice, never out of bounds
PROP(reversed_bounds, 1) {
  auto const t = bytes(c);
  Exact const e{t};
  CHECK_SLICE(e, slice(e).substr(utl::field{}), 0, 0);
  CHECK_SLICE(e, (slice(e).substr(utl::field{.size = 3})), 0, std::min<std::size_t>(3, e.size()));
  auto const p = position(c, t.size()), q = position(c, t.size());
  c.note("text = ", quote(t), "\nsubstr(", p, ", ", q, ")");
  c.nontrivial(q < p);
  auto const s = slice(e).substr(p, q);
  CHECK(e.holds(s.data(), s.length()));
  if (q <= p) CHECK(s.empty());
  // the source is not touched by any of the slicing functions
  auto const o = slice(e);
  auto copy = o;
  (void)copy.substr(p), (void)copy.trim(), (void)(copy + std::min(p, t.size()));
  CHECK(copy.data() == o.data() && copy.length() == o.length());
}

// texts longer than a narrow length can hold
PROP_HUGE(long_texts, 24) {
  auto const n = c.huge();
  auto g = c.bulk();
  auto const t = std::string(g(40), ' ') + std::string(n, 'x') + std::string(g(40), '\n');
  c.note(t.size(), " bytes");
  c.nontrivial();
  Exact const e{t};
  for (auto i = 0; i != 200; ++i) {
    auto const p = static_cast<std::size_t>(g(t.size() + 10)), q = static_cast<std::size_t>(g(t.size() + 10));
    auto const pp = std::min(p, t.size());
    CHECK_SLICE(e, slice(e).substr(p), pp, t.size() - pp);
    CHECK_SLICE(e, slice(e).substr(p, utl::size{q}), pp, std::min(q, t.size() - pp));
    CHECK_SLICE(e, (slice(e).substr(utl::field{p, q})), pp, std::min(q, t.size() - pp));
    if (p <= q) CHECK_SLICE(e, slice(e).substr(p, q), pp, std::min(q, t.size()) - pp);
    CHECK_SLICE(e, slice(e) + pp, pp, t.size() - pp);
  }
  auto const from = t.find('x');
  CHECK_SLICE(e, slice(e).trim(), from, n);
  CHECK_SLICE(e, slice(e).skip_whitespace_front(), from, t.size() - from);
  CHECK_SLICE(e, slice(e).skip_whitespace_back(), 0, from + n);
  CHECK_SLICE(e, utl::get_until(slice(e), '\n'), 0, std::min(t.find('\n'), t.size()));
  CHECK_SLICE(e, utl::get_line(slice(e)), 0, std::min(t.find('\n'), t.size()));
}

// positions beyond 32 bits, in memory that is reserved but never touched
PROP_HUGE(beyond_four_gigabytes, 12) {
  auto const n = (std::size_t{1} << c.range(31U, 36U)) + c.draw(5000) - 2000;
  auto* const p = ::mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return;
  c.note("a text of ", n, " bytes");
  c.nontrivial();
  auto const* const b = static_cast<char const*>(p);
  auto const s = cstr{b, n};
  auto g = c.bulk();
  auto const is = [&](cstr const x, std::size_t const from, std::size_t const len, int const line) {
    CHECK(x.length() == len && (len == 0 || x.data() == b + from), "line ", line, ": [", x.data() - b, ", +", x.length(), ") but expected [", from, ", +", len, ")");
  };
  for (auto i = 0; i != 60; ++i) {
    auto const from = static_cast<std::size_t>(g(n + 10)), q = static_cast<std::size_t>(g(n + 10));
    auto const f = std::min(from, n);
    is(s.substr(from), f, n - f, __LINE__);
    is(s.substr(from, utl::size{q}), f, std::min(q, n - f), __LINE__);
    if (from <= q) is(s.substr(from, q), f, std::min(q, n) - f, __LINE__);
    is(s.substr(utl::field{from, q}), f, std::min(q, n - f), __LINE__);
    is(s.substr(utl::field{from, utl::field::MAX_SIZE}), f, n - f, __LINE__);
    auto x = s;
    x += f;
    is(x, f, n - f, __LINE__);
    is(x.skip_whitespace_front(), f, n - f, __LINE__);  // the text consists of NUL bytes
    is(x.trim(), f, n - f, __LINE__);
    is(utl::strip_cr(x), f, n - f, __LINE__);
    is(cstr{b + f, b + n}, f, n - f, __LINE__);
    CHECK_EQ(x.view().size(), n - f);
    CHECK_EQ(x.empty(), f == n);
    CHECK_EQ(x.valid(), f != n);
    CHECK(!x.starts_with(cstr{"a"}));
    if (f != 0 && f != n) CHECK(!(x == s) && x != s);
  }
  ::munmap(p, n);
}
