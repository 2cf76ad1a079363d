// T04: integers.
#include "text.h"
#include "utl/parser/arg_parser.h"

using namespace pbt;
using namespace text;
using utl::cstr;

namespace {
bool digit(char const x) { return x >= '0' && x <= '9'; }

std::string suffix(Case& c) {
  if (c.chance(2, 5)) return "";
  auto s = c.flip() ? c.text(1 + c.len(6), ",; .-+ax\n/:") : c.raw(1 + c.len(6));
  if (digit(s[0])) s[0] = '/';
  return s;
}

template <typename T>
void round_trip(Case& c) {
  auto const v = c.any_int<T>();
  auto digits = std::string{};
  if constexpr (std::is_signed_v<T>) digits = std::to_string(static_cast<long long>(v));
  else digits = std::to_string(static_cast<unsigned long long>(v));
  auto sign = std::string{};
  if (digits[0] == '-') { sign = "-"; digits.erase(0, 1); }
  else if (c.chance(1, 4)) sign = "+";
  else if (std::is_signed_v<T> && v == 0 && c.flip()) sign = "-";
  if (c.chance(1, 6)) digits.insert(0, c.more(25), '0');
  auto const tail = suffix(c);
  auto const t = sign + digits + tail;
  auto const def = c.any_int<T>();
  c.note("text = ", quote(t), ", ", sizeof(T) * 8, " bit ", std::is_signed_v<T> ? "signed" : "unsigned");
  c.nontrivial(digits.size() >= 2 || !tail.empty());
  c.label_if(v == std::numeric_limits<T>::max(), "maximum");
  c.label_if(std::is_signed_v<T> && v == std::numeric_limits<T>::min(), "minimum");
  c.label_if(std::is_signed_v<T> && v < 0, "negative");
  c.label_if(!tail.empty(), "text behind the number");
  Exact const e{t};
  auto s = slice(e);
  auto x = T{1};
  auto const ok = utl::parse_arg(s, x);
  CHECK_EQ(x, v);
  CHECK_EQ(ok, tail.empty());
  CHECK_SLICE(e, s, t.size() - tail.size(), tail.size());
  s = slice(e);
  x = T{1};
  CHECK_EQ(utl::parse_arg(s, x, def), tail.empty());
  CHECK_EQ(x, v);
  CHECK_EQ(utl::parse<T>(slice(e)), v);
  CHECK_EQ(utl::parse<T>(slice(e), def), v);
  s = slice(e);
  auto y = T{1};
  s >> y;
  CHECK_EQ(y, v);
  CHECK_EQ(s.length(), tail.size());
  auto threw = false;
  try {
    CHECK_EQ(utl::parse_verify<T>(slice(e)), v);
  } catch (std::runtime_error const&) {
    threw = true;
  }
  CHECK_EQ(threw, !tail.empty());
}

template <typename T>
void no_number(Case& c) {
  auto t = c.flip() ? c.text(c.len(6), ",; .ax\n/:") : c.raw(c.len(6));
  if (!t.empty() && digit(t[0])) t[0] = ':';
  // unsigned numbers have no minus sign; a sign alone is not a number
  auto const sgn = c.draw(4);
  if (!t.empty() && (t[0] == '+' || t[0] == '-')) t[0] = '*';
  if (sgn == 1) t.insert(0, "+");
  if (sgn == 2) t.insert(0, "-");
  if (sgn == 3 && std::is_unsigned_v<T>) t.insert(0, "-12");
  if (sgn == 4) t.insert(0, c.of({"++1", "+-12", "--3", "++0", "--0"}));
  auto const def = c.any_int<T>();
  c.note("text = ", quote(t));
  c.nontrivial(!t.empty());
  Exact const e{t};
  CHECK_EQ(utl::parse<T>(slice(e), def), def);
  CHECK_EQ(utl::parse<T>(slice(e)), T{0});
  auto s = slice(e);
  auto x = T{7};
  CHECK_EQ(utl::parse_arg(s, x, def), false);
  CHECK_EQ(x, def);
  CHECK(e.holds(s.data(), s.length()));
  auto threw = false;
  try {
    (void)utl::parse_verify<T>(slice(e));
  } catch (std::runtime_error const&) {
    threw = true;
  }
  CHECK(threw, "parse_verify accepted a text without a number");
}

template <typename T>
void too_large(Case& c) {
  auto const n = std::numeric_limits<T>::digits10 + 1 + static_cast<int>(c.draw(20));
  auto digits = c.text(static_cast<std::size_t>(n), "9876543210");
  auto const sign = std::string{std::is_signed_v<T> ? c.of({"", "-", "+"}) : c.of({"", "+"})};
  auto const tail = suffix(c);
  auto const t = sign + digits + tail;
  c.note("text = ", quote(t));
  c.nontrivial();
  Exact const e{t};
  auto s = slice(e);
  auto x = T{};
  utl::parse_arg(s, x);  // the value is not specified, the cursor is
  CHECK_SLICE(e, s, t.size() - tail.size(), tail.size());
}

template <typename T>
void record(Case& c) {
  auto const n = 1 + c.more(8);
  auto v = std::vector<T>{};
  auto t = std::string{};
  for (auto i = std::size_t{0}; i != n; ++i) {
    v.push_back(c.any_int<T>());
    if (i != 0) t += ';';
    t += std::to_string(v.back());
  }
  c.note("text = ", quote(t));
  c.nontrivial(n >= 2);
  Exact const e{t};
  auto s = slice(e);
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto x = T{};
    if (i != 0) s >> utl::expect_char<';'>{};
    s >> x;
    CHECK_EQ(x, v[i]);
  }
  CHECK(s.empty());
}

// leading zeros and what is behind the number may be of any length
template <typename T>
void long_text(Case& c) {
  auto const v = c.any_int<T>();
  auto digits = std::to_string(v);
  auto const negative = digits[0] == '-';
  if (negative) digits.erase(0, 1);
  digits = (negative ? "-" : c.of({"", "+"})) + std::string(c.huge(), '0') + digits;
  auto const tail = c.flip() ? std::string(c.huge(), ' ') : "";
  c.note(digits.size(), " digits of ", +v, ", ", tail.size(), " bytes behind");
  c.nontrivial();
  Exact const e{digits + tail};
  auto s = slice(e);
  auto x = T{1};
  CHECK_EQ(utl::parse_arg(s, x), tail.empty());
  CHECK_EQ(x, v);
  CHECK_SLICE(e, s, digits.size(), tail.size());
  CHECK_EQ(utl::parse<T>(slice(e)), v);
}

#define FOR_WIDTH(F)                                   \
  switch (c.draw(10)) {                                \
    case 0: F<std::int8_t>(c); break;                  \
    case 1: F<std::uint8_t>(c); break;                 \
    case 2: F<std::int16_t>(c); break;                 \
    case 3: F<std::uint16_t>(c); break;                \
    case 4: F<std::int32_t>(c); break;                 \
    case 5: F<std::uint32_t>(c); break;                \
    case 6: F<std::int64_t>(c); break;                 \
    case 7: F<char>(c); break;                         \
    case 8: F<long long>(c); break;                    \
    case 9: F<unsigned long long>(c); break;           \
    default: F<std::uint64_t>(c); break;               \
  }
}  // namespace

PROP(value_and_cursor, 5) { FOR_WIDTH(round_trip) }
PROP(no_digits_gives_the_default, 2) { FOR_WIDTH(no_number) }
PROP(more_digits_than_fit, 1) { FOR_WIDTH(too_large) }
PROP(separated_record, 1) { FOR_WIDTH(record) }
PROP_HUGE(long_texts, 12) { FOR_WIDTH(long_text) }
