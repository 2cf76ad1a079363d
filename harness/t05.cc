// T05: floating point numbers.
#include <cmath>
#include <cstdlib>

#include "text.h"
#include "utl/parser/arg_parser.h"

using namespace pbt;
using namespace text;
using utl::cstr;

namespace {
bool digit(char const x) { return x >= '0' && x <= '9'; }

std::string digits(Case& c, std::size_t const max, bool const allow_empty) {
  auto const n = std::max<std::size_t>(c.len(max), allow_empty ? 0 : 1);
  return c.flip() ? c.text(n, "0123456789") : c.text(n, "0019");
}

template <typename T>
void number(Case& c) {
  constexpr auto kFloat = std::is_same_v<T, float>;
  auto const sign = std::string{c.of({"", "-", "+"})};
  auto const point = c.chance(3, 4);
  auto const whole = digits(c, kFloat ? 30 : 200, point);
  auto const frac = point ? digits(c, kFloat ? 25 : 60, !whole.empty()) : "";
  auto num = sign + whole + (point ? "." : "") + frac;
  auto tail = std::string{};
  if (c.chance(1, 2)) {
    tail = c.flip() ? c.text(1 + c.len(5), ",; eE+-x\n/:") : c.raw(1 + c.len(5));
    if (digit(tail[0]) || (!point && tail[0] == '.')) tail[0] = ',';
    if (point && c.chance(1, 5)) tail.insert(0, ".");
  }
  auto const t = num + tail;
  c.note("text = ", quote(t), kFloat ? ", float" : ", double");
  c.nontrivial(whole.size() + frac.size() >= 2);
  c.label_if(!frac.empty(), "fraction");
  c.label_if(whole.size() > 10, "more than 10 digits before the point");
  c.label_if(sign == "-", "negative");
  c.label_if(!tail.empty(), "text behind the number");
  Exact const e{t};
  auto s = slice(e);
  auto x = T{42};
  auto const ok = utl::parse_arg(s, x);
  auto const expected = std::strtold(num.c_str(), nullptr);
  auto const n_ops = static_cast<long double>(whole.size() + 3 * frac.size() + 8);
  auto const tol = std::abs(expected) * n_ops * std::numeric_limits<T>::epsilon() +
                   static_cast<long double>(std::numeric_limits<T>::min()) * 16;
  CHECK(std::abs(static_cast<long double>(x) - expected) <= tol, "value ", str(x), " for ", num);
  CHECK_EQ(ok, tail.empty());
  CHECK_SLICE(e, s, t.size() - tail.size(), tail.size());
  auto const y = utl::parse<T>(slice(e));
  CHECK_EQ(x, y);
  auto threw = false;
  try {
    CHECK_EQ(utl::parse_verify<T>(slice(e)), x);
  } catch (std::runtime_error const&) {
    threw = true;
  }
  CHECK_EQ(threw, !tail.empty());
}

// metamorphic: the sign only changes the sign
template <typename T>
void sign(Case& c) {
  auto num = digits(c, 12, false);
  if (c.flip()) num += "." + digits(c, 8, true);
  if (c.flip()) {
    auto tail = c.text(1 + c.len(5), ",; eExn\n");
    num += tail;
  }
  c.note("text = ", quote(num));
  c.nontrivial(num.size() >= 3);
  Exact const p{num}, m{"-" + num}, q{"+" + num};
  auto const positive = utl::parse<T>(slice(p));
  for (auto const [e, sgn] : {std::pair{&p, T{1}}, std::pair{&m, T{-1}}, std::pair{&q, T{1}}}) {
    auto s = slice(*e);
    auto x = T{42};
    utl::parse_arg(s, x);
    CHECK_EQ(x, sgn * positive);
    CHECK_EQ(std::signbit(x), sgn < 0, "sign of ", str(x));
    CHECK_EQ(std::signbit(utl::parse<T>(slice(*e))), sgn < 0);
  }
}

// texts which do not start with a number are refused
template <typename T>
void not_a_number(Case& c) {
  auto t = c.flip() ? c.text(c.len(6), ",; ax\n/:eE") : c.raw(c.len(6));
  if (!t.empty() && (digit(t[0]) || t[0] == '.' || t[0] == '+' || t[0] == '-')) t[0] = 'x';
  c.note("text = ", quote(t));
  c.nontrivial(!t.empty());
  Exact const e{t};
  auto s = slice(e);
  auto x = T{42};
  CHECK_EQ(utl::parse_arg(s, x), false);
  CHECK_EQ(x, T{0});
  CHECK_SLICE(e, s, 0, t.size());
}

// arbitrary text: inside the slice, never a crash
template <typename T>
void any_text(Case& c) {
  auto const t = c.flip() ? c.text(c.more(40), "0123456789.+-e") : c.raw(c.more(40));
  c.note("text = ", quote(t));
  c.nontrivial(t.size() >= 2);
  Exact const e{t};
  auto s = slice(e);
  auto x = T{42};
  auto const ok = utl::parse_arg(s, x);
  CHECK(e.holds(s.data(), s.length()));
  CHECK(s.end() == e.data() + e.size());
  if (ok) CHECK(s.empty(), "accepted, but text is left");
}
}  // namespace

PROP(value_and_cursor, 5) { c.flip() ? number<float>(c) : number<double>(c); }
PROP(signs, 1) { c.flip() ? sign<float>(c) : sign<double>(c); }
PROP(not_a_number_is_refused, 1) { c.flip() ? not_a_number<float>(c) : not_a_number<double>(c); }
PROP(any_text_is_handled, 2) { c.flip() ? any_text<float>(c) : any_text<double>(c); }

namespace {
// zeros in front, and what is behind the number, of any length
template <typename T>
void long_text(Case& c) {
  auto const sign = std::string{c.of({"", "-", "+"})};
  auto num = std::string(c.huge(), '0') + digits(c, 9, true);
  if (c.flip()) num += "." + digits(c, 9, false);
  auto const tail = c.flip() ? std::string(c.huge(), ' ') : "";
  c.note(sign, " ", num.size(), " characters, the last ", num.substr(num.size() - 20), ", ", tail.size(), " bytes behind");
  c.nontrivial();
  Exact const e{sign + num + tail};
  auto s = slice(e);
  auto x = T{42};
  CHECK_EQ(utl::parse_arg(s, x), tail.empty());
  auto const expected = std::strtold((sign + num).c_str(), nullptr);
  CHECK(std::abs(static_cast<long double>(x) - expected) <= std::abs(expected) * 64 * std::numeric_limits<T>::epsilon(), "value ", str(x));
  CHECK_SLICE(e, s, sign.size() + num.size(), tail.size());
}
}  // namespace

PROP_HUGE(long_texts, 12) { c.flip() ? long_text<float>(c) : long_text<double>(c); }
