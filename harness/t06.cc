// T06: booleans, strings and paths.
#include "text.h"
#include "utl/parser/arg_parser.h"

using namespace pbt;
using namespace text;
using utl::cstr;

namespace {
std::string mixed_case(Case& c, std::string s) {
  for (auto& x : s) if (c.flip()) x = static_cast<char>(x - 'a' + 'A');
  return s;
}
}  // namespace

PROP(bool_words, 4) {
  auto const val = c.flip();
  auto const def = c.flip();
  auto const word = mixed_case(c, val ? "true" : "false");
  c.note("text = ", quote(word), " default ", def);
  c.nontrivial();
  Exact const e{word};
  auto s = slice(e);
  auto b = !val;
  CHECK(utl::parse_arg(s, b, def));
  CHECK_EQ(b, val, "default ", def);
  CHECK(s.empty());
  CHECK_EQ(utl::parse<bool>(slice(e)), val);
  CHECK_EQ(utl::parse<bool>(slice(e), def), val);
  CHECK_EQ(utl::parse_verify<bool>(slice(e)), val);
  // more text behind the word: the value stays, the cursor moves behind the word
  auto const tail = c.text(1 + c.len(5), ",; \nx");
  Exact const e2{word + tail};
  s = slice(e2);
  b = !val;
  CHECK(!utl::parse_arg(s, b, def));
  CHECK_EQ(b, val);
  CHECK_SLICE(e2, s, word.size(), tail.size());
}

PROP(bool_other_text, 3) {
  auto t = std::string{};
  if (c.flip()) {  // a damaged word
    t = mixed_case(c, c.flip() ? "true" : "false");
    switch (c.draw(2)) {
      case 0: t.resize(c.below(t.size())); break;
      case 1: t[1 + c.below(t.size() - 1)] = '.'; break;
      default: t[0] = c.of({'x', '1', '0', ' '}); break;
    }
  } else {
    t = c.raw(c.more(10));
  }
  auto lower = t;
  for (auto& x : lower) if (x >= 'A' && x <= 'Z') x = static_cast<char>(x + 32);
  auto const exact = lower == "true" || lower == "false";
  auto const def = c.flip();
  c.note("text = ", quote(t), " default ", def);
  c.nontrivial(!t.empty() && !exact);
  Exact const e{t};
  auto s = slice(e);
  auto b = !def;
  CHECK_EQ(utl::parse_arg(s, b, def), exact);
  CHECK(e.holds(s.data(), s.length()));
  CHECK(s.end() == e.data() + e.size());
  if (lower.empty() || (lower[0] != 't' && lower[0] != 'f')) {
    CHECK_EQ(b, def);
    CHECK_EQ(utl::parse<bool>(slice(e), def), def);
  }
  auto threw = false;
  try {
    (void)utl::parse_verify<bool>(slice(e));
  } catch (std::runtime_error const&) {
    threw = true;
  }
  CHECK_EQ(threw, !exact);
}

PROP(strings_and_paths, 3) {
  auto const t = c.flip() ? c.raw(c.more(40)) : c.text(c.more(40), "ab/.\\ \n");
  c.note("text = ", quote(t));
  c.nontrivial(t.size() >= 2);
  Exact const e{t};
  CHECK_EQ(utl::parse<std::string>(slice(e)), t);
  auto const sl = utl::parse<cstr>(slice(e));
  CHECK_SLICE(e, sl, 0, t.size());
  CHECK_EQ(utl::parse<std::filesystem::path>(slice(e)).native(), t);
  auto str = std::string{"old"};
  auto s = slice(e);
  s >> str;
  CHECK_EQ(str, t);
  auto p = std::filesystem::path{"old"};
  s = slice(e);
  utl::parse_arg(s, p);
  CHECK_EQ(p.native(), t);
  auto o = cstr{"old"};
  s = slice(e);
  utl::parse_arg(s, o);
  CHECK_SLICE(e, o, 0, t.size());
}

// texts of every size go into every kind of string, whatever it held before
namespace {
void all_strings(std::string const& t, std::string const& old) {
  Exact const e{t};
  auto str = old;
  auto s = slice(e);
  s >> str;
  CHECK(str == t, "std::string of ", str.size(), " bytes");
  auto gs = cista::raw::generic_string{old, cista::raw::generic_string::owning};
  s = slice(e);
  utl::parse_arg(s, gs);
  CHECK_EQ(gs.view().size(), t.size(), "generic_string");
  CHECK(gs.view() == t, "generic_string of ", t.size(), " bytes");
  CHECK(utl::parse<cista::raw::generic_string>(slice(e)).view() == t);
  auto p = std::filesystem::path{old};
  s = slice(e);
  s >> p;
  CHECK(p.native() == t, "path of ", p.native().size(), " bytes");
  auto o = cstr{old};
  s = slice(e);
  s >> o;
  CHECK_SLICE(e, o, 0, t.size());
}
}  // namespace

PROP(strings_over_old_values, 1) {
  auto const t = c.raw(c.more(40));
  auto const old = c.raw(c.more(40));
  c.note("text = ", quote(t), " old ", quote(old));
  c.nontrivial(!t.empty() && !old.empty());
  all_strings(t, old);
}

PROP_HUGE(long_texts, 12) {
  auto g = c.bulk();
  auto t = std::string(c.huge(), 'x');
  for (auto& x : t) x = static_cast<char>(g(256));
  c.note(t.size(), " bytes");
  c.nontrivial();
  all_strings(t, c.flip() ? "old" : std::string(300, 'o'));
  // words and their damaged forms with much behind them
  auto const word = std::string{c.flip() ? "true" : "FALSE"};
  auto const w = word + t;
  Exact const e{w};
  auto s = slice(e);
  auto b = word != "true";
  CHECK_EQ(utl::parse_arg(s, b), false);
  CHECK_EQ(b, word == "true");
  CHECK_SLICE(e, s, word.size(), t.size());
}
