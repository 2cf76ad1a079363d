// L01: command line flags.
#include <bits/stdc++.h>

#include "pbt.h"
#include "utl/cmd_line_parser.h"

using namespace pbt;
using utl::cstr;

namespace {
struct opts {
  utl::cmd_line_flag<int, UTL_SHORT("-i"), UTL_LONG("--int"), UTL_DESC("a number")> i_{5};
  utl::cmd_line_flag<std::string, UTL_LONG("--name"), UTL_DESC("a name")> s_{std::string{"nobody"}};
  utl::cmd_line_flag<bool, UTL_SHORT("-v"), UTL_LONG("--verbose-about-every-thing"), UTL_DESC("talk more about every detail!!")> b_{false};
  utl::cmd_line_flag<double, UTL_SHORT("-d"), UTL_DESC("a ratio")> d_{0.5};
  utl::cmd_line_flag<unsigned, utl::required, UTL_SHORT("-n"), UTL_LONG("--num"), UTL_DESC("how many")> n_;
  utl::cmd_line_flag<std::string, utl::required, UTL_SHORT("-o"), UTL_DESC("output")> o_;
  utl::cmd_line_flag<std::string, UTL_SHORT("-in"), UTL_LONG("--inte"), UTL_DESC("prefix of others")> p_;
  utl::cmd_line_flag<std::int64_t, UTL_SHORT("-I"), UTL_LONG("--Int"), UTL_DESC("upper case")> l_{-1};
};
struct Flag {
  char const *s, *l;
  bool value, required;
  char const* desc;
};
constexpr Flag kFlags[] = {
    {"-i", "--int", true, false, "a number"},
    {nullptr, "--name", true, false, "a name"},
    {"-v", "--verbose-about-every-thing", false, false, "talk more about every detail!!"},
    {"-d", nullptr, true, false, "a ratio"},
    {"-n", "--num", true, true, "how many"},
    {"-o", nullptr, true, true, "output"},
    {"-in", "--inte", true, false, "prefix of others"},
    {"-I", "--Int", true, false, "upper case"},
};
bool is_flag(std::string const& s) {
  for (auto const& f : kFlags) if ((f.s && s == f.s) || (f.l && s == f.l)) return true;
  return false;
}
std::string word(Case& c) {
  auto s = c.flip() ? c.text(1 + c.more(10), "abc -=/.1\"") : c.text(1 + c.more(10), "\xc3\xa4x\n\t ");
  if (c.chance(1, 6)) s = c.of({"--in", "-", "--", "-iv", "--names", "-vi", "int", "--Verbose"});
  if (is_flag(s)) s += "!";
  return s;
}
struct Expected {
  int i = 5;
  std::string s = "nobody";
  bool b = false;
  double d = 0.5;
  unsigned n = 0;
  std::string o, p;
  std::int64_t l = -1;
};
struct Args {  // exact-size copies, no terminating null pointer
  explicit Args(std::vector<std::string> const& v) {
    for (auto const& s : v) own.emplace_back(s.begin(), s.end()), own.back().push_back('\0'), own.back().shrink_to_fit();
    ptrs = static_cast<char const**>(std::malloc(v.size() * sizeof(char*)));
    for (auto k = std::size_t{0}; k != own.size(); ++k) ptrs[k] = own[k].data();
  }
  ~Args() { std::free(ptrs); }
  std::vector<std::vector<char>> own;
  char const** ptrs;
};
}  // namespace

PROP(values_are_parsed, 4) {
  auto e = Expected{};
  auto args = std::vector<std::string>{"./prog"};
  auto seen = std::set<int>{};
  auto const n = c.more(12);
  auto given = std::vector<int>{};
  for (auto k = std::size_t{0}; k != n; ++k) given.push_back(static_cast<int>(c.draw(7)));
  if (c.chance(4, 5)) given.push_back(4);
  if (c.chance(4, 5)) given.push_back(5);
  for (auto k = given.size(); k > 1; --k) std::swap(given[k - 1], given[c.below(k)]);
  for (auto const f : given) {
    auto const& fl = kFlags[f];
    if (c.chance(1, 8)) args.push_back(word(c));  // something else in between
    if (fl.required && seen.contains(f) && c.flip()) continue;
    c.label_if(seen.contains(f), "repeated flag");
    seen.insert(f);
    args.emplace_back(fl.s && (!fl.l || c.flip()) ? fl.s : fl.l);
    switch (f) {
      case 0: e.i = c.any_int<int>(); args.push_back(std::to_string(e.i)); break;
      case 1: e.s = word(c); args.push_back(e.s); break;
      case 2: e.b = true; break;
      case 3: { e.d = c.range(-10000, 10000) / 32.0; char x[64]; snprintf(x, sizeof x, "%.5f", e.d); args.emplace_back(x); break; }
      case 4: e.n = c.any_int<unsigned>(); args.push_back(std::to_string(e.n)); break;
      case 5: e.o = word(c); args.push_back(e.o); break;
      case 6: e.p = word(c); args.push_back(e.p); break;
      default: e.l = c.any_int<std::int64_t>(); args.push_back(std::to_string(e.l)); break;
    }
  }
  // a flag without value at the end: nothing behind the last argument is read
  if (c.chance(1, 6)) {
    auto const f = c.of({0, 1, 3, 6, 7});
    args.emplace_back(kFlags[f].l ? kFlags[f].l : kFlags[f].s);
    c.label("last flag without value");
  }
  c.note("arguments: ", str(args));
  auto const complete = seen.contains(4) && seen.contains(5);
  c.nontrivial(seen.size() >= 2);
  c.label_if(!complete, "required flag missing");
  Args const a{args};
  auto threw = std::string{};
  auto ok = true;
  auto o = opts{};
  try {
    o = utl::parse_flags<opts>(static_cast<int>(args.size()), a.ptrs);
  } catch (std::runtime_error const& x) {
    ok = false;
    threw = x.what();
  }
  CHECK_EQ(ok, complete, threw);
  if (!ok) {
    CHECK_EQ(threw, std::string{!seen.contains(4) ? "--num" : "-o"}, "the missing flag is named");
    return;
  }
  CHECK_EQ(o.i_.val(), e.i);
  CHECK_EQ(o.s_.val(), e.s);
  CHECK_EQ(o.b_.val(), e.b);
  CHECK(std::abs(o.d_.val() - e.d) < 1e-9 * (1 + std::abs(e.d)), o.d_.val(), " vs ", e.d);
  CHECK_EQ(o.n_.val(), e.n);
  CHECK_EQ(o.o_.val(), e.o);
  CHECK_EQ(o.p_.val(), e.p);
  CHECK_EQ(o.l_.val(), e.l);

  // printing shows every flag with its value
  for (auto const desc : {false, true}) {
    auto const text = desc ? utl::description<opts>() : utl::print_flags(o);
    std::string const values[] = {std::to_string(e.i), e.s, e.b ? "true" : "false", pbt::cat(o.d_.val()), std::to_string(e.n), e.o, e.p, std::to_string(e.l)};
    auto at = std::size_t{0};
    for (auto f = 0; f != 8; ++f) {
      auto const& fl = kFlags[f];
      auto next = [&](std::string const& s) {
        auto const p = text.find(s, at);
        CHECK(p != std::string::npos, quote(s), " missing behind ", at, " in ", quote(text));
        at = p + s.size();
      };
      if (f != 0) next("\n");
      if (fl.l) next(fl.l);
      if (fl.s) next(fl.s);
      if (fl.required) next("*");
      next(" " + (desc ? std::string{fl.desc} : values[f]));
    }
    CHECK_EQ(at, text.size());
  }
}

// any arguments at all: parsed or refused, never out of bounds
PROP(arbitrary_arguments, 2) {
  auto args = std::vector<std::string>{};
  for (auto k = c.more(10); k != 0; --k) {
    auto const& f = kFlags[c.draw(7)];
    args.push_back(c.flip() ? (f.s && (!f.l || c.flip()) ? f.s : f.l) : c.flip() ? c.text(c.len(5), "-0129.a ") : word(c));
  }
  c.note("arguments: ", str(args));
  c.nontrivial(args.size() >= 2);
  Args const a{args};
  auto const has = [&](int const f) {
    for (auto k = std::size_t{0}; k + 1 < args.size(); ++k) {
      if (((kFlags[f].s && args[k] == kFlags[f].s) || (kFlags[f].l && args[k] == kFlags[f].l))) return true;
    }
    return false;
  };
  try {
    auto const o = utl::parse_flags<opts>(static_cast<int>(args.size()), a.ptrs);
    CHECK(has(4) && has(5), "accepted without a required flag");
    auto any_v = false;
    for (auto const& s : args) any_v = any_v || s == "-v" || s == "--verbose-about-every-thing";
    CHECK_EQ(o.b_.val(), any_v);
    if (!has(0)) CHECK_EQ(o.i_.val(), 5);
    if (!has(1)) CHECK_EQ(o.s_.val(), std::string{"nobody"});
    (void)utl::print_flags(o);
  } catch (std::runtime_error const& x) {
    CHECK(std::string_view{x.what()} == "--num" || std::string_view{x.what()} == "-o", "refused with ", x.what());
  }
}

// other types, a required switch, and the other ways to a flag's value
namespace {
struct opts2 {
  utl::cmd_line_flag<bool, utl::required, UTL_SHORT("-y"), UTL_LONG("--yes"), UTL_DESC("go on")> y_;
  utl::cmd_line_flag<float, UTL_LONG("--ratio"), UTL_DESC("a ratio")> f_{0.25F};
  utl::cmd_line_flag<std::filesystem::path, UTL_SHORT("-p"), UTL_DESC("where")> p_{std::filesystem::path{"here"}};
  utl::cmd_line_flag<std::uint16_t, UTL_SHORT("-u"), UTL_LONG("--port"), UTL_DESC("port")> u_{std::uint16_t{80}};
  utl::cmd_line_flag<cstr, UTL_SHORT("-c"), UTL_DESC("slice")> c_;
  utl::cmd_line_flag<bool, UTL_LONG("--on"), UTL_DESC("on already")> on_{true};
};
}  // namespace
PROP(other_types, 2) {
  auto args = std::vector<std::string>{"prog"};
  auto yes = false;
  auto f = 0.25F;
  auto p = std::string{"here"}, s = std::string{};
  auto u = std::uint16_t{80};
  for (auto k = c.more(9); k != 0; --k) {
    switch (c.draw(5)) {
      case 0: yes = true; args.push_back(c.flip() ? "-y" : "--yes"); break;
      case 1: { f = static_cast<float>(c.range(-4000, 4000)) / 8.0F; char b[64]; snprintf(b, sizeof b, "%.3f", static_cast<double>(f)); args.push_back("--ratio"); args.push_back(b); break; }
      case 2: p = c.text(1 + c.more(8), "/ab. "); args.push_back("-p"); args.push_back(p); break;
      case 3: u = c.any_int<std::uint16_t>(); args.push_back(c.flip() ? "-u" : "--port"); args.push_back(std::to_string(u)); break;
      case 4: s = c.text(1 + c.more(8), "xyz,\""); args.push_back("-c"); args.push_back(s); break;
      default: args.push_back("--on"); break;
    }
  }
  c.note("arguments: ", str(args));
  c.nontrivial(args.size() >= 3);
  Args const a{args};
  auto o = opts2{};
  auto ok = true;
  try {
    o = utl::parse_flags<opts2>(static_cast<int>(args.size()), a.ptrs);
  } catch (std::runtime_error const& x) {
    ok = false;
    CHECK_EQ(std::string{x.what()}, std::string{"--yes"});
  }
  CHECK_EQ(ok, yes);
  if (!ok) return;
  CHECK(*o.y_ && o.y_.val());
  CHECK(std::abs(*o.f_ - f) <= 1e-5F * (1 + std::abs(f)), *o.f_, " vs ", f);
  CHECK_EQ(o.p_.val().native(), p);
  CHECK_EQ(*o.u_, u);
  std::uint16_t const conv = o.u_;
  CHECK_EQ(conv, u);
  CHECK_EQ(std::as_const(o).c_.val().view(), std::string_view{s});
  CHECK(*o.on_);
  *o.u_ = 7;
  CHECK_EQ(o.u_.val(), 7);
  o.u_.val() = 9;
  CHECK_EQ(*std::as_const(o).u_, 9);
}

// very many, and very long, arguments
PROP_HUGE(many_arguments, 8) {
  auto const n = c.huge();
  auto const longest = c.huge();
  auto args = std::vector<std::string>(n, "x");
  auto const name = std::string(longest, 'n');
  args.insert(args.begin() + static_cast<std::ptrdiff_t>(c.below(n + 1)), {"--name", name});
  args.insert(args.end(), {"-n", "3", "-o", "out", "-i", "-7"});
  c.note(args.size(), " arguments, one of ", longest, " bytes");
  c.nontrivial();
  Args const a{args};
  auto const o = utl::parse_flags<opts>(static_cast<int>(args.size()), a.ptrs);
  CHECK_EQ(o.n_.val(), 3U);
  CHECK_EQ(o.o_.val(), std::string{"out"});
  CHECK_EQ(o.i_.val(), -7);
  CHECK(o.s_.val() == name, "the long value differs");
}
