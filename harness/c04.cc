// C04: split returns the columns of one record as typed values.
#include "csv.h"

#include <cmath>
#include <filesystem>

#include "utl/parser/split.h"

using namespace pbt;
using namespace csvdoc;
using utl::cstr;

namespace {
template <char Sep>
void round_trip(Case& c) {
  auto i = 0;
  auto u = std::uint16_t{0};
  auto d = 0.0;
  auto b = false;
  auto s = std::string{}, raw = std::string{};
  auto const written = c.draw(8);
  auto t = std::string{};
  for (auto k = 0U; k != written; ++k) {
    auto cell = Cell{};
    auto const empty = c.chance(1, 8);
    c.label_if(empty, "empty column");
    switch (empty ? 99 : k) {
      case 0: i = c.any_int<int>(); cell = plain_cell(c, std::to_string(i)); break;
      case 1: cell = text_cell(c, Sep, text_value(c)); s = cell.raw; break;
      case 2: d = c.range(-100000, 100000) / 32.0;
        { char x[64]; snprintf(x, sizeof x, "%.5f", d); cell = plain_cell(c, x); }
        break;
      case 3: cell = text_cell(c, Sep, text_value(c)); raw = cell.raw; break;
      case 4: b = c.flip(); cell = plain_cell(c, b ? "true" : "False"); break;
      case 5: u = c.any_int<std::uint16_t>(); cell = plain_cell(c, std::to_string(u)); break;
      case 99: cell.quoted = c.flip(); break;
      default: cell = text_cell(c, Sep, text_value(c)); break;
    }
    t += (k == 0 ? "" : std::string(1, Sep)) + cell.encode();
  }
  if (c.chance(1, 4)) t += c.of({"\n", "\r\n", "\r"});
  c.note("text = ", quote(t), ", columns written: ", written);
  c.nontrivial(written >= 2);
  c.label_if(written < 6, "missing columns");
  c.label_if(written > 6, "additional columns");
  Exact const e{t};
  auto const in = cstr{e.data(), e.size()};
  auto const [gi, gs, gd, graw, gb, gu] = utl::split<Sep, int, std::string, double, cstr, bool, std::uint16_t>(in);
  CHECK_EQ(gi, i);
  CHECK_EQ(gs, s);
  CHECK(std::abs(gd - d) <= 1e-9 * (1 + std::abs(d)), gd, " vs ", d);
  CHECK_EQ(graw.view(), std::string_view{raw});
  CHECK(graw.length() == 0 || e.holds(graw.data(), graw.length()));
  CHECK_EQ(gb, b);
  CHECK_EQ(gu, u);
  // fewer columns asked for: the same values
  auto const [hi, hs] = utl::split<Sep, int, std::string>(in);
  CHECK_EQ(hi, i);
  CHECK_EQ(hs, s);
}
}  // namespace

PROP(round_trip, 4) {
  switch (c.draw(2)) {
    case 0: round_trip<','>(c); break;
    case 1: round_trip<' '>(c); break;
    default: round_trip<';'>(c); break;
  }
}

// plain text without quotes: exactly the pieces between separators
PROP(pieces, 2) {
  auto const t = c.text(c.more(30), "ab,;");
  c.note("text = ", quote(t));
  c.nontrivial(t.find(',') != std::string::npos);
  Exact const e{t};
  auto const [p, q, r, s] = utl::split<',', cstr, cstr, cstr, cstr>(cstr{e.data(), e.size()});
  auto at = std::size_t{0};
  for (auto const& x : {p, q, r, s}) {
    auto const end = at > t.size() ? at : std::min(t.find(',', at), t.size());
    auto const expected = at > t.size() ? std::string{} : t.substr(at, end - at);
    CHECK_EQ(x.view(), std::string_view{expected});
    CHECK(x.length() == 0 || static_cast<std::size_t>(x.data() - e.data()) == at);
    at = end + 1;
  }
}

PROP(arbitrary_text, 2) {
  auto const t = c.flip() ? c.text(c.more(40), "a,\"\"\r\n12-.tf") : c.raw(c.more(40));
  c.note("text = ", quote(t));
  c.nontrivial(t.size() >= 3);
  Exact const e{t};
  auto const r = utl::split<',', cstr, int, double, std::string, bool, cstr>(cstr{e.data(), e.size()});
  for (auto const& x : {std::get<0>(r), std::get<5>(r)}) {
    CHECK(x.length() == 0 || e.holds(x.data(), x.length()), "a column leaves the text");
  }
  CHECK(std::get<3>(r).size() <= t.size());
}

// the other types, and columns beyond the range of narrow integers
PROP(other_types, 2) {
  auto const i8 = c.any_int<std::int8_t>();
  auto const path = c.text(1 + c.more(10), "/ab.\\ ");
  auto const f = static_cast<float>(c.range(-4000, 4000)) / 8.0F;
  auto const u = c.any_int<std::uint64_t>();
  auto const gs = text_cell(c, ',', text_value(c));
  char b[64];
  snprintf(b, sizeof b, "%.3f", static_cast<double>(f));
  auto const t = plain_cell(c, std::to_string(i8)).encode() + "," + plain_cell(c, path).encode() + "," + plain_cell(c, b).encode() +
                 "," + plain_cell(c, std::to_string(u)).encode() + "," + gs.encode();
  c.note("text = ", quote(t));
  c.nontrivial();
  Exact const e{t};
  auto const [gi, gp, gf, gu, g] =
      utl::split<',', std::int8_t, std::filesystem::path, float, std::uint64_t, cista::raw::generic_string>(cstr{e.data(), e.size()});
  CHECK_EQ(static_cast<int>(gi), static_cast<int>(i8));
  CHECK_EQ(gp.native(), path);
  CHECK(std::abs(gf - f) <= 1e-5F * (1.0F + std::abs(f)), gf, " vs ", f);
  CHECK_EQ(gu, u);
  CHECK_EQ(g.view(), std::string_view{gs.raw});
}
PROP_HUGE(large_columns, 12) {
  auto const n = c.huge();
  auto g = c.bulk();
  auto raw = std::string{};
  for (auto i = std::size_t{0}; i != n; ++i) raw += g(40) == 0 ? std::string{"\"\""} : std::string(1, static_cast<char>('a' + g(25)));
  auto const t = "12,\"" + raw + "\",,\"" + raw + "\",7";
  c.note("columns of ", raw.size(), " bytes");
  c.nontrivial();
  Exact const e{t};
  auto const [a, s, x, r, z] = utl::split<',', int, std::string, cstr, cstr, int>(cstr{e.data(), e.size()});
  CHECK_EQ(a, 12);
  CHECK(s == raw, "the first large column differs");
  CHECK_EQ(x.length(), 0U);
  CHECK(r.view() == raw, "the second large column differs");
  CHECK_EQ(z, 7);
}
