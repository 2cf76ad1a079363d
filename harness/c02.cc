// C02: the streaming struct reader returns the cells that were written, by
// column name, and agrees with the table reader.
#include "csv.h"

#include <cmath>
#include <map>
#include <optional>

#include "utl/parser/buf_reader.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/pipes/for_each.h"
#include "utl/pipes/transform.h"
#include "utl/pipes/vec.h"

using namespace pbt;
using namespace csvdoc;
using utl::cstr;

namespace {
struct rec {
  utl::csv_col<int, UTL_NAME("id")> i_;
  utl::csv_col<double, UTL_NAME("weight")> d_;
  utl::csv_col<bool, UTL_NAME("on")> b_;
  utl::csv_col<std::string, UTL_NAME("name")> s_;
  utl::csv_col<cstr, UTL_NAME("id2")> raw_;
  utl::csv_col<std::uint64_t, UTL_NAME("i")> u_;
  utl::csv_col<float, UTL_NAME("x y")> f_;
};
struct with_defaults {
  utl::csv_col<int, UTL_NAME("id")> i_{7};
  utl::csv_col<double, UTL_NAME("weight")> d_{2.5};
  utl::csv_col<bool, UTL_NAME("on")> b_{true};
  utl::csv_col<std::string, UTL_NAME("name")> s_{std::string{"nobody"}};
  utl::csv_col<cstr, UTL_NAME("id2")> raw_{cstr{"raw"}};
  utl::csv_col<std::uint64_t, UTL_NAME("i")> u_{99U};
  utl::csv_col<float, UTL_NAME("x y")> f_{0.5F};
};
constexpr char const* kNames[] = {"id", "weight", "on", "name", "id2", "i", "x y"};
constexpr auto kFields = 7;

struct Expected {
  int i;
  double d;
  bool b;
  std::string s, raw;
  std::uint64_t u;
  float f;
};

template <typename T>
Expected defaults() {
  auto const t = T{};
  return {t.i_.val(), t.d_.val(), t.b_.val(), t.s_.val(), t.raw_.val().to_str(), t.u_.val(), t.f_.val()};
}

struct Doc {
  std::string text;
  std::vector<Expected> rows;
  bool blank = false, bom = false;
};

template <typename T, char Sep>
Doc make(Case& c, bool const compatible) {
  auto doc = Doc{};
  auto columns = std::vector<int>{};
  for (auto f = 0; f != kFields; ++f) if (!c.chance(1, 8)) columns.push_back(f);
  for (auto k = c.len(c.chance(1, 10) ? 40 : 4); k != 0; --k) columns.push_back(-1);
  if (columns.size() < 2) columns.push_back(-1), columns.push_back(-1);
  for (auto i = columns.size() - 1; i != 0; --i) std::swap(columns[i], columns[c.below(i + 1)]);
  auto const eol = std::string{c.chance(1, 3) ? "\r\n" : "\n"};
  c.label_if(eol.size() == 2, "CRLF");
  doc.bom = !compatible && c.chance(1, 4);
  if (doc.bom) doc.text += "\xEF\xBB\xBF", c.label("byte order mark");
  auto unknown = 0;
  for (auto i = std::size_t{0}; i != columns.size(); ++i) {
    if (i != 0) doc.text += Sep;
    // unknown columns with names that resemble known ones
    auto name = columns[i] == -1 ? c.of({"id3", "ID", "weigh", "names", "x", "on ", " id", "On", "x y ", "x_y", "id22", "o", "nam"}) + (c.flip() ? std::to_string(unknown++) : std::string{}) : std::string{kNames[columns[i]]};
    doc.text += c.chance(1, 6) ? "\"" + name + "\"" : name;
  }
  auto const rows = c.more(25);
  if (rows == 0 && c.flip()) return doc;
  doc.text += eol;
  for (auto r = std::size_t{0}; r != rows; ++r) {
    auto e = defaults<T>();
    auto line = std::string{};
    auto written = columns.size();
    if (c.chance(1, 8)) written = 1 + c.below(columns.size()), c.label("short row");
    for (auto k = std::size_t{0}; k != written; ++k) {
      auto cell = Cell{};
      auto const empty = c.chance(1, 8);
      c.label_if(empty, "empty cell");
      switch (empty && columns[k] != -1 ? -2 : columns[k]) {
        case -2: cell.quoted = c.flip(); break;
        case 0: e.i = c.any_int<int>(); cell = plain_cell(c, number_text(c, std::to_string(e.i))); break;
        case 1: e.d = static_cast<double>(c.range(-1000000, 1000000)) / 64.0;
          { char b[64]; snprintf(b, sizeof b, "%.6f", e.d); cell = plain_cell(c, number_text(c, b)); }
          break;
        case 2: e.b = c.flip(); cell = plain_cell(c, number_text(c, e.b ? c.of({"true", "TRUE", "True"}) : c.of({"false", "FALSE"}))); break;
        case 3: cell = text_cell(c, Sep, text_value(c)); if (!cell.value.empty()) e.s = cell.value; break;
        case 4: cell = text_cell(c, Sep, text_value(c)); if (!cell.raw.empty()) e.raw = cell.raw; break;
        case 5: e.u = c.any_int<std::uint64_t>(); cell = plain_cell(c, std::to_string(e.u)); break;
        case 6: e.f = static_cast<float>(c.range(-2000, 2000)) / 16.0F;
          { char b[64]; snprintf(b, sizeof b, "%.4f", static_cast<double>(e.f)); cell = plain_cell(c, number_text(c, b)); }
          break;
        default: cell = text_cell(c, Sep, text_value(c)); break;
      }
      line += (k == 0 ? "" : std::string(1, Sep)) + cell.encode();
      c.label_if(cell.raw.size() != cell.value.size(), "escaped quotes");
    }
    if (written == columns.size() && c.chance(1, 10)) {
      for (auto k = 1 + c.draw(70); k != 0; --k) line += Sep + text_cell(c, Sep, "z").encode();
      c.label("additional cells");
    }
    if (line.empty()) line = "\"\"";
    if (!compatible && c.chance(1, 8)) {
      doc.text += eol, doc.blank = true, c.label("blank line");
      for (auto k = c.more(3); k != 0; --k) doc.text += c.chance(1, 4) ? "\n" : eol;
    }
    doc.text += line;
    if (r + 1 != rows || c.flip()) doc.text += eol;
    doc.rows.push_back(e);
  }
  c.nontrivial(!doc.rows.empty());
  return doc;
}

template <typename T>
void compare(T const& g, Expected const& e, std::size_t const r) {
  CHECK_EQ(g.i_.val(), e.i, "row ", r);
  CHECK(std::abs(g.d_.val() - e.d) <= 1e-9 * (1.0 + std::abs(e.d)), "row ", r, ": ", g.d_.val(), " vs ", e.d);
  CHECK_EQ(g.b_.val(), e.b, "row ", r);
  CHECK_EQ(g.s_.val(), e.s, "row ", r);
  CHECK_EQ(g.raw_.val().view(), std::string_view{e.raw}, "row ", r);
  CHECK_EQ(g.u_.val(), e.u, "row ", r);
  CHECK(std::abs(g.f_.val() - e.f) <= 1e-5F * (1.0F + std::abs(e.f)), "row ", r, ": ", g.f_.val(), " vs ", e.f);
}

template <typename T, char Sep>
void model(Case& c) {
  auto const doc = make<T, Sep>(c, false);
  c.note("separator ", Sep, "\ndocument = ", quote(doc.text));
  Exact const e{doc.text};
  auto const in = cstr{e.data(), e.size()};
  auto const got = utl::line_range{utl::make_buf_reader(in)} | utl::csv<T, Sep>() | utl::vec();
  CHECK_EQ(got.size(), doc.rows.size());
  for (auto r = std::size_t{0}; r != got.size(); ++r) compare(got[r], doc.rows[r], r);
  // one row at a time through a pipeline, with a progress consumer
  auto seen = std::size_t{0};
  auto last = std::size_t{0};
  auto on_progress = [&](std::size_t const at) {
    CHECK(at >= last && at <= doc.text.size(), "progress ", at, " after ", last);
    last = at;
  };
  utl::line_range{utl::make_buf_reader(in, std::move(on_progress))} | utl::csv<T, Sep>() |
      utl::for_each([&](T const& row) {
        CHECK(seen < doc.rows.size());
        compare(row, doc.rows[seen], seen);
        ++seen;
      });
  CHECK_EQ(seen, doc.rows.size());
}

template <char Sep>
void agreement(Case& c) {
  auto const doc = make<rec, Sep>(c, true);
  c.note("separator ", Sep, "\ndocument = ", quote(doc.text));
  Exact const e{doc.text};
  auto const in = cstr{e.data(), e.size()};
  using Row = std::tuple<int, double, bool, std::string, cstr, std::uint64_t, float>;
  auto const a = utl::read<Row, Sep>(in, utl::column_mapping<Row>{{"id", "weight", "on", "name", "id2", "i", "x y"}});
  auto const b = utl::line_range{utl::make_buf_reader(in)} | utl::csv<rec, Sep>() | utl::vec();
  CHECK_EQ(a.size(), b.size());
  for (auto r = std::size_t{0}; r != a.size(); ++r) {
    auto const& [i, d, on, s, raw, u, f] = a[r];
    CHECK_EQ(b[r].i_.val(), i, "row ", r);
    CHECK_EQ(b[r].d_.val(), d, "row ", r);
    CHECK_EQ(b[r].b_.val(), on, "row ", r);
    CHECK_EQ(b[r].s_.val(), s, "row ", r);
    CHECK_EQ(b[r].raw_.val().view(), raw.view(), "row ", r);
    CHECK_EQ(b[r].u_.val(), u, "row ", r);
    CHECK_EQ(b[r].f_.val(), f, "row ", r);
  }
}
}  // namespace

PROP(zero_defaults, 3) {
  switch (c.draw(2)) {
    case 0: model<rec, ','>(c); break;
    case 1: model<rec, ';'>(c); break;
    default: model<rec, '\t'>(c); break;
  }
}
PROP(other_defaults, 3) { c.flip() ? model<with_defaults, ','>(c) : model<with_defaults, '|'>(c); }
PROP(agrees_with_the_table_reader, 2) { c.flip() ? agreement<','>(c) : agreement<';'>(c); }

// the other field types
namespace {
struct other {
  utl::csv_col<std::int8_t, UTL_NAME("i8")> i8_{std::int8_t{-3}};
  utl::csv_col<cista::raw::generic_string, UTL_NAME("gs")> gs_;
  utl::csv_col<std::int64_t, UTL_NAME("i64")> i64_{std::int64_t{77}};
  utl::csv_col<std::uint16_t, UTL_NAME("u16")> u16_;
  utl::csv_col<unsigned char, UTL_NAME("u8")> u8_;
};
}  // namespace
PROP(other_types, 2) {
  auto const names = std::vector<std::string>{"i8", "gs", "i64", "u16", "u8"};
  auto order = std::vector<std::size_t>{0, 1, 2, 3, 4};
  for (auto i = order.size() - 1; i != 0; --i) std::swap(order[i], order[c.below(i + 1)]);
  auto const cols = 1 + c.below(order.size());
  auto t = std::string{};
  for (auto k = std::size_t{0}; k != cols; ++k) t += (k == 0 ? "" : ",") + names[order[k]];
  t += "\n";
  struct E {
    std::int8_t i8 = -3; std::string gs; std::int64_t i64 = 77; std::uint16_t u16 = 0; unsigned char u8 = 0;
  };
  auto rows = std::vector<E>(1 + c.more(12));
  for (auto& e : rows) {
    for (auto k = std::size_t{0}; k != cols; ++k) {
      auto cell = Cell{};
      if (c.chance(1, 8)) {
        cell.quoted = true;
      } else {
        switch (order[k]) {
          case 0: e.i8 = c.any_int<std::int8_t>(); cell = plain_cell(c, number_text(c, std::to_string(e.i8))); break;
          case 1: cell = text_cell(c, ',', text_value(c)); e.gs = cell.value; break;
          case 2: e.i64 = c.any_int<std::int64_t>(); cell = plain_cell(c, number_text(c, std::to_string(e.i64))); break;
          case 3: e.u16 = c.any_int<std::uint16_t>(); cell = plain_cell(c, number_text(c, std::to_string(e.u16))); break;
          default: e.u8 = c.any_int<unsigned char>(); cell = plain_cell(c, number_text(c, std::to_string(e.u8))); break;
        }
      }
      auto const text = cell.encode();
      t += (k == 0 ? "" : ",") + (text.empty() && cols == 1 ? "\"\"" : text);
    }
    t += "\n";
  }
  c.note("document = ", quote(t));
  c.nontrivial(cols >= 2);
  Exact const x{t};
  auto const got = utl::line_range{utl::make_buf_reader(cstr{x.data(), x.size()})} | utl::csv<other>() | utl::vec();
  CHECK_EQ(got.size(), rows.size());
  for (auto r = std::size_t{0}; r != rows.size(); ++r) {
    auto const& e = rows[r];
    CHECK_EQ(static_cast<int>(got[r].i8_.val()), static_cast<int>(e.i8), "row ", r);
    CHECK_EQ(got[r].gs_.val().view(), std::string_view{e.gs}, "row ", r);
    CHECK_EQ(got[r].i64_.val(), e.i64, "row ", r);
    CHECK_EQ(got[r].u16_.val(), e.u16, "row ", r);
    CHECK_EQ(static_cast<int>(got[r].u8_.val()), static_cast<int>(e.u8), "row ", r);
    // the other ways to a column's value
    CHECK_EQ(*got[r].i64_, e.i64);
    CHECK_EQ(*got[r].i64_.operator->(), e.i64);
    auto copy = got[r];
    std::int64_t const conv = copy.i64_;
    CHECK_EQ(conv, e.i64);
    copy.i64_ = 5;
    CHECK_EQ(*copy.i64_, 5);
    *copy.i64_ = 6;
    CHECK_EQ(copy.i64_.val(), 6);
    copy.i64_.val() = 8;
    CHECK_EQ(*copy.i64_, 8);
    CHECK_EQ(*got[r].i64_, e.i64);
  }
}

// more rows, and larger cells, than narrow integers count
PROP_HUGE(many_rows, 8) {
  auto const n = c.huge();
  auto g = c.bulk();
  auto const eol = std::string{c.flip() ? "\r\n" : "\n"};
  auto t = "id,x,name" + eol;
  auto rows = std::vector<std::pair<int, std::string>>{};
  rows.reserve(n);
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const v = static_cast<int>(g(~0U));
    auto s = std::string(g(3), 'k');
    t += std::to_string(v) + (g(3) == 0 ? ",\"q,\"\"\"," : ",y,") + s + eol;
    rows.emplace_back(v, s);
  }
  c.note(n, " rows");
  c.nontrivial();
  auto i = std::size_t{0};
  utl::line_range{utl::make_buf_reader(cstr{t.data(), t.size()})} | utl::csv<rec>() | utl::for_each([&](rec const& r) {
    CHECK(i < n, "too many rows");
    CHECK_EQ(r.i_.val(), rows[i].first, "row ", i);
    CHECK_EQ(r.s_.val(), rows[i].second, "row ", i);
    ++i;
  });
  CHECK_EQ(i, n);
}
PROP_HUGE(large_cells, 8) {
  auto const n = c.huge();
  auto g = c.bulk();
  auto value = std::string{}, raw = std::string{};
  auto const rate = c.of<std::uint64_t>({60, 400, 5000});
  for (auto i = std::size_t{0}; i != n; ++i) {
    value += g(rate) == 0 ? '"' : static_cast<char>('a' + g(25));
    raw += value.back() == '"' ? "\"\"" : std::string(1, value.back());
  }
  auto const t = "id,name,id2\n1,\"" + raw + "\",\"" + raw + "\"\n2,b,\"c\"\n3,\"" + raw + "\",d\n";
  c.note("cells of ", n, " characters");
  c.nontrivial();
  Exact const e{t};
  auto const got = utl::line_range{utl::make_buf_reader(cstr{e.data(), e.size()})} | utl::csv<rec>() | utl::vec();
  CHECK_EQ(got.size(), 3U);
  for (auto r = std::size_t{0}; r != 3; ++r) {
    CHECK_EQ(got[r].i_.val(), static_cast<int>(r + 1));
    CHECK(got[r].s_.val() == (r == 1 ? "b" : value), "row ", r);
    CHECK(got[r].raw_.val().view() == (r == 0 ? raw : r == 1 ? "c" : "d"), "row ", r);
  }
}

PROP(column_limit, 1) {
  auto const n = c.chance(1, 3) ? 250 + c.draw(30) : 55 + c.draw(20);
  auto const at = c.below(n);
  auto t = std::string{}, row = std::string{};
  for (auto i = std::size_t{0}; i != n; ++i) {
    if (i != 0) t += ',', row += ',';
    t += i == at ? std::string{"id"} : "c" + std::to_string(i);
    row += std::to_string(i + 1);
  }
  auto const eol = std::string{c.of({"\n", "\r\n"})};
  t += eol + row + eol + row + (c.flip() ? eol : "");
  c.note("columns: ", n, ", at ", at);
  c.nontrivial();
  c.label_if(n > 64, "more than 64 columns");
  Exact const e{t};
  auto threw = false;
  auto got = std::vector<int>{};
  try {
    got = utl::line_range{utl::make_buf_reader(cstr{e.data(), e.size()})} | utl::csv<rec>() |
          utl::transform([](rec const& r) { return r.i_.val(); }) | utl::vec();
  } catch (std::runtime_error const&) {
    threw = true;
  }
  CHECK_EQ(threw, n > 64);
  if (!threw) CHECK_EQ(got, std::vector<int>(2, static_cast<int>(at + 1)));
}
