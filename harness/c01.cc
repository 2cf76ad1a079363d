// C01: the table reader returns the cells that were written, by column name.
#include "csv.h"

#include <cmath>
#include <filesystem>
#include <fstream>
#include <optional>

using namespace pbt;
using namespace csvdoc;
using utl::cstr;

namespace {

// int, double, bool, string, slice, unsigned 64
using Row = std::tuple<int, double, bool, std::string, cstr, std::uint64_t>;
constexpr auto kFields = std::tuple_size_v<Row>;

struct Expected {
  int i = 0;
  double d = 0;
  bool b = false;
  std::string s, raw;
  std::uint64_t u = 0;
};

struct Doc {
  std::string text;
  std::vector<std::string> names;
  std::vector<Expected> rows;
};

template <char Sep>
Doc make(Case& c) {
  auto doc = Doc{};
  // header: fields in any order, some missing, unknown columns in between
  for (auto f = std::size_t{0}; f != kFields; ++f) {
    auto n = c.text(c.len(5), "abcxyz_- #");
    n.insert(n.begin(), static_cast<char>('A' + f));
    if (c.chance(1, 4)) n = std::string(1, static_cast<char>('A' + f));
    if (c.chance(1, 8)) n += c.text(c.more(40), "abcxyz_- #"), c.label_if(n.size() > 16, "long name");
    if (c.chance(1, 8)) n += Sep, n += c.text(c.len(2), "ab"), c.label("separator in a name");
    doc.names.push_back(n);
  }
  auto columns = std::vector<int>{};  // field or -1
  for (auto f = 0; f != static_cast<int>(kFields); ++f) {
    if (!c.chance(1, 8)) columns.push_back(f);
  }
  for (auto k = c.len(c.chance(1, 10) ? 40 : 4); k != 0; --k) columns.push_back(-1);
  if (columns.empty()) columns.push_back(-1);
  for (auto i = columns.size() - 1; i != 0; --i) std::swap(columns[i], columns[c.below(i + 1)]);
  auto const first = std::find_if(columns.begin(), columns.end(), [](int const x) { return x != -1; });
  c.label_if(columns.size() > kFields + 2, "unknown columns");
  c.label_if(std::count(columns.begin(), columns.end(), -1) + kFields > columns.size(), "a field without column");
  c.label_if(!std::is_sorted(first, columns.end()), "columns in another order");

  auto const eol = std::string{c.chance(1, 3) ? "\r\n" : "\n"};
  c.label_if(eol.size() == 2, "CRLF");
  auto unknown = 0;
  for (auto i = std::size_t{0}; i != columns.size(); ++i) {
    if (i != 0) doc.text += Sep;
    auto name = columns[i] == -1 ? "?" + std::to_string(unknown++) : doc.names[static_cast<std::size_t>(columns[i])];
    if (columns[i] == -1 && c.flip()) {  // a name that resembles a known one
      auto s = doc.names[c.below(doc.names.size())];
      switch (c.draw(4)) {
        case 0: if (s.size() > 1) s.pop_back(); break;
        case 1: s += c.of({' ', 'a', '_', '?'}); break;
        case 2: s.insert(s.begin(), c.of({' ', 'a', '_', '?'})); break;
        case 3: s.front() = static_cast<char>(s.front() + 32); break;
        default: s.erase(s.begin()); break;
      }
      if (!s.empty() && std::find(doc.names.begin(), doc.names.end(), s) == doc.names.end()) name = s, c.label("a name that resembles a known one");
    }
    doc.text += name.find(Sep) != std::string::npos || c.chance(1, 6) ? "\"" + name + "\"" : name;
  }
  auto const rows = c.more(25);
  if (rows == 0 && c.flip()) return doc;
  doc.text += eol;
  for (auto r = std::size_t{0}; r != rows; ++r) {
    auto e = Expected{};
    auto cells = std::vector<std::string>{};
    auto written = columns.size();
    if (c.chance(1, 8)) written = 1 + c.below(columns.size());  // a short row
    c.label_if(written != columns.size(), "short row");
    for (auto k = std::size_t{0}; k != written; ++k) {
      auto cell = Cell{};
      auto const empty = c.chance(1, 8);
      switch (empty && columns[k] != -1 ? -2 : columns[k]) {
        case -2: cell.quoted = c.flip(); break;  // an empty cell: default value
        case 0: e.i = c.any_int<int>(); cell = plain_cell(c, number_text(c, std::to_string(e.i))); break;
        case 1: e.d = static_cast<double>(c.range(-1000000, 1000000)) / 64.0;
          { char b[64]; snprintf(b, sizeof b, "%.6f", e.d); cell = plain_cell(c, number_text(c, b)); }
          break;
        case 2: e.b = c.flip(); cell = plain_cell(c, number_text(c, e.b ? c.of({"true", "TRUE", "True"}) : c.of({"false", "FALSE"}))); break;
        case 3: cell = text_cell(c, Sep, text_value(c)); e.s = cell.value; break;
        case 4: cell = text_cell(c, Sep, text_value(c)); e.raw = cell.raw; break;
        case 5: e.u = c.any_int<std::uint64_t>(); cell = plain_cell(c, std::to_string(e.u)); break;
        default: cell = text_cell(c, Sep, text_value(c)); break;
      }
      cells.push_back(cell.encode());
      c.label_if(cell.raw.size() != cell.value.size(), "escaped quotes");
    }
    // text behind the last known column is ignored
    if (written == columns.size() && c.chance(1, 10)) {
      for (auto k = 1 + c.draw(2); k != 0; --k) cells.push_back(text_cell(c, Sep, text_value(c)).encode());
      c.label("additional cells");
    }
    auto line = std::string{};
    for (auto k = std::size_t{0}; k != cells.size(); ++k) line += (k == 0 ? "" : std::string(1, Sep)) + cells[k];
    if (line.empty()) line = "\"\"";  // not a blank line
    doc.text += line;
    if (r + 1 != rows || c.flip()) doc.text += eol;
    doc.rows.push_back(e);
  }
  if (!doc.rows.empty() && doc.text.ends_with(eol) && c.chance(1, 6)) {
    doc.text += eol;
    c.label("trailing blank line");
  }
  c.nontrivial(doc.rows.size() >= 1 && columns.size() >= 2);
  return doc;
}

void compare(std::vector<Row> const& got, Doc const& doc) {
  CHECK_EQ(got.size(), doc.rows.size());
  for (auto r = std::size_t{0}; r != got.size(); ++r) {
    auto const& e = doc.rows[r];
    auto const& g = got[r];
    CHECK_EQ(std::get<0>(g), e.i, "row ", r);
    CHECK(std::abs(std::get<1>(g) - e.d) <= 1e-9 * (1.0 + std::abs(e.d)), "row ", r, ": ", std::get<1>(g), " vs ", e.d);
    CHECK_EQ(std::get<2>(g), e.b, "row ", r);
    CHECK_EQ(std::get<3>(g), e.s, "row ", r);
    CHECK_EQ(std::get<4>(g).view(), std::string_view{e.raw}, "row ", r);
    CHECK_EQ(std::get<5>(g), e.u, "row ", r);
  }
}

template <char Sep>
void round_trip(Case& c) {
  auto const doc = make<Sep>(c);
  c.note("separator ", Sep, "\ndocument = ", quote(doc.text));
  auto const columns = utl::column_mapping<Row>{{doc.names[0], doc.names[1], doc.names[2], doc.names[3], doc.names[4], doc.names[5]}};
  Exact const e{doc.text};
  auto const in = cstr{e.data(), e.size()};
  compare(utl::read<Row, Sep>(in, columns), doc);
  // into a vector which holds older entries
  auto v = std::vector<Row>(c.below(4), Row{9, 9.0, true, "old", cstr{"old"}, 9});
  utl::read<Row, Sep>(in, v, columns);
  compare(v, doc);
  // cells of slices lie inside the document
  for (auto const& r : v) {
    auto const& sl = std::get<4>(r);
    CHECK(sl.length() == 0 || e.holds(sl.data(), sl.length()));
  }
}

// from a file (the table owns its strings)
using Owning = std::tuple<std::string, int, double>;
}  // namespace

PROP(written_cells_are_read, 30) {
  switch (c.draw(3)) {
    case 0: round_trip<','>(c); break;
    case 1: round_trip<';'>(c); break;
    case 2: round_trip<'\t'>(c); break;
    default: round_trip<':'>(c); break;
  }
}

namespace {
template <char Sep>
void from_file(Case& c) {
  auto const sep = std::string(1, Sep);
  auto const eol = std::string{c.flip() ? "\n" : "\r\n"};
  auto const extra = c.flip();  // an unknown column in between
  auto t = "n" + sep + (extra ? "?" + sep : "") + "x" + sep + "s" + eol;
  auto rows = std::vector<Owning>{};
  for (auto k = c.more(200); k != 0; --k) {
    auto const cell = text_cell(c, Sep, text_value(c));
    rows.emplace_back(cell.value, c.any_int<int>(), c.range(-4000, 4000) / 8.0);
    char b[64];
    snprintf(b, sizeof b, "%.3f", std::get<2>(rows.back()));
    t += std::to_string(std::get<1>(rows.back())) + sep;
    if (extra) t += text_cell(c, Sep, text_value(c)).encode() + sep;
    t += b + sep + cell.encode() + eol;
  }
  c.note("file = ", quote(t));
  c.nontrivial(rows.size() >= 2);
  auto const path = "csv_" + std::to_string(getpid());
  { std::ofstream{path, std::ios::binary} << t; }
  auto const cols = utl::column_mapping<Owning>{{"s", "n", "x"}};
  auto v = std::vector<Owning>(c.below(3), Owning{"old", 9, 9.0});
  utl::read_file<Owning, Sep>(path.c_str(), v, cols);
  auto const w = utl::read_file<Owning, std::string, Sep>(std::string{path}, cols);
  auto const u = utl::read_file<Owning, std::filesystem::path, Sep>(std::filesystem::path{path}, cols);
  if constexpr (Sep == ',') {
    auto d = std::vector<Owning>{};
    utl::read_file<Owning>(path.c_str(), d, cols);
    CHECK_EQ(d, v);
    CHECK_EQ(utl::read_file<Owning>(std::string{path}, cols), v);
  }
  std::filesystem::remove(path);
  CHECK_EQ(v.size(), rows.size());
  for (auto r = std::size_t{0}; r != rows.size(); ++r) {
    CHECK_EQ(std::get<0>(v[r]), std::get<0>(rows[r]));
    CHECK_EQ(std::get<1>(v[r]), std::get<1>(rows[r]));
    CHECK(std::abs(std::get<2>(v[r]) - std::get<2>(rows[r])) < 1e-9);
  }
  CHECK_EQ(w, v);
  CHECK_EQ(u, v);
}
}  // namespace

PROP(from_a_file, 1) {
  switch (c.draw(3)) {
    case 0: from_file<','>(c); break;
    case 1: from_file<';'>(c); break;
    case 2: from_file<'\t'>(c); break;
    default: from_file<'|'>(c); break;
  }
}

// the other field types
PROP(other_types, 4) {
  using R = std::tuple<std::int8_t, cista::raw::generic_string, std::int64_t, float, std::uint16_t, unsigned char, cstr, long>;
  auto const names = std::vector<std::string>{"i8", "gs", "i64", "f", "u16", "u8", "c", "l"};
  auto order = std::vector<std::size_t>{0, 1, 2, 3, 4, 5, 6, 7};
  for (auto i = order.size() - 1; i != 0; --i) std::swap(order[i], order[c.below(i + 1)]);
  auto const cols = 1 + c.below(order.size());
  auto t = std::string{};
  for (auto k = std::size_t{0}; k != cols; ++k) t += (k == 0 ? "" : ",") + names[order[k]];
  t += "\n";
  struct E {
    std::int8_t i8 = 0; std::string gs; std::int64_t i64 = 0; float f = 0; std::uint16_t u16 = 0; unsigned char u8 = 0; std::string raw; long l = 0;
  };
  auto rows = std::vector<E>(1 + c.more(12));
  for (auto& e : rows) {
    for (auto k = std::size_t{0}; k != cols; ++k) {
      auto cell = Cell{};
      if (c.chance(1, 8)) {
        cell.quoted = true;
      } else {
        switch (order[k]) {
          case 0: e.i8 = c.any_int<std::int8_t>(); cell = plain_cell(c, number_text(c, std::to_string(e.i8))); break;
          case 1: cell = text_cell(c, ',', text_value(c)); e.gs = cell.value; break;
          case 2: e.i64 = c.any_int<std::int64_t>(); cell = plain_cell(c, number_text(c, std::to_string(e.i64))); break;
          case 3: e.f = static_cast<float>(c.range(-4000, 4000)) / 8.0F;
            { char b[64]; snprintf(b, sizeof b, "%.3f", static_cast<double>(e.f)); cell = plain_cell(c, number_text(c, b)); }
            break;
          case 4: e.u16 = c.any_int<std::uint16_t>(); cell = plain_cell(c, number_text(c, std::to_string(e.u16))); break;
          case 5: e.u8 = c.any_int<unsigned char>(); cell = plain_cell(c, number_text(c, std::to_string(e.u8))); break;
          case 6: cell = text_cell(c, ',', text_value(c)); e.raw = cell.raw; break;
          default: e.l = c.any_int<long>(); cell = plain_cell(c, number_text(c, std::to_string(e.l))); break;
        }
      }
      auto const text = cell.encode();
      t += (k == 0 ? "" : ",") + (text.empty() && cols == 1 ? "\"\"" : text);
    }
    t += "\n";
  }
  c.note("document = ", quote(t));
  c.nontrivial(cols >= 2);
  Exact const x{t};
  auto const got = utl::read<R>(cstr{x.data(), x.size()}, utl::column_mapping<R>{{"i8", "gs", "i64", "f", "u16", "u8", "c", "l"}});
  CHECK_EQ(got.size(), rows.size());
  for (auto r = std::size_t{0}; r != rows.size(); ++r) {
    auto const& e = rows[r];
    CHECK_EQ(static_cast<int>(std::get<0>(got[r])), static_cast<int>(e.i8), "row ", r);
    CHECK_EQ(std::get<1>(got[r]).view(), std::string_view{e.gs}, "row ", r);
    CHECK_EQ(std::get<2>(got[r]), e.i64, "row ", r);
    CHECK(std::abs(std::get<3>(got[r]) - e.f) <= 1e-5F * (1.0F + std::abs(e.f)), "row ", r, ": ", std::get<3>(got[r]), " vs ", e.f);
    CHECK_EQ(std::get<4>(got[r]), e.u16, "row ", r);
    CHECK_EQ(static_cast<int>(std::get<5>(got[r])), static_cast<int>(e.u8), "row ", r);
    CHECK_EQ(std::get<6>(got[r]).view(), std::string_view{e.raw}, "row ", r);
    CHECK_EQ(std::get<7>(got[r]), e.l, "row ", r);
  }
}

// more rows, and larger cells, than narrow integers count
PROP_HUGE(many_rows, 8) {
  auto const n = c.huge();
  auto g = c.bulk();
  auto const eol = std::string{c.flip() ? "\r\n" : "\n"};
  auto t = "a,x,b" + eol;
  auto rows = std::vector<std::tuple<unsigned, std::string>>{};
  rows.reserve(n);
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto const v = static_cast<unsigned>(g(~0U));
    auto s = std::string(g(3), 'k');
    t += std::to_string(v) + (g(3) == 0 ? ",\"q,\"\"\"," : ",y,") + s + eol;
    rows.emplace_back(v, s);
  }
  c.note(n, " rows");
  c.nontrivial();
  using R = std::tuple<unsigned, std::string>;
  auto const got = utl::read<R>(cstr{t.data(), t.size()}, utl::column_mapping<R>{{"a", "b"}});
  CHECK_EQ(got.size(), rows.size());
  for (auto i = std::size_t{0}; i != n; ++i) CHECK_EQ(got[i], rows[i], "row ", i);
}
PROP_HUGE(large_cells, 8) {
  auto const n = c.huge();
  auto g = c.bulk();
  auto value = std::string{};
  auto raw = std::string{};
  auto const rate = c.of<std::uint64_t>({60, 400, 5000});
  for (auto i = std::size_t{0}; i != n; ++i) {
    value += g(rate) == 0 ? '"' : static_cast<char>('a' + g(25));
    raw += value.back() == '"' ? "\"\"" : std::string(1, value.back());
  }
  auto const t = "n,s,r\n1,\"" + raw + "\",\"" + raw + "\"\n2,b,\"c\"\n3,\"" + raw + "\",d\n";
  c.note("cells of ", n, " characters");
  c.nontrivial();
  Exact const e{t};
  using R = std::tuple<int, std::string, cstr>;
  auto const got = utl::read<R>(cstr{e.data(), e.size()}, utl::column_mapping<R>{{"n", "s", "r"}});
  CHECK_EQ(got.size(), 3U);
  CHECK(got == (std::vector<R>{{1, value, cstr{std::string_view{raw}}}, {2, "b", cstr{"c"}}, {3, value, cstr{"d"}}}), "a cell differs");
}

// up to 64 columns are read, a wider header is refused
PROP(column_limit, 2) {
  auto const n = c.chance(1, 3) ? 250 + c.draw(30) : 55 + c.draw(20);
  auto const at = c.below(n);
  auto t = std::string{}, row = std::string{};
  for (auto i = std::size_t{0}; i != n; ++i) {
    if (i != 0) t += ',', row += ',';
    t += i == at ? std::string{"want"} : "c" + std::to_string(i);
    row += std::to_string(i);
  }
  t += "\n" + row + "\n" + row + "\n";
  c.note("columns: ", n, ", at ", at);
  c.nontrivial();
  c.label_if(n > 64, "more than 64 columns");
  Exact const e{t};
  using One = std::tuple<int>;
  auto threw = false;
  auto got = std::vector<One>{};
  try {
    got = utl::read<One>(cstr{e.data(), e.size()}, utl::column_mapping<One>{{"want"}});
  } catch (std::runtime_error const&) {
    threw = true;
  }
  CHECK_EQ(threw, n > 64);
  if (!threw) CHECK_EQ(got, (std::vector<One>{One{static_cast<int>(at)}, One{static_cast<int>(at)}}));
}
