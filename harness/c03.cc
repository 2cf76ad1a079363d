// C03: arbitrary bytes.  Readers terminate, stay inside the input, and a
// malformed row affects no other row.
#include "csv.h"

#include <optional>

#include "utl/parser/buf_reader.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/parser/split.h"
#include "utl/pipes/vec.h"

using namespace pbt;
using namespace csvdoc;
using utl::cstr;

namespace {
std::string garbage_line(Case& c, std::size_t const max) {
  auto s = std::string{};
  switch (c.draw(3)) {
    case 0: s = c.text(c.more(max), "a,\""); break;
    case 1: s = c.text(c.more(max), "ab,\"\r;1"); break;
    case 2: s = c.text(c.more(max), std::string_view{"\",12 \r-.tf\0", 11}); break;
    default: s = c.raw(c.more(max)); break;
  }
  s.erase(std::remove(s.begin(), s.end(), '\n'), s.end());
  return s;
}
std::string garbage(Case& c) {
  auto s = std::string{};
  auto const n = c.more(12);
  for (auto i = std::size_t{0}; i != n; ++i) {
    s += garbage_line(c, 30);
    if (i + 1 != n || c.flip()) s += c.chance(1, 4) ? "\r\n" : "\n";
  }
  return s;
}
std::string header(Case& c) {
  return c.of({"a,b,c", "c,b,a", "b,x,a,c", "a", "x,y,c", "x,y", "\"a\",\"b\",c", "a,b,\"c"});
}
struct rec {
  utl::csv_col<cstr, UTL_NAME("a")> a_;
  utl::csv_col<std::string, UTL_NAME("b")> b_;
  utl::csv_col<int, UTL_NAME("c")> c_;
};
using Row = std::tuple<cstr, std::string, int>;
utl::column_mapping<Row> const columns{{"a", "b", "c"}};

std::vector<std::string> lines_of(std::string const& t) {
  auto r = std::vector<std::string>{};
  for (auto at = std::size_t{0}; at < t.size();) {
    auto const e = std::min(t.find('\n', at), t.size());
    r.push_back(t.substr(at, e - at));
    at = e + 1;
  }
  return r;
}
template <typename R>
std::string show_row(R const& a, std::string const& b, int const i) {
  return quote(std::string_view(a.data(), a.length())) + " " + quote(b) + " " + std::to_string(i);
}
}  // namespace

PROP(table_rows_are_independent, 3) {
  auto const h = header(c);
  auto const body = garbage(c);
  auto const t = h + (c.chance(1, 4) ? "\r\n" : "\n") + body;
  c.note("document = ", quote(t));
  auto const lines = lines_of(body);
  c.nontrivial(lines.size() >= 2);
  c.label_if(body.find('"') != std::string::npos, "quotes");
  Exact const e{t};
  auto const got = utl::read<Row>(cstr{e.data(), e.size()}, columns);
  auto expected = std::vector<std::string>{};
  auto rest = body.size();
  for (auto const& l : lines) {
    auto const tail = std::string_view{body}.substr(body.size() - rest);
    rest -= std::min(rest, l.size() + 1);
    // a blank line at the very end is no row (a stray CR in its place neither)
    if (tail == "\n" || (tail.size() == 2 && tail[0] == '\r')) break;
    // the same row in a document of its own (padded by a second row)
    auto const single = h + "\n" + l + "\nzz\n";
    Exact const x{single};
    auto const one = utl::read<Row>(cstr{x.data(), x.size()}, columns);
    CHECK_EQ(one.size(), 2U, "a document with one row and a padding row");
    expected.push_back(show_row(std::get<0>(one[0]), std::get<1>(one[0]), std::get<2>(one[0])));
  }
  auto rows = std::vector<std::string>{};
  for (auto const& [a, b, i] : got) {
    CHECK(a.length() == 0 || e.holds(a.data(), a.length()), "a cell leaves the input");
    rows.push_back(show_row(a, b, i));
  }
  CHECK_EQ(rows, expected);
}

PROP(streamed_rows_are_independent, 3) {
  auto const h = header(c);
  auto const body = garbage(c);
  auto const t = h + (c.chance(1, 4) ? "\r\n" : "\n") + body;
  c.note("document = ", quote(t));
  auto const lines = lines_of(body);
  c.nontrivial(lines.size() >= 2);
  Exact const e{t};
  auto const rd = [](Exact const& x) {
    return utl::line_range{utl::make_buf_reader(cstr{x.data(), x.size()})} | utl::csv<rec>() | utl::vec();
  };
  auto expected = std::vector<std::string>{};
  for (auto const& l : lines) {
    if (l.empty() || l == "\r") continue;
    Exact const x{h + "\n" + l};
    auto const one = rd(x);
    CHECK_EQ(one.size(), 1U, "a document with one row");
    expected.push_back(show_row(one[0].a_.val(), one[0].b_.val(), one[0].c_.val()));
  }
  auto rows = std::vector<std::string>{};
  for (auto const& r : rd(e)) {
    CHECK(r.a_.val().length() == 0 || e.holds(r.a_.val().data(), r.a_.val().length()), "a cell leaves the input");
    rows.push_back(show_row(r.a_.val(), r.b_.val(), r.c_.val()));
  }
  CHECK_EQ(rows, expected);
}

// everything is arbitrary, the header too
PROP(arbitrary_documents, 3) {
  auto t = c.flip() ? c.raw(c.more(80)) : garbage(c);
  if (c.chance(1, 8)) t = c.text(60 + c.draw(30), ",") + t;
  c.note("document = ", quote(t));
  c.nontrivial(t.size() >= 4);
  Exact const e{t};
  auto const in = cstr{e.data(), e.size()};
  auto const lines = lines_of(t);
  auto const inside = [&](cstr const& s) {
    CHECK(s.length() == 0 || e.holds(s.data(), s.length()), "a cell leaves the input");
  };
  try {
    auto const got = utl::read<Row>(in, columns);
    for (auto const& r : got) inside(std::get<0>(r));
    CHECK(got.size() <= (lines.empty() ? 0 : lines.size() - 1), "more rows than lines");
  } catch (std::runtime_error const&) {
    c.label("refused");
    CHECK(!lines.empty() && std::count(lines[0].begin(), lines[0].end(), ',') + std::count(lines[0].begin(), lines[0].end(), '"') + std::count(lines[0].begin(), lines[0].end(), '\r') >= 32, "refused a small header");
  }
  try {
    auto const got = utl::line_range{utl::make_buf_reader(in)} | utl::csv<rec>() | utl::vec();
    for (auto const& r : got) inside(r.a_.val());
    CHECK(got.size() <= (lines.empty() ? 0 : lines.size() - 1), "more rows than lines");
  } catch (std::runtime_error const&) {
    CHECK(!lines.empty() && std::count(lines[0].begin(), lines[0].end(), ',') + std::count(lines[0].begin(), lines[0].end(), '"') + std::count(lines[0].begin(), lines[0].end(), '\r') >= 32, "refused a small header");
  }
}

// single columns: the cursor moves forward, cells are inside, no byte in front
// of the cell is skipped except one opening quote
PROP(single_columns, 3) {
  auto const t = c.flip() ? garbage_line(c, 40) : c.raw(c.more(40));
  c.note("text = ", quote(t));
  c.nontrivial(t.size() >= 3);
  Exact const e{t};
  auto s = cstr{e.data(), e.size()};
  auto const steps = t.size() + 2;
  for (auto i = std::size_t{0}; i != steps && s; ++i) {
    auto const before = s;
    auto cell = cstr{};
    utl::parse_column<cstr, ','>(s, cell);
    CHECK(s.end() == e.data() + e.size() && s.data() >= before.data(), "the cursor left the text or moved back");
    CHECK(cell.length() == 0 || e.holds(cell.data(), cell.length()), "a cell leaves the input");
    auto const q = before[0] == '"';
    if (cell.data() != nullptr) {
      CHECK_EQ(cell.data() - before.data(), q ? 1 : 0);
      CHECK(cell.data() + cell.length() <= s.data(), "the cell reaches behind the cursor");
    }
    if (!q) {  // up to the next separator or line break
      auto const rest = t.substr(static_cast<std::size_t>(before.data() - e.data()));
      CHECK_EQ(cell.length(), std::min(rest.find_first_of(std::string_view{",\r\n"}), rest.size()));
    } else {  // up to the closing quote or the end of the line
      auto const rest = t.substr(static_cast<std::size_t>(before.data() - e.data()) + 1);
      auto k = std::size_t{0};
      while (k < rest.size() && rest[k] != '\r' && rest[k] != '\n') {
        if (rest[k] != '"') { ++k; continue; }
        if (k + 1 < rest.size() && rest[k + 1] == '"') { k += 2; continue; }
        break;
      }
      CHECK_EQ(cell.length(), std::min(k, rest.size()));
      c.label_if(k >= rest.size(), "no closing quote");
    }
    if (s) ++s;
  }
}

// a large unterminated or garbled line affects no other row
PROP_HUGE(large_garbage, 12) {
  auto const n = c.huge();
  auto g = c.bulk();
  auto const alphabet = std::string_view{c.of({"a\"", "\",;x", "\r\"a1", "\"\"\"\"a"})};
  auto bad = std::string(1, c.flip() ? '"' : 'a');
  for (auto i = std::size_t{0}; i != n; ++i) bad += alphabet[g(alphabet.size() - 1)];
  auto const t = "a,b,c\n1,one,1\n" + bad + "\n2,two,2\n";
  c.note("a line of ", n, " bytes over ", quote(alphabet));
  c.nontrivial();
  Exact const e{t};
  auto const in = cstr{e.data(), e.size()};
  auto const v = utl::read<Row>(in, columns);
  CHECK_EQ(v.size(), 3U);
  CHECK(v[0] == (Row{cstr{"1"}, "one", 1}) && v[2] == (Row{cstr{"2"}, "two", 2}), "a row next to the large one differs");
  CHECK(std::get<0>(v[1]).length() == 0 || e.holds(std::get<0>(v[1]).data(), std::get<0>(v[1]).length()));
  auto const w = utl::line_range{utl::make_buf_reader(in)} | utl::csv<rec>() | utl::vec();
  CHECK_EQ(w.size(), 3U);
  CHECK(w[0].a_.val() == cstr{"1"} && w[0].b_.val() == "one" && w[0].c_.val() == 1, "the row in front");
  CHECK(w[2].a_.val() == cstr{"2"} && w[2].b_.val() == "two" && w[2].c_.val() == 2, "the row behind");
}
