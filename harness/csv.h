// CSV documents: abstract cells, and their encoding.
#pragma once
#include "text.h"

#include "utl/parser/csv.h"

namespace csvdoc {
using pbt::Case;

struct Cell {
  std::string value;  // what a reader of strings gets
  std::string raw;  // the bytes between the quotes (or the whole cell)
  bool quoted = false;
  std::string encode() const { return quoted ? "\"" + raw + "\"" : raw; }
};

// a cell holding an arbitrary string (no line breaks: a row is a line)
inline Cell text_cell(Case& c, char const sep, std::string value) {
  auto r = Cell{};
  value.erase(std::remove_if(value.begin(), value.end(), [](char const x) { return x == '\n' || x == '\r'; }), value.end());
  auto const must = value.find(sep) != std::string::npos || value.find('"') != std::string::npos;
  r.quoted = must || c.chance(1, 3);
  r.value = value;
  for (auto const x : value) {
    if (x == '"') r.raw += '"';
    r.raw += x;
  }
  return r;
}
inline std::string text_value(Case& c) {
  switch (c.draw(3)) {
    case 0: return c.text(c.more(8), "ab \",;");
    case 1: return c.text(c.more(12), std::string_view{"abc\"\",;:\t |\0#", 14});
    case 2: return c.text(c.more(30), "abcdefghij KLM,.-\"");
    default: return c.raw(c.more(10));
  }
}
inline std::string number_text(Case& c, std::string n) {
  if (c.chance(1, 6)) n.insert(0, c.len(3), ' ');
  return n;
}
// encodes one plain cell (numbers, booleans)
inline Cell plain_cell(Case& c, std::string const& t) {
  auto r = Cell{};
  r.value = r.raw = t;
  r.quoted = c.chance(1, 5);
  return r;
}
}  // namespace csvdoc
