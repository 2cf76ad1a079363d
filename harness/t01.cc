// T01: slices compare and search exactly like the byte strings they show.
#include "text.h"

using namespace pbt;
using namespace text;
using utl::cstr;

namespace {
std::string bytes(Case& c, std::size_t const max = 40) {
  switch (c.draw(3)) {
    case 0: return c.text(c.more(max), "ab");
    case 1: return c.text(c.more(max), std::string_view{"a\0b\n ", 5});
    case 2: return c.text(c.more(max), "abcdefghijklmnopqrstuvwxyz0123456789,;");
    default: return c.raw(c.more(max));
  }
}
// a byte string related to `s`: equal, a prefix, one byte different, ...
std::string related(Case& c, std::string const& s) {
  auto r = s;
  switch (c.draw(6)) {
    case 0: break;
    case 1: r.resize(c.below(r.size() + 1)); break;
    case 2: if (!r.empty()) r[c.below(r.size())] = static_cast<char>(c.draw(255)); break;
    case 3: r += bytes(c, 5); break;
    case 4: if (!r.empty()) r = r.substr(c.below(r.size())); break;
    case 5: r.insert(c.below(r.size() + 1), 1, '\0'); break;
    default: r = bytes(c); break;
  }
  return r;
}
int sign(int const x) { return (x > 0) - (x < 0); }
}  // namespace

PROP(compare, 3) {
  auto const a = bytes(c), b = related(c, a);
  c.note("a = ", quote(a), "\nb = ", quote(b));
  Exact const ea{a}, eb{b};
  auto const sa = slice(ea), sb = slice(eb);
  auto const eq = a == b;
  c.nontrivial(!a.empty() || !b.empty());
  c.label_if(eq, "equal");
  c.label_if(!eq && a.size() == b.size(), "same length, different");
  c.label_if(a.find('\0') != std::string::npos, "embedded NUL");
  CHECK_EQ(sa == sb, eq);
  CHECK_EQ(sb == sa, eq);
  CHECK_EQ(sa != sb, !eq);
  CHECK(sa == sa);
  CHECK(!(sa < sa));
  // total order, consistent with equality, by the values of the bytes
  CHECK_EQ(static_cast<int>(sa < sb) + static_cast<int>(sb < sa), eq ? 0 : 1);
  CHECK_EQ(sa < sb, a < b);
  CHECK_EQ(sb < sa, b < a);
  if (a.size() < b.size() && b.starts_with(a)) CHECK(sa < sb);
  CHECK_EQ(sa.to_str(), a);
  CHECK_EQ(sa.view(), std::string_view{a});
  CHECK_EQ(sa.length(), a.size());
  CHECK_EQ(sa.empty(), a.empty());
  CHECK_EQ(sa.valid(), !a.empty());
  CHECK_EQ(static_cast<bool>(sa), !a.empty());
  CHECK_EQ(std::string(sa.begin(), sa.end()), a);
  for (auto i = std::size_t{0}; i != a.size(); ++i) CHECK_EQ(sa[i], a[i]);
  CHECK(cstr{a} == sa);
  CHECK(cstr{std::string_view{a}} == sa);
  CHECK((cstr{ea.data(), ea.data() + ea.size()} == sa));
  CHECK_EQ((cstr{reinterpret_cast<unsigned char const*>(ea.data()), ea.size()}).view(), std::string_view{a});
  if (a.find('\0') == std::string::npos) CHECK(cstr{a.c_str()} == sa);
}

// slices of one text, overlapping or not
PROP(parts_of_one_text, 2) {
  auto const t = c.flip() ? bytes(c) : c.text(c.more(30), "ab");
  Exact const e{t};
  auto const all = slice(e);
  auto const i = c.draw(t.size()), j = c.flip() ? std::min(i + c.draw(2), t.size()) : c.draw(t.size());
  auto const n = c.draw(t.size() - i), m = c.flip() ? std::min(n, t.size() - j) : c.draw(t.size() - j);
  auto const a = std::string_view{t}.substr(i, n), b = std::string_view{t}.substr(j, m);
  c.note("text = ", quote(t), ", from ", i, " length ", n, ", from ", j, " length ", m);
  c.nontrivial(n != 0 && m != 0 && i != j);
  c.label_if(n != 0 && n == m && i != j, "same length");
  auto const sa = cstr{all.data() + i, n}, sb = cstr{all.data() + j, m};
  CHECK_EQ(sa == sb, a == b);
  CHECK_EQ(sa != sb, a != b);
  CHECK_EQ(sa < sb, a < b);
  CHECK_EQ(sb < sa, b < a);
  CHECK_EQ(sa.starts_with(sb), a.starts_with(b));
  CHECK_EQ(sa.contains(sb), a.find(b) != std::string_view::npos);
  auto copy = sa;
  if (n != 0) CHECK_EQ(copy.substr_offset(sb), a.find(b));
}

// a slice that shows nothing is an empty text, wherever it points
PROP(null_slices, 1) {
  auto const a = c.chance(1, 4) ? std::string{} : bytes(c, 6);
  c.note("a = ", quote(a));
  c.nontrivial();
  Exact const e{a};
  auto const sa = slice(e);
  for (auto none : {cstr{}, cstr{nullptr, std::size_t{0}}, cstr{static_cast<char const*>(nullptr)}, cstr{std::string_view{}}, cstr{""}, cstr{sa.end(), sa.end()}}) {
    CHECK_EQ(none == sa, a.empty());
    CHECK_EQ(sa == none, a.empty());
    CHECK_EQ(none != sa, !a.empty());
    CHECK_EQ(sa != none, !a.empty());
    CHECK_EQ(none < sa, !a.empty());
    CHECK(!(sa < none));
    CHECK(sa.starts_with(none) && sa.contains(none));
    CHECK_EQ(none.starts_with(sa), a.empty());
    CHECK_EQ(none.contains(sa), a.empty());
    CHECK(none.empty() && !none.valid() && !none && none.length() == 0 && none.to_str().empty() && none.view().empty());
    if (!a.empty()) {
      CHECK_EQ(cstr{sa}.substr_offset(none), std::size_t{0});
      CHECK_EQ(none.substr_offset(sa), std::numeric_limits<std::size_t>::max());
    }
    CHECK(cstr{} == none && !(cstr{} != none) && !(cstr{} < none));
  }
}

PROP(order_is_transitive, 1) {
  auto const x = bytes(c, 8), y = related(c, x), z = related(c, y);
  c.note("x = ", quote(x), "\ny = ", quote(y), "\nz = ", quote(z));
  Exact const ex{x}, ey{y}, ez{z};
  auto const sx = slice(ex), sy = slice(ey), sz = slice(ez);
  c.nontrivial(sx < sy && sy < sz);
  if (sx < sy && sy < sz) CHECK(sx < sz);
  auto v = std::vector<cstr>{sx, sy, sz};
  std::sort(v.begin(), v.end());
  CHECK(!(v[1] < v[0]) && !(v[2] < v[1]));
}

PROP(search, 4) {
  auto const a = bytes(c);
  auto needle = std::string{};
  if (c.flip() && !a.empty()) {  // taken from the text, perhaps modified
    auto const from = c.below(a.size());
    needle = a.substr(from, c.draw(a.size() - from));
    if (c.chance(1, 3) && !needle.empty()) needle[c.below(needle.size())] ^= 1;
    if (c.chance(1, 4)) needle += static_cast<char>('a' + c.draw(1));
  } else {
    needle = bytes(c, 4);
  }
  c.note("text = ", quote(a), "\nneedle = ", quote(needle));
  Exact const ea{a}, en{needle};
  auto sa = slice(ea);
  auto const sn = slice(en);
  auto const pos = a.find(needle);
  c.nontrivial(!needle.empty() && !a.empty());
  c.label_if(pos != std::string::npos, "found");
  c.label_if(pos != std::string::npos && pos + needle.size() == a.size() && pos != 0, "found at the very end");
  c.label_if(pos == std::string::npos, "not found");
  c.label_if(needle.size() > a.size(), "needle longer than text");
  CHECK_EQ(sa.contains(sn), pos != std::string::npos);
  CHECK_EQ(sa.starts_with(sn), a.starts_with(needle));
  if (!a.empty()) {
    CHECK_EQ(sa.substr_offset(sn), pos == std::string::npos ? std::numeric_limits<std::size_t>::max() : pos);
  } else if (!needle.empty()) {
    CHECK_EQ(sa.substr_offset(sn), std::numeric_limits<std::size_t>::max());
  }
}

// texts longer than a narrow length can hold
PROP_HUGE(long_texts, 24) {
  auto const n = c.huge();
  auto g = c.bulk();
  auto a = std::string(n, 'a');
  for (auto& x : a) x = static_cast<char>('a' + g(2));
  auto b = a;
  auto const at = static_cast<std::size_t>(g(n - 1));
  switch (c.draw(3)) {
    case 0: b[at] = 'z'; break;
    case 1: b.resize(at); break;
    case 2: b += static_cast<char>(g(255)); break;
    default: break;
  }
  c.note(n, " bytes, other text ", b.size(), " bytes, difference at ", at);
  c.nontrivial();
  Exact const ea{a}, eb{b};
  auto const sa = slice(ea), sb = slice(eb);
  CHECK_EQ(sa == sb, a == b);
  CHECK_EQ(sa != sb, a != b);
  CHECK_EQ(sa < sb, a < b);
  CHECK_EQ(sb < sa, b < a);
  CHECK_EQ(sa.starts_with(sb), a.starts_with(b));
  CHECK_EQ(sb.starts_with(sa), b.starts_with(a));
  CHECK_EQ(sa.contains(sb), a.find(b) != std::string::npos);
  auto needle = a.substr(at, 40);
  Exact const en{needle};
  CHECK_EQ(slice(ea).substr_offset(slice(en)), a.find(needle));
  CHECK_EQ(sa.length(), n);
  CHECK_EQ(sa.to_str(), a);
  CHECK_EQ(sa.view(), std::string_view{a});
}
