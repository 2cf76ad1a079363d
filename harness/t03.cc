// T03: splitting text into tokens and lines.
#include "text.h"
#include "utl/parser/arg_parser.h"

using namespace pbt;
using namespace text;
using utl::cstr;

namespace {
using Range = std::pair<std::size_t, std::size_t>;  // offset, length

// the tokens of a text: the last one needs no separator behind it
std::vector<Range> model_tokens(std::string const& t, char const sep) {
  auto r = std::vector<Range>{};
  auto from = std::size_t{0};
  while (from < t.size()) {
    auto to = t.find(sep, from);
    if (to == std::string::npos) to = t.size();
    r.emplace_back(from, to - from);
    from = to + 1;
  }
  return r;
}
std::vector<Range> model_lines(std::string const& t) {
  auto r = model_tokens(t, '\n');
  for (auto& [from, n] : r) {
    if (n != 0 && t[from + n - 1] == '\r') --n;
  }
  return r;
}
std::string document(Case& c) {
  auto t = std::string{};
  switch (c.draw(3)) {
    case 0: return c.text(c.more(80), "a\n");
    case 1: return c.text(c.more(80), "ab\r\n,");
    case 2: {
      auto const n = c.more(15);
      for (auto i = std::size_t{0}; i != n; ++i) {
        t += c.text(c.more(12), std::string_view{"abc ,;\"#\r\0", 10});
        if (i + 1 != n || c.flip()) t += c.chance(1, 3) ? "\r\n" : "\n";
      }
      return t;
    }
    default: return c.raw(c.more(60));
  }
}
void classify(Case& c, std::string const& t) {
  c.label_if(t.find("\r\n") != std::string::npos, "CRLF line");
  c.label_if(!t.empty() && t.back() == '\n', "ends with a line break");
  c.label_if(!t.empty() && t.back() != '\n', "last line without line break");
  c.label_if(t.find("\n\n") != std::string::npos, "blank line");
  c.nontrivial(std::count(t.begin(), t.end(), '\n') >= 1 && t.size() >= 2);
}
}  // namespace

PROP(tokens, 3) {
  auto const t = document(c);
  auto const sep = c.chance(1, 6) ? static_cast<char>(c.draw(255)) : c.of({'\n', ',', 'a', ';', '\0'});
  c.note("text = ", quote(t), "\nseparator = ", static_cast<int>(sep));
  auto const expected = model_tokens(t, sep);
  c.nontrivial(expected.size() >= 2);
  Exact const e{t};
  auto i = std::size_t{0};
  utl::for_each_token(slice(e), sep, [&](cstr token) {
    CHECK(i < expected.size(), "more tokens than expected: ", expected.size());
    CHECK_SLICE(e, token, expected[i].first, expected[i].second);
    ++i;
  });
  CHECK_EQ(i, expected.size());
  i = 0;
  utl::for_each_token_numbered(slice(e), sep, [&](cstr token, int const no) {
    CHECK(i < expected.size());
    CHECK_SLICE(e, token, expected[i].first, expected[i].second);
    ++i;
    CHECK_EQ(no, static_cast<int>(i));
  });
  CHECK_EQ(i, expected.size());
  // breaking off: exactly the first k tokens are seen
  auto const k = 1 + c.below(expected.size() + 2);
  i = 0;
  utl::for_each_token(slice(e), sep, [&](cstr token) {
    CHECK(i < k && i < expected.size());
    CHECK_SLICE(e, token, expected[i].first, expected[i].second);
    ++i;
    return i == k ? utl::continue_t::kBreak : utl::continue_t::kContinue;
  });
  CHECK_EQ(i, std::min(k, expected.size()));
}

PROP(all_line_functions_agree, 4) {
  auto const t = document(c);
  c.note("text = ", quote(t));
  classify(c, t);
  auto const expected = model_lines(t);
  Exact const e{t};
  auto i = std::size_t{0};
  utl::for_each_line(slice(e), [&](cstr line) {
    CHECK(i < expected.size(), "more lines than expected: ", expected.size());
    CHECK_SLICE(e, line, expected[i].first, expected[i].second);
    ++i;
  });
  CHECK_EQ(i, expected.size());
  i = 0;
  utl::for_each_line_numbered(slice(e), [&](cstr line, unsigned const no) {
    CHECK(i < expected.size());
    CHECK_SLICE(e, line, expected[i].first, expected[i].second);
    CHECK_EQ(no, static_cast<unsigned>(i + 1));
    ++i;
  });
  CHECK_EQ(i, expected.size());
  i = 0;
  for (auto const& line : utl::lines{slice(e)}) {
    CHECK(i < expected.size(), "more lines than expected: ", expected.size());
    CHECK_SLICE(e, line, expected[i].first, expected[i].second);
    ++i;
  }
  CHECK_EQ(i, expected.size());
  i = 0;
  auto const l = utl::lines{slice(e)};
  for (auto it = begin(l); it != end(l); ++it, ++i) {
    CHECK(i < expected.size(), "more lines than expected: ", expected.size());
    CHECK_SLICE(e, *it, expected[i].first, expected[i].second);
  }
  CHECK_EQ(i, expected.size());
  CHECK_EQ((std::string{begin(slice(e)), end(slice(e))}), t);
}

// a history of moves of line iterators, compared with an index
PROP(line_iterator_history, 3) {
  auto const t = document(c);
  c.note("text = ", quote(t));
  auto const expected = model_lines(t);
  Exact const e{t};
  auto const l = utl::lines{slice(e)};
  auto it = l.begin();
  auto at = std::size_t{0};
  auto const show = [&](auto const& x, std::size_t const idx) {
    CHECK_EQ(x == l.end(), idx == expected.size());
    CHECK_EQ(x != l.end(), idx != expected.size());
    if (idx != expected.size()) {
      auto const& ref = *x;
      CHECK_SLICE(e, ref, expected[idx].first, expected[idx].second);
    }
  };
  show(it, at);
  auto const steps = 1 + c.draw(6);
  for (auto s = 0U; s != steps && at != expected.size(); ++s) {
    auto const k = c.below(expected.size() - at + 1);
    switch (c.draw(5)) {
      case 0: c.note("++it"); show(++it, ++at); break;
      case 1: {
        c.note("it++");
        auto const old = it++;
        show(old, at);
        ++at;
        break;
      }
      case 2: c.note("it += ", k); it += static_cast<std::ptrdiff_t>(k); at += k; break;
      case 3: {
        c.note("it + ", k);
        auto const moved = it + static_cast<std::ptrdiff_t>(k);
        show(moved, at + k);
        break;
      }
      case 4: c.note("it->length()"); CHECK_EQ(it->length(), expected[at].second); break;
      default: {
        auto const copy = it;
        CHECK(copy == it);
        show(copy, at);
        break;
      }
    }
    show(it, at);
    c.nontrivial(s >= 1 && at >= 1);
  }
}

PROP(skipping, 3) {
  auto const t = document(c);
  c.note("text = ", quote(t));
  classify(c, t);
  Exact const e{t};
  auto const expected = model_lines(t);
  auto const raw = model_tokens(t, '\n');
  auto const mode = c.draw(2);
  auto const limit = c.below(expected.size() + 2);
  c.note("predicate ", mode, " limit ", limit);
  auto calls = std::size_t{0};
  auto const pred = [&](cstr const line) {
    auto const i = calls++;
    CHECK(i < expected.size());
    CHECK_SLICE(e, line, expected[i].first, expected[i].second);
    return mode == 0 ? i < limit : mode == 1 ? line.empty() : !line.starts_with("a");
  };
  auto const rest = utl::skip_lines(slice(e), pred);
  auto i = std::size_t{0};
  auto skip = [&](std::size_t const k) {
    auto const [from, n] = expected[k];
    auto const line = std::string_view{t}.substr(from, n);
    return mode == 0 ? k < limit : mode == 1 ? line.empty() : !line.starts_with("a");
  };
  while (i != expected.size() && skip(i)) ++i;
  auto const from = i == expected.size() ? t.size() : raw[i].first;
  CHECK_SLICE(e, rest, from, t.size() - from);
  CHECK_EQ(calls, std::min(i + 1, expected.size()));

  // skip_line moves behind the next line break
  auto s = slice(e);
  auto at = std::size_t{0};
  for (auto k = c.draw(4); k != 0; --k) {
    utl::skip_line(s);
    at = std::min(t.find('\n', at), t.size());
    at = std::min(at + 1, t.size());
    CHECK_SLICE(e, s, at, t.size() - at);
  }
}

// more and longer lines than a narrow counter can count
PROP_HUGE(long_texts, 24) {
  auto const n = c.huge();
  auto const lines = c.flip();  // many lines, or few long ones
  auto g = c.bulk();
  auto t = std::string{};
  auto const sep = c.flip() ? '\n' : ';';
  for (auto i = std::size_t{0}; i != n; ++i) {
    if (lines) {
      t.append(g(2), 'a');
      if (g(3) == 0) t += '\r';
      t += sep;
    } else {
      t += g(20000) == 0 ? sep : static_cast<char>('a' + i % 26);
    }
  }
  c.note(n, lines ? " short" : " bytes of long", " lines");
  c.nontrivial();
  Exact const e{t};
  auto const tokens = model_tokens(t, sep);
  auto i = std::size_t{0};
  utl::for_each_token_numbered(slice(e), sep, [&](cstr token, int const no) {
    CHECK(i < tokens.size());
    CHECK_SLICE(e, token, tokens[i].first, tokens[i].second);
    CHECK_EQ(no, static_cast<int>(++i));
  });
  CHECK_EQ(i, tokens.size());
  auto const expected = model_lines(t);
  i = 0;
  utl::for_each_line_numbered(slice(e), [&](cstr line, unsigned const no) {
    CHECK(i < expected.size());
    CHECK_SLICE(e, line, expected[i].first, expected[i].second);
    CHECK_EQ(no, static_cast<unsigned>(++i));
  });
  CHECK_EQ(i, expected.size());
  i = 0;
  for (auto const& line : utl::lines{slice(e)}) {
    CHECK(i < expected.size());
    CHECK_SLICE(e, line, expected[i].first, expected[i].second);
    ++i;
  }
  CHECK_EQ(i, expected.size());
  auto const l = utl::lines{slice(e)};
  auto const k = static_cast<std::size_t>(g(expected.size()));
  auto const moved = l.begin() + static_cast<std::ptrdiff_t>(k);
  CHECK_EQ(moved == l.end(), k == expected.size());
  if (k != expected.size()) CHECK_SLICE(e, *moved, expected[k].first, expected[k].second);
  auto left = k;
  auto const rest = utl::skip_lines(slice(e), [&](cstr) { return left-- != 0; });
  auto const raw = model_tokens(t, '\n');
  auto const from = k == raw.size() ? t.size() : raw[k].first;
  CHECK_SLICE(e, rest, from, t.size() - from);
}
