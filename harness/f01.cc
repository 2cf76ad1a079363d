// F01: every way of reading lines delivers the same lines.
#include <bits/stdc++.h>
#include <sys/mman.h>

#include "text.h"
#include "utl/for_each_line_in_file.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/pipes/for_each.h"
#include "utl/pipes/transform.h"
#include "utl/pipes/vec.h"
#include "utl/parser/csv.h"

using namespace pbt;
using namespace text;
using utl::cstr;

namespace {
struct Temp {
  explicit Temp(std::string const& content, std::string const& prefix = "f01_") : path{prefix + std::to_string(getpid())} {
    auto* f = std::fopen(path.c_str(), "wb");
    std::fwrite(content.data(), 1, content.size(), f);
    std::fclose(f);
  }
  ~Temp() { std::remove(path.c_str()); }
  std::string path;
};
std::string document(Case& c) {
  auto const max = c.chance(1, 30) ? 20000UL : 80UL;
  switch (c.draw(3)) {
    case 0: return c.text(c.len(max), "a\n");
    case 1: return c.text(c.len(max), "ab\r\n,");
    case 2: {
      auto t = std::string{};
      auto const n = c.more(15);
      for (auto i = std::size_t{0}; i != n; ++i) {
        t += c.text(c.len(max / 2), std::string_view{"abc ,;\"#\r\0", 10});
        if (i + 1 != n || c.flip()) t += c.chance(1, 3) ? "\r\n" : "\n";
      }
      return t;
    }
    default: return c.raw(c.more(60));
  }
}
std::vector<std::string> model(std::string const& t) {
  auto r = std::vector<std::string>{};
  for (auto at = std::size_t{0}; at < t.size();) {
    auto const e = std::min(t.find('\n', at), t.size());
    r.push_back(t.substr(at, e - at));
    at = e + 1;
  }
  return r;
}
void classify(Case& c, std::string const& t) {
  c.label_if(t.find("\n\n") != std::string::npos || t.starts_with("\n"), "blank line");
  c.label_if(!t.empty() && t.back() != '\n', "last line without line break");
  c.label_if(t.size() > 4096, "more than a page");
  c.label_if(t.size() % 4096 == 0 && !t.empty(), "whole pages");
  c.nontrivial(std::count(t.begin(), t.end(), '\n') >= 1 && t.size() >= 2);
}
template <typename R>
std::vector<std::string> piped(R&& range) {
  auto r = std::vector<std::string>{};
  std::forward<R>(range) | utl::for_each([&](cstr s) { r.push_back(s.to_str()); });
  return r;
}
}  // namespace

PROP(in_memory, 8) {
  auto const t = document(c);
  c.note("text = ", quote(t));
  classify(c, t);
  auto const expected = model(t);
  Exact const e{t};
  auto const in = slice(e);
  // a history of reads with calls of the progress consumer
  auto calls = std::vector<std::size_t>{};
  auto consumer = [&](std::size_t const x) { calls.push_back(x); };
  auto r = utl::buf_reader<decltype(consumer)>{in, std::move(consumer)};
  auto at = std::size_t{0};
  for (auto const& l : expected) {
    auto const line = r.read_line();
    CHECK(line.data() != nullptr, "end of input reported too early");
    CHECK_SLICE(e, line, at, l.size());
    at += l.size() + 1;
    if (!calls.empty()) {
      CHECK(calls.back() <= t.size(), "progress ", calls.back(), " of ", t.size());
      if (at <= t.size()) CHECK_EQ(calls.back(), at);
    } else {
      CHECK(at > t.size(), "no progress reported");
    }
    if (c.chance(1, 8)) {
      auto other = std::move(r);
      r.~buf_reader();
      new (&r) utl::buf_reader<decltype(consumer)>{std::move(other)};
    }
  }
  CHECK(std::is_sorted(calls.begin(), calls.end()));
  for (auto k = 0; k != 2; ++k) {
    CHECK(r.read_line().data() == nullptr, "a line behind the end");
  }
  CHECK_EQ(piped(utl::line_range{utl::make_buf_reader(in)}), expected);
  CHECK_EQ(piped(utl::line_range{utl::buf_reader<>{in}}), expected);
  // for_each_line only removes the carriage return
  auto i = std::size_t{0};
  utl::for_each_line(in, [&](cstr s) {
    CHECK(i < expected.size());
    auto x = expected[i++];
    if (x.ends_with('\r')) x.pop_back();
    CHECK_EQ(s.view(), std::string_view{x});
  });
  CHECK_EQ(i, expected.size());
}

PROP(from_files, 2) {
  auto t = document(c);
  if (c.chance(1, 12)) t.resize(4096 * (1 + c.draw(1)), 'x');  // ends with a page
  c.note("text = ", quote(t));
  classify(c, t);
  auto const expected = model(t);
  auto const f = Temp{t};
  auto got = std::vector<std::string>{};
  utl::for_each_line_in_file(f.path, [&](std::string const& s) { got.push_back(s); });
  CHECK_EQ(got, expected, "for_each_line_in_file");
  CHECK_EQ(piped(utl::line_range{utl::mmap_reader{f.path.c_str()}}), expected, "mmap_reader");
  auto m = utl::mmap_reader{f.path.c_str()};
  auto at = std::size_t{0};
  for (auto const& l : expected) {
    auto const line = m.read_line();
    CHECK(line.data() != nullptr);
    CHECK_EQ(line.view(), std::string_view{l});
    at = std::min(at + l.size() + 1, t.size());
    auto const p = m.progress();
    CHECK(std::abs(p - static_cast<float>(at) / static_cast<float>(t.size())) < 1e-4F, "progress ", p, " at ", at, " of ", t.size());
  }
  CHECK(m.read_line().data() == nullptr);
  CHECK_EQ(m.progress(), 1.0F);
}

// "-" is the standard input: a file or a pipe
PROP(standard_input, 1) {
  auto const t = document(c);
  auto const pipe = c.flip() && t.size() < 60000;
  c.note(pipe ? "pipe" : "file", ", text = ", quote(t));
  classify(c, t);
  auto const f = Temp{t};
  auto const saved = ::dup(0);
  if (pipe) {
    int fd[2];
    CHECK(::pipe(fd) == 0);
    CHECK(::write(fd[1], t.data(), t.size()) == static_cast<ssize_t>(t.size()));
    ::close(fd[1]);
    ::dup2(fd[0], 0);
    ::close(fd[0]);
  } else {
    auto const fd = ::open(f.path.c_str(), O_RDONLY);
    ::dup2(fd, 0);
    ::close(fd);
  }
  std::clearerr(stdin);
  std::cin.clear();
  auto got = std::vector<std::string>{};
  utl::for_each_line_in_file("-", [&](std::string const& s) { got.push_back(s); });
  if (saved != -1) {
    ::dup2(saved, 0);
    ::close(saved);
  } else {
    ::close(0);
  }
  CHECK_EQ(got, model(t), "standard input");
}

// any other name is that of a file, and one that does not exist has no lines
PROP(other_names_are_files, 1) {
  auto const t = document(c);
  auto const prefix = c.of({"-f01_", "--f01_", "f01 -", " f01_", "f01*", "f01_\xC3\xA4", "./-f01_", "f01-"});
  c.note("prefix ", quote(prefix), ", text = ", quote(t));
  classify(c, t);
  auto const in = Temp{"standard input\n", "f01in_"};
  auto const saved = ::dup(0);
  auto const fd = ::open(in.path.c_str(), O_RDONLY);
  ::dup2(fd, 0);
  ::close(fd);
  std::clearerr(stdin);
  std::cin.clear();
  auto const collect = [](std::string const& name) {
    auto got = std::vector<std::string>{};
    utl::for_each_line_in_file(name, [&](std::string const& s) { got.push_back(s); });
    return got;
  };
  auto missing = std::string{};
  auto got = std::vector<std::string>{}, none = std::vector<std::string>{};
  auto threw = false;
  {
    auto const f = Temp{t, prefix};
    got = collect(f.path);
    missing = f.path;
  }
  try {
    none = collect(c.flip() ? missing : c.flip() ? std::string{} : "f01_none/" + missing);
  } catch (std::exception const&) {
    threw = true;  // reporting it would be right as well
  }
  if (saved != -1) {
    ::dup2(saved, 0);
    ::close(saved);
  } else {
    ::close(0);
  }
  CHECK_EQ(got, model(t), "a file");
  CHECK(threw || none.empty(), "lines of a file that does not exist: ", none.size());
}

// blocks and lines in any order, the reader may be moved in between
PROP(mapped_history, 3) {
  auto const t = document(c);
  c.note("text = ", quote(t));
  classify(c, t);
  auto const f = Temp{t};
  auto m = utl::mmap_reader{f.path.c_str()};
  auto at = std::size_t{0};
  for (auto k = c.more(20); k != 0; --k) {
    switch (c.draw(4)) {
      case 0: {
        auto const n = c.chance(1, 6) ? ~std::size_t{0} - c.draw(9) : c.len(t.size() + 3);
        c.note("read ", n);
        auto const s = m.read(n);
        auto const len = std::min(n, t.size() - at);
        CHECK_EQ(s.length(), len);
        CHECK(len == 0 || std::memcmp(s.data(), t.data() + at, len) == 0, "wrong bytes");
        at += len;
        c.label("block");
        break;
      }
      case 1:
      case 2: {
        c.note("read_line");
        auto const s = m.read_line();
        CHECK_EQ(s.data() == nullptr, at == t.size());
        auto const end = std::min(t.find('\n', at), t.size());
        CHECK_EQ(s.view(), std::string_view{t}.substr(at, end - at));
        at = std::min(end + 1, t.size());
        break;
      }
      case 3: {
        c.note("move");
        auto o = std::move(m);
        m = std::move(o);
        break;
      }
      default: {
        c.note("progress");
        auto const p = m.progress();
        CHECK(p >= 0 && p <= 1);
        CHECK(t.empty() || std::abs(p - static_cast<float>(at) / static_cast<float>(t.size())) < 1e-4F, "progress ", p);
        break;
      }
    }
  }
}

// more lines, longer lines and larger files than narrow integers count
PROP_HUGE(long_texts, 16) {
  auto const n = c.huge();
  auto const lines = c.flip();
  auto const length = std::array{n, n / 2, n / 20 + 1, std::size_t{40000}}[c.draw(3)];
  auto g = c.bulk();
  auto t = std::string{};
  for (auto i = std::size_t{0}; i != n; ++i) {
    if (lines) {
      t.append(g(2), 'a');
      if (g(3) == 0) t += '\r';
      t += '\n';
    } else {
      t += g(length) == 0 ? '\n' : static_cast<char>('a' + i % 26);
    }
  }
  c.note(n, lines ? " short lines" : " bytes of long lines");
  c.nontrivial();
  auto const expected = model(t);
  CHECK(piped(utl::line_range{utl::make_buf_reader(cstr{t.data(), t.size()})}) == expected, "buf_reader");
  auto i = std::size_t{0};
  utl::for_each_line(cstr{t.data(), t.size()}, [&](cstr const s) {
    CHECK(i < expected.size());
    auto x = std::string_view{expected[i++]};
    if (x.ends_with('\r')) x.remove_suffix(1);
    CHECK_EQ(s.view(), x);
  });
  CHECK_EQ(i, expected.size());
  auto const f = Temp{t};
  auto got = std::vector<std::string>{};
  utl::for_each_line_in_file(f.path, [&](std::string const& s) { got.push_back(s); });
  CHECK(got == expected, "for_each_line_in_file");
  CHECK(piped(utl::line_range{utl::mmap_reader{f.path.c_str()}}) == expected, "mmap_reader");
}
PROP_HUGE(beyond_four_gigabytes, 6) {
  // holes: nothing is stored, and only the ends are read
  auto const hole = (std::size_t{1} << c.range(31U, 33U)) + c.draw(5000) - 2000;
  auto const head = std::string{"head\n"}, tail = std::string{"\ntail\r\nlast"};
  auto const f = Temp{head};
  if (::truncate(f.path.c_str(), static_cast<off_t>(hole)) != 0) return;
  {
    auto* o = std::fopen(f.path.c_str(), "ab");
    if (o == nullptr || std::fwrite(tail.data(), 1, tail.size(), o) != tail.size() || std::fclose(o) != 0) return;
  }
  c.note("a file of ", hole + tail.size(), " bytes");
  c.nontrivial();
  auto const size = hole + tail.size();
  auto m = utl::mmap_reader{f.path.c_str()};
  CHECK_EQ(m.read_line().view(), std::string_view{"head"});
  auto const big = hole - head.size() - 3;
  auto const s = m.read(big);
  CHECK_EQ(s.length(), big);
  auto const p = m.progress();
  CHECK(std::abs(p - static_cast<float>(hole - 3) / static_cast<float>(size)) < 1e-4F, "progress ", p);
  auto o = std::move(m);
  CHECK_EQ(o.read_line().view(), (std::string_view{"\0\0\0", 3}));
  CHECK_EQ(o.read_line().view(), std::string_view{"tail\r"});
  CHECK_EQ(o.read_line().view(), std::string_view{"last"});
  CHECK(o.read_line().data() == nullptr);
  // a reader of memory of that size
  auto calls = std::vector<std::size_t>{};
  auto consumer = [&](std::size_t const x) { calls.push_back(x); };
  auto const map = utl::mmap_reader::memory_map{f.path.c_str()};
  CHECK_EQ(map.size(), size);
  auto whole = cstr{map.ptr(), map.size()};
  auto r = utl::buf_reader<decltype(consumer)>{whole, std::move(consumer)};
  CHECK_EQ(r.read_line().view(), std::string_view{"head"});
  CHECK_EQ(calls, std::vector<std::size_t>{5});
  // a rest just above 2^31, 2^32, 2^33 bytes without line break, behind a first line
  for (auto const p2 : {31U, 32U, 33U}) {
    auto const part = (std::size_t{1} << p2) + c.below(5);
    if (part > hole) break;
    auto r3 = utl::make_buf_reader(cstr{map.ptr(), part});
    CHECK_EQ(r3.read_line().view(), std::string_view{"head"}, "in a text of ", part, " bytes");
  }
  auto r2 = utl::make_buf_reader(whole.substr(hole - 3));
  CHECK_EQ(r2.read_line().length(), 3U);
  CHECK_EQ(r2.read_line().view(), std::string_view{"tail\r"});
}
// one line longer than narrow integers count, in memory that is only mapped
PROP_HUGE(lines_beyond_four_gigabytes, 2) {
  auto const n = (std::size_t{1} << (c.chance(1, 5) ? 31U : 32U)) + c.draw(9000);
  auto const tail = std::string_view{"\nnext\nlast"};
  auto const size = 5 + n + tail.size();
  auto* const p = static_cast<char*>(::mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED) return;
  c.note("a line of ", n, " bytes");
  c.nontrivial();
  std::memcpy(p, "head\n", 5);
  std::memcpy(p + 5 + n, tail.data(), tail.size());
  auto calls = std::vector<std::size_t>{};
  auto consumer = [&](std::size_t const x) { calls.push_back(x); };
  auto r = utl::buf_reader<decltype(consumer)>{cstr{p, size}, std::move(consumer)};
  CHECK_EQ(r.read_line().view(), std::string_view{"head"});
  auto const line = r.read_line();
  CHECK(line.data() == p + 5);
  CHECK_EQ(line.length(), n);
  CHECK_EQ(r.read_line().view(), std::string_view{"next"});
  CHECK_EQ(r.read_line().view(), std::string_view{"last"});
  CHECK(r.read_line().data() == nullptr);
  CHECK_EQ(calls, (std::vector<std::size_t>{5, 5 + n + 1, 5 + n + 6}));
  auto lengths = std::vector<std::size_t>{};
  utl::for_each_line(cstr{p, size}, [&](cstr const s) { lengths.push_back(s.length()); });
  CHECK_EQ(lengths, (std::vector<std::size_t>{4, n, 4, 4}));
  ::munmap(p, size);
}
