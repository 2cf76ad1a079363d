// F02: what is written to a file is read back; files that do not exist are
// reported and never read as empty.
#include <bits/stdc++.h>
#include <csignal>
#include <sys/resource.h>

#include "pbt.h"
#include "utl/parser/cstr.h"
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"
#include "utl/read_file.h"

using namespace pbt;

namespace {
std::string name() { return "f02_" + std::to_string(getpid()); }
struct Cleanup {
  ~Cleanup() { std::remove(name().c_str()); }
};
std::string content(Case& c) {
  auto n = c.more(300);
  if (c.chance(1, 4)) {
    n = (std::size_t{1} << c.draw(17)) + c.draw(4);
    n = n < 2 ? 0 : n - 2;
  }
  auto const unit = c.flip() ? c.raw(1 + c.more(40)) : std::string{c.of({"a", "\n", "\r\n", "\x1a", "0\n"})};
  auto s = std::string{};
  while (s.size() < n) s += unit;
  s.resize(n);
  for (auto k = c.len(5); k != 0 && n != 0; --k) s[c.below(n)] = static_cast<char>(c.draw(255));
  return s;
}
void check_all(std::string const& path, std::string const& t) {
  {
    auto const b = utl::file{path.c_str(), "r"}.content();
    CHECK_EQ(b.size(), t.size());
    CHECK(t.empty() || std::memcmp(b.data(), t.data(), t.size()) == 0, "content() differs");
  }
  CHECK(utl::file(path.c_str(), "r").content_str() == t, "content_str() differs");
  CHECK_EQ(utl::file(path.c_str(), "r").size(), t.size());
  auto const r = utl::read_file(path.c_str());
  CHECK(r.has_value(), "read_file found nothing");
  CHECK_EQ(r->size(), t.size());
  CHECK(*r == t, "read_file differs");
  auto m = utl::mmap_reader{path.c_str()};
  auto const all = m.read(~std::size_t{0});
  CHECK_EQ(all.length(), t.size());
  CHECK(all.view() == t, "mapping differs");
}
}  // namespace

PROP(write_then_read, 4) {
  Cleanup const cleanup;
  auto const path = name();
  auto t = std::string{};
  if (c.chance(1, 3)) {  // an older, longer file is replaced
    utl::file f{path.c_str(), "w+"};
    auto const old = content(c);
    f.write(old.data(), old.size());
    c.label("replaces a file");
  }
  {
    utl::file f{path.c_str(), "w+"};
    for (auto k = 1 + c.draw(3); k != 0; --k) {
      auto const part = content(c);
      f.write(part.data(), part.size());
      t += part;
      c.note("write ", part.size(), " bytes");
    }
  }
  c.nontrivial(t.size() >= 2);
  c.label_if(t.empty(), "empty file");
  c.label_if(t.size() > 8192, "more than 8192 bytes");
  check_all(path, t);
}

// file objects: write, ask for the size, read as often as you like, move them
PROP(history_on_one_object, 3) {
  struct Cleanup2 {
    ~Cleanup2() { std::remove((name() + "b").c_str()); }
  } const cleanup_b{};
  Cleanup const cleanup;
  struct One {
    utl::file f;
    std::string t;
  };
  auto files = std::vector<One>{};
  files.push_back({utl::file{name().c_str(), "w+"}, ""});
  if (c.chance(1, 3)) files.push_back({utl::file{(name() + "b").c_str(), "w+"}, ""});
  for (auto k = 1 + c.draw(9); k != 0; --k) {
    auto const i = c.below(files.size());
    auto& [f, t] = files[i];
    switch (c.draw(6)) {
      case 0: {
        auto const part = content(c);
        c.note("write ", part.size(), " to ", i);
        (void)f.size();
        std::fseek(f, 0, SEEK_END);  // between reading and writing
        f.write(part.data(), part.size());
        t += part;
        break;
      }
      case 1: c.note("size of ", i); CHECK_EQ(f.size(), t.size()); break;
      case 2: c.note("content_str of ", i); CHECK(f.content_str() == t, "content_str() differs"); break;
      case 3: {  // from the start, in blocks, maybe not to the end
        auto const block = 1 + c.len(c.flip() ? 64 : 9000);
        auto const stop = c.flip() ? ~std::size_t{0} : c.more(400);
        c.note("read ", stop == ~std::size_t{0} ? "all" : str(stop), " of ", i, " in blocks of ", block);
        CHECK_EQ(f.size(), t.size());
        auto b = std::vector<char>(block);
        auto at = std::size_t{0};
        while (at < stop) {
          auto const n = std::fread(b.data(), 1, std::min(block, stop - at), f);
          if (n == 0) break;
          CHECK(at + n <= t.size(), "read more than was written");
          CHECK(std::memcmp(b.data(), t.data() + at, n) == 0, "block at ", at, " differs");
          at += n;
        }
        CHECK_EQ(at, std::min(stop, t.size()), "bytes read in blocks");
        c.label("read in blocks");
        break;
      }
      case 4: {
        c.note("move ", i);
        c.label("moved");
        auto g = std::move(f);
        CHECK_EQ(g.size(), t.size());
        f = std::move(g);
        break;
      }
      case 5: {
        auto const j = c.below(files.size());
        if (i == j) break;
        c.note("exchange ", i, " and ", j);
        c.label("moved");
        auto g = std::move(files[i].f);
        files[i].f = std::move(files[j].f);
        files[j].f = std::move(g);
        std::swap(files[i].t, files[j].t);
        break;
      }
      default: {
        c.note("content of ", i);
        auto const b = f.content();
        CHECK_EQ(b.size(), t.size());
        CHECK(t.empty() || std::memcmp(b.data(), t.data(), t.size()) == 0, "content() differs");
      }
    }
    c.nontrivial(!files[0].t.empty());
  }
}

PROP(missing_files_are_reported, 1) {
  auto const path = c.of({std::string{"no_such_file"}, std::string{"no_such_dir/x"}, std::string{}, name() + "/x"});
  c.note("path = ", quote(path));
  c.nontrivial();
  auto threw = 0;
  try { utl::file f{path.c_str(), "r"}; } catch (std::exception const&) { ++threw; }
  try { utl::mmap_reader m{path.c_str()}; } catch (std::exception const&) { ++threw; }
  if (path != "no_such_file" && path != "") {
    try { utl::file f{path.c_str(), "w+"}; } catch (std::exception const&) { ++threw; }
  } else {
    ++threw;
  }
  CHECK_EQ(threw, 3);
  CHECK(!utl::read_file(path.c_str()).has_value());
  // a directory has no content
  CHECK(!utl::read_file(".").has_value(), "the content of a directory");
}

// reading and writing errors of the operating system are reported
PROP(io_errors_are_reported, 1) {
  c.nontrivial();
  auto const n = 1 + c.draw(20000);
  c.note("write ", n, " bytes to a full device");
  auto const data = std::string(n, 'x');
  if (auto* f = std::fopen("/dev/full", "w"); f != nullptr) {
    std::fclose(f);
    auto threw = false;
    utl::file full{"/dev/full", "w"};
    std::setvbuf(full, nullptr, _IONBF, 0);
    try { full.write(data.data(), data.size()); } catch (std::exception const&) { threw = true; }
    CHECK(threw, "writing to a full device succeeded");
  }
  // only a part fits
  if (auto old = rlimit{}; ::getrlimit(RLIMIT_FSIZE, &old) == 0) {
    Cleanup const cleanup;
    utl::file part{name().c_str(), "w"};
    std::setvbuf(part, nullptr, _IONBF, 0);
    auto const room = c.draw(n);
    c.note("room for ", room, " bytes");
    auto const handler = std::signal(SIGXFSZ, SIG_IGN);
    auto const low = rlimit{.rlim_cur = room, .rlim_max = old.rlim_max};
    auto threw = false;
    if (::setrlimit(RLIMIT_FSIZE, &low) == 0) {
      try { part.write(data.data(), data.size()); } catch (std::exception const&) { threw = true; }
      ::setrlimit(RLIMIT_FSIZE, &old);
      std::signal(SIGXFSZ, handler);
      CHECK_EQ(threw, room < n, "written ", n, " bytes where there is room for ", room);
    }
  }
  // a file object which cannot be read
  Cleanup const cleanup;
  utl::file w{name().c_str(), "w"};
  w.write(data.data(), data.size());
  auto threw = 0;
  try { (void)w.content(); } catch (std::exception const&) { ++threw; }
  try { (void)w.content_str(); } catch (std::exception const&) { ++threw; }
  CHECK_EQ(threw, 2, "content of a file opened for writing only");
}

// A file which has become shorter since its size was asked for: what ftell
// returns is increased. (Implementations which do not use it see no fault.)
namespace { long g_vanished = 0; }
extern "C" long __real_ftell(FILE*);
extern "C" long __wrap_ftell(FILE* f) {
  auto const r = __real_ftell(f);
  return r < 0 ? r : r + g_vanished;
}
PROP(files_that_shrink, 1) {
  auto const data = c.text(c.more(20000), "ab\n");
  Cleanup const cleanup;
  {
    utl::file w{name().c_str(), "w"};
    w.write(data.data(), data.size());
  }
  c.nontrivial();
  utl::file f{name().c_str(), "r"};
  for (auto k = 1 + c.draw(2); k != 0; --k) {
    auto const gone = c.chance(1, 4) ? 0 : c.of({1L, 4096L, static_cast<long>(c.draw(20000U))});
    auto const as_string = c.flip();
    c.note(data.size(), " bytes left, ", gone, " gone");
    auto got = std::string{};
    auto threw = false;
    g_vanished = gone;
    try {
      if (as_string) {
        got = f.content_str();
      } else {
        auto const b = f.content();
        got.assign(reinterpret_cast<char const*>(b.data()), b.size());
      }
    } catch (std::exception const&) {
      threw = true;
    }
    g_vanished = 0;
    if (gone == 0) CHECK(!threw, "refused");
    CHECK(threw || got == data, "something else than the content");
  }
}

// sizes beyond 32 bits; the file consists of a hole, whose content is not read
PROP_HUGE(size_of_large_files, 6) {
  Cleanup const cleanup;
  auto const size = (std::size_t{1} << c.range(31U, 36U)) + c.draw(5000) - 2000;
  c.note("a file of ", size, " bytes");
  { utl::file f{name().c_str(), "w+"}; f.write("x", 1); }
  if (::truncate(name().c_str(), static_cast<off_t>(size)) != 0) return;
  c.nontrivial();
  utl::file f{name().c_str(), "r"};
  CHECK_EQ(f.size(), size);
  CHECK_EQ(f.size(), size);
  auto g = std::move(f);
  CHECK_EQ(g.size(), size);
}
PROP_HUGE(large_contents, 3) {
  Cleanup const cleanup;
  auto const n = (std::size_t{1} << c.range(20U, 25U)) + c.draw(9000) - 4000;
  auto g = c.bulk();
  auto t = std::string(n, '\0');
  for (auto i = std::size_t{0}; i + 8 <= n; i += 8) {
    auto const x = g(~0ULL);
    std::memcpy(t.data() + i, &x, 8);
  }
  c.note("a file of ", n, " bytes");
  c.nontrivial();
  {
    utl::file f{name().c_str(), "w+"};
    auto const half = c.draw(n);
    f.write(t.data(), half);
    f.write(t.data() + half, n - half);
  }
  check_all(name(), t);
}
