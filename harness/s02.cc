// S02: buffers, files and mappings are released exactly once.
#include <bits/stdc++.h>

#include <fcntl.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>

#include "pbt.h"
#include "utl/parser/buffer.h"
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"
#ifdef PBT_ASAN
#include <sanitizer/allocator_interface.h>
#endif

using namespace pbt;

namespace {
long heap() {
#ifdef PBT_ASAN
  return static_cast<long>(__sanitizer_get_current_allocated_bytes());
#else
  return 0;
#endif
}
// memory taken less memory given back by the operations of one history
struct Account {
  template <typename F>
  void operator()(F&& op) {
    auto const before = heap();
    op();
    balance += heap() - before;
  }
  long balance = 0;
};

std::bitset<64> open_fds() {
  auto r = std::bitset<64>{};
  for (auto i = 0; i != 64; ++i) r[static_cast<std::size_t>(i)] = fcntl(i, F_GETFD) != -1;
  return r;
}

// clog of refused allocations is not wanted
struct Quiet {
  struct Null : std::streambuf {
    int overflow(int const ch) override { return ch; }
    std::streamsize xsputn(char const*, std::streamsize const n) override { return n; }
  };
  Quiet() : old{std::clog.rdbuf(&null)} {}
  ~Quiet() { std::clog.rdbuf(old); }
  Null null;
  std::streambuf* old;
};

// what the library and libc allocate once per process is not counted
bool const warm = [] {
  process_init() = [] {
    auto const quiet = Quiet{};
    for (auto i = 0; i != 2; ++i) {
      try {
        utl::file{"s02 missing", "r"};
      } catch (std::exception const&) {
      }
      try {
        auto const m = utl::mmap_reader{"s02 missing"};
      } catch (std::exception const&) {
      }
    }
  };
  return true;
}();

std::string path(int const k) { return "s02_" + std::to_string(getpid()) + "_" + std::to_string(k); }
}  // namespace

PROP(buffers, 6) {
  auto const quiet = Quiet{};
  auto account = Account{};
  auto ops = 0, moves = 0;
  {
    auto slots = std::array<std::optional<utl::buffer>, 4>{};
    auto model = std::array<std::optional<std::string>, 4>{};  // none: not to be looked at
    auto const n = 3 + c.more(40);
    for (auto i = std::size_t{0}; i != n; ++i) {
      auto const a = c.below(4), b = c.below(4);
      auto const len = c.chance(1, 6) ? c.below(70000) : c.below(40);
      // new bytes have unknown values: write them
      auto const write = [&](std::size_t const from) {
        for (auto k = from; k != slots[a]->size(); ++k) {
          auto const ch = static_cast<char>('a' + (k + i) % 26);
          slots[a]->data()[k] = static_cast<unsigned char>(ch);
          (*model[a])[k] = ch;
        }
      };
      auto const op = c.draw(9);
      ++ops;
      switch (op) {
        case 0:
          if (slots[a]) break;
          c.note("b", a, " = buffer(", len, ")");
          account([&] { slots[a].emplace(len); });
          model[a] = std::string(len, '\0');
          CHECK_EQ(slots[a]->size(), len);
          write(0);
          break;
        case 1: {
          if (slots[a]) break;
          auto const s = c.raw(len % 50);
          c.note("b", a, " = buffer(", quote(s), ", ", s.size(), ")");
          auto const e = Exact{s};
          account([&] { slots[a].emplace(e.data(), e.size()); });
          model[a] = s;
          break;
        }
        case 2: {
          if (slots[a]) break;
          auto const s = c.text(len % 50, "abc\n\r ");
          c.note("b", a, " = buffer(", quote(s), ")");
          account([&] { slots[a].emplace(s.c_str()); });
          model[a] = s;
          break;
        }
        case 3:
          if (slots[a]) break;
          c.note("b", a, " = buffer()");
          account([&] { slots[a].emplace(); });
          model[a] = "";
          break;
        case 4:
          if (slots[a] || !slots[b]) break;
          c.note("b", a, " constructed from b", b);
          account([&] { slots[a].emplace(std::move(*slots[b])); });
          model[a] = model[b];
          model[b] = "";  // moved from: empty
          ++moves;
          break;
        case 5:
          if (!slots[a] || !slots[b]) break;
          c.note("b", a, " = move(b", b, ")");
          account([&] { *slots[a] = std::move(*slots[b]); });
          if (a != b) {
            model[a] = model[b];
            model[b] = std::nullopt;
          } else {
            c.label("self-assignment");
          }
          ++moves;
          break;
        case 6:
        case 7: {
          if (!slots[a]) break;
          auto const old = slots[a]->size();
          if (!model[a]) model[a] = std::string(slots[a]->begin(), slots[a]->end());
          c.note("b", a, ".resize(", len, ")");
          account([&] { slots[a]->resize(len); });
          CHECK_EQ(slots[a]->size(), len);
          model[a]->resize(len);
          c.label_if(len == 0 && old != 0, "shrunk to nothing");
          c.label_if(len > old, "grown");
          if (len > old) write(old);
          break;
        }
        case 8:
#ifndef PBT_ASAN
        {  // no memory: the buffer stays as it was
          auto const huge = (std::size_t{1} << (60 + c.draw(3))) - c.draw(1);
          auto refused = false;
          if (slots[a] && model[a]) {
            c.note("b", a, ".resize(", huge, ")");
            try {
              slots[a]->resize(huge);
            } catch (std::bad_alloc const&) {
              refused = true;
            }
          } else {
            c.note("buffer(", huge, ")");
            try {
              auto const x = utl::buffer(huge);
            } catch (std::runtime_error const&) {
              refused = true;
            }
          }
          CHECK(refused, "an impossible allocation succeeded");
          c.label("allocation fails");
          break;
        }
#endif
        default:
          if (!slots[a]) break;
          c.note("~b", a);
          account([&] { slots[a].reset(); });
          model[a] = std::nullopt;
          break;
      }
      for (auto k = std::size_t{0}; k != 4; ++k) {
        if (!slots[k]) continue;
        auto& x = *slots[k];
        if (!model[k]) {  // assigned from: any content, but all of it its own
          std::fill(x.begin(), x.end(), static_cast<unsigned char>(k));
          continue;
        }
        CHECK_EQ(x.size(), model[k]->size(), "size of b", k);
        CHECK_EQ(static_cast<std::size_t>(x.end() - x.begin()), model[k]->size(), "range of b", k);
        CHECK(x.begin() == x.data() && x.data() == std::as_const(x).data());
        CHECK(model[k]->empty() || std::memcmp(x.data(), model[k]->data(), model[k]->size()) == 0, "content of b", k);
      }
    }
    account([&] { for (auto& s : slots) s.reset(); });
  }
  CHECK_EQ(account.balance, 0L, "bytes of memory not given back");
  c.nontrivial(ops >= 2 && moves >= 1);
}

// mapped files and file objects
// a process whose standard input is closed: files get descriptor 0
struct NoStdin {
  explicit NoStdin(bool const on) : saved{on ? fcntl(0, F_DUPFD_CLOEXEC, 40) : -1} {
    if (saved != -1) close(0);
  }
  ~NoStdin() {
    if (saved == -1) return;
    dup2(saved, 0);
    close(saved);
  }
  NoStdin(NoStdin const&) = delete;
  int saved;
};

PROP(files, 4) {
  auto const quiet = Quiet{};
  auto const no_stdin = NoStdin{c.chance(1, 5)};
  if (no_stdin.saved != -1) c.note("standard input is closed");
  c.label_if(no_stdin.saved != -1, "standard input is closed");
  auto const sizes = std::array<std::size_t, 3>{c.of({std::size_t{0}, std::size_t{1}, std::size_t{5}}), c.below(200), 4095 + c.below(5000)};
  auto content = std::array<std::string, 3>{};
  struct Cleanup {
    ~Cleanup() {
      for (auto i = 0; i != 5; ++i) std::remove(path(i).c_str());
      rmdir(path(3).c_str());
    }
  } const cleanup;
  for (auto i = 0; i != 3; ++i) {
    auto& s = content[static_cast<std::size_t>(i)];
    auto const unit = c.text(1 + c.below(9), "ab\n");
    while (s.size() < sizes[static_cast<std::size_t>(i)]) s += unit;
    s.resize(sizes[static_cast<std::size_t>(i)]);
    std::ofstream{path(i), std::ios::binary} << s;
  }
  mkdir(path(3).c_str(), 0755);
  auto const before = open_fds();
  auto const maps = [] {
    auto f = std::ifstream{"/proc/self/maps"};
    auto n = 0;
    auto const key = "s02_" + std::to_string(getpid()) + "_";
    for (auto l = std::string{}; std::getline(f, l);) n += l.find(key) != std::string::npos ? 1 : 0;
    return n;
  };
  auto sentinels = std::vector<int>{};
  struct Close {
    ~Close() { for (auto const fd : *v) close(fd); }
    std::vector<int>* v;
  } const close_sentinels{&sentinels};
  auto account = Account{};
  auto moves = 0, opened = 0;
  {
    struct Read {
      std::size_t file, at;
      bool usable;
    };
    auto mm = std::array<std::optional<utl::mmap_reader>, 3>{};
    auto mm_model = std::array<Read, 3>{};
    auto ff = std::array<std::optional<utl::file>, 3>{};
    auto ff_model = std::array<Read, 3>{};
    auto const n = 3 + c.more(40);
    for (auto i = std::size_t{0}; i != n; ++i) {
      auto const a = c.below(3), b = c.below(3), k = c.below(3);
      switch (c.draw(11)) {
        case 0:
          if (mm[a]) break;
          c.note("m", a, " = mmap_reader(file of ", sizes[k], " bytes)");
          account([&] { mm[a].emplace(path(static_cast<int>(k)).c_str()); });
          mm_model[a] = {k, 0, true};
          ++opened;
          break;
        case 1: {
          if (mm[a]) break;
          auto const dir = c.flip();
          c.note("mmap_reader(", dir ? "directory)" : "missing file)");
          c.label(dir ? "a directory is not mapped" : "missing file");
          auto refused = false;
          account([&] {
            try {
              mm[a].emplace(path(dir ? 3 : 4).c_str());
            } catch (std::runtime_error const&) {
              refused = true;
            }
          });
          CHECK(refused, "mapped a directory or a missing file");
          break;
        }
        case 2:
          if (mm[a] || !mm[b] || !mm_model[b].usable) break;
          c.note("m", a, " constructed from m", b);
          account([&] { mm[a].emplace(std::move(*mm[b])); });
          mm_model[a] = mm_model[b];
          mm_model[b].usable = false;
          ++moves;
          break;
        case 3:
          if (!mm[a] || !mm[b] || a == b || !mm_model[b].usable) break;
          c.note("m", a, " = move(m", b, ")");
          account([&] { *mm[a] = std::move(*mm[b]); });
          mm_model[a] = mm_model[b];
          mm_model[b].usable = false;
          ++moves;
          break;
        case 4:
        case 5:
          if (!mm[a] || !mm_model[a].usable) break;
          {
            auto const want = std::string_view{content[mm_model[a].file]}.substr(mm_model[a].at);
            auto const len = c.below(100);
            auto const r = mm[a]->read(len);
            CHECK(r.view() == want.substr(0, len), "m", a, " read ", quote(r.view()), " at ", mm_model[a].at);
            mm_model[a].at += std::min(len, want.size());
          }
          break;
        case 6:
          if (!mm[a]) break;
          c.note("~m", a);
          account([&] { mm[a].reset(); });
          break;
        case 7:
          if (ff[a]) break;
          c.note("f", a, " = file(file of ", sizes[k], " bytes)");
          account([&] { ff[a].emplace(path(static_cast<int>(k)).c_str(), "r"); });
          ff_model[a] = {k, 0, true};
          ++opened;
          break;
        case 8:
          if (ff[a]) break;
          {
            c.note("file(missing file)");
            auto refused = false;
            account([&] {
              try {
                ff[a].emplace(path(4).c_str(), "r");
              } catch (std::runtime_error const&) {
                refused = true;
              }
            });
            CHECK(refused, "opened a missing file");
          }
          break;
        case 9:
          if (!ff[b] || !ff_model[b].usable || a == b) break;
          c.note("f", a, " takes f", b);
          account([&] {
            if (ff[a]) {
              *ff[a] = std::move(*ff[b]);
            } else {
              ff[a].emplace(std::move(*ff[b]));
            }
          });
          ff_model[a] = ff_model[b];
          ff_model[b].usable = false;
          ++moves;
          break;
        case 10:
          if (!ff[a]) break;
          c.note("~f", a);
          account([&] { ff[a].reset(); });
          break;
        default:
          // takes the lowest free descriptor: closing one twice would close this
          if (sentinels.size() < 6) sentinels.push_back(open("/dev/null", O_RDONLY | O_CLOEXEC));
          break;
      }
      for (auto x = std::size_t{0}; x != 3; ++x) {
        if (!ff[x] || !ff_model[x].usable) continue;
        account([&] {  // reading lets the file allocate its buffer
          auto const s = ff[x]->content_str();
          CHECK(s == content[ff_model[x].file], "content of f", x);
        });
      }
    }
    account([&] {
      for (auto& x : mm) x.reset();
      for (auto& x : ff) x.reset();
    });
  }
  auto after = open_fds();
  for (auto const fd : sentinels) {
    struct stat st;
    CHECK(fstat(fd, &st) == 0 && S_ISCHR(st.st_mode) && major(st.st_rdev) == 1 && minor(st.st_rdev) == 3, "a descriptor was closed twice");
    after[static_cast<std::size_t>(fd)] = false;
  }
  CHECK_EQ(after.count(), before.count(), "open descriptors");
  CHECK(after == before, "other descriptors are open than before");
  CHECK_EQ(maps(), 0, "mappings left behind");
  CHECK_EQ(account.balance, 0L, "bytes of memory not given back");
  c.nontrivial(opened >= 2 && moves >= 1);
}
