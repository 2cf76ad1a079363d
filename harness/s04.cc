// S04: checks, log lines, time stamps and timers.
#include <bits/stdc++.h>

#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>

#include "pbt.h"
#include "utl/logging.h"
#include "utl/set_thread_name.h"
#include "utl/timer.h"
#include "utl/timing.h"
#include "utl/verify.h"

using namespace pbt;

// The clocks of this process: the real ones, set forward by a case.
static std::int64_t clock_offset = 0;  // nanoseconds
extern "C" int clock_gettime(clockid_t const id, timespec* const t) noexcept {
  auto const r = static_cast<int>(::syscall(SYS_clock_gettime, id, t));
  if (clock_offset != 0 && r == 0 && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID) {
    t->tv_sec += clock_offset / 1000000000;
    t->tv_nsec += clock_offset % 1000000000;
    if (t->tv_nsec >= 1000000000) t->tv_nsec -= 1000000000, ++t->tv_sec;
  }
  return r;
}
extern "C" time_t time(time_t* const out) noexcept {
  timespec t{};
  clock_gettime(CLOCK_REALTIME_COARSE, &t);
  if (out != nullptr) *out = t.tv_sec;
  return t.tv_sec;
}
extern "C" int gettimeofday(timeval* const tv, void*) noexcept {
  timespec t{};
  clock_gettime(CLOCK_REALTIME, &t);
  if (tv != nullptr) tv->tv_sec = t.tv_sec, tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}

namespace {
struct Clocks {
  Clocks() { clock_offset = 0; }
  ~Clocks() { clock_offset = 0; }
  void pass(std::int64_t const ns) { clock_offset += ns; }
};
std::int64_t duration(Case& c) {  // up to half a year, in nanoseconds
  auto const unit = c.of<std::int64_t>({0, 1, 1000, 1000000, 1000000000, 60000000000LL, 3600000000000LL, 86400000000000LL});
  return unit * c.range<std::int64_t>(0, unit == 86400000000000LL ? 180 : 2200) + static_cast<std::int64_t>(c.draw(999));
}
struct Capture {
  Capture() : old{std::clog.rdbuf(text.rdbuf())} {}
  ~Capture() { std::clog.rdbuf(old); }
  std::string take() {
    auto s = text.str();
    text.str("");
    return s;
  }
  std::ostringstream text;
  std::streambuf* old;
};

std::string two(long const n, std::size_t const width = 2) {
  auto s = std::to_string(n);
  while (s.size() < width) s = "0" + s;
  return s;
}
// the calendar, counted day by day
bool leap(long const y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
std::string stamp(long const t) {  // t >= 0
  auto days = t / 86400;
  auto const sec = t % 86400;
  auto y = 1970L;
  while (days >= (leap(y) ? 366 : 365)) days -= leap(y++) ? 366 : 365;
  auto const months = std::array<long, 12>{31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  auto m = std::size_t{0};
  while (days >= months[m]) days -= months[m++];
  return two(y, 4) + "-" + two(static_cast<long>(m) + 1) + "-" + two(days + 1) + "T" + two(sec / 3600) + ":" + two(sec / 60 % 60) + ":" + two(sec % 60) + "Z";
}
// s is the time stamp (with `suffix`) of a moment between two times
bool between(std::string_view const s, time_t const a, time_t const b, std::string const& suffix) {
  for (auto t = a; t <= b; ++t) if (s == stamp(t) + suffix) return true;
  return false;
}

// std::time may lag behind by a clock tick: early enough as a lower bound only
time_t now() { return std::chrono::system_clock::to_time_t(std::chrono::system_clock::now()); }

// local time zones must not matter
struct Zone {
  explicit Zone(Case& c) {
    auto const tz = c.of({"UTC0", "EST5EDT", "IST-5:30", "<+12>-12", "CET-1CEST"});
    c.note("TZ=", tz);
    setenv("TZ", tz, 1);
    tzset();
  }
  ~Zone() {
    setenv("TZ", "UTC", 1);
    tzset();
  }
};

std::string word(Case& c) { return c.text(c.more(12), "ab %\\n\"'x\t1"); }

// also with zero bytes inside and line ends
std::string bytes(Case& c) {
  auto s = word(c);
  if (c.chance(1, 5)) s += std::string(1, '\0') + word(c);
  if (c.chance(1, 6)) s += c.of({"\n", "\n\n", "\nx", "\r\n"});
  return s;
}

// a view of a text that goes on behind it
struct Part {
  explicit Part(std::string const& s) : whole{s + "{}{} and more"}, n{s.size()} {}
  operator std::string_view() const { return {whole.data(), n}; }
  std::string whole;
  std::size_t n;
};

struct Own : std::runtime_error {
  Own(std::string const& s, int const k) : std::runtime_error{s}, code{k} {}
  int code;
};

// templates of messages and what they become
struct Message {
  std::string fmt, text;
};
Message message(Case& c, std::vector<std::string> const& args) {
  auto m = Message{};
  for (auto const& a : args) {
    auto const w = word(c);
    m.fmt += w + "{}";
    m.text += w + a;
  }
  if (c.chance(1, 3)) {
    m.fmt += "{{x}}";
    m.text += "{x}";
  }
  auto const w = word(c) + (c.chance(1, 6) ? "\n" : "");
  m.fmt += w;
  m.text += w;
  return m;
}
}  // namespace

PROP(verification, 6) {
  auto const zone = Zone{c};
  auto const ok = c.flip();
  auto const kind = c.draw(7);
  auto const n = c.any_int<std::int64_t>();
  auto const s = bytes(c);
  auto const u = c.any_int<unsigned>();
  auto const args = c.below(4);
  auto strings = std::vector<std::string>{s, std::to_string(n), std::to_string(u)};
  strings.resize(args);
  auto const m = message(c, strings);
  c.note(ok ? "holds: " : "violated: ", "kind ", kind, " ", quote(m.fmt));
  c.nontrivial(!ok);
  c.label(ok ? "holds" : "violated");
  auto evaluated = 0, conditions = 0;
  auto const cond = [&] { ++conditions; return ok; };
  auto const arg = [&](auto x) { ++evaluated; return x; };
  auto const part = Part{m.fmt};
  auto want = m.text;
  auto logged = true;
  auto threw = false;
  auto what = std::string{};
  auto code = 0;
  auto out = Capture{};
  auto const before = std::time(nullptr);
  try {
    switch (kind) {
      case 0:
      case 1:
        switch (args) {
          case 0: if (n % 2 == 0) { utl::verify(cond(), m.fmt); } else { utl::verify(cond(), part); } break;
          case 1: if (n % 2 == 0) { utl::verify(cond(), m.fmt, s); } else { utl::verify(cond(), part, std::string_view{s}); } break;
          case 2: utl::verify(cond(), part, s, n); break;
          default: utl::verify(cond(), m.fmt, s, n, u); break;
        }
        break;
      case 2:
        switch (args) {
          case 0:
          case 1: want = m.text; if (args == 0) { utl_verify(cond(), "{}", arg(m.text)); } else { utl_verify(cond(), m.fmt, arg(s)); } break;
          case 2: utl_verify(cond(), part, arg(s), arg(n)); break;
          default: utl_verify(cond(), m.fmt, arg(s), arg(n), arg(u)); break;
        }
        break;
      case 3:
        logged = false;
        want = s + " is no " + std::to_string(n) + "!";
        utl::verify_silent(cond(), "{} is no {}!", s, n);
        break;
      case 4:
        logged = false;
        want = s;
        utl::verify_ex(cond(), Own{s, 42});
        break;
      case 5: {
        logged = false;
        want = s;
        auto const e = Own{s, 42};
        utl::verify_ex(cond(), e);
        break;
      }
      case 6: {  // a named exception keeps its message
        logged = false;
        want = s;
        auto e = std::invalid_argument{s};
        try {
          utl::verify_ex(cond(), e);
        } catch (std::invalid_argument const& x) {
          CHECK_EQ(std::string{e.what()}, std::string{s.c_str()});
          CHECK(dynamic_cast<Own const*>(&x) == nullptr);
          throw Own{x.what(), 42};
        }
        break;
      }
      default: {  // fail itself: the exception is returned
        ++conditions;
        auto const e = args == 0 ? utl::fail(part) : args == 1 ? utl::fail(m.fmt, s) : args == 2 ? utl::fail(m.fmt, s, n) : utl::fail(m.fmt, s, n, u);
        if (!ok) throw e;
        CHECK_EQ(std::string{e.what()}, std::string{m.text.c_str()});
        out.take();
        break;
      }
    }
  } catch (Own const& e) {
    threw = true;
    what = e.what();
    code = e.code;
  } catch (Fail const&) {
    throw;
  } catch (std::runtime_error const& e) {
    threw = true;
    what = e.what();
  }
  auto const after = now();
  auto const log = out.take();
  CHECK_EQ(threw, !ok, "an exception");
  CHECK_EQ(conditions, 1, "evaluations of the condition");
  if (ok) {
    CHECK_EQ(log, std::string{}, "logged although the condition holds");
    if (kind == 2) CHECK_EQ(evaluated, 0, "arguments evaluated although the condition holds");
    return;
  }
  if (kind == 2) CHECK_EQ(evaluated, static_cast<int>(std::max(args, std::size_t{1})), "evaluations of the arguments");
  CHECK_EQ(what, std::string{want.c_str()}, "the message");  // what() ends at a zero byte
  c.label_if(want.find('\0') != std::string::npos, "zero byte in an argument");
  if (kind >= 4 && kind <= 6) CHECK_EQ(code, 42, "another exception than the given one");
  if (logged) {
    auto const tail = " [VERIFY FAIL] " + want + "\n";
    CHECK(log.size() == 20 + tail.size() && log.ends_with(tail), "log: ", quote(log));
    CHECK(between(std::string_view{log}.substr(0, 20), before, after, ""), "time in ", quote(log), " is not ", stamp(before));
  } else {
    CHECK_EQ(log, std::string{}, "logged");
  }
}

// a condition is whatever converts to bool
namespace {
struct Convertible {
  bool ok;
  operator bool() const { return ok; }
};
template <typename T>
void condition(T const& x, bool const ok, std::string const& name) {
  auto out = Capture{};
  auto const held = [](auto&& f) {
    try {
      f();
      return true;
    } catch (std::exception const&) {
      return false;
    }
  };
  CHECK_EQ(held([&] { utl::verify(x, "a"); }), ok, "verify(", name, ")");
  CHECK_EQ(held([&] { utl::verify(x, "a {}", 1); }), ok, "verify(", name, ", .., 1)");
  CHECK_EQ(held([&] { utl::verify_silent(x, "a"); }), ok, "verify_silent(", name, ")");
  CHECK_EQ(held([&] { utl::verify_ex(x, std::runtime_error{"a"}); }), ok, "verify_ex(", name, ")");
  CHECK_EQ(held([&] { utl_verify(x, "a {}", 1); }), ok, "utl_verify(", name, ")");
  auto const no = false, yes = true;
  CHECK_EQ(held([&] { utl_verify(x || no, "a {}", 1); }), ok, "utl_verify(", name, " || false)");
  CHECK_EQ(held([&] { utl_verify(no || x, "a {}", 1); }), ok, "utl_verify(false || ", name, ")");
  CHECK_EQ(held([&] { utl_verify(x && yes, "a {}", 1); }), ok, "utl_verify(", name, " && true)");
  CHECK_EQ(held([&] { utl_verify(x ? yes : no, "a {}", 1); }), ok, "utl_verify(", name, " ? true : false)");
  CHECK_EQ(held([&] { utl_verify(yes == static_cast<bool>(x), "a {}", 1); }), ok, "utl_verify(true == ", name, ")");
  CHECK_EQ(held([&] { utl_verify(no != static_cast<bool>(x), "a {}", 1); }), ok, "utl_verify(false != ", name, ")");
  CHECK_EQ(out.take().empty(), ok, "a line in the log for ", name);
}
}  // namespace

PROP(conditions, 1) {
  auto const shift = c.draw(63);
  auto const bit = c.chance(1, 6) ? std::uint64_t{0} : std::uint64_t{1} << shift;
  c.nontrivial(shift >= 8 && bit != 0);
  c.note("bit ", shift, " of ", bit);
  c.label_if(bit != 0 && shift >= 32, "a number with only high bits");
  condition(bit, bit != 0, cat(bit));
  condition(static_cast<std::int64_t>(bit), bit != 0, cat("signed ", bit));
  condition(static_cast<unsigned char>(bit >> (shift / 8 * 8)), bit != 0, "a char");
  auto const d = bit == 0 ? 0.0 : std::ldexp(1.0, 20 - static_cast<int>(shift));
  condition(d, bit != 0, cat(d));
  condition(static_cast<float>(-d), bit != 0, cat(-d, "F"));
  condition(reinterpret_cast<void const*>(bit), bit != 0, cat("pointer ", bit));
  condition(Convertible{bit != 0}, bit != 0, "an object");
  auto const v = std::vector<bool>{bit != 0};
  auto out = Capture{};
  auto threw = false;
  try {
    utl::verify(v[0], "a");
  } catch (std::runtime_error const&) {
    threw = true;
  }
  CHECK_EQ(threw, bit == 0, "verify(vector<bool>[0])");
}

PROP(time_stamps, 6) {
  auto const zone = Zone{c};
  auto t = long{};
  switch (c.draw(4)) {
    case 0: t = static_cast<long>(c.draw(7258118399)); break;  // before 2200
    case 1: {  // around the turn of a day in any year
      t = static_cast<long>(c.draw(84005)) * 86400 + c.range(-2L, 2L);
      break;
    }
    case 2: {  // end of February
      auto const y = c.range(1970L, 2199L);
      auto days = 0L;
      for (auto k = 1970L; k != y; ++k) days += leap(k) ? 366 : 365;
      t = (days + 58) * 86400 + static_cast<long>(c.draw(3 * 86400));
      c.label(leap(y) ? "leap year" : "common year");
      break;
    }
    case 3: t = static_cast<long>(c.draw(100000)); break;
    default: t = (1L << 31) + c.range(-100000L, 100000L); break;
  }
  t = std::max(t, 0L);
  c.note("time ", t);
  c.nontrivial();
  auto const s = utl::time(static_cast<time_t>(t));
  CHECK_EQ(s, stamp(t) + "+0000", "time stamp of ", t);
}

PROP(log_lines, 5) {
  auto const zone = Zone{c};
  auto out = Capture{};
  auto clocks = Clocks{};
  if (c.flip()) clocks.pass(static_cast<std::int64_t>(c.draw(100L * 366 * 86400)) * 1000000000);  // some day of the next century
  auto const lines = 1 + c.below(4);
  auto const names = std::array<std::string, 8>{"emrg", "alrt", "crit", "erro", "warn", "note", "info", "debg"};
  c.nontrivial(lines >= 2);
  for (auto i = std::size_t{0}; i != lines; ++i) {
    auto lvl = static_cast<utl::log_level>(c.below(8));
    auto const a = bytes(c);
    auto const n = c.any_int<std::int64_t>();
    auto const before = std::time(nullptr);
    auto line = 0;
    auto text = std::string{};
    switch (c.draw(4)) {
      case 0: uLOG(lvl) << a; line = __LINE__; text = a; break;
      case 1: uLOG(lvl) << a << n << "x"; line = __LINE__; text = a + std::to_string(n) + "x"; break;
      case 2: uLOG(lvl) << n << ' ' << a; line = __LINE__; text = std::to_string(n) + " " + a; break;
      case 3: uLOG(lvl) << true << std::string_view{a}; line = __LINE__; text = "1" + a; break;
      default: {
        using utl::err;
        lvl = err;
        uLOG(err) << std::as_const(a); line = __LINE__; text = a;
        auto const log = out.text.str();
        CHECK(log.starts_with("[erro]["), quote(log));
        break;
      }
    }
    auto const after = now();
    auto log = out.take();
    c.note(quote(log));
    auto const head = std::string_view{log}.substr(0, 7);
    CHECK(head == "[" + names[static_cast<std::size_t>(lvl)] + "][", "level in ", quote(log));
    CHECK(log.size() > 32 && between(std::string_view{log}.substr(7, 25), before, after, "+0000"), "time in ", quote(log));
    CHECK_EQ(log.substr(32), "][s04.cc:" + std::to_string(line) + "] " + text + "\n", "log line");
  }
}

PROP(timers, 1) {
  using clock = std::chrono::steady_clock;
  auto out = Capture{};
  auto const name = word(c);
  auto const kind = c.draw(2);
  auto const work = c.below(20);
  auto clocks = Clocks{};
  auto const prints = c.below(3);
  c.note("kind ", kind, " ", quote(name), ", ", work, " us");
  c.nontrivial();
  auto spin = [&](std::size_t const us) {
    auto const until = clock::now() + std::chrono::microseconds{us};
    while (clock::now() < until) {}
    auto const more = duration(c);
    c.note(more, " ns pass");
    clocks.pass(more);
    c.label_if(more >= 2147483648000, "more than 2^31 microseconds");
  };
  auto expect = [&](std::string const& text, bool const timed, double const low, double const high) {
    auto const log = out.take();
    auto const at = log.find("] [");
    CHECK(log.starts_with("[info][") && at != std::string::npos && log.ends_with("\n"), quote(log));
    CHECK_EQ(std::count(log.begin(), log.end(), '\n'), 1 + std::count(text.begin(), text.end(), '\n'), "lines in ", quote(log));
    CHECK(log.find("][timer.cc:") != std::string::npos, quote(log));
    auto rest = log.substr(at + 2, log.size() - at - 3);
    if (!timed) {
      CHECK_EQ(rest, "[" + name + "] " + text);
      return;
    }
    auto const head = "[" + name + "] " + text + " (";
    CHECK(rest.starts_with(head) && rest.ends_with("ms)"), quote(rest), " but expected ", quote(head), "...ms)");
    auto const num = rest.substr(head.size(), rest.size() - head.size() - 3);
    auto end = std::size_t{0};
    auto const ms = std::stod(num, &end);
    CHECK_EQ(end, num.size(), "the number in ", quote(rest));
    auto const tol = 0.0011 + 1e-5 * high;  // whole microseconds, six digits
    CHECK(ms >= low - tol && ms <= high + tol, ms, " ms, but at least ", low, " and at most ", high, " have passed");
  };
  auto const ms = [](auto const d) { return std::chrono::duration<double, std::milli>(d).count(); };
  auto const t0 = clock::now();
  auto t1 = t0;
  auto const body = [&](auto const& t) {
    t1 = clock::now();
    expect("starting", false, 0, 0);
    for (auto i = std::size_t{0}; i != prints; ++i) {
      auto const msg = word(c);
      spin(work);
      auto const a = clock::now();
      t.print(Part{msg});
      expect(msg, true, ms(a - t1), ms(clock::now() - t0));
    }
    spin(work);
  };
  switch (kind) {
    case 0: {
      auto a = clock::time_point{};
      {
        auto const t = utl::scoped_timer{name};
        body(t);
        CHECK_EQ(out.take(), std::string{});
        a = clock::now();
      }
      expect("finished", true, ms(a - t1), ms(clock::now() - t0));
      break;
    }
    case 1: {
      auto const t = utl::manual_timer{name};
      body(t);
      auto const a = clock::now();
      t.stop_and_print();
      expect("finished", true, ms(a - t1), ms(clock::now() - t0));
      break;
    }
    default: {
      auto const b0 = clock::now();
      UTL_START_TIMING(x);
      auto const b1 = clock::now();
      spin(work * 10);
      auto const c0 = clock::now();
      auto const get_us = UTL_GET_TIMING_US(x);
      auto const get_ms = UTL_GET_TIMING_MS(x);
      UTL_STOP_TIMING(x);
      auto const c1 = clock::now();
      auto const us = UTL_TIMING_US(x);
      auto const whole_ms = UTL_TIMING_MS(x);
      auto const low = ms(c0 - b1) * 1000, high = ms(c1 - b0) * 1000;
      CHECK(static_cast<double>(us) >= low - 1 && static_cast<double>(us) <= high, us, " us, but at least ", low, " and at most ", high);
      CHECK(static_cast<double>(get_us) >= low - 1 && static_cast<double>(get_us) <= high, get_us, " us so far, but at least ", low, " and at most ", high);
      CHECK_EQ(whole_ms, us / 1000, "milliseconds");
      CHECK(get_ms >= get_us / 1000 && get_ms <= us / 1000, get_ms, " ms so far");
      break;
    }
  }
}

PROP(thread_names, 1) {
  auto const name = c.text(c.below(16), "ab c-_0.");
  auto const own = c.flip();
  c.note(quote(name), own ? " set by the thread itself" : " set by another thread");
  c.nontrivial(!name.empty());
  char have[64] = {};
  auto m = std::mutex{};
  auto cv = std::condition_variable{};
  auto named = false;
  auto t = std::thread{[&] {
    if (own) {
      utl::set_current_thread_name(name);
    } else {
      auto lk = std::unique_lock{m};
      cv.wait(lk, [&] { return named; });
    }
    pthread_getname_np(pthread_self(), have, sizeof have);
  }};
  if (!own) {
    utl::set_thread_name(t, name);
    auto const lk = std::lock_guard{m};
    named = true;
    cv.notify_one();
  }
  t.join();
  CHECK_EQ(std::string{have}, name, "the thread's name");
}
