// Engine: see pbt.h.
#include "pbt.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <unordered_set>

extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv,
                                   int (*cb)(const std::uint8_t*, std::size_t))
    __attribute__((weak));

namespace fs = std::filesystem;
using namespace pbt;

namespace {

// one of the cases a worker ran last
struct Past {
  std::uint32_t prop, len;  // len > cap: not kept
  std::uint64_t v[2048];
};
constexpr auto kPast = 48U;

struct Slot {  // one per worker, shared with the parent
  std::atomic<std::uint64_t> case_no{0};  // cases started
  std::atomic<std::uint64_t> nontrivial{0};
  std::uint32_t prop{0};
  std::atomic<std::uint32_t> has_msg{0};
  std::atomic<std::uint32_t> stopped_early{0};
  char msg[8192]{};
  std::uint32_t n_past{0};
  Past past[kPast];
  Tape tape{};

  void keep() {
    auto& p = past[n_past % kPast];
    p.prop = prop;
    p.len = tape.len;
    if (p.len <= std::size(p.v)) std::memcpy(p.v, tape.v, p.len * sizeof(p.v[0]));
    ++n_past;
  }
};

// cases run one after the other in one process; almost always a single one
struct Step {
  std::uint32_t prop;
  std::vector<std::uint64_t> tape;
};
using Steps = std::vector<Step>;

struct Options {
  std::uint64_t seed = 1;
  std::uint64_t cases = 1000;
  std::uint64_t fuzz_runs = 0;  // per worker
  unsigned workers = 8;
  double max_seconds = 600;
  double hang_cpu_s = 20;    // cpu seconds on one case: endless loop
  double hang_wall_s = 100;  // wall seconds on one case: blocked forever
  unsigned shrink_s = 60;
  std::string out = ".";
  bool quick = true;
} opt;

std::uint64_t splitmix(std::uint64_t& x) {
  auto z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}
double cpu_of(pid_t const p) {
  clockid_t id;
  timespec t;
  if (clock_getcpuclockid(p, &id) != 0 || clock_gettime(id, &t) != 0) return 0;
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

// sleeps without using any cpu time for 12 seconds: blocked forever
struct Idle {
  bool stuck(pid_t const p) {
    auto const now = now_s();
    auto const c = cpu_of(p);
    auto const gap = now - last;
    last = now;
    auto state = 'R';
    if (c == cpu && gap < 2.0) {
      auto f = std::ifstream{"/proc/" + std::to_string(p) + "/stat"};
      auto line = std::string{};
      std::getline(f, line);
      if (auto const at = line.rfind(") "); at != std::string::npos) state = line[at + 2];
    }
    if (c != cpu || state != 'S' || gap >= 2.0) {
      cpu = c;
      since = now;
    }
    return now - since > 12.0;
  }
  double cpu = -1, since = 0, last = 0;
};

// resident memory of a child in MB
double rss_mb(pid_t const p) {
  auto f = std::ifstream{"/proc/" + std::to_string(p) + "/statm"};
  auto a = 0.0, b = 0.0;
  f >> a >> b;
  return b * static_cast<double>(sysconf(_SC_PAGESIZE)) / 1e6;
}
constexpr auto kMaxRss = 2500.0;

std::string json(std::string_view const s) {
  auto r = std::string{"\""};
  for (auto const c : s) {
    auto const u = static_cast<unsigned char>(c);
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (u < 0x20 || u >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", u); r += b; }
    else r += c;
  }
  return r + "\"";
}

template <typename T>
T* shared(std::size_t const n = 1) {
  auto* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return new (p) T[n];
}

void set_msg(Slot& s, std::string const& m) {
  auto const n = std::min(m.size(), sizeof(s.msg) - 1);
  std::memcpy(s.msg, m.data(), n);
  s.msg[n] = 0;
  s.has_msg = 1;
}

// runs one case; returns false if the property failed
bool run_case(Case& c, Slot& s, std::uint32_t const prop) {
  s.prop = prop;
  s.tape.len = 0;
  c.tape = &s.tape;
  c.quick = opt.quick;
  try {
    props()[prop].fn(c);
    return true;
  } catch (Fail const& f) {
    set_msg(s, f.msg);
  } catch (std::exception const& e) {
    set_msg(s, std::string{"unexpected exception: "} + e.what());
  } catch (...) {
    set_msg(s, "unexpected exception of unknown type");
  }
  return false;
}

std::uint64_t hash_tape(Slot const& s) {
  auto h = 0xcbf29ce484222325ULL ^ s.prop;
  for (auto i = 0U; i != s.tape.len; ++i) {
    h = (h ^ s.tape.v[i]) * 0x100000001b3ULL;
    h ^= h >> 29;
  }
  return h;
}

struct Stats {
  std::map<std::string, std::uint64_t> labels;  // of non-trivial and trivial cases
  std::unordered_set<std::uint64_t> hashes;
  std::vector<std::string> samples;
  std::map<std::uint32_t, unsigned> sampled;
  std::map<std::uint32_t, std::uint64_t> per_prop;

  void account(Case const& c, Slot& s) {
    ++per_prop[s.prop];
    auto seen = c.labels;  // every class counts once per case
    std::sort(seen.begin(), seen.end());
    seen.erase(std::unique(seen.begin(), seen.end()), seen.end());
    for (auto const* l : seen) ++labels[l];
    if (!c.nontrivial_) return;
    ++s.nontrivial;
    if (hashes.size() < 3'000'000U) hashes.insert(hash_tape(s));
    if (sampled[s.prop] < 2 && s.tape.len >= 4 && s.tape.len <= 400) {
      ++sampled[s.prop];
      auto const t = std::vector<std::uint64_t>(s.tape.v, s.tape.v + s.tape.len);
      auto const prop = s.prop;
      Case v;
      v.mode = Case::Mode::kTape;
      v.in = t.data();
      v.in_len = t.size();
      v.verbose = true;
      run_case(v, s, prop);
      auto d = std::string{props()[prop].name} + ": " + v.desc;
      if (d.size() > 1500) { d.resize(1500); d += "..."; }
      samples.push_back(d);
    }
  }

  void write(std::string const& base) const {
    auto f = std::ofstream{base + ".stats"};
    for (auto const& [l, n] : labels) f << "label " << n << " " << l << "\n";
    for (auto const& [p, n] : per_prop) f << "prop " << n << " " << props()[p].name << "\n";
    for (auto const& s : samples) f << "sample " << json(s) << "\n";
    auto h = std::ofstream{base + ".hash", std::ios::binary};
    for (auto const x : hashes) h.write(reinterpret_cast<char const*>(&x), 8);
  }
};

std::uint32_t pick_prop(std::uint64_t ticket) {
  auto total = std::uint64_t{0};
  for (auto const& p : props()) total += p.weight;
  ticket %= total;
  for (auto i = 0U; i != props().size(); ++i) {
    if (ticket < props()[i].weight) return i;
    ticket -= props()[i].weight;
  }
  return 0;
}

void seed_case(Case& c, std::uint64_t const seed, std::uint64_t const i) {
  auto x = std::uint64_t{seed * 0x2545f4914f6cdd1dULL + i * 0x9e3779b97f4a7c15ULL + 0x1234567ULL};
  for (auto& r : c.rng) r = splitmix(x);
}

[[noreturn]] void worker(unsigned const w, Slot& s) {
  if (process_init()) process_init()();
  auto const start = now_s();
  auto st = Stats{};
  auto const base = opt.out + "/w" + std::to_string(w);
  auto few = std::uint64_t{0};
  for (auto p = 0U; p != props().size(); ++p) {
    for (auto k = props()[p].few * (opt.quick ? 1U : 10U); k != 0 && opt.cases != 0; --k, ++few) {
      if (few % opt.workers != w) continue;
      s.case_no.fetch_add(1);
      Case c;
      seed_case(c, opt.seed ^ 0xfe3ULL, few);
      if (!run_case(c, s, p)) {
        st.write(base);
        _exit(3);
      }
      s.keep();
      st.account(c, s);
    }
  }
  for (auto i = std::uint64_t{w}; i < opt.cases; i += opt.workers) {
    s.case_no.fetch_add(1);
    Case c;
    seed_case(c, opt.seed, i);
    if (!run_case(c, s, pick_prop(i / opt.workers + w))) {
      st.write(base);
      _exit(3);
    }
    s.keep();
    st.account(c, s);
    if (now_s() - start > opt.max_seconds) {
      s.stopped_early = 1;
      break;
    }
  }
  st.write(base);
  std::fflush(nullptr);
  _exit(0);
}

// ---- coverage-guided search over the same tapes
Slot* fuzz_slot = nullptr;
Stats* fuzz_stats = nullptr;
double fuzz_start = 0;
std::string fuzz_base;
int fuzz_one(std::uint8_t const* data, std::size_t const size) {
  if (size == 0) return 0;
  auto& s = *fuzz_slot;
  if (now_s() - fuzz_start > opt.max_seconds) {
    s.stopped_early = 1;
    fuzz_stats->write(fuzz_base);
    _exit(0);
  }
  s.case_no.fetch_add(1);
  Case c;
  c.mode = Case::Mode::kBytes;
  c.bytes = data + 1;
  c.bytes_len = size - 1;
  if (!run_case(c, s, pick_prop(data[0]))) {
    fuzz_stats->write(fuzz_base);
    _exit(3);
  }
  s.keep();
  fuzz_stats->account(c, s);
  return 0;
}


[[noreturn]] void fuzz_worker(unsigned const w, Slot& s) {
  if (process_init()) process_init()();
  fuzz_slot = &s;
  fuzz_base = opt.out + "/f" + std::to_string(w);
  fuzz_stats = new Stats{};
  fuzz_start = now_s();
  auto const corpus = opt.out + "/corpus" + std::to_string(w);
  fs::remove_all(corpus);
  fs::create_directories(corpus);
  // a structured starting corpus: random byte strings of a few lengths
  auto x = std::uint64_t{opt.seed * 77 + w};
  for (auto i = 0U; i != 40U; ++i) {
    auto const n = 8U << (i % 6U);
    auto f = std::ofstream{corpus + "/s" + std::to_string(i), std::ios::binary};
    for (auto k = 0U; k != n; ++k) f.put(static_cast<char>(splitmix(x)));
  }
  auto args = std::vector<std::string>{
      "fuzz", "-runs=" + std::to_string(opt.fuzz_runs),
      "-seed=" + std::to_string((opt.seed * 131 + w) % 2000000000ULL + 1), "-max_len=512",
      "-len_control=0", "-rss_limit_mb=0", "-timeout=1000000", "-detect_leaks=0",
      "-verbosity=0", "-print_final_stats=0", "-handle_segv=0", "-handle_abrt=0",
      "-handle_bus=0", "-handle_fpe=0", "-handle_ill=0",
      "-artifact_prefix=" + opt.out + "/", corpus};
  auto argv = std::vector<char*>{};
  for (auto& a : args) argv.push_back(a.data());
  argv.push_back(nullptr);
  auto argc = static_cast<int>(args.size());
  auto** av = argv.data();
  atexit([] {
    fuzz_stats->write(fuzz_base);
    std::fflush(nullptr);
    _exit(0);
  });
  LLVMFuzzerRunDriver(&argc, &av, fuzz_one);
  fuzz_stats->write(fuzz_base);
  _exit(0);
}

// ---- running tapes in a process of their own
enum class Outcome { kPass, kFail, kCrash, kHang };

struct Candidate {
  Outcome o;
  std::string msg;
};

Slot* scratch = nullptr;

Candidate run_tape(Steps const& steps, double const cpu_limit, double const wall_limit,
                   bool const verbose = false, std::string const& err_file = "/dev/null",
                   std::string const& desc_file = "") {
  auto& s = *scratch;
  s.has_msg = 0;
  s.tape.len = 0;
  std::fflush(nullptr);
  auto const pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) {
    auto const fd = open(err_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    if (process_init()) process_init()();
    auto const desc = desc_file.empty() ? -1 : open(desc_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    for (auto const& [prop, t] : steps) {
      Case c;
      c.mode = Case::Mode::kTape;
      c.in = t.data();
      c.in_len = t.size();
      c.verbose = verbose;
      c.desc_fd = desc;
      if (desc != -1 && steps.size() > 1) c.note("--- ", props()[prop].name);
      if (!run_case(c, s, prop)) _exit(3);
    }
    _exit(0);
  }
  auto const start = now_s();
  auto idle = Idle{};
  auto delay = 100U;
  while (true) {
    int st;
    if (waitpid(pid, &st, WNOHANG) == pid) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return {Outcome::kPass, ""};
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return {Outcome::kFail, s.msg};
      auto const why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                       : "exit code " + std::to_string(WEXITSTATUS(st));
      return {Outcome::kCrash, "the process died (" + why + "; sanitizer report or crash)"};
    }
    if (cpu_of(pid) > cpu_limit || now_s() - start > wall_limit || (delay >= 5000U && idle.stuck(pid))) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return {Outcome::kHang, "the case did not terminate"};
    }
    if (rss_mb(pid) > kMaxRss) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return {Outcome::kCrash, "the case used more than 2.5 GB of memory"};
    }
    usleep(delay);
    delay = std::min(delay + delay / 4, 5000U);
  }
}

// shrinks the tape of one step
void shrink(Steps& steps, std::size_t const at, Candidate& best_c, double const deadline) {
  auto best = steps[at].tape;
  auto const hang = best_c.o == Outcome::kHang;
  auto const cpu = hang ? 3.0 : 10.0;
  auto const wall = hang ? 10.0 : 30.0;
  auto tries = 0U;
  auto const attempt = [&](std::vector<std::uint64_t> const& t) {
    if (t == best || now_s() > deadline || ++tries > 4000U) return false;
    auto cand = steps;
    cand[at].tape = t;
    auto const r = run_tape(cand, cpu, wall);
    // a passing candidate or a different kind of failure is not accepted
    if (r.o == Outcome::kPass || (r.o == Outcome::kHang) != hang) return false;
    auto n = std::vector<std::uint64_t>(
        scratch->tape.v, scratch->tape.v + scratch->tape.len);
    best = steps.size() == 1 && !hang && n.size() <= t.size() ? n : t;
    steps[at].tape = best;
    best_c = r;
    return true;
  };
  auto improved = true;
  while (improved && now_s() < deadline && tries < 4000U) {
    improved = false;
    // delete chunks
    for (auto k = std::max<std::size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
      for (auto i = std::size_t{0}; i < best.size();) {
        auto t = best;
        auto const e = std::min(i + k, t.size());
        t.erase(t.begin() + static_cast<std::ptrdiff_t>(i), t.begin() + static_cast<std::ptrdiff_t>(e));
        if (attempt(t)) improved = true;
        else i += k;
        if (now_s() > deadline || tries > 4000U) break;
      }
      if (k == 1) break;
    }
    // delete an element and lower an earlier count by one
    for (auto i = std::size_t{0}; i < best.size() && best.size() < 400; ++i) {
      if (best[i] == 0 || best[i] > 64) continue;
      for (auto k = std::size_t{1}; k <= 3; ++k) {
        for (auto j = i + 1; j + k <= best.size() && j < i + 40; ++j) {
          auto t = best;
          --t[i];
          t.erase(t.begin() + static_cast<std::ptrdiff_t>(j), t.begin() + static_cast<std::ptrdiff_t>(j + k));
          if (attempt(t)) { improved = true; break; }
          if (best.size() <= i || best[i] == 0) break;
        }
        if (best.size() <= i || best[i] == 0) break;
      }
    }
    // lower single values
    for (auto i = std::size_t{0}; i < best.size(); ++i) {
      if (best[i] == 0) continue;
      auto t = best;
      t[i] = 0;
      if (attempt(t)) { improved = true; continue; }
      auto lo = std::uint64_t{0};
      while (i < best.size() && best[i] - lo > 1) {
        t = best;
        t[i] = lo + (best[i] - lo) / 2;
        auto const cand = t[i];
        if (attempt(t)) improved = true;
        else lo = cand;
        if (now_s() > deadline || tries > 4000U) break;
      }
    }
  }
}

// drops steps that are not needed, then shrinks the others
void shrink(Steps& steps, Candidate& best_c) {
  auto const deadline = now_s() + opt.shrink_s;
  for (auto k = steps.size() / 2; k >= 1; k /= 2) {
    for (auto i = std::size_t{0}; i + k < steps.size() && now_s() < deadline;) {
      auto t = steps;
      t.erase(t.begin() + static_cast<std::ptrdiff_t>(i), t.begin() + static_cast<std::ptrdiff_t>(i + k));
      if (auto const r = run_tape(t, 10.0, 30.0); r.o != Outcome::kPass && (r.o == Outcome::kHang) == (best_c.o == Outcome::kHang)) {
        steps = t;
        best_c = r;
      } else {
        i += k;
      }
    }
  }
  for (auto i = steps.size(); i != 0; --i) shrink(steps, i - 1, best_c, deadline);
}

std::string slurp(std::string const& p) {
  auto f = std::ifstream{p, std::ios::binary};
  auto ss = std::stringstream{};
  ss << f.rdbuf();
  return ss.str();
}

struct Violation {
  bool found = false;
  std::string prop, msg, desc, report, engine;
  Steps steps;
  std::size_t original_len = 0;
  unsigned reproduced = 0, replays = 0;
};

// confirm, shrink and describe a failing tape
bool examine(Violation& v, Steps steps, std::string const& msg, bool const hang) {
  v.prop = props()[steps.back().prop].name;
  v.original_len = 0;
  for (auto const& s : steps) v.original_len += s.tape.size();
  auto const cpu = hang ? opt.hang_cpu_s : 60.0;
  auto const wall = opt.hang_wall_s;
  auto cand = run_tape(steps, cpu, wall);
  auto reproduced = cand.o != Outcome::kPass;
  auto fails = reproduced ? 1U : 0U;
  if (!reproduced) {
    auto const until = now_s() + 60;
    for (auto i = 0U; i != 19U && now_s() < until; ++i) {
      if (auto r = run_tape(steps, cpu, wall); r.o != Outcome::kPass) { ++fails; cand = r; }
    }
    if (fails < 2U) {
      v.msg = msg;
      return false;
    }
  }
  auto best = steps;
  auto best_c = cand;
  if (reproduced) shrink(best, best_c);
  // three replays of the minimal case; fall back to the original one
  auto const confirm = [&](Steps const& t) {
    auto n = 0U;
    for (auto i = 0U; i != 3U; ++i)
      n += run_tape(t, best_c.o == Outcome::kHang ? opt.hang_cpu_s : 60.0, wall).o != Outcome::kPass ? 1U : 0U;
    return n;
  };
  v.reproduced = confirm(best);
  v.replays = 3;
  if (v.reproduced != 3U && reproduced) {
    best = steps;
    v.reproduced = confirm(best);
  }
  v.found = true;
  v.steps = best;
  auto const err = opt.out + "/report.txt";
  auto const dsc = opt.out + "/desc.txt";
  std::ofstream{dsc} << "";
  auto const last = run_tape(best, cpu, wall, true, err, dsc);
  v.msg = last.o == Outcome::kPass ? best_c.msg : last.msg;
  v.report = slurp(err).substr(0, 6000);
  v.desc = slurp(dsc);
  return true;
}

}  // namespace

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  auto replay_file = std::string{};
  for (auto i = 1; i < argc; ++i) {
    auto const a = std::string_view{argv[i]};
    auto const val = [&] { return std::string{i + 1 < argc ? argv[++i] : ""}; };
    if (a == "--seed") opt.seed = std::stoull(val());
    else if (a == "--cases") opt.cases = std::stoull(val());
    else if (a == "--fuzz") opt.fuzz_runs = std::stoull(val());
    else if (a == "--workers") opt.workers = static_cast<unsigned>(std::stoul(val()));
    else if (a == "--max-seconds") opt.max_seconds = std::stod(val());
    else if (a == "--hang-cpu") opt.hang_cpu_s = std::stod(val());
    else if (a == "--hang-wall") opt.hang_wall_s = std::stod(val());
    else if (a == "--shrink") opt.shrink_s = static_cast<unsigned>(std::stoul(val()));
    else if (a == "--out") opt.out = val();
    else if (a == "--thorough") opt.quick = false;
    else if (a == "--replay") replay_file = val();
    else { std::fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
  }
  scratch = shared<Slot>();

  if (!replay_file.empty()) {
    auto f = std::ifstream{replay_file};
    auto line = std::string{};
    auto steps = Steps{};
    while (std::getline(f, line)) {
      auto ss = std::istringstream{line};
      auto k = std::string{};
      ss >> k;
      if (k == "sub") {
        auto n = std::string{};
        ss >> n;
        for (auto i = 0U; i != props().size(); ++i) if (props()[i].name == n) steps.push_back({i, {}});
      } else if (k == "tape" && !steps.empty()) {
        auto x = std::uint64_t{};
        while (ss >> x) steps.back().tape.push_back(x);
      }
    }
    if (steps.empty()) { std::fprintf(stderr, "replay file names no known sub-property\n"); return 2; }
    auto const r = run_tape(steps, opt.hang_cpu_s, opt.hang_wall_s, true,
                            opt.out + "/report.txt", opt.out + "/desc.txt");
    std::printf("%s\n%s", slurp(opt.out + "/desc.txt").c_str(), slurp(opt.out + "/report.txt").c_str());
    std::printf("outcome: %s %s\n", r.o == Outcome::kPass ? "holds" : "violated:", r.msg.c_str());
    return r.o == Outcome::kPass ? 0 : 1;
  }

  auto const t0 = now_s();
  auto v = Violation{};
  auto total = std::uint64_t{0}, fuzz_total = std::uint64_t{0}, nontrivial = std::uint64_t{0};
  auto early = false;
  auto unreproduced = std::vector<std::string>{};

  auto const phase = [&](bool const fuzz) {
    auto* slots = shared<Slot>(opt.workers);
    auto pids = std::vector<pid_t>(opt.workers);
    struct Watch { std::uint64_t no = 0; double cpu = 0, wall = 0; Idle idle{}; };
    auto watch = std::vector<Watch>(opt.workers);
    std::fflush(nullptr);
    for (auto w = 0U; w != opt.workers; ++w) {
      pids[w] = fork();
      if (pids[w] < 0) { perror("fork"); _exit(2); }
      if (pids[w] == 0) {
        auto const log = opt.out + (fuzz ? "/f" : "/w") + std::to_string(w) + ".log";
        auto const fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        if (fuzz) fuzz_worker(w, slots[w]);
        else worker(w, slots[w]);
      }
      watch[w].wall = now_s();
    }
    auto alive = opt.workers;
    auto bad = ~0U;
    auto hang = false;
    auto last_poll = now_s();
    while (alive != 0 && bad == ~0U) {
      usleep(20000);
      auto const gap = now_s() - last_poll;  // a paused sandbox is not a hang
      last_poll = now_s();
      for (auto w = 0U; w != opt.workers && bad == ~0U; ++w) {
        if (pids[w] == 0) continue;
        int st;
        if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
          pids[w] = 0;
          --alive;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            bad = w;
            if (slots[w].has_msg == 0) {
              set_msg(slots[w], WIFSIGNALED(st) ? "the process died (signal " + std::to_string(WTERMSIG(st)) + ")"
                                                : "the process died (exit code " + std::to_string(WEXITSTATUS(st)) + ")");
            }
          }
          continue;
        }
        if (rss_mb(pids[w]) > kMaxRss + 1500.0) {
          bad = w;
          set_msg(slots[w], "the case used more than 2.5 GB of memory");
          break;
        }
        auto const no = slots[w].case_no.load();
        auto const cpu = cpu_of(pids[w]);
        if (no != watch[w].no) watch[w] = {no, cpu, now_s()};
        auto const stuck = watch[w].idle.stuck(pids[w]);
        if (gap > 2.0) watch[w].wall += gap;
        if (no != 0 && (cpu - watch[w].cpu > opt.hang_cpu_s || now_s() - watch[w].wall > opt.hang_wall_s || stuck)) {
          bad = w;
          hang = true;
          set_msg(slots[w], "the case did not terminate");
        }
      }
    }
    for (auto w = 0U; w != opt.workers; ++w) {
      if (pids[w] != 0) {
        kill(pids[w], SIGKILL);
        int st;
        waitpid(pids[w], &st, 0);
      }
    }
    for (auto w = 0U; w != opt.workers; ++w) {
      (fuzz ? fuzz_total : total) += slots[w].case_no;
      nontrivial += slots[w].nontrivial;
      early = early || slots[w].stopped_early != 0;
    }
    if (bad != ~0U) {
      auto& s = slots[bad];
      auto const tape = std::vector<std::uint64_t>(s.tape.v, s.tape.v + s.tape.len);
      v.engine = fuzz ? "coverage-guided fuzzing" : "random generation";
      auto const m = std::string{s.msg};
      if (!examine(v, {{s.prop, tape}}, m, hang)) {
        // not on its own: behind the cases that ran before it?
        auto steps = Steps{{s.prop, tape}};
        for (auto i = s.n_past; i != 0 && s.n_past - i < kPast; --i) {
          auto const& p = s.past[(i - 1) % kPast];
          if (p.len > std::size(p.v)) break;
          steps.insert(steps.begin(), Step{p.prop, {p.v, p.v + p.len}});
        }
        if (steps.size() > 1 && examine(v, steps, m, hang)) {
          munmap(slots, sizeof(Slot) * opt.workers);
          return true;
        }
        unreproduced.push_back(std::string{props()[s.prop].name} + ": " + m);
      }
    }
    munmap(slots, sizeof(Slot) * opt.workers);
    return bad != ~0U;
  };

  auto rounds = 0U;
  while (opt.cases != 0 && phase(false) && !v.found && rounds < 3U) {
    ++rounds;  // not reproducible: go on with another seed
    opt.seed += 1000003ULL;
  }
  if (!v.found && opt.fuzz_runs != 0 && LLVMFuzzerRunDriver != nullptr) {
    rounds = 0;
    while (phase(true) && !v.found && rounds < 3U) {
      ++rounds;
      opt.seed += 1000003ULL;
    }
  }

  // merge statistics
  auto labels = std::map<std::string, std::uint64_t>{};
  auto per_prop = std::map<std::string, std::uint64_t>{};
  auto samples = std::map<std::string, std::vector<std::string>>{};
  auto hashes = std::vector<std::uint64_t>{};
  for (auto const* kind : {"w", "f"}) {
    for (auto w = 0U; w != opt.workers; ++w) {
      auto const base = opt.out + "/" + kind + std::to_string(w);
      auto f = std::ifstream{base + ".stats"};
      auto line = std::string{};
      while (std::getline(f, line)) {
        auto ss = std::istringstream{line};
        auto k = std::string{};
        ss >> k;
        if (k == "sample") {
          auto const s = line.substr(7);
          auto& v2 = samples[s.substr(0, s.find(':'))];
          if (v2.size() < 2) v2.push_back(s);
        } else {
          auto n = std::uint64_t{};
          ss >> n;
          auto l = std::string{};
          std::getline(ss >> std::ws, l);
          (k == "label" ? labels : per_prop)[l] += n;
        }
      }
      auto const h = slurp(base + ".hash");
      auto const old = hashes.size();
      hashes.resize(old + h.size() / 8);
      std::memcpy(hashes.data() + old, h.data(), h.size() / 8 * 8);
    }
  }
  std::sort(hashes.begin(), hashes.end());
  auto const distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();

  auto o = std::ofstream{opt.out + "/result.json"};
  o << "{\n\"evaluations\": " << total + fuzz_total << ",\n\"random_cases\": " << total
    << ",\n\"fuzz_runs\": " << fuzz_total << ",\n\"nontrivial\": " << nontrivial
    << ",\n\"distinct_nontrivial\": " << distinct
    << ",\n\"stopped_early\": " << (early ? "true" : "false") << ",\n\"wall_s\": " << now_s() - t0
    << ",\n\"labels\": {";
  auto sep = "";
  for (auto const& [l, n] : labels) { o << sep << "\n  " << json(l) << ": " << n; sep = ","; }
  o << "},\n\"per_sub_property\": {";
  sep = "";
  for (auto const& [l, n] : per_prop) { o << sep << "\n  " << json(l) << ": " << n; sep = ","; }
  o << "},\n\"samples\": [";
  sep = "";
  for (auto const& [p, l] : samples) for (auto const& s : l) { o << sep << "\n  " << s; sep = ","; }
  o << "],\n\"unreproduced\": [";
  sep = "";
  for (auto const& s : unreproduced) { o << sep << "\n  " << json(s); sep = ","; }
  o << "],\n\"violation\": ";
  if (v.found) {
    o << "{\"sub\": " << json(v.prop) << ", \"message\": " << json(v.msg)
      << ", \"description\": " << json(v.desc) << ", \"report\": " << json(v.report)
      << ", \"engine\": " << json(v.engine) << ", \"original_len\": " << v.original_len
      << ", \"reproduced\": " << v.reproduced << ", \"replays\": " << v.replays
      << ", \"steps\": [";
    sep = "";
    for (auto const& [p, t] : v.steps) {
      o << sep << "{\"sub\": " << json(props()[p].name) << ", \"tape\": [";
      sep = "";
      for (auto const x : t) { o << sep << x; sep = ","; }
      o << "]}";
      sep = ",";
    }
    o << "]}";
  } else {
    o << "null";
  }
  o << "\n}\n";
  o.close();
  return v.found ? 1 : 0;
}
