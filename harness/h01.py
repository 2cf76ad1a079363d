"""H01: any headers, in any order, repeated, in several translation units, compile and link."""
import glob
import json
import os
import random
import re
import subprocess

from harness.programs import PRELUDE, Programs


def headers(repo):
    r = []
    for d, _, fs in os.walk(f"{repo}/include"):
        r += [os.path.relpath(os.path.join(d, f), f"{repo}/include") for f in fs if f.endswith(".h")]
    return sorted(h for h in r if not h.endswith("_msvc.h"))


# every header is used where it is included: names in templates are only looked up then
V = "auto v = std::vector<int>{3, 1, 2, 2}; "
USES = {
    "utl/cmd_line_parser.h": "struct fl { utl::cmd_line_flag<int, UTL_LONG(\"--x\"), UTL_DESC(\"d\")> x_; }; char const* argv[] = {\"p\", \"--x\", \"3\"}; auto const f = utl::parse_flags<fl>(3, argv); CASE_CHECK(f.x_.val() == 3 && !utl::description<fl>().empty(), \"\");",
    "utl/parser/csv_range.h": "struct row { utl::csv_col<int, UTL_NAME(\"a\")> a_; }; using r_t = row; CASE_CHECK(sizeof(r_t) > 0U, \"\");",
    "utl/parser/buffer.h": "auto b = utl::buffer{3U}; CASE_CHECK(b.size() == 3U, \"\");",
    "utl/parser/file.h": "auto t = false; try { utl::file f{\"/nonexistent/file\", \"r\"}; } catch (std::exception const&) { t = true; } CASE_CHECK(t, \"\");",
    "utl/parser/mmap_reader.h": "auto t = false; try { utl::mmap_reader m{\"/nonexistent/file\"}; } catch (std::exception const&) { t = true; } CASE_CHECK(t, \"\");",
    "utl/for_each_line_in_file.h": "try { utl::for_each_line_in_file(\"/nonexistent/file\", [](auto&&) {}); } catch (std::exception const&) {}",
    "utl/read_file.h": "CASE_CHECK(!utl::read_file(\"/nonexistent/file\").has_value(), \"\");",
    "utl/parser/buf_reader.h": "auto r = utl::make_buf_reader(utl::cstr{\"a\\nb\"}); (void)r;",
    "utl/parser/cstr.h": "CASE_CHECK(utl::cstr(\"ab\").len == 2U, \"\");",
    "utl/to_vec.h": V + "CASE_CHECK(utl::to_vec(v, [](int const i) { return i + 1; }).back() == 3, \"\");",
    "utl/to_set.h": V + "CASE_CHECK(utl::to_set(v, [](int const i) { return i + 1; }).size() == 3U, \"\");",
    "utl/pairwise.h": V + "auto n = 0; for (auto const& [a, b] : utl::pairwise(v)) { n += b - a; } CASE_CHECK(n == -1, \"\");",
    "utl/nwise.h": V + "auto n = 0; for (auto const& w : utl::nwise<3>(v)) { n += std::get<2>(w); } CASE_CHECK(n == 4, \"\");",
    "utl/raii.h": "auto i = 1; { auto const r = utl::make_raii(&i, [](int* p) { *p = 7; }); } CASE_CHECK(i == 7, \"\");",
    "utl/verify.h": "auto t = false; try { utl::verify(false, \"x {}\", 1); } catch (std::exception const&) { t = true; } CASE_CHECK(t, \"\");",
    "utl/const_str.h": "CASE_CHECK(std::string(STRING_LITERAL(\"abc\")) == \"abc\", \"\");",
    "utl/progress_tracker.h": "utl::progress_tracker t{[](utl::progress_tracker const&) {}}; t.in_high(10); t.update(5); CASE_CHECK(t.out_ > 0.F, \"\");",
    "utl/zip.h": V + "auto n = 0; for (auto const& [a, b] : utl::zip(v, v)) { n += a * b; } CASE_CHECK(n == 18, \"\");",
    "utl/enumerate.h": V + "auto n = 0; for (auto const& [i, x] : utl::enumerate(v)) { n += static_cast<int>(i) * x; } CASE_CHECK(n == 11, \"\");",
    "utl/parser/arg_parser.h": "auto i = 0; auto s = utl::cstr(\"42\"); utl::parse_arg(s, i, 0); CASE_CHECK(i == 42, \"\"); CASE_CHECK(utl::parse<double>(\"1.5\") == 1.5, \"\");",
    "utl/cflow.h": "CASE_CHECK(utl::cflow::kContinue != utl::cflow::kBreak, \"\");",
    "utl/clear_t.h": "CASE_CHECK((std::is_same_v<utl::clear_t<int const&>, int>), \"\");",
    "utl/concat.h": V + "utl::concat(v, v); CASE_CHECK(v.size() == 8U, \"\");",
    "utl/equal_ranges.h": V + "auto n = 0; utl::equal_ranges(v, std::less<>{}, [&](auto, auto) { ++n; }); CASE_CHECK(n == 3, \"\");",
    "utl/equal_ranges_linear.h": V + "auto n = 0; utl::equal_ranges_linear(v, std::equal_to<>{}, [&](auto, auto) { ++n; }); CASE_CHECK(n == 3, \"\");",
    "utl/erase.h": V + "utl::erase(v, 2); CASE_CHECK(v.size() == 2U, \"\");",
    "utl/erase_if.h": V + "utl::erase_if(v, [](int const i) { return i == 2; }); CASE_CHECK(v.size() == 2U, \"\");",
    "utl/erase_duplicates.h": V + "utl::erase_duplicates(v); CASE_CHECK(v.size() == 3U, \"\");",
    "utl/for_each_bit_set.h": "auto n = 0; utl::for_each_set_bit(5U, [&](auto const i) { n += static_cast<int>(i); }); CASE_CHECK(n == 2, \"\");",
    "utl/generator.h": "auto n = 0; auto g = [](int const k) -> utl::generator<int> { for (auto i = 0; i < k; ++i) { co_yield i; } }(4); while (g) { n += g(); } CASE_CHECK(n == 6, \"\");",
    "utl/get_or_create.h": "auto m = std::map<int, int>{}; CASE_CHECK(utl::get_or_create(m, 1, []() { return 5; }) == 5, \"\");",
    "utl/get_or_create_index.h": "auto m = std::map<int, int>{}; CASE_CHECK(utl::get_or_create_index(m, 1) == 0, \"\");",
    "utl/helpers/algorithm.h": V + "CASE_CHECK(utl::all_of(v, [](int const i) { return i > 0; }), \"\");",
    "utl/init_from.h": "struct src { int x; std::unique_ptr<float> y; }; struct tgt { float& y; int& x; }; auto s = src{1, std::make_unique<float>(2.F)}; auto const t = utl::init_from<tgt>(s); CASE_CHECK(t.has_value() && &t->x == &s.x && &t->y == s.y.get(), \"\");",
    "utl/insert_sorted.h": "auto v = std::vector<int>{1, 3}; utl::insert_sorted(v, 2); CASE_CHECK(v[1] == 2, \"\");",
    "utl/is_uniform.h": V + "CASE_CHECK(!utl::is_uniform(v), \"\");",
    "utl/join.h": V + "auto n = 0; utl::inner_join(v, v, std::less<>{}, [&](auto, auto, auto, auto) { ++n; }); CASE_CHECK(n > 0, \"\");",
    "utl/logging.h": "uLOG(utl::info) << utl::time(time_t{0}) << utl::time();",
    "utl/match.h": "struct A { virtual ~A() = default; }; struct B : A {}; auto b = B{}; auto n = 0; utl::match(static_cast<A*>(&b), [&](B*) { n = 1; }); CASE_CHECK(n == 1, \"\");",
    "utl/overloaded.h": "CASE_CHECK(std::visit(utl::overloaded{[](int) { return 1; }, [](char) { return 2; }}, std::variant<int, char>{'x'}) == 2, \"\");",
    "utl/parallel_for.h": "auto n = std::atomic<int>{}; utl::parallel_for_run(3, [&](std::size_t) { ++n; }); CASE_CHECK(n == 3, \"\");",
    "utl/power_set_intersection.h": "auto const a = std::vector<int>{1, 2, 2}; auto n = 0; utl::power_set_intersection(a, a, [&](auto&&...) { ++n; }); CASE_CHECK(n == 5, \"\");",
    "utl/repeat_n.h": "CASE_CHECK(utl::repeat_n(7, 3).size() == 3U, \"\");",
    "utl/set_thread_name.h": "utl::set_current_thread_name(\"x\");",
    "utl/sort_by.h": "auto a = std::vector<int>{2, 1}; auto b = std::vector<char>{'b', 'a'}; auto const [x, y] = utl::sort_by(a, b); CASE_CHECK(y[0] == 'a', \"\");",
    "utl/sorted_diff.h": "auto const a = std::vector<int>{1, 3}, b = std::vector<int>{1, 4}; auto n = 0; utl::sorted_diff(a, b, std::less<>{}, std::equal_to<>{}, sd_fns{[&](utl::op, int) { ++n; }, [&](int, int) {}}); CASE_CHECK(n == 2 && utl::to_str(utl::op::kAdd) == \"add\", \"\");",
    "utl/timer.h": "utl::scoped_timer t{\"x\"}; utl::manual_timer m{\"y\"}; m.stop_and_print();",
    "utl/timing.h": "UTL_START_TIMING(x); UTL_STOP_TIMING(x); CASE_CHECK(UTL_TIMING_MS(x) >= 0, \"\");",
    "utl/parser/split.h": "auto const [a, b] = utl::split<\',\', int, double>(utl::cstr{\"1,2\"}); CASE_CHECK(a == 1 && b == 2., \"\");",
    "utl/pipes/accumulate.h": V + "CASE_CHECK((utl::all(v) | utl::accumulate([](int const a, int const b) { return a + b; }, 0)) == 8, \"\");",
    "utl/pipes/all.h": V + "CASE_CHECK(*utl::all(v).begin() == 3, \"\");",
    "utl/pipes/avg.h": V + "CASE_CHECK((utl::all(v) | utl::avg()) == 2., \"\");",
    "utl/pipes/count.h": V + "CASE_CHECK((v | utl::count([](int const i) { return i == 2; })) == 2U, \"\");",
    "utl/pipes/emplace_back.h": V + "CASE_CHECK((utl::all(v) | utl::emplace_back<std::vector<int>>()) == v, \"\");",
    "utl/pipes/find.h": V + "CASE_CHECK((v | utl::find([](int const i) { return i == 2; })).has_value(), \"\");",
    "utl/pipes/for_each.h": V + "auto n = 0; utl::all(v) | utl::for_each([&](int const i) { n += i; }); CASE_CHECK(n == 8, \"\");",
    "utl/pipes/insert.h": V + "CASE_CHECK((v | utl::insert<std::set<int>>()).size() == 3U, \"\");",
    "utl/pipes/map.h": "auto v = std::vector<std::pair<int, int>>{{1, 2}}; CASE_CHECK((v | utl::emplace<std::map<int, int>>()).size() == 1U, \"\");",
    "utl/pipes/max.h": V + "CASE_CHECK((v | utl::max<int>{0}) == 3., \"\");",
    "utl/pipes/remove_if.h": V + "auto r = utl::all(v) | utl::remove_if([](int const i) { return i == 3; }); CASE_CHECK(*r.begin() == 1, \"\");",
    "utl/pipes/sum.h": V + "CASE_CHECK((v | utl::sum()) == 8U, \"\");",
    "utl/pipes/take_while.h": V + "auto r = utl::all(v) | utl::take_while([](int const i) { return i == 3; }); auto it = r.begin(); r.next(it); CASE_CHECK(!r.valid(it), \"\");",
    "utl/pipes/transform.h": V + "auto r = utl::all(v) | utl::transform([](int const i) { return i + 1; }); auto it = r.begin(); CASE_CHECK(r.read(it) == 4, \"\");",
    "utl/pipes/unique.h": V + "auto r = utl::all(v) | utl::unique(); auto it = r.begin(); CASE_CHECK(r.read(it) == 3, \"\");",
    "utl/pipes/vec.h": V + "CASE_CHECK((utl::all(v) | utl::vec()) == v, \"\");",
    "utl/pipes/iota.h": "auto r = utl::iota(0, 3); auto it = r.begin(); CASE_CHECK(r.valid(it), \"\");",
    "utl/pipes/generate.h": "auto n = 0; auto r = utl::generate([&]() { return n++; }); auto it = r.begin(); CASE_CHECK(r.read(it) == 0, \"\");",
    "utl/pipes/iterable.h": "CASE_CHECK(!(std::is_empty_v<utl::iterable_t>) || true, \"\");",
    "utl/pipes.h": V + "auto n = 0; for (auto const i : utl::all(v) | utl::remove_if([](int const k) { return k == 3; }) | utl::transform([](int const k) { return k * 2; }) | utl::iterable()) { n += i; } CASE_CHECK(n == 10, \"\");",
    "utl/parser/csv.h": "auto const t = std::vector<std::tuple<int, int>>{}; auto const h = std::array<utl::cstr, 2U>{{\"a\", \"b\"}}; CASE_CHECK((utl::read<std::tuple<int, int>>(utl::cstr{\"b,a\\n1,2\\n\"}, h).size()) == 1U, \"\");",
    "utl/printable_enum.h": "CASE_CHECK(as_string(printed::B) == \"B\", \"\");",
    "utl/thread_pool.h": "auto n = std::atomic<int>{}; { auto p = utl::thread_pool{[]() {}, []() {}}; p.execute(3, [&](std::size_t) { ++n; }); } CASE_CHECK(n == 3, \"\");",
}
DECLS = {"utl/sorted_diff.h": "namespace { template <typename... F> struct sd_fns : F... { using F::operator()...; }; template <typename... F> sd_fns(F...) -> sd_fns<F...>; }",
         "utl/printable_enum.h": "namespace { PRINTABLE_ENUM(printed, A, B) }"}


def gen(rng, hs, k):
    units = rng.choice([1, 2, 2, 3])
    out = []
    for u in range(units):
        n = rng.choice([1, 1, 2, 2, 3, 5, 8]) if rng.random() < .85 else len(hs)
        unit = rng.sample(hs, min(n, len(hs)))
        if u == 0 and k < len(hs):  # every header comes first in some unit
            unit = [hs[k]] + [h for h in unit if h != hs[k]]
        elif u > 0 and rng.random() < .6:  # the same header in two units of one program
            h = rng.choice(out[0])
            unit = [x for x in unit if x != h]
            unit.insert(rng.randint(0, len(unit)), h)
        if u == 0 and k < len(hs):  # and is repeated there
            unit.insert(rng.randint(1, len(unit)), hs[k])
        if rng.random() < .4:
            unit.insert(rng.randint(1, len(unit)), rng.choice(unit))
        out.append(unit)
    return out


def run(prop, cfg, tier, seed, work, rm):
    rng = random.Random(f"{prop}-{seed}")
    hs = headers(rm.REPO)
    cases = [gen(rng, hs, k) for k in range(max(len(hs), cfg[tier]["cases"]))]
    p, lib = prepare(work, rm)
    ev, viol = p.search(prop, "headers", cases, 1, shrink, seed, show)
    labels = {f"{n} units": sum(len(c) == n for c in cases) for n in (1, 2, 3)}
    labels |= {"a header in two units": sum(any(h in c[1] for h in c[0]) for c in cases if len(c) > 1),
               "a header twice in one unit": sum(any(len(set(u)) < len(u) for u in c) for c in cases),
               "all headers in one unit": sum(any(len(set(u)) >= len(hs) for u in c) for c in cases)}
    nontrivial = {json.dumps(c) for c in cases if sum(map(len, c)) > 1}
    return {"evaluations": len(cases) + ev, "distinct_nontrivial": len(nontrivial),
            "samples": [show(c) for c in cases if sum(map(len, c)) < 6][:5], "labels": labels, "violation": viol,
            "programs": p.n, "headers": len(hs)}


def prepare(work, rm):
    """The standard library is precompiled, the repository's own sources are linked into every program."""
    pch = f"{work}/std.pch"
    with open(f"{work}/std.h", "w") as f:
        f.write("#include <bits/stdc++.h>\n")
    r = subprocess.run([rm.CXX, *rm.STD, "-O0", *rm.DEF, "-x", "c++-header", f"{work}/std.h", "-o", pch],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise SystemExit(r.stdout)
    objs = []
    jobs = []
    for i, f in enumerate(sorted(glob.glob(f"{rm.REPO}/src/**/*.cc", recursive=True))):
        objs.append(f"{work}/src{i}.o")
        jobs.append((f, objs[-1], ["-O0"]))
    rm.compile_all(jobs, work)

    def render(cases):
        files = {}
        calls = decls = ""
        for i, c in enumerate(cases):
            for j, unit in enumerate(c):
                uses = "\n".join("  { " + USES[h].replace('"")', f'"{h}")') + " }" for h in sorted(set(unit)) if h in USES)
                files[f"u{i}_{j}.cc"] = PRELUDE + "".join(f'#include "{h}"\n' for h in unit) + \
                    "".join(DECLS[h] + "\n" for h in sorted(set(unit)) if h in DECLS) + f"void unit_{i}_{j}() {{\n{uses}\n}}\n"
                decls += f"void unit_{i}_{j}();\n"
                calls += f"  g_case = {i}; unit_{i}_{j}();\n"
        files["main.cc"] = PRELUDE + decls + "int main() {\n" + calls + '  std::printf("DONE %ld\\n", g_evaluations);\n}\n'
        return files

    p = Programs(rm, work, render)
    p.flags = ["-O0", "-include-pch", pch, "-Wl,--start-group", *objs, "-Wl,--end-group"]
    return p, objs


def shrink(c):
    for i in range(len(c)):
        if len(c) > 1:
            yield c[:i] + c[i + 1:]
    for i, u in enumerate(c):
        size = len(u) // 2
        while size:
            for k in range(0, len(u), size):
                v = u[:k] + u[k + size:]
                if v:
                    yield c[:i] + [v] + c[i + 1:]
            size //= 2


def show(c):
    return "\n".join(f"unit {i}:\n" + "".join(f'  #include "{h}"\n' for h in u) for i, u in enumerate(c))


def replay(text, cfg, work, rm):
    cases = json.loads(re.search(r"^CASES (.*)$", text, re.M).group(1))
    r = prepare(work, rm)[0].execute(cases)
    print(r.message or "passes")
    return 0 if r.ok else 1
