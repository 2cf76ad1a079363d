"""A12: init_from on generated pairs of structs, against a reference matching."""
import json
import random
import re

from harness.programs import PRELUDE, Programs

TYPES = ["int", "unsigned", "float", "double", "char", "bool", "long long", "std::string", "std::vector<int>", "s_int",
         "s_two", "s_empty", "s_str", "color", "unsigned char", "s_pair"]

SUPPORT = r'''
#include <memory>
#include <vector>
#include <utility>
#include <utl/init_from.h>
using s_pair = std::pair<int, int>;
enum class color : unsigned char { A, B, C };
struct s_int { int x; bool operator==(s_int const&) const = default; };
struct s_two { int x; s_int y; bool operator==(s_two const&) const = default; };
struct s_empty { bool operator==(s_empty const&) const = default; };
struct s_str { std::string s; std::vector<int> v; bool operator==(s_str const&) const = default; };
template <int N> struct nth { int x; bool operator==(nth const&) const = default; };
template <typename T> struct is_nth { static constexpr auto const value = false; };
template <int N> struct is_nth<nth<N>> { static constexpr auto const value = true; };
template <typename T> T mk(int const n) {
  if constexpr (std::is_same_v<T, std::string>) { return std::string(20, 'x') + std::to_string(n); }
  else if constexpr (std::is_same_v<T, std::vector<int>>) { return std::vector<int>(3, n); }
  else if constexpr (std::is_same_v<T, s_int>) { return s_int{n}; }
  else if constexpr (std::is_same_v<T, s_two>) { return s_two{n, s_int{-n}}; }
  else if constexpr (std::is_same_v<T, s_empty>) { return s_empty{}; }
  else if constexpr (std::is_same_v<T, s_str>) { return s_str{std::to_string(n), {n}}; }
  else if constexpr (std::is_same_v<T, color>) { return static_cast<color>(n % 3); }
  else if constexpr (std::is_same_v<T, bool>) { return n % 2 == 1; }
  else if constexpr (std::is_same_v<T, s_pair>) { return s_pair{n, -n}; }
  else if constexpr (is_nth<T>::value) { return T{n}; }
  else { return static_cast<T>(n); }
}
'''

# source field: [kind, type], kind v value, p T*, u unique_ptr, s shared_ptr, pp T**
# target field: [kind, type], kind v value, r T&, c T const&, p T*, q T const*, s shared_ptr, sr shared_ptr&


def decayed(t):
    k, ty = t
    return {"v": ("v", ty), "r": ("v", ty), "c": ("v", ty), "p": ("p", ty), "q": ("q", ty), "s": ("s", ty),
            "sr": ("s", ty)}[k]


def match(src, t):
    """(index of the field in order, how) by the rule of the property."""
    kind, ty = decayed(t)
    for i, (sk, st) in enumerate(src):
        if st != ty:
            continue
        if sk == kind:
            return i, "same"
        if kind == "v" and sk in ("p", "u", "s") or kind == "p" and sk == "pp":
            return i, "deref"
        if kind in ("p", "q", "s") and sk in ("p", "u", "s"):
            return i, "pointer"
    return None


def ordered(c):
    return [c["src"][i] for i in c["order"]] if c["order"] else c["src"]


def valid(c):
    if not c["src"] or not c["tgt"]:
        return False
    if c["order"] and sorted(c["order"]) != list(range(len(c["src"]))):
        return False
    src = ordered(c)
    for t in c["tgt"]:
        m = match(src, t)
        if m is None:
            return False
        if t[0] in ("s", "sr") and m[1] != "same":
            return False  # a shared pointer cannot be made from another pointer
        if c["call"] == "const" and (m[1] == "same" and t[0] not in ("p",)):
            return False
    if c["call"] == "const" and c["order"]:
        return False
    return True


def gen(rng):
    while True:
        types = rng.sample(TYPES, rng.choice([1, 2, 2, 3, 4, 6, len(TYPES)]))
        n = rng.choice([1, 2, 3, 4, 5, 6, 8]) if rng.random() < .7 else rng.randint(1, 31)
        src = [[rng.choice(["v", "v", "p", "u", "u", "s", "pp"]), rng.choice(types)] for _ in range(n)]
        order = rng.sample(range(n), n) if rng.random() < .2 else []
        call = rng.choice(["lvalue", "lvalue", "rvalue", "const"])
        base = {"src": src, "order": order, "call": call, "members": rng.random() < .1}
        pool = []
        for k in ("v", "r", "c", "p", "q", "s", "sr"):
            for ty in types:
                if valid({**base, "tgt": [[k, ty]]}):
                    pool.append([k, ty])
        if not pool:
            continue
        m = rng.choice([1, 2, 3, 4, 5]) if rng.random() < .7 else rng.randint(1, 31)
        return {**base, "tgt": [rng.choice(pool) for _ in range(m)], "seed": rng.randrange(1 << 30)}


def systematic(rng, n):
    """Every number of fields, so that every position of both structs is told apart from every other."""
    kinds = lambda: rng.choice(["v", "v", "p", "u", "s"])
    for layout in ("distinct", "even pairs", "odd pairs", "random pairs"):
        at = list(range(n))
        if layout == "random pairs":
            rng.shuffle(at)
        number = {p: (i if layout == "distinct" else i // 2 if layout != "odd pairs" else (i + 1) // 2)
                  for i, p in enumerate(at)}
        src = [[kinds(), f"nth<{number[p]}>"] for p in range(n)]
        tgt = [[rng.choice(["r", "r", "v", "c", "p", "q"]), t] for t in sorted({t for _, t in src})]
        rng.shuffle(tgt)
        c = {"src": src, "order": [], "call": "lvalue", "members": False, "tgt": [], "seed": rng.randrange(1 << 30)}
        c["tgt"] = [t if valid({**c, "tgt": [t]}) else ["r", t[1]] for t in tgt]
        yield c


def src_type(f):
    k, t = f
    return {"v": t, "p": f"{t}*", "u": f"std::unique_ptr<{t}>", "s": f"std::shared_ptr<{t}>", "pp": f"{t}**"}[k]


def tgt_type(f):
    k, t = f
    return {"v": t, "r": f"{t}&", "c": f"{t} const&", "p": f"{t}*", "q": f"{t} const*", "s": f"std::shared_ptr<{t}>",
            "sr": f"std::shared_ptr<{t}>&"}[k]


def structs(c):
    o = "struct src {\n" + "".join(f"  {src_type(f)} f{i}_;\n" for i, f in enumerate(c["src"]))
    if c["order"]:
        o += "  auto cista_members() { return std::tie(" + ", ".join(f"f{i}_" for i in c["order"]) + "); }\n"
    o += "};\nstruct tgt {\n" + "".join(f"  {tgt_type(f)} g{i}_;\n" for i, f in enumerate(c["tgt"]))
    if c["members"]:
        o += "  auto cista_members() { return std::tie(" + ", ".join(f"g{i}_" for i in range(len(c["tgt"]))) + "); }\n"
    return o + "};\n"


def patterns(c):
    rng = random.Random(c["seed"])
    bits = [i for i, (k, _) in enumerate(c["src"]) if k != "v"]
    out = [0]
    if bits:
        out.append(sum(1 << i for i in bits))
        out += [1 << i for i in bits]
        for _ in range(12):
            out.append(sum(1 << i for i in bits if rng.random() < .3))
        if len(bits) <= 4:
            out += [sum(1 << b for j, b in enumerate(bits) if m >> j & 1) for m in range(1 << len(bits))]
    return sorted(set(out))


def render_case(c, i):
    src = ordered(c)
    idx = c["order"] or list(range(len(src)))
    o = f"namespace case_{i} {{\n" + structs(c)
    o += "void run(unsigned long const null, unsigned long const inner) {\n"
    for j, (k, t) in enumerate(c["src"]):
        if k in ("p", "pp"):
            o += f"  {t} obj{j} = mk<{t}>({j + 1});\n"
        if k == "pp":
            o += f"  {t}* ptr{j} = (inner >> {j} & 1U) ? nullptr : &obj{j};\n"
    inits = []
    for j, (k, t) in enumerate(c["src"]):
        isnull = f"(null >> {j} & 1U)"
        inits.append({"v": f"mk<{t}>({j + 1})", "p": f"{isnull} ? nullptr : &obj{j}",
                      "pp": f"{isnull} ? nullptr : &ptr{j}",
                      "u": f"{isnull} ? nullptr : std::make_unique<{t}>(mk<{t}>({j + 1}))",
                      "s": f"{isnull} ? nullptr : std::make_shared<{t}>(mk<{t}>({j + 1}))"}[k])
    o += "  " + ("src const" if c["call"] == "const" else "src") + " s{" + ", ".join(inits) + "};\n"
    for j, (k, t) in enumerate(c["src"]):
        if k in ("u", "s"):
            o += f"  auto const* const before{j} = s.f{j}_.get();\n"
    arg = "std::move(s)" if c["call"] == "rvalue" else "s"
    o += f"  auto const t = utl::init_from<tgt>({arg});\n"
    o += "  static_assert(std::is_same_v<decltype(t), std::optional<tgt> const>);\n"
    need = []
    for t in c["tgt"]:
        m, how = match(src, t)
        if how == "deref":
            need.append(f"(null >> {idx[m]} & 1U)")
    absent = " || ".join(sorted(set(need))) or "false"
    o += f"  CASE_CHECK(t.has_value() == !({absent}), \"present: \" << t.has_value() << \" with null fields \" << null);\n"
    o += "  if (t.has_value()) {\n"
    for j, t in enumerate(c["tgt"]):
        m, how = match(src, t)
        k = c["src"][idx[m]][0]
        f = f"s.f{idx[m]}_"
        if t[0] in ("r", "c", "sr"):
            cond = f"std::addressof(t->g{j}_) == std::addressof({f if how == 'same' else '*' + f})"
        elif t[0] in ("v", "s"):
            cond = f"t->g{j}_ == {f if how == 'same' else '*' + f}"
        elif how == "pointer" and k != "p":
            cond = f"t->g{j}_ == {f}.get()"
        else:
            cond = f"t->g{j}_ == {f if how in ('same', 'pointer') else '*' + f}"
        o += f"    CASE_CHECK({cond}, \"target field {j} ({tgt_type(t)}) is not taken from source field {idx[m]}, null fields \" << null);\n"
    o += "  }\n"
    for j, (k, t) in enumerate(c["src"]):
        if k in ("u", "s"):
            o += f"  CASE_CHECK(s.f{j}_.get() == before{j}, \"source field {j} was changed\");\n"
        elif k == "v":
            o += f"  CASE_CHECK(s.f{j}_ == mk<{t}>({j + 1}), \"source field {j} was changed\");\n"
    o += "}\n}\n"
    calls = f"  g_case = {i};\n  for (auto const null : {{" + ", ".join(f"{p}UL" for p in patterns(c)) + \
            f"}}) {{ case_{i}::run(null, 0U); case_{i}::run(null, ~0UL); }}\n"
    return o, calls


def render(cases):
    body, calls = "", ""
    for i, c in enumerate(cases):
        a, b = render_case(c, i)
        body += a
        calls += b
    return {"main.cc": PRELUDE + SUPPORT + body + "int main() {\n" + calls + '  std::printf("DONE %ld\\n", g_evaluations);\n}\n'}


def shrink(c):
    def drop_src(gone):
        keep = [i for i in range(len(c["src"])) if i not in gone]
        new = {old: i for i, old in enumerate(keep)}
        return {**c, "src": [c["src"][i] for i in keep], "order": [new[i] for i in c["order"] if i in new]}

    out = []
    for part, n in (("tgt", len(c["tgt"])), ("src", len(c["src"]))):
        size = max(1, n // 2)
        while True:
            for i in range(0, n, size):
                if part == "tgt":
                    out.append({**c, "tgt": c["tgt"][:i] + c["tgt"][i + size:]})
                else:
                    out.append(drop_src(set(range(i, min(n, i + size)))))
            if size == 1:
                break
            size //= 2
    out.append({**c, "order": []} if c["order"] else {**c, "src": []})
    out.append({**c, "members": False} if c["members"] else {**c, "src": []})
    out.append({**c, "call": "lvalue"} if c["call"] != "lvalue" else {**c, "src": []})
    for x in out:
        if valid(x):
            yield x


def show(c):
    return structs(c) + f"init_from<tgt>({c['call']})"


def run(prop, cfg, tier, seed, work, rm):
    rng = random.Random(f"{prop}-{seed}")
    cases = [gen(rng) for _ in range(cfg[tier]["cases"])]
    for n in range(1, 32):
        for _ in range(1 if tier == "quick" else 10):
            cases += systematic(rng, n)
    rng.shuffle(cases)
    p = Programs(rm, work, render)
    ev, viol = p.search(prop, "init_from", cases, 12, shrink, seed, show)
    hows = [match(ordered(c), t) for c in cases for t in c["tgt"]]
    labels = {"target field: " + how: sum(h[1] == how for h in hows) for how in ("same", "deref", "pointer")}
    labels |= {"target field: a later source field would fit too": sum(
        sum(match([f], t) is not None for f in c["src"]) > 1 for c in cases for t in c["tgt"])}
    labels |= {f"call: {k}": sum(c["call"] == k for c in cases) for k in ("lvalue", "rvalue", "const")}
    labels |= {"16 or more source fields": sum(len(c["src"]) >= 16 for c in cases),
               "16 or more target fields": sum(len(c["tgt"]) >= 16 for c in cases),
               "source with cista_members": sum(bool(c["order"]) for c in cases)}
    labels |= {f"{n} source fields": sum(len(c["src"]) == n for c in cases) for n in (1, 2, 30, 31)}
    nontrivial = {json.dumps(c) for c in cases if len(c["src"]) > 1}
    return {"evaluations": ev, "distinct_nontrivial": len(nontrivial),
            "samples": [show(c) for c in cases if len(c["src"]) + len(c["tgt"]) < 8][:5], "labels": labels,
            "violation": viol, "programs": p.n, "pairs_of_structs": len(cases)}


def replay(text, cfg, work, rm):
    cases = json.loads(re.search(r"^CASES (.*)$", text, re.M).group(1))
    r = Programs(rm, work, render).execute(cases)
    print(r.message or "passes")
    return 0 if r.ok else 1
