"""A11: printable enums and compile-time strings, as generated programs."""
import json
import random
import re

from harness.programs import PRELUDE, Programs

KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl concept const
consteval constexpr constinit continue decltype default delete do double else enum explicit export extern false float
for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private
protected public register requires return short signed sizeof static struct switch template this throw true try
typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq linux unix errno stdin
stdout stderr assert""".split())

# white space between the tokens of the list, as a user may lay it out
GAPS = ["", " ", "  ", "\n  ", "\n\n", "\t", " \t ", " /* c */ ", "/**/", " /* a, b */ ", " // x, y\n", " \\\n ",
        "\n#__none__"[:1], "\r\n"]


def name(rng, used):
    while True:
        k = rng.randrange(8)
        if k == 0:
            n = rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
        elif k == 1:  # a prefix or an extension of one that exists
            base = rng.choice(used) if used else "A"
            n = base + rng.choice(["A", "_", "1", "_2", "x", base])
        elif k == 2:
            base = rng.choice(used) if used else "AB"
            n = base[:rng.randint(1, len(base))]
        elif k == 3:
            n = "".join(rng.choice("AB_") for _ in range(rng.randint(1, 6)))
        elif k == 4:
            n = "k" + str(rng.randrange(1000))
        elif k == 5:
            n = rng.choice(["straße", "Größe", "naïve", "π", "日本", "é"]) + rng.choice(["", "1", "_"])
        elif k == 6:
            n = "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
                        for _ in range(rng.randint(1, 40)))
        else:
            n = rng.choice(["RED", "GREEN", "BLUE", "BLUE_GREEN", "RE", "D", "ED", "value", "values", "s", "c", "v",
                            "i", "out", "start", "begin_", "name_", "x"])
        if rng.random() < .02:  # far longer than any buffer one would reserve
            n += "".join(rng.choice("abcxyzABC019_") for _ in range(rng.randint(40, 250))).replace("__", "_")
        else:
            n = n[:48]
        # reserved: two underscores anywhere, or one followed by an upper-case letter
        if "__" in n or re.match(r"_[A-Z]", n) or n in KEYWORDS or n in used or n[0].isdigit():
            continue
        return n


def gen_enum(rng, big):
    k = rng.randrange(10)
    n = 1 if k == 0 else rng.randint(2, 6) if k < 6 else rng.randint(7, 60)
    if big:
        n = rng.choice([rng.randint(200, 300), rng.randint(300, 1100), rng.choice([256, 257, 512, 513, 1023, 1024, 1025])])
    names = []
    while len(names) < n:
        names.append(name(rng, names))
    style = rng.randrange(4)
    if style == 0:
        gap = lambda: ""
    elif style == 1:
        gap = lambda: rng.choice(["", " "])
    elif style == 2:
        gap = lambda: rng.choice(["", " ", "\n  "])
    else:
        gap = lambda: rng.choice(GAPS)
    items = [[gap(), x, gap()] for x in names]
    if style == 1:  # the usual layout
        for i, it in enumerate(items):
            it[0], it[2] = (" " if i else ""), ""
    return {"kind": "enum", "type": rng.choice(["e", "color", "Kind", "a_very_long_enum_name", "s1", "out_t"]),
            "items": items, "trailing": rng.choice([None, None, None, "", " ", "\n"]),
            "ns": rng.choice([[], [], ["app"], ["app", "detail"], ["utl"]])}


LIT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ,.;:()[]{}<>=+-*/%&|^!~#$@'_"


def gen_lit(rng, pool):
    k = rng.randrange(10)
    if k == 0 and pool:
        return {"kind": "lit", "text": rng.choice(pool)}
    if k == 1 and pool:  # one byte off
        t = list(rng.choice(pool))
        if t:
            t[rng.randrange(len(t))] = ord(rng.choice("xyz"))
        return {"kind": "lit", "text": t}
    if k == 2 and pool:
        t = rng.choice(pool)
        return {"kind": "lit", "text": t[:rng.randint(0, len(t))]}
    n = rng.choice([0, 1, 2, 3, 28, 29, 30]) if rng.random() < .4 else rng.randint(0, 30)
    if rng.random() < .25:
        t = [rng.randint(1, 255) for _ in range(n)]
    elif rng.random() < .1:
        t = [ord("a")] * n
    else:
        t = [ord(rng.choice(LIT)) for _ in range(n)]
    pool.append(t)
    return {"kind": "lit", "text": t}


def literal(t):
    out = ""
    for b in t:
        ch = chr(b)
        if 32 <= b < 127 and ch not in '"\\?':
            out += ch
        else:
            out += f"\\{b:03o}"
    return f'"{out}"'


def decl(c, i):
    body = ",".join(a + x + b for a, x, b in c["items"])
    # a line comment must not swallow the comma
    body = ",".join(a + x + b for a, x, b in c["items"])
    if c["trailing"] is not None:
        body += "," + c["trailing"]
    ns = "::".join([f"case_{i}"] + c["ns"])
    return f"namespace {ns} {{\nPRINTABLE_ENUM({c['type']}, {body}\n)\n}}\n"


def render(cases):
    hdr = "#pragma once\n" + PRELUDE + '#include <utl/printable_enum.h>\n#include <utl/const_str.h>\n'
    hdr += "template <char const* S> struct tag {};\n"
    main, other, calls = "", "", ""
    lits = []
    for i, c in enumerate(cases):
        if c["kind"] == "enum":
            hdr += decl(c, i)
            t = "::".join([f"case_{i}"] + c["ns"] + [c["type"]])
            checks = ""
            for j, (_, x, _) in enumerate(c["items"]):
                checks += (f'  {{ auto const want = std::string("{x}");\n'
                           f"    auto const v = {t}::{x};\n"
                           f"    CASE_CHECK(static_cast<int>(v) == {j}, \"value of \" << want);\n"
                           f"    CASE_CHECK(as_string(v) == want, \"as_string gives '\" << as_string(v) << \"' for \" << want);\n"
                           f"    std::ostringstream os; os << '<' << v << '|' << v << '>';\n"
                           f"    CASE_CHECK(os.str() == '<' + want + '|' + want + '>', \"streams as \" << os.str() << \" for \" << want);\n"
                           f"    CASE_CHECK(other_{i}({j}) == want, \"other unit gives \" << other_{i}({j}) << \" for \" << want); }}\n")
            names = [x for _, x, _ in c["items"]]
            order = list(range(len(names))) * 2
            random.Random(f"{names}").shuffle(order)
            checks += "  char const* const names[] = {" + ", ".join(f'"{x}"' for x in names) + "};\n"
            checks += (f"  auto const& kept = as_string({t}::{names[-1]});\n"
                       f"  for (auto const j : {{{', '.join(map(str, order))}}}) {{\n"
                       f"    auto const got = as_string(static_cast<{t}>(j));\n"
                       f"    CASE_CHECK(got == names[j], \"in another order: '\" << got << \"' for \" << names[j]);\n  }}\n"
                       f"  CASE_CHECK(kept == names[{len(names) - 1}], \"a name changed behind: \" << kept);\n"
                       f"  std::ostringstream all, want_all;\n"
                       f"  for (auto const j : {{{', '.join(map(str, order))}}}) {{ all << static_cast<{t}>(j) << j; want_all << names[j] << j; }}\n"
                       f"  CASE_CHECK(all.str() == want_all.str(), \"stream: \" << all.str());\n")
            hdr += f"std::string other_{i}(int);\n"
            other += f"std::string other_{i}(int const v) {{ return as_string(static_cast<{t}>(v)); }}\n"
            main += f"static void case_fn_{i}() {{\n{checks}}}\n"
        else:
            lit = literal(c["text"])
            n = len(c["text"])
            hdr += f"char const* other_{i}();\n"
            other += f"char const* other_{i}() {{ return STRING_LITERAL({lit}); }}\n"
            main += (f"static void case_fn_{i}() {{\n"
                     f"  constexpr auto const* const got = STRING_LITERAL({lit});\n"
                     f"  auto const want = std::string({lit}, {n});\n"
                     f"  CASE_CHECK(std::string(got) == want, \"text is '\" << got << \"' instead of '\" << want << \"'\");\n"
                     f"  CASE_CHECK(got[{n}] == '\\0', \"not terminated\");\n"
                     f"  CASE_CHECK(got == STRING_LITERAL({lit}), \"two equal literals, two addresses\");\n"
                     f"  CASE_CHECK((std::is_same_v<tag<STRING_LITERAL({lit})>, tag<STRING_LITERAL({lit})>>), \"two types\");\n"
                     f"  CASE_CHECK(got == other_{i}(), \"another unit has another address\");\n")
            for j, t in lits[-12:]:
                same = t == c["text"]
                main += (f"  CASE_CHECK((got == STRING_LITERAL({literal(t)})) == {str(same).lower()}, "
                         f"\"literals {i} and {j}: same address must be {str(same).lower()}\");\n")
            lits.append((i, c["text"]))
            main += "}\n"
        calls += f"  g_case = {i}; case_fn_{i}();\n"
    return {"cases.h": hdr, "other.cc": '#include "cases.h"\n' + other,
            "main.cc": '#include "cases.h"\n' + main + "int main() {\n" + calls
                       + '  std::printf("DONE %ld\\n", g_evaluations);\n}\n'}


def shrink(c):
    if c["kind"] == "lit":
        t = c["text"]
        for i in range(len(t)):
            yield {**c, "text": t[:i] + t[i + 1:]}
        return
    if c["ns"]:
        yield {**c, "ns": []}
    if c["trailing"] is not None:
        yield {**c, "trailing": None}
    n = len(c["items"])
    size = n // 2
    while size:
        for i in range(0, n, size):
            rest = c["items"][:i] + c["items"][i + size:]
            if rest:
                yield {**c, "items": rest}
        size //= 2
    for i, (a, x, b) in enumerate(c["items"]):
        if a:
            yield {**c, "items": c["items"][:i] + [["", x, b]] + c["items"][i + 1:]}
        if b:
            yield {**c, "items": c["items"][:i] + [[a, x, ""]] + c["items"][i + 1:]}


def show(c):
    return decl(c, 0) if c["kind"] == "enum" else f"STRING_LITERAL({literal(c['text'])})"


def run(prop, cfg, tier, seed, work, rm):
    rng = random.Random(f"{prop}-{seed}")
    t = cfg[tier]
    enums = [gen_enum(rng, i % 100 == 7) for i in range(t["enums"])]
    pool = []
    lits = [gen_lit(rng, pool) for _ in range(t["lits"])]
    p = Programs(rm, work, render)
    ev, viol = p.search(prop, "printable_enum", enums, 12, shrink, seed, show)
    if viol is None:
        ev2, viol = p.search(prop, "const_str", lits, 16, shrink, seed, show)
        ev += ev2
    labels = {"enum: one enumerator": sum(len(c["items"]) == 1 for c in enums),
              "enum: more than 30 enumerators": sum(len(c["items"]) > 30 for c in enums),
              "enum: comments or line breaks": sum(any(set(a + b) & set("/\n") for a, _, b in c["items"]) for c in enums),
              "enum: trailing comma": sum(c["trailing"] is not None for c in enums),
              "enum: one name is a prefix of another": sum(
                  any(x != y and y.startswith(x) for _, x, _ in c["items"] for _, y, _ in c["items"]) for c in enums),
              "literal: empty": sum(not c["text"] for c in lits),
              "literal: 30 characters": sum(len(c["text"]) == 30 for c in lits),
              "literal: bytes above 127": sum(any(b > 127 for b in c["text"]) for c in lits)}
    nontrivial = {json.dumps(c) for c in enums if len(c["items"]) > 1} | {json.dumps(c) for c in lits if c["text"]}
    samples = [show(c) for c in enums[:4] if len(c["items"]) < 8] + [show(c) for c in lits[:6]]
    return {"evaluations": ev, "distinct_nontrivial": len(nontrivial), "samples": samples, "labels": labels,
            "violation": viol, "programs": p.n, "declarations": len(enums), "literals": len(lits)}


def replay(text, cfg, work, rm):
    cases = json.loads(re.search(r"^CASES (.*)$", text, re.M).group(1))
    r = Programs(rm, work, render).execute(cases)
    print(r.message or "passes")
    return 0 if r.ok else 1
