"""Generated-program testing: cases are pieces of C++ that check themselves.

A case is any JSON-able value; the module that generates it says how to print
it as C++ (`render`) and how to make it smaller (`shrink`).  Cases are batched
into programs, the programs are compiled against the current headers with the
address and undefined behaviour sanitizers, and run.  A program that does not
compile, crashes or reports a failed check is split until a single case fails
on its own; that case is shrunk and becomes the replay file.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess

PRELUDE = r'''
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
inline int g_case = -1;
inline long g_evaluations = 0;
#define CASE_CHECK(cond, ...)                                  \
  do {                                                         \
    ++g_evaluations;                                           \
    if (!(cond)) {                                             \
      std::ostringstream case_os;                              \
      case_os << __VA_ARGS__;                                  \
      std::printf("FAILED %d %s\n", g_case, case_os.str().c_str()); \
      std::fflush(stdout);                                     \
      std::_Exit(3);                                           \
    }                                                          \
  } while (false)
'''

FLAGS = ["-O0", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


class Result:
    def __init__(self, ok, message="", evaluations=0):
        self.ok, self.message, self.evaluations = ok, message, evaluations


class Programs:
    def __init__(self, run, work, render, flags=None):
        """render(cases) -> {file name: text}; every .cc is a translation unit."""
        self.run, self.work, self.render = run, work, render
        self.flags = FLAGS + (flags or [])
        self.n = 0

    def execute(self, cases):
        self.n += 1
        d = f"{self.work}/p{self.n}-{hashlib.sha256(json.dumps(cases).encode()).hexdigest()[:8]}"
        os.makedirs(d)
        files = self.render(cases)
        for name, text in files.items():
            with open(f"{d}/{name}", "w") as f:
                f.write(text)
        r = self.run
        units = [n for n in files if n.endswith(".cc")]
        cmd = [r.CXX, *r.STD, *self.flags, *r.DEF, *r.WARN, *r.INC, "-I", d, "-ferror-limit=3",
               *[f"{d}/{u}" for u in units], "-o", f"{d}/a.out", "-lpthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            if p.returncode != 0:
                if not any(s in p.stdout for s in ("error:", "undefined reference", "multiple definition",
                                                   "undefined symbol", "duplicate symbol")):
                    raise RuntimeError(f"compiler failed for a reason outside the tree:\n{p.stdout[:4000]}")
                return Result(False, "does not compile: " + p.stdout[:3000])
            try:
                p = subprocess.run([f"{d}/a.out"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   errors="replace", env=r.env_for("asan", 0), cwd=d, timeout=300)
            except subprocess.TimeoutExpired:
                return Result(False, "the program does not end")
            done = [l for l in p.stdout.splitlines() if l.startswith("DONE ")]
            if p.returncode == 0 and done:
                return Result(True, "", int(done[-1].split()[1]))
            return Result(False, f"exit code {p.returncode}: {p.stdout[:3000]}")
        finally:
            subprocess.run(["rm", "-rf", d])

    def search(self, prop, sub, cases, batch, shrink, seed, show, workers=8, shrink_budget=150):
        """Runs all cases; returns (evaluations, violation or None)."""
        batches = [cases[i:i + batch] for i in range(0, len(cases), batch)]
        evaluations, failed = 0, None
        with cf.ThreadPoolExecutor(workers) as ex:
            for b, res in zip(batches, ex.map(self.execute, batches)):
                evaluations += res.evaluations
                if not res.ok and failed is None:
                    failed = (b, res)
        if failed is None:
            return evaluations, None
        group, res = failed
        original = len(group)
        # delta debugging over the batch, then over the case itself
        with cf.ThreadPoolExecutor(workers) as ex:
            while len(group) > 1:
                n = min(8, len(group))
                size = (len(group) + n - 1) // n
                parts = [group[i:i + size] for i in range(0, len(group), size)]
                for part, r in zip(parts, ex.map(self.execute, parts)):
                    if not r.ok:
                        group, res = part, r
                        break
                else:
                    break  # only fails together
            spent = 0
            progress = True
            while len(group) == 1 and progress and spent < shrink_budget:
                progress = False
                candidates = list(shrink(group[0]))
                for i in range(0, len(candidates), workers):
                    some = candidates[i:i + workers]
                    spent += len(some)
                    for c, r in zip(some, ex.map(lambda c: self.execute([c]), some)):
                        if not r.ok:
                            group, res, progress = [c], r, True
                            break
                    if progress or spent >= shrink_budget:
                        break
        text = (f"programs-replay v1\nproperty {prop}\nsub {sub}\nseed {seed}\n\n"
                f"# shrunk from a program of {original} cases; re-run with the cases below:\n"
                f"# python3 run.py replay <this file>\n\nCASES {json.dumps(group)}\n\nMESSAGE\n{res.message}\n\n"
                + "\n".join(f"CASE\n{show(c)}" for c in group[:4]) + "\n\nPROGRAM\n"
                + "\n".join(f"// ---- {n}\n{t}" for n, t in self.render(group).items()) + "\n")
        name = hashlib.sha256(json.dumps(group).encode()).hexdigest()[:10]
        path = self.run.violation(prop, name, text)
        return evaluations, {"path": path, "message": res.message[:1500], "sub": sub}
