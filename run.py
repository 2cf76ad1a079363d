#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

usage: run.py check <property>      (VERIF_SEED, VERIF_TIER from the environment)
       run.py replay <file>         re-run a saved reproduction
"""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = "clang++"
STD = ["-std=c++23"]
INC = ["-I", f"{REPO}/include", "-I", f"{VERIF}/stubs", "-I", f"{VERIF}/lib"]
DEF = ["-DFMT_HEADER_ONLY"]
WARN = ["-w"]
FLAVOURS = {
    # sanitizers plus coverage instrumentation for the guided search
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer",
             "-fsanitize=fuzzer-no-link,address,undefined",
             "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    # thread sanitizer instrumentation, own runtime (lib/schedule.cc)
    "sched": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O1", "-g1"],
}


class BuildError(Exception):
    def __init__(self, log):
        super().__init__(log)
        self.log = log


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def content_hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(json.dumps(extra).encode())
    return h.hexdigest()[:24]


def tree_files():
    r = []
    for base in (f"{REPO}/include", f"{REPO}/src", f"{VERIF}/stubs", f"{VERIF}/lib"):
        for d, _, fs in os.walk(base):
            r += [os.path.join(d, f) for f in fs]
    return r


def compile_all(jobs, work):
    """jobs: list of (source, object, flags). Runs them in parallel."""
    procs = []
    for src, obj, flags in jobs:
        cmd = [CXX, *STD, *flags, *DEF, *WARN, *INC, "-c", src, "-o", obj]
        log = open(obj + ".log", "w+")
        procs.append((cmd, subprocess.Popen(cmd, stdout=log, stderr=log, cwd=work), log))
    bad = None
    for cmd, p, log in procs:
        p.wait()
        log.seek(0)
        text = log.read()
        log.close()
        if p.returncode != 0:
            bad = (cmd, text, p.returncode)
            if "/lib/" in cmd[-3]:
                raise SystemExit(text)  # the engine itself, not the tree
    if bad:
        raise BuildError("$ " + " ".join(bad[0]) + "\n" + bad[1][:20000])


def build(prop, cfg, work):
    """Builds the harness from the current tree, returns the binary's path."""
    flavour = cfg.get("flavour", "asan")
    flags = FLAVOURS[flavour] + cfg.get("flags", [])
    harness = f"{VERIF}/harness/{cfg['harness']}"
    sources = [(harness, flags)]
    engine_flags = flags if flavour in ("asan", "plain") else ["-O1", "-g1"]
    sources.append((f"{VERIF}/lib/driver.cc", engine_flags))
    if cfg.get("link_repo"):
        for f in sorted(glob.glob(f"{REPO}/src/**/*.cc", recursive=True)):
            sources.append((f, flags + cfg.get("repo_flags", [])))
    for f in cfg.get("extra", []):
        sources.append((f"{VERIF}/lib/{f}", ["-O1", "-g1"]))
    # every run builds from the tree's content: a binary is only reused when
    # every input byte is the same
    key = content_hash(tree_files() + glob.glob(f"{VERIF}/harness/*.h") + [harness], [cfg, flags, STD, DEF, prop])
    bdir = f"{VERIF}/build/{prop}-{key}"
    binary = f"{bdir}/check"
    if os.path.exists(binary):
        return binary
    for old in glob.glob(f"{VERIF}/build/{prop}-*"):
        shutil.rmtree(old, ignore_errors=True)
    tmp = bdir + f".tmp{os.getpid()}"
    os.makedirs(tmp)
    try:
        jobs = [(s, f"{tmp}/{i}.o", f) for i, (s, f) in enumerate(sources)]
        compile_all(jobs, work)
        objs = [j[1] for j in jobs]
        link = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"],
                "sched": [], "plain": []}[flavour]
        libs = []
        if flavour == "asan":
            rt = sh([CXX, "-print-file-name=libclang_rt.fuzzer_no_main-x86_64.a"]).stdout.strip()
            if not os.path.exists(rt):
                rd = sh([CXX, "-print-resource-dir"]).stdout.strip()
                rt = (glob.glob(f"{rd}/lib/**/libclang_rt.fuzzer_no_main*x86_64*.a", recursive=True) + [""])[0]
            if rt:
                libs = ["-Wl,-u,LLVMFuzzerRunDriver", rt]
        cmd = [CXX, *link, *objs, *libs, *cfg.get("link", []), "-lpthread", "-ldl", "-o", f"{tmp}/check"]
        r = sh(cmd)
        if r.returncode != 0:
            raise BuildError("$ " + " ".join(cmd) + "\n" + r.stdout[:20000])
        for o in objs:
            os.unlink(o)
        os.makedirs(bdir, exist_ok=True)
        os.replace(f"{tmp}/check", binary)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return binary


def env_for(flavour, symbolize):
    e = dict(os.environ)
    common = f"abort_on_error=0:detect_leaks=0:symbolize={symbolize}:allocator_may_return_null=0:" \
             "max_allocation_size_mb=1500:detect_stack_use_after_return=1:handle_abort=0"
    e["ASAN_OPTIONS"] = common
    e["UBSAN_OPTIONS"] = f"print_stacktrace=1:symbolize={symbolize}"
    e["TSAN_OPTIONS"] = f"halt_on_error=1:exitcode=66:symbolize={symbolize}:report_signal_unsafe=0:" \
                        "die_after_fork=0:atexit_sleep_ms=0"
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    return e


def write_evidence(prop, tier, seed, cfg, cov, wall, violations):
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": violations,
    }
    tmp = f"{VERIF}/evidence/.{prop}.json.{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f"{VERIF}/evidence/{prop}.json")


def violation(prop, name, text):
    os.makedirs(f"{OUT}/replays", exist_ok=True)
    path = f"{OUT}/replays/{prop}-{name}.txt"
    with open(path, "w") as f:
        f.write(text)
    return path


def known_findings(prop):
    """Lines `known: property=<id> key=<key> <what fails>` of known-findings.txt."""
    r = {}
    try:
        for line in open(f"{VERIF}/known-findings.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return r


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[prop]
    os.makedirs(OUT, exist_ok=True)
    work = f"{OUT}/run-{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evaluations = nontrivial = 0
    parts, samples, labels = [], [], {}
    viol = None
    try:
        if cfg.get("generator"):  # programs are generated, then compiled and run
            import importlib
            mod = importlib.import_module(f"harness.{cfg['generator']}")
            res = mod.run(prop, cfg, tier, seed, work, sys.modules[__name__])
            runs = [("programs", res)]
        else:
            runs = []
            stages = cfg.get("stages") or [cfg]
            for stage in stages:
                scfg = {**cfg, **stage}
                binary = build(prop + scfg.get("suffix", ""), scfg, work)
                t = scfg[tier]
                sdir = f"{work}/{scfg.get('suffix', 'main') or 'main'}"
                os.makedirs(sdir, exist_ok=True)
                cmd = [binary, "--seed", str(seed), "--cases", str(t["cases"]),
                       "--fuzz", str(t.get("fuzz", 0)), "--out", sdir,
                       "--workers", str(t.get("workers", 8)),
                       "--max-seconds", str(t.get("max_seconds", 240 if tier == "quick" else 1500)),
                       "--shrink", "60"] + scfg.get("driver_args", [])
                if tier == "thorough":
                    cmd.append("--thorough")
                r = sh(cmd, env=env_for(scfg.get("flavour", "asan"), 0), cwd=sdir)
                if r.returncode not in (0, 1) or not os.path.exists(f"{sdir}/result.json"):
                    print(r.stdout)
                    print(f"engine error: exit code {r.returncode}")
                    return 2
                res = json.load(open(f"{sdir}/result.json"))
                runs.append((scfg.get("suffix", "main") or "main", res))
                if res["violation"]:
                    v = res["violation"]
                    text = (f"pbt-replay v1\nproperty {prop}\nstage {scfg.get('suffix', '')}\n"
                            + "".join(f"sub {x['sub']}\ntape {' '.join(map(str, x['tape']))}\n" for x in v["steps"]) +
                            "\n"
                            f"# found by {v['engine']}, seed {seed}, shrunk from {v['original_len']} to "
                            f"{sum(len(x['tape']) for x in v['steps'])} choices, {v['reproduced']} of {v['replays']} replays fail\n"
                            f"# re-run: python3 {VERIF}/run.py replay <this file>\n\n"
                            f"MESSAGE\n{v['message']}\n\nCASE\n{v['description']}\n\nREPORT\n{v['report']}\n")
                    name = hashlib.sha256(json.dumps(v["steps"]).encode()).hexdigest()[:10]
                    path = violation(prop, name, text)
                    rr = sh([binary, "--replay", path, "--out", sdir],
                            env=env_for(scfg.get("flavour", "asan"), 1), cwd=sdir)
                    with open(path, "a") as f:
                        f.write("\nSYMBOLIZED REPLAY\n" + rr.stdout[:12000])
                    viol = (path, v["message"], v["sub"])
                    break
    except BuildError as e:
        # The harness uses the public interface only, so a tree that it does not
        # compile against does not provide what the property is stated over.
        if "error:" not in e.log and "undefined reference" not in e.log and "undefined symbol" not in e.log:
            print(e.log)
            print("build failed for a reason outside the tree")
            return 2
        path = violation(prop, "build", f"property {prop}\nThe public interface the property is stated "
                                        f"over does not compile:\n\n{e.log}\n")
        write_evidence(prop, tier, seed, cfg, {
            "evaluations": 0, "distinct_nontrivial": 0, "rule": cfg["rule"],
            "samples": ["(nothing ran: the harness did not compile)"]}, time.time() - t0, 1)
        print(e.log[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for name, res in runs:
        evaluations += res["evaluations"]
        nontrivial += res["distinct_nontrivial"]
        samples += res["samples"]
        for k, v in res["labels"].items():
            labels[k] = labels.get(k, 0) + v
        parts.append({k: v for k, v in res.items() if k not in ("samples", "labels", "violation")} | {"stage": name})
        if viol is None and res.get("violation"):
            viol = (res["violation"]["path"], res["violation"]["message"], res["violation"].get("sub", ""))
    cov = {
        "evaluations": evaluations, "distinct_nontrivial": nontrivial, "rule": cfg["rule"],
        "samples": samples[:24], "classes": dict(sorted(labels.items())), "stages": parts,
    }
    write_evidence(prop, tier, seed, cfg, cov, time.time() - t0, 1 if viol else 0)
    shutil.rmtree(work, ignore_errors=True)
    for key, what in known_findings(prop).items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    if viol:
        print(f"{viol[2]}: {viol[1]}"[:3000])
        print(f"VIOLATION property={prop} replay={viol[0]}")
        return 1
    early = any(p.get("stopped_early") for p in parts)
    print(f"{prop}: held on {evaluations} cases, {nontrivial} distinct non-trivial, "
          f"{time.time() - t0:.1f} s{' (stopped by the time limit)' if early else ''}")
    return 0


def replay(path):
    text = open(path).read()
    prop = re.search(r"^property (\S+)", text, re.M).group(1)
    cfg = CHECKS[prop]
    if "CASES" in text and cfg.get("generator"):
        import importlib
        mod = importlib.import_module(f"harness.{cfg['generator']}")
        work = f"{OUT}/replay"
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        return mod.replay(text, cfg, work, sys.modules[__name__])
    if "pbt-replay" not in text:
        print(text)
        return 0
    stage = re.search(r"^stage ?(\S*)", text, re.M).group(1)
    for s in cfg.get("stages") or [cfg]:
        if s.get("suffix", "") == stage:
            cfg = {**cfg, **s}
    work = f"{OUT}/replay"
    os.makedirs(work, exist_ok=True)
    binary = build(prop + cfg.get("suffix", ""), cfg, work)
    r = sh([binary, "--replay", os.path.abspath(path), "--out", work],
           env=env_for(cfg.get("flavour", "asan"), 1))
    print(r.stdout)
    return r.returncode


if __name__ == "__main__":
    if len(sys.argv) != 3 or sys.argv[1] not in ("check", "replay"):
        print(__doc__)
        sys.exit(2)
    sys.exit(check(sys.argv[2]) if sys.argv[1] == "check" else replay(sys.argv[2]))
