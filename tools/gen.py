#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing props.py or checks.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402
from props import PROPS  # noqa: E402

TRUST = ("Exploration: no counterexample among the generated cases counted in the evidence file; no claim beyond "
         "them. Trusts the oracle in harness/{h}, the engine in lib/, clang 18 and its sanitizers.")


def main():
    ids = set()
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for p in PROPS:
            assert p["id"] not in ids, p["id"]
            ids.add(p["id"])
            assert len(p["title"]) <= 80, p["title"]
            for fn in p["files"]:
                assert os.path.exists(os.path.join("/repo", fn)), fn
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p.get("observe", []),
                            "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in CHECKS:
            cfg = CHECKS[p["id"]]
            checks.append({
                "property": p["id"],
                "quick_cmd": f"python3 run.py check {p['id']}",
                "thorough_cmd": f"python3 run.py check {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"] + " " + TRUST.format(h=cfg["harness"] if not cfg.get("generator") else cfg["generator"] + ".py"),
            })
        else:
            na.append({"property": p["id"], "reason": p.get("na", "No check yet: under construction.")})
    for c in CHECKS:
        assert c in ids, c
    json.dump({
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": na,
        "notes": "Property-based testing and coverage-guided fuzzing, see DESIGN.md. No hooks in /repo: the checks use "
                 "the public interface only and build from /repo's working tree on every run. Re-run a saved "
                 "counterexample with: python3 run.py replay <path>.",
    }, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)
    print(len(PROPS), "properties,", len(checks), "checks")


main()
