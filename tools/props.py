#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the committed originals)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism,
         technique, note, observe=(), state=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(
        line={
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over.split(), "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files.split(),
                "mechanism": [
                    {"name": n, "where": w} for n, w in mechanism
                ],
                **({"observe_at": list(observe)} if observe else {}),
                **({"state": list(state)} if state else {}),
            },
        },
        technique=technique, note=note,
    ))


VIRTUAL = (
    "Assumes CPython's asyncio loop semantics; virtual time replaces the "
    "loop's clock, so real timer jitter is out of scope."
)
REAL = (
    "Exploration: holds on the schedules that stress, injected preemption "
    "(sys.monitoring) and random timing produced; trusts CPython, uvloop "
    "and the kernel."
)

exec(open(os.path.join(HERE, "tools", "proplist.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["line"]) + "\n")
    py = "/opt/venv/bin/python"
    manifest = {
        "version": 1,
        "setup_cmd": f"{py} -c \"import sys; sys.path.insert(0, '/repo'); "
                     "import aiomisc\"",
        "checks": [
            {
                "property": p["line"]["id"],
                "quick_cmd": f"{py} run.py {p['line']['id']} --tier quick",
                "thorough_cmd":
                    f"{py} run.py {p['line']['id']} --tier thorough",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in P if os.path.exists(
                os.path.join(HERE, "checks", p["line"]["id"] + ".py"))
        ],
        "not_applicable": [
            {"property": p["line"]["id"], "reason": "the check is being built"}
            for p in P if not os.path.exists(
                os.path.join(HERE, "checks", p["line"]["id"] + ".py"))
        ],
        "notes": "No hooks in /repo are needed. run.py <ID> runs the "
                 "monitored workloads in child processes against /repo's "
                 "working tree (VERIF_SEED, VERIF_TIER); "
                 "run.py <ID> --replay FILE repeats a failed case.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(manifest["checks"]), "checks")


main()
