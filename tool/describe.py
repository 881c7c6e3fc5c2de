#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_CLAIMED  # noqa: E402

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = list(PROPS.items()) + [(p["id"], p) for p in NOT_CLAIMED]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for pid, p in sorted(rows):
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
note = ("Holds for every value within the bounds: {b}. Trusts rustc, Kani's lowering of MIR to goto programs, CBMC, the "
        "SAT solver and the harness's reference model. Assumes: {a}.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1, "setup_cmd": "./check --setup",
        "checks": [{
            "property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
            "technique": "SAT-based bounded model checking of the compiled Rust code (Kani/CBMC/CaDiCaL)",
            "level": "other", "level_note": note.format(b="; ".join(p["bounds"]), a="; ".join(p["assumptions"])),
        } for pid, p in sorted(PROPS.items())],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_CLAIMED],
    }, f, indent=1)
    f.write("\n")
