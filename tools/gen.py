#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/table.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import load_all, PROPS, LEVEL
load_all()
from checks.table import TABLE, NA

NOTE = ("Universal over inputs and states for the code as compiled by rustc (MIR of the real sources): every listed obligation is an equation or "
        "implication between closed-form terms, discharged by rewriting; undecided counts as violated. Trusts rustc's MIR, the MIR dumper, the "
        "interpreter and its models of std, primitive_types and gstd, and the sails-rs stand-in that replaces the framework's macros. "
        "Arithmetic: release profile without overflow checks, as the contract is built. ")


def line(p):
    anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
    return {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"], "anchors": anchors}


rows = sorted(TABLE + NA, key=lambda p: p["id"])
for p in rows:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
with open(R + "/properties.jsonl", "w") as f:
    for p in rows:
        f.write(json.dumps(line(p)) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                "technique": PROPS[p["id"]].technique, "level": LEVEL, "level_note": NOTE + p["note"]} for p in sorted(TABLE, key=lambda p: p["id"])],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
}
json.dump(man, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(TABLE), "claimed,", len(NA), "not applicable")
