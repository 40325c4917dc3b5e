#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec_*.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib
props, na = [], []
for m in ("spec_core", "spec_world"):
    try:
        mod = importlib.import_module(m)
    except ModuleNotFoundError:
        continue
    props += mod.P
    na += getattr(mod, "NA", [])
with open(f"{root}/properties.jsonl", "w") as f:
    for p in props + na:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p["observe"], hook_needed=p["hook"]))
        if p["state"]:
            d["anchors"]["state"] = p["state"]
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
man = dict(version=1, setup_cmd="./setup",
           checks=[dict(property=p["id"], quick_cmd=f"./check {p['crate']} {p['id']}",
                        thorough_cmd=f"env VERIF_TIER=thorough ./check {p['crate']} {p['id']}", technique=p["technique"],
                        level="exploration", level_note=p["note"], evidence_file=f"evidence/{p['id']}.json") for p in props],
           not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in na],
           notes="Checks build from /repo's working tree into /verif/target (ignored). known_findings.json lists findings and repaired defects; saved/ holds their minimal inputs, run first by every check.")
json.dump(man, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(props), "claimed", len(na), "not applicable")
