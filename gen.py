#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_*.py, checks.py and not_applicable.py."""
import json, importlib, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import checks
P = []
for f in sorted(glob.glob("props_*.py")):
    P += importlib.import_module(f[:-3]).P
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
NA = importlib.import_module("not_applicable").NA
with open("properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
M = dict(version=1, setup_cmd="./check --setup", checks=[], not_applicable=[dict(property=a, reason=b) for a, b in NA])
for i in sorted(checks.PROPERTIES):
    assert i in ids, i
    c = checks.PROPERTIES[i]
    M["checks"].append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough",
                            technique="symbolic execution of the compiled code (LLVM IR) with SMT/SAT-decided assertions, counterexamples replayed natively",
                            level="model_checking", level_note="Bounded: " + "; ".join(f"{u['name']}: {u['bounds']}" if len(c["units"]) > 1 else u["bounds"] for u in c["units"] if u.get("bounds"))))
missing = set(ids) - set(checks.PROPERTIES) - {a for a, _ in NA}
assert not missing, missing
json.dump(M, open("MANIFEST.json", "w"), indent=1)
