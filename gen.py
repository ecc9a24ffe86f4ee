#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the META blocks of props/pNN.py
(one source for statement, anchors, technique and level)."""
import importlib, json, os, sys, re
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
NA = []   # (id, reason), filled by props/na.py
props, checks = [], []
for f in sorted(os.listdir(os.path.join(V, "props"))):
    m = re.fullmatch(r"(p\d+)\.py", f)
    if not m: continue
    mod = importlib.import_module("props." + m.group(1))
    if not hasattr(mod, "META"): print("no META", f); continue
    M = mod.META; pid = m.group(1).upper()
    props.append({"id": pid, "title": M["title"], "statement": M["statement"],
        "quantifier": {"over": M.get("over", ["inputs"]), "text": M["text"]}, "why_tests_cant": M["why"],
        "anchors": {"files": M["files"], "mechanism": [{"name": n, "where": w} for n, w in M["mechanism"]]}})
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough",
        "technique": M["technique"], "level": mod.LEVEL, "level_note": M["note"]})
from props import na
for n in na.PROPS: props.append(n)
for p in props:
    assert len(p["title"]) <= 80, p["title"]
    for f in p["anchors"]["files"]: assert os.path.exists("/repo/" + f), f
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in props))
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in na.REASONS],
       "notes": "Static analysis only: every check recompiles /repo's current sources to LLVM IR and abstractly interprets / queries that IR (fw/*.py, tool/fwir.cpp). Nothing of /repo is executed. See DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na.REASONS), "not applicable")
