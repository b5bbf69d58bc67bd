#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the rule registry."""
import sys, os, json, glob, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/tools", H + "/engine", H + "/rules"]
from props import P, DF
for f in sorted(glob.glob(H + "/rules/r_*.py")):
    importlib.import_module(os.path.basename(f)[:-3])
from registry import REG

miss = set(REG) - set(P)
assert not miss, miss
NA = {}
with open(H + "/properties.jsonl", "w") as f:
    for pid in sorted(P):
        q = P[pid]
        assert len(q["title"]) <= 80, (pid, len(q["title"]))
        for x in q["files"]:
            assert os.path.exists("/repo/" + x), x
        d = dict(id=pid, title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                 anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]]))
        if q["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in q["state"]]
        f.write(json.dumps(d) + "\n")
checks = []
for pid in sorted(REG):
    s = REG[pid]
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid}", thorough_cmd=f"python3 check.py {pid} --tier thorough",
                       technique=P[pid]["technique"] or DF, level=s.level,
                       level_note=("Static analysis of the MIR of the current tree, no code is run. " + (P[pid]["note"] or s.rule))[:1500]))
from props import P as _P
try:
    from props import NOTAPP
except ImportError:
    NOTAPP = {}
na = [dict(property=k, reason=v) for k, v in sorted(NOTAPP.items())]
for k in P:
    assert k in REG or k in NOTAPP, f"{k} neither claimed nor not applicable"
m = dict(version=1, setup_cmd="python3 engine/extract.py A B", checks=checks, not_applicable=na,
         notes="Configurations: A = hashed-transcript-data+mut-auth (the tested build), B = neither, C = mut-auth, D = hashed-transcript-data. check.py all runs every check at once. tools/gen.py regenerates this file and properties.jsonl.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
