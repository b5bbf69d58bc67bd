#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md: the per-property section from tools/props.py and the rule registry, the seeds from seeded/."""
import sys, os, json, glob, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/tools", H + "/engine", H + "/rules"]
import props
for f in sorted(glob.glob(H + "/rules/r_*.py")):
    importlib.import_module(os.path.basename(f)[:-3])
from registry import REG


def para(d):
    return " ".join(d.split())


out = []
for pid in sorted(props.P):
    if pid not in REG:
        continue
    q, s = props.P[pid], REG[pid]
    kinds = []
    if s.flow:
        names = sorted({e.split('[')[0] for e in json.load(open(f'{H}/evidence/{pid}.json'))['coverage']['entries']})
        kinds.append("dataflow over " + ", ".join(names[:8]) + (f" and {len(names) - 8} more entry points" if len(names) > 8 else ""))
    if s.structural:
        kinds.append("whole-program rule(s) " + ", ".join(f.__name__ for f in s.structural))
    mod = sorted({(c.__module__) for c, _ in s.flow} | {f.__module__ for f in s.structural})
    out += [f"### {pid} {q['title']}", "", "*Decided*: " + para(s.rule), "",
            "*How*: " + "; ".join(kinds) + f" (`rules/{'`, `rules/'.join(m + '.py' for m in mod)}`); configurations " + "".join(s.quick) + " quick, " + "".join(s.thorough) + " thorough.", "",
            "*Why tests cannot*: " + para(q["why"]) + ".", ""]
    if q["note"]:
        out += ["*Note*: " + para(q["note"]), ""]
na = []
for k, v in sorted(getattr(props, "NOTAPP", {}).items()):
    na += [f"- **{k} {props.P[k]['title']}**: {para(v)}"]
sd = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    sd.append(f"- `{os.path.basename(os.path.dirname(f))}` ({m['property']}; caught by {m.get('caught_by', m['property'])}): {para(m['what_it_breaks'])} Needs: {para(m['needs'])}")
t = open(H + "/tools/design.in.md").read()
t = t.replace("@@TABLE@@", "\n".join(out).rstrip()).replace("@@NA@@", "\n".join(na)).replace("@@SEEDS@@", "\n".join(sd))
open(H + "/DESIGN.md", "w").write(t)
