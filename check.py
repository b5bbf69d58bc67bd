#!/usr/bin/env python3
"""check.py <property id>... | all   [--tier quick|thorough] [--list]

Decides the properties of /verif/properties.jsonl by static analysis of the MIR
of /repo's current working tree.  Exit 0: all obligations discharged (or listed
as known findings); exit 1: VIOLATION lines."""
import os, sys, json, re, time, importlib, glob, collections, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]
sys.setrecursionlimit(20000)
import jobs as J
import rulelib
from registry import REG, COVER


def load_rules():
    for f in sorted(glob.glob(os.path.join(HERE, "rules", "r_*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])


def known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            if d["property"] == pid:
                out.append(d)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        i = sys.argv.index("--tier")
        tier = sys.argv[i + 1]
        args.remove(tier)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    load_rules()
    ids = sorted(REG) if args == ["all"] else args
    for i in ids:
        if i not in REG:
            print(f"unknown property {i}", file=sys.stderr)
            return 2
    t0 = time.time()
    specs = {i: REG[i] for i in ids}
    cfgs = sorted({c for s in specs.values() for c in s.cfgs(tier)})
    recs = collections.defaultdict(list)
    stats = {i: dict(jobs=[], fns=set(), steps=0, calls=0, blocks=0, merges=0, recursion=set(), wall=0.0) for i in ids}
    fatal = None
    try:
        J.load(cfgs)
    except Exception as x:
        fatal = f"the tree could not be analysed: {x}"
    if fatal is None:
        allj = {}
        for i, s in specs.items():
            for c in s.cfgs(tier):
                for cls, jl in s.flow:
                    for j in jl(c):
                        if getattr(cls, 'alone', False):
                            j.tag = cls.prop
                        j = allj.setdefault(j.key, j)
                        j.rules.append(cls)
        for r in J.run_jobs(list(allj.values())):
            props = {x.prop for x in r["recs"]}
            for x in r["recs"]:
                x.cfg = r["cfg"]
                recs[x.prop].append(x)
            users = {cls.prop for cls in allj[r["key"]].rules}
            for i in users:
                if i not in stats:
                    continue
                if r["err"]:
                    b = J.Rec(i, f"engine:{r['job']}", False, r["job"], r["err"])
                    b.cfg = r["cfg"]
                    recs[i].append(b)
                st = stats[i]
                st["jobs"].append(f"{r['job']}[{r['cfg']}]")
                st["fns"] |= {(r["cfg"], f) for f in r["fns"]}
                for k in ("steps", "calls", "blocks", "merges"):
                    st[k] += r[k]
                st["recursion"] |= set(map(str, r["recursion"]))
                st["wall"] += r["wall"]
        for i, s in specs.items():
            for c in s.cfgs(tier):
                for fn in s.structural:
                    try:
                        for x in fn(J.PROGS[c], i):
                            x.cfg = c
                            recs[i].append(x)
                    except Exception:
                        b = J.Rec(i, f"structural:{fn.__name__}", False, fn.__name__, "rule could not be evaluated: " + traceback.format_exc()[-1200:])
                        b.cfg = c
                        recs[i].append(b)
    for i, c in COVER.items():
        st = stats[i]
        st["jobs"] += sorted(c["jobs"])
        st["fns"] |= {("", f) for f in c["fns"]}
        for k in ("steps", "calls", "blocks"):
            st[k] += c[k]
    rc = 0
    for i in ids:
        if report(i, specs[i], recs[i], stats[i], fatal, tier, seed, time.time() - t0, verbose):
            rc = 1
    return rc


def report(pid, spec, recs, st, fatal, tier, seed, wall, verbose):
    # merge by (cfg, key)
    m = {}
    for r in recs:
        k = (r.cfg, r.key)
        if k in m:
            m[k].n += r.n
            if m[k].ok and not r.ok:
                m[k].ok, m[k].where, m[k].why = False, r.where, r.why
        else:
            m[k] = r
    bad = []
    if fatal:
        bad.append(("tree", "", fatal))
    else:
        per = collections.defaultdict(list)
        for (c, k), r in m.items():
            per[c].append(r)
        for c in spec.cfgs(tier):
            for pat, floor in spec.expect:
                got = sum(1 for r in per[c] if re.search(pat, r.key))
                if got < floor:
                    r = J.Rec(pid, f"anchor:{pat}", False, "", f"expected at least {floor} obligation(s) matching {pat!r} in configuration {c}, found {got}: the construct this property is about can no longer be found by the analysis")
                    r.cfg = c
                    m[(c, r.key)] = r
        bad = [(r.key, f"{r.where} [config {r.cfg}]", r.why) for r in m.values() if not r.ok]
    kf = known(pid)
    viol, found = {}, {}
    for key, where, why in bad:
        for d in kf:
            if re.fullmatch(d["key"], key):
                found.setdefault(d["key"], (d, where, why))
                break
        else:
            viol.setdefault(key, (where, why))
    obl = sorted(m.values(), key=lambda r: (r.key, r.cfg))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.level,
        "wall_s": round(wall, 2),
        "coverage": {
            "obligations": len(m), "discharged": sum(1 for r in m.values() if r.ok),
            "checker_cmd": f"python3 check.py {pid}",
            "trusted_base": TRUSTED,
            "rule": spec.rule,
            "explanation": spec.rule + "  Decided over the MIR of the current tree; each obligation is one construct (call site, write, field, return) under one configuration, checked in every abstract state that reaches it.",
            "configurations": spec.cfgs(tier),
            "entries": sorted(set(st["jobs"])),
            "functions_analysed": len(st["fns"]),
            "abstract_states_at_obligations": sum(r.n for r in m.values()),
            "abstract_steps": st["steps"], "call_sites": st["calls"], "blocks_visited": st["blocks"], "joins": st["merges"],
            "recursive_functions_cut": sorted(st["recursion"])[:20],
            "samples": [f"{'ok' if r.ok else 'BAD'} [{r.cfg}] {r.key} @ {r.where}" for r in obl[:60]],
            "known_findings": sorted(found),
            "violations": sorted(viol),
        },
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if verbose:
        for r in obl:
            print(("ok  " if r.ok else "BAD ") + f"[{r.cfg}] {r.key} x{r.n} @ {r.where}" + ("" if r.ok else "  -- " + r.why[:400]))
    for k, (d, where, why) in sorted(found.items()):
        print(f"KNOWN-FINDING: property={pid} {d['what']} ({where})")
    if viol:
        rd = os.path.join(HERE, "evidence", f"{pid}.violations.txt")
        with open(rd, "w") as f:
            for k, (where, why) in sorted(viol.items()):
                f.write(f"{k}\n  at {where}\n  {why}\n\n")
        for k, (where, why) in sorted(viol.items())[:12]:
            print(f"  {k}\n    at {where}\n    {why[:600]}")
        print(f"VIOLATION property={pid} replay={rd}")
        return True
    rd = os.path.join(HERE, "evidence", f"{pid}.violations.txt")
    if os.path.exists(rd):
        os.remove(rd)
    print(f"{pid}: {len(m)} obligations decided, {len(found)} known finding(s), {len(st['fns'])} functions, {wall:.1f}s")
    return False


TRUSTED = ["rustc nightly-2022-11-21 front end and MIR construction (pinned toolchain of the repository)",
           "/verif/driver (MIR serialiser)", "/verif/engine (abstract interpreter, library models)", "CPython 3"]

if __name__ == "__main__":
    sys.exit(main())
