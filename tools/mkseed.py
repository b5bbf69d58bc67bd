#!/usr/bin/env python3
"""Write seeded/<id>/ from tools/seeds/<id>.py: P, FILES = {path: [(old, new), ...]}, NEEDS, BREAKS, DEMO (rust).  mkseed.py ID... [--try]"""
import sys, os, subprocess, json, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = "mod world;\n#[allow(unused_imports)]\nuse world::*;\n#[allow(unused_imports)]\nuse spdmlib::{common::*, common::session::*, message::*, protocol::*};\n#[allow(unused_imports)]\nuse std::sync::atomic::Ordering::SeqCst;\n#[allow(unused_imports)]\nuse SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone as NoSum;\nfn main() { on_big_stack(run) }\n"


def make(i):
    g = {}
    exec(open(f"{H}/tools/seeds/{i}.py").read(), g)
    d = f"{H}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    diff = ""
    for f, eds in g["FILES"].items():
        s = o = open("/repo/" + f).read()
        for old, new in eds:
            assert s.count(old) == 1, (i, f, s.count(old), old[:80])
            s = s.replace(old, new)
        import difflib
        bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
        ol = o.splitlines()
        rem = [j for t, a1, a2, *_ in difflib.SequenceMatcher(None, ol, s.splitlines(), False).get_opcodes() if t in ("replace", "delete") for j in range(a1, a2)]
        own = [ol[j] for j in rem if not bl[j].startswith("^")]
        if own or not rem:
            print(f"  ** {i}: {f}: {len(own)} of {len(rem)} removed lines are mine: {own[:3]}")
        for k, t in (("a", o), ("b", s)):
            p = f"{w}/{k}/{f}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        diff += subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{f}", f"b/{f}"], cwd=w, capture_output=True, text=True).stdout.replace(f"diff --git a/{f} b/{f}", f"diff --git a/{f} b/{f}")
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    json.dump(dict(property=g["P"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    shutil.copy(H + "/tools/world/demo.sh", d)
    shutil.copy(H + "/tools/world/world.rs", d)
    open(d + "/demo.rs", "w").write(PRE + g["DEMO"])
    return g["P"]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def check(i, p):
    """0 clean demo, patched: build, stable tests, demo, checks"""
    d = f"{H}/seeded/{i}"
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    a = sh(f"git -C /repo apply {d}/patch.diff")
    assert a.returncode == 0, a.stderr
    try:
        b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed.json")
        ok = False
        if b.returncode == 0 or os.path.exists("/tmp/seed.json"):
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            got = json.load(open("/tmp/seed.json"))["passed"]
            ok = not [x for x in base if x not in got]
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        c = sh(f"python3 {H}/check.py {p}")
    finally:
        sh("git -C /repo checkout -- .")
        if os.path.exists("/tmp/seed.json"):
            os.remove("/tmp/seed.json")
    v = [l[:230] for l in c.stdout.splitlines() if l.startswith("VIOLATION") or "BAD" in l]
    good = r0.returncode == 0 and r1.returncode == 1 and ok
    print(f"{i} [{p}] demo clean={r0.returncode} patched={r1.returncode} tests={'ok' if ok else 'FAIL'} check={c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED' if c.returncode == 0 else 'ERROR'}{'' if good else '  ** NOT A VALID SEED'}")
    if not good:
        print((r0.stdout + r0.stderr)[-600:], "\n---\n", (r1.stdout + r1.stderr)[-600:])
    for l in v[:4]:
        print("   ", l)
    if c.returncode not in (0, 1):
        print((c.stdout + c.stderr)[-500:])


args = [a for a in sys.argv[1:] if not a.startswith("-")]
for i in args or sorted(x[:-3] for x in os.listdir(H + "/tools/seeds") if x.endswith(".py")):
    p = make(i)
    if "--try" in sys.argv:
        check(i, p)
