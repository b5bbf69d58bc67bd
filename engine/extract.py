"""Obtain the MIR dump of /repo's current working tree.

The crates under analysis are copied into a private cargo workspace
(/verif/.build/ws), compiled (front end only: `cargo check`) by the current
nightly through /verif/driver, and dumped as JSON.  Dumps are cached under a
hash of every analysed file, so a check re-extracts whenever any source
changed and never reads a stale dump.
"""
import fcntl, hashlib, json, os, pathlib, shutil, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / ".build"
CRATES = ["codec", "spdmlib", "mctp_transport", "pcidoe_transport"]
LOCK = "/opt/vp/ws/Cargo.lock"
DRV = VERIF / "driver"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
CARGO_TC = "nightly-2023-06-20"

CONFIGS = {
    "A": ["spdmlib/hashed-transcript-data", "spdmlib/mut-auth"],
    "B": [],
    "C": ["spdmlib/mut-auth"],
    "D": ["spdmlib/hashed-transcript-data"],
}


def rustup_home():
    return os.environ.get("RUSTUP_HOME", "/root/.rustup")


def sysroot():
    return f"{rustup_home()}/toolchains/{NIGHTLY}"


def src_files(crate):
    root = REPO / crate
    for p in sorted(root.rglob("*")):
        rel = p.relative_to(root)
        if rel.parts[0] in ("target",) or p.is_dir():
            continue
        if rel.as_posix() == "src/config.rs" and crate == "spdmlib":
            continue  # generated by build.rs
        yield rel, p


def tree_hash():
    h = hashlib.sha256()
    for c in CRATES:
        for rel, p in src_files(c):
            h.update(f"{c}/{rel}\0".encode())
            h.update(hashlib.sha256(p.read_bytes()).digest())
    for p in sorted((DRV / "src").iterdir()) + [DRV / "Cargo.toml", pathlib.Path(__file__)]:
        h.update(p.read_bytes())
    return h.hexdigest()[:24]


def run(cmd, env, cwd, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(f"extract: {what} failed ({r.returncode})")
    return r.stdout


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC", "SPDM_CONFIG", "RUSTUP_TOOLCHAIN"))}
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    return e


def build_driver():
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    tgt = BUILD / "driver"
    run(["cargo", "build", "--offline", "-q", "--manifest-path", str(DRV / "Cargo.toml"), "--target-dir", str(tgt)], e, str(DRV), "driver build")
    return tgt / "debug" / "mirdump"


def sync_ws():
    ws = BUILD / "ws"
    ws.mkdir(parents=True, exist_ok=True)
    for c in CRATES:
        dst = ws / c
        want = {}
        for rel, p in src_files(c):
            want[rel.as_posix()] = p.read_bytes()
        if dst.exists():
            for p in list(dst.rglob("*")):
                if p.is_file():
                    r = p.relative_to(dst).as_posix()
                    if r not in want and r != "src/config.rs":
                        p.unlink()
        for rel, data in want.items():
            q = dst / rel
            if not q.exists() or q.read_bytes() != data:
                q.parent.mkdir(parents=True, exist_ok=True)
                q.write_bytes(data)
    (ws / "Cargo.toml").write_text('[workspace]\nmembers = [%s]\nresolver = "2"\n[profile.dev]\ndebug = 0\n' % ", ".join(f'"{c}"' for c in CRATES))
    if not (ws / "sys_time").exists():
        # only a target-specific dependency of spdmlib; must exist to resolve
        shutil.copytree(REPO / "sys_time", ws / "sys_time", ignore=shutil.ignore_patterns("target"))
    lock = ws / "Cargo.lock"
    src = pathlib.Path(LOCK)
    if src.exists():
        lock.write_bytes(src.read_bytes())
    else:
        lock.write_bytes((VERIF / "driver" / "ws.Cargo.lock").read_bytes())
    return ws


def extract(configs=("A",), verbose=False):
    """Return {config: {crate: path-to-json}} for the current tree."""
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        out = {}
        missing = []
        for c in configs:
            d = BUILD / "dump" / h / c
            if all((d / f"{k}.json").exists() for k in CRATES):
                out[c] = {k: d / f"{k}.json" for k in CRATES}
            else:
                missing.append(c)
        if not missing:
            return out, h
        # keep the dump directory bounded
        dd = BUILD / "dump"
        if dd.exists():
            olds = sorted((p for p in dd.iterdir() if p.name != h), key=lambda p: p.stat().st_mtime)
            for p in olds[:-3]:
                shutil.rmtree(p, ignore_errors=True)
        t0 = time.time()
        drv = build_driver()
        ws = sync_ws()
        for c in missing:
            d = dd / h / c
            d.mkdir(parents=True, exist_ok=True)
            tgt = BUILD / "target" / c
            for k in CRATES:
                for fp in (tgt / "debug" / ".fingerprint").glob(k + "-*"):
                    shutil.rmtree(fp, ignore_errors=True)
            e = base_env()
            e["RUSTUP_TOOLCHAIN"] = CARGO_TC
            e["RUSTC"] = f"{sysroot()}/bin/rustc"
            e["RUSTC_WORKSPACE_WRAPPER"] = str(drv)
            e["LD_LIBRARY_PATH"] = f"{sysroot()}/lib"
            e["MIRDUMP_OUT"] = str(d)
            e["RUSTFLAGS"] = "--cap-lints=allow"
            cmd = ["cargo", "check", "--offline", "--lib"] + [x for k in CRATES for x in ("-p", k)] + ["--no-default-features", "--target-dir", str(tgt)]
            if CONFIGS[c]:
                cmd += ["--features", ",".join(CONFIGS[c])]
            o = run(cmd, e, str(ws), f"cargo check [{c}]")
            if verbose:
                sys.stderr.write(o)
            for k in CRATES:
                if not (d / f"{k}.json").exists():
                    raise SystemExit(f"extract: no dump for crate {k} in configuration {c}")
            out[c] = {k: d / f"{k}.json" for k in CRATES}
        if verbose:
            sys.stderr.write(f"extract: {time.time()-t0:.1f}s\n")
        return out, h


if __name__ == "__main__":
    cs = sys.argv[1:] or ["A", "B"]
    o, h = extract(cs, verbose=True)
    print(h)
    for c in o:
        for k, p in o[c].items():
            print(c, k, p, os.path.getsize(p))
