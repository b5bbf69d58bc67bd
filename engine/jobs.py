"""Run analysis jobs (entry x configuration x work share) in forked workers."""
import os, sys, time, traceback, pickle, resource
import multiprocessing as mp
import extract, mir, domain
from interp import Engine, Hooks, Limit, norm
from terms import *

sys.setrecursionlimit(20000)


class Job:
    def __init__(self, cfg, entry, pol="std", split=1, setup=None, name=None, unroll=0, passes=2, wide=False):
        self.cfg, self.entry, self.pol, self.split, self.setup = cfg, entry, pol, split, setup
        self.name = name or entry.split("::")[-1]
        self.unroll, self.tag, self.passes, self.wide = unroll, None, passes, wide
        self.rules = []

    @property
    def key(self):
        return (self.cfg, self.entry, self.pol, self.split, self.setup and self.setup.__name__, self.unroll, self.tag, self.wide)


class Multi(Hooks):
    def __init__(self, rules):
        self.rules = rules
        self.__init_sent()

    def on_call(self, eng, call, args, st):
        for r in self.rules:
            x = r.on_call(eng, call, args, st)
            if x is not None:
                return x
        return None

    def __init_sent(self):
        l = [r for r in self.rules if hasattr(r, "on_sent")]
        if l:
            self.on_sent = lambda *a: [r.on_sent(*a) for r in l]

    def on_write(self, *a):
        for r in self.rules:
            r.on_write(*a)

    def on_assert(self, *a):
        for r in self.rules:
            r.on_assert(*a)


class Rec:
    """one decided obligation"""
    __slots__ = ("prop", "key", "ok", "where", "why", "n", "cfg")

    def __init__(self, prop, key, ok, where="", why=""):
        self.prop, self.key, self.ok, self.where, self.why, self.n = prop, key, bool(ok), where, why, 1

    def __repr__(self):
        return f"{'ok ' if self.ok else 'BAD'} {self.key} @ {self.where} {self.why[:300]}"


PROGS = {}
POLS = {"std": domain.policy, "low": domain.low_policy, "kd": domain.kd_policy, "ks": domain.ks_policy}


def load(cfgs):
    outs, h = extract.extract(tuple(cfgs))
    for c in cfgs:
        if c not in PROGS:
            PROGS[c] = mir.Prog(outs[c])
    return h


def run_one(arg):
    job, share, specs = arg
    t0 = time.time()
    out = dict(job=job.name, key=job.key, cfg=job.cfg, share=share, recs=[], fns=set(), steps=0, merges=0, calls=0, err=None, blocks=0, recursion=set())
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    for attempt, (b1, b2, b3, lim) in enumerate([(24, 96, 320, 4_000_000) if job.split > 1 else (12, 48, 160, 1_500_000), (4, 16, 40, 3_000_000)]):
        try:
            p = PROGS[job.cfg]
            fn = p.find(job.entry) if not callable(job.entry) else job.entry(p)
            rules = [mkr(p, job) for mkr in specs]
            Engine.B1, Engine.B2, Engine.B3 = (4096,) * 3 if job.wide else (b1, b2, b3)
            r = domain.Run(p, fn, hooks=Multi(rules), pol=POLS[job.pol], split=(share, job.split) if job.split > 1 else None,
                           track=domain.track, setup=job.setup, max_steps=lim, unroll=job.unroll, passes=job.passes)
            for rule in rules:
                rule.finish(r)
                out["recs"] += rule.recs
            e = r.eng
            out.update(fns=set(e.fn_visited), steps=e.steps, merges=e.merges, calls=e.callsites, blocks=len(e.visited), recursion=e.recursion,
                       outs=len(r.outs))
            break
        except Limit as x:
            out["err"] = f"analysis of {job.entry} [{job.cfg}] exceeded its budget: {x}"
            continue
        except Exception:
            out["err"] = f"analysis of {job.entry} [{job.cfg}] failed: " + traceback.format_exc()[-1500:]
            break
    if out["recs"] or out["steps"]:
        if attempt and out["steps"]:
            out["err"] = None
    out["wall"] = time.time() - t0
    return out


def run_jobs(jobs, procs=8):
    tasks = []
    for j in jobs:
        for i in range(j.split):
            tasks.append((j, i, j.rules))
    tasks.sort(key=lambda t: -t[0].split)
    if not tasks:
        return []
    ctx = mp.get_context("fork")
    global _TASKS
    _TASKS = tasks
    with ctx.Pool(min(procs, len(tasks)), maxtasksperchild=4) as pool:
        return list(pool.imap_unordered(_run_idx, range(len(tasks)), chunksize=1))


_TASKS = []


def _run_idx(i):
    return run_one(_TASKS[i])
