"""Campaigns: generate programs, run them natively, analyse them with the real code, compare."""
import concurrent.futures as cf, os, random, shutil, subprocess, sys, time, traceback
from core import *
from noninterf import check_fn
import gen

HELPERS = open(os.path.join(VERIF, "lib/helpers.rs")).read()

def seed_of():
    try: return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: return 1

def tier():
    return os.environ.get("VERIF_TIER", "quick")

def make_fns(profile, n, seed, shard, sizes=(5, 8, 12, 18, 26), ncallee=0, prefix="f_", **kw):
    """n functions and the generated callees they use"""
    rng0 = random.Random("%s/%s/%d/callees" % (seed, profile, shard))
    callees, cdefs = [], []
    for c in range(ncallee):
        src, d = gen.gen_callee(rng0, "gc_%d" % c, cdefs if kw.get("nested_callees") else ())
        callees.append(src); cdefs.append(d)
    fns = []
    for i in range(n):
        rng = random.Random("%s/%s/%d/%d" % (seed, profile, shard, i))
        g = gen.Gen(rng, profile, "%s%d" % (prefix, i), nst=rng.choice(sizes), gencallees=cdefs)
        src, call, argof = g.function()
        f = Fn(g.name, src, call, argof, g.nk, g.nobs, {"profile": profile, "kinds": g.kinds_used, "early": g.early})
        fns.append(f)
    return fns, callees

def compiling_helpers(callees, d):
    """drops generated callees rustc rejects"""
    fns = [Fn("gc_%d" % i, s, "", [], 0) for i, s in enumerate(callees)]
    return fns

def shard(args):
    """one worker: returns a result dictionary"""
    fvh, profile, n, seed, sh, modes, nbase, nalt, ncallee, opts = args
    d = scratch("sh")
    t0 = time.time()
    try:
        fns, callees = make_fns(profile, n, seed, sh, ncallee=ncallee, **opts.get("gen", {}))
        helpers = HELPERS
        # generated callees compile together with the callers; failures drop whatever uses them
        cf_ = [Fn("gc_%d" % i, s, "let _ = v;", [], 0, 0, {"callee": True}) for i, s in enumerate(callees)]
        kept, exe, dropped, msgs = filter_compiling(cf_ + fns, helpers, d)
        try:
            js, r = analyse(fvh, kept, helpers, d, modes, extra=opts.get("extra", ()), timeout=opts.get("tmo", 600))
        except subprocess.TimeoutExpired:
            js, r = None, subprocess.CompletedProcess([], 124, "", "the analysis does not finish on this file")
        res = {"profile": profile, "shard": sh, "kept": 0, "dropped": len(dropped), "viol": [], "stats": {}, "kinds": {}, "traces": 0, "runs": 0, "t": 0, "samples": [], "msgs": msgs[:2]}
        if js is None:
            res["viol"].append({"fn": "<whole file>", "mode": "-", "what": "harness exit %d: %s" % (r.returncode, r.stderr[-800:]), "src": ""})
            return res
        dyn = run_native(exe, seed, nbase, nalt)
        by = {x["name"]: x for x in js["fns"]}
        st = res["stats"]
        for f in kept:
            if f.meta.get("callee"): continue
            res["kept"] += 1
            for k_, c in f.meta["kinds"].items(): res["kinds"][k_] = res["kinds"].get(k_, 0) + c
            if f.name not in dyn: continue
            dy = dyn[f.name]
            res["traces"] += dy["traces"]; res["runs"] += dy["runs"]
            st["panics"] = st.get("panics", 0) + dy["panics"]
            st["exitdiff"] = st.get("exitdiff", 0) + dy.get("exitdiff", 0)
            for m in modes:
                v, s1 = check_fn(f, by[f.name], dy, m, opts.get("fwd"))
                for a, b in s1.items(): st[a] = st.get(a, 0) + b
                for x in v:
                    res["viol"].append({"fn": f.name, "mode": m, "what": x, "src": f.src, "call": f.call, "argof": f.argof, "nk": f.nk,
                                        "helpers": "\n".join(callees)})
                if len(res["samples"]) < 1 and dy["infl"]:
                    (oid, j), how = sorted(dy["infl"].items())[0]
                    res["samples"].append({"fn": f.name, "profile": profile, "shard": sh, "source": f.src[:1500], "observer": oid,
                                           "input": "k(%d)" % j if j < f.nk else "argument %d" % f.argof[j - f.nk], "runs": how})
            if "post" in opts: opts["post"](res, f, by[f.name], dy)
        res["t"] = time.time() - t0
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def campaign(fvh, plan, modes, nbase=10, nalt=4, seed=None, ncallee=0, opts=None, workers=8):
    """plan: list of (profile, functions per shard, shards)"""
    seed = seed_of() if seed is None else seed
    jobs = []
    for profile, n, shards in plan:
        for s in range(shards):
            jobs.append((fvh, profile, n, seed, s, modes, nbase, nalt, ncallee, opts or {}))
    out = []
    with cf.ProcessPoolExecutor(workers) as ex:
        for r in ex.map(shard, jobs): out.append(r)
    return out

def merge(results):
    t = {"samples": [], "kept": 0, "dropped": 0, "runs": 0, "traces": 0, "stats": {}, "kinds": {}, "viol": []}
    for r in results:
        for k in ("kept", "dropped", "runs", "traces"): t[k] += r[k]
        for k in ("stats", "kinds"):
            for a, b in r[k].items(): t[k][a] = t[k].get(a, 0) + b
        t["viol"] += r["viol"]
        t["samples"] += r["samples"]
    return t
