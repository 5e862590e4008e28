"""C08: what the analysis reports on programs whose exact dependencies are known."""
import concurrent.futures as cf
from report import Report
from engine import *
from noninterf import static_sets
import precise

def shard(args):
    fvh, seed, sh, n, sizes = args
    d = scratch("prec")
    try:
        fns, res = [], {"viol": [], "st": {}, "kinds": {}, "sample": None}
        for i in range(n):
            r = random.Random("prec/%d/%d/%d" % (seed, sh, i))
            asy = i % 6 == 5
            g = precise.Gen(r, "f_%d" % i, size=r.choice(sizes), early=r.random() < .15, asy=asy)
            g.asy_w = 3 * asy
            g.function()
            ref = precise.Ref(g).allowed
            fns.append(Fn(g.name, g.src(), ("p_block(%s(%s));" if asy else "%s(%s);") % (g.name, ", ".join("v[%d]" % j for j in range(len(g.params)))),
                          range(1, len(g.params) + 1), g.nk, g.no, {"ref": ref, "kinds": g.kinds, "async": asy}))
        kept, exe, dropped, msgs = filter_compiling(fns, precise.HELPERS, d)
        dyn = run_native(exe, seed, 8, 3)
        try: js, p = analyse(fvh, kept, precise.HELPERS, d, ["DSP"], timeout=300)
        except subprocess.TimeoutExpired: js, p = None, None
        if js is None:
            res["viol"].append({"fn": "<file>", "what": "the analysis fails: %s" % (p.stderr[-500:] if p else "does not finish"), "src": ""})
            return res
        by, st = {x["name"]: x for x in js["fns"]}, res["st"]
        def cnt(k, n=1): st[k] = st.get(k, 0) + n
        cnt("functions", len(kept)); cnt("functions rustc rejected", len(dropped))
        for f in kept:
            for k, c in f.meta["kinds"].items(): res["kinds"][k] = res["kinds"].get(k, 0) + c
            asy = f.meta["async"]
            fj = by[f.name + "::{closure#0}" * asy]
            cnt("async functions", asy)
            m = fj["modes"]["DSP"]
            if "panic" in m:
                res["viol"].append({"fn": f.name, "what": "panic: %s" % m["panic"][:300], "src": f.src}); continue
            kn, obs, ref = static_sets(fj), {}, f.meta["ref"]
            for ob in m["obs"]:
                if ob["id"] <= 900000: obs.setdefault(ob["id"], set()).update(ob["deps"])
            infl = dyn[f.name]["infl"] if f.name in dyn else {}
            for oid, deps in obs.items():
                if oid not in ref or asy and oid >= 900000: continue
                ins = [(j, ("k", j), bool(kn[j] & deps), "k(%d)" % j) for j in range(f.nk) if j in kn]
                ins += [(f.nk + j, ("a", a), ("a%d" % a) in deps, "argument %d" % a) for j, a in enumerate(f.argof) if not asy]   # the arguments of an async function are fields of its state
                for j, key, rep, txt in ins:
                    cnt("pairs"); may = key in ref[oid]
                    if (oid, j) in infl:
                        cnt("pairs seen to influence")
                        if not may: raise RuntimeError("the reference misses an influence: %s %d %s\n%s" % (f.name, oid, txt, f.src))
                    cnt("pairs reported", rep); cnt("pairs that must not be reported", not may)
                    if rep and not may:
                        cnt("wrongly reported")
                        if len(res["viol"]) < 10:
                            res["viol"].append({"fn": f.name, "what": "%s is reported for %s although no chain of definitions, uses and branches leads from it there"
                                                % (txt, "o(%d, ..)" % oid if oid < 900000 else "the returned value"), "src": f.src})
            if res["sample"] is None and f.nk: res["sample"] = {"fn": f.name, "source": f.src[:1200], "allowed": {str(o): sorted("%s%d" % x for x in s) for o, s in list(ref.items())[:8]}}
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def async_shard(args):
    """async functions: what running them to completion shows must be reported for their bodies"""
    fvh, seed, sh, n, modes = args
    d = scratch("async")
    try:
        fns, viol, st, sample = [], [], {}, None
        cons = any("C" in m for m in modes)     # slow in the number of calls
        if cons: n = n // 2
        def cnt(k, n=1): st[k] = st.get(k, 0) + n
        for i in range(n):
            g = precise.Gen(random.Random("async/%d/%d/%d" % (seed, sh, i)), "f_%d" % i, size=(4, 6, 8, 11)[i % 4] if not cons else (2, 3, 4)[i % 3], asy=True, early=i % 4 == 3)
            g.asy_w = 5
            g.function()
            fns.append(Fn(g.name, g.src(), "p_block(%s(%s));" % (g.name, ", ".join("v[%d]" % j for j in range(len(g.params)))), range(1, len(g.params) + 1), g.nk, g.no))
        kept, exe, dropped, msgs = filter_compiling(fns, precise.HELPERS, d)
        dyn = run_native(exe, seed, 10, 4)
        try: js, p = analyse(fvh, kept, precise.HELPERS, d, modes, timeout=300)
        except subprocess.TimeoutExpired: js, p = None, None
        if js is None: return st, [{"fn": "<async file>", "what": "the analysis fails: %s" % (p.stderr[-500:] if p else "does not finish"), "src": ""}], None
        by = {x["name"]: x for x in js["fns"]}
        for f in kept:
            cnt("async functions")
            fj = by.get(f.name + "::{closure#0}")
            if not fj: viol.append({"fn": f.name, "what": "the body of an async function is not found", "src": f.src}); continue
            kn = static_sets(fj)
            for mode, m in fj["modes"].items():
                if "panic" in m: viol.append({"fn": f.name, "mode": mode, "what": "panic: %s" % m["panic"][:300], "src": f.src}); continue
                obs = {}
                for ob in m["obs"]: obs.setdefault(ob["id"], set()).update(ob["deps"])
                for oid, deps in obs.items():
                    if oid >= 900000: continue
                    for j in kn:
                        cnt("async pairs")
                        if f.name not in dyn or (oid, j) not in dyn[f.name]["infl"]: continue
                        cnt("async influences observed")
                        if not kn[j] & deps: viol.append({"fn": f.name, "mode": mode, "what": "k(%d) influences o(%d, ..) and is not reported; %s" % (j, oid, dyn[f.name]["infl"][oid, j]), "src": f.src})
        if kept: sample = {"async fn": kept[0].name, "source": kept[0].src[:900]}
        return st, viol[:10], sample
    finally:
        shutil.rmtree(d, ignore_errors=True)

def async_part(rep, fvh, modes):
    with cf.ProcessPoolExecutor(8) as ex:
        for st, viol, sample in ex.map(async_shard, [(fvh, rep.seed, s, 20, modes) for s in range(8 if not rep.thorough else 80)]):
            for k, c in st.items(): rep.count(k, c)
            rep.add(st.get("async pairs", 0), st.get("async influences observed", 0))
            for v in viol: rep.violation("async:%s:%s:%s" % (v["fn"], v.get("mode", "-"), v["what"][:40].replace(" ", "_")), "%s: %s" % (v["fn"], v["what"]), **{k: v[k] for k in v if k != "what"})
            if sample: rep.sample(sample)

def run(prop):
    rep = Report(prop, "seeded programs over scalars, tuples and structs with structured control flow, unambiguous references and calls whose exact inputs are "
                 "computed from the source by a reference slicer; an evaluation is one (observation point, input) pair; distinct non-trivial counts the pairs "
                 "that the reference excludes and that a report would therefore be wrong about", [
        "the reference slicer is at the granularity of rustc's lowering (one level of fields per assignment); native runs confirm that it excludes no observed influence"])
    fvh = build_harness()
    rnd, n = 0, 120
    while True:
        seed, t = rep.seed + 1000 * rnd, time.time()
        jobs = [(fvh, seed, s, n, (4, 6, 9) if s % 3 == 0 else (8, 14, 24)) for s in range(16)]
        with cf.ProcessPoolExecutor(8) as ex: out = list(ex.map(shard, jobs))
        for r in out:
            for k, c in r["st"].items(): rep.count(k, c)
            for k, c in r["kinds"].items(): rep.count("stmt " + k, c)
            rep.add(r["st"].get("pairs", 0), r["st"].get("pairs that must not be reported", 0))
            if r["sample"]: rep.sample(r["sample"])
            for v in r["viol"]: rep.violation("prec:%s:%s" % (v["fn"], v["what"][:40].replace(" ", "_")), "%s: %s" % (v["fn"], v["what"]), **{k: v[k] for k in v if k != "what"})
        rnd += 1
        if not rep.thorough and rnd >= 2 or rep.viol or rep.elapsed() + (time.time() - t) * 1.3 > 600: break
    rep.count("rounds", rnd)
    return rep
