"""C01-C07: run generated programs, compare observed influence with what the analysis reports."""
import concurrent.futures as cf
from report import Report
from engine import *
import probes

ALL = ("data", "ctl", "ref", "call", "mix", "early", "div")
RULE = ("programs from a seeded grammar (profiles %s) plus hand-written probes, compiled natively and run on base inputs and on "
        "variations of one input; an evaluation is one (function, mode, observation point, input) whose reported dependency is compared with "
        "what the runs showed; distinct non-trivial counts the pairs for which runs differing only in that input were seen to differ at that point")

#       main profiles, modes, ncallee, forward
SPEC = {
    "C01": (("data", "mix"), ["DSP"], 0, False),
    "C02": (("ctl", "early", "div"), ["DSP"], 0, False),
    "C03": (("ref", "mix"), ["DSP"], 0, False),
    "C04": (("call", "mix"), ["DSP"], 12, False),
    "C05": (("call", "mix", "ref"), ["DRP"], 12, False),
    "C06": (("mix", "call", "ref"), ["ISP", "DSC", "IRC", "DRC"], 12, False),
    "C07": (("mix", "ctl", "ref"), ["DSP"], 6, True),
}

def run(prop):
    main, modes, nc, fwd = SPEC[prop]
    rep = Report(prop, RULE % ", ".join(ALL), [
        "the native program compiled by the same rustc shows what the program does",
        "runs that leave a function through different exits are not compared (by design of the tool)"])
    fvh = build_harness()
    n = 60
    plan = [(p, n, 8 if p in main else 3) for p in ALL]
    if rep.thorough: plan = [(p, n, 10) for p in ALL]
    opts = {"gen": {"nested_callees": True}, "fwd": fwd, "extra": ["--fwd"] if fwd else [], "tmo": 200}
    # probes first: they are fixed
    try:
        pv, pst = probes.run(fvh, modes, rep.seed, nbase=60 if rep.thorough else 40, fwd=fwd)
    except subprocess.TimeoutExpired:
        pv, pst = [("<all>", "-", ("hang", "the analysis of the probes does not finish"), "")], {}
    for (fn, mode, v, src) in pv:
        rep.violation("probe:%s:%s:%s" % (fn, mode, ":".join(str(x) for x in v[1:3]).replace(" ", "_")), "%s in %s: %s" % (fn, mode, v), fn=fn, mode=mode, src=src)
    rep.add(pst.get("pairs", 0), pst.get("infl", 0))
    rep.count("probe functions", pst.get("fns", 0))
    if prop in ("C01", "C05", "C06"):
        import prec_checks
        prec_checks.async_part(rep, fvh, modes)
    rnd, budget = 0, 540
    while True:
        seed = rep.seed + 1000 * rnd
        t = time.time()
        res = merge(campaign(fvh, plan, modes, seed=seed, ncallee=nc if rnd % 2 == 0 else 0, opts=opts, nbase=10 if rnd == 0 else 14))
        absorb(rep, res, modes)
        rnd += 1
        if (not rep.thorough and rnd >= (2 if prop in ("C06", "C07") else 3)) or rep.viol or rep.elapsed() + (time.time() - t) * 1.3 > budget: break
    rep.count("rounds", rnd)
    if prop in ("C06", "C07"):
        import state_checks
        state_checks.sweep(rep, fvh, {"C06": ["modeord"], "C07": ["slice"]}[prop])
    return rep

def absorb(rep, res, modes):
    for k in ("kept", "dropped", "runs", "traces"): rep.count({"kept": "functions", "dropped": "functions rustc rejected", "runs": "native runs", "traces": "distinct traces"}[k], res[k])
    for a, b in res["stats"].items():
        rep.count({"pairs": "pairs compared", "static_dep": "pairs reported as dependent", "dyn": "influences observed", "obs_exec": "observers executed", "panics": "runs that panicked", "exitdiff": "run pairs through different exits"}.get(a, a), b)
    for a, b in res["kinds"].items(): rep.count("stmt " + a, b)
    rep.add(res["stats"].get("pairs", 0), res["stats"].get("dyn", 0) // len(modes))
    for v in res["viol"]:
        rep.violation("gen:%s:%s:%s" % (v["fn"], v["mode"], str(v["what"])[:60].replace(" ", "_")), "%s in %s: %s" % (v["fn"], v["mode"], v["what"]), **{k: v[k] for k in v if k != "what"})
    for s in res.get("samples", []): rep.sample(s)
