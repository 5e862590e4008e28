"""C06/C07/C10/C11/C13/C14: oracles over the states and sets the analysis computed, on generated and real code."""
import concurrent.futures as cf, glob, json
from report import Report
from engine import *
import corpus, probes

SPEC = {
    "C10": (["rep"], "an evaluation is one repeated or reordered analysis of one body, or one command of the driver run four times, compared with the first one; non-trivial: analyses whose answer differs from the default mode's, or bodies with control flow"),
    "C11": (["fix"], "an evaluation is one location whose reported state is compared with the least solution found by a separate round-robin solver; non-trivial: locations of bodies where the solver needed more than two rounds"),
    "C13": (["place"], "an evaluation is one place (or one reachable place of an argument) on which every law is checked; non-trivial: places with projections"),
    "C14": (["mut"], "an evaluation is one statement or terminator whose reported mutations are compared with a structural reading of the MIR; non-trivial: those that read a place"),
}
KEYS = {"fix": ["fix"], "slice": ["slice", "group"], "place": ["place", "arg"], "mut": ["mut"], "rep": ["rep"], "modeord": ["modes"]}

def job(a):
    fvh, path, flags, extra, budget, name, tmo, maxlocs = a
    d = scratch("inv")
    try:
        out = os.path.join(d, "o.json")
        try:
            r = subprocess.run([fvh, "inv", path, "--out", out] + ["--" + f for f in flags] + (["--"] + extra if extra else []),
                               env=renv(FVH_BUDGET=str(budget), FVH_MAX_LOCS=str(maxlocs)), capture_output=True, text=True, cwd=d, timeout=tmo)
        except subprocess.TimeoutExpired:
            return name, None, "hang"
        if not os.path.exists(out):
            return name, None, "exit %d %s" % (r.returncode, r.stderr[-500:])
        return name, json.load(open(out)), None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def gen_files(d, seed, n, profiles, shards, nc=8):
    fs = []
    for sh in range(shards):
        for p in profiles:
            fns, callees = make_fns(p, n, seed, 700 + sh, ncallee=nc, nested_callees=True)
            cf_ = [Fn("gc_%d" % i, s, "let _ = v;", [], 0) for i, s in enumerate(callees)]
            fs.append((p, sh, cf_ + fns))
    return fs

def prep(a):
    p, sh, fns, d = a
    kept, msgs = filter_metadata(fns, HELPERS, d, "%s%d" % (p, sh))
    s, _ = assemble(kept, HELPERS, False)
    path = os.path.join(d, "inv_%s_%d.rs" % (p, sh))
    open(path, "w").write(s)
    return path, len(kept)

def sweep(rep, fvh, flags, n=None):
    d = scratch("sweep")
    try:
        th = rep.thorough
        profiles = ("data", "ctl", "ref", "call", "mix", "early", "div")
        shards = 8 if th else 2
        with cf.ProcessPoolExecutor(8) as ex:
            ph, pf = probes.load()
            files = [(os.path.join(d, "inv_probes.rs"), len(pf))]
            open(files[0][0], "w").write(assemble(pf, ph, False)[0])
            files += list(ex.map(prep, [(p, sh, f, d) for p, sh, f in gen_files(d, rep.seed, 40, profiles, shards)]))
            heavy = flags[0] in ("rep", "modeord", "fix")
            jobs = [(fvh, p, flags, [], 60 if th else 20, "generated:" + os.path.basename(p), 300 if th else 100, 1200) for p, _ in files]
            for name, path, extra in corpus.files(th):
                jobs.append((fvh, path, flags, extra, 60 if th else 8, name, 300 if th else 100, 400 if heavy and not th else 900))
            for name, js, err in ex.map(job, jobs):
                if err:
                    if name.startswith("generated"):
                        rep.violation("file:%s" % name, "no answer: %s" % err, file=name)
                    else: rep.count("corpus files not analysed")
                    continue
                rep.count("files")
                rep.count("bodies", js["bodies"]); rep.count("locations", js["locations"]); rep.count("bodies over the limits", js["skipped"])
                for fl in flags:
                    for k in KEYS[fl]:
                        e, nt = js["evals"].get(k, 0), js["nontrivial"].get(k, 0)
                        rep.add(e, nt); rep.count("evaluations of " + k, e)
                for v in js["viol"]:
                    if v["check"] == "slow": rep.count("bodies over 20 s"); continue
                    rep.violation("%s:%s:%s:%s" % (v["check"], name, v["fn"], v["what"][:60].replace(" ", "_")), "%s %s: %s" % (name, v["fn"], v["what"]), file=name, fn=v["fn"])
                if js["bodies"]: rep.sample({"file": name, "bodies": js["bodies"], "locations": js["locations"], "evaluations": js["evals"]})
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(prop):
    flags, rule = SPEC[prop]
    rep = Report(prop, "bodies of seeded generated programs and of real crates (the repository's own sources and test programs, crates of the local cargo registry); " + rule)
    fvh = build_harness()
    sweep(rep, fvh, flags)
    if prop == "C10":
        import ide_checks
        ide_checks.repeats(rep)
    return rep
