"""C19: the analysis of whatever compiles ends, without a panic."""
import concurrent.futures as cf, glob, json, random, re, resource
from report import Report
from engine import *
from ide import Ide, build_ide, decode
import corpus, state_checks, stress

ALL = "DSP,DSC,DRP,DRC,ISP,ISC,IRP,IRC"
PROFILES = ("data", "ctl", "ref", "call", "mix", "early", "div")

def limit(gb):
    def f(): resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f

def job(a):
    """name, what, report of the harness or the reason why there is none"""
    fvh, name, path, extra, modes, budget, tmo, rot, gb = a
    d = scratch("total")
    try:
        out, prog = d + "/o.json", d + "/progress"
        e = renv(FVH_BUDGET=str(budget), FVH_PROGRESS=prog, FVH_ROT=str(rot), FVH_MAX_LOCS="3000")
        at = lambda: open(prog).read() if os.path.exists(prog) else ""
        try:
            r = subprocess.run([fvh, "total", path, "--out", out, "--modes", modes] + (["--"] + extra if extra else []),
                               env=e, capture_output=True, text=True, cwd=d, timeout=tmo, errors="replace", preexec_fn=limit(gb))
        except subprocess.TimeoutExpired:
            return name, None, "no end after %d s" % tmo, at()
        if not os.path.exists(out):
            return name, None, "the process ends with status %d: %s" % (r.returncode, r.stderr.strip()[-300:]), at()
        return name, json.load(open(out)), None, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)

def probes():
    return [(f, os.path.join(VERIF, "probes", f)) for f in ("weird.rs", "weird2.rs")]

def focus_job(a):
    """the command line on some of the bodies of one file: every one must be answered"""
    ide, name, path, extra, seed, n, of = a
    d, st, viol = scratch("focus"), {"focus": 0, "bodies": 0}, []
    try:
        tmo = 240
        ex = [x for i, x in enumerate(extra) if not x.startswith("--edition") and "--crate-name" not in extra[max(0, i - 1):i + 1]]
        ed = [x for x in extra if x.startswith("--edition")]
        def call(*cmd):
            return ide.direct(d, path, [], cmd, timeout=tmo, rustc=ex, edition=ed[0] if ed else "--edition=2024")
        r = call("spans", 0, 0, of)
        try: j = decode(r.stdout)
        except Exception as e: return name, st, [{"fn": "<file>", "what": "spans: output cannot be decoded (%s), status %d %s" % (e, r.returncode, r.stderr[-200:])}]
        if j is None: return name, st, []      # rustc does not accept it on its own
        if "Ok" not in j and of != path: return name, st, []      # a file that is not part of the crate
        if "Ok" not in j: return name, st, [{"fn": "<file>", "what": "spans: %s" % str(j)[:300]}]
        bs = j["Ok"]["spans"]
        st["bodies"] = len(bs)
        r0 = random.Random("focus/%s/%d" % (name, seed))
        for b in r0.sample(bs, min(n, len(bs))):
            s = b["start"]
            try: r = call("focus", s["line"], s["column"], of)
            except subprocess.TimeoutExpired:
                viol.append({"fn": "%s:%s" % (s["line"], s["column"]), "what": "focus: no end after %d s" % tmo}); continue
            st["focus"] += 1
            try: j = decode(r.stdout)
            except Exception as e: j = None
            if j is None or "Ok" not in j:
                viol.append({"fn": "%d:%d" % (s["line"], s["column"]), "what": "focus gives no answer: status %d, %s, %s" % (r.returncode, str(j)[:200], r.stderr.strip()[-300:])})
        return name, st, viol
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(prop):
    rep = Report(prop, "an evaluation is one body analysed in one evaluation mode (the flow, the dependencies of its places in all directions, the spans shown to the user, and every place query), or one focus command; non-trivial: a distinct body")
    fvh, th = build_harness(), rep.thorough
    d = scratch("total-gen")
    try:
        with cf.ProcessPoolExecutor(8) as ex:
            files = list(ex.map(state_checks.prep, [(p, sh, f, d) for p, sh, f in state_checks.gen_files(d, rep.seed, 40, PROFILES, 6 if th else 2)]))
        jobs = [(fvh, "generated:" + os.path.basename(p), p, [], ALL, 200 if th else 40, 400, 0, 12) for p, _ in files]
        jobs = [(fvh, "probe:" + n, p, [], ALL, 1e6, 400, 0, 12) for n, p in probes()] + jobs
        for k, ms in ((.3, ALL), (1, "DSP,DRP")) + (((.7, "DSC,ISP"), (1.7, "DSP")) if th else ()):
            for n, src in stress.shapes(k):
                p = "%s/stress_%s_%s.rs" % (d, n, str(k).replace(".", "_"))
                open(p, "w").write(src + "\n")
                jobs.append((fvh, "probe:stress %s x%s" % (n, k), p, [], ms, 1e6, 400, 0, 12))
        jobs.append((fvh, "probe:polyrec.rs", os.path.join(VERIF, "probes", "polyrec.rs"), [], "DSP", 1e6, 20, 0, 3))
        for n, p, e in corpus.files(th):
            jobs.append((fvh, n, p, e, ALL if th else "DSP", 200 if th else 20, 600 if th else 400, rep.seed, 12))
        for n, p, e in corpus.std():
            jobs.append((fvh, n, p, e, "DSP,DRP" if th else "DSP", 400 if th else 40, 800 if th else 500, rep.seed, 12))
        jobs.sort(key=lambda j: (not j[1].startswith("lib"), not j[1].startswith("probe")))
        kinds = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for name, js, err, at in ex.map(job, jobs):
                own = name.startswith(("generated:", "probe:"))
                if err:
                    if at.startswith("borrowck of") or not at:
                        # rustc itself: does not accept the file on its own, or crashes while it checks borrows
                        if own and not at: rep.violation("file:" + name, "%s: %s" % (name, err), file=name)
                        rep.count("files rustc does not get through"); continue
                    rep.violation("end:%s:%s" % (name, at.split(" (")[0]), "%s, %s: %s" % (name, at, err), file=name)
                    continue
                rep.count("files"); rep.count("bodies", js["bodies"]); rep.count("locations", js["locations"]); rep.count("queries", js["queries"])
                rep.count("bodies over the limits", js["skipped"]); rep.count("bodies rustc does not get through", js["no_facts"])
                rep.add(js["runs"], js["bodies"])
                for k, c in js["kinds"].items(): kinds[k] = kinds.get(k, 0) + c
                for v in js["viol"]:
                    rep.violation("panic:%s:%s:%s" % (name, v["fn"], v["step"]), "%s %s (%s, %s): %s" % (name, v["fn"], v["mode"], v["step"], v["what"]), file=name, **{k: v[k] for k in ("fn", "mode")})
                rep.sample({"file": name, "bodies": js["bodies"], "locations": js["locations"], "slowest": js["slowest"]})
        rep.extra["kinds of statements and terminators analysed"] = kinds
        # the command line on the same code
        ide = Ide(build_ide())
        ide.template([], ["spans", "src/qzfileqz.rs"]); ide.template([], ["focus", "src/qzfileqz.rs", "741852", "963258"])
        fj = [(ide, "probe:" + n, p, [], rep.seed, 1000 if th else 60, p) for n, p in probes()]
        r0 = random.Random("focus files %d" % rep.seed)
        for n, p, e in corpus.files(th):
            others = sorted(glob.glob(os.path.dirname(p) + "/**/*.rs", recursive=True))
            for of in {p} | set(r0.sample(others, min(len(others), 12 if th else 2))):
                fj.append((ide, n + ":" + os.path.basename(of), p, e, rep.seed, 20 if th else 3, of))
        fj += [(ide, "generated:" + os.path.basename(p), p, [], rep.seed, 20 if th else 3, p) for p, _ in files]
        with cf.ThreadPoolExecutor(8) as ex:
            for name, st, viol in ex.map(focus_job, fj):
                rep.count("focus commands", st["focus"]); rep.add(st["focus"], 0)
                for v in viol: rep.violation("focus:%s:%s" % (name, v["fn"]), "%s %s: %s" % (name, v["fn"], v["what"]), file=name)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rep
