"""C20: every query of the analysis under AddressSanitizer."""
import concurrent.futures as cf, json, random, re
from report import Report
from engine import *
import corpus, state_checks, stress
from total_checks import ALL, PROFILES, probes

OPTS = "detect_leaks=0:detect_stack_use_after_return=1:halt_on_error=1:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:symbolize=1:log_path=%s"

def job(a):
    fvh, name, path, extra, modes, budget, tmo, rot = a
    d = scratch("asan")
    try:
        out, prog, log = d + "/o.json", d + "/progress", d + "/asan"
        e = renv(FVH_BUDGET=str(budget), FVH_PROGRESS=prog, FVH_ROT=str(rot), FVH_MAX_LOCS="1500", ASAN_OPTIONS=OPTS % log)
        try:
            r = subprocess.run([fvh, "total", path, "--out", out, "--modes", modes] + (["--"] + extra if extra else []),
                               env=e, capture_output=True, text=True, cwd=d, timeout=tmo, errors="replace")
            status = r.returncode
        except subprocess.TimeoutExpired:
            r, status = None, None
        at = open(prog).read() if os.path.exists(prog) else ""
        rep = "".join(open(os.path.join(d, f), errors="replace").read() for f in sorted(os.listdir(d)) if f.startswith("asan."))
        js = json.load(open(out)) if os.path.exists(out) else None
        return name, js, rep, at, status, (r.stderr[-3000:] if r else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(prop):
    rep = Report(prop, "an evaluation is one body analysed in one evaluation mode, with every dependency, span and place query, by an AddressSanitizer build; non-trivial: a distinct body",
                 ["accesses made inside rustc's own (uninstrumented) library are seen only where they go through intercepted functions such as memcpy"])
    fvh, th = build_asan(), rep.thorough
    d = scratch("asan-gen")
    try:
        with cf.ProcessPoolExecutor(8) as ex:
            files = list(ex.map(state_checks.prep, [(p, sh, f, d) for p, sh, f in state_checks.gen_files(d, rep.seed, 40, PROFILES, 6 if th else 2)]))
        jobs = [(fvh, "probe:" + n, p, [], ALL, 1e6, 500, 0) for n, p in probes()]
        jobs += [(fvh, "generated:" + os.path.basename(p), p, [], ALL if th else "DSP,DRP", 400 if th else 40, 700, 0) for p, _ in files]
        for k, ms in ((.3, "DSP,DRP,ISP"),) + (((.8, "DSP"),) if th else ()):
            for n, src in stress.shapes(k):
                p = "%s/stress_%s_%s.rs" % (d, n, str(k).replace(".", "_"))
                open(p, "w").write(src + "\n")
                jobs.append((fvh, "probe:stress %s x%s" % (n, k), p, [], ms, 1e6, 500, 0))
        for n, p, e in corpus.files(th): jobs.append((fvh, n, p, e, ALL if th else "DSP", 300 if th else 12, 700 if th else 300, rep.seed))
        for n, p, e in corpus.std(): jobs.append((fvh, n, p, e, "DSP,DRP" if th else "DSP", 500 if th else 40, 800 if th else 400, rep.seed))
        jobs.sort(key=lambda j: (not j[1].startswith("lib"), not j[1].startswith("probe")))
        with cf.ThreadPoolExecutor(8) as ex:
            for name, js, log, at, status, err in ex.map(job, jobs):
                if log or status in (-11, -7, -4):
                    kind = re.search(r"AddressSanitizer: ([\w-]+)", log)
                    kind = kind[1] if kind else "signal %s" % status
                    if kind in ("allocation-size-too-big", "out-of-memory", "requested"):
                        rep.count("files that exhaust memory"); continue
                    if at.startswith("borrowck of") or not at:
                        rep.count("files rustc does not get through"); continue
                    if kind == "stack-overflow":      # a matter for C19
                        rep.count("stack overflows"); continue
                    fr = [m for m in re.findall(r"#\d+ 0x\w+ in (\S+.*)", log) if "flowistry" in m][:4]
                    rep.violation("asan:%s:%s:%s" % (kind, name, at.split(" (")[0]), "%s while analysing %s of %s; %s" % (kind, at, name, " <- ".join(fr)[:600]), file=name, report=log[:6000])
                    continue
                m = re.search(r"unsafe precondition\(s\) violated.*", err)
                if m and at and not at.startswith("borrowck"):
                    rep.violation("precondition:%s:%s" % (name, at.split(" (")[0]), "%s while analysing %s of %s" % (m[0][:200], at, name), file=name); continue
                if js is None:
                    rep.count("files not analysed"); continue
                rep.count("files"); rep.count("bodies", js["bodies"]); rep.count("locations", js["locations"]); rep.count("queries", js["queries"])
                rep.count("bodies that panic", len({v["fn"] for v in js["viol"]}))
                rep.add(js["runs"], js["bodies"])
                rep.sample({"file": name, "bodies": js["bodies"], "locations": js["locations"]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rep
