"""C18: the reports of the real cargo-ifc on programs into which a secret and a sink have been put."""
import concurrent.futures as cf
from report import Report
from engine import *
from ide import *
import gen, precise

TRAITS = "mod flowistry_ifc_traits {\n%s\n}\n"
TYPES = """
pub struct Sec(pub i64);
impl Secure for Sec {}
pub struct Sec2(pub i64, pub i64);
impl Secure for Sec2 {}
pub struct Out(pub i64);
impl Insecure for Out {}
pub struct Keep { pub s: Sec, pub n: i64 }
pub trait ZVal { fn zval(&self) -> i64; }
pub trait ZSup: Secure { fn zval(&self) -> i64; }
pub trait ZSet { fn zset(&mut self, v: i64); }
pub trait ZSink: Insecure { fn zset(&mut self, v: i64); }
pub fn z_src(x: i64) -> Sec { Sec(x) }
pub fn z_out(x: i64) -> Out { Out(x) }
"""
OBS = re.compile(r"^(\s*)o\((\d+), (.*)\);$")

def transform(f, j, oid, rng, straight):
    """f with knob j turned into a secret and observer oid into a sink; None if that cannot be done.
    Returns (text, secret line, sink lines, description); lines count from 0 within the text."""
    L = f.src.split("\n")
    at = [i for i, l in enumerate(L) if (m := OBS.match(l)) and int(m[2]) == oid]
    if len(at) != 1 or not re.search(r"\bk\(%d\)" % j, f.src): return None
    if not re.match(r"pub fn %s\(" % f.name, L[0]) or not L[0].endswith("{") or L[-1].strip() != "}": return None
    sec = rng.choice(["call", "new", "pair0", "pair1", "field", "arg", "argref", "argmut", "generic", "impl", "super"])
    snk = rng.choice(["let", "call", "assign", "refarg", "arg", "past", "generic", "impl", "super"])
    end = rng.choice(["", "", "reuse", "never"])
    use = {"pair1": "zs.1", "field": "zs.s.0", "generic": "zs.zval()", "impl": "zs.zval()", "super": "zs.zval()"}.get(sec, "zs.0")
    if sec in ("argref", "generic", "impl", "super") and end == "reuse": end = ""
    m = OBS.match(L[at[0]])
    e = m[3]
    L[at[0]] = m[1] + {"let": "let zw = Out(%s);", "call": "let zw = z_out(%s);", "past": "let mut zw = Out(%s); zw.0 = 0;", "generic": "zw.zset(%s);", "impl": "zw.zset(%s);", "super": "zw.zset(%s);"}.get(snk, "zw.0 = %s;") % e
    tail = L[-2]
    if end:
        unit = "->" not in L[0]
        more = "%s = 5;" % use if end == "reuse" else "loop {}"
        if unit:
            if not tail.strip().endswith((";", "}")): return None
            L[-1:] = ["  " + more, "}"]
        elif straight: L[-2:] = ["  let zr = %s;" % tail.strip(), "  " + more] + (["  zr"] if end == "reuse" else []) + ["}"]
        else: end = ""
    L = [re.sub(r"\bk\(%d\)" % j, use, l) for l in L]
    mut = "mut " if end == "reuse" else ""
    params = {"arg": "%szs: Sec" % mut, "argref": "zs: &Sec", "argmut": "zs: &mut Sec", "generic": "zs: ZS", "impl": "zs: impl ZVal + Secure", "super": "zs: ZS"}.get(sec)
    head = [x for x in (params, {"refarg": "zw: &mut Out", "arg": "mut zw: Out", "generic": "mut zw: ZO", "impl": "zw: &mut (impl ZSet + Insecure)", "super": "zw: &mut ZO"}.get(snk)) if x]
    gens = [x for x in ({"generic": "ZS: Secure + ZVal", "super": "ZS: ZSup"}.get(sec), {"generic": "ZO: Insecure + ZSet", "super": "ZO: ZSink"}.get(snk)) if x]
    sline, wline = 0, 0
    first = []
    if not params:
        first.append("  let %szs = %s;" % (mut, {"call": "z_src(k(%d))", "new": "Sec(k(%d))", "pair0": "Sec2(k(%d), 7)", "pair1": "Sec2(7, k(%d))", "field": "Keep { s: Sec(k(%d)), n: 3 }"}[sec] % j))
        sline = len(first)
    if snk == "assign": first.append("  let mut zw = Out(0);"); wline = len(first)
    i = L[0].index("(") + 1
    rest = L[0][i:]
    L[0] = L[0][:i] + ", ".join(head) + (", " if head and not rest.startswith(")") else "") + rest
    sinks = {wline} if snk in ("assign", "refarg", "arg", "generic", "impl", "super") else set()
    if gens: L[0] = L[0].replace("(", "<%s>(" % ", ".join(gens), 1)
    L[1:1] = first
    sinks.add(at[0] + len(first))
    return "\n".join(L), sline, sinks, "%s to %s%s" % (sec, snk, ", " + end if end else "")

def home(f, rng, leaks=True):
    """where a function may live: on its own, as a method, in a module, inside another function, as a closure; sometimes inside of one that leaks as well.
    Returns (text before, text after, the function, lines of the leak of the outer function counted from the beginning)"""
    n, own = f.name, None
    if len(re.findall(r"\b%s\b" % n, f.src)) != 1: return "", "", f.src, None
    m = re.match(r"pub fn \w+\(([^\n]*)\)( -> [^\n]*)? \{\n", f.src)
    k = rng.choice(["", "impl", "trait", "mod", "fn", "closure"])
    outer = "pub fn z%s() {\n" % n
    if k in ("fn", "closure") and leaks and rng.random() < .5:
        outer += "  let zs = Sec(4);\n  let zw = Out(zs.0);\n"; own = (1, 2)
    if k == "closure" and m and "impl" not in m[1] and "'" not in m[1] and "&" not in (m[2] or "") and "self" not in m[1]:
        return outer, "}\n", "let %s = |%s|%s {\n%s;" % (n, m[1], m[2] or " -> ()", f.src[m.end():]), own
    if k == "fn" or k == "closure": return outer, "}\n", f.src, own
    return {"": ("", "", f.src), "impl": ("pub struct Z%s; impl Z%s {\n" % (n, n), "}\n", f.src), "trait": ("pub trait Z%s {\n" % n, "}\n", re.sub("^pub ", "", f.src)),
            "mod": ("pub mod z%s { use super::*;\n" % n, "}\n", f.src)}[k] + (None,)

def parse(err):
    """reports of one run: (file, from lines, to lines, snippets)"""
    out = []
    rx = re.compile(r"ERROR: insecure flow in (\S+) from data at (\S+|<in macro expansion>):\n  ((?:.*\n)+?)to data at (\S+|<in macro expansion>):\n  ((?:.*\n)+?)\n")
    sp = lambda s: tuple(int(x) for x in re.match(r"(\d+):(\d+)-(\d+):(\d+)$", s).groups()) if s[0] != "<" else None
    for m in rx.finditer(err): out.append((m[1], sp(m[2]), m[3].rstrip("\n"), sp(m[4]), m[5].rstrip("\n")))
    return out

def shard(args):
    fvh, bindir, seed, sh, n, profile = args
    d = scratch("ifc")
    res = {"viol": [], "st": {}, "kinds": {}, "sample": None}
    st = res["st"]
    def cnt(k, c=1): st[k] = st.get(k, 0) + c
    rng = random.Random("ifc/%d/%d" % (seed, sh))
    try:
        if profile == "precise":
            fns, helpers = [], precise.HELPERS
            for i in range(n):
                r = random.Random("ifc/%d/%d/%d" % (seed, sh, i))
                g = precise.Gen(r, "f_%d" % i, size=r.choice((4, 6, 9, 14)), off=("return",)).function()
                fns.append(Fn(g.name, g.src(), "%s(%s);" % (g.name, ", ".join("v[%d]" % j for j in range(len(g.params)))),
                              range(1, len(g.params) + 1), g.nk, g.no, {"ref": precise.Ref(g).allowed}))
        else:
            fns, _ = make_fns(profile, n, seed, 7000 + sh, sizes=(4, 6, 9, 14))
            helpers = HELPERS
        kept, exe, dropped, _ = filter_compiling(fns, helpers, d)
        dyn = run_native(exe, seed, 10, 4)
        js, p = analyse(fvh, kept, helpers, d, ["DSP"], timeout=300)
        if js is None: raise RuntimeError("harness: " + p.stderr[-500:])
        direct = {x["name"]: {o["id"] for o in x["modes"]["DSP"].get("obs", ())} for x in js["fns"]}
        kn = {x["name"]: {c["consts"][0] for c in x["calls"] if c["callee"].split("::")[-1] == "k" and c["consts"]} for x in js["fns"]}
        cases = []
        for f in kept:
            infl = sorted((o, j) for o, j in dyn.get(f.name, {"infl": {}})["infl"] if j < f.nk and o < 900000 and o in direct[f.name] and j in kn[f.name])
            ref = f.meta.get("ref")
            clean = sorted((o, j) for o in ref for j in range(f.nk) if o < 900000 and ("k", j) not in ref[o] and j in kn[f.name] and o in direct[f.name]) if ref else []
            for want, pool in (("leak", infl), ("clean", clean)):
                rng.shuffle(pool)
                for o, j in pool[:2 if ref else 3]:
                    t = transform(f, j, o, rng, ref is not None)
                    if t: cases.append((want, f, o, j, t))
        tf = [Fn("f_%d" % i, re.sub(r"^pub fn \w+(?=[(<])", "pub fn f_%d" % i, t[0]), "", [], 0, 0, {"case": (want, f, o, j, t)}) for i, (want, f, o, j, t) in enumerate(cases)]
        for f_ in tf: f_.src = re.sub(r"\b%s\b(?=::<|\(|<Z)" % f_.meta["case"][1].name, f_.name, f_.src)
        for f_ in tf:
            pre, post, src, own_ = home(f_, rng)
            f_.meta.update(bare=f_.src, off=pre.count("\n"), n=src.count("\n") + 1, outer=own_, home=re.sub(r" .*", "", " ".join(pre.split()[1:])) + (" closure" if src.startswith("let ") else "") + (" that leaks" if own_ else ""))
            f_.src = pre + src + ("\n" + post if post else "")
        traits = open(os.path.join(REPO, "crates/flowistry_ifc_traits/src/lib.rs")).read()
        # the checker's own crate provides the traits in the crate it is run on
        kept2, _ = filter_metadata(tf, helpers + "\npub mod fit {\n%s\n}\nuse fit::{Secure, Insecure};\n" % re.sub(r"#\[macro_export\][\s\S]*", "", traits) + TYPES, d, "t")
        cnt("functions rustc rejected", len(dropped) + len(tf) - len(kept2))
        c = os.path.join(d, "c"); os.makedirs(c + "/src")
        open(c + "/Cargo.toml", "w").write('[package]\nname = "zc"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[dependencies]\nflowistry_ifc_traits = {path = "%s/crates/flowistry_ifc_traits"}\n' % REPO)
        half, where = len(kept2) // 2, {}
        texts = {}
        for file, part in (("lib.rs", kept2[:half]), ("other.rs", kept2[half:])):
            s = PRELUDE + "use flowistry_ifc_traits::{Secure, Insecure};\n" + helpers + TYPES + "pub mod other;\n" if file == "lib.rs" else "use crate::*;\n"
            for f in part:
                cnt("in " + (f.meta["home"] or "the crate"))
                where[f.name] = (file, s.count("\n") + 1 + f.meta["off"])
                s += f.src + "\n"
            open("%s/src/%s" % (c, file), "w").write(s)
            texts[file] = s.split("\n")
        e = renv(CARGO_TARGET_DIR=c + "/t"); e["PATH"] = bindir + ":" + e["PATH"]
        try: r = subprocess.run([os.path.join(bindir, "cargo-ifc"), "ifc"], cwd=c, env=e, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            res["viol"].append({"fn": "<crate>", "what": "cargo ifc does not finish", "src": ""}); return res
        reps = parse(r.stderr)
        cnt("reports", len(reps))
        if r.returncode != 0:
            res["viol"].append({"fn": "<crate>", "what": "cargo ifc fails: exit %d %s" % (r.returncode, re.sub(r"(?s)^.*?(?=\nerror|\nthread|$)", "", r.stderr)[:1500]), "src": ""}); return res
        if r.stderr.count("ERROR: insecure flow") != len(reps) or ("No security issues found!" in r.stderr) != (not reps):
            res["viol"].append({"fn": "<crate>", "what": "unreadable or contradictory output: %s" % r.stderr[-400:], "src": ""})
        # assign reports to functions
        own = {}
        for f in kept2:
            file, l0 = where[f.name]
            for l in range(l0 - f.meta["off"], l0): own[(file, l)] = "outside " + f.name
            for l in range(l0, l0 + f.meta["n"]): own[(file, l)] = f.name
        got = {}
        for file, a, sa, b, sb in reps:
            fa, fb = own.get((file, a and a[0])), own.get((file, b and b[0]))
            bad = None
            if fa is None or fa != fb: bad = "a report that names no function: %s %s %r to %s %r" % (file, a, sa, b, sb)
            else:
                for q, s in ((a, sa), (b, sb)):
                    part = "\n".join(texts[file][q[0] - 1:q[2]]) + "\n"
                    if part[q[1]:len(part) - 1 - len(texts[file][q[2] - 1]) + q[3]] != s: bad = "%s:%s is not %r" % (file, q, s)
            if bad: res["viol"].append({"fn": fa or "<none>", "what": bad, "src": next((f.src for f in kept2 if f.name == fa), "")})
            else:
                w0 = where[fa][1] if fa in where else where[fa[8:]][1] - next(f for f in kept2 if f.name == fa[8:]).meta["off"]
                got.setdefault(fa, []).append((a[0] - w0, b[0] - w0))
        for f in kept2:
            want, orig, o, j, (txt, sline, sinks, what) = f.meta["case"]
            cnt("functions"); cnt("leaking" if want == "leak" else "not leaking"); res["kinds"][what] = res["kinds"].get(what, 0) + 1
            g = got.get(f.name, [])
            go = got.get("outside " + f.name, [])
            if f.meta["outer"]: cnt("functions around a function that leak")
            if set(go) - {f.meta["outer"]} or (f.meta["outer"] and not go): res["viol"].append({"fn": f.name, "what": "the function around it: reports %s, expected %s" % (go, f.meta["outer"]), "src": f.src})
            if want == "leak":
                if not g: res["viol"].append({"fn": f.name, "what": "leak not reported (%s; knob %d, observer %d of the original: %s)" % (what, j, o, dyn[orig.name]["infl"][(o, j)]), "src": f.src})
                elif not any(a == sline and b in sinks for a, b in g): res["viol"].append({"fn": f.name, "what": "no report from line %d to one of %s of the function (%s): %s" % (sline, sorted(sinks), what, g), "src": f.src})
                elif res["sample"] is None: res["sample"] = {"function": f.src[:1200], "reported": g, "how the secret reaches the sink": dyn[orig.name]["infl"][(o, j)]}
            elif g: res["viol"].append({"fn": f.name, "what": "reported although the secret does not reach the sink (%s): %s" % (what, g), "src": f.src})
        clean = [f for f in kept2 if f.meta["case"][0] == "clean"]
        if clean:
            cs = PRELUDE + "use flowistry_ifc_traits::{Secure, Insecure};\n" + helpers + TYPES
            for f in clean:
                f.src = f.meta["bare"]
                h = home(f, rng, False)
                cs += h[0] + h[2] + "\n" + h[1]
            open(c + "/src/lib.rs", "w").write(cs)
            os.remove(c + "/src/other.rs")
            r = subprocess.run([os.path.join(bindir, "cargo-ifc"), "ifc"], cwd=c, env=e, capture_output=True, text=True, timeout=400)
            cnt("crates without leaks")
            if r.returncode != 0 or "ERROR" in r.stderr or "No security issues found!" not in r.stderr:
                res["viol"].append({"fn": "<clean crate>", "what": "a crate without leaks is not told so: exit %d %s" % (r.returncode, r.stderr[-600:]), "src": ""})
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(prop):
    rep = Report(prop, "generated functions with one secret of a secure type (local, pair, argument, reference) and one sink of an insecure type (new value, assigned, behind a "
                 "mutable reference, overwritten later) checked by the real cargo-ifc; an evaluation is one function whose verdict is judged; distinct non-trivial counts those "
                 "in which native runs showed that the secret reaches the sink", [
        "which functions leak is shown by native runs of the same function; which do not is computed by the reference slicer of C08"])
    fvh, bindir = build_harness(), build_ide(("flowistry_ifc",))
    rnd = 0
    while True:
        t, seed = time.time(), rep.seed + 1000 * rnd
        jobs = [(fvh, bindir, seed, s, 40, pr) for s, pr in enumerate(["precise"] * 6 + ["data", "ctl", "ref", "call", "mix", "mix", "data", "ctl", "ref", "call"])]
        with cf.ProcessPoolExecutor(8) as ex: out = list(ex.map(shard, jobs))
        for r in out:
            for k, c in r["st"].items(): rep.count(k, c)
            for k, c in r["kinds"].items(): rep.count(k, c)
            rep.add(r["st"].get("functions", 0), r["st"].get("leaking", 0))
            if r["sample"]: rep.sample(r["sample"])
            for v in r["viol"]: rep.violation("ifc:%s:%s" % (v["fn"], v["what"][:40].replace(" ", "_")), "%s: %s" % (v["fn"], v["what"]), **{k: v[k] for k in v if k != "what"})
        rnd += 1
        if not rep.thorough or rep.viol or rep.elapsed() + (time.time() - t) * 1.3 > 600: break
    rep.count("rounds", rnd)
    return rep
