"""C09: what the analysis says about a function when the rest of the program changes."""
import concurrent.futures as cf, json, random, re
from report import Report
from engine import *
from ide import Ide, build_ide, decode
import corpus, state_checks

PROFILES = ("data", "ctl", "ref", "call", "mix", "early", "div")

def bodies_of(src):
    """(name, position of the `{`, position after the `}`) of every function item, nested ones included"""
    out = []
    for m in re.finditer(r"\bfn (\w+)", src):
        i, par = m.end(), 0
        while i < len(src):
            c = src[i]
            if c in "([": par += 1
            elif c in ")]": par -= 1
            elif c == ";" and par == 0: i = -1; break
            elif c == "{" and par == 0: break
            i += 1
        if i < 0 or i >= len(src): continue
        j, b = i, 0
        while True:
            if src[j] == "{": b += 1
            elif src[j] == "}":
                b -= 1
                if b == 0: break
            j += 1
        out.append((m[1], i, j + 1, src[m.start():i]))
    return out

OTHER = ["loop {}", "panic!()", "unimplemented!()", "let mut q = [1i64, 2]; q[0] = q[1]; std::process::abort()", "fn inner(x: &mut i64) { *x = 1; } let mut y = 3; inner(&mut y); loop { y += 1; inner(&mut y); }"]

def other_body(sig, r):
    """a body for this signature: one that does not return, or, where the types allow it, a trivial one"""
    i, par = sig.index("(", sig.index("fn ")), 0
    for j in range(i, len(sig)):
        par += (sig[j] == "(") - (sig[j] == ")")
        if par == 0: break
    ret = sig[j + 1:].split("where")[0].strip()
    ret = ret[2:].strip() if ret.startswith("->") else "" if ret == "" else ret
    simple = [""] * 2 + ["return;", "();", "let _ = 3;"] if not ret else []
    if ret in PRIM:
        n = "2.0" if ret[0] == "f" else "2"
        simple = [n, "return %s;" % n, "const C: %s = %s; C" % (ret, n), "%s::MAX" % ret, "crate::ZK as %s" % ret, "if true { %s } else { 3 as %s }" % (n, ret)]
        if ret == "i64": simple += ["crate::ZK", "{ crate::ZK }", "crate::ZK"]
        simple += [q for q, t in re.findall(r"(?:\(|, |mut )(\w+): (\w+)(?=[,)])", sig) if t == ret]
    elif ret == "bool": simple = ["true", "false", "return true;"]
    return r.choice(simple) if simple and r.random() < .7 else r.choice(OTHER)

def replace_bodies(src, r, keep=lambda n: False, p=1.0):
    """other bodies for (some of) the functions; signatures stay"""
    out, pos = [], 0
    for name, a, b, sig in bodies_of(src):
        if a < pos or keep(name) or "impl " in sig.split("->")[-1] and "->" in sig or re.search(r"['\"]", src[a:b]): continue
        if r.random() > p: continue
        out.append(src[pos:a]); out.append("{ %s }" % other_body(sig, r)); pos = b
    return "".join(out) + src[pos:]

PRIM = {"i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64"}
def rename(src, r):
    """the local variables of one generated function under other names"""
    names = {n for n in re.findall(r"(?<![\w'])(?<!(?<!\.)\.)[a-z]{1,3}\d+\b", src)} - PRIM
    kinds = ["_%s", "%s_", "__%s", "self_%s", "tmp%s", "r#%sx", "ret%s", "a_very_long_name_for_%s", "ü%s", "%s_unused", "v%s0", "__awaitee%s", "iter%s", "x%sx"]
    m = {}
    for n in sorted(names):
        m[n] = (r.choice(kinds) % n) + ("z%d" % len(m))
    return re.sub(r"(?<![\w'])(?<!(?<!\.)\.)[a-z]{1,3}\d+\b", lambda x: m.get(x[0], x[0]), src), len(m)

def decorate(src, r):
    """comments and empty lines inside the body, attributes and documentation before it"""
    i = src.index("{", src.index(")"))
    head, body = src[:i], src[i:]
    body = re.sub(r";\n", lambda m: r.choice([";\n", ";\n", "; // note\n", ";\n\n\n", "; /* a { brace */\n"]), body)
    return r.choice(["/// documented\n", "#[inline(never)]\n", "#[allow(dead_code)]\n#[cold]\n", "#[must_use]\n" if "->" in head else "", "#[inline]\n/* x */\n"]) + head + body

EXTRA = """pub struct Zz0<T>(pub T, Vec<T>); impl<T> Drop for Zz0<T> { fn drop(&mut self) {} } pub static ZZ: std::sync::Mutex<i64> = std::sync::Mutex::new(3);
pub fn zz_0(x: &mut i64, y: &i64) -> i64 { let mut z = *x; while z > *y { z -= 1; *x += z; } z } pub mod zz { use super::*; pub fn zz_1<'a>(x: &'a mut Zz0<i64>) -> &'a mut i64 { x.0 += zz_0(&mut 3, &4); &mut x.0 } pub trait Tz { fn tz(&self) -> i64 { 1 } } impl Tz for i64 {} impl<T> Tz for super::Zz0<T> {} }
pub const fn zz_c(x: i64) -> i64 { let mut i = x; while i > 3 { i -= 2; } i } pub const ZC: i64 = { let a = zz_c(9); a * 2 };
"""

def text_of(parts):
    return PRELUDE + "const ZK: i64 = 7;\n" + "\n".join(parts) + "\n"

def variants(helpers, callees, fns, r, th):
    """(kind, source) pairs, the original first; fns are (name, source)"""
    fs = [s for _, s in fns]
    yield "original", text_of([helpers] + callees + fs)
    for _ in range(3 if th else 1):
        yield "other bodies", text_of([replace_bodies(helpers, r, p=.9)] + [replace_bodies(c, r) for c in callees] + fs)
    sh, cs = list(fs), list(callees)
    r.shuffle(sh); r.shuffle(cs)
    yield "other order", text_of(sh + cs + [helpers])
    yield "more items", text_of([EXTRA, helpers] + callees[: len(callees) // 2] + [x for f in fs for x in (f, EXTRA.replace("Zz", "Z%dz" % len(f)).replace("zz", "z%dz" % len(f)).replace("ZZ", "Z%dZ" % len(f)).replace("ZC", "Z%dC" % len(f)) if f is fs[0] else "")] + callees[len(callees) // 2:])
    yield "fewer items", text_of([helpers] + callees + [s for n, s in fns if r.random() < .5])
    ren = [rename(s, r) for s in fs]
    yield "other names", text_of([helpers] + callees + [s for s, _ in ren])
    yield "other layout", text_of([helpers] + callees + [decorate(s, r) for s in fs])

def fps(fvh, path, d, tag, extra=(), budget=100, tmo=300, rot=0, maxlocs=1500, text=False):
    out = "%s/fp_%s.json" % (d, tag)
    e = renv(FVH_BUDGET=str(budget), FVH_ROT=str(rot), FVH_MAX_LOCS=str(maxlocs))
    if text: e["FVH_FPTEXT"] = "1"
    try: r = subprocess.run([fvh, "inv", path, "--out", out, "--fp"] + (["--"] + list(extra) if extra else []), env=e, capture_output=True, text=True, cwd=d, timeout=tmo)
    except subprocess.TimeoutExpired: return None, "no end"
    if not os.path.exists(out): return None, r.stderr[-1500:]
    return json.load(open(out))["fp"], None

def show(a, b):
    """the first location at which two states differ"""
    for x, y in zip(a, b):
        for l in x.get("text", {}):
            if x["text"][l] != y.get("text", {}).get(l):
                return "at %s: %s instead of %s" % (l, y["text"].get(l, "")[:300], x["text"][l][:300])
    return ""

def gen_job(a):
    fvh, seed, p, sh, n, th = a
    d = scratch("meta")
    st, viol = {}, []
    def cnt(k, n=1): st[k] = st.get(k, 0) + n
    try:
        fns, callees = make_fns(p, n, seed, 900 + sh, ncallee=8, nested_callees=True)
        cf_ = [Fn("gc_%d" % i, s, "let _ = v;", [], 0) for i, s in enumerate(callees)]
        kept, msgs = filter_metadata(cf_ + fns, HELPERS, d, "m")
        cs = [f.src for f in kept if f.name.startswith("gc_")]
        fs = [(f.name, f.src) for f in kept if not f.name.startswith("gc_")]
        r = random.Random("meta/%s/%d/%d" % (p, seed, sh))
        base, src0 = None, None
        for i, (kind, src) in enumerate(variants(HELPERS, cs, fs, r, th)):
            path = "%s/v%d.rs" % (d, i)
            open(path, "w").write(src)
            fp, err = fps(fvh, path, d, str(i), rot=i)
            if fp is None:
                if base is None: viol.append({"fn": "<file>", "kind": kind, "what": "no answer: %s" % err, "src": src}); return p, st, viol, 0
                cnt("variants rustc rejects: " + kind); continue
            if base is None: base, src0 = fp, src; continue
            cnt("variants"); bad = []
            for n_, _ in fs:
                if n_ not in fp or n_ not in base: continue
                x, y = base[n_], fp[n_]
                if len(x) != len(y) or x[0]["mir"] != y[0]["mir"]: cnt("functions whose MIR differs: " + kind); continue
                cnt("comparisons"); cnt("comparisons with " + kind)
                if x != y: bad.append(n_)
            # closures of a function as well
            for k in fp:
                if "{closure" in k and k.split("::")[0] in dict(fs) and k in base and [v["mir"] for v in base[k]] == [v["mir"] for v in fp[k]]:
                    cnt("comparisons"); cnt("closures compared")
                    if base[k] != fp[k]: bad.append(k)
            if bad:
                b0, _ = fps(fvh, d + "/v0.rs", d, "t0", text=True); b1, _ = fps(fvh, path, d, "t1", text=True, rot=i)
                for n_ in bad[:3]:
                    viol.append({"fn": n_, "kind": kind, "what": "%s: the state of %s differs, %s" % (kind, n_, show((b0 or {}).get(n_, []), (b1 or {}).get(n_, []))), "src": dict(fs).get(n_.split("::")[0], ""), "variant": src, "original": src0})
        rows = sum(v["rows"] for k in base for v in base[k])
        return p, st, viol, rows
    finally:
        shutil.rmtree(d, ignore_errors=True)

def corpus_job(a):
    fvh, name, path, extra, seed, th = a
    d = scratch("metac")
    st, viol = {}, []
    try:
        base, err = fps(fvh, path, d, "0", extra, budget=60 if th else 10, maxlocs=600)
        if base is None: return name, {"corpus files not analysed": 1}, []
        for i in range(3 if th else 1):
            fp, err = fps(fvh, path, d, "1", extra, budget=90 if th else 20, rot=seed * 7 + i + 1, maxlocs=600)
            if fp is None: continue
            for k in fp:
                if k in base and len(base[k]) == len(fp[k]):
                    st["comparisons"] = st.get("comparisons", 0) + 1
                    st["comparisons with other order of analysis"] = st.get("comparisons with other order of analysis", 0) + 1
                    if base[k] != fp[k]: viol.append({"fn": k, "kind": "order of analysis", "what": "the state of %s depends on what was analysed before it" % k, "src": ""})
        return name, st, viol
    finally:
        shutil.rmtree(d, ignore_errors=True)

def focus_job(a):
    """the answer of the command line for functions whose callees have other bodies"""
    ide, seed, sh, n = a
    d = scratch("metaf")
    st, viol = {"focus commands": 0}, []
    try:
        r = random.Random("metaf/%d/%d" % (seed, sh))
        fns, callees = make_fns(r.choice(PROFILES), n, seed, 950 + sh, ncallee=6, nested_callees=True)
        cf_ = [Fn("gc_%d" % i, s, "let _ = v;", [], 0) for i, s in enumerate(callees)]
        kept, msgs = filter_metadata(cf_ + fns, HELPERS, d, "m")
        fs = [f for f in kept if not f.name.startswith("gc_")]
        cs = [f.src for f in kept if f.name.startswith("gc_")]
        head = PRELUDE.rstrip("\n") + "\nconst ZK: i64 = 7;\n"
        body = "".join(f.src + "\n" for f in fs)
        srcs = [head + body + HELPERS + "\n".join(cs), head + body + replace_bodies(HELPERS, r, p=.9) + "\n".join(replace_bodies(c, r) for c in cs) + EXTRA]
        def call(src, cmd):
            open(d + "/m.rs", "w").write(src)
            return decode(ide.direct(d, "m.rs", [], cmd, timeout=200).stdout)
        for f in fs:
            line = srcs[0][:srcs[0].index(f.src)].count("\n") + 1
            a, b = [call(s, ("focus", line, 2)) for s in srcs]
            if a is None or b is None or "Ok" not in a:
                st["focus commands without answer"] = st.get("focus commands without answer", 0) + 1; continue
            st["focus commands"] += 2
            def norm(j): return json.dumps({"c": j["Ok"]["containers"], "p": sorted(json.dumps(x, sort_keys=True) for x in j["Ok"]["place_info"])}, sort_keys=True) if "Ok" in j else str(j)
            if norm(a) != norm(b):
                viol.append({"fn": f.name, "kind": "focus", "what": "focus answers differently for %s when its callees have other bodies" % f.name, "src": f.src, "original": srcs[0], "variant": srcs[1]})
        return st, viol
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(prop):
    rep = Report(prop, "an evaluation is one function (or closure) whose flow states at every location are compared between two versions of the program, or between two orders of analysis, or one focus answer compared between two versions; non-trivial: a distinct function")
    fvh, th = build_harness(), rep.thorough
    ide = Ide(build_ide())
    ide.template([], ["focus", "src/qzfileqz.rs", "741852", "963258"])
    jobs = [(fvh, rep.seed, p, sh, 40, th) for p in PROFILES for sh in range(8 if th else 2)]
    with cf.ThreadPoolExecutor(8) as ex:
        res = [ex.submit(gen_job, j) for j in jobs]
        cres = [ex.submit(corpus_job, (fvh, n, p, e, rep.seed, th)) for n, p, e in corpus.files(th) + corpus.std()]
        fres = [ex.submit(focus_job, (ide, rep.seed, sh, 5)) for sh in range(40 if th else 8)]
        for f in res:
            p, st, viol, rows = f.result()
            for k, n in st.items(): rep.count(k, n)
            rep.add(st.get("comparisons", 0), st.get("comparisons with other bodies", 0)); rep.count("rows of states", rows)
            rep.sample({"profile": p, **{k: v for k, v in st.items() if k.startswith("comparisons")}})
            for v in viol: rep.violation("%s:generated:%s:%s" % (v["kind"].replace(" ", "_"), p, v["fn"]), v["what"], **{k: v[k] for k in v if k not in ("what",)})
        for f in cres:
            n, st, viol = f.result()
            for k, c in st.items(): rep.count(k, c)
            rep.add(st.get("comparisons", 0), 0)
            for v in viol: rep.violation("order:%s:%s" % (n, v["fn"]), "%s: %s" % (n, v["what"]), file=n)
        for f in fres:
            st, viol = f.result()
            for k, c in st.items(): rep.count(k, c)
            rep.add(st["focus commands"] // 2, 0)
            for v in viol: rep.violation("focus:%s" % v["fn"], v["what"], **{k: v[k] for k in ("fn", "src", "original", "variant")})
    return rep
