"""C15, C16, C17, C23: the real command line (cargo-flowistry, flowistry-driver) watched from outside."""
import concurrent.futures as cf, random
from report import Report
from engine import *
from ide import *
import crategen, precise

MODEFLAGS = [("--context-mode", "SigOnly", "Recurse"), ("--mutability-mode", "DistinguishMut", "IgnoreMut"), ("--pointer-mode", "Precise", "Conservative")]
P = lambda x: (x["line"], x["column"])

def ide(templates=True):
    I = Ide(build_ide())
    if templates:
        I.template([], ["focus", "src/qzfileqz.rs", "741852", "963258"])
        I.template([], ["spans", "src/qzfileqz.rs"])
    return I

class Src:
    """line/column <-> offset in characters"""
    def __init__(self, s):
        self.s = s
        self.offs = [0]
        for l in s.split("\n"): self.offs.append(self.offs[-1] + len(l) + 1)
    def off(self, p): return self.offs[p["line"]] + p["column"]
    def rng(self, r): return (self.off(r["start"]), self.off(r["end"]))
    def lc(self, o):
        import bisect
        i = bisect.bisect_right(self.offs, o) - 1
        return (i, o - self.offs[i])

def covers(sl, x, y): return any(u <= x and y <= v for u, v in sl)

# ---------------------------------------------------------------- C15 and the generated half of C16
def param_range(src, n):
    """the text range of the n-th parameter's pattern (1-based) of a generated function"""
    i = src.index("(", src.index("fn ")) + 1
    depth, start, k, j = 0, i, 1, i
    while True:
        c = src[j]
        if c in "([<{": depth += 1
        elif c == ">" and src[j - 1] == "-": pass
        elif c in ")]>}":
            if depth == 0: break
            depth -= 1
        elif c == "," and depth == 0:
            if k == n: break
            k += 1; start = j + 1
        j += 1
    t = src[start:j]
    a = start + len(t) - len(t.lstrip())
    b = start + t.index(":")
    return a, b

def focus_shard(a):
    I, prof, n, seed, sh, prop = a
    d = scratch("focus")
    st, viol, samples = {}, [], []
    def cnt(k, x=1): st[k] = st.get(k, 0) + x
    try:
        fns, _ = make_fns(prof, n, seed, 300 + sh)
        kept, exe, dropped, msgs = filter_compiling(fns, HELPERS, d)
        dyn = run_native(exe, seed, 10, 4) if prop == "C15" else {}
        s, spans = assemble(kept, HELPERS, False)
        open(d + "/m.rs", "w").write(s)
        S = Src(s)
        for f in kept:
            a, b = spans[f.name]
            fa, fb = S.offs[a - 1], S.offs[b] - 1
            src = s[fa:fb]
            rng = random.Random("%s %s" % (seed, f.name))
            def V(what, kind, **kw): viol.append(("%s:%s:%s" % (kind, f.name, what[:60].replace(" ", "_")), "%s %s: %s" % (kind, f.name, what), {"src": f.src, "fn": f.name, **kw}))
            try: r = I.direct(d, "m.rs", [], ("focus", a - 1, 2))
            except subprocess.TimeoutExpired: V("no answer", "focus"); continue
            try: j = decode(r.stdout)
            except Exception as e: V("undecodable: %s" % e, "focus"); continue
            if not j or "Ok" not in j: V("%s %s" % (r.returncode, str(j) + r.stderr[-300:]), "focus"); continue
            cnt("functions")
            (coverage if prop == "C15" else laws)(f, fa, fb, src, S, j["Ok"], dyn.get(f.name), cnt, V, samples)
        return st, viol, samples
    finally:
        shutil.rmtree(d, ignore_errors=True)

def coverage(f, fa, fb, src, S, out, dy, cnt, V, samples):
    if not dy: return
    R = {}
    for p in out["place_info"]: R.setdefault(S.rng(p["range"]), []).extend(S.rng(x) for x in p["slice"])
    for (oid, jj), how in sorted(dy["infl"].items()):
        if oid >= 900000: continue
        cnt("influences")
        mo = [fa + m.start() for m in re.finditer(r"\bo\(%d, " % oid, src)]
        if jj < f.nk: kk = [(fa + m.start(), fa + m.end()) for m in re.finditer(r"\bk\(%d\)" % jj, src)]
        else:
            x, y = param_range(src, f.argof[jj - f.nk]); kk = [(fa + x, fa + y)]
        what = src[kk[0][0] - fa:kk[0][1] - fa] if kk else "?"
        rs = [k for k in R if k[0] in mo]
        if rs:
            cnt("backward pairs")
            if not any(covers(R[k], x, y) for k in rs for x, y in kk):
                V("the slice of o(%d, ..) leaves out %r; %s" % (oid, what, how), "backward")
        elif mo: cnt("observers not selectable")
        rk = [k for k in R if k in kk] if jj < f.nk else [k for k in R if kk[0][0] <= k[0] and k[1] <= kk[0][1]]
        if rk:
            cnt("forward pairs")
            if not any(covers(R[k], m, m + 2) for k in rk for m in mo):
                V("the slice of %r leaves out o(%d, ..); %s" % (what, oid, how), "forward")
        else: cnt("inputs not selectable")
    if len(samples) < 1 and dy["infl"]: samples.append({"fn": f.name, "source": f.src[:1200], "selectable": len(R), "influences": len(dy["infl"])})

def laws(f, fa, fb, src, S, out, dy, cnt, V, samples):
    R = {}
    hdr = src.index("{")
    for p in out["place_info"]:
        k = S.rng(p["range"])
        cnt("selectable ranges")
        if k in R: V("%s listed twice" % (k,), "selectable")
        R[k] = p
        if k[0] == k[1] == fa + hdr - 1 or k[0] == k[1] and S.s[k[0] - 1] == ")" and S.s[k[0]:fa + hdr].strip() == "": continue  # the return type that is not written
        if not (fa <= k[0] < k[1] <= fb): V("%s %r outside the function or empty" % (k, S.s[k[0]:k[1]][:60]), "selectable")
        if not p["ranges"]: V("%s has no ranges" % (k,), "selectable")
        sl = sorted(S.rng(x) for x in p["slice"])
        for x, y in sl:
            cnt("slice ranges")
            if not (fa <= x <= y <= fb): V("slice range %s outside the function or reversed" % ((x, y),), "slice")
        for (x, y), (z, w) in zip(sl, sl[1:]):
            if z < y: V("slice ranges %r and %r overlap" % (S.s[x:y][:50], S.s[z:w][:50]), "slice")
        for x in p["direct_influence"]:
            cnt("direct influences")
            x, y = S.rng(x)
            if not (x <= y and covers(sl, x, y)): V("direct influence %r not in the slice of %r" % (S.s[x:y][:50], S.s[k[0]:k[1]][:50]), "direct")
    cs = [S.rng(x) for x in out["containers"]]
    bod = (fa + src.index("{"), fb)
    m = re.match(r"(?:pub )?fn [^(]*\(", src)
    if not cs or S.s[cs[0][0]:cs[0][1]].strip()[:1] != "{" or cs[0][1] != fb: V("containers %s do not start with the body" % cs, "containers")
    # every mention of a local variable is selectable
    for m in re.finditer(r"\b(v|a|r|c|fi|w|rs)\d+\b", src[hdr:]):
        x, y = fa + hdr + m.start(), fa + hdr + m.end()
        cnt("mentions")
        line = src[src.rfind("\n", 0, hdr + m.start()) + 1:(src + "\n").index("\n", hdr + m.end())]
        if "|" in line.replace("||", "") or "fn " in line: continue  # another body
        c = [k for k in R if k[0] <= x and y <= k[1]]
        if re.search(r"\blet\b[^=]*[\[({][^=]*=", line): cnt("mentions destructured"); continue
        if not c:
            V("%s in %r is in no selectable range" % (m.group(), line.strip()[:80]), "mention")
        elif "\n" in S.s[min(c, key=lambda k: k[1] - k[0])[0]:min(c, key=lambda k: k[1] - k[0])[1]]:
            k = min(c, key=lambda k: k[1] - k[0])
            V("%s in %r is only in the range %r" % (m.group(), line.strip()[:80], S.s[k[0]:k[1]][:60]), "mention")
    # assignments to a selected variable that are in its slice are direct influences
    for k, p in R.items():
        t = S.s[k[0]:k[1]]
        if not re.fullmatch(r"v\d+", t) or not re.search(r"let (mut )?%s: i64 =" % t, src): continue
        sl = [S.rng(x) for x in p["slice"]]
        di = [S.rng(x) for x in p["direct_influence"]]
        for m in re.finditer(r"(?m)^[ {]*(%s [-+*^|&]?= [^;{}|\n]*);" % t, src):
            x, y = fa + m.start(1), fa + m.end(1)
            if covers(sl, x, y):
                cnt("assignments of a selected variable")
                if not any(u < y and x < v for u, v in di): V("%r is no direct influence of %s at %s" % (S.s[x:y][:60], t, S.lc(k[0])), "assign")
    if len(samples) < 1: samples.append({"fn": f.name, "source": f.src[:1200], "selectable": len(R)})

def c15(prop):
    rep = Report(prop, "functions of seeded generated programs run natively (one input varied at a time) and focused with the real driver; an evaluation is one influence seen at run time whose source text must be inside the slice ranges shown for the selection (backward from the observer, forward from the input); all evaluations are distinct (function, observer, input) triples with an observed influence",
                 ["the native program compiled by the same rustc shows what the program does"])
    I = ide()
    rnd = 0
    while True:
        t = time.time()
        n, shards = 26, 2
        jobs = [(I, p, n, rep.seed + 1000 * rnd, sh, prop) for p in ("data", "ctl", "ref", "call", "mix", "early") for sh in range(shards)]
        with cf.ProcessPoolExecutor(8) as ex:
            for st, viol, sa in ex.map(focus_shard, jobs):
                for k, v in st.items(): rep.count(k, v)
                x = st.get("backward pairs", 0) + st.get("forward pairs", 0); rep.add(x, x)
                for k, w, kw in viol: rep.violation(k, w, **kw)
                for s in sa: rep.sample(s)
        rnd += 1
        if rep.viol or rnd >= (1 if not rep.thorough else 50) or rep.elapsed() + (time.time() - t) * 1.3 > 540: break
    rep.count("rounds", rnd)
    return rep

# ---------------------------------------------------------------- crates known by construction
def write_crate(d, fs):
    for p, t in fs.items():
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
        open(os.path.join(d, p), "w", newline="").write(t.text().replace("\n", "\r\n") if t.crlf else t.text())

def make_crate(seed, nitems=8):
    rng = random.Random("crate %s" % seed)
    fs = crategen.CrateGen(rng).crate(nitems)
    for t in fs.values(): t.crlf = rng.random() < .15
    return fs, rng

def minimal(bodies, q):
    c = [b for b in bodies if b["start"] <= q <= b["end"]]
    return [b for b in c if not any(x is not b and b["start"] <= x["start"] and x["end"] <= b["end"] and (x["start"], x["end"]) != (b["start"], b["end"]) for x in c)]

def position_shard(a):
    I, seed, frac = a
    d = scratch("pos")
    st, viol, samples = {}, [], []
    def cnt(k, x=1): st[k] = st.get(k, 0) + x
    try:
        fs, rng = make_crate(seed)
        write_crate(d, fs)
        for p, t in sorted(fs.items()):
            L = t.text().split("\n")
            pts = [(i, rng.randrange(len(l) + 1)) for i, l in enumerate(L) if i + 1 < len(L) or l for _ in range(1 + len(l) // 40)]
            for b in t.bodies: pts += [b["start"], b["end"], b["body"][0]]
            pts = sorted({q for q in pts if rng.random() < frac})
            answers = {}
            for q in pts:
                c = minimal(t.bodies, q)
                def V(what, kind): viol.append(("%s:crate%s:%s:%s" % (kind, seed, p, q), "%s in crate %s, %s at %s: %s" % (kind, seed, p, q, what), {"files": {k: v.text() for k, v in fs.items()}, "file": p, "position": q}))
                try: r = I.direct(d, "m.rs", [], ("focus",) + q + (p,)); j = decode(r.stdout)
                except Exception as e: V("%s" % type(e).__name__, "answer"); continue
                if j is None: V("exit %d and no answer: %s" % (r.returncode, r.stderr[-300:]), "answer"); continue
                if not c:
                    cnt("positions outside")
                    if j.get("Err", {}).get("type") != "AnalysisError": V("expected an error, got %s" % str(j)[:200], "outside")
                    continue
                cnt("positions inside")
                if "Ok" not in j: V("%s" % str(j)[:300], "answer"); continue
                cs = [(P(x["start"]), P(x["end"])) for x in j["Ok"]["containers"]]
                hit = None
                for b in c:
                    if cs and cs[0] == b["body"] and (b["kind"] == "async block" or b.get("async") or
                        ((cs[1] == b["ret"] if b["ret"] else cs[1][0] == cs[1][1]) and cs[2:] == ([b["params"]] if b["params"] else []))): hit = b
                if not hit: V("containers %s, expected %s" % (cs, {k: c[0].get(k) for k in ("body", "ret", "params")}), "containers"); continue
                k = (hit["start"], hit["end"])
                if answers.setdefault(k, r.stdout) != r.stdout: V("another position of the same body gave another answer", "same body")
                seen = set()
                lo, hi = hit["start"], hit["end"]
                for x in j["Ok"]["place_info"]:
                    cnt("selectable ranges")
                    rr = (P(x["range"]["start"]), P(x["range"]["end"]))
                    if rr in seen: V("%s is listed twice" % (rr,), "selectable")
                    seen.add(rr)
                    sl = sorted((P(z["start"]), P(z["end"])) for z in x["slice"])
                    for z in [rr] + sl:
                        if not (lo <= z[0] <= z[1] <= hi): V("%s is not in the body" % (z,), "range")
                    if rr[0] == rr[1] and (hit.get("ret") or rr != cs[1]): V("%s is empty" % (rr,), "range")
                    for z, w in zip(sl, sl[1:]):
                        if w[0] < z[1]: V("slice ranges %s %s overlap" % (z, w), "slice")
                    for z in x["direct_influence"]:
                        z = (P(z["start"]), P(z["end"]))
                        if not any(u[0] <= z[0] and z[1] <= u[1] for u in sl): V("direct influence %s outside the slice of %s" % (z, rr), "direct")
            cnt("files")
        samples.append({"crate seed": seed, "m.rs": fs["m.rs"].text()[:1200], "bodies": sum(len(t.bodies) for t in fs.values())})
        return st, viol, samples
    finally:
        shutil.rmtree(d, ignore_errors=True)

def direct_fn(name, rng):
    """a straight function and, for each of its statements, the variables it reads or changes, directly or through a reference"""
    vs, st, n = [], [], [0]
    def fresh(c): n[0] += 1; return c + str(n[0])
    def v(): return rng.choice(vs)[0]
    def both(x): return {x}
    for i in range(3):
        x = fresh("v"); vs.append((x, i)); st.append(("let mut %s: i64 = k(%d);" % (x, i), {x}))
    for i in range(rng.randrange(8, 14)):
        r = rng.random()
        if r < .2:
            a, b, x = v(), v(), fresh("v"); st.append(("let mut %s: i64 = %s ^ %s;" % (x, a, b), {x, a, b})); vs.append((x, 0))
        elif r < .32: a, b = v(), v(); st.append(("%s = %s ^ 3;" % (a, b), {a, b}))
        elif r < .42: a, b = v(), v(); st.append(("%s += p_add(%s, 4);" % (a, b), {a, b}))
        elif r < .5: a = v(); st.append(("o(%d, %s);" % (i, a), {a}))
        elif r < .58:
            a, b = rng.sample([y[0] for y in vs], 2); st.append(("p_mut_i64(&mut %s, %s);" % (a, b), {a, b}))
        elif r < .8:
            a, x = v(), fresh("r"); st.append(("let %s = &%s;" % (x, a), {a}))
            for _ in range(rng.randrange(1, 3)):
                q = rng.random()
                if q < .4: st.append(("o(%d, p_ref_i64(%s));" % (100 + len(st), x), {a}))
                elif q < .6: st.append(("o(%d, *%s);" % (100 + len(st), x), {a}))
                elif q < .8:
                    y, b = fresh("v"), v(); st.append(("let mut %s: i64 = *%s ^ %s;" % (y, x, b), {a, b, y})); vs.append((y, 0))
                else:
                    h = fresh("h"); st.append(("let %s = (%s, %d);" % (h, x, i), {a})); st.append(("o(%d, %s.1);" % (100 + len(st), h), set())); st.append(("o(%d, *%s.0);" % (100 + len(st), h), {a}))
        else:
            a, b = rng.sample([y[0] for y in vs], 2); x = fresh("m"); st.append(("let %s = &mut %s;" % (x, a), {a}))
            for _ in range(rng.randrange(1, 3)):
                q = rng.random()
                if q < .35: st.append(("*%s = %s;" % (x, b), {a, b}))
                elif q < .6: st.append(("*%s += 2;" % x, {a}))
                elif q < .8: st.append(("p_mut_i64(%s, %s);" % (x, b), {a, b}))
                else: st.append(("o(%d, p_one(*%s));" % (100 + len(st), x), {a}))
    for x, _ in vs: st.append(("o(%d, %s);" % (300 + len(st), x), {x}))
    return "pub fn %s() {\n%s}\n" % (name, "".join("  %s\n" % x for x, _ in st)), st, [x for x, _ in vs]

def direct_shard(a):
    """what is shown as directly influencing a variable: the statements that touch it, also through references, and no others"""
    I, seed, n = a
    d = scratch("direct")
    st, viol, samples = {}, [], []
    def cnt(k, x=1): st[k] = st.get(k, 0) + x
    try:
        fs = [direct_fn("d%d" % i, random.Random("direct %s %d" % (seed, i))) for i in range(n)]
        s = precise.HELPERS + "pub fn k(i: usize) -> i64 { i as i64 }\npub fn o(_i: i32, _x: i64) {}\n" + "".join(f[0] for f in fs) + "fn main() {}\n"
        open(d + "/m.rs", "w").write(s)
        S = Src(s)
        for i, (src, stm, vs) in enumerate(fs):
            base = s.index(src)
            def V(what, **kw): viol.append(("touch:%s:d%d:%s" % (seed, i, what[:60].replace(" ", "_")), "direct d%d: %s" % (i, what), {"src": src, **kw}))
            try: r = I.direct(d, "m.rs", [], ("focus", s[:base].count("\n"), 8)); j = decode(r.stdout)
            except Exception as e: V("%s" % type(e).__name__); continue
            if not j or "Ok" not in j: V("%s %s" % (str(j)[:200], r.stderr[-200:])); continue
            R = {S.rng(p["range"]): p for p in j["Ok"]["place_info"]}
            at = base
            where = []
            for t, w in stm: at = s.index("  " + t + "\n", at) + 2; where.append((at, at + len(t) - 1, w, t))
            for x in vs + sorted(set(re.findall(r"let ([rm]\d+)", src))):
                q = re.compile(r"let ((mut )?%s)\b" % x).search(s, base)
                p = R.get((q.start(1), q.end(1)))
                if not p: cnt("definitions not selectable"); continue
                sl, di = [S.rng(z) for z in p["slice"]], [S.rng(z) for z in p["direct_influence"]]
                for lo, hi, w, t in where:
                    if not covers(sl, lo, hi): continue
                    inside = [z for z in di if lo <= z[0] < hi or z[0] <= lo < z[1]]
                    if x in w or re.search(r"\b%s\b" % x, t):
                        cnt("statements that touch the selection")
                        if not inside: V("%r touches %s and is no direct influence" % (t, x))
                    elif x[0] == "v":
                        cnt("statements that do not touch the selection")
                        if inside: V("%r does not touch %s and is a direct influence: %s" % (t, x, [s[z[0]:z[1]] for z in inside]))
        samples.append({"touching": fs[0][0][:900]})
        return st, viol, samples
    finally:
        shutil.rmtree(d, ignore_errors=True)

def c16(prop):
    rep = Report(prop, "(a) functions of seeded generated programs, all laws on the ranges of the answer of the real driver; (b) cursor positions in seeded multi-file crates whose bodies are known by construction, the answer compared with the innermost body there; an evaluation is one range or position judged; distinct non-trivial counts selectable ranges of (a) and positions inside a body of (b)")
    I = ide()
    rnd = 0
    while True:
        t = time.time()
        seed = rep.seed + 1000 * rnd
        with cf.ProcessPoolExecutor(8) as ex:
            fa = [ex.submit(focus_shard, (I, p, 20, seed, 50 + sh, prop)) for p in ("data", "ctl", "ref", "call", "mix", "early") for sh in range(1)]
            fb = [ex.submit(position_shard, ("%d-%d" % (seed, i),) and (I, "%d-%d" % (seed, i), .5)) for i in range(8)]
            fd = [ex.submit(direct_shard, (I, "%d-%d" % (seed, i), 12)) for i in range(4)]
            for f in fa + fb + fd:
                st, viol, sa = f.result()
                for k, v in st.items(): rep.count(k, v)
                rep.add(sum(st.get(k, 0) for k in ("statements that touch the selection", "statements that do not touch the selection", "selectable ranges", "slice ranges", "direct influences", "mentions", "positions inside", "positions outside")), st.get("selectable ranges", 0) + st.get("positions inside", 0))
                for k, w, kw in viol: rep.violation(k, w, **kw)
                for s in sa[:1]: rep.sample(s)
        rnd += 1
        if rep.viol or rnd >= (1 if not rep.thorough else 50) or rep.elapsed() + (time.time() - t) * 1.3 > 540: break
    rep.count("rounds", rnd)
    return rep

def spans_shard(a):
    I, seed = a
    d = scratch("spans")
    st, viol, samples = {}, [], []
    def cnt(k, x=1): st[k] = st.get(k, 0) + x
    try:
        fs, rng = make_crate(seed, rng_items(seed))
        write_crate(d, fs)
        for p, t in sorted(fs.items()):
            for path in {p, "./" + p, os.path.join(d, p), os.path.join(d, "alpha/../" + p)} if rng.random() < .5 else {p}:
                r = I.direct(d, "m.rs", [], ("spans", 0, 0, path))
                def V(what, kind): viol.append(("%s:crate%s:%s" % (kind, seed, p), "%s in crate %s, %s: %s" % (kind, seed, path, what), {"files": {k: v.text() for k, v in fs.items()}, "file": path}))
                try: j = decode(r.stdout)
                except Exception as e: V("undecodable %s" % e, "answer"); continue
                if not j or "Ok" not in j: V("exit %d %s %s" % (r.returncode, j, r.stderr[-300:]), "answer"); continue
                got = sorted((P(x["start"]), P(x["end"])) for x in j["Ok"]["spans"])
                exp = sorted((b["start"], b["end"]) for b in t.bodies)
                cnt("answers"); cnt("bodies", len(exp))
                for k in ("fn", "closure", "async block"): cnt("bodies: " + k, sum(b["kind"] == k for b in t.bodies))
                if got != exp:
                    V("missing %s, unexpected %s, repeated %s" % ([x for x in exp if x not in got], [x for x in got if x not in exp], sorted({x for x in got if got.count(x) > 1})), "spans")
        for path in ("nothere.rs", "alpha/nothere.rs", "m/mod.rs", os.path.join(d, "beta/m.rs"), "lpha.rs"):
            r = I.direct(d, "m.rs", [], ("spans", 0, 0, path))
            try: j = decode(r.stdout)
            except Exception as e: j = str(e)
            cnt("missing files")
            if j != {"Err": {"type": "FileNotFound"}}: viol.append(("missing:crate%s:%s" % (seed, path), "crate %s: the missing file %s gave %s" % (seed, path, str(j)[:300]), {"files": {k: v.text() for k, v in fs.items()}}))
        samples.append({"crate seed": seed, "files": {k: len(v.bodies) for k, v in fs.items()}, "beta/alpha.rs": fs["beta/alpha.rs"].text()[:1000]})
        return st, viol, samples
    finally:
        shutil.rmtree(d, ignore_errors=True)

def rng_items(seed): return random.Random("n %s" % seed).choice([2, 6, 8, 10, 14])

def c17(prop):
    rep = Report(prop, "the spans command on every file of seeded multi-file crates whose bodies are known by construction (functions, methods, trait defaults, nested functions, closures, async blocks; macro-made, cfg'd-out and constant ones must not be listed); an evaluation is one answer compared with the exact list; distinct non-trivial counts the bodies in those lists")
    I = ide()
    rnd = 0
    while True:
        t = time.time()
        with cf.ProcessPoolExecutor(8) as ex:
            for st, viol, sa in ex.map(spans_shard, [(I, "%d-%d" % (rep.seed + 1000 * rnd, i)) for i in range(24)]):
                for k, v in st.items(): rep.count(k, v)
                rep.add(st.get("answers", 0) + st.get("missing files", 0), st.get("bodies", 0))
                for k, w, kw in viol: rep.violation(k, w, **kw)
                for s in sa: rep.sample(s)
        rnd += 1
        if rep.viol or rnd >= (1 if not rep.thorough else 50) or rep.elapsed() + (time.time() - t) * 1.3 > 540: break
    rep.count("rounds", rnd)
    return rep

# ---------------------------------------------------------------- C23
MODES_RS = """#![allow(warnings)]
fn take(x: &mut i32, y: i32) {}
pub fn fctx(a: i32, b: i32) -> i32 { let mut x = a; take(&mut x, b); x }
pub fn fmut(a: i32, b: i32) -> i32 { let x = a; std::hint::black_box((&x, b)); x }
pub fn fptr(a: i32, b: i32) -> i32 { let mut s = 1; let mut t = a; let r = &mut s; let q = &mut t; *r = b; *q }
"""
SENS = {"fctx": ("--context-mode", "SigOnly"), "fmut": ("--mutability-mode", "IgnoreMut"), "fptr": ("--pointer-mode", "Conservative")}
DEFAULT = {"--context-mode": "SigOnly", "--mutability-mode": "DistinguishMut", "--pointer-mode": "Precise"}

def mode_answer(out, S, line):
    """does the slice of the tail expression contain the parameter b?"""
    l = MODES_RS.split("\n")[line]
    o = S.offs[line]
    tail = l.rindex("; ") + 2
    b = l.index("b: i32")
    for p in out["place_info"]:
        if S.rng(p["range"]) == (o + tail, o + len(l) - 2):
            return any(x <= o + b < y for x, y in (S.rng(z) for z in p["slice"]))
    return None

def mode_job(a):
    I, opts, want, via = a
    d = scratch("mode")
    res = []
    try:
        S = Src(MODES_RS)
        if via == "cargo":
            os.makedirs(d + "/src")
            open(d + "/Cargo.toml", "w").write('[package]\nname = "mm"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n')
            open(d + "/src/lib.rs", "w").write(MODES_RS)
        else: open(d + "/m.rs", "w").write(MODES_RS)
        for line in (2, 3, 4):
            l = MODES_RS.split("\n")[line]
            fn = l.split("(")[0].split()[-1]
            r = I.cargo(d, opts, ["focus", "src/lib.rs", line, 5]) if via == "cargo" else I.direct(d, "m.rs", opts, ("focus", line, 5))
            try: j = decode(r.stdout); got = mode_answer(j["Ok"], S, line)
            except Exception as e: got = "%s: %s" % (type(e).__name__, r.stderr[-300:])
            flag, val = SENS[fn]
            exp = want[flag] == val
            res.append((fn, " ".join(opts), via, exp, got))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def all_opts(rng):
    out = []
    for c in (None, 1, 2):
        for m in (None, 1, 2):
            for p in (None, 1, 2):
                o, want = [], dict(DEFAULT)
                fl = [(MODEFLAGS[i][0], MODEFLAGS[i][x]) for i, x in enumerate((c, m, p)) if x]
                rng.shuffle(fl)
                for f, v in fl:
                    o += [f + "=" + v] if rng.random() < .4 else [f, v]
                    want[f] = v
                out.append((o, want))
    return out

WS = {
    "Cargo.toml": '[workspace]\nmembers = ["a", "b"]\nresolver = "2"\n',
    "a/Cargo.toml": '[package]\nname = "a-x"\nversion = "0.1.0"\nedition = "2021"\n',
    "a/src/lib.rs": "pub mod util; pub mod refs;\npub fn la(x: i32) -> i32 {\n  util::u(x)\n}\n",
    "a/src/util.rs": "pub fn u(x: i32) -> i32 { let y = x; y }\n#[cfg(test)] mod t { #[test] fn tt() { let a = 1; } }\n",
    "a/src/refs.rs": "pub fn rq<'a>(x: &'a i32) -> &'a i32 { let y = &*x; y }\npub fn rv(x: i32) -> i32 { x }\n",
    "a/src/main.rs": "fn main() { println!(\"hi {}\", a_x::la(3)); }\n",
    "a/src/unused.rs": "pub fn u(x: i32) -> i32 { let y = x; y }\n",
    "a/src/empty.rs": "",
    "a/tests/it.rs": "#[test] fn t() { let q = a_x::la(1); assert!(q > 0); }\n",
    "a/examples/ex.rs": "fn main() { let q = a_x::la(1); }\n",
    "b/Cargo.toml": '[package]\nname = "b"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\na-x = { path = "../a" }\n',
    "b/src/lib.rs": "//! docs\npub mod inner;\npub fn lb(x: i32) -> i32 { let unused = 3; a_x::la(x) + inner::i(x) }\n",
    "b/src/inner.rs": "//! \u00e9\npub(crate) fn i(x: i32) -> i32 {\n  let c = |z: i32| z + x;\n  c(2)\n}\n",
}
BROKEN = {
    "syntax": ("b/src/lib.rs", "pub fn lb(x: i32) -> i32 { x + }\n"),
    "type": ("b/src/lib.rs", "pub fn lb(x: i32) -> i32 { x + \"\" }\n"),
    "borrow": ("b/src/lib.rs", "pub fn lb(x: i32) -> i32 { let mut v = vec![x]; let r = &v[0]; v.push(1); *r }\n"),
    "move": ("b/src/lib.rs", "pub fn lb(x: String) -> String { let y = x; let z = x; y + &z }\n"),
    "unresolved": ("b/src/lib.rs", "pub fn lb(x: i32) -> i32 { nope(x) }\n"),
    "module": ("b/src/lib.rs", "mod gone;\npub fn lb(x: i32) -> i32 { x }\n"),
    "dependency": ("a/src/lib.rs", "pub mod util;\npub fn la(x: i32) -> i32 { let y: () = x; y }\n"),
    "lint": ("b/src/lib.rs", "#![forbid(unsafe_code)]\npub fn lb(x: i32) -> i32 { unsafe { x } }\n"),
    "const": ("b/src/lib.rs", "const C: usize = [1usize, 2][5];\npub fn lb(x: i32) -> i32 { let a = [0; C]; x }\n"),
    "lifetime": ("b/src/lib.rs", "pub fn lb<'a, 'b>(x: &'a i32, y: &'b i32) -> &'a i32 { y }\n"),
}

def proto_job(a):
    I, what, steps = a
    d = scratch("ws")
    res = []
    try:
        files = dict(WS)
        if what in BROKEN: files[BROKEN[what][0]] = BROKEN[what][1]
        for p, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            open(os.path.join(d, p), "w").write(t)
        for opts, cmd, exp in steps:
            cmd = [str(x).replace("@", d) for x in cmd]
            try: r = I.cargo(d, opts, cmd)
            except subprocess.TimeoutExpired: res.append((what, opts, cmd, "hang")); continue
            bad = judge(r, exp, cmd)
            res.append((what, opts, cmd, bad and bad + " [exit %d, stdout %r, stderr %r]" % (r.returncode, r.stdout[:200], r.stderr[-300:])))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def judge(r, exp, cmd):
    if exp == "build failure":
        if r.returncode == 0: return "a failed build exits with 0"
        if r.stdout.strip(): return "a failed build prints something"
        return None
    if exp == "usage":
        return None if r.returncode not in (0, 101) and not r.stdout.strip() else "a bad command line is not refused"
    if exp == "quiet": return None if r.returncode == 0 and not r.stdout.strip() else "expected exit 0 and no output"
    if exp == "version":
        return None if r.returncode == 0 and re.fullmatch(r"\d+\.\d+\.\d+\S* \([0-9a-f]+ [-0-9]+\)\n", r.stdout) else "expected the compiler's version"
    if r.returncode != 0: return "exit %d" % r.returncode
    s = r.stdout.strip()
    if re.search(r"\s", s): return "more than one document"
    try: j = decode(s)
    except Exception as e: return "undecodable: %s" % e
    if not isinstance(j, dict) or len(j) != 1: return "neither Ok nor Err"
    if exp[0] == "spans":
        got = sorted((P(x["start"]), P(x["end"])) for x in j.get("Ok", {}).get("spans", [((0, 0))])) if "Ok" in j else j
        return None if got == sorted(exp[1]) else "got %s, expected %s" % (got, exp[1])
    if exp[0] == "outlives":
        o = j.get("Ok")
        if not isinstance(o, dict) or not isinstance(o.get("outlives"), list): return "not a playground answer: %s" % str(j)[:200]
        o = o["outlives"]
        if any(not isinstance(x, list) or len(x) != 2 or not all(isinstance(y, str) and y for y in x) for x in o) or len({tuple(x) for x in o}) != len(o): return "not a set of pairs: %s" % str(o)[:200]
        return None if bool(o) == exp[1] else "%d outlives pairs, expected %s" % (len(o), "some" if exp[1] else "none")
    if exp[0] == "err":
        e = j.get("Err", {})
        if e.get("type") != exp[1]: return "expected the error %s, got %s" % (exp[1], str(j)[:200])
        if exp[1] == "AnalysisError" and not isinstance(e.get("error"), str): return "no message"
        return None
    if exp[0] == "focus":
        o = j.get("Ok")
        if not o or set(o) < {"place_info", "containers"}: return "not a focus answer: %s" % str(j)[:200]
        c = o["containers"][0]
        return None if (P(c["start"]), P(c["end"])) == exp[1] else "body %s, expected %s" % (c, exp[1])

def span_of(p, text):
    """range of a substring of a file of WS"""
    s = WS[p]; o = s.index(text); S = Src(s)
    return (S.lc(o), S.lc(o + len(text)))

def proto_jobs(rng):
    good = []
    def body(p, t): return ("focus", span_of(p, t))
    U = "{ let y = x; y }"
    def path(p): return rng.choice([p, "@/" + p, "./" + p, "@/a/../" + p])
    for i in range(3):
        st = [([], ["rustc-version"], "version"), ([], ["preload"], "quiet")]
        q = [
            (["spans", path("a/src/util.rs")], ("spans", [span_of("a/src/util.rs", "pub fn u(x: i32) -> i32 " + U)])),
            (["spans", path("a/src/lib.rs")], ("spans", [span_of("a/src/lib.rs", WS["a/src/lib.rs"].split("\n", 1)[1].strip())])),
            (["spans", path("a/src/main.rs")], ("spans", [span_of("a/src/main.rs", WS["a/src/main.rs"].strip())])),
            (["spans", path("a/tests/it.rs")], ("spans", [span_of("a/tests/it.rs", WS["a/tests/it.rs"][8:].strip())])),
            (["spans", path("a/examples/ex.rs")], ("spans", [span_of("a/examples/ex.rs", WS["a/examples/ex.rs"].strip())])),
            (["spans", path("b/src/inner.rs")], ("spans", [span_of("b/src/inner.rs", "|z: i32| z + x"), span_of("b/src/inner.rs", WS["b/src/inner.rs"].split("\n", 1)[1].strip())])),
            (["spans", path("a/src/unused.rs")], ("err", "FileNotFound")),
            (["spans", path("a/src/empty.rs")], ("err", "FileNotFound")),
            (["focus", path("a/src/unused.rs"), 0, 24], ("err", "AnalysisError")),
            (["focus", path("a/src/util.rs"), 0, 26 + rng.randrange(10)], body("a/src/util.rs", U)),
            (["focus", path("a/src/util.rs"), 0, 0], body("a/src/util.rs", U)),
            (["focus", path("a/src/lib.rs"), rng.choice([1, 2, 3]), 0 if i else 1], body("a/src/lib.rs", WS["a/src/lib.rs"][WS["a/src/lib.rs"].index("{"):].strip())),
            (["focus", path("a/src/lib.rs"), 0, 3], ("err", "AnalysisError")),
            (["focus", path("a/src/lib.rs"), 4, 0], ("err", "AnalysisError")),
            (["focus", path("a/src/util.rs"), 0, rng.choice([400, 41, 2**40])], ("err", "AnalysisError")),
            (["focus", path("a/src/util.rs"), rng.choice([2, 3, 10**6]), 0], ("err", "AnalysisError")),
            (["playground", path("a/src/refs.rs"), 0, rng.randrange(30, 40), 0, rng.randrange(40, 50)], ("outlives", True)),
            (["playground", path("a/src/refs.rs"), 1, rng.randrange(10), 1, rng.randrange(12, 28)], ("outlives", False)),
            (["playground", path("a/src/refs.rs"), 0, rng.randrange(30, 40), 1, 20], ("err", "AnalysisError")),
            (["playground", path("a/src/refs.rs"), 0, 30, rng.choice([0, 1, 2, 3, 2**33]), rng.choice([200, 10**9])], ("err", "AnalysisError")),
            (["playground", path("a/src/unused.rs"), 0, 24, 0, 25], ("err", "AnalysisError")),
            (["focus", path("b/src/inner.rs"), 2, 17], body("b/src/inner.rs", "z + x")),
            (["focus", path("b/src/inner.rs"), 3, 2], body("b/src/inner.rs", WS["b/src/inner.rs"][WS["b/src/inner.rs"].index("{"):].strip())),
            (["focus", path("b/src/lib.rs"), 2, 30], body("b/src/lib.rs", WS["b/src/lib.rs"][WS["b/src/lib.rs"].index("{"):].strip())),
        ]
        rng.shuffle(q)
        for c, e in q:
            o = []
            for fl in MODEFLAGS:
                if rng.random() < .3: o += [fl[0], rng.choice(fl[1:])]
            st.append((o, c, e))
        good.append(("good", st))
    usage = [([], ["focus", "a/src/util.rs", "x", 2], "usage"), ([], ["focus", "a/src/util.rs"], "usage"), ([], ["nonsense"], "usage"), ([], ["playground", "a/src/util.rs", 0, 1, 2], "usage"), ([], ["focus", "a/src/util.rs", 0, -1], "usage"),
             (["--context-mode", "Bogus"], ["spans", "a/src/util.rs"], "usage"), (["--pointer-mode", "SigOnly"], ["spans", "a/src/util.rs"], "usage"), (["--mutability-mode", "Precise"], ["spans", "a/src/util.rs"], "usage"), ([], [], "usage")]
    good.append(("usage", usage))
    for k in BROKEN:
        good.append((k, [([], ["spans", "b/src/lib.rs"], "build failure"), ([], ["focus", "@/b/src/lib.rs", 0, 25], "build failure"), ([], ["playground", "b/src/lib.rs", 0, 25, 0, 26], "build failure"), ([], ["preload"], "build failure")]))
    return good

def grid_shard(a):
    I, seed = a
    d = scratch("grid")
    st, viol = {}, []
    def cnt(k, x=1): st[k] = st.get(k, 0) + x
    try:
        fs, rng = make_crate("g" + seed, 3)
        write_crate(d, fs)
        for p, t in sorted(fs.items()):
            L = t.text().split("\n")
            pts = [(rng.randrange(len(L)), 0) for _ in range(2)] + [(len(L) + rng.randrange(3), 0), (rng.randrange(10**9), rng.randrange(10**9)), (len(L) - 1, len(L[-1]) + 1)]
            for _ in range(6):
                i = rng.randrange(len(L)); pts.append((i, len(L[i]) + rng.randrange(-2, 4)))
            for q in pts:
                q = (q[0], max(0, q[1]))
                inside = q[0] < len(L) and q[1] <= len(L[q[0]]) and bool(minimal(t.bodies, q))
                r = I.direct(d, "m.rs", [], ("focus",) + q + (p,))
                cnt("positions"); cnt("positions inside a body" if inside else "positions outside every body")
                try: j = decode(r.stdout)
                except Exception as e: j = str(e)
                good = r.returncode == 0 and isinstance(j, dict) and ("Ok" in j if inside else j.get("Err", {}).get("type") == "AnalysisError")
                if not good: viol.append(("position:%s:%s:%s" % (seed, p, q), "position %s of %s (crate g%s): exit %d, %s %s" % (q, p, seed, r.returncode, str(j)[:200], r.stderr[-300:]), {"text": t.text()}))
        return st, viol
    finally:
        shutil.rmtree(d, ignore_errors=True)

def c23(prop):
    rep = Report(prop, "invocations of the real command line (cargo flowistry in generated workspaces, and the driver directly): exit status and standard output judged; an evaluation is one invocation or one option combination judged; distinct non-trivial counts distinct (command line, expectation) pairs",
                 ["files are given by an absolute path or one relative to the workspace root, which is how the editor calls it",
                  "the choice of the cargo target for a file is made by the rustc_plugin dependency, outside this repository: only files it maps are used"])
    I = ide()
    rng = random.Random("c23 %d" % rep.seed)
    opts = all_opts(rng)
    for o, _ in opts:
        I.template(o, ["focus", "src/qzfileqz.rs", "741852", "963258"])
    distinct = set()
    rnd = 0
    while True:
        t = time.time()
        with cf.ProcessPoolExecutor(8) as ex:
            pj = [ex.submit(proto_job, (I, w, s)) for w, s in proto_jobs(rng)]
            mj = [ex.submit(mode_job, (I, o, w, "direct")) for o, w in opts] + [ex.submit(mode_job, (I, o, w, "cargo")) for o, w in rng.sample(opts, 27 if rep.thorough else 6)]
            gj = [ex.submit(grid_shard, (I, "%d-%d" % (rep.seed + 1000 * rnd, i))) for i in range(4)]
            for f in pj:
                for what, o, cmd, bad in f.result():
                    rep.count("invocations (%s)" % ("broken build" if what in BROKEN else what)); rep.add(1, 0); distinct.add((what, tuple(o), tuple(cmd[:1]), tuple(os.path.basename(str(x)) for x in cmd[1:])))
                    rep.sample({"workspace": what, "options": o, "command": cmd, "judged": bad or "as expected"})
                    if bad: rep.violation("proto:%s:%s:%s" % (what, "_".join(o), "_".join(os.path.basename(str(x)) for x in cmd)), "workspace %s, %s %s: %s" % (what, o, cmd, bad), workspace=what, options=o, command=cmd)
            for f in mj:
                for fn, o, via, exp, got in f.result():
                    rep.count("option combinations"); rep.add(1, 0); distinct.add((fn, o, via))
                    if got is not exp: rep.violation("mode:%s:%s:%s" % (fn, via, o.replace(" ", "_")), "options [%s] via %s: in %s the parameter b is in the slice: %s, expected %s" % (o, via, fn, got, exp), options=o, source=MODES_RS)
            for f in gj:
                st, viol = f.result()
                for k, v in st.items(): rep.count(k, v)
                rep.add(st["positions"], st["positions"])
                for k, w, kw in viol: rep.violation(k, w, **kw)
        rnd += 1
        if rep.viol or rnd >= (1 if not rep.thorough else 50) or rep.elapsed() + (time.time() - t) * 1.3 > 540: break
    rep.distinct += len(distinct)
    rep.count("rounds", rnd)
    return rep

def repeat_shard(a):
    """the same command several times: the same bytes"""
    I, seed = a
    d = scratch("rep")
    st, viol = {"commands repeated": 0, "command runs": 0}, []
    try:
        fs, rng = make_crate("r" + seed, 8)
        write_crate(d, fs)
        cmds = []
        for p, t in sorted(fs.items()):
            cmds.append(("spans", 0, 0, p))
            for b in rng.sample(t.bodies, min(3, len(t.bodies))): cmds.append(("focus",) + b["body"][0] + (p,))
        for c in cmds:
            outs = {I.direct(d, "m.rs", [], c).stdout for _ in range(4)}
            st["commands repeated"] += 1; st["command runs"] += 4
            if len(outs) != 1: viol.append(("repeat:%s:%s" % (seed, c), "%s of crate r%s: %d different outputs in 4 runs" % (c, seed, len(outs)), {"files": {k: v.text() for k, v in fs.items()}}))
        return st, viol
    finally:
        shutil.rmtree(d, ignore_errors=True)

def repeats(rep):
    I = ide()
    with cf.ProcessPoolExecutor(8) as ex:
        for st, viol in ex.map(repeat_shard, [(I, "%d-%d" % (rep.seed, i)) for i in range(64 if rep.thorough else 8)]):
            for k, v in st.items(): rep.count(k, v)
            rep.add(st["commands repeated"], st["commands repeated"])
            for k, w, kw in viol: rep.violation(k, w, **kw)
