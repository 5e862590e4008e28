"""C12: the places reported for a dereference against the addresses seen when the program runs."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
from report import Report
from engine import *
import core

RTAL = open(os.path.join(VERIF, "lib/rt_alias.rs")).read()
MARK = "/*L*/"

def split_lines(src):
    """one statement per line where that is easy"""
    out, buf, pd, i, instr = [], "", 0, 0, False
    for c in src:
        buf += c
        if c == '"': instr = not instr
        if instr: continue
        if c in "([": pd += 1
        elif c in ")]": pd -= 1
        elif c == ";" and pd == 0: out.append(buf); buf = ""
        elif c == "\n": out.append(buf.rstrip("\n")); buf = ""
    if buf.strip(): out.append(buf)
    return [l for l in out if l.strip()]

BINDERS = [re.compile(p) for p in (r"if let Some\((?:ref mut |ref |mut )?(\w+)\) = [^{]*\{", r"while let Some\((\w+)\) = [^{]*\{", r"for (\w+) in [^{]*\{", r"\w+::\w+\((\w+)\) => \{",
                                   r"\w+::\w+ \{ (?:\w+: )?(?:ref mut |ref )?(\w+)[^}]*\} => \{", r"Some\((?:ref mut |ref )?(\w+)\) => \{")]

def instrument(f, v):
    """f with calls that log what its pointers point to; the logging lines carry a mark"""
    ptrs, boxes, args = v["ptrs"], set(v["boxes"]), v["args"]
    names = set(ptrs)
    body = f.src
    def reg(n):
        r = ['%s __al::reg("%s", &raw const %s);' % (MARK, n, n)]
        if n in boxes:
            rest = re.sub(r"let (mut )?%s\b" % n, "", body, count=1)
            if not re.search(r"(?<!\*)\b%s\b" % n, rest): r.append('%s __al::reg("(*%s)", &raw const (*%s));' % (MARK, n, n))
        return r
    def look(n): return ['%s __al::ptr("%s", &raw const %s);' % (MARK, x, x) for x in sorted(ptrs.get(n, ()))]
    lines = split_lines(body)
    out, depth, scope, pend, started, prev = [], 0, {}, [], False, ""
    for l in lines:
        st = l.strip()
        if not started:
            out.append(l)
            depth += l.count("{") - l.count("}")
            if st.endswith("{") and depth >= 1:
                started = True
                out.append('let __g = __al::enter("%s");' % f.name)
                for a in args:
                    out += reg(a)
                    for x in sorted(ptrs.get(a, ())): out.append('%s __al::reg("%s", &raw const %s);' % (MARK, x, x))
                    out += look(a)
                    scope[a] = depth
                prev = "{"
            continue
        if prev.endswith((";", "{", "}")) and not re.match(r"[})\].,]|else\b|\w+::\w+.*=>|\w+ =>|Some\(|None\b|_ ", st):
            for n in sorted(set(re.findall(r"\b[a-z]+\d+\b", l)) & set(scope)):
                out += look(n)
        # pattern binders get a log of their own
        parts, pos, hits = [], 0, []
        for b in BINDERS:
            for m in b.finditer(l):
                if m.group(1) in names: hits.append((m.end(), m.group(1)))
        for e, n in sorted(hits):
            parts.append(l[pos:e]); pos = e
            out.append("".join(parts)); parts = []
            out += look(n)
        for m in re.finditer(r"(?:^|[{;])\s*let (.*?)(?:=|;)", l):
            ns = [n for n in re.findall(r"\b[a-z]+\d*\b", m.group(1)) if n in names]
            if ns: pend.append((ns, depth + l[:m.start(1)].count("{") - l[:m.start(1)].count("}")))
        out.append(l[pos:])
        depth += l.count("{") - l.count("}")
        for n in [n for n, d in scope.items() if d > depth]: del scope[n]
        for p in list(pend):
            if depth < p[1]: pend.remove(p)
            elif depth == p[1] and st.endswith(";"):
                pend.remove(p)
                for n in p[0]:
                    scope[n] = depth
                    out += reg(n) + look(n)
        prev = st
    return "\n".join(out)

def build(fns, helpers, d, tag):
    """compiles the instrumented functions; logging the borrow checker objects to is left out"""
    cur = {f.name: f.src.split("\n") for f in fns}
    by = {f.name: f for f in fns}
    removed = total = 0
    total = sum(l.startswith(MARK) for ls in cur.values() for l in ls)
    for rnd in range(40):
        s = core.PRELUDE + helpers + "\n" + RTAL + "\n"
        where, ln = {}, s.count("\n") + 1
        for n, ls in cur.items():
            for i, l in enumerate(ls):
                where[ln + i] = (n, i)
            s += "\n".join(ls) + "\n"; ln += len(ls)
        fin = s + core.RTMAIN.replace('print!("{}", out);', '__al::dump();')
        fin += "static __TABLE: &[__F] = &[\n" + "".join('  __F { name: "%s", nk: %d, na: %d, run: |v| { %s } },\n' % (n, by[n].nk, len(by[n].argof), by[n].call) for n in cur) + "];\n"
        p = os.path.join(d, tag + ".rs")
        open(p, "w").write(fin)
        r = core.rustc_native(p, os.path.join(d, tag + ".exe"))
        if r.returncode == 0: return cur, os.path.join(d, tag + ".exe"), total, removed
        kill, dead = set(), set()
        for line in r.stderr.splitlines():
            try: m = json.loads(line)
            except ValueError: continue
            if m.get("level") != "error": continue
            hit = [where[x] for sp in m.get("spans", []) for x in range(sp["line_start"], sp["line_end"] + 1) if x in where]
            log = [h for h in hit if cur[h[0]][h[1]].startswith(MARK)]
            if log: kill.update(log)
            else: dead.update(h[0] for h in hit)
        if not kill and not dead: raise RuntimeError("instrumented program does not compile: " + r.stderr[:600])
        if kill: dead = set()
        removed += len(kill)
        for n in list(cur):
            if n in dead: del cur[n]
            else: cur[n] = [l for i, l in enumerate(cur[n]) if (n, i) not in kill]
    raise RuntimeError("too many compile rounds")

def shard(a):
    fvh, profile, n, seed, sh, ncallee, nbase, nalt = a
    d = scratch("al")
    try:
        fns, callees = make_fns(profile, n, seed, sh, ncallee=ncallee, nested_callees=True)
        cf_ = [Fn("gc_%d" % i, s, "let _ = v;", [], 0, 0, {"callee": True}) for i, s in enumerate(callees)]
        kept, _, dropped, _ = filter_compiling(cf_ + fns, HELPERS, d)
        return check(fvh, kept, HELPERS, d, seed, nbase, nalt, profile, sh)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(fvh, kept, helpers, d, seed, nbase, nalt, profile, sh):
    res = {"viol": [], "fns": 0, "logs": 0, "hits": 0, "facts": 0, "multi": 0, "ptrs": 0, "loglines": 0, "loglines removed": 0, "samples": [], "arg targets": 0, "box targets": 0}
    js, r = analyse(fvh, kept, helpers, d, ["DSP"], cmd="alias", only="f_,gc_,p_", timeout=300)
    if js is None:
        res["viol"].append(("<file>", "-", "harness exit %d: %s" % (r.returncode, r.stderr[-300:]), "")); return res
    by = {x["name"]: x for x in js["fns"]}
    inst = []
    for f in kept:
        x = by.get(f.name)
        if x is None: continue
        if "panic" in x: res["viol"].append((f.name, "panic", x["panic"], f.src)); continue
        inst.append(Fn(f.name, instrument(f, x["v"]), f.call, f.argof, f.nk, 0, f.meta))
    cur, exe, total, removed = build(inst, helpers, d, "al")
    res["fns"] = len(cur); res["loglines"], res["loglines removed"] = total, removed
    p = subprocess.run([exe, str(seed), str(nbase), str(nalt)], capture_output=True, text=True, timeout=300)
    if p.returncode != 0: raise RuntimeError("native run failed: %d %s" % (p.returncode, p.stderr[-300:]))
    src = {f.name: f.src for f in kept}
    seen = {}
    for l in p.stdout.splitlines():
        t = l.split("\t")
        if t[0] == "T": res["logs"], res["hits"] = int(t[1]), int(t[2]); continue
        _, fn, e, n, c = t[:5]; n = int(n)
        at = [(x.rsplit("@", 1)[0], int(x.rsplit("@", 1)[1])) for x in t[5:]]
        x = by[fn]["v"]
        var = re.search(r"[a-z]\w*", e).group(0)
        en = x["ptrs"][var][e]
        res["facts"] += 1
        res["box targets"] += any(r.startswith("(*") and r[2:-1] in x["boxes"] for r, _ in at)
        res["arg targets"] += all(r.startswith("(*") and r[2:-1] not in x["boxes"] for r, _ in at)
        res["multi"] += bool(seen.setdefault((fn, e), set()) - {tuple(at)} and tuple(at) not in seen[fn, e])
        seen[fn, e].add(tuple(at))
        # what two shared references of the caller both point to may be reported as either's
        def covers(s): return any(z and z[0] == reg and z[1] < off + n and off < z[1] + z[2] for z in s for reg, off in at)
        what = "%s designates %s (%d bytes) in %s run(s)" % (e, " / ".join("%s at offset %d" % y for y in at), n, c)
        if not covers(en["aliases"]):
            res["viol"].append((fn, "alias", what + "; reported aliases %s" % json.dumps(sorted(map(str, en["aliases"])))[:300], src[fn]))
        elif not covers(en["reach"]) and not any(r.startswith("(*") and r[2:-1] not in x["boxes"] for r, _ in at):
            res["viol"].append((fn, "reach", what + "; reported as reachable %s" % json.dumps(sorted(map(str, en["reach"])))[:300], src[fn]))
        elif len(res["samples"]) < 1 and any(o > 0 for _, o in at):
            res["samples"].append({"fn": fn, "observed": what, "aliases": en["aliases"][:8], "source": src[fn][:900]})
    res["ptrs"] = len(seen)
    return res

def run(prop):
    rep = Report(prop, "functions of the seeded grammar and hand-written ones, instrumented to log the address of every variable and of what every pointer-valued place "
                       "points to, run on seeded inputs; an evaluation is one (pointer, memory it was seen to designate); distinct non-trivial counts those where a pointer "
                       "was seen to designate a second place", [
        "the native program compiled by the same rustc lays data out the way the harness computes",
        "logging the borrow checker would object to is left out (counted)"])
    fvh = build_harness()
    rnd = 0
    while True:
        seed = rep.seed + 1000 * rnd
        t = time.time()
        jobs = [(fvh, p, 45, seed, s, 10, 12, 2) for p, k in (("ref", 10), ("mix", 8), ("call", 8), ("early", 3), ("ctl", 3)) for s in range(k)]
        with cf.ProcessPoolExecutor(8) as ex:
            futs = list(ex.map(shard, jobs))
        for r in futs:
            for k in ("fns", "logs", "hits", "ptrs", "loglines", "loglines removed", "arg targets", "box targets"): rep.count({"fns": "functions", "logs": "pointer values logged", "hits": "logged values that pointed into known memory", "ptrs": "pointer-valued places seen designating known memory"}.get(k, k), r[k])
            rep.add(r["facts"], r["multi"])
            for v in r["viol"]: rep.violation("%s:%s:%s" % (v[1], v[0], v[2][:40].replace(" ", "_")), "%s: %s" % (v[0], v[2]), fn=v[0], src=v[3])
            for s in r["samples"]: rep.sample(s)
        rnd += 1
        if (not rep.thorough and rnd >= 4) or rep.viol or rep.elapsed() + (time.time() - t) * 1.3 > 560: break
    rep.count("rounds", rnd)
    return rep
