"""Hand-written probe functions: /verif/probes/*.rs, run natively and analysed like generated ones."""
import glob
from noninterf import *

def load():
    """(helpers, fns): blocks `//# name | call | argument numbers` after a shared head per file"""
    helpers, fns = "", []
    for p in sorted(glob.glob(os.path.join(VERIF, "probes", "*.rs"))):
        t = open(p).read()
        if "//# " not in t: continue
        parts = t.split("//# ")
        mod = os.path.basename(p)[:-3]
        helpers += parts[0] + "\n"
        for blk in parts[1:]:
            head, src = blk.split("\n", 1)
            name, call, argof = [x.strip() for x in head.split("|")]
            src = src.rstrip() + "\n"
            nk = max([int(x) for x in re.findall(r"\bk\((\d+)\)", src)] + [-1]) + 1
            fns.append(Fn(name, src, call, [int(x) for x in argof.split()], nk, 0, {"probe": mod}))
    return helpers, fns

def run(fvh, modes, seed, nbase=40, nalt=5, fwd=False):
    """[(fn, mode, violation)] and statistics"""
    helpers, fns = load()
    d = scratch("probes")
    try:
        kept, exe, dropped, msgs = filter_compiling(fns, helpers, d)
        if dropped:
            raise RuntimeError("probes do not compile: %s" % msgs[:5])
        js, r = analyse(fvh, kept, helpers, d, modes, extra=["--fwd"] if fwd else (), timeout=200)
        if js is None:
            return [("<all>", "-", ("crash", "harness exit %d: %s" % (r.returncode, r.stderr[-800:])), "")], {}
        dyn = run_native(exe, seed, nbase, nalt)
        by = {x["name"]: x for x in js["fns"]}
        out, st = [], {"fns": len(kept)}
        infl = set()
        for f in kept:
            if f.name not in dyn: continue
            for m in modes:
                v, s = check_fn(f, by[f.name], dyn[f.name], m, fwd)
                for a, b in s.items(): st[a] = st.get(a, 0) + b
                out += [(f.name, m, x, f.src) for x in v]
            infl |= {(f.name, i, j) for (i, j) in dyn[f.name]["infl"]}
            st["runs"] = st.get("runs", 0) + dyn[f.name]["runs"]
            st["panics"] = st.get("panics", 0) + dyn[f.name]["panics"]
        st["infl"] = len(infl)
        return out, st
    finally:
        shutil.rmtree(d, ignore_errors=True)
