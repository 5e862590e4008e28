"""The dynamic noninterference monitor: observed influences must be in the static slice."""
import os, re, shutil
from core import *

def static_sets(fj):
    """knob -> set of locations, per function"""
    kn = {}
    for c in fj["calls"]:
        if c["callee"].split("::")[-1] == "k" and c["consts"] and c["consts"][0] is not None:
            kn.setdefault(c["consts"][0], set()).add(c["loc"])
    return kn

def check_fn(f, fj, dyn, mode, fwd=None):
    """Returns (violations, stats). A violation is an influence seen at run time that the slice misses."""
    st = {"pairs": 0, "static_dep": 0, "dyn": 0, "obs_exec": 0}
    viol = []
    m = fj["modes"][mode]
    if "panic" in m:
        return [("panic", m["panic"])], st
    kn = static_sets(fj)
    obs = {}
    for ob in m["obs"]:
        obs.setdefault(ob["id"], set()).update(ob["deps"])
    if fwd: return check_fwd(f, m, kn, dyn, st)
    for oid, deps in obs.items():
        if dyn["exec"].get(oid): st["obs_exec"] += 1
        for j in range(f.nk + len(f.argof)):
            st["pairs"] += 1
            if j < f.nk:
                ok = bool(kn.get(j, set()) & deps)
            else:
                ok = ("a%d" % f.argof[j - f.nk]) in deps
            seen = (oid, j) in dyn["infl"]
            st["static_dep"] += ok
            st["dyn"] += seen
            if seen and not ok:
                what = "knob k(%d)" % j if j < f.nk else "argument %d" % f.argof[j - f.nk]
                viol.append(("missed", oid, what, dyn["infl"][(oid, j)]))
    return viol, st

def check_fwd(f, m, kn, dyn, st):
    """An observer that an input influences at run time must be in the input's forward slice."""
    viol = []
    oids = sorted({ob["id"] for ob in m["obs"] if ob["id"] < 900000})
    for j in range(f.nk + len(f.argof)):
        srcs = kn.get(j, ()) if j < f.nk else ("a%d" % f.argof[j - f.nk],)
        reach = set()
        for s in srcs: reach.update(m["fwd"].get(s, ()))
        for oid in oids:
            st["pairs"] += 1
            ok, seen = oid in reach, (oid, j) in dyn["infl"]
            st["static_dep"] += ok
            st["dyn"] += seen
            if seen and not ok:
                what = "knob k(%d)" % j if j < f.nk else "argument %d" % f.argof[j - f.nk]
                viol.append(("not in forward slice", oid, what, dyn["infl"][(oid, j)]))
    for oid in oids:
        if dyn["exec"].get(oid): st["obs_exec"] += 1
    return viol, st
