"""C21, C22, C24: the editor extension, bundled from /repo/ide/src with stand-ins for the editor and its libraries, run under node."""
import json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from core import VERIF, REPO, BuildFailed, scratch
from report import Report

TS = os.path.join(VERIF, "ts")
LIMIT = 2400 if os.environ.get("VERIF_TIER") == "thorough" else 350
NODE = shutil.which("node") or "/usr/bin/node"

def bundle(d):
    out = os.path.join(d, "b.cjs")
    p = subprocess.run([NODE, os.path.join(TS, "build.cjs"), REPO, out], capture_output=True, text=True)
    if p.returncode != 0: raise BuildFailed("bundling the extension failed: " + p.stderr[-3000:])
    return out

def run(prop, script, rule, rounds, shards, assumptions):
    rep = Report(prop, rule, assumptions)
    d = scratch("ts")
    try:
        b = bundle(d)
        def shard(i):
            try:
                p = subprocess.run([NODE, os.path.join(TS, script), b, str(rep.seed * 1009 + i), str(rounds)], capture_output=True, text=True, timeout=LIMIT)
                return i, p, json.loads(p.stdout.strip().split("\n")[-1]) if p.returncode == 0 and p.stdout.strip() else None
            except subprocess.TimeoutExpired: return i, None, None
            except ValueError: return i, p, None
        tot = {}
        def merge(k, v):
            if isinstance(v, dict):
                for x, n in v.items(): merge(k + " " + x, n)
            elif isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v
        with ThreadPoolExecutor(8) as ex:
            for i, p, o in ex.map(shard, range(shards)):
                if p is None:
                    rep.violation("hang", "the run with seed %d did not end in %d s" % (rep.seed * 1009 + i, LIMIT))
                    continue
                if o is None:
                    rep.violation("crash", "the run with seed %d ended with %d: %s" % (rep.seed * 1009 + i, p.returncode, p.stderr[-800:]), stderr=p.stderr[-4000:])
                    continue
                rep.add(o.pop("evals"), o.pop("distinct"))
                for v in o.pop("viol"): rep.violation("%s:%s" % (v["key"], v["replay"].get("seed")), "%s: %s" % (v["key"], v["what"]), **v["replay"])
                for s in o.pop("samples", []): rep.sample(s)
                for k, v in o.items(): merge(k, v)
        for k, v in tot.items(): rep.count(k, v)
        return rep
    finally:
        shutil.rmtree(d, ignore_errors=True)

STANDIN = ["the editor's API (documents, positions, events, decorations) is a stand-in written from its documentation",
           "@flatten-js/interval-tree is not installed here: a stand-in with the same answers (closed intervals, key order, duplicates kept) is used"]

def c21(prop):
    t = os.environ.get("VERIF_TIER") == "thorough"
    return run(prop, "c21.cjs", "a lookup that meets at least one stored range, or a slice that leaves something greyed out",
               12000 if t else 1500, 40 if t else 8,
               STANDIN + ["slice ranges lie inside or outside of each container, as those flowistry reports"])

def c22(prop):
    t = os.environ.get("VERIF_TIER") == "thorough"
    return run(prop, "c22.cjs", "a selection, mark or command in settled state whose complete set of decorations was compared with the one computed from the text",
               6000 if t else 1200, 40 if t else 16,
               STANDIN + ["the backend is a stand-in that answers from the text saved when it was started"])

def c24(prop):
    t = os.environ.get("VERIF_TIER") == "thorough"
    return run(prop, "c24.cjs", "a started extension or a backend call whose command, directory and result were compared with what was arranged",
               8000 if t else 800, 40 if t else 8, STANDIN[:1])

def c25(prop):
    t = os.environ.get("VERIF_TIER") == "thorough"
    return run(prop, "c25.cjs", "a user action after which the error pane, the messages, the status bar and everything uploaded or opened were compared with what the outcomes call for",
               12000 if t else 2000, 40 if t else 8, STANDIN[:1] + ["uploads and opened pages are recorded by stand-ins"])

def c26(prop):
    t = os.environ.get("VERIF_TIER") == "thorough"
    return run(prop, "c26.cjs", "a start of the extension whose steps (processes, downloads, extraction, permissions) were compared with those the arranged situation calls for",
               12000 if t else 1500, 40 if t else 8, STANDIN[:1] + ["downloads, archives and permission changes are recorded by stand-ins, nothing is installed"])
