"""Building the harness, running the real analysis, compiling and running the same programs natively."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly-2025-08-20"

def env(**kw):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for x in ("BLESS", "ONLY", "EXIT", "DUMP_MIR", "RUST_LOG", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(x, None)
    e.update(kw)
    return e

_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env(), capture_output=True, text=True).stdout.strip()
    return _sysroot

def renv(**kw):
    s = sysroot()
    return env(FVH_SYSROOT=s, LD_LIBRARY_PATH=s + "/lib", **kw)

class BuildFailed(Exception):
    pass

def build_harness():
    t = os.path.join(BUILD, "target")
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")],
                       env=env(CARGO_TARGET_DIR=t), cwd=os.path.join(VERIF, "harness"), capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-6000:])
        raise BuildFailed("harness build failed")
    return os.path.join(t, "debug", "fvh")

def build_asan():
    """The same harness, with AddressSanitizer in every crate that is compiled here (the analysis included)."""
    t = os.path.join(BUILD, "asan")
    p = subprocess.run(["cargo", "build", "--offline", "--target", "x86_64-unknown-linux-gnu", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")],
                       env=env(CARGO_TARGET_DIR=t, RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes"), cwd=os.path.join(VERIF, "harness"), capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-6000:])
        raise BuildFailed("harness build with AddressSanitizer failed")
    return os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "fvh")

def scratch(name):
    base = os.path.join(VERIF, ".scratch")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=name + "-", dir=base)

PRELUDE = open(os.path.join(VERIF, "lib/prelude.rs")).read()
RTMAIN = open(os.path.join(VERIF, "lib/rt_main.rs")).read()

class Fn:
    """One analysed function: `src` defines `name`; `call` runs it given `v: &[i64]`;
    `argof[j]` = parameter number (1-based) fed by scalar j; `nk` = number of knobs."""
    def __init__(self, name, src, call, argof, nk, nobs=0, meta=None):
        self.name, self.src, self.call, self.argof, self.nk, self.nobs = name, src, call, list(argof), nk, nobs
        self.meta = meta or {}

def assemble(fns, helpers, native):
    s = PRELUDE + helpers + "\n"
    spans = {}
    for f in fns:
        a = s.count("\n") + 1
        s += f.src + "\n"
        spans[f.name] = (a, s.count("\n"))
    if native:
        s += RTMAIN
        s += "static __TABLE: &[__F] = &[\n"
        for f in fns:
            s += '  __F { name: "%s", nk: %d, na: %d, run: |v| { %s } },\n' % (f.name, f.nk, len(f.argof), f.call)
        s += "];\n"
    return s, spans

def rustc_native(src, out, extra=()):
    return subprocess.run(["rustc", "--edition=2024", "-Awarnings", "-Cdebuginfo=0", "-Coverflow-checks=off", "-Copt-level=0",
                           "-Ccodegen-units=8", "--error-format=json", "-o", out, src, *extra], env=env(), capture_output=True, text=True)

def filter_compiling(fns, helpers, d, tag="n", verbose=False):
    """Compiles natively, dropping the generated functions rustc rejects. Returns (kept, exe, dropped, msgs)."""
    cur, dropped, msgs = list(fns), [], []
    for rnd in range(25):
        s, spans = assemble(cur, helpers, True)
        p = os.path.join(d, "%s.rs" % tag)
        open(p, "w").write(s)
        exe = os.path.join(d, "%s.exe" % tag)
        r = rustc_native(p, exe)
        if r.returncode == 0:
            return cur, exe, dropped, msgs
        bad = set()
        for line in r.stderr.splitlines():
            try: m = json.loads(line)
            except ValueError: continue
            if m.get("level") != "error": continue
            for sp in m.get("spans", []):
                for f in cur:
                    a, b = spans[f.name]
                    if a <= sp["line_start"] <= b:
                        bad.add(f.name)
                        msgs.append((f.name, m["message"]))
        if not bad:
            sys.stderr.write(r.stderr[:4000])
            raise RuntimeError("native compile failed outside generated functions")
        # whatever uses a dropped function is dropped with it
        grow = True
        while grow:
            grow = False
            for f in cur:
                if f.name not in bad and any(re.search(r"\b%s\b" % b, f.src) for b in bad if not b.startswith("f_")):
                    bad.add(f.name); grow = True
        dropped += [f for f in cur if f.name in bad]
        cur = [f for f in cur if f.name not in bad]
        if not cur:
            raise RuntimeError("no generated function compiles: %s" % msgs[:3])
    raise RuntimeError("too many compile rounds")

def analyse(fvh, fns, helpers, d, modes, tag="a", full=False, cmd="dump", extra=(), only="f_", timeout=600):
    s, _ = assemble(fns, helpers, False)
    p = os.path.join(d, "%s.rs" % tag)
    open(p, "w").write(s)
    out = os.path.join(d, "%s.json" % tag)
    a = [fvh, cmd, p, "--out", out, "--modes", ",".join(modes)]
    if only: a += ["--only", only]
    if full: a += ["--full"]
    a += list(extra)
    r = subprocess.run(a, env=renv(), capture_output=True, text=True, cwd=d, timeout=timeout)
    if r.returncode != 0:
        return None, r
    return json.load(open(out)), r

def run_native(exe, seed, nbase, nalt, timeout=600):
    r = subprocess.run([exe, str(seed), str(nbase), str(nalt)], capture_output=True, text=True, timeout=timeout)
    res = {}
    for l in r.stdout.splitlines():
        t = l.split(" ")
        e = res.setdefault(t[1], {"infl": {}, "exec": {}, "runs": 0, "panics": 0, "traces": 0})
        if t[0] == "I":
            e["infl"][(int(t[2]), int(t[3]))] = "base=%s input#%s:=%s  trace %s -> %s" % tuple(t[4:9])
        elif t[0] == "E":
            e["exec"][int(t[2])] = int(t[3])
        else:
            for x in t[2:]:
                a, b = x.split("="); e[a] = int(b)
    if r.returncode != 0:
        raise RuntimeError("native run failed rc=%d %s" % (r.returncode, r.stderr[-500:]))
    return res

def filter_metadata(fns, helpers, d, tag):
    """Like filter_compiling, without code generation or running: returns (kept, msgs)."""
    cur, msgs = list(fns), []
    for _ in range(25):
        s, spans = assemble(cur, helpers, False)
        p = os.path.join(d, "%s_meta.rs" % tag)
        open(p, "w").write(s)
        r = subprocess.run(["rustc", "--edition=2024", "-Awarnings", "--crate-type=lib", "--emit=metadata", "--error-format=json", "-o", p + "meta", p],
                           env=env(), capture_output=True, text=True)
        if r.returncode == 0: return cur, msgs
        bad = set()
        for line in r.stderr.splitlines():
            try: m = json.loads(line)
            except ValueError: continue
            if m.get("level") != "error": continue
            for sp in m.get("spans", []):
                for f in cur:
                    a, b = spans[f.name]
                    if a <= sp["line_start"] <= b: bad.add(f.name); msgs.append((f.name, m["message"]))
        if not bad: raise RuntimeError("compile failed outside generated functions: " + r.stderr[:800])
        grow = True
        while grow:
            grow = False
            for f in cur:
                if f.name not in bad and any(re.search(r"\b%s\b" % b, f.src) for b in bad if not b.startswith("f_")):
                    bad.add(f.name); grow = True
        cur = [f for f in cur if f.name not in bad]
    raise RuntimeError("too many compile rounds")
