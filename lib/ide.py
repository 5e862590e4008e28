"""The real cargo-flowistry / flowistry-driver: built from /repo, run through cargo or directly on one file."""
import base64, gzip, stat
from core import *

def build_ide(bins=("flowistry_ide",)):
    t = os.path.join(BUILD, "ide")
    a = ["cargo", "build", "--offline", "--bins", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
    for b in bins: a += ["-p", b]
    p = subprocess.run(a, env=env(CARGO_TARGET_DIR=t, CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1"), capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-6000:])
        raise BuildFailed("building %s failed" % (bins,))
    return os.path.join(t, "debug")

def decode(stdout):
    """The JSON document on standard output, or None. Raises on anything else that is there."""
    s = stdout.strip()
    if not s: return None
    return json.loads(gzip.decompress(base64.b64decode(s, validate=True)))

class Ide:
    def __init__(self, bindir):
        self.bin = bindir
        self.templates = {}
    def cenv(self, **kw):
        e = renv(**kw)
        e["PATH"] = self.bin + ":" + e["PATH"]
        return e
    def cargo(self, d, opts, cmd, timeout=120, **kw):
        """`cargo flowistry OPTS CMD` in crate d, the way the editor calls it"""
        return subprocess.run([os.path.join(self.bin, "cargo-flowistry"), "flowistry", *opts, *[str(x) for x in cmd]],
                              cwd=d, env=self.cenv(**kw), capture_output=True, text=True, timeout=timeout)
    def template(self, opts, cmd):
        """what cargo-flowistry hands to the driver for this command line, taken from a stand-in for cargo"""
        key = (tuple(opts), tuple(cmd))
        if key not in self.templates:
            d = scratch("tpl")
            try:
                os.makedirs(d + "/src"); os.makedirs(d + "/bin")
                open(d + "/Cargo.toml", "w").write('[package]\nname = "tpl"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n')
                open(d + "/src/lib.rs", "w").write("")
                open(d + "/src/qzfileqz.rs", "w").write("")
                real = shutil.which("cargo", path=env()["PATH"])
                f = d + "/bin/cargo"
                open(f, "w").write('#!/bin/bash\nif [ "$1" = metadata ]; then exec %s "$@"; fi\nprintf "%%s" "$PLUGIN_ARGS" > %s/args\n' % (real, d))
                os.chmod(f, 0o755)
                e = self.cenv(); e["PATH"] = d + "/bin:" + e["PATH"]; e["CARGO"] = f
                subprocess.run([os.path.join(self.bin, "cargo-flowistry"), "flowistry", *opts, *cmd], cwd=d, env=e, capture_output=True, text=True, timeout=60)
                self.templates[key] = open(d + "/args").read()
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return self.templates[key]
    def direct(self, d, file, opts, cmd, timeout=120, rustc=(), edition="--edition=2024"):
        """the driver on one file of d as a crate of its own; cmd may be ("focus", line, column) or ("spans",)"""
        nums = {"741852": cmd[1] if len(cmd) > 1 else 0, "963258": cmd[2] if len(cmd) > 2 else 0}
        t = self.template(opts, [cmd[0], "src/qzfileqz.rs"] + (["741852", "963258"] if cmd[0] == "focus" else []))
        t = t.replace("src/qzfileqz.rs", cmd[3] if len(cmd) > 3 else file)
        for a, b in nums.items(): t = t.replace(a, str(b))
        return subprocess.run([os.path.join(self.bin, "flowistry-driver"), "rustc", file, "--crate-name", "x", "--crate-type", "lib", edition,
                               "--emit=metadata", "-o", os.path.join(d, "x.rmeta"), *rustc],
                              cwd=d, env=self.cenv(CARGO_PRIMARY_PACKAGE="1", PLUGIN_ARGS=t, SYSROOT=sysroot()), capture_output=True, text=True, timeout=timeout)
