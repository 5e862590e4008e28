"""Real code to analyse: dependency-free crates of the local cargo registry (absent ones are skipped)."""
import glob, os, re

# crates whose lib.rs compiles on its own, fastest to analyse first
QUICK = """autocfg-1.5.0 bumpalo-3.19.0 camino-1.2.0 crossbeam-utils-0.8.21 either-1.15.0 fixedbitset-0.4.2 glob-0.3.3 heck-0.5.0
humantime-2.3.0 itoa-1.0.15 log-0.4.28 num-traits-0.2.19 once_cell-1.21.3 semver-1.0.27 smallvec-1.15.1 smawk-0.3.2 termcolor-1.4.1
textwrap-0.16.2 toml_datetime-0.6.11 unicode-width-0.2.1 utf8parse-0.2.2 valuable-0.1.1 anyhow-1.0.100 base64-0.21.7 index_vec-0.1.4
nu-ansi-term-0.50.1 plotters-backend-0.3.7 rustc-hash-2.1.1 ryu-1.0.20 same-file-1.0.6""".split()
MORE = """adler2-2.0.1 aho-corasick-1.1.3 anes-0.1.6 anstyle-parse-0.2.7 anstyle-query-1.1.4 cast-0.3.0 cfg-if-1.0.3 ciborium-io-0.2.2 clap_lex-0.7.5
colorchoice-1.0.4 equivalent-1.0.2 fluid-let-1.0.0 hashbrown-0.16.0 hermit-abi-0.5.2 if_chain-1.0.3 is_terminal_polyfill-1.70.1
lazy_static-1.5.0 memchr-2.7.5 once_cell_polyfill-1.70.1 oorandom-11.1.5 pin-project-lite-0.2.16 regex-automata-0.4.10
regex-syntax-0.8.6 rustc_tools_util-0.1.1 textwrap-0.14.2 unicode-ident-1.0.19 unicode-linebreak-0.1.5 utf8-width-0.1.7 winnow-0.5.40""".split()

def files(thorough):
    out = []
    for n in QUICK + (MORE if thorough else []):
        for d in sorted(glob.glob("/root/.cargo/registry/src/*/" + n)):
            lib = d + "/src/lib.rs"
            if not os.path.exists(lib): continue
            m = re.search(r'^edition = "(\d+)"', open(d + "/Cargo.toml").read(), re.M)
            out.append((n, lib, ["--edition=" + (m[1] if m else "2015"), "--cap-lints=allow", "--cfg", 'feature="std"', "--cfg", 'feature="alloc"',
                                 "--crate-name", re.sub(r"-[0-9.]+.*", "", n).replace("-", "_")]))
            break
    return out

def std():
    """core and alloc of the toolchain the repository pins"""
    out = []
    for d in glob.glob("/root/.rustup/toolchains/nightly-2025-08-20-*/lib/rustlib/src/rust/library"):
        for n in ("core", "alloc"):
            f = "%s/%s/src/lib.rs" % (d, n)
            if os.path.exists(f):
                out.append(("lib" + n, f, ["--crate-name", n, "--edition=2024", "--cap-lints=allow", "-Zforce-unstable-if-unmarked"]))
    return out
