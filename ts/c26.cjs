// node c26.cjs BUNDLE SEED HISTORIES: which backend gets installed and used.
"use strict";
const zlib = require("zlib"), { EventEmitter } = require("events"), path = require("path"), os = require("os"), fs = require("fs");
const { rng, quiet } = require("./common.cjs");
const log = quiet();
const B = require(path.resolve(process.argv[2]));
const M = globalThis.__mock;
const seed = Number(process.argv[3]), histories = Number(process.argv[4]);
let out = { evals: 0, distinct: 0, versions: {}, ways: {}, viol: [], samples: [] };
process.on("unhandledRejection", (e) => M.errors.push("unhandled rejection: " + e));
let flush = async () => { for (let i = 0; i < 8; i++) await new Promise((r) => setImmediate(r)); };
let same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
// nothing outside is touched: changes of permissions are only recorded
let chmodFails = null, chmodBusy = 0;
fs.promises.chmod = async (p, m) => { ev("chmod", { p, m }); chmodBusy++; let f = chmodFails && p.endsWith(chmodFails); await new Promise((r) => setImmediate(r)); chmodBusy--; if (f) throw new Error("EPERM"); };
for (let f of ["writeFile", "unlink", "rm", "rename", "mkdir"]) fs.promises[f] = async (p) => { ev("touch", { f, p }); };
let events = [], ev = (kind, x) => events.push({ kind, ...x });
async function history(s) {
  let r = rng(s), failed = false;
  for (let e of ["edit", "saved", "sel", "activeEd", "visibleEd", "closed", "opened", "willSave", "other"]) M[e].ls = [];
  M.errors = []; M.dialogs = []; M.infos = []; M.shown = []; M.uploads = []; M.opens = []; M.gets = []; M.extracted = []; M.commands.clear(); M.state.clear(); M.root = "/w"; M.files = new Set(["/w/Cargo.toml"]);
  events = []; chmodBusy = 0; chmodFails = r.bool(0.8) ? null : r.pick(["cargo-flowistry", "flowistry-driver"]);
  let doc = new M.Doc("/w/src/a.rs", "rust", "fn a() {}\n");
  M.docs = [doc]; M.active = new M.Editor(doc); M.editors = [M.active];
  let V = B.VERSION_, have = r.pick(["same", "older", "longer", "missing", "nospawn"]), rustup = r.bool(0.8), net = r.pick(["ok", "ok", "get", "zip", "rustc"]), source = r.bool(0.7), fix = r.bool();
  let host = r.pick(["x86_64-unknown-linux-gnu", "aarch64-apple-darwin", "x86_64-pc-windows-msvc"]);
  let home = r.pick([undefined, "/opt/cargo home", "/c"]);
  if (home === undefined) delete process.env.CARGO_HOME; else process.env.CARGO_HOME = home;
  let bin = path.join(home || path.join(os.homedir(), ".cargo"), "bin");
  out.versions[have] = (out.versions[have] || 0) + 1;
  let info = { have, rustup, net, source, fix, host, home, chmodFails };
  let viol = (key, what) => { if (!failed) { failed = true; if (out.viol.length < 30) out.viol.push({ key, what, replay: { seed: s, ...info, events: events.slice(0, 30) } }); } };
  M.spawn = (cmd, args, opts) => {
    let p = new EventEmitter(); p.stdout = new EventEmitter(); p.stderr = new EventEmitter(); p.stdout.setEncoding = p.stderr.setEncoding = () => {}; p.exitCode = null; p.kill = () => {};
    let fin = (o, e, c) => setImmediate(() => { if (o) p.stdout.emit("data", Buffer.from(o)); if (e) p.stderr.emit("data", e); p.exitCode = c; p.emit("close", c); });
    ev("run", { cmd, args: args.slice(), cwd: opts && opts.cwd, busy: chmodBusy });
    let i = args.indexOf("flowistry"), sub = i < 0 ? null : args[i + 1];
    if (sub === "-V") { if (have === "nospawn") setImmediate(() => { p.emit("error", new Error("ENOENT")); p.exitCode = -2; p.emit("close", -2); }); else if (have === "missing") fin("", "error: no such command: `flowistry`", 101); else fin({ same: V, older: "0.1.0", longer: V + "1" }[have] + "\n", "", 0); }
    else if (sub === "preload") fin("", "", 0);
    else if (cmd === "rustup" && args[0] === "toolchain") fin("", rustup ? "" : "no network", rustup ? 0 : 1);
    else if (args.includes("install")) fin("", source ? "" : "error: could not compile `flowistry_ide`", source ? 0 : 101);
    else fin("/tc/lib\n/tc\n", "", 0);
    return p;
  };
  M.exec = (c, f) => { ev("exec", { c }); setImmediate(() => (net === "rustc" ? f(new Error("no rustc")) : f(null, `rustc 1.0.0 (abc 2020-01-01)\nbinary: rustc\ncommit-hash: abc\nhost: ${host}\nrelease: 1.0.0\nLLVM version: 17.0.6\n`, ""))); };
  M.got = async (u) => { ev("get", { u }); if (net === "get") throw new Error("404"); return Buffer.from("ZIP" + s); };
  M.zip = () => { if (net === "zip") throw new Error("not a zip file"); };
  let extracted = M.extracted; M.extracted = { push: (x) => { ev("extract", { dir: x.dir, over: x.over, b: String(x.b) }); extracted.push(x); } };
  let done = false, threw = null;
  B.extension.activate({ subscriptions: [], workspaceState: { get: (k) => M.state.get(k), update: (k, v) => M.state.set(k, v) } }).then(() => { done = true; }, (e) => { threw = e; });
  await flush(); await flush();
  let dialogs = [];
  for (let n = 0; n < 5 && M.dialogs.length; n++) { let d = M.dialogs.shift(); dialogs.push(d); ev("dialog", { m: d.m }); d.r(d.b.includes("Show fix") && fix ? "Show fix" : r.pick(["Dismiss", undefined])); await flush(); await flush(); }
  M.exec = M.got = M.zip = null; M.extracted = [];
  out.evals++; out.distinct++;
  for (let e of M.errors) viol("exception", e);
  if (threw) viol("throws", "starting the extension throws " + threw);
  if (!done && !threw) viol("stuck", "starting the extension does not finish");
  // what ought to have happened
  let tc = "+" + B.CHANNEL_, want = [["run", "cargo", [tc, "flowistry", "-V"]]], active = true, told = 0, way = "none";
  if (have !== "same") {
    want.push(["run", "rustup", ["toolchain", "install", B.CHANNEL_, "--profile", "minimal", ...B.COMPONENTS_.flatMap((c) => ["-c", c])]]);
    if (!rustup) { told++; if (!fix) { active = false; way = "stopped"; } }
    if (active) {
      want.push(["exec", "rustc -Vv"]);
      let got = net !== "rustc";
      if (got) { want.push(["get", `https://github.com/willcrichton/flowistry/releases/download/v${V}/${host}.zip`]); got = net !== "get"; }
      if (got) { got = net !== "zip"; if (got) { want.push(["extract", bin, "ZIP" + s]); if (chmodFails) got = false; } }
      way = got ? "download" : "source";
      if (!got) { want.push(["run", "cargo", [tc, "install", "flowistry_ide", "--version", V, "--force", "--locked"]]); if (!source) { active = false; told++; way = "failed"; } }
    }
  }
  out.ways[way] = (out.ways[way] || 0) + 1;
  let rest = events.filter((e) => e.kind !== "dialog" && e.kind !== "chmod");
  let seq = rest.map((e) => e.kind === "run" ? ["run", e.cmd, e.args] : e.kind === "exec" ? ["exec", e.c] : e.kind === "get" ? ["get", e.u] : e.kind === "extract" ? ["extract", e.dir, e.b] : [e.kind, e.p]);
  let norm = (q) => q.map((x) => JSON.stringify(x));
  let head = norm(seq.slice(0, want.length)).sort(), exp = norm(want).sort();
  if (!same(head, exp)) { viol("steps", `expected ${JSON.stringify(want)}, saw ${JSON.stringify(seq)}`); return; }
  for (let i = 1; i < want.length; i++) { if (norm(seq).indexOf(JSON.stringify(want[i])) < norm(seq).indexOf(JSON.stringify(want[i - 1]))) viol("order", `${JSON.stringify(want[i])} happens before ${JSON.stringify(want[i - 1])}`); }
  for (let e of events) {
    if (e.kind === "chmod" && parseInt(e.m, 8) !== 0o755 && e.m !== 0o755) viol("mode", `${e.p} gets mode ${e.m}`);
    if (e.kind === "extract" && e.over !== true) viol("overwrite", "an older binary is not replaced");
  }
  let tail = seq.slice(want.length);
  if (way === "download") {
    for (let x of ["cargo-flowistry", "flowistry-driver"]) if (!events.some((e) => e.kind === "chmod" && e.p === path.join(bin, x))) viol("mode", x + " is not made executable");
    if (rest.slice(want.length).some((e) => e.busy)) viol("early", "the backend is used before its files have been made executable");
  }
  if (events.some((e, i) => e.kind === "chmod" && !events.slice(0, i).some((f) => f.kind === "extract"))) viol("mode", "permissions are changed before the files are there");
  if (tail.some((x) => x[0] !== "run" || x[2].includes("install"))) viol("extra", `after the installation: ${JSON.stringify(tail)}`);
  let used = tail.some((x) => x[2].includes("flowistry"));
  if (active !== used) viol("use", active ? "the installed backend is not preloaded" : "the backend is used although it could not be installed");
  if (active !== M.commands.size > 0) viol("commands", active ? "the commands are missing" : "the commands are there although the backend could not be installed");
  if (dialogs.length !== told) viol("told", `${dialogs.length} messages: ${dialogs.map((d) => d.m).join(" | ").slice(0, 300)}, expected ${told}`);
  else if (way === "failed" && !dialogs[dialogs.length - 1].m.includes("could not compile `flowistry_ide`")) viol("told", "the message does not say why the installation failed: " + dialogs[dialogs.length - 1].m);
  let congrats = M.infos.some((m) => /success/i.test(m));
  if (congrats !== (active && ["missing", "nospawn"].includes(have))) viol("congratulation", congrats ? "success is announced" : "a first installation is not announced");
  if (M.uploads.length) viol("leak", "something was uploaded");
  if (M.opens.length !== (have !== "same" && !rustup && fix ? 1 : 0)) viol("opens", "pages opened: " + M.opens);
  if (active && B.extension.globals.status_bar.state === "loading") viol("bar", "nothing is running, but the status bar shows loading");
  if (out.samples.length < 3) out.samples.push({ ...info, seed: s, steps: want.map((x) => x.flat().join(" ")) });
}
(async () => {
  let one = process.argv[5] ? [Number(process.argv[5])] : null;
  for (let i = 0; i < (one ? 1 : histories); i++) await history(one ? one[0] : seed * 1000003 + i);
  process.stdout.write(JSON.stringify(out) + "\n", () => process.exit(0));
})();
