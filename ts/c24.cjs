// node c24.cjs BUNDLE SEED ROUNDS: the extension's bridge to the backend: which directory it runs in, what it runs, and what it makes of every outcome.
"use strict";
const zlib = require("zlib"), { EventEmitter } = require("events"), path = require("path");
const { rng, quiet } = require("./common.cjs");
const log = quiet();
const B = require(path.resolve(process.argv[2]));
const M = globalThis.__mock;
const seed = Number(process.argv[3]), rounds = Number(process.argv[4]);
let out = { evals: 0, distinct: 0, roots: { folder: 0, below: 0, none: 0 }, outcomes: {}, viol: [] };
process.on("unhandledRejection", (e) => M.errors.push("unhandled rejection: " + e));
let flush = async () => { for (let i = 0; i < 4; i++) await new Promise((r) => setImmediate(r)); };
let value = (r, d = 0) => {
  let k = r.int(d > 3 ? 5 : 7);
  if (k === 0) return null;
  if (k === 1) return r.int(1e9) - 5e8;
  if (k === 2) return r.bool();
  if (k === 3) return r.pick(["", "a\"b\\", "é漢字😀\u2028", "\n\r\t", "x".repeat(r.int(5000)), "</script>"]);
  if (k === 4) return r.next();
  if (k === 5) return Array.from({ length: r.int(5) }, () => value(r, d + 1));
  let o = {}; for (let i = r.int(5); i > 0; i--) o[r.pick(["type", "value", "error", "Err", "k", "é", "spans"]) + r.int(3)] = value(r, d + 1);
  return o;
};
(async () => {
  for (let round = 0; round < rounds; round++) {
    let s = seed * 1000003 + round, r = rng(s);
    let viol = (key, what, extra) => { if (out.viol.length < 30) out.viol.push({ key, what, replay: { seed: s, ...extra } }); };
    for (let e of ["edit", "saved", "sel"]) M[e].ls = [];
    M.errors = []; M.dialogs = []; M.commands.clear(); M.state.clear();
    let folder = r.pick(["/w", "/home/u/my proj", "/w/é"]);
    let parts = Array.from({ length: r.int(5) }, () => r.pick(["crates", "a", "src", "b c", "x"]));
    let file = [folder, ...parts, "lib.rs"].join("/");
    M.root = folder; M.files = new Set();
    let has = [];
    for (let i = 0; i <= parts.length; i++) if (r.bool(0.35)) { let d = [folder, ...parts.slice(0, i)].join("/"); M.files.add(d + "/Cargo.toml"); has.push(d); }
    for (let x of ["/Cargo.toml", "/home/Cargo.toml", folder + "/zzz/Cargo.toml"]) if (r.bool(0.3)) M.files.add(x);
    let editor = !r.bool(0.15);
    let doc = new M.Doc(file, "rust", "fn main() {}\n");
    M.docs = [doc]; M.active = editor ? new M.Editor(doc) : undefined; M.editors = M.active ? [M.active] : [];
    let expected = M.files.has(folder + "/Cargo.toml") ? folder : editor && has.length ? has[0] : null;
    let calls = [], next = null, saved_at = [];
    let proc = () => { let p = new EventEmitter(); p.stdout = new EventEmitter(); p.stderr = new EventEmitter(); p.stdout.setEncoding = p.stderr.setEncoding = () => {}; p.exitCode = null; p.kill = () => {}; return p; };
    let fin = (p, o, e, c) => { if (o) p.stdout.emit("data", Buffer.from(o)); if (e) p.stderr.emit("data", e); p.exitCode = c; p.emit("close", c); };
    M.spawn = (cmd, args, opts) => {
      let p = proc(); calls.push({ cmd, args, opts, dirty: doc.isDirty });
      let i = args.indexOf("flowistry");
      let w = i < 0 ? ["/tc/lib\n/tc\n", "", 0] : args[i + 1] === "-V" ? [B.VERSION_ + "\n", "", 0] : args[i + 1] === "preload" ? ["", "", 0] : null;
      if (w) setImmediate(() => fin(p, ...w)); else setImmediate(() => next(p));
      return p;
    };
    await B.extension.activate({ subscriptions: [], workspaceState: { get: (k) => M.state.get(k), update: (k, v) => M.state.set(k, v) } });
    await flush();
    out.evals++;
    out.roots[expected === null ? "none" : expected === folder ? "folder" : "below"]++;
    let active = M.commands.size > 0;
    let info = { folder, file, cargo_tomls: [...M.files], editor };
    if (active !== (expected !== null)) { viol("root", active ? `the extension started in ${calls.map((c) => c.opts && c.opts.cwd).filter(Boolean)[0]} although there is no Cargo.toml` : "the extension did not start although there is a Cargo.toml in " + expected, info); continue; }
    if (!active) continue;
    out.distinct++;
    let fl = calls.filter((c) => c.args.includes("flowistry"));
    if (!fl.some((c) => c.args.includes("preload"))) viol("preload", "the crate is not preloaded", info);
    for (let c of fl) if (c.opts && c.opts.cwd !== expected) viol("root", `runs ${c.args.join(" ")} in ${c.opts.cwd} instead of ${expected}`, info);
    for (let k = 0; k < 6; k++) {
      let how = r.pick(["ok", "ok", "err", "exit", "killed", "spawn", "garbage"]);
      out.outcomes[how] = (out.outcomes[how] || 0) + 1;
      let v = value(r), msg = r.pick(["error[E0308]: mismatched types\n", "", "é", "x".repeat(3000)]), code = r.pick([1, 101, 2, 255]);
      let err = r.pick([{ type: "BuildError", error: "b" }, { type: "AnalysisError", error: msg }, { type: "FileNotFound" }]);
      let enc = (x) => zlib.gzipSync(Buffer.from(JSON.stringify(x))).toString("base64");
      let g = r.pick(["", "###", "aGVsbG8=", enc({ Ok: 1 }).slice(0, 12)]);
      next = (p) => {
        if (how === "ok" || how === "err") { let t = enc(how === "ok" ? { Ok: v } : { Err: err }) + r.pick(["", "\n"]); while (t.length) { let n = r.pick([1, 7, 64, 4096]); if (t.length > 3000) n = 4096; p.stdout.emit("data", Buffer.from(t.slice(0, n))); t = t.slice(n); } if (r.bool(0.3)) p.stderr.emit("data", "warning: unused\n"); fin(p, "", "", 0); }
        else if (how === "exit") { for (let i = 0; i < msg.length; i += 1000) p.stderr.emit("data", msg.slice(i, i + 1000)); fin(p, r.bool() ? enc({ Ok: v }) : "", "", code); }
        else if (how === "killed") { p.stderr.emit("data", msg); p.exitCode = null; p.emit("close", null, "SIGKILL"); }
        else if (how === "spawn") { p.emit("error", new Error("ENOENT")); p.exitCode = -2; p.emit("close", -2); }
        else fin(p, g, "", 0);
      };
      let args = r.pick([["spans", file], ["focus", file, String(r.int(99)), String(r.int(99))], ["decompose", file, "3"]]);
      let dirty = M.active && r.bool(0.4); if (dirty) { doc.isDirty = true; doc.setText("fn main() { 1; }\n"); }
      let n = calls.length, res, threw = null;
      try { res = await B.extension.globals.call_flowistry(args); } catch (e) { threw = e; }
      await flush(); out.evals++; out.distinct++;
      let inf = { ...info, how, args, result: JSON.stringify(res || null).slice(0, 300), value: JSON.stringify(v).slice(0, 300), code, msg: msg.slice(0, 100) };
      if (threw) { viol("throws", `${how}: calling the backend throws ${String(threw).slice(0, 200)}`, inf); continue; }
      let c = calls[n];
      if (calls.length !== n + 1 || c.cmd !== "cargo" || !/^\+nightly/.test(c.args[0]) || JSON.stringify(c.args.slice(1)) !== JSON.stringify(["flowistry", ...args])) viol("command", `ran ${JSON.stringify(calls.slice(n).map((x) => [x.cmd, ...x.args]))} for ${JSON.stringify(args)}`, inf);
      else if (c.opts.cwd !== expected) viol("root", `ran in ${c.opts.cwd} instead of ${expected}`, inf);
      else if (c.dirty) viol("save", "the analysis was started before the document was saved", inf);
      let ok = how === "ok" ? res.type === "output" && JSON.stringify(res.value) === JSON.stringify(v)
        : how === "err" ? JSON.stringify(res) === JSON.stringify(err)
        : how === "exit" || how === "killed" ? res.type === "BuildError" && String(res.error) === msg
        : how === "spawn" ? res.type === "BuildError" && /ENOENT/.test(String(res.error))
        : res.type === "AnalysisError" && typeof res.error === "string" && res.error.length > 0;
      if (!ok) viol("result-" + how, `${how} became ${JSON.stringify(res).slice(0, 300)}`, inf);
    }
    for (let e of M.errors) viol("exception", e, info);
  }
  process.stdout.write(JSON.stringify(out) + "\n", () => process.exit(0));
})();
