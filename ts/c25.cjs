// node c25.cjs BUNDLE SEED HISTORIES: what the user is told when an analysis fails, and what leaves the machine.
"use strict";
const zlib = require("zlib"), { EventEmitter } = require("events"), path = require("path");
const { rng, quiet } = require("./common.cjs");
const log = quiet();
const B = require(path.resolve(process.argv[2]));
const M = globalThis.__mock;
const seed = Number(process.argv[3]), histories = Number(process.argv[4]);
let out = { evals: 0, distinct: 0, ops: {}, failures: {}, reports: 0, dismissed: 0, panes: 0, lasts: 0, background: 0, viol: [], samples: [] };
process.on("unhandledRejection", (e) => M.errors.push("unhandled rejection: " + e));
let flush = async () => { for (let i = 0; i < 6; i++) await new Promise((r) => setImmediate(r)); };
let enc = (x) => zlib.gzipSync(Buffer.from(JSON.stringify(x))).toString("base64");
const TEXT = "fn a() {\n  let x = 1;\n}\n\nfn b() { }\n";
async function history(s) {
  let r = rng(s), trace = [], failed = false;
  let viol = (key, what) => { if (!failed) { failed = true; if (out.viol.length < 30) out.viol.push({ key, what, replay: { seed: s, trace: trace.slice(-40) } }); } };
  for (let e of ["edit", "saved", "sel", "activeEd", "visibleEd", "closed", "opened", "willSave", "other"]) M[e].ls = [];
  M.errors = []; M.dialogs = []; M.infos = []; M.shown = []; M.uploads = []; M.opens = []; M.commands.clear(); M.state.clear(); M.root = "/w"; M.files = new Set(["/w/Cargo.toml"]);
  let doc = new M.Doc("/w/src/a.rs", "rust", TEXT);
  M.docs = [doc]; M.active = new M.Editor(doc); M.editors = [M.active];
  let wasDirty = false, outcome = () => ({ how: "ok" }), calls = [];
  let R = (a, b) => { let p = doc.positionAt(a), q = doc.positionAt(b); return { start: { line: p.line, column: p.character }, end: { line: q.line, column: q.character }, filename: doc.fileName }; };
  M.spawn = (cmd, args) => {
    let p = new EventEmitter(); p.stdout = new EventEmitter(); p.stderr = new EventEmitter(); p.stdout.setEncoding = p.stderr.setEncoding = () => {}; p.exitCode = null; p.kill = () => {};
    let fin = (o, e, c) => { if (o) p.stdout.emit("data", Buffer.from(o)); if (e) p.stderr.emit("data", e); p.exitCode = c; p.emit("close", c); };
    let i = args.indexOf("flowistry"), sub = i < 0 ? [] : args.slice(i + 1);
    if (i < 0) setImmediate(() => fin("/tc/lib\n/tc\n", "", 0));
    else if (sub[0] === "-V") setImmediate(() => fin(B.VERSION_ + "\n", "", 0));
    else if (sub[0] === "preload") setImmediate(() => fin("", "", 0));
    else setImmediate(() => {
      if (!wasDirty && !(M.bar.tooltip || "").includes("Waiting for Flowistry")) viol("tooltip", "while the backend runs the status bar's tooltip is " + M.bar.tooltip);
      let o = outcome(sub[0]); calls.push({ sub: sub[0], ...o });
      out.failures[o.how] = (out.failures[o.how] || 0) + 1;
      if (o.how === "ok") fin(enc({ Ok: sub[0] === "spans" ? { spans: [R(0, 24), R(26, 36)] } : { containers: [R(0, 24)], place_info: [] } }), "", 0);
      else if (o.how === "build") { let k = r.int(o.msg.length + 1); p.stderr.emit("data", o.msg.slice(0, k)); fin("", o.msg.slice(k), 101); }
      else if (o.how === "analysis") fin(enc({ Err: { type: "AnalysisError", error: o.msg } }), "", 0);
      else if (o.how === "garbage") fin("###", "", 0);
      else if (o.how === "notfound") fin(enc({ Err: { type: "FileNotFound" } }), "", 0);
    });
    return p;
  };
  await B.extension.activate({ subscriptions: [], workspaceState: { get: (k) => M.state.get(k), update: (k, v) => M.state.set(k, v) } });
  await flush();
  if (!M.commands.size) { viol("activate", "no commands registered"); return; }
  let state = () => B.extension.globals.status_bar.state;
  let pane = () => (M.shown.length ? M.shown[0].document.getText() : null);
  let n = 0, last = null, lastOpen = 0;
  let invariants = () => {
    out.evals++;
    for (let e of M.errors.splice(0)) viol("exception", e);
    if (/undefined|null|NaN|\[object/.test(String(M.bar.text))) viol("bar-text", "the status bar reads " + M.bar.text);
    if (!/flowistry/i.test(String(M.bar.text))) viol("bar-text", "the status bar reads " + M.bar.text);
    if (M.shown.length > 1) viol("panes", M.shown.length + " error panes are open");
  };
  let answer = async () => {
    while (M.dialogs.length) {
      let d = M.dialogs.shift(), up = M.uploads.length, op = M.opens.length;
      if (up !== 0 + out_up || op !== out_op) { viol("leak", "something was uploaded or opened before the user answered"); return; }
      M.uploadFails = r.bool(0.3);
      let report = r.bool(0.4) ? d.b.find((x) => /report/i.test(x)) : r.pick(["Dismiss", undefined]);
      d.r(report); await flush();
      if (/report/i.test(report || "")) {
        out.reports++;
        let u = M.opens.slice(op);
        if (M.uploads.length !== up + 1 || u.length !== 1) { viol("report", `reporting a bug made ${M.uploads.length - up} uploads and opened ${u.length} pages`); return; }
        let body = JSON.parse(u[0].slice(u[0].indexOf("?") + 1));
        if (body.user !== "willcrichton" || body.repo !== "flowistry") viol("report", "the report goes to " + body.user + "/" + body.repo);
        if (d.err !== undefined && !body.body.includes(d.err)) viol("report", "the report does not contain the error message");
        if (M.uploadFails !== !body.body.includes("http://log/1")) viol("report", M.uploadFails ? "the report mentions a log that was not uploaded" : "the report does not link the log");
      } else { out.dismissed++; if (M.uploads.length !== up || M.opens.length !== op) { viol("leak", "the user dismissed the message, yet something was uploaded or opened"); return; } }
      out_up = M.uploads.length; out_op = M.opens.length;
    }
  };
  let out_up = 0, out_op = 0;
  let steps = r.range(6, 30);
  for (let i = 0; i < steps && !failed; i++) {
    let op = i === 0 ? "focus" : r.pick(["focus", "focus_mark", "focus_unmark", "focus_select", "move", "move", "save", "save", "edit", "close", "last", "last"]);
    out.ops[op] = (out.ops[op] || 0) + 1;
    let msg = r.pick(["error[E0308]: mismatched types", "error: could not compile `é`", "thread 'rustc' panicked at 'x'", "a\n  b\n\nc"]) + " #" + ++n;
    let how = r.pick(["ok", "ok", "build", "build", "analysis", "analysis", "garbage", "notfound"]);
    // which of the calls of the operation fails
    let at = r.pick(["spans", "focus", "any"]);
    outcome = (sub) => (how === "ok" || (at !== "any" && at !== sub) || (how === "notfound" && sub !== "spans") ? { how: "ok" } : { how, msg });
    calls = [];
    wasDirty = doc.isDirty;
    let before = { pane: pane(), state: state() };
    trace.push([op, how, at, before.state]);
    if (op === "last" && before.state !== "error") continue;
    if (op === "move") { let o = r.int(24); M.active._sel = [new M.Selection(doc.positionAt(o), doc.positionAt(o))]; M.sel.fire({ textEditor: M.active, selections: M.active.selections, kind: 1 }); }
    else if (op === "save") { doc.isDirty = true; M.save(doc); }
    else if (op === "edit") { doc.version++; doc.isDirty = true; M.edit.fire({ document: doc, contentChanges: [{}], reason: undefined }); }
    else if (op === "close") { M.shown = []; continue; }
    else { let cmd = op === "last" ? (M.bar.command || "").replace("flowistry.", "") : op, f = M.commands.get("flowistry." + cmd); if (!f) { viol("command", "no command " + M.bar.command); return; } Promise.resolve(f()).catch((e) => M.errors.push("command rejected: " + e)); }
    await flush(); invariants(); if (failed) return;
    let fail = calls.find((c) => c.how !== "ok"), user = /^focus/.test(op);
    let told = op === "last" ? last : user && fail ? fail : null;
    if (fail && fail.how !== "notfound") last = fail;
    out.distinct++;
    if (told && told.how !== "notfound") {
      if (op === "last") out.lasts++;
      if (told.how === "build") {
        out.panes++;
        if (M.dialogs.length) viol("build-dialog", "a build failure also opens a message");
        if (pane() === null) viol("build-pane", `${op}: the build failed, but no error pane is open`);
        else if (!pane().includes(told.msg)) viol("build-pane", `${op}: the error pane shows ${JSON.stringify(pane().slice(0, 120))} instead of ${JSON.stringify(told.msg)}`);
      } else {
        if (M.dialogs.length !== 1) viol("analysis-dialog", `${op}: the analysis failed, and ${M.dialogs.length} messages are open`);
        else if (told.how === "analysis" && !String(M.dialogs[0].m).includes(told.msg)) viol("analysis-dialog", `${op}: the message is ${JSON.stringify(String(M.dialogs[0].m).slice(0, 120))} instead of ${JSON.stringify(told.msg)}`);
        else if (/undefined|\[object/.test(M.dialogs[0].m)) viol("analysis-dialog", "the message reads " + M.dialogs[0].m);
        if (M.dialogs[0] && told.how === "analysis") M.dialogs[0].err = told.msg;
        if (pane() !== before.pane && op === "last") viol("analysis-pane", "an analysis failure changes the error pane");
      }
    } else {
      if (M.dialogs.length) viol("background-dialog", `${op}: a message opens: ${M.dialogs[0].m}`);
      if (pane() !== null && before.pane === null) viol("background-pane", `${op}: the error pane opens`);
      if (fail) out.background++;
    }
    if (failed) return;
    await answer(); await flush(); invariants(); if (failed) return;
    if (M.uploads.length !== out_up || M.opens.length !== out_op) { viol("leak", "something was uploaded or opened without the user asking for it"); return; }
    let st = state();
    if (fail && fail.how !== "notfound" && op !== "last" && st !== "error") viol("error-state", `${op}: the analysis failed, but the status bar shows ${st}`);
    if (fail && fail.how === "notfound" && st !== "notfound") viol("notfound", `${op}: the file is unknown to cargo, but the status bar shows ${st}`);
    if (["active", "idle"].includes(st) && pane() !== null && op !== "last") viol("pane-stays", `${op}: the error pane stays open although the status bar shows ${st}`);
    if (st === "error" && M.bar.command !== "flowistry.last_error") viol("error-command", "in the error state the status bar runs " + M.bar.command);
    if (st === "loading") viol("stuck", "nothing is running, but the status bar shows loading");
  }
  if (out.samples.length < 2) out.samples.push({ seed: s, trace: trace.slice(0, 20).map((x) => x.join("/")).join(" ") });
}
(async () => {
  let one = process.argv[5] ? [Number(process.argv[5])] : null;
  for (let i = 0; i < (one ? 1 : histories); i++) await history(one ? one[0] : seed * 1000003 + i);
  process.stdout.write(JSON.stringify(out) + "\n", () => process.exit(0));
})();
