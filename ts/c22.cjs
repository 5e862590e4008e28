// node c22.cjs BUNDLE SEED HISTORIES [REPLAY]: runs the whole extension against the stand-in editor and a stand-in backend whose
// replies are delivered late, out of order, or as failures, and watches every decoration.
"use strict";
const zlib = require("zlib"), { EventEmitter } = require("events");
const { rng, hash, quiet, ivs, cover, sameSet } = require("./common.cjs");
const log = quiet();
const B = require(require("path").resolve(process.argv[2]));
const M = globalThis.__mock;
const seed = Number(process.argv[3]), histories = Number(process.argv[4]);
let out = { evals: 0, distinct: 0, events: {}, outcomes: {}, draws: 0, late: 0, settled: 0, exact: 0, recovered: 0, selects: 0, marks: 0, invalid_docs: 0, errors_shown: 0, interleavings: 0, again: 0, viol: [], samples: [] };
let cnt = (k) => { out.events[k] = (out.events[k] || 0) + 1; };
process.on("unhandledRejection", (e) => { M.errors.push("unhandled rejection: " + (e && e.stack ? e.stack.split("\n").slice(0, 4).join(" | ") : e)); });
let flush = async () => { for (let i = 0; i < 4; i++) await new Promise((r) => setImmediate(r)); };

// ---- documents: text with a known structure -------------------------------------------------------------------------
let structures = new Map(), uniq = 0;
let gen_doc = (r) => {
  let t = "// version " + uniq++ + "\n", bodies = [];
  let w = (s) => { t += s; };
  let tok = (b) => { let n = "v" + r.int(40), a = t.length; w(n); b.toks.push([a, t.length]); };
  let stmt = (b, ind, depth) => {
    w("  ".repeat(ind));
    if (depth < 2 && r.bool(0.2)) { w("let "); tok(b); w(" = "); body(depth + 1, ind, true, b); w(";\n"); return; }
    w("let "); tok(b); w(" = ");
    let a = t.length; tok(b); for (let i = r.int(3); i > 0; i--) { w(" + "); tok(b); }
    if (r.bool(0.3)) b.outer.push([a, t.length]);
    w(";\n");
  };
  let body = (depth, ind, closure, parent) => {
    let b = { toks: [], outer: [], params: null, start: 0 };
    if (closure) b.start = t.length;
    w(closure ? "|" : "("); let a = t.length; tok(b); b.params = [a, t.length]; w(closure ? "| " : ") ");
    if (!closure) b.start = t.length;
    w("{\n");
    for (let i = r.pick([1, 2, 3, 12]); i > 0; i--) stmt(b, ind + 1, depth);
    w("  ".repeat(ind) + "}");
    b.iv = [b.start, t.length];
    bodies.push(b);
  };
  for (let i = r.range(1, 4); i > 0; i--) { w("fn f" + i); body(0, 0, false, null); w("\n" + "\n".repeat(r.int(3))); }
  let text = r.bool(0.2) ? t.replace(/\n/g, " \n") : t;
  if (text !== t) return gen_doc(r);
  bodies.forEach((b, i) => {
    let g = rng(hash(t) + i * 7919);
    b.places = [...b.toks, ...b.outer].map((iv) => {
      let others = b.toks.filter(() => g.bool(0.3));
      let slice = [iv, ...others.filter((o) => o[0] >= iv[1] || o[1] <= iv[0])];
      return { iv, seeds: g.bool(0.5) ? [iv] : [iv, g.pick(b.toks)], slice, direct: slice.filter(() => g.bool(0.4)) };
    });
    b.containers = [b.iv].concat(b.params[0] < b.iv[0] ? [b.params] : []);
  });
  structures.set(t, bodies);
  return t;
};
let bodies_at = (text, [a, b]) => (structures.get(text) || []).filter((x) => x.iv[0] <= a && b <= x.iv[1]).sort((x, y) => x.iv[1] - x.iv[0] - (y.iv[1] - y.iv[0]));

// ---- what must be drawn for a body and a query ----------------------------------------------------------------------
let reference = (b, [q0, q1]) => {
  let hit = b.places.filter(({ iv }) => !(iv[1] < q0 || q1 < iv[0]));
  let contained = hit.filter(({ iv }) => q0 <= iv[0] && iv[1] <= q1);
  let containing = hit.filter((p) => !contained.includes(p) && p.iv[0] <= q0 && q1 <= p.iv[1]).sort((x, y) => x.iv[1] - x.iv[0] - (y.iv[1] - y.iv[0]));
  let over = hit.filter((p) => !contained.includes(p) && !containing.includes(p));
  let s = contained.length ? contained : over.concat(containing.slice(0, 1));
  // two smallest containing ranges of equal size: either may be chosen
  if (!contained.length && containing.length > 1 && containing[0].iv[1] - containing[0].iv[0] === containing[1].iv[1] - containing[1].iv[0]) return null;
  let seeds = s.flatMap((p) => p.seeds), slice = s.flatMap((p) => p.slice), direct = s.flatMap((p) => p.direct);
  if (seeds.length === 0) return { hide: new Set(), slice: new Set(), select: new Set(), emphasis: new Set(), ranges: [] };
  let hide = cover(b.containers), sc = cover(slice);
  for (let x of sc) hide.delete(x);
  return { hide, slice: sc, select: cover(seeds), emphasis: cover(direct), ranges: slice };
};
let D = B.decorations;
let shown = (ed) => { let g = (t) => cover(ivs((ed.deco.get(t.key) || { ranges: [] }).ranges, ed.document)); return { hide: g(D.hide_type), slice: g(D.slice_type), select: g(D.select_type), emphasis: g(D.emphasis_type) }; };
let nonempty = (ed) => [...ed.deco.values()].some((d) => d.ranges.length > 0);
let same = (a, b) => ["hide", "slice", "select", "emphasis"].every((k) => sameSet(a[k], b[k]));
let brief = (f) => Object.fromEntries(["hide", "slice", "select", "emphasis"].map((k) => [k, [...f[k]].slice(0, 4).join(",") + "/" + f[k].size]));

// ---- one world ------------------------------------------------------------------------------------------------------
let bar = () => (/\$\((.*?)\)/.exec(M.bar.text || "") || [, ""])[1];
let STATE = { check: "active", "circle-slash": "unsaved", undefined: "idle", x: "error", "sync~spin": "loading", question: "notfound" };
let state = () => STATE[bar()] || (bar() === "" && /flowistry/.test(M.bar.text || "") ? "idle" : bar());

async function history(s, script) {
  let r = rng(s), trace = [], failed = null;
  let viol = (key, what) => { if (!failed) { failed = key; out.viol.length < 40 && out.viol.push({ key, what, replay: { seed: s, trace: trace.slice(-60) } }); } };
  for (let e of ["edit", "saved", "sel", "activeEd", "visibleEd", "closed", "opened", "willSave", "other"]) M[e].ls = [];
  M.errors = []; M.selected = []; M.dialogs = []; M.shown = []; M.commands.clear();
  let mk = (f, l) => new M.Doc(f, l, gen_doc(r));
  let docs = (M.docs = [mk("/w/src/mod.rs", "rust"), mk("/w/src/sub/mod.rs", "rust"), mk("/w/src/lost.rs", "rust"), mk("/wx/src/mod.rs", "rust"), mk("/w/notes.md", "markdown")]);
  let valid = (d) => d.languageId === "rust" && d.fileName.startsWith("/w/");
  let rust = docs.slice(0, 2), lost = docs[2];
  let newEd = (d) => { let e = new M.Editor(d); e.used = new Map(); return e; };
  let use = (ed) => { let d = ed.document, k = ed.used.get(d.text) || []; k.push(ivs([ed.selection], d)[0]); ed.used.clear(); ed.used.set(d.text, k); };
  M.editors = [newEd(docs[0]), newEd(docs[1])]; M.active = M.editors[0];
  M.editors.forEach(use);
  let marks = new Map(); // text -> marked intervals
  let on = false, pending = [], delivered = 0, lateText = 0;
  M.onSelect = (ed) => {
    if (!on) viol("selected-off", "the select command's slice was selected although focus mode is off");
    else if (ed.document.text !== ed.document.disk) viol("selected-unsaved", "the select command selected a slice in unsaved text of " + ed.document.fileName);
    if (ed.used && ed.selection) use(ed);
  };
  M.onDraw = (ed) => {
    out.draws++;
    if (!M.editors.includes(ed)) return;
    if (!on) viol("drawn-off", "decorations were drawn although focus mode is off");
    if (ed.document.text !== ed.document.disk) viol("drawn-unsaved", "decorations were drawn over unsaved text of " + ed.document.fileName);
  };
  // backend
  let finish = (p, { out: o = "", err = "", code = 0 }) => {
    if (o) p.stdout.emit("data", Buffer.from(o));
    if (err) p.stderr.emit("data", err);
    p.exitCode = code; p.emit("close", code);
  };
  let proc = () => { let p = new EventEmitter(); p.stdout = new EventEmitter(); p.stderr = new EventEmitter(); p.stdout.setEncoding = p.stderr.setEncoding = () => {}; p.exitCode = null; p.kill = () => {}; p.pid = 1; return p; };
  M.spawn = (cmd, args, opts) => {
    let p = proc(), now = (o) => setImmediate(() => finish(p, o));
    let i = (args || []).indexOf("flowistry"), sub = i >= 0 ? args.slice(i + 1) : [];
    if (i < 0) now({ out: cmd === "rustup" ? "/tc/rustc\n" : "/tc/lib\n/tc\n" });
    else if (sub[0] === "-V") now({ out: B.VERSION_ + "\n" });
    else if (sub[0] === "preload") now({});
    else { pending.push({ p, sub, disk: new Map(docs.map((d) => [d.fileName, d.disk])), text: new Map(docs.map((d) => [d.fileName, d.text])) }); }
    return p;
  };
  let rg = (d) => { let m = new M.Doc("x", "rust", d); return (iv, f) => { let a = m.positionAt(iv[0]), b = m.positionAt(iv[1]); return { start: { line: a.line, column: a.character }, end: { line: b.line, column: b.character }, filename: f }; }; };
  let answer = (q) => {
    let [sub, f, line, col] = q.sub;
    if (f === lost.fileName) return { Err: { type: "FileNotFound" } };
    let text = q.disk.get(f), R = rg(text), bs = structures.get(text) || [];
    if (sub === "spans") return { Ok: { spans: bs.map((b) => R(b.iv, f)) } };
    let o = new M.Doc("x", "rust", text).offsetAt(new M.Position(Number(line), Number(col)));
    let b = bodies_at(text, [o, o])[0];
    if (!b) return { Err: { type: "AnalysisError", error: "Selection did not map to a body" } };
    return { Ok: { containers: b.containers.map((x) => R(x, f)), place_info: b.places.map((p) => ({ range: R(p.iv, f), ranges: p.seeds.map((x) => R(x, f)), slice: p.slice.map((x) => R(x, f)), direct_influence: p.direct.map((x) => R(x, f)) })) } };
  };
  let deliver = async (i, how) => {
    let q = pending.splice(i, 1)[0];
    out.outcomes[how] = (out.outcomes[how] || 0) + 1;
    delivered++;
    if (q.disk.get(q.sub[1]) !== (docs.find((d) => d.fileName === q.sub[1]) || {}).text) { out.late++; lateText++; }
    let enc = (x) => zlib.gzipSync(Buffer.from(JSON.stringify(x))).toString("base64");
    if (how === "ok") { let t = enc(answer(q)); let k = r.int(t.length); q.p.stdout.emit("data", Buffer.from(t.slice(0, k))); finish(q.p, { out: t.slice(k) }); }
    else if (how === "build") finish(q.p, { err: "error: could not compile", code: 101 });
    else if (how === "analysis") finish(q.p, { out: enc({ Err: { type: "AnalysisError", error: "boom" } }) });
    else if (how === "garbage") finish(q.p, { out: r.pick(["", "not base64 ###", "aGVsbG8=", enc({ Ok: {} }).slice(0, 20)]) });
    else if (how === "killed") { q.p.exitCode = null; q.p.emit("close", null, "SIGKILL"); }
    else if (how === "spawn") { q.p.emit("error", new Error("ENOENT")); q.p.emit("close", -2); }
    await flush();
  };
  let run = async (name) => { let f = M.commands.get("flowistry." + name); if (!f) { viol("command", "no command flowistry." + name); return; } Promise.resolve(f()).catch((e) => M.errors.push("command rejected: " + e)); };
  await B.extension.activate({ subscriptions: [], workspaceState: { get: (k) => M.state.get(k), update: (k, v) => M.state.set(k, v) } });
  await flush();
  if (M.commands.size === 0) { viol("activate", "the extension registered no commands: " + M.errors.join(";") + M.dialogs.map((d) => d.m).join()); return failed; }
  let A = () => M.active, sel_in = (d) => {
    let bs = structures.get(d.text) || [], b = r.pick(bs);
    let k = r.int(10), pt = () => r.pick(b.places).iv;
    if (!b || k === 0) { let o = r.int(d.text.length + 1); return [o, o]; }
    if (k < 7) { let iv = pt(), o = r.range(iv[0], iv[1]); return [o, o]; }
    if (k === 7) { let iv = pt(); return iv; }
    let x = r.range(b.iv[0], b.iv[1]), y = r.range(b.iv[0], b.iv[1]);
    return k === 8 ? [Math.min(x, y), Math.max(x, y)] : [x, Math.min(d.text.length, x + r.int(60))];
  };
  let select = (ed, iv, fire = true) => {
    let d = ed.document, a = d.positionAt(iv[0]), b = d.positionAt(iv[1]);
    ed._sel = [r.bool() ? new M.Selection(a, b) : new M.Selection(b, a)];
    use(ed);
    if (fire) M.sel.fire({ textEditor: ed, selections: ed.selections, kind: 1 });
  };
  let change = (d, text, dirty, fire = true) => {
    d.setText(text); d.version++; d.isDirty = dirty;
    M.edit.fire({ document: d, contentChanges: [{ range: new M.Range(0, 0, 0, 0), text }], reason: undefined });
    // whatever was drawn over the old text is gone at once
    for (let ed of M.editors) { if (ed.document === d && nonempty(ed)) { let f = shown(ed), ok = structures.has(text) && false; if (!ok) viol("drawn-edited", "decorations of the old text remain after an edit of " + d.fileName); } }
    M.editors.filter((e) => e.document === d).forEach((e) => { select(e, [Math.min(d.text.length, ivs([e.selection], d)[0][0]), Math.min(d.text.length, ivs([e.selection], d)[0][0])], fire && e === A() && on); });
  };
  let check = (quiet = true) => {
    out.evals++;
    for (let e of M.errors.splice(0)) viol("exception", e);
    for (let ed of M.editors) {
      if (!nonempty(ed)) continue;
      let d = ed.document;
      if (!on) { viol("shown-off", "decorations remain in " + d.fileName + " although focus mode is off"); continue; }
      if (d.text !== d.disk) { viol("shown-unsaved", "decorations remain over unsaved text of " + d.fileName); continue; }
      if (!valid(d) || d === lost) { viol("shown-foreign", "decorations in " + d.fileName); continue; }
      let f = shown(ed), qs = [...(ed.used.get(d.text) || []), ...(marks.get(d.text) || [])];
      // which answer is on display? only look again when it changed
      let key = JSON.stringify([...ed.deco].map(([k, v]) => [k, ivs(v.ranges, d)])) + d.text.length + d.version;
      if (ed.lastKey === key) continue;
      let ok = (structures.get(d.text) || []).some((b) => qs.some((q) => { let x = reference(b, q); return x === null || same(x, f); }));
      if (!ok) viol("shown-stale", "what is shown in " + d.fileName + " belongs to no body of its text and no selection: " + JSON.stringify(brief(f)));
      else ed.lastKey = key;
    }
    if (!quiet) return;
    if (pending.length === 0 && M.dialogs.length === 0 && state() === "loading") viol("stuck", "nothing is running but the status bar shows loading");
    if (!on && pending.length === 0 && M.dialogs.length === 0 && state() !== "idle") viol("bar-off", "focus mode is off but the status bar shows " + state());
  };
  let drain = async (p_fail = 0) => { for (let n = 0; pending.length || M.dialogs.length; n++) { if (n > 200) { viol("endless", "the extension keeps starting analyses"); return; } if (M.dialogs.length) { M.dialogs.shift().r("Dismiss"); await flush(); continue; } await deliver(r.int(pending.length), "ok"); check(); } };
  let step = async (op) => {
    cnt(op);
    let ed = A(), d = ed.document;
    trace.push([op, d.fileName, state(), pending.length]);
    if (op === "select") select(ed, sel_in(d));
    else if (op === "edit") change(d, gen_doc(r), true);
    else if (op === "edit-other") { let x = r.pick(rust); change(x, gen_doc(r), true); }
    else if (op === "undo") { if (d.isDirty) change(d, d.disk, false); }
    else if (op === "reload") { let x = r.pick(rust); if (!x.isDirty) { let t = gen_doc(r); x.disk = t; change(x, t, false); } }
    else if (op === "save") M.save(d);
    else if (op === "force-save") M.save(d, true);
    else if (op === "save-other") M.save(r.pick(rust));
    else if (op === "toggle") { on = !on; await run("focus"); if (!on) for (let e of M.editors) if (nonempty(e)) viol("shown-off", "decorations remain in " + e.document.fileName + " after switching focus mode off"); }
    else if (op === "mark" || op === "unmark" || op === "fselect") {
      if (valid(d)) on = true;
      if (op === "mark") { let m = marks.get(d.text) || []; m.push(ivs([ed.selection], d)[0]); marks.set(d.text, m); }
      let before = M.selected.length;
      await run("focus_" + (op === "fselect" ? "select" : op));
    }
    else if (op === "switch") { M.active = M.editors[1 - M.editors.indexOf(ed)]; M.activeEd.fire(M.active); }
    else if (op === "show") { let x = newEd(r.pick(docs)); let i = M.editors.indexOf(ed); M.editors[i] = x; M.active = x; select(x, sel_in(x.document), false); M.visibleEd.fire(M.editors); M.activeEd.fire(x); if (!valid(x.document)) out.invalid_docs++; }
    else if (op === "same") { let x = newEd(d); let i = 1 - M.editors.indexOf(ed); M.editors[i] = x; use(x); M.visibleEd.fire(M.editors); }
    else if (op === "deliver") { if (pending.length) await deliver(r.int(pending.length), "ok"); }
    else if (op === "fail") { if (pending.length) await deliver(r.int(pending.length), r.pick(["build", "analysis", "garbage", "killed", "spawn"])); }
    else if (op === "dismiss") { if (M.dialogs.length) M.dialogs.shift().r(r.pick(["Dismiss", undefined])); out.errors_shown++; }
    // anything the extension selected counts as the user's selection from now on
    let adopt = () => { for (let e of M.editors) { let iv = ivs([e.selection || new M.Selection(0, 0, 0, 0)], e.document)[0]; let u = e.used.get(e.document.text) || []; if (!u.some((x) => x[0] === iv[0] && x[1] === iv[1])) use(e); } };
    let flushed = r.bool(0.7);
    if (flushed) await flush();
    adopt();
    check(flushed);
  };
  // queries of a mark use the selection at the time the analysis has finished
  let marked_late = () => { for (let e of M.editors) { let t = e.document.text, m = marks.get(t); if (m) m.push(ivs([e.selection], e.document)[0]); } };
  let OPS = ["select", "select", "select", "select", "edit", "edit", "save", "save", "force-save", "toggle", "mark", "unmark", "fselect", "switch", "show", "same", "deliver", "deliver", "deliver", "deliver", "deliver", "fail", "dismiss", "edit-other", "save-other", "undo", "reload"];
  let settle = async () => {
    await flush(); await drain(); await flush(); check(); marked_late();
    if (failed) return;
    out.settled++;
    let st = state();
    if (!on) { if (st !== "idle") viol("bar-off", "off, but the status bar shows " + st); return; }
    if (st === "loading" || st === "idle") { viol("bar-on", "on and nothing is running, but the status bar shows " + st); return; }
    let ed = A(), d = ed.document;
    if (!valid(d)) return;
    if (st === "unsaved" || st === "error" || d.isDirty) {
      M.save(d, true); await flush(); await drain(); check();
      if (failed) return;
      if (state() === "error" || state() === "unsaved" || state() === "loading") { viol("recover", `a save does not lead out of ${st}: the status bar shows ${state()}`); return; }
      if (st === "error") out.recovered++;
    }
    for (let k = 0; k < 4 && !failed; k++) {
      let q = sel_in(d);
      select(ed, q); await flush(); await drain(); check();
      if (failed) return;
      if (d === lost) { if (state() !== "notfound") viol("notfound", "a file cargo does not know shows " + state()); return; }
      let bs = bodies_at(d.text, q);
      if (state() !== "active") { viol("bar-on", "after a selection in saved code the status bar shows " + state()); return; }
      if (bs.length === 0 || bs.some((b) => b.iv[0] === q[0] && b.iv[1] === q[1]) || (bs[1] && bs[1].iv[1] - bs[1].iv[0] === bs[0].iv[1] - bs[0].iv[0])) continue;
      let b = bs[0], expect = (iv, what) => {
        let x = reference(b, iv); if (x === null) return true;
        out.exact++; if (x.ranges.length) out.distinct++;
        let f = shown(ed);
        if (!same(f, x)) { viol(what, `selection ${q} in body ${b.iv} (of ${bs.length} around it) of ${d.fileName}: shown ${JSON.stringify(brief(f))}, expected ${JSON.stringify(brief(x))}`); return false; }
        return true;
      };
      await run("focus_unmark"); await flush(); await drain(); check(); if (failed) return;
      if (!expect(q, "exact")) return;
      if (r.bool(0.4)) {
        // a mark holds on to the selection until it is removed
        let q2 = r.pick(b.places).iv, m = marks.get(d.text) || []; m.push(q); marks.set(d.text, m);
        await run("focus_mark"); await flush(); await drain(); check(); if (failed) return;
        if (bodies_at(d.text, q2)[0] === b) {
          select(ed, q2); await flush(); await drain(); check(); if (failed) return;
          out.marks++;
          if (!expect(q, "marked")) return;
          if (r.bool(0.4)) {
            // the latest mark counts
            m.push(q2); await run("focus_mark"); await flush(); await drain(); check(); if (failed) return;
            let q3 = r.bool() ? q : r.pick(b.places).iv;
            if (bodies_at(d.text, q3)[0] === b) {
              select(ed, q3); await flush(); await drain(); check(); if (failed) return;
              out.remarks = (out.remarks || 0) + 1;
              if (!expect(q2, "remarked")) return;
              q2 = q3;
            }
          }
          await run("focus_unmark"); await flush(); await drain(); check(); if (failed) return;
          if (!expect(q2, "unmarked")) return;
        } else { await run("focus_unmark"); await flush(); await drain(); check(); if (failed) return; }
      } else if (r.bool(0.4)) {
        let x = reference(b, q), n = M.selected.length;
        await run("focus_select"); await flush();
        let got = M.selected.slice(n).find((y) => y.editor === ed);
        use(ed); await drain(); check(); if (failed) return;
        if (x && x.ranges.length) {
          out.selects++;
          if (!got) viol("selected", "the select command selected nothing");
          else if (!sameSet(cover(ivs(got.selections, d)), x.slice)) viol("selected", `the select command selected ${JSON.stringify(ivs(got.selections, d))} instead of the slice`);
        }
      }
    }
  };
  // what is on display again without a new selection: after a save, a revert, a change on disk; and which edits concern the display at all
  let again = async () => {
    let ed = A(), d = ed.document;
    if (!on || state() !== "active" || !valid(d) || d === lost || d.isDirty) return;
    let exactNow = (what) => {
      if (state() !== "active") { viol("bar-" + what, `${what}: the status bar shows ${state()}`); return; }
      let q = ivs([ed.selection], d)[0], bs = bodies_at(d.text, q);
      if (bs.length === 0 || bs.some((b) => b.iv[0] === q[0] && b.iv[1] === q[1]) || (bs[1] && bs[1].iv[1] - bs[1].iv[0] === bs[0].iv[1] - bs[0].iv[0])) return;
      let x = reference(bs[0], q); if (x === null) return;
      out.again++;
      if (!same(shown(ed), x)) viol("again-" + what, `${what}: with the selection at ${q} of ${d.fileName} ${JSON.stringify(brief(shown(ed)))} is shown, expected ${JSON.stringify(brief(x))}`);
    };
    let kind = r.pick(["save", "save", "revert", "reload", "other", "foreign", "visit"]);
    if (kind === "save") {
      change(d, gen_doc(r), true, r.bool()); await flush();
      if (state() !== "unsaved") { viol("bar-unsaved", "the document has unsaved changes but the status bar shows " + state()); return; }
      select(ed, sel_in(d), r.bool()); await flush(); await drain(); check(); if (failed) return;
      if (state() !== "unsaved") { viol("bar-unsaved", "the document has unsaved changes but the status bar shows " + state()); return; }
      M.save(d); await flush(); await drain(); check(); if (!failed) exactNow("saved");
    } else if (kind === "revert") {
      let t = d.text;
      change(d, gen_doc(r), true, false); await flush();
      select(ed, [Math.min(d.text.length, r.int(t.length)), Math.min(d.text.length, r.int(t.length))].sort((a, b) => a - b), false);
      change(d, t, false, false); await flush(); await drain(); check(); if (!failed) exactNow("reverted");
    } else if (kind === "reload") {
      let t = gen_doc(r); d.disk = t;
      change(d, t, false, false); await flush(); await drain(); check(); if (!failed) exactNow("reloaded");
    } else if (kind === "visit") {
      // a document that is none of flowistry's business is opened and edited in between
      let x = newEd(r.pick(docs.slice(3))), close = () => { M.editors = M.editors.filter((e) => e !== x); M.active = ed; };
      M.editors.push(x); M.active = x; M.activeEd.fire(x); await flush();
      change(x.document, gen_doc(r), true); await flush(); await drain(); check();
      if (!failed && state() !== "active") viol("bar-visit", "an edit of " + x.document.fileName + " makes the status bar show " + state());
      if (!failed && r.bool()) { M.save(x.document); await flush(); await drain(); check(); if (!failed && state() !== "active") viol("bar-visit", "saving " + x.document.fileName + " makes the status bar show " + state()); }
      close(); if (failed) return;
      M.activeEd.fire(ed); select(ed, sel_in(d)); await flush(); await drain(); await run("focus_unmark"); await flush(); await drain(); check(); if (!failed) exactNow("visited");
    } else {
      let was = JSON.stringify(brief(shown(ed))), x = kind === "foreign" ? r.pick(docs.slice(3)) : rust.find((y) => y !== d);
      change(x, gen_doc(r), true); await flush(); await drain(); check(); if (failed) return;
      if (state() !== "active") viol("bar-" + kind, "an edit of " + x.fileName + " makes the status bar show " + state() + " in " + d.fileName);
      else if (kind === "foreign" && JSON.stringify(brief(shown(ed))) !== was) viol("again-foreign", "an edit of " + x.fileName + " changes what is shown in " + d.fileName);
      M.save(x); await flush(); await drain(); check();
    }
  };
  let steps = r.range(10, 60);
  for (let i = 0; i < steps && !failed; i++) {
    await step(i === 0 && r.bool(0.8) ? "toggle" : r.pick(OPS));
    marked_late();
    if (!failed && r.bool(0.04)) { await settle(); if (!failed) await again(); }
  }
  if (!failed) await settle();
  if (!failed) await again();
  if (!failed && on) { on = false; await run("focus"); await flush(); if (M.editors.some(nonempty)) viol("shown-off", "decorations remain after switching focus mode off"); await drain(); check(); }
  if (lateText > 0) out.interleavings++;
  if (out.samples.length < 2) out.samples.push({ seed: s, steps, delivered, late: lateText, trace: trace.slice(0, 25).map((x) => x[0]).join(" ") });
  return failed;
}
(async () => {
  let one = process.argv[5] ? [Number(process.argv[5])] : null;
  for (let i = 0; i < (one ? 1 : histories); i++) await history(one ? one[0] : seed * 1000003 + i);
  process.stdout.write(JSON.stringify(out) + "\n", () => process.exit(0));
})();
