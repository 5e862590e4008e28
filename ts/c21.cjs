// node c21.cjs BUNDLE SEED ROUNDS: looks selections up in random range trees and compares with a direct reading of the definition.
"use strict";
const { rng, quiet, ivs, cover, sameSet } = require("./common.cjs");
const log = quiet();
const B = require(require("path").resolve(process.argv[2]));
const M = globalThis.__mock;
const seed = Number(process.argv[3]), rounds = Number(process.argv[4]);
let out = { evals: 0, distinct: 0, classes: { contained: 0, containing: 0, overlapping: 0 }, nested_pairs: 0, hidden: 0, kinds: {}, viol: [] };
let viol = (key, what, replay) => { if (out.viol.length < 30) out.viol.push({ key, what, replay }); };

let gen_text = (r) => {
  let eol = r.bool(0.3) ? "\r\n" : "\n";
  let n = r.pick([1, 2, 4, 8, 14, 30, 120]);
  let words = ["let x = f(y);", "", "  ", "fn f() {", "}", "é ü 漢字", "a😀b", "\tindent", "x".repeat(r.range(1, 130)), "|a| a + 1"];
  let ls = [];
  for (let i = 0; i < n; i++) ls.push(r.pick(words) + (r.bool(0.3) ? r.pick(words) : ""));
  return ls.join(eol);
};
let gen_iv = (r, doc, base) => {
  let n = doc.text.length;
  let norm = (o) => doc.offsetAt(doc.positionAt(o));
  let k = r.int(6), a, b;
  if (base.length && k < 3) { // near an existing one
    let [c, d] = r.pick(base);
    a = Math.max(0, c + r.pick([0, 0, 1, 3, -1, -4])); b = Math.min(n, d + r.pick([0, 0, -1, -3, 1, 4]));
    if (k === 1) a = d;
    if (a > b) [a, b] = [b, a];
  } else if (k === 3) { a = b = r.int(n + 1); }
  else if (k === 4) { let l = r.int(doc.lineCount), m = Math.min(doc.lineCount - 1, l + r.int(25)); a = doc.starts[l] + r.int(doc.lineLen(l) + 1); b = doc.starts[m] + r.int(doc.lineLen(m) + 1); if (a > b) [a, b] = [b, a]; }
  else { a = r.int(n + 1); b = r.range(a, n); }
  return [norm(a), norm(b)];
};
let to_range = ([a, b], doc) => { let s = doc.positionAt(a), e = doc.positionAt(b); return { start: { line: s.line, column: s.character }, end: { line: e.line, column: e.character }, filename: doc.fileName }; };
let eq = (a, b) => a.start.line === b.start.line && a.start.column === b.start.column && a.end.line === b.end.line && a.end.column === b.end.column;
const CL = ["contained", "containing", "overlapping"];

for (let round = 0; round < rounds; round++) {
  let s = seed * 100003 + round, r = rng(s);
  let doc = new M.Doc("/w/src/a.rs", "rust", gen_text(r));
  let base = [];
  let n = r.pick([0, 1, 3, 8, 20]);
  for (let i = 0; i < n; i++) base.push(gen_iv(r, doc, base));
  let entries = base.map((iv, i) => ({ range: to_range(iv, doc), value: "v" + i }));
  let rep = (q) => ({ seed: s, text: doc.text.slice(0, 2000), ranges: base, query: q });
  try {
    // conversions are inverse to each other
    for (let [i, e] of entries.entries()) {
      let iv = B.range.range_to_interval(e.range, doc);
      let back = B.range.interval_to_range(iv, doc.fileName, doc);
      out.evals++;
      if (iv[0] !== base[i][0] || iv[1] !== base[i][1] || !eq(back, e.range) || back.filename !== doc.fileName) viol("conversion", `range ${JSON.stringify(e.range)} -> ${iv} -> ${JSON.stringify(back)}`, rep(null));
      let v = B.range.to_vsc_range(e.range);
      if (v.start.line !== e.range.start.line || v.start.character !== e.range.start.column || v.end.line !== e.range.end.line || v.end.character !== e.range.end.column) viol("conversion", "to_vsc_range", rep(null));
    }
    let late = r.int(entries.length + 1);
    let tree = new B.range.RangeTree(entries.slice(0, late), doc);
    for (let e of entries.slice(late)) tree.insert(e.range, e.value);
    for (let k = 0; k < 12; k++) {
      let q = r.bool(0.25) && base.length ? r.pick(base).slice() : gen_iv(r, doc, base);
      let p1 = doc.positionAt(q[0]), p2 = doc.positionAt(q[1]);
      let sel = r.bool() ? new M.Selection(p1, p2) : new M.Selection(p2, p1);
      let iv = tree.selection_to_interval(sel);
      if (iv[0] !== q[0] || iv[1] !== q[1]) viol("selection", `selection of ${q} became ${iv}`, rep(q));
      let res = tree.search(iv);
      out.evals++;
      let want = { contained: [], containing: [], overlapping: [] };
      base.forEach(([a, b], i) => {
        if (b < q[0] || q[1] < a) return;
        let c = q[0] <= a && b <= q[1] ? "contained" : a <= q[0] && q[1] <= b ? "containing" : "overlapping";
        want[c].push("v" + i); out.classes[c]++;
      });
      if (want.contained.length + want.containing.length + want.overlapping.length > 0) out.distinct++;
      for (let c of CL) {
        let got = res[c].map((x) => x.value);
        if (got.slice().sort().join() !== want[c].slice().sort().join()) viol("lookup", `${c} of ${q}: ${got} instead of ${want[c]}`, rep(q));
        for (let x of res[c]) {
          let e = entries[Number(x.value.slice(1))];
          if (!e || !eq(x.range, e.range)) viol("lookup-range", `${c} of ${q}: ${x.value} came with ${JSON.stringify(x.range)}`, rep(q));
        }
        // a containing range inside another one comes first
        if (c === "containing")
        for (let i = 0; i < got.length; i++) for (let j = i + 1; j < got.length; j++) {
          let [a, b] = base[Number(got[i].slice(1))], [d, e] = base[Number(got[j].slice(1))];
          let inside = a <= d && e <= b && (a !== d || b !== e);
          if ((d <= a && b <= e) || inside) out.nested_pairs++;
          if (inside) viol("order", `${c} of ${q}: ${[a, b]} listed before ${[d, e]}, which lies inside it (lines ${to_range([a, b], doc).start.line}-${to_range([a, b], doc).end.line} and ${to_range([d, e], doc).start.line}-${to_range([d, e], doc).end.line})`, rep(q));
        }
      }
    }
    // greyed-out parts: pieces lie inside or outside of each container
    let conts = [], pieces = [];
    let at = 0;
    for (let i = 0; i < r.range(1, 3); i++) { let a = at + r.int(10), b = Math.min(doc.text.length, a + r.int(200)); if (a <= b) { let c = [doc.offsetAt(doc.positionAt(a)), doc.offsetAt(doc.positionAt(b))]; if (c[0] >= at) { conts.push(c); at = c[1]; } } }
    for (let i = 0; i < r.pick([0, 1, 4, 12]); i++) {
      let iv = r.bool(0.6) && conts.length ? (() => { let [a, b] = r.pick(conts); let c = r.range(a, b), d = r.bool(0.1) ? b : r.bool(0.1) ? c : Math.min(b, c + r.int(30)); return [doc.offsetAt(doc.positionAt(r.bool(0.1) ? a : c)), doc.offsetAt(doc.positionAt(d))]; })() : gen_iv(r, doc, pieces);
      if (iv[0] > iv[1]) iv.reverse();
      if (conts.every(([a, b]) => (a <= iv[0] && iv[1] <= b) || iv[1] <= a || b <= iv[0])) pieces.push(iv);
    }
    let ed = new M.Editor(doc);
    let seeds = pieces.slice(0, 1), direct = pieces.slice(0, 2);
    let R = (x) => x.map((iv) => to_range(iv, doc));
    B.decorations.highlight_slice(ed, R(conts), R(seeds), R(pieces), R(direct));
    out.evals++;
    let got = (t) => (ed.deco.get(t.key) || { ranges: [] }).ranges;
    let D = B.decorations;
    let hidden = cover(ivs(got(D.hide_type), doc)), wanth = cover(conts), sl = cover(pieces);
    for (let x of sl) wanth.delete(x);
    // the middle of a line break is not a position of the document
    for (let x of [...hidden, ...wanth]) if (doc.text[x] === "\n" && doc.text[x - 1] === "\r") { hidden.delete(x); wanth.delete(x); }
    out.hidden += hidden.size;
    if (hidden.size > 0 && pieces.length > 0) out.distinct++;
    let rp = { seed: s, text: doc.text.slice(0, 2000), conts, pieces };
    if (!sameSet(hidden, wanth)) { let d = [...hidden].filter((x) => !wanth.has(x)).slice(0, 5), m = [...wanth].filter((x) => !hidden.has(x)).slice(0, 5); viol("greyed", `containers ${JSON.stringify(conts)} pieces ${JSON.stringify(pieces)}: greyed too much at ${d}, too little at ${m}`, rp); }
    let same = (t, ws, name) => { if (!sameSet(cover(ivs(got(t), doc)), cover(ws))) viol("highlight-" + name, `${JSON.stringify(ivs(got(t), doc))} instead of ${JSON.stringify(ws)}`, rp); };
    same(D.slice_type, pieces, "slice"); same(D.select_type, seeds, "seeds"); same(D.emphasis_type, direct, "direct");
    D.clear_ranges(ed);
    for (let [, d] of ed.deco) if (d.ranges.length) viol("clear", "decorations remain after clear_ranges", rp);
  } catch (e) {
    viol("exception", "a lookup threw " + (e && e.stack ? e.stack.split("\n").slice(0, 3).join(" | ") : e), rep(null));
  }
}
process.stdout.write(JSON.stringify(out) + "\n", () => process.exit(0));
