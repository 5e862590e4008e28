"use strict";
exports.rng = (seed) => {
  let a = (seed * 2654435761 + 12345) >>> 0;
  let next = () => { a = (a + 0x6d2b79f5) >>> 0; let t = a; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
  let r = { next, int: (n) => Math.floor(next() * n), range: (a, b) => a + Math.floor(next() * (b - a + 1)), bool: (p = 0.5) => next() < p, pick: (xs) => xs[Math.floor(next() * xs.length)] };
  return r;
};
exports.hash = (s) => { let h = 2166136261; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619); } return h >>> 0; };
exports.quiet = () => { let log = console.log; console.log = () => {}; return log; };
exports.ivs = (ranges, doc) => ranges.map((r) => [doc.offsetAt(r.start), doc.offsetAt(r.end)]);
// set of covered offsets (character i is covered when some interval has a <= i < b)
exports.cover = (ivs) => { let s = new Set(); for (let [a, b] of ivs) for (let i = a; i < b; i++) s.add(i); return s; };
exports.sameSet = (a, b) => { if (a.size !== b.size) return false; for (let x of a) if (!b.has(x)) return false; return true; };
