// Stand-in for @flatten-js/interval-tree 1.x: closed intervals, duplicates kept, results in key order.
"use strict";
class Interval { constructor(a, b) { this.low = Math.min(a, b); this.high = Math.max(a, b); } get max() { return this; } output() { return [this.low, this.high]; } }
class IntervalTree {
  constructor() { this.items = []; }
  get size() { return this.items.length; }
  get items_() { return this.items; }
  get keys() { return this.sorted().map((x) => x.key.output()); }
  get values() { return this.sorted().map((x) => x.value); }
  sorted() { return this.items.slice().sort((a, b) => a.key.low - b.key.low || a.key.high - b.key.high); }
  isEmpty() { return this.items.length === 0; }
  insert(key, value = key) { if (key === undefined) return; this.items.push({ key: Array.isArray(key) ? new Interval(key[0], key[1]) : key, value }); }
  remove(key, value) { let i = this.items.findIndex((x) => x.key.low === key[0] && x.key.high === key[1] && x.value === value); if (i >= 0) this.items.splice(i, 1); }
  search(q, map = (v, k) => (v === k ? k.output() : v)) {
    let lo = Math.min(q[0], q[1]), hi = Math.max(q[0], q[1]);
    return this.sorted().filter((x) => !(x.key.high < lo || hi < x.key.low)).map((x) => map(x.value, x.key));
  }
  intersect_any(q) { return this.search(q).length > 0; }
  forEach(f) { this.sorted().forEach((x) => f(x.key, x.value)); }
  map(f) { let t = new IntervalTree(); this.forEach((k, v) => t.insert([k.low, k.high], f(v, k))); return t; }
  clear() { this.items = []; }
}
module.exports = IntervalTree; module.exports.default = IntervalTree; module.exports.Interval = Interval;
