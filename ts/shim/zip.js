"use strict";
module.exports = class { constructor(b) { this.b = b; if (globalThis.__mock.zip) globalThis.__mock.zip(b); } extractAllTo(dir, over) { globalThis.__mock.extracted.push({ dir, over, b: this.b }); } };
module.exports.default = module.exports;
