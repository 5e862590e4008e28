"use strict";
let get = (u) => ({ buffer: async () => { let M = globalThis.__mock; M.gets.push(String(u)); if (M.got) return M.got(String(u)); return Buffer.from(""); } });
module.exports = get; module.exports.get = get; module.exports.default = module.exports;
