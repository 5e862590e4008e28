"use strict";
let M = () => globalThis.__mock;
let m = {
  spawn: (...a) => M().spawn(...a),
  execSync: (c, o) => { M().uploads.push({ c, input: o && o.input }); if (M().uploadFails) throw new Error("no network"); return Buffer.from("http://log/1\n"); },
  exec: (c, o, f) => { if (typeof o === "function") f = o; if (M().exec) return M().exec(c, f); f(null, "", ""); },
  execFile: (...a) => a.pop()(null, "", ""),
};
m.exec[Symbol.for("nodejs.util.promisify.custom")] = (c) => new Promise((res, rej) => m.exec(c, (e, stdout, stderr) => (e ? rej(e) : res({ stdout: stdout || "", stderr: stderr || "" }))));
module.exports = m; module.exports.default = m;
