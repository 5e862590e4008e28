module.exports = async (u) => { globalThis.__mock.opens.push(String(u)); }; module.exports.default = module.exports;
