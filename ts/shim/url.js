module.exports = (o) => "https://issue/?" + JSON.stringify(o); module.exports.default = module.exports;
