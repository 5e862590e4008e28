// node build.cjs REPO OUT: bundles the extension's own sources with the stand-ins.
"use strict";
const fs = require("fs"), path = require("path");
const mods = "/opt/veriftools/node/node_modules";
const esbuild = require(mods + "/esbuild");
const [repo, out] = process.argv.slice(2);
const src = path.join(repo, "ide/src");
const shim = (n) => path.join(__dirname, "shim", n + ".js");
const alias = { vscode: shim("vscode"), "@flatten-js/interval-tree": shim("interval-tree"), child_process: shim("child_process"), "node:child_process": shim("child_process"), open: shim("open"), "new-github-issue-url": shim("url"), got: shim("got"), "adm-zip": shim("zip"),
  lodash: "/opt/veriftools/quint/node_modules/lodash/lodash.js" };
const channel = (fs.readFileSync(path.join(repo, "rust-toolchain.toml"), "utf8").match(/channel\s*=\s*"(.*?)"/) || [, "nightly"])[1];
const version = JSON.parse(fs.readFileSync(path.join(repo, "ide/package.json"), "utf8")).version;
esbuild.buildSync({
  stdin: { contents: `export * as range from "./range"; export * as decorations from "./decorations"; export * as errors from "./errors"; export * as extension from "./extension"; export const VERSION_ = ${JSON.stringify(version)}; export const CHANNEL_ = ${JSON.stringify(channel)}; export const COMPONENTS_ = ["rust-src", "rustc-dev", "llvm-tools-preview"];`, resolveDir: src, loader: "ts" },
  bundle: true, platform: "node", format: "cjs", outfile: out, alias, loader: { ".scss": "empty" }, logLevel: "error", tsconfigRaw: "{}",
  define: { VERSION: JSON.stringify(version), TOOLCHAIN: JSON.stringify({ channel, components: ["rust-src", "rustc-dev", "llvm-tools-preview"] }) },
});
