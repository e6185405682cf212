// bundle.cjs OUT: bundles /repo/ide/src/extension.ts as it is now. Packages of the extension that are not
// installed here become empty modules, except the interval tree, which stubs.cjs provides.
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const fs = require("fs");
const root = process.env.VP_REPO || "/repo";
const toml = fs.readFileSync(root + "/rust-toolchain.toml", "utf8");
const channel = /channel\s*=\s*"([^"]*)"/.exec(toml)[1];
const version = JSON.parse(fs.readFileSync(root + "/ide/package.json", "utf8")).version;
esbuild.buildSync({
  entryPoints: [root + "/ide/src/extension.ts"], outfile: process.argv[2], bundle: true, platform: "node",
  target: "es2020", packages: "external", loader: { ".scss": "empty", ".css": "empty" }, logLevel: "error",
  define: { TOOLCHAIN: JSON.stringify({ channel, components: [] }), VERSION: JSON.stringify(version) },
});
