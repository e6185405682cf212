// setup.cjs BUNDLE < runs of Setup.tla (JSON lines) > what the extension did (JSON lines).
// Nothing is really run or downloaded: processes, downloads and file modes are recorded.
const { Host } = require("./host.cjs");
const realFs = require("fs");
const fs = realFs;
const path = require("path");
const readline = require("readline");
const out = process.stdout;
const ROOT = process.env.VP_REPO || "/repo";
const VERSION = JSON.parse(fs.readFileSync(ROOT + "/ide/package.json", "utf8")).version;
const CHANNEL = /channel\s*=\s*"([^"]*)"/.exec(fs.readFileSync(ROOT + "/rust-toolchain.toml", "utf8"))[1];
process.env.HOME = "/vp-home";
process.env.PATH = ["/vp-first", "/vp-second"].join(path.delimiter);
console.log = console.warn = console.error = () => {};
process.on("unhandledRejection", (e) => Host.current.errors.push(String(e)));

const WS = "/ws";
const dir = (k) => WS + ["", "/a", "/a/b", "/a/b/c"][k];
const versions = { same: VERSION, other: "0.0.1", newer: "9.9.9", longer: VERSION + "1", shorter: VERSION.slice(0, -1), silent: "",
  prefixed: "1" + VERSION, pre: VERSION + "-beta", tail: VERSION.slice(1) };
const HOSTS = ["x86_64-unknown-linux-gnu", "aarch64-apple-darwin", "x86_64-pc-windows-msvc", "i686-unknown-linux-gnu"];
const RUSTC = "/vp-toolchain/bin/rustc", LIB = "/vp-toolchain/lib/target", SYS = "/vp-toolchain";

class SetupHost extends Host {
  constructor(run) {
    const open = run.depth >= 0;
    super({ docs: [{ name: open ? dir(run.depth) + "/file.rs" : "/ws/none.rs", lines: ["fn f() {}"] }], noFolder: !run.folder,
            editors: open ? [0] : [], active: 0 });
    this.run = run; this.target = HOSTS[run.id % HOSTS.length]; this.script = run.ran.slice(); this.did = []; this.msgs = [];
  }
  // Answers the next question the way the specification's environment does; "?" if it was not expected.
  next(what) {
    let at = this.did.length, e = this.script[at];
    let a = e && e[0] === what ? e[1] : "?";
    this.did.push([what, a]);
    return a;
  }
  stat(u) {
    for (let k of this.run.toml) if (u.fsPath === dir(k) + "/Cargo.toml") return {};
    throw new Error("no such file " + u.fsPath);
  }
  dialog(kind, m, choices) {
    this.msgs.push(kind);
    if (kind === "error" && choices.includes("Show fix")) {
      let a = this.next("dialog");
      return a === "fix" ? "Show fix" : a === "dismiss" ? "Dismiss" : undefined;
    }
    return kind === "error" ? "Dismiss" : undefined;
  }
  classify(cmd, args) {
    let a = args.slice(), tool = a[0] === "+" + CHANNEL;
    if (tool) a.shift();
    let base = path.basename(cmd);
    if (base === "cargo" && tool && a[0] === "flowistry" && (a[1] === "-V" || a[1] === "--version")) return "version";
    if (base === "cargo" && tool && a[0] === "flowistry") return a[1];
    if (base === "cargo" && a[0] === "install" && a.includes("flowistry_ide") && a[a.indexOf("--version") + 1] === VERSION && a.includes("--locked")) return "source";
    if (base === "rustup" && a[0] === "toolchain" && a[1] === "install" && a.includes(CHANNEL)) return "toolchain";
    if (base === "rustup" && a[0] === "which" && a.includes(CHANNEL)) return "which";
    if (cmd === RUSTC && a.includes("target-libdir") && a.includes("sysroot")) return "print";
    return [cmd, ...args].join(" ");
  }
  spawn(cmd, args, opts) {
    let p = super.spawn("other", ["flowistry", "held"]);
    this.pending.pop();
    let what = this.classify(cmd, args), o = opts || {};
    (this.at = this.at || []).push([what, o.cwd || "", o]);
    let a = what === "spans" ? "held" : this.next(what);
    if (a === "held") return p;
    setImmediate(() => {
      if (a === "missing") { p.exitCode = -2; p.emit("error", new Error("spawn ENOENT")); p.emit("close", -2); }
      else if (a === "fail" || a === "?") p.end(101, "", "error: oh no");
      else p.end(0, { version: versions[a] + (a === "silent" ? "" : "\n"), which: RUSTC + "\n", print: LIB + "\n" + SYS + "\n" }[what] || "", "");
    });
    return p;
  }
  module(name) {
    let host = this;
    if (name === "got") {
      let get = (url) => {
        url = String(url && url.url || url);
        let a = host.next("download");
        if (!url.includes("v" + VERSION + "/") || !url.includes("/" + host.target + ".")) host.did.push(["wrong release", url]);
        let buf = async () => { if (a !== "ok") throw new Error("404"); return Buffer.from("zip"); };
        return { buffer: buf, then: (f, g) => buf().then((b) => f({ body: b, rawBody: b }), g) };
      };
      return Object.assign(get, { get });
    }
    if (name === "adm-zip") return class { constructor(b) { this.b = b; }
      extractAllTo(d) { host.placed = d; } extractAllToAsync(d, _o, _k, cb) { host.placed = d; cb && cb(); } };
    if (name === "fs" || name === "fs/promises") {
      let mode = (p, m) => { (host.modes = host.modes || []).push([String(p), typeof m === "number" ? m.toString(8) : String(m)]); };
      let promises = new Proxy(realFs.promises, { get: (t, k) => k === "chmod" ? async (p, m) => mode(p, m) : t[k] });
      return name !== "fs" ? promises : new Proxy(realFs, { get: (t, k) => k === "promises" ? promises : k === "chmodSync" ? mode
        : k === "chmod" ? (p, m, f) => { mode(p, m); f(null); } : t[k] });
    }
    return undefined;
  }
}

(async () => {
  for await (const line of readline.createInterface({ input: process.stdin })) {
    const run = JSON.parse(line);
    const bin = run.home ? "/vp-cargo/bin" : "/vp-home/.cargo/bin";
    if (run.home) process.env.CARGO_HOME = "/vp-cargo"; else delete process.env.CARGO_HOME;
    const h = new SetupHost(run);
    h.cp.exec = (c, ...r) => { let cb = r.pop(); setImmediate(() => cb(null, { stdout: `rustc 1.0 (00 2025-08-20)\nbinary: rustc\ncommit-hash: 00\nhost: ${h.target}\nrelease: 1\nLLVM version: 20.1\n`, stderr: "" })); };
    const problems = [];
    await h.start(process.argv[2]);
    await h.quiet();
    const commands = [...h.commands.keys()].sort();
    const ready = commands.length > 0;
    const seen = h.at || [];
    // where processes run and what they get
    for (const [what, cwd] of seen) if (["version", "preload"].includes(what) && cwd !== dir(Math.max(run.root, 0))) problems.push(what + " runs in " + cwd);
    if (h.did.some(([w, a]) => w === "download" && a === "ok")) {
      if (path.resolve(h.placed || "") !== bin) problems.push("placed in " + h.placed);
      for (const b of ["cargo-flowistry", "flowistry-driver"])
        if (!(h.modes || []).some(([p, m]) => path.resolve(p) === bin + "/" + b && /[1357]..$/.test(m))) problems.push(b + " is not executable");
    }
    if (ready && run.depth >= 0) {
      const asked = seen.length;
      await h.event(["cmd", "focus"]);
      await h.quiet();
      const spans = (h.at || []).slice(asked).filter(([w]) => w === "spans");
      if (spans.length !== 1) problems.push("focusing asks " + spans.length + " times");
      else {
        const [, cwd, o] = spans[0], env = (o && o.env) || {};
        if (cwd !== dir(run.root)) problems.push("requests run in " + cwd);
        h.env = o;
      }
    }
    out.write(JSON.stringify({ id: run.id, did: h.did, told: h.msgs, commands, problems, errors: h.errors.slice(0, 2), opts: h.env }) + "\n");
  }
})();
