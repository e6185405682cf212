// A stand-in for the editor (vscode), for the analyser's process (child_process) and for the packages that are
// not installed. Runs the real extension, feeds it a schedule of events and records what a user would see.
const Module = require("module");
const { EventEmitter } = require("events");
const zlib = require("zlib");
const fs = require("fs");
const LODASH = "/opt/veriftools/quint/node_modules/lodash";
const realLoad = Module._load;
const realCp = require("child_process");

class Position {
  constructor(line, character) { this.line = line; this.character = character; }
  compareTo(o) { return this.line - o.line || this.character - o.character; }
  isBefore(o) { return this.compareTo(o) < 0; }
  isBeforeOrEqual(o) { return this.compareTo(o) <= 0; }
  isAfter(o) { return this.compareTo(o) > 0; }
  isAfterOrEqual(o) { return this.compareTo(o) >= 0; }
  isEqual(o) { return this.compareTo(o) === 0; }
  translate(a, b) {
    let [l, c] = typeof a === "object" && a ? [a.lineDelta || 0, a.characterDelta || 0] : [a || 0, b || 0];
    return new Position(this.line + l, this.character + c);
  }
  with(a, b) {
    let [l, c] = typeof a === "object" && a ? [a.line, a.character] : [a, b];
    return new Position(l === undefined ? this.line : l, c === undefined ? this.character : c);
  }
}
const least = (a, b) => (a.compareTo(b) <= 0 ? a : b), most = (a, b) => (a.compareTo(b) >= 0 ? a : b);
class Range {
  constructor(a, b, c, d) {
    let s = typeof a === "number" ? new Position(a, b) : a, e = typeof a === "number" ? new Position(c, d) : b;
    if (s.compareTo(e) > 0) [s, e] = [e, s];
    this.start = s; this.end = e;
  }
  get isEmpty() { return this.start.isEqual(this.end); }
  isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end); }
  contains(o) { return o instanceof Position ? this.start.compareTo(o) <= 0 && o.compareTo(this.end) <= 0
    : this.contains(o.start) && this.contains(o.end); }
  get isSingleLine() { return this.start.line === this.end.line; }
  intersection(o) { let s = most(this.start, o.start), e = least(this.end, o.end); return s.compareTo(e) <= 0 ? new Range(s, e) : undefined; }
  union(o) { return new Range(least(this.start, o.start), most(this.end, o.end)); }
  with(a, b) {
    let [s, e] = a instanceof Position || a === undefined ? [a, b] : [a.start, a.end];
    return new Range(s || this.start, e || this.end);
  }
}
class Selection extends Range {
  constructor(a, b, c, d) {
    let s = typeof a === "number" ? new Position(a, b) : a, e = typeof a === "number" ? new Position(c, d) : b;
    super(s, e);
    this.anchor = s; this.active = e;
    this.isReversed = s.compareTo(e) > 0;
  }
}
class Disposable { constructor(f) { this.f = f; } dispose() { this.f && this.f(); this.f = null; } }
class Emitter {
  constructor() { this.fs = new Set(); this.event = (f, self) => {
    let g = self ? f.bind(self) : f; this.fs.add(g); return new Disposable(() => this.fs.delete(g)); }; }
  fire(x) { for (let f of [...this.fs]) { try { let r = f(x); r && r.catch && r.catch((e) => this.failed(e)); } catch (e) { this.failed(e); } } }
  failed(e) { Host.current.errors.push(String(e)); }
  dispose() { this.fs.clear(); }
}

// Closed intervals; found in the order of (low, high), as the package does.
class IntervalTree {
  constructor() { this.items = []; }
  insert(key, value) { this.items.push([Array.isArray(key) ? { low: key[0], high: key[1] } : key, value === undefined ? key : value]); }
  search(q, f = (v, k) => v) {
    return this.items.filter(([k]) => !(k.high < q[0] || q[1] < k.low))
      .sort(([a], [b]) => a.low - b.low || a.high - b.high).map(([k, v]) => f(v, k));
  }
  get size() { return this.items.length; }
  get sorted() { return [...this.items].sort(([a], [b]) => a.low - b.low || a.high - b.high); }
  get keys() { return this.sorted.map(([k]) => [k.low, k.high]); }
  get values() { return this.sorted.map(([, v]) => v); }
  isEmpty() { return !this.items.length; }
  clear() { this.items = []; }
  intersect_any(q) { return this.search(q).length > 0; }
  forEach(f) { this.sorted.forEach(([k, v]) => f(k, v)); }
}
IntervalTree.default = IntervalTree;

class Doc {
  constructor(host, d) {
    this.host = host; this.fileName = d.name; this.languageId = d.lang || "rust"; this.isDirty = false; this.version = 1;
    this.buf = 1; this.disk = 1; this.uri = { fsPath: d.name, path: d.name, toString: () => "file://" + d.name };
    this.lines = d.lines; this.isClosed = false;
  }
  get lineCount() { return this.lines.length; }
  getText() { return this.lines.join("\n"); }
  getWordRangeAtPosition() { return undefined; }
  validateRange(r) { return new Range(this.validatePosition(r.start), this.validatePosition(r.end)); }
  validatePosition(p) { return this.positionAt(this.offsetAt(p)); }
  lineAt(n) { n = typeof n === "number" ? n : n.line; return { text: this.lines[n], lineNumber: n, range: new Range(n, 0, n, this.lines[n].length) }; }
  offsetAt(p) {
    let line = Math.max(0, Math.min(p.line, this.lines.length - 1)), o = 0;
    for (let i = 0; i < line; i++) o += this.lines[i].length + 1;
    return o + (p.line >= this.lines.length ? this.lines[line].length : Math.max(0, Math.min(p.character, this.lines[line].length)));
  }
  positionAt(o) {
    o = Math.max(0, o);
    for (let i = 0; i < this.lines.length; i++) {
      if (o <= this.lines[i].length || i === this.lines.length - 1) return new Position(i, Math.min(o, this.lines[i].length));
      o -= this.lines[i].length + 1;
    }
  }
  save() { if (this.isDirty) this.host.saved(this); return Promise.resolve(true); }
}
class Editor {
  constructor(host, doc) { this.host = host; this.document = doc; this.dec = new Map(); this._sels = [new Selection(0, 0, 0, 0)]; }
  get selection() { return this._sels[0]; }
  set selection(s) { this.selections = [s]; }
  get selections() { return this._sels; }
  set selections(ss) {
    if (!ss.length) return;
    this._sels = ss;
    setImmediate(() => this.host.selEvent.fire({ textEditor: this, selections: ss }));
  }
  setDecorations(type, ranges) { this.dec.set(type, [...ranges].map((r) => r.range || r)); }
  revealRange() {}
  hide() { this.hidden = true; }
}
const memory = () => { let m = new Map(); return { get: (k, d) => (m.has(k) ? m.get(k) : d), update: async (k, v) => { m.set(k, v); }, keys: () => [...m.keys()] }; };
const alpha = (o) => (o && o.opacity !== undefined ? parseFloat(o.opacity) : null);
const flat = (r) => [r.start.line, r.start.character, r.end.line, r.end.character];
const key = (x) => x.map((n) => String(n).padStart(6, "0")).join();
const canon = (rs) => { let m = new Map(); for (let r of rs) m.set(key(flat(r)), flat(r)); return [...m.keys()].sort().map((k) => m.get(k)); };

class Host {
  constructor(world) {
    Host.current = this;
    this.errors = []; this.pane = null; this.pending = []; this.procs = 0; this.commands = new Map(); this.dialogs = [];
    this.noFolder = !!world.noFolder; this.preloadFails = world.preloadFails; this.reports = world.reports; this.opened = [];
    this.docs = world.docs.map((d) => new Doc(this, d));
    this.editors = (world.editors || this.docs.map((_, i) => i)).map((i) => new Editor(this, this.docs[i]));
    this.active = world.active === undefined ? 0 : world.active;
    for (let e of ["selEvent", "editEvent", "saveEvent", "activeEvent", "otherEvent"]) this[e] = new Emitter();
    this.bar = { show() {}, hide() {}, dispose() {} };
    this.vscode = this.makeVscode(world.root || "/ws");
    this.cp = Object.assign({}, realCp, { spawn: (c, a, o) => this.spawn(c, a || [], o), execSync: () => "",
      exec: (c, ...r) => { let cb = r.pop(); setImmediate(() => cb(null, { stdout: "", stderr: "" })); } });
  }
  makeVscode(root) {
    let host = this, never = () => new Disposable();
    let window = {
      get activeTextEditor() { return host.editors[host.active]; },
      get visibleTextEditors() { return [...host.editors]; },
      get tabGroups() { return { all: [] }; },
      createTextEditorDecorationType: (o) => ({ o, key: Math.random().toString(), dispose() {} }),
      createOutputChannel: () => ({ appendLine() {}, append() {}, show() {}, dispose() {}, clear() {} }),
      createStatusBarItem: () => host.bar,
      onDidChangeTextEditorSelection: this.selEvent.event, onDidChangeActiveTextEditor: this.activeEvent.event,
      onDidChangeVisibleTextEditors: this.otherEvent.event, onDidChangeTextEditorVisibleRanges: this.otherEvent.event,
      showTextDocument: async (doc) => { let e = new Editor(host, doc); host.pane = e; return e; },
      showErrorMessage: async (m, ...c) => { host.dialogs.push(String(m)); return host.dialog("error", m, c); },
      showInformationMessage: async (m, ...c) => host.dialog("info", m, c), showWarningMessage: async (m, ...c) => host.dialog("warning", m, c),
      withProgress: async (_, f) => f({ report() {} }, { onCancellationRequested: never }),
      createWebviewPanel: () => ({ webview: { onDidReceiveMessage: never }, onDidDispose: never, dispose() {} }),
    };
    let workspace = {
      workspaceFolders: host.noFolder ? undefined : [{ uri: { fsPath: root }, name: "ws", index: 0 }], get textDocuments() { return [...host.docs]; },
      onDidChangeTextDocument: this.editEvent.event, onDidSaveTextDocument: this.saveEvent.event,
      onDidOpenTextDocument: this.otherEvent.event, onDidCloseTextDocument: this.otherEvent.event,
      // a virtual document is read when it is opened and whenever its provider says that it changed
      registerTextDocumentContentProvider: (_scheme, p) => {
        host.provider = p;
        if (p.onDidChange) p.onDidChange((u) => { host.paneText = String(p.provideTextDocumentContent(u)); });
        return new Disposable();
      }, openTextDocument: async (u) => {
        if (host.provider) host.paneText = String(host.provider.provideTextDocumentContent(u));
        return new Doc(host, { name: "/pane", lang: "log", lines: [""] });
      },
      fs: { stat: async (u) => host.stat(u) }, getConfiguration: () => ({ get: (_, d) => d }), getWorkspaceFolder: () => (workspace.workspaceFolders || [])[0],
    };
    let commands = { registerCommand: (n, f) => { host.commands.set(n, f); return new Disposable(); },
      executeCommand: async (n, ...a) => host.commands.has(n) && host.commands.get(n)(...a) };
    let V = { window, workspace, commands, Position, Range, Selection, Disposable, EventEmitter: Emitter, version: "1",
      ThemeColor: class { constructor(id) { this.id = id; } }, ViewColumn: { Active: -1, Beside: -2, One: 1 },
      StatusBarAlignment: { Left: 1, Right: 2 }, ProgressLocation: { Window: 10, Notification: 15 }, DecorationRangeBehavior: {},
      OverviewRulerLane: {}, TextEditorRevealType: {}, MarkdownString: class {}, languages: {},
      Uri: { parse: (s) => ({ fsPath: s, path: s, toString: () => s }), file: (s) => ({ fsPath: s, path: s, toString: () => s }) } };
    V.default = V; V.__esModule = false;
    return V;
  }
  spawn(cmd, args) {
    let p = new EventEmitter();
    p.stdout = new EventEmitter(); p.stderr = new EventEmitter();
    p.stdout.setEncoding = p.stderr.setEncoding = () => {};
    p.exitCode = null; p.kill = () => {};
    p.end = (code, out, err) => {
      if (out) p.stdout.emit("data", Buffer.from(out));
      if (err) p.stderr.emit("data", err);
      p.exitCode = code; p.emit("exit", code); p.emit("close", code);
    };
    let i = args.indexOf("flowistry"), sub = i >= 0 ? args[i + 1] : "";
    if (sub === "preload" && this.preloadFails) setImmediate(() => p.end(101, "", this.preloadFails));
    else if (i < 0 || sub === "-V" || sub === "preload") setImmediate(() => p.end(0, sub === "-V" ? this.version : i < 0 ? "/x\n/y\n" : "", ""));
    else this.pending.push({ p, args: args.slice(i + 1), disk: Object.fromEntries(this.docs.map((d) => [d.fileName, d.disk])) });
    return p;
  }
  stat() { return {}; }
  dialog(kind, m, choices) { return kind !== "error" ? undefined : this.reports && choices.includes("Report bug") ? "Report bug" : "Dismiss"; }
  module(name) {
    if (name === "open") return async (url) => { this.opened.push(String(url)); };
    if (name === "new-github-issue-url") return (o) => "issue " + JSON.stringify(o);
    return undefined;
  }
  saved(doc) { doc.isDirty = false; doc.disk = doc.buf; this.saveEvent.fire(doc); }
  async quiet() { for (let i = 0; i < 8; i++) await new Promise((r) => setImmediate(r)); }
  async start(bundle) {
    let host = this;
    this.version = require((process.env.VP_REPO || "/repo") + "/ide/package.json").version;
    Module._load = function (name, ...rest) {
      if (name === "vscode") return host.vscode;
      if (name === "child_process" || name === "node:child_process") return host.cp;
      if (name === "lodash") return realLoad(LODASH, ...rest);
      if (name.startsWith("@flatten-js")) return IntervalTree;
      let m = host.module(name.replace(/^node:/, ""));
      if (m !== undefined) return m;
      if (Module.builtinModules.includes(name.replace(/^node:/, ""))) return realLoad(name, ...rest);
      if (name.startsWith("/") || name.startsWith(".")) return realLoad(name, ...rest);
      return new Proxy(function () {}, { get: (_, k) => (k === "__esModule" ? false : undefined) });
    };
    try {
      delete require.cache[bundle];
      let ext = require(bundle);
      this.context = { subscriptions: [], workspaceState: memory(), extensionPath: "/x",
        globalState: memory() };
      await ext.activate(this.context);
    } finally { Module._load = realLoad; }
    await this.quiet();
    this.loaded = this.commands.has("flowistry.focus");
  }
  async event(e) {
    let [k, a, b] = e, ed = this.editors[this.active];
    if (k === "cmd") { let f = this.commands.get("flowistry." + a); let r = f && f(); r && r.catch && r.catch((x) => this.errors.push(String(x))); }
    else if (k === "move") { if (ed) { ed._sels = [new Selection(...a)]; this.selEvent.fire({ textEditor: ed, selections: ed._sels }); } }
    else if (k === "place") { if (ed) ed._sels = [new Selection(...a)]; }
    else if (k === "edit") { let d = this.docs[a]; d.buf++; d.version++; d.isDirty = true;
      this.editEvent.fire({ document: d, contentChanges: [{}] }); }
    else if (k === "save") this.saved(this.docs[a]);
    else if (k === "switch") { this.active = a; this.activeEvent.fire(this.editors[a]); }
    else if (k === "answer") {
      let q = this.pending.splice(a, 1)[0];
      if (q) {
        let v = typeof b === "function" ? b(q) : b;
        if (v.fail !== undefined) q.p.end(1, "", v.fail);
        else if (v.raw !== undefined) q.p.end(0, v.raw, "");
        else q.p.end(0, zlib.gzipSync(JSON.stringify(v), { level: 1 }).toString("base64") + "\n", "");
      }
    } else throw new Error("event " + k);
    await this.quiet();
  }
  look() {
    return { ed: this.editors.map((e) => {
        let o = { back: [], fade: [], keep: [] };
        for (let [t, rs] of e.dec) {
          let a = alpha(t.o), back = JSON.stringify(t.o || {}).includes("ackground");
          if (a !== null && a < 1) o.fade.push(...rs);
          if (a !== null && a >= 1) o.keep.push(...rs);
          if (back) o.back.push(...rs);
        }
        return { back: canon(o.back), fade: canon(o.fade), keep: canon(o.keep), sels: e._sels.map(flat) };
      }),
      bar: (/\$\(([^)]*)\)/.exec(this.bar.text || "") || [])[1] || "", pane: this.pane && !this.pane.hidden ? this.paneText || "" : null, dialogs: this.dialogs.splice(0), opened: this.opened.splice(0),
      pending: this.pending.map((q) => q.args), errors: this.errors.length };
  }
}
module.exports = { Host, Position, Range, Selection };
