// Stand-in for the editor: documents, editors, events, and a record of everything the extension does with them.
"use strict";
class Position {
  constructor(line, character) { this.line = line; this.character = character; }
  isBefore(o) { return this.line < o.line || (this.line === o.line && this.character < o.character); }
  isEqual(o) { return this.line === o.line && this.character === o.character; }
  isBeforeOrEqual(o) { return this.isBefore(o) || this.isEqual(o); }
  isAfter(o) { return !this.isBeforeOrEqual(o); }
  isAfterOrEqual(o) { return !this.isBefore(o); }
  compareTo(o) { return this.isBefore(o) ? -1 : this.isEqual(o) ? 0 : 1; }
  translate(l = 0, c = 0) { return new Position(this.line + l, this.character + c); }
  with(l = this.line, c = this.character) { return new Position(l, c); }
}
let pos = (a, b) => (typeof a === "number" ? new Position(a, b) : a);
class Range {
  constructor(a, b, c, d) {
    let s = typeof a === "number" ? new Position(a, b) : a, e = typeof a === "number" ? new Position(c, d) : b;
    if (e.isBefore(s)) [s, e] = [e, s];
    this.start = s; this.end = e;
  }
  get isEmpty() { return this.start.isEqual(this.end); }
  get isSingleLine() { return this.start.line === this.end.line; }
  contains(o) { return o instanceof Position ? this.start.isBeforeOrEqual(o) && o.isBeforeOrEqual(this.end) : this.contains(o.start) && this.contains(o.end); }
  isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end); }
  intersection(o) {
    let s = this.start.isBefore(o.start) ? o.start : this.start, e = this.end.isBefore(o.end) ? this.end : o.end;
    return e.isBefore(s) ? undefined : new Range(s, e);
  }
  union(o) { return new Range(this.start.isBefore(o.start) ? this.start : o.start, this.end.isBefore(o.end) ? o.end : this.end); }
  with(s = this.start, e = this.end) { return new Range(s, e); }
}
class Selection extends Range {
  constructor(a, b, c, d) {
    let s = typeof a === "number" ? new Position(a, b) : a, e = typeof a === "number" ? new Position(c, d) : b;
    super(s, e); this.anchor = s; this.active = e;
  }
  get isReversed() { return this.active.isBefore(this.anchor); }
}
class EventEmitter {
  constructor() {
    this.ls = [];
    this.event = (f, self) => {
      let e = { f: self ? f.bind(self) : f };
      this.ls.push(e);
      return { dispose: () => { this.ls = this.ls.filter((x) => x !== e); } };
    };
  }
  fire(x) { for (let e of this.ls.slice()) { try { e.f(x); } catch (err) { mock.errors.push("event handler threw: " + (err && err.stack)); } } }
  dispose() { this.ls = []; }
}
class ThemeColor { constructor(id) { this.id = id; } }
class Disposable { constructor(f) { this.f = f; } dispose() { this.f && this.f(); } static from(...x) { return new Disposable(() => x.forEach((d) => d.dispose())); } }
class Uri {
  constructor(s) { this.s = s; this.scheme = s.includes("://") ? s.split("://")[0] : "file"; this.fsPath = this.path = s.replace(/^[a-z]+:\/\//, ""); }
  static file(p) { return new Uri(p); }
  static parse(s) { return new Uri(s); }
  static joinPath(u, ...p) { return new Uri([u.s, ...p].join("/")); }
  toString() { return this.scheme === "file" ? "file://" + this.s : this.s; }
}
class Doc {
  constructor(fileName, languageId, text) { this.fileName = fileName; this.uri = new Uri(fileName); this.languageId = languageId; this.version = 1; this.isDirty = false; this.isClosed = false; this.isUntitled = false; this.eol = 1; this.setText(text); this.disk = text; }
  setText(t) {
    this.text = t;
    this.starts = [0];
    for (let i = 0; i < t.length; i++) if (t[i] === "\n") this.starts.push(i + 1);
  }
  get lineCount() { return this.starts.length; }
  lineLen(l) {
    let e = l + 1 < this.starts.length ? this.starts[l + 1] - 1 : this.text.length;
    if (l + 1 < this.starts.length && e > this.starts[l] && this.text[e - 1] === "\r") e--;
    return e - this.starts[l];
  }
  validatePosition(p) {
    if (p.line < 0) return new Position(0, 0);
    if (p.line >= this.lineCount) return new Position(this.lineCount - 1, this.lineLen(this.lineCount - 1));
    return new Position(p.line, Math.max(0, Math.min(p.character, this.lineLen(p.line))));
  }
  validateRange(r) { return new Range(this.validatePosition(r.start), this.validatePosition(r.end)); }
  offsetAt(p) { p = this.validatePosition(p); return this.starts[p.line] + p.character; }
  positionAt(o) {
    o = Math.max(0, Math.min(Math.floor(o), this.text.length));
    let l = 0;
    while (l + 1 < this.starts.length && this.starts[l + 1] <= o) l++;
    return this.validatePosition(new Position(l, o - this.starts[l]));
  }
  getText(r) { return r ? this.text.slice(this.offsetAt(r.start), this.offsetAt(r.end)) : this.text; }
  lineAt(l) { if (typeof l !== "number") l = l.line; let t = this.text.slice(this.starts[l], this.starts[l] + this.lineLen(l)); return { text: t, lineNumber: l, range: new Range(l, 0, l, t.length) }; }
  async save() { await null; await null; mock.save(this); return true; }
}
let typeId = 0;
class Editor {
  constructor(document) { this.document = document; this._sel = [new Selection(0, 0, 0, 0)]; this.deco = new Map(); this.options = {}; this.shown = true; }
  get selection() { return this._sel[0]; }
  set selection(s) { this.selections = [s]; }
  get selections() { return this._sel; }
  set selections(s) { this._sel = s.slice(); mock.selected.push({ editor: this, selections: s.slice() }); mock.onSelect(this); }
  setDecorations(type, ranges) {
    ranges = ranges.map((r) => r.range || r);
    this.deco.set(type.key, { type, ranges });
    if (ranges.length > 0) mock.onDraw(this, type, ranges);
  }
  revealRange() {}
  hide() {}
  show() {}
}
let mock = {
  errors: [], selected: [], commands: new Map(), bar: null, editors: [], active: undefined, root: "/w", files: new Set(["/w/Cargo.toml"]),
  dialogs: [], infos: [], shown: [], uploads: [], uploadFails: false, opens: [], gets: [], extracted: [], exec: null, got: null, zip: null, providers: new Map(),  docs: [], onDraw: () => {}, onSelect: () => {}, spawn: null, stat: null, state: new Map(), Doc, Editor, Position, Range, Selection,
  edit: new EventEmitter(), saved: new EventEmitter(), sel: new EventEmitter(), activeEd: new EventEmitter(), visibleEd: new EventEmitter(),
  closed: new EventEmitter(), opened: new EventEmitter(), willSave: new EventEmitter(), other: new EventEmitter(),
  save(doc, force) {
    if (!doc.isDirty && !force) return;
    mock.willSave.fire({ document: doc, waitUntil() {} });
    let was = doc.isDirty;
    doc.disk = doc.text; doc.isDirty = false;
    if (was) mock.edit.fire({ document: doc, contentChanges: [], reason: undefined });
    mock.saved.fire(doc);
  },
};
globalThis.__mock = mock;
let item = () => ({ show() {}, hide() {}, dispose() {} });
let channel = () => ({ appendLine() {}, append() {}, show() {}, clear() {}, dispose() {} });
let window = {
  createTextEditorDecorationType: (o) => ({ key: "t" + typeId++, o, dispose() {} }),
  createStatusBarItem: () => (mock.bar = item()),
  createOutputChannel: channel,
  get activeTextEditor() { return mock.active; },
  get visibleTextEditors() { return [...mock.editors, ...mock.shown]; },
  onDidChangeTextEditorSelection: (f, s) => mock.sel.event(f, s),
  onDidChangeActiveTextEditor: (f, s) => mock.activeEd.event(f, s),
  onDidChangeVisibleTextEditors: (f, s) => mock.visibleEd.event(f, s),
  onDidChangeTextEditorVisibleRanges: (f, s) => mock.other.event(f, s),
  onDidChangeWindowState: (f, s) => mock.other.event(f, s),
  showErrorMessage: (m, ...b) => new Promise((r) => mock.dialogs.push({ m, b, r })),
  showInformationMessage: async (m, ...b) => { mock.infos.push(m); return b[0]; },
  showWarningMessage: async () => undefined,
  showTextDocument: async (d) => { let e = new Editor(d); mock.shown.push(e); e.hide = () => { mock.shown = mock.shown.filter((x) => x !== e); }; return e; },
  withProgress: (o, f) => f({ report() {} }, { isCancellationRequested: false, onCancellationRequested: () => ({ dispose() {} }) }),
  setStatusBarMessage: () => new Disposable(() => {}),
  createWebviewPanel: () => ({ webview: { html: "", onDidReceiveMessage() {} } }),
};
let workspace = {
  get workspaceFolders() { return [{ uri: new Uri(mock.root), name: "w", index: 0 }]; },
  get textDocuments() { return mock.docs; },
  onDidChangeTextDocument: (f, s) => mock.edit.event(f, s),
  onDidSaveTextDocument: (f, s) => mock.saved.event(f, s),
  onWillSaveTextDocument: (f, s) => mock.willSave.event(f, s),
  onDidCloseTextDocument: (f, s) => mock.closed.event(f, s),
  onDidOpenTextDocument: (f, s) => mock.opened.event(f, s),
  onDidChangeConfiguration: (f, s) => mock.other.event(f, s),
  onDidChangeWorkspaceFolders: (f, s) => mock.other.event(f, s),
  // as in the editor, the text of such a document is fetched when it is opened and whenever the provider announces a change
  registerTextDocumentContentProvider: (k, p) => {
    mock.providers.set(k, p); mock.virtual = new Map();
    p.onDidChange && p.onDidChange(async (u) => { let d = mock.virtual.get(String(u)); if (d) { await null; d.setText(String(await p.provideTextDocumentContent(d.uri))); } });
    return new Disposable(() => {});
  },
  openTextDocument: async (u) => {
    let k = String(u), p = mock.providers.get(k.split(":")[0]), d = mock.virtual && mock.virtual.get(k);
    if (!d) { d = new Doc(k, "plaintext", p ? String(await p.provideTextDocumentContent(new Uri(k))) : ""); if (mock.virtual) mock.virtual.set(k, d); }
    return d;
  },
  getConfiguration: () => ({ get: (k, d) => d, has: () => false, update: async () => {} }),
  getWorkspaceFolder: () => workspace.workspaceFolders[0],
  asRelativePath: (p) => String(p.fsPath || p).replace(mock.root + "/", ""),
  saveAll: async () => { mock.docs.forEach((d) => mock.save(d)); return true; },
  fs: { stat: async (u) => { if (mock.files.has(u.fsPath)) return { type: 1 }; throw new Error("not found"); }, readFile: async () => Buffer.from("") },
};
module.exports = {
  Position, Range, Selection, EventEmitter, ThemeColor, Uri, Disposable, window, workspace, version: "1.80.0",
  commands: { registerCommand: (n, f) => { mock.commands.set(n, f); return new Disposable(() => {}); }, executeCommand: async (n, ...a) => { let f = mock.commands.get(n); return f && f(...a); } },
  ViewColumn: { Beside: -2, Active: -1, One: 1, Two: 2 }, StatusBarAlignment: { Left: 1, Right: 2 }, ProgressLocation: { Notification: 15, Window: 10 },
  EndOfLine: { LF: 1, CRLF: 2 }, OverviewRulerLane: {}, DecorationRangeBehavior: {}, env: { openExternal: async () => true },
  extensions: { getExtension: () => undefined }, languages: {}, FileType: { File: 1, Directory: 2 }, CancellationTokenSource: class { constructor() { this.token = {}; } cancel() {} dispose() {} },
  TextDocumentChangeReason: { Undo: 1, Redo: 2 }, TextEditorSelectionChangeKind: { Keyboard: 1, Mouse: 2, Command: 3 },
};
module.exports.default = module.exports;
