// Scripted stand-in for the `vscode` module; the monitor replaces the fields of `host`.
const host = (globalThis.__host ??= {});
class EventEmitter {
  constructor() { this.ls = new Set(); }
  get event() { return (f) => { this.ls.add(f); return { dispose: () => this.ls.delete(f) }; }; }
  fire(x) { for (const f of [...this.ls]) f(x); }
  dispose() { this.ls.clear(); }
}
module.exports = {
  EventEmitter,
  ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 },
  ViewColumn: { Two: 2 },
  Uri: {
    file: (p) => ({ fsPath: p, path: p, scheme: "file" }),
    joinPath: (u, ...p) => ({ fsPath: [u.fsPath, ...p].join("/"), path: [u.path, ...p].join("/"), scheme: u.scheme }),
    parse: (s) => ({ fsPath: s, path: s, scheme: s.split(":")[0] }),
  },
  commands: { registerCommand: (n, f) => { (host.commands ??= {})[n] = f; return { dispose() {} }; } },
  window: {
    createOutputChannel: () => ({ appendLine: (l) => host.log?.push(l), show() {}, dispose() {} }),
    onDidChangeActiveTextEditor: () => ({ dispose() {} }),
    get activeTextEditor() { return host.activeTextEditor; },
    showErrorMessage: async (...a) => host.showErrorMessage?.(...a),
    showInformationMessage: async (...a) => host.showInformationMessage?.(...a),
    showQuickPick: async (...a) => host.showQuickPick?.(...a),
  },
  workspace: {
    get isTrusted() { return host.isTrusted; },
    get workspaceFolders() { return host.workspaceFolders; },
    get textDocuments() { return host.textDocuments ?? []; },
    getConfiguration: (ns, scope) => host.getConfiguration(ns, scope),
    onDidChangeTextDocument: () => ({ dispose() {} }),
    fs: {},
  },
};
