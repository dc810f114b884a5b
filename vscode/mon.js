// C14/C15: the VS Code extension. The real TypeScript sources are bundled into a scratch directory with
// scripted stand-ins for vscode, vscode-languageclient, p-queue, which and fs-extra.
const fs = require("fs"), os = require("os"), path = require("path");
const { Ctx } = require("./kit.js");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");

const prop = process.argv[2];
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), "jarl-vscode-"));
process.on("exit", () => fs.rmSync(scratch, { recursive: true, force: true }));
const dist = path.join(scratch, "ext", "dist");
const SRC = "/repo/editors/code/src";
const stub = (n) => path.join(__dirname, "stubs", n);
const entry = ["binary", "settings", "lsp", "workspace", "constants", "extension", "r-files", "commands"]
  .map((m) => `export * as ${m.replace("-", "_")} from "${SRC}/${m}";`).join("\n");
let built;
try {
  built = esbuild.buildSync({
    stdin: { contents: entry, resolveDir: SRC, loader: "ts" }, bundle: true, platform: "node", format: "cjs",
    outfile: path.join(dist, "bundle.js"), logLevel: "silent",
    alias: { vscode: stub("vscode.js"), "vscode-languageclient/node": stub("client.js"), "p-queue": stub("p-queue.js"), which: stub("which.js"), "fs-extra": stub("fs-extra.js") },
  });
} catch (e) {
  console.error("cannot bundle the extension: " + e.message);
  process.exit(2);
}
const host = (globalThis.__host = globalThis.__host ?? {});
host.log = [];
delete process.env.CI;
const ext = require(path.join(dist, "bundle.js"));
const BUNDLED = path.join(scratch, "ext", "bundled", "bin", "jarl");

function config(cfg, seen) {
  return (ns, scope) => {
    seen.push({ ns, scope: scope?.uri?.fsPath });
    const c = cfg(ns, scope);
    return {
      get: (k, d) => { const i = c[k] ?? {}; return i.folder ?? i.workspace ?? i.global ?? d; },
      inspect: (k) => { const i = c[k]; return i && { key: k, globalValue: i.global, workspaceValue: i.workspace, workspaceFolderValue: i.folder }; },
      update: async () => {},
      has: (k) => k in c,
    };
  };
}
const settle = (p) => p.then((v) => ({ ok: v }), (e) => ({ err: String(e?.message ?? e) }));

function model(w) {
  const bundled = w.bundled ? BUNDLED : undefined;
  const env = w.env;
  if (!w.trusted) return bundled;
  if (w.strategy === "bundled") return bundled ?? env;
  if (w.strategy === "environment") return env ?? bundled;
  if (w.strategy === "path") return w.path && w.pathExists ? w.path : undefined;
  return undefined;
}

function world(r) {
  const user = path.join(scratch, "user-jarl");
  const w = {
    trusted: r.chance(1, 2), strategy: r.pick(["bundled", "environment", "path"]), bundled: r.chance(1, 2),
    env: r.chance(1, 2) ? "/some/where/jarl" : undefined,
    path: r.pick([undefined, "", user, path.join(scratch, "missing")]),
  };
  fs.rmSync(path.join(scratch, "ext", "bundled"), { recursive: true, force: true });
  if (w.bundled) { fs.mkdirSync(path.dirname(BUNDLED), { recursive: true }); fs.writeFileSync(BUNDLED, ""); }
  if (w.path === user && r.chance(2, 3)) fs.writeFileSync(user, ""); else fs.rmSync(user, { force: true });
  w.pathExists = !!w.path && fs.existsSync(w.path);
  host.isTrusted = w.trusted;
  host.onPath = { air: "/wrong/air", "jarl.exe": "/wrong/jarl.exe" };
  if (w.env) host.onPath.jarl = w.env;
  w.asked = [];
  host.which = (n) => w.asked.push(n);
  return w;
}

async function c14(ctx) {
  ctx.rule = "scripted editor sessions: trusted or not x strategy x configured path (absent, empty, existing, missing) x bundled and PATH executables present or not, through resolveJarlBinaryPath and through a full Lsp start with settings at user, workspace and folder level and 0-4 workspace folders; non-trivial = a resolution; distinct by scripted world";
  ctx.assumptions = ["vscode, vscode-languageclient, p-queue, which and fs-extra are scripted stand-ins; the extension's own sources are unchanged"];
  while (ctx.timeLeft()) {
    const r = ctx.rng;
    const w = world(r);
    const want = model(w);
    const got = await settle(ext.binary.resolveJarlBinaryPath(w.strategy, w.path));
    const id = JSON.stringify([w.trusted, w.strategy, w.bundled, !!w.env, w.path && path.basename(w.path), w.pathExists]);
    const cls = w.trusted ? `trusted, ${w.strategy}` : "not trusted";
    ctx.count(cls, "resolve " + id);
    ctx.sample(cls, () => ({ world: w, observed: got }));
    if (want === undefined ? got.err === undefined : got.ok !== want)
      ctx.fail("resolve " + id, `executable for ${id}: expected ${want ?? "an error"}, observed ${JSON.stringify(got)}`, w);
    if (!w.trusted && w.asked.length) ctx.fail("which " + id, `the PATH was searched (${w.asked}) in a workspace that is not trusted`, w);
    if (w.asked.some((n) => n !== "jarl")) ctx.fail("name " + id, `looked for ${w.asked} on the PATH`, w);

    // a whole start
    const w2 = world(r);
    const level = () => r.pick(["error", "warn", "info", "debug", "trace"]);
    const lv = { global: r.chance(1, 2) ? level() : undefined, workspace: r.chance(1, 2) ? level() : undefined, folder: r.chance(1, 2) ? level() : undefined };
    const dep = { global: r.chance(1, 2) ? "a=b" : undefined, workspace: r.chance(1, 2) ? "evil=trace" : undefined };
    const folders = Array.from({ length: r.below(4) }, (_, i) => {
      const p = path.join(scratch, "w" + "x".repeat(r.below(5)) + i + (r.chance(1, 2) ? "/sub" : ""));
      if (r.chance(2, 3)) fs.mkdirSync(p, { recursive: true }); else fs.rmSync(p, { recursive: true, force: true });
      return p;
    });
    host.workspaceFolders = r.chance(1, 10) && !folders.length ? undefined : folders.map((p, index) => ({ uri: { fsPath: p, path: p, scheme: "file" }, name: path.basename(p), index }));
    // strategy per folder: only the root folder's counts
    const exists = folders.filter((p) => fs.existsSync(p));
    const shortest = exists.reduce((a, b) => (a === undefined || b.length < a.length ? b : a), undefined);
    const root = folders.length === 0 ? process.cwd() : folders.length === 1 ? folders[0] : shortest ?? folders[0];
    const setStrategy = r.chance(3, 4);
    if (!setStrategy) w2.strategy = "bundled";
    const seen = [];
    host.getConfiguration = config((ns, scope) => {
      const here = scope?.uri?.fsPath === root;
      return { logLevel: lv, dependencyLogLevels: dep,
        executableStrategy: here ? (setStrategy ? { folder: w2.strategy } : {}) : { folder: "path" },
        executablePath: here ? { folder: w2.path } : { folder: path.join(scratch, "user-jarl") } };
    }, seen);
    host.clients = []; host.event = () => {}; host.pause = async () => {}; host.failStart = () => false; host.failStop = () => false;
    const subs = [];
    const lsp = new ext.lsp.Lsp({ subscriptions: subs });
    const started = await settle(lsp.start());
    const want2 = model(w2);
    const id2 = JSON.stringify([w2.trusted, setStrategy && w2.strategy, w2.bundled, !!w2.env, w2.path && path.basename(w2.path), w2.pathExists, folders.length, exists.length, lv.global, dep.global]);
    ctx.count("server start", id2);
    const bad = [];
    if (want2 === undefined) {
      if (started.err === undefined) bad.push("started although no executable may be used");
      if (host.clients.length) bad.push("a language client was created without an executable");
    } else {
      const c = host.clients[0];
      if (started.err !== undefined) bad.push("start failed: " + started.err);
      if (host.clients.length !== 1) bad.push(`${host.clients.length} clients were created`);
      if (c) {
        if (c.serverOptions.command !== want2) bad.push(`command is ${c.serverOptions.command}, expected ${want2}`);
        if (JSON.stringify(c.serverOptions.args) !== '["server"]') bad.push(`arguments are ${JSON.stringify(c.serverOptions.args)}`);
        const io = c.clientOptions.initializationOptions ?? {};
        if (io.logLevel !== (lv.global ?? "debug")) bad.push(`log level sent is ${io.logLevel}; the user set ${lv.global}, workspace ${lv.workspace}`);
        if (io.dependencyLogLevels !== dep.global) bad.push(`dependency log levels sent are ${io.dependencyLogLevels}; the user set ${dep.global}`);
        const sel = c.clientOptions.documentSelector;
        for (const l of ["r", "rmd", "quarto"]) if (!sel.some((s) => s.language === l)) bad.push(`documents of language ${l} are not covered`);
        if (lsp.getBinaryPath() !== want2) bad.push(`getBinaryPath() is ${lsp.getBinaryPath()}`);
      }
    }
    if (!w2.trusted && w2.asked.length) bad.push("the PATH was searched in a workspace that is not trusted");
    ctx.sample(`start ${want2 === undefined ? "refused" : "ok"}`, () => ({ world: w2, folders, root, client: host.clients[0]?.serverOptions }));
    if (bad.length) ctx.fail("start " + id2, `${id2} (root ${root}): ${bad.join("; ")}`, { w2, folders, lv, dep });
  }
}

async function c15(ctx) {
  ctx.rule = "random schedules of 1-14 overlapping start/stop/restart calls (direct and through the jarl.restart command) on one session, with pauses of 0-3 ms in every client operation and injected start/stop failures and missing executables; the sequence of client events is judged; non-trivial = a schedule of at least two operations; distinct by event trace";
  ctx.assumptions = ["p-queue is a stand-in that honours its concurrency option", "client operations are observed at the vscode-languageclient boundary"];
  while (ctx.timeLeft()) {
    const r = ctx.rng;
    host.isTrusted = true; host.onPath = {}; host.which = () => {};
    host.workspaceFolders = [];
    host.getConfiguration = config(() => ({ executableStrategy: { global: "bundled" } }), []);
    fs.mkdirSync(path.dirname(BUNDLED), { recursive: true });
    fs.writeFileSync(BUNDLED, "");
    host.clients = [];
    const trace = [];
    host.event = (n, e) => trace.push([n, e]);
    host.pause = () => { const k = r.below(4); return k === 0 ? Promise.resolve() : new Promise((ok) => setTimeout(ok, r.below(3))); };
    const pf = r.pick([0, 0, 20, 50]);
    host.failStart = () => r.below(100) < pf;
    host.failStop = () => r.below(100) < pf;
    const subs = [];
    const lsp = new ext.lsp.Lsp({ subscriptions: subs });
    ext.commands.registerCommands({ extension: { subscriptions: subs }, lsp });
    const ops = Array.from({ length: r.range(1, 14) }, () => r.pick(["start", "start", "stop", "restart", "command"]));
    const results = [];
    const wait = [];
    let noExe = false;
    for (const o of ops) {
      trace.push([-1, "call " + o]);
      const p = o === "command" ? host.commands["jarl.restart"]() : lsp[o]();
      wait.push(settle(p).then((x) => { results.push([o, x]); trace.push([-1, "done " + o]); }));
      if (r.chance(1, 3)) await new Promise((ok) => setTimeout(ok, r.below(3)));
      if (r.chance(1, 8)) await wait[wait.length - 1];
    }
    const all = await Promise.race([Promise.all(wait), new Promise((ok) => setTimeout(() => ok("stuck"), 10000))]);
    const bad = [];
    if (all === "stuck") bad.push("an operation never finished");
    // replay the operations in call order on a two-state model, consuming client events
    const ev = trace.filter(([n]) => n >= 0);
    let i = 0, running = null, created = 0;
    const expect = (n, e) => { const x = ev[i]; if (!x || x[0] !== n || x[1] !== e) { bad.push(`expected client ${n} to ${e}, observed ${x ? `client ${x[0]}: ${x[1]}` : "nothing"}`); return false; } i++; return true; };
    const doStop = () => {
      const n = running; running = null;
      if (!expect(n, "stop")) return false;
      if (ev[i]?.[1] === "stop failed" && ev[i][0] === n) { i++; return false; }
      return expect(n, "stopped");
    };
    const doStart = () => {
      const n = created++;
      if (!expect(n, "new") || !expect(n, "start")) return false;
      if (ev[i]?.[1] === "start failed" && ev[i][0] === n) { i++; return false; }
      if (!expect(n, "started")) return false;
      running = n;
      return true;
    };
    const verdict = [];
    for (const o of ops) {
      if (bad.length) break;
      let ok = true;
      if (o === "start") { if (running === null) ok = doStart(); }
      else if (o === "stop") { if (running !== null) ok = doStop(); }
      else { if (running !== null) ok = doStop(); if (ok) ok = doStart(); }
      verdict.push([o, ok]);
    }
    if (!bad.length && i !== ev.length) bad.push(`client events nobody asked for: ${JSON.stringify(ev.slice(i))}`);
    if (!bad.length) {
      results.forEach(([o, x], k) => { if (o !== verdict[k][0] || (x.err === undefined) !== verdict[k][1]) bad.push(`operation ${k} (${verdict[k][0]}) should ${verdict[k][1] ? "succeed" : "fail"}; observed ${o}: ${JSON.stringify(x)}`); });
      const has = (() => { try { lsp.getClient(); lsp.getBinaryPath(); return true; } catch { return false; } })();
      if (has !== (running !== null)) bad.push(`getClient() ${has ? "answers" : "throws"} although the session is ${running === null ? "stopped" : "running"}`);
    }
    ctx.count(`${pf ? "with" : "without"} failures`, JSON.stringify(trace), ops.length > 1);
    ctx.buckets["operations"] = (ctx.buckets["operations"] || 0) + ops.length;
    ctx.buckets["client events"] = (ctx.buckets["client events"] || 0) + ev.length;
    ctx.sample(`${ops.length} operations`, () => ({ ops, events: ev }));
    if (bad.length) ctx.fail(bad[0].replace(/\d+/g, "N"), `operations ${ops.join(", ")}: ${bad.join("; ")}; events ${JSON.stringify(ev)}`, { ops, trace });
  }
}

const ctx = new Ctx(prop);
({ C14: c14, C15: c15 })[prop](ctx).then(() => ctx.finish(), (e) => { console.error(e); process.exit(2); });
