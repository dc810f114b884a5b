//! C40: what the language server announces.

use crate::sut;
use kit::{Ctx, Rng};
use lsp_server::Message;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(25);

/// A session with the program.
struct Server {
    child: Child,
    to: Option<ChildStdin>,
    from: crossbeam::channel::Receiver<Value>,
    n: i64,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Server {
    fn start(cwd: &Path, home: &Path) -> Server {
        let mut child = Command::new(sut::jarl_bin())
            .arg("server")
            .current_dir(cwd)
            .env("HOME", home)
            .env("XDG_CONFIG_HOME", home.join("config"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("the jarl binary runs");
        let out = child.stdout.take().unwrap();
        let (tx, from) = crossbeam::channel::unbounded();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            while let Ok(Some(m)) = Message::read(&mut r) {
                let _ = tx.send(serde_json::to_value(&m).unwrap());
            }
        });
        let to = child.stdin.take();
        Server { child, to, from, n: 0 }
    }
    fn send(&mut self, mut v: Value) {
        v["jsonrpc"] = json!("2.0");
        let t = v.to_string();
        if let Some(to) = &mut self.to {
            let _ = to.write_all(format!("Content-Length: {}\r\n\r\n{t}", t.len()).as_bytes());
            let _ = to.flush();
        }
    }
    fn notify(&mut self, method: &str, params: Value) {
        self.send(json!({"method": method, "params": params}));
    }
    /// Reads until this message; it and what came before.
    fn until(&mut self, want: impl Fn(&Value) -> bool) -> Result<(Value, Vec<Value>), String> {
        let t = Instant::now();
        let mut before = vec![];
        while t.elapsed() < PATIENCE {
            match self.from.recv_timeout(PATIENCE) {
                Ok(m) if want(&m) => return Ok((m, before)),
                Ok(m) => before.push(m),
                Err(crossbeam::channel::RecvTimeoutError::Disconnected) => return Err("gone: the server has ended".into()),
                Err(_) => break,
            }
        }
        Err("silent: the program does not answer".into())
    }
    fn request(&mut self, method: &str, params: Value) -> Result<(Value, Vec<Value>), String> {
        self.n += 1;
        let id = json!(self.n);
        let mut v = json!({"id": id, "method": method});
        if !params.is_null() {
            v["params"] = params;
        }
        self.send(v);
        self.until(|m| m["id"] == id && m["method"].is_null())
    }
    fn stop(mut self) -> Result<Vec<Value>, String> {
        let (m, mut rest) = self.request("shutdown", Value::Null)?;
        if !m["error"].is_null() {
            return Err(format!("shutdown: {m}"));
        }
        self.notify("exit", Value::Null);
        self.to = None;
        let t = Instant::now();
        loop {
            match self.child.try_wait() {
                Ok(Some(s)) if s.code() == Some(0) => break,
                Ok(Some(s)) => return Err(format!("exit: {s}")),
                _ if t.elapsed() > PATIENCE => return Err("silent: the program does not end".into()),
                _ => std::thread::sleep(Duration::from_millis(1)),
            }
        }
        while let Ok(m) = self.from.recv_timeout(Duration::from_millis(500)) {
            rest.push(m);
        }
        Ok(rest)
    }
}

fn uri(p: &Path) -> String {
    let mut u = String::from("file://");
    for b in p.to_str().unwrap().bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'/' | b'.' | b'-' | b'_' | b'~' => u.push(b as char),
            b => u.push_str(&format!("%{b:02X}")),
        }
    }
    u
}

#[derive(Clone, Debug, PartialEq)]
enum Conf {
    None,
    /// rules and the threshold, and whether unused_function is named
    Good { lint: String, threshold: Option<usize>, named: bool },
    Broken(&'static str),
}

impl Conf {
    fn text(&self) -> Option<String> {
        match self {
            Conf::None => None,
            Conf::Good { lint, threshold, .. } => Some(format!(
                "[lint]\ndefault-exclude = false\n{lint}{}",
                threshold.map_or(String::new(), |t| format!("[lint.unused_function]\nthreshold-ignore = {t}\n"))
            )),
            Conf::Broken(t) => Some(t.to_string()),
        }
    }
}

fn conf(rng: &mut Rng, count: usize) -> Conf {
    if rng.chance(1, 12) {
        return Conf::Broken(*rng.pick(&["[lint\n", "[lint]\nselect = [\"no_such_rule_at_all\"]\nunknown = 1\n", "[lint]\nselect = 3\n"]));
    }
    let (lint, named) = *rng.pick(&[
        ("select = [\"ALL\"]\n", false),
        ("select = [\"ALL\"]\n", false),
        ("select = [\"ALL\"]\nextend-select = [\"any_is_na\"]\n", false),
        ("select = [\"ALL\"]\nextend-select = [\"unused_function\"]\n", true),
        ("extend-select = [\"unused_function\"]\n", true),
        ("select = [\"any_is_na\", \"unused_function\"]\n", true),
    ]);
    let threshold = match rng.below(6) {
        0 => None,
        1 => Some(0),
        2 => Some(count),
        3 => Some(count + 1),
        4 => Some(count.saturating_sub(1)),
        _ => Some(rng.below(6)),
    };
    Conf::Good { lint: lint.into(), threshold, named }
}

/// A function of a package.
#[derive(Clone, Debug, PartialEq)]
enum F {
    Unused,
    Used,
    Exported,
}

#[derive(Clone, Debug)]
struct Pkg {
    dir: String,
    files: BTreeMap<String, Vec<(String, F)>>,
    lead: &'static str,
}

impl Pkg {
    fn new(rng: &mut Rng, dir: &str, names: &mut usize) -> Pkg {
        let mut files: BTreeMap<String, Vec<(String, F)>> = BTreeMap::new();
        let many = rng.chance(1, 8);
        for i in 0..rng.range(1, 3) {
            let name = ["a.R", "b file.R", "é.r"][i];
            let n = if many && i == 0 { rng.range(49, 52) } else { rng.below(5) };
            let fs = (0..n)
                .map(|_| {
                    *names += 1;
                    (format!("fn_{names}_x"), if many { F::Unused } else { rng.pick(&[F::Unused, F::Unused, F::Used, F::Exported]).clone() })
                })
                .collect();
            files.insert(name.into(), fs);
        }
        Pkg { dir: dir.into(), files, lead: *rng.pick(&["", "", "# été 🌍\n", "\"🌍🌍\"; "]) }
    }
    fn text(&self, f: &str) -> String {
        let mut t = format!("{}any(is.na(x))\n", self.lead);
        for (n, k) in &self.files[f] {
            t.push_str(&format!("{n} <- function(x) NULL\n"));
            if *k == F::Used {
                t.push_str(&format!("{n}(1)\n"));
            }
        }
        t
    }
    fn unused(&self, f: &str) -> usize {
        self.files[f].iter().filter(|f| f.1 == F::Unused).count()
    }
    fn total(&self) -> usize {
        self.files.keys().map(|f| self.unused(f)).sum()
    }
    fn write(&self, top: &Path) {
        let d = top.join(&self.dir);
        std::fs::create_dir_all(d.join("R")).unwrap();
        std::fs::write(d.join("DESCRIPTION"), "Package: p\nVersion: 1.0\n").unwrap();
        let ns: String = self.files.values().flatten().filter(|f| f.1 == F::Exported).map(|f| format!("export({})\n", f.0)).collect();
        std::fs::write(d.join("NAMESPACE"), ns).unwrap();
        for f in self.files.keys() {
            std::fs::write(d.join("R").join(f), self.text(f)).unwrap();
        }
    }
}

/// What some capabilities promise: a request that is then answered.
const PROMISES: &[(&str, &str)] = &[
    ("hoverProvider", "textDocument/hover"),
    ("completionProvider", "textDocument/completion"),
    ("signatureHelpProvider", "textDocument/signatureHelp"),
    ("definitionProvider", "textDocument/definition"),
    ("declarationProvider", "textDocument/declaration"),
    ("typeDefinitionProvider", "textDocument/typeDefinition"),
    ("implementationProvider", "textDocument/implementation"),
    ("referencesProvider", "textDocument/references"),
    ("documentHighlightProvider", "textDocument/documentHighlight"),
    ("documentSymbolProvider", "textDocument/documentSymbol"),
    ("workspaceSymbolProvider", "workspace/symbol"),
    ("codeLensProvider", "textDocument/codeLens"),
    ("documentFormattingProvider", "textDocument/formatting"),
    ("documentRangeFormattingProvider", "textDocument/rangeFormatting"),
    ("documentOnTypeFormattingProvider", "textDocument/onTypeFormatting"),
    ("renameProvider", "textDocument/rename"),
    ("documentLinkProvider", "textDocument/documentLink"),
    ("colorProvider", "textDocument/documentColor"),
    ("foldingRangeProvider", "textDocument/foldingRange"),
    ("selectionRangeProvider", "textDocument/selectionRange"),
    ("callHierarchyProvider", "textDocument/prepareCallHierarchy"),
    ("semanticTokensProvider", "textDocument/semanticTokens/full"),
    ("inlayHintProvider", "textDocument/inlayHint"),
    ("inlineValueProvider", "textDocument/inlineValue"),
    ("diagnosticProvider", "textDocument/diagnostic"),
    ("executeCommandProvider", "workspace/executeCommand"),
    ("codeActionProvider", "textDocument/codeAction"),
];

fn units(text: &str, enc: &str) -> usize {
    match enc {
        "utf-8" => text.len(),
        "utf-32" => text.chars().count(),
        _ => text.encode_utf16().count(),
    }
}

fn session(rng: &mut Rng, ctx: &mut Ctx, version: &str) -> Result<(), (String, Value)> {
    let dir = sut::scratch();
    let root = dir.path().canonicalize().unwrap();
    let (top, home) = (root.join("w"), root.join("home"));
    std::fs::create_dir_all(home.join("config/jarl")).unwrap();
    // the projects
    let mut names = 0;
    let dirs = ["a", "a/b", "été c"];
    let mut pkgs: Vec<Pkg> = dirs[..rng.range(1, 3)].iter().map(|d| Pkg::new(rng, d, &mut names)).collect();
    for p in &pkgs {
        p.write(&top);
    }
    std::fs::create_dir_all(top.join("other/deep")).unwrap();
    std::fs::write(top.join("other/deep/s.R"), "any(is.na(x))\n").unwrap();
    // their configurations
    let mut confs: BTreeMap<String, Conf> = BTreeMap::new();
    let total = pkgs[0].total();
    for d in ["", "a", "a/b", "été c", "other"] {
        let c = match rng.chance(if d.is_empty() { 2 } else { 1 }, 3) {
            true => conf(rng, pkgs.iter().find(|p| p.dir == d).map_or(total, |p| p.total())),
            false => Conf::None,
        };
        if let Some(t) = c.text() {
            std::fs::create_dir_all(top.join(d)).unwrap();
            std::fs::write(top.join(d).join("jarl.toml"), t).unwrap();
            confs.insert(d.into(), c);
        }
    }
    let user = if rng.chance(1, 3) { conf(rng, total) } else { Conf::None };
    if let Some(t) = user.text() {
        std::fs::write(home.join("config/jarl/jarl.toml"), t).unwrap();
    }
    let link = rng.chance(1, 3);
    if link {
        std::os::unix::fs::symlink(&top, root.join("link")).unwrap();
    }
    let at: &str = *rng.pick(&["", "", "a", "a/b", "other", "R"]);
    let cwd = match at {
        "R" => top.join("a/R"),
        d => top.join(d),
    };
    let cwd = if cwd.is_dir() { cwd } else { top.clone() };
    let started = match link && rng.chance(1, 2) {
        true => root.join("link").join(cwd.strip_prefix(&top).unwrap()),
        false => cwd.clone(),
    };
    // the documents: path, package and file
    let mut docs: Vec<(PathBuf, Option<(usize, String)>)> = vec![(top.join("other/deep/s.R"), None)];
    for (i, p) in pkgs.iter().enumerate() {
        for f in p.files.keys() {
            docs.push((top.join(&p.dir).join("R").join(f), Some((i, f.clone()))));
        }
    }
    rng.shuffle(&mut docs);
    docs.truncate(5);
    if link {
        for d in &mut docs {
            if rng.chance(1, 2) {
                d.0 = root.join("link").join(d.0.strip_prefix(&top).unwrap());
            }
        }
    }
    let nearest = |doc: &Path| -> (Option<PathBuf>, Conf) {
        let base = if doc.starts_with(&top) { top.clone() } else { root.join("link") };
        let rel = doc.strip_prefix(&base).unwrap();
        for d in rel.ancestors().skip(1) {
            if let Some(c) = confs.get(d.to_str().unwrap()) {
                return (Some(base.join(d)), c.clone());
            }
        }
        match &user {
            Conf::None => (None, Conf::None),
            c => (Some(home.join("config/jarl")), c.clone()),
        }
    };

    let mut log: Vec<String> = vec![];
    let mut s = Server::start(&started, &home);
    let offered: Option<&[&str]> = *rng.pick(&[
        None,
        Some(&[][..]),
        Some(&["utf-8"][..]),
        Some(&["utf-16"][..]),
        Some(&["utf-32"][..]),
        Some(&["utf-16", "utf-8"][..]),
        Some(&["utf-32", "utf-16"][..]),
        Some(&["utf-32", "utf-8", "utf-16"][..]),
        Some(&["utf-7", "utf-8"][..]),
    ]);
    let mut caps = json!({});
    if let Some(l) = offered {
        caps["general"] = json!({"positionEncodings": l});
    }
    if rng.chance(1, 2) {
        caps["textDocument"] = json!({"synchronization": {"dynamicRegistration": true, "willSave": true, "willSaveWaitUntil": true, "didSave": true},
            "codeAction": {"codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["", "quickfix", "source.fixAll"]}}, "resolveSupport": {"properties": ["edit"]}},
            "diagnostic": {"dynamicRegistration": true}, "publishDiagnostics": {"versionSupport": true}});
    }
    let mut params = json!({"processId": null, "rootUri": null, "capabilities": caps});
    let folder = uri(&top);
    match rng.below(4) {
        0 => params["rootUri"] = json!(folder),
        1 => params["rootPath"] = json!(top.to_str()),
        2 => params["workspaceFolders"] = json!([{"uri": folder, "name": "w"}, {"uri": uri(&top.join("other")), "name": "o"}]),
        _ => {}
    }
    let show_confs: BTreeMap<String, Option<String>> = confs.iter().map(|(d, c)| (d.clone(), c.text())).collect();
    let base = json!({"packages": format!("{pkgs:?}"), "configurations": show_confs, "user": user.text(), "cwd": started.strip_prefix(&root).unwrap().to_str(), "initialize": params});
    let replay = |e: String, log: &[String]| {
        let mut b = base.clone();
        b["happened"] = json!(log);
        (e, b)
    };
    macro_rules! ok {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return Err(replay(e, &log)),
            }
        };
    }
    macro_rules! no {
        ($($t:tt)*) => { return Err(replay(format!($($t)*), &log)) };
    }
    let (m, before) = ok!(s.request("initialize", params.clone()));
    if !before.is_empty() {
        no!("early: {before:?} before the answer to initialize");
    }
    let r = &m["result"];
    if r["serverInfo"]["version"] != version {
        no!("version: {} instead of {version}", r["serverInfo"]);
    }
    let a = &r["capabilities"];
    let enc = a["positionEncoding"].as_str().unwrap_or("utf-16").to_string();
    if enc != "utf-16" && !offered.is_some_and(|l| l.contains(&enc.as_str())) {
        no!("encoding: {enc} was not offered");
    }
    // a client does what it is told
    let sync = &a["textDocumentSync"];
    let (opens, change, saves, whole) = match sync {
        Value::Number(n) => (true, n.as_u64().unwrap(), false, false),
        Value::Object(_) => (
            sync["openClose"] == true,
            sync["change"].as_u64().unwrap_or(0),
            sync["save"] == true || sync["save"].is_object(),
            sync["save"]["includeText"] == true,
        ),
        _ => (false, 0, false, false),
    };
    let kinds: Option<Vec<String>> = a["codeActionProvider"]["codeActionKinds"].as_array().map(|l| l.iter().map(|k| k.as_str().unwrap_or("?").to_string()).collect());
    let actions = a["codeActionProvider"] == true || a["codeActionProvider"].is_object();
    s.notify("initialized", json!({}));

    let mut told_config = false;
    let mut told_hidden = false;
    let mut open: BTreeMap<PathBuf, (String, i32)> = BTreeMap::new();
    let mut stats: BTreeMap<&str, u64> = BTreeMap::new();
    let messages = |l: &[Value]| -> Vec<(i64, String)> {
        l.iter().filter(|m| m["method"] == "window/showMessage").map(|m| (m["params"]["type"].as_i64().unwrap_or(0), m["params"]["message"].as_str().unwrap_or("?").to_string())).collect()
    };
    let steps = rng.range(4, 10);
    for step in 0..steps {
        let (path, place) = rng.pick(&docs).clone();
        let u = uri(&path);
        let (conf_dir, c) = nearest(&path);
        let disk = std::fs::read_to_string(&path).unwrap();
        if !open.contains_key(&path) {
            log.push(format!("open {}", path.strip_prefix(&root).unwrap().display()));
            if opens {
                s.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "r", "version": step, "text": disk}}));
            }
            open.insert(path.clone(), (disk, step as i32));
            let (_, got) = ok!(s.request("jarl/nothing", json!({})));
            let got = messages(&got);
            let mut want = vec![];
            if let (Some(d), Conf::Good { .. }, false) = (&conf_dir, &c, told_config) {
                if d.canonicalize().unwrap() != cwd {
                    want.push((3, format!("Jarl uses the configuration from '{}'", d.join("jarl.toml").display())));
                    told_config = true;
                    *stats.entry("configurations told").or_default() += 1;
                }
            }
            if got != want {
                no!("configuration: told {got:?}, expected {want:?}");
            }
            continue;
        }
        match rng.below(8) {
            0 => {
                log.push(format!("close {}", path.strip_prefix(&root).unwrap().display()));
                open.remove(&path);
                if opens {
                    s.notify("textDocument/didClose", json!({"textDocument": {"uri": u}}));
                    let (m, got) = ok!(s.until(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["uri"] == u));
                    if m["params"]["diagnostics"] != json!([]) {
                        no!("close: {m}");
                    }
                    if !messages(&got).is_empty() {
                        no!("message: {got:?} when a document is closed");
                    }
                }
                continue;
            }
            // a change, as it is asked for, which is then saved
            1 | 2 if place.is_some() => {
                let (i, f) = place.clone().unwrap();
                names += 1;
                let (name, kind) = (format!("fn_{names}_y"), rng.pick(&[F::Unused, F::Used]).clone());
                let old = open[&path].0.clone();
                pkgs[i].files.get_mut(&f).unwrap().push((name, kind));
                let new = pkgs[i].text(&f);
                let lines = old.matches('\n').count();
                let v = open[&path].1 + 1;
                match change {
                    2 => s.notify(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": u, "version": v}, "contentChanges": [{"range": {"start": {"line": lines, "character": 0}, "end": {"line": lines, "character": 0}}, "text": &new[old.len()..]}]}),
                    ),
                    1 => s.notify("textDocument/didChange", json!({"textDocument": {"uri": u, "version": v}, "contentChanges": [{"text": new}]})),
                    _ => {}
                }
                std::fs::write(&path, &new).unwrap();
                log.push(format!("change {}", path.strip_prefix(&root).unwrap().display()));
                open.insert(path.clone(), (new, v));
            }
            _ => {}
        }
        if actions && rng.chance(1, 3) {
            let (m, got) = ok!(s.request("textDocument/codeAction", json!({"textDocument": {"uri": u}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 9, "character": 0}}, "context": {"diagnostics": []}})));
            let Some(list) = m["result"].as_array() else { no!("actions: {m}") };
            if !messages(&got).is_empty() {
                no!("message: {got:?} when code actions are asked for");
            }
            for x in list {
                let k = x["kind"].as_str().unwrap_or("");
                if kinds.as_ref().is_some_and(|l| !l.iter().any(|p| k == p || k.starts_with(&format!("{p}.")) || p.is_empty())) {
                    no!("actions: one of kind {k:?}, announced were {kinds:?}");
                }
                *stats.entry("actions").or_default() += 1;
            }
            // later requests only once everything is resolved
            if !list.is_empty() && list.iter().any(|x| x["edit"].is_null() && x["command"].is_null()) && a["codeActionProvider"]["resolveProvider"] != true {
                no!("actions: {list:?} without an edit");
            }
        }
        log.push(format!("save {}", path.strip_prefix(&root).unwrap().display()));
        if !saves {
            no!("save: documents are only linted when saved, but the client is not asked to tell");
        }
        let mut params = json!({"textDocument": {"uri": u}});
        if whole {
            params["text"] = json!(open[&path].0);
        }
        s.notify("textDocument/didSave", params);
        let (m, got) = ok!(s.until(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["uri"] == u));
        let ds = m["params"]["diagnostics"].as_array().cloned().unwrap_or_default();
        let of = |rule: &str| ds.iter().filter(|d| d["data"]["rule_name"] == rule).count();
        let (mut hidden, mut shown) = (0, 0);
        if let Some((i, f)) = &place {
            let (total, here) = (pkgs[*i].total(), pkgs[*i].unused(f));
            match &c {
                Conf::Good { named: true, .. } => shown = here,
                Conf::Good { named: false, threshold, .. } if total > threshold.unwrap_or(50) => hidden = total,
                Conf::Good { .. } => shown = here,
                // not a default rule
                _ => {}
            }
        }
        let mut want = vec![];
        if hidden > 0 && !told_hidden {
            told_hidden = true;
            want.push((3, format!("{hidden} `unused_function` diagnostic{} hidden", if hidden == 1 { "" } else { "s" })));
            *stats.entry("hidden diagnostics told").or_default() += 1;
        }
        let got: Vec<_> = messages(&got).into_iter().map(|(t, m)| (t, m.split(" (").next().unwrap().to_string())).collect();
        if got != want {
            no!("hidden: told {got:?}, expected {want:?}");
        }
        if of("unused_function") != shown {
            no!("hidden: {} diagnostics of unused_function shown in {}, expected {shown}", of("unused_function"), path.strip_prefix(&root).unwrap().display());
        }
        let is_broken = matches!(c, Conf::Broken(_));
        if of("any_is_na") != usize::from(!is_broken) {
            no!("rules: {} diagnostics of any_is_na shown in {}", of("any_is_na"), path.strip_prefix(&root).unwrap().display());
        }
        if let Some(d) = ds.iter().find(|d| d["data"]["rule_name"] == "any_is_na") {
            let lead = place.as_ref().map_or("", |p| pkgs[p.0].lead);
            let line = lead.rsplit('\n').next().unwrap();
            let at = json!({"line": lead.matches('\n').count(), "character": units(line, &enc)});
            let end = json!({"line": lead.matches('\n').count(), "character": units(line, &enc) + "any(is.na(x))".len()});
            if d["range"]["start"] != at || d["range"]["end"] != end {
                no!("encoding: range {} in {enc}, expected {at} to {end}", d["range"]);
            }
        }
        if m["params"]["version"] != open[&path].1 {
            no!("version: published for version {}, saved was {}", m["params"]["version"], open[&path].1);
        }
        *stats.entry("saves").or_default() += 1;
        if hidden > 0 {
            *stats.entry("saves with hidden diagnostics").or_default() += 1;
        }
    }
    // what is announced is there, and it answers the rest as the protocol says
    let some = open.keys().next().map(|p| uri(p)).unwrap_or_else(|| "untitled:Untitled-1".into());
    for (cap, method) in PROMISES {
        let promised = !a[*cap].is_null() && a[*cap] != false;
        if !promised && !rng.chance(1, 4) {
            continue;
        }
        let (m, got) = ok!(s.request(
            method,
            json!({"textDocument": {"uri": some}, "position": {"line": 0, "character": 0}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}}, "context": {"diagnostics": [], "includeDeclaration": true}, "query": "", "newName": "x", "command": "x", "ch": "x", "options": {"tabSize": 2, "insertSpaces": true}})
        ));
        let unknown = m["error"]["code"] == -32601;
        if promised && unknown {
            no!("promise: {cap} is announced, but {method} is not known");
        }
        if !promised && !unknown {
            no!("promise: {cap} is not announced, but {method} is answered: {m}");
        }
        if !messages(&got).is_empty() {
            no!("message: {got:?} after {method}");
        }
        *stats.entry(if promised { "announced requests" } else { "other requests" }).or_default() += 1;
    }
    let rest = match s.stop() {
        Ok(l) => l,
        Err(e) => return Err(replay(e, &log)),
    };
    if !messages(&rest).is_empty() {
        no!("message: {rest:?} at the end");
    }
    let told = told_config || told_hidden;
    for (k, n) in stats {
        ctx.bump(k, n);
    }
    let seen: BTreeSet<&String> = log.iter().collect();
    ctx.count(&format!("session in {enc}"), &(format!("{pkgs:?}"), format!("{confs:?}{user:?}"), seen, at), told);
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a session by its projects, configurations and operations; nontrivial if a message was due".into();
    let o = Command::new(sut::jarl_bin()).arg("--version").output().expect("the jarl binary runs");
    let version = String::from_utf8_lossy(&o.stdout).trim().rsplit(' ').next().unwrap_or("").to_string();
    let mut rng = ctx.rng.fork();
    let mut seen = BTreeSet::new();
    while ctx.time_left(1.0) {
        let mut r = rng.fork();
        ctx.case("session");
        if let Err((e, replay)) = session(&mut r, ctx, &version) {
            let kind = e.split(':').next().unwrap().to_string();
            if seen.insert(kind.clone()) {
                ctx.fail(&kind, kit::clip(&e, 6000), replay);
            } else {
                ctx.bump("repeated", 1);
            }
        }
    }
}
