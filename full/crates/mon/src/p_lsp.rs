//! C33, C34: the language server.

use crate::r#gen::Gen;
use crate::{p_files, p_pkg, sut, tree};
use jarl_core::config::{ArgsConfig, Config};
use jarl_core::diagnostic::Diagnostic;
use kit::{Ctx, Rng};
use lsp_server::{Connection, Message, Notification, Request};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(25);

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Enc {
    Utf8,
    Utf16,
}

/// The client's side of a session.
struct Session {
    to: Option<crossbeam::channel::Sender<Message>>,
    from: crossbeam::channel::Receiver<Message>,
    server: Option<std::thread::JoinHandle<Result<(), String>>>,
    enc: Enc,
    next_id: i32,
    inbox: Vec<Message>,
}

impl Session {
    fn start(workers: usize, offered: Option<&[&str]>) -> Result<Session, String> {
        let (there, conn) = Connection::memory();
        let server = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || jarl_lsp::Server::new(workers.try_into().unwrap(), there).and_then(|s| s.run()).map_err(|e| format!("{e:#}")))
            .unwrap();
        let mut s = Session { to: Some(conn.sender), from: conn.receiver, server: Some(server), enc: Enc::Utf16, next_id: 0, inbox: vec![] };
        let caps = match offered {
            Some(l) => json!({"general": {"positionEncodings": l}}),
            None => json!({}),
        };
        let r = s.request("initialize", json!({"processId": null, "rootUri": null, "capabilities": caps}))?;
        let got = r["result"]["capabilities"]["positionEncoding"].as_str().unwrap_or("utf-16").to_string();
        if got != "utf-16" && !offered.is_some_and(|l| l.contains(&got.as_str())) {
            return Err(format!("encoding: {got} was not offered"));
        }
        s.enc = match got.as_str() {
            "utf-8" => Enc::Utf8,
            "utf-16" => Enc::Utf16,
            e => return Err(format!("encoding: {e}")),
        };
        s.notify("initialized", json!({}));
        Ok(s)
    }
    fn send(&mut self, m: Message) {
        if let Some(to) = &self.to {
            let _ = to.send(m);
        }
    }
    fn notify(&mut self, method: &str, params: Value) {
        self.send(Message::Notification(Notification { method: method.into(), params }));
    }
    fn ask(&mut self, method: &str, params: Value) -> Value {
        self.next_id += 1;
        // identifiers are numbers or strings
        let id: Value = if self.next_id % 3 == 0 { json!(format!("r{}", self.next_id)) } else { json!(self.next_id) };
        self.send(Message::Request(Request { id: serde_json::from_value(id.clone()).unwrap(), method: method.into(), params }));
        id
    }
    fn recv(&mut self) -> Result<Message, String> {
        self.from.recv_timeout(PATIENCE).map_err(|e| match e {
            crossbeam::channel::RecvTimeoutError::Timeout => "silent: nothing for long".to_string(),
            crossbeam::channel::RecvTimeoutError::Disconnected => "gone: the server has ended".to_string(),
        })
    }
    /// Sends a request and waits for its response; the rest stays in the inbox.
    fn request(&mut self, method: &str, params: Value) -> Result<Value, String> {
        let id = self.ask(method, params);
        loop {
            let m = self.recv()?;
            if let Message::Response(r) = &m {
                let v = serde_json::to_value(r).unwrap();
                if v["id"] == id {
                    return Ok(v);
                }
            }
            self.inbox.push(m);
        }
    }
    /// Waits for what is published about this document.
    fn published(&mut self, uri: &str) -> Result<Value, String> {
        loop {
            let m = self.recv()?;
            if let Message::Notification(n) = &m {
                if n.method == "textDocument/publishDiagnostics" && n.params["uri"] == uri {
                    return Ok(n.params.clone());
                }
            }
            self.inbox.push(m);
        }
    }
    /// Ends the session; everything that came, in order.
    fn stop(mut self) -> Result<Vec<Message>, String> {
        let id = self.ask("shutdown", Value::Null);
        let t = Instant::now();
        let mut all = std::mem::take(&mut self.inbox);
        let mut down = 0;
        loop {
            match self.from.recv_timeout(PATIENCE) {
                Ok(m) => {
                    if let Message::Response(r) = &m {
                        let v = serde_json::to_value(r).unwrap();
                        if v["id"] == id {
                            down += 1;
                            // as if the client was gone
                            self.to = None;
                            if !v["error"].is_null() {
                                return Err(format!("shutdown: {v}"));
                            }
                            continue;
                        }
                    }
                    all.push(m);
                }
                Err(crossbeam::channel::RecvTimeoutError::Disconnected) => break,
                Err(_) => return Err("silent: the server does not end".into()),
            }
            if t.elapsed() > 3 * PATIENCE {
                return Err("silent: the server does not end".into());
            }
        }
        match self.server.take().unwrap().join() {
            Ok(Ok(())) if down == 1 => Ok(all),
            Ok(Ok(())) => Err(format!("shutdown: {down} responses")),
            Ok(Err(e)) => Err(format!("server: {e}")),
            Err(_) => Err("server: it panicked".into()),
        }
    }
}

/// Line and character of an offset.
fn pos(text: &str, at: usize, enc: Enc) -> Value {
    let line = text[..at].matches('\n').count();
    let start = text[..at].rfind('\n').map_or(0, |i| i + 1);
    let ch = match enc {
        Enc::Utf8 => at - start,
        Enc::Utf16 => text[start..at].encode_utf16().count(),
    };
    json!({"line": line, "character": ch})
}

/// The offset of a position that was sent to us.
fn offset(text: &str, p: &Value, enc: Enc) -> Option<usize> {
    let (line, ch) = (p["line"].as_u64()? as usize, p["character"].as_u64()? as usize);
    let start = match line {
        0 => 0,
        n => text.match_indices('\n').nth(n - 1)?.0 + 1,
    };
    let end = text[start..].find('\n').map_or(text.len(), |i| start + i);
    let line = &text[start..end];
    let mut units = 0;
    for (i, c) in line.char_indices() {
        if units == ch {
            return Some(start + i);
        }
        units += match enc {
            Enc::Utf8 => c.len_utf8(),
            Enc::Utf16 => c.len_utf16(),
        };
    }
    (units == ch).then_some(end)
}

type Shown = Vec<String>;

fn one(text: &str, d: &Diagnostic, enc: Enc) -> String {
    let (s, e) = sut::range(d);
    let m = match &d.message.suggestion {
        Some(x) => format!("{} {x}", d.message.body),
        None => d.message.body.clone(),
    };
    let (a, b) = (pos(text, s, enc), pos(text, e, enc));
    format!("{}:{}-{}:{} {} {m} [Jarl, 2]", a["line"], a["character"], b["line"], b["character"], d.message.name)
}

fn shown(v: &Value) -> Shown {
    let mut out: Shown = v["diagnostics"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|d| {
            let (a, b) = (&d["range"]["start"], &d["range"]["end"]);
            format!(
                "{}:{}-{}:{} {} {} [{}, {}]",
                a["line"], a["character"], b["line"], b["character"],
                d["data"]["rule_name"].as_str().unwrap_or("?"),
                d["message"].as_str().unwrap_or("?"),
                d["source"].as_str().unwrap_or("?"),
                d["severity"]
            )
        })
        .collect();
    out.sort();
    out
}

fn plain() -> ArgsConfig {
    ArgsConfig { min_r_version: None, ..sut::args() }
}

/// The configuration `jarl.toml` stands for.
fn config_of(dir: &Path) -> Config {
    let f = dir.join("jarl.toml");
    let s = f.exists().then(|| jarl_core::toml::parse_jarl_toml(&f).expect("our jarl.toml").into_settings(dir).expect("our jarl.toml"));
    sut::config_with(&plain(), s.as_ref())
}

fn expected(text: &str, name: &str, cfg: &Config, enc: Enc) -> Option<Shown> {
    let mut v: Shown = match kit::guard(|| jarl_core::check::get_checks(text, Path::new(name), cfg, &Default::default())) {
        Ok(Ok(d)) => d.iter().map(|d| one(text, d, enc)).collect(),
        // cannot be parsed: nothing to show
        Ok(Err(_)) => vec![],
        // another property's business
        Err(_) => return None,
    };
    v.sort();
    Some(v)
}

fn uri(p: &Path) -> String {
    let mut u = String::from("file://");
    for b in p.to_str().unwrap().bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'/' | b'.' | b'-' | b'_' | b'~' => u.push(b as char),
            b => u.push_str(&format!("%{b:02X}")),
        }
    }
    u
}

/// An edit of a text: range and new text, and the result.
fn edit(rng: &mut Rng, text: &str, enc: Enc, piece: &str) -> (Value, String) {
    let mut cuts: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
    // not between the two characters of a line end
    cuts.retain(|&i| !(i > 0 && text.as_bytes()[i - 1] == b'\r' && text[i..].starts_with('\n')));
    let lines: Vec<usize> = cuts.iter().copied().filter(|&i| i == 0 || text[..i].ends_with('\n')).collect();
    let (mut a, mut b) = match rng.below(3) {
        0 => (*rng.pick(&cuts), *rng.pick(&cuts)),
        // whole lines
        1 => (*rng.pick(&lines), *rng.pick(&lines)),
        _ => {
            let l = *rng.pick(&lines);
            (l, l)
        }
    };
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    if b - a > 200 && rng.chance(2, 3) {
        b = a;
    }
    let new = format!("{}{piece}{}", &text[..a], &text[b..]);
    (json!({"range": {"start": pos(text, a, enc), "end": pos(text, b, enc)}, "text": piece}), new)
}

// ---------------------------------------------------------------------------------------------
// C33

#[derive(Clone, Debug)]
enum Ev {
    Save(i32, String),
    Close,
}

#[derive(Default)]
struct Doc {
    uri: String,
    name: String,
    open: Option<(String, i32)>,
    events: Vec<Ev>,
}

/// Whether what was published about a document is right, given what happened to it.
fn explain(doc: &Doc, got: &[Value], cfg: &Config, enc: Enc, memo: &mut HashMap<String, Option<Shown>>) -> Result<usize, String> {
    let mut at = 0;
    let mut outdated = 0;
    let file = doc.uri.starts_with("file:");
    for (k, p) in got.iter().enumerate() {
        let version = p["version"].as_i64();
        let diags = shown(p);
        let from = at;
        loop {
            match doc.events.get(at) {
                None => {
                    let near = doc.events[..from].iter().any(|e| matches!(e, Ev::Save(v, _) if Some(*v as i64) == version));
                    let kind = if near { "outdated" } else { "unexplained" };
                    return Err(format!("{kind}: {} publication {k} of {}: version {version:?} with {} diagnostics, after {:?}", doc.name, got.len(), diags.len(), names(&doc.events[..from])));
                }
                Some(Ev::Close) => {
                    if version.is_none() && diags.is_empty() {
                        at += 1;
                        break;
                    }
                    let later = doc.events[at..].iter().any(|e| matches!(e, Ev::Save(v, _) if Some(*v as i64) == version));
                    if !later || got[k..].iter().filter(|g| g["version"].is_null()).count() >= doc.events[at..].iter().filter(|e| matches!(e, Ev::Close)).count() {
                        return Err(format!("outdated: {}: version {version:?} published with {} diagnostics where only the close can be", doc.name, diags.len()));
                    }
                    return Err(format!("unexplained: {}: no publication for a close", doc.name));
                }
                Some(Ev::Save(v, text)) => {
                    if Some(*v as i64) == version {
                        let want = match file {
                            true => memo.entry(format!("{}\0{text}", doc.name)).or_insert_with(|| expected(text, &doc.name, cfg, enc)).clone(),
                            false => Some(vec![]),
                        };
                        match want {
                            Some(w) if w != diags => {
                                let miss: Vec<_> = w.iter().filter(|x| !diags.contains(x)).take(3).collect();
                                let extra: Vec<_> = diags.iter().filter(|x| !w.contains(x)).take(3).collect();
                                return Err(format!("wrong: {} version {v}: missing {miss:?}, not expected {extra:?}\n--- text\n{text}", doc.name));
                            }
                            _ => {}
                        }
                        // the same save may be published again, so stay here
                        break;
                    }
                    outdated += 1;
                    at += 1;
                }
            }
        }
    }
    // whatever is left must not be needed any more
    match doc.events.last() {
        None => {}
        Some(Ev::Close) => {
            if at != doc.events.len() {
                return Err(format!("not cleared: {} was closed but what was published last is {:?}", doc.name, got.last().map(shown)));
            }
        }
        Some(Ev::Save(v, _)) => {
            if got.last().is_none_or(|p| p["version"].as_i64() != Some(*v as i64)) || at >= doc.events.len() {
                return Err(format!("missing: {} was saved as version {v} but what was published last is {:?}", doc.name, got.last().map(|p| (p["version"].as_i64(), shown(p)))));
            }
        }
    }
    Ok(outdated)
}

fn names(e: &[Ev]) -> Vec<String> {
    e.iter().map(|e| match e { Ev::Save(v, t) => format!("save {v} ({} bytes)", t.len()), Ev::Close => "close".into() }).collect()
}

struct Cfg {
    toml: Option<&'static str>,
}

const TOMLS: &[Cfg] = &[
    Cfg { toml: None },
    Cfg { toml: Some("[lint]\nselect = [\"ALL\"]\ndefault-exclude = false\n") },
    Cfg { toml: Some("[lint]\nselect = [\"ALL\"]\n") },
    Cfg { toml: Some("[lint]\nselect = [\"PERF\", \"equals_na\"]\nignore = [\"any_duplicated\"]\n") },
    Cfg { toml: Some("[lint]\nselect = [\"READ\"]\n[lint.assignment]\noperator = \"=\"\n") },
];

fn text_of(rng: &mut Rng, g: &Gen, rmd: bool, big: bool) -> String {
    let n = if big { rng.range(10, 40) } else { 1 };
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(&match rmd {
            true => g.rmd(rng).0,
            false => g.program(rng),
        });
        if !t.ends_with('\n') {
            t.push('\n');
        }
    }
    if rng.chance(1, 3) {
        // the end of the text is the end of a line without a newline
        if rng.chance(2, 3) && !rmd {
            let last = match rng.below(3) {
                0 => "any(is.na(x))",
                1 => "x == NA",
                _ => g.snip(rng).text.as_str(),
            };
            t.push_str(&format!("f('{}'); {last}", rng.pick(&["é", "🌍", "a", "été 🌍🌍"])));
        }
        while t.ends_with('\n') {
            t.pop();
        }
    }
    match rng.below(10) {
        0 => String::new(),
        // cannot be parsed
        1 if !rmd => t + "f(x\n",
        _ => t,
    }
}

/// A busy session: several documents, several workers, and no waiting.
fn busy(rng: &mut Rng, g: &Gen, ctx: &mut Ctx) -> Result<(), (String, Value)> {
    let dir = sut::scratch();
    let top = dir.path().canonicalize().unwrap();
    let t = rng.pick(TOMLS);
    if let Some(t) = t.toml {
        std::fs::write(top.join("jarl.toml"), t).unwrap();
    }
    std::fs::create_dir_all(top.join("sub")).unwrap();
    let cfg = config_of(&top);
    let workers = rng.range(1, 4);
    let offered: Option<&[&str]> = *rng.pick(&[None, Some(&["utf-8"][..]), Some(&["utf-16", "utf-8"][..]), Some(&["utf-16"][..]), Some(&["utf-32", "utf-16"][..]), Some(&["utf-32"][..])]);
    let fail = |e: String, log: &[String]| (e, json!({"workers": workers, "encodings": offered, "jarl.toml": t.toml, "history": log}));
    let mut log: Vec<String> = vec![];
    let mut s = Session::start(workers, offered).map_err(|e| fail(e, &[]))?;
    let enc = s.enc;
    let mut docs: Vec<Doc> = ["a.R", "été b.r", "sub/c.R", "d.Rmd", "sub/e.qmd", "notes.txt.R", "?"][..]
        .iter()
        .filter(|_| rng.chance(1, 2))
        .map(|n| match *n {
            "?" => Doc { uri: "untitled:Untitled-1".into(), name: "untitled".into(), ..Default::default() },
            n => Doc { uri: uri(&top.join(n)), name: n.into(), ..Default::default() },
        })
        .collect();
    if docs.is_empty() {
        docs.push(Doc { uri: uri(&top.join("a.R")), name: "a.R".into(), ..Default::default() });
    }
    let mut asked: Vec<(Value, bool)> = vec![];
    let n_ops = rng.range(6, 40);
    for _ in 0..n_ops {
        let i = rng.below(docs.len());
        let d = &mut docs[i];
        let rmd = d.name.ends_with("md");
        let id = json!({"uri": d.uri});
        match rng.below(20) {
            0..=3 if d.open.is_none() => {
                let big = rng.chance(1, 3);
                let text = text_of(rng, g, rmd, big);
                let v = rng.range(0, 3) as i32;
                s.notify("textDocument/didOpen", json!({"textDocument": {"uri": d.uri, "languageId": "r", "version": v, "text": text}}));
                log.push(format!("open {} as version {v}: {text:?}", d.name));
                d.open = Some((text, v));
            }
            0..=7 => {
                let Some((text, v)) = d.open.clone() else {
                    // nobody knows this document
                    s.notify("textDocument/didChange", json!({"textDocument": {"uri": d.uri, "version": 5}, "contentChanges": [{"text": "any(is.na(x))"}]}));
                    log.push(format!("change {} (not open)", d.name));
                    continue;
                };
                let v = v + rng.range(1, 3) as i32;
                let mut changes = vec![];
                let mut now = text;
                for _ in 0..rng.range(1, 3) {
                    if rng.chance(1, 3) {
                        let big = rng.chance(1, 3);
                        now = text_of(rng, g, rmd, big);
                        changes.push(json!({"text": now}));
                    } else {
                        let piece = match rng.below(5) {
                            0 => String::new(),
                            1 => "🌍é".into(),
                            2 => g.program(rng),
                            3 => "any(is.na(x))\n".into(),
                            _ => "x\n".into(),
                        };
                        let (c, t) = edit(rng, &now, enc, &piece);
                        changes.push(c);
                        now = t;
                    }
                }
                log.push(format!("change {} to version {v}: {now:?}", d.name));
                s.notify("textDocument/didChange", json!({"textDocument": {"uri": d.uri, "version": v}, "contentChanges": changes}));
                d.open = Some((now, v));
            }
            8..=13 => {
                s.notify("textDocument/didSave", json!({"textDocument": id}));
                log.push(format!("save {}", d.name));
                if let Some((text, v)) = &d.open {
                    let again = matches!(d.events.last(), Some(Ev::Save(w, _)) if w == v);
                    if !again {
                        d.events.push(Ev::Save(*v, text.clone()));
                    }
                }
            }
            14 | 15 => {
                s.notify("textDocument/didClose", json!({"textDocument": id}));
                log.push(format!("close {}", d.name));
                if d.open.take().is_some() {
                    d.events.push(Ev::Close);
                }
            }
            16 => {
                let open = d.open.is_some();
                let id = s.ask("textDocument/codeAction", json!({"textDocument": id, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 3, "character": 0}}, "context": {"diagnostics": []}}));
                log.push(format!("actions for {}", d.name));
                asked.push((id, open));
            }
            17 => match rng.below(6) {
                0 => s.notify("$/cancelRequest", json!({"id": 1})),
                1 => s.notify("textDocument/didSave", json!({"nothing": true})),
                2 => s.notify("textDocument/didOpen", Value::Null),
                3 => s.notify("no/such", json!([1, 2])),
                4 => {
                    let id = s.ask("textDocument/hover", json!({"textDocument": id, "position": {"line": 0, "character": 0}}));
                    asked.push((id, false));
                }
                _ => {
                    let id = s.ask("textDocument/diagnostic", json!({"textDocument": id}));
                    asked.push((id, false));
                }
            },
            18 => std::thread::sleep(Duration::from_micros(rng.below(8000) as u64)),
            _ => {
                // save, change, save at once
                let Some((_, v)) = d.open.clone() else { continue };
                let big = text_of(rng, g, rmd, true);
                let small = text_of(rng, g, rmd, false);
                for (k, t) in [(1, big), (2, small)] {
                    s.notify("textDocument/didChange", json!({"textDocument": {"uri": d.uri, "version": v + k}, "contentChanges": [{"text": t}]}));
                    s.notify("textDocument/didSave", json!({"textDocument": id}));
                    log.push(format!("change {} to version {} and save: {t:?}", d.name, v + k));
                    d.events.push(Ev::Save(v + k, t.clone()));
                    d.open = Some((t, v + k));
                }
            }
        }
    }
    let all = s.stop().map_err(|e| fail(e, &log))?;
    // responses: one for each request
    let mut answers: BTreeMap<String, Vec<bool>> = BTreeMap::new();
    let mut by: HashMap<String, Vec<Value>> = HashMap::new();
    for m in all {
        match m {
            Message::Response(r) => {
                let v = serde_json::to_value(&r).unwrap();
                answers.entry(v["id"].to_string()).or_default().push(v["error"].is_null());
            }
            Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => {
                by.entry(n.params["uri"].as_str().unwrap_or("?").to_string()).or_default().push(n.params);
            }
            Message::Notification(n) if n.method == "window/showMessage" => ctx.bump("messages shown", 1),
            m => return Err(fail(format!("unexpected: {m:?}"), &log)),
        }
    }
    for (id, good) in &asked {
        let a = answers.remove(&id.to_string()).unwrap_or_default();
        if a != [*good] {
            return Err(fail(format!("responses: {} to a request (successful: {a:?}, expected {good})", a.len()), &log));
        }
    }
    let mut memo = HashMap::new();
    for d in &docs {
        let got = by.remove(&d.uri).unwrap_or_default();
        match explain(d, &got, &cfg, enc, &mut memo) {
            Ok(n) => {
                ctx.bump("publications checked", got.len() as u64);
                ctx.bump("saves replaced by later ones before they were published", n as u64);
            }
            Err(e) => return Err(fail(format!("{e}\nhappened: {:?}\npublished: {:?}", names(&d.events), got.iter().map(|p| (p["version"].as_i64(), shown(p).len())).collect::<Vec<_>>()), &log)),
        }
        ctx.bump("saves", d.events.iter().filter(|e| matches!(e, Ev::Save(..))).count() as u64);
    }
    if let Some(u) = by.keys().next() {
        return Err(fail(format!("unexplained: something was published about {u}"), &log));
    }
    let kinds: Vec<u8> = log.iter().map(|l| l.as_bytes()[0]).collect();
    ctx.count(&format!("busy session, {workers} workers"), &(kinds, log.iter().map(|l| l.len()).collect::<Vec<_>>()), docs.iter().any(|d| d.events.len() > 1));
    Ok(())
}

/// Files of a project with configurations: each is opened and saved.
fn project(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), (String, Value)> {
    let mut p = p_files::case(rng);
    p.user = None;
    p.git = None;
    p.gitignore.clear();
    p.no_default = false;
    if rng.chance(3, 4) {
        let mut taken = BTreeSet::new();
        p.confs.insert("w/p".into(), p_files::conf(rng, &mut taken));
    }
    let dir = sut::scratch();
    let top = dir.path().canonicalize().unwrap();
    let replay = |e: String| (e, json!({"files": p.files, "configurations": format!("{:?}", p.confs)}));
    for f in &p.files {
        p_files::put(&top, f, p_files::content(f));
    }
    p_files::put_confs(&p, &top);
    let mut s = Session::start(rng.range(1, 3), Some(&["utf-8"])).map_err(replay)?;
    let mut files: Vec<&String> = p.files.iter().collect();
    rng.shuffle(&mut files);
    let mut done = 0;
    for f in files {
        let near = p.nearest(p_files::parent(f));
        let mut hidden = false;
        let mut at = f.as_str();
        let root = near.map_or("", |n| n.0);
        while at != root && !at.is_empty() {
            hidden |= p.excluded(at, at != f);
            at = p_files::parent(at);
        }
        // the default patterns without configuration: from where on is not told
        if near.is_none() && hidden {
            continue;
        }
        let ext = f.rsplit('/').next().unwrap().rsplit_once('.').map_or("", |x| x.1);
        if !matches!(ext, "R" | "r" | "Rmd" | "rmd" | "qmd" | "Qmd") {
            continue;
        }
        let broken = near.is_some_and(|n| n.1.broken);
        let want: BTreeSet<String> = match broken || hidden || !p.included(f) {
            true => BTreeSet::new(),
            false => p.rules(f).into_iter().map(|i| p_files::MARKS[i].0.to_string()).collect(),
        };
        let u = uri(&top.join(f));
        s.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "r", "version": 1, "text": p_files::content(f)}}));
        s.notify("textDocument/didSave", json!({"textDocument": {"uri": u}}));
        let got = s.published(&u).map_err(replay)?;
        let got: BTreeSet<String> = got["diagnostics"].as_array().into_iter().flatten().map(|d| d["data"]["rule_name"].as_str().unwrap_or("?").to_string()).collect();
        if got != want {
            let kind = if want.is_empty() { "shown although excluded" } else if got.is_empty() { "not shown" } else { "other settings" };
            return Err(replay(format!("{kind}: {f}: expected {want:?}, published {got:?}")));
        }
        done += 1;
        ctx.count(if want.is_empty() { "excluded file" } else { "file of a project" }, &(f, format!("{near:?}")), true);
        if done == 12 {
            break;
        }
    }
    s.stop().map_err(replay)?;
    Ok(())
}

/// A file of a package, whose content may differ from what is on disk.
fn package(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), (String, Value)> {
    let p = {
        let mut p = p_pkg::case(rng);
        p.threshold = None;
        p.fix = false;
        p.cwd = String::new();
        p.args = vec![".".into()];
        p.select = rng.pick(&["[\"ALL\"]", "[\"unused_function\", \"duplicated_function_definition\", \"any_is_na\"]"]).to_string();
        if rng.chance(1, 2) {
            p.pkgs.truncate(1);
            p.exclude.truncate(1);
            p.select = "[\"ALL\"]".into();
            let tmp = sut::scratch();
            let top = tmp.path().canonicalize().unwrap();
            p_pkg::write(&p, &top);
            let unused = p.expected(&top).1;
            let n = unused.len();
            p.threshold = Some(*rng.pick(&[n, n, n.saturating_sub(1), n + 1]));
        }
        p
    };
    let dir = sut::scratch();
    let top = dir.path().canonicalize().unwrap();
    let other = sut::scratch();
    let copy = other.path().canonicalize().unwrap();
    p_pkg::write(&p, &top);
    p_pkg::write(&p, &copy);
    let files: Vec<String> = p.pkgs[0].files.keys().filter(|f| f.starts_with("R/") && f.matches('/').count() == 1 && !f.contains("latin1") && p.linted(&format!("{}/{f}", p.pkgs[0].dir))).cloned().collect();
    let Some(f) = (!files.is_empty()).then(|| rng.pick(&files).clone()) else { return Ok(()) };
    let old = p.pkgs[0].text(&f);
    let full = format!("{}/{f}", p.pkgs[0].dir);
    // unsaved changes
    let text = match rng.below(6) {
        _ if p.threshold.is_some() => old.clone(),
        0 => old.clone(),
        1 => format!("# été 🌍\n\ny\n{old}"),
        2 => old.lines().skip(1).map(|l| format!("{l}\n")).collect(),
        3 => format!("{old}alpha <- function(x) NULL\n"),
        4 => old.chars().take(old.chars().count() / 2).collect(),
        _ => String::new(),
    };
    std::fs::write(copy.join(&full), &text).unwrap();
    let replay = |e: String| (e, json!({"project": p_pkg::show(&p), "file": f, "content": text}));
    let o = std::process::Command::new(sut::jarl_bin()).args(["check", ".", "--output-format", "json"]).current_dir(&copy).env("NO_COLOR", "1").stdin(std::process::Stdio::null()).output().expect("the jarl binary runs");
    let all: Value = match serde_json::from_slice(&o.stdout) {
        Ok(v) => v,
        Err(_) => return Err(replay(format!("output: {}", String::from_utf8_lossy(&o.stdout)))),
    };
    let mut want: Shown = all["diagnostics"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|d| d["filename"].as_str().is_some_and(|n| n == full))
        .map(|d| {
            let (a, b) = (d["range"][0].as_u64().unwrap() as usize, d["range"][1].as_u64().unwrap() as usize);
            let (a, b) = (pos(&text, a, Enc::Utf8), pos(&text, b, Enc::Utf8));
            let m = d["message"]["body"].as_str().unwrap().to_string() + &d["message"]["suggestion"].as_str().map_or(String::new(), |s| format!(" {s}"));
            format!("{}:{}-{}:{} {} {m} [Jarl, 2]", a["line"], a["character"], b["line"], b["character"], d["message"]["name"].as_str().unwrap())
        })
        .collect();
    want.sort();
    let u = uri(&top.join(&full));
    let mut s = Session::start(1, Some(&["utf-8"])).map_err(replay)?;
    s.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "r", "version": 1, "text": text}}));
    s.notify("textDocument/didSave", json!({"textDocument": {"uri": u}}));
    let got = s.published(&u).map_err(replay)?;
    let got: Shown = shown(&got).iter().map(|m| m.replace(&format!("{}/", top.display()), "")).collect();
    s.stop().map_err(replay)?;
    if got != want {
        let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).collect();
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(3).collect();
        return Err(replay(format!("package: {f}: missing {miss:?}, not expected {extra:?}")));
    }
    let n = want.iter().filter(|w| w.contains(" unused_function ") || w.contains(" duplicated_function_definition ")).count();
    ctx.count(if old == text { "file of a package" } else { "changed file of a package" }, &(&text, format!("{p:?}")), n > 0);
    Ok(())
}

pub fn run_c33(ctx: &mut Ctx) {
    ctx.rule = "a session with more than one save or close of a document, by its operations; a file of a project by its configuration; a file of a package with diagnostics about the package".into();
    let g = Gen::load();
    let mut rng = ctx.rng.fork();
    let mut seen = BTreeSet::new();
    while ctx.time_left(1.0) {
        let mut r = rng.fork();
        ctx.case("session");
        let out = match rng.below(10) {
            0..=5 => busy(&mut r, &g, ctx),
            6 | 7 => project(&mut r, ctx),
            _ => package(&mut r, ctx),
        };
        if let Err((e, replay)) = out {
            let kind = e.split(':').next().unwrap().to_string();
            if seen.insert(kind.clone()) {
                ctx.fail(&kind, kit::clip(&e, 6000), replay);
            } else {
                ctx.bump("repeated", 1);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C34

const SEVERAL: &str = "unreachable_code over several statements";

fn le(a: &Value, b: &Value) -> bool {
    let k = |v: &Value| (v["line"].as_u64(), v["character"].as_u64());
    k(a) <= k(b)
}

/// The text after the edits of an action, and where and what was inserted or replaced.
fn apply(a: &Value, u: &str, text: &str, enc: Enc) -> Result<(String, (usize, usize), String), String> {
    let changes = a["edit"]["changes"].as_object().ok_or("edit: none")?;
    let edits = match changes.iter().collect::<Vec<_>>()[..] {
        [(k, e)] if k == u => e.as_array().ok_or("edit: none")?,
        _ => return Err(format!("edit: of other documents: {changes:?}")),
    };
    let [e] = &edits[..] else { return Err(format!("edit: {} edits", edits.len())) };
    let at = |p: &Value| offset(text, p, enc).ok_or(format!("edit: position {p} is not in the text"));
    let (s, t) = (at(&e["range"]["start"])?, at(&e["range"]["end"])?);
    if s > t {
        return Err("edit: its end is before its start".into());
    }
    let new = e["newText"].as_str().ok_or("edit: no text")?;
    Ok((format!("{}{new}{}", &text[..s], &text[t..]), (s, t), new.into()))
}

fn raw(d: &Diagnostic) -> (usize, usize, String) {
    let (s, e) = sut::range(d);
    (s, e, d.message.name.clone())
}

/// What is wrong with the response to a request for actions.
fn judge_actions(text: &str, name: &str, u: &str, enc: Enc, cfg: &Config, range: &Value, list: &[Value], stats: &mut BTreeMap<&'static str, u64>) -> Result<(), String> {
    let Ok(Ok(diags)) = kit::guard(|| jarl_core::check::get_checks(text, Path::new(name), cfg, &Default::default())) else {
        return if list.is_empty() { Ok(()) } else { Err("unexpected: actions for what cannot be parsed".into()) };
    };
    let md = name.ends_with("md");
    let chunks = if md { jarl_core::rmd::extract_r_chunks(text) } else { vec![] };
    let mut left: Vec<&Value> = list.iter().collect();
    for d in &diags {
        let (ds, de) = sut::range(d);
        let (a, b) = (pos(text, ds, enc), pos(text, de, enc));
        let want = le(&a, &range["end"]) && le(&range["start"], &b);
        let key = one(text, d, enc);
        let mut take = |what: &dyn Fn(&str) -> bool| {
            let i = left.iter().position(|x| shown(x) == [key.clone()] && x["title"].as_str().is_some_and(what))?;
            Some(left.remove(i))
        };
        let fix = take(&|t| t.starts_with("Fix: "));
        let hush = take(&|t| t.starts_with("Suppress "));
        let chunk = take(&|t| t.contains("this chunk"));
        if !want {
            if let Some(x) = fix.or(hush).or(chunk) {
                return Err(format!("elsewhere: {} for {key}", x["title"]));
            }
            continue;
        }
        // 1. the fix
        match (fix, sut::has_fix(d)) {
            (None, false) => {}
            (Some(_), false) => return Err(format!("fix: offered where there is none: {key}")),
            (None, true) => return Err(format!("fix: not offered: {key}")),
            (Some(x), true) => {
                let (new, _, _) = apply(x, u, text, enc)?;
                let fixed = format!("{}{}{}", &text[..d.fix.start], d.fix.content, &text[d.fix.end..]);
                if new != fixed {
                    return Err(format!("fix: does something else: {key}\n--- result\n{new}\n--- expected\n{fixed}"));
                }
                let safe = d.has_safe_fix();
                let kind = if safe { "quickfix" } else { "quickfix.unsafe" };
                if x["kind"] != kind || x["isPreferred"] != safe {
                    return Err(format!("fix: told to be {} and preferred {} although safe is {safe}: {key}", x["kind"], x["isPreferred"]));
                }
                *stats.entry("fixes").or_default() += 1;
            }
        }
        // 2. comments, unless it is about comments
        if crate::p_supp::META.contains(&d.message.name.as_str()) {
            if let Some(x) = hush.or(chunk) {
                return Err(format!("suppress: offered for what no comment suppresses: {}", x["title"]));
            }
            *stats.entry("about comments").or_default() += 1;
            continue;
        }
        let known = crate::p_edit::spans_several(text, d);
        let mut comments: Vec<(&str, &Value)> = vec![];
        match hush {
            Some(x) => comments.push(("suppress", x)),
            None => return Err(format!("suppress: not offered: {key}")),
        }
        match (chunk, md) {
            (Some(x), true) => comments.push(("chunk", x)),
            (None, false) => {}
            (c, _) => return Err(format!("chunk: {}: {key}", if c.is_some() { "offered" } else { "not offered" })),
        }
        for (what, x) in comments {
            let (new, (s, t), ins) = apply(x, u, text, enc)?;
            let rule = &d.message.name;
            if s != t {
                return Err(format!("{what}: replaces text: {key}"));
            }
            let ours = |l: &str| l == format!("# jarl-ignore {rule}: <reason>") || (what == "chunk" && (l == "#| jarl-ignore-chunk:" || l == format!("#|   - {rule}: <reason>")));
            if !ins.lines().all(|l| l.trim().is_empty() || ours(l.trim())) {
                return Err(format!("{what}: inserts something else: {ins:?}"));
            }
            if !md {
                match (tree::parse(text), tree::parse(&new)) {
                    (Some(p), Some(q)) if p.same(&q) => {}
                    (_, None) => return Err(format!("{what}: the document does not parse any more: {key}\n{new}")),
                    _ => return Err(format!("{what}: the code means something else now: {key}\n{new}")),
                }
            }
            if known && what == "suppress" {
                *stats.entry("known").or_default() += 1;
                continue;
            }
            let after = match kit::guard(|| jarl_core::check::get_checks(&new, Path::new(name), cfg, &Default::default())) {
                Ok(Ok(v)) => v,
                _ => return Err(format!("{what}: cannot be linted any more: {key}\n{new}")),
            };
            let moved = |d: &Diagnostic| {
                let (a, b, n) = raw(d);
                let sh = |o: usize, edge: bool| if o > s || (o == s && edge) { o + ins.len() } else { o };
                (sh(a, true), sh(b, false), n)
            };
            let mut before: Vec<_> = diags.iter().map(|d| (moved(d), raw(d))).collect();
            let target = moved(d);
            for x in &after {
                let x = raw(x);
                match before.iter().position(|b| b.0 == x) {
                    Some(i) => {
                        before.remove(i);
                    }
                    None => return Err(format!("{what}: a diagnostic appears ({}): {key}\n{new}", x.2)),
                }
            }
            if !before.iter().any(|b| b.0 == target) {
                return Err(format!("{what}: still reported: {key}\n{new}"));
            }
            let span = chunks.iter().map(|c| (c.start_byte, c.start_byte + c.code.len())).find(|c| c.0 <= ds && de <= c.1);
            for b in &before {
                // the text of some of them includes the comment now, which may matter to their rules
                if b.0.2 != *rule && !(b.1.0 < s && s < b.1.1) {
                    return Err(format!("{what}: a diagnostic of {} disappears too: {key}\n{new}", b.0.2));
                }
                if span.is_some_and(|c| b.1.0 < c.0 || b.1.1 > c.1) {
                    return Err(format!("{what}: a diagnostic of another chunk disappears too: {key}\n{new}"));
                }
            }
            if what == "chunk" && diags.iter().map(raw).any(|r| r.2 == *rule && span.is_some_and(|c| c.0 <= r.0 && r.1 <= c.1) && !before.iter().any(|b| b.1 == r)) {
                return Err(format!("{what}: some are still reported: {key}\n{new}"));
            }
            *stats.entry(if what == "chunk" { "comments for a chunk" } else { "comments" }).or_default() += 1;
        }
    }
    match left.first() {
        Some(x) => Err(format!("unexpected: an action that belongs to no diagnostic: {x}")),
        None => Ok(()),
    }
}

/// Comments and text about similar rules in the chunks of a document.
fn with_chunk_comments(rng: &mut Rng, text: &str, cfg: &Config) -> String {
    let all: Vec<String> = jarl_core::rule_set::Rule::all().iter().map(|r| r.name().to_string()).collect();
    let Ok(diags) = sut::lint_as(text, "d.Rmd", cfg) else { return text.into() };
    let mut new = text.to_string();
    for c in jarl_core::rmd::extract_r_chunks(text).iter().rev() {
        let here: Vec<&str> = diags.iter().filter(|d| (c.start_byte..c.start_byte + c.code.len()).contains(&sut::range(d).0)).map(|d| d.message.name.as_str()).collect();
        if here.is_empty() {
            continue;
        }
        let rule = *rng.pick(&here);
        let near: Vec<&str> = all.iter().map(String::as_str).filter(|r| *r != rule && (r.starts_with(rule) || rule.starts_with(r) || r[..3] == rule[..3])).collect();
        let other = if near.is_empty() { rng.pick(&all).as_str() } else { *rng.pick(&near) };
        let by: String = c.code.chars().take_while(|c| *c == ' ' || *c == '\t').collect();
        let add = match rng.below(6) {
            0 => format!("#| jarl-ignore-chunk:\n{by}#|   - {other}: why"),
            1 => format!("# jarl-ignore-chunk {other}: {rule}"),
            2 => format!("# a list:\n{by}# - {rule}: is what"),
            3 => format!("# jarl-ignore-chunk {rule}"),
            4 => format!("#| jarl-ignore-chunk:\n{by}#|   - {rule}"),
            _ => format!("f('- {rule}: it')"),
        };
        new.insert_str(c.start_byte, &format!("{by}{add}\n"));
    }
    new
}

/// One request for actions, in a session of its own.
fn ask_actions(text: &str, name: &str, top: &Path, offered: Option<&[&str]>, cfg: &Config, seed: u64, stats: &mut BTreeMap<&'static str, u64>) -> Result<(), String> {
    let mut rng = Rng::new(seed);
    let u = uri(&top.join(name));
    let mut s = Session::start(1, offered)?;
    let enc = s.enc;
    s.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "r", "version": 1, "text": if seed % 2 == 0 { text } else { "x\n" }}}));
    if seed % 2 == 1 {
        s.notify("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": text}]}));
    }
    let all: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
    for _ in 0..3 {
        let (mut a, mut b) = match rng.below(3) {
            0 => (0, text.len()),
            1 => (*rng.pick(&all), *rng.pick(&all)),
            _ => {
                let x = *rng.pick(&all);
                (x, x)
            }
        };
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let range = json!({"start": pos(text, a, enc), "end": pos(text, b, enc)});
        let r = s.request("textDocument/codeAction", json!({"textDocument": {"uri": u}, "range": range, "context": {"diagnostics": []}}))?;
        let Some(list) = r["result"].as_array() else { return Err(format!("response: {r}")) };
        judge_actions(text, name, &u, enc, cfg, &range, list, stats)?;
        *stats.entry("requests").or_default() += 1;
    }
    s.stop()?;
    Ok(())
}

/// Requests of all kinds: each is answered once.
fn answers(rng: &mut Rng, top: &Path) -> Result<usize, String> {
    let mut s = Session::start(rng.range(1, 4), None)?;
    let u = uri(&top.join("a.R"));
    let zero = json!({"line": 0, "character": 0});
    let mut open = false;
    let mut asked: Vec<(Value, bool, String)> = vec![];
    for _ in 0..rng.range(3, 25) {
        match rng.below(5) {
            0 => {
                open = true;
                s.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "r", "version": 1, "text": rng.pick(&["any(is.na(x))\n", "f(x\n", "", "é 🌍"])}}));
            }
            1 => {
                open = false;
                s.notify("textDocument/didClose", json!({"textDocument": {"uri": u}}));
            }
            2 => {
                let id = s.ask("textDocument/codeAction", json!({"textDocument": {"uri": u}, "range": {"start": zero, "end": {"line": rng.below(3000), "character": rng.below(3000)}}, "context": {"diagnostics": [], "only": ["quickfix"]}}));
                asked.push((id, open, "actions".into()));
            }
            3 => {
                let p = match rng.below(6) {
                    0 => Value::Null,
                    1 => json!({}),
                    2 => json!([]),
                    3 => json!({"textDocument": {"uri": "not a uri"}, "range": {"start": zero, "end": zero}, "context": {"diagnostics": []}}),
                    4 => json!({"textDocument": {"uri": u}, "range": {"start": {"line": -1, "character": 0}, "end": zero}, "context": {"diagnostics": []}}),
                    _ => json!({"textDocument": {"uri": u}}),
                };
                let id = s.ask("textDocument/codeAction", p.clone());
                asked.push((id, false, format!("actions with {p}")));
            }
            _ => {
                let m = *rng.pick(&["textDocument/hover", "textDocument/diagnostic", "workspace/symbol", "no/such", "textDocument/formatting", "codeAction/resolve"]);
                let p = if rng.chance(1, 2) { json!({"textDocument": {"uri": u}}) } else { Value::Null };
                let id = s.ask(m, p);
                asked.push((id, false, m.into()));
            }
        }
    }
    let mut got: BTreeMap<String, Vec<bool>> = BTreeMap::new();
    for m in s.stop()? {
        if let Message::Response(r) = m {
            let v = serde_json::to_value(&r).unwrap();
            got.entry(v["id"].to_string()).or_default().push(v["error"].is_null());
        }
    }
    let n = asked.len();
    for (id, good, what) in asked {
        let a = got.remove(&id.to_string()).unwrap_or_default();
        if a != [good] {
            return Err(format!("responses: {} to {what} (successful: {a:?}, expected {good})", a.len()));
        }
    }
    match got.into_iter().next() {
        Some(x) => Err(format!("responses: {x:?} to nothing")),
        None => Ok(n),
    }
}

/// A session with the program itself.
fn stdio(rng: &mut Rng, g: &Gen, top: &Path, cfg: &Config) -> Result<(), (String, Value)> {
    use std::io::{BufReader, Write};
    let text = loop {
        let t = text_of(rng, g, false, false);
        if expected(&t, "a.R", cfg, Enc::Utf16).is_some() {
            break t;
        }
    };
    let orderly = rng.chance(1, 2);
    let how = if orderly { 0 } else { rng.range(1, 2) };
    let end = ["shutdown and exit", "exit", "end of input"][how];
    let replay = |e: String| (e, json!({"text": text, "end": end}));
    let mut c = std::process::Command::new(sut::jarl_bin())
        .arg("server")
        .current_dir(top)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("the jarl binary runs");
    let mut to = c.stdin.take().unwrap();
    let out = c.stdout.take().unwrap();
    let (tx, rx) = crossbeam::channel::unbounded();
    std::thread::spawn(move || {
        let mut r = BufReader::new(out);
        while let Ok(Some(m)) = Message::read(&mut r) {
            let _ = tx.send(serde_json::to_value(&m).unwrap());
        }
    });
    let mut send = |v: Value| {
        let t = v.to_string();
        let _ = to.write_all(format!("Content-Length: {}\r\n\r\n{t}", t.len()).as_bytes());
        let _ = to.flush();
    };
    let wait = |want: &dyn Fn(&Value) -> bool| -> Result<Value, String> {
        let t = Instant::now();
        while t.elapsed() < PATIENCE {
            match rx.recv_timeout(PATIENCE) {
                Ok(m) if want(&m) => return Ok(m),
                Ok(_) => {}
                Err(_) => break,
            }
        }
        Err("silent: the program does not answer".into())
    };
    let u = uri(&top.join("a.R"));
    let run = (|| {
        send(json!({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": {}}}));
        wait(&|m| m["id"] == 1 && m["result"]["capabilities"].is_object())?;
        send(json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}));
        send(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "r", "version": 7, "text": text}}}));
        send(json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": u}}}));
        let m = wait(&|m| m["method"] == "textDocument/publishDiagnostics")?;
        let want = expected(&text, "a.R", cfg, Enc::Utf16).unwrap();
        if shown(&m["params"]) != want || m["params"]["version"] != 7 {
            return Err(format!("program: published {:?}, expected {want:?}", shown(&m["params"])));
        }
        if how == 0 {
            send(json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"}));
            let m = wait(&|m| m["id"] == "bye")?;
            if m.get("error").is_some_and(|e| !e.is_null()) {
                return Err(format!("shutdown: {m}"));
            }
        }
        if how < 2 {
            send(json!({"jsonrpc": "2.0", "method": "exit"}));
        }
        Ok(())
    })();
    let _ = send;
    drop(to);
    if let Err(e) = run {
        let _ = c.kill();
        let _ = c.wait();
        return Err(replay(e));
    }
    let t = Instant::now();
    let rc = loop {
        match c.try_wait() {
            Ok(Some(s)) => break s.code(),
            _ if t.elapsed() > PATIENCE => {
                let _ = c.kill();
                let _ = c.wait();
                return Err(replay("exit: the program does not end".into()));
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    match (how, rc) {
        (0, Some(0)) | (1, Some(1)) => Ok(()),
        // the input just ended: only that it ends is asked for
        (2, Some(_)) => Ok(()),
        _ => Err(replay(format!("exit: status {rc:?} after {}", ["shutdown and exit", "exit", "end of input"][how]))),
    }
}

pub fn run_c34(ctx: &mut Ctx) {
    ctx.rule = "a document with actions, by text; a session with requests; a session of the program".into();
    let g = Gen::load();
    let mut rng = ctx.rng.fork();
    let dir = sut::scratch();
    let top = dir.path().canonicalize().unwrap();
    std::fs::write(top.join("jarl.toml"), "[lint]\nselect = [\"ALL\"]\ndefault-exclude = false\n").unwrap();
    let cfg = config_of(&top);
    let mut seen = BTreeSet::new();
    let mut first = true;
    while ctx.time_left(1.0) {
        ctx.case("session");
        match rng.below(12) {
            _ if first => {
                first = false;
                let mut st = BTreeMap::new();
                if ask_actions("stop()\nx\nx\n", "a.R", &top, None, &cfg, 0, &mut st).is_ok() && st.contains_key("known") {
                    ctx.fail(SEVERAL, "suppress: still reported: unreachable_code over several statements", json!({"text": "stop()\nx\nx\n"}));
                }
            }
            0 => {
                let seed = rng.next();
                match answers(&mut Rng::new(seed), &top) {
                    Ok(n) => ctx.count("session with requests of all kinds", &seed, n > 0),
                    Err(e) if seen.insert(e[..e.len().min(12)].to_string()) => ctx.fail(&kit::clip(&e, 40), e.clone(), json!({"seed": seed})),
                    Err(_) => ctx.bump("repeated", 1),
                }
            }
            1 if rng.chance(1, 3) => match stdio(&mut rng.fork(), &g, &top, &cfg) {
                Ok(()) => ctx.count("session of the program", &rng.next(), true),
                Err((e, r)) if seen.insert(e.split(':').next().unwrap().into()) => ctx.fail(&kit::clip(&e, 40), e.clone(), r),
                Err(_) => ctx.bump("repeated", 1),
            },
            _ => {
                let rmd = rng.chance(1, 4);
                let (mut text, name) = if rmd { (g.rmd(&mut rng).0, "d.Rmd") } else { (g.program(&mut rng), *rng.pick(&["a.R", "é b.r"])) };
                if !rmd && rng.chance(1, 4) {
                    text = crate::p_edit::with_comments(&mut rng, &text, &cfg);
                }
                if rmd && rng.chance(1, 3) {
                    text = with_chunk_comments(&mut rng, &text, &cfg);
                }
                let offered: Option<&[&str]> = *rng.pick(&[None, Some(&["utf-8"][..]), Some(&["utf-16"][..])]);
                let seed = rng.next();
                ctx.case(text.clone());
                let mut stats = BTreeMap::new();
                match ask_actions(&text, name, &top, offered, &cfg, seed, &mut stats) {
                    Ok(()) => {
                        let n: u64 = stats.iter().filter(|s| *s.0 != "requests").map(|s| s.1).sum();
                        ctx.count(if rmd { "R Markdown document" } else { "document" }, &text, n > 0);
                        for (k, v) in stats {
                            ctx.bump(if k == "known" { "comments for several statements, not judged" } else { k }, v);
                        }
                    }
                    Err(e) => {
                        let kind = e.split(": ").take(2).collect::<Vec<_>>().join(": ");
                        let kind = kind.split(|c: char| c.is_ascii_digit()).next().unwrap().to_string();
                        if !seen.insert(kind.clone()) {
                            ctx.bump("repeated", 1);
                            continue;
                        }
                        let fails = |t: &str| ask_actions(t, name, &top, offered, &cfg, seed, &mut BTreeMap::new()).is_err_and(|e| e.starts_with(&kind));
                        let small = if rmd { kit::shrink_text(&text, fails) } else { tree::shrink(&text, |t| crate::r#gen::parses(t) && fails(t)) };
                        let e = ask_actions(&small, name, &top, offered, &cfg, seed, &mut BTreeMap::new()).err().unwrap_or(e);
                        ctx.fail(&kind, format!("{e}\n--- text\n{small}"), json!({"text": small, "original": text, "name": name, "encodings": offered, "seed": seed}));
                    }
                }
            }
        }
    }
}
