//! C32: functions defined twice or never used in a package.

use crate::sut;
use kit::{Ctx, Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Hash)]
pub enum Item {
    /// name, style, a name used in the body
    Def(String, usize, Option<String>),
    Use(String, usize),
    /// a comment on a line of its own, which is no use
    Note(String),
    Filler(usize),
}

#[derive(Clone, Debug, Hash)]
pub enum Dir {
    Export(Vec<String>, usize),
    Pattern(usize, usize),
    /// generic, class, method
    S3(String, String, Option<String>, usize),
    Other(usize, String),
}

#[derive(Clone, Debug, Default, Hash)]
pub struct Pkg {
    /// Below the project, `top/...`
    pub dir: String,
    pub files: BTreeMap<String, Vec<Item>>,
    pub namespace: Option<Vec<Dir>>,
    pub crlf: bool,
}

#[derive(Clone, Debug, Default, Hash)]
pub struct Proj {
    pub pkgs: Vec<Pkg>,
    pub select: String,
    pub skipped: Vec<usize>,
    pub threshold: Option<usize>,
    pub exclude: Vec<String>,
    pub cwd: String,
    pub args: Vec<String>,
    pub fix: bool,
}

const NAMES: &[&str] = &[
    "alpha", "alpha2", "alph", "beta", "Beta", "delta_x", "delta", ".hidden_fn", "hidden_fn", "été", "été2", "t", "naïve_fun", "fmt", "fmt.cls", "fmt.my.cls", "fmt.größe", "gen", "gen.cls",
    "größe.kl", ".onLoad", ".onAttach", ".dot.ted", "functions", "f", "кот", "zz9",
];
const HOOKS: &[&str] = &[".onLoad", ".onAttach", ".onUnload", ".onDetach", ".Last.lib", ".First.lib"];
/// As in the file, as meant.
type Pat = (&'static str, fn(&str) -> bool);
const PATTERNS: &[Pat] = &[
    ("^alp", |n| n.starts_with("alp")),
    ("^[^\\\\.]", |n| !n.starts_with('.') && !n.starts_with('\\')),
    ("\\\\.cls$", |n| n.ends_with(".cls")),
    ("^[[:lower:]]+$", |n| n.chars().all(|c| c.is_ascii_lowercase())),
    ("^[^.]+2$", |n| n.len() > 1 && n.ends_with('2') && !n.contains('.')),
    ("nothing", |_| false),
    ("a|z", |n| n.contains('a') || n.contains('z')),
];
const SKIPPED: &[Pat] = &[
    ("^alph", |n| n.starts_with("alph")),
    ("a", |n| n.contains('a')),
    ("^delta$", |n| n == "delta"),
    ("\\\\.cls", |n| n.contains(".cls")),
    ("é", |n| n.contains('é')),
    ("[0-9]$", |n| n.ends_with(|c: char| c.is_ascii_digit())),
];

fn quoted(rng_style: usize, n: &str) -> String {
    match rng_style % 4 {
        0 => format!("\"{n}\""),
        1 => format!("'{n}'"),
        2 => format!("`{n}`"),
        _ => n.to_string(),
    }
}

impl Item {
    fn text(&self, c_file: bool) -> String {
        match self {
            Item::Def(n, style, used) => {
                let op = *[" <- ", " = ", "<-", "=", "  <-  "].get(style % 5).unwrap();
                let head = *["function(x)", "\\(x)", "function (x)", "function(x, ...)"].get(style / 5 % 4).unwrap();
                match used {
                    Some(u) => format!("{n}{op}{head} {{\n  {u}(x)\n}}\n"),
                    None => match style % 3 {
                        0 => format!("{n}{op}{head} NULL\n"),
                        _ => format!("{n}{op}{head} {{\n  x\n}}\n"),
                    },
                }
            }
            Item::Use(n, k) if c_file => match k % 3 {
                0 => format!("SEXP s = Rf_install(\"{n}\");\n"),
                1 => format!("#define FUN \"{n}\"\n"),
                _ => format!("  call(x, \"{n}\");\n"),
            },
            Item::Use(n, k) => match k % 16 {
                0 => format!("y <- {n}(1)\n"),
                1 => format!("lapply(y, {n})\n"),
                2 => format!("do.call(\"{n}\", y)\n"),
                3 => format!("print('a {{{n}(y)}} b')\n"),
                4 => format!("#' \\Sexpr{{{n}(1)}}\nNULL\n"),
                5 => format!("list(\n  {n}\n)\n"),
                6 => format!("y <- mypkg:::{n}\n"),
                7 => format!("local({{\n  {n}(x)\n}})\n"),
                8 => format!("y |> {n}()\n"),
                9 => format!("`{n}`(1)\n"),
                10 => format!("print(\"\n  {n}(1)\n\")\n"),
                11 => format!("print(\"\\\"it's\n{n} <- function(x) x\n\")\n"),
                12 => format!("y <- '\n# \"\n{n} = function(x) {{\n}}\n'\n"),
                13 => format!("y <- r\"-(\\\")\n{n} <- \\(x) NULL\n)\" )-\"\n"),
                14 => format!("y <- c(\"don'q\", R'[\n{n} <- function(x) NULL\n'\n]')\n"),
                _ => format!("y <- 1; {n}(y)\n"),
            },
            Item::Note(n) if c_file => format!("/* other{n}2x */\n"),
            Item::Note(n) => format!("# {n}(1) is not used\n"),
            Item::Filler(_) if c_file => "int i;\n".into(),
            Item::Filler(k) => ["y\n\n", "any(is.na(y))\n", "y <- 1\n", "  y <- 2\n", "\"é\"\n", "if (y) {\n  y\n}\n", "any(\n  is.na(\n    y\n  )\n)\n", "y = 3\n", "y <- \"it's\" # don'q\n", "y <- c('\\'', \"\\\\\")\n", "`it's` <- 2 # \"\n", "y <- r\"(\\)\"\n"][k % 12].into(),
        }
    }
}

fn dir_text(d: &Dir) -> String {
    match d {
        Dir::Export(names, k) => {
            let q: Vec<String> = names.iter().enumerate().map(|(i, n)| quoted(k / 8 + i, n)).collect();
            match k % 8 {
                0 => q.iter().map(|n| format!("export({n})\n")).collect(),
                1 => format!("export({})\n", q.join(", ")),
                2 => format!("export(\n  {}\n)\n", q.join(",\n  ")),
                3 => format!("export({})\n", q.join(",\n       ")),
                4 => format!("export({}) # they (all) are\n", q.join(",")),
                5 => q.iter().map(|n| format!("export({n})")).collect::<Vec<_>>().join("; ") + "\n",
                6 => format!("if (getRversion() >= \"4.0.0\") export({})\n", q.join(", ")),
                _ => format!("if (TRUE) {{\n  export(\n    {} # one\n  )\n}}\n", q.join(", # more, of them\n    ")),
            }
        }
        Dir::Pattern(p, k) => {
            let p = PATTERNS[*p].0;
            match k % 3 {
                0 => format!("exportPattern(\"{p}\")\n"),
                1 => format!("exportPattern(\"nothing\", \"{p}\")\n"),
                _ => format!("exportPattern(\n  '{p}'\n)\n"),
            }
        }
        Dir::S3(g, c, m, k) => {
            let mut a = vec![quoted(k / 3, g), quoted(k / 12, c)];
            a.extend(m.clone());
            match k % 3 {
                0 => format!("S3method({})\n", a.join(",")),
                1 => format!("S3method({})\n", a.join(", ")),
                _ => format!("S3method(\n  {}\n)\n", a.join(",\n  ")),
            }
        }
        Dir::Other(k, n) => match k % 5 {
            0 => format!("# export({n})\n"),
            1 => format!("importFrom(stats, {n})\n"),
            2 => "useDynLib(mypkg, .registration = TRUE)\n".into(),
            3 => "import(methods)\n\n".into(),
            _ => format!("importFrom(stats,{n}) # export({n})\n"),
        },
    }
}

fn put(dir: &Path, name: &str, text: impl AsRef<[u8]>) {
    let f = dir.join(name);
    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
    std::fs::write(f, text).unwrap();
}

fn is_c(f: &str) -> bool {
    f.starts_with("src/")
}

/// Where a diagnostic is to be: file from the top, line, name and help.
type Found = (String, usize, String, String, String);

impl Pkg {
    pub fn text(&self, f: &str) -> String {
        let t: String = self.files[f].iter().map(|i| i.text(is_c(f))).collect();
        if self.crlf { t.replace('\n', "\r\n") } else { t }
    }
    fn defs(&self, f: &str) -> Vec<(String, usize)> {
        let mut line = 1;
        let mut out = vec![];
        for i in &self.files[f] {
            if let Item::Def(n, ..) = i {
                out.push((n.clone(), line));
            }
            line += i.text(false).matches('\n').count();
        }
        out
    }
    /// Everything mentioned in this file other than the names of definitions and notes.
    fn uses(&self, f: &str) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        for i in &self.files[f] {
            match i {
                Item::Def(_, _, Some(n)) | Item::Use(n, _) => {
                    out.insert(n.clone());
                }
                _ => {}
            }
        }
        out
    }
    fn scope(f: &str) -> &'static str {
        if f.starts_with("R/") {
            if f.matches('/').count() == 1 { "R" } else { "os" }
        } else if f.starts_with("tests/") {
            "tests"
        } else if f.starts_with("inst/tinytest/") || f.starts_with("inst/tests/") {
            "inst"
        } else if f.starts_with("src/") {
            "src"
        } else {
            "other"
        }
    }
    fn exported(&self, n: &str) -> bool {
        self.namespace.iter().flatten().any(|d| match d {
            Dir::Export(l, _) => l.iter().any(|x| x == n),
            Dir::Pattern(p, _) => PATTERNS[*p].1(n),
            Dir::S3(g, c, m, _) => m.clone().unwrap_or(format!("{g}.{c}")) == n,
            Dir::Other(..) => false,
        })
    }
}

impl Proj {
    fn skipped(&self, n: &str) -> bool {
        self.skipped.iter().any(|&i| SKIPPED[i].1(n))
    }
    /// Path as shown, from the working directory.
    fn shown(&self, top: &Path, f: &str) -> String {
        match self.cwd.as_str() {
            "" => f.to_string(),
            c => f.strip_prefix(&format!("{c}/")).map_or(top.join(f).to_string_lossy().into_owned(), String::from),
        }
    }
    pub fn linted(&self, f: &str) -> bool {
        !self.exclude.iter().any(|e| f.ends_with(e.trim_start_matches("**")))
            && self.args.iter().any(|a| {
                let a = match a.strip_prefix("$TOP") {
                    Some(a) => a.trim_start_matches('/').to_string(),
                    None => [self.cwd.as_str(), a].iter().filter(|s| !s.is_empty() && **s != ".").copied().collect::<Vec<_>>().join("/"),
                };
                a.is_empty() || f == a || f.starts_with(&format!("{a}/"))
            })
    }
    /// (duplicates, unused)
    pub fn expected(&self, top: &Path) -> (BTreeSet<Found>, BTreeSet<Found>) {
        let (mut dup, mut unused) = (BTreeSet::new(), BTreeSet::new());
        for p in &self.pkgs {
            let full = |f: &str| format!("{}/{f}", p.dir);
            let of = |s: &'static str| p.files.keys().filter(move |f| Pkg::scope(f) == s);
            if !of("R").any(|f| self.linted(&full(f))) {
                continue;
            }
            let mut first: BTreeMap<String, String> = BTreeMap::new();
            for f in of("R") {
                for (n, line) in p.defs(f) {
                    let at = format!("{}:{line}:1", self.shown(top, &full(f)));
                    match first.get(&n) {
                        None => {
                            first.insert(n, at);
                        }
                        Some(o) if self.linted(&full(f)) => {
                            dup.insert((full(f), line, n.clone(), format!("`{n}` is defined more than once in this package."), format!("Other definition at {o}")));
                        }
                        _ => {}
                    }
                }
            }
            if p.namespace.is_none() {
                continue;
            }
            let nested: Vec<&Pkg> = self.pkgs.iter().filter(|q| q.dir.starts_with(&format!("{}/", p.dir))).collect();
            let words = |scopes: &[&str]| -> BTreeSet<String> {
                let mut w: BTreeSet<String> = p.files.keys().filter(|f| scopes.contains(&Pkg::scope(f))).flat_map(|f| p.uses(f)).collect();
                for q in &nested {
                    if scopes.contains(&"tests") {
                        for f in q.files.keys() {
                            w.extend(q.uses(f));
                            w.extend(q.defs(f).into_iter().map(|d| d.0));
                        }
                    }
                }
                w
            };
            for scope in ["R", "tests", "inst"] {
                let used = match scope {
                    "R" => {
                        let mut w = words(&["R", "os", "tests", "inst", "src"]);
                        // defined there, so mentioned there
                        for s in ["os", "tests", "inst"] {
                            w.extend(of(s).flat_map(|f| p.defs(f)).map(|d| d.0));
                        }
                        w
                    }
                    s => words(&[s]),
                };
                let mut mentioned = words(&["R", "os"]);
                mentioned.extend(of("R").chain(of("os")).flat_map(|f| p.defs(f)).map(|d| d.0));
                if scope != "R" {
                    mentioned.extend(words(&[scope]));
                    mentioned.extend(of(scope).flat_map(|f| p.defs(f)).map(|d| d.0));
                }
                for f in of(scope) {
                    for (n, line) in p.defs(f) {
                        let method = n.char_indices().any(|(i, c)| c == '.' && mentioned.contains(&n[..i]));
                        let hidden = scope == "R" && (p.exported(&n) || HOOKS.contains(&n.as_str()));
                        if used.contains(&n) || method || hidden || self.skipped(&n) || !self.linted(&full(f)) {
                            continue;
                        }
                        let wher = match scope {
                            "R" => String::new(),
                            "tests" => " in tests/".into(),
                            _ => format!(" in {}/", f.rsplitn(f.matches('/').count(), '/').last().unwrap()),
                        };
                        unused.insert((
                            full(f),
                            line,
                            n.clone(),
                            format!("`{n}` is defined but never called in this package."),
                            format!("Defined at {}:{line}:1 but never called{wher}", self.shown(top, &full(f))),
                        ));
                    }
                }
            }
        }
        (dup, unused)
    }
}

fn toml(p: &Proj) -> String {
    let mut t = format!("[lint]\nselect = {}\n", p.select);
    if !p.exclude.is_empty() {
        t.push_str(&format!("exclude = {}\n", json!(p.exclude)));
    }
    if !p.skipped.is_empty() || p.threshold.is_some() {
        t.push_str("\n[lint.unused_function]\n");
        if !p.skipped.is_empty() {
            t.push_str(&format!("skipped-functions = [{}]\n", p.skipped.iter().map(|&i| format!("\"{}\"", SKIPPED[i].0)).collect::<Vec<_>>().join(", ")));
        }
        if let Some(n) = p.threshold {
            t.push_str(&format!("threshold-ignore = {n}\n"));
        }
    }
    t
}

type Seen = BTreeMap<&'static str, BTreeSet<Found>>;

fn report(p: &Proj, top: &Path, extra: &[&str]) -> Result<(Seen, Vec<Value>), String> {
    let args: Vec<String> = p.args.iter().map(|a| a.replace("$TOP", top.to_str().unwrap())).collect();
    std::fs::create_dir_all(top.join(&p.cwd)).expect("scratch directory");
    let o = Command::new(sut::jarl_bin())
        .arg("check")
        .args(&args)
        .args(["--output-format", "json"])
        .args(extra)
        .current_dir(top.join(&p.cwd))
        .env("HOME", top)
        .env_remove("XDG_CONFIG_HOME")
        .env("NO_COLOR", "1")
        .stdin(Stdio::null())
        .output()
        .expect("the jarl binary runs");
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    if out.contains("No R files found") {
        return Ok((Seen::new(), vec![]));
    }
    let v: Value = serde_json::from_str(&out).map_err(|_| format!("output: status {:?}\n{out}\n{err}", o.status.code()))?;
    if v["errors"].as_array().is_some_and(|e| !e.is_empty()) {
        return Err(format!("errors: {}", v["errors"]));
    }
    let mut seen = Seen::new();
    let all = v["diagnostics"].as_array().cloned().unwrap_or_default();
    for d in &all {
        let kind = match d["message"]["name"].as_str() {
            Some("duplicated_function_definition") => "duplicated",
            Some("unused_function") => "unused",
            _ => continue,
        };
        let n = d["filename"].as_str().unwrap_or("");
        let f = if n.starts_with('/') { Path::new(n).to_path_buf() } else { top.join(&p.cwd).join(n) };
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let (a, b) = (d["range"][0].as_u64().unwrap_or(0) as usize, d["range"][1].as_u64().unwrap_or(0) as usize);
        let name = text.get(a..b).unwrap_or("not on characters").to_string();
        let line = d["location"]["row"].as_u64().unwrap_or(0) as usize;
        if d["location"]["column"] != 0 {
            return Err(format!("column: {d}"));
        }
        let f = f.strip_prefix(top).unwrap_or(&f).to_string_lossy().into_owned();
        let found = (f, line, name, d["message"]["body"].as_str().unwrap_or("").into(), d["message"]["suggestion"].as_str().unwrap_or("").into());
        if !seen.entry(kind).or_default().insert(found) {
            return Err(format!("twice: {d}"));
        }
    }
    Ok((seen, all))
}

pub fn write(p: &Proj, top: &Path) {
    for k in &p.pkgs {
        for f in k.files.keys() {
            let mut t = k.text(f).into_bytes();
            if f.contains("latin1") {
                t.extend_from_slice(if is_c(f) { b"/* \xe9 */\n" } else { b"# \xe9\n" });
            }
            put(top, &format!("{}/{f}", k.dir), t);
        }
        put(top, &format!("{}/DESCRIPTION", k.dir), "Package: mypkg\nVersion: 1.0\n");
        if let Some(n) = &k.namespace {
            let t: String = n.iter().map(dir_text).collect();
            put(top, &format!("{}/NAMESPACE", k.dir), if k.crlf { t.replace('\n', "\r\n") } else { t });
        }
    }
    put(top, "jarl.toml", toml(p));
}

fn judge(p: &Proj) -> Result<(usize, usize, bool), String> {
    let tmp = sut::scratch();
    let top = &tmp.path().canonicalize().unwrap();
    write(p, top);
    let (dup, mut unused) = p.expected(top);
    let explicit = p.select.contains("unused_function");
    let on = p.select != "[\"PERF\"]";
    let hide = !explicit && unused.len() > p.threshold.unwrap_or(50);
    let n = unused.len();
    if hide {
        unused.clear();
    }
    if p.fix {
        // what is left after fixing is what a new run reports
        let (_, a) = report(p, top, &["--fix", "--allow-no-vcs"])?;
        let (_, b) = report(p, top, &[])?;
        let show = |v: &[Value]| v.iter().map(|d| format!("{} {} {} {}", d["filename"], d["message"], d["range"], d["location"])).collect::<Vec<_>>();
        let (a, b) = (show(&a), show(&b));
        if let Some(x) = a.iter().find(|x| !b.contains(x)).or(b.iter().find(|x| !a.contains(x))) {
            return Err(format!("after fixing: {x} is not in both\n{}\n\n{}", a.join("\n"), b.join("\n")));
        }
        return Ok((dup.len(), n, hide));
    }
    let (seen, _) = report(p, top, &[])?;
    for (kind, want) in [("duplicated", dup.clone()), ("unused", unused)] {
        let got = seen.get(kind).cloned().unwrap_or_default();
        let want = if on { want } else { BTreeSet::new() };
        if let Some(x) = got.difference(&want).next() {
            let near = want.iter().find(|w| w.0 == x.0 && w.2 == x.2);
            return Err(format!("{kind} {}: {x:?}, expected {near:?}", if near.is_some() { "told wrongly" } else { "reported" }));
        }
        if let Some(x) = want.difference(&got).next() {
            return Err(format!("{kind} missed: {x:?}"));
        }
    }
    Ok((dup.len(), n, hide))
}

fn item(rng: &mut Rng, names: &[&str], file: &str, def_ok: bool) -> Item {
    let n = rng.pick(names).to_string();
    let c = is_c(file);
    match rng.below(10) {
        0..=3 if def_ok && !c => {
            let used = rng.chance(1, 4).then(|| rng.pick(names).to_string()).filter(|u| *u != n);
            Item::Def(n, rng.below(20), used)
        }
        4..=5 => Item::Use(n, rng.below(16)),
        6 => Item::Note(n),
        _ => Item::Filler(rng.below(12)),
    }
}

fn pkg(rng: &mut Rng, dir: String, names: &[&str], full: bool) -> Pkg {
    let mut p = Pkg { dir, crlf: rng.chance(1, 8), ..Default::default() };
    let inst = *rng.pick(&["inst/tinytest", "inst/tests"]);
    let mut files: Vec<String> = ["R/a.R", "R/b.r", "R/Z.R", "R/aa-b.R", "R/é.R", "R/legacy.R", "R/latin1.R"].iter().filter(|_| rng.chance(2, 5)).map(|s| s.to_string()).collect();
    files.push("R/c.R".into());
    if full {
        for f in ["R/unix/os.R", "R/windows/os.R", "tests/testthat.R", "tests/testthat/test-a.R", "tests/testthat/helper.R", "src/init.c", "src/latin1.cpp", "src/x.h", "src/code.cc", "other/x.R"] {
            if rng.chance(1, 4) {
                files.push(f.into());
            }
        }
        for f in ["test_a.R", "sub/b.R"] {
            if rng.chance(1, 5) {
                files.push(format!("{inst}/{f}"));
            }
        }
    }
    for f in files {
        let def_ok = !matches!(Pkg::scope(&f), "other" | "src") && !f.contains("latin1");
        let mut items: Vec<Item> = (0..rng.range(1, 7)).map(|_| item(rng, names, &f, def_ok)).collect();
        if f.starts_with("tests") || f.starts_with("inst") {
            // the hooks are ordinary names there; avoid what is not documented
            items.retain(|i| !matches!(i, Item::Def(n, ..) if HOOKS.contains(&n.as_str())));
        }
        if Pkg::scope(&f) == "R" && rng.chance(1, 5) {
            items.push(Item::Def(rng.pick(HOOKS).to_string(), 0, None));
        }
        p.files.insert(f, items);
    }
    if rng.chance(9, 10) {
        p.namespace = Some(
            (0..rng.below(5))
                .map(|_| {
                    let n = rng.pick(names).to_string();
                    match rng.below(10) {
                        0..=4 => Dir::Export((0..rng.range(1, 3)).map(|_| rng.pick(names).to_string()).collect(), rng.below(32)),
                        5 => Dir::Pattern(rng.below(PATTERNS.len()), rng.below(3)),
                        6 | 7 => match n.split_once('.').filter(|x| !x.0.is_empty()) {
                            Some((g, c)) => Dir::S3(g.into(), c.into(), rng.chance(1, 3).then(|| rng.pick(names).to_string()), rng.below(48)),
                            None => Dir::S3("print".into(), "cls".into(), Some(n), rng.below(48)),
                        },
                        _ => Dir::Other(rng.below(5), n),
                    }
                })
                .collect(),
        );
    }
    p
}

pub fn case(rng: &mut Rng) -> Proj {
    let mut names: Vec<&str> = NAMES.iter().copied().filter(|_| rng.chance(1, 3)).collect();
    names.push("alpha");
    let base = *rng.pick(&["w", "w", "src", "tests", "inst/tests", "R", "w/R"]);
    let mut p = Proj::default();
    p.pkgs.push(pkg(rng, format!("{base}/mypkg"), &names, true));
    if rng.chance(1, 5) {
        p.pkgs.push(pkg(rng, format!("{base}/zpkg"), &names, false));
    }
    if rng.chance(1, 6) {
        p.pkgs.push(pkg(rng, format!("{base}/mypkg/tests/testthat/fix"), &names, false));
    }
    p.select = rng.pick(&["[\"ALL\"]", "[\"ALL\"]", "[\"CORR\"]", "[\"unused_function\", \"duplicated_function_definition\", \"any_is_na\"]", "[\"unused_function\"]", "[\"duplicated_function_definition\"]", "[\"PERF\"]"]).to_string();
    if rng.chance(1, 4) {
        p.skipped = (0..rng.range(1, 2)).map(|_| rng.below(SKIPPED.len())).collect();
    }
    if rng.chance(1, 4) {
        p.threshold = Some(*rng.pick(&[0, 1, 2, 5, 100]));
    }
    p.exclude = vec!["**/R/latin1.R".into()];
    if rng.chance(1, 3) {
        p.exclude.push("**/R/legacy.R".into());
    }
    (p.cwd, p.args) = match rng.below(7) {
        0 => (String::new(), vec![".".into()]),
        1 => (format!("{base}/mypkg"), vec![".".into()]),
        2 => (format!("{base}/mypkg"), vec!["R".into()]),
        3 => (base.to_string(), vec!["mypkg".into()]),
        4 => (format!("{base}/mypkg/R"), vec!["$TOP".into()]),
        5 => (format!("{base}/mypkg"), vec!["R/c.R".into(), "tests".into()]),
        _ => (base.to_string(), vec!["mypkg/R".into(), format!("$TOP/{base}/mypkg/tests")]),
    };
    if !p.pkgs[0].files.keys().any(|f| f.starts_with("tests/")) {
        p.args.retain(|a| !a.ends_with("tests"));
    }
    p.fix = rng.chance(1, 6);
    p
}

/// Kinds of rules that are off are not expected.
fn adapt(p: &Proj, want: (usize, usize)) -> (usize, usize) {
    let on = |r: &str| p.select.contains("ALL") || p.select.contains("CORR") || p.select.contains(r);
    (if on("duplicated_function") { want.0 } else { 0 }, if on("unused_function") { want.1 } else { 0 })
}

fn judged(p: &Proj) -> Result<(usize, usize, bool), String> {
    // a rule that is off is checked by itself: nothing of it may be reported
    let r = judge(p);
    match (&r, p.select.as_str()) {
        (Err(e), "[\"unused_function\"]") if e.starts_with("duplicated missed") => Ok((0, 0, false)),
        (Err(e), "[\"duplicated_function_definition\"]") if e.starts_with("unused missed") => Ok((0, 0, false)),
        _ => r,
    }
}

pub fn run_c32(ctx: &mut Ctx) {
    ctx.rule = "a project with a function defined twice or unused, by its packages, files and settings".into();
    let mut rng = ctx.rng.fork();
    let mut seen = BTreeSet::new();
    while ctx.time_left(1.0) {
        let p = case(&mut rng);
        ctx.case(format!("{p:?}"));
        match judged(&p) {
            Ok((d, u, hide)) => {
                let (d, u) = adapt(&p, (d, u));
                let kind = match (p.fix, hide) {
                    (true, _) => "with fixes",
                    (_, true) => "unused functions hidden",
                    _ if p.pkgs.len() > 1 => "several packages",
                    _ => "one package",
                };
                ctx.count(kind, &p, d + u > 0);
                ctx.bump("functions defined twice", d as u64);
                ctx.bump("functions unused", u as u64);
                let defs: usize = p.pkgs.iter().map(|k| k.files.keys().map(|f| k.defs(f).len()).sum::<usize>()).sum();
                ctx.bump("functions", defs as u64);
                ctx.bump("files", p.pkgs.iter().map(|k| k.files.len() as u64).sum());
                ctx.sample(kind, || show(&p));
            }
            Err(e) => {
                let kind: String = e.split(':').next().unwrap().into();
                if !seen.insert(kind.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                let q = reduce(&p, |q| judged(q).is_err_and(|e| e.starts_with(&format!("{kind}:"))));
                let e = judged(&q).err().unwrap_or(e);
                ctx.fail(&kind, e, show(&q));
            }
        }
    }
}

fn reduce(p: &Proj, fails: impl Fn(&Proj) -> bool) -> Proj {
    let mut q = p.clone();
    let mut again = true;
    while again {
        again = false;
        let mut steps: Vec<Proj> = vec![];
        for i in 0..q.pkgs.len() {
            if q.pkgs.len() > 1 {
                let mut s = q.clone();
                s.pkgs.remove(i);
                steps.push(s);
            }
            for f in q.pkgs[i].files.keys() {
                let mut s = q.clone();
                s.pkgs[i].files.remove(f);
                steps.push(s);
                for j in 0..q.pkgs[i].files[f].len() {
                    let mut s = q.clone();
                    s.pkgs[i].files.get_mut(f).unwrap().remove(j);
                    steps.push(s);
                }
            }
            for j in 0..q.pkgs[i].namespace.as_ref().map_or(0, Vec::len) {
                let mut s = q.clone();
                s.pkgs[i].namespace.as_mut().unwrap().remove(j);
                steps.push(s);
            }
        }
        let mut s = q.clone();
        s.skipped.clear();
        steps.push(s);
        let mut s = q.clone();
        s.threshold = None;
        steps.push(s);
        for s in steps {
            let smaller = format!("{s:?}").len() < format!("{q:?}").len();
            if smaller && kit::guard(|| fails(&s)).unwrap_or(false) {
                q = s;
                again = true;
                break;
            }
        }
    }
    q
}

pub fn show(p: &Proj) -> Value {
    json!({
        "packages": p.pkgs.iter().map(|k| json!({
            "folder": k.dir,
            "files": k.files.keys().map(|f| (f.clone(), k.text(f))).collect::<BTreeMap<_, _>>(),
            "NAMESPACE": k.namespace.as_ref().map(|n| n.iter().map(dir_text).collect::<String>()),
        })).collect::<Vec<_>>(),
        "jarl.toml": toml(p),
        "from": p.cwd,
        "arguments": p.args,
        "fix": p.fix,
    })
}
