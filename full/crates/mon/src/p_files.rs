//! C28: which files are linted, and each with the settings of which configuration file.

use crate::sut;
use kit::{Ctx, Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::{Command, Stdio};

/// One line for each rule that tells the configurations apart.
pub const MARKS: &[(&str, &str)] = &[
    ("any_is_na", "any(is.na(x))"),
    ("equals_na", "x == NA"),
    ("any_duplicated", "any(duplicated(x))"),
    ("length_levels", "length(levels(x))"),
    ("equals_null", "x == NULL"),
    ("download_file", "download.file(x, y)"),
];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Conf {
    /// 0 `jarl.toml`, 1 `.jarl.toml`, 2 both (the second one is not to be used)
    pub name: usize,
    pub select: Vec<usize>,
    pub exclude: Vec<String>,
    pub include: Vec<String>,
    pub default_exclude: Option<bool>,
    pub broken: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Proj {
    /// Folder of each file below the project, with the name of the file.
    pub files: BTreeSet<String>,
    pub confs: BTreeMap<String, Conf>,
    pub gitignore: BTreeMap<String, Vec<String>>,
    pub git: Option<String>,
    /// `.git/info/exclude`, and the user's own list for git
    pub info: Vec<String>,
    pub global: Vec<String>,
    /// Folders with an `.ignore` file, which means nothing, and its line.
    pub noise: BTreeMap<String, String>,
    pub user: Option<Conf>,
    /// HOME, and XDG_CONFIG_HOME
    pub home: String,
    pub xdg: bool,
    pub cwd: String,
    pub args: Vec<String>,
    pub no_default: bool,
}

const DEFAULTS: &[&str] = &[".git/", "renv/", "revdep/", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-*.R"];
const DIRS: &[&str] = &["R", "tests", "sub", "sub/deep", "sub/R", "sub/deep/R", "renv", "sub/renv", "revdep", "data", ".hidden", "build", "sub/build", "tests/testthat", "sub/.cfg", "R.d", "été"];
const NAMES: &[&str] = &[
    "a.R", "b.r", "c.Rmd", "d.qmd", "e.rmd", "f.Qmd", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-x.R", "import-standalone.R", "import-standalone-x.Rmd", "import-standalone-y.r", "test-a.R", "test-b.R",
    "g.txt", "h.py", "README", "i.RR", "j.R.bak", ".hidden.R", "k.rmD", "R", "cpp11.r", "x y.R", "l.Rprofile", "é.R",
];

fn braces(p: &str) -> Vec<String> {
    let Some(a) = p.find('{') else { return vec![p.to_string()] };
    let Some(b) = p[a..].find('}') else { return vec![p.to_string()] };
    p[a + 1..a + b].split(',').flat_map(|m| braces(&format!("{}{m}{}", &p[..a], &p[a + b + 1..]))).collect()
}

fn segment(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| segment(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && segment(&p[1..], &s[1..]),
        Some('[') => {
            let end = p.iter().position(|&c| c == ']').unwrap();
            !s.is_empty() && p[1..end].contains(&s[0]) && segment(&p[end + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && segment(&p[1..], &s[1..]),
    }
}

fn segments(p: &[&str], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        // at the end: everything inside
        Some(&"**") if p.len() == 1 => !s.is_empty(),
        Some(&"**") => (0..=s.len()).any(|i| segments(&p[1..], &s[i..])),
        Some(q) => !s.is_empty() && segment(&q.chars().collect::<Vec<_>>(), &s[0].chars().collect::<Vec<_>>()) && segments(&p[1..], &s[1..]),
    }
}

/// Whether a pattern as in .gitignore names this path, relative to the folder of the pattern.
fn matches(pattern: &str, path: &str, is_dir: bool) -> bool {
    braces(pattern).iter().any(|p| {
        let (p, dir_only) = p.strip_suffix('/').map_or((p.as_str(), false), |p| (p, true));
        if dir_only && !is_dir {
            return false;
        }
        let s: Vec<&str> = path.split('/').collect();
        match p.contains('/') {
            true => segments(&p.strip_prefix('/').unwrap_or(p).split('/').collect::<Vec<_>>(), &s),
            false => segments(&[p], &s[s.len() - 1..]),
        }
    })
}

pub fn parent(p: &str) -> &str {
    p.rfind('/').map_or("", |i| &p[..i])
}
fn within<'a>(p: &'a str, dir: &str) -> Option<&'a str> {
    if dir.is_empty() { Some(p) } else { p.strip_prefix(dir)?.strip_prefix('/') }
}

impl Proj {
    /// The configuration for what lies directly in this folder; the user's one is in the root.
    pub fn nearest(&self, dir: &str) -> Option<(&str, &Conf)> {
        let mut d = dir;
        loop {
            if let Some((k, c)) = self.confs.get_key_value(d) {
                return Some((k, c));
            }
            if d.is_empty() {
                return None;
            }
            d = parent(d);
        }
    }
    fn ignored(&self, p: &str, is_dir: bool) -> bool {
        let Some(git) = &self.git else { return false };
        if within(p, git).is_none() {
            return false;
        }
        let mut d = parent(p);
        loop {
            if let Some(g) = self.gitignore.get(d) {
                let rel = within(p, d).unwrap();
                for q in g.iter().rev() {
                    let (neg, q) = q.strip_prefix('!').map_or((false, q.as_str()), |q| (true, q));
                    if matches(q, rel, is_dir) {
                        return !neg;
                    }
                }
            }
            if d == git || d.is_empty() {
                break;
            }
            d = parent(d);
        }
        let rel = within(p, git).unwrap();
        self.info.iter().chain(&self.global).any(|q| matches(q, rel, is_dir))
    }
    /// Whether no walk from this folder comes to that one.
    fn hidden_from(&self, root: &str, dir: &str) -> bool {
        let Some(rel) = within(dir, root) else { return dir != root };
        let mut p = root.to_string();
        rel.split('/').any(|c| {
            p = if p.is_empty() { c.to_string() } else { format!("{p}/{c}") };
            c.starts_with('.') || self.ignored(&p, true)
        })
    }
    /// Whether a configuration that cannot be read might be looked at all the same.
    fn unclear(&self) -> bool {
        let broken: Vec<_> = self.confs.iter().filter(|c| c.1.broken).collect();
        !broken.is_empty() && !self.broken() && broken.iter().any(|(d, c)| c.select.len() % 3 == 2 || self.args.iter().any(|a| !self.hidden_from(&self.resolve(a), d)))
    }
    pub fn excluded(&self, p: &str, is_dir: bool) -> bool {
        let conf = self.nearest(parent(p));
        let (root, own, default) = match conf {
            Some((d, c)) => (d, &c.exclude[..], c.default_exclude.unwrap_or(true)),
            None => match &self.user {
                Some(c) => ("", &c.exclude[..], c.default_exclude.unwrap_or(true)),
                None => ("", &[][..], true),
            },
        };
        let rel = within(p, root).unwrap();
        own.iter().any(|q| matches(q, rel, is_dir)) || (default && !self.no_default && DEFAULTS.iter().any(|q| matches(q, rel, is_dir)))
    }
    pub fn included(&self, p: &str) -> bool {
        let (root, list) = match self.nearest(parent(p)) {
            Some((d, c)) => (d, &c.include),
            None => match &self.user {
                Some(c) => ("", &c.include),
                None => return true,
            },
        };
        if list.is_empty() {
            return true;
        }
        let rel = within(p, root).unwrap();
        list.iter().any(|q| {
            let mut at = rel;
            let mut is_dir = false;
            loop {
                if matches(q, at, is_dir) {
                    return true;
                }
                if !at.contains('/') {
                    return false;
                }
                at = parent(at);
                is_dir = true;
            }
        })
    }
    pub fn rules(&self, p: &str) -> BTreeSet<usize> {
        match self.nearest(parent(p)).map(|x| x.1).or(self.user.as_ref()) {
            Some(c) => c.select.iter().copied().collect(),
            None => (0..MARKS.len()).collect(),
        }
    }
    /// What an argument stands for, from the top.
    fn resolve(&self, arg: &str) -> String {
        let mut at: Vec<&str> = self.cwd.split('/').filter(|s| !s.is_empty()).collect();
        let arg = match arg.strip_prefix("$TOP") {
            Some(a) => {
                at.clear();
                a
            }
            None => arg,
        };
        for c in arg.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    at.pop();
                }
                c => at.push(c),
            }
        }
        at.join("/")
    }
    fn expected(&self) -> BTreeMap<String, BTreeSet<usize>> {
        let mut out = BTreeMap::new();
        for a in &self.args {
            let root = self.resolve(a);
            if self.files.contains(&root) {
                out.insert(root.clone(), self.rules(&root));
                continue;
            }
            for f in &self.files {
                let Some(rel) = within(f, &root) else { continue };
                let ext = f.rsplit('/').next().unwrap().rsplit_once('.').map_or("", |x| x.1);
                if !matches!(ext, "R" | "r" | "Rmd" | "rmd" | "qmd" | "Qmd") {
                    continue;
                }
                let mut skip = false;
                let mut p = root.clone();
                let parts: Vec<&str> = rel.split('/').collect();
                for (i, c) in parts.iter().enumerate() {
                    p = if p.is_empty() { c.to_string() } else { format!("{p}/{c}") };
                    let is_dir = i + 1 < parts.len();
                    skip |= c.starts_with('.') || self.ignored(&p, is_dir) || self.excluded(&p, is_dir);
                }
                if !skip && self.included(f) {
                    out.insert(f.clone(), self.rules(f));
                }
            }
        }
        out.retain(|_, r| !r.is_empty());
        out
    }
    /// Whether some configuration that applies for sure is broken.
    fn broken(&self) -> bool {
        self.args.iter().any(|a| {
            let r = self.resolve(a);
            let d = if self.files.contains(&r) { parent(&r).to_string() } else { r };
            let c = self.nearest(&d).map(|x| x.1).or(self.user.as_ref());
            // Names of rules are looked up when there is something to lint.
            c.is_some_and(|c| c.broken && (c.select.len() % 3 != 2 || self.expected().keys().any(|f| self.nearest(parent(f)).map(|x| x.1).or(self.user.as_ref()).is_some_and(|x| std::ptr::eq(x, c)))))
        })
    }
}

fn conf_text(c: &Conf) -> Vec<u8> {
    if c.broken {
        return [&b"[lint]\nselect = \n"[..], b"[lint]\nselect = [\"\xff\"]\n", b"[lint]\nselect = [\"no_such_rule\"]\n"][c.select.len() % 3].to_vec();
    }
    let mut t = format!("[lint]\nselect = {}\n", json!(c.select.iter().map(|&i| MARKS[i].0).collect::<Vec<_>>()));
    if !c.exclude.is_empty() {
        t.push_str(&format!("exclude = {}\n", json!(c.exclude)));
    }
    if !c.include.is_empty() {
        t.push_str(&format!("include = {}\n", json!(c.include)));
    }
    if let Some(d) = c.default_exclude {
        t.push_str(&format!("default-exclude = {d}\n"));
    }
    t.into_bytes()
}

pub fn put(dir: &Path, name: &str, text: impl AsRef<[u8]>) {
    let f = dir.join(name);
    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
    std::fs::write(f, text).unwrap();
}

pub fn content(f: &str) -> String {
    let code: String = MARKS.iter().map(|m| format!("{}\n", m.1)).collect();
    let md = f.ends_with("md") && !f.ends_with("rmD");
    if md { format!("text\n\n```{{r}}\n{code}```\n") } else { code }
}

pub fn put_confs(p: &Proj, top: &Path) {
    for (d, c) in &p.confs {
        let at = |n: &str| if d.is_empty() { n.to_string() } else { format!("{d}/{n}") };
        if c.name != 1 {
            put(top, &at("jarl.toml"), conf_text(c));
        }
        if c.name == 1 {
            put(top, &at(".jarl.toml"), conf_text(c));
        }
        if c.name == 2 {
            put(top, &at(".jarl.toml"), "[lint]\nselect = []\n");
        }
    }
}

fn judge(p: &Proj) -> Result<usize, String> {
    let tmp = sut::scratch();
    let top = &tmp.path().canonicalize().unwrap();
    for f in &p.files {
        put(top, f, content(f));
    }
    put_confs(p, top);
    if let Some(g) = &p.git {
        std::fs::create_dir_all(top.join(g).join(".git")).unwrap();
        if !p.info.is_empty() {
            put(top, &format!("{g}/.git/info/exclude"), p.info.join("\n") + "\n");
        }
    }
    if !p.global.is_empty() {
        put(top, &(if p.xdg { "xdg".to_string() } else { format!("{}/.config", p.home) } + "/git/ignore"), p.global.join("\n") + "\n");
    }
    for (d, line) in &p.noise {
        put(top, &format!("{d}/.ignore"), format!("{line}\n"));
    }
    for (d, g) in &p.gitignore {
        put(top, &format!("{d}/.gitignore"), &(g.join("\n") + "\n"));
    }
    std::fs::create_dir_all(top.join(&p.cwd)).unwrap();
    std::fs::create_dir_all(top.join(&p.home)).unwrap();
    if let Some(u) = &p.user {
        let d = if p.xdg { "xdg/jarl".to_string() } else { format!("{}/.config/jarl", p.home) };
        put(top, &format!("{d}/{}", if u.name == 1 { ".jarl.toml" } else { "jarl.toml" }), conf_text(u));
    }
    let args: Vec<String> = p.args.iter().map(|a| a.replace("$TOP", top.to_str().unwrap())).collect();
    let mut cmd = Command::new(sut::jarl_bin());
    cmd.arg("check").args(&args).args(["--output-format", "json"]).current_dir(top.join(&p.cwd)).env("HOME", top.join(&p.home)).env("NO_COLOR", "1").stdin(Stdio::null());
    if p.xdg {
        cmd.env("XDG_CONFIG_HOME", top.join("xdg"));
    } else {
        cmd.env_remove("XDG_CONFIG_HOME");
    }
    if p.no_default {
        cmd.arg("--no-default-exclude");
    }
    let o = cmd.output().expect("the jarl binary runs");
    let rc = o.status.code().unwrap_or(-1);
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    if p.broken() {
        return if rc == 255 && out.is_empty() && !err.is_empty() { Ok(0) } else { Err(format!("broken configuration: status {rc}\n{out}\n{err}")) };
    }
    let want = p.expected();
    let mut got: BTreeMap<String, BTreeMap<String, usize>> = BTreeMap::new();
    if !out.contains("No R files found") {
        let v: Value = serde_json::from_str(&out).map_err(|_| format!("output: status {rc}\n{out}\n{err}"))?;
        for d in v["diagnostics"].as_array().into_iter().flatten() {
            let n = d["filename"].as_str().unwrap_or("");
            let full = if n.starts_with('/') { Path::new(n).to_path_buf() } else { top.join(&p.cwd).join(n) };
            let n = full.strip_prefix(top).unwrap_or(&full).to_string_lossy().into_owned();
            *got.entry(n).or_default().entry(d["message"]["name"].as_str().unwrap_or("").into()).or_insert(0) += 1;
        }
        if v["errors"].as_array().is_some_and(|e| !e.is_empty()) {
            return Err(format!("errors: {}", v["errors"]));
        }
    }
    for f in want.keys().chain(got.keys()) {
        let w: BTreeMap<String, usize> = want.get(f).into_iter().flatten().map(|&i| (MARKS[i].0.to_string(), 1)).collect();
        let g = got.get(f).cloned().unwrap_or_default();
        if w != g {
            let kind = if g.is_empty() {
                "not linted"
            } else if w.is_empty() {
                "linted"
            } else if w.keys().eq(g.keys()) {
                "several times"
            } else {
                "other settings"
            };
            return Err(format!("{kind}: {f}: expected {:?}, reported {g:?}", w.keys().collect::<Vec<_>>()));
        }
    }
    if rc != i32::from(!want.is_empty()) {
        return Err(format!("status: {rc}\n{out}\n{err}"));
    }
    Ok(want.len())
}

fn pattern(rng: &mut Rng) -> String {
    let dir = *rng.pick(DIRS);
    let last = dir.rsplit('/').next().unwrap();
    let file = *rng.pick(NAMES);
    match rng.below(19) {
        0 => format!("{last}/"),
        1 => format!("/{dir}/"),
        2 => format!("{dir}/"),
        3 => last.to_string(),
        4 => dir.to_string(),
        5 => file.to_string(),
        6 => format!("/{file}"),
        7 => format!("{dir}/{file}"),
        8 => format!("{dir}/*.R"),
        9 => format!("{dir}/**/*.R"),
        10 => format!("**/{last}/*.R"),
        11 => "*.R".into(),
        12 => "test-*.R".into(),
        13 => "**/*.{Rmd,qmd}".into(),
        14 => "*.[Rr]".into(),
        15 => "[abc].?".into(),
        16 => format!("**/{last}/"),
        17 => format!("{dir}/**"),
        _ => format!("**/{file}"),
    }
}

pub fn conf(rng: &mut Rng, taken: &mut BTreeSet<Vec<usize>>) -> Conf {
    let select = loop {
        let mut s: Vec<usize> = (0..MARKS.len()).filter(|_| rng.chance(1, 2)).collect();
        if s.is_empty() {
            s.push(0);
        }
        if s.len() < MARKS.len() && taken.insert(s.clone()) {
            break s;
        }
    };
    let mut c = Conf { name: *rng.pick(&[0, 0, 0, 1, 2]), select, ..Default::default() };
    if rng.chance(1, 2) {
        c.exclude = (0..rng.range(1, 3)).map(|_| pattern(rng)).collect();
    }
    if rng.chance(1, 4) {
        c.include = (0..rng.range(1, 3)).map(|_| pattern(rng)).collect();
    }
    if rng.chance(1, 4) {
        c.default_exclude = Some(rng.chance(1, 2));
    }
    c.broken = rng.chance(1, 40);
    c
}

pub fn case(rng: &mut Rng) -> Proj {
    let mut p = Proj::default();
    let mut dirs: Vec<String> = vec!["w".into(), "w/p".into()];
    for d in DIRS {
        if rng.chance(2, 5) {
            dirs.push(format!("w/p/{d}"));
        }
    }
    for d in &dirs {
        for n in NAMES {
            // a file `R` would be in the way of a folder `R`
            if *n == "R" && (d.ends_with("/p") || d.ends_with("sub") || d.ends_with("deep")) {
                continue;
            }
            if rng.chance(1, 6) {
                p.files.insert(format!("{d}/{n}"));
            }
        }
    }
    p.files.insert("w/p/a.R".into());
    let mut taken = BTreeSet::new();
    for d in dirs.iter().chain([&String::new()]) {
        if rng.chance(1, 6) {
            p.confs.insert(d.clone(), conf(rng, &mut taken));
        }
    }
    if rng.chance(1, 3) {
        p.user = Some(conf(rng, &mut taken));
    }
    p.xdg = rng.chance(1, 5);
    p.home = rng.pick(&["h", "w", "w/p"]).to_string();
    if rng.chance(2, 3) {
        p.git = Some(rng.pick(&["w/p", "w/p", "w", "w/p/sub"]).to_string());
    }
    for d in ["w/p", "w", "w/p/sub", "w/p/R"] {
        if rng.chance(1, 5) && dirs.iter().any(|x| x == d) {
            let mut g: Vec<String> = (0..rng.range(1, 3)).map(|_| pattern(rng)).filter(|q| !q.contains('{')).collect();
            if rng.chance(1, 3) {
                g.push(format!("!{}", rng.pick(&["a.R", "test-*.R", "/b.r", "c.Rmd"])));
            }
            p.gitignore.insert(d.into(), g);
        }
    }
    let simple = |rng: &mut Rng| rng.pick(&["b.r", "*.Rmd", "deep/", "sub/", "build", "test-*.R", "[ab].*", "renv", "tests/"]).to_string();
    if rng.chance(1, 5) {
        p.info.push(simple(rng));
        if rng.chance(1, 3) {
            p.info.push("/R/*.R".into());
        }
    }
    if rng.chance(1, 5) {
        p.global.push(simple(rng));
    }
    for d in &dirs {
        if rng.chance(1, 12) {
            p.noise.insert(d.clone(), rng.pick(&["*", "*.R", "sub/", "!*"]).to_string());
        }
    }
    // a broken configuration where nothing is looked at
    if rng.chance(1, 12) {
        let d = rng.pick(&dirs).clone();
        p.confs.entry(d.clone()).or_insert_with(|| conf(rng, &mut taken)).broken = true;
        if let Some(r) = within(&d, "w/p")
            && rng.chance(2, 3)
        {
            p.git = Some("w/p".into());
            p.gitignore.entry("w/p".into()).or_default().push(format!("/{r}/"));
        }
    }
    let elsewhere = rng.chance(1, 12);
    if elsewhere {
        for d in ["w/p", "w"] {
            let c = p.confs.entry(d.into()).or_insert_with(|| conf(rng, &mut taken));
            c.broken = false;
            c.exclude.clear();
            c.include.clear();
        }
        let mut u = conf(rng, &mut taken);
        u.broken = true;
        p.user = Some(u);
    }
    p.no_default = rng.chance(1, 6);
    p.cwd = rng.pick(&["w/p", "w/p", "w/p", "w", "w/p/sub", "w/p/R"]).to_string();
    if !dirs.contains(&p.cwd) {
        p.cwd = "w/p".into();
    }
    // arguments: as seen from the current folder, or absolute
    let from = |rng: &mut Rng, p: &Proj, target: &str| -> String {
        if rng.chance(1, 4) {
            return format!("$TOP/{target}");
        }
        if let Some(r) = within(target, &p.cwd) {
            return if rng.chance(1, 4) { format!("./{r}") } else { r.to_string() };
        }
        if target == p.cwd {
            return ".".into();
        }
        let mut up = String::new();
        let mut d = p.cwd.as_str();
        while within(target, d).is_none() && d != target {
            up.push_str("../");
            d = parent(d);
        }
        let rest = if d == target { "" } else { within(target, d).unwrap() };
        format!("{up}{rest}")
    };
    let files: Vec<String> = p.files.iter().cloned().collect();
    for _ in 0..*rng.pick(if elsewhere { &[2, 3, 3, 4, 5] } else { &[1, 1, 1, 2, 3] }) {
        let target = match rng.below(5) {
            0 | 1 => p.cwd.clone(),
            2 | 3 => rng.pick(&dirs).clone(),
            _ => rng.pick(&files).clone(),
        };
        // what an explicit argument does with patterns that name it or what is above it is not documented
        let is_file = p.files.contains(&target);
        let mut odd = false;
        let mut at = target.as_str();
        let mut dir = !is_file;
        while !at.is_empty() {
            odd |= p.ignored(at, dir) || (dir && p.excluded(at, dir));
            at = parent(at);
            dir = true;
        }
        if is_file {
            odd |= p.excluded(&target, false) && !DEFAULTS.iter().any(|q| matches(q, target.rsplit('/').next().unwrap(), false)) || !p.included(&target);
            odd |= p.nearest(parent(&target)).map(|x| x.1).or(p.user.as_ref()).is_some_and(|c| !c.exclude.is_empty());
        }
        if odd {
            continue;
        }
        let a = from(rng, &p, &target);
        p.args.push(a);
    }
    if p.args.is_empty() {
        p.cwd = "w".into();
        p.args.push(".".into());
    }
    p
}

/// Not documented, so not judged.
fn out_of_domain(p: &Proj) -> bool {
    // a root the user names lies inside of what is ignored or excluded
    p.args.iter().any(|a| {
        let r = p.resolve(a);
        let is_file = p.files.contains(&r);
        let mut at = r.as_str();
        let mut dir = !is_file;
        while !at.is_empty() {
            if (p.ignored(at, dir) && !is_file) || (dir && p.excluded(at, dir)) {
                return true;
            }
            at = parent(at);
            dir = true;
        }
        false
    }) || p.unclear()
        // names of rules are looked up when there is something to lint
        || (p.user.as_ref().is_some_and(|c| c.broken && c.select.len() % 3 == 2) && !p.broken())
        // the user's configuration would be looked at as one of the project
        || (p.user.is_some() && p.args.iter().any(|a| within(&format!("{}/.config", p.home), &p.resolve(a)).is_some() && p.resolve(a).contains(".config")))
}

pub fn run_c28(ctx: &mut Ctx) {
    ctx.rule = "a project of which at least one file is linted, by its layout, settings and arguments".into();
    let mut rng = ctx.rng.fork();
    let mut seen = BTreeSet::new();
    while ctx.time_left(1.0) {
        let p = case(&mut rng);
        if out_of_domain(&p) {
            ctx.bump("outside the domain", 1);
            continue;
        }
        ctx.case(format!("{p:?}"));
        match judge(&p) {
            Ok(n) => {
                let kind = format!("{} configurations{}", p.confs.len().min(3), if p.user.is_some() { " and the user's" } else { "" });
                ctx.count(&kind, &format!("{p:?}"), n > 0);
                ctx.bump("files linted", n as u64);
                ctx.bump("files not linted", (p.files.len() - n.min(p.files.len())) as u64);
                for c in p.confs.values() {
                    ctx.bump("patterns of exclude", c.exclude.len() as u64);
                    ctx.bump("patterns of include", c.include.len() as u64);
                }
                ctx.bump("gitignore files", p.gitignore.len() as u64);
                ctx.bump("lists of git besides .gitignore", (!p.info.is_empty()) as u64 + (!p.global.is_empty()) as u64);
                ctx.bump("broken configurations that apply to nothing", (!p.broken() && p.confs.values().chain(&p.user).any(|c| c.broken)) as u64);
                ctx.bump("arguments", p.args.len() as u64);
                ctx.sample(&kind, || json!(format!("{:?} from {} with {:?}", p.args, p.cwd, p.confs)));
            }
            Err(e) => {
                let kind: String = e.split(':').next().unwrap().into();
                if !seen.insert(kind.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                let fails = |q: &Proj| !out_of_domain(q) && judge(q).is_err_and(|e| e.starts_with(&format!("{kind}:")));
                let mut q = p.clone();
                let mut steps: Vec<Box<dyn Fn(&mut Proj)>> = vec![];
                for f in p.files.clone() {
                    steps.push(Box::new(move |q| {
                        if q.files.len() > 1 {
                            q.files.remove(&f);
                        }
                    }));
                }
                for (d, c) in p.confs.clone() {
                    let e = d.clone();
                    steps.push(Box::new(move |q| {
                        q.confs.remove(&e);
                    }));
                    for i in (0..c.exclude.len()).rev() {
                        let d = d.clone();
                        steps.push(Box::new(move |q| {
                            if let Some(c) = q.confs.get_mut(&d)
                                && i < c.exclude.len()
                            {
                                c.exclude.remove(i);
                            }
                        }));
                    }
                    for i in (0..c.include.len()).rev() {
                        let d = d.clone();
                        steps.push(Box::new(move |q| {
                            if let Some(c) = q.confs.get_mut(&d)
                                && i < c.include.len()
                            {
                                c.include.remove(i);
                            }
                        }));
                    }
                }
                steps.push(Box::new(|q| q.user = None));
                steps.push(Box::new(|q| q.git = None));
                steps.push(Box::new(|q| q.gitignore.clear()));
                steps.push(Box::new(|q| q.info.clear()));
                steps.push(Box::new(|q| q.global.clear()));
                steps.push(Box::new(|q| q.noise.clear()));
                steps.push(Box::new(|q| q.no_default = false));
                for i in (0..p.args.len()).rev() {
                    steps.push(Box::new(move |q| {
                        if q.args.len() > 1 && i < q.args.len() {
                            q.args.remove(i);
                        }
                    }));
                }
                for s in &steps {
                    let mut r = q.clone();
                    s(&mut r);
                    // files named as arguments have to stay
                    let named = |x: &Proj| x.args.iter().filter(|a| p.files.contains(&x.resolve(a)) && !x.files.contains(&x.resolve(a))).count();
                    if named(&r) == 0 && kit::guard(|| fails(&r)).unwrap_or(false) {
                        q = r;
                    }
                }
                let e = judge(&q).err().unwrap_or(e);
                ctx.fail(&format!("{q:?}"), format!("{e}\n--- case\n{q:#?}"), json!({"case": format!("{q:?}")}));
            }
        }
    }
}
