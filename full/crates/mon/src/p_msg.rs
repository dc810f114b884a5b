//! C38: what the command says about its own run is what it did.

use crate::r#gen::Gen;
use crate::sut;
use jarl_core::rule_set::{FixStatus, Rule};
use kit::{Ctx, Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::{Command, Stdio};

/// The rules that the documentation calls deprecated: name, since, and what is to be used instead.
const DEPRECATED: &[(&str, &str, &str)] = &[("browser", "0.5.0", "undesirable_function")];

#[derive(Clone, Debug, Hash, Default)]
struct Conf {
    dir: String,
    dot: bool,
    select: Option<Vec<String>>,
    extend: Option<Vec<String>>,
    ignore: Option<Vec<String>>,
    /// 1: `assignment = "="` (deprecated), 2: `[lint.assignment]`, 3: the same as an inline table
    assignment: u8,
    threshold: Option<usize>,
}

#[derive(Clone, Debug, Hash, Default)]
struct Case {
    files: BTreeMap<String, String>,
    confs: Vec<Conf>,
    cwd: String,
    args: Vec<String>,
    select: String,
    extend: String,
    ignore: String,
    assignment: Option<String>,
    timing: bool,
    fix: u8,
    hint: Option<String>,
    package: bool,
}

impl Conf {
    fn text(&self) -> String {
        let mut t = String::from("[lint]\n");
        for (k, v) in [("select", &self.select), ("extend-select", &self.extend), ("ignore", &self.ignore)] {
            if let Some(v) = v {
                t.push_str(&format!("{k} = {v:?}\n"));
            }
        }
        match self.assignment {
            1 => t.push_str("assignment = \"=\"\n"),
            2 => t.push_str("[lint.assignment]\noperator = \"<-\"\n"),
            3 => t.push_str("assignment = { operator = \"=\" }\n"),
            _ => {}
        }
        if let Some(n) = self.threshold {
            t.push_str(&format!("[lint.unused_function]\nthreshold-ignore = {n}\n"));
        }
        t
    }

    fn name(&self) -> String {
        let f = if self.dot { ".jarl.toml" } else { "jarl.toml" };
        if self.dir.is_empty() { f.into() } else { format!("{}/{f}", self.dir) }
    }
}

/// "proj/sub" and ".." is "proj"
fn join(dir: &str, rel: &str) -> String {
    let mut v: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
    for s in rel.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            s => v.push(s),
        }
    }
    v.join("/")
}

fn within(path: &str, dir: &str) -> bool {
    dir.is_empty() || path == dir || path.strip_prefix(dir).is_some_and(|r| r.starts_with('/'))
}

impl Case {
    fn put(&self, root: &Path) {
        for e in std::fs::read_dir(root).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() { std::fs::remove_dir_all(p).unwrap() } else { std::fs::remove_file(p).unwrap() }
        }
        for d in ["proj/sub/deep", "proj/R", "proj/empty"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        for (n, t) in &self.files {
            std::fs::write(root.join(n), t).unwrap();
        }
        for c in &self.confs {
            std::fs::write(root.join(c.name()), c.text()).unwrap();
        }
    }

    /// The configurations that apply to some of the paths.
    fn found(&self) -> Vec<&Conf> {
        let mut out = BTreeSet::new();
        for a in &self.args {
            let at = join(&self.cwd, a);
            let nearest = self.confs.iter().enumerate().filter(|(_, c)| within(&at, &c.dir)).max_by_key(|(_, c)| c.dir.len());
            out.extend(nearest.map(|n| n.0));
            if !self.files.contains_key(&at) {
                out.extend(self.confs.iter().enumerate().filter(|(_, c)| within(&c.dir, &at)).map(|n| n.0));
            }
        }
        out.into_iter().map(|i| &self.confs[i]).collect()
    }

    fn run(&self, root: &Path, more: &[&str]) -> (i32, String, String) {
        self.put(root);
        let mut c = Command::new(sut::jarl_bin());
        c.arg("check").args(&self.args).args(["--min-r-version", "4.6.0"]);
        for (k, v) in [("--select", &self.select), ("--extend-select", &self.extend), ("--ignore", &self.ignore)] {
            if !v.is_empty() {
                c.args([k, v]);
            }
        }
        if let Some(a) = &self.assignment {
            c.args(["--assignment", a]);
        }
        if self.timing {
            c.arg("--with-timing");
        }
        match self.fix {
            1 => drop(c.args(["--fix", "--allow-no-vcs"])),
            2 => drop(c.args(["--fix", "--unsafe-fixes", "--allow-no-vcs"])),
            _ => {}
        }
        c.args(more);
        c.current_dir(root.join(&self.cwd)).env("NO_COLOR", "1").env("HOME", root.join("home")).env_remove("XDG_CONFIG_HOME").env_remove("JARL_N_VIOLATIONS_HINT_STAT").env_remove("JARL_WALK_SEED");
        if let Some(h) = &self.hint {
            c.env("JARL_N_VIOLATIONS_HINT_STAT", h);
        }
        let o = c.stdin(Stdio::null()).output().expect("the command starts");
        (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
    }

    /// The names of rules that the user wrote.
    fn named(&self) -> BTreeSet<String> {
        let mut v: BTreeSet<String> = [&self.select, &self.extend, &self.ignore].iter().flat_map(|s| s.split(',')).map(|s| s.trim().to_string()).collect();
        for c in self.found() {
            v.extend([&c.select, &c.extend, &c.ignore].into_iter().flatten().flatten().cloned());
        }
        v
    }

    /// Whether the user asked for unused functions by name, not only to have them ignored.
    fn unused_by_name(&self) -> bool {
        [&self.select, &self.extend].iter().any(|s| s.split(',').any(|s| s.trim() == "unused_function"))
            || self.found().iter().any(|c| [&c.select, &c.extend].into_iter().flatten().flatten().any(|s| s == "unused_function"))
    }
}

#[derive(Debug, Default)]
struct Want {
    summary: Option<Vec<String>>,
    warnings: Vec<String>,
    notes: Vec<String>,
}

fn counted(n: usize, one: &str, more: &str) -> String {
    format!("{n} {}", if n == 1 { one } else { more })
}

fn list(out: &str) -> Result<(Vec<Value>, Vec<Value>), String> {
    let v: Value = serde_json::from_str(out).map_err(|e| format!("json: something else than JSON: {e}\n{out}"))?;
    Ok((v["diagnostics"].as_array().ok_or("json: no diagnostics")?.clone(), v["errors"].as_array().ok_or("json: no errors")?.clone()))
}

fn rule_of(d: &Value) -> &str {
    d["message"]["name"].as_str().unwrap_or("?")
}

fn wanted(c: &Case, root: &Path, ds: &[Value], errors: usize, unused: Option<usize>) -> Want {
    let n = ds.len();
    let fixes = |s: FixStatus| {
        ds.iter()
            .filter(|d| !d["fix"]["content"].as_str().unwrap_or("").is_empty() && d["fix"]["to_skip"] != json!(true))
            .filter(|d| Rule::from_name(rule_of(d)).is_some_and(|r| r.fix_status() == s))
            .count()
    };
    let (safe, hidden) = (fixes(FixStatus::Safe), fixes(FixStatus::Unsafe));
    let mut w = Want::default();
    if n > 0 {
        let mut s = vec![format!("Found {}.", counted(n, "error", "errors"))];
        match (safe, hidden) {
            (0, 0) => {}
            (0, h) => s.push(format!("{} available with the `--fix --unsafe-fixes` option.", counted(h, "fix is", "fixes are"))),
            (f, 0) => s.push(format!("{f} fixable with the `--fix` option.")),
            (f, h) => s.push(format!("{f} fixable with the `--fix` option ({} can be enabled with the `--unsafe-fixes` option).", counted(h, "hidden fix", "hidden fixes"))),
        }
        let limit = c.hint.as_ref().and_then(|h| h.parse::<i64>().ok()).unwrap_or(15);
        if n as i64 > limit {
            s.push(format!("More than {limit} errors reported, use `--statistics` to get the count by rule."));
        }
        w.summary = Some(s);
    } else if errors == 0 {
        w.summary = Some(vec!["All checks passed!".into()]);
    }
    if c.assignment.is_some() {
        w.warnings.push("`--assignment` is deprecated. Use `[lint.assignment]` in jarl.toml instead.".into());
    }
    if let Some(n) = unused {
        w.warnings.push(format!("{n} `unused_function` diagnostics hidden (likely false positives)."));
        w.warnings.push("To show them:".into());
        w.warnings.push("  - set 'threshold-ignore' in `[lint.unused_function]` in jarl.toml,".into());
        w.warnings.push("  - or explicitly include 'unused_function' in the set of rules.".into());
    }
    for f in c.found() {
        if f.assignment == 1 {
            w.warnings.push("Argument `assignment` in `[lint]` is deprecated. Use `[lint.assignment]` with `operator` instead.".into());
        }
    }
    let named = c.named();
    for (name, since, instead) in DEPRECATED {
        if named.contains(*name) {
            w.warnings.push(format!("Rule `{name}` is deprecated since v{since}. Use `{instead}` instead."));
        }
    }
    if c.timing {
        w.notes.push("Checked files in: #".into());
    }
    w.notes.extend(used(c, root));
    w
}

/// The note about the configuration: there is one, and it is not in the current folder.
fn used(c: &Case, root: &Path) -> Option<String> {
    match c.found()[..] {
        [f] if f.dir != c.cwd => Some(format!("Used '{}'", root.join(f.name()).display())),
        _ => None,
    }
}

/// The sections at the end: their titles and lines, with what was printed before.
fn sections(out: &str) -> Result<(String, Vec<(String, Vec<String>)>), String> {
    let mut head = String::new();
    let mut v: Vec<(String, Vec<String>)> = vec![];
    let mut wide = BTreeSet::new();
    for l in out.lines() {
        if let Some(t) = l.strip_prefix("── ") {
            let Some((t, rest)) = t.split_once(" ──") else { return Err(format!("sections: a strange line {l:?}")) };
            if !rest.chars().all(|c| c == '─') {
                return Err(format!("sections: a strange line {l:?}"));
            }
            wide.insert(l.chars().count());
            v.push((t.into(), vec![]));
        } else if let Some(s) = v.last_mut() {
            s.1.push(l.into());
        } else {
            head.push_str(l);
            head.push('\n');
        }
    }
    let n = v.len();
    for (i, s) in v.iter_mut().enumerate() {
        if i + 1 < n && s.1.last().is_some_and(String::is_empty) {
            s.1.pop();
        }
    }
    if wide.len() > 1 {
        return Err(format!("sections: the headers have different widths: {wide:?}\n{out}"));
    }
    Ok((head, v))
}

fn timed(l: &str) -> String {
    match l.strip_prefix("Checked files in: ") {
        Some(t) if t.trim_end_matches(|c: char| c.is_alphabetic()).parse::<f64>().is_ok_and(|x| x > 0.0) && t.ends_with('s') => "Checked files in: #".into(),
        _ => l.into(),
    }
}

fn judge(c: &Case) -> Result<Vec<String>, String> {
    let tmp = sut::scratch();
    let root = tmp.path();
    let mut seen = vec![];
    let (code, out, err) = c.run(root, &["--output-format", "json"]);
    let none = err.contains("No R files found");
    let (ds, es) = list(&out)?;
    let rs = c.files.keys().filter(|f| f.ends_with(".R") && c.args.iter().any(|a| within(f, &join(&c.cwd, a)))).count();
    if none != (rs == 0) || (none && (!ds.is_empty() || !es.is_empty() || code != 0)) {
        return Err(format!("nothing to check: {rs} files, exit code {code}, {} diagnostics\n{err}", ds.len()));
    }
    if !none && es.is_empty() && !err.is_empty() {
        return Err(format!("json: on stderr without an error: {err}"));
    }
    // how many unused functions there would be
    let mut unused = None;
    if c.package {
        let mut q = c.clone();
        q.extend = if q.extend.is_empty() { "unused_function".into() } else { format!("{},unused_function", q.extend) };
        let (_, out, _) = q.run(root, &["--output-format", "json"]);
        let all = list(&out)?.0.iter().filter(|d| rule_of(d) == "unused_function").count();
        let found = c.found();
        let limit = found.iter().map(|f| f.threshold.unwrap_or(50)).min().unwrap_or(50);
        let shown = ds.iter().filter(|d| rule_of(d) == "unused_function").count();
        // The configuration extends as long as the command line does not.
        let conf = c.confs.iter().filter(|k| within("proj/R", &k.dir)).max_by_key(|k| k.dir.len()).filter(|_| c.extend.is_empty());
        let extended = conf.and_then(|k| k.extend.as_ref()).is_some_and(|e| e.contains(&"unused_function".to_string()));
        let in_use = extended || c.select.split(',').chain(c.extend.split(',')).any(|s| ["ALL", "CORR", "unused_function"].contains(&s.trim()));
        let hide = in_use && !c.unused_by_name() && all > limit;
        if hide {
            unused = Some(all);
            seen.push("hidden unused functions".into());
        }
        let want = if in_use && !hide { all } else { 0 };
        if shown != want {
            return Err(format!("hidden: {all} unused functions, limit {limit}, in use {in_use}, by name {}: {shown} shown", c.unused_by_name()));
        }
    }
    let w = wanted(c, root, &ds, es.len(), unused);
    for format in ["full", "concise", "github"] {
        let (code2, out, err) = c.run(root, &["--output-format", format]);
        if code2 != code {
            return Err(format!("{format}: exit code {code2}, with JSON {code}"));
        }
        if none {
            if out.trim_end() != "Warning: No R files found under the given path(s)." || !err.is_empty() {
                return Err(format!("nothing to check: {format} says\n{out}{err}"));
            }
            continue;
        }
        if format == "github" {
            if let Some(l) = out.lines().find(|l| !l.starts_with("::warning title=Jarl (")) {
                return Err(format!("github: something else than diagnostics: {l:?}"));
            }
            continue;
        }
        if es.is_empty() && !err.is_empty() {
            return Err(format!("{format}: on stderr without an error: {err}"));
        }
        let (head, got) = sections(&out)?;
        let about = |m: String| format!("{m}\nin {format}, with {} diagnostics and {} errors:\n{}", ds.len(), es.len(), &out[head.len().min(out.len())..]);
        if ds.is_empty() && !head.trim().is_empty() {
            return Err(about(format!("sections: text before them without a diagnostic: {head:?}")));
        }
        let mut want: Vec<(&str, Vec<String>)> = vec![];
        if let Some(s) = &w.summary {
            want.push(("Summary", s.clone()));
        }
        if !w.warnings.is_empty() {
            want.push(("Warnings", w.warnings.clone()));
        }
        if !w.notes.is_empty() {
            want.push(("Notes", w.notes.clone()));
        }
        let titles: Vec<&str> = got.iter().map(|s| s.0.as_str()).collect();
        if titles != want.iter().map(|s| s.0).collect::<Vec<_>>() {
            return Err(about(format!("sections: {titles:?} instead of {:?}", want)));
        }
        for ((t, want), (_, got)) in want.iter().zip(&got) {
            let (mut want, mut got): (Vec<String>, Vec<String>) = (want.clone(), got.iter().map(|l| timed(l)).collect());
            if *t == "Warnings" {
                // their order is not said
                want.sort();
                got.sort();
            }
            if want != got {
                return Err(about(format!("{}: {got:?} instead of {want:?}", t.to_lowercase())));
            }
            seen.extend(got.into_iter().map(|l| format!("{}: {}", t.to_lowercase(), l.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>().split('\'').next().unwrap().trim().replace("##", "#"))));
        }
    }
    if none {
        return Ok(vec!["no R files".into()]);
    }
    // the other ways to report name the configuration too
    for (flag, says) in [("--statistics", ds.len()), ("--add-jarl-ignore", ds.len())] {
        let mut q = c.clone();
        if flag == "--add-jarl-ignore" {
            q.fix = 0;
        }
        if c.fix > 0 && flag == "--add-jarl-ignore" || c.package {
            continue;
        }
        let (code2, out, _) = q.run(root, &[flag]);
        let note = out.lines().find(|l| l.starts_with("Used '")).map(String::from);
        if says > 0 && note != used(c, root) {
            return Err(format!("used: {flag} says {note:?} instead of {:?}", used(c, root)));
        }
        let want = if flag == "--statistics" || !es.is_empty() { code } else { 0 };
        if code2 != want {
            return Err(format!("exit code of {flag}: {code2} instead of {want}"));
        }
        let passed = out.contains("All checks passed!");
        if flag == "--statistics" && passed != (ds.is_empty() && es.is_empty()) {
            return Err(format!("statistics: {} diagnostics and {} errors\n{out}", ds.len(), es.len()));
        }
        if flag == "--add-jarl-ignore" && out.contains("No violations found") != ds.is_empty() {
            return Err(format!("add-jarl-ignore: {} diagnostics\n{out}", ds.len()));
        }
        if note.is_some() {
            seen.push(format!("{flag} with a note"));
        }
    }
    Ok(seen)
}

fn names(rng: &mut Rng) -> Vec<String> {
    (0..rng.range(1, 4)).map(|_| rng.pick(&["browser", "browser", "any_is_na", "PERF", "READ", "sort", "TESTTHAT", "undesirable_function", "ALL", "equals_na"]).to_string()).collect()
}

fn cli(rng: &mut Rng) -> String {
    let mut v = names(rng);
    v.dedup();
    v.join(if rng.chance(1, 4) { ", " } else { "," })
}

fn body(g: &Gen, rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => "x <- 1\n".into(),
        1 => "x <- (\n".into(),
        2 | 3 => {
            let rule = *rng.pick(&["any_is_na", "any_duplicated", "equals_na", "sort", "all_equal", "browser", "class_equals", "assignment", "vector_logic", "true_false_symbol"]);
            let s = g.snip_of(rng, rule).map_or("any(is.na(x))".to_string(), |s| s.text.clone());
            let n = *rng.pick(&[1, 1, 2, 3, 8, 14, 15, 16]);
            let mut v = vec![s; n];
            if rng.chance(1, 2) {
                let rule = *rng.pick(&["all_equal", "equals_na", "sort", "browser"]);
                v.extend(g.snip_of(rng, rule).map(|s| s.text.clone()));
            }
            v.join("\n") + "\n"
        }
        4 => "any(is.na(x))\n".into(),
        // fixes of both kinds, few or none of each
        5 | 6 => {
            let mut v = vec!["any(is.na(x))"; rng.below(4)];
            v.extend(vec!["if (all.equal(a, b)) 1"; rng.below(4)]);
            rng.shuffle(&mut v);
            v.join("\n") + "\n"
        }
        _ => g.program(rng).trim_start_matches(['\n', '\r']).to_string(),
    }
}

fn case(g: &Gen, rng: &mut Rng) -> Case {
    let mut c = Case { cwd: "proj".into(), args: vec![".".into()], ..Case::default() };
    for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 3]) {
        let n = *rng.pick(&["proj/a.R", "proj/b.R", "proj/sub/c.R", "proj/sub/deep/d.R", "proj/R/e.R"]);
        c.files.insert(n.into(), body(g, rng));
    }
    for dir in ["", "proj", "proj/sub", "proj/sub/deep", "proj/empty"] {
        if rng.chance(1, if dir == "proj" { 2 } else { 7 }) {
            let maybe = |rng: &mut Rng| rng.chance(1, 4).then(|| names(rng));
            c.confs.push(Conf { dir: dir.into(), dot: rng.chance(1, 4), select: maybe(rng), extend: maybe(rng), ignore: maybe(rng), assignment: *rng.pick(&[0, 0, 1, 2, 3]), threshold: None });
        }
    }
    match rng.below(8) {
        0 => c.cwd = "proj/sub".into(),
        1 => (c.cwd, c.args) = ("proj/sub".into(), vec!["..".into()]),
        2 => c.args = vec!["sub".into()],
        3 if !c.files.is_empty() => {
            c.args = c.files.keys().filter(|_| rng.chance(2, 3)).map(|f| f.strip_prefix("proj/").unwrap().to_string()).collect();
            if c.args.is_empty() {
                c.args.push("empty".into());
            }
        }
        4 => c.args = rng.pick(&[vec!["empty"], vec!["R", "sub"], vec!["sub/deep", "sub"], vec!["sub", "."], vec!["./sub", "empty"], vec!["nowhere"]]).iter().map(|s| s.to_string()).collect(),
        5 => (c.cwd, c.args) = ("".into(), vec!["proj".into()]),
        _ => {}
    }
    if rng.chance(1, 2) {
        c.select = rng.pick(&["ALL", "ALL", "PERF,READ", "browser", "SUSP,CORR"]).to_string();
    }
    if rng.chance(1, 5) {
        c.select = cli(rng);
    }
    if rng.chance(1, 6) {
        c.extend = cli(rng);
    }
    if rng.chance(1, 6) {
        c.ignore = cli(rng);
    }
    if rng.chance(1, 5) {
        c.assignment = Some(rng.pick(&["<-", "="]).to_string());
    }
    c.timing = rng.chance(1, 4);
    c.fix = *rng.pick(&[0, 0, 0, 0, 1, 2]);
    if rng.chance(1, 2) {
        c.hint = Some(rng.pick(&["0", "1", "3", "14", "15", "many", "-1", ""]).to_string());
    }
    if rng.chance(1, 4) {
        c.package = true;
        c.fix = 0;
        c.ignore.clear();
        c.select = rng.pick(&["ALL", "CORR", "ALL,browser", "PERF", "unused_function", "PERF, unused_function"]).to_string();
        c.extend = rng.pick(&["", "", "", "CORR", "browser,unused_function"]).to_string();
        c.files.insert("proj/DESCRIPTION".into(), "Package: p\nVersion: 1.0\n".into());
        c.files.insert("proj/NAMESPACE".into(), "export(f)\n".into());
        let n = *rng.pick(&[0, 1, 2, 5, 49, 50, 51, 60]);
        c.files.insert("proj/R/u.R".into(), (0..n).map(|i| format!("fun_{i} <- function() {i}\n")).collect());
        for k in &mut c.confs {
            (k.select, k.ignore, k.extend) = (None, None, None);
            if rng.chance(1, 8) {
                k.extend = Some(vec!["unused_function".into()]);
            }
        }
        if c.found().len() == 1 && rng.chance(1, 2) {
            let dir = c.found()[0].dir.clone();
            let t = *rng.pick(&[0, 1, 2, 49, 50, 1000]);
            c.confs.iter_mut().filter(|k| k.dir == dir).for_each(|k| k.threshold = Some(t));
        }
    }
    c
}

fn simpler(c: &Case, bad: impl Fn(&Case) -> bool) -> Case {
    let mut c = c.clone();
    let mut left = 120;
    loop {
        let mut next: Vec<Case> = vec![];
        let mut add = |f: &dyn Fn(&mut Case)| {
            let mut q = c.clone();
            f(&mut q);
            next.push(q);
        };
        for k in c.files.keys() {
            add(&|q| drop(q.files.remove(k)));
            if c.files[k].lines().count() > 1 {
                add(&|q| {
                    let t = q.files[k].lines().take(c.files[k].lines().count() / 2).collect::<Vec<_>>().join("\n") + "\n";
                    q.files.insert(k.clone(), t);
                });
            }
        }
        for i in 0..c.confs.len() {
            add(&|q| drop(q.confs.remove(i)));
            for j in 0..4 {
                add(&|q| {
                    let k = &mut q.confs[i];
                    match j {
                        0 => k.select = None,
                        1 => k.extend = None,
                        2 => k.ignore = None,
                        _ => k.assignment = 0,
                    }
                });
            }
        }
        add(&|q| q.extend.clear());
        add(&|q| q.ignore.clear());
        add(&|q| q.assignment = None);
        add(&|q| q.timing = false);
        add(&|q| q.fix = 0);
        add(&|q| q.hint = None);
        let now = format!("{c:?}");
        let found = next.into_iter().filter(|q| format!("{q:?}") != now).find(|q| {
            left -= 1;
            left > 0 && bad(q)
        });
        match found {
            Some(q) => c = q,
            None => return c,
        }
    }
}

fn show(c: &Case) -> Value {
    json!({"files": c.files, "configurations": c.confs.iter().map(|k| (k.name(), k.text())).collect::<BTreeMap<_, _>>(), "folder": c.cwd,
        "arguments": c.args, "select": c.select, "extend-select": c.extend, "ignore": c.ignore, "assignment": c.assignment, "with-timing": c.timing, "fix": c.fix, "hint": c.hint})
}

pub fn run_c38(ctx: &mut Ctx) {
    ctx.rule = "a project, its configurations and a command line, and what the command said of it in every format".into();
    let g = Gen::load();
    let mut rng = ctx.rng.fork();
    let mut done = BTreeSet::new();
    while ctx.time_left(1.0) {
        let c = case(&g, &mut rng);
        ctx.case(format!("{c:?}"));
        match judge(&c) {
            Ok(seen) => {
                let class = if seen.iter().any(|s| s == "no R files") {
                    "nothing to check"
                } else if c.package {
                    "a package with unused functions"
                } else if c.fix > 0 {
                    "a project that is fixed"
                } else {
                    "a project"
                };
                for s in &seen {
                    ctx.bump(s, 1);
                }
                ctx.count(class, &c, !seen.is_empty());
                ctx.sample(class, || json!({"folder": c.cwd, "arguments": c.args, "said": seen}));
            }
            Err(e) => {
                let kind: String = e.split(':').next().unwrap().into();
                if !done.insert(kind.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                let q = simpler(&c, |q| judge(q).is_err_and(|e| e.starts_with(&format!("{kind}:"))));
                let e = judge(&q).err().unwrap_or(e);
                ctx.fail(&show(&q).to_string(), format!("{e}\n--- case\n{:#}", show(&q)), show(&q));
            }
        }
    }
}
