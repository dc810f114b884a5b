//! C30: every way to report tells the same, C29: runs are repeatable and files independent.

use crate::r#gen::{Gen, parses};
use crate::sut;
use jarl_core::rule_set::{FixStatus, Rule};
use jarl_core::settings::Settings;
use kit::{Ctx, Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Default, Hash)]
struct Proj {
    files: BTreeMap<String, Vec<u8>>,
    select: String,
    unfixable: Vec<String>,
    hint: Option<String>,
    /// The folder the command runs in, and its path arguments.
    cwd: String,
    args: Vec<String>,
    more: Vec<String>,
}

const NAMES: &[&str] = &["a.R", "b.R", "z.r", "sub/c.R", "sub/d x.R", "sub/deep/e.R", "été.R", "a,b.R", "50%.R", "k:l.R", "n.Rmd", "sub/o.qmd", "A.R", "a-1.R", "sub.R", "R/p.R", "sub/a.R", "R/a.R", "sub/deep/a.R", "sub/n.Rmd", "c\rd.R", "q\"t.R", "%2C%0A.R", "a::b,c.R", "sub/'e' f.R", "[x].R", "<b>.R"];

fn broken(g: &Gen, r: &mut Rng) -> Vec<u8> {
    loop {
        let mut p = g.program(r).into_bytes();
        let at = r.below(p.len() + 1);
        let junk = *r.pick(&["(", ")", "}", "{", "\"", "x y", "1 1", "else", "\\", "`"]);
        p.splice(at..at, junk.bytes());
        if String::from_utf8(p.clone()).is_ok_and(|t| !parses(&t)) {
            return p;
        }
    }
}

fn project(g: &Gen, r: &mut Rng) -> Proj {
    let mut p = Proj::default();
    for _ in 0..*r.pick(&[1, 1, 2, 3, 4, 6]) {
        let name = r.pick(NAMES).to_string();
        let body = match r.below(12) {
            0 => broken(g, r),
            1 => {
                let mut b = g.program(r).into_bytes();
                let at = r.below(b.len() + 1);
                b.insert(at, 0xff);
                b
            }
            2 => b"x <- 1\n".to_vec(),
            _ if !name.to_lowercase().ends_with(".r") => g.rmd(r).0.into_bytes(),
            4 => r.pick(&["f('a\nb' = 1, 'a\nb' = 2)", "list(`a\n` = 1, `a\n` = 2, `50%` = 1, `50%` = 3)", "f(a = 1, b = 2, a = 3, b = 4, c = 5, c = 6)"]).as_bytes().to_vec(),
            3 => {
                let rule = *r.pick(&["any_is_na", "any_duplicated", "equals_na", "sort", "all_equal", "download_file"]);
                let s = g.snip_of(r, rule).map_or("any(is.na(x))".to_string(), |s| s.text.clone());
                vec![s; r.range(1, 6)].join("\n").into_bytes()
            }
            _ => g.program(r).into_bytes(),
        };
        p.files.insert(name, body);
    }
    p.select = r.pick(&["ALL", "ALL", "ALL", "", "PERF,READ", "CORR,SUSP", "any_is_na", "READ"]).to_string();
    if r.chance(1, 4) {
        p.unfixable = (0..r.range(1, 4)).map(|_| r.pick(Rule::all()).name().to_string()).collect();
    }
    if r.chance(1, 3) {
        p.hint = Some(r.pick(&["0", "1", "3", "many", "-1", ""]).to_string());
    }
    p.args = vec![".".into()];
    if r.chance(1, 4) && p.files.keys().any(|f| f.starts_with("sub/")) {
        p.cwd = "sub".into();
        if r.chance(1, 2) {
            p.args = vec!["..".into()];
        }
    } else if r.chance(1, 4) {
        p.args = p.files.keys().filter(|_| r.chance(2, 3)).cloned().collect();
        if p.args.is_empty() {
            p.args.push(p.files.keys().next().unwrap().clone());
        }
        r.shuffle(&mut p.args);
    }
    if r.chance(1, 8) {
        p.more.push("--with-timing".into());
    }
    p
}

impl Proj {
    fn write(&self, dir: &Path) {
        for (n, b) in &self.files {
            let f = dir.join(n);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, b).unwrap();
        }
        std::fs::create_dir_all(dir.join(&self.cwd)).unwrap();
        if !self.unfixable.is_empty() {
            std::fs::write(dir.join("jarl.toml"), format!("[lint]\nunfixable = {:?}\n", self.unfixable)).unwrap();
        }
    }

    /// The names of the files that are checked, as the command is to show them, with their texts.
    fn checked(&self, dir: &Path) -> Vec<(PathBuf, &Vec<u8>)> {
        let below = |f: &str| match self.args[0].as_str() {
            "." => self.cwd.is_empty() || f.starts_with(&format!("{}/", self.cwd)),
            ".." => true,
            _ => self.args.iter().any(|a| a == f),
        };
        let mut v: Vec<_> = self
            .files
            .iter()
            .filter(|(f, _)| below(f))
            .map(|(f, b)| {
                let shown = if self.cwd.is_empty() {
                    PathBuf::from(f)
                } else {
                    f.strip_prefix(&format!("{}/", self.cwd)).map_or_else(|| dir.join(f), PathBuf::from)
                };
                (shown, b)
            })
            .collect();
        v.sort();
        v
    }
}

struct Out {
    code: i32,
    out: String,
    err: String,
}

fn run(dir: &Path, p: &Proj, extra: &[&str], env: &[(&str, &str)]) -> Out {
    let mut c = Command::new(sut::jarl_bin());
    c.arg("check").args(&p.args).args(extra).args(&p.more).args(["--min-r-version", "4.6.0"]);
    if !p.select.is_empty() {
        c.args(["--select", &p.select]);
    }
    c.current_dir(dir.join(&p.cwd)).env("NO_COLOR", "1").env("HOME", dir.join("home")).env_remove("XDG_CONFIG_HOME").env_remove("JARL_N_VIOLATIONS_HINT_STAT").env_remove("JARL_WALK_SEED");
    if let Some(h) = &p.hint {
        c.env("JARL_N_VIOLATIONS_HINT_STAT", h);
    }
    c.envs(env.iter().copied()).stdin(Stdio::null());
    if env.iter().any(|e| e.0 == "CLICOLOR_FORCE") {
        c.env_remove("NO_COLOR");
    }
    let o = c.output().expect("the command starts");
    Out { code: o.status.code().unwrap_or(-1), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

/// What one diagnostic is to look like everywhere.
#[derive(Clone, Debug, PartialEq)]
struct D {
    file: String,
    row: usize,
    col: usize,
    rule: String,
    text: String,
    body: String,
    help: Option<String>,
    source: std::sync::Arc<str>,
    range: (usize, usize),
    fix: Option<FixStatus>,
}

static DRAWN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Whether the full format shows the code, marks all of it and nothing else, and says what the JSON says.
fn drawn(d: &D, block: &[&str]) -> Result<bool, String> {
    let err = |what: &str| Err(format!("full: {what} for {} at {}:{}:{}\n{}", d.rule, d.file, d.row, d.col, block.join("\n")));
    let help: Vec<&str> = block.iter().filter_map(|l| l.trim_start().strip_prefix("= help: ")).collect();
    if help != d.help.iter().map(|h| h.split('\n').next().unwrap()).collect::<Vec<_>>() {
        return err(&format!("the suggestion is {:?}", d.help));
    }
    let code = &d.source[d.range.0..d.range.1];
    let plain = |l: &str| l.bytes().all(|b| (0x20..0x7f).contains(&b));
    let first = d.source[..d.range.0].matches('\n').count();
    let line = d.source.split('\n').nth(first).unwrap_or("");
    let body = d.body.split('\n').next().unwrap();
    if d.source.starts_with('\n') || !plain(line) || code.is_empty() {
        return Ok(false);
    }
    let numbered = |n: usize| {
        block.iter().position(|l| l.trim_start().strip_prefix(&n.to_string()).is_some_and(|r| r.trim_start().starts_with('|') && (l.starts_with(char::is_numeric) || l.starts_with(' '))))
    };
    let Some(i) = numbered(d.row) else { return err("the line is not shown") };
    let shown = block[i].split_once('|').map_or("", |x| x.1);
    if !shown.ends_with(line.trim_end()) && shown.trim() != line.trim() && !shown.contains(line.trim_end()) {
        return err("another line is shown");
    }
    if !code.contains('\n') {
        let marks = block.get(i + 1).and_then(|l| l.split_once("| ")).map_or("", |x| x.1);
        let col = marks.len() - marks.trim_start_matches(' ').len();
        let rest = marks.trim_start_matches(' ').trim_start_matches('-');
        let n = marks.len() - col - rest.len();
        if col != d.col - 1 || n != code.len() || !rest.trim_start().starts_with(body) {
            return err(&format!("{n} instead of {} characters are marked from column {}, with {rest:?}", code.len(), col + 1));
        }
    } else if d.source[..d.range.1].split('\n').all(plain) {
        let last = d.row + code.matches('\n').count();
        let Some(j) = numbered(last) else { return err("the last line is not shown") };
        let width = d.source[..d.range.1].rsplit('\n').next().unwrap().len();
        let marks = block.get(j + 1).and_then(|l| l.split_once("| |")).map_or("", |x| x.1);
        let rest = marks.trim_start_matches('_').trim_start_matches('-');
        if marks.len() - rest.len() != width + 1 || !rest.trim_start().starts_with(body) {
            return err(&format!("another end than column {width} of the line {last} is marked, or without the message"));
        }
    }
    Ok(true)
}

fn expected(p: &Proj, dir: &Path) -> (Vec<D>, Vec<String>) {
    let mut a = sut::args();
    a.select = p.select.clone();
    let mut s = Settings::default();
    if !p.unfixable.is_empty() {
        s.linter.unfixable = Some(p.unfixable.clone());
    }
    let cfg = sut::config_with(&a, Some(&s));
    let (mut ds, mut errs) = (vec![], vec![]);
    for (name, bytes) in p.checked(dir) {
        let shown = name.to_string_lossy().into_owned();
        let Ok(text) = String::from_utf8(bytes.clone()) else {
            errs.push(shown);
            continue;
        };
        let Ok(mut v) = sut::lint_as(&text, &shown, &cfg) else {
            errs.push(shown);
            continue;
        };
        v.sort_by_key(sut::range);
        let source: std::sync::Arc<str> = text.as_str().into();
        for d in v {
            let loc = d.location.unwrap();
            let rule = Rule::from_name(&d.message.name);
            ds.push(D {
                file: shown.clone(),
                row: loc.row(),
                col: loc.column() + 1,
                rule: d.message.name.clone(),
                text: match &d.message.suggestion {
                    Some(s) => format!("{} {s}", d.message.body),
                    None => d.message.body.clone(),
                },
                body: d.message.body.clone(),
                help: d.message.suggestion.clone(),
                source: source.clone(),
                range: sut::range(&d),
                fix: rule.map(|r| r.fix_status()).filter(|s| *s != FixStatus::None && sut::has_fix(&d)),
            });
        }
    }
    errs.sort();
    (ds, errs)
}

/// The first number in each line that has this text.
fn number_before(text: &str, marker: &str) -> Option<usize> {
    let at = text.find(marker)?;
    let head = text[..at].trim_end();
    let digits: String = head.chars().rev().take_while(char::is_ascii_digit).collect();
    digits.chars().rev().collect::<String>().parse().ok()
}

fn summary(what: &str, tail: &str, ds: &[D], errs: &[String], p: &Proj) -> Result<(), String> {
    let n = ds.len();
    let safe = ds.iter().filter(|d| d.fix == Some(FixStatus::Safe)).count();
    let hidden = ds.iter().filter(|d| d.fix == Some(FixStatus::Unsafe)).count();
    let wrong = |m: String| Err(format!("summary: {what}: {m}\n{tail}"));
    let found = if tail.contains("Found ") { number_before(tail, " error") } else { None };
    if found.unwrap_or(0) != n {
        return wrong(format!("{n} diagnostics, announced {found:?}"));
    }
    if tail.contains("All checks passed") != (n == 0 && errs.is_empty()) {
        return wrong(format!("{n} diagnostics and {} errors", errs.len()));
    }
    let fixable = number_before(tail, " fixable with").unwrap_or(0);
    if fixable != safe {
        return wrong(format!("{safe} can be fixed, announced {fixable}"));
    }
    let h = number_before(tail, " hidden fix").or(number_before(tail, " fix is available")).or(number_before(tail, " fixes are available")).unwrap_or(0);
    if h != hidden {
        return wrong(format!("{hidden} have an unsafe fix, announced {h}"));
    }
    let threshold = p.hint.as_ref().and_then(|h| h.parse::<i64>().ok()).unwrap_or(15);
    if tail.contains("--statistics") != (n > 0 && n as i64 > threshold) {
        return wrong(format!("{n} diagnostics and a threshold of {threshold}"));
    }
    Ok(())
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: &[T], got: &[T]) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    Err(format!("{what}: {} expected, {} reported; number {i} is {:?} instead of {:?}", want.len(), got.len(), got.get(i), want.get(i)))
}

fn escaped(s: &str, property: bool) -> String {
    let s = s.replace('%', "%25").replace('\r', "%0D").replace('\n', "%0A");
    if property { s.replace(':', "%3A").replace(',', "%2C") } else { s }
}

/// Text without colours and links, and the links.
fn uncoloured(s: &str) -> (String, Vec<(String, String)>) {
    let (mut out, mut links, mut open) = (String::new(), vec![], None::<(String, usize)>);
    let mut rest = s;
    while let Some(i) = rest.find('\u{1b}') {
        out.push_str(&rest[..i]);
        rest = &rest[i + 1..];
        if let Some(r) = rest.strip_prefix("]8;;")
            && let Some(end) = r.find("\u{1b}\\")
        {
            let url = &r[..end];
            if let Some((u, at)) = open.take() {
                links.push((u, out[at..].to_string()));
            }
            if !url.is_empty() {
                open = Some((url.to_string(), out.len()));
            }
            rest = &r[end + 2..];
        } else if let Some(r) = rest.strip_prefix('[')
            && let Some(end) = r.find(|c: char| c.is_ascii_alphabetic())
        {
            rest = &r[end + 1..];
        } else {
            out.push('\u{1b}');
        }
    }
    out.push_str(rest);
    (out, links)
}

static COLOURED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// With colours, the same is said, and each name of a rule links to its page.
fn coloured(dir: &Path, p: &Proj, format: &str, plain: &Out, ds: &[D]) -> Result<(), String> {
    let o = run(dir, p, &["--output-format", format], &[("CLICOLOR_FORCE", "1")]);
    let (text, links) = uncoloured(&o.out);
    if text != plain.out || o.code != plain.code {
        return Err(format!("colours: {format}: something else is said with colours\n{text}\n--- without\n{}", plain.out));
    }
    let want: Vec<(String, String)> = ds.iter().map(|d| (format!("https://jarl.etiennebacher.com/rules/{}", d.rule), d.rule.clone())).collect();
    same(&format!("colours: links of {format}"), &want, &links)?;
    COLOURED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    Ok(())
}

fn judge(p: &Proj) -> Result<(usize, usize), String> {
    let tmp = sut::scratch();
    let dir = tmp.path();
    p.write(dir);
    let (ds, errs) = expected(p, dir);
    let code = if !errs.is_empty() { 255 } else { (!ds.is_empty()) as i32 };
    let one = |s: &str| s.replace('\n', "\\n");
    for format in ["json", "concise", "github", "full", "statistics"] {
        let o = if format == "statistics" { run(dir, p, &["--statistics"], &[]) } else { run(dir, p, &["--output-format", format], &[]) };
        if o.code != code {
            return Err(format!("exit code of {format}: {} with {} diagnostics and {} errors\n{}{}", o.code, ds.len(), errs.len(), o.out, o.err));
        }
        match format {
            "json" => {
                let v: Value = serde_json::from_str(&o.out).map_err(|e| format!("json: not JSON: {e}\n{}", o.out))?;
                let got: Vec<_> = v["diagnostics"]
                    .as_array()
                    .ok_or("json: no diagnostics")?
                    .iter()
                    .map(|d| {
                        let m = &d["message"];
                        (
                            d["filename"].as_str().unwrap_or("?").to_string(),
                            d["location"]["row"].as_u64().unwrap_or(0) as usize,
                            d["location"]["column"].as_u64().unwrap_or(9999) as usize + 1,
                            m["name"].as_str().unwrap_or("?").to_string(),
                            match m["suggestion"].as_str() {
                                Some(s) => format!("{} {s}", m["body"].as_str().unwrap_or("?")),
                                None => m["body"].as_str().unwrap_or("?").to_string(),
                            },
                            (d["range"][0].as_u64().unwrap_or(9999) as usize, d["range"][1].as_u64().unwrap_or(9999) as usize),
                        )
                    })
                    .collect();
                let want: Vec<_> = ds.iter().map(|d| (d.file.clone(), d.row, d.col, d.rule.clone(), d.text.clone(), d.range)).collect();
                same("json", &want, &got)?;
                let mut got: Vec<_> = v["errors"].as_array().ok_or("json: no errors")?.iter().map(|e| e["file"].as_str().unwrap_or("?").to_string()).collect();
                got.sort();
                same("json errors", &errs, &got)?;
            }
            "concise" => {
                let (head, tail) = if o.out.starts_with("── ") { ("", o.out.as_str()) } else { o.out.find("\n── ").map_or((o.out.as_str(), ""), |i| o.out.split_at(i)) };
                let want: Vec<String> = ds.iter().map(|d| format!("{} [{}:{}] {} {}", d.file, d.row, d.col, d.rule, one(&d.text))).collect();
                let got: Vec<String> = head.lines().filter(|l| !l.is_empty()).map(String::from).collect();
                same("concise", &want, &got)?;
                summary("concise", tail, &ds, &errs, p)?;
            }
            "github" => {
                let want: Vec<String> = ds
                    .iter()
                    .map(|d| {
                        format!(
                            "::warning title=Jarl ({}),file={},line={},col={}::{}",
                            d.rule,
                            escaped(&d.file, true),
                            d.row,
                            d.col,
                            escaped(&format!("{}:{}:{} [{}] {}", d.file, d.row, d.col, d.rule, d.text), false)
                        )
                    })
                    .collect();
                let got: Vec<String> = o.out.lines().map(String::from).collect();
                same("github", &want, &got)?;
            }
            "full" => {
                let mut got: Vec<(String, String)> = vec![];
                let lines: Vec<&str> = o.out.lines().collect();
                for (i, l) in lines.iter().enumerate() {
                    if let Some(r) = l.strip_prefix("warning: ") {
                        let place = lines.get(i + 1).and_then(|l| l.trim_start().strip_prefix("--> ")).unwrap_or("?");
                        got.push((r.to_string(), place.to_string()));
                    }
                }
                // what is on line 2 of a file that begins with a newline is a known finding of C21
                let place = |d: &D| {
                    let early = d.row == 2 && p.checked(dir).iter().any(|(n, b)| n.to_string_lossy() == d.file.as_str() && b.first() == Some(&b'\n'));
                    format!("{}:{}:{}", d.file, d.row, d.col - early as usize)
                };
                let want: Vec<(String, String)> = ds.iter().map(|d| (d.rule.clone(), place(d))).collect();
                same("full", &want, &got)?;
                let starts: Vec<usize> = lines.iter().enumerate().filter(|(_, l)| l.starts_with("warning: ")).map(|x| x.0).collect();
                for (k, d) in ds.iter().enumerate() {
                    let end = starts.get(k + 1).copied().unwrap_or(lines.len());
                    let end = (starts[k]..end).find(|i| lines[*i].starts_with("── ")).unwrap_or(end);
                    if drawn(d, &lines[starts[k]..end])? {
                        DRAWN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                }
                let tail = o.out.rfind("── Summary").map_or("", |i| &o.out[i..]);
                summary("full", tail, &ds, &errs, p)?;
            }
            _ => {
                let mut count: BTreeMap<&str, (usize, bool)> = BTreeMap::new();
                for d in &ds {
                    let c = count.entry(&d.rule).or_default();
                    c.0 += 1;
                    c.1 |= d.fix == Some(FixStatus::Safe);
                }
                let mut want: Vec<(usize, bool, String)> = count.iter().map(|(r, (n, f))| (*n, *f, r.to_string())).collect();
                want.sort_by(|a, b| b.0.cmp(&a.0).then(a.2.cmp(&b.2)));
                let got: Vec<(usize, bool, String)> = o
                    .out
                    .lines()
                    .filter_map(|l| {
                        let (n, rest) = l.trim_start().split_once(" [")?;
                        let (star, rule) = rest.split_once("] ")?;
                        Some((n.parse().ok()?, star == "*", rule.to_string()))
                    })
                    .collect();
                same("statistics", &want, &got)?;
                if o.out.contains("All checks passed") != (ds.is_empty() && errs.is_empty()) {
                    return Err(format!("statistics: {} diagnostics and {} errors\n{}", ds.len(), errs.len(), o.out));
                }
            }
        }
        let escapes = p.files.iter().any(|(n, b)| n.contains('\u{1b}') || b.contains(&0x1b));
        if matches!(format, "concise" | "full") && p.files.len() % 3 == (format == "full") as usize && p.more.is_empty() && !escapes {
            coloured(dir, p, format, &o, &ds)?;
        }
        if format != "github" && format != "json" {
            for e in &errs {
                let base = e.rsplit('/').next().unwrap();
                if !o.err.lines().any(|l| l.starts_with("Error") && l.contains(base)) {
                    return Err(format!("errors of {format}: nothing about {e}\n{}", o.err));
                }
            }
            let n = o.err.lines().filter(|l| l.starts_with("Error")).count();
            if n != errs.len() {
                return Err(format!("errors of {format}: {n} for {} files\n{}", errs.len(), o.err));
            }
        }
    }
    Ok((ds.len(), errs.len()))
}

/// A smaller project for which this still holds.
fn reduce(p: &Proj, fails: impl Fn(&Proj) -> bool) -> Proj {
    let mut q = p.clone();
    loop {
        let before = format!("{q:?}");
        for f in q.files.keys().cloned().collect::<Vec<_>>() {
            let mut r = q.clone();
            r.files.remove(&f);
            r.args.retain(|a| *a != f);
            if !r.files.is_empty() && !r.args.is_empty() && kit::guard(|| fails(&r)).unwrap_or(false) {
                q = r;
            }
        }
        for step in 0..3 {
            let mut r = q.clone();
            match step {
                0 => r.unfixable.clear(),
                1 => r.hint = None,
                _ => r.more.clear(),
            }
            if kit::guard(|| fails(&r)).unwrap_or(false) {
                q = r;
            }
        }
        for f in q.files.keys().cloned().collect::<Vec<_>>() {
            let Ok(text) = String::from_utf8(q.files[&f].clone()) else { continue };
            let with = |t: &str| {
                let mut r = q.clone();
                r.files.insert(f.clone(), t.as_bytes().to_vec());
                r
            };
            let mut budget = 150;
            let small = kit::shrink_text(&text, |t| {
                budget -= 1;
                budget > 0 && kit::guard(|| fails(&with(t))).unwrap_or(false)
            });
            q = with(&small);
        }
        if format!("{q:?}") == before {
            return q;
        }
    }
}

fn show(p: &Proj) -> Value {
    json!({
        "files": p.files.iter().map(|(n, b)| (n.clone(), json!(String::from_utf8_lossy(b)))).collect::<serde_json::Map<_, _>>(),
        "select": p.select, "unfixable": p.unfixable, "hint": p.hint, "cwd": p.cwd, "args": p.args, "more": p.more,
    })
}

pub fn run_c30(ctx: &mut Ctx) {
    ctx.rule = "a project with a diagnostic or an error, by its files and arguments, reported in five ways".into();
    let g = Gen::load();
    let mut rng = ctx.rng.fork();
    let mut seen = BTreeSet::new();
    while ctx.time_left(1.0) {
        let p = project(&g, &mut rng);
        ctx.case(format!("{p:?}"));
        match judge(&p) {
            Ok((n, e)) => {
                let kind = match (n, e) {
                    (0, 0) => "nothing to report",
                    (_, 0) => "diagnostics",
                    (0, _) => "errors",
                    _ => "diagnostics and errors",
                };
                ctx.count(kind, &p, n + e > 0);
                ctx.bump("diagnostics compared", 5 * n as u64);
                ctx.bump("errors compared", 4 * e as u64);
                ctx.sample(kind, || json!({"files": p.files.keys().collect::<Vec<_>>(), "diagnostics": n, "errors": e, "args": p.args, "cwd": p.cwd}));
            }
            Err(e) => {
                let kind: String = e.split(':').next().unwrap().into();
                if !seen.insert(kind.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                let q = reduce(&p, |q| judge(q).is_err_and(|e| e.starts_with(&format!("{kind}:"))));
                let e = judge(&q).err().unwrap_or(e);
                ctx.fail(&show(&q).to_string(), format!("{e}\n--- case\n{:#}", show(&q)), show(&q));
            }
        }
    }
    ctx.bump("marked code compared", DRAWN.load(std::sync::atomic::Ordering::Relaxed));
    ctx.bump("runs with colours compared", COLOURED.load(std::sync::atomic::Ordering::Relaxed));
}

/// What of a run must not depend on chance.
fn stable(o: &Out) -> String {
    let drop = |s: &str| s.lines().filter(|l| !l.starts_with("Checked files in")).map(|l| format!("{l}\n")).collect::<String>();
    format!("exit {}\n--- stdout\n{}--- stderr\n{}", o.code, drop(&o.out), drop(&o.err))
}

fn read_tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    crate::p_gate::read_all(dir)
}

const PACKAGE: &[&str] = &["f", "g", "h", "print.foo", "unused_one", ".hidden"];

/// Makes an R package of some of the projects: then files depend on each other.
fn package(r: &mut Rng, p: &mut Proj) {
    p.files.insert("DESCRIPTION".into(), b"Package: p\nVersion: 1.0\nDepends: R (>= 4.1)\n".to_vec());
    p.files.insert("NAMESPACE".into(), b"export(f)\n".to_vec());
    for i in 0..r.range(2, 6) {
        let mut t = String::new();
        for _ in 0..r.range(1, 4) {
            t.push_str(&format!("{} <- function(x) {}\n", r.pick(PACKAGE), r.pick(&["x", "g(x)", "any(is.na(x))", "h(x == NA)"])));
        }
        p.files.insert(format!("{}/{}{i}.R", r.pick(&["R", "R", "R", "tests/testthat", "tests"]), r.pick(&["a", "b", "zz"])), t.into_bytes());
    }
}

fn steady(p: &Proj, r: &mut Rng, fix: bool) -> Result<usize, String> {
    let format = *r.pick(&["json", "concise", "full", "github", "statistics", "ignore"]);
    let mut flags: Vec<&str> = match format {
        "statistics" => vec!["--statistics"],
        "ignore" => vec!["--add-jarl-ignore"],
        f => vec!["--output-format", f],
    };
    if fix && format != "ignore" {
        flags.extend(["--fix", "--unsafe-fixes", "--allow-no-vcs"]);
    }
    let writes = fix || format == "ignore";
    let mut first: Option<(String, BTreeMap<String, Vec<u8>>)> = None;
    let mut shared = None;
    for k in 0..4u32 {
        let tmp = if writes || shared.is_none() {
            let t = sut::scratch();
            // the same place, so that nothing else differs
            p.write(t.path());
            t
        } else {
            shared.take().unwrap()
        };
        let mut q = p.clone();
        if k > 0 {
            r.shuffle(&mut q.args);
        }
        let seed = r.next().to_string();
        let threads = r.pick(&["1", "2", "5", "8"]).to_string();
        let o = run(tmp.path(), &q, &flags, &[("JARL_WALK_SEED", &seed), ("RAYON_NUM_THREADS", &threads)]);
        let place = tmp.path().to_string_lossy().into_owned();
        let now = (stable(&o).replace(&place, "/here"), if writes { read_tree(tmp.path()) } else { BTreeMap::new() });
        shared = Some(tmp);
        match &first {
            None => first = Some(now),
            Some(f) if *f == now => {}
            Some(f) => {
                let what = if f.0 != now.0 { "output" } else { "files" };
                let diff = f.0.lines().zip(now.0.lines()).find(|(a, b)| a != b);
                return Err(format!("{what} of {format}{} differs between runs: {diff:?}", if fix { " with --fix" } else { "" }));
            }
        }
    }
    Ok(first.map_or(0, |f| f.0.lines().count()))
}

/// The diagnostics of every file are the same whether it is checked alone or with others.
fn independent(p: &Proj) -> Result<usize, String> {
    let tmp = sut::scratch();
    p.write(tmp.path());
    let list = |args: Vec<String>| -> Result<Vec<String>, String> {
        let mut q = p.clone();
        q.args = args;
        q.cwd = String::new();
        q.more.clear();
        let o = run(tmp.path(), &q, &["--output-format", "json"], &[]);
        let v: Value = serde_json::from_str(&o.out).map_err(|e| format!("independent: not JSON: {e}\n{}", o.out))?;
        Ok(v["diagnostics"].as_array().into_iter().chain(v["errors"].as_array()).flatten().map(Value::to_string).collect())
    };
    let mut apart = vec![];
    for f in p.files.keys() {
        apart.extend(list(vec![f.clone()])?);
    }
    let mut all = list(p.files.keys().cloned().collect())?;
    apart.sort();
    all.sort();
    same("independent", &apart, &all)?;
    Ok(all.len())
}

pub fn run_c29(ctx: &mut Ctx) {
    ctx.rule = "a project with something to report, by its files and arguments, run several times or in parts".into();
    let g = Gen::load();
    let cfg = sut::config("ALL");
    let mut rng = ctx.rng.fork();
    let mut seen = BTreeSet::new();
    while ctx.time_left(1.0) {
        let mut p = project(&g, &mut rng);
        p.more.clear();
        let kind = rng.below(4);
        if kind == 0 {
            package(&mut rng, &mut p);
        }
        let at = rng.next();
        let fix = rng.chance(1, 3);
        ctx.case(format!("{p:?}"));
        let one = |p: &Proj| -> Result<usize, String> {
            match kind {
                0 | 1 => steady(p, &mut Rng::new(at), fix),
                2 => independent(p),
                _ => {
                    // in one process: the same text gives the same list, in the same order
                    let mut n = 0;
                    for (f, b) in &p.files {
                        let Ok(t) = String::from_utf8(b.clone()) else { continue };
                        let all = || sut::lint_as(&t, f, &cfg).map(|v| v.iter().map(|d| json!([sut::show(d), d.message.body, d.message.suggestion]).to_string()).collect::<Vec<_>>());
                        let a = all();
                        for _ in 0..3 {
                            let b = all();
                            if let (Ok(a), Ok(b)) = (&a, &b) {
                                same("repeated in one process", a, b)?;
                            } else if a.is_ok() != b.is_ok() {
                                return Err("repeated in one process: an error only sometimes".into());
                            }
                        }
                        n += a.map_or(0, |a| a.len());
                    }
                    Ok(n)
                }
            }
        };
        match one(&p) {
            Ok(n) => {
                let class = ["a package, run 4 times", "files, run 4 times", "files together and one by one", "texts, linted 4 times"][kind];
                ctx.count(class, &p, n > 0);
                ctx.bump(if kind < 2 && fix { "with fixes" } else { "without fixes" }, 1);
                ctx.sample(class, || json!({"files": p.files.keys().collect::<Vec<_>>(), "args": p.args, "lines or diagnostics": n}));
            }
            Err(e) => {
                let kind: String = e.split(':').next().unwrap().into();
                if !seen.insert(kind.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                let q = reduce(&p, |q| (0..3).any(|_| one(q).is_err_and(|e| e.starts_with(&format!("{kind}:")))));
                let e = one(&q).err().unwrap_or(e);
                ctx.fail(&show(&q).to_string(), format!("{e}\n--- case\n{:#}", show(&q)), show(&q));
            }
        }
    }
}
