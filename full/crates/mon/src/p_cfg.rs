//! C27: which rules are in use. C35: what the options of single rules do.

use crate::r#gen::Gen;
use crate::sut;
use jarl_core::config::{ArgsConfig, build_config};
use jarl_core::rule_set::Rule;
use jarl_core::toml::parse_jarl_toml;
use kit::{Ctx, Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::{Command, Stdio};

/// What the documentation says about a rule.
#[derive(Clone, Debug)]
pub struct Doc {
    pub name: String,
    pub groups: Vec<String>,
    pub default: bool,
    pub min: Option<(u32, u32, u32)>,
    /// Whether it has a fix, and whether that one is safe.
    pub fix: Option<bool>,
}

/// The table of rules of the documentation.
pub fn documented() -> Vec<Doc> {
    let repo = std::env::var("JARL_REPO").unwrap_or_else(|_| "/repo".into());
    let text = std::fs::read_to_string(Path::new(&repo).join("docs/rules.qmd")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        let Some(l) = l.trim().strip_prefix("c(\"") else { continue };
        let cells: Vec<&str> = l.trim_end_matches(',').trim_end_matches(')').trim_end_matches('"').split("\", \"").collect();
        if cells.len() != 4 {
            continue;
        }
        let groups = cells[1].split(',').map(|g| match g.trim() {
            "comments" => "COMM",
            "correctness" => "CORR",
            "suspicious" => "SUSP",
            "performance" => "PERF",
            "readability" => "READ",
            "testthat" => "TESTTHAT",
            x => x,
        });
        let min = cells[3].strip_prefix("R >= ").map(|v| {
            let mut p = v.split('.').map(|x| x.trim().parse().unwrap_or(0));
            (p.next().unwrap_or(0), p.next().unwrap_or(0), p.next().unwrap_or(0))
        });
        out.push(Doc { name: cells[0].into(), groups: groups.map(String::from).collect(), default: !cells[3].contains("Disabled by default"), min, fix: (!cells[2].contains('❌')).then(|| cells[2].contains('✅')) });
    }
    if out.len() < 20 {
        // no table to read: what the code says itself
        out = Rule::all()
            .iter()
            .map(|r| Doc {
                name: r.name().into(),
                groups: r.categories().iter().map(|c| c.as_str().into()).collect(),
                default: r.is_enabled_by_default(),
                min: r.minimum_r_version(),
                fix: (!r.has_no_fix()).then(|| r.has_safe_fix()),
            })
            .collect();
    }
    out
}

/// Whether the documentation says that a rule has a fix, and that it is safe.
pub fn documented_fix(rule: &str) -> Option<bool> {
    static DOCS: std::sync::LazyLock<BTreeMap<String, Option<bool>>> = std::sync::LazyLock::new(|| documented().into_iter().map(|d| (d.name, d.fix)).collect());
    DOCS.get(rule).copied().flatten()
}

type Names = Option<Vec<String>>;

#[derive(Clone, Debug, Hash)]
struct Sel {
    cli: [Names; 3],
    toml: [Names; 5],
    /// `--min-r-version`
    min: Option<String>,
    /// Texts of the DESCRIPTION files: of the folder of the project, of its subfolder.
    desc: [Option<String>; 2],
}

const GROUPS: &[&str] = &["COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT"];
const WRONG: &[&str] = &["nope", "", " ", "perf", "Any_is_na", "any-is-na", "any_is_na2", "all", "PERFS", "any_is_na READ", "PERF/READ"];
const KEYS: &[&str] = &["select", "extend-select", "ignore", "fixable", "unfixable"];

fn items(rng: &mut Rng, docs: &[Doc], wrong: bool) -> Vec<String> {
    let n = *rng.pick(&[1, 1, 1, 2, 2, 3, 5, 9, 20]);
    let mut v: Vec<String> = (0..n)
        .map(|_| match rng.below(12) {
            0..=2 => rng.pick(GROUPS).to_string(),
            3 if rng.chance(1, 2) => "ALL".into(),
            _ => rng.pick(docs).name.clone(),
        })
        .collect();
    if wrong {
        let k = rng.below(v.len() + 1);
        v.insert(k, rng.pick(WRONG).to_string());
    }
    if rng.chance(1, 12) {
        let k = rng.below(v.len());
        v[k] = format!("{}{}{}", rng.pick(&["", " "]), v[k], rng.pick(&["", " "]));
    }
    v
}

/// (text, the version it asks for)
fn description(rng: &mut Rng) -> (String, Option<(u32, u32, u32)>) {
    let v = version(rng);
    let sp = *rng.pick(&["", " "]);
    let r = format!("R{}({sp}>= {}{sp})", rng.pick(&["", " "]), v.0);
    let (deps, has) = match rng.below(9) {
        0 => ("R".to_string(), false),
        1 => ("methods, Rcpp (>= 4.6.0), R6 (>= 4.9)".to_string(), false),
        2 => (format!("methods (>= 3.0.0), {r}, stats"), true),
        3 => (format!("{r},\n    methods,\n    stats (>= 4.9.9)"), true),
        4 => (format!("\n    {r}"), true),
        5 => (format!("methods,\n\t{r}"), true),
        6 => return ("Package: a\nVersion: 4.6.0\nImports: R (>= 4.6.0)\nTitle: R (>= 4.6.0)\n".into(), None),
        _ => (r, true),
    };
    let before = rng.pick(&["Package: a\n", "Package: a\nVersion: 9.9.9\nTitle: A: B\n", "", "Package: a\nDescription: Some\n    text: more\n    of it.\n"]);
    let after = rng.pick(&["", "Imports: grepv (>= 4.9)\n", "Suggests:\n    R (>= 9.0)\n", "RoxygenNote: 7.3.2\n"]);
    let eol = if rng.chance(1, 6) { "\r\n" } else { "\n" };
    (format!("{before}Depends: {deps}\n{after}").replace('\n', eol), has.then_some(v.1))
}

fn version(rng: &mut Rng) -> (String, (u32, u32, u32)) {
    let (a, b, c) = *rng.pick(&[(4, 5, 0), (4, 4, 0), (4, 0, 0), (4, 4, 9), (3, 9, 9), (4, 10, 0), (4, 3, 10), (3, 10, 0), (5, 0, 0), (4, 5, 1), (10, 0, 0), (3, 6, 3), (4, 0, 1)]);
    let t = match rng.below(3) {
        0 if c == 0 => format!("{a}.{b}"),
        _ => format!("{a}.{b}.{c}"),
    };
    (t, (a, b, c))
}

fn expand(list: &[String], docs: &[Doc]) -> Result<BTreeSet<String>, String> {
    let mut out = BTreeSet::new();
    for i in list {
        let i = i.trim();
        let hit: Vec<&Doc> = docs.iter().filter(|d| i == "ALL" || d.name == i || d.groups.iter().any(|g| g == i)).collect();
        if hit.is_empty() {
            return Err(i.to_string());
        }
        out.extend(hit.iter().map(|d| d.name.clone()));
    }
    Ok(out)
}

/// The rules that are to be used, or an item that is to be refused.
fn expected(s: &Sel, docs: &[Doc], min: Option<(u32, u32, u32)>) -> Result<BTreeSet<String>, String> {
    let get = |n: &Names| n.as_ref().map(|l| expand(l, docs)).transpose();
    let cli: Vec<_> = s.cli.iter().map(get).collect::<Result<_, _>>()?;
    let toml: Vec<_> = s.toml.iter().map(get).collect::<Result<_, _>>()?;
    let mut r = match (&cli[0], &toml[0]) {
        (Some(x), _) | (None, Some(x)) => x.clone(),
        _ => docs.iter().filter(|d| d.default).map(|d| d.name.clone()).collect(),
    };
    if let Some(x) = cli[1].as_ref().or(toml[1].as_ref()) {
        r.extend(x.iter().cloned());
    }
    for x in [&cli[2], &toml[2]].into_iter().flatten() {
        r.retain(|n| !x.contains(n));
    }
    r.retain(|n| docs.iter().find(|d| d.name == *n).unwrap().min.is_none_or(|m| min.is_some_and(|v| v >= m)));
    Ok(r)
}

fn toml_text(s: &Sel) -> Option<String> {
    if s.toml.iter().all(Option::is_none) {
        return None;
    }
    let mut t = String::from("[lint]\n");
    for (k, v) in KEYS.iter().zip(&s.toml) {
        if let Some(v) = v {
            t.push_str(&format!("{k} = {}\n", json!(v)));
        }
    }
    Some(t)
}

fn args_of(s: &Sel) -> ArgsConfig {
    let mut a = sut::args();
    let j = |n: &Names| n.as_ref().map(|l| l.join(",")).unwrap_or_default();
    a.select = j(&s.cli[0]);
    a.extend_select = j(&s.cli[1]);
    a.ignore = j(&s.cli[2]);
    a.min_r_version = s.min.clone();
    a
}

struct World {
    docs: Vec<Doc>,
    /// A program with something to report for many rules, and which.
    program: String,
    reports: BTreeSet<String>,
}

fn world(g: &Gen, rng: &mut Rng) -> World {
    let all = sut::config("ALL");
    let mut program = String::new();
    let mut reports = BTreeSet::new();
    for r in Rule::all() {
        if r.has_category(jarl_core::rule_set::Category::Comm) || matches!(r.name(), "unused_function" | "duplicated_function_definition") {
            continue;
        }
        for _ in 0..20 {
            let Some(t) = g.snip_of(rng, r.name()).map(|s| s.text.clone()) else { break };
            let alone = sut::config(r.name());
            if sut::lint(&t, &alone).is_ok_and(|d| !d.is_empty()) {
                let both = format!("{program}\n{t}\n");
                if sut::lint(&both, &all).is_ok_and(|d| d.iter().any(|d| d.message.name == r.name())) {
                    program = both;
                    break;
                }
            }
        }
    }
    for r in Rule::all() {
        if sut::lint(&program, &sut::config(r.name())).is_ok_and(|d| !d.is_empty()) {
            reports.insert(r.name().to_string());
        }
    }
    World { docs: documented(), program, reports }
}

fn put(dir: &Path, name: &str, text: &str) {
    let f = dir.join(name);
    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
    std::fs::write(f, text).unwrap();
}

fn jarl(dir: &Path, args: &[&str]) -> (i32, String, String) {
    let o = Command::new(sut::jarl_bin())
        .arg("check")
        .args(args)
        .current_dir(dir)
        .env("NO_COLOR", "1")
        .env("HOME", dir)
        .env_remove("XDG_CONFIG_HOME")
        .stdin(Stdio::null())
        .output()
        .expect("the jarl binary runs");
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}

fn minimum(s: &Sel, descs: &[Option<Option<(u32, u32, u32)>>; 2]) -> Result<Option<(u32, u32, u32)>, ()> {
    match &s.min {
        Some(v) => {
            let p: Vec<Option<u32>> = v.split('.').map(|x| x.parse().ok()).collect();
            if !(2..=3).contains(&p.len()) || p.contains(&None) {
                return Err(());
            }
            Ok(Some((p[0].unwrap(), p[1].unwrap(), p.get(2).copied().flatten().unwrap_or(0))))
        }
        None => Ok(descs[1].or(descs[0]).flatten()),
    }
}

fn judge(w: &World, s: &Sel, descs: &[Option<Option<(u32, u32, u32)>>; 2], real: bool) -> Result<usize, String> {
    let top = sut::scratch();
    let dir = top.path().join("p");
    let want = minimum(s, descs).map_err(|_| "version".to_string()).and_then(|m| expected(s, &w.docs, m));
    let toml = toml_text(s);
    if let Some(t) = &toml {
        put(&dir, "jarl.toml", t);
    }
    for (d, n) in s.desc.iter().zip(["DESCRIPTION", "sub/DESCRIPTION"]) {
        if let Some(d) = d {
            put(&dir, n, d);
        }
    }
    put(&dir, "sub/R/code.R", &w.program);
    if real {
        let a = args_of(s);
        let mut args = vec![".", "--output-format", "json"];
        let mut flags = vec![];
        for (f, v) in [("--select", &a.select), ("--extend-select", &a.extend_select), ("--ignore", &a.ignore)] {
            if !v.is_empty() {
                flags.push(format!("{f}={v}"));
            }
        }
        if let Some(m) = &s.min {
            flags.push(format!("--min-r-version={m}"));
        }
        args.extend(flags.iter().map(String::as_str));
        let (rc, out, err) = jarl(&dir, &args);
        let Ok(want) = want else {
            if rc != 255 || !out.is_empty() || err.is_empty() {
                return Err(format!("command: not refused (status {rc})\n{out}\n{err}"));
            }
            return Ok(0);
        };
        let want: BTreeSet<String> = want.intersection(&w.reports).cloned().collect();
        let v: Value = serde_json::from_str(&out).map_err(|_| format!("command: status {rc}\n{out}\n{err}"))?;
        let got: BTreeSet<String> = v["diagnostics"]
            .as_array()
            .into_iter()
            .flatten()
            .map(|d| d["message"]["name"].as_str().unwrap_or("").to_string())
            .filter(|n| w.reports.contains(n))
            .collect();
        differ("command", &want, &got)?;
        return Ok(got.len());
    }
    let settings = match toml {
        Some(_) => {
            let t = parse_jarl_toml(&dir.join("jarl.toml")).map_err(|e| format!("toml: {e}"))?;
            Some(t.into_settings(&dir).map_err(|e| format!("toml: {e}"))?)
        }
        None => None,
    };
    let got = kit::guard(|| build_config(&args_of(s), settings.as_ref(), vec![dir.join("sub/R/code.R")])).map_err(|e| format!("crash: {e}"))?;
    match (want, got) {
        (Err(i), Ok(_)) => Err(format!("accepted: `{i}` is not refused")),
        (Err(i), Err(e)) => {
            if i != "version" && !i.is_empty() && !format!("{e}").contains(&i) && !other_wrong(s, w, &format!("{e}")) {
                return Err(format!("message: `{i}` is not in `{e}`"));
            }
            Ok(0)
        }
        (Ok(_), Err(e)) => Err(format!("refused: {e}")),
        (Ok(want), Ok(cfg)) => {
            let got: BTreeSet<String> = cfg.rules.iter().map(|r| r.name().to_string()).collect();
            differ("rules", &want, &got)?;
            let apply: BTreeSet<String> = cfg.rules_to_apply.iter().map(|r| r.name().to_string()).collect();
            differ("rules to apply", &want, &apply)?;
            Ok(got.len())
        }
    }
}

/// Some list may be looked at before the one we noticed.
fn other_wrong(s: &Sel, w: &World, e: &str) -> bool {
    s.cli.iter().chain(&s.toml).flatten().any(|l| l.iter().any(|i| expand(std::slice::from_ref(i), &w.docs).is_err() && e.contains(i.trim())))
        || e.contains("ersion")
}

fn differ(what: &str, want: &BTreeSet<String>, got: &BTreeSet<String>) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    Err(format!("{what}: missing {:?}, too many {:?}", want.difference(got).collect::<Vec<_>>(), got.difference(want).collect::<Vec<_>>()))
}

/// What is reported with a selection is what is reported with all rules, less the other rules.
fn judge_reports(program: &str, all: &[(String, (usize, usize))], sel: &BTreeSet<String>) -> Result<usize, String> {
    let list = sel.iter().cloned().collect::<Vec<_>>().join(",");
    let got = reported(program, &list)?;
    let want: Vec<_> = all.iter().filter(|d| sel.contains(&d.0)).cloned().collect();
    if got != want {
        let missing: Vec<_> = want.iter().filter(|d| !got.contains(d)).collect();
        let extra: Vec<_> = got.iter().filter(|d| !want.contains(d)).collect();
        return Err(format!("reports: with `{list}` missing {missing:?}, too many {extra:?} (compared to all rules)"));
    }
    Ok(got.len())
}

fn reported(program: &str, list: &str) -> Result<Vec<(String, (usize, usize))>, String> {
    let d = kit::guard(|| sut::lint(program, &sut::config(list))).map_err(|e| format!("reports: crash: {e}"))?.map_err(|e| format!("reports: {e}"))?;
    let mut v: Vec<_> = d.iter().map(|d| (d.message.name.to_string(), sut::range(d))).collect();
    v.sort();
    Ok(v)
}

/// Whether leaving out rules leaves out their reports and nothing else.
fn subset_case(ctx: &mut Ctx, g: &Gen, rng: &mut Rng, w: &World, seen: &mut BTreeSet<String>) {
    let program = match rng.below(3) {
        0 => w.program.clone(),
        1 => g.program(rng),
        _ => (0..rng.range(1, 12)).filter_map(|_| { let d = rng.pick(&w.docs).name.clone(); g.snip_of(rng, &d).map(|s| s.text.clone() + "\n") }).collect(),
    };
    if program.contains('#') || program.starts_with('\n') {
        return;
    }
    let Ok(all) = reported(&program, "ALL") else { return };
    if all.is_empty() {
        return;
    }
    let names: Vec<&String> = w.docs.iter().map(|d| &d.name).collect();
    let there: BTreeSet<&String> = all.iter().map(|d| &d.0).collect();
    let there: Vec<&&String> = there.iter().collect();
    let mut sel = BTreeSet::new();
    match rng.below(4) {
        // one of those with something to report
        0 => drop(sel.insert((**rng.pick(&there)).clone())),
        // all but one
        1 => {
            sel.extend(names.iter().map(|n| n.to_string()));
            sel.remove(&***rng.pick(&there));
        }
        _ => {
            for _ in 0..rng.range(1, 25) {
                sel.insert(rng.pick(&names).to_string());
            }
        }
    }
    ctx.case(format!("{sel:?}\n{program}"));
    match judge_reports(&program, &all, &sel) {
        Ok(n) => {
            ctx.count("reports of a part of the rules", &(&sel, &program), n > 0);
            ctx.bump("reports compared to those with all rules", all.len() as u64);
        }
        Err(e) => {
            let key: String = e.clone();
            if !seen.insert("reports".into()) {
                ctx.bump("repeated", 1);
                return;
            }
            let list: Vec<String> = sel.iter().cloned().collect();
            let fails = |l: &[String], t: &str| {
                let s: BTreeSet<String> = l.iter().cloned().collect();
                let Ok(all) = reported(t, "ALL") else { return false };
                !s.is_empty() && judge_reports(t, &all, &s).is_err()
            };
            let list = kit::shrink_list(&list, |l| fails(l, &program));
            let text = kit::shrink_text(&program, |t| fails(&list, t));
            let _ = key;
            let e = judge_reports(&text, &reported(&text, "ALL").unwrap_or_default(), &list.iter().cloned().collect()).err().unwrap_or(e);
            ctx.fail(&format!("{list:?} {text:?}"), format!("{e}\n--- code\n{text}"), json!({"select": list, "code": text}));
        }
    }
}

pub fn run_c27(ctx: &mut Ctx) {
    ctx.rule = "a selection of rules that leaves at least one rule, by where it is made".into();
    let g = Gen::load();
    let mut rng = ctx.rng.fork();
    let w = world(&g, &mut rng);
    ctx.extra.insert("rules of the documentation".into(), json!(w.docs.len()));
    ctx.extra.insert("rules the program has something for".into(), json!(w.reports));
    let names: BTreeSet<String> = w.docs.iter().map(|d| d.name.clone()).collect();
    let _ = names;
    let mut seen = BTreeSet::new();
    let mut k = 0u64;
    while ctx.time_left(1.0) {
        k += 1;
        if k % 4 == 0 {
            subset_case(ctx, &g, &mut rng, &w, &mut seen);
        }
        let real = k % 12 == 0;
        let bad = rng.chance(1, 6);
        let bad_at = rng.below(8);
        let mut s = Sel { cli: Default::default(), toml: Default::default(), min: None, desc: [None, None] };
        for i in 0..3 {
            let odds = [2, 3, 2][i];
            if rng.chance(1, odds) || (bad && bad_at == i) {
                let l = items(&mut rng, &w.docs, bad && bad_at == i);
                // nothing at all is the same as no flag
                if !l.join(",").is_empty() {
                    s.cli[i] = Some(l);
                }
            }
        }
        for i in 0..5 {
            let odds = [2, 3, 2, 5, 5][i];
            if rng.chance(1, odds) || (bad && bad_at == 3 + i) {
                s.toml[i] = Some(if rng.chance(1, 15) && !(bad && bad_at == 3 + i) { vec![] } else { items(&mut rng, &w.docs, bad && bad_at == 3 + i) });
            }
        }
        let mut descs = [None, None];
        match rng.below(5) {
            0 => {}
            1 | 2 => s.min = Some(version(&mut rng).0),
            3 if rng.chance(1, 3) => s.min = Some(rng.pick(&["4", "4.x", "", "4.5.0.1", "R4.5", "4..1", "-4.5", "4.5.", " 4.5 x"]).to_string()),
            _ => {}
        }
        for i in 0..2 {
            if rng.chance(1, 3) {
                let (t, v) = description(&mut rng);
                s.desc[i] = Some(t);
                descs[i] = Some(v);
            }
        }
        ctx.case(format!("{s:?}"));
        match judge(&w, &s, &descs, real) {
            Ok(n) => {
                let kind = format!(
                    "{}{}{}{}",
                    if s.cli.iter().any(Option::is_some) { "flags " } else { "" },
                    if s.toml.iter().any(Option::is_some) { "jarl.toml " } else { "" },
                    if s.min.is_some() { "--min-r-version " } else { "" },
                    if s.desc.iter().any(Option::is_some) { "DESCRIPTION" } else { "" }
                );
                ctx.count(&kind, &s, n > 0);
                if real {
                    ctx.bump("runs of the command", 1);
                }
                if bad {
                    ctx.bump("wrong names", 1);
                }
                ctx.sample(&kind, || json!(format!("{s:?}")));
            }
            Err(e) => {
                let kind: String = e.split(':').next().unwrap().into();
                if !seen.insert(kind.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                let mut t = s.clone();
                let mut d = descs;
                let fails = |t: &Sel, d: &[_; 2]| judge(&w, t, d, real).is_err_and(|e| e.starts_with(&kind));
                for i in 0..10 {
                    let (mut u, mut du) = (t.clone(), d);
                    match i {
                        0..3 => u.cli[i] = None,
                        3..8 => u.toml[i - 3] = None,
                        _ => {
                            u.desc[i - 8] = None;
                            du[i - 8] = None;
                        }
                    }
                    if kit::guard(|| fails(&u, &du)).unwrap_or(false) {
                        (t, d) = (u, du);
                    }
                }
                let e = judge(&w, &t, &d, real).err().unwrap_or(e);
                ctx.fail(&format!("{t:?}"), format!("{e}\n--- case\n{t:?}"), json!({"case": format!("{t:?}"), "command": real}));
            }
        }
    }
}

// ---------------------------------------------------------------- C35

/// The rules with a list of functions: name, name of the option, its defaults.
const LISTS: &[(&str, &str, &[&str])] = &[
    ("duplicated_arguments", "skipped-functions", &["c", "mutate", "summarize", "transmute"]),
    (
        "implicit_assignment",
        "skipped-functions",
        &["expect_error", "expect_warning", "expect_message", "expect_snapshot", "quote", "suppressMessages", "suppressWarnings"],
    ),
    ("unreachable_code", "stopping-functions", &["stop", ".Defunct", "abort", "cli_abort", "q", "quit"]),
    ("undesirable_function", "functions", &["browser"]),
];
const OWN: &[&str] = &["my_fun", "list2", "my.fun", ".f", "été", "C", "Stop", "sto", "stopp", "f", "debug", "mutate2", "expect_error2", "quit2", "browsers", "list"];

#[derive(Clone, Debug, Hash)]
struct Opts {
    /// For each rule of LISTS: (list, list to extend with).
    lists: Vec<(Names, Names)>,
    operator: Option<String>,
    legacy: bool,
    cli_operator: Option<String>,
    /// Something wrong elsewhere in the file.
    wrong: Option<String>,
    /// In a chunk of an R Markdown document.
    rmd: bool,
    calls: Vec<(usize, String)>,
}

fn opts_toml(o: &Opts) -> String {
    let mut t = String::from("[lint]\nselect = [\"duplicated_arguments\", \"implicit_assignment\", \"unreachable_code\", \"undesirable_function\", \"assignment\"]\n");
    if let (Some(x), true) = (&o.operator, o.legacy) {
        t.push_str(&format!("assignment = {}\n", json!(x)));
    }
    let wrong = o.wrong.as_deref().unwrap_or("");
    if !wrong.is_empty() && !wrong.starts_with('[') {
        t.push_str(&format!("{wrong}\n"));
    }
    if let (Some(x), false) = (&o.operator, o.legacy) {
        t.push_str(&format!("\n[lint.assignment]\noperator = {}\n", json!(x)));
    }
    for ((rule, opt, _), (a, b)) in LISTS.iter().zip(&o.lists) {
        if a.is_none() && b.is_none() {
            continue;
        }
        t.push_str(&format!("\n[lint.{rule}]\n"));
        if let Some(a) = a {
            t.push_str(&format!("{opt} = {}\n", json!(a)));
        }
        if let Some(b) = b {
            t.push_str(&format!("extend-{opt} = {}\n", json!(b)));
        }
    }
    if wrong.starts_with('[') {
        t.push_str(&format!("\n{wrong}\n"));
    }
    t
}

/// The program, and for each of its lines the rule that reports it.
fn opts_program(o: &Opts) -> (String, BTreeMap<(usize, String), usize>) {
    let mut t = String::new();
    let mut want = BTreeMap::new();
    let lists: Vec<BTreeSet<String>> = LISTS
        .iter()
        .zip(&o.lists)
        .map(|((_, _, def), (a, b))| match (a, b) {
            (Some(a), _) => a.iter().cloned().collect(),
            (_, b) => def.iter().map(|s| s.to_string()).chain(b.iter().flatten().cloned()).collect(),
        })
        .collect();
    let mut line = 0;
    let op = o.cli_operator.as_ref().or(o.operator.as_ref()).map_or("<-", |s| s.as_str());
    for (k, fun) in &o.calls {
        let plain = fun.rsplit(':').next().unwrap().to_string();
        let listed = |i: usize| lists[i].contains(&plain);
        let mut hit = |l: usize, r: &str| *want.entry((l, r.to_string())).or_insert(0) += 1;
        let call_at = if *k == 2 { line + 1 } else { line };
        if *k < 4 && listed(3) {
            hit(call_at, "undesirable_function");
        }
        match k {
            0 => {
                if !listed(0) {
                    hit(line, "duplicated_arguments");
                }
                t.push_str(&format!("function() {fun}(a = 1, b = 2, a = 3)\n"));
                line += 1;
            }
            1 => {
                if !listed(1) {
                    hit(line, "implicit_assignment");
                }
                // `<-` would be reported by `assignment` too
                t.push_str(&format!("function() {fun}(x <<- 1)\n"));
                line += 1;
            }
            2 => {
                if listed(2) {
                    hit(line + 2, "unreachable_code");
                }
                t.push_str(&format!("function(x) {{\n  {fun}(\"x\")\n  print(1)\n}}\n"));
                line += 4;
            }
            3 => {
                t.push_str(&format!("function() {fun}(x)\n"));
                line += 1;
            }
            _ => {
                let l = match k {
                    4 => "x = 1",
                    5 => "x <- 1",
                    6 => "1 -> x",
                    _ => "x <<- 1",
                };
                if (*k == 4 && op == "<-") || (*k == 5 && op == "=") || *k == 6 {
                    hit(line, "assignment");
                }
                t.push_str(l);
                t.push('\n');
                line += 1;
            }
        }
    }
    (t, want)
}

fn judge_opts(o: &Opts, real: bool) -> Result<usize, String> {
    let top = sut::scratch();
    let dir = top.path();
    let refused = o.wrong.is_some()
        || o.lists.iter().any(|(a, b)| a.is_some() && b.is_some())
        || [&o.operator, &o.cli_operator].into_iter().flatten().any(|x| x != "<-" && x != "=");
    let (program, want) = opts_program(o);
    let (program, want, name) = if o.rmd {
        let ahead = "Été\n\n```{r}\n";
        (format!("{ahead}{program}```\n"), want.into_iter().map(|((row, rule), n)| ((row + 3, rule), n)).collect(), "code.Rmd")
    } else {
        (program, want, "code.R")
    };
    put(dir, "jarl.toml", &opts_toml(o));
    put(dir, name, &program);
    let mut got: BTreeMap<(usize, String), usize> = BTreeMap::new();
    if real {
        let mut args = vec![".", "--output-format", "json"];
        let flag = format!("--assignment={}", o.cli_operator.as_deref().unwrap_or(""));
        if o.cli_operator.is_some() {
            args.push(&flag);
        }
        let (rc, out, err) = jarl(dir, &args);
        if refused {
            if rc != 255 || !out.is_empty() || err.is_empty() {
                return Err(format!("command: not refused (status {rc})\n{out}\n{err}"));
            }
            return Ok(0);
        }
        let v: Value = serde_json::from_str(&out).map_err(|_| format!("command: status {rc}\n{out}\n{err}"))?;
        for d in v["diagnostics"].as_array().into_iter().flatten() {
            let row = d["location"]["row"].as_u64().unwrap_or(0) as usize;
            *got.entry((row.saturating_sub(1), d["message"]["name"].as_str().unwrap_or("").into())).or_insert(0) += 1;
        }
    } else {
        let made = kit::guard(|| -> Result<_, String> {
            let t = parse_jarl_toml(&dir.join("jarl.toml")).map_err(|e| e.to_string())?;
            let s = t.into_settings(dir).map_err(|e| e.to_string())?;
            let mut a = sut::args();
            a.assignment = o.cli_operator.clone();
            build_config(&a, Some(&s), vec![]).map_err(|e| e.to_string())
        })
        .map_err(|e| format!("crash: {e}"))?;
        let cfg = match (made, refused) {
            (Err(_), true) => return Ok(0),
            (Ok(_), true) => return Err("accepted: should be refused".into()),
            (Err(e), false) => return Err(format!("refused: {e}")),
            (Ok(c), false) => c,
        };
        for d in sut::lint_as(&program, name, &cfg).map_err(|e| format!("lint: {e}"))? {
            let row = program[..sut::range(&d).0].matches('\n').count();
            *got.entry((row, d.message.name.clone())).or_insert(0) += 1;
        }
    }
    for (k, n) in &want {
        if got.get(k) != Some(n) {
            return Err(format!("missing: {} in line {} ({n} expected, {:?} seen)\n{program}", k.1, k.0 + 1, got.get(k)));
        }
    }
    if let Some(k) = got.keys().find(|k| !want.contains_key(k)) {
        return Err(format!("too many: {} in line {}\n{program}", k.1, k.0 + 1));
    }
    Ok(want.len())
}

fn opts_case(rng: &mut Rng) -> Opts {
    let pool: Vec<&str> = LISTS.iter().flat_map(|l| l.2.iter().copied()).chain(OWN.iter().copied()).collect();
    let names = |rng: &mut Rng| (0..rng.below(4)).map(|_| rng.pick(&pool).to_string()).collect::<Vec<_>>();
    let lists = LISTS
        .iter()
        .map(|_| match rng.below(20) {
            0..=5 => (Some(names(rng)), None),
            6..=11 => (None, Some(names(rng))),
            12 => (Some(names(rng)), Some(names(rng))),
            _ => (None, None),
        })
        .collect();
    let op = |rng: &mut Rng| if rng.chance(1, 12) { rng.pick(&["->", "", "<<-", " <-", "==", "equal"]).to_string() } else { rng.pick(&["<-", "="]).to_string() };
    let mut o = Opts { lists, operator: None, legacy: rng.chance(1, 3), cli_operator: None, wrong: None, rmd: rng.chance(1, 4), calls: vec![] };
    if rng.chance(1, 2) {
        o.operator = Some(op(rng));
    }
    if rng.chance(1, 4) {
        o.cli_operator = Some(op(rng));
    }
    if rng.chance(1, 10) {
        let w = [
            "unknown = 1",
            "skipped-functions = [\"a\"]",
            "extend_select = [\"PERF\"]",
            "default_exclude = true",
            "default-exclude = \"yes\"",
            "ignore = \"PERF\"",
            "fixable = [1]",
            "exclude = \"a\"",
            "[lint.unused_function]\nthreshold-ignore = -1",
            "[lint.unused_function]\nthreshold-ignore = \"a\"",
            "[lint.unused_function]\nskipped-functions = [\"(\"]",
            "[lint.unused_function]\nextend-skipped-functions = [\"a\"]",
            "[lint.any_is_na]\nx = 1",
            "[other]\nx = 1",
            "[lints]\nselect = [\"PERF\"]",
            "[format]",
        ];
        o.wrong = Some(rng.pick(&w).to_string());
    }
    for _ in 0..rng.range(3, 14) {
        let k = rng.below(8);
        let f = rng.pick(&pool).to_string();
        // namespaced calls are documented for these lists
        let f = if k < 3 && rng.chance(1, 3) { format!("{}{}{f}", rng.pick(&["pkg", "rlang", "c"]), rng.pick(&["::", ":::"])) } else { f };
        // `cli_...()` uses repeated argument names as a matter of course
        if k == 0 && f.contains("cli_") {
            continue;
        }
        o.calls.push((k, f));
    }
    o
}

pub fn run_c35(ctx: &mut Ctx) {
    ctx.rule = "a configuration of rule options with at least one line reported under it".into();
    let mut rng = ctx.rng.fork();
    let mut seen = BTreeSet::new();
    let mut k = 0u64;
    while ctx.time_left(1.0) {
        k += 1;
        let real = k % 25 == 0;
        let o = opts_case(&mut rng);
        ctx.case(format!("{o:?}"));
        match judge_opts(&o, real) {
            Ok(n) => {
                ctx.count(if n == 0 { "refused or silent" } else { "reported" }, &o, n > 0);
                ctx.bump("lines reported", n as u64);
                for (i, (a, b)) in o.lists.iter().enumerate() {
                    if a.is_some() || b.is_some() {
                        ctx.bump(&format!("{} {}", LISTS[i].0, if a.is_some() { "replaced" } else { "extended" }), 1);
                    }
                }
                if real {
                    ctx.bump("runs of the command", 1);
                }
                ctx.sample(if n == 0 { "refused" } else { "reported" }, || json!({"toml": opts_toml(&o), "program": opts_program(&o).0}));
            }
            Err(e) => {
                let kind: String = e.split(' ').take(2).collect::<Vec<_>>().join(" ");
                if !seen.insert(kind.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                let mut t = o.clone();
                let fails = |t: &Opts| judge_opts(t, real).is_err_and(|e| e.starts_with(&kind));
                for i in (0..t.calls.len()).rev() {
                    let mut u = t.clone();
                    u.calls.remove(i);
                    if kit::guard(|| fails(&u)).unwrap_or(false) {
                        t = u;
                    }
                }
                for i in 0..t.lists.len() {
                    let mut u = t.clone();
                    u.lists[i] = (None, None);
                    if kit::guard(|| fails(&u)).unwrap_or(false) {
                        t = u;
                    }
                }
                for f in [|u: &mut Opts| u.operator = None, |u: &mut Opts| u.cli_operator = None] {
                    let mut u = t.clone();
                    f(&mut u);
                    if kit::guard(|| fails(&u)).unwrap_or(false) {
                        t = u;
                    }
                }
                let e = judge_opts(&t, real).err().unwrap_or(e);
                ctx.fail(&format!("{t:?}"), format!("{e}\n--- jarl.toml\n{}", opts_toml(&t)), json!({"toml": opts_toml(&t), "program": opts_program(&t).0, "--assignment": t.cli_operator, "command": real}));
            }
        }
    }
}
