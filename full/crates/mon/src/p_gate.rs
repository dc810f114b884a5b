//! Which fixes the real command applies, where, and under which version control states.

use crate::r#gen::Gen;
use crate::sut;
use jarl_core::config::Config;
use jarl_core::rule_set::Rule;
use kit::{Ctx, Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
struct Case {
    files: BTreeMap<String, String>,
    /// (fix, unsafe_fixes, fix_only, allow_dirty, allow_no_vcs)
    flags: [bool; 5],
    select: String,
    /// For each folder with a jarl.toml: `fixable` and `unfixable`.
    tomls: BTreeMap<String, (Option<Vec<String>>, Vec<String>)>,
    vcs: Vcs,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Vcs {
    None,
    Clean,
    Untracked,
    Modified,
    Staged,
    Deleted,
    /// Changed, staged, removed and new files at once.
    Several,
    Executable,
    /// Only an ignored file differs.
    Ignored,
    WorktreeClean,
    WorktreeDirty,
    /// The repository is the parent folder; what is not committed lies outside the linted folder.
    ParentClean,
    ParentDirty,
    /// Only the folder `sub` is under version control.
    SubClean,
    SubDirty,
    /// `sub` is a repository of its own inside of a clean one.
    NestedClean,
    NestedDirty,
}
use Vcs::*;
const ALL_VCS: &[Vcs] = &[
    None, None, None, Clean, Clean, Clean, Clean, Untracked, Modified, Staged, Deleted, Several, Executable, Ignored, WorktreeClean, WorktreeDirty, ParentClean, ParentDirty, SubClean,
    SubDirty, NestedClean, NestedDirty,
];

impl Vcs {
    fn uncovered(self) -> bool {
        matches!(self, None | SubClean | SubDirty)
    }
    /// What the refusal has to name.
    fn changed(self) -> &'static [&'static str] {
        match self {
            Untracked => &["new/"],
            Staged => &["added.txt"],
            Several => &["a b.txt", "new file.R", "notes.txt", "old.txt"],
            ParentDirty => &["outside.txt"],
            Modified | Deleted | Executable | WorktreeDirty | SubDirty | NestedDirty => &["notes.txt"],
            _ => &[],
        }
    }
    fn dirty(self) -> bool {
        matches!(self, Untracked | Modified | Staged | Deleted | Several | Executable | WorktreeDirty | ParentDirty | SubDirty | NestedDirty)
    }
}

fn git(dir: &Path, home: &Path, args: &[&str]) {
    let o = Command::new("git")
        .args(["-c", "user.name=m", "-c", "user.email=m@m", "-c", "init.defaultBranch=main", "-c", "core.fsync=none", "-c", "gc.auto=0", "-c", "maintenance.auto=false"])
        .arg("-C")
        .arg(dir)
        .args(args)
        .env("HOME", home)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .stdin(Stdio::null())
        .output()
        .expect("git runs");
    assert!(o.status.success(), "git {args:?}: {}", String::from_utf8_lossy(&o.stderr));
}

fn put(dir: &Path, name: &str, text: &str) {
    let f = dir.join(name);
    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
    std::fs::write(f, text).unwrap();
}

/// All files below a folder, without those of git.
pub fn read_all(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(dir: &Path, at: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(dir).unwrap() {
            let e = e.unwrap();
            let name = e.file_name().to_string_lossy().into_owned();
            if name == ".git" {
                continue;
            }
            let rel = if at.is_empty() { name } else { format!("{at}/{name}") };
            if e.file_type().unwrap().is_dir() {
                go(&e.path(), &rel, out);
            } else {
                out.insert(rel, std::fs::read(e.path()).unwrap());
            }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, "", &mut out);
    out
}

/// Lays the case out; gives the folder to run in.
fn lay(top: &Path, c: &Case) -> std::path::PathBuf {
    let base = top.join("base");
    let work = match c.vcs {
        WorktreeClean | WorktreeDirty => top.join("origin"),
        ParentClean | ParentDirty => base.join("inner"),
        _ => base.clone(),
    };
    for (n, t) in &c.files {
        put(&work, n, t);
    }
    for (d, (fixable, unfixable)) in &c.tomls {
        let mut t = String::from("[lint]\n");
        if let Some(f) = fixable {
            t.push_str(&format!("fixable = {}\n", json!(f)));
        }
        if !unfixable.is_empty() {
            t.push_str(&format!("unfixable = {}\n", json!(unfixable)));
        }
        put(&work, &format!("{d}jarl.toml"), &t);
    }
    let some = c.files.keys().next().unwrap();
    let commit = |d: &Path| {
        git(d, top, &["init", "-q"]);
        put(d, ".gitignore", "*.log\n");
        git(d, top, &["add", "-A"]);
        git(d, top, &["commit", "-q", "-m", "all"]);
    };
    match c.vcs {
        None => {}
        Clean => commit(&work),
        Untracked => {
            commit(&work);
            put(&work, "new/file.txt", "new");
        }
        Modified => {
            commit(&work);
            put(&work, "notes.txt", "changed");
        }
        Staged => {
            commit(&work);
            put(&work, "added.txt", "new");
            git(&work, top, &["add", "added.txt"]);
        }
        Deleted => {
            commit(&work);
            std::fs::remove_file(work.join("notes.txt")).unwrap();
        }
        Several => {
            put(&work, "old.txt", "old");
            commit(&work);
            put(&work, "notes.txt", "changed");
            put(&work, "a b.txt", "new");
            git(&work, top, &["add", "a b.txt"]);
            std::fs::remove_file(work.join("old.txt")).unwrap();
            put(&work, "new file.R", "x <- 1\n");
        }
        Executable => {
            commit(&work);
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(work.join("notes.txt"), std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        Ignored => {
            commit(&work);
            put(&work, "some.log", "ignored");
        }
        WorktreeClean | WorktreeDirty => {
            commit(&work);
            git(&work, top, &["worktree", "add", "-q", "--detach", base.to_str().unwrap()]);
            if c.vcs == WorktreeDirty {
                put(&base, "notes.txt", "changed");
            }
            return base;
        }
        ParentClean | ParentDirty => {
            commit(&base);
            if c.vcs == ParentDirty {
                put(&base, "outside.txt", "new");
            }
        }
        SubClean | SubDirty => {
            put(&work, "sub/t.R", &c.files[some]);
            commit(&work.join("sub"));
            if c.vcs == SubDirty {
                put(&work, "sub/notes.txt", "changed");
            }
        }
        NestedClean | NestedDirty => {
            put(&work, "sub/t.R", &c.files[some]);
            commit(&work.join("sub"));
            commit(&work); // has `sub` as a link to its commit
            if c.vcs == NestedDirty {
                put(&work, "sub/notes.txt", "changed");
            }
        }
    }
    work
}

fn run(dir: &Path, home: &Path, c: &Case) -> (i32, String, String) {
    let mut cmd = Command::new(sut::jarl_bin());
    cmd.args(["check", ".", "--output-format", "json", "--min-r-version", "4.6"]).current_dir(dir).env("NO_COLOR", "1").env("HOME", home).stdin(Stdio::null());
    cmd.env_remove("XDG_CONFIG_HOME");
    if !c.select.is_empty() {
        cmd.args(["--select", &c.select]);
    }
    for (on, f) in c.flags.iter().zip(["--fix", "--unsafe-fixes", "--fix-only", "--allow-dirty", "--allow-no-vcs"]) {
        if *on {
            cmd.arg(f);
        }
    }
    let o = cmd.output().expect("the jarl binary runs");
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}

fn named(list: &[String], rule: &str) -> bool {
    list.iter().any(|l| l == rule || Rule::from_name(rule).is_some_and(|r| r.categories().iter().any(|c| c.as_str() == l)))
}

/// The text after fixing with the given rules, with the loop of the command redone here.
fn fixed(text: &str, name: &str, cfg: &Config, may: &dyn Fn(&str) -> bool) -> String {
    let mut cur = text.to_string();
    for _ in 0..200 {
        let Ok(mut d) = sut::lint_as(&cur, name, cfg) else { break };
        for x in &mut d {
            if !may(&x.message.name) {
                x.fix.start = 0;
                x.fix.end = 0;
                x.fix.content = String::new();
            }
        }
        let (more, new) = jarl_core::fix::apply_fixes(&d, &cur);
        cur = new;
        if !more {
            break;
        }
    }
    cur
}

fn subset(cfg: &Config, keep: impl Fn(Rule) -> bool) -> Config {
    let names: Vec<&str> = cfg.rules.iter().filter(|&&r| keep(r)).map(|r| r.name()).collect();
    let mut c = cfg.clone();
    c.rules_to_apply = names.iter().filter_map(|n| Rule::from_name(n)).collect();
    c
}

fn judge(c: &Case) -> Result<(usize, bool), String> {
    let top = sut::scratch();
    let dir = lay(top.path(), c);
    let before = read_all(&dir);
    let (rc, out, err) = run(&dir, top.path(), c);
    let after = read_all(&dir);
    let [fix, unsafe_fixes, fix_only, allow_dirty, allow_no_vcs] = c.flags;
    let fixing = fix || unsafe_fixes || fix_only;
    let same = |what: &str| -> Result<(), String> {
        for (n, t) in &before {
            match after.get(n) {
                Some(u) if u == t => {}
                _ => return Err(format!("{what}: {n} was changed or removed\n--- now\n{}", after.get(n).map_or("(gone)".into(), |u| String::from_utf8_lossy(u)))),
            }
        }
        Ok(())
    };
    if let Some(n) = after.keys().find(|n| !before.contains_key(*n)) {
        return Err(format!("the new file {n} was left behind"));
    }
    let refused = fixing && ((c.vcs.uncovered() && !allow_no_vcs) || (c.vcs.dirty() && !allow_dirty));
    if refused {
        same("refused because of version control")?;
        if rc != 255 || !(out.clone() + &err).contains("no fixes were applied") {
            return Err(format!("refusal expected: status {rc}\n{out}\n{err}"));
        }
        let v: Value = serde_json::from_str(&out).unwrap_or_default();
        let mut all = err;
        for e in v["errors"].as_array().into_iter().flatten() {
            all += e["error"].as_str().unwrap_or("");
        }
        let mut told: Vec<&str> = all.lines().filter_map(|l| l.strip_prefix("  * ")?.strip_suffix(" (dirty)")).collect();
        told.sort();
        told.dedup();
        let uncovered = c.vcs.uncovered() && !allow_no_vcs;
        let want = if uncovered { &[] } else { c.vcs.changed() };
        // the outer repository may tell of the inner one as well
        let right = if c.vcs == NestedDirty { !told.is_empty() && told.iter().all(|t| ["sub", "notes.txt"].contains(t)) } else { told == want };
        if !right || all.contains("--allow-no-vcs") != uncovered || all.contains("--allow-dirty") == uncovered {
            return Err(format!("reason of the refusal: changed are {want:?}, version control missing: {uncovered}\n{all}"));
        }
        return Ok((0, true));
    }
    if !fixing {
        same("linted only")?;
    }
    if !(0..=1).contains(&rc) && rc != 255 {
        return Err(format!("crash: status {rc}\n{err}"));
    }
    if (out.clone() + &err).contains("no fixes were applied") {
        return Err(format!("refused without a reason\n{err}"));
    }
    let cfg = sut::config(&c.select);
    let reporting = if fixing {
        subset(&cfg, |r| (unsafe_fixes || !r.has_unsafe_fix()) && !(fix_only && r.has_no_fix()))
    } else {
        cfg.clone()
    };
    let mut changed = 0;
    let mut expected: BTreeMap<(String, String, u64, u64), i32> = BTreeMap::new();
    let mut errors = false;
    for (name, t) in &before {
        let new = String::from_utf8_lossy(&after[name]).into_owned();
        let old = String::from_utf8_lossy(t).into_owned();
        let ext = name.rsplit('.').next().unwrap();
        let code = matches!(ext, "R" | "r");
        let text = matches!(ext, "Rmd" | "qmd");
        if !(code || text) {
            if new != old {
                return Err(format!("not a file of R code: {name} was changed"));
            }
            continue;
        }
        // the settings of the nearest jarl.toml
        let toml = c.tomls.iter().filter(|(d, _)| name.starts_with(d.as_str())).max_by_key(|(d, _)| d.len()).map(|x| x.1.clone()).unwrap_or_default();
        let may = |r: &str| {
            let rule = Rule::from_name(r);
            rule.is_some_and(|r| r.has_safe_fix() || (unsafe_fixes && r.has_unsafe_fix())) && toml.0.as_ref().is_none_or(|f| named(f, r)) && !named(&toml.1, r)
        };
        let want = if fixing && code { fixed(&old, name, &reporting, &may) } else { old.clone() };
        if new != want {
            return Err(format!("fixes: {name} is not what the allowed fixes make of it\n--- before\n{old}\n--- expected\n{want}\n--- now\n{new}"));
        }
        changed += (new != old) as usize;
        match sut::lint_as(&new, name, &reporting) {
            Ok(d) => {
                for x in d {
                    let (s, e) = sut::range(&x);
                    *expected.entry((x.message.name.clone(), name.clone(), s as u64, e as u64)).or_default() += 1;
                }
            }
            Err(_) => errors = true,
        }
    }
    // what is reported is what is left
    if !fix_only {
        let v: Value = serde_json::from_str(&out).map_err(|e| format!("output: not JSON ({e})\n{out}\n{err}"))?;
        let any = !expected.is_empty();
        for d in v["diagnostics"].as_array().into_iter().flatten() {
            let file = d["filename"].as_str().unwrap_or("").trim_start_matches("./").to_string();
            let k = (d["message"]["name"].as_str().unwrap_or("").to_string(), file, d["range"][0].as_u64().unwrap_or(0), d["range"][1].as_u64().unwrap_or(0));
            *expected.entry(k).or_default() -= 1;
        }
        if let Some((k, n)) = expected.iter().find(|(_, n)| **n != 0) {
            return Err(format!("report: {k:?} is {} in what is reported", if *n > 0 { "missing" } else { "too much" }));
        }
        let want = if errors { 255 } else { any as i32 };
        if rc != want {
            return Err(format!("status: {rc} instead of {want}\n{out}\n{err}"));
        }
    }
    Ok((changed, false))
}

fn names(rng: &mut Rng, rules: &[String]) -> Vec<String> {
    let mut v: Vec<String> = (0..rng.range(1, 6)).map(|_| rng.pick(rules).clone()).collect();
    if rng.chance(1, 3) {
        v.push(rng.pick(&["PERF", "READ", "SUSP", "CORR", "TESTTHAT"]).to_string());
    }
    v
}

fn case(g: &Gen, rng: &mut Rng, rules: &[String]) -> Case {
    let mut files = BTreeMap::new();
    let all = ["a.R", "b.r", "s p a c e.R", "sub/c.R", "sub/deep/d.R", "other/é.R", "e.Rmd", "other/f.qmd"];
    for n in all {
        if n == "a.R" || rng.chance(1, 2) {
            let t = if n.ends_with("md") {
                g.rmd(rng).0
            } else if rng.chance(1, 10) {
                "any(is.na(x))\nx <- (\n".to_string()
            } else if rng.chance(1, 6) {
                format!("{}\n# jarl-ignore any_is_na: wanted\nany(is.na(x))\n", g.program(rng))
            } else {
                g.program(rng)
            };
            files.insert(n.to_string(), t);
        }
    }
    files.insert("notes.txt".into(), "any(is.na(x))\n".into());
    files.insert("sub/script.py".into(), "any(is.na(x))\n".into());
    let mut tomls = BTreeMap::new();
    for d in ["", "sub/", "other/"] {
        if rng.chance(1, 4) {
            let f = if rng.chance(1, 2) { Some(names(rng, rules)) } else { Option::None };
            let u = if rng.chance(1, 2) { names(rng, rules) } else { vec![] };
            tomls.insert(d.to_string(), (f, u));
        }
    }
    let select = match rng.below(4) {
        0 => "ALL".to_string(),
        1 => names(rng, rules).join(","),
        2 => String::new(),
        _ => "PERF,READ,SUSP,CORR".into(),
    };
    Case {
        files,
        flags: [rng.chance(2, 3), rng.chance(1, 3), rng.chance(1, 5), rng.chance(1, 3), rng.chance(1, 2)],
        select,
        tomls,
        vcs: *rng.pick(ALL_VCS),
    }
}

fn shrunk(c: &Case, kind: &str) -> Case {
    let fails = |c: &Case| judge(c).is_err_and(|e| e.starts_with(kind));
    let mut c = c.clone();
    for n in c.files.keys().cloned().collect::<Vec<_>>() {
        let mut d = c.clone();
        d.files.remove(&n);
        if d.files.len() > 1 && d.files.keys().next().unwrap().ends_with('R') && d.files.contains_key("notes.txt") && kit::guard(|| fails(&d)).unwrap_or(false) {
            c = d;
        }
    }
    for n in c.tomls.keys().cloned().collect::<Vec<_>>() {
        let mut d = c.clone();
        d.tomls.remove(&n);
        if kit::guard(|| fails(&d)).unwrap_or(false) {
            c = d;
        }
    }
    for i in 0..5 {
        let mut d = c.clone();
        if d.flags[i] {
            d.flags[i] = false;
            if kit::guard(|| fails(&d)).unwrap_or(false) {
                c = d;
            }
        }
    }
    let t0 = std::time::Instant::now();
    for n in c.files.keys().cloned().collect::<Vec<_>>() {
        let t = c.files[&n].clone();
        let small = crate::tree::shrink(&t, |u| {
            let mut d = c.clone();
            d.files.insert(n.clone(), u.to_string());
            t0.elapsed().as_secs() < 20 && kit::guard(|| fails(&d)).unwrap_or(false)
        });
        c.files.insert(n, small);
    }
    c
}

pub fn run_c25(ctx: &mut Ctx) {
    ctx.rule = "a run that fixes files or is refused, by files, flags, settings and state of version control".into();
    let g = Gen::load();
    let mut rng = ctx.rng.fork();
    let rules: Vec<String> = sut::config("ALL").rules.iter().map(|r| r.name().to_string()).collect();
    let mut seen = BTreeSet::new();
    while ctx.time_left(1.0) {
        let c = case(&g, &mut rng, &rules);
        ctx.case(format!("{c:?}"));
        match judge(&c) {
            Ok((n, refused)) => {
                let fixing = c.flags[0] || c.flags[1] || c.flags[2];
                ctx.count(&format!("{:?}", c.vcs), &format!("{c:?}"), n > 0 || refused);
                ctx.bump(if refused { "refused" } else if fixing { "fixing" } else { "lint only" }, 1);
                ctx.bump("files changed", n as u64);
            }
            Err(w) => {
                let kind: String = w.split(':').next().unwrap().to_string();
                if !seen.insert(kind.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                let small = shrunk(&c, &kind);
                let w = judge(&small).err().unwrap_or(w);
                ctx.fail(&format!("{small:?}"), format!("{w}\n--- case\n{small:?}"), json!({"case": format!("{small:?}"), "original": format!("{c:?}")}));
            }
        }
    }
}
