//! `--add-jarl-ignore`.

use crate::r#gen::{Gen, parses};
use crate::p_supp::META;
use crate::{sut, tree};
use kit::Ctx;
use serde_json::json;
use std::process::{Command, Stdio};

fn add(dir: &std::path::Path, reason: Option<&str>) -> (i32, String) {
    let mut c = Command::new(sut::jarl_bin());
    c.arg("check").arg(".").args(["--select", "ALL", "--min-r-version", "4.6"]).current_dir(dir).env("NO_COLOR", "1").stdin(Stdio::null());
    match reason {
        Some(r) => c.arg(format!("--add-jarl-ignore={r}")),
        None => c.arg("--add-jarl-ignore"),
    };
    let o = c.output().expect("the jarl binary runs");
    (o.status.code().unwrap_or(-1), format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)))
}

/// The known finding: a comment above a statement cannot silence what spans several statements.
const SEVERAL: &str = "unreachable_code over several statements";

pub fn spans_several(text: &str, d: &jarl_core::diagnostic::Diagnostic) -> bool {
    let (s, e) = sut::range(d);
    d.message.name == "unreachable_code"
        && tree::parse(&text[s..e]).is_none_or(|t| t.kids.iter().filter(|k| k.kind == air_r_syntax::RSyntaxKind::R_EXPRESSION_LIST).map(|k| k.kids.len()).sum::<usize>() > 1)
}

/// Comments in front of lines with diagnostics, of rules with similar names.
pub fn with_comments(rng: &mut kit::Rng, text: &str, cfg: &jarl_core::config::Config) -> String {
    let all: Vec<String> = jarl_core::rule_set::Rule::all().iter().map(|r| r.name().to_string()).collect();
    let Ok(diags) = sut::lint(text, cfg) else { return text.into() };
    let mut lines: Vec<String> = text.split('\n').map(String::from).collect();
    let mut at: Vec<(usize, String)> = diags.iter().map(|d| (text[..sut::range(d).0].matches('\n').count(), d.message.name.clone())).collect();
    at.sort();
    at.dedup();
    for (l, rule) in at.into_iter().rev() {
        if rng.chance(1, 3) {
            continue;
        }
        let near: Vec<&str> = all.iter().map(String::as_str).filter(|r| *r != rule && (r.starts_with(rule.as_str()) || rule.starts_with(r) || r.ends_with(rule.as_str()) || r[..3] == rule[..3])).collect();
        let other = if near.is_empty() { rng.pick(&all).as_str() } else { *rng.pick(&near) };
        let by: String = lines[l].chars().take_while(|c| c.is_whitespace()).collect();
        let why = *rng.pick(&["for a reason", "été", rule.as_str()]);
        let c = match rng.below(12) {
            0 => format!("{rule}, {other}: {why}"),
            1 => format!("{rule}"),
            2 => format!("{rule}:"),
            3 => format!("{rule}2: {why}"),
            4 => format!(": {rule}: {why}"),
            _ => format!("{other}: {why}"),
        };
        lines.insert(l, format!("{by}# jarl-ignore {c}"));
        if !parses(&lines.join("\n")) {
            lines.remove(l);
        }
    }
    lines.join("\n")
}

/// What `--add-jarl-ignore` does wrong on one file, if anything; `known` is set where the known finding shows.
fn judge(dir: &std::path::Path, name: &str, text: &str, reason: Option<&str>, cfg: &jarl_core::config::Config, known: &std::cell::Cell<bool>) -> Result<usize, String> {
    for n in ["file.R", "file.Rmd"] {
        let _ = std::fs::remove_file(dir.join(n));
    }
    let file = dir.join(name);
    std::fs::write(&file, text).unwrap();
    let before = sut::lint_as(text, name, cfg)?;
    let about_comments = |v: &[jarl_core::diagnostic::Diagnostic]| -> Vec<(String, String)> {
        v.iter().filter(|d| META.contains(&d.message.name.as_str())).map(|d| (d.message.name.clone(), d.message.body.clone())).collect()
    };
    let (rc, out) = add(dir, reason);
    let new = std::fs::read_to_string(&file).map_err(|e| format!("the file cannot be read any more: {e}"))?;
    // such comments would have no effect
    if reason.is_some_and(|r| r.trim().is_empty() || r.contains(['\n', '\r'])) {
        return if new == text && rc == 255 && out.contains("--add-jarl-ignore") {
            Ok(0)
        } else {
            Err(format!("the reason {reason:?} is accepted: status {rc} and the file is\n{new}\n{out}"))
        };
    }
    if before.is_empty() {
        return if new == text && rc == 0 { Ok(0) } else { Err(format!("nothing to suppress, but status {rc} and the file is\n{new}\n{out}")) };
    }
    if rc != 0 {
        return Err(format!("status {rc}\n{out}"));
    }
    if before.iter().all(|d| META.contains(&d.message.name.as_str())) {
        return if new == text { Ok(0) } else { Err(format!("only comments are reported, but the file is changed:\n{new}")) };
    }
    // only comments and white space may have been inserted
    let why = reason.unwrap_or("<reason>");
    let squeeze = |t: &str| -> String { t.chars().filter(|c| !c.is_whitespace()).collect() };
    let is_ours = |l: &str| l.trim_start().strip_prefix("# jarl-ignore ").and_then(|l| l.split_once(": ")).is_some_and(|(_, w)| w == why);
    let stripped: Vec<&str> = new.lines().filter(|l| !is_ours(l)).collect();
    let added = new.lines().filter(|l| is_ours(l)).count();
    if squeeze(&stripped.join("\n")) != squeeze(text) {
        return Err(format!("something other than comments was changed:\n{new}"));
    }
    if name.ends_with(".R") {
        let (a, b) = (tree::parse(text), tree::parse(&new));
        match (a, b) {
            (Some(a), Some(b)) if a.same(&b) => {}
            (_, None) => return Err(format!("the file does not parse any more:\n{new}")),
            _ => return Err(format!("the code means something else now:\n{new}")),
        }
    }
    // and the diagnostics are gone
    let mut after = sut::lint_as(&new, name, cfg).map_err(|e| format!("the new file cannot be linted: {e}\n{new}"))?;
    // a comment that is not needed because of another one is no harm
    after.retain(|d| d.message.name != "outdated_suppression");
    // those about comments stay, and no other appears
    let mut old = about_comments(&before);
    let mut more = vec![];
    for x in about_comments(&after) {
        match old.iter().position(|y| *y == x) {
            Some(i) => drop(old.remove(i)),
            None => more.push(x.0),
        }
    }
    if !more.is_empty() {
        return Err(format!("comments are reported that were not before ({}):\n{new}", more.join(", ")));
    }
    after.retain(|d| !META.contains(&d.message.name.as_str()));
    if after.iter().any(|d| spans_several(&new, d)) {
        known.set(true);
        after.retain(|d| !spans_several(&new, d));
    }
    if !after.is_empty() {
        let mut names: Vec<&str> = after.iter().map(|d| d.message.name.as_str()).collect();
        names.sort();
        names.dedup();
        return Err(format!("still reported ({}):\n{new}", names.join(", ")));
    }
    if !out.contains(&format!("Added {added} suppression comment(s) across 1 file(s)")) {
        return Err(format!("{added} comments were added, but the output is:\n{out}"));
    }
    Ok(added)
}

pub fn run_c23(ctx: &mut Ctx) {
    ctx.rule = "a file in which at least one comment had to be added, by text".into();
    let g = Gen::load();
    let cfg = sut::config("ALL");
    let mut rng = ctx.rng.fork();
    let dir = sut::scratch();
    let mut seen = std::collections::HashSet::new();
    let known = std::cell::Cell::new(false);
    let mut first = true;
    while ctx.time_left(1.0) {
        let rmd = rng.chance(1, 6);
        let (p, name) = if first { ("stop()\nx\nx\n".to_string(), "file.R") } else if rmd { (g.rmd(&mut rng).0, "file.Rmd") } else { (g.program(&mut rng), "file.R") };
        let p = if !rmd && rng.chance(1, 5) { with_comments(&mut rng, &p, &cfg) } else { p };
        let refused = *rng.pick(&["", " ", "\t ", "a\nb", "a\rb", "a\n", "\n"]);
        let reason = *rng.pick(&[None, None, None, Some("see #12"), Some("été 🌍: why"), Some("x"), Some("a: b - c"), Some(refused)]);
        ctx.case(p.clone());
        if sut::lint_as(&p, name, &cfg).is_err() {
            continue;
        }
        first = false;
        match judge(dir.path(), name, &p, reason, &cfg, &known) {
            Ok(n) => ctx.count(if rmd { "R Markdown" } else { "program" }, &p, n > 0),
            Err(w) => {
                let kind = w.split(':').next().unwrap().to_string();
                if !seen.insert(kind.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                let fails = |t: &str| judge(dir.path(), name, t, reason, &cfg, &known).is_err_and(|e| e.starts_with(&kind));
                let small = if rmd { kit::shrink_text(&p, fails) } else { tree::shrink(&p, |t| parses(t) && fails(t)) };
                let w = judge(dir.path(), name, &small, reason, &cfg, &known).err().unwrap_or(w);
                ctx.fail(&small, format!("{w}\n--- text\n{small}"), json!({"text": small, "original": p, "name": name, "reason": reason}));
            }
        }
        if known.take() {
            ctx.fail(SEVERAL, format!("still reported: unreachable_code over several statements\n{p}"), json!({"text": p}));
        }
    }
}
