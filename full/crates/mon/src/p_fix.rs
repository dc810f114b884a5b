use crate::r#gen::{Gen, parses};
use crate::sut;
use crate::tree;
use jarl_core::diagnostic::Diagnostic;
use kit::Ctx;
use serde_json::json;
use std::collections::HashMap;

/// A replacement of a stretch of the text.
#[derive(Clone, Debug, PartialEq)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub content: String,
}

pub fn edits(d: &[Diagnostic]) -> Vec<Edit> {
    d.iter().filter(|d| sut::has_fix(d)).map(|d| Edit { start: d.fix.start, end: d.fix.end, content: d.fix.content.clone() }).collect()
}

/// Which set of the edits, applied at the same time and without overlap, turns `old` into `new`: the
/// largest one found, or none.
pub fn explain(old: &str, new: &str, edits: &[Edit]) -> Option<usize> {
    let mut by_start: HashMap<usize, Vec<&Edit>> = HashMap::new();
    for e in edits {
        by_start.entry(e.start).or_default().push(e);
    }
    fn go(
        i: usize, j: usize, old: &[u8], new: &[u8], by: &HashMap<usize, Vec<&Edit>>, memo: &mut HashMap<(usize, usize), Option<usize>>,
    ) -> Option<usize> {
        // walk over the plain text iteratively, branch at edits
        if i == old.len() && j == new.len() {
            return Some(0);
        }
        if let Some(v) = memo.get(&(i, j)) {
            return *v;
        }
        let mut best: Option<usize> = None;
        if let Some(list) = by.get(&i) {
            for e in list {
                let c = e.content.as_bytes();
                if e.end > e.start && new[j..].starts_with(c) {
                    if let Some(n) = go(e.end, j + c.len(), old, new, by, memo) {
                        best = best.max(Some(n + 1));
                    }
                }
            }
        }
        if i < old.len() && j < new.len() && old[i] == new[j] {
            best = best.max(go(i + 1, j + 1, old, new, by, memo));
        }
        memo.insert((i, j), best);
        best
    }
    go(0, 0, old.as_bytes(), new.as_bytes(), &by_start, &mut HashMap::new())
}

fn overlap(a: &Edit, b: &Edit) -> bool {
    a.start < b.end && b.start < a.end
}

/// One pass of `apply_fixes` judged.
pub fn bad_pass(text: &str, d: &[Diagnostic]) -> Option<String> {
    let es = edits(d);
    let (skipped, new) = match kit::guard(|| jarl_core::fix::apply_fixes(d, text)) {
        Ok(x) => x,
        Err(e) => return Some(format!("apply_fixes: {e}")),
    };
    let Some(n) = explain(text, &new, &es) else {
        return Some(format!("the result is not the text with some of the fixes applied:\n--- result\n{new}\n--- fixes\n{es:?}"));
    };
    if n == 0 && !es.is_empty() && es.iter().any(|e| text[e.start..e.end] != e.content) {
        return Some("there are fixes, but none was applied".into());
    }
    let overlaps = es.iter().enumerate().any(|(i, a)| es[..i].iter().any(|b| overlap(a, b)));
    if !overlaps && n < es.len() {
        return Some(format!("no two fixes overlap, but only {n} of {} were applied\n{new}", es.len()));
    }
    if !skipped && n < es.len() {
        return Some(format!("only {n} of {} fixes were applied, but none is said to be left", es.len()));
    }
    None
}

/// What one fix does to the code around it, judged on the syntax tree.
pub fn bad_fix(text: &str, e: &Edit) -> Option<String> {
    let put = |c: &str| format!("{}{c}{}", &text[..e.start], &text[e.end..]);
    let new = put(&e.content);
    let Some(c) = tree::parse(&new) else {
        return Some(format!("the fixed text does not parse:\n{new}"));
    };
    let mut before = tree::comments(text);
    let mut after = tree::comments(&new);
    before.sort();
    after.sort();
    if before != after {
        return Some(format!("comments before the fix {before:?}, after it {after:?}:\n{new}"));
    }
    // the replacement must stand where it is as one expression, whatever surrounds it
    if let Some(b) = tree::parse(&put(&format!("({})", e.content))) {
        let b = b.without_paren((e.start, e.start + e.content.len() + 2));
        if !b.same(&c) {
            return Some(format!("the replacement `{}` is torn apart by the code around it:\n{new}", e.content));
        }
    }
    None
}

pub fn run_c24(ctx: &mut Ctx) {
    ctx.rule = "a program with at least one fix, by text".into();
    let g = Gen::load();
    let cfg = sut::config("ALL");
    let mut rng = ctx.rng.fork();
    let length_test = std::cell::Cell::new(false);
    let judge = |t: &str| -> Option<(String, String)> {
        let d = sut::lint(t, &cfg).ok()?;
        if let Some(w) = bad_pass(t, &d) {
            return Some((format!("pass {}", w.split(':').next().unwrap()), w));
        }
        for x in &d {
            if !sut::has_fix(x) {
                continue;
            }
            let e = Edit { start: x.fix.start, end: x.fix.end, content: x.fix.content.clone() };
            if let Some(w) = bad_fix(t, &e) {
                // the known finding: all that is missing are parentheses around the replacement
                let with = Edit { content: format!("({})", e.content), ..e.clone() };
                if x.message.name == "length_test" && bad_fix(t, &with).is_none() {
                    length_test.set(true);
                    continue;
                }
                return Some((format!("{} {}", x.message.name, w.split(&[':', '`', '"', '['][..]).next().unwrap()), format!("{}: {w}", x.message.name)));
            }
        }
        None
    };
    let mut seen = std::collections::HashSet::new();
    let mut first = true;
    while ctx.time_left(1.0) {
        let mut p = if first { "y <- !length(x == 1)\n".to_string() } else { g.program(&mut rng) };
        first = false;
        if rng.chance(1, 3) {
            if let Some((t, ..)) = crate::p_ctx::relayout(&mut rng, &p) {
                p = t;
            }
        }
        ctx.case(p.clone());
        let Ok(mut d) = sut::lint(&p, &cfg) else { continue };
        // a comment somewhere in what a fix replaces
        if rng.chance(1, 3) {
            let fixes: Vec<&Diagnostic> = d.iter().filter(|x| sut::has_fix(x)).collect();
            if let Some(x) = (!fixes.is_empty()).then(|| *rng.pick(&fixes)) {
                let (_, ends) = tree::boundaries(&p);
                let mut at: Vec<usize> = ends.into_iter().filter(|i| *i > x.fix.start && *i < x.fix.end).collect();
                at.sort();
                for _ in 0..3 {
                    if at.is_empty() {
                        break;
                    }
                    let i = *rng.pick(&at);
                    let t = format!("{} # kept\n{}", &p[..i], &p[i..]);
                    if let (Some(a), Some(b)) = (tree::parse(&p), tree::parse(&t)) {
                        if a.same(&b) {
                            ctx.bump(&format!("comment in {}", x.message.name), 1);
                            p = t;
                            break;
                        }
                    }
                }
            }
            d = match sut::lint(&p, &cfg) {
                Ok(d) => d,
                Err(_) => continue,
            };
        }
        ctx.count("program", &p, d.iter().any(sut::has_fix));
        for x in d.iter().filter(|x| sut::has_fix(x)) {
            ctx.bump(&x.message.name, 1);
        }
        let bad = judge(&p);
        if length_test.take() {
            ctx.fail("length_test inside an operator", format!("the replacement of length_test is torn apart\n{p}"), json!({"text": p}));
        }
        if let Some((kind, _)) = bad {
            if !seen.insert(kind.clone()) {
                ctx.bump("repeated", 1);
                continue;
            }
            let small = crate::tree::shrink(&p, |t| parses(t) && judge(t).is_some_and(|(k, _)| k == kind));
            let w = judge(&small).map(|x| x.1).unwrap_or_default();
            ctx.fail(&small, format!("{w}\n--- text\n{small}"), json!({"text": small, "original": p}));
        }
    }
}
