//! C37: each rule reports the code it documents, all of it and nothing else. A table of patterns, each
//! with holes for arbitrary code, says for every rule what is to be reported and what is not; `sprintf`
//! formats are generated along with their meaning.

use crate::{r#gen::parses, sut};
use kit::{Ctx, Rng};
use serde_json::json;
use std::collections::HashMap;

/// Functions in the table that could be any other one, by rule.
const ANY_NAME: &[(&str, &str)] = &[
    ("assignment", "names"),
    ("duplicated_arguments", "list"),
    ("expect_named", "c"),
    ("expect_not", "is.na"),
    ("lengths", "integer"),
    ("lengths", "numeric"),
    ("outer_negation", "is.na"),
    ("string_boundary", "nchar"),
];

struct Pat {
    rule: String,
    yes: bool,
    /// Whether it comes with a fix if the rule has one.
    fixed: bool,
    /// The operator of the rule `assignment`.
    equal: bool,
    text: String,
}

fn table() -> Vec<Pat> {
    let mut rule = String::new();
    let mut out = vec![];
    let mut equal = false;
    for l in include_str!("detect.txt").lines() {
        if let Some(r) = l.strip_prefix('[').and_then(|l| l.strip_suffix(']')) {
            equal = r.ends_with(" =");
            rule = r.trim_end_matches(" =").into();
        } else if let Some(t) = l.strip_prefix("+ ").or(l.strip_prefix("- ")).or(l.strip_prefix("! ")) {
            out.push(Pat { rule: rule.clone(), yes: !l.starts_with('-'), fixed: l.starts_with('+'), equal, text: t.replace("\\n", "\n") });
        }
    }
    out
}

const VARS: &[&str] = &["idx", "val_1", "tmp.v", "zz9", "Été", "resultat", "i", "_skip"];
const FUNS: &[&str] = &["foo", "bar_2", "my.fun", "Compute", "été_f", "quux", "as.logical", "as_raw", "lengthy", "is.na_or", "anyOf", "seq3", "Sort"];
const OPERANDS: &[&str] = &[
    "x", "y2", ".hidden", "`odd name`", "fx(q)", "obj$col", "obj@slot", "d[[\"k\"]]", "m[r]", "m[r, k]", "ns::fx(q, 2)",
    "(p + q)", "fx(gy(h))", "obj$fx(q)$b", "été", "d$`a b`[[3]]", "fx(k = 1, j = q)", "ns::obj", "(\\(u) u)(q)", "fx()", "obj$m()[r]",
    "as.logical(q)", "as.character(h)", "is_null(q)", "lengthen(q)", "obj$length(q)", "obj$any(q)",
];
const VALUES: &[&str] = &[
    "p + q", "function(u) u + 3", "\\(u) u", "if (p) q else h", "p & q", "-q", "p |> fx()", "c(p, 3, k = q)", "p %op% q",
    "~ p + q", "3:9", "{ q }", "list(p, list(q))", "function(u, ...) {\n  fx(u)\n}", "p || q",
];
const STRINGS: &[&str] = &["abc", "my class", "x1", "héé", "a_b", "A-Z", "key=val", "日本", "a,b"];
const NUMBERS: &[&str] = &["2", "10", "3L", "7", "100L", "12"];

fn string(r: &mut Rng) -> String {
    let q = if r.chance(1, 2) { '"' } else { '\'' };
    format!("{q}{}{q}", r.pick(STRINGS))
}

fn hole(r: &mut Rng, c: char, used: &[String]) -> String {
    for _ in 0..50 {
        let s = match c {
            'v' | 'w' => {
                let s = r.pick(VARS).to_string();
                if s.starts_with('_') { continue } else { s }
            }
            'f' | 'g' => r.pick(FUNS).to_string(),
            's' | 't' => string(r),
            'n' => r.pick(NUMBERS).to_string(),
            'a' | 'b' | 'c' => r.pick(OPERANDS).to_string(),
            _ if r.chance(1, 2) => r.pick(OPERANDS).to_string(),
            _ => r.pick(VALUES).to_string(),
        };
        if !used.contains(&s) {
            return s;
        }
    }
    unreachable!("hole {c}")
}

/// The text of a pattern with its holes filled, and the ranges marked in it.
fn fill(r: &mut Rng, t: &str) -> (String, Vec<(usize, usize)>) {
    let mut map: HashMap<char, String> = HashMap::new();
    let (mut out, mut marks, mut open) = (String::new(), vec![], 0);
    let mut it = t.chars();
    while let Some(c) = it.next() {
        match c {
            '«' => open = out.len(),
            '»' => marks.push((open, out.len())),
            '$' => {
                let k = it.next().unwrap();
                // `$v$T`: a dollar before something else than a hole
                if k == '$' || !"abcABvwfgstn".contains(k) {
                    out.push('$');
                    if k != '$' {
                        out.push(k);
                    }
                    continue;
                }
                let used: Vec<String> = map.values().cloned().collect();
                let v = map.entry(k).or_insert_with(|| hole(r, k, &used)).clone();
                out += &v;
            }
            c => out.push(c),
        }
    }
    (out, marks)
}

/// Puts the code somewhere; returns the text and where the code starts in it, and the indent added.
fn place(r: &mut Rng, code: &str) -> (String, usize) {
    let (pre, post) = match r.below(7) {
        0 | 1 => ("", ""),
        2 => ("outer_f <- function(q0) {\n", "\n}\n"),
        3 => ("# a comment\nbefore_it <- 1L\n", "\nafter_it(2)\n"),
        4 => ("repeat {\n  p0()\n", "\n  break\n}\n"),
        5 => ("local({\n", "\n})"),
        _ => ("\"é\"; ", " # trailing"),
    };
    (format!("{pre}{code}{post}"), pre.len())
}

/// The code in another layout with the marks moved along.
fn elsewhere(r: &mut Rng, text: &str, want: &[(usize, usize)]) -> Option<(String, Vec<(usize, usize)>)> {
    let (t, a, b) = crate::p_ctx::relayout(r, text)?;
    let moved = want
        .iter()
        .map(|(s, e)| Some((b[a.iter().position(|k| k.start == *s)?].start, b[a.iter().position(|k| k.end == *e)?].end)))
        .collect::<Option<Vec<_>>>()?;
    Some((t, moved))
}

/// The names of functions written out in a pattern, within what is reported: where each starts and ends.
fn names(p: &Pat) -> Vec<(usize, usize)> {
    let t = &p.text;
    let (lo, hi) = match (t.find('«'), t.find('»')) {
        (Some(a), Some(b)) => (a, b),
        _ => (0, t.len()),
    };
    let ident = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
    let mut out = vec![];
    for (i, _) in t.match_indices('(').filter(|(i, _)| (lo..hi).contains(i)) {
        let start = t[..i].char_indices().rev().take_while(|(_, c)| ident(*c)).last().map_or(i, |(k, _)| k);
        let before = t[..start].chars().last();
        if start < i && before != Some('$') && !["if", "for", "while", "function"].contains(&&t[start..i]) {
            out.push((start, i));
        }
    }
    out
}

/// `fixed`: whether each report comes with a fix, if that is known.
fn judge(cx: &mut Ctx, rule: &str, pat: &str, text: &str, mut want: Vec<(usize, usize)>, cfg: &jarl_core::config::Config, fixed: Option<bool>) {
    want.sort();
    let replay = || json!({"rule": rule, "pattern": pat, "code": text, "expected": want});
    match sut::lint(text, cfg) {
        Err(e) => cx.fail(&format!("{rule}: error"), format!("linting fails: {e}"), replay()),
        Ok(ds) => {
            let mut got: Vec<(usize, usize)> = ds.iter().filter(|d| d.message.name == rule).map(sut::range).collect();
            got.sort();
            if got != want {
                let shown = |v: &[(usize, usize)]| v.iter().map(|(a, b)| kit::clip(&text[*a..*b], 60)).collect::<Vec<_>>();
                cx.fail(
                    &format!("{rule}: {pat}"),
                    format!("{rule} reports {:?} instead of {:?} in {:?} (pattern {pat})", shown(&got), shown(&want), kit::clip(text, 200)),
                    replay(),
                );
            } else if let Some(f) = fixed.filter(|_| !want.is_empty() && !text.contains('#')) {
                cx.bump(if f { "with a fix" } else { "without a fix" }, 1);
                let safe = crate::p_cfg::documented_fix(rule) == Some(true);
                if f && let Some(d) = ds.iter().find(|d| d.message.name == rule && (d.has_safe_fix() != safe || d.has_unsafe_fix() == safe)) {
                    cx.fail(&format!("{rule}: safe"), format!("the fix of {} is said to be {}", d.message.name, if safe { "unsafe" } else { "safe" }), replay());
                }
                if let Some(d) = ds.iter().find(|d| d.message.name == rule && sut::has_fix(d) != f) {
                    let (s, e) = sut::range(d);
                    cx.fail(
                        &format!("{rule}: {pat}"),
                        format!("{rule} offers {} for {:?} (pattern {pat})", if f { "no fix" } else { "a fix" }, kit::clip(&text[s..e], 100)),
                        replay(),
                    );
                }
            }
        }
    }
}

// ── sprintf ──

struct Fmt {
    text: String,
    invalid: bool,
    specs: usize,
    /// how many arguments it takes
    takes: usize,
}

fn format_string(r: &mut Rng) -> Fmt {
    const TYPES: &[char] = &['d', 'i', 'o', 'x', 'X', 'f', 'e', 'E', 'g', 'G', 'a', 'A', 's'];
    let positional = r.chance(1, 4);
    let mut f = Fmt { text: String::new(), invalid: false, specs: 0, takes: 0 };
    for _ in 0..r.range(1, 5) {
        match r.below(9) {
            0..=2 => f.text += r.pick(&["abc", " ", "x1", "é", "10", "$", "-", "a.b", "日"]),
            3 => f.text += "%%",
            4 if r.chance(1, 4) => {
                // no conversion: a wrong letter
                f.text += &format!("%{}{}", r.pick(&["", "5", "-", ".2", "05"]), r.pick(&["y", "k", "q", "z", "Z", "w", "é", ",", "!"]));
                f.invalid = true;
            }
            _ => {
                let mut s = String::from("%");
                let mut n = 1;
                if positional {
                    let p = r.range(1, 4);
                    s += &format!("{p}$");
                    f.takes = f.takes.max(p);
                }
                for _ in 0..r.below(3) {
                    s += r.pick(&["-", "+", " ", "#", "0"]);
                }
                if !positional && r.chance(1, 6) {
                    s += "*";
                    n += 1;
                } else if r.chance(1, 3) {
                    s += &r.range(1, 30).to_string();
                }
                match r.below(5) {
                    0 => s += &format!(".{}", r.below(9)),
                    1 if r.chance(1, 2) => s += ".",
                    1 if !positional && r.chance(1, 2) => {
                        s += ".*";
                        n += 1;
                    }
                    _ => {}
                }
                s.push(*r.pick(TYPES));
                f.text += &s;
                f.specs += 1;
                if !positional {
                    f.takes += n;
                }
            }
        }
    }
    if r.chance(1, 14) {
        f.text.push('%');
        f.invalid = true;
    }
    f
}

fn sprintf_case(cx: &mut Ctx, cfg: &jarl_core::config::Config) {
    let mut r = cx.rng.fork();
    let f = format_string(&mut r);
    let q = if r.chance(1, 2) { '"' } else { '\'' };
    let n = if r.chance(1, 2) { f.takes } else { r.below(5) };
    let mut args: Vec<String> = (0..n).map(|_| if r.chance(1, 2) { r.pick(OPERANDS).to_string() } else { r.pick(VALUES).to_string() }).collect();
    // names of other arguments mean nothing to R
    for a in args.iter_mut() {
        if r.chance(1, 9) {
            *a = format!("{} = {a}", r.pick(&["x", "val", "`a b`"]));
        }
    }
    let dots = r.chance(1, 12);
    if dots {
        args.push("...".into());
    }
    let lit = format!("{q}{}{q}", f.text);
    if r.chance(1, 5) {
        let at = r.below(args.len() + 1);
        args.insert(at, format!("fmt = {lit}"));
    } else {
        args.insert(0, lit);
    }
    let code = format!("{}({})", r.pick(&["sprintf", "base::sprintf"]), args.join(", "));
    if !parses(&code) {
        return;
    }
    if dots && n > f.takes && !f.invalid && f.specs > 0 {
        // too many whatever `...` stands for; the documentation does not say that this is found
        return;
    }
    let yes = f.invalid || f.specs == 0 || (!dots && n != f.takes);
    let (text, at) = place(&mut r, &code);
    let want = if yes { vec![(at, at + code.len())] } else { vec![] };
    cx.count(if yes { "reported" } else { "not reported" }, &code, true);
    cx.bump("sprintf formats", 1);
    let fixed = yes.then_some(!f.invalid && f.specs == 0 && n == 0 && !dots);
    judge(cx, "sprintf", &format!("sprintf format, invalid {} specs {} takes {} given {n}{}", f.invalid, f.specs, f.takes, if dots { " and ..." } else { "" }), &text, want, cfg, fixed);
}

pub fn run_c37(cx: &mut Ctx) {
    let table = table();
    let cfg = {
        let mut a = sut::args();
        a.select = "ALL".into();
        let equal = {
            let mut a = a.clone();
            a.assignment = Some("=".into());
            sut::config_with(&a, None)
        };
        [sut::config_with(&a, None), equal]
    };
    let mut rounds = 0;
    let mut bad = 0u64;
    while rounds == 0 || cx.time_left(0.9) {
        rounds += 1;
        for p in &table {
            let cfg = &cfg[usize::from(p.equal)];
            let fixed = Some(crate::p_cfg::documented_fix(&p.rule).is_some() && p.fixed);
            let mut r = cx.rng.fork();
            let (code, marks) = fill(&mut r, &p.text);
            if !parses(&code) {
                bad += 1;
                if std::env::var("SHOW").is_ok() {
                    eprintln!("does not parse: {code}   ({})", p.text);
                }
                continue;
            }
            let (text, at) = if p.equal { (code.clone(), 0) } else { place(&mut r, &code) };
            if !parses(&text) {
                bad += 1;
                continue;
            }
            let want = match (p.yes, marks.is_empty()) {
                (false, _) => vec![],
                (true, true) => vec![(at, at + code.len())],
                (true, false) => marks.iter().map(|(a, b)| (a + at, b + at)).collect(),
            };
            cx.case("pattern");
            cx.count(if p.yes { "reported" } else { "not reported" }, &code, true);
            cx.bump(&format!("rule {}", p.rule), 1);
            cx.sample("pattern", || json!({"rule": p.rule, "pattern": p.text, "code": text}));
            if r.chance(1, 3)
                && let Some((t, w)) = elsewhere(&mut r, &text, &want)
            {
                cx.bump("in another layout", 1);
                judge(cx, &p.rule, &p.text, &t, w, cfg, None);
            } else {
                judge(cx, &p.rule, &p.text, &text, want, cfg, fixed);
            }
            // With the name of another function, it is something else.
            let names = names(p);
            if p.yes && !names.is_empty() && r.chance(1, 2) {
                let (s, e) = *r.pick(&names);
                let n = &p.text[s..e];
                let other = match r.below(6) {
                    0 => format!("{n}2"),
                    1 => format!("x{n}"),
                    2 => format!("obj$${n}"),
                    3 => n[..1].to_uppercase() + &n[1..],
                    4 => format!("{n}_"),
                    _ => format!(".{n}"),
                };
                let pat = format!("{}{other}{}", &p.text[..s], &p.text[e..]);
                let (code, _) = fill(&mut r, &pat);
                if other != n && parses(&code) && !ANY_NAME.contains(&(p.rule.as_str(), n)) {
                    cx.count("another function", &code, true);
                    judge(cx, &p.rule, &pat, &code, vec![], cfg, None);
                }
            }
            if rounds > 1 && !cx.time_left(0.9) {
                break;
            }
        }
        for _ in 0..200 {
            cx.case("pattern");
            sprintf_case(cx, &cfg[0]);
        }
    }
    cx.extra.insert("patterns".into(), json!(table.len()));
    cx.extra.insert("rules".into(), json!(table.iter().map(|p| &p.rule).collect::<std::collections::BTreeSet<_>>().len()));
    cx.extra.insert("not parsed".into(), json!(bad));
}
