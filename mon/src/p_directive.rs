//! C01/C02: the suppression-comment grammar.
//!
//! Oracle: a second reader of the grammar written from the documentation (docs/using-jarl.md and the
//! rule pages): it cuts the comment into (marker, keyword, delimiter, rest) first and then decides
//! from a table, while the code under test tries prefixes one after the other.

use crate::rules_doc::documented_rules;
use kit::{Ctx, Rng, guard, odd_char, shrink_text};
use serde_json::json;
use std::collections::BTreeSet;
use sut_core::directive::{
    DirectiveParseResult as R, LintDirective as D, is_quarto_chunk_array_header,
    parse_comment_directive, parse_quarto_chunk_array_item,
};

/// What a comment means, in the oracle's own terms.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Meaning {
    NotADirective,
    Suppress(&'static str, String),
    Blanket,
    NoReason,
    UnknownRule,
}

fn observe(r: Option<R>) -> Meaning {
    match r {
        None => Meaning::NotADirective,
        Some(R::BlanketSuppression) => Meaning::Blanket,
        Some(R::MissingExplanation) => Meaning::NoReason,
        Some(R::InvalidRuleName) => Meaning::UnknownRule,
        Some(R::Valid(d)) => {
            let (k, r) = match d {
                D::Ignore(r) => ("next", r),
                D::IgnoreChunk(r) => ("chunk", r),
                D::IgnoreFile(r) => ("file", r),
                D::IgnoreStart(r) => ("start", r),
                D::IgnoreEnd(r) => ("end", r),
            };
            Meaning::Suppress(k, r.name().to_string())
        }
    }
}

fn rule_and_reason(rest: &str, kind: &'static str, rules: &BTreeSet<String>) -> Meaning {
    let mut halves = rest.splitn(2, ':');
    let name = halves.next().unwrap_or("").trim();
    let reason = halves.next().map(str::trim);
    if name.is_empty() {
        return Meaning::NotADirective;
    }
    if !rules.contains(name) {
        return Meaning::UnknownRule;
    }
    match reason {
        None | Some("") => Meaning::NoReason,
        Some(_) => Meaning::Suppress(kind, name.to_string()),
    }
}

pub fn model(text: &str, rules: &BTreeSet<String>) -> Meaning {
    let t = text.trim_start();
    let Some(t) = t.strip_prefix('#') else {
        return Meaning::NotADirective;
    };
    let (yaml, body) = if let Some(b) = t.strip_prefix("| ") {
        (true, b)
    } else {
        (false, t.strip_prefix(' ').unwrap_or(t))
    };
    const KEY: &str = "jarl-ignore";
    if !body.starts_with(KEY) {
        return Meaning::NotADirective;
    }
    let tail = &body[KEY.len()..];
    let cut = tail.find([' ', ':']).unwrap_or(tail.len());
    let (word, after) = tail.split_at(cut);
    let mut it = after.chars();
    let delim = it.next();
    let rest = it.as_str();
    let kind = match word {
        "" => "next",
        "-chunk" => "chunk",
        "-file" => "file",
        "-start" => "start",
        "-end" => "end",
        _ => return Meaning::NotADirective,
    };
    if yaml && kind != "chunk" {
        return Meaning::NotADirective;
    }
    match (kind, delim) {
        // no rule at all
        ("next" | "chunk", None | Some(':')) => Meaning::Blanket,
        ("next" | "chunk", Some(' ')) if rest.starts_with(':') => Meaning::Blanket,
        ("next" | "chunk" | "file" | "start", Some(' ')) => rule_and_reason(rest, kind, rules),
        ("end", Some(' ')) => {
            // no reason needed, one is tolerated
            match rest.split(':').next().unwrap_or("").trim() {
                "" => Meaning::NotADirective,
                n if rules.contains(n) => Meaning::Suppress("end", n.to_string()),
                _ => Meaning::UnknownRule,
            }
        }
        _ => Meaning::NotADirective,
    }
}

fn near_names(r: &mut Rng, names: &[String]) -> String {
    let n = r.pick(names).clone();
    match r.below(10) {
        0 => n.to_uppercase(),
        1 => n.replace('_', "-"),
        2 => format!("{n}s"),
        3 => n[..n.len() - 1].to_string(),
        4 => format!("{n}, {}", r.pick(names)),
        5 => format!("{n} {}", r.pick(names)),
        6 => n.replacen('_', "", 1),
        7 => format!("{n}{}", odd_char(r)),
        8 => ["PERF", "READ", "ALL", "all", "_", "1", "\"any_is_na\""][r.below(7)].to_string(),
        _ => {
            let mut cs: Vec<char> = n.chars().collect();
            let i = r.below(cs.len());
            cs[i] = (b'a' + r.below(26) as u8) as char;
            cs.into_iter().collect()
        }
    }
}

fn spaces(r: &mut Rng) -> String {
    let opts = ["", "", " ", "  ", "\t", " \t ", "\u{a0}", "\u{3000}", "\r"];
    r.pick(&opts).to_string()
}

fn gen_comment(r: &mut Rng, names: &[String]) -> String {
    let mut s = String::new();
    s.push_str(r.pick(&["", "", "", " ", "\t", "   ", "\n", "\u{a0}"]));
    s.push_str(r.pick_weighted(&[
        (12, "# "),
        (6, "#"),
        (8, "#| "),
        (2, "#|"),
        (1, "## "),
        (1, "#' "),
        (1, "#  "),
        (1, "#\t"),
        (1, "#|  "),
        (1, "# | "),
        (1, ""),
        (1, "//"),
    ]));
    s.push_str(r.pick_weighted(&[
        (30, "jarl-ignore"),
        (1, "jarl_ignore"),
        (1, "Jarl-ignore"),
        (1, "jarl-ignor"),
        (1, "jarl ignore"),
        (1, "nolint"),
        (1, "jarl-ignorejarl-ignore"),
    ]));
    s.push_str(r.pick_weighted(&[
        (10, ""),
        (6, "-file"),
        (6, "-start"),
        (6, "-end"),
        (8, "-chunk"),
        (1, "-chunks"),
        (1, "-File"),
        (1, "-"),
        (1, "_file"),
        (1, "-next"),
        (1, "-startend"),
        (1, "-end-file"),
    ]));
    s.push_str(r.pick_weighted(&[
        (20, " "),
        (3, ""),
        (3, ":"),
        (2, "  "),
        (2, " :"),
        (1, ": "),
        (1, "\t"),
        (1, " \t"),
        (1, "\u{a0}"),
    ]));
    if r.chance(9, 10) {
        if r.chance(3, 4) {
            s.push_str(r.pick(names));
        } else {
            s.push_str(&near_names(r, names));
        }
    }
    s.push_str(&spaces(r));
    s.push_str(r.pick_weighted(&[(12, ":"), (3, ""), (1, "::"), (1, ","), (1, "-"), (1, "：")]));
    s.push_str(&spaces(r));
    if r.chance(3, 4) {
        s.push_str(r.pick(&[
            "legacy code", "x", "see #12: it is: fine", "é", "🌍", ":", "<reason>", "\u{200b}", "any_is_na: b",
            "# jarl-ignore", "0",
        ]));
    }
    s.push_str(&spaces(r));
    if r.chance(1, 12) {
        mutate(r, &mut s);
    }
    s
}

fn mutate(r: &mut Rng, s: &mut String) {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(cs.len() + 1);
        match r.below(3) {
            0 => cs.insert(i, odd_char(r)),
            1 if i < cs.len() => {
                cs.remove(i);
            }
            _ if i < cs.len() => cs[i] = *r.pick(&[' ', ':', '#', '-', '|', 'j', '_', '\t']),
            _ => {}
        }
    }
    *s = cs.into_iter().collect();
}

fn check_one(ctx: &mut Ctx, text: &str, rules: &BTreeSet<String>) {
    ctx.case(text);
    let want = model(text, rules);
    let got = guard(|| observe(parse_comment_directive(text)));
    let class = match &want {
        Meaning::Suppress(k, _) => format!("suppress-{k}"),
        m => format!("{m:?}"),
    };
    ctx.count(&class, &text, want != Meaning::NotADirective || text.contains("jarl-ignore"));
    ctx.sample(&class, || json!({"comment": text, "meaning": format!("{want:?}")}));
    if got.as_ref().ok() != Some(&want) {
        let small = shrink_text(text, |t| {
            guard(|| observe(parse_comment_directive(t))).ok().as_ref() != Some(&model(t, rules))
        });
        let want = model(&small, rules);
        let got = guard(|| observe(parse_comment_directive(&small)));
        ctx.fail(
            &small,
            format!("comment {small:?} means {want:?} but was read as {got:?}"),
            json!({"comment": small, "expected": format!("{want:?}"), "observed": format!("{got:?}")}),
        );
    }
}

pub fn run_c01(ctx: &mut Ctx) {
    ctx.rule = "comment texts: every combination of marker x keyword x delimiter x documented rule x separator x reason from small sets, then random grammar-based comments with near-miss markers, rule names and Unicode white space; non-trivial = a directive by the oracle or a text that contains jarl-ignore; distinct by text".into();
    ctx.assumptions = vec!["the rule names are those of docs/rules.qmd".into()];
    let names: Vec<String> = documented_rules(ctx).keys().cloned().collect();
    let rules: BTreeSet<String> = names.iter().cloned().collect();
    // systematic part
    for name in names.iter().map(String::as_str).chain(["", "nope", "PERF", "any_is_na,seq"]) {
        for mark in ["# ", "#", "#| ", "#|", "## ", "  # ", ""] {
            for kw in ["", "-file", "-start", "-end", "-chunk", "-foo"] {
                for d in [" ", "", ":", "  "] {
                    for tail in ["", ":", ": ", ": why", " : why", ":why: not", " why"] {
                        let t = format!("{mark}jarl-ignore{kw}{d}{name}{tail}");
                        check_one(ctx, &t, &rules);
                    }
                }
            }
        }
    }
    ctx.bump("systematic", 1);
    while ctx.time_left(1.0) {
        for _ in 0..500 {
            let mut r = ctx.rng.fork();
            let t = gen_comment(&mut r, &names);
            check_one(ctx, &t, &rules);
        }
    }
}

// ------------------------------------------------------------------ C02

fn model_header(text: &str) -> bool {
    let t: Vec<char> = text.chars().collect();
    let a = t.iter().position(|c| !c.is_whitespace());
    let b = t.iter().rposition(|c| !c.is_whitespace());
    match (a, b) {
        (Some(a), Some(b)) => t[a..=b].iter().collect::<String>() == "#| jarl-ignore-chunk:",
        _ => false,
    }
}

/// `#|`, blanks, `-`, at least one blank, then rule and reason.
fn model_item(text: &str, rules: &BTreeSet<String>) -> Meaning {
    let cs: Vec<char> = text.trim().chars().collect();
    if cs.len() < 2 || cs[0] != '#' || cs[1] != '|' {
        return Meaning::NotADirective;
    }
    let mut i = 2;
    while i < cs.len() && cs[i].is_whitespace() {
        i += 1;
    }
    if i >= cs.len() || cs[i] != '-' {
        return Meaning::NotADirective;
    }
    i += 1;
    if i >= cs.len() || !cs[i].is_whitespace() {
        return Meaning::NotADirective;
    }
    while i < cs.len() && cs[i].is_whitespace() {
        i += 1;
    }
    rule_and_reason(&cs[i..].iter().collect::<String>(), "chunk", rules)
}

fn check_item(ctx: &mut Ctx, text: &str, rules: &BTreeSet<String>) {
    ctx.case(text);
    let want = (model_header(text), model_item(text, rules));
    let look = |t: &str| {
        guard(|| (is_quarto_chunk_array_header(t), observe(parse_quarto_chunk_array_item(t))))
    };
    let got = look(text);
    let class = match &want {
        (true, _) => "header".to_string(),
        (_, Meaning::Suppress(..)) => "item-valid".into(),
        (_, m) => format!("item-{m:?}"),
    };
    ctx.count(&class, &text, class != "item-NotADirective" || text.contains("#|"));
    ctx.sample(&class, || json!({"line": text, "meaning": format!("{want:?}")}));
    if got.as_ref().ok() != Some(&want) {
        let small =
            shrink_text(text, |t| look(t).ok() != Some((model_header(t), model_item(t, rules))));
        let want = (model_header(&small), model_item(&small, rules));
        let got = look(&small);
        ctx.fail(
            &small,
            format!("line {small:?}: expected (header, item) = {want:?}, observed {got:?}"),
            json!({"line": small, "expected": format!("{want:?}"), "observed": format!("{got:?}")}),
        );
    }
}

pub fn run_c02(ctx: &mut Ctx) {
    ctx.rule = "chunk-option lines: every combination of marker x indentation x list dash x blank x documented rule x separator x reason, then random lines with near-miss headers, items and Unicode white space; non-trivial = header or item by the oracle, or a text with #|; distinct by text".into();
    let names: Vec<String> = documented_rules(ctx).keys().cloned().collect();
    let rules: BTreeSet<String> = names.iter().cloned().collect();
    for name in names.iter().map(String::as_str).chain(["", "nope", "PERF"]) {
        for mark in ["#|", "#", "#| ", "#|   ", " #|\t", "# |", ""] {
            for dash in ["-", "- ", "-  ", "-\t", "", "*", "--", "- -"] {
                for tail in ["", ":", ": ", ": why", " : why: x", " why"] {
                    check_item(ctx, &format!("{mark}{dash}{name}{tail}"), &rules);
                }
            }
        }
    }
    for a in ["", " ", "\t", "\u{a0}", "x"] {
        for m in ["#| ", "#|", "# ", "#|  ", "#"] {
            for k in ["jarl-ignore-chunk", "jarl-ignore", "jarl-ignore-file", "jarl-ignore-chunk "] {
                for e in [":", "", ": ", ":\n", ":\r", ": any_is_na", "::", " :"] {
                    check_item(ctx, &format!("{a}{m}{k}{e}"), &rules);
                }
            }
        }
    }
    while ctx.time_left(1.0) {
        for _ in 0..500 {
            let mut r = ctx.rng.fork();
            let mut t = String::new();
            t.push_str(&spaces(&mut r));
            t.push_str(r.pick_weighted(&[(12, "#|"), (1, "#"), (1, "# |"), (1, "|"), (1, "##|")]));
            t.push_str(&spaces(&mut r));
            t.push_str(&spaces(&mut r));
            if r.chance(1, 8) {
                t.push_str("jarl-ignore-chunk");
                t.push_str(r.pick(&[":", "", ": ", ":x", " :"]));
            } else {
                t.push_str(r.pick_weighted(&[(12, "-"), (1, ""), (1, "*"), (1, "--"), (1, "–")]));
                t.push_str(r.pick_weighted(&[(10, " "), (2, "  "), (2, ""), (1, "\t"), (1, "\u{a0}")]));
                if r.chance(3, 4) {
                    t.push_str(r.pick(&names));
                } else {
                    t.push_str(&near_names(&mut r, &names));
                }
                t.push_str(&spaces(&mut r));
                t.push_str(r.pick_weighted(&[(10, ":"), (2, ""), (1, "::"), (1, "=")]));
                t.push_str(&spaces(&mut r));
                t.push_str(r.pick(&["", "why", "a: b", "é🌍", "-"]));
            }
            t.push_str(&spaces(&mut r));
            if r.chance(1, 12) {
                mutate(&mut r, &mut t);
            }
            check_item(ctx, &t, &rules);
        }
    }
}
