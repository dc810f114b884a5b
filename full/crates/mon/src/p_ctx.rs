//! C36: what is reported does not depend on layout, on the place of the code or on the code around it.

use crate::r#gen::{Gen, parses};
use crate::{sut, tree};
use air_r_syntax::RSyntaxKind as K;
use biome_rowan::Direction;
use jarl_core::config::Config;
use jarl_core::diagnostic::Diagnostic;
use kit::{Ctx, Rng};
use serde_json::json;

/// Rules about comments, files or packages as a whole, and about the statements before and after.
const WHOLE: &[&str] = &["unreachable_code"];

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// The text with the fix of `d` made, as structure and comments.
fn fixed(text: &str, d: &Diagnostic) -> Option<String> {
    if !sut::has_fix(d) {
        return None;
    }
    let t = format!("{}{}{}", &text[..d.fix.start], d.fix.content, &text[d.fix.end..]);
    Some(match tree::parse(&t) {
        Some(e) => format!("{} {:?}", e.bare().show(), tree::comments(&t)),
        None => format!("no parse {}", squeeze(&t)),
    })
}

/// Where a token is.
pub struct Tok {
    pub start: usize,
    pub end: usize,
}

/// The tokens of a text and, for the gap after each, whether a line break there means nothing.
fn tokens(text: &str) -> (Vec<Tok>, Vec<bool>) {
    let p = air_r_parser::parse(text, Default::default());
    let (mut toks, mut free) = (vec![], vec![]);
    let mut stack: Vec<bool> = vec![false];
    for t in p.syntax().descendants_tokens(Direction::Next) {
        if t.kind() == K::EOF {
            continue;
        }
        match t.kind() {
            K::L_PAREN | K::L_BRACK | K::L_BRACK2 => stack.push(true),
            K::L_CURLY => stack.push(false),
            K::R_PAREN | K::R_BRACK | K::R_BRACK2 | K::R_CURLY => {
                stack.pop();
            }
            _ => {}
        }
        let r = t.text_trimmed_range();
        toks.push(Tok { start: r.start().into(), end: r.end().into() });
        free.push(*stack.last().unwrap_or(&false));
    }
    (toks, free)
}

/// The text in another layout, and where its tokens were and are.
pub fn relayout(r: &mut Rng, text: &str) -> Option<(String, Vec<Tok>, Vec<Tok>)> {
    let (toks, free) = tokens(text);
    if toks.is_empty() {
        return None;
    }
    let same = |t: &str| match (tree::parse(text), tree::parse(t)) {
        (Some(a), Some(b)) => a.same(&b) && tree::comments(text) == tree::comments(t),
        _ => false,
    };
    let mut gaps: Vec<String> = vec![text[..toks[0].start].to_string()];
    for i in 0..toks.len() {
        let end = toks.get(i + 1).map_or(text.len(), |t| t.start);
        gaps.push(text[toks[i].end..end].to_string());
    }
    let original = gaps.clone();
    let build = |gaps: &[String]| {
        let mut t = gaps[0].clone();
        for (i, k) in toks.iter().enumerate() {
            t += &text[k.start..k.end];
            t += &gaps[i + 1];
        }
        t
    };
    let dense = r.pick(&[2u64, 5, 20]);
    for i in 1..gaps.len() {
        if !r.chance(1, *dense) {
            continue;
        }
        let g = &original[i];
        // nobody breaks a name in two
        let name = |k: usize| toks.get(k).is_some_and(|t| text[t.start..t.end].starts_with("::"));
        gaps[i] = if g.contains('#') || name(i) || name(i - 1) {
            continue;
        } else if g.contains('\n') {
            r.pick(&["\n", "\n\n", "\n   ", "  \n\t\n ", "\n\n\n\n"]).to_string()
        } else if free[i - 1] && r.chance(1, 2) {
            r.pick(&["\n", "\n  ", "\n\n", " \n"]).to_string()
        } else {
            r.pick(&["", " ", "  ", "\t", " \n  "]).to_string()
        };
    }
    let mut t = build(&gaps);
    if !same(&t) {
        // one gap at a time
        let wanted = std::mem::replace(&mut gaps, original.clone());
        for i in 0..wanted.len() {
            if wanted[i] != gaps[i] {
                let was = std::mem::replace(&mut gaps[i], wanted[i].clone());
                if !same(&build(&gaps)) {
                    gaps[i] = was;
                }
            }
        }
        t = build(&gaps);
        if !same(&t) {
            return None;
        }
    }
    if r.chance(1, 6) && !text.contains("\r") {
        // line ends within strings are part of the strings
        let u = t.replace('\n', "\r\n");
        if same(&u) {
            t = u;
        }
    }
    let (new, _) = tokens(&t);
    (new.len() == toks.len() && t != text).then_some((t, toks, new))
}

type ByToken = (String, Option<usize>, Option<usize>, String, Option<String>);

/// A diagnostic as rule, first and last token, what is said and what the fix makes of the program.
fn by_token(text: &str, toks: &[Tok], d: &Diagnostic) -> ByToken {
    let (s, e) = sut::range(d);
    (
        d.message.name.clone(),
        toks.iter().position(|t| t.start == s),
        toks.iter().position(|t| t.end == e),
        squeeze(&format!("{}{:?}", d.message.body, d.message.suggestion)).replace("\\n", "").replace("\\r", "").replace("\\t", ""),
        if d.message.name == "length_test" { None } else { fixed(text, d) }, // a known finding of C24
    )
}

fn layout(text: &str, t: &str, a: &[Tok], b: &[Tok], cfg: &Config) -> Result<usize, String> {
    let Ok(x) = sut::lint(text, cfg) else {
        // failing is C20's concern; here it only has to be the same
        return sut::lint(t, cfg).map_or(Ok(0), |_| Err("linting fails in one layout and not in the other".into()));
    };
    let mut x: Vec<_> = x.iter().map(|d| by_token(text, a, d)).collect();
    let mut y: Vec<_> = sut::lint(t, cfg)?.iter().map(|d| by_token(t, b, d)).collect();
    x.sort();
    y.sort();
    if x == y {
        return Ok(x.len());
    }
    let only = |p: &[ByToken], q: &[ByToken]| {
        p.iter().find(|d| !q.contains(d)).map_or("nothing".into(), |d| format!("{} on tokens {:?}..{:?}, {} {}", d.0, d.1, d.2, d.3, d.4.clone().unwrap_or_default()))
    };
    Err(format!("in one layout {}, in the other {}", kit::clip(&only(&x, &y), 700), kit::clip(&only(&y, &x), 700)))
}

/// Where a statement can stand without meaning anything else.
const STATEMENT: &[(&str, &str)] = &[
    ("zz <- 1\n", "\nyy <- 2\n"),
    ("# été 🌍\n\n\n", "\n# after\n"),
    ("fn <- function(zz) {\n", "\n}\n"),
    ("fn <- function(zz) {\n  yy <- 3\n\n", "\n  zz\n}\n"),
    ("if (zz) {\n", "\n}\n"),
    ("if (zz) {\n  yy\n} else {\n", "\n}\n"),
    ("for (zz in yy) {\n", "\n  zz\n}\n"),
    ("while (zz) {\n", "\n}\n"),
    ("repeat {\n", "\n}\n"),
    ("{\n", "\n}\n"),
    ("local({\n", "\n})\n"),
    ("zz <- lapply(yy, function(xx) {\n", "\n})\n"),
    ("test_that(\"zz\", {\n", "\n})\n"),
    ("zz <- \\(yy) {\n", "\n}\n"),
    ("zz$yy(function() {\n", "\n})$xx()\n"),
    ("(\\(yy) {\n", "\n})()\n"),
    ("zz[{\n", "\n}]\n"),
    ("zz[[{\n", "\n}]]\n"),
    ("-{\n", "\n}\n"),
    ("yy + {\n", "\n}\n"),
    ("zz ~ {\n", "\n}\n"),
    ("zz <- function(yy = {\n", "\n}) NULL\n"),
    ("if ({\n", "\n}) zz\n"),
    ("({\n", "\n})\n"),
    ("zz(yy = {\n", "\n})(xx)\n"),
    ("zz({\n", "\n})[xx]\n"),
    ("zz({\n", "\n})[[xx]]\n"),
    ("zz({\n", "\n})@xx\n"),
    ("zz |> yy({\n", "\n}) |> xx()\n"),
];

/// Where an expression can stand.
const EXPRESSION: &[(&str, &str)] = &[
    ("zz(", ")\n"),
    ("zz(yy, xx = ", ")\n"),
    ("zz[", "]\n"),
    ("zz[[", "]]\n"),
    ("zz[yy, ", "]\n"),
    ("(", ")\n"),
    ("return(", ")\n"),
    ("zz <- (", ")\n"),
    ("!(", ")\n"),
    ("yy * (", ")\n"),
    ("(", ") %zz% yy\n"),
    ("zz::yy(", ")\n"),
    ("zz$yy(", ")\n"),
    ("zz$yy(", ")$xx()\n"),
    ("zz(", ")$yy\n"),
    ("zz(", ")@yy\n"),
    ("zz(", ")(yy)\n"),
    ("zz(", ")[yy]\n"),
    ("zz(", ")[[yy]]\n"),
    ("zz[", "][yy]\n"),
    ("zz[[", "]]$yy\n"),
    ("(", ")$yy\n"),
    ("(", ")[yy]\n"),
    ("(", ")(yy)\n"),
    ("function(zz = ", ") NULL\n"),
    ("for (zz in (", ")) NULL\n"),
    ("\"zz\"(", ")\n"),
    ("~ (", ")\n"),
    ("zz |> yy(", ")\n"),
];

/// Siblings before or after: `n` of them, each with a separator on the side of the code.
fn siblings(r: &mut Rng, of: &[&str], before: bool) -> String {
    let n = *r.pick(&[0, 0, 1, 1, 2, 3]);
    (0..n).map(|_| if before { format!("{}, ", r.pick(of)) } else { format!(", {}", r.pick(of)) }).collect()
}

/// Something around an expression, as text before and after it.
fn outer(r: &mut Rng) -> (String, String) {
    const ARGS: &[&str] = &["yy", "xx = 1", "", "...", "'ss'", "yy = NULL", "function(yy) yy", "x = yy(1)", "-1", "\n  ww"];
    const PARAMS: &[&str] = &["yy", "xx = 1", "...", "ww = NULL", "vv", "\n  uu = yy(1)"];
    const OPS: &[&str] = &["+", "-", "*", "/", "^", "&&", "||", "%in%", ":", "~", "<-", "=", "%zz%", "%%"];
    let o = |a: &str, b: &str| (a.to_string(), b.to_string());
    match r.below(22) {
        0..=2 => {
            let f = *r.pick(&["zz", "zz::yy", "zz$yy", "\"zz\"", "zz()", "zz[[1]]", "(zz)", "zz |> yy", "zz %>% yy", "switch", "local", "tryCatch", "zz@yy", "zz:::yy"]);
            let name = *r.pick(&["", "", "kk = ", "\"kk\" = ", "`k k` = "]);
            (format!("{f}({}{name}", siblings(r, ARGS, true)), format!("{})", siblings(r, ARGS, false)))
        }
        3 | 4 => {
            let f = *r.pick(&["function", "\\"]);
            (format!("{f}({}zz = ", siblings(r, PARAMS, true)), format!("{}) yy", siblings(r, PARAMS, false)))
        }
        5 | 6 => (format!("function({}zz) ", siblings(r, PARAMS, true)), String::new()),
        7 => o("if (", ") yy"),
        8 => o("if (yy) ", ""),
        9 => o("if (yy) zz else ", ""),
        10 => o("if (yy) ", " else zz"),
        11 => o("if (yy) zz else if (", ") ww else vv"),
        12 => o("if (yy) zz else if (xx) ww else ", ""),
        13 => match r.below(5) {
            0 => o("while (", ") yy"),
            1 => o("while (yy) ", ""),
            2 => o("for (ii in ", ") yy"),
            3 => o("for (ii in zz) ", ""),
            _ => o("repeat ", ""),
        },
        14 => (format!("zz[{}", siblings(r, ARGS, true)), format!("{}]", siblings(r, ARGS, false))),
        15 => (format!("zz[[{}", siblings(r, ARGS, true)), format!("{}]]", siblings(r, ARGS, false))),
        16 => {
            let after = *r.pick(&["[yy]", "[[yy]]", "$yy", "@yy", "(yy)", "$yy(xx)", " |> yy()", "[yy, ]"]);
            o("(", &format!("){after}"))
        }
        17 => (format!("yy {} (", r.pick(OPS)), ")".into()),
        18 => ("(".into(), format!(") {} yy", r.pick(&["+", "*", "^", "&&", "||", "%in%", ":", "~", "->", "->>", "%zz%", "/"]))),
        19 => (format!("{}(", r.pick(&["-", "+", "~", "!", "?"])), ")".into()),
        20 => (format!("zz {} ", r.pick(&["<-", "=", "<<-"])), String::new()),
        _ => {
            let before: String = (0..r.below(3)).map(|_| format!("{}\n", r.pick(&["zz", "# été 🌍", "", "yy <- 1", "xx(1); ww"]))).collect();
            let after: String = (0..r.below(3)).map(|_| format!("\n{}", r.pick(&["zz", "# note", "", "yy <- 1", "xx(1); ww"]))).collect();
            (format!("{{\n{before}"), format!("{after}\n}}"))
        }
    }
}

/// A place within places.
fn around(r: &mut Rng, statement: bool) -> (String, String) {
    let (pre, post) = *r.pick(if statement { STATEMENT } else { EXPRESSION });
    let (mut pre, mut post) = (pre.to_string(), post.to_string());
    if r.chance(1, 3) {
        return (pre, post);
    }
    if statement && r.chance(1, 2) {
        (pre, post) = ("{\n".into(), "\n}\n".into());
    } else if !statement && r.chance(1, 2) {
        (pre, post) = ("(".into(), ")\n".into());
    } else {
        (pre, post) = (format!("{{\n{pre}"), format!("{post}}}\n"));
    }
    for _ in 0..r.range(1, 4) {
        let (a, b) = outer(r);
        pre = format!("{a}{pre}");
        post = format!("{}{b}\n", post.trim_end());
    }
    if r.chance(1, 4) {
        pre = format!("ww <- 1\n\n{pre}");
    }
    (pre, post)
}

/// Rules that say something about code because of what is directly around it.
fn of_place(rule: &str, statement: bool) -> bool {
    WHOLE.contains(&rule) || (!statement && matches!(rule, "implicit_assignment" | "class_equals" | "all_equal" | "assignment" | "expect_match" | "expect_no_match"))
}

fn place(inner: &str, pre: &str, post: &str, statement: bool, cfg: &Config) -> Result<usize, String> {
    let text = format!("{pre}{inner}{post}");
    let key = |d: &Diagnostic, off: usize, fix: bool| {
        let (s, e) = sut::range(d);
        let f = match (sut::has_fix(d), fix) {
            (false, _) => "no fix".into(),
            (true, true) => format!("{}..{} {}", d.fix.start - off, d.fix.end - off, d.fix.content),
            (true, false) => "fix".to_string(),
        };
        (d.message.name.clone(), s - off, e - off, d.message.body.clone(), d.message.suggestion.clone(), f)
    };
    let Ok(a) = sut::lint(inner, cfg) else {
        return sut::lint(&text, cfg).map_or(Ok(0), |_| Err("linting fails on its own but not within".into()));
    };
    let mut a: Vec<_> = a.iter().filter(|d| !of_place(&d.message.name, statement)).map(|d| key(d, 0, statement)).collect();
    let (lo, hi) = (pre.len(), pre.len() + inner.len());
    let mut b: Vec<_> = sut::lint(&text, cfg)?
        .iter()
        .filter(|d| !of_place(&d.message.name, statement))
        .filter(|d| {
            let (s, e) = sut::range(d);
            lo <= s && e <= hi
        })
        .map(|d| key(d, lo, statement))
        .collect();
    a.sort();
    b.sort();
    if a == b {
        return Ok(a.len());
    }
    let show = |d: Option<&(String, usize, usize, String, Option<String>, String)>| d.map_or("nothing".to_string(), |d| format!("{} on `{}` ({}, {}; {:?})", d.0, kit::clip(&inner[d.1..d.2], 100), d.5, d.3, d.4));
    Err(format!("on its own {}, within `{}…{}` {}", show(a.iter().find(|d| !b.contains(d))), pre.escape_debug(), post.escape_debug(), show(b.iter().find(|d| !a.contains(d)))))
}

/// Programs one after the other against each on its own.
fn sequence(parts: &[String], cfg: &Config) -> Result<usize, String> {
    let key = |d: &Diagnostic, off: usize| {
        let (s, e) = sut::range(d);
        let f = sut::has_fix(d).then(|| (d.fix.start + off, d.fix.end + off, d.fix.content.clone()));
        (s + off, e + off, d.message.name.clone(), d.message.body.clone(), d.message.suggestion.clone(), f)
    };
    let (mut apart, mut text) = (vec![], String::new());
    for p in parts {
        let Ok(ds) = sut::lint(p, cfg) else { return Ok(0) };
        apart.extend(ds.iter().filter(|d| !WHOLE.contains(&d.message.name.as_str())).map(|d| key(d, text.len())));
        text += p;
        text += "\n";
    }
    let mut together: Vec<_> = sut::lint(&text, cfg)?.iter().filter(|d| !WHOLE.contains(&d.message.name.as_str())).map(|d| key(d, 0)).collect();
    apart.sort();
    together.sort();
    if apart == together {
        return Ok(apart.len());
    }
    let show = |d: Option<&(usize, usize, String, String, Option<String>, Option<(usize, usize, String)>)>| d.map_or("nothing".to_string(), |d| format!("{} on `{}` ({:?}; {:?}; fix {:?})", d.2, kit::clip(text.get(d.0..d.1).unwrap_or(""), 100), d.3, d.4, d.5));
    Err(format!("each on its own {}, one after the other {}", show(apart.iter().find(|d| !together.contains(d))), show(together.iter().find(|d| !apart.contains(d)))))
}

pub fn run_c36(ctx: &mut Ctx) {
    ctx.rule = "a program in two layouts, or a statement or expression at a place, by text; non-trivial: with diagnostics".into();
    let g = Gen::load();
    let mut rng = ctx.rng.fork();
    let mut a = sut::args();
    a.select = "ALL".into();
    a.assignment = Some("<-".into());
    let cfg = sut::config_with(&a, None);
    let mut failures = 0;
    while ctx.time_left(1.0) && failures < 40 {
        let kind = rng.below(7);
        if kind == 6 {
            let parts: Vec<String> = (0..2 + rng.below(3)).map(|_| g.program(&mut rng).trim().to_string()).filter(|p| p.len() < 3000 && parses(p)).collect();
            ctx.case(parts.join("\n-----\n"));
            match sequence(&parts, &cfg) {
                Ok(n) => ctx.count("sequence", &parts, n > 0),
                Err(e) => {
                    failures += 1;
                    let small = kit::shrink_list(&parts, |p| sequence(p, &cfg).is_err());
                    ctx.fail(&small.join("\n"), e, json!({"parts": small}));
                }
            }
        } else if kind % 3 == 0 {
            let p = g.program(&mut rng).trim_start().replace("\r\n", "\n");
            let Some((t, a, b)) = relayout(&mut rng, &p) else {
                ctx.bump("no other layout", 1);
                continue;
            };
            ctx.case(format!("{p}\n-----\n{t}"));
            match layout(&p, &t, &a, &b, &cfg) {
                Ok(n) => ctx.count("layout", &(&p, &t), n > 0),
                Err(e) => {
                    failures += 1;
                    ctx.fail(&t, format!("{e}\n{p}\n-----\n{t}"), json!({"one": p, "other": t}));
                }
            }
        } else {
            let statement = kind % 3 == 1;
            let inner = {
                let s = if rng.chance(1, 2) { g.snip(&mut rng).text.clone() } else { g.statement(&mut rng, 1) };
                let s = if rng.chance(1, 4) { g.mutated(&mut rng, &s) } else { s };
                s.trim().to_string()
            };
            let Some(t) = tree::parse(&inner) else { continue };
            // one statement; the kids of the root are a list of statements
            let n = t.kids.iter().map(|k| k.kids.len()).sum::<usize>();
            if n != 1 || inner.contains('#') {
                continue;
            }
            let (pre, post) = around(&mut rng, statement);
            let (pre, post) = (pre.as_str(), post.as_str());
            let fits = |inner: &str| {
                let text = format!("{pre}{inner}{post}");
                let Some(whole) = tree::parse(&text) else { return false };
                let Some(alone) = tree::parse(inner) else { return false };
                let Some(it) = alone.kids.first().and_then(|k| k.kids.first()) else { return false };
                let mut found = false;
                whole.walk(&mut |e| found |= e.span == (pre.len() + it.span.0, pre.len() + it.span.1) && e.same(it));
                found
            };
            if !fits(&inner) {
                ctx.bump("does not fit", 1);
                continue;
            }
            ctx.case(format!("{pre}{inner}{post}"));
            match place(&inner, pre, post, statement, &cfg) {
                Ok(n) => ctx.count(if statement { "statement" } else { "expression" }, &(pre, post, &inner), n > 0),
                Err(e) => {
                    failures += 1;
                    let small = tree::shrink(&inner, |s| parses(s) && fits(s) && place(s, pre, post, statement, &cfg).is_err());
                    let e = place(&small, pre, post, statement, &cfg).err().unwrap_or(e);
                    ctx.fail(&format!("{pre}{small}{post}"), format!("{e}\n{small}"), json!({"text": small, "pre": pre, "post": post, "original": inner}));
                }
            }
        }
    }
}
