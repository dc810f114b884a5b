//! C03: finding the R chunks of R Markdown / Quarto text.
//!
//! The oracle cuts the text into lines by hand and decides each line with character tests (no regular
//! expression); it yields (start offset, end offset) pairs into the original text.

use kit::{Ctx, Rng, guard, odd_char, shrink_text};
use serde_json::json;
use sut_core::rmd::extraction::extract_r_chunks;

fn opening(line: &str) -> Option<usize> {
    let cs: Vec<char> = line.chars().collect();
    let mut i = 0;
    while i < cs.len() && (cs[i] == ' ' || cs[i] == '\t') {
        i += 1;
    }
    let mut ticks = 0;
    while i < cs.len() && cs[i] == '`' {
        i += 1;
        ticks += 1;
    }
    if ticks < 3 || cs.get(i) != Some(&'{') || !matches!(cs.get(i + 1), Some('r' | 'R')) {
        return None;
    }
    i += 2;
    match cs.get(i) {
        Some('}') => Some(ticks),
        Some(' ' | '\t' | ',') => cs[i..].contains(&'}').then_some(ticks),
        _ => None,
    }
}

pub fn model(text: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut open: Option<(usize, usize)> = None;
    let mut at = 0;
    while at < text.len() {
        let end = text[at..].find('\n').map_or(text.len(), |n| at + n + 1);
        let line = &text[at..end];
        match open {
            Some((ticks, start)) => {
                let t = line.trim();
                if t.len() == ticks && t.bytes().all(|b| b == b'`') {
                    out.push((start, at));
                    open = None;
                }
            }
            None => {
                if let Some(n) = opening(line) {
                    open = Some((n, end));
                }
            }
        }
        at = end;
    }
    out
}

/// The chunks as the real code reports them, as ranges; an Err explains what is inconsistent.
fn observe(text: &str) -> Result<Vec<(usize, usize)>, String> {
    let chunks = guard(|| extract_r_chunks(text))?;
    let mut out = vec![];
    for c in chunks {
        let (a, b) = (c.start_byte, c.start_byte + c.code.len());
        match text.get(a..b) {
            Some(s) if s == c.code => out.push((a, b)),
            other => return Err(format!("chunk at byte {a} holds {:?} but the file has {other:?} there", c.code)),
        }
    }
    Ok(out)
}

fn gen_doc(r: &mut Rng) -> String {
    let eol = *r.pick(&["\n", "\n", "\n", "\r\n"]);
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push_str(&format!("---{eol}title: \"é 🌍\"{eol}---{eol}"));
    }
    let mut last = 3;
    for _ in 0..r.range(1, 16) {
        let indent = *r.pick(&["", "", "", "  ", "\t", "    ", " \t"]);
        match r.below(12) {
            0..=3 => {
                last = *r.pick(&[3, 3, 3, 4, 5, 2, 7]);
                let ticks = "`".repeat(last);
                let head = *r.pick(&[
                    "{r}", "{r}", "{r}", "{R}", "{r, echo=FALSE}", "{r setup, include = FALSE}", "{r é}", "{r,eval=TRUE}",
                    "{r\tlabel}", "{r}  ", "{r lab", "{Rcpp}", "{ruby}", "{rust}", "{python}", "{ r}", "{r-x}", "{.r}",
                    "{r }", "r", "{r;x}", "{}", "{r fig.cap=\"a {b} c\"}", "{=html}", "{r} x", "{rR}", "{r.x}", "{r_}", "{r}}",
                ]);
                s.push_str(&format!("{indent}{ticks}{head}{eol}"));
            }
            4..=6 => {
                let n = if r.chance(4, 5) { last } else { r.range(1, 6) };
                let tail = *r.pick(&["", "", "", " ", "\t", "  ", "x", "`"]);
                s.push_str(&format!("{indent}{}{tail}{eol}", "`".repeat(n)));
            }
            7 => s.push_str(&format!("{indent}~~~{{r}}{eol}")),
            8 => s.push_str(&format!("text with `code` and ```{{r}} inline {}{eol}", odd_char(r))),
            9 => s.push_str(eol),
            _ => {
                let c = *r.pick(&["x <- 1", "any(is.na(x))", "#| echo: false", "# jarl-ignore seq: x", "\"```\"", "λ <- '🌍'", "  y", "\r"]);
                s.push_str(&format!("{indent}{c}{eol}"));
            }
        }
    }
    if r.chance(1, 4) {
        let cut = r.below(3);
        for _ in 0..cut {
            s.pop();
        }
    }
    s
}

fn check(ctx: &mut Ctx, text: &str) {
    ctx.case(text);
    let want = model(text);
    let got = observe(text);
    let class = match want.len() {
        0 => "no chunk",
        1 => "one chunk",
        2 | 3 => "2-3 chunks",
        _ => "4+ chunks",
    };
    ctx.count(class, &text, !want.is_empty());
    ctx.bump("chunks seen", want.len() as u64);
    ctx.bump("empty chunks seen", want.iter().filter(|w| w.0 == w.1).count() as u64);
    ctx.sample(class, || json!({"text": text, "chunks": want}));
    if got.as_ref() != Ok(&want) {
        let small = shrink_text(text, |t| observe(t).as_ref() != Ok(&model(t)));
        let (want, got) = (model(&small), observe(&small));
        let show = |v: &[(usize, usize)]| v.iter().map(|&(a, b)| format!("{a}:{:?}", small.get(a..b))).collect::<Vec<_>>();
        let got = got.map(|g| show(&g));
        ctx.fail(
            &small,
            format!("text {small:?}: expected chunks {:?}, observed {got:?}", show(&want)),
            json!({"text": small, "expected": show(&want), "observed": format!("{got:?}")}),
        );
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "documents of 1-16 lines mixing opening fences of every engine, tick count and option syntax, closing fences of matching and other lengths, prose, code and tilde blocks, LF/CRLF, with and without final newline, damaged texts, plus all one-fence documents from small sets; non-trivial = at least one chunk by the oracle; distinct by text".into();
    for open in 0..6 {
        for close in 0..6 {
            for head in ["{r}", "{R}", "{r }", "{r,}", "{r a}", "{rr}", "{Rcpp}", "{r", "r}", "{q}", "{r\ta, b=1}", "{r} z", "", "{r#}"] {
                for ind in ["", " ", "\t"] {
                    for eol in ["\n", "\r\n"] {
                        for body in ["", "x", "```"] {
                            let b = if body.is_empty() { String::new() } else { format!("{body}{eol}") };
                            check(ctx, &format!("{ind}{}{head}{eol}{b}{ind}{}{eol}", "`".repeat(open), "`".repeat(close)));
                        }
                    }
                }
            }
        }
    }
    while ctx.time_left(1.0) {
        let mut r = ctx.rng.fork();
        let mut t = gen_doc(&mut r);
        if r.chance(1, 6) {
            let mut cs: Vec<char> = t.chars().collect();
            for _ in 0..r.range(1, 5) {
                let i = r.below(cs.len() + 1);
                match r.below(3) {
                    0 if i < cs.len() => {
                        cs.remove(i);
                    }
                    1 => cs.insert(i, *r.pick(&['`', '{', '}', 'r', '\n', ' ', ','])),
                    _ => cs.insert(i, *r.pick(&['é', '🌍', '\u{0}', '\r', '中'])),
                }
            }
            t = cs.into_iter().collect();
        }
        check(ctx, &t);
    }
}
