//! C06/C07: positions and edits of the language server's text documents.
//!
//! The oracle holds the text as a list of characters and counts code units from scratch; it shares no
//! representation (byte offsets, cached line starts) with the code under test.

use kit::{Ctx, Rng, guard, shrink_list};
use lsp_types::{Position, PositionEncodingKind, Range, TextDocumentContentChangeEvent};
use serde_json::json;
use sut_lsp::document::{PositionEncoding as E, TextDocument};

pub const ENCODINGS: [E; 3] = [E::UTF8, E::UTF16, E::UTF32];

fn units(c: char, e: E) -> u64 {
    match e {
        E::UTF8 => c.len_utf8() as u64,
        E::UTF16 => c.len_utf16() as u64,
        E::UTF32 => 1,
    }
}

/// (first character, one past the last character of the content, one past the line break) per line
fn lines(t: &[char]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut a = 0;
    for (i, c) in t.iter().enumerate() {
        if *c == '\n' {
            let end = if i > a && t[i - 1] == '\r' { i - 1 } else { i };
            out.push((a, end));
            a = i + 1;
        }
    }
    out.push((a, t.len()));
    out
}

/// Character index of an LSP position; Err when it is not a position of the text.
fn char_at(t: &[char], line: u32, character: u32, e: E) -> Result<usize, ()> {
    let ls = lines(t);
    let &(a, b) = ls.get(line as usize).ok_or(())?;
    let mut left = character as u64;
    let mut i = a;
    while i < b && left > 0 {
        let u = units(t[i], e);
        if u > left {
            return Err(());
        }
        left -= u;
        i += 1;
    }
    Ok(i)
}

fn byte_of(t: &[char], idx: usize) -> usize {
    t[..idx].iter().map(|c| c.len_utf8()).sum()
}

/// LSP position of a character index.
fn pos_of(t: &[char], idx: usize, e: E) -> (u32, u32) {
    let line = t[..idx].iter().filter(|c| **c == '\n').count();
    let start = t[..idx].iter().rposition(|c| *c == '\n').map_or(0, |p| p + 1);
    (line as u32, t[start..idx].iter().map(|c| units(*c, e)).sum::<u64>() as u32)
}

pub fn gen_text(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    let crlf = r.chance(1, 3);
    for _ in 0..r.below(max + 1) {
        match r.below(10) {
            0 | 1 => s.push_str(if crlf && r.chance(3, 4) { "\r\n" } else { "\n" }),
            2 => s.push(*r.pick(&['é', 'ß', 'λ', '\u{a0}', '\u{7f}', '\u{85}'])),
            3 => s.push(*r.pick(&['中', '\u{2028}', '\u{feff}', '\u{ffff}', '\u{e000}', '\u{200d}'])),
            4 => s.push(*r.pick(&['🌍', '👩', '𝒳', '\u{10000}', '\u{10ffff}'])),
            5 => s.push('\u{301}'),
            6 => s.push(' '),
            _ => s.push((b'a' + r.below(26) as u8) as char),
        }
    }
    s
}

fn positions(ctx: &mut Ctx, text: &str) {
    let t: Vec<char> = text.chars().collect();
    let nl = lines(&t).len() as u32;
    ctx.case(text);
    let doc = TextDocument::new(text.to_string(), 1);
    if doc.line_count() as u32 != nl || doc.content() != text {
        ctx.fail(text, format!("text {text:?} has {nl} lines, line_count() is {}, content {:?}", doc.line_count(), doc.content()), json!({"text": text}));
    }
    for e in ENCODINGS {
        let longest = lines(&t).iter().map(|&(a, b)| t[a..b].iter().map(|c| units(*c, e)).sum::<u64>()).max().unwrap_or(0) as u32;
        let mut chars: Vec<u32> = (0..=longest + 2).collect();
        chars.extend([longest + 1000, u32::MAX / 2, u32::MAX]);
        let mut ls: Vec<u32> = (0..nl + 2).collect();
        ls.extend([u32::MAX]);
        for &line in &ls {
            for &ch in &chars {
                let want = char_at(&t, line, ch, e).map(|i| byte_of(&t, i));
                let got = guard(|| doc.position_to_offset(Position::new(line, ch), e).map_err(|_| ()));
                let kind = match want {
                    Err(()) if line >= nl => "position: line out of range",
                    Err(()) => "position: inside a character",
                    Ok(_) => "position: valid or clamped",
                };
                ctx.count(kind, &(text, line, ch, format!("{e:?}")), true);
                if got.as_ref() != Ok(&want) {
                    ctx.fail(
                        &format!("{text:?} {line}:{ch} {e:?}"),
                        format!("text {text:?}, {e:?} position {line}:{ch}: expected byte offset {want:?}, observed {got:?}"),
                        json!({"text": text, "line": line, "character": ch, "encoding": format!("{e:?}"), "expected": want.ok(), "observed": format!("{got:?}")}),
                    );
                }
            }
        }
        for off in 0..=text.len() + 3 {
            let got = guard(|| doc.offset_to_position(off, e).map(|p| (p.line, p.character)).map_err(|_| ()));
            let want = if off <= text.len() && text.is_char_boundary(off) {
                Ok(pos_of(&t, text[..off].chars().count(), e))
            } else {
                Err(())
            };
            ctx.count(if want.is_ok() { "offset: boundary" } else { "offset: not a position" }, &(text, off, format!("{e:?}"), 1), true);
            let mut ok = got.as_ref() == Ok(&want);
            if ok && let Ok((l, c)) = want {
                // round trip, except between the \r and the \n of a line ending
                let inside_crlf = off > 0 && text.as_bytes()[off - 1] == b'\r' && text.as_bytes().get(off) == Some(&b'\n');
                let back = guard(|| doc.position_to_offset(Position::new(l, c), e).ok());
                ok = back == Ok(Some(if inside_crlf { off - 1 } else { off }));
            }
            if !ok {
                ctx.fail(
                    &format!("{text:?} @{off} {e:?}"),
                    format!("text {text:?}, byte {off}, {e:?}: expected position {want:?}, observed {got:?} (or it does not lead back)"),
                    json!({"text": text, "offset": off, "encoding": format!("{e:?}")}),
                );
            }
        }
    }
    let mut r = ctx.rng.fork();
    let cuts: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
    for _ in 0..4 {
        let (a, b) = (*r.pick(&cuts), *r.pick(&cuts));
        let e = *r.pick(&ENCODINGS);
        let p = |o: usize| pos_of(&t, text[..o].chars().count(), e);
        let got = guard(|| doc.range_of_text(a, b, e).map(|x| ((x.start.line, x.start.character), (x.end.line, x.end.character))).map_err(|_| ()));
        ctx.count("range_of_text", &(text, a, b), true);
        if got != Ok(Ok((p(a), p(b)))) {
            ctx.fail(&format!("{text:?} {a}..{b} {e:?}"), format!("text {text:?} {a}..{b} {e:?}: expected {:?}, observed {got:?}", (p(a), p(b))), json!({"text": text}));
        }
    }
}

pub fn run_c06(ctx: &mut Ctx) {
    ctx.rule = "every line x character (incl. past the end, inside characters, huge values) and every byte offset of generated texts with 1-4 byte characters, combining marks, BOM, LF and CRLF, in UTF-8, UTF-16 and UTF-32; non-trivial = all; distinct by (text, position, encoding)".into();
    ctx.assumptions = vec!["lines end with \\n or \\r\\n (a lone \\r is not treated as a line ending by the server)".into()];
    for (k, e) in [(PositionEncodingKind::UTF8, E::UTF8), (PositionEncodingKind::UTF16, E::UTF16), (PositionEncodingKind::UTF32, E::UTF32)] {
        ctx.count("encoding name", &format!("{e:?}"), true);
        if E::try_from(&k).ok() != Some(e) || PositionEncodingKind::from(e) != k {
            ctx.fail(&format!("enc {e:?}"), format!("{k:?} does not round-trip"), json!({}));
        }
    }
    for bad in ["", "utf-7", "utf8", "UTF-16", "latin1"] {
        if E::try_from(&PositionEncodingKind::new(bad)).is_ok() {
            ctx.fail(&format!("enc {bad}"), format!("unsupported encoding {bad:?} accepted"), json!({}));
        }
    }
    if E::default() != E::UTF16 {
        ctx.fail("enc default", "the default encoding is not UTF-16", json!({}));
    }
    for t in ["", "\n", "\r\n", "a", "é\n", "🌍", "🌍\r\n🌍", "a\n\nb", "\r\n\r\n", "e\u{301}\n👩\u{200d}👩", "\u{feff}x"] {
        positions(ctx, t);
    }
    while ctx.time_left(1.0) {
        let mut r = ctx.rng.fork();
        let max = *r.pick(&[4, 8, 16, 40]);
        let t = gen_text(&mut r, max);
        positions(ctx, &t);
        ctx.sample("text", || json!({"text": t}));
    }
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug)]
struct Change {
    range: Option<((u32, u32), (u32, u32))>,
    text: String,
}

impl Change {
    fn lsp(&self, r: &mut Rng) -> TextDocumentContentChangeEvent {
        TextDocumentContentChangeEvent {
            range: self.range.map(|(a, b)| Range::new(Position::new(a.0, a.1), Position::new(b.0, b.1))),
            #[allow(deprecated)]
            range_length: r.chance(1, 3).then(|| r.below(50) as u32),
            text: self.text.clone(),
        }
    }
}

fn model_apply(t: &[char], changes: &[Change], e: E) -> Result<Vec<char>, ()> {
    let mut t = t.to_vec();
    for c in changes {
        match c.range {
            None => t = c.text.chars().collect(),
            Some((a, b)) => {
                let a = char_at(&t, a.0, a.1, e)?;
                let b = char_at(&t, b.0, b.1, e)?;
                if a > b {
                    return Err(());
                }
                t.splice(a..b, c.text.chars());
            }
        }
    }
    Ok(t)
}

fn gen_pos(r: &mut Rng, t: &[char], e: E, wild: bool) -> (u32, u32) {
    if wild && r.chance(1, 3) {
        let ls = lines(t);
        let line = r.below(ls.len() + 2) as u32;
        let len = ls.get(line as usize).map_or(3, |&(a, b)| b - a);
        let ch = match r.below(4) {
            0 => u32::MAX,
            _ => r.below(len * 4 + 4) as u32,
        };
        (line, ch)
    } else {
        let i = r.below(t.len() + 1);
        pos_of(t, i, e)
    }
}

/// Text without a lone \r.
fn has_lone_cr(t: &[char]) -> bool {
    t.iter().enumerate().any(|(i, c)| *c == '\r' && t.get(i + 1) != Some(&'\n'))
}

fn run_batch(doc: &TextDocument, changes: &[Change], version: i32, e: E, r: &mut Rng) -> (Result<Result<(), ()>, String>, TextDocument) {
    let mut d = doc.clone();
    let ev: Vec<_> = changes.iter().map(|c| c.lsp(r)).collect();
    let res = guard(|| d.apply_changes(ev, version, e).map_err(|_| ()));
    (res, d)
}

pub fn run_c07(ctx: &mut Ctx) {
    ctx.rule = "editing sessions: a generated document, then 1-12 didChange notifications of 0-6 changes each (inserts, deletions, replacements, full replacements, positions past the line end, out of range, inside characters, reversed), each computed against the state left by the previous one; non-trivial = a notification with at least one change; distinct by (text before, changes, encoding)".into();
    ctx.assumptions = vec!["texts never contain a lone \\r".into()];
    while ctx.time_left(1.0) {
        let mut r = ctx.rng.fork();
        let e = *r.pick(&ENCODINGS);
        let max = *r.pick(&[0, 6, 20, 60]);
        let start = gen_text(&mut r, max);
        let mut t: Vec<char> = start.chars().collect();
        let mut version = r.below(5) as i32;
        let mut doc = TextDocument::new(start.clone(), version).with_language_id("r");
        for _ in 0..r.range(1, 12) {
            let hostile = r.chance(1, 4);
            let mut changes: Vec<Change> = vec![];
            let mut cur = t.clone();
            for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 6]) {
                let text = {
                    let max = *r.pick(&[0, 1, 1, 3, 12]);
                    gen_text(&mut r, max)
                };
                let range = if r.chance(1, 10) {
                    None
                } else {
                    let mut a = gen_pos(&mut r, &cur, e, hostile);
                    let mut b = if r.chance(1, 3) { a } else { gen_pos(&mut r, &cur, e, hostile) };
                    if b < a && !(hostile && r.chance(1, 2)) {
                        std::mem::swap(&mut a, &mut b);
                    }
                    Some((a, b))
                };
                let c = Change { range, text };
                if let Ok(n) = model_apply(&cur, std::slice::from_ref(&c), e) {
                    if has_lone_cr(&n) {
                        continue;
                    }
                    cur = n;
                }
                changes.push(c);
            }
            version += r.range(1, 3) as i32;
            let want = model_apply(&t, &changes, e);
            let before: String = t.iter().collect();
            ctx.case(format!("{before:?} {changes:?} {e:?}"));
            let (res, after) = run_batch(&doc, &changes, version, e, &mut r);
            let judge = |want: &Result<Vec<char>, ()>, res: &Result<Result<(), ()>, String>, after: &TextDocument, before: &TextDocument| -> Option<String> {
                match (want, res) {
                    (_, Err(p)) => Some(p.clone()),
                    (Ok(w), Ok(Ok(()))) => {
                        let w: String = w.iter().collect();
                        if after.content() != w {
                            return Some(format!("expected {w:?}, got {:?}", after.content()));
                        }
                        if after.version() != version {
                            return Some(format!("version is {}, expected {version}", after.version()));
                        }
                        if after.language_id() != Some("r") {
                            return Some("the language id was lost".into());
                        }
                        let n = w.matches('\n').count() + 1;
                        if after.line_count() != n {
                            return Some(format!("{} lines reported, {n} present", after.line_count()));
                        }
                        None
                    }
                    (Err(()), Ok(Err(()))) => {
                        if after.content() != before.content() || after.version() != before.version() || after.line_count() != before.line_count() {
                            return Some(format!("rejected but changed the document to {:?} (version {})", after.content(), after.version()));
                        }
                        None
                    }
                    (Ok(w), Ok(Err(()))) => Some(format!("a valid edit leading to {:?} was rejected", w.iter().collect::<String>())),
                    (Err(()), Ok(Ok(()))) => Some(format!("an invalid edit was accepted, giving {:?}", after.content())),
                }
            };
            let class = match (&want, changes.len()) {
                (Err(_), _) => "rejected",
                (_, 0) => "no change",
                (_, 1) => "one change",
                _ => "several changes",
            };
            ctx.count(class, &(&before, format!("{changes:?}{e:?}")), !changes.is_empty());
            if changes.iter().any(|c| c.range.is_none()) {
                ctx.bump("with a full replacement", 1);
            }
            ctx.sample(class, || json!({"before": before, "encoding": format!("{e:?}"), "changes": format!("{changes:?}"), "after": want.as_ref().map(|w| w.iter().collect::<String>()).ok()}));
            if judge(&want, &res, &after, &doc).is_some() {
                let mut q = r.clone();
                let small = shrink_list(&changes, |cs| {
                    let (res, after) = run_batch(&doc, cs, version, e, &mut q);
                    judge(&model_apply(&t, cs, e), &res, &after, &doc).is_some()
                });
                let (res, after) = run_batch(&doc, &small, version, e, &mut r);
                let why = judge(&model_apply(&t, &small, e), &res, &after, &doc).unwrap_or_default();
                ctx.fail(
                    &format!("{before:?} {small:?} {e:?}"),
                    format!("text {before:?}, {e:?}, changes {small:?}: {why}"),
                    json!({"text": before, "encoding": format!("{e:?}"), "changes": format!("{small:?}"), "what": why}),
                );
                break;
            }
            // the rebuilt line table must serve the next lookups
            if after.content().len() < 80 {
                let now: Vec<char> = after.content().chars().collect();
                let fresh = TextDocument::new(after.content().to_string(), 0);
                for i in 0..=now.len() {
                    let (l, c) = pos_of(&now, i, e);
                    let a = guard(|| after.position_to_offset(Position::new(l, c), e).ok());
                    let b = guard(|| fresh.position_to_offset(Position::new(l, c), e).ok());
                    if a != b {
                        ctx.fail(
                            &format!("stale {before:?} {changes:?}"),
                            format!("after {changes:?} on {before:?}, position {l}:{c} is byte {a:?}; in a fresh document with the same text it is {b:?}"),
                            json!({"text": before, "changes": format!("{changes:?}")}),
                        );
                    }
                }
                ctx.bump("positions re-checked after edits", now.len() as u64 + 1);
            }
            doc = after;
            if let Ok(w) = want {
                t = w;
            }
        }
    }
}
