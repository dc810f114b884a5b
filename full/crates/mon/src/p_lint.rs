use crate::r#gen::{Gen, parses};
use crate::sut;
use kit::Ctx;
use serde_json::json;

/// The error of the rule length_test on an empty first argument, its only call site.
const LENGTH: &str = "Found named argument without any value";

pub fn run_c20(ctx: &mut Ctx) {
    ctx.rule = "a valid program, by text; non-trivial: with at least one diagnostic".into();
    let g = Gen::load();
    let cfg = sut::config("ALL");
    let mut rng = ctx.rng.fork();
    let mut seen = std::collections::HashSet::new();
    let mut first = true;
    while ctx.time_left(0.8) {
        let p = if first { "length(, x)\n".to_string() } else { g.program(&mut rng) };
        first = false;
        ctx.case(p.clone());
        match sut::lint(&p, &cfg) {
            Ok(d) => ctx.count(if d.is_empty() { "clean" } else { "with diagnostics" }, &p, !d.is_empty()),
            Err(e) => {
                if !seen.insert(e.clone()) {
                    ctx.bump("repeated", 1);
                    continue;
                }
                if e.contains(LENGTH) {
                    ctx.fail("length() with an empty first argument", format!("linting fails: {e}\n{p}"), json!({"text": p}));
                    continue;
                }
                let small = crate::tree::shrink(&p, |t| parses(t) && sut::lint(t, &cfg).err().as_ref() == Some(&e));
                ctx.fail(&small, format!("linting fails: {e}\n{small}"), json!({"text": small, "original": p}));
            }
        }
    }
    isolation(ctx, &g, &mut rng);
}

/// Files that do not parse or cannot be read give their own error and leave the other files alone.
fn isolation(ctx: &mut Ctx, g: &Gen, rng: &mut kit::Rng) {
    let mut a = sut::args();
    a.select = "ALL".into();
    let single = sut::config("ALL");
    let dir = sut::scratch();
    std::env::set_current_dir(dir.path()).expect("scratch directory");
    while ctx.time_left(1.0) {
        let n = rng.range(1, 6);
        let mut files = vec![];
        for i in 0..n {
            let mut p = g.program(rng).into_bytes();
            let kind = rng.below(5);
            if kind == 0 {
                // break it
                for _ in 0..20 {
                    let at = rng.below(p.len() + 1);
                    let junk = *rng.pick(&["(", ")", "}", "{", "]", "\"", "'", "x y", "1 1", "<-", "else", "\\", ",", "%", "`", "if", "_x"]);
                    p.splice(at..at, junk.bytes());
                    if String::from_utf8(p.clone()).map_or(true, |t| !parses(&t)) {
                        break;
                    }
                }
            } else if kind == 1 {
                let at = rng.below(p.len() + 1);
                p.splice(at..at, rng.pick(&[vec![0xffu8], vec![0xc3], vec![0xe2, 0x82], vec![0xed, 0xa0, 0x80]]).clone());
            }
            let name = format!("f{i}.R");
            std::fs::write(&name, &p).unwrap();
            files.push((name, p));
        }
        let paths: Vec<_> = files.iter().map(|f| dir.path().join(&f.0)).collect();
        ctx.case(format!("{files:?}"));
        let cfg = jarl_core::config::build_config(&a, None, paths).expect("a plain configuration");
        let res = match kit::guard(|| jarl_core::check::check(cfg)) {
            Ok(r) => r,
            Err(e) => {
                ctx.fail("check of several files", format!("checking several files panics: {e}"), json!({"files": format!("{files:?}")}));
                continue;
            }
        };
        let mut bad = None;
        if res.len() != n {
            bad = Some(format!("{n} files were checked, {} results came back", res.len()));
        }
        for (name, bytes) in &files {
            let Some((_, r)) = res.iter().find(|(p, _)| p == name) else {
                bad = Some(format!("no result for {name}"));
                continue;
            };
            let text = String::from_utf8(bytes.clone());
            match (text, r) {
                (Err(_), Ok(_)) => bad = Some(format!("{name} is not UTF-8, but was checked")),
                (Err(_), Err(_)) => ctx.count("not UTF-8", bytes, true),
                (Ok(t), Ok(d)) if parses(&t) => {
                    ctx.count("among others", bytes, !d.is_empty());
                    let one = sut::lint_as(&t, name, &single).map(|v| v.iter().map(sut::show).collect::<Vec<_>>());
                    if one.as_ref().ok() != Some(&d.iter().map(sut::show).collect::<Vec<_>>()) {
                        bad = Some(format!("{name} gives other diagnostics among other files"));
                    }
                }
                (Ok(t), Err(e)) if parses(&t) => {
                    if !format!("{e:#}").contains(LENGTH) {
                        bad = Some(format!("{name} is valid R, but: {e:#}"));
                    }
                }
                (Ok(_), Ok(_)) => bad = Some(format!("{name} is not valid R, but was checked")),
                (Ok(_), Err(e)) => {
                    ctx.count("does not parse", bytes, true);
                    if e.root_cause().downcast_ref::<jarl_core::error::ParseError>().is_none() || !format!("{e:#}").contains(name.as_str()) {
                        bad = Some(format!("{name} is not valid R, but the error is: {e:#}"));
                    }
                }
            }
        }
        if let Some(w) = bad {
            ctx.fail(&w, w.clone(), json!({"files": files.iter().map(|(n, b)| (n, String::from_utf8_lossy(b))).collect::<Vec<_>>()}));
        }
        for (name, _) in &files {
            let _ = std::fs::remove_file(name);
        }
    }
    let _ = std::env::set_current_dir("/");
}

/// The column of everything on line 2 is one too high when the file begins with a newline (upstream's
/// own snapshots expect it).
const LINE2: &str = "column of line 2 when the first byte is a newline";

/// What is wrong with where the diagnostics of `text` point, if anything. `line2` is set where the known
/// defect shows.
pub fn misplaced(text: &str, name: &str, diags: &[jarl_core::diagnostic::Diagnostic], line2: &mut bool) -> Option<String> {
    let toks = if name.ends_with(".R") && !diags.is_empty() { Some(crate::tree::boundaries(text)) } else { None };
    for d in diags {
        let (s, e) = sut::range(d);
        let rule = &d.message.name;
        if s > e || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
            return Some(format!("{rule}: range {s}..{e} is not inside the text ({} bytes) or splits a character", text.len()));
        }
        if s == e {
            return Some(format!("{rule}: the range {s}..{e} is empty"));
        }
        let t = &text[s..e];
        if t.trim() != t {
            return Some(format!("{rule}: the range {s}..{e} begins or ends with white space: {t:?}"));
        }
        if let Some((starts, ends)) = &toks {
            if !starts.contains(&s) || !ends.contains(&e) {
                return Some(format!("{rule}: the range {s}..{e} cuts through a token: {t:?}"));
            }
        }
        let row = text[..s].matches('\n').count() + 1;
        let col = text[..s].chars().rev().take_while(|&c| c != '\n').count();
        let Some(loc) = d.location else { return Some(format!("{rule}: no location")) };
        if (loc.row(), loc.column()) != (row, col) {
            if row == 2 && text.starts_with('\n') && (loc.row(), loc.column()) == (2, col + 1) {
                *line2 = true;
            } else {
                return Some(format!("{rule}: reported at row {} column {}, but the range begins at row {row} column {col}", loc.row(), loc.column()));
            }
        }
        if d.filename != std::path::Path::new(name) {
            return Some(format!("{rule}: reported for file {:?}", d.filename));
        }
        if sut::has_fix(d) {
            let (fs, fe) = (d.fix.start, d.fix.end);
            if fs > fe || fe > text.len() || !text.is_char_boundary(fs) || !text.is_char_boundary(fe) {
                return Some(format!("{rule}: fix range {fs}..{fe} is not inside the text"));
            }
            if fe <= s || fs >= e {
                return Some(format!("{rule}: the fix range {fs}..{fe} does not touch the diagnostic's range {s}..{e}"));
            }
        }
    }
    None
}

pub fn run_c21(ctx: &mut Ctx) {
    ctx.rule = "a program (or R Markdown document of programs) with at least one diagnostic, by text".into();
    let g = Gen::load();
    let cfg = sut::config("ALL");
    let mut rng = ctx.rng.fork();
    let mut first = true;
    while ctx.time_left(1.0) {
        let (p, name) = if first {
            ("\nany(is.na(x))\n".to_string(), "file.R")
        } else if rng.chance(1, 5) {
            (g.rmd(&mut rng).0, *rng.pick(&["file.Rmd", "file.qmd"]))
        } else {
            (g.program(&mut rng), "file.R")
        };
        first = false;
        // far into a large file
        let far = if rng.chance(1, 60) { rng.range(65_530, 140_000) } else { 0 };
        let before = match far {
            0 => String::new(),
            _ => match rng.below(4) {
                0 => "# a\n".repeat(far / 4),
                1 => "# a line of été and others\n".repeat(far / 27),
                2 => "\n".repeat(far / 60).repeat(rng.range(1, 60)).replacen('\n', "# a\n", 1),
                _ if name == "file.R" => format!("f('{}'); ", "x".repeat(far)),
                _ => format!("{}\n", "x".repeat(far)),
            },
        };
        let p = if far > 0 { format!("{before}{p}") } else { p };
        if far > 0 && name == "file.R" && !parses(&p) {
            continue;
        }
        ctx.case(if far > 0 { kit::clip(&p, 2000) } else { p.clone() });
        let Ok(d) = sut::lint_as(&p, name, &cfg) else { continue };
        if far > 0 {
            ctx.count("far into a large file", &(&p[before.len()..], far), !d.is_empty());
            let mut line2 = false;
            if let Some(w) = misplaced(&p, name, &d, &mut line2) {
                let tail = &p[before.len()..];
                ctx.fail(&format!("large: {}", w.split(':').next().unwrap()), format!("after {far} bytes: {w}\n--- text\n{tail}"), json!({"text": tail, "name": name, "before": kit::clip(&before, 100), "bytes before": before.len()}));
            }
            continue;
        }
        ctx.count(if name == "file.R" { "program" } else { "R Markdown document" }, &p, !d.is_empty());
        for x in &d {
            ctx.bump(&x.message.name, 1);
        }
        let mut line2 = false;
        if let Some(w) = misplaced(&p, name, &d, &mut line2) {
            let key = w.split(':').next().unwrap().to_string();
            let wrong = |t: &str| sut::lint_as(t, name, &cfg).ok().and_then(|d| misplaced(t, name, &d, &mut false));
            let fails = |t: &str| wrong(t).is_some_and(|w| w.starts_with(&key));
            let small = if name == "file.R" { crate::tree::shrink(&p, |t| parses(t) && fails(t)) } else { kit::shrink_text(&p, fails) };
            let w = wrong(&small).unwrap_or(w);
            ctx.fail(&small, format!("{w}\n--- text\n{small}"), json!({"text": small, "name": name, "original": p}));
        }
        if line2 {
            ctx.fail(LINE2, format!("the column on line 2 is one too high\n--- text\n{p}"), json!({"text": p}));
        }
    }
}
