//! C12: which files are R code, and absolute/relative path conversion.

use kit::{Ctx, Rng, guard};
use serde_json::json;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use sut_core::fs::{has_r_extension, has_rmd_extension, is_r_extension, is_rmd_extension, normalize_path, relativize_path};

/// The extension of the last component, from bytes: what follows its last dot, unless that dot comes
/// first.
fn ext(path: &[u8]) -> Option<Vec<u8>> {
    let comps: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
    // a lone "." at the start is a component of its own but has no name
    let last = *comps.last()?;
    if last == b".." {
        return None;
    }
    let dot = last.iter().rposition(|b| *b == b'.')?;
    if dot == 0 { None } else { Some(last[dot + 1..].to_vec()) }
}

fn absolute(path: &[u8], cwd: &[u8]) -> Vec<u8> {
    let mut stack: Vec<&[u8]> = vec![];
    let start: &[u8] = if path.first() == Some(&b'/') { b"" } else { cwd };
    for c in start.split(|b| *b == b'/').chain(path.split(|b| *b == b'/')) {
        match c {
            b"" | b"." => {}
            b".." => {
                stack.pop();
            }
            c => stack.push(c),
        }
    }
    let mut out = vec![];
    for c in stack {
        out.push(b'/');
        out.extend_from_slice(c);
    }
    if out.is_empty() { b"/".to_vec() } else { out }
}

fn relative(path: &[u8], cwd: &[u8]) -> Vec<u8> {
    fn comps(p: &[u8]) -> Vec<&[u8]> {
        p.split(|b| *b == b'/').filter(|c| !c.is_empty() && *c != b".").collect()
    }
    let (p, c) = (comps(path), comps(cwd));
    if path.first() == Some(&b'/') && p.len() >= c.len() && p[..c.len()] == c[..] {
        return p[c.len()..].join(&b'/');
    }
    path.to_vec()
}

fn gen_name(r: &mut Rng) -> Vec<u8> {
    let stem = *r.pick(&["a", "file", "é", "中🌍", ".hidden", "a b", "x.test", "R", "r", ".R", "..R", "-", "file.R", "Rmd", "…"]);
    let ext = *r.pick(&["", ".R", ".r", ".Rmd", ".rmd", ".qmd", ".Qmd", ".RMD", ".QMD", ".Rnw", ".R ", ".R.bak", ".rs", ".rm", ".Rr", ".", ".md", ".toml", ".rMd"]);
    let mut v = format!("{stem}{ext}").into_bytes();
    if r.chance(1, 12) {
        let i = r.below(v.len() + 1);
        v.insert(i, 0xff);
    }
    v
}

fn gen_path(r: &mut Rng, cwd: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = match r.below(6) {
        0 => b"/".to_vec(),
        1 => [cwd, b"/"].concat(),
        2 => {
            let mut c = cwd.to_vec();
            if r.chance(1, 2) { c.extend_from_slice(b"x/") } else { c.truncate(c.len() - 1) }
            c
        }
        3 => b"./".to_vec(),
        _ => vec![],
    };
    let n = r.below(6);
    for i in 0..n {
        let c: Vec<u8> = match r.below(8) {
            0 => b"..".to_vec(),
            1 => b".".to_vec(),
            2 => b"".to_vec(),
            _ => gen_name(r),
        };
        v.extend_from_slice(&c);
        if i + 1 < n || r.chance(1, 6) {
            v.push(b'/');
        }
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "paths of 0-6 components (absolute, relative, below, beside and outside the working directory; '.', '..', empty and non-UTF-8 components; every R, Rmd and near-miss extension); non-trivial = a path with a name; distinct by path bytes".into();
    ctx.assumptions = vec!["Unix path syntax; R code means extension r/R, Rmd/Quarto means rmd, Rmd, qmd, Qmd".into()];
    let scratch = tempdir();
    std::env::set_current_dir(&scratch).unwrap();
    let cwd = std::env::current_dir().unwrap().into_os_string().into_vec();
    for e in ["r", "R", "rmd", "Rmd", "qmd", "Qmd", "", "RMD", "QMD", "rMd", "rm", "rr", "R ", " R", "Rnw", "md", ".R"] {
        ctx.count("extension", &e, true);
        if is_r_extension(e) != (e == "r" || e == "R") || is_rmd_extension(e) != ["rmd", "Rmd", "qmd", "Qmd"].contains(&e) {
            ctx.fail(&format!("ext:{e}"), format!("extension {e:?}: is_r {}, is_rmd {}", is_r_extension(e), is_rmd_extension(e)), json!({"extension": e}));
        }
    }
    while ctx.time_left(1.0) {
        let mut r = ctx.rng.fork();
        let raw = gen_path(&mut r, &cwd);
        let path = PathBuf::from(OsString::from_vec(raw.clone()));
        ctx.case(path.display().to_string());
        let got = guard(|| {
            (has_r_extension(&path), has_rmd_extension(&path), normalize_path(&path).into_os_string().into_vec(), relativize_path(&path))
        });
        let e = ext(&raw);
        let is = |xs: &[&str]| e.as_ref().is_some_and(|e| xs.iter().any(|x| x.as_bytes() == &e[..]));
        let abs = absolute(&raw, &cwd);
        let rel = relative(&raw, &cwd);
        let show = |b: &[u8]| Path::new(std::ffi::OsStr::from_bytes(b)).display().to_string();
        let class = if is(&["r", "R"]) {
            "R file"
        } else if is(&["rmd", "Rmd", "qmd", "Qmd"]) {
            "Rmd/Qmd file"
        } else if e.is_some() {
            "other extension"
        } else {
            "no extension"
        };
        ctx.count(class, &raw, !raw.is_empty());
        ctx.sample(class, || json!({"path": show(&raw), "absolute": show(&abs), "relative": show(&rel)}));
        // display of paths outside the working directory is the path itself; compare by components
        let ok = match &got {
            Ok((a, b, n, d)) => {
                *a == is(&["r", "R"])
                    && *b == is(&["rmd", "Rmd", "qmd", "Qmd"])
                    && (raw.is_empty() || *n == abs)
                    && Path::new(d).components().eq(Path::new(&show(&rel)).components())
                    && !(d.starts_with('/') && raw.first() != Some(&b'/'))
            }
            Err(_) => false,
        };
        if !ok {
            ctx.fail(
                &show(&raw),
                format!("path {:?} in {:?}: expected R {}, Rmd {}, absolute {:?}, relative {:?}; observed {:?}", show(&raw), show(&cwd), is(&["r", "R"]), is(&["rmd", "Rmd", "qmd", "Qmd"]), show(&abs), show(&rel), got.map(|g| (g.0, g.1, show(&g.2), g.3))),
                json!({"path_bytes": raw, "cwd": show(&cwd)}),
            );
        }
    }
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
}

pub fn tempdir() -> PathBuf {
    let base = std::env::temp_dir().join(format!("jarl-mon-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos()));
    std::fs::create_dir_all(&base).unwrap();
    base.canonicalize().unwrap()
}
