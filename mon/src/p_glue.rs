//! C13: the process and environment glue of the development tools (xtask).
//!
//! Everything that writes or deletes stays inside a scratch directory the check creates; commands run
//! are this binary itself (it echoes its arguments, directory and environment).

use crate::p_paths::tempdir;
use kit::{Ctx, Rng, guard};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use sut_xtask::glue::{Pushd, Pushenv, fs2, pushd, pushenv, rm_rf};

/// `mon --echo args...`: reports what it was given; exit code and stdin handling by first argument.
pub fn child_echo(args: &[String]) -> std::process::ExitCode {
    use std::io::Read;
    let mut stdin = String::new();
    if std::env::var_os("MON_READ_STDIN").is_some() {
        let _ = std::io::stdin().read_to_string(&mut stdin);
    }
    let vars: BTreeMap<String, String> = std::env::vars().filter(|(k, _)| k.starts_with("MONV_")).collect();
    println!("{}", json!({"args": args, "cwd": std::env::current_dir().ok(), "vars": vars, "stdin": stdin}));
    match args.first().and_then(|a| a.strip_prefix("exit=")).and_then(|n| n.parse::<u8>().ok()) {
        Some(n) => std::process::ExitCode::from(n),
        None => std::process::ExitCode::SUCCESS,
    }
}

/// Words of a command line: white space separates, single quotes group (and always make a word).
fn words(cmd: &str) -> Vec<String> {
    let mut out = vec![];
    let mut quoted = false;
    let mut cur = String::new();
    for c in cmd.chars() {
        if c == '\'' {
            if quoted {
                out.push(std::mem::take(&mut cur));
            } else if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            quoted = !quoted;
        } else if !quoted && c.is_ascii_whitespace() {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if quoted || !cur.is_empty() {
        out.push(cur);
    }
    out
}

enum Held {
    Dir(#[allow(dead_code)] Pushd),
    Var(#[allow(dead_code)] Pushenv),
}

fn echo(me: &str, cmd: &str) -> Result<Value, String> {
    let full = format!("'{me}' --echo {cmd}");
    match guard(|| sut_xtask::glue::run_process(full, false, None)) {
        Ok(Ok(s)) => serde_json::from_str(&s).map_err(|e| format!("{e}: {s}")),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(p),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "random nestings of pushd/pushenv scopes (entered, left, left early by a panic) with commands run inside, command lines with quotes and spaces, exit codes 0-255, input on stdin, and file-system helpers on a scratch tree; non-trivial = an operation whose effect was compared with the model; distinct by operation history".into();
    ctx.assumptions = vec!["guards are released in reverse order of creation, as scopes do".into()];
    let scratch = tempdir();
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    for d in ["a", "a/b", "a/b/c", "é 🌍", "x"] {
        std::fs::create_dir_all(scratch.join(d)).unwrap();
    }
    std::env::set_current_dir(&scratch).unwrap();
    let vars = ["MONV_A", "MONV_B", "MONV_C"];
    let home = std::env::current_dir().unwrap();
    while ctx.time_left(0.8) {
        let mut r = ctx.rng.fork();
        let mut held: Vec<Held> = vec![];
        // model: stack of (cwd, env)
        let look = || -> (PathBuf, Vec<Option<String>>) { (std::env::current_dir().unwrap(), vars.iter().map(|v| std::env::var(v).ok()).collect()) };
        let base_env: Vec<Option<String>> = vars
            .iter()
            .map(|v| {
                let val = r.chance(1, 2).then(|| format!("base{}", r.below(9)));
                // single-threaded apart from the watchdog, which reads no variable
                match &val {
                    Some(x) => unsafe { std::env::set_var(v, x) },
                    None => unsafe { std::env::remove_var(v) },
                }
                val
            })
            .collect();
        let mut stack: Vec<(PathBuf, Vec<Option<String>>)> = vec![(home.clone(), base_env)];
        let mut hist: Vec<String> = vec![];
        for _ in 0..r.range(2, 14) {
            let top = stack.last().unwrap().clone();
            match r.below(8) {
                0 | 1 => {
                    let opts: Vec<PathBuf> = vec![scratch.join("a"), scratch.join("a/b"), scratch.join("é 🌍"), scratch.join("x"), PathBuf::from("."), PathBuf::from("b"), PathBuf::from("c")];
                    let ok: Vec<&PathBuf> = opts.iter().filter(|p| top.0.join(p).is_dir()).collect();
                    let d = (*r.pick(&ok)).clone();
                    hist.push(format!("pushd {}", d.display()));
                    match guard(|| pushd(d.clone())) {
                        Ok(g) => held.push(Held::Dir(g)),
                        Err(p) => {
                            ctx.fail("pushd panics", p, json!({"history": hist}));
                            break;
                        }
                    }
                    stack.push((top.0.join(&d).canonicalize().unwrap(), top.1.clone()));
                }
                2 | 3 => {
                    let i = r.below(3);
                    let val = format!("v{}", r.below(100));
                    hist.push(format!("pushenv {} {val}", vars[i]));
                    match guard(|| pushenv(vars[i], &val)) {
                        Ok(g) => held.push(Held::Var(g)),
                        Err(p) => {
                            ctx.fail("pushenv panics", p, json!({"history": hist}));
                            break;
                        }
                    }
                    let mut e = top.1.clone();
                    e[i] = Some(val);
                    stack.push((top.0.clone(), e));
                }
                4 | 5 if !held.is_empty() => {
                    hist.push("leave".into());
                    stack.pop();
                    let g = held.pop().unwrap();
                    if let Err(p) = guard(move || drop(g)) {
                        ctx.fail("drop panics", p, json!({"history": hist}));
                        break;
                    }
                }
                6 => {
                    // a scope left by a panic
                    hist.push("panicking scope".into());
                    let _ = guard(|| {
                        let _d = pushd(&scratch);
                        let _e = pushenv(vars[0], "inner");
                        panic!("on purpose");
                    });
                }
                _ => {
                    let cmd = gen_cmd(&mut r);
                    hist.push(format!("run {cmd}"));
                    ctx.case(format!("{hist:?}"));
                    let got = echo(&me, &cmd);
                    let top = stack.last().unwrap();
                    let want_args = words(&cmd);
                    let code = want_args.first().and_then(|a| a.strip_prefix("exit=")).and_then(|n| n.parse::<u8>().ok()).unwrap_or(0);
                    ctx.count(if code == 0 { "command run" } else { "failing command" }, &hist, true);
                    let ok = match &got {
                        Ok(v) => {
                            code == 0
                                && v["args"] == json!(want_args)
                                && v["cwd"] == json!(top.0)
                                && vars.iter().zip(&top.1).all(|(k, x)| v["vars"].get(*k).and_then(|s| s.as_str()).map(String::from) == *x)
                        }
                        Err(e) => code != 0 && e.contains("failed"),
                    };
                    ctx.sample(if code == 0 { "command" } else { "failing command" }, || json!({"history": hist, "observed": format!("{got:?}")}));
                    if !ok {
                        ctx.fail(&format!("run {cmd}"), format!("after {hist:?}: expected args {want_args:?} in {:?} with {:?} and exit code {code}, observed {got:?}", top.0, top.1), json!({"history": hist}));
                    }
                }
            }
            let top = stack.last().unwrap();
            let now = look();
            ctx.count("scope step", &hist, true);
            if now != *top {
                ctx.fail(&format!("scope {}", hist.last().unwrap()), format!("after {hist:?}: directory and variables are {now:?}, expected {top:?}"), json!({"history": hist}));
                break;
            }
        }
        while let Some(g) = held.pop() {
            stack.pop();
            let _ = guard(move || drop(g));
            let now = look();
            let top = stack.last().unwrap();
            if now != *top {
                ctx.fail("scope leave", format!("after {hist:?} and leaving all scopes down to {}: {now:?}, expected {top:?}", stack.len()), json!({"history": hist}));
                break;
            }
        }
        std::env::set_current_dir(&home).unwrap();
    }
    // stdin
    unsafe { std::env::set_var("MON_READ_STDIN", "1") };
    for i in 0..ctx.n(20, 200) {
        let mut r = ctx.rng.fork();
        let len = *r.pick(&[0, 1, 100, 70_000, 200_000]);
        let text: String = (0..len).map(|k| if k % 97 == 0 { 'é' } else { 'x' }).collect();
        ctx.case(format!("stdin {len}"));
        let got = guard(|| sut_xtask::glue::run_process(format!("'{me}' --echo a"), false, Some(text.as_bytes())));
        ctx.count("stdin fed", &(i, len), true);
        let ok = matches!(&got, Ok(Ok(s)) if serde_json::from_str::<Value>(s).is_ok_and(|v| v["stdin"] == json!(text)));
        if !ok {
            ctx.fail(&format!("stdin {len}"), format!("{len} characters on stdin did not arrive"), json!({"length": len}));
        }
    }
    unsafe { std::env::remove_var("MON_READ_STDIN") };
    formatting(ctx, &scratch);
    files(ctx, &scratch);
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
}

fn gen_cmd(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 4) {
        s.push_str(&format!("exit={}", r.below(256)));
    } else {
        s.push_str("first");
    }
    for _ in 0..r.below(5) {
        s.push_str(r.pick(&[" ", "  ", "\t", " \n "]));
        s.push_str(r.pick(&["plain", "'two words'", "''", "--flag=é", "'a  b'", "'quo\"ted'", "pre'fix ed'", "\"x", "$HOME", "*", "'*'", "-", "'🌍 x'post"]));
    }
    s
}

/// Generated code is formatted by the stable `rustfmt` (here: a stand-in that tells what it was given).
fn formatting(ctx: &mut Ctx, scratch: &Path) {
    use std::os::unix::fs::PermissionsExt;
    let bin = scratch.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    let log = scratch.join("fmt.log");
    let script = format!(
        "#!/bin/sh\nif [ \"$1\" = --version ]; then echo \"$FAKE_VERSION\"; exit 0; fi\necho \"$RUSTUP_TOOLCHAIN|$*\" > '{}'\nprintf 'F:'\ntr a-z A-Z\nexit $FAKE_CODE\n",
        log.display()
    );
    std::fs::write(bin.join("rustfmt"), script).unwrap();
    std::fs::set_permissions(bin.join("rustfmt"), std::fs::Permissions::from_mode(0o755)).unwrap();
    let _path = pushenv("PATH", &format!("{}:/usr/bin:/bin", bin.display()));
    for _ in 0..ctx.n(40, 400) {
        let mut r = ctx.rng.fork();
        let (version, stable) = *r.pick(&[("rustfmt 1.8.0-stable (17067e9ac6 2025-06-23)", true), ("rustfmt 1.9.0-stable", true), ("rustfmt 1.8.0-nightly (17067e9ac6 2025-06-23)", false), ("rustfmt 1.8.0-beta", false), ("", false)]);
        let code = if r.chance(1, 4) { 1 } else { 0 };
        let before = if r.chance(1, 2) { Some("1.70.0") } else { None };
        match before {
            Some(v) => unsafe { std::env::set_var("RUSTUP_TOOLCHAIN", v) },
            None => unsafe { std::env::remove_var("RUSTUP_TOOLCHAIN") },
        }
        let _v = pushenv("FAKE_VERSION", version);
        let _c = pushenv("FAKE_CODE", &code.to_string());
        let _ = std::fs::remove_file(&log);
        let text: String = (0..r.below(5)).map(|k| format!("fn f{k}() {{ let s = \"$HOME 'q' é\"; }}\n")).collect();
        let which = r.below(3);
        let got = guard(|| {
            match which {
                0 => sut_xtask::reformat(&text),
                1 => sut_xtask::reformat_without_preamble(&text),
                _ => sut_xtask::reformat_with_command(&text, "cargo x'y"),
            }
            .map_err(|e| format!("{e:#}"))
        });
        let shown = format!("F:{}", text.to_ascii_uppercase());
        let body = format!("{}\n", shown.trim());
        let ok_text = |s: &str| match which {
            0 => s.strip_suffix(&body).is_some_and(|h| h.starts_with("//! ") && h.contains("Generated file, do not edit by hand") && h.ends_with("\n\n") && h.trim_end().lines().count() == 1),
            1 => s == body,
            _ => s.strip_suffix(&body).is_some_and(|h| h.starts_with("//! ") && h.contains("generated file") && h.contains("Run 'cargo x'y' to") && h.ends_with("\n\n") && h.trim_end().lines().count() == 1),
        };
        let ran = std::fs::read_to_string(&log).ok();
        ctx.case(format!("reformat {which}"));
        ctx.count("generated code formatted", &(which, version, code, &text), true);
        let ok = match &got {
            Ok(Ok(s)) => stable && code == 0 && ok_text(s) && ran.as_deref().is_some_and(|l| l.starts_with("stable|") && l.contains("newline_style=Unix")),
            Ok(Err(_)) => (!stable && ran.is_none()) || (stable && code != 0),
            Err(_) => false,
        };
        let after = std::env::var("RUSTUP_TOOLCHAIN").ok();
        if !ok || after.as_deref() != before {
            ctx.fail("reformat", format!("formatting {text:?} (way {which}) with {version:?} ending with {code}: {got:?}, rustfmt saw {ran:?}; toolchain variable before {before:?} and after {after:?}"), json!({"way": which, "version": version, "code": code, "text": text}));
        }
    }
    unsafe { std::env::remove_var("RUSTUP_TOOLCHAIN") };
    for d in ["/r/tools/gen", "/one/two/three/four", "/é/x/y"] {
        let _m = pushenv("CARGO_MANIFEST_DIR", d);
        let got = guard(sut_xtask::project_root);
        ctx.count("project root", &d, true);
        if got.as_deref().ok() != Path::new(d).ancestors().nth(2) {
            ctx.fail("project root", format!("the project of the tool in {d} is taken to be {got:?}"), json!({"dir": d}));
        }
    }
}

/// The file-system helpers, against std on a twin tree.
fn files(ctx: &mut Ctx, scratch: &Path) {
    let root = scratch.join("files");
    std::fs::create_dir_all(&root).unwrap();
    while ctx.time_left(1.0) {
        let mut r = ctx.rng.fork();
        let case = root.join(format!("c{}", r.next()));
        std::fs::create_dir_all(case.join("keep/sub")).unwrap();
        std::fs::write(case.join("keep/sub/f"), "kept").unwrap();
        std::fs::write(case.join("file"), "data").unwrap();
        std::fs::create_dir_all(case.join("dir/inner")).unwrap();
        std::fs::write(case.join("dir/inner/f"), "x").unwrap();
        std::os::unix::fs::symlink("../keep", case.join("dir/link")).unwrap();
        let what = *r.pick(&["file", "dir", "missing", "dir/inner", "dir/inner/f", "missing/deeper"]);
        ctx.case(format!("rm_rf {what}"));
        let res = guard(|| rm_rf(case.join(what)).is_ok());
        ctx.count("rm_rf", &what, true);
        let gone = !case.join(what).exists();
        let kept = std::fs::read_to_string(case.join("keep/sub/f")).ok().as_deref() == Some("kept") && (what == "file" || case.join("file").exists()) && (what == "dir" || case.join("dir").is_dir());
        if res != Ok(true) || !gone || !kept {
            ctx.fail(&format!("rm_rf {what}"), format!("rm_rf({what}): {res:?}, gone {gone}, everything else kept {kept}"), json!({"target": what}));
        }
        // errors name the path; successes do what std does
        let p = case.join("new/é.txt");
        let body: Vec<u8> = (0..r.below(200)).map(|_| b'a' + r.below(26) as u8).collect();
        let first = guard(|| fs2::write(&p, &body).map_err(|e| format!("{e:#}")));
        let made = guard(|| fs2::create_dir_all(case.join("new")).is_ok());
        let second = guard(|| fs2::write(&p, &body).is_ok());
        let copied = guard(|| fs2::copy(&p, case.join("new/copy")).ok());
        let read = guard(|| fs2::read_to_string(case.join("new/copy")).ok());
        let listed = guard(|| fs2::read_dir(case.join("new")).map(|d| d.count()).ok());
        let missing: Vec<Result<Result<(), String>, String>> = vec![
            guard(|| fs2::read_to_string(case.join("nope")).map(|_| ()).map_err(|e| format!("{e:#}"))),
            guard(|| fs2::read_dir(case.join("nope")).map(|_| ()).map_err(|e| format!("{e:#}"))),
            guard(|| fs2::remove_file(case.join("nope")).map_err(|e| format!("{e:#}"))),
            guard(|| fs2::remove_dir_all(case.join("nope")).map_err(|e| format!("{e:#}"))),
            guard(|| fs2::copy(case.join("nope"), case.join("z")).map(|_| ()).map_err(|e| format!("{e:#}"))),
        ];
        let ok = matches!(&first, Ok(Err(e)) if e.contains("é.txt"))
            && made == Ok(true)
            && second == Ok(true)
            && copied == Ok(Some(body.len() as u64))
            && read == Ok(Some(String::from_utf8(body).unwrap()))
            && listed == Ok(Some(2))
            && missing.iter().all(|m| matches!(m, Ok(Err(e)) if e.contains("nope")));
        let rm = guard(|| (fs2::remove_file(&p).is_ok(), fs2::remove_dir_all(case.join("new")).is_ok()));
        ctx.count("fs2", &r.next(), true);
        if !ok || rm != Ok((true, true)) || case.join("new").exists() {
            ctx.fail("fs2", format!("fs2: write-missing {first:?} mkdir {made:?} write {second:?} copy {copied:?} list {listed:?} missing {missing:?} remove {rm:?}"), json!({}));
        }
        let _ = std::fs::remove_dir_all(&case);
    }
}
