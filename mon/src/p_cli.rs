//! C10: exit codes and logging of the command line, observed from outside in child processes.

use kit::{Ctx, Rng, guard};
use serde_json::json;
use std::process::{Command, ExitCode};
use sut_cli::logging::LogLevel;
use sut_cli::status::ExitStatus;

const LEVELS: [(&str, &str, LogLevel); 5] = [
    ("error", "Error", LogLevel::Error),
    ("warn", "Warn", LogLevel::Warn),
    ("info", "Info", LogLevel::Info),
    ("debug", "Debug", LogLevel::Debug),
    ("trace", "Trace", LogLevel::Trace),
];

/// `mon --child-exit success|failure|error`
pub fn child_exit(which: &str) -> ExitCode {
    match which {
        "success" => ExitStatus::Success,
        "failure" => ExitStatus::Failure,
        _ => ExitStatus::Error,
    }
    .into()
}

macro_rules! emit {
    ($target:literal, $tag:expr) => {
        tracing::error!(target: $target, "{}-{}-error", $tag, $target);
        tracing::warn!(target: $target, "{}-{}-warn", $tag, $target);
        tracing::info!(target: $target, "{}-{}-info", $tag, $target);
        tracing::debug!(target: $target, "{}-{}-debug", $tag, $target);
        tracing::trace!(target: $target, "{}-{}-trace", $tag, $target);
    };
}

/// `mon --child-log <level> <tag>`
pub fn child_log(level: &str, tag: &str) -> ExitCode {
    let Ok(level) = level.parse::<LogLevel>() else {
        return ExitCode::from(7);
    };
    sut_cli::verif_init_logging(level);
    emit!("jarl", tag);
    emit!("jarl::commands", tag);
    emit!("jarl-core", tag);
    emit!("other", tag);
    emit!("regex", tag);
    emit!("lsp_server", tag);
    ExitCode::SUCCESS
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "every exit status and every log level in its own process (with RUST_LOG, NO_COLOR and friends set and unset), every level name and its near-misses; non-trivial = a process run or a level name; distinct by (mode, environment)".into();
    ctx.assumptions = vec!["logging is called as the real main does; the exit status is converted by the real From impl and returned from a real main".into()];
    let me = std::env::current_exe().unwrap();
    // exit codes
    for (name, want) in [("success", 0), ("failure", 1), ("error", 255)] {
        for _ in 0..ctx.n(3, 20) {
            ctx.case(name);
            let code = Command::new(&me).args(["--child-exit", name]).output().unwrap().status.code();
            ctx.count("exit status", &name, true);
            if code != Some(want) {
                ctx.fail(&format!("exit {name}"), format!("status {name} ends the process with {code:?}, expected {want}"), json!({"status": name}));
            }
        }
    }
    // level names
    for (i, (low, title, l)) in LEVELS.iter().enumerate() {
        ctx.count("level name", low, true);
        if low.parse::<LogLevel>().ok() != Some(*l) || l.to_string() != *title {
            ctx.fail(&format!("level {low}"), format!("level {low}: parsed as {:?}, shown as {l}", low.parse::<LogLevel>().ok()), json!({}));
        }
        for (j, other) in LEVELS.iter().enumerate() {
            if l.cmp(&other.2) != i.cmp(&j) {
                ctx.fail("level order", format!("{l} and {} are ordered wrongly", other.2), json!({}));
            }
        }
        let mut r = ctx.rng.fork();
        for bad in near(&mut r, low) {
            ctx.count("unknown level name", &bad, true);
            let got = guard(|| bad.parse::<LogLevel>().is_ok());
            let want = LEVELS.iter().any(|x| x.0 == bad);
            if got != Ok(want) {
                ctx.fail(&format!("level {bad}"), format!("level name {bad:?}: accepted = {got:?}"), json!({"name": bad}));
            }
        }
    }
    if LogLevel::default() != LogLevel::Warn {
        ctx.fail("level default", "the default log level is not warn", json!({}));
    }
    // filtering
    let mut round = 0;
    while ctx.time_left(1.0) && round < ctx.n(6, 60) {
        round += 1;
        for (i, (low, _, _)) in LEVELS.iter().enumerate() {
            let mut r = ctx.rng.fork();
            let tag = format!("t{}", r.below(1_000_000));
            let mut cmd = Command::new(&me);
            cmd.args(["--child-log", low, &tag]);
            let env: Vec<(&str, &str)> = [("RUST_LOG", "trace"), ("RUST_LOG", "off"), ("NO_COLOR", "1"), ("CLICOLOR_FORCE", "1"), ("TERM", "dumb")]
                .into_iter()
                .filter(|_| r.chance(1, 3))
                .collect();
            for (k, v) in &env {
                cmd.env(k, v);
            }
            ctx.case(format!("log level {low} {env:?}"));
            let out = cmd.output().unwrap();
            let (so, se) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
            ctx.count(&format!("process at level {low}"), &(low, &env), true);
            let mut wrong = vec![];
            if !out.status.success() {
                wrong.push(format!("the process ended with {:?}", out.status.code()));
            }
            if !so.is_empty() {
                wrong.push(format!("standard output is not empty: {so:?}"));
            }
            for target in ["jarl", "jarl::commands", "jarl-core", "other", "regex", "lsp_server"] {
                let ours = target.starts_with("jarl");
                for (j, (lv, ..)) in LEVELS.iter().enumerate() {
                    let msg = format!("{tag}-{target}-{lv}");
                    let n = se.lines().filter(|l| l.contains(&msg)).count();
                    let want = usize::from(ours && j <= i);
                    if n != want {
                        wrong.push(format!("event {lv} of {target} appears {n} times, expected {want}"));
                    }
                    if n == 1 && !se.lines().any(|l| l.contains(&msg) && l.contains(&lv.to_uppercase())) {
                        wrong.push(format!("event {lv} of {target} does not show its level"));
                    }
                    ctx.bump("events judged", 1);
                }
            }
            ctx.sample(low, || json!({"level": low, "stderr": kit::clip(&se, 600)}));
            if !wrong.is_empty() {
                ctx.fail(&format!("log {low}"), format!("log level {low}: {}", wrong.join("; ")), json!({"level": low, "env": format!("{env:?}"), "stderr": se, "stdout": so}));
            }
        }
    }
}

fn near(r: &mut Rng, n: &str) -> Vec<String> {
    let mut v = vec![n.to_uppercase(), format!("{n} "), format!(" {n}"), format!("{}{}", n[..1].to_uppercase(), &n[1..]), String::new(), "warning".into(), "off".into(), "err".into(), "0".into(), "verbose".into()];
    for i in 0..n.len() {
        let mut t = n.to_string();
        t.remove(i);
        v.push(t);
        let mut t = n.to_string();
        t.insert(i, (b'a' + r.below(26) as u8) as char);
        v.push(t);
    }
    v
}
