//! Thin access to the code under test.

use jarl_core::check::get_checks;
use jarl_core::config::{ArgsConfig, Config, build_config};
use jarl_core::diagnostic::Diagnostic;
use jarl_core::package::PackageAnalysis;
use jarl_core::settings::Settings;
use std::path::{Path, PathBuf};

pub fn args() -> ArgsConfig {
    ArgsConfig {
        files: vec![],
        fix: false,
        unsafe_fixes: false,
        fix_only: false,
        select: String::new(),
        extend_select: String::new(),
        ignore: String::new(),
        min_r_version: Some("4.6.0".into()),
        allow_dirty: true,
        allow_no_vcs: true,
        assignment: None,
    }
}

pub fn config(select: &str) -> Config {
    let mut a = args();
    a.select = select.into();
    build_config(&a, None, vec![]).expect("a plain configuration is accepted")
}

pub fn config_with(a: &ArgsConfig, s: Option<&Settings>) -> Config {
    build_config(a, s, vec![]).expect("a plain configuration is accepted")
}

/// Lints a text as if it were the file `name`; a panic or an error is `Err`.
pub fn lint_as(text: &str, name: &str, cfg: &Config) -> Result<Vec<Diagnostic>, String> {
    kit::guard(|| get_checks(text, Path::new(name), cfg, &PackageAnalysis::default()))?.map_err(|e| format!("{e:#}"))
}

pub fn lint(text: &str, cfg: &Config) -> Result<Vec<Diagnostic>, String> {
    lint_as(text, "file.R", cfg)
}

pub fn range(d: &Diagnostic) -> (usize, usize) {
    (d.range.start().into(), d.range.end().into())
}

pub fn has_fix(d: &Diagnostic) -> bool {
    !(d.fix.start == 0 && d.fix.end == 0 && d.fix.content.is_empty())
}

pub fn show(d: &Diagnostic) -> serde_json::Value {
    let (s, e) = range(d);
    serde_json::json!({"rule": d.message.name, "range": [s, e], "fix": [d.fix.start, d.fix.end, d.fix.content]})
}

/// A scratch directory of this run.
pub fn scratch() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("jarlmon-").tempdir().expect("scratch directory")
}

pub fn jarl_bin() -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().join("jarl")
}
