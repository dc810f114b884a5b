//! The documented rule reference, read from /repo/docs/rules.qmd: the independent side of the registry
//! checks.

use kit::Ctx;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DocRule {
    pub groups: Vec<String>,
    pub fix: &'static str,
    pub enabled: bool,
    pub min_r: Option<(u32, u32, u32)>,
}

/// The group names of the table, as used on the command line.
fn short(group: &str) -> String {
    match group {
        "comments" => "COMM",
        "correctness" => "CORR",
        "suspicious" => "SUSP",
        "performance" => "PERF",
        "readability" => "READ",
        "testthat" => "TESTTHAT",
        other => other,
    }
    .to_string()
}

pub fn parse(text: &str) -> BTreeMap<String, DocRule> {
    let mut out = BTreeMap::new();
    for line in text.lines() {
        let line = line.trim().trim_end_matches(',');
        let Some(inner) = line.strip_prefix("c(").and_then(|l| l.strip_suffix(')')) else {
            continue;
        };
        let cells: Vec<&str> = inner.split('"').collect();
        if cells.len() != 9 {
            continue;
        }
        let (name, groups, fix, cond) = (cells[1], cells[3], cells[5], cells[7]);
        let fix = match fix.trim_end_matches('\u{fe0f}') {
            "✅" => "safe",
            "❗" => "unsafe",
            "❌" => "none",
            _ => continue,
        };
        let min_r = cond.find("R >= ").map(|i| {
            let v: String = cond[i + 5..]
                .chars()
                .take_while(|c| c.is_ascii_digit() || *c == '.')
                .collect();
            let mut n = v.split('.').map(|x| x.parse::<u32>().unwrap_or(0));
            (n.next().unwrap_or(0), n.next().unwrap_or(0), n.next().unwrap_or(0))
        });
        out.insert(
            name.to_string(),
            DocRule {
                groups: groups.split(',').map(|g| short(g.trim())).collect(),
                fix,
                enabled: !cond.contains("Disabled by default"),
                min_r,
            },
        );
    }
    out
}

pub fn documented_rules(ctx: &Ctx) -> BTreeMap<String, DocRule> {
    let _ = ctx;
    let t = std::fs::read_to_string("/repo/docs/rules.qmd").expect("docs/rules.qmd");
    let r = parse(&t);
    assert!(r.len() > 20, "cannot read the rule table of docs/rules.qmd");
    r
}
