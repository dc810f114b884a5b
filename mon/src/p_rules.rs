//! C04: the rule registry against the published rule table (docs/rules.qmd), and the rule-set
//! operations against a plain set.

use crate::rules_doc::documented_rules;
use kit::{Ctx, guard};
use serde_json::json;
use std::collections::BTreeSet;
use sut_core::rule_set::{Category, DefaultStatus, FixStatus, Rule, RuleSet};

const CATS: &[(&str, Category)] = &[
    ("COMM", Category::Comm),
    ("CORR", Category::Corr),
    ("SUSP", Category::Susp),
    ("PERF", Category::Perf),
    ("READ", Category::Read),
    ("TESTTHAT", Category::Testthat),
];

/// Published in the changelog and the rule page: the only deprecated rule.
const DEPRECATED: &[(&str, &str, &str)] = &[("browser", "0.5.0", "undesirable_function")];

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "every registered and every documented rule (each attribute is one evaluation), near-miss lookups of every name, every category and status filter, then random sequences of rule-set operations replayed on a plain list; non-trivial = everything except lookups of random garbage; distinct by (attribute, rule) or operation sequence".into();
    ctx.assumptions = vec![
        "docs/rules.qmd is the specification of the registry (fix column: safe/unsafe/none; condition column: disabled by default, minimum R version)".into(),
        "browser is the only deprecated rule (CHANGELOG 0.5.0)".into(),
    ];
    let docs = documented_rules(ctx);
    let names: BTreeSet<String> = docs.keys().cloned().collect();
    let all = Rule::all();

    // 1. the registry is exactly the documented table
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for r in all {
        ctx.case(r.name());
        if !seen.insert(r.name().to_string()) {
            ctx.fail(&format!("dup:{}", r.name()), format!("rule {} is registered twice", r.name()), json!({"rule": r.name()}));
        }
        let Some(d) = docs.get(r.name()) else {
            ctx.fail(&format!("undoc:{}", r.name()), format!("rule {} is not in docs/rules.qmd", r.name()), json!({"rule": r.name()}));
            continue;
        };
        let got_groups: BTreeSet<String> = r.categories().iter().map(|c| c.as_str().to_string()).collect();
        let want_groups: BTreeSet<String> = d.groups.iter().cloned().collect();
        let got_fix = match r.fix_status() {
            FixStatus::Safe => "safe",
            FixStatus::Unsafe => "unsafe",
            FixStatus::None => "none",
        };
        let dep = r.deprecation().map(|d| (d.version.to_string(), d.replacement.to_string()));
        let want_dep = DEPRECATED.iter().find(|x| x.0 == r.name()).map(|x| (x.1.to_string(), x.2.to_string()));
        let facts: Vec<(&str, String, String)> = vec![
            ("groups", format!("{want_groups:?}"), format!("{got_groups:?}")),
            ("number of groups", want_groups.len().to_string(), r.categories().len().to_string()),
            ("fix", d.fix.to_string(), got_fix.to_string()),
            ("has_safe_fix", (d.fix == "safe").to_string(), r.has_safe_fix().to_string()),
            ("has_unsafe_fix", (d.fix == "unsafe").to_string(), r.has_unsafe_fix().to_string()),
            ("has_no_fix", (d.fix == "none").to_string(), r.has_no_fix().to_string()),
            ("enabled by default", d.enabled.to_string(), (r.default_status() == DefaultStatus::Enabled).to_string()),
            ("is_enabled_by_default", d.enabled.to_string(), r.is_enabled_by_default().to_string()),
            ("is_disabled_by_default", (!d.enabled).to_string(), r.is_disabled_by_default().to_string()),
            ("minimum R version", format!("{:?}", d.min_r), format!("{:?}", r.minimum_r_version())),
            ("display", r.name().to_string(), r.to_string()),
            ("deprecation", format!("{want_dep:?}"), format!("{dep:?}")),
            ("is_deprecated", want_dep.is_some().to_string(), r.is_deprecated().to_string()),
            ("from_name", format!("{:?}", Some(*r)), format!("{:?}", Rule::from_name(r.name()))),
        ];
        for (what, want, got) in facts {
            ctx.count(&format!("attribute: {what}"), &(what, r.name()), true);
            if want != got {
                ctx.fail(
                    &format!("{what}:{}", r.name()),
                    format!("rule {}: {what} is documented as {want} but the registry says {got}", r.name()),
                    json!({"rule": r.name(), "attribute": what, "documented": want, "observed": got}),
                );
            }
        }
        for (g, c) in CATS {
            ctx.count("has_category", &(g, r.name()), true);
            if r.has_category(*c) != want_groups.contains(*g) {
                ctx.fail(&format!("has_category:{g}:{}", r.name()), format!("{}.has_category({g}) is {}", r.name(), r.has_category(*c)), json!({}));
            }
        }
    }
    for n in &names {
        if !seen.contains(n) {
            ctx.fail(&format!("missing:{n}"), format!("documented rule {n} is not registered"), json!({"rule": n}));
        }
    }
    ctx.sample("rule", || json!({"rule": all[0].name(), "documented": format!("{:?}", docs.get(all[0].name()))}));

    // 2. filters return exactly the matching documented rules, each once
    let mut filters: Vec<(String, Vec<Rule>, BTreeSet<String>)> = vec![];
    for (s, w) in [(FixStatus::Safe, "safe"), (FixStatus::Unsafe, "unsafe"), (FixStatus::None, "none")] {
        filters.push((format!("by_fix_status({w})"), Rule::by_fix_status(s).collect(), docs.iter().filter(|d| d.1.fix == w).map(|d| d.0.clone()).collect()));
    }
    for (g, c) in CATS {
        filters.push((format!("by_category({g})"), Rule::by_category(*c).collect(), docs.iter().filter(|d| d.1.groups.iter().any(|x| x == g)).map(|d| d.0.clone()).collect()));
    }
    filters.push(("enabled_by_default".into(), Rule::enabled_by_default().collect(), docs.iter().filter(|d| d.1.enabled).map(|d| d.0.clone()).collect()));
    filters.push(("disabled_by_default".into(), Rule::disabled_by_default().collect(), docs.iter().filter(|d| !d.1.enabled).map(|d| d.0.clone()).collect()));
    filters.push(("all".into(), RuleSet::all().iter().copied().collect(), names.clone()));
    for (what, got, want) in filters {
        ctx.count("filter", &what, true);
        let set: BTreeSet<String> = got.iter().map(|r| r.name().to_string()).collect();
        if set != want || got.len() != want.len() {
            let extra: Vec<_> = set.difference(&want).collect();
            let lost: Vec<_> = want.difference(&set).collect();
            ctx.fail(&what, format!("{what}: {} rules, unexpected {extra:?}, missing {lost:?}", got.len()), json!({"filter": what}));
        }
    }

    // 3. groups round-trip
    let listed: Vec<String> = Category::ALL.iter().map(|c| c.to_string()).collect();
    if listed.iter().cloned().collect::<BTreeSet<_>>() != CATS.iter().map(|c| c.0.to_string()).collect() || listed.len() != CATS.len() {
        ctx.fail("cats", format!("Category::ALL is {listed:?}"), json!({}));
    }
    for (g, c) in CATS {
        ctx.count("group round trip", g, true);
        if g.parse::<Category>() != Ok(*c) || c.as_str() != *g || c.to_string() != *g {
            ctx.fail(&format!("cat:{g}"), format!("group {g} does not round-trip"), json!({}));
        }
        for bad in [g.to_lowercase(), format!("{g} "), format!(" {g}"), g[1..].to_string(), format!("{g}S")] {
            ctx.count("unknown group", &bad, true);
            if bad.parse::<Category>().is_ok() {
                ctx.fail(&format!("cat:{bad}"), format!("{bad:?} was accepted as a group name"), json!({}));
            }
        }
    }

    // 4. lookups: only exact names resolve
    let list: Vec<&String> = names.iter().collect();
    let full = RuleSet::all();
    for n in &list {
        let mut near = vec![n.to_uppercase(), format!("{n} "), format!(" {n}"), format!("{n}\0"), n.replace('_', "-"), n.replace('_', "")];
        for i in 0..n.len() {
            let mut t = n.to_string();
            t.remove(i);
            near.push(t);
            let mut t = n.to_string();
            t.insert(i, 'x');
            near.push(t);
        }
        for t in near {
            ctx.count("near-miss lookup", &t, true);
            let want = names.contains(&t);
            if Rule::from_name(&t).is_some() != want || full.contains_name(&t) != want {
                ctx.fail(&format!("lookup:{t}"), format!("lookup of {t:?}: {:?}, contains_name {}", Rule::from_name(&t), full.contains_name(&t)), json!({"name": t}));
            }
        }
    }

    // 5. rule sets behave like lists of rules
    while ctx.time_left(1.0) {
        let mut r = ctx.rng.fork();
        let mut model: Vec<Rule> = vec![];
        let mut log: Vec<String> = vec![];
        let mut set = RuleSet::empty();
        for _ in 0..r.range(1, 8) {
            match r.below(5) {
                0 => {
                    model = (0..r.below(30)).map(|_| *r.pick(all)).collect();
                    set = RuleSet::from_rules(model.clone());
                    log.push(format!("from_rules({})", model.len()));
                }
                1 => {
                    model = all.to_vec();
                    set = RuleSet::all();
                    log.push("all".into());
                }
                2 => {
                    let k = r.below(all.len());
                    let cat = r.pick(CATS).1;
                    let which = r.below(4);
                    let pred = move |x: &Rule| match which {
                        0 => x.has_category(cat),
                        1 => x.name().len() % 3 != 0,
                        2 => x.name() != all[k].name(),
                        _ => x.is_enabled_by_default(),
                    };
                    model.retain(pred);
                    set = set.filter(pred);
                    log.push(format!("filter {which} {} {}", all[k], cat));
                }
                3 => {
                    let v = model.clone();
                    set = v.iter().collect();
                    log.push("collect(&)".into());
                }
                _ => {
                    let extra: Vec<Rule> = (0..r.below(4)).map(|_| *r.pick(all)).collect();
                    model.extend(extra.iter().copied());
                    set = set.iter().copied().chain(extra).collect();
                    log.push("extend".into());
                }
            }
            let probe = *r.pick(all);
            let obs = guard(|| {
                (
                    set.iter().map(|x| x.name()).collect::<BTreeSet<_>>(),
                    set.iter().count(),
                    set.len(),
                    set.is_empty(),
                    set.contains(&probe),
                    set.contains_name(probe.name()),
                )
            });
            let want = (
                model.iter().map(|x| x.name()).collect::<BTreeSet<_>>(),
                model.len(),
                model.len(),
                model.is_empty(),
                model.iter().any(|x| x.name() == probe.name()),
                model.iter().any(|x| x.name() == probe.name()),
            );
            ctx.count("rule-set operation", &log, model.len() > 1);
            if obs.as_ref() != Ok(&want) {
                ctx.fail(&format!("set:{}", log.last().unwrap()), format!("after {log:?} (probe {probe}): expected {want:?}, observed {obs:?}"), json!({"operations": log}));
            }
        }
    }
}
