//! Suppression comments, end to end.

use crate::r#gen::{Gen, parses};
use crate::sut;
use jarl_core::rule_set::Rule;
use kit::{Ctx, Rng};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

type Span = (usize, usize);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// above a statement: the index of the statement in `Doc::stmts`
    Node(usize),
    Start,
    End,
    File,
    ChunkItem,
    /// malformed in the way this rule reports
    Bad(&'static str),
    /// a header of a chunk array that has items: no effect of its own
    Header,
}

#[derive(Clone, Debug)]
pub struct Directive {
    pub kind: Kind,
    pub rule: String,
    pub span: Span,
    pub level: usize,
    pub chunk: usize,
    /// nothing but comments stands before it
    pub before_code: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub stmts: Vec<Span>,
    pub dirs: Vec<Directive>,
    pub chunks: Vec<Span>,
}

/// A program skeleton: where statements and lists of statements are.
#[derive(Clone, Debug)]
enum Item {
    Plain(String),
    /// head with an opening brace, statements, what closes it
    Block(String, Vec<Item>, String),
    /// two blocks: if/else
    Two(String, Vec<Item>, String, Vec<Item>, String),
}

fn plain(g: &Gen, r: &mut Rng) -> String {
    for _ in 0..60 {
        let s = match r.below(8) {
            0..=4 => g.snip(r).text.clone(),
            5 => {
                let s = g.snip(r).text.clone();
                g.mutated(r, &s)
            }
            _ => g.expr(r, 2),
        };
        if s.contains(['\r', '#', ';']) || s.len() > 300 || s.contains("jarl") {
            continue;
        }
        if let Some(t) = crate::tree::parse(&s) {
            let list = &t.kids;
            // one expression that is the whole text
            let mut exprs = 0;
            for k in list {
                exprs += if k.kind == air_r_syntax::RSyntaxKind::R_EXPRESSION_LIST { k.kids.len() } else { 0 };
            }
            if exprs == 1 && t.span == (0, s.len()) && !s.trim_start().starts_with('{') {
                return s;
            }
        }
    }
    "any(is.na(x))".into()
}

fn items(g: &Gen, r: &mut Rng, depth: usize, top: bool) -> Vec<Item> {
    let n = if top { r.range(1, 4) } else { *r.pick(&[0, 1, 1, 2, 3]) };
    (0..n)
        .map(|_| {
            if depth > 0 && r.chance(1, 3) {
                match r.below(7) {
                    0 => Item::Block(format!("{} <- function(x) {{", r.pick(crate::r#gen::IDS)), items(g, r, depth - 1, false), "}".into()),
                    1 => Item::Block("if (cond) {".into(), items(g, r, depth - 1, false), "}".into()),
                    2 => Item::Block("for (i in xs) {".into(), items(g, r, depth - 1, false), "}".into()),
                    3 => Item::Block("test_that(\"été\", {".into(), items(g, r, depth - 1, false), "})".into()),
                    4 => Item::Block("while (cond()) {".into(), items(g, r, depth - 1, false), "}".into()),
                    5 => Item::Block("{".into(), items(g, r, depth - 1, false), "}".into()),
                    _ => Item::Two("if (cond) {".into(), items(g, r, depth - 1, false), "} else {".into(), items(g, r, depth - 1, false), "}".into()),
                }
            } else {
                Item::Plain(plain(g, r))
            }
        })
        .collect()
}

struct Emit<'a> {
    doc: Doc,
    r: &'a mut Rng,
    /// rules worth naming; empty: no directives at all
    rules: &'a [String],
    all: &'a [String],
    chunk: usize,
    code: bool,
    rmd: bool,
    density: u64,
    nl: &'static str,
}

impl Emit<'_> {
    fn rule(&mut self) -> String {
        if !self.rules.is_empty() && self.r.chance(3, 4) { self.r.pick(self.rules).clone() } else { self.r.pick(self.all).clone() }
    }
    fn push_dir(&mut self, kind: Kind, rule: &str, level: usize, text: &str) {
        let at = self.doc.text.len();
        self.doc.text.push_str(text);
        self.doc.dirs.push(Directive { kind, rule: rule.into(), span: (at, at + text.len()), level, chunk: self.chunk, before_code: !self.code });
    }
    fn reason(&mut self) -> &'static str {
        *self.r.pick(&["reason", "été 🌍", "see #12: why", "any_is_na: not this", "<reason>"])
    }
    /// Own-line comments before the statement `next`, or at the end of a list.
    fn own_line(&mut self, next: Option<usize>, level: usize, by: &str) {
        if self.rules.is_empty() {
            return;
        }
        while self.r.chance(self.density, 10) {
            let rule = self.rule();
            let why = self.reason();
            self.doc.text.push_str(by);
            match self.r.below(16) {
                0..=5 if next.is_some() => self.push_dir(Kind::Node(next.unwrap()), &rule, level, &format!("# jarl-ignore {rule}: {why}")),
                0..=3 | 6..=7 => self.push_dir(Kind::Start, &rule, level, &format!("# jarl-ignore-start {rule}: {why}")),
                4 | 5 | 8 | 9 => {
                    let open: Vec<String> = self.doc.dirs.iter().filter(|d| d.kind == Kind::Start && d.level == level).map(|d| d.rule.clone()).collect();
                    let rule = if open.is_empty() || self.r.chance(1, 5) { rule } else { self.r.pick(&open).clone() };
                    let c = if self.r.chance(1, 3) { format!("# jarl-ignore-end {rule}: {why}") } else { format!("# jarl-ignore-end {rule}") };
                    self.push_dir(Kind::End, &rule, level, &c);
                }
                10 => self.push_dir(Kind::File, &rule, level, &format!("# jarl-ignore-file {rule}: {why}")),
                11 => {
                    let c = *self.r.pick(&["# jarl-ignore", "# jarl-ignore: reason", "# jarl-ignore-start", "# jarl-ignore-file"]);
                    // only the plain form is certain to be a blanket one
                    let c = if c.contains("ignore-") { "# jarl-ignore" } else { c };
                    self.push_dir(Kind::Bad("blanket_suppression"), "", level, c);
                }
                12 => {
                    let c = self.r.pick(&["# jarl-ignore R", "# jarl-ignore R:", "# jarl-ignore-start R", "# jarl-ignore-file R:  "]).replace('R', &rule);
                    self.push_dir(Kind::Bad("unexplained_suppression"), "", level, c.trim_end());
                }
                13 => {
                    let c = self.r.pick(&["# jarl-ignore R2: why", "# jarl-ignore-start R2: why", "# jarl-ignore-end R2", "# jarl-ignore-file R2: why"]).replace("R2", &format!("{rule}_"));
                    self.push_dir(Kind::Bad("misnamed_suppression"), "", level, &c);
                }
                14 => self.push_dir(Kind::Bad("invalid_chunk_suppression"), "", level, &format!("#| jarl-ignore-chunk {rule}: {why}")),
                _ => self.doc.text.push_str("# jarl ignore any_is_na: not a suppression"),
            }
            self.doc.text.push_str(self.nl);
            if self.r.chance(1, 6) {
                self.doc.text.push_str(self.nl);
            }
        }
    }
    fn list(&mut self, list: &[Item], level: usize) {
        let by = "  ".repeat(level);
        for it in list {
            let id = self.doc.stmts.len();
            self.doc.stmts.push((0, 0));
            self.own_line(Some(id), level, &by);
            self.doc.text.push_str(&by);
            let at = self.doc.text.len();
            self.code = true;
            match it {
                Item::Plain(s) => self.doc.text.push_str(s),
                Item::Block(h, l, t) => {
                    self.doc.text.push_str(h);
                    self.doc.text.push_str(self.nl);
                    self.list(l, level + 1);
                    self.doc.text.push_str(&by);
                    self.doc.text.push_str(t);
                }
                Item::Two(h, l, m, l2, t) => {
                    self.doc.text.push_str(h);
                    self.doc.text.push_str(self.nl);
                    self.list(l, level + 1);
                    self.doc.text.push_str(&by);
                    self.doc.text.push_str(m);
                    self.doc.text.push_str(self.nl);
                    self.list(l2, level + 1);
                    self.doc.text.push_str(&by);
                    self.doc.text.push_str(t);
                }
            }
            self.doc.stmts[id] = (at, self.doc.text.len());
            if !self.rules.is_empty() && self.r.chance(1, 9) {
                let rule = self.rule();
                self.doc.text.push(' ');
                let c = match self.r.below(6) {
                    0 => "# jarl-ignore".to_string(),
                    1 => format!("# jarl-ignore {rule}"),
                    2 => format!("# jarl-ignore-start {rule}: why"),
                    3 => format!("# jarl-ignore-file {rule}: why"),
                    _ => format!("# jarl-ignore {rule}: why"),
                };
                self.push_dir(Kind::Bad("misplaced_suppression"), "", level, &c);
            }
            self.doc.text.push_str(self.nl);
            if self.r.chance(1, 5) {
                self.doc.text.push_str(self.nl);
            }
        }
        self.own_line(None, level, &by);
    }
    fn chunk_header(&mut self) {
        if self.rules.is_empty() || !self.r.chance(1, 2) {
            return;
        }
        if self.r.chance(1, 2) {
            self.doc.text.push_str("#| label: été\n");
        }
        if self.r.chance(1, 6) {
            self.push_dir(Kind::Bad("blanket_suppression"), "", 0, "#| jarl-ignore-chunk:");
            self.doc.text.push('\n');
            return;
        }
        self.push_dir(Kind::Header, "", 0, "#| jarl-ignore-chunk:");
        self.doc.text.push('\n');
        for _ in 0..self.r.range(1, 3) {
            let rule = self.rule();
            match self.r.below(6) {
                0 => self.push_dir(Kind::Bad("unexplained_suppression"), "", 0, &format!("#|   - {rule}:")),
                1 => self.push_dir(Kind::Bad("misnamed_suppression"), "", 0, &format!("#|   - {rule}_: why")),
                _ => self.push_dir(Kind::ChunkItem, &rule, 0, &format!("#|   - {rule}: why not")),
            }
            self.doc.text.push('\n');
        }
        if self.r.chance(1, 3) {
            self.doc.text.push_str("#| echo: false\n");
        }
    }
}

pub fn neutral(text: &str) -> String {
    text.replace("jarl-ignore", "jarl_ignore")
}

pub const META: &[&str] = &[
    "blanket_suppression", "invalid_chunk_suppression", "misnamed_suppression", "misplaced_file_suppression", "misplaced_suppression",
    "outdated_suppression", "unexplained_suppression", "unmatched_range_suppression",
];

type Diags = BTreeMap<(usize, usize, String), usize>;

fn tally(v: impl IntoIterator<Item = (usize, usize, String)>) -> Diags {
    let mut m = Diags::new();
    for x in v {
        *m.entry(x).or_default() += 1;
    }
    m
}

/// What is wrong with the diagnostics `got`, when `base` are those without any suppression.
fn judge(doc: &Doc, base: &[(usize, usize, String)], got: &[(usize, usize, String)]) -> Option<String> {
    // 1. which directives have an effect, and on what
    struct Effect<'a> {
        rule: &'a str,
        over: Vec<Span>,
        at: Span,
    }
    let mut effects: Vec<Effect> = vec![];
    let mut meta: Vec<(usize, usize, String)> = vec![];
    let n_chunks = doc.chunks.len().max(1);
    for chunk in 0..n_chunks {
        let whole = if doc.chunks.is_empty() { (0, doc.text.len()) } else { doc.chunks[chunk] };
        let mut open: BTreeMap<(usize, &str), Vec<Span>> = BTreeMap::new();
        for d in doc.dirs.iter().filter(|d| d.chunk == chunk) {
            match d.kind {
                Kind::Node(i) => effects.push(Effect { rule: &d.rule, over: vec![doc.stmts[i]], at: d.span }),
                Kind::Start => open.entry((d.level, &d.rule)).or_default().push(d.span),
                Kind::End => match open.get_mut(&(d.level, d.rule.as_str())).and_then(|v| v.pop()) {
                    Some(s) => effects.push(Effect { rule: &d.rule, over: vec![(s.0, d.span.1)], at: s }),
                    None => meta.push((d.span.0, d.span.1, "unmatched_range_suppression".into())),
                },
                Kind::File if d.before_code && chunk == 0 => effects.push(Effect { rule: &d.rule, over: vec![(0, doc.text.len())], at: d.span }),
                Kind::File => meta.push((d.span.0, d.span.1, "misplaced_file_suppression".into())),
                Kind::ChunkItem => effects.push(Effect { rule: &d.rule, over: vec![whole], at: d.span }),
                Kind::Bad(rule) => meta.push((d.span.0, d.span.1, rule.into())),
                Kind::Header => {}
            }
        }
        for s in open.into_values().flatten() {
            meta.push((s.0, s.1, "unmatched_range_suppression".into()));
        }
    }
    // 2. what is left of the diagnostics, and which effects each of the others was under
    let inside = |a: Span, b: Span| b.0 <= a.0 && a.1 <= b.1;
    let mut expect = vec![];
    let mut covers: Vec<Vec<usize>> = vec![];
    for x in base.iter().chain(&meta) {
        let by: Vec<usize> = (0..effects.len()).filter(|&i| effects[i].rule == x.2 && effects[i].over.iter().any(|o| inside((x.0, x.1), *o))).collect();
        if by.is_empty() { expect.push(x.clone()) } else { covers.push(by) }
    }
    let outdated: BTreeSet<Span> = got.iter().filter(|d| d.2 == "outdated_suppression").map(|d| (d.0, d.1)).collect();
    let rest = tally(got.iter().filter(|d| d.2 != "outdated_suppression").cloned());
    let expect = tally(expect);
    if rest != expect {
        let missing: Vec<_> = expect.iter().filter(|(k, n)| rest.get(*k) != Some(n)).map(|(k, _)| k).collect();
        let extra: Vec<_> = rest.iter().filter(|(k, n)| expect.get(*k) != Some(n)).map(|(k, _)| k).collect();
        return Some(format!("diagnostics hidden that should be shown: {missing:?}; shown that should be hidden: {extra:?}"));
    }
    // 3. the suppressions that hide nothing are reported
    for o in &outdated {
        if !effects.iter().any(|e| e.at == *o) {
            return Some(format!("outdated suppression reported at {o:?}, where there is no suppression with an effect"));
        }
    }
    for (i, e) in effects.iter().enumerate() {
        let used = covers.iter().any(|c| c.contains(&i));
        if !used && !outdated.contains(&e.at) {
            return Some(format!("the suppression at {:?} hides nothing and is not reported", e.at));
        }
        if outdated.contains(&e.at) && covers.iter().any(|c| *c == [i]) {
            return Some(format!("the suppression at {:?} hides a diagnostic and is reported as outdated", e.at));
        }
    }
    for c in &covers {
        if c.iter().all(|&i| outdated.contains(&effects[i].at)) {
            return Some(format!("all suppressions of one diagnostic are reported as outdated: {:?}", c.iter().map(|&i| effects[i].at).collect::<Vec<_>>()));
        }
    }
    None
}

fn triples(d: &[jarl_core::diagnostic::Diagnostic]) -> Vec<(usize, usize, String)> {
    d.iter().map(|d| (sut::range(d).0, sut::range(d).1, d.message.name.clone())).collect()
}

fn wrong(doc: &Doc, name: &str, cfg: &jarl_core::config::Config) -> Option<String> {
    let base = sut::lint_as(&neutral(&doc.text), name, cfg).ok()?;
    match sut::lint_as(&doc.text, name, cfg) {
        Ok(got) => judge(doc, &triples(&base), &triples(&got)),
        Err(e) => Some(format!("linting fails with suppressions only: {e}")),
    }
}

/// Builds a document from what `emit_all` needs; the same seed gives the same document.
fn build(skel: &[Vec<Item>], seed: u64, rules: &[String], all: &[String], rmd: bool, density: u64) -> Doc {
    let mut r = Rng::new(seed);
    let nl = if !rmd && r.chance(1, 12) { "\r\n" } else { "\n" };
    let mut e = Emit { doc: Doc::default(), r: &mut r, rules, all, chunk: 0, code: false, rmd, density, nl };
    for (i, l) in skel.iter().enumerate() {
        e.chunk = i;
        e.code = false;
        if rmd {
            e.doc.text.push_str("Text été # jarl-ignore any_is_na: not here\n\n```{r}\n");
            let at = e.doc.text.len();
            e.chunk_header();
            e.list(l, 0);
            // the last line of a chunk is code, so that nothing depends on comments at its end
            e.doc.text.push_str("done\n");
            let end = e.doc.text.len();
            e.doc.text.push_str("```\n\n");
            e.doc.chunks.push((at, end));
        } else {
            if e.r.chance(1, 6) {
                e.doc.text.push_str("# Author: me");
                e.doc.text.push_str(e.nl);
            }
            e.list(l, 0);
        }
        let _ = e.rmd;
    }
    doc_trim(&mut e);
    e.doc
}

fn doc_trim(e: &mut Emit) {
    if !e.rmd && e.r.chance(1, 6) {
        while e.doc.text.ends_with(['\n', '\r']) {
            e.doc.text.pop();
        }
    }
}

fn size(l: &[Item]) -> usize {
    l.iter()
        .map(|i| match i {
            Item::Plain(_) => 1,
            Item::Block(_, l, _) => 1 + size(l),
            Item::Two(_, a, _, b, _) => 1 + size(a) + size(b),
        })
        .sum()
}

pub fn run_c22(ctx: &mut Ctx) {
    ctx.rule = "a program with at least one suppression comment that takes effect, by text".into();
    let g = Gen::load();
    let cfg = sut::config("ALL");
    let all: Vec<String> = Rule::all().iter().map(|r| r.name().to_string()).filter(|n| n != "outdated_suppression").collect();
    let mut rng = ctx.rng.fork();
    let mut seen = BTreeSet::new();
    while ctx.time_left(1.0) {
        let rmd = rng.chance(1, 4);
        let name = if rmd { "file.Rmd" } else { "file.R" };
        let skel: Vec<Vec<Item>> = (0..if rmd { rng.range(1, 3) } else { 1 }).map(|_| items(&g, &mut rng, 2, true)).collect();
        let seed = rng.next();
        let density = *rng.pick(&[2, 4, 6]);
        // first without any comment: which rules have something to say?
        let bare = build(&skel, seed, &[], &all, rmd, density);
        let Ok(d) = sut::lint_as(&bare.text, name, &cfg) else { continue };
        let mut fired: Vec<String> = d.iter().map(|d| d.message.name.clone()).collect();
        fired.sort();
        fired.dedup();
        if fired.is_empty() {
            fired.push("any_is_na".into());
        }
        let doc = build(&skel, seed, &fired, &all, rmd, density);
        ctx.case(doc.text.clone());
        if !rmd && !parses(&doc.text) {
            ctx.bump("does not parse", 1);
            continue;
        }
        ctx.count(if rmd { "R Markdown" } else { "program" }, &doc.text, doc.dirs.iter().any(|d| !matches!(d.kind, Kind::Bad(_))));
        for x in &doc.dirs {
            ctx.bump(
                &match x.kind {
                    Kind::Node(_) => "above a statement".to_string(),
                    Kind::Start | Kind::End => "range".into(),
                    Kind::File => "file".into(),
                    Kind::ChunkItem => "chunk".into(),
                    Kind::Header => continue,
                    Kind::Bad(b) => b.to_string(),
                },
                1,
            );
        }
        if let Some(w) = wrong(&doc, name, &cfg) {
            let kind = w.split(|c: char| c.is_ascii_digit()).next().unwrap().to_string();
            let rules_of = |w: &str| META.iter().filter(|m| w.contains(*m)).count();
            if !seen.insert((kind.clone(), rules_of(&w))) {
                ctx.bump("repeated", 1);
                continue;
            }
            // smaller documents from the same skeleton: drop statements and thin out the comments
            let mut best = (doc, w);
            let mut skel = skel;
            let mut again = true;
            let until = std::time::Instant::now() + std::time::Duration::from_secs(5);
            while again && std::time::Instant::now() < until {
                again = false;
                let mut tries: Vec<Vec<Vec<Item>>> = vec![];
                for i in 0..skel.len() {
                    if skel.len() > 1 {
                        let mut s = skel.clone();
                        s.remove(i);
                        tries.push(s);
                    }
                    for j in 0..skel[i].len() {
                        let mut s = skel.clone();
                        match s[i].remove(j) {
                            Item::Block(h, l, t) => {
                                tries.push(s.clone());
                                for k in 0..l.len() {
                                    let mut l2 = l.clone();
                                    l2.remove(k);
                                    s[i].insert(j, Item::Block(h.clone(), l2, t.clone()));
                                    tries.push(s.clone());
                                    s[i].remove(j);
                                }
                                s[i].splice(j..j, l);
                                tries.push(s);
                            }
                            _ => tries.push(s),
                        }
                    }
                }
                tries.push(skel.clone());
                'try_: for t in tries {
                    for k in 0..40u64 {
                        let cand = build(&t, seed.wrapping_add(k * 7919), &fired, &all, rmd, [1, 2, density][k as usize % 3]);
                        let smaller = size(&t.concat()) < size(&skel.concat()) || t.len() < skel.len() || cand.dirs.len() < best.0.dirs.len();
                        if smaller && (rmd || parses(&cand.text)) {
                            if let Some(w) = wrong(&cand, name, &cfg) {
                                if w.starts_with(&kind) {
                                    best = (cand, w);
                                    skel = t;
                                    again = true;
                                    break 'try_;
                                }
                            }
                        }
                    }
                }
            }
            let (doc, w) = best;
            ctx.fail(&doc.text, format!("{w}\n--- text\n{}", doc.text), json!({"text": doc.text, "name": name, "what": w}));
        }
    }
}
