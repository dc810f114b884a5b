//! C31: what is reported as unreachable is compared with what an executor of the generated program
//! reaches when every condition it cannot know goes either way and every loop runs any number of times.

use crate::sut;
use kit::{Ctx, Rng};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum Cond {
    Unknown(usize),
    Const(bool),
    Paren(Box<Cond>),
    Not(Box<Cond>),
    Bin(&'static str, Box<Cond>, Box<Cond>),
}

#[derive(Clone, Debug, PartialEq)]
enum Body {
    Braced(Vec<S>),
    Bare(Box<S>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum T {
    Return,
    Stop,
    Break,
    Next,
}

#[derive(Clone, Debug, PartialEq)]
enum S {
    /// a statement that completes; the text has a `%` where its name goes
    Mark(usize, String),
    Term(usize, T, String),
    If(usize, Cond, Body, Option<Body>),
    For(usize, Body),
    While(usize, Cond, Body),
    Repeat(usize, Body),
    Block(usize, Vec<S>),
    Fun(usize, String, Body),
}

const MARKS: &[&str] = &[
    "return", "f(return)", "stop", "%", "%()", "%(1)", "x <- %()", "%[[1]] <- 2", "f(%, stop())", "%$stop()", "stopifnot(%)", "% + 1", "x = %", "-%", "(%)", "%$\n  foo()", "tryCatch(stop(%))",
    "%(return)", "%::stopped()", "% <- function() NULL", "stop_%()", "\"%\"", "%(\n  1,\n  stop\n)", "%$abort(1)", "returned(%)", "x |> %()", "if_%(a)", "% %>% stop()", "next_(%)",
    "%@q()", "print(\"stop(%)\")", "withr::defer(%)", "% |> quit()", "!%", "?%", "~ %", "%:::stop_()", "%[stop()]", "\u{e9}%()", "f(\"\u{1f600}\", %)",
];
const STOPS: &[&str] =
    &["stop()", "stop(\"a\")", "base::stop(1)", "abort(\"x\")", "rlang::abort(\n  \"x\",\n  y = 1\n)", "cli_abort(c(\"x\"))", "cli::cli_abort(\"{x}\")", ".Defunct()", "q()", "quit(\"no\")", "rlang:::abort()", "stop(\"\u{e9}\")"];
const RETURNS: &[&str] = &["return()", "return(1)", "return(x <- 2)", "return(\n  f(x)\n)", "return(stop())", "return(NULL)"];

struct G<'a> {
    rng: &'a mut Rng,
    next: usize,
    extra: &'a [String],
}

impl G<'_> {
    fn id(&mut self) -> usize {
        self.next += 1;
        self.next
    }
    fn cond(&mut self, depth: usize) -> Cond {
        match self.rng.below(if depth == 0 { 8 } else { 14 }) {
            0..=4 => Cond::Unknown(self.id()),
            5 => Cond::Const(self.rng.chance(1, 2)),
            6 | 7 => Cond::Unknown(self.id()),
            8 => Cond::Paren(Box::new(self.cond(depth - 1))),
            9 => Cond::Not(Box::new(match self.rng.below(3) {
                0 => Cond::Const(self.rng.chance(1, 2)),
                1 => Cond::Unknown(self.id()),
                _ => Cond::Paren(Box::new(self.cond(depth - 1))),
            })),
            _ => {
                let op = *self.rng.pick(&["&", "&&", "|", "||"]);
                let side = |g: &mut Self| match g.rng.below(4) {
                    0 => Cond::Const(g.rng.chance(1, 2)),
                    1 => Cond::Paren(Box::new(g.cond(depth - 1))),
                    _ => Cond::Unknown(g.id()),
                };
                Cond::Bin(op, Box::new(side(self)), Box::new(side(self)))
            }
        }
    }
    fn term(&mut self, in_loop: bool, in_fun: bool) -> S {
        let mut kinds = vec![T::Stop];
        if in_fun {
            kinds.push(T::Return);
            kinds.push(T::Return);
        }
        if in_loop {
            kinds.push(T::Break);
            kinds.push(T::Next);
        }
        let t = *self.rng.pick(&kinds);
        let text = match t {
            T::Stop if !self.extra.is_empty() => self.rng.pick(self.extra).clone() + "(1)",
            T::Stop => self.rng.pick(STOPS).to_string(),
            T::Return => self.rng.pick(RETURNS).to_string(),
            T::Break => "break".into(),
            T::Next => "next".into(),
        };
        S::Term(self.id(), t, text)
    }
    fn body(&mut self, depth: usize, in_loop: bool, in_fun: bool, last: bool) -> Body {
        if self.rng.chance(1, 5) {
            let s = match self.rng.below(if last { 3 } else { 2 }) {
                0 => self.mark(),
                1 => self.term(in_loop, in_fun),
                _ => self.stmt(depth.saturating_sub(1), in_loop, in_fun),
            };
            Body::Bare(Box::new(s))
        } else {
            Body::Braced(self.seq(depth.saturating_sub(1), in_loop, in_fun))
        }
    }
    fn mark(&mut self) -> S {
        let t = self.rng.pick(MARKS).to_string();
        S::Mark(self.id(), t)
    }
    fn stmt(&mut self, depth: usize, in_loop: bool, in_fun: bool) -> S {
        let k = if depth == 0 { self.rng.below(5) } else { self.rng.below(16) };
        match k {
            0..=2 => self.mark(),
            3 | 4 => self.term(in_loop, in_fun),
            5..=9 => {
                let c = self.cond(2);
                let id = self.id();
                let els = self.rng.chance(2, 3);
                let a = self.body(depth, in_loop, in_fun, !els);
                let b = els.then(|| {
                    if self.rng.chance(1, 4) {
                        Body::Bare(Box::new(loop {
                            let s = self.stmt(depth, in_loop, in_fun);
                            if matches!(s, S::If(..)) {
                                break s;
                            }
                        }))
                    } else {
                        self.body(depth, in_loop, in_fun, true)
                    }
                });
                S::If(id, c, a, b)
            }
            10 | 11 => {
                let id = self.id();
                S::For(id, self.body(depth, true, in_fun, true))
            }
            12 => {
                let id = self.id();
                let c = if self.rng.chance(1, 4) { Cond::Const(true) } else { self.cond(1) };
                S::While(id, c, self.body(depth, true, in_fun, true))
            }
            13 => {
                let id = self.id();
                S::Repeat(id, self.body(depth, true, in_fun, true))
            }
            14 => {
                let id = self.id();
                S::Block(id, self.seq(depth - 1, in_loop, in_fun))
            }
            _ => {
                let id = self.id();
                let head = self.rng.pick(&["f <- function(x) ", "function(a, b = {\n  1\n}) ", "g(\\(x) ", "x$f = \\() ", "lapply(y, function(i) "]).to_string();
                S::Fun(id, head, self.body(depth, false, true, true))
            }
        }
    }
    fn seq(&mut self, depth: usize, in_loop: bool, in_fun: bool) -> Vec<S> {
        let n = self.rng.pick_weighted(&[(1, 0), (4, 1), (6, 2), (6, 3), (3, 4), (1, 7)]);
        (0..*n).map(|_| self.stmt(depth, in_loop, in_fun)).collect()
    }
}

// ------------------------------------------------------------------ printing

#[derive(Default)]
struct Printer {
    out: String,
    /// by number: where the statement, body or unknown condition is
    spans: BTreeMap<usize, (usize, usize)>,
    starts: BTreeSet<usize>,
    ends: BTreeSet<usize>,
    style: u64,
}

impl Printer {
    fn r(&mut self, n: u64) -> u64 {
        self.style = self.style.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.style >> 33) % n
    }
    fn nl(&mut self, indent: usize) {
        if self.r(12) == 0 {
            let c = *[" # comment", " # stop() return(1)", " # jarl", "\n\n", "\n# above }"].get(self.r(5) as usize).unwrap();
            self.out += c;
        }
        self.out.push('\n');
        self.out += &"  ".repeat(indent);
    }
    fn cond(&mut self, c: &Cond) {
        match c {
            Cond::Unknown(i) => {
                let at = self.out.len();
                let t = match self.r(6) {
                    0 => format!("c{i}()"),
                    1 => format!("c{i}$TRUE"),
                    2 => format!("c{i} == TRUE"),
                    3 => format!("!c{i}"),
                    4 => format!("c{i}(FALSE)"),
                    _ => format!("c{i}"),
                };
                self.out += &t;
                self.spans.insert(*i, (at, self.out.len()));
            }
            Cond::Const(b) => self.out += if *b { "TRUE" } else { "FALSE" },
            Cond::Paren(c) => {
                self.out.push('(');
                self.cond(c);
                self.out.push(')');
            }
            Cond::Not(c) => {
                self.out.push('!');
                self.cond(c);
            }
            Cond::Bin(op, a, b) => {
                self.cond(a);
                self.out += &format!(" {op} ");
                self.cond(b);
            }
        }
    }
    fn seq(&mut self, v: &[S], indent: usize) {
        for (i, s) in v.iter().enumerate() {
            if i > 0 {
                if self.r(10) == 0 {
                    self.out += "; ";
                } else {
                    self.nl(indent);
                }
            }
            self.stmt(s, indent);
        }
    }
    fn body(&mut self, b: &Body, indent: usize) {
        let at = self.out.len();
        match b {
            Body::Braced(v) if v.len() < 2 && self.r(3) == 0 => {
                self.out.push('{');
                self.seq(v, indent + 1);
                self.out.push('}');
            }
            Body::Braced(v) => {
                self.out.push('{');
                self.nl(indent + 1);
                self.seq(v, indent + 1);
                self.nl(indent);
                self.out.push('}');
            }
            Body::Bare(s) => self.stmt(s, indent),
        }
        self.starts.insert(at);
        self.ends.insert(self.out.len());
    }
    fn stmt(&mut self, s: &S, indent: usize) {
        let at = self.out.len();
        let id = match s {
            S::Mark(i, t) => {
                self.out += &t.replacen('%', &format!("m{i}"), 1);
                *i
            }
            S::Term(i, _, t) => {
                self.out += t;
                *i
            }
            S::If(i, c, a, b) => {
                self.out += "if (";
                self.cond(c);
                self.out += ") ";
                self.body(a, indent);
                if let Some(b) = b {
                    self.out += " else ";
                    self.body(b, indent);
                }
                *i
            }
            S::For(i, b) => {
                self.out += "for (i in 1:10) ";
                self.body(b, indent);
                *i
            }
            S::While(i, c, b) => {
                self.out += "while (";
                self.cond(c);
                self.out += ") ";
                self.body(b, indent);
                *i
            }
            S::Repeat(i, b) => {
                self.out += "repeat ";
                self.body(b, indent);
                *i
            }
            S::Block(i, v) => {
                self.out += "{";
                self.nl(indent + 1);
                self.seq(v, indent + 1);
                self.nl(indent);
                self.out += "}";
                *i
            }
            S::Fun(i, head, b) => {
                self.out += head;
                self.body(b, indent);
                if head.matches('(').count() > head.matches(')').count() {
                    self.out.push(')');
                }
                *i
            }
        };
        self.spans.insert(id, (at, self.out.len()));
        self.starts.insert(at);
        self.ends.insert(self.out.len());
    }
}

// ----------------------------------------------------------------- execution

#[derive(Clone, Copy, Default, PartialEq)]
struct Out {
    normal: bool,
    brk: bool,
    next: bool,
    ret: bool,
    stop: bool,
}

impl Out {
    fn or(self, o: Out) -> Out {
        Out { normal: self.normal | o.normal, brk: self.brk | o.brk, next: self.next | o.next, ret: self.ret | o.ret, stop: self.stop | o.stop }
    }
}

struct Exec {
    /// everything that some execution reaches
    hit: BTreeSet<usize>,
    /// what the documentation promises to understand: a block within a sequence is one statement
    coarse: bool,
    /// the reason that belongs to the first statement that is not reached
    why: BTreeMap<usize, &'static str>,
    /// in the coarse view: within such a block, where everything counts as reached
    within: bool,
}

fn value(c: &Cond) -> Option<bool> {
    match c {
        Cond::Unknown(_) | Cond::Not(_) => None,
        Cond::Const(b) => Some(*b),
        Cond::Paren(c) => value(c),
        Cond::Bin(op, a, b) => {
            let (a, b) = (value(a), value(b));
            let strong = op.starts_with('|');
            if a == Some(strong) || b == Some(strong) {
                Some(strong)
            } else if a.is_some() && b.is_some() {
                Some(!strong)
            } else {
                None
            }
        }
    }
}

impl Exec {
    fn cond(&mut self, c: &Cond) {
        match c {
            Cond::Unknown(i) => {
                self.hit.insert(*i);
            }
            Cond::Const(_) => {}
            Cond::Paren(c) | Cond::Not(c) => self.cond(c),
            // either side may be evaluated
            Cond::Bin(_, a, b) => {
                self.cond(a);
                self.cond(b);
            }
        }
    }
    fn seq(&mut self, v: &[S]) -> Out {
        let mut all = Out::default();
        for (i, s) in v.iter().enumerate() {
            let o = self.stmt(s);
            all = all.or(o);
            all.normal = o.normal;
            if !o.normal {
                if let Some(next) = v.get(i + 1) {
                    let why = match s {
                        S::Term(_, T::Return, _) => "after a return",
                        S::Term(_, T::Stop, _) => "after a `stop()`",
                        S::Term(_, T::Break, _) => "after a break",
                        S::Term(_, T::Next, _) => "after a next",
                        S::If(_, c, _, Some(_)) if value(c).is_none() && !o.brk && !o.next => "terminates in all branches",
                        _ => "",
                    };
                    self.why.insert(id(next), why);
                }
                if !self.within {
                    break;
                }
                all.normal = true;
            }
        }
        if v.is_empty() || self.within {
            all.normal = true;
        }
        all
    }
    fn body(&mut self, b: &Body) -> Out {
        match b {
            Body::Braced(v) => self.seq(v),
            Body::Bare(s) => self.stmt(s),
        }
    }
    fn stmt(&mut self, s: &S) -> Out {
        let plain = Out { normal: true, ..Out::default() };
        self.hit.insert(id(s));
        match s {
            S::Mark(..) => plain,
            S::Term(_, t, _) => match t {
                T::Return => Out { ret: true, ..Out::default() },
                T::Stop => Out { stop: true, ..Out::default() },
                T::Break => Out { brk: true, ..Out::default() },
                T::Next => Out { next: true, ..Out::default() },
            },
            S::If(_, c, a, b) => {
                self.cond(c);
                let v = if self.within { None } else { value(c) };
                let mut o = Out::default();
                if v != Some(false) {
                    o = o.or(self.body(a));
                }
                if v != Some(true) {
                    o = o.or(b.as_ref().map_or(plain, |b| self.body(b)));
                }
                o
            }
            S::For(_, b) | S::Repeat(_, b) | S::While(_, _, b) => {
                if let S::While(_, c, _) = s {
                    self.cond(c);
                }
                let o = self.body(b);
                // a loop can always end, as far as the rule is concerned
                Out { normal: true, brk: false, next: false, ..o }
            }
            S::Block(_, v) => {
                let was = std::mem::replace(&mut self.within, self.coarse);
                let o = self.seq(v);
                self.within = was;
                if self.coarse { plain } else { o }
            }
            S::Fun(_, _, b) => {
                let was = std::mem::replace(&mut self.within, false);
                self.body(b);
                self.within = was;
                plain
            }
        }
    }
}

fn id(s: &S) -> usize {
    match s {
        S::Mark(i, _) | S::Term(i, ..) | S::If(i, ..) | S::For(i, _) | S::While(i, ..) | S::Repeat(i, _) | S::Block(i, _) | S::Fun(i, ..) => *i,
    }
}

/// Smaller programs: every statement removed or replaced by a part of itself.
fn smaller(v: &[S]) -> Vec<Vec<S>> {
    let mut out = vec![];
    for i in 0..v.len() {
        let mut w = v.to_vec();
        w.remove(i);
        out.push(w);
        for t in smaller_stmt(&v[i]) {
            let mut w = v.to_vec();
            w[i] = t;
            out.push(w);
        }
    }
    out
}

fn smaller_body(b: &Body) -> Vec<Body> {
    match b {
        Body::Braced(v) => smaller(v).into_iter().map(Body::Braced).collect(),
        Body::Bare(s) => {
            let mut out: Vec<_> = smaller_stmt(s).into_iter().map(|s| Body::Bare(Box::new(s))).collect();
            out.push(Body::Braced(vec![(**s).clone()]));
            out
        }
    }
}

fn smaller_stmt(s: &S) -> Vec<S> {
    let mut out = vec![];
    match s {
        S::Mark(i, t) if t != "%" => out.push(S::Mark(*i, "%".into())),
        S::If(i, c, a, b) => {
            for a in smaller_body(a) {
                out.push(S::If(*i, c.clone(), a, b.clone()));
            }
            if let Some(b) = b {
                out.push(S::If(*i, c.clone(), a.clone(), None));
                for b in smaller_body(b) {
                    out.push(S::If(*i, c.clone(), a.clone(), Some(b)));
                }
            }
            if !matches!(c, Cond::Unknown(_) | Cond::Const(_)) {
                out.push(S::If(*i, value(c).map_or(Cond::Unknown(100000 + i), Cond::Const), a.clone(), b.clone()));
            }
        }
        S::For(i, b) => out.extend(smaller_body(b).into_iter().map(|b| S::For(*i, b))),
        S::While(i, c, b) => out.extend(smaller_body(b).into_iter().map(|b| S::While(*i, c.clone(), b))),
        S::Repeat(i, b) => out.extend(smaller_body(b).into_iter().map(|b| S::Repeat(*i, b))),
        S::Block(i, v) => out.extend(smaller(v).into_iter().map(|v| S::Block(*i, v))),
        S::Fun(i, h, b) => out.extend(smaller_body(b).into_iter().map(|b| S::Fun(*i, h.clone(), b))),
        _ => {}
    }
    out
}

struct Verdict {
    text: String,
    bad: Option<String>,
    reported: usize,
    unreached: usize,
}

fn judge(p: &[S], style: u64, cfg: &jarl_core::config::Config) -> Verdict {
    let mut pr = Printer { style, ..Printer::default() };
    pr.seq(p, 0);
    pr.out.push('\n');
    let text = pr.out.clone();
    let mut v = Verdict { text: text.clone(), bad: None, reported: 0, unreached: 0 };
    let ds = match sut::lint(&text, cfg) {
        Ok(d) => d,
        Err(e) => {
            v.bad = Some(format!("linting fails: {e}"));
            return v;
        }
    };
    let ds: Vec<_> = ds.into_iter().filter(|d| d.message.name == "unreachable_code").collect();
    v.reported = ds.len();
    let run = |coarse: bool| {
        let mut e = Exec { hit: BTreeSet::new(), coarse, why: BTreeMap::new(), within: false };
        e.seq(p);
        e
    };
    let (exact, coarse) = (run(false), run(true));
    v.unreached = pr.spans.keys().filter(|i| !exact.hit.contains(i)).count();
    let ranges: Vec<_> = ds.iter().map(sut::range).collect();
    for (i, &(s, e)) in &pr.spans {
        let covered = ranges.iter().any(|r| r.0 <= s && e <= r.1);
        let touched = ranges.iter().any(|r| r.0 < e && s < r.1);
        let here = || kit::clip(&text[s..e], 60).to_string();
        if exact.hit.contains(i) && covered {
            v.bad = Some(format!("`{}` can be executed but is reported as unreachable", here()));
            return v;
        }
        if !coarse.hit.contains(i) && !covered {
            v.bad = Some(format!("`{}` is never executed but not reported{}", here(), if touched { " as a whole" } else { "" }));
            return v;
        }
    }
    for (k, d) in ds.iter().enumerate() {
        let (s, e) = ranges[k];
        if !pr.starts.contains(&s) || !pr.ends.contains(&e) {
            v.bad = Some(format!("the report on {s}..{e} does not cover whole statements"));
            return v;
        }
        for r in &ranges[..k] {
            if *r == (s, e) || (r.0 < s && s < r.1 && r.1 < e) || (s < r.0 && r.0 < e && e < r.1) {
                v.bad = Some(format!("two reports overlap: {r:?} and {:?}", (s, e)));
                return v;
            }
        }
        // the reason, where the first statement reported is the first that is not executed
        for (i, why) in &coarse.why {
            if pr.spans[i].0 == s && exact.why.get(i) == Some(why) && !why.is_empty() && !d.message.body.contains(why) {
                v.bad = Some(format!("`{}` is {why} but reported as: {}", kit::clip(&text[s..e], 60), d.message.body));
                return v;
            }
        }
    }
    v
}

pub fn run_c31(ctx: &mut Ctx) {
    ctx.rule = "a generated program of nested branches, loops and functions, by text; non-trivial: with code no execution reaches".into();
    let mut rng = ctx.rng.fork();
    let plain = sut::config("unreachable_code");
    let dir = sut::scratch();
    let custom: Vec<(Vec<String>, jarl_core::config::Config)> = [
        ("stopping-functions = [\"die\", \"halt.now\"]", vec!["die", "halt.now", "pkg::die", "my.pkg:::halt.now"]),
        ("extend-stopping-functions = [\"my_stop\"]", vec!["my_stop", "stop", "rlang::abort", "x::my_stop"]),
        ("stopping-functions = []", vec![]),
    ]
    .into_iter()
    .map(|(opt, names)| {
        let f = dir.path().join("jarl.toml");
        std::fs::write(&f, format!("[lint]\nselect = [\"unreachable_code\"]\n[lint.unreachable_code]\n{opt}\n")).unwrap();
        let s = jarl_core::toml::parse_jarl_toml(&f).expect("a valid configuration").into_settings(dir.path()).expect("valid settings");
        (names.into_iter().map(String::from).collect(), sut::config_with(&sut::args(), Some(&s)))
    })
    .collect();
    let mut shown = 0;
    while ctx.time_left(1.0) {
        let c = rng.below(8);
        let (extra, cfg) = match c {
            0 => (&custom[0].0[..], &custom[0].1),
            1 => (&custom[1].0[..], &custom[1].1),
            _ => (&[][..], &plain),
        };
        let depth = rng.range(1, 6);
        let in_fun = rng.chance(3, 5);
        let p = {
            let mut g = G { rng: &mut rng, next: 0, extra };
            if in_fun {
                let head = "f <- function(x) ".to_string();
                let id = g.id();
                vec![S::Fun(id, head, g.body(depth, false, true, true))]
            } else {
                g.seq(depth, false, false)
            }
        };
        let style = rng.next();
        let v = judge(&p, style, cfg);
        if v.text.len() > 20_000 {
            continue;
        }
        ctx.case(v.text.clone());
        ctx.count(if v.unreached == 0 { "all reachable" } else if in_fun { "unreachable in a function" } else { "unreachable at top level" }, &v.text, v.unreached > 0);
        ctx.bump("reports", v.reported as u64);
        ctx.bump("unreached statements and conditions", v.unreached as u64);
        if v.bad.is_some() {
            let mut small = p.clone();
            'outer: loop {
                for t in smaller(&small) {
                    if judge(&t, style, cfg).bad.is_some() && crate::r#gen::parses(&judge(&t, style, cfg).text) {
                        small = t;
                        continue 'outer;
                    }
                }
                break;
            }
            let w = judge(&small, style, cfg);
            ctx.fail(&w.text, format!("{}\n{}", w.bad.unwrap_or_default(), w.text), json!({"text": w.text, "original": v.text}));
            shown += 1;
            if shown > 30 {
                return;
            }
        }
    }
}
