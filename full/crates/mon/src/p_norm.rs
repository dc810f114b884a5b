//! C26: fixes make what the rules document. Code before and after a fix is brought into a normal form,
//! with arguments matched as R matches them, by the equivalences the rules are about; the two have to be
//! the same.

use crate::r#gen::{Gen, parses};
use crate::sut;
use crate::tree::{self, E};
use air_r_syntax::RSyntaxKind as K;
use jarl_core::config::Config;
use jarl_core::diagnostic::Diagnostic;
use kit::{Ctx, Rng};
use serde_json::json;
use std::cell::Cell;

/// A term: a head and its parts, each with a name or none.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct T {
    h: String,
    a: Vec<(String, T)>,
}

const FORMALS: &[(&str, &str)] = &[
    ("any", "... na.rm"),
    ("all", "... na.rm"),
    ("is.na", "x"),
    ("is.nan", "x"),
    ("anyNA", "x recursive"),
    ("duplicated", "x incomparables ..."),
    ("anyDuplicated", "x incomparables ..."),
    ("length", "x"),
    ("levels", "x"),
    ("nlevels", "x"),
    ("names", "x"),
    ("typeof", "x"),
    ("class", "x"),
    ("is.null", "x"),
    ("is.numeric", "x"),
    ("is.integer", "x"),
    ("is.logical", "x"),
    ("is.double", "x"),
    ("is.complex", "x"),
    ("is.character", "x"),
    ("is.raw", "x"),
    ("is.list", "x"),
    ("is.symbol", "x"),
    ("is.expression", "x"),
    ("is.language", "x"),
    ("is.environment", "x"),
    ("is.pairlist", "x"),
    ("isTRUE", "x"),
    ("isFALSE", "x"),
    ("nrow", "x"),
    ("ncol", "x"),
    ("NROW", "x"),
    ("NCOL", "x"),
    ("which", "x arr.ind useNames"),
    ("grepl", "pattern x ignore.case perl fixed useBytes"),
    ("grep", "pattern x ignore.case perl value fixed useBytes invert"),
    ("grepv", "pattern x ignore.case perl value fixed useBytes invert"),
    ("sub", "pattern replacement x ignore.case perl fixed useBytes"),
    ("gsub", "pattern replacement x ignore.case perl fixed useBytes"),
    ("regexpr", "pattern text ignore.case perl fixed useBytes"),
    ("gregexpr", "pattern text ignore.case perl fixed useBytes"),
    ("regexec", "pattern text ignore.case perl fixed useBytes"),
    ("all.equal", "target current ..."),
    ("inherits", "x what which"),
    ("identical", "x y num.eq single.NA attrib.as.set ignore.bytecode ignore.environment ignore.srcref extptr.as.ref"),
    ("sapply", "X FUN ... simplify USE.NAMES"),
    ("vapply", "X FUN FUN.VALUE ... USE.NAMES"),
    ("map_int", ".x .f ... .progress"),
    ("map_dbl", ".x .f ... .progress"),
    ("lengths", "x use.names"),
    ("do.call", "what args quote envir"),
    ("list2DF", "x nrow"),
    ("apply", "X MARGIN FUN ... simplify"),
    ("rowSums", "x na.rm dims"),
    ("colSums", "x na.rm dims"),
    ("rowMeans", "x na.rm dims"),
    ("colMeans", "x na.rm dims"),
    ("ifelse", "test yes no"),
    ("fifelse", "test yes no na"),
    ("if_else", "condition true false missing ... ptype size"),
    ("sample", "x size replace prob"),
    ("sample.int", "n size replace prob useHash"),
    ("seq", "..."),
    ("seq_along", "along.with"),
    ("seq_len", "length.out"),
    ("order", "... na.last decreasing method"),
    ("sort", "x decreasing ..."),
    ("sprintf", "fmt ..."),
    ("substr", "x start stop"),
    ("substring", "text first last"),
    ("nchar", "x type allowNA keepNA"),
    ("startsWith", "x prefix"),
    ("endsWith", "x suffix"),
    ("system.file", "... package lib.loc mustWork"),
    ("file.path", "... fsep"),
    ("expect_equal", "object expected ... tolerance info label expected.label"),
    ("expect_identical", "object expected info label expected.label ..."),
    ("expect_true", "object info label"),
    ("expect_false", "object info label"),
    ("expect_null", "object info label"),
    ("expect_length", "object n"),
    ("expect_named", "object expected ignore.order ignore.case info label"),
    ("expect_match", "object regexp perl fixed ... all info label"),
    ("expect_no_match", "object regexp perl fixed ... all info label"),
    ("expect_s3_class", "object class exact"),
    ("expect_type", "object type"),
];

fn formals(f: &str) -> Option<Vec<&'static str>> {
    FORMALS.iter().find(|(n, _)| *n == f).map(|(_, s)| s.split(' ').collect())
}

fn t(h: &str, a: Vec<T>) -> T {
    T { h: h.into(), a: a.into_iter().map(|x| (String::new(), x)).collect() }
}

fn named(h: &str, a: Vec<(&str, T)>) -> T {
    T { h: h.into(), a: a.into_iter().map(|(n, x)| (n.to_string(), x)).collect() }
}

impl T {
    fn call(&self, f: &str) -> bool {
        self.h.strip_prefix("call ") == Some(f)
    }
    /// The matched argument.
    fn arg(&self, n: &str) -> Option<&T> {
        self.a.iter().find(|(m, _)| m == n).map(|(_, x)| x)
    }
    /// Arguments other than these.
    fn others(&self, n: &[&str]) -> usize {
        self.a.iter().filter(|(m, _)| !n.contains(&m.as_str())).count()
    }
    fn dots(&self) -> Vec<&(String, T)> {
        self.a.iter().filter(|(m, _)| m.starts_with("...")).collect()
    }
    fn is_true(&self) -> bool {
        self.h == "TRUE"
    }
    fn is_false(&self) -> bool {
        self.h == "FALSE"
    }
    fn one(&self) -> bool {
        self.h == "num 1" || self.h == "int 1"
    }
    fn number(&self) -> Option<f64> {
        self.h.strip_prefix("num ").or(self.h.strip_prefix("int ")).and_then(|x| x.parse().ok())
    }
    fn string(&self) -> Option<&str> {
        self.h.strip_prefix("str ")
    }
    fn constant(&self) -> bool {
        self.a.is_empty() && (["TRUE", "FALSE", "NULL", "NaN"].contains(&self.h.as_str()) || self.h.starts_with("NA") || self.is_na())
    }
    fn is_na(&self) -> bool {
        self.a.is_empty() && ["NA", "NA_integer_", "NA_real_", "NA_character_", "NA_complex_", "id NA_logical_"].contains(&self.h.as_str())
    }
    pub fn show(&self) -> String {
        if self.a.is_empty() {
            return self.h.clone();
        }
        let a: Vec<String> = self.a.iter().map(|(n, x)| if n.is_empty() { x.show() } else { format!("{n}={}", x.show()) }).collect();
        format!("{}({})", self.h, a.join(", "))
    }
}

#[derive(Default)]
pub struct Norm {
    /// R itself stops with an error here
    pub error: Cell<bool>,
    /// several documented equivalences fit and exclude each other
    pub unclear: Cell<bool>,
}

/// The value of a string literal.
pub fn string_value(lit: &str) -> String {
    let c: Vec<char> = lit.chars().collect();
    if c[0] == 'r' || c[0] == 'R' {
        let q = c.iter().skip(2).take_while(|x| **x == '-').count();
        return c[3 + q..c.len() - 2 - q].iter().collect();
    }
    let c = &c[1..c.len() - 1];
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] != '\\' {
            out.push(c[i]);
            i += 1;
            continue;
        }
        i += 1;
        let Some(&e) = c.get(i) else { break };
        i += 1;
        let code = |mut i: usize, radix: u32, max: usize| {
            let brace = c.get(i) == Some(&'{');
            if brace {
                i += 1;
            }
            let mut v = 0;
            let mut n = 0;
            while n < max
                && let Some(d) = c.get(i).and_then(|x| x.to_digit(radix))
            {
                v = v * radix + d;
                i += 1;
                n += 1;
            }
            if brace {
                i += 1;
            }
            (char::from_u32(v).unwrap_or('?'), i)
        };
        let (ch, next) = match e {
            'x' => code(i, 16, 2),
            'u' => code(i, 16, 4),
            'U' => code(i, 16, 8),
            '0'..='7' => code(i - 1, 8, 3),
            _ => (e, i),
        };
        i = next;
        match e {
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'r' => out.push('\r'),
            'a' => out.push('\u{7}'),
            'b' => out.push('\u{8}'),
            'f' => out.push('\u{c}'),
            'v' => out.push('\u{b}'),
            _ => out.push(ch),
        }
    }
    out
}

fn number(lit: &str) -> String {
    let (body, kind) = match lit.chars().last() {
        Some('L') => (&lit[..lit.len() - 1], "int"),
        Some('i') => (&lit[..lit.len() - 1], "cplx"),
        _ => (lit, "num"),
    };
    let v = if let Some(h) = body.strip_prefix("0x").or(body.strip_prefix("0X")) { u64::from_str_radix(h, 16).ok().map(|x| x as f64) } else { body.parse::<f64>().ok() };
    v.map_or(format!("{kind}? {body}"), |v| format!("{kind} {v}"))
}

fn unquote(s: &str) -> String {
    match s.chars().next() {
        Some('`') if s.len() > 2 => s[1..s.len() - 1].to_string(),
        Some('"' | '\'') => string_value(s),
        _ => s.to_string(),
    }
}

const TYPES: &[&str] =
    &["logical", "integer", "double", "complex", "character", "raw", "list", "null", "symbol", "expression", "language", "environment", "pairlist"];
const SIZE: &[&str] = &["length", "nrow", "ncol", "NROW", "NCOL", "nlevels"];
/// What class() says of things without a class attribute.
const IMPLICIT: &[&str] = &[
    "NULL", "symbol", "pairlist", "closure", "environment", "promise", "language", "special", "builtin", "char", "logical", "integer", "double", "complex", "character", "...", "any",
    "expression", "list", "externalptr", "bytecode", "weakref", "raw", "S4", "object", "numeric", "name", "matrix", "array", "function",
];

impl Norm {
    pub fn norm(&self, e: &E) -> T {
        let kid = |i: usize| self.norm(&e.kids[i]);
        match e.kind {
            K::R_PARENTHESIZED_EXPRESSION if e.kids.len() == 1 => kid(0),
            K::R_BRACED_EXPRESSIONS if e.kids.len() == 1 && e.kids[0].kids.len() == 1 => self.norm(&e.kids[0].kids[0]),
            K::R_IDENTIFIER => {
                let n = unquote(&e.toks[0]);
                match e.toks[0].as_str() {
                    "T" => t("TRUE", vec![]),
                    "F" => t("FALSE", vec![]),
                    _ => t(&format!("id {n}"), vec![]),
                }
            }
            K::R_TRUE_EXPRESSION => t("TRUE", vec![]),
            K::R_FALSE_EXPRESSION => t("FALSE", vec![]),
            K::R_NULL_EXPRESSION | K::R_NA_EXPRESSION | K::R_NAN_EXPRESSION | K::R_INF_EXPRESSION => t(&e.toks[0], vec![]),
            K::R_STRING_VALUE => t(&format!("str {}", string_value(&e.toks[0])), vec![]),
            K::R_DOUBLE_VALUE | K::R_INTEGER_VALUE | K::R_COMPLEX_VALUE => t(&number(&e.toks[0]), vec![]),
            K::R_EXTRACT_EXPRESSION => {
                // open ended, and nothing that R evaluates
                if e.kids.last().is_some_and(|m| matches!(m.kind, K::R_FUNCTION_DEFINITION | K::R_IF_STATEMENT | K::R_WHILE_STATEMENT | K::R_FOR_STATEMENT | K::R_REPEAT_STATEMENT)) {
                    self.unclear.set(true);
                }
                // the name on the right stands for itself
                let right = e.kids.get(1).map_or(t("", vec![]), |k| if k.kids.is_empty() && !k.toks.is_empty() { t(&format!("name {}", unquote(&k.toks[0])), vec![]) } else { self.norm(k) });
                t(&e.toks[0], vec![kid(0), right])
            }
            K::R_UNARY_EXPRESSION if e.toks[0] == "!" => self.not(kid(0)),
            K::R_BINARY_EXPRESSION => self.binary(e),
            K::R_CALL => self.call(e, None),
            K::R_SUBSET => {
                let x = kid(0);
                let args = self.args(&e.kids[1]);
                if let [(n, o)] = &args[..]
                    && n.is_empty()
                    && o.call("order")
                    && let [(_, d)] = o.dots()[..]
                    && *d == x
                {
                    let mut a: Vec<(String, T)> = o.a.iter().filter(|(m, _)| !m.starts_with("...")).cloned().collect();
                    a.push(("x".into(), x));
                    return self.canonical("sort", a);
                }
                let mut a = vec![(String::new(), x)];
                a.extend(args);
                T { h: "[".into(), a }
            }
            K::R_IF_STATEMENT => {
                let c = self.cond(kid(0));
                let yes = kid(1);
                let Some(no) = e.kids.get(2).map(|k| self.norm(&k.kids[0])) else {
                    if yes.h == "if" && yes.a.len() == 2 {
                        return t("if", vec![self.and(c, yes.a[0].1.clone()), yes.a[1].1.clone()]);
                    }
                    return t("if", vec![c, yes]);
                };
                if c.call("is.null") && c.a.len() == 1 && c.a[0].1 == no {
                    return t("%||%", vec![no, yes]);
                }
                if c.h == "!" && c.a[0].1.call("is.null") && c.a[0].1.a.len() == 1 && c.a[0].1.a[0].1 == yes {
                    return t("%||%", vec![yes, no]);
                }
                t("if", vec![c, yes, no])
            }
            K::R_WHILE_STATEMENT => {
                let c = self.cond(kid(0));
                if c.is_true() { t("repeat", vec![kid(1)]) } else { t("while", vec![c, kid(1)]) }
            }
            K::R_REPEAT_STATEMENT => t("repeat", vec![kid(0)]),
            _ => t(&format!("{:?} {}", e.kind, e.toks.join(" ")), e.kids.iter().map(|k| self.norm(k)).collect()),
        }
    }

    fn and(&self, a: T, b: T) -> T {
        if a.h == "&&" {
            let b = self.and(a.a[1].1.clone(), b);
            return self.and(a.a[0].1.clone(), b);
        }
        t("&&", vec![a, b])
    }

    fn cond(&self, c: T) -> T {
        if c.call("all.equal") {
            return named("call isTRUE", vec![("x", c)]);
        }
        if c.h == "&&" {
            return self.and(self.cond(c.a[0].1.clone()), self.cond(c.a[1].1.clone()));
        }
        c
    }

    fn not(&self, x: T) -> T {
        if x.constant() {
            self.unclear.set(true);
        }
        let flip = match x.h.as_str() {
            "<" => ">=",
            ">" => "<=",
            "<=" => ">",
            ">=" => "<",
            "==" => "!=",
            "!=" => "==",
            "!" => return x.a[0].1.clone(),
            _ => return t("!", vec![self.cond(x)]),
        };
        T { h: flip.into(), a: x.a }
    }

    fn compare(&self, op: &str, l: T, r: T) -> T {
        let neg = |x: T| if op == "!=" { self.not(x) } else { x };
        let of = |f: &str, x: &T| neg(named(&format!("call {f}"), vec![("x", x.clone())]));
        if l.constant() && r.constant() {
            self.unclear.set(true);
        }
        for (x, k) in [(&l, &r), (&r, &l)] {
            if k.constant() && (x.call("substr") || x.call("substring")) {
                self.unclear.set(true);
            }
            if k.is_na() {
                return of("is.na", x);
            }
            if k.h == "NaN" {
                return of("is.nan", x);
            }
            if k.h == "NULL" {
                return of("is.null", x);
            }
            if (k.is_true() || k.is_false()) && (x.call("all.equal") || x.call("nchar")) {
                self.unclear.set(true);
            }
            if k.is_true() {
                return neg(x.clone());
            }
            if k.is_false() {
                return neg(self.not(x.clone()));
            }
            if k.string().is_some() && x.call("class") && x.a.len() == 1 {
                return neg(named("call inherits", vec![("what", k.clone()), ("x", x.a[0].1.clone())]));
            }
        }
        for (x, k) in [(&l, &r), (&r, &l)] {
            let (text, start, stop) = if x.call("substr") && x.a.len() == 3 {
                (x.arg("x"), x.arg("start"), x.arg("stop"))
            } else if x.call("substring") && x.a.len() == 3 {
                (x.arg("text"), x.arg("first"), x.arg("last"))
            } else {
                continue;
            };
            let (Some(text), Some(start), Some(stop)) = (text, start, stop) else { continue };
            let n = k.string().map(|s| s.chars().count() as f64);
            let to_end = stop.call("nchar") && stop.a.len() == 1 && stop.a[0].1 == *text;
            if start.one() && !to_end && stop.number().is_none_or(|s| n.is_none_or(|n| n == s)) {
                return neg(named("call startsWith", vec![("prefix", k.clone()), ("x", text.clone())]));
            }
            let back = if start == stop {
                Some(0.0)
            } else if start.h == "-" && start.a.len() == 2 && start.a[0].1 == *stop {
                start.a[1].1.number()
            } else {
                None
            };
            let fits = match (back, n) {
                (Some(b), Some(n)) => b + 1.0 == n,
                // a fixed start is taken for the end as well: the project's own tests say so
                _ => !start.one(),
            };
            if to_end && fits {
                return neg(named("call endsWith", vec![("suffix", k.clone()), ("x", text.clone())]));
            }
            break;
        }
        t(op, vec![l, r])
    }

    fn binary(&self, e: &E) -> T {
        let op = e.toks[0].as_str();
        if op == "|>" || op == "%>%" {
            let r = &e.kids[1];
            if r.kind == K::R_CALL {
                let l = self.norm(&e.kids[0]);
                let list = e.kids[1].kids.get(1).and_then(|k| k.kids.first());
                let hole = |h: &str| list.is_some_and(|l| l.kids.iter().any(|a| a.kids.last().is_some_and(|v| v.kind == K::R_IDENTIFIER && v.toks[0] == h || h == "." && v.toks == ["."])));
                // what `.` within an argument means depends on whether another argument is `.`
                let mut dots = 0;
                e.kids[1].walk(&mut |x| dots += usize::from(x.kind == K::R_IDENTIFIER && x.toks == ["."] || x.toks == ["."] && x.kids.is_empty()));
                let direct = list.map_or(0, |l| l.kids.iter().filter(|a| a.kids.last().is_some_and(|v| v.toks == ["."])).count());
                if op == "%>%" && dots > direct {
                    self.unclear.set(true);
                }
                if op == "|>" && hole("_") {
                    return self.call(r, Some(("_", l)));
                }
                if op == "%>%" && hole(".") {
                    return self.call(r, Some((".", l)));
                }
                return self.call(r, Some(("", l)));
            }
            // an error with |>, a call of the operator with %>%
            self.error.set(true);
        }
        let target = |e: &E| {
            // an assignment to T makes it something else
            if e.kind == K::R_IDENTIFIER {
                return t(&format!("id {}", unquote(&e.toks[0])), vec![]);
            }
            let x = self.norm(e);
            // R refuses it
            if x.constant() {
                self.unclear.set(true);
            }
            x
        };
        match op {
            "<-" | "=" => return t("<-", vec![target(&e.kids[0]), self.norm(&e.kids[1])]),
            "->" => return t("<-", vec![target(&e.kids[1]), self.norm(&e.kids[0])]),
            "<<-" => return t("<<-", vec![target(&e.kids[0]), self.norm(&e.kids[1])]),
            "->>" => return t("<<-", vec![target(&e.kids[1]), self.norm(&e.kids[0])]),
            _ => {}
        }
        let (l, r) = (self.norm(&e.kids[0]), self.norm(&e.kids[1]));
        match op {
            "&&" => self.and(l, r),
            "==" | "!=" => self.compare(op, l, r),
            "**" => t("^", vec![l, r]),
            "%in%" => {
                if l.constant() && r.constant() {
                    self.unclear.set(true);
                }
                if l.is_na() {
                    return named("call anyNA", vec![("x", r)]);
                }
                for (f, k) in [("is.nan", "NaN"), ("is.null", "NULL")] {
                    if r.h == k {
                        return named(&format!("call {f}"), vec![("x", l)]);
                    }
                    if l.h == k {
                        return named(&format!("call {f}"), vec![("x", r)]);
                    }
                }
                if r.is_na() {
                    return named("call is.na", vec![("x", l)]);
                }
                for (x, k) in [(&l, &r), (&r, &l)] {
                    if k.string().is_some() && x.call("class") && x.a.len() == 1 {
                        return named("call inherits", vec![("what", k.clone()), ("x", x.a[0].1.clone())]);
                    }
                }
                t(op, vec![l, r])
            }
            "||" => {
                for (a, b) in [(&l, &r), (&r, &l)] {
                    if a.call("is.numeric") && b.call("is.integer") && a.a.len() == 1 && a.a == b.a {
                        return a.clone();
                    }
                }
                t(op, vec![l, r])
            }
            ":" if l.one() && SIZE.iter().any(|f| r.call(f)) => named("call seq_len", vec![("length.out", r)]),
            _ => t(op, vec![l, r]),
        }
    }

    /// The arguments in a pair of brackets.
    fn args(&self, e: &E) -> Vec<(String, T)> {
        let Some(list) = e.kids.first() else { return vec![] };
        list.kids
            .iter()
            .map(|a| {
                let name = a.kids.iter().find(|k| k.kind == K::R_ARGUMENT_NAME_CLAUSE).and_then(|k| k.kids.first()).map_or(String::new(), |k| unquote(&k.toks[0]));
                let value = a.kids.iter().find(|k| k.kind != K::R_ARGUMENT_NAME_CLAUSE).map_or(t("empty", vec![]), |k| self.norm(k));
                (name, value)
            })
            .collect()
    }

    fn call(&self, e: &E, piped: Option<(&str, T)>) -> T {
        let f = &e.kids[0];
        let f = if f.kind == K::R_NAMESPACE_EXPRESSION && f.kids.len() == 2 { &f.kids[1] } else { f };
        let mut args = self.args(&e.kids[1]);
        match piped {
            Some(("", x)) => args.insert(0, (String::new(), x)),
            Some((hole, x)) => {
                for (_, a) in &mut args {
                    if a.h == format!("id {hole}") || a.h.ends_with(&format!(" {hole}")) {
                        *a = x.clone();
                    }
                }
            }
            None => {}
        }
        if f.kind != K::R_IDENTIFIER {
            let fun = self.norm(f);
            if let Some(n) = fun.h.strip_prefix("id ") {
                // is this the length of the string? The linter does not look into the parentheses
                if n == "nchar" {
                    self.unclear.set(true);
                }
                return self.canonical_of(n, args);
            }
            // not a function
            if fun.constant() || f.kind == K::R_CALL && fun.h.starts_with("R_NAMESPACE") {
                self.error.set(true);
            }
            let mut a = vec![("fun".to_string(), fun)];
            a.extend(args);
            return T { h: "apply".into(), a };
        }
        self.canonical_of(&unquote(&f.toks[0]), args)
    }

    /// Arguments matched to formals as R does.
    fn matched(&self, f: &str, args: Vec<(String, T)>) -> Vec<(String, T)> {
        let Some(fs) = formals(f) else { return args };
        let dots = fs.iter().position(|x| *x == "...");
        let mut got: Vec<Option<&str>> = vec![None; args.len()];
        for (i, (n, v)) in args.iter().enumerate() {
            if v.h == "empty" {
                self.error.set(true);
            }
            if !n.is_empty() && n != "..." && fs.contains(&n.as_str()) {
                if got.contains(&fs.iter().find(|x| *x == n).copied()) {
                    self.error.set(true);
                }
                got[i] = fs.iter().find(|x| *x == n).copied();
            }
        }
        let primitive = ["any", "all", "is.na", "length", "levels", "class", "is.null", "is.numeric", "seq_along", "seq_len"].contains(&f);
        for (i, (n, _)) in args.iter().enumerate() {
            if !n.is_empty() && got[i].is_none() && !primitive {
                let fit: Vec<&str> = fs[..dots.unwrap_or(fs.len())].iter().filter(|x| x.starts_with(n.as_str()) && !got.contains(&Some(**x))).copied().collect();
                if fit.len() == 1 {
                    got[i] = Some(fit[0]);
                }
            }
        }
        let mut free: Vec<&str> = fs[..dots.unwrap_or(fs.len())].iter().filter(|x| !got.contains(&Some(**x))).copied().collect();
        free.reverse();
        let mut out = vec![];
        for (i, (n, v)) in args.into_iter().enumerate() {
            if let Some(g) = got[i] {
                out.push((g.to_string(), v));
            } else if n.is_empty() && !free.is_empty() {
                out.push((free.pop().unwrap().to_string(), v));
            } else if dots.is_some() {
                out.push((format!("...{n}"), v));
            } else {
                self.error.set(true);
                out.push((format!("?{n}"), v));
            }
        }
        if fs[0] != "..." && !out.iter().any(|(n, _)| n == fs[0]) {
            self.error.set(true);
        }
        // the order of named arguments means nothing, that of the rest does
        let (mut a, d): (Vec<_>, Vec<_>) = out.into_iter().partition(|(n, _)| !n.starts_with("..."));
        a.sort();
        a.extend(d);
        a
    }

    fn canonical_of(&self, f: &str, args: Vec<(String, T)>) -> T {
        let a = self.matched(f, args);
        self.canonical(f, a)
    }

    /// A call with matched arguments.
    fn canonical(&self, f: &str, mut a: Vec<(String, T)>) -> T {
        a.sort_by(|x, y| match (x.0.starts_with("..."), y.0.starts_with("...")) {
            (false, false) => x.cmp(y),
            (p, q) => p.cmp(&q),
        });
        let c = T { h: format!("call {f}"), a };
        let arg = |n: &str| c.arg(n).cloned();
        match f {
            "all" | "any" => {
                let d = c.dots();
                if d.len() != 1 {
                    return c;
                }
                let x = d[0].1.clone();
                // a negation of it is one of isTRUE() as well
                let inner = if x.h == "!" { &x.a[0].1 } else { &x };
                if inner.call("all.equal") || inner.call("isTRUE") && inner.arg("x").is_some_and(|y| y.call("all.equal")) {
                    self.unclear.set(true);
                }
                if c.a.len() == 1 && f == "all" {
                    let inner = self.canonical("any", vec![("...".into(), self.not(x))]);
                    return self.not(inner);
                }
                if f == "any" && x.call("is.na") {
                    return T { h: "call anyNA".into(), a: x.a };
                }
                if f == "any" && x.call("duplicated") {
                    return t(">", vec![T { h: "call anyDuplicated".into(), a: x.a }, t("num 0", vec![])]);
                }
                T { h: c.h.clone(), a: c.a.iter().map(|(n, v)| (if n.starts_with("...") { "...".into() } else { n.clone() }, v.clone())).collect() }
            }
            "length" if c.arg("x").is_some_and(|x| x.call("levels")) => T { h: "call nlevels".into(), a: c.arg("x").unwrap().a.clone() },
            "which" if c.a.len() == 1 && c.arg("x").is_some_and(|x| x.call("grepl")) => self.canonical("grep", c.a[0].1.a.clone()),
            "grepv" => {
                let mut a = c.a.clone();
                if c.arg("value").is_none() {
                    a.push(("value".into(), t("TRUE", vec![])));
                }
                self.canonical("grep", a)
            }
            "grepl" | "grep" | "sub" | "gsub" | "regexpr" | "gregexpr" | "regexec" => {
                let mut a: Vec<(String, T)> = c.a.iter().filter(|(n, v)| !(v.is_false() && ["ignore.case", "perl", "value", "fixed", "useBytes", "invert"].contains(&n.as_str()))).cloned().collect();
                let plain = c.arg("pattern").and_then(|p| p.string()).is_some_and(|p| !p.chars().any(|x| ".*+?[{()|^$\\".contains(x)) && !(p.is_empty() && !f.starts_with("grep")));
                let same = c.arg("replacement").and_then(|p| p.string()).is_none_or(|p| !p.contains('\\'));
                if plain && same && !a.iter().any(|(n, _)| n == "ignore.case" || n == "fixed") {
                    a.push(("fixed".into(), t("TRUE", vec![])));
                    a.sort();
                }
                T { h: c.h, a }
            }
            "isFALSE" if c.arg("x").is_some_and(|x| x.call("all.equal")) => self.not(c.a[0].1.clone()),
            "identical" if c.a.len() == 2 => {
                if let (Some(x), Some(y)) = (arg("x"), arg("y")) {
                    for (x, k) in [(&x, &y), (&y, &x)] {
                        if k.string().is_some() && x.call("class") && x.a.len() == 1 {
                            return named("call inherits", vec![("what", k.clone()), ("x", x.a[0].1.clone())]);
                        }
                    }
                }
                c
            }
            "sapply" if c.a.len() == 2 && c.arg("FUN").is_some_and(|x| x.h == "id length") && arg("X").is_some() => named("call lengths", vec![("x", arg("X").unwrap())]),
            "vapply" if c.others(&["X", "FUN", "FUN.VALUE"]) == 0 && c.arg("FUN").is_some_and(|x| x.h == "id length") && arg("X").is_some() => named("call lengths", vec![("x", arg("X").unwrap())]),
            "map_int" | "map_dbl" if c.a.len() == 2 && c.arg(".f").is_some_and(|x| x.h == "id length") && arg(".x").is_some() => named("call lengths", vec![("x", arg(".x").unwrap())]),
            "do.call" if c.a.len() == 2 && c.arg("what").is_some_and(|x| x.h == "id cbind.data.frame" || x.h == "str cbind.data.frame") && arg("args").is_some() => named("call list2DF", vec![("x", arg("args").unwrap())]),
            "apply" => {
                let d = c.dots();
                let rest = c.others(&["X", "MARGIN", "FUN"]);
                let rows = match c.arg("MARGIN").and_then(|m| m.number()) {
                    Some(m) if m == 1.0 => "row",
                    Some(m) if m == 2.0 => "col",
                    _ => return c,
                };
                let what = match c.arg("FUN").map(|x| x.h.as_str()) {
                    Some("id mean") => "Means",
                    Some("id sum") => "Sums",
                    _ => return c,
                };
                let Some(x) = arg("X") else { return c };
                if rest == 0 {
                    named(&format!("call {rows}{what}"), vec![("x", x)])
                } else if rest == 1 && d.len() == 1 && d[0].0 == "...na.rm" {
                    self.canonical(&format!("{rows}{what}"), vec![("na.rm".into(), d[0].1.clone()), ("x".into(), x)])
                } else {
                    c
                }
            }
            "ifelse" | "fifelse" | "if_else" if c.a.len() == 3 => {
                let (x, y, n) = if f == "if_else" { (arg("condition"), arg("true"), arg("false")) } else { (arg("test"), arg("yes"), arg("no")) };
                match (x, y, n) {
                    (Some(x), Some(y), Some(n)) if y.is_true() && n.is_false() => x,
                    (Some(x), Some(y), Some(n)) if y.is_false() && n.is_true() => self.not(x),
                    _ => c,
                }
            }
            "sample" => {
                let n = match c.arg("x") {
                    Some(x) if x.h == ":" && x.a[0].1.one() => x.a[1].1.clone(),
                    Some(x) if x.call("seq_len") && x.a.len() == 1 => x.a[0].1.clone(),
                    _ => return c,
                };
                let mut a: Vec<(String, T)> = c.a.iter().filter(|(n, _)| n != "x").cloned().collect();
                a.push(("n".into(), n));
                self.canonical("sample.int", a)
            }
            "seq" if c.a.len() == 1 && (c.a[0].0 == "..." || c.a[0].0 == "...from") && SIZE.iter().any(|f| c.a[0].1.call(f)) => named("call seq_len", vec![("length.out", c.a[0].1.clone())]),
            "seq_along" if c.a.len() == 1 => named("call seq_len", vec![("length.out", self.canonical("length", vec![("x".into(), c.a[0].1.clone())]))]),
            "sort" => T { h: c.h, a: { let mut a: Vec<_> = c.a.into_iter().map(|(n, v)| (n.strip_prefix("...").filter(|n| !n.is_empty()).map_or(n.clone(), |n| n.to_string()), v)).collect(); a.sort(); a } },
            "sprintf" => {
                if let Some(s) = c.arg("fmt").and_then(|x| x.string()) {
                    let rest = s.replace("%%", "");
                    if rest.split('%').skip(1).any(|r| r.starts_with(char::is_whitespace)) {
                        self.unclear.set(true);
                    }
                    if c.a.len() == 1 && !rest.contains('%') {
                        return t(&format!("str {}", s.replace("%%", "%")), vec![]);
                    }
                }
                c
            }
            "system.file" | "file.path" if f == "system.file" || c.arg("fsep").is_none() => {
                let mut a = vec![];
                for (n, v) in &c.a {
                    if n == "..." && v.call("file.path") && v.arg("fsep").is_none() && !v.a.is_empty() {
                        a.extend(v.a.iter().cloned());
                    } else {
                        a.push((n.clone(), v.clone()));
                    }
                }
                T { h: c.h, a }
            }
            "expect_equal" | "expect_identical" => self.expect_equal(c),
            "expect_named" if c.a.len() == 2 && c.arg("expected").is_some_and(|x| x.h == "NULL") => named("call expect_null", vec![("object", named("call names", vec![("x", arg("object").unwrap_or(t("", vec![])))]))]),
            "expect_true" | "expect_false" => {
                let Some(o) = arg("object") else { return c };
                let o = self.cond(o);
                let positive = f == "expect_true";
                let with = |f: &str, o: T| {
                    let mut a: Vec<(String, T)> = c.a.iter().filter(|(n, _)| n != "object").cloned().collect();
                    a.push(("object".into(), o));
                    a.sort();
                    T { h: format!("call {f}"), a }
                };
                let (o, positive) = match o.h.as_str() {
                    "!" => (o.a[0].1.clone(), !positive),
                    "<" | ">" | "<=" | ">=" | "==" | "!=" if !positive => (self.not(o), true),
                    _ => (o, positive),
                };
                if o.call("grepl") && c.a.len() == 1 {
                    let mut a = vec![];
                    for (n, v) in &o.a {
                        a.push((match n.as_str() { "x" => "object".into(), "pattern" => "regexp".into(), n @ ("perl" | "fixed") => n.to_string(), n => format!("...{n}") }, v.clone()));
                    }
                    return self.canonical(if positive { "expect_match" } else { "expect_no_match" }, a);
                }
                if positive && o.call("is.null") && o.a.len() == 1 {
                    return with("expect_null", o.a[0].1.clone());
                }
                for ty in TYPES {
                    if positive && o.call(&format!("is.{ty}")) && o.a.len() == 1 && c.a.len() == 1 {
                        return named("call expect_type", vec![("object", o.a[0].1.clone()), ("type", t(&format!("str {}", if *ty == "null" { "NULL" } else { ty }), vec![]))]);
                    }
                }
                with(if positive { "expect_true" } else { "expect_false" }, o)
            }
            "expect_type" if c.a.len() == 2 && c.arg("type").is_some_and(|x| x.h == "str NULL") => named("call expect_null", vec![("object", arg("object").unwrap_or(t("", vec![])))]),
            "expect_match" | "expect_no_match" => {
                let mut a = c.a.clone();
                // the rest goes on to grepl()
                for (n, _) in &mut a {
                    if let Some(m) = n.strip_prefix("...").filter(|m| !m.is_empty()) {
                        let fit: Vec<&str> = ["ignore.case", "useBytes"].into_iter().filter(|f| f.starts_with(m)).collect();
                        if fit.len() == 1 {
                            *n = format!("...{}", fit[0]);
                        }
                    }
                }
                a.retain(|(n, v)| !(v.is_false() && ["...ignore.case", "perl", "fixed", "...useBytes"].contains(&n.as_str())));
                let plain = c.arg("regexp").and_then(|p| p.string()).is_some_and(|p| !p.chars().any(|x| ".*+?[{()|^$\\".contains(x)));
                if plain && !a.iter().any(|(n, _)| n == "...ignore.case" || n == "fixed") {
                    a.push(("fixed".into(), t("TRUE", vec![])));
                }
                a.sort();
                T { h: c.h, a }
            }
            _ => c,
        }
    }

    fn expect_equal(&self, c: T) -> T {
        let (Some(x), Some(y)) = (c.arg("object").cloned(), c.arg("expected").cloned()) else { return c };
        let about = |x: &T| ["length", "names", "class", "typeof", "nlevels"].iter().any(|f| x.call(f));
        if (x.constant() && y.constant()) || (about(&x) && (about(&y) || y.constant()) || (about(&y) && x.constant())) {
            self.unclear.set(true);
        }
        let alone = c.a.len() == 2;
        let told = c.others(&["object", "expected", "info", "label"]) == 0;
        let with = |f: &str, o: &T| {
            let mut a: Vec<(String, T)> = c.a.iter().filter(|(n, _)| n != "object" && n != "expected").cloned().collect();
            a.push(("object".into(), o.clone()));
            self.canonical(f, a)
        };
        for (x, y) in [(&x, &y), (&y, &x)] {
            if told && y.h == "NULL" {
                return with("expect_null", x);
            }
            if told && y.is_true() {
                return with("expect_true", x);
            }
            if told && y.is_false() {
                return with("expect_false", x);
            }
            if alone && x.call("length") && x.a.len() == 1 {
                return named("call expect_length", vec![("n", y.clone()), ("object", x.a[0].1.clone())]);
            }
            if alone && x.call("nlevels") && x.a.len() == 1 {
                return named("call expect_length", vec![("n", y.clone()), ("object", named("call levels", vec![("x", x.a[0].1.clone())]))]);
            }
            if alone && x.call("typeof") && x.a.len() == 1 {
                return named("call expect_type", vec![("object", x.a[0].1.clone()), ("type", y.clone())]);
            }
            if alone && x.call("class") && x.a.len() == 1 && y.string().is_some_and(|s| !IMPLICIT.contains(&s)) {
                return named("call expect_s3_class", vec![("class", y.clone()), ("object", x.a[0].1.clone())]);
            }
        }
        if told && x.call("names") && x.a.len() == 1 {
            let mut a: Vec<(String, T)> = c.a.iter().filter(|(n, _)| n != "object" && n != "expected").cloned().collect();
            a.push(("object".into(), x.a[0].1.clone()));
            a.push(("expected".into(), y.clone()));
            a.sort();
            return T { h: "call expect_named".into(), a };
        }
        c
    }
}

/// The normal form of a text, or none if R rejects it or it is not clear.
fn normal(text: &str) -> Option<(T, bool)> {
    let e = tree::parse(text)?;
    let n = Norm::default();
    let t = n.norm(&e);
    if n.unclear.get() {
        return None;
    }
    Some((t, n.error.get()))
}

fn differ(a: &T, b: &T) -> (String, String) {
    if a.h == b.h && a.a.len() == b.a.len() && a.a.iter().zip(&b.a).all(|(x, y)| x.0 == y.0) {
        let d: Vec<_> = a.a.iter().zip(&b.a).filter(|(x, y)| x != y).collect();
        if let [(x, y)] = d[..] {
            return differ(&x.1, &y.1);
        }
    }
    (a.show(), b.show())
}

/// A fix that makes other code of it; counts the fixes seen.
fn bad(text: &str, cfg: &Config, seen: &mut Vec<String>) -> Option<(String, String)> {
    let Some((before, false)) = normal(text) else { return None };
    // numbers that are not written as such are not taken for numbers
    let mut braced = false;
    let number = |n: &E| matches!(n.kind, K::R_DOUBLE_VALUE | K::R_INTEGER_VALUE);
    if let Some(e) = tree::parse(text) {
        e.walk(&mut |x| {
            braced |= match x.kind {
                K::R_BRACED_EXPRESSIONS => matches!(x.kids.as_slice(), [l] if l.kids.len() == 1 && number(&l.kids[0])),
                K::R_PARENTHESIZED_EXPRESSION | K::R_UNARY_EXPRESSION => x.kids.iter().any(number),
                K::R_INTEGER_VALUE => x.toks[0].contains(['.', 'e', 'x']),
                _ => false,
            }
        });
    }
    let ds = sut::lint(text, cfg).ok()?;
    for d in ds.iter().filter(|d| sut::has_fix(d) && d.message.name != "length_test") {
        let after = format!("{}{}{}", &text[..d.fix.start], d.fix.content, &text[d.fix.end..]);
        if d.message.name == "string_boundary" {
            // nor is anything that R would make a number or a string of
            let at = sut_text(text, d);
            let n = |p: &str| at.matches(p).count();
            if braced || n("==") + n("!=") != 1 || n("!") != n("!=") || ["{", "|>", "%>%", "sprintf"].iter().any(|p| n(p) > 0) || n("substr") > 1 {
                continue;
            }
        }
        seen.push(d.message.name.clone());
        // code that does not parse is C24's concern
        let Some(e) = tree::parse(&after) else { continue };
        let n = Norm::default();
        let got = n.norm(&e);
        // a comparison of a constant with something else never comes out as a constant
        if d.message.name == "redundant_equals" && ["TRUE", "FALSE"].contains(&d.fix.content.trim_start_matches('!')) {
            return Some((d.message.name.clone(), format!("`{}` becomes the constant `{}`", sut_text(text, d), d.fix.content)));
        }
        if n.unclear.get() {
            continue;
        }
        if n.error.get() {
            return Some((d.message.name.clone(), format!("R rejects the arguments of the code after the fix of {}: `{}` becomes `{}`", d.message.name, sut_text(text, d), d.fix.content)));
        }
        if got != before {
            let (x, y) = differ(&before, &got);
            let mut class = d.message.name.clone();
            if class == "grepv" && named_value_and_more(sut_text(text, d)) {
                class = "grepv with `value` by name and five or more other arguments".into();
            }
            return Some((class, format!("the fix of {} changes what the code is: `{}` becomes `{}`, that is {} becomes {}", d.message.name, sut_text(text, d), d.fix.content, kit::clip(&x, 300), kit::clip(&y, 300))));
        }
    }
    None
}

/// A call with an argument named `value` and five or more without a name.
fn named_value_and_more(call: &str) -> bool {
    let Some(e) = tree::parse(call) else { return false };
    let mut found = false;
    e.walk(&mut |x| {
        if x.kind == K::R_ARGUMENT_LIST {
            let named = |a: &E| a.kids.first().is_some_and(|k| k.kind == K::R_ARGUMENT_NAME_CLAUSE);
            let by_name = x.kids.iter().any(|a| named(a) && a.kids[0].kids.first().is_some_and(|n| n.toks.first().is_some_and(|t| t == "value")));
            found |= by_name && x.kids.len() > 5;
        }
    });
    found
}

fn sut_text<'a>(text: &'a str, d: &Diagnostic) -> &'a str {
    &text[d.fix.start..d.fix.end]
}

/// Programs made for the rules, with arguments in all the ways R lets one write them.
struct W<'a> {
    r: &'a mut Rng,
    g: &'a Gen,
}

impl W<'_> {
    fn pick(&mut self, a: &[&str]) -> String {
        self.r.pick(a).to_string()
    }

    fn value(&mut self, depth: usize) -> String {
        if depth > 0 && self.r.chance(1, 3) {
            return self.piece(depth - 1);
        }
        match self.r.below(12) {
            0..=4 => self.pick(&["x", "y", "z", "df", "foo", "a.b", "`my var`", "été"]),
            5 => self.pick(&["f(x)", "f(a, b = 1)", "x$y", "x[[1]]", "x[1, ]", "pkg::f(x)", "obj$m(x)", "x@y", "f()(x)"]),
            6 => self.pick(&["a + b", "-x", "!x", "(a + b)", "~ x", "a:b", "x %in% y", "a <- b", "function(x) x", "\\(i) i + 1", "a && b", "x |> f()", "a %>% g(.)", "?x", "if (a) b else c", "{ x }"]),
            7 => self.pick(&["TRUE", "FALSE", "NULL", "NA", "T", "F", "NaN", "Inf", "NA_character_"]),
            8 => self.pick(&["1", "1L", "2", "2L", ".5", "10", "0x1", "1.0", "3i"]),
            9 => self.pick(&["\"a\"", "'abc'", "\"\"", "\"a.c\"", "'^a'", "r\"(abc)\"", "'100%%'", "\"%s\"", "\"été\"", "'a\\\\b'", "\"\\n\"", "\"it's\"", "'a\"b'"]),
            10 => self.pick(&["c(1, 2)", "list(a = 1)", "c('a', 'b')", "integer(1)", "...", "..1"]),
            _ => self.g.expr(self.r, 0),
        }
    }

    /// A call with these arguments given by name or place, perhaps others, perhaps piped.
    fn call(&mut self, f: &str, given: &[(&str, String)]) -> String {
        let fs = formals(f).unwrap_or_default();
        let mut given: Vec<(String, String)> = given.iter().map(|(n, v)| (n.to_string(), v.clone())).collect();
        if self.r.chance(1, 4) {
            match self.r.below(5) {
                0 | 1 if !fs.is_empty() => {
                    let n = *self.r.pick(&fs);
                    if n != "..." && !given.iter().any(|(m, _)| m == n) {
                        let v = if self.r.chance(1, 2) { self.pick(&["TRUE", "FALSE", "T", "F"]) } else { self.value(0) };
                        given.push((n.to_string(), v));
                    } else {
                        let v = self.value(0);
                        given.push(("...".into(), v));
                    }
                }
                2 => {
                    let v = self.value(0);
                    given.push(("...".into(), v));
                }
                3 => {
                    let (n, v) = (self.pick(&["na.rm", "foo", "label", "info", "x", "n", "value", "fixed", "trim"]), self.value(0));
                    given.push((format!("={n}"), v));
                }
                _ => given.push(("...".into(), "...".into())),
            }
        }
        // those that can stand without a name do or not
        let by_name = self.r.below(4) == 0;
        let mut placed: Vec<String> = vec![];
        let mut rest: Vec<String> = vec![];
        let mut open = true;
        for formal in &fs {
            if *formal == "..." {
                for (_, v) in given.iter().filter(|(n, _)| n == "...") {
                    placed.push(v.clone());
                }
                open = false;
                continue;
            }
            let Some((n, v)) = given.iter().find(|(n, _)| n == formal) else {
                open = false;
                continue;
            };
            if open && !(by_name && self.r.chance(1, 2)) {
                placed.push(v.clone());
            } else {
                let n = if self.r.chance(1, 25) && n.len() > 3 { n[..n.len() - 1].to_string() } else if self.r.chance(1, 30) { format!("\"{n}\"") } else { n.clone() };
                rest.push(format!("{n} = {v}"));
            }
        }
        if !fs.contains(&"...") {
            placed.extend(given.iter().filter(|(n, _)| n == "...").map(|(_, v)| v.clone()));
        }
        rest.extend(given.iter().filter(|(n, _)| n.starts_with('=')).map(|(n, v)| format!("{} = {v}", &n[1..])));
        let mut args = placed.clone();
        for a in rest {
            let at = if self.r.chance(2, 3) { args.len() } else { self.r.below(args.len() + 1) };
            args.insert(at, a);
        }
        let f = match self.r.below(12) {
            0 => format!("base::{f}"),
            1 => format!("{}::{f}", self.pick(&["pkg", "testthat", "dplyr", "purrr"])),
            _ => f.to_string(),
        };
        if self.r.chance(1, 6) && !args.is_empty() && args[0] == *placed.first().unwrap_or(&String::new()) {
            let first = args.remove(0);
            let op = self.pick(&["|>", "|>", "%>%"]);
            let lhs = if first.chars().all(|c| c.is_alphanumeric()) || first.ends_with(')') && !first.contains(' ') { first } else { format!("({first})") };
            if self.r.chance(1, 4) && op == "|>" && !fs.is_empty() && fs[0] != "..." {
                args.insert(self.r.below(args.len() + 1), format!("{} = _", fs[0]));
            } else if self.r.chance(1, 4) && op == "%>%" {
                args.insert(0, ".".into());
            }
            return format!("{lhs} {op} {f}({})", args.join(", "));
        }
        format!("{f}({})", args.join(", "))
    }

    fn flag(&mut self) -> String {
        match self.r.below(8) {
            0..=3 => "TRUE".into(),
            4 | 5 => "FALSE".into(),
            _ => self.value(0),
        }
    }

    /// Code that a rule is about.
    fn piece(&mut self, depth: usize) -> String {
        let x = self.value(depth);
        let y = self.value(depth);
        let atom = |s: &str| if s.chars().all(|c| c.is_alphanumeric() || c == '.' || c == '_') || s.ends_with(')') && !s.contains(' ') { s.to_string() } else { format!("({s})") };
        let (ax, ay) = (atom(&x), atom(&y));
        match self.r.below(36) {
            0 => {
                let f = self.pick(&["is.na", "duplicated"]);
                let i = self.call(&f, &[("x", x)]);
                self.call("any", &[("...", i)])
            }
            1 => {
                let i = self.call("levels", &[("x", x)]);
                self.call("length", &[("x", i)])
            }
            2 => {
                let i = {
                    let mut a = vec![("pattern", y), ("x", x)];
                    for n in ["ignore.case", "perl", "fixed", "useBytes"] {
                        if self.r.chance(1, 4) {
                            a.push((n, self.flag()));
                        }
                    }
                    self.call("grepl", &a)
                };
                match self.r.below(4) {
                    0 => self.call("expect_true", &[("object", i)]),
                    1 => self.call("expect_false", &[("object", i)]),
                    _ => self.call("which", &[("x", i)]),
                }
            }
            3 => format!("!({ax} {} {ay})", self.pick(&["==", "!=", "<", ">", "<=", ">="])),
            4 => format!("{ax} {} {}", self.pick(&["==", "!=", "%in%"]), self.pick(&["NA", "NA_integer_", "NA_character_", "NaN", "NULL", "TRUE", "FALSE"])),
            5 => format!("{} {} {ax}", self.pick(&["NA", "NA_real_", "NaN", "NULL", "TRUE", "FALSE"]), self.pick(&["==", "!=", "%in%"])),
            6 | 7 => {
                let c = self.call("class", &[("x", x)]);
                let s = self.pick(&["\"a\"", "'lm'", "\"my class\"", "r\"(a)\"", "y"]);
                let op = self.pick(&["==", "!=", "%in%"]);
                let cond = if self.r.chance(1, 2) { format!("{} {op} {s}", atom(&c)) } else { format!("{s} {op} {}", atom(&c)) };
                match self.r.below(4) {
                    0 => format!("if ({cond}) {ay}"),
                    1 => format!("while ({cond}) {ay}"),
                    2 => self.call("identical", &[("x", c), ("y", s)]),
                    _ => self.call("identical", &[("x", s), ("y", c)]),
                }
            }
            8 | 9 => {
                let i = self.call("is.null", &[("x", x.clone())]);
                let (b, e) = match self.r.below(4) {
                    0 => ("{ ", " }"),
                    1 => ("{\n  ", "\n}"),
                    2 => ("(", ")"),
                    _ => ("", ""),
                };
                if self.r.chance(1, 2) { format!("if ({i}) {b}{y}{e} else {b}{x}{e}") } else { format!("if (!{i}) {b}{x}{e} else {b}{y}{e}") }
            }
            10 => {
                let (i, j) = (self.call("is.numeric", &[("x", x.clone())]), self.call("is.integer", &[("x", x)]));
                if self.r.chance(1, 2) { format!("{i} || {j}") } else { format!("{j} || {i}") }
            }
            11 | 12 => {
                let f = if self.r.chance(4, 5) { "length".into() } else { self.value(0) };
                match self.r.below(4) {
                    0 => self.call("vapply", &[("X", x), ("FUN", f), ("FUN.VALUE", "integer(1)".into())]),
                    1 => self.call("map_int", &[(".x", x), (".f", f)]),
                    2 => self.call("map_dbl", &[(".x", x), (".f", f)]),
                    _ => self.call("sapply", &[("X", x), ("FUN", f)]),
                }
            }
            13 => {
                let w = self.pick(&["cbind.data.frame", "\"cbind.data.frame\"", "rbind"]);
                self.call("do.call", &[("what", w), ("args", x)])
            }
            14 | 15 => {
                let (m, f) = (self.pick(&["1", "2", "1L", "2L", "c(1, 2)"]), self.pick(&["mean", "sum", "mean", "sum", "max"]));
                let mut s = self.call("apply", &[("X", x), ("MARGIN", m), ("FUN", f)]);
                if self.r.chance(1, 3) && s.ends_with(')') {
                    let v = self.flag();
                    s = format!("{}, na.rm = {v})", &s[..s.len() - 1]);
                }
                s
            }
            16 => {
                let u = self.pick(&["!", "!", "!", "-", "!!", "~", "+"]);
                let f = self.pick(&["any", "all"]);
                self.call(&f, &[("...", format!("{u}{ax}"))])
            }
            17 | 18 => {
                let (a, b) = if self.r.chance(1, 2) { ("TRUE", "FALSE") } else { ("FALSE", "TRUE") };
                let (a, b) = (a.to_string(), b.to_string());
                match self.r.below(3) {
                    0 => self.call("if_else", &[("condition", x), ("true", a), ("false", b)]),
                    1 => self.call("fifelse", &[("test", x), ("yes", a), ("no", b)]),
                    _ => self.call("ifelse", &[("test", x), ("yes", a), ("no", b)]),
                }
            }
            19 | 20 => {
                let n = format!("{}:{}", self.pick(&["1", "1L", "1", "2"]), ay);
                let mut a = vec![("x", n)];
                for k in ["size", "replace", "prob"] {
                    if self.r.chance(1, 3) {
                        a.push((k, self.value(0)));
                    }
                }
                self.call("sample", &a)
            }
            21 => {
                let f = self.pick(&["length", "nrow", "ncol", "NROW", "NCOL"]);
                let i = self.call(&f, &[("x", x)]);
                if self.r.chance(1, 2) { format!("{}:{i}", self.pick(&["1", "1L"])) } else { self.call("seq", &[("...", i)]) }
            }
            22 | 23 => {
                let mut a = vec![("...", x)];
                for k in ["na.last", "decreasing", "method"] {
                    if self.r.chance(1, 3) {
                        a.push((k, self.flag()));
                    }
                }
                let o = self.call("order", &a);
                format!("{ax}[{o}]")
            }
            24 => {
                let s = self.pick(&["\"abc\"", "'100%%'", "\"%%\"", "'a%%%%b'", "\"\"", "r\"(a%%)\"", "'%d%%'", "\"%s\"", "\"\\\"%%\\\"\"", "'été'"]);
                self.call("sprintf", &[("fmt", s)])
            }
            25 | 26 => {
                let s = self.pick(&["\"abc\"", "'a'", "y", "\"éa\"", "f(y)", "\"\\n\\n\""]);
                let n = self.r.range(0, 4);
                let (f, a, b, c) = if self.r.chance(1, 2) { ("substr", "x", "start", "stop") } else { ("substring", "text", "first", "last") };
                let e = if self.r.chance(1, 2) {
                    let (st, k) = (self.pick(&["1", "1L", "1.", "1", "2"]), if self.r.chance(2, 3) { format!("{n}L") } else { self.pick(&["3", "n", "nchar(y)", "nchar(x)"]) });
                    self.call(f, &[(a, x), (b, st), (c, k)])
                } else {
                    let nc = format!("nchar({x})");
                    let st = match self.r.below(6) {
                        0 => nc.clone(),
                        1 => "n".into(),
                        2 => "2".into(),
                        _ => format!("{nc} - {n}{}", self.pick(&["", "L"])),
                    };
                    self.call(f, &[(a, x), (b, st), (c, nc)])
                };
                let op = self.pick(&["==", "!=", "=="]);
                let e = atom(&e);
                if self.r.chance(1, 2) { format!("{e} {op} {s}") } else { format!("{s} {op} {e}") }
            }
            27 => {
                let n = self.r.range(1, 3);
                let mut a: Vec<(&str, String)> = (0..n).map(|i| ("...", ["'a'", "\"b\"", "x"][i % 3].to_string())).collect();
                if self.r.chance(1, 5) {
                    a.push(("fsep", "'/'".into()));
                }
                let p = self.call("file.path", &a);
                let mut b = vec![];
                if self.r.chance(1, 5) {
                    b.push(("...", "\"sub\"".to_string()));
                }
                b.push(("...", p));
                if self.r.chance(1, 5) {
                    b.push(("...", "\"f\"".to_string()));
                }
                if self.r.chance(3, 4) {
                    b.push(("package", "\"pkg\"".into()));
                }
                self.call("system.file", &b)
            }
            28 => format!("if ({x}) {{ if ({y}) {} }}", self.pick(&["z", "{ z }", "{\n  f(z)\n  z\n}", "z <- 1"])),
            29 => format!("while (TRUE) {}", self.pick(&["x", "{ x }", "{\n  x\n  y\n}", "if (a) break"])),
            30 | 31 => {
                let f = self.pick(&["grepl", "grep", "sub", "gsub", "regexpr", "gregexpr", "regexec"]);
                let p = self.pick(&["\"abc\"", "'a'", "\"\"", "'a b'", "\"é\"", "'a.b'", "r\"(ab)\"", "\"a\\\\.\"", "\"-\"", "']'", "pat"]);
                let mut a = vec![("pattern", p)];
                for n in formals(&f).unwrap().into_iter().skip(1) {
                    let need = n == "x" || n == "replacement" || n == "text";
                    if need || self.r.chance(1, 5) {
                        let v = if n == "replacement" { self.pick(&["\"b\"", "''", "\"\\\\1\"", "y", "'\\\\'"]) } else if need { x.clone() } else { self.flag() };
                        a.push((n, v));
                    }
                }
                self.call(&f, &a)
            }
            32 => {
                let i = self.call("all.equal", &[("target", x), ("current", y)]);
                match self.r.below(4) {
                    0 => format!("if ({i}) z"),
                    1 => format!("while ({i}) z"),
                    2 => format!("!{i}"),
                    _ => self.call("isFALSE", &[("x", i)]),
                }
            }
            33 => {
                let f = self.pick(&["length", "names", "class", "typeof"]);
                let c = self.call(&f, &[("x", x)]);
                let v = match f.as_str() {
                    "class" => self.pick(&["\"lm\"", "'data.frame'", "\"list\"", "'numeric'"]),
                    "typeof" => self.pick(&["\"list\"", "y"]),
                    _ => y,
                };
                let f = self.pick(&["expect_equal", "expect_identical"]);
                if self.r.chance(1, 3) { self.call(&f, &[("object", v), ("expected", c)]) } else { self.call(&f, &[("object", c), ("expected", v)]) }
            }
            34 => {
                let f = self.pick(&["expect_equal", "expect_identical"]);
                let k = self.pick(&["TRUE", "FALSE", "NULL"]);
                if self.r.chance(1, 3) { self.call(&f, &[("object", k), ("expected", x)]) } else { self.call(&f, &[("object", x), ("expected", k)]) }
            }
            _ => {
                let ty = self.pick(TYPES);
                let o = match self.r.below(3) {
                    0 => format!("!{ax}"),
                    1 => self.call("is.null", &[("x", x)]),
                    _ => self.call(&format!("is.{ty}"), &[("x", x)]),
                };
                let f = self.pick(&["expect_true", "expect_false", "expect_true"]);
                self.call(&f, &[("object", o)])
            }
        }
    }

    fn program(&mut self) -> String {
        let p = self.piece(1);
        match self.r.below(8) {
            0 => format!("z {} {p}", self.pick(&["<-", "="])),
            1 => format!("{p} -> z"),
            2 => format!("f({p})"),
            3 => format!("f({} {} {p})", self.pick(&["a", "x$y"]), self.pick(&["=", "<-"])),
            4 => format!("function(x) {{\n  {p}\n}}"),
            _ => p,
        }
    }
}

pub fn run_c26(ctx: &mut Ctx) {
    ctx.rule = "a program by its text; non-trivial: with a fix that was compared with its documented meaning".into();
    let g = Gen::load();
    let mut rng = ctx.rng.fork();
    let configs: Vec<Config> = ["<-", "="]
        .iter()
        .map(|op| {
            let mut a = sut::args();
            a.select = "ALL".into();
            a.assignment = Some(op.to_string());
            sut::config_with(&a, None)
        })
        .collect();
    let mut failures = 0;
    while ctx.time_left(1.0) && failures < 60 {
        let text = match rng.below(6) {
            0 => {
                let s = g.snip(&mut rng).text.clone();
                g.mutated(&mut rng, &s)
            }
            1 => g.statement(&mut rng, 1),
            _ => {
                let s = W { r: &mut rng, g: &g }.program();
                if rng.chance(1, 6) { g.mutated(&mut rng, &s) } else { s }
            }
        };
        let text = text.trim().to_string();
        if !parses(&text) || text.contains('#') {
            ctx.bump("not valid R", 1);
            continue;
        }
        let cfg = &configs[usize::from(rng.chance(1, 4))];
        ctx.case(text.clone());
        let mut seen = vec![];
        let got = bad(&text, cfg, &mut seen);
        for s in &seen {
            ctx.bump(&format!("fix of {s}"), 1);
        }
        ctx.count("program", &text, !seen.is_empty());
        if !seen.is_empty() {
            ctx.sample(&seen.join(" "), || json!({"text": kit::clip(&text, 300), "fixes of": seen, "normal form": normal(&text).map(|x| kit::clip(&x.0.show(), 300))}));
        }
        if let Some((rule, _)) = got {
            failures += 1;
            let small = tree::shrink(&text, |s| parses(s) && bad(s, cfg, &mut vec![]).is_some_and(|b| b.0 == rule));
            let what = bad(&small, cfg, &mut vec![]).map_or(String::new(), |b| b.1);
            let key = if rule.contains(' ') { rule.clone() } else { format!("{rule}: {small}") };
            ctx.fail(&key, what, json!({"text": small, "original": text, "rule": rule}));
        }
    }
}
