//! Generates R programs: pieces harvested from upstream's lint tests, embedded in one another and in
//! random R from a grammar, with comments, odd characters and odd line ends.

use kit::Rng;
use serde_json::Value;

#[derive(Clone, Debug)]
pub struct Snip {
    pub rule: String,
    pub text: String,
    /// One expression without comments or surrounding blank lines: can stand wherever an expression can.
    pub expr: bool,
}

pub struct Gen {
    pub snips: Vec<Snip>,
    exprs: Vec<usize>,
    pub by_rule: std::collections::BTreeMap<String, Vec<usize>>,
}

pub fn parses(text: &str) -> bool {
    !air_r_parser::parse(text, Default::default()).has_error()
}

pub const IDS: &[&str] = &[
    "x", "y", "z", "foo", "df", "n", ".a", "x.y", "été", "`my var`", "i", "bar2", "λ", "my_long_name", "mtcars",
];
const FUNS: &[&str] = &[
    "f", "foo", "mean", "sum", "c", "list", "paste", "any", "all", "is.na", "length", "print", "stop", "return",
    "which", "grepl", "sapply", "pkg::f", "pkg:::g", "obj$method", "identity", "duplicated", "levels", "nrow",
    "class", "names", "ifelse", "is.null", "nchar", "substr", "startsWith", "seq_len", "rep", "typeof", "inherits",
];
const NUMS: &[&str] = &["0", "1", "1L", "2", "10", "1.5", "1e5", "0x1F", "100000L", "0.5", ".5", "2i"];
const STRS: &[&str] = &[
    "\"a\"", "'b'", "\"\"", "'été'", "\"🌍 world\"", "r\"(raw)\"", "\"a\\\"b\"", "'^abc'", "\"abc$\"", "'%s'", "\"a\nb\"",
    "\"# not a comment\"",
];
const CONSTS: &[&str] = &["TRUE", "FALSE", "NULL", "NA", "NaN", "Inf", "T", "F", "NA_integer_", "..1"];
const BIN: &[&str] = &[
    "+", "-", "*", "/", "^", "==", "!=", "<", ">", "<=", ">=", "&", "&&", "|", "||", "%in%", "%%", "|>", ":", "~", "%>%", "??",
    "<-", "=", "->", "<<-", "->>", ":=", "**", "%||%", "%/%", "-", "==", "&&", "||", "!=",
];

const ODD_NUMS: &[&str] = &[
    "99999999999999999999999", "1e400", "1e-400", "0xFFFFFFFFFFFFFFFFFFFFFF", "1e5L", "0x10L", "1.", "00", "01L", "18446744073709551616L", "1e", "0x", "1.0L", "3i", "-1", "0x1p-2", "2147483648L",
];
/// Characters and words that code looking into strings (formats, patterns, paths, ...) pays attention to.
const SOUP: &[&str] = &[
    "%", "%", "%", "$", "*", "1", "0", "9", "99999999999999999999999", ".", "-", "+", " ", "#", "s", "d", "i", "f", "é", "\u{1F30D}", "^", "$", "|", "(", ")", "[", "]", "{", "}", "?", "\\\\", "\\n", "\\t", "\\x41", "\\u{e9}",
    "/", "..", ":", ",", "<", ">", "&", "=", "_", "a", "Z", "`", "\u{0301}", "\u{a0}", "\n", "%1$s", "%*d", "%.*f", "%5.2f", "%%", "w", "rb", "ab",
];

/// A string literal made of pieces that mean something to code that looks into strings.
pub fn soup(r: &mut Rng) -> String {
    let theme = match r.below(4) {
        0 => SOUP,
        1 => &SOUP[17..34],
        _ => &SOUP[..17],
    };
    let inner: String = (0..r.below(7)).map(|_| *r.pick(theme)).collect();
    match r.below(6) {
        0 if !inner.contains('\'') => format!("'{inner}'"),
        1 => format!("r\"---({inner})---\""),
        _ => format!("\"{inner}\""),
    }
}

impl Gen {
    pub fn load() -> Gen {
        let v: Value = serde_json::from_str(include_str!("../../../corpus/snippets.json")).unwrap();
        let mut snips = vec![];
        for (rule, list) in v.as_object().unwrap() {
            for s in list.as_array().unwrap() {
                let text = s.as_str().unwrap();
                if !parses(text) || text.contains("jarl-ignore") || text.trim().is_empty() {
                    continue;
                }
                let parsed = air_r_parser::parse(text.trim(), Default::default());
                use biome_rowan::AstNodeList;
                let expr = parsed.tree().expressions().len() == 1 && !text.contains('#');
                snips.push(Snip { rule: rule.clone(), text: text.trim().to_string(), expr });
            }
        }
        let exprs = (0..snips.len()).filter(|&i| snips[i].expr).collect();
        let mut by_rule: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
        for (i, s) in snips.iter().enumerate() {
            by_rule.entry(s.rule.clone()).or_default().push(i);
        }
        Gen { snips, exprs, by_rule }
    }

    /// A random expression on its own, from the grammar, with harvested pieces at the leaves.
    pub fn expr(&self, r: &mut Rng, depth: usize) -> String {
        if depth == 0 {
            return match r.below(8) {
                0 | 1 | 2 => r.pick(IDS).to_string(),
                3 => r.pick(NUMS).to_string(),
                4 if r.chance(1, 3) => soup(r),
                4 => r.pick(STRS).to_string(),
                5 => r.pick(CONSTS).to_string(),
                _ => self.snips[*r.pick(&self.exprs)].text.clone(),
            };
        }
        let d = depth - 1;
        match r.below(28) {
            26 => {
                let f = *r.pick(&["sprintf", "sprintf", "base::sprintf", "sprintf(fmt = ", "which(grepl", "grep", "grepl", "regmatches", "download.file", "strsplit", "substr(x, 1, 3) == ", "class(x) == ", "nchar", "system.file(file.path"]);
                let rest: String = (0..r.below(4)).map(|_| format!(", {}", self.expr(r, 0))).collect();
                match f.ends_with("= ") {
                    true if f.ends_with("== ") => format!("{f}{}", soup(r)),
                    true => format!("{f}{}{rest})", soup(r)),
                    false => format!("{f}({}{rest}){}", soup(r), if f.contains('(') { ")" } else { "" }),
                }
            }
            25 => format!("{}({})", r.pick(&["(f)", "f()", "x[[1]]", "x$y$z", "'str'", "`b t`", "(function(x) x)", "a@b", "pkg::`f`", "5", "NULL", "pkg::f$g"]), self.args(r, d)),
            0 | 1 | 2 => self.call(r, d),
            3 => {
                let op = loop {
                    let op = *r.pick(BIN);
                    if op != "??" {
                        break op;
                    }
                };
                let sp = if r.chance(1, 8) && !op.starts_with('%') { "" } else { " " };
                format!("{}{sp}{op}{sp}{}", self.operand(r, d), self.operand(r, d))
            }
            4 => format!("({})", self.expr(r, d)),
            5 => format!("{}[{}]", self.operand(r, d), self.args(r, d)),
            6 => format!("{}[[{}]]", self.operand(r, d), self.expr(r, d)),
            7 => format!("{}{}", r.pick(&["!", "-", "+", "~", "!!"]), self.operand(r, d)),
            8 => format!("function({}) {}", r.pick(&["", "x", "x, y = NULL", "..."]), self.expr(r, d)),
            9 => format!("\\(x) {}", self.expr(r, d)),
            10 => format!("if ({}) {} else {}", self.expr(r, d), self.expr(r, d), self.expr(r, d)),
            11 => format!("{{\n  {}\n}}", self.expr(r, d)),
            12 => format!("{} <- {}", r.pick(IDS), self.expr(r, d)),
            13 => format!("{}${}", r.pick(IDS), r.pick(&["a", "b", "`c d`"])),
            14 => format!("any(is.na({}))", self.expr(r, d)),
            15 => format!("{} == {}", self.operand(r, d), r.pick(&["TRUE", "FALSE", "NA", "NULL", "NaN", "\"a\""])),
            16 => format!("class({}) == {}", self.expr(r, d), r.pick(STRS)),
            17 => format!("any(duplicated({}))", self.expr(r, d)),
            18 => format!("length(levels({}))", self.expr(r, d)),
            19 => format!("1:{}({})", r.pick(&["length", "nrow", "ncol"]), self.expr(r, d)),
            20 => format!("sapply({}, {})", self.expr(r, d), r.pick(&["length", "mean", "function(x) x"])),
            21 => format!("!all({})", self.expr(r, d)),
            22 => {
                let e = self.operand(r, d);
                format!("{e}[order({e})]")
            }
            23 => format!("ifelse({}, {}, {})", self.expr(r, d), r.pick(CONSTS), r.pick(CONSTS)),
            24 => format!("which(grepl({}, {}))", r.pick(STRS), self.expr(r, d)),
            _ => self.snips[*r.pick(&self.exprs)].text.clone(),
        }
    }

    /// A harvested piece with a few of its parts replaced, dropped, doubled or exchanged.
    pub fn mutated(&self, r: &mut Rng, text: &str) -> String {
        let mut cur = text.to_string();
        for _ in 0..r.range(1, 3) {
            let Some(t) = crate::tree::parse(&cur) else { return text.to_string() };
            let mut spans: Vec<(usize, usize, air_r_syntax::RSyntaxKind)> = vec![];
            let mut ops: Vec<(usize, usize, bool)> = vec![];
            t.walk(&mut |e| {
                use air_r_syntax::RSyntaxKind as K;
                match (e.kind, e.kids.as_slice()) {
                    (K::R_UNARY_EXPRESSION, [x]) => ops.push((e.span.0, x.span.0, true)),
                    (K::R_BINARY_EXPRESSION, [x, y]) => ops.push((x.span.1, y.span.0, false)),
                    _ => {}
                }
                if e.span.1 > e.span.0 {
                    spans.push((e.span.0, e.span.1, e.kind));
                }
            });
            if spans.is_empty() {
                return cur;
            }
            if !ops.is_empty() && r.chance(1, 4) {
                let (s, e, unary) = *r.pick(&ops);
                let op = if unary { r.pick(&["!", "-", "+", "~", "!!", "", "--"]).to_string() } else { format!(" {} ", r.pick(BIN)) };
                let cand = format!("{}{op}{}", &cur[..s], &cur[e..]);
                if parses(&cand) {
                    cur = cand;
                }
                continue;
            }
            let (s, e, kind) = *r.pick(&spans);
            use air_r_syntax::RSyntaxKind as K;
            let piece = cur[s..e].to_string();
            let new = match r.below(9) {
                0 if kind == K::R_ARGUMENT => String::new(),
                1 if kind == K::R_ARGUMENT => format!("{piece}, {piece}"),
                2 if kind == K::R_ARGUMENT => format!("{} = {piece}", r.pick(&["na.rm", "x", "FUN", "fixed", "value", "'s'", "`b t`", "NULL", "pattern", "MARGIN"])),
                3 if kind == K::R_ARGUMENT => "a = ".to_string(),
                4 => {
                    let (s2, e2, k2) = *r.pick(&spans);
                    if k2 == K::R_ROOT || k2 == K::R_EXPRESSION_LIST { continue } else { cur[s2..e2].to_string() }
                }
                5 => format!("({piece})"),
                0..=3 if kind == K::R_STRING_VALUE => soup(r),
                0..=3 if matches!(kind, K::R_DOUBLE_VALUE | K::R_INTEGER_VALUE) => r.pick(ODD_NUMS).to_string(),
                6 if kind == K::R_IDENTIFIER => r.pick(FUNS).to_string(),
                7 if matches!(kind, K::R_CALL | K::R_BINARY_EXPRESSION) => format!("{{{piece}}}"),
                _ => self.expr(r, 1),
            };
            let cand = format!("{}{new}{}", &cur[..s], &cur[e..]);
            if parses(&cand) {
                cur = cand;
            }
        }
        cur
    }

    /// Something that can be an operand: mostly bare, sometimes in parentheses.
    fn operand(&self, r: &mut Rng, d: usize) -> String {
        let e = self.expr(r, d);
        if r.chance(1, 3) { format!("({e})") } else { e }
    }

    fn args(&self, r: &mut Rng, d: usize) -> String {
        let n = *r.pick(&[0, 1, 1, 1, 2, 2, 3]);
        let mut out = vec![];
        for _ in 0..n {
            let e = self.expr(r, d);
            out.push(match r.below(6) {
                0 => format!("{} = {e}", r.pick(&["na.rm", "x", "value", "fixed", "pattern", "'quoted'", "FUN", "..."])),
                1 if n > 1 => String::new(),
                _ => e,
            });
        }
        if r.chance(1, 8) && n > 0 {
            let c = if r.chance(1, 3) { " # inside\n  " } else { "\n  " };
            return format!("{c}{}\n", out.join(",\n  "));
        }
        out.join(", ")
    }

    fn call(&self, r: &mut Rng, d: usize) -> String {
        format!("{}({})", r.pick(FUNS), self.args(r, d))
    }

    pub fn snip(&self, r: &mut Rng) -> &Snip {
        // by rule first, so that rules with few tests are as frequent as the others
        let keys: Vec<&String> = self.by_rule.keys().collect();
        let k = *r.pick(&keys);
        &self.snips[*r.pick(&self.by_rule[k])]
    }

    pub fn snip_of(&self, r: &mut Rng, rule: &str) -> Option<&Snip> {
        self.by_rule.get(rule).map(|v| &self.snips[*r.pick(v)])
    }

    fn indent(text: &str, by: &str) -> String {
        // never touch text that has a string or comment spanning lines: only line starts are moved
        text.lines().map(|l| if l.is_empty() { l.to_string() } else { format!("{by}{l}") }).collect::<Vec<_>>().join("\n")
    }

    /// One statement, possibly spanning lines.
    pub fn statement(&self, r: &mut Rng, depth: usize) -> String {
        let base = match r.below(10) {
            0..=5 => {
                let mut s = self.snip(r).clone();
                if r.chance(1, 3) {
                    s.text = self.mutated(r, &s.text);
                }
                if s.expr && depth > 0 && r.chance(1, 2) {
                    let e = s.text.clone();
                    match r.below(10) {
                        0 => format!("{} <- {e}", r.pick(IDS)),
                        1 => format!("({e})"),
                        2 => format!("f({e}, {})", self.expr(r, 1)),
                        3 => format!("x[{e}]"),
                        4 => format!("{}({}, k = {e})", r.pick(FUNS), self.expr(r, 0)),
                        5 => format!("!({e})"),
                        6 => format!("function(a, b = {e}) a"),
                        7 => format!("{} |> f()", if r.chance(1, 2) { format!("({e})") } else { e }),
                        8 => format!("{} {} {e}", self.operand(r, 1), r.pick(&["+", "&&", "==", "%in%", "||", "-", "*", "|"])),
                        _ => format!("{e} {} {}", r.pick(&["+", "&&", "==", "%in%", "||", "-", "*", "|"]), self.operand(r, 1)),
                    }
                } else {
                    s.text.clone()
                }
            }
            _ => self.expr(r, depth.min(3)),
        };
        if depth == 0 {
            return base;
        }
        match r.below(14) {
            0 => format!("{} <- function({}) {{\n{}\n}}", r.pick(IDS), r.pick(&["", "x", "x, y"]), self.block(r, depth - 1, "  ")),
            1 => format!("if ({}) {{\n{}\n}}", self.expr(r, 1), Self::indent(&base, "  ")),
            2 => format!("if ({}) {{\n{}\n}} else {{\n{}\n}}", self.expr(r, 1), Self::indent(&base, "  "), self.block(r, depth - 1, "\t")),
            3 => format!("for (i in {}) {{\n{}\n}}", self.expr(r, 1), self.block(r, depth - 1, "  ")),
            4 => format!("while ({}) {{\n{}\n}}", self.expr(r, 1), Self::indent(&base, "    ")),
            _ => base,
        }
    }

    pub fn block(&self, r: &mut Rng, depth: usize, by: &str) -> String {
        let n = r.range(1, 3);
        let mut out = vec![];
        for _ in 0..n {
            out.push(Self::indent(&self.statement(r, depth), by));
            if r.chance(1, 5) {
                out.push(format!("{by}# {}", r.pick(&["note", "été ici", "any(is.na(x))", "TODO: 🌍", "'quote"])));
            }
        }
        out.join("\n")
    }

    /// A whole program that parses.
    pub fn program(&self, r: &mut Rng) -> String {
        for _ in 0..50 {
            let p = self.program_once(r);
            if p.len() < 6000 && parses(&p) {
                return p;
            }
        }
        "x <- 1\n".into()
    }

    fn program_once(&self, r: &mut Rng) -> String {
        let mut t = String::new();
        match r.below(10) {
            0 => t.push('\n'),
            1 => t.push_str("\n\n  \n"),
            2 => t.push_str("#!/usr/bin/env Rscript\n"),
            3 => t.push_str("# été 🌍\n\n"),
            _ => {}
        }
        let n = *r.pick(&[1, 1, 1, 2, 2, 3, 4, 6]);
        let mut parts = 0;
        for _ in 0..n * 3 {
            if parts == n {
                break;
            }
            let d = *r.pick(&[0, 0, 1, 1, 2, 3]);
            let s = self.statement(r, d);
            if !parses(&s) {
                continue;
            }
            parts += 1;
            if r.chance(1, 10) {
                t.push_str("# before\n");
            }
            if r.chance(1, 12) {
                t.push_str("  ");
            }
            t.push_str(&s);
            match r.below(12) {
                0 => t.push_str(" # after été"),
                1 => t.push(';'),
                2 => t.push_str("   "),
                _ => {}
            }
            t.push_str(r.pick(&["\n", "\n", "\n", "\n", "\n\n", "\n\n\n", "; "]));
        }
        match r.below(8) {
            0 => {
                while t.ends_with(['\n', ' ']) {
                    t.pop();
                }
            }
            1 => t.push_str("# the end"),
            2 => t.push_str("\n\n  # the end 🌍\n\n"),
            _ => {}
        }
        if r.chance(1, 15) {
            t = t.replace('\n', "\r\n");
        }
        t
    }

    /// An R Markdown document and, for every R chunk, the byte offset and text of its code.
    pub fn rmd(&self, r: &mut Rng) -> (String, Vec<(usize, String)>) {
        let mut t = String::new();
        let mut chunks = vec![];
        if r.chance(1, 2) {
            t.push_str("---\ntitle: \"Été 🌍\"\noutput: html_document\n---\n\n");
        }
        if r.chance(1, 12) {
            t.push('\n');
        }
        let n = r.range(1, 4);
        for _ in 0..n {
            match r.below(6) {
                0 => t.push_str("Some text with `any(is.na(x))` inline and `r any(is.na(x))`.\n\n"),
                1 => t.push_str("# Title été 🌍\n\n"),
                2 => t.push_str("```{python}\nany(is.na(x))\n```\n\n"),
                3 => t.push_str("```r\nany(is.na(x))\n```\n"),
                4 => t.push_str("- a list\n"),
                _ => {}
            }
            let code = self.program(r).replace("\r\n", "\n");
            let code = code.trim_end_matches('\n').to_string() + "\n";
            if code.contains("``") || code.contains("\n`") || code.contains("#|") {
                continue;
            }
            let fence = *r.pick(&["```", "```", "```", "````"]);
            let head = *r.pick(&["{r}", "{r}", "{r label}", "{r, echo=FALSE}", "{R}", "{r été, fig.width = 3}"]);
            // a chunk in a list item
            let by = *r.pick(&["", "", "", "", "", "  ", "\t"]);
            let code = if r.chance(1, 6) { format!("# {}\n{code}", "é".repeat(r.range(1, 80))) } else { code };
            let code: String = code.lines().map(|l| if l.is_empty() { "\n".into() } else { format!("{by}{l}\n") }).collect();
            if !by.is_empty() && !parses(&code) {
                continue;
            }
            t.push_str(&format!("{by}{fence}{head}\n"));
            let at = t.len();
            t.push_str(&code);
            t.push_str(&format!("{by}{fence}\n"));
            chunks.push((at, code));
            if r.chance(1, 2) {
                t.push_str("\nText after.\n\n");
            }
        }
        (t, chunks)
    }
}
