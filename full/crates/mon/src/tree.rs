//! The structure of R code as the monitors see it: syntax without layout and comments.

use air_r_syntax::{RSyntaxKind, RSyntaxNode};
use biome_rowan::Direction;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct E {
    pub kind: RSyntaxKind,
    /// the node's own tokens (operators, names, literals)
    pub toks: Vec<String>,
    pub kids: Vec<E>,
    pub span: (usize, usize),
}

pub fn parse(text: &str) -> Option<E> {
    let p = air_r_parser::parse(text, Default::default());
    (!p.has_error()).then(|| build(&p.syntax()))
}

fn build(n: &RSyntaxNode) -> E {
    let r = n.text_trimmed_range();
    let mut toks: Vec<String> = vec![];
    for t in n.tokens() {
        if matches!(t.kind(), RSyntaxKind::SEMICOLON | RSyntaxKind::EOF) {
            continue;
        }
        toks.push(t.text_trimmed().to_string());
    }
    E { kind: n.kind(), toks, kids: n.children().map(|c| build(&c)).collect(), span: (r.start().into(), r.end().into()) }
}

impl E {
    /// Same structure, wherever it stands in the text.
    pub fn same(&self, o: &E) -> bool {
        self.kind == o.kind && self.toks == o.toks && self.kids.len() == o.kids.len() && self.kids.iter().zip(&o.kids).all(|(a, b)| a.same(b))
    }
    /// The tree with the parentheses that span exactly `span` taken away.
    pub fn without_paren(&self, span: (usize, usize)) -> E {
        if self.kind == RSyntaxKind::R_PARENTHESIZED_EXPRESSION && self.span == span && self.kids.len() == 1 {
            return self.kids[0].clone();
        }
        E { kids: self.kids.iter().map(|k| k.without_paren(span)).collect(), ..self.clone() }
    }
    /// The tree without any parentheses: they only guide the parser.
    pub fn bare(&self) -> E {
        if self.kind == RSyntaxKind::R_PARENTHESIZED_EXPRESSION && self.kids.len() == 1 {
            return self.kids[0].bare();
        }
        E { kids: self.kids.iter().map(|k| k.bare()).collect(), ..self.clone() }
    }
    pub fn show(&self) -> String {
        let kids: Vec<String> = self.kids.iter().map(|k| k.show()).collect();
        format!("({:?} {} {})", self.kind, self.toks.join(" "), kids.join(" "))
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a E)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
}

/// The comments of a text, in order.
pub fn comments(text: &str) -> Vec<String> {
    let p = air_r_parser::parse(text, Default::default());
    let mut out = vec![];
    for t in p.syntax().descendants_tokens(Direction::Next) {
        for piece in t.leading_trivia().pieces().chain(t.trailing_trivia().pieces()) {
            if piece.is_comments() {
                out.push(piece.text().trim_end().to_string());
            }
        }
    }
    out
}

/// Where tokens and comments begin and end.
pub fn boundaries(text: &str) -> (std::collections::HashSet<usize>, std::collections::HashSet<usize>) {
    let p = air_r_parser::parse(text, Default::default());
    let (mut starts, mut ends) = (std::collections::HashSet::new(), std::collections::HashSet::new());
    for t in p.syntax().descendants_tokens(Direction::Next) {
        starts.insert(t.text_trimmed_range().start().into());
        ends.insert(t.text_trimmed_range().end().into());
        for piece in t.leading_trivia().pieces().chain(t.trailing_trivia().pieces()) {
            if piece.is_comments() {
                starts.insert(piece.text_range().start().into());
                ends.insert(piece.text_range().end().into());
            }
        }
    }
    (starts, ends)
}

/// Shrinks a program that `fails`: whole subtrees are dropped or replaced by a part of themselves, then
/// single characters.
pub fn shrink(text: &str, fails: impl Fn(&str) -> bool) -> String {
    let mut cur = text.to_string();
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(6);
    'again: while std::time::Instant::now() < deadline {
        let Some(t) = parse(&cur) else { break };
        let mut nodes: Vec<&E> = vec![];
        t.walk(&mut |e| nodes.push(e));
        nodes.sort_by_key(|e| std::cmp::Reverse(e.span.1 - e.span.0));
        for n in nodes {
            if n.span.0 == n.span.1 {
                continue;
            }
            let mut cands: Vec<String> = vec![String::new()];
            let mut inner: Vec<&E> = vec![];
            n.walk(&mut |e| inner.push(e));
            inner.sort_by_key(|e| e.span.1 - e.span.0);
            cands.extend(inner.iter().take(40).map(|e| cur[e.span.0..e.span.1].to_string()));
            cands.push("x".into());
            for c in cands {
                if c.len() < n.span.1 - n.span.0 {
                    let cand = format!("{}{c}{}", &cur[..n.span.0], &cur[n.span.1..]);
                    if kit::guard(|| fails(&cand)).unwrap_or(false) {
                        cur = cand;
                        continue 'again;
                    }
                    if std::time::Instant::now() > deadline {
                        return cur;
                    }
                }
            }
        }
        break;
    }
    kit::shrink_text(&cur, fails)
}
