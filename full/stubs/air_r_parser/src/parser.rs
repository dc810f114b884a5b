use crate::{ParseError, lexer::*};
use air_r_syntax::RSyntaxKind::{self, *};
use air_r_syntax::RLanguage;
use biome_rowan::{Child, SendNode, TreeBuilder};

#[derive(Clone, Copy, PartialEq)]
enum Ctx { Top, Brace, Paren }
struct P { toks: Vec<Tok>, at: usize, b: TreeBuilder<RLanguage>, ctx: Vec<Ctx>, semi_done: usize, depth: usize, pos: u32 }
type R<T> = Result<T, ParseError>;
const MAX_DEPTH: usize = 3000;

pub fn parse(text: &str) -> (SendNode, Option<ParseError>) {
    let lexed = lex(text);
    let error = match lexed.error {
        Some((message, offset)) => ParseError { message, offset },
        None => {
            let mut p = P { toks: lexed.toks, at: 0, b: TreeBuilder::new(text), ctx: vec![Ctx::Top], semi_done: usize::MAX, depth: 0, pos: 0 };
            match p.root() { Ok(root) => return (p.b.finish(root), None), Err(e) => e }
        }
    };
    // A file that cannot be parsed: one bogus root without anything in it.
    let mut b: TreeBuilder<RLanguage> = TreeBuilder::new(text);
    let list = b.node(R_EXPRESSION_LIST, vec![], 0);
    let n = text.len() as u32;
    let lead = [(biome_rowan::TriviaPieceKind::Skipped, 0, n)];
    let eof = b.token(EOF, if n > 0 { &lead } else { &[] }, (n, n), &[]);
    let root = b.node(R_ROOT, vec![Child::Empty, list, eof], 0);
    (b.finish(root), Some(error))
}

fn infix(k: RSyntaxKind) -> Option<(u32, u32)> {
    Some(match k {
        WAT => (10, 11),
        EQUAL => (30, 30),
        ASSIGN | SUPER_ASSIGN | WALRUS => (40, 40),
        ASSIGN_RIGHT | SUPER_ASSIGN_RIGHT => (50, 51),
        TILDE => (60, 61),
        OR | OR2 => (70, 71),
        AND | AND2 => (80, 81),
        GREATER_THAN | GREATER_THAN_OR_EQUAL_TO | LESS_THAN | LESS_THAN_OR_EQUAL_TO | EQUAL2 | NOT_EQUAL => (100, 101),
        PLUS | MINUS => (110, 111),
        MULTIPLY | DIVIDE => (120, 121),
        SPECIAL | PIPE => (130, 131),
        COLON => (150, 151),
        EXPONENTIATE | EXPONENTIATE2 => (170, 170),
        _ => return None,
    })
}
/// The least binding power of a body: all operators but `?`.
const BODY: u32 = 20;
/// The least binding power where `=` is no operator.
const NO_EQUAL: u32 = 35;

impl P {
    fn peek(&self) -> RSyntaxKind { let t = &self.toks[self.at]; if t.semi && self.semi_done != self.at { SEMICOLON } else { t.kind } }
    fn newline(&self) -> bool { self.toks[self.at].newline }
    fn err<T>(&self, m: impl Into<String>) -> R<T> { Err(ParseError { message: m.into(), offset: self.toks[self.at].start }) }
    fn bump(&mut self) -> Child {
        let t = self.toks[self.at].clone();
        self.at += 1;
        self.pos = t.trail.last().map_or(t.end, |p| p.2);
        self.b.token(t.kind, &t.lead, (t.start, t.end), &t.trail)
    }
    fn expect(&mut self, k: RSyntaxKind) -> R<Child> { if self.peek() == k { Ok(self.bump()) } else { self.err(format!("expected {k:?}, found {:?}", self.peek())) } }
    fn node(&mut self, k: RSyntaxKind, c: Vec<Child>) -> Child { self.b.node(k, c, self.pos) }
    fn ctx(&self) -> Ctx { *self.ctx.last().unwrap() }

    fn root(&mut self) -> R<Child> {
        let bom = if self.peek() == UNICODE_BOM { self.bump() } else { Child::Empty };
        let list = self.statements(EOF)?;
        let eof = self.bump();
        Ok(self.node(R_ROOT, vec![bom, list, eof]))
    }
    fn statements(&mut self, end: RSyntaxKind) -> R<Child> {
        let mut v = vec![];
        loop {
            if self.peek() == SEMICOLON { self.semi_done = self.at; }
            if self.peek() == end { break; }
            v.push(self.expr(0)?);
            if self.peek() != end && self.peek() != SEMICOLON && !self.newline() { return self.err(format!("unexpected {:?}", self.peek())); }
        }
        Ok(self.node(R_EXPRESSION_LIST, v))
    }
    fn expr(&mut self, min: u32) -> R<Child> {
        self.depth += 1;
        if self.depth > MAX_DEPTH { return self.err("nested too deeply"); }
        let mut left = self.prefix()?;
        let mut compared = false;
        loop {
            if self.newline() && self.ctx() != Ctx::Paren { break; }
            let k = self.peek();
            match k {
                L_PAREN | L_BRACK | L_BRACK2 => {
                    let args = self.arguments(k)?;
                    let kind = match k { L_PAREN => R_CALL, L_BRACK => R_SUBSET, _ => R_SUBSET2 };
                    left = self.node(kind, vec![left, args]);
                }
                COLON2 | COLON3 => {
                    if !selector(self.b.kind_of(left)) { return self.err("unexpected ::"); }
                    let op = self.bump();
                    let right = self.primary()?;
                    if !selector(self.b.kind_of(right)) { return self.err("unexpected right-hand side of ::"); }
                    left = self.node(R_NAMESPACE_EXPRESSION, vec![left, op, right]);
                }
                DOLLAR | AT => {
                    let op = self.bump();
                    let mut right = self.prefix()?;
                    if selector(self.b.kind_of(right)) && matches!(self.peek(), COLON2 | COLON3) {
                        let op = self.bump();
                        let r = self.primary()?;
                        right = self.node(R_NAMESPACE_EXPRESSION, vec![right, op, r]);
                    }
                    left = self.node(R_EXTRACT_EXPRESSION, vec![left, op, right]);
                }
                _ => {
                    let Some((l, r)) = infix(k) else { break };
                    if l < min { break; }
                    if l == 100 { if compared { return self.err("comparison operators do not associate"); } compared = true; } else if l < 100 { compared = false; }
                    let op = self.bump();
                    let right = self.expr(r)?;
                    left = self.node(R_BINARY_EXPRESSION, vec![left, op, right]);
                }
            }
        }
        self.depth -= 1;
        Ok(left)
    }
    fn prefix(&mut self) -> R<Child> {
        let k = self.peek();
        let bp = match k { BANG => 91, TILDE => 61, WAT => 11, MINUS | PLUS => 161, _ => return self.primary() };
        let op = self.bump();
        let arg = self.expr(bp)?;
        Ok(self.node(R_UNARY_EXPRESSION, vec![op, arg]))
    }
    fn leaf(&mut self, k: RSyntaxKind) -> R<Child> { let t = self.bump(); Ok(self.node(k, vec![t])) }
    fn within<T>(&mut self, c: Ctx, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> { self.ctx.push(c); let r = f(self)?; self.ctx.pop(); Ok(r) }

    fn primary(&mut self) -> R<Child> {
        self.depth += 1;
        if self.depth > MAX_DEPTH { return self.err("nested too deeply"); }
        let r = self.primary_();
        self.depth -= 1;
        r
    }
    fn primary_(&mut self) -> R<Child> {
        match self.peek() {
            IDENT => self.leaf(R_IDENTIFIER), DOTS => self.leaf(R_DOTS), DOT_DOT_I => self.leaf(R_DOT_DOT_I),
            R_INTEGER_LITERAL => self.leaf(R_INTEGER_VALUE), R_DOUBLE_LITERAL => self.leaf(R_DOUBLE_VALUE), R_COMPLEX_LITERAL => self.leaf(R_COMPLEX_VALUE), R_STRING_LITERAL => self.leaf(R_STRING_VALUE),
            TRUE_KW => self.leaf(R_TRUE_EXPRESSION), FALSE_KW => self.leaf(R_FALSE_EXPRESSION), NULL_KW => self.leaf(R_NULL_EXPRESSION), INF_KW => self.leaf(R_INF_EXPRESSION), NAN_KW => self.leaf(R_NAN_EXPRESSION),
            NA_LOGICAL_KW | NA_INTEGER_KW | NA_DOUBLE_KW | NA_COMPLEX_KW | NA_CHARACTER_KW => self.leaf(R_NA_EXPRESSION),
            RETURN_KW => self.leaf(R_RETURN_EXPRESSION), NEXT_KW => self.leaf(R_NEXT_EXPRESSION), BREAK_KW => self.leaf(R_BREAK_EXPRESSION),
            L_PAREN => {
                let l = self.bump();
                let (e, r) = self.within(Ctx::Paren, |p| { let e = p.expr(0)?; Ok((e, p.expect(R_PAREN)?)) })?;
                Ok(self.node(R_PARENTHESIZED_EXPRESSION, vec![l, e, r]))
            }
            L_CURLY => {
                let l = self.bump();
                let (e, r) = self.within(Ctx::Brace, |p| { let e = p.statements(R_CURLY)?; Ok((e, p.expect(R_CURLY)?)) })?;
                Ok(self.node(R_BRACED_EXPRESSIONS, vec![l, e, r]))
            }
            FUNCTION_KW | BACKSLASH => {
                let f = self.bump();
                let params = self.parameters()?;
                let body = self.expr(BODY)?;
                Ok(self.node(R_FUNCTION_DEFINITION, vec![f, params, body]))
            }
            IF_KW => {
                let i = self.bump();
                let (l, c, r) = self.condition()?;
                let then = self.expr(BODY)?;
                let els = if self.peek() == ELSE_KW && (self.ctx() != Ctx::Top || !self.newline()) {
                    let e = self.bump();
                    let alt = self.expr(BODY)?;
                    self.node(R_ELSE_CLAUSE, vec![e, alt])
                } else { Child::Empty };
                Ok(self.node(R_IF_STATEMENT, vec![i, l, c, r, then, els]))
            }
            WHILE_KW => {
                let w = self.bump();
                let (l, c, r) = self.condition()?;
                let body = self.expr(BODY)?;
                Ok(self.node(R_WHILE_STATEMENT, vec![w, l, c, r, body]))
            }
            REPEAT_KW => {
                let t = self.bump();
                let body = self.expr(BODY)?;
                Ok(self.node(R_REPEAT_STATEMENT, vec![t, body]))
            }
            FOR_KW => {
                let f = self.bump();
                let l = self.expect(L_PAREN)?;
                let (v, i, s, r) = self.within(Ctx::Paren, |p| {
                    if p.peek() != IDENT { return p.err("expected a variable"); }
                    let v = p.leaf(R_IDENTIFIER)?;
                    let i = p.expect(IN_KW)?;
                    let s = p.expr(NO_EQUAL)?;
                    Ok((v, i, s, p.expect(R_PAREN)?))
                })?;
                let body = self.expr(BODY)?;
                Ok(self.node(R_FOR_STATEMENT, vec![f, l, v, i, s, r, body]))
            }
            k => self.err(format!("unexpected {k:?}")),
        }
    }
    fn condition(&mut self) -> R<(Child, Child, Child)> {
        let l = self.expect(L_PAREN)?;
        let (c, r) = self.within(Ctx::Paren, |p| { let c = p.expr(NO_EQUAL)?; Ok((c, p.expect(R_PAREN)?)) })?;
        Ok((l, c, r))
    }
    fn parameters(&mut self) -> R<Child> {
        let l = self.expect(L_PAREN)?;
        let (list, r) = self.within(Ctx::Paren, |p| {
            let mut v = vec![];
            while p.peek() != R_PAREN {
                let name = match p.peek() { IDENT => p.leaf(R_IDENTIFIER)?, DOTS => p.leaf(R_DOTS)?, DOT_DOT_I => p.leaf(R_DOT_DOT_I)?, k => return p.err(format!("unexpected {k:?} in parameters")) };
                let default = if p.peek() == EQUAL { let eq = p.bump(); let e = p.expr(NO_EQUAL)?; p.node(R_PARAMETER_DEFAULT, vec![eq, e]) } else { Child::Empty };
                v.push(p.node(R_PARAMETER, vec![name, default]));
                if p.peek() == COMMA { v.push(p.bump()); if p.peek() == R_PAREN { return p.err("unexpected )"); } } else if p.peek() != R_PAREN { return p.err("expected , or )"); }
            }
            let list = p.node(R_PARAMETER_LIST, v);
            Ok((list, p.expect(R_PAREN)?))
        })?;
        Ok(self.node(R_PARAMETERS, vec![l, list, r]))
    }
    fn arguments(&mut self, open: RSyntaxKind) -> R<Child> {
        let (close, kind) = match open { L_PAREN => (R_PAREN, R_CALL_ARGUMENTS), L_BRACK => (R_BRACK, R_SUBSET_ARGUMENTS), _ => (R_BRACK2, R_SUBSET2_ARGUMENTS) };
        let l = self.bump();
        let (list, r) = self.within(Ctx::Paren, |p| {
            let mut v = vec![];
            if p.peek() != close {
                loop {
                    v.push(p.argument(close)?);
                    if p.peek() != COMMA { break; }
                    v.push(p.bump());
                }
            }
            let list = p.node(R_ARGUMENT_LIST, v);
            Ok((list, p.expect(close)?))
        })?;
        Ok(self.node(kind, vec![l, list, r]))
    }
    fn argument(&mut self, close: RSyntaxKind) -> R<Child> {
        let named = matches!(self.peek(), IDENT | R_STRING_LITERAL | NULL_KW | DOTS | DOT_DOT_I) && self.toks[self.at + 1].kind == EQUAL && !self.toks[self.at + 1].semi;
        let clause = if named {
            let name = match self.peek() { IDENT => self.leaf(R_IDENTIFIER)?, R_STRING_LITERAL => self.leaf(R_STRING_VALUE)?, NULL_KW => self.leaf(R_NULL_EXPRESSION)?, DOTS => self.leaf(R_DOTS)?, _ => self.leaf(R_DOT_DOT_I)? };
            let eq = self.bump();
            self.node(R_ARGUMENT_NAME_CLAUSE, vec![name, eq])
        } else { Child::Empty };
        let value = if self.peek() == COMMA || self.peek() == close { Child::Empty } else { self.expr(NO_EQUAL)? };
        // `?` is allowed there, `=` is not.
        Ok(self.node(R_ARGUMENT, vec![clause, value]))
    }
}
fn selector(k: Option<RSyntaxKind>) -> bool { matches!(k, Some(R_IDENTIFIER | R_STRING_VALUE | R_DOTS | R_DOT_DOT_I)) }
