//! A stand-in for Air's R parser: a lossless lexer and an operator-precedence parser following R's grammar.
#![allow(clippy::all)]
use air_r_syntax::{RLanguage, RRoot, RSyntaxKind, RSyntaxNode};
use biome_rowan::{AstNode, SendNode};
mod lexer;
mod parser;
pub use lexer::{Lexed, Tok, lex};

#[derive(Clone, Debug, Default)]
pub struct RParserOptions {}

#[derive(Clone, Debug)]
pub struct ParseError { pub message: String, pub offset: u32 }
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{} at byte {}", self.message, self.offset) } }
impl std::error::Error for ParseError {}

#[derive(Clone, Debug)]
pub struct Parse { root: SendNode, error: Option<ParseError> }
impl Parse {
    pub fn syntax(&self) -> RSyntaxNode { self.root.to_node::<RLanguage>() }
    pub fn tree(&self) -> RRoot { RRoot::unwrap_cast(self.syntax()) }
    pub fn has_error(&self) -> bool { self.error.is_some() }
    pub fn has_errors(&self) -> bool { self.error.is_some() }
    pub fn error(&self) -> Option<&ParseError> { self.error.as_ref() }
    pub fn into_errors(self) -> Vec<ParseError> { self.error.into_iter().collect() }
    pub fn into_result(self) -> Result<Self, ParseError> { match &self.error { Some(e) => Err(e.clone()), None => Ok(self) } }
}

pub fn parse(text: &str, _options: RParserOptions) -> Parse {
    let (root, error) = parser::parse(text);
    Parse { root, error }
}
pub type Kind = RSyntaxKind;
