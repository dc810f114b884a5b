//! A stand-in for Air's R syntax nodes.
#![allow(clippy::all)]
pub use biome_rowan::{TextLen, TextRange, TextSize, TriviaPieceKind, TokenAtOffset, WalkEvent, Direction};
use biome_rowan::{AstNode, RawSyntaxKind, SyntaxKind, SyntaxResult, support};

pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;
pub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;
pub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;
pub type RSyntaxList = biome_rowan::SyntaxList<RLanguage>;
pub type RSyntaxNodeChildren = biome_rowan::SyntaxNodeChildren<RLanguage>;
pub type RSyntaxElementChildren = biome_rowan::SyntaxElementChildren<RLanguage>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct RLanguage;
impl biome_rowan::Language for RLanguage { type Kind = RSyntaxKind; type Root = RRoot; }

impl SyntaxKind for RSyntaxKind {
    const TOMBSTONE: Self = RSyntaxKind::TOMBSTONE;
    const EOF: Self = RSyntaxKind::EOF;
    fn is_bogus(&self) -> bool { self.is_bogus_kind() }
    fn to_bogus(&self) -> Self { RSyntaxKind::R_BOGUS }
    fn to_raw(&self) -> RawSyntaxKind { RawSyntaxKind(*self as u16) }
    fn from_raw(raw: RawSyntaxKind) -> Self { assert!(raw.0 < RSyntaxKind::__LAST as u16); unsafe { std::mem::transmute::<u16, RSyntaxKind>(raw.0) } }
    fn is_root(&self) -> bool { *self == RSyntaxKind::R_ROOT }
    fn is_list(&self) -> bool { RSyntaxKind::is_list(*self) }
    fn to_string(&self) -> Option<&'static str> { self.to_str() }
}

macro_rules! ret {
    (req $t:ty) => { SyntaxResult<$t> };
    (opt $t:ty) => { Option<$t> };
    (list $t:ty) => { $t };
    (tok $t:ty) => { SyntaxResult<$t> };
    (otok $t:ty) => { Option<$t> };
}
macro_rules! get {
    (req $s:ident $n:expr) => { support::required_node(&$s.syntax, $n) };
    (opt $s:ident $n:expr) => { support::node(&$s.syntax, $n) };
    (list $s:ident $n:expr) => { biome_rowan::AstNode::unwrap_cast(support::list_node(&$s.syntax, $n)) };
    (tok $s:ident $n:expr) => { support::required_token(&$s.syntax, $n) };
    (otok $s:ident $n:expr) => { support::token(&$s.syntax, $n) };
}
macro_rules! ast {
    ($name:ident, $kind:ident) => {
        #[derive(Clone, PartialEq, Eq, Hash)]
        pub struct $name { pub(crate) syntax: RSyntaxNode }
        impl $name {
            /// # Safety
            /// The node must be of this kind.
            pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
        }
        impl std::fmt::Debug for $name { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, concat!(stringify!($name), "({:?})"), self.syntax) } }
        impl std::fmt::Display for $name { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&self.syntax, f) } }
        impl AstNode for $name {
            type Language = RLanguage;
            fn can_cast(kind: RSyntaxKind) -> bool { kind == RSyntaxKind::$kind }
            fn cast(syntax: RSyntaxNode) -> Option<Self> { if Self::can_cast(syntax.kind()) { Some(Self { syntax }) } else { None } }
            fn syntax(&self) -> &RSyntaxNode { &self.syntax }
            fn into_syntax(self) -> RSyntaxNode { self.syntax }
        }
        impl From<$name> for RSyntaxNode { fn from(n: $name) -> RSyntaxNode { n.syntax } }
        impl From<$name> for RSyntaxElement { fn from(n: $name) -> RSyntaxElement { n.syntax.into() } }
    };
}
macro_rules! node {
    ($name:ident, $kind:ident, $fields:ident { $($f:ident : $how:ident $t:ty = $n:literal,)* }) => {
        ast!($name, $kind);
        impl $name {
            pub fn as_fields(&self) -> $fields { $fields { $($f: self.$f()),* } }
            $(pub fn $f(&self) -> ret!($how $t) { get!($how self $n) })*
        }
        #[derive(Clone, Debug)]
        pub struct $fields { $(pub $f: ret!($how $t)),* }
    };
}
macro_rules! node_list {
    ($name:ident, $kind:ident, $item:ident) => {
        ast!($name, $kind);
        impl biome_rowan::AstNodeList for $name { type Language = RLanguage; type Node = $item; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax_list(self) -> RSyntaxNode { self.syntax } }
        impl IntoIterator for $name { type Item = $item; type IntoIter = biome_rowan::AstNodeListIterator<RLanguage, $item>; fn into_iter(self) -> Self::IntoIter { biome_rowan::AstNodeList::iter(&self) } }
        impl IntoIterator for &$name { type Item = $item; type IntoIter = biome_rowan::AstNodeListIterator<RLanguage, $item>; fn into_iter(self) -> Self::IntoIter { biome_rowan::AstNodeList::iter(self) } }
    };
}
macro_rules! separated_list {
    ($name:ident, $kind:ident, $item:ident) => {
        ast!($name, $kind);
        impl biome_rowan::AstSeparatedList for $name { type Language = RLanguage; type Node = $item; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax_list(self) -> RSyntaxNode { self.syntax } }
        impl IntoIterator for $name { type Item = SyntaxResult<$item>; type IntoIter = biome_rowan::AstSeparatedListNodesIterator<RLanguage, $item>; fn into_iter(self) -> Self::IntoIter { biome_rowan::AstSeparatedList::iter(&self) } }
        impl IntoIterator for &$name { type Item = SyntaxResult<$item>; type IntoIter = biome_rowan::AstSeparatedListNodesIterator<RLanguage, $item>; fn into_iter(self) -> Self::IntoIter { biome_rowan::AstSeparatedList::iter(self) } }
    };
}
macro_rules! union {
    ($name:ident { $($v:ident $as:ident),* }) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug)]
        pub enum $name { $($v($v)),* }
        impl $name { $(pub fn $as(&self) -> Option<&$v> { match self { Self::$v(n) => Some(n), #[allow(unreachable_patterns)] _ => None } })* }
        impl AstNode for $name {
            type Language = RLanguage;
            fn can_cast(kind: RSyntaxKind) -> bool { $($v::can_cast(kind))||* }
            fn cast(syntax: RSyntaxNode) -> Option<Self> { $(if $v::can_cast(syntax.kind()) { return $v::cast(syntax).map(Self::$v); })* None }
            fn syntax(&self) -> &RSyntaxNode { match self { $(Self::$v(n) => n.syntax()),* } }
            fn into_syntax(self) -> RSyntaxNode { match self { $(Self::$v(n) => n.into_syntax()),* } }
        }
        $(impl From<$v> for $name { fn from(n: $v) -> Self { Self::$v(n) } })*
        impl std::fmt::Display for $name { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(self.syntax(), f) } }
        impl From<$name> for RSyntaxNode { fn from(n: $name) -> RSyntaxNode { n.into_syntax() } }
        impl From<$name> for RSyntaxElement { fn from(n: $name) -> RSyntaxElement { n.into_syntax().into() } }
    };
}
mod generated;
pub use generated::*;

#[macro_export]
macro_rules! T {
    [;] => { $crate::RSyntaxKind::SEMICOLON }; [,] => { $crate::RSyntaxKind::COMMA };
    ['{'] => { $crate::RSyntaxKind::L_CURLY }; ['}'] => { $crate::RSyntaxKind::R_CURLY };
    ['('] => { $crate::RSyntaxKind::L_PAREN }; [')'] => { $crate::RSyntaxKind::R_PAREN };
    ['['] => { $crate::RSyntaxKind::L_BRACK }; [']'] => { $crate::RSyntaxKind::R_BRACK };
    [=] => { $crate::RSyntaxKind::EQUAL }; [==] => { $crate::RSyntaxKind::EQUAL2 }; [!=] => { $crate::RSyntaxKind::NOT_EQUAL };
    [!] => { $crate::RSyntaxKind::BANG }; [:] => { $crate::RSyntaxKind::COLON }; [::] => { $crate::RSyntaxKind::COLON2 };
    [&] => { $crate::RSyntaxKind::AND }; [&&] => { $crate::RSyntaxKind::AND2 }; [|] => { $crate::RSyntaxKind::OR }; [||] => { $crate::RSyntaxKind::OR2 };
    [<-] => { $crate::RSyntaxKind::ASSIGN }; [->] => { $crate::RSyntaxKind::ASSIGN_RIGHT }; [~] => { $crate::RSyntaxKind::TILDE };
    [>] => { $crate::RSyntaxKind::GREATER_THAN }; [<] => { $crate::RSyntaxKind::LESS_THAN }; [+] => { $crate::RSyntaxKind::PLUS }; [-] => { $crate::RSyntaxKind::MINUS };
    [if] => { $crate::RSyntaxKind::IF_KW }; [else] => { $crate::RSyntaxKind::ELSE_KW }; [for] => { $crate::RSyntaxKind::FOR_KW }; [in] => { $crate::RSyntaxKind::IN_KW }; [while] => { $crate::RSyntaxKind::WHILE_KW };
}
