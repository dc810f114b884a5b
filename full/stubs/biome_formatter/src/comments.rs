//! Attaches every comment of a tree to a node, as its leading, trailing or dangling comment.
use biome_rowan::{Direction, Language, NodeOrToken, SyntaxNode, SyntaxToken, SyntaxTriviaPieceComments, WalkEvent, SyntaxKind};
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CommentKind { InlineBlock, Block, Line }
impl CommentKind { pub const fn is_line(&self) -> bool { matches!(self, Self::Line) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CommentTextPosition { EndOfLine, OwnLine, SameLine }
impl CommentTextPosition {
    pub const fn is_end_of_line(&self) -> bool { matches!(self, Self::EndOfLine) }
    pub const fn is_own_line(&self) -> bool { matches!(self, Self::OwnLine) }
    pub const fn is_same_line(&self) -> bool { matches!(self, Self::SameLine) }
}
#[derive(Clone, Debug)]
pub struct SourceComment<L: Language> { piece: SyntaxTriviaPieceComments<L>, lines_before: u32, lines_after: u32, kind: CommentKind }
impl<L: Language> SourceComment<L> {
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { &self.piece }
    pub fn lines_before(&self) -> u32 { self.lines_before }
    pub fn lines_after(&self) -> u32 { self.lines_after }
    pub fn kind(&self) -> CommentKind { self.kind }
}
#[derive(Clone, Debug)]
pub struct DecoratedComment<L: Language> {
    enclosing: SyntaxNode<L>, preceding: Option<SyntaxNode<L>>, following: Option<SyntaxNode<L>>, following_token: Option<SyntaxToken<L>>,
    position: CommentTextPosition, lines_before: u32, lines_after: u32, piece: SyntaxTriviaPieceComments<L>, kind: CommentKind,
}
impl<L: Language> DecoratedComment<L> {
    pub fn enclosing_node(&self) -> &SyntaxNode<L> { &self.enclosing }
    pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> { self.preceding.as_ref() }
    pub fn following_node(&self) -> Option<&SyntaxNode<L>> { self.following.as_ref() }
    pub fn following_token(&self) -> Option<&SyntaxToken<L>> { self.following_token.as_ref() }
    pub fn enclosing_parent(&self) -> Option<SyntaxNode<L>> { self.enclosing.parent() }
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { &self.piece }
    pub fn text_position(&self) -> CommentTextPosition { self.position }
    pub fn lines_before(&self) -> u32 { self.lines_before }
    pub fn lines_after(&self) -> u32 { self.lines_after }
    pub fn kind(&self) -> CommentKind { self.kind }
    fn source(self) -> SourceComment<L> { SourceComment { piece: self.piece, lines_before: self.lines_before, lines_after: self.lines_after, kind: self.kind } }
}
#[derive(Debug)]
pub enum CommentPlacement<L: Language> {
    Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
    Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
    Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
    Default(DecoratedComment<L>),
}
impl<L: Language> CommentPlacement<L> {
    pub fn leading(node: SyntaxNode<L>, c: DecoratedComment<L>) -> Self { Self::Leading { node, comment: c.source() } }
    pub fn trailing(node: SyntaxNode<L>, c: DecoratedComment<L>) -> Self { Self::Trailing { node, comment: c.source() } }
    pub fn dangling(node: SyntaxNode<L>, c: DecoratedComment<L>) -> Self { Self::Dangling { node, comment: c.source() } }
    pub fn or_else<F: FnOnce(DecoratedComment<L>) -> Self>(self, f: F) -> Self { match self { Self::Default(c) => f(c), p => p } }
}
pub trait CommentStyle: Default {
    type Language: Language;
    fn is_suppression(_text: &str) -> bool { false }
    fn is_global_suppression(_text: &str) -> bool { false }
    fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
    fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> { CommentPlacement::Default(comment) }
}

struct Parts<L: Language> { leading: Vec<SourceComment<L>>, trailing: Vec<SourceComment<L>>, dangling: Vec<SourceComment<L>> }
impl<L: Language> Default for Parts<L> { fn default() -> Self { Self { leading: vec![], trailing: vec![], dangling: vec![] } } }
pub struct Comments<L: Language> { map: HashMap<SyntaxNode<L>, Parts<L>> }
impl<L: Language> Default for Comments<L> { fn default() -> Self { Self { map: HashMap::new() } } }
impl<L: Language> fmt::Debug for Comments<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Comments({} nodes)", self.map.len()) } }
impl<L: Language> Comments<L> {
    pub fn from_node<S: CommentStyle<Language = L>>(root: &SyntaxNode<L>, style: &S, _source_map: Option<&TransformSourceMap>) -> Self {
        let mut v = Visitor { style, map: HashMap::new(), parents: vec![], preceding: None, following: None, last: None, pending: vec![] };
        v.visit(root);
        Self { map: v.map }
    }
    pub fn has_comments(&self, n: &SyntaxNode<L>) -> bool { self.map.contains_key(n) }
    pub fn has_leading_comments(&self, n: &SyntaxNode<L>) -> bool { !self.leading_comments(n).is_empty() }
    pub fn has_trailing_comments(&self, n: &SyntaxNode<L>) -> bool { !self.trailing_comments(n).is_empty() }
    pub fn has_dangling_comments(&self, n: &SyntaxNode<L>) -> bool { !self.dangling_comments(n).is_empty() }
    pub fn leading_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.map.get(n).map_or(&[], |p| p.leading.as_slice()) }
    pub fn trailing_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.map.get(n).map_or(&[], |p| p.trailing.as_slice()) }
    pub fn dangling_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.map.get(n).map_or(&[], |p| p.dangling.as_slice()) }
    pub fn leading_dangling_trailing_comments<'a>(&'a self, n: &'a SyntaxNode<L>) -> impl Iterator<Item = &'a SourceComment<L>> + 'a { self.leading_comments(n).iter().chain(self.dangling_comments(n)).chain(self.trailing_comments(n)) }
}
/// Where text was moved by a transformation (never given here).
#[derive(Debug)]
pub struct TransformSourceMap;

struct Visitor<'s, S: CommentStyle> {
    style: &'s S, map: HashMap<SyntaxNode<S::Language>, Parts<S::Language>>, parents: Vec<SyntaxNode<S::Language>>, preceding: Option<SyntaxNode<S::Language>>,
    following: Option<usize>, last: Option<SyntaxToken<S::Language>>, pending: Vec<DecoratedComment<S::Language>>,
}
impl<S: CommentStyle> Visitor<'_, S> {
    fn visit(&mut self, root: &SyntaxNode<S::Language>) {
        for e in root.preorder_with_tokens(Direction::Next) {
            match e {
                WalkEvent::Enter(NodeOrToken::Node(n)) => self.enter(n),
                WalkEvent::Leave(NodeOrToken::Node(n)) => self.leave(n),
                WalkEvent::Enter(NodeOrToken::Token(t)) => self.token(t),
                WalkEvent::Leave(NodeOrToken::Token(_)) => {}
            }
        }
        if let Some(last) = self.last.take() {
            self.parents.push(root.clone());
            self.trailing(&last, None);
            self.flush(None);
        }
    }
    fn enter(&mut self, n: SyntaxNode<S::Language>) {
        // Lists have no comments: these belong to the parent or to an element.
        if n.kind().is_list() { return; }
        let is_root = self.following == Some(0);
        if self.following.is_none() || is_root {
            self.flush(Some(&n));
            self.following = Some(self.parents.len());
        }
        self.parents.push(n);
    }
    fn leave(&mut self, n: SyntaxNode<S::Language>) {
        if n.kind().is_list() { return; }
        self.parents.pop();
        self.following = None;
        self.flush(None);
        self.preceding = Some(n);
    }
    fn enclosing(&self) -> SyntaxNode<S::Language> {
        match self.following { None => self.parents.last(), Some(0) => self.parents.first(), Some(i) => self.parents.get(i - 1) }.expect("a token is inside of a node").clone()
    }
    fn add(&mut self, piece: SyntaxTriviaPieceComments<S::Language>, position: CommentTextPosition, lines_before: u32, following_token: Option<SyntaxToken<S::Language>>) {
        let c = DecoratedComment { enclosing: self.enclosing(), preceding: self.preceding.clone(), following: None, following_token, position, lines_before, lines_after: 0, kind: S::get_comment_kind(&piece), piece };
        self.pending.push(c);
    }
    fn trailing(&mut self, last: &SyntaxToken<S::Language>, next: Option<&SyntaxToken<S::Language>>) -> (usize, u32) {
        let start = self.pending.len();
        for p in last.trailing_trivia().pieces() {
            if let Some(c) = p.as_comments() { self.add(c, CommentTextPosition::SameLine, 0, next.cloned()); }
        }
        (start, 0)
    }
    fn token(&mut self, t: SyntaxToken<S::Language>) {
        let (start, mut lines) = match self.last.take() { Some(l) => self.trailing(&l, Some(&t)), None => (self.pending.len(), 0) };
        let mut position = CommentTextPosition::SameLine;
        let mut same_line_end: Option<usize> = None;
        for p in t.leading_trivia().pieces() {
            if p.is_newline() {
                lines += 1;
                position = CommentTextPosition::OwnLine;
                same_line_end.get_or_insert(self.pending.len());
            } else if let Some(c) = p.as_comments() {
                self.add(c, position, lines, Some(t.clone()));
                lines = 0;
            }
        }
        if let Some(end) = same_line_end {
            for c in &mut self.pending[start..end] { c.position = CommentTextPosition::EndOfLine; }
        }
        if let Some(i) = self.following.take() {
            let f = self.parents[i].clone();
            self.flush(Some(&f));
        }
        self.preceding = None;
        self.last = Some(t);
    }
    fn flush(&mut self, following: Option<&SyntaxNode<S::Language>>) {
        for mut c in std::mem::take(&mut self.pending) {
            c.following = following.cloned();
            match self.style.place_comment(c) {
                CommentPlacement::Leading { node, comment } => self.map.entry(node).or_default().leading.push(comment),
                CommentPlacement::Trailing { node, comment } => self.map.entry(node).or_default().trailing.push(comment),
                CommentPlacement::Dangling { node, comment } => self.map.entry(node).or_default().dangling.push(comment),
                CommentPlacement::Default(c) => self.default(c),
            }
        }
    }
    fn default(&mut self, c: DecoratedComment<S::Language>) {
        enum W { L, T, D }
        let (p, f) = (c.preceding.clone(), c.following.clone());
        let (n, w) = match (c.position, p, f) {
            (CommentTextPosition::EndOfLine, Some(p), _) => (p, W::T),
            (CommentTextPosition::EndOfLine, None, Some(f)) => (f, W::L),
            (CommentTextPosition::OwnLine, _, Some(f)) => (f, W::L),
            (CommentTextPosition::OwnLine, Some(p), None) => (p, W::T),
            (CommentTextPosition::SameLine, Some(p), Some(f)) => if p.last_token() == Some(c.piece.as_piece().token()) { (p, W::T) } else { (f, W::L) },
            (CommentTextPosition::SameLine, Some(p), None) => (p, W::T),
            (CommentTextPosition::SameLine, None, Some(f)) => (f, W::L),
            (_, None, None) => (c.enclosing.clone(), W::D),
        };
        let e = self.map.entry(n).or_default();
        match w { W::L => e.leading.push(c.source()), W::T => e.trailing.push(c.source()), W::D => e.dangling.push(c.source()) }
    }
}
