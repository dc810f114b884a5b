use crate::{TextRange, TextSize};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::{Deref, Range};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct RawSyntaxKind(pub u16);

pub trait SyntaxKind: fmt::Debug + PartialEq + Copy + 'static {
    const TOMBSTONE: Self;
    const EOF: Self;
    fn is_bogus(&self) -> bool;
    fn to_bogus(&self) -> Self;
    fn to_raw(&self) -> RawSyntaxKind;
    fn from_raw(raw: RawSyntaxKind) -> Self;
    fn is_root(&self) -> bool;
    fn is_list(&self) -> bool;
    fn is_trivia(self) -> bool { false }
    fn to_string(&self) -> Option<&'static str> { None }
}

pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + Hash {
    type Kind: SyntaxKind;
    type Root: crate::AstNode<Language = Self> + Clone + Eq + fmt::Debug;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum TriviaPieceKind { Newline, Whitespace, SingleLineComment, MultiLineComment, Skipped }
impl TriviaPieceKind {
    pub const fn is_newline(&self) -> bool { matches!(self, Self::Newline) }
    pub const fn is_whitespace(&self) -> bool { matches!(self, Self::Whitespace) }
    pub const fn is_comment(&self) -> bool { matches!(self, Self::SingleLineComment | Self::MultiLineComment) }
    pub const fn is_single_line_comment(&self) -> bool { matches!(self, Self::SingleLineComment) }
    pub const fn is_multiline_comment(&self) -> bool { matches!(self, Self::MultiLineComment) }
    pub const fn is_skipped(&self) -> bool { matches!(self, Self::Skipped) }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TriviaPiece { pub kind: TriviaPieceKind, pub length: TextSize }
impl TriviaPiece {
    pub fn new<L: Into<TextSize>>(kind: TriviaPieceKind, length: L) -> Self { Self { kind, length: length.into() } }
    pub fn newline<L: Into<TextSize>>(l: L) -> Self { Self::new(TriviaPieceKind::Newline, l) }
    pub fn whitespace<L: Into<TextSize>>(l: L) -> Self { Self::new(TriviaPieceKind::Whitespace, l) }
    pub fn single_line_comment<L: Into<TextSize>>(l: L) -> Self { Self::new(TriviaPieceKind::SingleLineComment, l) }
    pub fn kind(&self) -> TriviaPieceKind { self.kind }
    pub fn text_len(&self) -> TextSize { self.length }
}

#[derive(Clone, Copy, Debug)]
pub(crate) enum SlotData { Node(u32), Token(u32), Empty }
pub(crate) struct NodeData { pub kind: RawSyntaxKind, pub parent: Option<(u32, u32)>, pub slots: Vec<SlotData>, pub range: (u32, u32) }
pub(crate) struct TokenData { pub kind: RawSyntaxKind, pub parent: (u32, u32), pub lead: Range<u32>, pub trail: Range<u32>, pub range: (u32, u32), pub trimmed: (u32, u32) }
pub(crate) struct Tree { pub text: String, pub nodes: Vec<NodeData>, pub tokens: Vec<TokenData>, pub pieces: Vec<(TriviaPieceKind, u32, u32)>, pub root: u32 }

fn tr(r: (u32, u32)) -> TextRange { TextRange::new(r.0.into(), r.1.into()) }

// ------------------------------------------------------------------ nodes
pub struct SyntaxNode<L: Language> { pub(crate) tree: Arc<Tree>, pub(crate) ix: u32, pub(crate) p: PhantomData<(L, Rc<()>)> }
impl<L: Language> Clone for SyntaxNode<L> { fn clone(&self) -> Self { Self { tree: self.tree.clone(), ix: self.ix, p: PhantomData } } }
impl<L: Language> PartialEq for SyntaxNode<L> { fn eq(&self, o: &Self) -> bool { Arc::ptr_eq(&self.tree, &o.tree) && self.ix == o.ix } }
impl<L: Language> Eq for SyntaxNode<L> {}
impl<L: Language> Hash for SyntaxNode<L> { fn hash<H: Hasher>(&self, h: &mut H) { (Arc::as_ptr(&self.tree) as usize, self.ix).hash(h) } }
impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            let mut level = 0;
            for e in self.preorder_with_tokens(Direction::Next) {
                match e {
                    WalkEvent::Enter(e) => {
                        for _ in 0..level { write!(f, "  ")?; }
                        match e { NodeOrToken::Node(n) => writeln!(f, "{}: {:?}@{:?}", n.index(), n.kind(), n.text_range_with_trivia())?, NodeOrToken::Token(t) => writeln!(f, "{}: {:?}", t.index(), t)? }
                        level += 1;
                    }
                    WalkEvent::Leave(_) => level -= 1,
                }
            }
            Ok(())
        } else {
            write!(f, "{:?}@{:?}", self.kind(), self.text_range_with_trivia())
        }
    }
}
impl<L: Language> fmt::Display for SyntaxNode<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.tree.text[Range::<usize>::from(self.text_range_with_trivia())]) } }

impl<L: Language> SyntaxNode<L> {
    pub(crate) fn root_of(tree: Arc<Tree>) -> Self { let ix = tree.root; Self { tree, ix, p: PhantomData } }
    fn d(&self) -> &NodeData { &self.tree.nodes[self.ix as usize] }
    fn node(&self, ix: u32) -> Self { Self { tree: self.tree.clone(), ix, p: PhantomData } }
    fn tok(&self, ix: u32) -> SyntaxToken<L> { SyntaxToken { tree: self.tree.clone(), ix, p: PhantomData } }
    fn elem(&self, s: SlotData) -> Option<SyntaxElement<L>> {
        match s { SlotData::Node(i) => Some(NodeOrToken::Node(self.node(i))), SlotData::Token(i) => Some(NodeOrToken::Token(self.tok(i))), SlotData::Empty => None }
    }
    pub fn kind(&self) -> L::Kind { L::Kind::from_raw(self.d().kind) }
    pub fn text(&self) -> SyntaxNodeText { self.text_with_trivia() }
    pub fn text_with_trivia(&self) -> SyntaxNodeText { SyntaxNodeText { tree: self.tree.clone(), range: self.text_range_with_trivia() } }
    pub fn text_trimmed(&self) -> SyntaxNodeText { SyntaxNodeText { tree: self.tree.clone(), range: self.text_trimmed_range() } }
    pub fn text_range(&self) -> TextRange { self.text_range_with_trivia() }
    pub fn text_range_with_trivia(&self) -> TextRange { tr(self.d().range) }
    pub fn text_trimmed_range(&self) -> TextRange {
        match (self.first_token(), self.last_token()) {
            (Some(a), Some(b)) => TextRange::new(a.text_trimmed_range().start(), b.text_trimmed_range().end().max(a.text_trimmed_range().start())),
            _ => self.text_range_with_trivia(),
        }
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> { self.first_token().map(|t| t.leading_trivia()) }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> { self.last_token().map(|t| t.trailing_trivia()) }
    pub fn parent(&self) -> Option<Self> { self.d().parent.map(|p| self.node(p.0)) }
    pub fn grand_parent(&self) -> Option<Self> { self.parent()?.parent() }
    pub fn index(&self) -> usize { self.d().parent.map_or(0, |p| p.1 as usize) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::successors(Some(self.clone()), |n| n.parent()) }
    pub fn slots(&self) -> impl Iterator<Item = SyntaxSlot<L>> + '_ {
        self.d().slots.iter().map(|s| match self.elem(*s) { None => SyntaxSlot::Empty { index: 0 }, Some(NodeOrToken::Node(n)) => SyntaxSlot::Node(n), Some(NodeOrToken::Token(t)) => SyntaxSlot::Token(t) })
    }
    pub fn slot_count(&self) -> usize { self.d().slots.len() }
    pub fn element_in_slot(&self, i: u32) -> Option<SyntaxElement<L>> { self.d().slots.get(i as usize).and_then(|s| self.elem(*s)) }
    pub fn children(&self) -> SyntaxNodeChildren<L> { SyntaxNodeChildren(self.d().slots.iter().filter_map(|s| match s { SlotData::Node(i) => Some(self.node(*i)), _ => None }).collect::<Vec<_>>().into_iter()) }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> { SyntaxElementChildren(self.d().slots.iter().filter_map(|s| self.elem(*s)).collect::<Vec<_>>().into_iter()) }
    pub fn tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxToken<L>> + '_ { self.d().slots.iter().filter_map(|s| match s { SlotData::Token(i) => Some(self.tok(*i)), _ => None }) }
    pub fn first_child(&self) -> Option<Self> { self.children().next() }
    pub fn last_child(&self) -> Option<Self> { self.children().next_back() }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> { self.children_with_tokens().next() }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> { self.children_with_tokens().next_back() }
    fn sib(&self, fwd: bool) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let mut v: Vec<SyntaxElement<L>> = vec![];
        if let Some((p, at)) = self.d().parent {
            let par = self.node(p);
            let slots = &par.d().slots;
            if fwd { v.extend(slots[at as usize + 1..].iter().filter_map(|s| par.elem(*s))); } else { v.extend(slots[..at as usize].iter().rev().filter_map(|s| par.elem(*s))); }
        }
        v.into_iter()
    }
    pub fn next_sibling(&self) -> Option<Self> { self.sib(true).find_map(|e| e.into_node()) }
    pub fn prev_sibling(&self) -> Option<Self> { self.sib(false).find_map(|e| e.into_node()) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.sib(true).next() }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.sib(false).next() }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.d().slots.iter().find_map(|s| match s { SlotData::Token(i) => Some(self.tok(*i)), SlotData::Node(i) => self.node(*i).first_token(), SlotData::Empty => None })
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.d().slots.iter().rev().find_map(|s| match s { SlotData::Token(i) => Some(self.tok(*i)), SlotData::Node(i) => self.node(*i).last_token(), SlotData::Empty => None })
    }
    pub fn siblings(&self, d: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::once(self.clone()).chain(self.sib(d == Direction::Next).filter_map(|e| e.into_node()))
    }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        std::iter::once(NodeOrToken::Node(self.clone())).chain(self.sib(d == Direction::Next))
    }
    pub fn preorder(&self) -> Preorder<L> { Preorder { inner: self.preorder_with_tokens(Direction::Next) } }
    pub fn preorder_with_tokens(&self, d: Direction) -> PreorderWithTokens<L> { PreorderWithTokens { next: Some(WalkEvent::Enter(NodeOrToken::Node(self.clone()))), start: self.clone(), dir: d } }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.preorder().filter_map(|e| match e { WalkEvent::Enter(n) => Some(n), _ => None }) }
    pub fn descendants_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> { self.preorder_with_tokens(d).filter_map(|e| match e { WalkEvent::Enter(n) => Some(n), _ => None }) }
    pub fn descendants_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxToken<L>> + use<L> { self.descendants_with_tokens(d).filter_map(|e| e.into_token()) }
    pub fn token_at_offset(&self, o: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        assert!(self.text_range_with_trivia().contains_inclusive(o), "offset {o:?} outside of {self:?}");
        let mut v: Vec<_> = self.descendants_tokens(Direction::Next).filter(|t| { let r = t.text_range(); !r.is_empty() && r.contains_inclusive(o) }).collect();
        match v.len() { 0 => TokenAtOffset::None, 1 => TokenAtOffset::Single(v.remove(0)), _ => { let b = v.remove(1); TokenAtOffset::Between(v.remove(0), b) } }
    }
    pub fn covering_element(&self, r: TextRange) -> SyntaxElement<L> {
        assert!(self.text_range_with_trivia().contains_range(r), "bad range {r:?} for {self:?}");
        let mut at: SyntaxElement<L> = NodeOrToken::Node(self.clone());
        loop {
            let next = match &at {
                NodeOrToken::Token(_) => return at,
                NodeOrToken::Node(n) => n.child_or_token_at_range(r),
            };
            match next { Some(n) => at = n, None => return at }
        }
    }
    pub fn child_or_token_at_range(&self, r: TextRange) -> Option<SyntaxElement<L>> { self.children_with_tokens().find(|e| e.text_range_with_trivia().contains_range(r)) }
    pub fn has_leading_comments(&self) -> bool { self.first_token().is_some_and(|t| t.has_leading_comments()) }
    pub fn has_trailing_comments(&self) -> bool { self.last_token().is_some_and(|t| t.has_trailing_comments()) }
    pub fn has_comments_direct(&self) -> bool { self.has_trailing_comments() || self.has_leading_comments() }
    pub fn has_comments_descendants(&self) -> bool { self.descendants_tokens(Direction::Next).any(|t| t.has_trailing_comments() || t.has_leading_comments()) }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool { self.first_leading_trivia().is_some_and(|t| t.pieces().any(|p| p.is_comments() || p.is_skipped())) }
    pub fn last_or_first(&self) -> Option<SyntaxToken<L>> { self.last_token() }
    pub fn detach(self) -> Self { self }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SyntaxSlot<L: Language> { Node(SyntaxNode<L>), Token(SyntaxToken<L>), Empty { index: u32 } }
impl<L: Language> SyntaxSlot<L> {
    pub fn into_node(self) -> Option<SyntaxNode<L>> { match self { Self::Node(n) => Some(n), _ => None } }
    pub fn into_token(self) -> Option<SyntaxToken<L>> { match self { Self::Token(n) => Some(n), _ => None } }
}
pub struct SyntaxNodeChildren<L: Language>(std::vec::IntoIter<SyntaxNode<L>>);
impl<L: Language> Iterator for SyntaxNodeChildren<L> { type Item = SyntaxNode<L>; fn next(&mut self) -> Option<Self::Item> { self.0.next() } }
impl<L: Language> DoubleEndedIterator for SyntaxNodeChildren<L> { fn next_back(&mut self) -> Option<Self::Item> { self.0.next_back() } }
pub struct SyntaxElementChildren<L: Language>(std::vec::IntoIter<SyntaxElement<L>>);
impl<L: Language> Iterator for SyntaxElementChildren<L> { type Item = SyntaxElement<L>; fn next(&mut self) -> Option<Self::Item> { self.0.next() } }
impl<L: Language> DoubleEndedIterator for SyntaxElementChildren<L> { fn next_back(&mut self) -> Option<Self::Item> { self.0.next_back() } }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Direction { Next, Prev }
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum WalkEvent<T> { Enter(T), Leave(T) }
impl<T> WalkEvent<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> WalkEvent<U> { match self { Self::Enter(x) => WalkEvent::Enter(f(x)), Self::Leave(x) => WalkEvent::Leave(f(x)) } }
}
#[derive(Clone, Debug)]
pub enum TokenAtOffset<T> { None, Single(T), Between(T, T) }
impl<T> TokenAtOffset<T> {
    pub fn right_biased(self) -> Option<T> { match self { Self::None => None, Self::Single(t) => Some(t), Self::Between(_, r) => Some(r) } }
    pub fn left_biased(self) -> Option<T> { match self { Self::None => None, Self::Single(t) => Some(t), Self::Between(l, _) => Some(l) } }
    pub fn is_empty(&self) -> bool { matches!(self, Self::None) }
}
impl<T> Iterator for TokenAtOffset<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match std::mem::replace(self, Self::None) { Self::None => None, Self::Single(t) => Some(t), Self::Between(l, r) => { *self = Self::Single(r); Some(l) } }
    }
}
pub struct PreorderWithTokens<L: Language> { start: SyntaxNode<L>, next: Option<WalkEvent<SyntaxElement<L>>>, dir: Direction }
impl<L: Language> PreorderWithTokens<L> {
    pub fn skip_subtree(&mut self) {
        if let Some(WalkEvent::Enter(e)) = &self.next {
            let up = match e { NodeOrToken::Node(n) => n.parent(), NodeOrToken::Token(t) => t.parent() };
            // the element about to be entered is a child of the node just entered
            self.next = up.map(|n| WalkEvent::Leave(NodeOrToken::Node(n)));
        }
    }
}
impl<L: Language> Iterator for PreorderWithTokens<L> {
    type Item = WalkEvent<SyntaxElement<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        let now = self.next.take()?;
        let fwd = self.dir == Direction::Next;
        self.next = match &now {
            WalkEvent::Enter(NodeOrToken::Node(n)) => {
                let c = if fwd { n.first_child_or_token() } else { n.last_child_or_token() };
                Some(match c { Some(c) => WalkEvent::Enter(c), None => WalkEvent::Leave(NodeOrToken::Node(n.clone())) })
            }
            WalkEvent::Enter(NodeOrToken::Token(t)) => Some(WalkEvent::Leave(NodeOrToken::Token(t.clone()))),
            WalkEvent::Leave(e) => {
                if matches!(e, NodeOrToken::Node(n) if *n == self.start) { None } else {
                    let s = match e {
                        NodeOrToken::Node(n) => if fwd { n.next_sibling_or_token() } else { n.prev_sibling_or_token() },
                        NodeOrToken::Token(t) => if fwd { t.next_sibling_or_token() } else { t.prev_sibling_or_token() },
                    };
                    match s { Some(s) => Some(WalkEvent::Enter(s)), None => e.parent().map(|p| WalkEvent::Leave(NodeOrToken::Node(p))) }
                }
            }
        };
        Some(now)
    }
}
pub struct Preorder<L: Language> { inner: PreorderWithTokens<L> }
impl<L: Language> Preorder<L> { pub fn skip_subtree(&mut self) { self.inner.skip_subtree() } }
impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            match self.inner.next()? {
                WalkEvent::Enter(NodeOrToken::Node(n)) => return Some(WalkEvent::Enter(n)),
                WalkEvent::Leave(NodeOrToken::Node(n)) => return Some(WalkEvent::Leave(n)),
                _ => {}
            }
        }
    }
}

// ------------------------------------------------------------------ elements
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum NodeOrToken<N, T> { Node(N), Token(T) }
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;
impl<N: fmt::Debug, T: fmt::Debug> fmt::Debug for NodeOrToken<N, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Self::Node(n) => n.fmt(f), Self::Token(t) => t.fmt(f) } }
}
impl<N: fmt::Display, T: fmt::Display> fmt::Display for NodeOrToken<N, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Self::Node(n) => n.fmt(f), Self::Token(t) => t.fmt(f) } }
}
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> { match self { Self::Node(n) => Some(n), _ => None } }
    pub fn into_token(self) -> Option<T> { match self { Self::Token(t) => Some(t), _ => None } }
    pub fn as_node(&self) -> Option<&N> { match self { Self::Node(n) => Some(n), _ => None } }
    pub fn as_token(&self) -> Option<&T> { match self { Self::Token(t) => Some(t), _ => None } }
    pub fn is_node(&self) -> bool { matches!(self, Self::Node(_)) }
    pub fn is_token(&self) -> bool { matches!(self, Self::Token(_)) }
}
impl<L: Language> SyntaxElement<L> {
    pub fn kind(&self) -> L::Kind { match self { Self::Node(n) => n.kind(), Self::Token(t) => t.kind() } }
    pub fn text_range(&self) -> TextRange { self.text_range_with_trivia() }
    pub fn text_range_with_trivia(&self) -> TextRange { match self { Self::Node(n) => n.text_range_with_trivia(), Self::Token(t) => t.text_range() } }
    pub fn text_trimmed_range(&self) -> TextRange { match self { Self::Node(n) => n.text_trimmed_range(), Self::Token(t) => t.text_trimmed_range() } }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { match self { Self::Node(n) => n.parent(), Self::Token(t) => t.parent() } }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        let first = match self { Self::Node(n) => Some(n.clone()), Self::Token(t) => t.parent() };
        std::iter::successors(first, |n| n.parent())
    }
    pub fn index(&self) -> usize { match self { Self::Node(n) => n.index(), Self::Token(t) => t.index() } }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { match self { Self::Node(n) => n.next_sibling_or_token(), Self::Token(t) => t.next_sibling_or_token() } }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { match self { Self::Node(n) => n.prev_sibling_or_token(), Self::Token(t) => t.prev_sibling_or_token() } }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> { fn from(n: SyntaxNode<L>) -> Self { Self::Node(n) } }
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> { fn from(n: SyntaxToken<L>) -> Self { Self::Token(n) } }

// ------------------------------------------------------------------ tokens and trivia
pub struct SyntaxToken<L: Language> { pub(crate) tree: Arc<Tree>, pub(crate) ix: u32, pub(crate) p: PhantomData<(L, Rc<()>)> }
impl<L: Language> Clone for SyntaxToken<L> { fn clone(&self) -> Self { Self { tree: self.tree.clone(), ix: self.ix, p: PhantomData } } }
impl<L: Language> PartialEq for SyntaxToken<L> { fn eq(&self, o: &Self) -> bool { Arc::ptr_eq(&self.tree, &o.tree) && self.ix == o.ix } }
impl<L: Language> Eq for SyntaxToken<L> {}
impl<L: Language> Hash for SyntaxToken<L> { fn hash<H: Hasher>(&self, h: &mut H) { (Arc::as_ptr(&self.tree) as usize, self.ix).hash(h) } }
impl<L: Language> fmt::Debug for SyntaxToken<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}@{:?} {:?}", self.kind(), self.text_range(), self.text_trimmed()) } }
impl<L: Language> fmt::Display for SyntaxToken<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.text()) } }
impl<L: Language> SyntaxToken<L> {
    fn d(&self) -> &TokenData { &self.tree.tokens[self.ix as usize] }
    pub fn kind(&self) -> L::Kind { L::Kind::from_raw(self.d().kind) }
    pub fn text_range(&self) -> TextRange { tr(self.d().range) }
    pub fn text_trimmed_range(&self) -> TextRange { tr(self.d().trimmed) }
    pub fn text(&self) -> &str { &self.tree.text[Range::<usize>::from(self.text_range())] }
    pub fn text_trimmed(&self) -> &str { &self.tree.text[Range::<usize>::from(self.text_trimmed_range())] }
    pub fn token_text(&self) -> TokenText { TokenText { tree: self.tree.clone(), range: self.text_range() } }
    pub fn token_text_trimmed(&self) -> TokenText { TokenText { tree: self.tree.clone(), range: self.text_trimmed_range() } }
    pub fn index(&self) -> usize { self.d().parent.1 as usize }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { Some(SyntaxNode { tree: self.tree.clone(), ix: self.d().parent.0, p: PhantomData }) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::successors(self.parent(), |n| n.parent()) }
    fn at(&self, ix: Option<u32>) -> Option<Self> { ix.filter(|i| (*i as usize) < self.tree.tokens.len()).map(|ix| Self { tree: self.tree.clone(), ix, p: PhantomData }) }
    pub fn next_token(&self) -> Option<Self> { self.at(self.ix.checked_add(1)) }
    pub fn prev_token(&self) -> Option<Self> { self.at(self.ix.checked_sub(1)) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        let p = self.parent()?;
        p.d().slots[self.index() + 1..].iter().find_map(|s| p.elem(*s))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        let p = self.parent()?;
        p.d().slots[..self.index()].iter().rev().find_map(|s| p.elem(*s))
    }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> { SyntaxTrivia { token: self.clone(), lead: true } }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> { SyntaxTrivia { token: self.clone(), lead: false } }
    pub fn has_leading_comments(&self) -> bool { self.leading_trivia().pieces().any(|p| p.is_comments()) }
    pub fn has_trailing_comments(&self) -> bool { self.trailing_trivia().pieces().any(|p| p.is_comments()) }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool { self.leading_trivia().pieces().any(|p| p.is_comments() || p.is_skipped()) }
    pub fn has_leading_newline(&self) -> bool { self.leading_trivia().pieces().any(|p| p.is_newline()) }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SyntaxTrivia<L: Language> { token: SyntaxToken<L>, lead: bool }
impl<L: Language> SyntaxTrivia<L> {
    fn r(&self) -> Range<u32> { if self.lead { self.token.d().lead.clone() } else { self.token.d().trail.clone() } }
    pub fn pieces(&self) -> SyntaxTriviaPiecesIterator<L> { let r = self.r(); SyntaxTriviaPiecesIterator { token: self.token.clone(), r } }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> { self.pieces().next() }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> { self.pieces().next_back() }
    pub fn text_range(&self) -> TextRange {
        let d = self.token.d();
        if self.lead { tr((d.range.0, d.trimmed.0)) } else { tr((d.trimmed.1, d.range.1)) }
    }
    pub fn text(&self) -> &str { &self.token.tree.text[Range::<usize>::from(self.text_range())] }
    pub fn token(&self) -> &SyntaxToken<L> { &self.token }
    pub fn is_empty(&self) -> bool { self.r().is_empty() }
    pub fn len(&self) -> TextSize { self.text_range().len() }
    pub fn is_leading(&self) -> bool { self.lead }
    pub fn is_trailing(&self) -> bool { !self.lead }
    pub fn has_skipped(&self) -> bool { self.pieces().any(|p| p.is_skipped()) }
}
pub struct SyntaxTriviaPiecesIterator<L: Language> { token: SyntaxToken<L>, r: Range<u32> }
impl<L: Language> Iterator for SyntaxTriviaPiecesIterator<L> { type Item = SyntaxTriviaPiece<L>; fn next(&mut self) -> Option<Self::Item> { self.r.next().map(|ix| SyntaxTriviaPiece { token: self.token.clone(), ix }) } }
impl<L: Language> DoubleEndedIterator for SyntaxTriviaPiecesIterator<L> { fn next_back(&mut self) -> Option<Self::Item> { self.r.next_back().map(|ix| SyntaxTriviaPiece { token: self.token.clone(), ix }) } }
impl<L: Language> ExactSizeIterator for SyntaxTriviaPiecesIterator<L> { fn len(&self) -> usize { self.r.len() } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPiece<L: Language> { token: SyntaxToken<L>, ix: u32 }
impl<L: Language> fmt::Debug for SyntaxTriviaPiece<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}({:?})", self.kind(), self.text()) } }
impl<L: Language> SyntaxTriviaPiece<L> {
    fn d(&self) -> (TriviaPieceKind, u32, u32) { self.token.tree.pieces[self.ix as usize] }
    pub fn kind(&self) -> TriviaPieceKind { self.d().0 }
    pub fn text_range(&self) -> TextRange { tr((self.d().1, self.d().2)) }
    pub fn text_len(&self) -> TextSize { self.text_range().len() }
    pub fn text(&self) -> &str { &self.token.tree.text[Range::<usize>::from(self.text_range())] }
    pub fn is_newline(&self) -> bool { self.kind().is_newline() }
    pub fn is_whitespace(&self) -> bool { self.kind().is_whitespace() }
    pub fn is_comments(&self) -> bool { self.kind().is_comment() }
    pub fn is_skipped(&self) -> bool { self.kind().is_skipped() }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> { self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone())) }
    pub fn token(&self) -> SyntaxToken<L> { self.token.clone() }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPieceComments<L: Language>(SyntaxTriviaPiece<L>);
impl<L: Language> fmt::Debug for SyntaxTriviaPieceComments<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn text(&self) -> &str { self.0.text() }
    pub fn text_len(&self) -> TextSize { self.0.text_len() }
    pub fn text_range(&self) -> TextRange { self.0.text_range() }
    pub fn has_newline(&self) -> bool { false }
    pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> { &self.0 }
    pub fn into_piece(self) -> SyntaxTriviaPiece<L> { self.0 }
}

// ------------------------------------------------------------------ texts
#[derive(Clone)]
pub struct TokenText { tree: Arc<Tree>, range: TextRange }
impl TokenText {
    pub fn text(&self) -> &str { &self.tree.text[Range::<usize>::from(self.range)] }
    pub fn len(&self) -> TextSize { self.range.len() }
    pub fn range(&self) -> TextRange { self.range }
    pub fn slice(mut self, r: TextRange) -> TokenText { self.range = TextRange::new(self.range.start() + r.start(), self.range.start() + r.end()); self }
    pub(crate) fn of(tree: Arc<Tree>, range: TextRange) -> Self { Self { tree, range } }
}
pub type SyntaxTokenText = TokenText;
pub type Text = TokenText;
impl Deref for TokenText { type Target = str; fn deref(&self) -> &str { self.text() } }
impl AsRef<str> for TokenText { fn as_ref(&self) -> &str { self.text() } }
impl std::borrow::Borrow<str> for TokenText { fn borrow(&self) -> &str { self.text() } }
impl fmt::Display for TokenText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad(self.text()) } }
impl fmt::Debug for TokenText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.text(), f) } }
impl PartialEq for TokenText { fn eq(&self, o: &Self) -> bool { self.text() == o.text() } }
impl Eq for TokenText {}
impl Hash for TokenText { fn hash<H: Hasher>(&self, h: &mut H) { self.text().hash(h) } }
impl PartialOrd for TokenText { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for TokenText { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.text().cmp(o.text()) } }
impl PartialEq<str> for TokenText { fn eq(&self, o: &str) -> bool { self.text() == o } }
impl PartialEq<&str> for TokenText { fn eq(&self, o: &&str) -> bool { self.text() == *o } }
impl PartialEq<String> for TokenText { fn eq(&self, o: &String) -> bool { self.text() == o } }
impl PartialEq<TokenText> for str { fn eq(&self, o: &TokenText) -> bool { self == o.text() } }
impl PartialEq<TokenText> for &str { fn eq(&self, o: &TokenText) -> bool { *self == o.text() } }
impl PartialEq<TokenText> for String { fn eq(&self, o: &TokenText) -> bool { self == o.text() } }
impl From<TokenText> for String { fn from(t: TokenText) -> String { t.text().to_string() } }
impl From<TokenText> for Box<str> { fn from(t: TokenText) -> Box<str> { t.text().into() } }

#[derive(Clone)]
pub struct SyntaxNodeText { tree: Arc<Tree>, range: TextRange }
impl SyntaxNodeText {
    fn s(&self) -> &str { &self.tree.text[Range::<usize>::from(self.range)] }
    pub fn len(&self) -> TextSize { self.range.len() }
    pub fn is_empty(&self) -> bool { self.range.is_empty() }
    pub fn contains_char(&self, c: char) -> bool { self.s().contains(c) }
    pub fn find_char(&self, c: char) -> Option<TextSize> { self.s().find(c).map(|i| (i as u32).into()) }
    pub fn char_at(&self, o: TextSize) -> Option<char> { self.s()[usize::from(o)..].chars().next() }
    pub fn starts_with(&self, s: &str) -> bool { self.s().starts_with(s) }
    pub fn ends_with(&self, s: &str) -> bool { self.s().ends_with(s) }
    pub fn chars(&self) -> impl Iterator<Item = char> + '_ { self.s().chars() }
    pub fn slice<R: std::ops::RangeBounds<TextSize>>(&self, r: R) -> SyntaxNodeText {
        use std::ops::Bound::*;
        let a = match r.start_bound() { Included(x) => *x, Excluded(x) => *x + TextSize::new(1), Unbounded => 0.into() };
        let b = match r.end_bound() { Included(x) => *x + TextSize::new(1), Excluded(x) => *x, Unbounded => self.len() };
        SyntaxNodeText { tree: self.tree.clone(), range: TextRange::new(self.range.start() + a, self.range.start() + b) }
    }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, mut f: F) { f(self.s()) }
    pub fn try_for_each_chunk<F: FnMut(&str) -> Result<(), E>, E>(&self, mut f: F) -> Result<(), E> { f(self.s()) }
    pub fn into_text(self) -> TokenText { TokenText::of(self.tree, self.range) }
}
impl fmt::Display for SyntaxNodeText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.s(), f) } }
impl fmt::Debug for SyntaxNodeText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.s(), f) } }
impl PartialEq for SyntaxNodeText { fn eq(&self, o: &Self) -> bool { self.s() == o.s() } }
impl Eq for SyntaxNodeText {}
impl PartialEq<str> for SyntaxNodeText { fn eq(&self, o: &str) -> bool { self.s() == o } }
impl PartialEq<&str> for SyntaxNodeText { fn eq(&self, o: &&str) -> bool { self.s() == *o } }
impl PartialEq<String> for SyntaxNodeText { fn eq(&self, o: &String) -> bool { self.s() == o } }
impl PartialEq<SyntaxNodeText> for str { fn eq(&self, o: &SyntaxNodeText) -> bool { self == o.s() } }
impl PartialEq<SyntaxNodeText> for &str { fn eq(&self, o: &SyntaxNodeText) -> bool { *self == o.s() } }
impl Hash for SyntaxNodeText { fn hash<H: Hasher>(&self, h: &mut H) { self.s().hash(h) } }
impl From<SyntaxNodeText> for String { fn from(t: SyntaxNodeText) -> String { t.s().to_string() } }

pub type SyntaxList<L> = SyntaxNode<L>;
