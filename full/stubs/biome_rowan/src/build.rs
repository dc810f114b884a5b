use crate::tree::*;
use std::marker::PhantomData;
use std::sync::Arc;

/// Builds a tree bottom-up: children are finished before their parents.
pub struct TreeBuilder<L: Language> { text: String, nodes: Vec<NodeData>, tokens: Vec<TokenData>, pieces: Vec<(TriviaPieceKind, u32, u32)>, p: PhantomData<L> }
#[derive(Clone, Copy, Debug)]
pub enum Child { Node(u32), Token(u32), Empty }

impl<L: Language> TreeBuilder<L> {
    pub fn new(text: &str) -> Self { Self { text: text.to_string(), nodes: vec![], tokens: vec![], pieces: vec![], p: PhantomData } }
    /// Tokens are added in source order; `lead` and `trail` are the trivia (kind, start, end) around `trimmed`.
    pub fn token(&mut self, kind: L::Kind, lead: &[(TriviaPieceKind, u32, u32)], trimmed: (u32, u32), trail: &[(TriviaPieceKind, u32, u32)]) -> Child {
        let a = self.pieces.len() as u32;
        self.pieces.extend_from_slice(lead);
        let b = self.pieces.len() as u32;
        self.pieces.extend_from_slice(trail);
        let c = self.pieces.len() as u32;
        let start = lead.first().map_or(trimmed.0, |p| p.1);
        let end = trail.last().map_or(trimmed.1, |p| p.2);
        self.tokens.push(TokenData { kind: kind.to_raw(), parent: (0, 0), lead: a..b, trail: b..c, range: (start, end), trimmed });
        Child::Token(self.tokens.len() as u32 - 1)
    }
    /// `at` is where an empty node lies.
    pub fn node(&mut self, kind: L::Kind, children: Vec<Child>, at: u32) -> Child {
        let ix = self.nodes.len() as u32;
        let mut range: Option<(u32, u32)> = None;
        let mut slots = Vec::with_capacity(children.len());
        for (i, c) in children.into_iter().enumerate() {
            let r = match c {
                Child::Node(n) => { let d = &mut self.nodes[n as usize]; d.parent = Some((ix, i as u32)); slots.push(SlotData::Node(n)); Some(d.range) }
                Child::Token(t) => { let d = &mut self.tokens[t as usize]; d.parent = (ix, i as u32); slots.push(SlotData::Token(t)); Some(d.range) }
                Child::Empty => { slots.push(SlotData::Empty); None }
            };
            if let Some(r) = r.filter(|r| r.0 != r.1 || range.is_none()) {
                range = Some(match range { Some(p) if p.0 != p.1 => (p.0, r.1), _ => r });
            }
        }
        self.nodes.push(NodeData { kind: kind.to_raw(), parent: None, slots, range: range.unwrap_or((at, at)) });
        Child::Node(ix)
    }
    pub fn start_of(&self, c: Child) -> u32 { match c { Child::Node(n) => self.nodes[n as usize].range.0, Child::Token(t) => self.tokens[t as usize].range.0, Child::Empty => 0 } }
    pub fn kind_of(&self, c: Child) -> Option<L::Kind> { match c { Child::Node(n) => Some(L::Kind::from_raw(self.nodes[n as usize].kind)), Child::Token(t) => Some(L::Kind::from_raw(self.tokens[t as usize].kind)), Child::Empty => None } }
    pub fn finish(mut self, root: Child) -> SendNode {
        let Child::Node(root) = root else { panic!("the root is not a node") };
        let len = self.text.len() as u32;
        self.nodes[root as usize].range = (0, len);
        SendNode { tree: Arc::new(Tree { text: self.text, nodes: self.nodes, tokens: self.tokens, pieces: self.pieces, root }) }
    }
}
/// A tree that can be sent to another thread.
#[derive(Clone)]
pub struct SendNode { tree: Arc<Tree> }
impl std::fmt::Debug for SendNode { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "SendNode({} nodes)", self.tree.nodes.len()) } }
impl SendNode {
    pub fn into_node<L: Language>(self) -> Option<SyntaxNode<L>> { Some(SyntaxNode::root_of(self.tree)) }
    pub fn to_node<L: Language>(&self) -> SyntaxNode<L> { SyntaxNode::root_of(self.tree.clone()) }
    pub fn text(&self) -> &str { &self.tree.text }
}
