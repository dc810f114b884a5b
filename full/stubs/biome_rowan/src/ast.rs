use crate::*;
use std::fmt;
use std::marker::PhantomData;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum SyntaxError { MissingRequiredChild, UnexpectedBogusNode, UnexpectedMetavariable }
impl fmt::Display for SyntaxError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(match self { Self::MissingRequiredChild => "missing required child", Self::UnexpectedBogusNode => "unexpected bogus node", Self::UnexpectedMetavariable => "unexpected metavariable node" }) } }
impl std::error::Error for SyntaxError {}
pub type SyntaxResult<T> = Result<T, SyntaxError>;

#[derive(Clone, Copy, Debug)]
pub struct SyntaxKindSet<L: Language>(pub fn(L::Kind) -> bool);

pub trait AstNode: Clone {
    type Language: Language;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self> where Self: Sized;
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self> where Self: Sized { if Self::can_cast(syntax.kind()) { Self::cast(syntax.clone()) } else { None } }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>> where Self: Sized { if Self::can_cast(syntax.kind()) { Ok(Self::unwrap_cast(syntax)) } else { Err(syntax) } }
    fn try_cast_node<T: AstNode<Language = Self::Language>>(node: T) -> Result<Self, T> where Self: Sized { if Self::can_cast(node.syntax().kind()) { Ok(Self::unwrap_cast(node.into_syntax())) } else { Err(node) } }
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language> where Self: Sized;
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self where Self: Sized {
        let k = syntax.kind();
        Self::cast(syntax).unwrap_or_else(|| panic!("expected {} but found {k:?}", std::any::type_name::<Self>()))
    }
    fn to_trimmed_string(&self) -> String { self.syntax().text_trimmed().to_string() }
    fn to_trimmed_text(&self) -> TokenText { self.syntax().text_trimmed().into_text() }
    fn text(&self) -> String { self.to_trimmed_string() }
    fn range(&self) -> TextRange { self.syntax().text_trimmed_range() }
    fn clone_subtree(&self) -> Self where Self: Sized { self.clone() }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> { self.syntax().parent().and_then(T::cast) }
}

pub mod support {
    use crate::*;
    pub fn node<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, slot: usize) -> Option<N> { p.element_in_slot(slot as u32)?.into_node().and_then(N::cast) }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, slot: usize) -> SyntaxResult<N> { node(p, slot).ok_or(SyntaxError::MissingRequiredChild) }
    pub fn token<L: Language>(p: &SyntaxNode<L>, slot: usize) -> Option<SyntaxToken<L>> { p.element_in_slot(slot as u32)?.into_token() }
    pub fn required_token<L: Language>(p: &SyntaxNode<L>, slot: usize) -> SyntaxResult<SyntaxToken<L>> { token(p, slot).ok_or(SyntaxError::MissingRequiredChild) }
    pub fn list_node<L: Language>(p: &SyntaxNode<L>, slot: usize) -> SyntaxNode<L> { p.element_in_slot(slot as u32).and_then(|e| e.into_node()).expect("a list is always there") }
}

#[derive(Clone, Debug)]
pub struct AstNodeListIterator<L: Language, N> { it: std::vec::IntoIter<SyntaxNode<L>>, p: PhantomData<N> }
impl<L: Language, N: AstNode<Language = L>> Iterator for AstNodeListIterator<L, N> { type Item = N; fn next(&mut self) -> Option<N> { self.it.next().map(N::unwrap_cast) } fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() } }
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstNodeListIterator<L, N> { fn next_back(&mut self) -> Option<N> { self.it.next_back().map(N::unwrap_cast) } }
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstNodeListIterator<L, N> {}

pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax_list(self) -> SyntaxNode<Self::Language>;
    fn iter(&self) -> AstNodeListIterator<Self::Language, Self::Node> { AstNodeListIterator { it: self.syntax_list().children().collect::<Vec<_>>().into_iter(), p: PhantomData } }
    fn first(&self) -> Option<Self::Node> { self.iter().next() }
    fn last(&self) -> Option<Self::Node> { self.iter().next_back() }
    fn len(&self) -> usize { self.iter().len() }
    fn is_empty(&self) -> bool { self.len() == 0 }
}

#[derive(Clone, Debug)]
pub struct AstSeparatedElement<L: Language, N> { pub node: SyntaxResult<N>, pub trailing_separator: SyntaxResult<Option<SyntaxToken<L>>> }
impl<L: Language, N: AstNode<Language = L> + Clone> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> { self.node.as_ref().map_err(|e| e.clone()) }
    pub fn into_node(self) -> SyntaxResult<N> { self.node }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> { self.trailing_separator.as_ref().map(|o| o.as_ref()).map_err(|e| e.clone()) }
    pub fn into_trailing_separator(self) -> SyntaxResult<Option<SyntaxToken<L>>> { self.trailing_separator }
}
#[derive(Clone, Debug)]
pub struct AstSeparatedListElementsIterator<L: Language, N> { it: std::vec::IntoIter<AstSeparatedElement<L, N>> }
impl<L: Language, N> Iterator for AstSeparatedListElementsIterator<L, N> { type Item = AstSeparatedElement<L, N>; fn next(&mut self) -> Option<Self::Item> { self.it.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() } }
impl<L: Language, N> DoubleEndedIterator for AstSeparatedListElementsIterator<L, N> { fn next_back(&mut self) -> Option<Self::Item> { self.it.next_back() } }
impl<L: Language, N> ExactSizeIterator for AstSeparatedListElementsIterator<L, N> {}
#[derive(Clone, Debug)]
pub struct AstSeparatedListNodesIterator<L: Language, N> { it: AstSeparatedListElementsIterator<L, N> }
impl<L: Language, N> Iterator for AstSeparatedListNodesIterator<L, N> { type Item = SyntaxResult<N>; fn next(&mut self) -> Option<Self::Item> { self.it.next().map(|e| e.node) } fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() } }
impl<L: Language, N> DoubleEndedIterator for AstSeparatedListNodesIterator<L, N> { fn next_back(&mut self) -> Option<Self::Item> { self.it.next_back().map(|e| e.node) } }
impl<L: Language, N> ExactSizeIterator for AstSeparatedListNodesIterator<L, N> {}

pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax_list(self) -> SyntaxNode<Self::Language>;
    fn elements(&self) -> AstSeparatedListElementsIterator<Self::Language, Self::Node> {
        let mut v: Vec<AstSeparatedElement<Self::Language, Self::Node>> = vec![];
        for c in self.syntax_list().children_with_tokens() {
            match c {
                NodeOrToken::Node(n) => v.push(AstSeparatedElement { node: Ok(Self::Node::unwrap_cast(n)), trailing_separator: Ok(None) }),
                NodeOrToken::Token(t) => if let Some(l) = v.last_mut() { l.trailing_separator = Ok(Some(t)) },
            }
        }
        AstSeparatedListElementsIterator { it: v.into_iter() }
    }
    fn iter(&self) -> AstSeparatedListNodesIterator<Self::Language, Self::Node> { AstSeparatedListNodesIterator { it: self.elements() } }
    fn separators(&self) -> impl DoubleEndedIterator<Item = SyntaxResult<SyntaxToken<Self::Language>>> + '_ { self.elements().filter_map(|e| match e.trailing_separator { Ok(Some(t)) => Some(Ok(t)), _ => None }) }
    fn len(&self) -> usize { self.elements().len() }
    fn is_empty(&self) -> bool { self.len() == 0 }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> { self.iter().next() }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> { self.iter().next_back() }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> { match self.syntax_list().last_child_or_token()? { NodeOrToken::Token(t) => Some(t), _ => None } }
}

pub trait AstNodeExt: AstNode {}
impl<T: AstNode> AstNodeExt for T {}

/// `declare_node_union!`, for unions over nodes of one language.
#[macro_export]
macro_rules! declare_node_union {
    (@step (pub) $name:ident $($variant:ident)*) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug)]
        pub enum $name { $($variant($variant)),* }
        impl $crate::AstNode for $name {
            type Language = RLanguage;
            fn can_cast(kind: <Self::Language as $crate::Language>::Kind) -> bool { $($variant::can_cast(kind))||* }
            fn cast(syntax: $crate::SyntaxNode<Self::Language>) -> Option<Self> { $(if $variant::can_cast(syntax.kind()) { return $variant::cast(syntax).map(Self::$variant); })* None }
            fn syntax(&self) -> &$crate::SyntaxNode<Self::Language> { match self { $(Self::$variant(n) => n.syntax()),* } }
            fn into_syntax(self) -> $crate::SyntaxNode<Self::Language> { match self { $(Self::$variant(n) => n.into_syntax()),* } }
        }
        $(impl From<$variant> for $name { fn from(n: $variant) -> Self { Self::$variant(n) } })*
    };
    (pub $name:ident = $($variant:ident)|+ ) => { $crate::declare_node_union!(@step (pub) $name $($variant)*); };
    (pub(crate) $name:ident = $($variant:ident)|+ ) => { $crate::declare_node_union!(@step (pub) $name $($variant)*); };
}
