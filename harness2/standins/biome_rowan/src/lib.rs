//! Stand-in for the `biome_rowan` crate (whose sources are not available
//! here): an immutable syntax tree with trivia, with the part of the public
//! API that jarl uses and the neighbouring methods a refactoring may reach
//! for. Trees are built in one go by `Tree::build`.
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;

mod range;
pub use range::{TextRange, TextSize};

// ------------------------------------------------------------------ language

pub trait SyntaxKind: fmt::Debug + Copy + PartialEq + Eq + Hash + 'static {
    fn to_raw(&self) -> u16;
    fn from_raw(raw: u16) -> Self;
    fn is_list(&self) -> bool;
    fn is_root(&self) -> bool;
}

pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + Hash + 'static {
    type Kind: SyntaxKind;
    type Root: AstNode<Language = Self> + Clone + Eq + fmt::Debug;
}

// ---------------------------------------------------------------- raw trees

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum TriviaPieceKind {
    Newline,
    Whitespace,
    SingleLineComment,
    MultiLineComment,
    Skipped,
}

#[derive(Debug, Clone, Copy)]
pub struct RawPiece {
    pub kind: TriviaPieceKind,
    pub start: u32,
    pub end: u32,
}

#[derive(Debug)]
pub struct RawToken {
    pub kind: u16,
    pub leading: Vec<RawPiece>,
    pub start: u32,
    pub end: u32,
    pub trailing: Vec<RawPiece>,
}
impl RawToken {
    fn full_start(&self) -> u32 {
        self.leading.first().map_or(self.start, |p| p.start)
    }
    fn full_end(&self) -> u32 {
        self.trailing.last().map_or(self.end, |p| p.end)
    }
}

/// What a parser hands over.
#[derive(Debug)]
pub enum RawElem {
    Empty,
    Token(RawToken),
    Node(u16, Vec<RawElem>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Slot {
    Empty,
    Token(u32),
    Node(u32),
}

struct NodeData {
    kind: u16,
    parent: Option<(u32, u32)>,
    slots: Vec<Slot>,
    start: u32,
    end: u32,
    first_token: Option<u32>,
    last_token: Option<u32>,
}

struct TokenData {
    raw: RawToken,
    parent: (u32, u32),
}

pub struct Tree {
    text: String,
    nodes: Vec<NodeData>,
    tokens: Vec<TokenData>,
}

impl Tree {
    pub fn build<L: Language>(text: &str, root: RawElem) -> SyntaxNode<L> {
        let mut t = Tree { text: text.to_string(), nodes: vec![], tokens: vec![] };
        let RawElem::Node(kind, slots) = root else { panic!("root must be a node") };
        let mut pos = 0;
        let id = t.add(kind, slots, None, &mut pos);
        SyntaxNode { tree: Rc::new(t), id, _l: PhantomData }
    }
    fn add(&mut self, kind: u16, elems: Vec<RawElem>, parent: Option<(u32, u32)>, pos: &mut u32) -> u32 {
        let id = self.nodes.len() as u32;
        self.nodes.push(NodeData { kind, parent, slots: vec![], start: *pos, end: *pos, first_token: None, last_token: None });
        let mut slots = Vec::with_capacity(elems.len());
        let before = self.tokens.len() as u32;
        for (i, e) in elems.into_iter().enumerate() {
            let at = (id, i as u32);
            slots.push(match e {
                RawElem::Empty => Slot::Empty,
                RawElem::Token(raw) => {
                    *pos = raw.full_end();
                    self.tokens.push(TokenData { raw, parent: at });
                    Slot::Token(self.tokens.len() as u32 - 1)
                }
                RawElem::Node(k, s) => Slot::Node(self.add(k, s, Some(at), pos)),
            });
        }
        let after = self.tokens.len() as u32;
        let n = &mut self.nodes[id as usize];
        n.slots = slots;
        n.end = *pos;
        if after > before {
            n.first_token = Some(before);
            n.last_token = Some(after - 1);
        }
        id
    }
}

// --------------------------------------------------------------------- nodes

pub struct SyntaxNode<L: Language> {
    tree: Rc<Tree>,
    id: u32,
    _l: PhantomData<L>,
}
pub struct SyntaxToken<L: Language> {
    tree: Rc<Tree>,
    id: u32,
    _l: PhantomData<L>,
}

macro_rules! handle {
    ($t:ident) => {
        impl<L: Language> Clone for $t<L> {
            fn clone(&self) -> Self {
                $t { tree: self.tree.clone(), id: self.id, _l: PhantomData }
            }
        }
        impl<L: Language> PartialEq for $t<L> {
            fn eq(&self, o: &Self) -> bool {
                Rc::ptr_eq(&self.tree, &o.tree) && self.id == o.id
            }
        }
        impl<L: Language> Eq for $t<L> {}
        impl<L: Language> Hash for $t<L> {
            fn hash<H: Hasher>(&self, h: &mut H) {
                (Rc::as_ptr(&self.tree) as *const u8 as usize, self.id).hash(h)
            }
        }
    };
}
handle!(SyntaxNode);
handle!(SyntaxToken);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Direction {
    Next,
    Prev,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum WalkEvent<T> {
    Enter(T),
    Leave(T),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum NodeOrToken<N, T> {
    Node(N),
    Token(T),
}
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SyntaxSlot<L: Language> {
    Node(SyntaxNode<L>),
    Token(SyntaxToken<L>),
    Empty { index: u32 },
}

#[derive(Clone, Debug)]
pub enum TokenAtOffset<T> {
    None,
    Single(T),
    Between(T, T),
}
impl<T> TokenAtOffset<T> {
    pub fn right_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(n) => Some(n),
            TokenAtOffset::Between(_, r) => Some(r),
        }
    }
    pub fn left_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(n) => Some(n),
            TokenAtOffset::Between(l, _) => Some(l),
        }
    }
}

impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            NodeOrToken::Token(_) => None,
        }
    }
    pub fn into_token(self) -> Option<T> {
        match self {
            NodeOrToken::Token(n) => Some(n),
            NodeOrToken::Node(_) => None,
        }
    }
    pub fn as_node(&self) -> Option<&N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            NodeOrToken::Token(_) => None,
        }
    }
    pub fn as_token(&self) -> Option<&T> {
        match self {
            NodeOrToken::Token(n) => Some(n),
            NodeOrToken::Node(_) => None,
        }
    }
    pub fn is_node(&self) -> bool {
        self.as_node().is_some()
    }
    pub fn is_token(&self) -> bool {
        self.as_token().is_some()
    }
}
impl<L: Language> NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    pub fn kind(&self) -> L::Kind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(n) => n.kind(),
        }
    }
    pub fn text_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_range(),
            NodeOrToken::Token(n) => n.text_range(),
        }
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_trimmed_range(),
            NodeOrToken::Token(n) => n.text_trimmed_range(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(n) => n.parent(),
            NodeOrToken::Token(n) => n.parent(),
        }
    }
    pub fn ancestors(&self) -> Box<dyn Iterator<Item = SyntaxNode<L>>> {
        match self {
            NodeOrToken::Node(n) => Box::new(n.ancestors()),
            NodeOrToken::Token(n) => Box::new(n.ancestors()),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            NodeOrToken::Node(n) => n.index(),
            NodeOrToken::Token(n) => n.index(),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<Self> {
        match self {
            NodeOrToken::Node(n) => n.next_sibling_or_token(),
            NodeOrToken::Token(n) => n.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<Self> {
        match self {
            NodeOrToken::Node(n) => n.prev_sibling_or_token(),
            NodeOrToken::Token(n) => n.prev_sibling_or_token(),
        }
    }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(n: SyntaxNode<L>) -> Self {
        NodeOrToken::Node(n)
    }
}
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> {
    fn from(n: SyntaxToken<L>) -> Self {
        NodeOrToken::Token(n)
    }
}
impl<N: fmt::Display, T: fmt::Display> fmt::Display for NodeOrToken<N, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            NodeOrToken::Node(n) => n.fmt(f),
            NodeOrToken::Token(n) => n.fmt(f),
        }
    }
}

/// Some text of a tree.
#[derive(Clone, Eq)]
pub struct SyntaxNodeText {
    tree: Rc<Tree>,
    start: u32,
    end: u32,
}
impl PartialEq for Tree {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::eq(self, o)
    }
}
impl Eq for Tree {}
pub type TokenText = SyntaxNodeText;
pub type Text = SyntaxNodeText;

impl SyntaxNodeText {
    pub fn text(&self) -> &str {
        &self.tree.text[self.start as usize..self.end as usize]
    }
    pub fn as_str(&self) -> &str {
        self.text()
    }
    pub fn len(&self) -> TextSize {
        (self.end - self.start).into()
    }
    pub fn is_empty(&self) -> bool {
        self.start == self.end
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.text().contains(c)
    }
    pub fn char_at(&self, offset: TextSize) -> Option<char> {
        self.text().get(usize::from(offset)..)?.chars().next()
    }
    pub fn chars(&self) -> std::str::Chars<'_> {
        self.text().chars()
    }
}
impl std::ops::Deref for SyntaxNodeText {
    type Target = str;
    fn deref(&self) -> &str {
        self.text()
    }
}
impl AsRef<str> for SyntaxNodeText {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
impl std::borrow::Borrow<str> for SyntaxNodeText {
    fn borrow(&self) -> &str {
        self.text()
    }
}
impl fmt::Display for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad(self.text())
    }
}
impl fmt::Debug for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.text(), f)
    }
}
impl PartialEq for SyntaxNodeText {
    fn eq(&self, o: &Self) -> bool {
        self.text() == o.text()
    }
}
impl PartialEq<str> for SyntaxNodeText {
    fn eq(&self, o: &str) -> bool {
        self.text() == o
    }
}
impl PartialEq<&'_ str> for SyntaxNodeText {
    fn eq(&self, o: &&str) -> bool {
        self.text() == *o
    }
}
impl PartialEq<String> for SyntaxNodeText {
    fn eq(&self, o: &String) -> bool {
        self.text() == o
    }
}
impl PartialEq<SyntaxNodeText> for str {
    fn eq(&self, o: &SyntaxNodeText) -> bool {
        self == o.text()
    }
}
impl PartialEq<SyntaxNodeText> for &'_ str {
    fn eq(&self, o: &SyntaxNodeText) -> bool {
        *self == o.text()
    }
}
impl Hash for SyntaxNodeText {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.text().hash(h)
    }
}
impl PartialOrd for SyntaxNodeText {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SyntaxNodeText {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.text().cmp(o.text())
    }
}
impl From<SyntaxNodeText> for String {
    fn from(t: SyntaxNodeText) -> String {
        t.text().to_string()
    }
}

fn rng(a: u32, b: u32) -> TextRange {
    TextRange::new(a.into(), b.into())
}

impl<L: Language> SyntaxNode<L> {
    fn at(&self, id: u32) -> Self {
        SyntaxNode { tree: self.tree.clone(), id, _l: PhantomData }
    }
    fn tok(&self, id: u32) -> SyntaxToken<L> {
        SyntaxToken { tree: self.tree.clone(), id, _l: PhantomData }
    }
    fn data(&self) -> &NodeData {
        &self.tree.nodes[self.id as usize]
    }
    fn elem(&self, s: Slot) -> Option<SyntaxElement<L>> {
        match s {
            Slot::Empty => None,
            Slot::Token(t) => Some(NodeOrToken::Token(self.tok(t))),
            Slot::Node(n) => Some(NodeOrToken::Node(self.at(n))),
        }
    }
    /// A number that identifies the node within its tree.
    pub fn raw_id(&self) -> u32 {
        self.id
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.data().kind)
    }
    pub fn parent(&self) -> Option<Self> {
        self.data().parent.map(|(p, _)| self.at(p))
    }
    pub fn grand_parent(&self) -> Option<Self> {
        self.parent()?.parent()
    }
    pub fn index(&self) -> usize {
        self.data().parent.map_or(0, |(_, i)| i as usize)
    }
    pub fn text_range(&self) -> TextRange {
        let d = self.data();
        match (d.first_token, d.last_token) {
            (Some(f), Some(l)) => rng(
                self.tree.tokens[f as usize].raw.full_start(),
                self.tree.tokens[l as usize].raw.full_end(),
            ),
            _ => rng(d.start, d.end),
        }
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let d = self.data();
        match (d.first_token, d.last_token) {
            (Some(f), Some(l)) => {
                rng(self.tree.tokens[f as usize].raw.start, self.tree.tokens[l as usize].raw.end)
            }
            _ => rng(d.start, d.end),
        }
    }
    fn slice(&self, r: TextRange) -> SyntaxNodeText {
        SyntaxNodeText { tree: self.tree.clone(), start: r.start().into(), end: r.end().into() }
    }
    pub fn text(&self) -> SyntaxNodeText {
        self.slice(self.text_range())
    }
    pub fn text_with_trivia(&self) -> SyntaxNodeText {
        self.text()
    }
    pub fn text_trimmed(&self) -> SyntaxNodeText {
        self.slice(self.text_trimmed_range())
    }
    pub fn to_trimmed_string(&self) -> String {
        self.text_trimmed().to_string()
    }
    pub fn slots(&self) -> impl DoubleEndedIterator<Item = SyntaxSlot<L>> + ExactSizeIterator + '_ {
        self.data().slots.iter().enumerate().map(|(i, s)| match *s {
            Slot::Empty => SyntaxSlot::Empty { index: i as u32 },
            Slot::Token(t) => SyntaxSlot::Token(self.tok(t)),
            Slot::Node(n) => SyntaxSlot::Node(self.at(n)),
        })
    }
    pub fn slot_count(&self) -> usize {
        self.data().slots.len()
    }
    pub fn element_in_slot(&self, slot: usize) -> Option<SyntaxElement<L>> {
        self.data().slots.get(slot).and_then(|s| self.elem(*s))
    }
    pub fn children(&self) -> std::vec::IntoIter<SyntaxNode<L>> {
        let v: Vec<_> = self
            .data()
            .slots
            .iter()
            .filter_map(|s| if let Slot::Node(n) = s { Some(self.at(*n)) } else { None })
            .collect();
        v.into_iter()
    }
    pub fn children_with_tokens(&self) -> std::vec::IntoIter<SyntaxElement<L>> {
        let v: Vec<_> = self.data().slots.iter().filter_map(|s| self.elem(*s)).collect();
        v.into_iter()
    }
    pub fn tokens(&self) -> std::vec::IntoIter<SyntaxToken<L>> {
        let v: Vec<_> = self
            .data()
            .slots
            .iter()
            .filter_map(|s| if let Slot::Token(n) = s { Some(self.tok(*n)) } else { None })
            .collect();
        v.into_iter()
    }
    pub fn first_child(&self) -> Option<Self> {
        self.children().next()
    }
    pub fn last_child(&self) -> Option<Self> {
        self.children().last()
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next()
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().last()
    }
    fn sib(&self, dir: Direction) -> impl Iterator<Item = SyntaxElement<L>> {
        sibs(self.data().parent.map(|(p, i)| (self.at(p), i)), dir)
    }
    pub fn next_sibling(&self) -> Option<Self> {
        self.sib(Direction::Next).find_map(|e| e.into_node())
    }
    pub fn prev_sibling(&self) -> Option<Self> {
        self.sib(Direction::Prev).find_map(|e| e.into_node())
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sib(Direction::Next).next()
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sib(Direction::Prev).next()
    }
    pub fn siblings(&self, dir: Direction) -> impl Iterator<Item = SyntaxNode<L>> {
        std::iter::once(self.clone()).chain(self.sib(dir).filter_map(|e| e.into_node()))
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.data().first_token.map(|t| self.tok(t))
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.data().last_token.map(|t| self.tok(t))
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> {
        std::iter::successors(Some(self.clone()), |n| n.parent())
    }
    pub fn ancestors_and_self(&self) -> impl Iterator<Item = SyntaxNode<L>> {
        self.ancestors()
    }
    pub fn descendants(&self) -> std::vec::IntoIter<SyntaxNode<L>> {
        let v: Vec<_> = self
            .preorder()
            .filter_map(|e| if let WalkEvent::Enter(n) = e { Some(n) } else { None })
            .collect();
        v.into_iter()
    }
    pub fn descendants_with_tokens(&self, dir: Direction) -> std::vec::IntoIter<SyntaxElement<L>> {
        let v: Vec<_> = self
            .preorder_with_tokens(dir)
            .filter_map(|e| if let WalkEvent::Enter(n) = e { Some(n) } else { None })
            .collect();
        v.into_iter()
    }
    pub fn descendants_tokens(&self, dir: Direction) -> std::vec::IntoIter<SyntaxToken<L>> {
        let d = self.data();
        let mut v: Vec<_> = match (d.first_token, d.last_token) {
            (Some(a), Some(b)) => (a..=b).map(|t| self.tok(t)).collect(),
            _ => vec![],
        };
        if dir == Direction::Prev {
            v.reverse();
        }
        v.into_iter()
    }
    pub fn preorder(&self) -> std::vec::IntoIter<WalkEvent<SyntaxNode<L>>> {
        let v: Vec<_> = self
            .preorder_with_tokens(Direction::Next)
            .filter_map(|e| match e {
                WalkEvent::Enter(NodeOrToken::Node(n)) => Some(WalkEvent::Enter(n)),
                WalkEvent::Leave(NodeOrToken::Node(n)) => Some(WalkEvent::Leave(n)),
                _ => None,
            })
            .collect();
        v.into_iter()
    }
    pub fn preorder_with_tokens(&self, dir: Direction) -> std::vec::IntoIter<WalkEvent<SyntaxElement<L>>> {
        fn go<L: Language>(e: SyntaxElement<L>, dir: Direction, out: &mut Vec<WalkEvent<SyntaxElement<L>>>) {
            out.push(WalkEvent::Enter(e.clone()));
            if let NodeOrToken::Node(n) = &e {
                let mut kids: Vec<_> = n.children_with_tokens().collect();
                if dir == Direction::Prev {
                    kids.reverse();
                }
                for k in kids {
                    go(k, dir, out);
                }
            }
            out.push(WalkEvent::Leave(e));
        }
        let mut out = vec![];
        go(NodeOrToken::Node(self.clone()), dir, &mut out);
        out.into_iter()
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        let mut res: SyntaxElement<L> = self.clone().into();
        loop {
            assert!(res.text_range().contains_range(range), "Bad range: node range {:?}, range {:?}", res.text_range(), range);
            let next = match &res {
                NodeOrToken::Token(_) => return res,
                NodeOrToken::Node(n) => n.child_or_token_at_range(range),
            };
            match next {
                Some(n) => res = n,
                None => return res,
            }
        }
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement<L>> {
        let kids: Vec<_> = self.children_with_tokens().collect();
        let idx = kids
            .binary_search_by(|k| TextRange::ordering(k.text_range(), range))
            .unwrap_or_else(|i| i.saturating_sub(1));
        kids.get(idx).filter(|k| k.text_range().contains_range(range)).cloned()
    }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        let mut it = self
            .descendants_tokens(Direction::Next)
            .filter(|t| !t.text_range().is_empty() && t.text_range().contains_inclusive(offset));
        match (it.next(), it.next()) {
            (None, _) => TokenAtOffset::None,
            (Some(a), None) => TokenAtOffset::Single(a),
            (Some(a), Some(b)) => TokenAtOffset::Between(a, b),
        }
    }
    pub fn has_comments_descendants(&self) -> bool {
        self.descendants_tokens(Direction::Next).any(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn has_comments_direct(&self) -> bool {
        self.has_trailing_comments() || self.has_leading_comments()
    }
    pub fn first_or_last_token_have_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_comments() || t.has_trailing_comments())
            || self.last_token().is_some_and(|t| t.has_leading_comments() || t.has_trailing_comments())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.last_token().is_some_and(|t| t.has_trailing_comments())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_comments())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.first_token().is_some_and(|t| t.leading_trivia().pieces().any(|p| p.is_newline()))
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.first_token().map(|t| t.leading_trivia())
    }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.last_token().map(|t| t.trailing_trivia())
    }
    pub fn is_list(&self) -> bool {
        self.kind().is_list()
    }
}

fn sibs<L: Language>(at: Option<(SyntaxNode<L>, u32)>, dir: Direction) -> impl Iterator<Item = SyntaxElement<L>> {
    let v: Vec<SyntaxElement<L>> = match at {
        None => vec![],
        Some((p, i)) => {
            let s = &p.data().slots;
            match dir {
                Direction::Next => s[i as usize + 1..].iter().filter_map(|s| p.elem(*s)).collect(),
                Direction::Prev => s[..i as usize].iter().rev().filter_map(|s| p.elem(*s)).collect(),
            }
        }
    };
    v.into_iter()
}

impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text().text())
    }
}
impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?}", self.kind(), self.text_range())
    }
}

impl<L: Language> SyntaxToken<L> {
    fn data(&self) -> &TokenData {
        &self.tree.tokens[self.id as usize]
    }
    fn node(&self, id: u32) -> SyntaxNode<L> {
        SyntaxNode { tree: self.tree.clone(), id, _l: PhantomData }
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.data().raw.kind)
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        Some(self.node(self.data().parent.0))
    }
    pub fn index(&self) -> usize {
        self.data().parent.1 as usize
    }
    pub fn text_range(&self) -> TextRange {
        rng(self.data().raw.full_start(), self.data().raw.full_end())
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        rng(self.data().raw.start, self.data().raw.end)
    }
    fn cut(&self, r: TextRange) -> &str {
        &self.tree.text[r]
    }
    pub fn text(&self) -> &str {
        self.cut(self.text_range())
    }
    pub fn text_trimmed(&self) -> &str {
        self.cut(self.text_trimmed_range())
    }
    pub fn token_text(&self) -> TokenText {
        let r = self.text_range();
        SyntaxNodeText { tree: self.tree.clone(), start: r.start().into(), end: r.end().into() }
    }
    pub fn token_text_trimmed(&self) -> TokenText {
        let r = self.text_trimmed_range();
        SyntaxNodeText { tree: self.tree.clone(), start: r.start().into(), end: r.end().into() }
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> {
        std::iter::successors(self.parent(), |n| n.parent())
    }
    fn sib(&self, dir: Direction) -> impl Iterator<Item = SyntaxElement<L>> {
        let (p, i) = self.data().parent;
        sibs(Some((self.node(p), i)), dir)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sib(Direction::Next).next()
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sib(Direction::Prev).next()
    }
    pub fn next_token(&self) -> Option<Self> {
        let id = self.id + 1;
        ((id as usize) < self.tree.tokens.len()).then(|| SyntaxToken { tree: self.tree.clone(), id, _l: PhantomData })
    }
    pub fn prev_token(&self) -> Option<Self> {
        let id = self.id.checked_sub(1)?;
        Some(SyntaxToken { tree: self.tree.clone(), id, _l: PhantomData })
    }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: true }
    }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: false }
    }
    pub fn has_leading_comments(&self) -> bool {
        self.leading_trivia().pieces().any(|p| p.is_comments())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.trailing_trivia().pieces().any(|p| p.is_comments())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.leading_trivia().pieces().any(|p| p.is_newline())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.leading_trivia().pieces().any(|p| p.is_comments() || p.is_skipped())
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?} {:?}", self.kind(), self.text_range(), self.text_trimmed())
    }
}

// -------------------------------------------------------------------- trivia

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTrivia<L: Language> {
    token: SyntaxToken<L>,
    leading: bool,
}
impl<L: Language> SyntaxTrivia<L> {
    fn raws(&self) -> &[RawPiece] {
        let r = &self.token.data().raw;
        if self.leading {
            &r.leading
        } else {
            &r.trailing
        }
    }
    pub fn pieces(&self) -> std::vec::IntoIter<SyntaxTriviaPiece<L>> {
        let v: Vec<_> = self
            .raws()
            .iter()
            .map(|p| SyntaxTriviaPiece { token: self.token.clone(), kind: p.kind, start: p.start, end: p.end })
            .collect();
        v.into_iter()
    }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next()
    }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().last()
    }
    pub fn is_empty(&self) -> bool {
        self.raws().is_empty()
    }
    pub fn text_range(&self) -> TextRange {
        let r = &self.token.data().raw;
        if self.leading {
            rng(r.full_start(), r.start)
        } else {
            rng(r.end, r.full_end())
        }
    }
    pub fn text(&self) -> &str {
        self.token.cut(self.text_range())
    }
    pub fn has_skipped(&self) -> bool {
        self.pieces().any(|p| p.is_skipped())
    }
}
impl<L: Language> fmt::Debug for SyntaxTrivia<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.text(), f)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPiece<L: Language> {
    token: SyntaxToken<L>,
    kind: TriviaPieceKind,
    start: u32,
    end: u32,
}
impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind {
        self.kind
    }
    pub fn text_range(&self) -> TextRange {
        rng(self.start, self.end)
    }
    pub fn text(&self) -> &str {
        self.token.cut(self.text_range())
    }
    pub fn text_len(&self) -> TextSize {
        self.text_range().len()
    }
    pub fn is_newline(&self) -> bool {
        self.kind == TriviaPieceKind::Newline
    }
    pub fn is_whitespace(&self) -> bool {
        self.kind == TriviaPieceKind::Whitespace
    }
    pub fn is_comments(&self) -> bool {
        matches!(self.kind, TriviaPieceKind::SingleLineComment | TriviaPieceKind::MultiLineComment)
    }
    pub fn is_skipped(&self) -> bool {
        self.kind == TriviaPieceKind::Skipped
    }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> {
        self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone()))
    }
    pub fn token(&self) -> SyntaxToken<L> {
        self.token.clone()
    }
}
impl<L: Language> fmt::Debug for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}({:?})", self.kind, self.text())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SyntaxTriviaPieceComments<L: Language>(SyntaxTriviaPiece<L>);
impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn text(&self) -> &str {
        self.0.text()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn text_len(&self) -> TextSize {
        self.0.text_len()
    }
    pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> {
        &self.0
    }
}

// ----------------------------------------------------------------------- ast

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SyntaxError {
    MissingRequiredChild,
    UnexpectedBogusNode,
}
impl fmt::Display for SyntaxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SyntaxError::MissingRequiredChild => f.write_str("missing required child"),
            SyntaxError::UnexpectedBogusNode => f.write_str("unexpected bogus node"),
        }
    }
}
impl std::error::Error for SyntaxError {}
pub type SyntaxResult<T> = Result<T, SyntaxError>;

pub trait AstNode: Clone {
    type Language: Language;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized;
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized,
    {
        Self::cast(syntax.clone())
    }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>>
    where
        Self: Sized,
    {
        if Self::can_cast(syntax.kind()) {
            Ok(Self::unwrap_cast(syntax))
        } else {
            Err(syntax)
        }
    }
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self
    where
        Self: Sized,
    {
        let kind = syntax.kind();
        Self::cast(syntax).unwrap_or_else(|| panic!("Tried to cast node with kind {kind:?}"))
    }
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>
    where
        Self: Sized;
    fn to_trimmed_text(&self) -> TokenText {
        self.syntax().text_trimmed()
    }
    fn to_trimmed_string(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn text(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn range(&self) -> TextRange {
        self.syntax().text_trimmed_range()
    }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> {
        self.syntax().parent().and_then(T::cast)
    }
}

#[derive(Debug, Clone)]
pub struct AstNodeListIterator<N>(std::vec::IntoIter<N>);
impl<N> Iterator for AstNodeListIterator<N> {
    type Item = N;
    fn next(&mut self) -> Option<N> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<N> ExactSizeIterator for AstNodeListIterator<N> {}
impl<N> DoubleEndedIterator for AstNodeListIterator<N> {
    fn next_back(&mut self) -> Option<N> {
        self.0.next_back()
    }
}
impl<N> std::iter::FusedIterator for AstNodeListIterator<N> {}

pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn iter(&self) -> AstNodeListIterator<Self::Node> {
        let v: Vec<_> = self.syntax_list().children().map(Self::Node::unwrap_cast).collect();
        AstNodeListIterator(v.into_iter())
    }
    fn len(&self) -> usize {
        self.syntax_list().slot_count()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<Self::Node> {
        self.iter().next()
    }
    fn last(&self) -> Option<Self::Node> {
        self.iter().last()
    }
}

#[derive(Debug, Clone)]
pub struct AstSeparatedElement<L: Language, N> {
    node: SyntaxResult<N>,
    trailing_separator: SyntaxResult<Option<SyntaxToken<L>>>,
}
impl<L: Language, N: AstNode<Language = L>> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> {
        match &self.node {
            Ok(n) => Ok(n),
            Err(e) => Err(*e),
        }
    }
    pub fn into_node(self) -> SyntaxResult<N> {
        self.node
    }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> {
        match &self.trailing_separator {
            Ok(Some(t)) => Ok(Some(t)),
            Ok(None) => Ok(None),
            Err(e) => Err(*e),
        }
    }
    pub fn into_trailing_separator(self) -> SyntaxResult<Option<SyntaxToken<L>>> {
        self.trailing_separator
    }
}

pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn iter(&self) -> AstNodeListIterator<SyntaxResult<Self::Node>> {
        let v: Vec<_> = self.elements().map(|e| e.node).collect();
        AstNodeListIterator(v.into_iter())
    }
    fn elements(&self) -> AstNodeListIterator<AstSeparatedElement<Self::Language, Self::Node>> {
        let s: Vec<_> = self.syntax_list().slots().collect();
        let mut v = vec![];
        for pair in s.chunks(2) {
            let node = match &pair[0] {
                SyntaxSlot::Node(n) => Ok(Self::Node::unwrap_cast(n.clone())),
                _ => Err(SyntaxError::MissingRequiredChild),
            };
            let trailing_separator = match pair.get(1) {
                Some(SyntaxSlot::Token(t)) => Ok(Some(t.clone())),
                Some(_) => Err(SyntaxError::MissingRequiredChild),
                None => Ok(None),
            };
            v.push(AstSeparatedElement { node, trailing_separator });
        }
        AstNodeListIterator(v.into_iter())
    }
    fn separators(&self) -> AstNodeListIterator<SyntaxResult<SyntaxToken<Self::Language>>> {
        let v: Vec<_> = self.syntax_list().tokens().map(Ok).collect();
        AstNodeListIterator(v.into_iter())
    }
    fn len(&self) -> usize {
        (self.syntax_list().slot_count() + 1) / 2
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next()
    }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().last()
    }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> {
        match self.syntax_list().slots().last()? {
            SyntaxSlot::Token(t) => Some(t),
            _ => None,
        }
    }
}

/// Support for generated accessors.
pub mod support {
    use super::*;
    pub fn token<L: Language>(p: &SyntaxNode<L>, slot: usize) -> Option<SyntaxToken<L>> {
        p.element_in_slot(slot)?.into_token()
    }
    pub fn node<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, slot: usize) -> Option<N> {
        N::cast(p.element_in_slot(slot)?.into_node()?)
    }
    pub fn required_token<L: Language>(p: &SyntaxNode<L>, slot: usize) -> SyntaxResult<SyntaxToken<L>> {
        token(p, slot).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, slot: usize) -> SyntaxResult<N> {
        node(p, slot).ok_or(SyntaxError::MissingRequiredChild)
    }
}
