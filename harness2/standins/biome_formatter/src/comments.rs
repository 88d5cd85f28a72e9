use biome_rowan::{
    Direction, Language, NodeOrToken, SyntaxKind, SyntaxNode, SyntaxToken, SyntaxTriviaPieceComments, WalkEvent,
};
use std::collections::HashMap;
use std::fmt;
use std::rc::Rc;

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum CommentKind {
    InlineBlock,
    Block,
    Line,
}
impl CommentKind {
    pub const fn is_line(&self) -> bool {
        matches!(self, CommentKind::Line)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum CommentTextPosition {
    EndOfLine,
    OwnLine,
    SameLine,
}

/// A comment that has been attached to a node.
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct SourceComment<L: Language> {
    lines_before: u32,
    lines_after: u32,
    piece: SyntaxTriviaPieceComments<L>,
    kind: CommentKind,
}
impl<L: Language> SourceComment<L> {
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
        &self.piece
    }
    pub fn lines_before(&self) -> u32 {
        self.lines_before
    }
    pub fn lines_after(&self) -> u32 {
        self.lines_after
    }
    pub fn kind(&self) -> CommentKind {
        self.kind
    }
}

#[derive(Clone, Debug)]
pub struct DecoratedComment<L: Language> {
    enclosing: SyntaxNode<L>,
    preceding: Option<SyntaxNode<L>>,
    following: Option<SyntaxNode<L>>,
    following_token: Option<SyntaxToken<L>>,
    text_position: CommentTextPosition,
    lines_before: u32,
    lines_after: u32,
    comment: SyntaxTriviaPieceComments<L>,
    kind: CommentKind,
}
impl<L: Language> DecoratedComment<L> {
    pub fn enclosing_node(&self) -> &SyntaxNode<L> {
        &self.enclosing
    }
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
        &self.comment
    }
    pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> {
        self.preceding.as_ref()
    }
    pub fn following_node(&self) -> Option<&SyntaxNode<L>> {
        self.following.as_ref()
    }
    pub fn following_token(&self) -> Option<&SyntaxToken<L>> {
        self.following_token.as_ref()
    }
    pub fn lines_before(&self) -> u32 {
        self.lines_before
    }
    pub fn lines_after(&self) -> u32 {
        self.lines_after
    }
    pub fn kind(&self) -> CommentKind {
        self.kind
    }
    pub fn text_position(&self) -> CommentTextPosition {
        self.text_position
    }
    fn source(self) -> SourceComment<L> {
        SourceComment { lines_before: self.lines_before, lines_after: self.lines_after, piece: self.comment, kind: self.kind }
    }
}

#[derive(Debug)]
pub enum CommentPlacement<L: Language> {
    Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
    Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
    Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
    Default(DecoratedComment<L>),
}
impl<L: Language> CommentPlacement<L> {
    pub fn leading(node: SyntaxNode<L>, c: DecoratedComment<L>) -> Self {
        CommentPlacement::Leading { node, comment: c.source() }
    }
    pub fn trailing(node: SyntaxNode<L>, c: DecoratedComment<L>) -> Self {
        CommentPlacement::Trailing { node, comment: c.source() }
    }
    pub fn dangling(node: SyntaxNode<L>, c: DecoratedComment<L>) -> Self {
        CommentPlacement::Dangling { node, comment: c.source() }
    }
    pub fn or_else<F: FnOnce(DecoratedComment<L>) -> CommentPlacement<L>>(self, f: F) -> Self {
        match self {
            CommentPlacement::Default(c) => f(c),
            p => p,
        }
    }
}

pub trait CommentStyle: Default {
    type Language: Language;
    fn is_suppression(_text: &str) -> bool {
        false
    }
    fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
    fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> {
        CommentPlacement::Default(comment)
    }
}

pub struct TransformSourceMap;

struct Attached<L: Language> {
    leading: Vec<SourceComment<L>>,
    trailing: Vec<SourceComment<L>>,
    dangling: Vec<SourceComment<L>>,
}
impl<L: Language> Default for Attached<L> {
    fn default() -> Self {
        Attached { leading: vec![], trailing: vec![], dangling: vec![] }
    }
}

#[derive(Clone)]
pub struct Comments<L: Language>(Rc<HashMap<SyntaxNode<L>, Attached<L>>>);
impl<L: Language> fmt::Debug for Comments<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Comments({})", self.0.len())
    }
}
impl<L: Language> Default for Comments<L> {
    fn default() -> Self {
        Comments(Rc::new(HashMap::new()))
    }
}

impl<L: Language> Comments<L> {
    pub fn from_node<S: CommentStyle<Language = L>>(
        root: &SyntaxNode<L>,
        style: &S,
        _source_map: Option<&TransformSourceMap>,
    ) -> Self {
        let mut v = Visitor::<L, S> {
            style,
            out: HashMap::new(),
            pending: vec![],
            preceding: None,
            following: None,
            parents: vec![],
            last_token: None,
        };
        for e in root.preorder_with_tokens(Direction::Next) {
            match e {
                WalkEvent::Enter(NodeOrToken::Node(n)) => v.enter(n),
                WalkEvent::Leave(NodeOrToken::Node(n)) => v.leave(n),
                WalkEvent::Enter(NodeOrToken::Token(t)) => v.token(t),
                WalkEvent::Leave(NodeOrToken::Token(_)) => {}
            }
        }
        v.flush(None);
        Comments(Rc::new(v.out))
    }
    fn get(&self, node: &SyntaxNode<L>) -> Option<&Attached<L>> {
        self.0.get(node)
    }
    pub fn leading_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.get(node).map_or(&[], |a| &a.leading)
    }
    pub fn trailing_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.get(node).map_or(&[], |a| &a.trailing)
    }
    pub fn dangling_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.get(node).map_or(&[], |a| &a.dangling)
    }
    pub fn has_comments(&self, node: &SyntaxNode<L>) -> bool {
        self.get(node).is_some()
    }
    pub fn has_leading_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.leading_comments(node).is_empty()
    }
    pub fn has_trailing_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.trailing_comments(node).is_empty()
    }
    pub fn has_dangling_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.dangling_comments(node).is_empty()
    }
    pub fn leading_dangling_trailing_comments<'a>(
        &'a self,
        node: &SyntaxNode<L>,
    ) -> impl Iterator<Item = &'a SourceComment<L>> + 'a {
        let (l, d, t): (&'a [_], &'a [_], &'a [_]) = match self.0.get(node) {
            Some(a) => (&a.leading, &a.dangling, &a.trailing),
            None => (&[], &[], &[]),
        };
        l.iter().chain(d).chain(t)
    }
}

struct Visitor<'a, L: Language, S> {
    style: &'a S,
    out: HashMap<SyntaxNode<L>, Attached<L>>,
    pending: Vec<DecoratedComment<L>>,
    preceding: Option<SyntaxNode<L>>,
    /// Index in `parents` of the node that comes next.
    following: Option<usize>,
    parents: Vec<SyntaxNode<L>>,
    last_token: Option<SyntaxToken<L>>,
}

impl<L: Language, S: CommentStyle<Language = L>> Visitor<'_, L, S> {
    fn enter(&mut self, n: SyntaxNode<L>) {
        // Comments belong to the list's parent or to one of its items.
        if n.kind().is_list() {
            return;
        }
        let is_root = matches!(self.following, Some(0));
        // Associate comments with the outermost node that starts here.
        if self.following.is_none() || is_root {
            self.flush(Some(&n));
            self.following = Some(self.parents.len());
        }
        self.parents.push(n);
    }
    fn leave(&mut self, n: SyntaxNode<L>) {
        if n.kind().is_list() {
            return;
        }
        self.parents.pop();
        self.following = None;
        self.flush(None);
        self.preceding = Some(n);
    }
    fn token(&mut self, t: SyntaxToken<L>) {
        let mut found: Vec<(SyntaxTriviaPieceComments<L>, u32, bool)> = vec![];
        let mut lines = 0u32;
        let mut own = self.last_token.is_none();
        if let Some(last) = self.last_token.take() {
            for p in last.trailing_trivia().pieces() {
                if p.is_newline() {
                    lines += 1;
                } else if let Some(c) = p.as_comments() {
                    found.push((c, lines, false));
                    lines = 0;
                }
            }
        }
        for p in t.leading_trivia().pieces() {
            if p.is_newline() {
                lines += 1;
                own = true;
            } else if let Some(c) = p.as_comments() {
                found.push((c, lines, own));
                lines = 0;
            }
        }
        let n = found.len();
        if n > 0 {
            let lines_at: Vec<u32> = found.iter().map(|f| f.1).collect();
            let enclosing = self.enclosing();
            for (i, (comment, before, own)) in found.into_iter().enumerate() {
                let after = lines_at.get(i + 1).copied().unwrap_or(lines);
                let text_position = if own {
                    CommentTextPosition::OwnLine
                } else if after > 0 || t.kind().to_raw() == 0 {
                    CommentTextPosition::EndOfLine
                } else {
                    CommentTextPosition::SameLine
                };
                let kind = S::get_comment_kind(&comment);
                self.pending.push(DecoratedComment {
                    enclosing: enclosing.clone(),
                    preceding: self.preceding.clone(),
                    following: None,
                    following_token: Some(t.clone()),
                    text_position,
                    lines_before: before,
                    lines_after: after,
                    comment,
                    kind,
                });
            }
        }
        if let Some(i) = self.following.take() {
            let f = self.parents[i].clone();
            self.flush(Some(&f));
        }
        // Whatever follows now is preceded by this token, not by a node.
        self.preceding = None;
        self.last_token = Some(t);
    }
    /// The node that encloses a comment before the current token.
    fn enclosing(&self) -> SyntaxNode<L> {
        let i = match self.following {
            None => self.parents.len() - 1,
            Some(0) => 0,
            Some(i) => i - 1,
        };
        self.parents[i].clone()
    }
    fn flush(&mut self, following: Option<&SyntaxNode<L>>) {
        for mut c in std::mem::take(&mut self.pending) {
            c.following = following.cloned();
            let placement = self.style.place_comment(c);
            match placement {
                CommentPlacement::Leading { node, comment } => self.at(node).leading.push(comment),
                CommentPlacement::Trailing { node, comment } => self.at(node).trailing.push(comment),
                CommentPlacement::Dangling { node, comment } => self.at(node).dangling.push(comment),
                CommentPlacement::Default(c) => {
                    let (pre, fol) = (c.preceding.clone(), c.following.clone());
                    let enclosing = c.enclosing.clone();
                    match c.text_position {
                        CommentTextPosition::EndOfLine => match (pre, fol) {
                            (Some(p), _) => self.at(p).trailing.push(c.source()),
                            (None, Some(f)) => self.at(f).leading.push(c.source()),
                            (None, None) => self.at(enclosing).dangling.push(c.source()),
                        },
                        CommentTextPosition::OwnLine => match (pre, fol) {
                            (_, Some(f)) => self.at(f).leading.push(c.source()),
                            (Some(p), None) => self.at(p).trailing.push(c.source()),
                            (None, None) => self.at(enclosing).dangling.push(c.source()),
                        },
                        CommentTextPosition::SameLine => match (pre, fol) {
                            (Some(p), Some(f)) => {
                                if p.text_trimmed_range().end() == c.comment.text_range().start() {
                                    self.at(p).trailing.push(c.source())
                                } else {
                                    self.at(f).leading.push(c.source())
                                }
                            }
                            (Some(p), None) => self.at(p).trailing.push(c.source()),
                            (None, Some(f)) => self.at(f).leading.push(c.source()),
                            (None, None) => self.at(enclosing).dangling.push(c.source()),
                        },
                    }
                }
            }
        }
    }
    fn at(&mut self, n: SyntaxNode<L>) -> &mut Attached<L> {
        self.out.entry(n).or_default()
    }
}
