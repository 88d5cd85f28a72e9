// Written by gen_syntax.py; do not edit.
//! Stand-in for air's `air_r_syntax` (whose sources are not available here).
#![allow(non_camel_case_types, clippy::all)]
use biome_rowan::support;
pub use biome_rowan::{Direction, NodeOrToken, TextRange, TextSize, TokenAtOffset, TriviaPieceKind, WalkEvent};
use biome_rowan::{AstNode, AstNodeList, AstNodeListIterator, AstSeparatedList, Language, SyntaxKind, SyntaxResult};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(u16)]
pub enum RSyntaxKind {
    EOF,
    UNICODE_BOM,
    SEMICOLON,
    COMMA,
    L_CURLY,
    R_CURLY,
    L_BRACK,
    R_BRACK,
    L_BRACK2,
    R_BRACK2,
    L_PAREN,
    R_PAREN,
    WAT,
    TILDE,
    ASSIGN,
    SUPER_ASSIGN,
    WALRUS,
    ASSIGN_RIGHT,
    SUPER_ASSIGN_RIGHT,
    EQUAL,
    OR,
    AND,
    OR2,
    AND2,
    GREATER_THAN,
    GREATER_THAN_OR_EQUAL_TO,
    LESS_THAN,
    LESS_THAN_OR_EQUAL_TO,
    EQUAL2,
    NOT_EQUAL,
    PLUS,
    MINUS,
    MULTIPLY,
    DIVIDE,
    EXPONENTIATE,
    EXPONENTIATE2,
    PIPE,
    SPECIAL,
    COLON,
    COLON2,
    COLON3,
    DOLLAR,
    AT,
    BANG,
    BACKSLASH,
    DOTS,
    DOTDOTI,
    FUNCTION_KW,
    FOR_KW,
    IN_KW,
    WHILE_KW,
    REPEAT_KW,
    IF_KW,
    ELSE_KW,
    RETURN_KW,
    NEXT_KW,
    BREAK_KW,
    TRUE_KW,
    FALSE_KW,
    NULL_KW,
    INF_KW,
    NAN_KW,
    NA_LOGICAL_KW,
    NA_INTEGER_KW,
    NA_DOUBLE_KW,
    NA_COMPLEX_KW,
    NA_CHARACTER_KW,
    R_INTEGER_LITERAL,
    R_DOUBLE_LITERAL,
    R_COMPLEX_LITERAL,
    R_STRING_LITERAL,
    IDENT,
    NEWLINE,
    WHITESPACE,
    COMMENT,
    MULTILINE_COMMENT,
    R_ROOT,
    R_FUNCTION_DEFINITION,
    R_PARAMETERS,
    R_PARAMETER,
    R_PARAMETER_DEFAULT,
    R_BRACED_EXPRESSIONS,
    R_PARENTHESIZED_EXPRESSION,
    R_CALL,
    R_CALL_ARGUMENTS,
    R_SUBSET,
    R_SUBSET_ARGUMENTS,
    R_SUBSET2,
    R_SUBSET2_ARGUMENTS,
    R_ARGUMENT,
    R_ARGUMENT_NAME_CLAUSE,
    R_IF_STATEMENT,
    R_ELSE_CLAUSE,
    R_FOR_STATEMENT,
    R_WHILE_STATEMENT,
    R_REPEAT_STATEMENT,
    R_UNARY_EXPRESSION,
    R_BINARY_EXPRESSION,
    R_EXTRACT_EXPRESSION,
    R_NAMESPACE_EXPRESSION,
    R_IDENTIFIER,
    R_DOTS,
    R_DOT_DOT_I,
    R_NEXT_EXPRESSION,
    R_BREAK_EXPRESSION,
    R_RETURN_EXPRESSION,
    R_TRUE_EXPRESSION,
    R_FALSE_EXPRESSION,
    R_NULL_EXPRESSION,
    R_INF_EXPRESSION,
    R_NAN_EXPRESSION,
    R_NA_EXPRESSION,
    R_INTEGER_VALUE,
    R_DOUBLE_VALUE,
    R_COMPLEX_VALUE,
    R_STRING_VALUE,
    R_BOGUS_EXPRESSION,
    R_EXPRESSION_LIST,
    R_PARAMETER_LIST,
    R_ARGUMENT_LIST,
}
use RSyntaxKind::*;

const ALL: &[RSyntaxKind] = &[
    EOF,
    UNICODE_BOM,
    SEMICOLON,
    COMMA,
    L_CURLY,
    R_CURLY,
    L_BRACK,
    R_BRACK,
    L_BRACK2,
    R_BRACK2,
    L_PAREN,
    R_PAREN,
    WAT,
    TILDE,
    ASSIGN,
    SUPER_ASSIGN,
    WALRUS,
    ASSIGN_RIGHT,
    SUPER_ASSIGN_RIGHT,
    EQUAL,
    OR,
    AND,
    OR2,
    AND2,
    GREATER_THAN,
    GREATER_THAN_OR_EQUAL_TO,
    LESS_THAN,
    LESS_THAN_OR_EQUAL_TO,
    EQUAL2,
    NOT_EQUAL,
    PLUS,
    MINUS,
    MULTIPLY,
    DIVIDE,
    EXPONENTIATE,
    EXPONENTIATE2,
    PIPE,
    SPECIAL,
    COLON,
    COLON2,
    COLON3,
    DOLLAR,
    AT,
    BANG,
    BACKSLASH,
    DOTS,
    DOTDOTI,
    FUNCTION_KW,
    FOR_KW,
    IN_KW,
    WHILE_KW,
    REPEAT_KW,
    IF_KW,
    ELSE_KW,
    RETURN_KW,
    NEXT_KW,
    BREAK_KW,
    TRUE_KW,
    FALSE_KW,
    NULL_KW,
    INF_KW,
    NAN_KW,
    NA_LOGICAL_KW,
    NA_INTEGER_KW,
    NA_DOUBLE_KW,
    NA_COMPLEX_KW,
    NA_CHARACTER_KW,
    R_INTEGER_LITERAL,
    R_DOUBLE_LITERAL,
    R_COMPLEX_LITERAL,
    R_STRING_LITERAL,
    IDENT,
    NEWLINE,
    WHITESPACE,
    COMMENT,
    MULTILINE_COMMENT,
    R_ROOT,
    R_FUNCTION_DEFINITION,
    R_PARAMETERS,
    R_PARAMETER,
    R_PARAMETER_DEFAULT,
    R_BRACED_EXPRESSIONS,
    R_PARENTHESIZED_EXPRESSION,
    R_CALL,
    R_CALL_ARGUMENTS,
    R_SUBSET,
    R_SUBSET_ARGUMENTS,
    R_SUBSET2,
    R_SUBSET2_ARGUMENTS,
    R_ARGUMENT,
    R_ARGUMENT_NAME_CLAUSE,
    R_IF_STATEMENT,
    R_ELSE_CLAUSE,
    R_FOR_STATEMENT,
    R_WHILE_STATEMENT,
    R_REPEAT_STATEMENT,
    R_UNARY_EXPRESSION,
    R_BINARY_EXPRESSION,
    R_EXTRACT_EXPRESSION,
    R_NAMESPACE_EXPRESSION,
    R_IDENTIFIER,
    R_DOTS,
    R_DOT_DOT_I,
    R_NEXT_EXPRESSION,
    R_BREAK_EXPRESSION,
    R_RETURN_EXPRESSION,
    R_TRUE_EXPRESSION,
    R_FALSE_EXPRESSION,
    R_NULL_EXPRESSION,
    R_INF_EXPRESSION,
    R_NAN_EXPRESSION,
    R_NA_EXPRESSION,
    R_INTEGER_VALUE,
    R_DOUBLE_VALUE,
    R_COMPLEX_VALUE,
    R_STRING_VALUE,
    R_BOGUS_EXPRESSION,
    R_EXPRESSION_LIST,
    R_PARAMETER_LIST,
    R_ARGUMENT_LIST,
];
impl SyntaxKind for RSyntaxKind {
    fn to_raw(&self) -> u16 { *self as u16 }
    fn from_raw(raw: u16) -> Self { ALL[raw as usize] }
    fn is_list(&self) -> bool { matches!(self, R_EXPRESSION_LIST | R_PARAMETER_LIST | R_ARGUMENT_LIST) }
    fn is_root(&self) -> bool { *self == R_ROOT }
}
impl RSyntaxKind {
    pub fn is_list(&self) -> bool { SyntaxKind::is_list(self) }
    pub fn is_root(&self) -> bool { SyntaxKind::is_root(self) }
    pub fn is_trivia(self) -> bool { matches!(self, NEWLINE | WHITESPACE | COMMENT | MULTILINE_COMMENT) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct RLanguage;
impl Language for RLanguage { type Kind = RSyntaxKind; type Root = RRoot; }
pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;
pub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;
pub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;
pub type RSyntaxTrivia = biome_rowan::SyntaxTrivia<RLanguage>;
pub type RSyntaxSlot = biome_rowan::SyntaxSlot<RLanguage>;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RRoot { syntax: RSyntaxNode }
impl AstNode for RRoot {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ROOT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RRoot { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RRoot { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RRoot> for RSyntaxNode { fn from(n: RRoot) -> RSyntaxNode { n.into_syntax() } }
impl From<RRoot> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RRoot) -> Self { n.into_syntax().into() } }
impl RRoot {
    pub fn bom_token(&self) -> Option<RSyntaxToken> { support::token(&self.syntax, 0) }
    pub fn expressions(&self) -> RExpressionList { support::node(&self.syntax, 1).unwrap() }
    pub fn eof_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RRootFields { RRootFields { bom_token: self.bom_token(), expressions: self.expressions(), eof_token: self.eof_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RRootFields { pub bom_token: Option<RSyntaxToken>, pub expressions: RExpressionList, pub eof_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RFunctionDefinition { syntax: RSyntaxNode }
impl AstNode for RFunctionDefinition {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_FUNCTION_DEFINITION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RFunctionDefinition { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RFunctionDefinition { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RFunctionDefinition> for RSyntaxNode { fn from(n: RFunctionDefinition) -> RSyntaxNode { n.into_syntax() } }
impl From<RFunctionDefinition> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RFunctionDefinition) -> Self { n.into_syntax().into() } }
impl RFunctionDefinition {
    pub fn name(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn parameters(&self) -> SyntaxResult<RParameters> { support::required_node(&self.syntax, 1) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 2) }
    pub fn as_fields(&self) -> RFunctionDefinitionFields { RFunctionDefinitionFields { name: self.name(), parameters: self.parameters(), body: self.body() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RFunctionDefinitionFields { pub name: SyntaxResult<RSyntaxToken>, pub parameters: SyntaxResult<RParameters>, pub body: SyntaxResult<AnyRExpression> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParameters { syntax: RSyntaxNode }
impl AstNode for RParameters {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARAMETERS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RParameters { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RParameters { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RParameters> for RSyntaxNode { fn from(n: RParameters) -> RSyntaxNode { n.into_syntax() } }
impl From<RParameters> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RParameters) -> Self { n.into_syntax().into() } }
impl RParameters {
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn items(&self) -> RParameterList { support::node(&self.syntax, 1).unwrap() }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RParametersFields { RParametersFields { l_paren_token: self.l_paren_token(), items: self.items(), r_paren_token: self.r_paren_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RParametersFields { pub l_paren_token: SyntaxResult<RSyntaxToken>, pub items: RParameterList, pub r_paren_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParameter { syntax: RSyntaxNode }
impl AstNode for RParameter {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARAMETER }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RParameter { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RParameter { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RParameter> for RSyntaxNode { fn from(n: RParameter) -> RSyntaxNode { n.into_syntax() } }
impl From<RParameter> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RParameter) -> Self { n.into_syntax().into() } }
impl RParameter {
    pub fn name(&self) -> SyntaxResult<AnyRParameterName> { support::required_node(&self.syntax, 0) }
    pub fn default(&self) -> Option<RParameterDefault> { support::node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RParameterFields { RParameterFields { name: self.name(), default: self.default() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RParameterFields { pub name: SyntaxResult<AnyRParameterName>, pub default: Option<RParameterDefault> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParameterDefault { syntax: RSyntaxNode }
impl AstNode for RParameterDefault {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARAMETER_DEFAULT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RParameterDefault { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RParameterDefault { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RParameterDefault> for RSyntaxNode { fn from(n: RParameterDefault) -> RSyntaxNode { n.into_syntax() } }
impl From<RParameterDefault> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RParameterDefault) -> Self { n.into_syntax().into() } }
impl RParameterDefault {
    pub fn equal_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn value(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RParameterDefaultFields { RParameterDefaultFields { equal_token: self.equal_token(), value: self.value() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RParameterDefaultFields { pub equal_token: SyntaxResult<RSyntaxToken>, pub value: SyntaxResult<AnyRExpression> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBracedExpressions { syntax: RSyntaxNode }
impl AstNode for RBracedExpressions {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BRACED_EXPRESSIONS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RBracedExpressions { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RBracedExpressions { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RBracedExpressions> for RSyntaxNode { fn from(n: RBracedExpressions) -> RSyntaxNode { n.into_syntax() } }
impl From<RBracedExpressions> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RBracedExpressions) -> Self { n.into_syntax().into() } }
impl RBracedExpressions {
    pub fn l_curly_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn expressions(&self) -> RExpressionList { support::node(&self.syntax, 1).unwrap() }
    pub fn r_curly_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RBracedExpressionsFields { RBracedExpressionsFields { l_curly_token: self.l_curly_token(), expressions: self.expressions(), r_curly_token: self.r_curly_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RBracedExpressionsFields { pub l_curly_token: SyntaxResult<RSyntaxToken>, pub expressions: RExpressionList, pub r_curly_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParenthesizedExpression { syntax: RSyntaxNode }
impl AstNode for RParenthesizedExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARENTHESIZED_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RParenthesizedExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RParenthesizedExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RParenthesizedExpression> for RSyntaxNode { fn from(n: RParenthesizedExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RParenthesizedExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RParenthesizedExpression) -> Self { n.into_syntax().into() } }
impl RParenthesizedExpression {
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RParenthesizedExpressionFields { RParenthesizedExpressionFields { l_paren_token: self.l_paren_token(), body: self.body(), r_paren_token: self.r_paren_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RParenthesizedExpressionFields { pub l_paren_token: SyntaxResult<RSyntaxToken>, pub body: SyntaxResult<AnyRExpression>, pub r_paren_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RCall { syntax: RSyntaxNode }
impl AstNode for RCall {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_CALL }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RCall { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RCall { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RCall> for RSyntaxNode { fn from(n: RCall) -> RSyntaxNode { n.into_syntax() } }
impl From<RCall> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RCall) -> Self { n.into_syntax().into() } }
impl RCall {
    pub fn function(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn arguments(&self) -> SyntaxResult<RCallArguments> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RCallFields { RCallFields { function: self.function(), arguments: self.arguments() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RCallFields { pub function: SyntaxResult<AnyRExpression>, pub arguments: SyntaxResult<RCallArguments> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RCallArguments { syntax: RSyntaxNode }
impl AstNode for RCallArguments {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_CALL_ARGUMENTS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RCallArguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RCallArguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RCallArguments> for RSyntaxNode { fn from(n: RCallArguments) -> RSyntaxNode { n.into_syntax() } }
impl From<RCallArguments> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RCallArguments) -> Self { n.into_syntax().into() } }
impl RCallArguments {
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn items(&self) -> RArgumentList { support::node(&self.syntax, 1).unwrap() }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RCallArgumentsFields { RCallArgumentsFields { l_paren_token: self.l_paren_token(), items: self.items(), r_paren_token: self.r_paren_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RCallArgumentsFields { pub l_paren_token: SyntaxResult<RSyntaxToken>, pub items: RArgumentList, pub r_paren_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RSubset { syntax: RSyntaxNode }
impl AstNode for RSubset {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_SUBSET }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RSubset { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RSubset { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RSubset> for RSyntaxNode { fn from(n: RSubset) -> RSyntaxNode { n.into_syntax() } }
impl From<RSubset> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RSubset) -> Self { n.into_syntax().into() } }
impl RSubset {
    pub fn function(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn arguments(&self) -> SyntaxResult<RSubsetArguments> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RSubsetFields { RSubsetFields { function: self.function(), arguments: self.arguments() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RSubsetFields { pub function: SyntaxResult<AnyRExpression>, pub arguments: SyntaxResult<RSubsetArguments> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RSubsetArguments { syntax: RSyntaxNode }
impl AstNode for RSubsetArguments {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_SUBSET_ARGUMENTS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RSubsetArguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RSubsetArguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RSubsetArguments> for RSyntaxNode { fn from(n: RSubsetArguments) -> RSyntaxNode { n.into_syntax() } }
impl From<RSubsetArguments> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RSubsetArguments) -> Self { n.into_syntax().into() } }
impl RSubsetArguments {
    pub fn l_brack_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn items(&self) -> RArgumentList { support::node(&self.syntax, 1).unwrap() }
    pub fn r_brack_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RSubsetArgumentsFields { RSubsetArgumentsFields { l_brack_token: self.l_brack_token(), items: self.items(), r_brack_token: self.r_brack_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RSubsetArgumentsFields { pub l_brack_token: SyntaxResult<RSyntaxToken>, pub items: RArgumentList, pub r_brack_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RSubset2 { syntax: RSyntaxNode }
impl AstNode for RSubset2 {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_SUBSET2 }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RSubset2 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RSubset2 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RSubset2> for RSyntaxNode { fn from(n: RSubset2) -> RSyntaxNode { n.into_syntax() } }
impl From<RSubset2> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RSubset2) -> Self { n.into_syntax().into() } }
impl RSubset2 {
    pub fn function(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn arguments(&self) -> SyntaxResult<RSubset2Arguments> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RSubset2Fields { RSubset2Fields { function: self.function(), arguments: self.arguments() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RSubset2Fields { pub function: SyntaxResult<AnyRExpression>, pub arguments: SyntaxResult<RSubset2Arguments> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RSubset2Arguments { syntax: RSyntaxNode }
impl AstNode for RSubset2Arguments {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_SUBSET2_ARGUMENTS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RSubset2Arguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RSubset2Arguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RSubset2Arguments> for RSyntaxNode { fn from(n: RSubset2Arguments) -> RSyntaxNode { n.into_syntax() } }
impl From<RSubset2Arguments> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RSubset2Arguments) -> Self { n.into_syntax().into() } }
impl RSubset2Arguments {
    pub fn l_brack2_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn items(&self) -> RArgumentList { support::node(&self.syntax, 1).unwrap() }
    pub fn r_brack2_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RSubset2ArgumentsFields { RSubset2ArgumentsFields { l_brack2_token: self.l_brack2_token(), items: self.items(), r_brack2_token: self.r_brack2_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RSubset2ArgumentsFields { pub l_brack2_token: SyntaxResult<RSyntaxToken>, pub items: RArgumentList, pub r_brack2_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RArgument { syntax: RSyntaxNode }
impl AstNode for RArgument {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ARGUMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RArgument { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RArgument { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RArgument> for RSyntaxNode { fn from(n: RArgument) -> RSyntaxNode { n.into_syntax() } }
impl From<RArgument> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RArgument) -> Self { n.into_syntax().into() } }
impl RArgument {
    pub fn name_clause(&self) -> Option<RArgumentNameClause> { support::node(&self.syntax, 0) }
    pub fn value(&self) -> Option<AnyRExpression> { support::node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RArgumentFields { RArgumentFields { name_clause: self.name_clause(), value: self.value() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RArgumentFields { pub name_clause: Option<RArgumentNameClause>, pub value: Option<AnyRExpression> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RArgumentNameClause { syntax: RSyntaxNode }
impl AstNode for RArgumentNameClause {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ARGUMENT_NAME_CLAUSE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RArgumentNameClause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RArgumentNameClause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RArgumentNameClause> for RSyntaxNode { fn from(n: RArgumentNameClause) -> RSyntaxNode { n.into_syntax() } }
impl From<RArgumentNameClause> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RArgumentNameClause) -> Self { n.into_syntax().into() } }
impl RArgumentNameClause {
    pub fn name(&self) -> SyntaxResult<AnyRArgumentName> { support::required_node(&self.syntax, 0) }
    pub fn equal_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn as_fields(&self) -> RArgumentNameClauseFields { RArgumentNameClauseFields { name: self.name(), equal_token: self.equal_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RArgumentNameClauseFields { pub name: SyntaxResult<AnyRArgumentName>, pub equal_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RIfStatement { syntax: RSyntaxNode }
impl AstNode for RIfStatement {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_IF_STATEMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RIfStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RIfStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RIfStatement> for RSyntaxNode { fn from(n: RIfStatement) -> RSyntaxNode { n.into_syntax() } }
impl From<RIfStatement> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RIfStatement) -> Self { n.into_syntax().into() } }
impl RIfStatement {
    pub fn if_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn condition(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 2) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 3) }
    pub fn consequence(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 4) }
    pub fn else_clause(&self) -> Option<RElseClause> { support::node(&self.syntax, 5) }
    pub fn as_fields(&self) -> RIfStatementFields { RIfStatementFields { if_token: self.if_token(), l_paren_token: self.l_paren_token(), condition: self.condition(), r_paren_token: self.r_paren_token(), consequence: self.consequence(), else_clause: self.else_clause() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RIfStatementFields { pub if_token: SyntaxResult<RSyntaxToken>, pub l_paren_token: SyntaxResult<RSyntaxToken>, pub condition: SyntaxResult<AnyRExpression>, pub r_paren_token: SyntaxResult<RSyntaxToken>, pub consequence: SyntaxResult<AnyRExpression>, pub else_clause: Option<RElseClause> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RElseClause { syntax: RSyntaxNode }
impl AstNode for RElseClause {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ELSE_CLAUSE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RElseClause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RElseClause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RElseClause> for RSyntaxNode { fn from(n: RElseClause) -> RSyntaxNode { n.into_syntax() } }
impl From<RElseClause> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RElseClause) -> Self { n.into_syntax().into() } }
impl RElseClause {
    pub fn else_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn alternative(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RElseClauseFields { RElseClauseFields { else_token: self.else_token(), alternative: self.alternative() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RElseClauseFields { pub else_token: SyntaxResult<RSyntaxToken>, pub alternative: SyntaxResult<AnyRExpression> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RForStatement { syntax: RSyntaxNode }
impl AstNode for RForStatement {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_FOR_STATEMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RForStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RForStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RForStatement> for RSyntaxNode { fn from(n: RForStatement) -> RSyntaxNode { n.into_syntax() } }
impl From<RForStatement> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RForStatement) -> Self { n.into_syntax().into() } }
impl RForStatement {
    pub fn for_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn variable(&self) -> SyntaxResult<RIdentifier> { support::required_node(&self.syntax, 2) }
    pub fn in_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 3) }
    pub fn sequence(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 4) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 5) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 6) }
    pub fn as_fields(&self) -> RForStatementFields { RForStatementFields { for_token: self.for_token(), l_paren_token: self.l_paren_token(), variable: self.variable(), in_token: self.in_token(), sequence: self.sequence(), r_paren_token: self.r_paren_token(), body: self.body() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RForStatementFields { pub for_token: SyntaxResult<RSyntaxToken>, pub l_paren_token: SyntaxResult<RSyntaxToken>, pub variable: SyntaxResult<RIdentifier>, pub in_token: SyntaxResult<RSyntaxToken>, pub sequence: SyntaxResult<AnyRExpression>, pub r_paren_token: SyntaxResult<RSyntaxToken>, pub body: SyntaxResult<AnyRExpression> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RWhileStatement { syntax: RSyntaxNode }
impl AstNode for RWhileStatement {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_WHILE_STATEMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RWhileStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RWhileStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RWhileStatement> for RSyntaxNode { fn from(n: RWhileStatement) -> RSyntaxNode { n.into_syntax() } }
impl From<RWhileStatement> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RWhileStatement) -> Self { n.into_syntax().into() } }
impl RWhileStatement {
    pub fn while_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn condition(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 2) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 3) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 4) }
    pub fn as_fields(&self) -> RWhileStatementFields { RWhileStatementFields { while_token: self.while_token(), l_paren_token: self.l_paren_token(), condition: self.condition(), r_paren_token: self.r_paren_token(), body: self.body() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RWhileStatementFields { pub while_token: SyntaxResult<RSyntaxToken>, pub l_paren_token: SyntaxResult<RSyntaxToken>, pub condition: SyntaxResult<AnyRExpression>, pub r_paren_token: SyntaxResult<RSyntaxToken>, pub body: SyntaxResult<AnyRExpression> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RRepeatStatement { syntax: RSyntaxNode }
impl AstNode for RRepeatStatement {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_REPEAT_STATEMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RRepeatStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RRepeatStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RRepeatStatement> for RSyntaxNode { fn from(n: RRepeatStatement) -> RSyntaxNode { n.into_syntax() } }
impl From<RRepeatStatement> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RRepeatStatement) -> Self { n.into_syntax().into() } }
impl RRepeatStatement {
    pub fn repeat_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RRepeatStatementFields { RRepeatStatementFields { repeat_token: self.repeat_token(), body: self.body() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RRepeatStatementFields { pub repeat_token: SyntaxResult<RSyntaxToken>, pub body: SyntaxResult<AnyRExpression> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RUnaryExpression { syntax: RSyntaxNode }
impl AstNode for RUnaryExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_UNARY_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RUnaryExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RUnaryExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RUnaryExpression> for RSyntaxNode { fn from(n: RUnaryExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RUnaryExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RUnaryExpression) -> Self { n.into_syntax().into() } }
impl RUnaryExpression {
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn argument(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RUnaryExpressionFields { RUnaryExpressionFields { operator: self.operator(), argument: self.argument() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RUnaryExpressionFields { pub operator: SyntaxResult<RSyntaxToken>, pub argument: SyntaxResult<AnyRExpression> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBinaryExpression { syntax: RSyntaxNode }
impl AstNode for RBinaryExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BINARY_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RBinaryExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RBinaryExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RBinaryExpression> for RSyntaxNode { fn from(n: RBinaryExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RBinaryExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RBinaryExpression) -> Self { n.into_syntax().into() } }
impl RBinaryExpression {
    pub fn left(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn right(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 2) }
    pub fn as_fields(&self) -> RBinaryExpressionFields { RBinaryExpressionFields { left: self.left(), operator: self.operator(), right: self.right() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RBinaryExpressionFields { pub left: SyntaxResult<AnyRExpression>, pub operator: SyntaxResult<RSyntaxToken>, pub right: SyntaxResult<AnyRExpression> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RExtractExpression { syntax: RSyntaxNode }
impl AstNode for RExtractExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_EXTRACT_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RExtractExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RExtractExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RExtractExpression> for RSyntaxNode { fn from(n: RExtractExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RExtractExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RExtractExpression) -> Self { n.into_syntax().into() } }
impl RExtractExpression {
    pub fn left(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn right(&self) -> SyntaxResult<AnyRSelector> { support::required_node(&self.syntax, 2) }
    pub fn as_fields(&self) -> RExtractExpressionFields { RExtractExpressionFields { left: self.left(), operator: self.operator(), right: self.right() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RExtractExpressionFields { pub left: SyntaxResult<AnyRExpression>, pub operator: SyntaxResult<RSyntaxToken>, pub right: SyntaxResult<AnyRSelector> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNamespaceExpression { syntax: RSyntaxNode }
impl AstNode for RNamespaceExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NAMESPACE_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RNamespaceExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RNamespaceExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RNamespaceExpression> for RSyntaxNode { fn from(n: RNamespaceExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RNamespaceExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RNamespaceExpression) -> Self { n.into_syntax().into() } }
impl RNamespaceExpression {
    pub fn left(&self) -> SyntaxResult<AnyRSelector> { support::required_node(&self.syntax, 0) }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn right(&self) -> SyntaxResult<AnyRSelector> { support::required_node(&self.syntax, 2) }
    pub fn as_fields(&self) -> RNamespaceExpressionFields { RNamespaceExpressionFields { left: self.left(), operator: self.operator(), right: self.right() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RNamespaceExpressionFields { pub left: SyntaxResult<AnyRSelector>, pub operator: SyntaxResult<RSyntaxToken>, pub right: SyntaxResult<AnyRSelector> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RIdentifier { syntax: RSyntaxNode }
impl AstNode for RIdentifier {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_IDENTIFIER }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RIdentifier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RIdentifier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RIdentifier> for RSyntaxNode { fn from(n: RIdentifier) -> RSyntaxNode { n.into_syntax() } }
impl From<RIdentifier> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RIdentifier) -> Self { n.into_syntax().into() } }
impl RIdentifier {
    pub fn name_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RIdentifierFields { RIdentifierFields { name_token: self.name_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RIdentifierFields { pub name_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RDots { syntax: RSyntaxNode }
impl AstNode for RDots {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_DOTS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RDots { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RDots { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RDots> for RSyntaxNode { fn from(n: RDots) -> RSyntaxNode { n.into_syntax() } }
impl From<RDots> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RDots) -> Self { n.into_syntax().into() } }
impl RDots {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RDotsFields { RDotsFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RDotsFields { pub value_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RDotDotI { syntax: RSyntaxNode }
impl AstNode for RDotDotI {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_DOT_DOT_I }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RDotDotI { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RDotDotI { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RDotDotI> for RSyntaxNode { fn from(n: RDotDotI) -> RSyntaxNode { n.into_syntax() } }
impl From<RDotDotI> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RDotDotI) -> Self { n.into_syntax().into() } }
impl RDotDotI {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RDotDotIFields { RDotDotIFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RDotDotIFields { pub value_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNextExpression { syntax: RSyntaxNode }
impl AstNode for RNextExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NEXT_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RNextExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RNextExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RNextExpression> for RSyntaxNode { fn from(n: RNextExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RNextExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RNextExpression) -> Self { n.into_syntax().into() } }
impl RNextExpression {
    pub fn next_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RNextExpressionFields { RNextExpressionFields { next_token: self.next_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RNextExpressionFields { pub next_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBreakExpression { syntax: RSyntaxNode }
impl AstNode for RBreakExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BREAK_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RBreakExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RBreakExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RBreakExpression> for RSyntaxNode { fn from(n: RBreakExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RBreakExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RBreakExpression) -> Self { n.into_syntax().into() } }
impl RBreakExpression {
    pub fn break_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RBreakExpressionFields { RBreakExpressionFields { break_token: self.break_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RBreakExpressionFields { pub break_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RReturnExpression { syntax: RSyntaxNode }
impl AstNode for RReturnExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_RETURN_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RReturnExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RReturnExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RReturnExpression> for RSyntaxNode { fn from(n: RReturnExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RReturnExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RReturnExpression) -> Self { n.into_syntax().into() } }
impl RReturnExpression {
    pub fn return_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RReturnExpressionFields { RReturnExpressionFields { return_token: self.return_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RReturnExpressionFields { pub return_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RTrueExpression { syntax: RSyntaxNode }
impl AstNode for RTrueExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_TRUE_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RTrueExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RTrueExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RTrueExpression> for RSyntaxNode { fn from(n: RTrueExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RTrueExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RTrueExpression) -> Self { n.into_syntax().into() } }
impl RTrueExpression {
    pub fn true_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RTrueExpressionFields { RTrueExpressionFields { true_token: self.true_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RTrueExpressionFields { pub true_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RFalseExpression { syntax: RSyntaxNode }
impl AstNode for RFalseExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_FALSE_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RFalseExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RFalseExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RFalseExpression> for RSyntaxNode { fn from(n: RFalseExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RFalseExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RFalseExpression) -> Self { n.into_syntax().into() } }
impl RFalseExpression {
    pub fn false_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RFalseExpressionFields { RFalseExpressionFields { false_token: self.false_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RFalseExpressionFields { pub false_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNullExpression { syntax: RSyntaxNode }
impl AstNode for RNullExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NULL_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RNullExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RNullExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RNullExpression> for RSyntaxNode { fn from(n: RNullExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RNullExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RNullExpression) -> Self { n.into_syntax().into() } }
impl RNullExpression {
    pub fn null_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RNullExpressionFields { RNullExpressionFields { null_token: self.null_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RNullExpressionFields { pub null_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RInfExpression { syntax: RSyntaxNode }
impl AstNode for RInfExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_INF_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RInfExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RInfExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RInfExpression> for RSyntaxNode { fn from(n: RInfExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RInfExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RInfExpression) -> Self { n.into_syntax().into() } }
impl RInfExpression {
    pub fn inf_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RInfExpressionFields { RInfExpressionFields { inf_token: self.inf_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RInfExpressionFields { pub inf_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNanExpression { syntax: RSyntaxNode }
impl AstNode for RNanExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NAN_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RNanExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RNanExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RNanExpression> for RSyntaxNode { fn from(n: RNanExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RNanExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RNanExpression) -> Self { n.into_syntax().into() } }
impl RNanExpression {
    pub fn nan_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RNanExpressionFields { RNanExpressionFields { nan_token: self.nan_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RNanExpressionFields { pub nan_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNaExpression { syntax: RSyntaxNode }
impl AstNode for RNaExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NA_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RNaExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RNaExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RNaExpression> for RSyntaxNode { fn from(n: RNaExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RNaExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RNaExpression) -> Self { n.into_syntax().into() } }
impl RNaExpression {
    pub fn value(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RNaExpressionFields { RNaExpressionFields { value: self.value() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RNaExpressionFields { pub value: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RIntegerValue { syntax: RSyntaxNode }
impl AstNode for RIntegerValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_INTEGER_VALUE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RIntegerValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RIntegerValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RIntegerValue> for RSyntaxNode { fn from(n: RIntegerValue) -> RSyntaxNode { n.into_syntax() } }
impl From<RIntegerValue> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RIntegerValue) -> Self { n.into_syntax().into() } }
impl RIntegerValue {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RIntegerValueFields { RIntegerValueFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RIntegerValueFields { pub value_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RDoubleValue { syntax: RSyntaxNode }
impl AstNode for RDoubleValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_DOUBLE_VALUE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RDoubleValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RDoubleValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RDoubleValue> for RSyntaxNode { fn from(n: RDoubleValue) -> RSyntaxNode { n.into_syntax() } }
impl From<RDoubleValue> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RDoubleValue) -> Self { n.into_syntax().into() } }
impl RDoubleValue {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RDoubleValueFields { RDoubleValueFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RDoubleValueFields { pub value_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RComplexValue { syntax: RSyntaxNode }
impl AstNode for RComplexValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_COMPLEX_VALUE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RComplexValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RComplexValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RComplexValue> for RSyntaxNode { fn from(n: RComplexValue) -> RSyntaxNode { n.into_syntax() } }
impl From<RComplexValue> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RComplexValue) -> Self { n.into_syntax().into() } }
impl RComplexValue {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RComplexValueFields { RComplexValueFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RComplexValueFields { pub value_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RStringValue { syntax: RSyntaxNode }
impl AstNode for RStringValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_STRING_VALUE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RStringValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RStringValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RStringValue> for RSyntaxNode { fn from(n: RStringValue) -> RSyntaxNode { n.into_syntax() } }
impl From<RStringValue> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RStringValue) -> Self { n.into_syntax().into() } }
impl RStringValue {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RStringValueFields { RStringValueFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RStringValueFields { pub value_token: SyntaxResult<RSyntaxToken> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBogusExpression { syntax: RSyntaxNode }
impl AstNode for RBogusExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BOGUS_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RBogusExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RBogusExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RBogusExpression> for RSyntaxNode { fn from(n: RBogusExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<RBogusExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RBogusExpression) -> Self { n.into_syntax().into() } }
impl RBogusExpression {
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RExpressionList { syntax: RSyntaxNode }
impl AstNode for RExpressionList {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_EXPRESSION_LIST }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RExpressionList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RExpressionList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RExpressionList> for RSyntaxNode { fn from(n: RExpressionList) -> RSyntaxNode { n.into_syntax() } }
impl From<RExpressionList> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RExpressionList) -> Self { n.into_syntax().into() } }
impl AstNodeList for RExpressionList { type Language = RLanguage; type Node = AnyRExpression; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl IntoIterator for RExpressionList { type Item = AnyRExpression; type IntoIter = AstNodeListIterator<AnyRExpression>; fn into_iter(self) -> Self::IntoIter { AstNodeList::iter(&self) } }
impl IntoIterator for &RExpressionList { type Item = AnyRExpression; type IntoIter = AstNodeListIterator<AnyRExpression>; fn into_iter(self) -> Self::IntoIter { AstNodeList::iter(self) } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParameterList { syntax: RSyntaxNode }
impl AstNode for RParameterList {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARAMETER_LIST }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RParameterList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RParameterList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RParameterList> for RSyntaxNode { fn from(n: RParameterList) -> RSyntaxNode { n.into_syntax() } }
impl From<RParameterList> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RParameterList) -> Self { n.into_syntax().into() } }
impl AstSeparatedList for RParameterList { type Language = RLanguage; type Node = RParameter; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl IntoIterator for RParameterList { type Item = SyntaxResult<RParameter>; type IntoIter = AstNodeListIterator<SyntaxResult<RParameter>>; fn into_iter(self) -> Self::IntoIter { AstSeparatedList::iter(&self) } }
impl IntoIterator for &RParameterList { type Item = SyntaxResult<RParameter>; type IntoIter = AstNodeListIterator<SyntaxResult<RParameter>>; fn into_iter(self) -> Self::IntoIter { AstSeparatedList::iter(self) } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RArgumentList { syntax: RSyntaxNode }
impl AstNode for RArgumentList {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ARGUMENT_LIST }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Display for RArgumentList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for RArgumentList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<RArgumentList> for RSyntaxNode { fn from(n: RArgumentList) -> RSyntaxNode { n.into_syntax() } }
impl From<RArgumentList> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: RArgumentList) -> Self { n.into_syntax().into() } }
impl AstSeparatedList for RArgumentList { type Language = RLanguage; type Node = RArgument; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl IntoIterator for RArgumentList { type Item = SyntaxResult<RArgument>; type IntoIter = AstNodeListIterator<SyntaxResult<RArgument>>; fn into_iter(self) -> Self::IntoIter { AstSeparatedList::iter(&self) } }
impl IntoIterator for &RArgumentList { type Item = SyntaxResult<RArgument>; type IntoIter = AstNodeListIterator<SyntaxResult<RArgument>>; fn into_iter(self) -> Self::IntoIter { AstSeparatedList::iter(self) } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum AnyRValue { RIntegerValue(RIntegerValue), RDoubleValue(RDoubleValue), RComplexValue(RComplexValue), RStringValue(RStringValue) }
impl AstNode for AnyRValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { matches!(kind, R_INTEGER_VALUE | R_DOUBLE_VALUE | R_COMPLEX_VALUE | R_STRING_VALUE) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        let kind = syntax.kind();
        if RIntegerValue::can_cast(kind) { return RIntegerValue::cast(syntax).map(AnyRValue::RIntegerValue); }
        if RDoubleValue::can_cast(kind) { return RDoubleValue::cast(syntax).map(AnyRValue::RDoubleValue); }
        if RComplexValue::can_cast(kind) { return RComplexValue::cast(syntax).map(AnyRValue::RComplexValue); }
        if RStringValue::can_cast(kind) { return RStringValue::cast(syntax).map(AnyRValue::RStringValue); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRValue::RIntegerValue(n) => n.syntax(), AnyRValue::RDoubleValue(n) => n.syntax(), AnyRValue::RComplexValue(n) => n.syntax(), AnyRValue::RStringValue(n) => n.syntax() } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRValue::RIntegerValue(n) => n.into_syntax(), AnyRValue::RDoubleValue(n) => n.into_syntax(), AnyRValue::RComplexValue(n) => n.into_syntax(), AnyRValue::RStringValue(n) => n.into_syntax() } }
}
impl fmt::Display for AnyRValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for AnyRValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<AnyRValue> for RSyntaxNode { fn from(n: AnyRValue) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRValue> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: AnyRValue) -> Self { n.into_syntax().into() } }
impl AnyRValue {
    pub fn as_r_integer_value(&self) -> Option<&RIntegerValue> { match self { AnyRValue::RIntegerValue(n) => Some(n), _ => None } }
    pub fn into_r_integer_value(self) -> Option<RIntegerValue> { match self { AnyRValue::RIntegerValue(n) => Some(n), _ => None } }
    pub fn as_r_double_value(&self) -> Option<&RDoubleValue> { match self { AnyRValue::RDoubleValue(n) => Some(n), _ => None } }
    pub fn into_r_double_value(self) -> Option<RDoubleValue> { match self { AnyRValue::RDoubleValue(n) => Some(n), _ => None } }
    pub fn as_r_complex_value(&self) -> Option<&RComplexValue> { match self { AnyRValue::RComplexValue(n) => Some(n), _ => None } }
    pub fn into_r_complex_value(self) -> Option<RComplexValue> { match self { AnyRValue::RComplexValue(n) => Some(n), _ => None } }
    pub fn as_r_string_value(&self) -> Option<&RStringValue> { match self { AnyRValue::RStringValue(n) => Some(n), _ => None } }
    pub fn into_r_string_value(self) -> Option<RStringValue> { match self { AnyRValue::RStringValue(n) => Some(n), _ => None } }
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { match self { AnyRValue::RIntegerValue(n) => n.value_token(), AnyRValue::RDoubleValue(n) => n.value_token(), AnyRValue::RComplexValue(n) => n.value_token(), AnyRValue::RStringValue(n) => n.value_token() } }
}
impl From<RIntegerValue> for AnyRValue { fn from(n: RIntegerValue) -> Self { AnyRValue::RIntegerValue(n) } }
impl From<RDoubleValue> for AnyRValue { fn from(n: RDoubleValue) -> Self { AnyRValue::RDoubleValue(n) } }
impl From<RComplexValue> for AnyRValue { fn from(n: RComplexValue) -> Self { AnyRValue::RComplexValue(n) } }
impl From<RStringValue> for AnyRValue { fn from(n: RStringValue) -> Self { AnyRValue::RStringValue(n) } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum AnyRExpression { AnyRValue(AnyRValue), RBinaryExpression(RBinaryExpression), RBogusExpression(RBogusExpression), RBracedExpressions(RBracedExpressions), RBreakExpression(RBreakExpression), RCall(RCall), RDotDotI(RDotDotI), RDots(RDots), RExtractExpression(RExtractExpression), RFalseExpression(RFalseExpression), RForStatement(RForStatement), RFunctionDefinition(RFunctionDefinition), RIdentifier(RIdentifier), RIfStatement(RIfStatement), RInfExpression(RInfExpression), RNaExpression(RNaExpression), RNamespaceExpression(RNamespaceExpression), RNanExpression(RNanExpression), RNextExpression(RNextExpression), RNullExpression(RNullExpression), RParenthesizedExpression(RParenthesizedExpression), RRepeatStatement(RRepeatStatement), RReturnExpression(RReturnExpression), RSubset(RSubset), RSubset2(RSubset2), RTrueExpression(RTrueExpression), RUnaryExpression(RUnaryExpression), RWhileStatement(RWhileStatement) }
impl AstNode for AnyRExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { matches!(kind, R_INTEGER_VALUE | R_DOUBLE_VALUE | R_COMPLEX_VALUE | R_STRING_VALUE | R_BINARY_EXPRESSION | R_BOGUS_EXPRESSION | R_BRACED_EXPRESSIONS | R_BREAK_EXPRESSION | R_CALL | R_DOT_DOT_I | R_DOTS | R_EXTRACT_EXPRESSION | R_FALSE_EXPRESSION | R_FOR_STATEMENT | R_FUNCTION_DEFINITION | R_IDENTIFIER | R_IF_STATEMENT | R_INF_EXPRESSION | R_NA_EXPRESSION | R_NAMESPACE_EXPRESSION | R_NAN_EXPRESSION | R_NEXT_EXPRESSION | R_NULL_EXPRESSION | R_PARENTHESIZED_EXPRESSION | R_REPEAT_STATEMENT | R_RETURN_EXPRESSION | R_SUBSET | R_SUBSET2 | R_TRUE_EXPRESSION | R_UNARY_EXPRESSION | R_WHILE_STATEMENT) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        let kind = syntax.kind();
        if AnyRValue::can_cast(kind) { return AnyRValue::cast(syntax).map(AnyRExpression::AnyRValue); }
        if RBinaryExpression::can_cast(kind) { return RBinaryExpression::cast(syntax).map(AnyRExpression::RBinaryExpression); }
        if RBogusExpression::can_cast(kind) { return RBogusExpression::cast(syntax).map(AnyRExpression::RBogusExpression); }
        if RBracedExpressions::can_cast(kind) { return RBracedExpressions::cast(syntax).map(AnyRExpression::RBracedExpressions); }
        if RBreakExpression::can_cast(kind) { return RBreakExpression::cast(syntax).map(AnyRExpression::RBreakExpression); }
        if RCall::can_cast(kind) { return RCall::cast(syntax).map(AnyRExpression::RCall); }
        if RDotDotI::can_cast(kind) { return RDotDotI::cast(syntax).map(AnyRExpression::RDotDotI); }
        if RDots::can_cast(kind) { return RDots::cast(syntax).map(AnyRExpression::RDots); }
        if RExtractExpression::can_cast(kind) { return RExtractExpression::cast(syntax).map(AnyRExpression::RExtractExpression); }
        if RFalseExpression::can_cast(kind) { return RFalseExpression::cast(syntax).map(AnyRExpression::RFalseExpression); }
        if RForStatement::can_cast(kind) { return RForStatement::cast(syntax).map(AnyRExpression::RForStatement); }
        if RFunctionDefinition::can_cast(kind) { return RFunctionDefinition::cast(syntax).map(AnyRExpression::RFunctionDefinition); }
        if RIdentifier::can_cast(kind) { return RIdentifier::cast(syntax).map(AnyRExpression::RIdentifier); }
        if RIfStatement::can_cast(kind) { return RIfStatement::cast(syntax).map(AnyRExpression::RIfStatement); }
        if RInfExpression::can_cast(kind) { return RInfExpression::cast(syntax).map(AnyRExpression::RInfExpression); }
        if RNaExpression::can_cast(kind) { return RNaExpression::cast(syntax).map(AnyRExpression::RNaExpression); }
        if RNamespaceExpression::can_cast(kind) { return RNamespaceExpression::cast(syntax).map(AnyRExpression::RNamespaceExpression); }
        if RNanExpression::can_cast(kind) { return RNanExpression::cast(syntax).map(AnyRExpression::RNanExpression); }
        if RNextExpression::can_cast(kind) { return RNextExpression::cast(syntax).map(AnyRExpression::RNextExpression); }
        if RNullExpression::can_cast(kind) { return RNullExpression::cast(syntax).map(AnyRExpression::RNullExpression); }
        if RParenthesizedExpression::can_cast(kind) { return RParenthesizedExpression::cast(syntax).map(AnyRExpression::RParenthesizedExpression); }
        if RRepeatStatement::can_cast(kind) { return RRepeatStatement::cast(syntax).map(AnyRExpression::RRepeatStatement); }
        if RReturnExpression::can_cast(kind) { return RReturnExpression::cast(syntax).map(AnyRExpression::RReturnExpression); }
        if RSubset::can_cast(kind) { return RSubset::cast(syntax).map(AnyRExpression::RSubset); }
        if RSubset2::can_cast(kind) { return RSubset2::cast(syntax).map(AnyRExpression::RSubset2); }
        if RTrueExpression::can_cast(kind) { return RTrueExpression::cast(syntax).map(AnyRExpression::RTrueExpression); }
        if RUnaryExpression::can_cast(kind) { return RUnaryExpression::cast(syntax).map(AnyRExpression::RUnaryExpression); }
        if RWhileStatement::can_cast(kind) { return RWhileStatement::cast(syntax).map(AnyRExpression::RWhileStatement); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRExpression::AnyRValue(n) => n.syntax(), AnyRExpression::RBinaryExpression(n) => n.syntax(), AnyRExpression::RBogusExpression(n) => n.syntax(), AnyRExpression::RBracedExpressions(n) => n.syntax(), AnyRExpression::RBreakExpression(n) => n.syntax(), AnyRExpression::RCall(n) => n.syntax(), AnyRExpression::RDotDotI(n) => n.syntax(), AnyRExpression::RDots(n) => n.syntax(), AnyRExpression::RExtractExpression(n) => n.syntax(), AnyRExpression::RFalseExpression(n) => n.syntax(), AnyRExpression::RForStatement(n) => n.syntax(), AnyRExpression::RFunctionDefinition(n) => n.syntax(), AnyRExpression::RIdentifier(n) => n.syntax(), AnyRExpression::RIfStatement(n) => n.syntax(), AnyRExpression::RInfExpression(n) => n.syntax(), AnyRExpression::RNaExpression(n) => n.syntax(), AnyRExpression::RNamespaceExpression(n) => n.syntax(), AnyRExpression::RNanExpression(n) => n.syntax(), AnyRExpression::RNextExpression(n) => n.syntax(), AnyRExpression::RNullExpression(n) => n.syntax(), AnyRExpression::RParenthesizedExpression(n) => n.syntax(), AnyRExpression::RRepeatStatement(n) => n.syntax(), AnyRExpression::RReturnExpression(n) => n.syntax(), AnyRExpression::RSubset(n) => n.syntax(), AnyRExpression::RSubset2(n) => n.syntax(), AnyRExpression::RTrueExpression(n) => n.syntax(), AnyRExpression::RUnaryExpression(n) => n.syntax(), AnyRExpression::RWhileStatement(n) => n.syntax() } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRExpression::AnyRValue(n) => n.into_syntax(), AnyRExpression::RBinaryExpression(n) => n.into_syntax(), AnyRExpression::RBogusExpression(n) => n.into_syntax(), AnyRExpression::RBracedExpressions(n) => n.into_syntax(), AnyRExpression::RBreakExpression(n) => n.into_syntax(), AnyRExpression::RCall(n) => n.into_syntax(), AnyRExpression::RDotDotI(n) => n.into_syntax(), AnyRExpression::RDots(n) => n.into_syntax(), AnyRExpression::RExtractExpression(n) => n.into_syntax(), AnyRExpression::RFalseExpression(n) => n.into_syntax(), AnyRExpression::RForStatement(n) => n.into_syntax(), AnyRExpression::RFunctionDefinition(n) => n.into_syntax(), AnyRExpression::RIdentifier(n) => n.into_syntax(), AnyRExpression::RIfStatement(n) => n.into_syntax(), AnyRExpression::RInfExpression(n) => n.into_syntax(), AnyRExpression::RNaExpression(n) => n.into_syntax(), AnyRExpression::RNamespaceExpression(n) => n.into_syntax(), AnyRExpression::RNanExpression(n) => n.into_syntax(), AnyRExpression::RNextExpression(n) => n.into_syntax(), AnyRExpression::RNullExpression(n) => n.into_syntax(), AnyRExpression::RParenthesizedExpression(n) => n.into_syntax(), AnyRExpression::RRepeatStatement(n) => n.into_syntax(), AnyRExpression::RReturnExpression(n) => n.into_syntax(), AnyRExpression::RSubset(n) => n.into_syntax(), AnyRExpression::RSubset2(n) => n.into_syntax(), AnyRExpression::RTrueExpression(n) => n.into_syntax(), AnyRExpression::RUnaryExpression(n) => n.into_syntax(), AnyRExpression::RWhileStatement(n) => n.into_syntax() } }
}
impl fmt::Display for AnyRExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for AnyRExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<AnyRExpression> for RSyntaxNode { fn from(n: AnyRExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRExpression> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: AnyRExpression) -> Self { n.into_syntax().into() } }
impl AnyRExpression {
    pub fn as_any_r_value(&self) -> Option<&AnyRValue> { match self { AnyRExpression::AnyRValue(n) => Some(n), _ => None } }
    pub fn into_any_r_value(self) -> Option<AnyRValue> { match self { AnyRExpression::AnyRValue(n) => Some(n), _ => None } }
    pub fn as_r_binary_expression(&self) -> Option<&RBinaryExpression> { match self { AnyRExpression::RBinaryExpression(n) => Some(n), _ => None } }
    pub fn into_r_binary_expression(self) -> Option<RBinaryExpression> { match self { AnyRExpression::RBinaryExpression(n) => Some(n), _ => None } }
    pub fn as_r_bogus_expression(&self) -> Option<&RBogusExpression> { match self { AnyRExpression::RBogusExpression(n) => Some(n), _ => None } }
    pub fn into_r_bogus_expression(self) -> Option<RBogusExpression> { match self { AnyRExpression::RBogusExpression(n) => Some(n), _ => None } }
    pub fn as_r_braced_expressions(&self) -> Option<&RBracedExpressions> { match self { AnyRExpression::RBracedExpressions(n) => Some(n), _ => None } }
    pub fn into_r_braced_expressions(self) -> Option<RBracedExpressions> { match self { AnyRExpression::RBracedExpressions(n) => Some(n), _ => None } }
    pub fn as_r_break_expression(&self) -> Option<&RBreakExpression> { match self { AnyRExpression::RBreakExpression(n) => Some(n), _ => None } }
    pub fn into_r_break_expression(self) -> Option<RBreakExpression> { match self { AnyRExpression::RBreakExpression(n) => Some(n), _ => None } }
    pub fn as_r_call(&self) -> Option<&RCall> { match self { AnyRExpression::RCall(n) => Some(n), _ => None } }
    pub fn into_r_call(self) -> Option<RCall> { match self { AnyRExpression::RCall(n) => Some(n), _ => None } }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRExpression::RDotDotI(n) => Some(n), _ => None } }
    pub fn into_r_dot_dot_i(self) -> Option<RDotDotI> { match self { AnyRExpression::RDotDotI(n) => Some(n), _ => None } }
    pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRExpression::RDots(n) => Some(n), _ => None } }
    pub fn into_r_dots(self) -> Option<RDots> { match self { AnyRExpression::RDots(n) => Some(n), _ => None } }
    pub fn as_r_extract_expression(&self) -> Option<&RExtractExpression> { match self { AnyRExpression::RExtractExpression(n) => Some(n), _ => None } }
    pub fn into_r_extract_expression(self) -> Option<RExtractExpression> { match self { AnyRExpression::RExtractExpression(n) => Some(n), _ => None } }
    pub fn as_r_false_expression(&self) -> Option<&RFalseExpression> { match self { AnyRExpression::RFalseExpression(n) => Some(n), _ => None } }
    pub fn into_r_false_expression(self) -> Option<RFalseExpression> { match self { AnyRExpression::RFalseExpression(n) => Some(n), _ => None } }
    pub fn as_r_for_statement(&self) -> Option<&RForStatement> { match self { AnyRExpression::RForStatement(n) => Some(n), _ => None } }
    pub fn into_r_for_statement(self) -> Option<RForStatement> { match self { AnyRExpression::RForStatement(n) => Some(n), _ => None } }
    pub fn as_r_function_definition(&self) -> Option<&RFunctionDefinition> { match self { AnyRExpression::RFunctionDefinition(n) => Some(n), _ => None } }
    pub fn into_r_function_definition(self) -> Option<RFunctionDefinition> { match self { AnyRExpression::RFunctionDefinition(n) => Some(n), _ => None } }
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRExpression::RIdentifier(n) => Some(n), _ => None } }
    pub fn into_r_identifier(self) -> Option<RIdentifier> { match self { AnyRExpression::RIdentifier(n) => Some(n), _ => None } }
    pub fn as_r_if_statement(&self) -> Option<&RIfStatement> { match self { AnyRExpression::RIfStatement(n) => Some(n), _ => None } }
    pub fn into_r_if_statement(self) -> Option<RIfStatement> { match self { AnyRExpression::RIfStatement(n) => Some(n), _ => None } }
    pub fn as_r_inf_expression(&self) -> Option<&RInfExpression> { match self { AnyRExpression::RInfExpression(n) => Some(n), _ => None } }
    pub fn into_r_inf_expression(self) -> Option<RInfExpression> { match self { AnyRExpression::RInfExpression(n) => Some(n), _ => None } }
    pub fn as_r_na_expression(&self) -> Option<&RNaExpression> { match self { AnyRExpression::RNaExpression(n) => Some(n), _ => None } }
    pub fn into_r_na_expression(self) -> Option<RNaExpression> { match self { AnyRExpression::RNaExpression(n) => Some(n), _ => None } }
    pub fn as_r_namespace_expression(&self) -> Option<&RNamespaceExpression> { match self { AnyRExpression::RNamespaceExpression(n) => Some(n), _ => None } }
    pub fn into_r_namespace_expression(self) -> Option<RNamespaceExpression> { match self { AnyRExpression::RNamespaceExpression(n) => Some(n), _ => None } }
    pub fn as_r_nan_expression(&self) -> Option<&RNanExpression> { match self { AnyRExpression::RNanExpression(n) => Some(n), _ => None } }
    pub fn into_r_nan_expression(self) -> Option<RNanExpression> { match self { AnyRExpression::RNanExpression(n) => Some(n), _ => None } }
    pub fn as_r_next_expression(&self) -> Option<&RNextExpression> { match self { AnyRExpression::RNextExpression(n) => Some(n), _ => None } }
    pub fn into_r_next_expression(self) -> Option<RNextExpression> { match self { AnyRExpression::RNextExpression(n) => Some(n), _ => None } }
    pub fn as_r_null_expression(&self) -> Option<&RNullExpression> { match self { AnyRExpression::RNullExpression(n) => Some(n), _ => None } }
    pub fn into_r_null_expression(self) -> Option<RNullExpression> { match self { AnyRExpression::RNullExpression(n) => Some(n), _ => None } }
    pub fn as_r_parenthesized_expression(&self) -> Option<&RParenthesizedExpression> { match self { AnyRExpression::RParenthesizedExpression(n) => Some(n), _ => None } }
    pub fn into_r_parenthesized_expression(self) -> Option<RParenthesizedExpression> { match self { AnyRExpression::RParenthesizedExpression(n) => Some(n), _ => None } }
    pub fn as_r_repeat_statement(&self) -> Option<&RRepeatStatement> { match self { AnyRExpression::RRepeatStatement(n) => Some(n), _ => None } }
    pub fn into_r_repeat_statement(self) -> Option<RRepeatStatement> { match self { AnyRExpression::RRepeatStatement(n) => Some(n), _ => None } }
    pub fn as_r_return_expression(&self) -> Option<&RReturnExpression> { match self { AnyRExpression::RReturnExpression(n) => Some(n), _ => None } }
    pub fn into_r_return_expression(self) -> Option<RReturnExpression> { match self { AnyRExpression::RReturnExpression(n) => Some(n), _ => None } }
    pub fn as_r_subset(&self) -> Option<&RSubset> { match self { AnyRExpression::RSubset(n) => Some(n), _ => None } }
    pub fn into_r_subset(self) -> Option<RSubset> { match self { AnyRExpression::RSubset(n) => Some(n), _ => None } }
    pub fn as_r_subset2(&self) -> Option<&RSubset2> { match self { AnyRExpression::RSubset2(n) => Some(n), _ => None } }
    pub fn into_r_subset2(self) -> Option<RSubset2> { match self { AnyRExpression::RSubset2(n) => Some(n), _ => None } }
    pub fn as_r_true_expression(&self) -> Option<&RTrueExpression> { match self { AnyRExpression::RTrueExpression(n) => Some(n), _ => None } }
    pub fn into_r_true_expression(self) -> Option<RTrueExpression> { match self { AnyRExpression::RTrueExpression(n) => Some(n), _ => None } }
    pub fn as_r_unary_expression(&self) -> Option<&RUnaryExpression> { match self { AnyRExpression::RUnaryExpression(n) => Some(n), _ => None } }
    pub fn into_r_unary_expression(self) -> Option<RUnaryExpression> { match self { AnyRExpression::RUnaryExpression(n) => Some(n), _ => None } }
    pub fn as_r_while_statement(&self) -> Option<&RWhileStatement> { match self { AnyRExpression::RWhileStatement(n) => Some(n), _ => None } }
    pub fn into_r_while_statement(self) -> Option<RWhileStatement> { match self { AnyRExpression::RWhileStatement(n) => Some(n), _ => None } }
}
impl From<AnyRValue> for AnyRExpression { fn from(n: AnyRValue) -> Self { AnyRExpression::AnyRValue(n) } }
impl From<RBinaryExpression> for AnyRExpression { fn from(n: RBinaryExpression) -> Self { AnyRExpression::RBinaryExpression(n) } }
impl From<RBogusExpression> for AnyRExpression { fn from(n: RBogusExpression) -> Self { AnyRExpression::RBogusExpression(n) } }
impl From<RBracedExpressions> for AnyRExpression { fn from(n: RBracedExpressions) -> Self { AnyRExpression::RBracedExpressions(n) } }
impl From<RBreakExpression> for AnyRExpression { fn from(n: RBreakExpression) -> Self { AnyRExpression::RBreakExpression(n) } }
impl From<RCall> for AnyRExpression { fn from(n: RCall) -> Self { AnyRExpression::RCall(n) } }
impl From<RDotDotI> for AnyRExpression { fn from(n: RDotDotI) -> Self { AnyRExpression::RDotDotI(n) } }
impl From<RDots> for AnyRExpression { fn from(n: RDots) -> Self { AnyRExpression::RDots(n) } }
impl From<RExtractExpression> for AnyRExpression { fn from(n: RExtractExpression) -> Self { AnyRExpression::RExtractExpression(n) } }
impl From<RFalseExpression> for AnyRExpression { fn from(n: RFalseExpression) -> Self { AnyRExpression::RFalseExpression(n) } }
impl From<RForStatement> for AnyRExpression { fn from(n: RForStatement) -> Self { AnyRExpression::RForStatement(n) } }
impl From<RFunctionDefinition> for AnyRExpression { fn from(n: RFunctionDefinition) -> Self { AnyRExpression::RFunctionDefinition(n) } }
impl From<RIdentifier> for AnyRExpression { fn from(n: RIdentifier) -> Self { AnyRExpression::RIdentifier(n) } }
impl From<RIfStatement> for AnyRExpression { fn from(n: RIfStatement) -> Self { AnyRExpression::RIfStatement(n) } }
impl From<RInfExpression> for AnyRExpression { fn from(n: RInfExpression) -> Self { AnyRExpression::RInfExpression(n) } }
impl From<RNaExpression> for AnyRExpression { fn from(n: RNaExpression) -> Self { AnyRExpression::RNaExpression(n) } }
impl From<RNamespaceExpression> for AnyRExpression { fn from(n: RNamespaceExpression) -> Self { AnyRExpression::RNamespaceExpression(n) } }
impl From<RNanExpression> for AnyRExpression { fn from(n: RNanExpression) -> Self { AnyRExpression::RNanExpression(n) } }
impl From<RNextExpression> for AnyRExpression { fn from(n: RNextExpression) -> Self { AnyRExpression::RNextExpression(n) } }
impl From<RNullExpression> for AnyRExpression { fn from(n: RNullExpression) -> Self { AnyRExpression::RNullExpression(n) } }
impl From<RParenthesizedExpression> for AnyRExpression { fn from(n: RParenthesizedExpression) -> Self { AnyRExpression::RParenthesizedExpression(n) } }
impl From<RRepeatStatement> for AnyRExpression { fn from(n: RRepeatStatement) -> Self { AnyRExpression::RRepeatStatement(n) } }
impl From<RReturnExpression> for AnyRExpression { fn from(n: RReturnExpression) -> Self { AnyRExpression::RReturnExpression(n) } }
impl From<RSubset> for AnyRExpression { fn from(n: RSubset) -> Self { AnyRExpression::RSubset(n) } }
impl From<RSubset2> for AnyRExpression { fn from(n: RSubset2) -> Self { AnyRExpression::RSubset2(n) } }
impl From<RTrueExpression> for AnyRExpression { fn from(n: RTrueExpression) -> Self { AnyRExpression::RTrueExpression(n) } }
impl From<RUnaryExpression> for AnyRExpression { fn from(n: RUnaryExpression) -> Self { AnyRExpression::RUnaryExpression(n) } }
impl From<RWhileStatement> for AnyRExpression { fn from(n: RWhileStatement) -> Self { AnyRExpression::RWhileStatement(n) } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum AnyRSelector { RIdentifier(RIdentifier), RStringValue(RStringValue), RDots(RDots), RDotDotI(RDotDotI), RBogusExpression(RBogusExpression), RCall(RCall), RParenthesizedExpression(RParenthesizedExpression), RBracedExpressions(RBracedExpressions), RUnaryExpression(RUnaryExpression) }
impl AstNode for AnyRSelector {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { matches!(kind, R_IDENTIFIER | R_STRING_VALUE | R_DOTS | R_DOT_DOT_I | R_BOGUS_EXPRESSION | R_CALL | R_PARENTHESIZED_EXPRESSION | R_BRACED_EXPRESSIONS | R_UNARY_EXPRESSION) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        let kind = syntax.kind();
        if RIdentifier::can_cast(kind) { return RIdentifier::cast(syntax).map(AnyRSelector::RIdentifier); }
        if RStringValue::can_cast(kind) { return RStringValue::cast(syntax).map(AnyRSelector::RStringValue); }
        if RDots::can_cast(kind) { return RDots::cast(syntax).map(AnyRSelector::RDots); }
        if RDotDotI::can_cast(kind) { return RDotDotI::cast(syntax).map(AnyRSelector::RDotDotI); }
        if RBogusExpression::can_cast(kind) { return RBogusExpression::cast(syntax).map(AnyRSelector::RBogusExpression); }
        if RCall::can_cast(kind) { return RCall::cast(syntax).map(AnyRSelector::RCall); }
        if RParenthesizedExpression::can_cast(kind) { return RParenthesizedExpression::cast(syntax).map(AnyRSelector::RParenthesizedExpression); }
        if RBracedExpressions::can_cast(kind) { return RBracedExpressions::cast(syntax).map(AnyRSelector::RBracedExpressions); }
        if RUnaryExpression::can_cast(kind) { return RUnaryExpression::cast(syntax).map(AnyRSelector::RUnaryExpression); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRSelector::RIdentifier(n) => n.syntax(), AnyRSelector::RStringValue(n) => n.syntax(), AnyRSelector::RDots(n) => n.syntax(), AnyRSelector::RDotDotI(n) => n.syntax(), AnyRSelector::RBogusExpression(n) => n.syntax(), AnyRSelector::RCall(n) => n.syntax(), AnyRSelector::RParenthesizedExpression(n) => n.syntax(), AnyRSelector::RBracedExpressions(n) => n.syntax(), AnyRSelector::RUnaryExpression(n) => n.syntax() } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRSelector::RIdentifier(n) => n.into_syntax(), AnyRSelector::RStringValue(n) => n.into_syntax(), AnyRSelector::RDots(n) => n.into_syntax(), AnyRSelector::RDotDotI(n) => n.into_syntax(), AnyRSelector::RBogusExpression(n) => n.into_syntax(), AnyRSelector::RCall(n) => n.into_syntax(), AnyRSelector::RParenthesizedExpression(n) => n.into_syntax(), AnyRSelector::RBracedExpressions(n) => n.into_syntax(), AnyRSelector::RUnaryExpression(n) => n.into_syntax() } }
}
impl fmt::Display for AnyRSelector { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for AnyRSelector { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<AnyRSelector> for RSyntaxNode { fn from(n: AnyRSelector) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRSelector> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: AnyRSelector) -> Self { n.into_syntax().into() } }
impl AnyRSelector {
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRSelector::RIdentifier(n) => Some(n), _ => None } }
    pub fn into_r_identifier(self) -> Option<RIdentifier> { match self { AnyRSelector::RIdentifier(n) => Some(n), _ => None } }
    pub fn as_r_string_value(&self) -> Option<&RStringValue> { match self { AnyRSelector::RStringValue(n) => Some(n), _ => None } }
    pub fn into_r_string_value(self) -> Option<RStringValue> { match self { AnyRSelector::RStringValue(n) => Some(n), _ => None } }
    pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRSelector::RDots(n) => Some(n), _ => None } }
    pub fn into_r_dots(self) -> Option<RDots> { match self { AnyRSelector::RDots(n) => Some(n), _ => None } }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRSelector::RDotDotI(n) => Some(n), _ => None } }
    pub fn into_r_dot_dot_i(self) -> Option<RDotDotI> { match self { AnyRSelector::RDotDotI(n) => Some(n), _ => None } }
    pub fn as_r_bogus_expression(&self) -> Option<&RBogusExpression> { match self { AnyRSelector::RBogusExpression(n) => Some(n), _ => None } }
    pub fn into_r_bogus_expression(self) -> Option<RBogusExpression> { match self { AnyRSelector::RBogusExpression(n) => Some(n), _ => None } }
    pub fn as_r_call(&self) -> Option<&RCall> { match self { AnyRSelector::RCall(n) => Some(n), _ => None } }
    pub fn into_r_call(self) -> Option<RCall> { match self { AnyRSelector::RCall(n) => Some(n), _ => None } }
    pub fn as_r_parenthesized_expression(&self) -> Option<&RParenthesizedExpression> { match self { AnyRSelector::RParenthesizedExpression(n) => Some(n), _ => None } }
    pub fn into_r_parenthesized_expression(self) -> Option<RParenthesizedExpression> { match self { AnyRSelector::RParenthesizedExpression(n) => Some(n), _ => None } }
    pub fn as_r_braced_expressions(&self) -> Option<&RBracedExpressions> { match self { AnyRSelector::RBracedExpressions(n) => Some(n), _ => None } }
    pub fn into_r_braced_expressions(self) -> Option<RBracedExpressions> { match self { AnyRSelector::RBracedExpressions(n) => Some(n), _ => None } }
    pub fn as_r_unary_expression(&self) -> Option<&RUnaryExpression> { match self { AnyRSelector::RUnaryExpression(n) => Some(n), _ => None } }
    pub fn into_r_unary_expression(self) -> Option<RUnaryExpression> { match self { AnyRSelector::RUnaryExpression(n) => Some(n), _ => None } }
}
impl From<RIdentifier> for AnyRSelector { fn from(n: RIdentifier) -> Self { AnyRSelector::RIdentifier(n) } }
impl From<RStringValue> for AnyRSelector { fn from(n: RStringValue) -> Self { AnyRSelector::RStringValue(n) } }
impl From<RDots> for AnyRSelector { fn from(n: RDots) -> Self { AnyRSelector::RDots(n) } }
impl From<RDotDotI> for AnyRSelector { fn from(n: RDotDotI) -> Self { AnyRSelector::RDotDotI(n) } }
impl From<RBogusExpression> for AnyRSelector { fn from(n: RBogusExpression) -> Self { AnyRSelector::RBogusExpression(n) } }
impl From<RCall> for AnyRSelector { fn from(n: RCall) -> Self { AnyRSelector::RCall(n) } }
impl From<RParenthesizedExpression> for AnyRSelector { fn from(n: RParenthesizedExpression) -> Self { AnyRSelector::RParenthesizedExpression(n) } }
impl From<RBracedExpressions> for AnyRSelector { fn from(n: RBracedExpressions) -> Self { AnyRSelector::RBracedExpressions(n) } }
impl From<RUnaryExpression> for AnyRSelector { fn from(n: RUnaryExpression) -> Self { AnyRSelector::RUnaryExpression(n) } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum AnyRParameterName { RIdentifier(RIdentifier), RDots(RDots), RDotDotI(RDotDotI) }
impl AstNode for AnyRParameterName {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { matches!(kind, R_IDENTIFIER | R_DOTS | R_DOT_DOT_I) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        let kind = syntax.kind();
        if RIdentifier::can_cast(kind) { return RIdentifier::cast(syntax).map(AnyRParameterName::RIdentifier); }
        if RDots::can_cast(kind) { return RDots::cast(syntax).map(AnyRParameterName::RDots); }
        if RDotDotI::can_cast(kind) { return RDotDotI::cast(syntax).map(AnyRParameterName::RDotDotI); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRParameterName::RIdentifier(n) => n.syntax(), AnyRParameterName::RDots(n) => n.syntax(), AnyRParameterName::RDotDotI(n) => n.syntax() } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRParameterName::RIdentifier(n) => n.into_syntax(), AnyRParameterName::RDots(n) => n.into_syntax(), AnyRParameterName::RDotDotI(n) => n.into_syntax() } }
}
impl fmt::Display for AnyRParameterName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for AnyRParameterName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<AnyRParameterName> for RSyntaxNode { fn from(n: AnyRParameterName) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRParameterName> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: AnyRParameterName) -> Self { n.into_syntax().into() } }
impl AnyRParameterName {
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRParameterName::RIdentifier(n) => Some(n), _ => None } }
    pub fn into_r_identifier(self) -> Option<RIdentifier> { match self { AnyRParameterName::RIdentifier(n) => Some(n), _ => None } }
    pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRParameterName::RDots(n) => Some(n), _ => None } }
    pub fn into_r_dots(self) -> Option<RDots> { match self { AnyRParameterName::RDots(n) => Some(n), _ => None } }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRParameterName::RDotDotI(n) => Some(n), _ => None } }
    pub fn into_r_dot_dot_i(self) -> Option<RDotDotI> { match self { AnyRParameterName::RDotDotI(n) => Some(n), _ => None } }
}
impl From<RIdentifier> for AnyRParameterName { fn from(n: RIdentifier) -> Self { AnyRParameterName::RIdentifier(n) } }
impl From<RDots> for AnyRParameterName { fn from(n: RDots) -> Self { AnyRParameterName::RDots(n) } }
impl From<RDotDotI> for AnyRParameterName { fn from(n: RDotDotI) -> Self { AnyRParameterName::RDotDotI(n) } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum AnyRArgumentName { RIdentifier(RIdentifier), RStringValue(RStringValue), RDots(RDots), RDotDotI(RDotDotI), RNullExpression(RNullExpression), RBogusExpression(RBogusExpression) }
impl AstNode for AnyRArgumentName {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { matches!(kind, R_IDENTIFIER | R_STRING_VALUE | R_DOTS | R_DOT_DOT_I | R_NULL_EXPRESSION | R_BOGUS_EXPRESSION) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        let kind = syntax.kind();
        if RIdentifier::can_cast(kind) { return RIdentifier::cast(syntax).map(AnyRArgumentName::RIdentifier); }
        if RStringValue::can_cast(kind) { return RStringValue::cast(syntax).map(AnyRArgumentName::RStringValue); }
        if RDots::can_cast(kind) { return RDots::cast(syntax).map(AnyRArgumentName::RDots); }
        if RDotDotI::can_cast(kind) { return RDotDotI::cast(syntax).map(AnyRArgumentName::RDotDotI); }
        if RNullExpression::can_cast(kind) { return RNullExpression::cast(syntax).map(AnyRArgumentName::RNullExpression); }
        if RBogusExpression::can_cast(kind) { return RBogusExpression::cast(syntax).map(AnyRArgumentName::RBogusExpression); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRArgumentName::RIdentifier(n) => n.syntax(), AnyRArgumentName::RStringValue(n) => n.syntax(), AnyRArgumentName::RDots(n) => n.syntax(), AnyRArgumentName::RDotDotI(n) => n.syntax(), AnyRArgumentName::RNullExpression(n) => n.syntax(), AnyRArgumentName::RBogusExpression(n) => n.syntax() } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRArgumentName::RIdentifier(n) => n.into_syntax(), AnyRArgumentName::RStringValue(n) => n.into_syntax(), AnyRArgumentName::RDots(n) => n.into_syntax(), AnyRArgumentName::RDotDotI(n) => n.into_syntax(), AnyRArgumentName::RNullExpression(n) => n.into_syntax(), AnyRArgumentName::RBogusExpression(n) => n.into_syntax() } }
}
impl fmt::Display for AnyRArgumentName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl fmt::Debug for AnyRArgumentName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.syntax(), f) } }
impl From<AnyRArgumentName> for RSyntaxNode { fn from(n: AnyRArgumentName) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRArgumentName> for biome_rowan::SyntaxElement<RLanguage> { fn from(n: AnyRArgumentName) -> Self { n.into_syntax().into() } }
impl AnyRArgumentName {
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRArgumentName::RIdentifier(n) => Some(n), _ => None } }
    pub fn into_r_identifier(self) -> Option<RIdentifier> { match self { AnyRArgumentName::RIdentifier(n) => Some(n), _ => None } }
    pub fn as_r_string_value(&self) -> Option<&RStringValue> { match self { AnyRArgumentName::RStringValue(n) => Some(n), _ => None } }
    pub fn into_r_string_value(self) -> Option<RStringValue> { match self { AnyRArgumentName::RStringValue(n) => Some(n), _ => None } }
    pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRArgumentName::RDots(n) => Some(n), _ => None } }
    pub fn into_r_dots(self) -> Option<RDots> { match self { AnyRArgumentName::RDots(n) => Some(n), _ => None } }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRArgumentName::RDotDotI(n) => Some(n), _ => None } }
    pub fn into_r_dot_dot_i(self) -> Option<RDotDotI> { match self { AnyRArgumentName::RDotDotI(n) => Some(n), _ => None } }
    pub fn as_r_null_expression(&self) -> Option<&RNullExpression> { match self { AnyRArgumentName::RNullExpression(n) => Some(n), _ => None } }
    pub fn into_r_null_expression(self) -> Option<RNullExpression> { match self { AnyRArgumentName::RNullExpression(n) => Some(n), _ => None } }
    pub fn as_r_bogus_expression(&self) -> Option<&RBogusExpression> { match self { AnyRArgumentName::RBogusExpression(n) => Some(n), _ => None } }
    pub fn into_r_bogus_expression(self) -> Option<RBogusExpression> { match self { AnyRArgumentName::RBogusExpression(n) => Some(n), _ => None } }
}
impl From<RIdentifier> for AnyRArgumentName { fn from(n: RIdentifier) -> Self { AnyRArgumentName::RIdentifier(n) } }
impl From<RStringValue> for AnyRArgumentName { fn from(n: RStringValue) -> Self { AnyRArgumentName::RStringValue(n) } }
impl From<RDots> for AnyRArgumentName { fn from(n: RDots) -> Self { AnyRArgumentName::RDots(n) } }
impl From<RDotDotI> for AnyRArgumentName { fn from(n: RDotDotI) -> Self { AnyRArgumentName::RDotDotI(n) } }
impl From<RNullExpression> for AnyRArgumentName { fn from(n: RNullExpression) -> Self { AnyRArgumentName::RNullExpression(n) } }
impl From<RBogusExpression> for AnyRArgumentName { fn from(n: RBogusExpression) -> Self { AnyRArgumentName::RBogusExpression(n) } }
