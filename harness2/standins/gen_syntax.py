#!/usr/bin/env python3
"""Writes air_r_syntax/src/lib.rs: the stand-in for air's typed R syntax."""
import re
TOK = """EOF UNICODE_BOM SEMICOLON COMMA L_CURLY R_CURLY L_BRACK R_BRACK L_BRACK2 R_BRACK2 L_PAREN R_PAREN
WAT TILDE ASSIGN SUPER_ASSIGN WALRUS ASSIGN_RIGHT SUPER_ASSIGN_RIGHT EQUAL OR AND OR2 AND2
GREATER_THAN GREATER_THAN_OR_EQUAL_TO LESS_THAN LESS_THAN_OR_EQUAL_TO EQUAL2 NOT_EQUAL
PLUS MINUS MULTIPLY DIVIDE EXPONENTIATE EXPONENTIATE2 PIPE SPECIAL COLON COLON2 COLON3 DOLLAR AT BANG BACKSLASH DOTS DOTDOTI
FUNCTION_KW FOR_KW IN_KW WHILE_KW REPEAT_KW IF_KW ELSE_KW RETURN_KW NEXT_KW BREAK_KW
TRUE_KW FALSE_KW NULL_KW INF_KW NAN_KW NA_LOGICAL_KW NA_INTEGER_KW NA_DOUBLE_KW NA_COMPLEX_KW NA_CHARACTER_KW
R_INTEGER_LITERAL R_DOUBLE_LITERAL R_COMPLEX_LITERAL R_STRING_LITERAL IDENT
NEWLINE WHITESPACE COMMENT MULTILINE_COMMENT""".split()
E = "AnyRExpression"
# node: fields in slot order: name, kind (t/n/l), type, optional
def f(*specs):
    out = []
    for s in specs:
        n, ty = s.split(":")
        opt = ty.endswith("?")
        ty = ty.rstrip("?")
        out.append((n, ty, opt))
    return out
NODES = {
 "RRoot": f("bom_token:t?", "expressions:RExpressionList", "eof_token:t"),
 "RFunctionDefinition": f("name:t", "parameters:RParameters", "body:"+E),
 "RParameters": f("l_paren_token:t", "items:RParameterList", "r_paren_token:t"),
 "RParameter": f("name:AnyRParameterName", "default:RParameterDefault?"),
 "RParameterDefault": f("equal_token:t", "value:"+E),
 "RBracedExpressions": f("l_curly_token:t", "expressions:RExpressionList", "r_curly_token:t"),
 "RParenthesizedExpression": f("l_paren_token:t", "body:"+E, "r_paren_token:t"),
 "RCall": f("function:"+E, "arguments:RCallArguments"),
 "RCallArguments": f("l_paren_token:t", "items:RArgumentList", "r_paren_token:t"),
 "RSubset": f("function:"+E, "arguments:RSubsetArguments"),
 "RSubsetArguments": f("l_brack_token:t", "items:RArgumentList", "r_brack_token:t"),
 "RSubset2": f("function:"+E, "arguments:RSubset2Arguments"),
 "RSubset2Arguments": f("l_brack2_token:t", "items:RArgumentList", "r_brack2_token:t"),
 "RArgument": f("name_clause:RArgumentNameClause?", "value:"+E+"?"),
 "RArgumentNameClause": f("name:AnyRArgumentName", "equal_token:t"),
 "RIfStatement": f("if_token:t", "l_paren_token:t", "condition:"+E, "r_paren_token:t", "consequence:"+E, "else_clause:RElseClause?"),
 "RElseClause": f("else_token:t", "alternative:"+E),
 "RForStatement": f("for_token:t", "l_paren_token:t", "variable:RIdentifier", "in_token:t", "sequence:"+E, "r_paren_token:t", "body:"+E),
 "RWhileStatement": f("while_token:t", "l_paren_token:t", "condition:"+E, "r_paren_token:t", "body:"+E),
 "RRepeatStatement": f("repeat_token:t", "body:"+E),
 "RUnaryExpression": f("operator:t", "argument:"+E),
 "RBinaryExpression": f("left:"+E, "operator:t", "right:"+E),
 "RExtractExpression": f("left:"+E, "operator:t", "right:AnyRSelector"),
 "RNamespaceExpression": f("left:AnyRSelector", "operator:t", "right:AnyRSelector"),
 "RIdentifier": f("name_token:t"),
 "RDots": f("value_token:t"),
 "RDotDotI": f("value_token:t"),
 "RNextExpression": f("next_token:t"),
 "RBreakExpression": f("break_token:t"),
 "RReturnExpression": f("return_token:t"),
 "RTrueExpression": f("true_token:t"),
 "RFalseExpression": f("false_token:t"),
 "RNullExpression": f("null_token:t"),
 "RInfExpression": f("inf_token:t"),
 "RNanExpression": f("nan_token:t"),
 "RNaExpression": f("value:t"),
 "RIntegerValue": f("value_token:t"),
 "RDoubleValue": f("value_token:t"),
 "RComplexValue": f("value_token:t"),
 "RStringValue": f("value_token:t"),
 "RBogusExpression": [],
}
LISTS = {"RExpressionList": (E, False), "RParameterList": ("RParameter", True), "RArgumentList": ("RArgument", True)}
UNIONS = {
 "AnyRValue": ["RIntegerValue","RDoubleValue","RComplexValue","RStringValue"],
 E: ["AnyRValue","RBinaryExpression","RBogusExpression","RBracedExpressions","RBreakExpression","RCall","RDotDotI","RDots","RExtractExpression","RFalseExpression","RForStatement","RFunctionDefinition","RIdentifier","RIfStatement","RInfExpression","RNaExpression","RNamespaceExpression","RNanExpression","RNextExpression","RNullExpression","RParenthesizedExpression","RRepeatStatement","RReturnExpression","RSubset","RSubset2","RTrueExpression","RUnaryExpression","RWhileStatement"],
 "AnyRSelector": ["RIdentifier","RStringValue","RDots","RDotDotI","RBogusExpression","RCall","RParenthesizedExpression","RBracedExpressions","RUnaryExpression"],
 "AnyRParameterName": ["RIdentifier","RDots","RDotDotI"],
 "AnyRArgumentName": ["RIdentifier","RStringValue","RDots","RDotDotI","RNullExpression","RBogusExpression"],
}
def snake(n):
    n = re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", n)
    n = re.sub(r"^R([A-Z])", r"R_\1", n)
    n = n.replace("AnyR_", "Any_R_") if False else n
    s = n.lower()
    s = s.replace("any_r", "any_r_").replace("any_r__","any_r_") if s.startswith("any_r") else s
    return s
def kind(n): return snake(n).upper()
o = ["// Written by gen_syntax.py; do not edit.",
"//! Stand-in for air's `air_r_syntax` (whose sources are not available here).",
"#![allow(non_camel_case_types, clippy::all)]",
"use biome_rowan::support;",
"pub use biome_rowan::{Direction, NodeOrToken, TextLen, TextRange, TextSize, TokenAtOffset, TriviaPieceKind, WalkEvent};".replace("TextLen, ",""),
"use biome_rowan::{AstNode, AstNodeList, AstNodeListIterator, AstSeparatedList, Language, SyntaxKind, SyntaxResult};",
"use std::fmt;",
""]
kinds = TOK + [kind(n) for n in NODES] + [kind(n) for n in LISTS]
o += ["#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]", "#[repr(u16)]", "pub enum RSyntaxKind {"] + [f"    {k}," for k in kinds] + ["}", "use RSyntaxKind::*;", ""]
o += ["const ALL: &[RSyntaxKind] = &["] + [f"    {k}," for k in kinds] + ["];",
"impl SyntaxKind for RSyntaxKind {",
"    fn to_raw(&self) -> u16 { *self as u16 }",
"    fn from_raw(raw: u16) -> Self { ALL[raw as usize] }",
"    fn is_list(&self) -> bool { matches!(self, " + " | ".join(kind(n) for n in LISTS) + ") }",
"    fn is_root(&self) -> bool { *self == R_ROOT }",
"}",
"impl RSyntaxKind {",
"    pub fn is_list(&self) -> bool { SyntaxKind::is_list(self) }",
"    pub fn is_root(&self) -> bool { SyntaxKind::is_root(self) }",
"    pub fn is_trivia(self) -> bool { matches!(self, NEWLINE | WHITESPACE | COMMENT | MULTILINE_COMMENT) }",
"}",
"#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]",
"pub struct RLanguage;",
"impl Language for RLanguage { type Kind = RSyntaxKind; type Root = RRoot; }"]
for a in ["SyntaxNode","SyntaxToken","SyntaxElement","SyntaxTrivia","SyntaxSlot"]:
    o.append(f"pub type R{a} = biome_rowan::{a}<RLanguage>;")
o.append("")
def common(n):
    o.append(f"impl fmt::Display for {n} {{ fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {{ fmt::Display::fmt(self.syntax(), f) }} }}")
    o.append(f"impl fmt::Debug for {n} {{ fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {{ fmt::Debug::fmt(self.syntax(), f) }} }}")
    o.append(f"impl From<{n}> for RSyntaxNode {{ fn from(n: {n}) -> RSyntaxNode {{ n.into_syntax() }} }}")
    o.append(f"impl From<{n}> for biome_rowan::SyntaxElement<RLanguage> {{ fn from(n: {n}) -> Self {{ n.into_syntax().into() }} }}")
def plain(n):
    o.append("#[derive(Clone, PartialEq, Eq, Hash)]")
    o.append(f"pub struct {n} {{ syntax: RSyntaxNode }}")
    o.append(f"impl AstNode for {n} {{")
    o.append("    type Language = RLanguage;")
    o.append(f"    fn can_cast(kind: RSyntaxKind) -> bool {{ kind == {kind(n)} }}")
    o.append("    fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then_some(Self { syntax }) }")
    o.append("    fn syntax(&self) -> &RSyntaxNode { &self.syntax }")
    o.append("    fn into_syntax(self) -> RSyntaxNode { self.syntax }")
    o.append("}")
    common(n)
for n, fs in NODES.items():
    plain(n)
    o.append(f"impl {n} {{")
    rets = []
    for i, (fn, ty, opt) in enumerate(fs):
        if ty == "t":
            ret = "Option<RSyntaxToken>" if opt else "SyntaxResult<RSyntaxToken>"
            body = f"support::{'token' if opt else 'required_token'}(&self.syntax, {i})"
        elif ty in LISTS:
            ret, body = ty, f"support::node(&self.syntax, {i}).unwrap()"
        else:
            ret = f"Option<{ty}>" if opt else f"SyntaxResult<{ty}>"
            body = f"support::{'node' if opt else 'required_node'}(&self.syntax, {i})"
        rets.append((fn, ret))
        o.append(f"    pub fn {fn}(&self) -> {ret} {{ {body} }}")
    if fs:
        o.append(f"    pub fn as_fields(&self) -> {n}Fields {{ {n}Fields {{ " + ", ".join(f"{fn}: self.{fn}()" for fn, _ in rets) + " } }")
    o.append("}")
    if fs:
        o.append("#[derive(Clone, Debug, PartialEq, Eq)]")
        o.append(f"pub struct {n}Fields {{ " + ", ".join(f"pub {fn}: {r}" for fn, r in rets) + " }")
for n, (item, sep) in LISTS.items():
    plain(n)
    tr = "AstSeparatedList" if sep else "AstNodeList"
    it = f"SyntaxResult<{item}>" if sep else item
    o.append(f"impl {tr} for {n} {{ type Language = RLanguage; type Node = {item}; fn syntax_list(&self) -> &RSyntaxNode {{ &self.syntax }} }}")
    for r in ["", "&"]:
        o.append(f"impl IntoIterator for {r}{n} {{ type Item = {it}; type IntoIter = AstNodeListIterator<{it}>; fn into_iter(self) -> Self::IntoIter {{ {tr}::iter({'' if r else '&'}self) }} }}")
def flat(u):
    out = []
    for m in UNIONS[u]:
        out += flat(m) if m in UNIONS else [m]
    return out
for u, ms in UNIONS.items():
    o.append("#[derive(Clone, PartialEq, Eq, Hash)]")
    o.append(f"pub enum {u} {{ " + ", ".join(f"{m}({m})" for m in ms) + " }")
    o.append(f"impl AstNode for {u} {{")
    o.append("    type Language = RLanguage;")
    o.append("    fn can_cast(kind: RSyntaxKind) -> bool { matches!(kind, " + " | ".join(kind(m) for m in flat(u)) + ") }")
    o.append("    fn cast(syntax: RSyntaxNode) -> Option<Self> {")
    o.append("        let kind = syntax.kind();")
    for m in ms:
        o.append(f"        if {m}::can_cast(kind) {{ return {m}::cast(syntax).map({u}::{m}); }}")
    o.append("        None")
    o.append("    }")
    o.append("    fn syntax(&self) -> &RSyntaxNode { match self { " + ", ".join(f"{u}::{m}(n) => n.syntax()" for m in ms) + " } }")
    o.append("    fn into_syntax(self) -> RSyntaxNode { match self { " + ", ".join(f"{u}::{m}(n) => n.into_syntax()" for m in ms) + " } }")
    o.append("}")
    common(u)
    o.append(f"impl {u} {{")
    for m in ms:
        o.append(f"    pub fn as_{snake(m)}(&self) -> Option<&{m}> {{ match self {{ {u}::{m}(n) => Some(n), _ => None }} }}")
        o.append(f"    pub fn into_{snake(m)}(self) -> Option<{m}> {{ match self {{ {u}::{m}(n) => Some(n), _ => None }} }}")
    if u == "AnyRValue":
        o.append("    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { match self { " + ", ".join(f"{u}::{m}(n) => n.value_token()" for m in ms) + " } }")
    o.append("}")
    for m in ms:
        o.append(f"impl From<{m}> for {u} {{ fn from(n: {m}) -> Self {{ {u}::{m}(n) }} }}")
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "air_r_syntax/src/lib.rs"), "w").write("\n".join(o) + "\n")
