//! Stand-in for air's `air_r_parser` (whose sources are not available here):
//! a lexer and a precedence-climbing parser for R, which follow R's gram.y.
//! There is no error recovery: on an error, the tree is an empty root.
use air_r_syntax::RSyntaxKind::{self, *};
use air_r_syntax::{RLanguage, RRoot, RSyntaxNode};
use biome_rowan::{AstNode, RawElem, RawPiece, RawToken, SyntaxKind, Tree, TriviaPieceKind};

#[derive(Debug, Clone, Default)]
pub struct RParserOptions {}

#[derive(Debug, Clone)]
pub struct ParseError(pub String);

#[derive(Debug, Clone)]
pub struct Parse {
    root: RSyntaxNode,
    error: Option<ParseError>,
}
impl Parse {
    pub fn syntax(&self) -> RSyntaxNode {
        self.root.clone()
    }
    pub fn tree(&self) -> RRoot {
        RRoot::unwrap_cast(self.root.clone())
    }
    pub fn has_error(&self) -> bool {
        self.error.is_some()
    }
    pub fn has_errors(&self) -> bool {
        self.error.is_some()
    }
    pub fn error(&self) -> Option<&ParseError> {
        self.error.as_ref()
    }
    pub fn into_error(self) -> Option<ParseError> {
        self.error
    }
}

pub fn parse(text: &str, _options: RParserOptions) -> Parse {
    let done = lex(text).and_then(|toks| {
        let mut p = Parser { toks, pos: 0, paren: vec![], depth: 0 };
        p.root()
    });
    match done {
        Ok(root) => Parse { root: Tree::build::<RLanguage>(text, root), error: None },
        Err(e) => {
            let eof = RawToken { kind: EOF.to_raw(), leading: vec![], start: 0, end: 0, trailing: vec![] };
            let root = RawElem::Node(
                R_ROOT.to_raw(),
                vec![RawElem::Empty, RawElem::Node(R_EXPRESSION_LIST.to_raw(), vec![]), RawElem::Token(eof)],
            );
            Parse { root: Tree::build::<RLanguage>(text, root), error: Some(ParseError(e)) }
        }
    }
}

// --------------------------------------------------------------------- lexer

struct Tok {
    kind: RSyntaxKind,
    raw: Option<RawToken>,
    nl: bool,
    semi: bool,
}

fn lex(text: &str) -> Result<Vec<Tok>, String> {
    let b = text.as_bytes();
    let mut i = 0;
    let mut out: Vec<Tok> = vec![];
    let mut stack: Vec<RSyntaxKind> = vec![];
    loop {
        // trivia
        let mut pieces: Vec<RawPiece> = vec![];
        let mut semi = false;
        loop {
            let s = i;
            let kind = match b.get(i) {
                Some(b'\n') => {
                    i += 1;
                    TriviaPieceKind::Newline
                }
                Some(b'\r') if b.get(i + 1) == Some(&b'\n') => {
                    i += 2;
                    TriviaPieceKind::Newline
                }
                Some(b'\r') => {
                    i += 1;
                    TriviaPieceKind::Newline
                }
                Some(b' ' | b'\t' | 0x0c) => {
                    while matches!(b.get(i), Some(b' ' | b'\t' | 0x0c)) {
                        i += 1;
                    }
                    TriviaPieceKind::Whitespace
                }
                Some(b';') => {
                    if out.last().is_none() || semi {
                        return Err("unexpected `;`".into());
                    }
                    semi = true;
                    i += 1;
                    TriviaPieceKind::Whitespace
                }
                Some(b'#') => {
                    while i < b.len() && b[i] != b'\n' && !(b[i] == b'\r' && b.get(i + 1) == Some(&b'\n')) {
                        i += 1;
                    }
                    TriviaPieceKind::SingleLineComment
                }
                Some(0xc2) if b.get(i + 1) == Some(&0xa0) => {
                    i += 2;
                    TriviaPieceKind::Whitespace
                }
                _ => break,
            };
            pieces.push(RawPiece { kind, start: s as u32, end: i as u32 });
        }
        let nl = pieces.iter().any(|p| p.kind == TriviaPieceKind::Newline);
        let mut leading = pieces;
        if let Some(prev) = out.last_mut() {
            let cut = leading.iter().position(|p| p.kind == TriviaPieceKind::Newline).unwrap_or(leading.len());
            let rest = leading.split_off(cut);
            prev.raw.as_mut().unwrap().trailing = leading;
            leading = rest;
        }
        let start = i;
        let kind = if i >= b.len() { EOF } else { token(text, &mut i, &mut stack)? };
        out.push(Tok {
            kind,
            raw: Some(RawToken { kind: kind.to_raw(), leading, start: start as u32, end: i as u32, trailing: vec![] }),
            nl,
            semi,
        });
        if kind == EOF {
            break;
        }
    }
    // Whatever follows the last real token on its line stays with it; the
    // rest leads the end of the file, which is what the loop above does.
    Ok(out)
}

fn ident_start(c: char) -> bool {
    c.is_alphabetic() || c == '.' || c == '_'
}
fn ident_cont(c: char) -> bool {
    c.is_alphanumeric() || c == '.' || c == '_'
}

fn token(text: &str, i: &mut usize, stack: &mut Vec<RSyntaxKind>) -> Result<RSyntaxKind, String> {
    let rest = &text[*i..];
    let b = rest.as_bytes();
    let c = rest.chars().next().unwrap();
    // raw strings
    if (c == 'r' || c == 'R') && matches!(b.get(1), Some(b'"' | b'\'')) {
        let q = b[1] as char;
        let dashes = rest[2..].bytes().take_while(|c| *c == b'-').count();
        let close = match rest[2 + dashes..].chars().next() {
            Some('(') => ')',
            Some('[') => ']',
            Some('{') => '}',
            _ => return Err("malformed raw string".into()),
        };
        let end = format!("{close}{}{q}", "-".repeat(dashes));
        let from = 3 + dashes;
        let at = rest[from..].find(&end).ok_or("unterminated raw string")?;
        *i += from + at + end.len();
        return Ok(R_STRING_LITERAL);
    }
    if c == '"' || c == '\'' || c == '`' {
        let mut j = 1;
        loop {
            match b.get(j) {
                None => return Err("unterminated string".into()),
                Some(b'\\') => {
                    j += 1;
                    j += rest[j..].chars().next().map_or(0, char::len_utf8);
                }
                Some(x) if *x == c as u8 => break,
                _ => j += 1,
            }
        }
        *i += j + 1;
        if c == '`' && j == 1 {
            return Err("empty name".into());
        }
        return Ok(if c == '`' { IDENT } else { R_STRING_LITERAL });
    }
    if c.is_ascii_digit() || (c == '.' && b.get(1).is_some_and(u8::is_ascii_digit)) {
        let mut j = 0;
        let mut hex = false;
        if c == '0' && matches!(b.get(1), Some(b'x' | b'X')) && b.get(2).is_some_and(u8::is_ascii_hexdigit) {
            hex = true;
            j = 2;
            while b.get(j).is_some_and(|x| x.is_ascii_hexdigit() || *x == b'.') {
                j += 1;
            }
        } else {
            while b.get(j).is_some_and(u8::is_ascii_digit) {
                j += 1;
            }
            if b.get(j) == Some(&b'.') {
                j += 1;
                while b.get(j).is_some_and(u8::is_ascii_digit) {
                    j += 1;
                }
            }
        }
        let exp: &[u8] = if hex { b"pP" } else { b"eE" };
        if b.get(j).is_some_and(|x| exp.contains(x)) {
            let mut k = j + 1;
            if matches!(b.get(k), Some(b'+' | b'-')) {
                k += 1;
            }
            if b.get(k).is_some_and(u8::is_ascii_digit) {
                while b.get(k).is_some_and(u8::is_ascii_digit) {
                    k += 1;
                }
                j = k;
            }
        }
        let kind = match b.get(j) {
            Some(b'L') => {
                j += 1;
                R_INTEGER_LITERAL
            }
            Some(b'i') => {
                j += 1;
                R_COMPLEX_LITERAL
            }
            _ => R_DOUBLE_LITERAL,
        };
        if rest[j..].chars().next().is_some_and(ident_cont) {
            return Err("malformed number".into());
        }
        *i += j;
        return Ok(kind);
    }
    if ident_start(c) {
        let n = rest.find(|x| !ident_cont(x)).unwrap_or(rest.len());
        let w = &rest[..n];
        *i += n;
        if w.starts_with('_') && w.len() > 1 {
            return Err("malformed name".into());
        }
        return Ok(match w {
            "function" => FUNCTION_KW,
            "for" => FOR_KW,
            "in" => IN_KW,
            "while" => WHILE_KW,
            "repeat" => REPEAT_KW,
            "if" => IF_KW,
            "else" => ELSE_KW,
            "return" => RETURN_KW,
            "next" => NEXT_KW,
            "break" => BREAK_KW,
            "TRUE" => TRUE_KW,
            "FALSE" => FALSE_KW,
            "NULL" => NULL_KW,
            "Inf" => INF_KW,
            "NaN" => NAN_KW,
            "NA" => NA_LOGICAL_KW,
            "NA_integer_" => NA_INTEGER_KW,
            "NA_real_" => NA_DOUBLE_KW,
            "NA_complex_" => NA_COMPLEX_KW,
            "NA_character_" => NA_CHARACTER_KW,
            "..." => DOTS,
            _ if w.len() > 2 && w.starts_with("..") && w[2..].bytes().all(|c| c.is_ascii_digit()) => DOTDOTI,
            _ => IDENT,
        });
    }
    if c == '%' {
        let n = rest[1..].find(['%', '\n']).ok_or("unterminated operator")?;
        if rest.as_bytes()[1 + n] != b'%' {
            return Err("unterminated operator".into());
        }
        *i += n + 2;
        return Ok(SPECIAL);
    }
    const OPS: &[(&str, RSyntaxKind)] = &[
        ("<<-", SUPER_ASSIGN),
        ("->>", SUPER_ASSIGN_RIGHT),
        (":::", COLON3),
        ("<-", ASSIGN),
        ("->", ASSIGN_RIGHT),
        (":=", WALRUS),
        ("<=", LESS_THAN_OR_EQUAL_TO),
        (">=", GREATER_THAN_OR_EQUAL_TO),
        ("==", EQUAL2),
        ("!=", NOT_EQUAL),
        ("&&", AND2),
        ("||", OR2),
        ("|>", PIPE),
        ("::", COLON2),
        ("**", EXPONENTIATE2),
        ("[[", L_BRACK2),
        (",", COMMA),
        ("{", L_CURLY),
        ("}", R_CURLY),
        ("[", L_BRACK),
        ("]", R_BRACK),
        ("(", L_PAREN),
        (")", R_PAREN),
        ("?", WAT),
        ("~", TILDE),
        ("=", EQUAL),
        ("|", OR),
        ("&", AND),
        (">", GREATER_THAN),
        ("<", LESS_THAN),
        ("+", PLUS),
        ("-", MINUS),
        ("*", MULTIPLY),
        ("/", DIVIDE),
        ("^", EXPONENTIATE),
        (":", COLON),
        ("$", DOLLAR),
        ("@", AT),
        ("!", BANG),
        ("\\", BACKSLASH),
    ];
    for (s, k) in OPS {
        if rest.starts_with(s) {
            let mut k = *k;
            let mut n = s.len();
            match k {
                L_BRACK2 | L_BRACK | L_PAREN | L_CURLY => stack.push(k),
                R_PAREN | R_CURLY => {
                    stack.pop();
                }
                R_BRACK => {
                    if stack.pop() == Some(L_BRACK2) && rest.starts_with("]]") {
                        k = R_BRACK2;
                        n = 2;
                    }
                }
                _ => {}
            }
            *i += n;
            return Ok(k);
        }
    }
    Err(format!("unexpected character {c:?}"))
}

// -------------------------------------------------------------------- parser

struct Parser {
    toks: Vec<Tok>,
    pos: usize,
    /// Whether newlines are insignificant, innermost bracket last.
    paren: Vec<bool>,
    depth: usize,
}
type R<T> = Result<T, String>;

fn node(k: RSyntaxKind, e: Vec<RawElem>) -> RawElem {
    RawElem::Node(k.to_raw(), e)
}

const HELP: u8 = 1;
const EQ: u8 = 3;
const LEFT: u8 = 4;
const RIGHT: u8 = 5;
const TIL: u8 = 6;
const ORP: u8 = 7;
const ANDP: u8 = 8;
const NOT: u8 = 9;
const CMP: u8 = 10;
const SUM: u8 = 11;
const MUL: u8 = 12;
const SPEC: u8 = 13;
const COL: u8 = 15;
const UNARY: u8 = 16;
const POW: u8 = 17;

/// (precedence, right-associative)
fn infix(k: RSyntaxKind) -> Option<(u8, bool)> {
    Some(match k {
        WAT => (HELP, false),
        EQUAL => (EQ, true),
        ASSIGN | SUPER_ASSIGN | WALRUS => (LEFT, true),
        ASSIGN_RIGHT | SUPER_ASSIGN_RIGHT => (RIGHT, false),
        TILDE => (TIL, false),
        OR | OR2 => (ORP, false),
        AND | AND2 => (ANDP, false),
        GREATER_THAN | GREATER_THAN_OR_EQUAL_TO | LESS_THAN | LESS_THAN_OR_EQUAL_TO | EQUAL2 | NOT_EQUAL => {
            (CMP, false)
        }
        PLUS | MINUS => (SUM, false),
        MULTIPLY | DIVIDE => (MUL, false),
        SPECIAL | PIPE => (SPEC, false),
        COLON => (COL, false),
        EXPONENTIATE | EXPONENTIATE2 => (POW, true),
        _ => return None,
    })
}

impl Parser {
    fn kind(&self) -> RSyntaxKind {
        self.toks[self.pos].kind
    }
    fn bump(&mut self) -> RawElem {
        let t = self.toks[self.pos].raw.take().expect("token taken twice");
        self.pos += 1;
        RawElem::Token(t)
    }
    fn expect(&mut self, k: RSyntaxKind) -> R<RawElem> {
        if self.kind() != k {
            return Err(format!("expected {k:?}, found {:?}", self.kind()));
        }
        if self.toks[self.pos].semi {
            return Err("unexpected `;`".into());
        }
        Ok(self.bump())
    }
    /// Whether the current token may continue the expression before it.
    fn continues(&self) -> bool {
        let t = &self.toks[self.pos];
        !t.semi && (!t.nl || *self.paren.last().unwrap_or(&false))
    }
    fn root(&mut self) -> R<RawElem> {
        let list = self.expr_list(EOF)?;
        let eof = self.bump();
        Ok(node(R_ROOT, vec![RawElem::Empty, list, eof]))
    }
    fn expr_list(&mut self, close: RSyntaxKind) -> R<RawElem> {
        let mut v = vec![];
        while self.kind() != close {
            if !v.is_empty() && !self.toks[self.pos].nl && !self.toks[self.pos].semi {
                return Err(format!("unexpected {:?}", self.kind()));
            }
            v.push(self.expr(HELP)?);
        }
        Ok(node(R_EXPRESSION_LIST, v))
    }
    fn expr(&mut self, min: u8) -> R<RawElem> {
        self.depth += 1;
        if self.depth > 400 {
            return Err("too deep".into());
        }
        let r = self.expr_(min);
        self.depth -= 1;
        r
    }
    fn expr_(&mut self, min: u8) -> R<RawElem> {
        let mut left = self.prefix()?;
        loop {
            if !self.continues() {
                break;
            }
            let k = self.kind();
            match k {
                L_PAREN => {
                    let a = self.args(R_CALL_ARGUMENTS, R_PAREN)?;
                    left = node(R_CALL, vec![left, a]);
                    continue;
                }
                L_BRACK => {
                    let a = self.args(R_SUBSET_ARGUMENTS, R_BRACK)?;
                    left = node(R_SUBSET, vec![left, a]);
                    continue;
                }
                L_BRACK2 => {
                    let a = self.args(R_SUBSET2_ARGUMENTS, R_BRACK2)?;
                    left = node(R_SUBSET2, vec![left, a]);
                    continue;
                }
                DOLLAR | AT => {
                    let op = self.bump();
                    let right = self.selector()?;
                    left = node(R_EXTRACT_EXPRESSION, vec![left, op, right]);
                    continue;
                }
                _ => {}
            }
            let Some((p, right_assoc)) = infix(k) else { break };
            if p < min {
                break;
            }
            let op = self.bump();
            let right = self.expr(if right_assoc { p } else { p + 1 })?;
            left = node(R_BINARY_EXPRESSION, vec![left, op, right]);
            // Comparisons do not associate.
            if p == CMP && self.continues() && infix(self.kind()).is_some_and(|(q, _)| q == CMP) {
                return Err("comparisons do not associate".into());
            }
        }
        Ok(left)
    }
    fn selector(&mut self) -> R<RawElem> {
        let k = self.kind();
        if self.toks[self.pos].semi {
            return Err("unexpected `;`".into());
        }
        match k {
            IDENT => Ok(node(R_IDENTIFIER, vec![self.bump()])),
            R_STRING_LITERAL => Ok(node(R_STRING_VALUE, vec![self.bump()])),
            DOTS => Ok(node(R_DOTS, vec![self.bump()])),
            DOTDOTI => Ok(node(R_DOT_DOT_I, vec![self.bump()])),
            L_PAREN => self.parens(),
            L_CURLY => self.braces(),
            BANG => {
                let op = self.bump();
                let arg = self.expr(POW)?;
                Ok(node(R_UNARY_EXPRESSION, vec![op, arg]))
            }
            _ => Err(format!("unexpected {k:?} after an extraction operator")),
        }
    }
    fn parens(&mut self) -> R<RawElem> {
        let l = self.bump();
        self.paren.push(true);
        let body = self.expr(HELP)?;
        self.paren.pop();
        let r = self.expect(R_PAREN)?;
        Ok(node(R_PARENTHESIZED_EXPRESSION, vec![l, body, r]))
    }
    fn braces(&mut self) -> R<RawElem> {
        let l = self.bump();
        self.paren.push(false);
        let list = self.expr_list(R_CURLY)?;
        self.paren.pop();
        let r = self.bump();
        Ok(node(R_BRACED_EXPRESSIONS, vec![l, list, r]))
    }
    /// `( expr )` of a control-flow construct, as its three parts.
    fn condition(&mut self, out: &mut Vec<RawElem>) -> R<()> {
        out.push(self.expect(L_PAREN)?);
        self.paren.push(true);
        out.push(self.expr(HELP)?);
        self.paren.pop();
        out.push(self.expect(R_PAREN)?);
        Ok(())
    }
    fn prefix(&mut self) -> R<RawElem> {
        let k = self.kind();
        let leaf = |p: &mut Self, k| Ok(node(k, vec![p.bump()]));
        match k {
            IDENT | R_STRING_LITERAL => {
                let l = node(if k == IDENT { R_IDENTIFIER } else { R_STRING_VALUE }, vec![self.bump()]);
                if matches!(self.kind(), COLON2 | COLON3) && self.continues() {
                    let op = self.bump();
                    let r = match self.kind() {
                        IDENT => node(R_IDENTIFIER, vec![self.bump()]),
                        R_STRING_LITERAL => node(R_STRING_VALUE, vec![self.bump()]),
                        k => return Err(format!("unexpected {k:?} after `::`")),
                    };
                    return Ok(node(R_NAMESPACE_EXPRESSION, vec![l, op, r]));
                }
                Ok(l)
            }
            R_INTEGER_LITERAL => leaf(self, R_INTEGER_VALUE),
            R_DOUBLE_LITERAL => leaf(self, R_DOUBLE_VALUE),
            R_COMPLEX_LITERAL => leaf(self, R_COMPLEX_VALUE),
            TRUE_KW => leaf(self, R_TRUE_EXPRESSION),
            FALSE_KW => leaf(self, R_FALSE_EXPRESSION),
            NULL_KW => leaf(self, R_NULL_EXPRESSION),
            INF_KW => leaf(self, R_INF_EXPRESSION),
            NAN_KW => leaf(self, R_NAN_EXPRESSION),
            NA_LOGICAL_KW | NA_INTEGER_KW | NA_DOUBLE_KW | NA_COMPLEX_KW | NA_CHARACTER_KW => {
                leaf(self, R_NA_EXPRESSION)
            }
            NEXT_KW => leaf(self, R_NEXT_EXPRESSION),
            BREAK_KW => leaf(self, R_BREAK_EXPRESSION),
            RETURN_KW => leaf(self, R_RETURN_EXPRESSION),
            DOTS => leaf(self, R_DOTS),
            DOTDOTI => leaf(self, R_DOT_DOT_I),
            L_PAREN => self.parens(),
            L_CURLY => self.braces(),
            MINUS | PLUS => self.unary(UNARY),
            BANG => self.unary(NOT),
            TILDE => self.unary(TIL),
            WAT => self.unary(HELP),
            FUNCTION_KW | BACKSLASH => {
                let kw = self.bump();
                let params = self.params()?;
                let body = self.expr(EQ)?;
                Ok(node(R_FUNCTION_DEFINITION, vec![kw, params, body]))
            }
            IF_KW => {
                let mut v = vec![self.bump()];
                self.condition(&mut v)?;
                v.push(self.expr(EQ)?);
                let t = &self.toks[self.pos];
                // At the top level, `else` has to be on the same line.
                let else_ok = t.kind == ELSE_KW && !t.semi && (!t.nl || !self.paren.is_empty());
                if else_ok {
                    let kw = self.bump();
                    let alt = self.expr(EQ)?;
                    v.push(node(R_ELSE_CLAUSE, vec![kw, alt]));
                } else {
                    v.push(RawElem::Empty);
                }
                Ok(node(R_IF_STATEMENT, v))
            }
            FOR_KW => {
                let mut v = vec![self.bump()];
                v.push(self.expect(L_PAREN)?);
                self.paren.push(true);
                let var = self.expect(IDENT)?;
                v.push(node(R_IDENTIFIER, vec![var]));
                v.push(self.expect(IN_KW)?);
                v.push(self.expr(HELP)?);
                self.paren.pop();
                v.push(self.expect(R_PAREN)?);
                v.push(self.expr(EQ)?);
                Ok(node(R_FOR_STATEMENT, v))
            }
            WHILE_KW => {
                let mut v = vec![self.bump()];
                self.condition(&mut v)?;
                v.push(self.expr(EQ)?);
                Ok(node(R_WHILE_STATEMENT, v))
            }
            REPEAT_KW => {
                let kw = self.bump();
                let body = self.expr(EQ)?;
                Ok(node(R_REPEAT_STATEMENT, vec![kw, body]))
            }
            k => Err(format!("unexpected {k:?}")),
        }
    }
    fn unary(&mut self, p: u8) -> R<RawElem> {
        let op = self.bump();
        let arg = self.expr(p)?;
        Ok(node(R_UNARY_EXPRESSION, vec![op, arg]))
    }
    fn params(&mut self) -> R<RawElem> {
        let l = self.expect(L_PAREN)?;
        self.paren.push(true);
        let mut v = vec![];
        if self.kind() != R_PAREN {
            loop {
                let name = match self.kind() {
                    IDENT => node(R_IDENTIFIER, vec![self.bump()]),
                    DOTS => node(R_DOTS, vec![self.bump()]),
                    DOTDOTI => node(R_DOT_DOT_I, vec![self.bump()]),
                    k => return Err(format!("unexpected {k:?} in parameters")),
                };
                let default = if self.kind() == EQUAL {
                    let eq = self.bump();
                    let value = self.expr(LEFT)?;
                    node(R_PARAMETER_DEFAULT, vec![eq, value])
                } else {
                    RawElem::Empty
                };
                v.push(node(R_PARAMETER, vec![name, default]));
                if self.kind() != COMMA {
                    break;
                }
                v.push(self.expect(COMMA)?);
            }
        }
        self.paren.pop();
        let r = self.expect(R_PAREN)?;
        Ok(node(R_PARAMETERS, vec![l, node(R_PARAMETER_LIST, v), r]))
    }
    fn args(&mut self, kind: RSyntaxKind, close: RSyntaxKind) -> R<RawElem> {
        let l = self.bump();
        self.paren.push(true);
        let mut v = vec![];
        if self.kind() != close {
            loop {
                if self.toks[self.pos].semi {
                    return Err("unexpected `;`".into());
                }
                v.push(self.arg(close)?);
                if self.kind() != COMMA {
                    break;
                }
                v.push(self.expect(COMMA)?);
            }
        }
        self.paren.pop();
        let r = self.expect(close)?;
        Ok(node(kind, vec![l, node(R_ARGUMENT_LIST, v), r]))
    }
    fn arg(&mut self, close: RSyntaxKind) -> R<RawElem> {
        let k = self.kind();
        let mut clause = RawElem::Empty;
        let name = match k {
            IDENT => Some(R_IDENTIFIER),
            R_STRING_LITERAL => Some(R_STRING_VALUE),
            DOTS => Some(R_DOTS),
            DOTDOTI => Some(R_DOT_DOT_I),
            NULL_KW => Some(R_NULL_EXPRESSION),
            _ => None,
        };
        if let Some(n) = name {
            if self.toks[self.pos + 1].kind == EQUAL && !self.toks[self.pos + 1].semi {
                let name = node(n, vec![self.bump()]);
                let eq = self.bump();
                clause = node(R_ARGUMENT_NAME_CLAUSE, vec![name, eq]);
            }
        }
        let value =
            if self.kind() == COMMA || self.kind() == close { RawElem::Empty } else { self.arg_value()? };
        Ok(node(R_ARGUMENT, vec![clause, value]))
    }
    fn arg_value(&mut self) -> R<RawElem> {
        let v = self.expr(LEFT)?;
        if self.kind() == WAT {
            let op = self.bump();
            let r = self.expr(HELP + 1)?;
            return Ok(node(R_BINARY_EXPRESSION, vec![v, op, r]));
        }
        Ok(v)
    }
}
