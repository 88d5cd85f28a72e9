//! The program space: expressions taken from the linter's own rule tests,
//! placed in every kind of surrounding code.
use crate::*;
use air_r_syntax::{RSyntaxKind, RSyntaxNode};
use biome_rowan::{Direction, SyntaxElement, TextRange, TextSize};
use jarl_core::config::Config;

/// A fixed configuration, built once.
pub struct Linter {
    pub config: Config,
    name: PathBuf,
}
impl Linter {
    pub fn new(o: &Opts, ext: &str) -> Linter {
        let name = PathBuf::from(format!("f.{ext}"));
        let config = build_config(&o.args(vec![name.clone()]), o.settings.as_ref(), vec![name.clone()]).expect("config");
        Linter { config, name }
    }
    pub fn lint(&self, text: &str) -> Result<Vec<Diagnostic>, String> {
        match mcx::catch(|| jarl_core::check::get_checks(text, &self.name, &self.config, &Default::default())) {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(format!("panic: {p}")),
        }
    }
}

pub struct Template {
    /// The rule whose tests it comes from.
    pub rule: String,
    pub text: String,
}

/// Every expression in the committed corpus (and what `extra` adds).
pub fn corpus() -> Vec<Template> {
    let p = mcx::verif_root().join("harness2/checks2/corpus.json");
    let v: Vec<(String, String)> = serde_json::from_str(&std::fs::read_to_string(p).expect("corpus.json")).expect("corpus.json");
    v.into_iter().map(|(rule, text)| Template { rule, text }).collect()
}

/// Surroundings; `@` stands for the expression.
pub const TIGHT: &[&str] = &[
    "@ + b", "a + @", "@ * b", "a * @", "@^b", "a^@", "@:b", "a:@", "@ %in% b", "a %in% @", "@ %||% b", "a %||% @", "@ |> g()",
    "@ == b", "a == @", "a < @", "@ < b", "@ & b", "a & @", "@ && b", "a && @", "@ || b", "a || @", "a | @", "@ - b", "a - @", "a / @",
    "!@", "-@", "+@", "@(a)", "@[1]", "@[[1]]", "@$n", "@@n", "~@", "a ~ @", "@ ~ a", "?@", "a ? @",
];
pub const LOOSE: &[&str] = &[
    "@", "a <- @", "a = @", "@ -> a", "a <<- @", "@ ->> a", "f(@)", "f(a, @)", "f(n = @)", "f(@, a)", "f(a)(@)", "p::f(@)", "n$f(@)",
    "a[@]", "a[@, ]", "a[[@]]", "a[1][@]", "a$b[@]",
    "a[[@]]$b", "a[@]$b", "a[[@]][b]", "f(@)$b", "f(@)[b]", "f(@)$g(b)", "a$f(@)$g()", "a[@] <- b", "a$b[[@]] <- d", "names(a)[@] <- b", "f(@) <- a", "a %>% f(@)", "p::f(n = @)",
    "f(a, , @)", "function(a) function(b) @", "if (a) b else if (d) e else @", "repeat if (a) break else @", "(@)", "{ @ }", "{\n  a\n  @\n  b\n}", "((@))", "f(g(@))", "f({\n  @\n})",
    "if (@) a", "if (a) @", "if (a) @ else b", "if (a) b else @", "if (@) a else b", "if (a) {\n  @\n}", "if (a) {\n  b\n} else {\n  @\n}", "if (a) b else if (@) d",
    "for (i in @) a", "for (i in a) @", "for (i in a) {\n  @\n}", "while (@) a", "while (a) @", "repeat @", "repeat {\n  @\n  break\n}",
    "function(a) @", "function(a = @) a", "function(a) {\n  @\n}", "\\(a) @", "f <- function(a) {\n  @\n}", "f <- function(a) {\n  b <- @\n  b\n}", "a |> f(@)",
    "a\n@\nb", "\n\n  @\n", "a; @", "@; a", "\u{e9} <- 1\n@", "'\u{e9}\u{1F600}'; @", "# start\n@", "@ # end", "@\n# end", "# start\n\n@ # end\nb\n",
];

/// Surroundings over several lines.
pub const LINES: &[&str] = &[
    "f(\n  @,\n  b\n)", "f(\n  a,\n  @\n)", "f(\n  n = @,\n  b\n)", "f(a,\n  @)", "x |>\n  f() |>\n  g(@)", "x |>\n  f(\n    @\n  )", "x |>\n  f(@) |>\n  g()",
    "function(\n  a = @\n) {\n  a\n}", "function(\n  a,\n  b = @\n) a", "if (\n  @\n) {\n  a\n}", "if (a) {\n  b\n} else if (@) {\n  d\n}", "if (a) {\n  b\n} else if (b &&\n  @) {\n  d\n}",
    "a <-\n  @", "a <- f(b)[\n  @\n]", "list(\n  a = list(\n    b = @\n  )\n)", "x +\n  @", "if (a &&\n  @) {\n  b\n}", "while (a &&\n  @) b", "'multi\nline'; @",
    "f('multi\nline', @)", "f(function(a) {\n  @\n})", "f(\\(a) @)", "\t@", "{\n\t@\n}", "a; @ # end", "a\r\n@\r\n", "f(a)(\n  @\n)", "a$b(\n  @\n)$d()", "switch(a,\n  b = @,\n  d = 1\n)",
    "a <- function(b) {\n  if (b) {\n    d <- @\n  }\n  d\n}", "f(\n  a, # note\n  @\n)", "# note\n# note\n@", "a <- if (b) @ else d", "if (a) b <- @", "for (i in a) f(@)", "f(if (a) @)", "f(\n  if (a) @\n)",
    "{ a; @ }", "function(a) { @ }", "a <- b <- @", "function(a, b = f(@)) a", "f(a)[[@]]", "-(\n  @\n)", "if (@ && @) a", "f(@, @)", "f(\n  @,\n  @\n)", "@\n@", "@; @", "f(a, {\n  @\n})", "a <- f(\n  @,\n  function(b) {\n    @\n  }\n)", "if (@) {\n  @\n} else {\n  @\n}", "f(f(\n  @\n))", "f(n = f(@))",
];

/// The tree below `n` as text, without positions and trivia.
pub fn sexp(n: &RSyntaxNode, hole: Option<TextRange>, out: &mut String) {
    let r = n.text_trimmed_range();
    if let Some(h) = hole {
        if r == h && !n.kind_is_list() {
            out.push_str("<HOLE>");
            return;
        }
    }
    out.push('(');
    out.push_str(&format!("{:?}", n.kind()));
    for e in n.children_with_tokens() {
        match e {
            SyntaxElement::Node(c) => sexp(&c, hole, out),
            SyntaxElement::Token(t) => {
                out.push(' ');
                out.push_str(t.text_trimmed());
            }
        }
    }
    out.push(')');
}
pub trait KindIsList {
    fn kind_is_list(&self) -> bool;
}
impl KindIsList for RSyntaxNode {
    fn kind_is_list(&self) -> bool {
        self.kind().is_list() || self.kind() == RSyntaxKind::R_ROOT || self.kind() == RSyntaxKind::R_ARGUMENT || self.kind() == RSyntaxKind::R_PARAMETER
    }
}
pub fn tree(text: &str) -> Option<RSyntaxNode> {
    let p = air_r_parser::parse(text, air_r_parser::RParserOptions::default());
    (!p.has_error()).then(|| p.syntax())
}
pub fn shape(text: &str) -> Option<String> {
    tree(text).map(|t| {
        let mut s = String::new();
        sexp(&t, None, &mut s);
        s
    })
}
/// The tree with the node at exactly `start..end` cut out; None when the text
/// does not parse or no node has this range.
pub fn shape_around(text: &str, start: usize, end: usize) -> Option<String> {
    let t = tree(text)?;
    let mut s = String::new();
    sexp(&t, Some(TextRange::new(TextSize::from(start as u32), TextSize::from(end as u32))), &mut s);
    s.contains("<HOLE>").then_some(s)
}
/// Whether an assignment with `=` is the condition of if, while or the vector of for, which R refuses.
pub fn equal_as_condition(text: &str) -> bool {
    tree(text).is_some_and(|t| {
        t.descendants().any(|n| {
            matches!(n.kind(), RSyntaxKind::R_IF_STATEMENT | RSyntaxKind::R_WHILE_STATEMENT | RSyntaxKind::R_FOR_STATEMENT)
                && n.children().any(|c| {
                    c.kind() == RSyntaxKind::R_BINARY_EXPRESSION
                        && c.next_sibling_or_token().is_some_and(|t| t.kind() == RSyntaxKind::R_PAREN)
                        && c.children_with_tokens().any(|t| t.kind() == RSyntaxKind::EQUAL)
                })
        })
    })
}
/// The expression node at exactly this range.
pub fn node_at(t: &RSyntaxNode, start: usize, end: usize) -> Option<RSyntaxNode> {
    let r = TextRange::new(TextSize::from(start as u32), TextSize::from(end as u32));
    t.descendants().find(|n| n.text_trimmed_range() == r && !n.kind_is_list())
}
pub fn comments(text: &str) -> Option<Vec<String>> {
    let t = tree(text)?;
    let mut v = vec![];
    for tok in t.descendants_tokens(Direction::Next) {
        for p in tok.leading_trivia().pieces().chain(tok.trailing_trivia().pieces()) {
            if p.is_comments() {
                v.push(p.text().to_string());
            }
        }
    }
    Some(v)
}

/// `context` with `text` in the hole, and the byte range of the hole.
pub fn plug(context: &str, text: &str) -> (String, usize, usize) {
    let at = context.find('@').unwrap();
    // `@@n` is the slot operator: the hole is the first sign
    let s = format!("{}{}{}", &context[..at], text, &context[at + 1..]);
    (s, at, at + text.len())
}

/// Is `text` a program of one expression, and does it stand as one node when placed there?
pub fn stands(context: &str, text: &str) -> Option<(String, usize, usize)> {
    let (full, a, b) = plug(context, text);
    let alone = shape_around(text, 0, text.len());
    alone.as_ref()?;
    let ft = tree(&full)?;
    let node = node_at(&ft, a, b)?;
    let alone_t = tree(text)?;
    let alone_n = node_at(&alone_t, 0, text.len())?;
    let (mut x, mut y) = (String::new(), String::new());
    sexp(&node, None, &mut x);
    sexp(&alone_n, None, &mut y);
    (x == y).then_some((full, a, b))
}

/// Operands: one expression of every form and binding strength.
pub const OPERANDS: &[&str] = &[
    "a + b", "a - b", "a * b", "a^b", "-a", "+a", "!a", "!!a", "a == b", "a < b", "a != b", "a & b", "a && b", "a | b", "a || b", "a ~ b", "~a",
    "a %in% b", "a %||% b", "a |> f()", "a:b", "a <- b", "a <<- b", "a -> b", "a ? b", "?a", "function(z) z", "function(z) {\n  z\n}", "\\(z) z",
    "if (a) b", "if (a) b else d", "for (i in a) b", "while (a) b", "repeat b", "{ a }", "{\n  a\n  b\n}", "(a)", "((a))", "(a + b)", "a[1]", "a[[1]]",
    "a[, 1]", "a$n", "a@n", "p::a", "p::f(a)", "f(a)", "f(a, n = b)", "f(, a)", "f(a)(b)", "a$f(b)", "'s'", "\"s\"", "r\"(s)\"", "\"a 'q' b\"", "1", "1L", "-1", "1e-3",
    "TRUE", "FALSE", "NA", "NA_character_", "NULL", "Inf", "NaN", "...", "..1", "`a b`", "a.b", "a[b == 1]", "any(is.na(a))", "length(a)", "f(a[b], -d)", "\u{e9}", "'\u{1F600}'",
    // where the first and the last character belong to different things, and texts that look like code
    "(a) + (b)", "(a + b) * (d - b)", "(a)(b)", "((a) + (b))", "a[1] + b[2]", "f(a) - f(b)", "f(a) == g(b)", "`a` + `b`", "a[[1]][[2]]", "(a)[(b)]", "f(\"(\", a, ')')", "f('#')", "f(\"it's\")", "f('a\\n')", "f('%s')", "f('{a}')",
    "f(',', a)", "f('a = 1')", "f(r\"(a)\")", "p:::f(a)", "a %>% f()", "a |> f() |> g()", "f(a)$b[1]", "f(a,\n  b)", "a +\n  b", "f('a\n  b')", "a$`b d`", "f(\n  a\n)", "(a +\n  b)", "a = b", "-a:b", "a - -b", "a %% b", "a^b^d", "a$f()$g(b)",
];

fn strip<'a>(n: &RSyntaxNode, var: Option<(&str, &'a str)>, parens: bool, out: &mut String) {
    if parens && n.kind() == RSyntaxKind::R_PARENTHESIZED_EXPRESSION {
        for c in n.children() {
            strip(&c, var, parens, out);
        }
        return;
    }
    if let Some((v, with)) = var {
        if is_operand(n, v) {
            out.push_str(with);
            return;
        }
    }
    out.push('(');
    out.push_str(&format!("{:?}", n.kind()));
    for e in n.children_with_tokens() {
        match e {
            SyntaxElement::Node(c) => strip(&c, var, parens, out),
            SyntaxElement::Token(t) => {
                out.push(' ');
                out.push_str(t.text_trimmed());
            }
        }
    }
    out.push(')');
}
/// `v` used as a value: not the name of a called function, of an argument, of a
/// parameter, of a package or of an element, not an assignment target.
pub fn is_operand(n: &RSyntaxNode, v: &str) -> bool {
    if n.kind() != RSyntaxKind::R_IDENTIFIER || n.text_trimmed().to_string() != v {
        return false;
    }
    let Some(p) = n.parent() else { return false };
    match p.kind() {
        RSyntaxKind::R_CALL => n.index() != 0,
        RSyntaxKind::R_ARGUMENT_NAME_CLAUSE | RSyntaxKind::R_PARAMETER | RSyntaxKind::R_NAMESPACE_EXPRESSION | RSyntaxKind::R_FOR_STATEMENT if n.index() < 3 => {
            p.kind() == RSyntaxKind::R_FOR_STATEMENT && n.index() != 2
        }
        RSyntaxKind::R_EXTRACT_EXPRESSION => n.index() == 0,
        _ => true,
    }
}
/// The tree of `text` with the operand `v` replaced by the tree `with`, parentheses dropped.
pub fn shape_with(text: &str, v: &str, with: &str, parens: bool) -> Option<String> {
    let t = tree(text)?;
    let mut s = String::new();
    strip(&t, Some((v, with)), parens, &mut s);
    Some(s)
}
pub fn shape_plain(text: &str, parens: bool) -> Option<String> {
    let t = tree(text)?;
    let mut s = String::new();
    strip(&t, None, parens, &mut s);
    Some(s)
}
/// The tree of the expression `text` alone (without the root around it).
pub fn expr_shape(text: &str, parens: bool) -> Option<String> {
    let t = tree(text)?;
    let n = node_at(&t, 0, text.len())?;
    let mut s = String::new();
    strip(&n, None, parens, &mut s);
    Some(s)
}
/// The names used as operands in `text`.
pub fn operand_names(text: &str) -> Vec<String> {
    let Some(t) = tree(text) else { return vec![] };
    let mut v: Vec<String> = vec![];
    for n in t.descendants() {
        if n.kind() == RSyntaxKind::R_IDENTIFIER {
            let s = n.text_trimmed().to_string();
            if is_operand(&n, &s) && !v.contains(&s) {
                v.push(s);
            }
        }
    }
    v
}
/// `text` with every operand `v` replaced by `with`; with the positions kept.
pub fn substitute(text: &str, v: &str, with: &str) -> Option<String> {
    let t = tree(text)?;
    let mut out = String::new();
    let mut last = 0;
    for n in t.descendants() {
        if is_operand(&n, v) {
            let r = n.text_trimmed_range();
            out.push_str(&text[last..r.start().into()]);
            out.push_str(with);
            last = r.end().into();
        }
    }
    out.push_str(&text[last..]);
    // it must have gone in whole
    let e = expr_shape(with, false)?;
    (shape_with(text, v, &e, false)? == shape_plain(&out, false)?).then_some(out)
}
