//! R expressions as terms, in a normal form that keeps the meaning: parentheses
//! dropped, `{ x }` as x, pipes as calls, arguments matched to the parameters of
//! known functions, strings and numbers by value, assignments as `<-`.
use crate::progs::{tree, KindIsList};
use air_r_syntax::{RSyntaxKind as K, RSyntaxNode};
use biome_rowan::{Direction, SyntaxElement};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum T {
    /// A constant or anything without parts: kind and text.
    Leaf(&'static str, String),
    /// A call or construct: head, arguments (name or "", value).
    Call(String, Vec<(String, T)>),
    Missing,
}
pub use T::*;

pub fn sym(s: &str) -> T {
    Leaf("sym", s.into())
}
pub fn num(s: &str) -> T {
    Leaf("num", s.into())
}
pub fn string(s: &str) -> T {
    Leaf("str", s.into())
}
pub fn call(h: &str, args: Vec<T>) -> T {
    Call(h.into(), args.into_iter().map(|a| (String::new(), a)).collect())
}
/// A call of a function in normal form (arguments by parameter).
pub fn named(h: &str, args: Vec<(&str, Option<T>)>) -> T {
    matched(h, args.into_iter().filter_map(|(n, v)| v.map(|v| (n.to_string(), v))).collect()).unwrap()
}

/// Parameters of the functions the rules know. `...` takes the rest.
pub const FORMALS: &[(&str, &[&str])] = &[
    ("any", &["...", "na.rm"]),
    ("all", &["...", "na.rm"]),
    ("is.na", &["x"]),
    ("is.nan", &["x"]),
    ("is.null", &["x"]),
    ("is.numeric", &["x"]),
    ("is.integer", &["x"]),
    ("is.character", &["x"]),
    ("is.factor", &["x"]),
    ("isTRUE", &["x"]),
    ("isFALSE", &["x"]),
    ("duplicated", &["x", "incomparables", "..."]),
    ("anyDuplicated", &["x", "incomparables", "..."]),
    ("anyNA", &["x", "recursive"]),
    ("class", &["x"]),
    ("inherits", &["x", "what", "which"]),
    ("identical", &["x", "y", "num.eq", "single.NA", "attrib.as.set", "ignore.bytecode", "ignore.environment", "ignore.srcref", "extptr.as.ref"]),
    ("grepl", &["pattern", "x", "ignore.case", "perl", "fixed", "useBytes"]),
    ("grep", &["pattern", "x", "ignore.case", "perl", "value", "fixed", "useBytes", "invert"]),
    ("grepv", &["pattern", "x", "ignore.case", "perl", "value", "fixed", "useBytes", "invert"]),
    ("regexpr", &["pattern", "text", "ignore.case", "perl", "fixed", "useBytes"]),
    ("gregexpr", &["pattern", "text", "ignore.case", "perl", "fixed", "useBytes"]),
    ("regexec", &["pattern", "text", "ignore.case", "perl", "fixed", "useBytes"]),
    ("sub", &["pattern", "replacement", "x", "ignore.case", "perl", "fixed", "useBytes"]),
    ("gsub", &["pattern", "replacement", "x", "ignore.case", "perl", "fixed", "useBytes"]),
    ("sapply", &["X", "FUN", "...", "simplify", "USE.NAMES"]),
    ("vapply", &["X", "FUN", "FUN.VALUE", "...", "USE.NAMES"]),
    ("lengths", &["x", "use.names"]),
    ("length", &["x"]),
    ("levels", &["x"]),
    ("nlevels", &["x"]),
    ("nrow", &["x"]),
    ("ncol", &["x"]),
    ("NROW", &["x"]),
    ("NCOL", &["x"]),
    ("names", &["x"]),
    ("typeof", &["x"]),
    ("do.call", &["what", "args", "quote", "envir"]),
    ("list2DF", &["x", "nrow"]),
    ("apply", &["X", "MARGIN", "FUN", "...", "simplify"]),
    ("rowSums", &["x", "na.rm", "dims"]),
    ("colSums", &["x", "na.rm", "dims"]),
    ("rowMeans", &["x", "na.rm", "dims"]),
    ("colMeans", &["x", "na.rm", "dims"]),
    ("ifelse", &["test", "yes", "no"]),
    ("fifelse", &["test", "yes", "no", "na"]),
    ("if_else", &["condition", "true", "false", "missing", "...", "ptype", "size"]),
    ("sample", &["x", "size", "replace", "prob"]),
    ("sample.int", &["n", "size", "replace", "prob", "useHash"]),
    ("seq_along", &["along.with"]),
    ("seq_len", &["length.out"]),
    ("seq", &["..."]),
    ("order", &["...", "na.last", "decreasing", "method"]),
    ("sort", &["x", "decreasing", "na.last", "method", "..."]),
    ("sprintf", &["fmt", "..."]),
    ("substr", &["x", "start", "stop"]),
    ("substring", &["text", "first", "last"]),
    ("nchar", &["x", "type", "allowNA", "keepNA"]),
    ("startsWith", &["x", "prefix"]),
    ("endsWith", &["x", "suffix"]),
    ("system.file", &["...", "package", "lib.loc", "mustWork"]),
    ("file.path", &["...", "fsep"]),
    ("which", &["x", "arr.ind", "useNames"]),
    ("all.equal", &["target", "current", "..."]),
    ("download.file", &["url", "destfile", "method", "quiet", "mode", "cacheOK", "extra", "headers", "..."]),
    ("expect_equal", &["object", "expected", "...", "tolerance", "info", "label", "expected.label"]),
    ("expect_identical", &["object", "expected", "info", "label", "expected.label", "..."]),
    ("expect_true", &["object", "info", "label"]),
    ("expect_false", &["object", "info", "label"]),
    ("expect_null", &["object", "info", "label"]),
    ("expect_length", &["object", "n"]),
    ("expect_named", &["object", "expected", "ignore.order", "ignore.case", "info", "label"]),
    ("expect_s3_class", &["object", "class", "exact"]),
    ("expect_type", &["object", "type"]),
    ("expect_match", &["object", "regexp", "perl", "fixed", "...", "all", "info", "label"]),
    ("expect_no_match", &["object", "regexp", "perl", "fixed", "...", "all", "info", "label"]),
];
pub fn formals(f: &str) -> Option<&'static [&'static str]> {
    FORMALS.iter().find(|(n, _)| *n == f).map(|(_, v)| *v)
}
/// R's argument matching by full name and position. None: R refuses the call
/// (or may refuse it), so that it has no meaning to keep.
pub fn matched(f: &str, args: Vec<(String, T)>) -> Option<T> {
    let Some(fs) = formals(f) else { return Some(Call(f.into(), args)) };
    let dots = fs.iter().position(|x| *x == "...");
    let mut slots: Vec<Option<T>> = vec![None; fs.len()];
    let mut rest: Vec<(String, T)> = vec![];
    let mut pos = vec![];
    for (n, v) in args {
        match fs.iter().position(|x| !n.is_empty() && *x == n && n != "...") {
            Some(i) if slots[i].is_some() => return None,
            Some(i) => slots[i] = Some(v),
            None => pos.push((n, v)),
        }
    }
    for (n, v) in pos {
        let free = (0..fs.len()).find(|i| dots.is_none_or(|d| *i < d) && slots[*i].is_none());
        if !n.is_empty() {
            // might be a partial match of a parameter before the dots
            if fs[..dots.unwrap_or(fs.len())].iter().any(|x| x.starts_with(&n)) {
                return None;
            }
            dots?;
            rest.push((n, v));
        } else if let Some(i) = free {
            slots[i] = Some(v);
        } else {
            dots?;
            rest.push((n, v));
        }
    }
    let mut out = vec![];
    for (i, s) in slots.into_iter().enumerate() {
        if Some(i) == dots {
            out.append(&mut rest);
        }
        match s {
            Some(Missing) | None => {}
            Some(v) => out.push((fs[i].to_string(), v)),
        }
    }
    Some(Call(f.into(), out))
}

fn unquote(s: &str) -> Option<String> {
    let b = s.as_bytes();
    if s.starts_with(['r', 'R']) {
        let q = b[1] as char;
        let t = &s[2..];
        let dashes = t.bytes().take_while(|c| *c == b'-').count();
        return Some(t[dashes + 1..t.len() - dashes - 2].to_string()).filter(|_| t.ends_with(q));
    }
    let inner = &s[1..s.len() - 1];
    let mut out = String::new();
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'r' => out.push('\r'),
            x @ ('\\' | '\'' | '"' | '`' | '\n') => out.push(x),
            // other escapes are kept as they are written
            x => {
                out.push('\u{1}');
                out.push(x);
            }
        }
    }
    Some(out)
}
fn number(s: &str) -> String {
    let (t, suffix) = match s.strip_suffix(['L', 'i']) {
        Some(t) if !s.starts_with("0x") && !s.starts_with("0X") => (t, &s[s.len() - 1..]),
        _ => (s, ""),
    };
    match t.parse::<f64>() {
        Ok(v) => format!("{v:?}{suffix}"),
        Err(_) => s.to_string(),
    }
}
fn name_of(n: &RSyntaxNode) -> String {
    let s = n.text_trimmed().to_string();
    let t = s.trim_matches('`');
    if n.kind() == K::R_STRING_VALUE || s.starts_with(['"', '\'']) {
        return unquote(&s).unwrap_or(s);
    }
    t.to_string()
}
fn args(list: &RSyntaxNode) -> Option<Vec<(String, T)>> {
    let mut out = vec![];
    for a in list.children() {
        if a.kind() != K::R_ARGUMENT {
            continue;
        }
        let (mut n, mut v) = (String::new(), Missing);
        for c in a.children() {
            if c.kind() == K::R_ARGUMENT_NAME_CLAUSE {
                n = match c.children().next() {
                    Some(x) => name_of(&x),
                    None => c.text_trimmed().to_string().split('=').next().unwrap().trim().to_string(),
                };
                n = n.trim_matches('`').to_string();
            } else {
                v = term(&c)?;
            }
        }
        out.push((n, v));
    }
    if out.len() == 1 && out[0] == (String::new(), Missing) {
        out.clear();
    }
    Some(out)
}
/// The function called, without its package.
fn head(n: &RSyntaxNode) -> Option<Result<String, T>> {
    Some(match n.kind() {
        K::R_IDENTIFIER => Ok(name_of(n)),
        K::R_RETURN_EXPRESSION => Ok("return".into()),
        K::R_NAMESPACE_EXPRESSION => {
            let c: Vec<_> = n.children().collect();
            match c.last()?.kind() {
                K::R_IDENTIFIER => Ok(name_of(c.last()?)),
                _ => Err(term(n)?),
            }
        }
        _ => Err(term(n)?),
    })
}
pub fn call_of(f: Result<String, T>, a: Vec<(String, T)>) -> Option<T> {
    match f {
        Ok(f) => matched(&f, a),
        Err(t) => {
            let mut v = vec![(String::new(), t)];
            v.extend(a);
            Some(Call("call".into(), v))
        }
    }
}
/// The normal form of a syntax tree; None when R would refuse (part of) it.
pub fn term(n: &RSyntaxNode) -> Option<T> {
    let kids: Vec<RSyntaxNode> = n.children().collect();
    let text = || n.text_trimmed().to_string();
    let u = |t: T| (String::new(), t);
    Some(match n.kind() {
        K::R_PARENTHESIZED_EXPRESSION => term(&kids[0])?,
        K::R_BRACED_EXPRESSIONS => {
            let mut v = vec![];
            for e in kids[0].children() {
                v.push(u(term(&e)?));
            }
            if v.len() == 1 {
                v.pop().unwrap().1
            } else {
                Call("{".into(), v)
            }
        }
        K::R_IDENTIFIER => sym(&name_of(n)),
        K::R_STRING_VALUE => string(&unquote(&text())?),
        K::R_INTEGER_VALUE | K::R_DOUBLE_VALUE | K::R_COMPLEX_VALUE => num(&number(&text())),
        K::R_CALL => {
            let list = kids[1].children().next()?;
            call_of(head(&kids[0])?, args(&list)?)?
        }
        K::R_SUBSET | K::R_SUBSET2 => {
            let mut v = vec![u(term(&kids[0])?)];
            v.extend(args(&kids[1].children().next()?)?);
            Call(if n.kind() == K::R_SUBSET { "[" } else { "[[" }.into(), v)
        }
        K::R_BINARY_EXPRESSION => {
            let op = n.children_with_tokens().find_map(|e| match e {
                SyntaxElement::Token(t) => Some(t.text_trimmed().to_string()),
                _ => None,
            })?;
            if op == "|>" {
                // the left side becomes the first argument
                let r = &kids[1];
                if r.kind() == K::R_CALL {
                    let mut a = args(&r.children().nth(1)?.children().next()?)?;
                    a.insert(0, u(term(&kids[0])?));
                    return call_of(head(&r.children().next()?)?, a);
                }
                return None;
            }
            let (l, r) = (term(&kids[0])?, term(&kids[1])?);
            match op.as_str() {
                "=" => call("<-", vec![l, r]),
                "->" => call("<-", vec![r, l]),
                "->>" => call("<<-", vec![r, l]),
                "**" => call("^", vec![l, r]),
                // chains of && and || as one
                o @ ("&&" | "||") => {
                    let mut v = vec![];
                    for x in [l, r] {
                        match x {
                            Call(h, a) if h == o => v.extend(a),
                            x => v.push(u(x)),
                        }
                    }
                    Call(o.into(), v)
                }
                o => call(o, vec![l, r]),
            }
        }
        K::R_UNARY_EXPRESSION => {
            let op = n.first_token()?.text_trimmed().to_string();
            call(&op, vec![term(&kids[0])?])
        }
        K::R_IF_STATEMENT => {
            let mut v = vec![u(term(&kids[0])?), u(term(&kids[1])?)];
            if let Some(e) = kids.get(2) {
                v.push(u(term(&e.children().next()?)?));
            }
            Call("if".into(), v)
        }
        K::R_WHILE_STATEMENT => call("while", vec![term(&kids[0])?, term(&kids[1])?]),
        K::R_REPEAT_STATEMENT => call("repeat", vec![term(&kids[0])?]),
        K::R_ROOT => {
            let mut v = vec![];
            for k in &kids {
                for e in k.children() {
                    v.push(u(term(&e)?));
                }
            }
            Call("root".into(), v)
        }
        k if kids.is_empty() => {
            let _ = k;
            Leaf("word", text())
        }
        k => {
            // anything else: its tokens and parts in order
            let mut v = vec![];
            for e in n.children_with_tokens() {
                match e {
                    SyntaxElement::Token(t) => v.push(u(Leaf("tok", t.text_trimmed().into()))),
                    SyntaxElement::Node(c) => v.push(u(term(&c)?)),
                }
            }
            let _ = Direction::Next;
            let _ = n.kind_is_list();
            Call(format!("{k:?}"), v)
        }
    })
}
/// The normal form of a text that is one expression.
pub fn term_of(text: &str) -> Option<T> {
    let t = tree(text)?;
    match term(&t)? {
        Call(h, mut v) if h == "root" && v.len() == 1 => Some(v.pop().unwrap().1),
        _ => None,
    }
}
/// As it would be written, for messages.
pub fn show(t: &T) -> String {
    match t {
        Missing => "<missing>".into(),
        Leaf("str", s) => format!("{s:?}"),
        Leaf(_, s) => s.clone(),
        Call(h, a) => {
            let v: Vec<String> = a.iter().map(|(n, t)| if n.is_empty() { show(t) } else { format!("{n} = {}", show(t)) }).collect();
            format!("{h}({})", v.join(", "))
        }
    }
}
