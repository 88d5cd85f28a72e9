//! A06: a fix is the rewriting its rule documents, and keeps every part.
use checks2::progs::*;
use checks2::term::*;
use checks2::*;
use jarl_core::diagnostic::Fix;
use mcx::{json, Check};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use air_r_syntax::RSyntaxKind as K;

fn get<'a>(t: &'a T, n: &str) -> Option<&'a T> {
    match t {
        Call(_, a) => a.iter().find(|(m, _)| m == n).map(|(_, v)| v),
        _ => None,
    }
}
fn is(t: &T, h: &str) -> bool {
    matches!(t, Call(x, _) if x == h)
}
/// Calls `h` with all of `must`, and nothing but those and `may`.
fn exactly(t: &T, h: &str, must: &[&str], may: &[&str]) -> bool {
    match t {
        Call(x, a) => x == h && must.iter().all(|m| get(t, m).is_some()) && a.iter().all(|(n, _)| must.contains(&n.as_str()) || may.contains(&n.as_str())),
        _ => false,
    }
}
fn bin<'a>(t: &'a T, ops: &[&str]) -> Option<(&'a str, &'a T, &'a T)> {
    match t {
        Call(h, a) if a.len() == 2 && ops.contains(&h.as_str()) && a.iter().all(|(n, _)| n.is_empty()) => Some((h, &a[0].1, &a[1].1)),
        _ => None,
    }
}
fn not(t: T) -> T {
    call("!", vec![t])
}
fn word(t: &T) -> &str {
    match t {
        Leaf("word", s) => s,
        _ => "",
    }
}
fn text(t: &T) -> Option<&str> {
    match t {
        Leaf("str", s) => Some(s),
        _ => None,
    }
}
fn one(t: &T) -> bool {
    matches!(t, Leaf("num", s) if s == "1.0" || s == "1.0L")
}
/// `t` with the arguments called `names` dropped, under another head.
fn recall(t: &T, h: &str, map: &[(&str, Option<T>)]) -> Option<T> {
    let Call(_, a) = t else { return None };
    let mut v: Vec<(String, T)> = a.iter().filter(|(n, _)| !map.iter().any(|(m, _)| m == n)).cloned().collect();
    for (n, x) in map {
        if let Some(x) = x {
            v.push((n.to_string(), x.clone()));
        }
    }
    matched(h, v)
}
/// The dots of any(), all() ...: exactly one unnamed value, and only `may` beside it.
fn sole<'a>(t: &'a T, h: &str, may: &[&str]) -> Option<&'a T> {
    match t {
        Call(x, a) if x == h && a.iter().filter(|(n, _)| n.is_empty()).count() == 1 && a.iter().all(|(n, _)| n.is_empty() || may.contains(&n.as_str())) => get(t, ""),
        _ => None,
    }
}
fn sides<'a>(a: &'a T, b: &'a T, f: impl Fn(&'a T, &'a T) -> Option<T>) -> Vec<T> {
    [f(a, b), f(b, a)].into_iter().flatten().collect()
}
/// The rewritings that the documentation of `rule` gives for `t`.
/// None: a rule without a documented rewriting.
fn documented(rule: &str, t: &T) -> Option<Vec<T>> {
    let cmp = ["==", "!=", "<", ">", "<=", ">="];
    let mut out: Vec<T> = vec![];
    let o = &mut out;
    match rule {
        // R refuses to assign to an assignment or a function
        "assignment" if matches!(t, Call(h, a) if h.contains("<-") && matches!(a.first(), Some((_, Call(g, _))) if g.contains("<-") || g.starts_with("R_") || ["if", "while", "for", "repeat", "function"].contains(&g.as_str()))) => return None,
        "assignment" | "numeric_leading_zero" => o.push(t.clone()),
        "any_duplicated" => {
            if let Some(d) = sole(t, "any", &["na.rm"]).filter(|d| is(d, "duplicated")) {
                o.extend(recall(d, "anyDuplicated", &[]).map(|x| call(">", vec![x, num("0.0")])));
            }
        }
        "any_is_na" => {
            if let Some(d) = sole(t, "any", &["na.rm"]).filter(|d| is(d, "is.na")) {
                o.extend(recall(d, "anyNA", &[]));
            }
            if let Some((_, a, b)) = bin(t, &["%in%"]) {
                if word(a).starts_with("NA") {
                    o.push(named("anyNA", vec![("x", Some(b.clone()))]));
                }
            }
        }
        "which_grepl" => {
            if exactly(t, "which", &["x"], &[]) && is(get(t, "x")?, "grepl") {
                o.extend(recall(get(t, "x")?, "grep", &[]));
            }
        }
        "length_levels" => {
            if exactly(t, "length", &["x"], &[]) && is(get(t, "x")?, "levels") {
                o.extend(recall(get(t, "x")?, "nlevels", &[]));
            }
        }
        "length_test" => {
            if exactly(t, "length", &["x"], &[]) {
                if let Some((op, a, b)) = bin(get(t, "x")?, &cmp) {
                    o.push(call(op, vec![named("length", vec![("x", Some(a.clone()))]), b.clone()]));
                }
            }
        }
        "class_equals" => {
            let inh = |c: &T, s: &T| {
                (exactly(c, "class", &["x"], &[]) && text(s).is_some()).then(|| named("inherits", vec![("x", get(c, "x").cloned()), ("what", Some(s.clone()))]))
            };
            if let Some((op, a, b)) = bin(t, &["==", "!=", "%in%"]) {
                let v = sides(a, b, inh);
                o.extend(v.into_iter().map(|x| if op == "!=" { not(x) } else { x }));
            }
            if exactly(t, "identical", &["x", "y"], &[]) {
                o.extend(sides(get(t, "x")?, get(t, "y")?, inh));
            }
        }
        "coalesce" => {
            if let Call(h, a) = t {
                if h == "if" && a.len() == 3 {
                    let (c, x, y) = (&a[0].1, &a[1].1, &a[2].1);
                    if exactly(c, "is.null", &["x"], &[]) && get(c, "x") == Some(y) {
                        o.push(call("%||%", vec![y.clone(), x.clone()]));
                    }
                    if let Call(h, b) = c {
                        if h == "!" && exactly(&b[0].1, "is.null", &["x"], &[]) && get(&b[0].1, "x") == Some(x) {
                            o.push(call("%||%", vec![x.clone(), y.clone()]));
                        }
                    }
                    // is.null(x <- value): the value is what is used
                    let (c, x, y) = match c {
                        Call(h, b) if h == "!" => (&b[0].1, y, x),
                        c => (c, x, y),
                    };
                    if exactly(c, "is.null", &["x"], &[]) {
                        if let Some((_, n, v)) = bin(get(c, "x")?, &["<-"]) {
                            if n == y {
                                o.push(call("%||%", vec![v.clone(), x.clone()]));
                            }
                        }
                    }
                }
            }
        }
        "comparison_negation" => {
            if let Call(h, a) = t {
                if h == "!" {
                    if let Some((op, x, y)) = bin(&a[0].1, &cmp) {
                        let n = match op {
                            "==" => "!=",
                            "!=" => "==",
                            "<" => ">=",
                            ">=" => "<",
                            ">" => "<=",
                            _ => ">",
                        };
                        o.push(call(n, vec![x.clone(), y.clone()]));
                    }
                }
            }
        }
        "equals_na" | "equals_nan" | "equals_null" => {
            let (f, is_it): (&str, fn(&T) -> bool) = match rule {
                "equals_na" => ("is.na", |t| word(t).starts_with("NA") || matches!(t, Leaf(_, s) if s == "NA_logical_")),
                "equals_nan" => ("is.nan", |t| word(t) == "NaN"),
                _ => ("is.null", |t| word(t) == "NULL"),
            };
            if let Some((op, a, b)) = bin(t, &["==", "!=", "%in%"]) {
                let v = sides(a, b, |x, k| (is_it(k) && (op != "%in%" || std::ptr::eq(k, b))).then(|| named(f, vec![("x", Some(x.clone()))])));
                o.extend(v.into_iter().map(|x| if op == "!=" { not(x) } else { x }));
            }
        }
        "redundant_equals" => {
            if let Some((op, a, b)) = bin(t, &["==", "!="]) {
                o.extend(sides(a, b, |x, k| match word(k) {
                    "TRUE" | "FALSE" => Some(if (word(k) == "TRUE") == (op == "==") { x.clone() } else { not(x.clone()) }),
                    _ => None,
                }));
            }
        }
        "redundant_ifelse" => {
            for (f, c, y, n) in [("ifelse", "test", "yes", "no"), ("fifelse", "test", "yes", "no"), ("if_else", "condition", "true", "false")] {
                if exactly(t, f, &[c, y, n], &[]) {
                    match (word(get(t, y)?), word(get(t, n)?)) {
                        ("TRUE", "FALSE") => o.push(get(t, c)?.clone()),
                        ("FALSE", "TRUE") => o.push(not(get(t, c)?.clone())),
                        _ => {}
                    }
                }
            }
        }
        "repeat" => {
            if let Some((_, c, b)) = bin(t, &["while"]) {
                if word(c) == "TRUE" {
                    o.push(call("repeat", vec![b.clone()]));
                }
            }
        }
        "outer_negation" => {
            for (f, g) in [("any", "all"), ("all", "any")] {
                if let Some(Call(h, a)) = sole(t, f, &["na.rm"]) {
                    if h == "!" {
                        let Call(_, all) = t else { return None };
                        let v = all.iter().map(|(n, x)| (n.clone(), if n.is_empty() { a[0].1.clone() } else { x.clone() })).collect();
                        o.extend(matched(g, v).map(not));
                    }
                }
            }
        }
        "sample_int" => {
            if is(t, "sample") {
                if let Some((_, a, n)) = bin(get(t, "x")?, &[":"]) {
                    if one(a) {
                        o.extend(recall(t, "sample.int", &[("x", None), ("n", Some(n.clone()))]));
                    }
                }
            }
        }
        "seq" | "seq2" => {
            let l = match rule {
                "seq" => bin(t, &[":"]).filter(|(_, a, _)| one(a)).map(|(_, _, b)| b),
                _ => sole(t, "seq", &[]),
            };
            if let Some(l) = l {
                if exactly(l, "length", &["x"], &[]) {
                    o.push(named("seq_along", vec![("along.with", get(l, "x").cloned())]));
                }
                if ["nrow", "ncol", "NROW", "NCOL"].iter().any(|f| is(l, f)) {
                    o.push(named("seq_len", vec![("length.out", Some(l.clone()))]));
                }
            }
        }
        "sort" => {
            if let Some((_, x, i)) = bin(t, &["["]) {
                if sole(i, "order", &["na.last", "decreasing", "method"]) == Some(x) {
                    let Call(_, a) = i else { return None };
                    o.extend(matched("sort", a.clone()));
                }
            }
        }
        "sprintf" => {
            if is(t, "sprintf") {
                let f = text(get(t, "fmt")?)?;
                let Call(_, a) = t else { return None };
                // further arguments only decide the length of the result
                if a.iter().all(|(n, v)| n == "fmt" || matches!(v, Leaf("str" | "num", _))) && !f.replace("%%", "").contains('%') {
                    o.push(string(&f.replace("%%", "%")));
                }
            }
        }
        "string_boundary" => {
            if let Some((op, a, b)) = bin(t, &["==", "!="]) {
                for (x, s) in [(a, b), (b, a)] {
                    for (f, n0, n1, n2) in [("substr", "x", "start", "stop"), ("substring", "text", "first", "last")] {
                        if exactly(x, f, &[n0, n1], &[n2]) {
                            let mut v = vec![];
                            let subject = get(x, n0).cloned();
                            if one(get(x, n1)?) && get(x, n2).is_some() {
                                v.push(named("startsWith", vec![("x", subject.clone()), ("prefix", Some(s.clone()))]));
                            }
                            if get(x, n2).is_some_and(|l| exactly(l, "nchar", &["x"], &[]) && get(l, "x") == subject.as_ref()) || f == "substring" && get(x, n2).is_none() {
                                v.push(named("endsWith", vec![("x", subject), ("suffix", Some(s.clone()))]));
                            }
                            o.extend(v.into_iter().map(|y| if op == "!=" { not(y) } else { y }));
                        }
                    }
                }
            }
        }
        "system_file" => {
            if let Call(h, a) = t {
                if h == "system.file" {
                    let mut v: Vec<(String, T)> = vec![];
                    for (n, x) in a {
                        match x {
                            Call(f, b) if f == "file.path" && n.is_empty() && b.iter().all(|(n, _)| n.is_empty()) => v.extend(b.iter().cloned()),
                            x => v.push((n.clone(), x.clone())),
                        }
                    }
                    // file.path() refuses missing arguments
                    if v.iter().any(|(_, x)| show(x) == "<missing>") {
                        return None;
                    }
                    o.extend(matched(h, v));
                }
            }
        }
        "unnecessary_nesting" => {
            // any number of levels at once
            let mut conds = vec![];
            let mut cur = t;
            while let Some((_, c, body)) = bin(cur, &["if"]) {
                match c {
                    Call(h, v) if h == "&&" => conds.extend(v.iter().cloned()),
                    c => conds.push((String::new(), c.clone())),
                }
                if !std::ptr::eq(cur, t) {
                    o.push(call("if", vec![Call("&&".into(), conds.clone()), body.clone()]));
                }
                cur = body;
            }
        }
        "lengths" => {
            let f = match t {
                Call(h, _) => h.as_str(),
                _ => "",
            };
            let length = |x: &T| *x == sym("length");
            let ok = exactly(t, "sapply", &["X", "FUN"], &[]) || exactly(t, "vapply", &["X", "FUN"], &["FUN.VALUE"]);
            if ok && length(get(t, "FUN")?) {
                o.push(named("lengths", vec![("x", get(t, "X").cloned())]));
            }
            if let Some((_, x, g)) = bin(t, &["map_dbl", "map_int"]) {
                if length(g) {
                    o.push(named("lengths", vec![("x", Some(x.clone()))]));
                }
            }
            if ["map_dbl", "map_int"].contains(&f) && exactly(t, f, &["", "FUN"], &[]) && length(get(t, "FUN")?) {
                o.push(named("lengths", vec![("x", get(t, "").cloned())]));
            }
        }
        "list2df" => {
            if exactly(t, "do.call", &["what", "args"], &[]) {
                let w = get(t, "what")?;
                if *w == sym("cbind.data.frame") || text(w) == Some("cbind.data.frame") {
                    o.push(named("list2DF", vec![("x", get(t, "args").cloned())]));
                }
            }
        }
        "matrix_apply" => {
            if exactly(t, "apply", &["X", "MARGIN", "FUN"], &["na.rm"]) {
                let Leaf("num", m) = get(t, "MARGIN")? else { return Some(out) };
                let r = match m.as_str() {
                    "1.0" | "1.0L" => "row",
                    "2.0" | "2.0L" => "col",
                    _ => return Some(out),
                };
                let f = match get(t, "FUN")? {
                    x if *x == sym("sum") => "Sums",
                    x if *x == sym("mean") => "Means",
                    _ => return Some(out),
                };
                o.push(named(&format!("{r}{f}"), vec![("x", get(t, "X").cloned()), ("na.rm", get(t, "na.rm").cloned())]));
            }
        }
        "fixed_regex" => {
            let Call(f, _) = t else { return Some(out) };
            if ["grep", "grepl", "sub", "gsub", "regexpr", "gregexpr", "regexec"].contains(&f.as_str()) {
                let p = text(get(t, "pattern")?)?;
                let off = |n: &str| get(t, n).is_none_or(|v| word(v) == "FALSE");
                let special = p.contains(['.', '*', '+', '?', '[', '{', '(', ')', '|', '^', '$', '\\']);
                // with fixed = TRUE, backslashes in the replacement stand for themselves
                let refs = get(t, "replacement").and_then(text).is_some_and(|s| s.contains('\\'));
                if !special && off("fixed") && off("ignore.case") && !refs {
                    o.extend(recall(t, f, &[("fixed", Some(Leaf("word", "TRUE".into())))]));
                }
            }
        }
        "grepv" => {
            if is(t, "grep") && get(t, "value").is_some_and(|v| word(v) == "TRUE") {
                o.extend(recall(t, "grepv", &[("value", None)]));
            }
        }
        "is_numeric" => {
            if let Some((_, a, b)) = bin(t, &["||"]) {
                o.extend(sides(a, b, |x, y| (exactly(x, "is.numeric", &["x"], &[]) && exactly(y, "is.integer", &["x"], &[]) && get(x, "x") == get(y, "x")).then(|| x.clone())));
            }
        }
        "all_equal" => {
            let yes = |t: &T| is(t, "all.equal").then(|| named("isTRUE", vec![("x", Some(t.clone()))]));
            match t {
                Call(h, a) if h == "!" => o.extend(yes(&a[0].1).map(not)),
                t if exactly(t, "isFALSE", &["x"], &[]) => o.extend(yes(get(t, "x")?).map(not)),
                t => o.extend(yes(t)),
            }
        }
        // testthat
        r if r.starts_with("expect_") => {
            let extra = ["info", "label"];
            let keep: Vec<(&str, Option<T>)> = extra.iter().map(|n| (*n, get(t, n).cloned())).collect();
            let with = |f: &str, mut v: Vec<(&'static str, Option<T>)>| {
                v.extend(keep.iter().map(|(n, x)| (if *n == "info" { "info" } else { "label" }, x.clone())));
                named(f, v)
            };
            let equal = |ids: &[&str]| ids.iter().any(|f| exactly(t, f, &["object", "expected"], &[]));
            let both = ["expect_equal", "expect_identical"];
            let x = |t: &T| get(t, "x").cloned();
            match r {
                "expect_length" | "expect_named" | "expect_type" | "expect_s3_class" => {
                    let (f, n2) = match r {
                        "expect_length" => ("length", "n"),
                        "expect_named" => ("names", "expected"),
                        "expect_type" => ("typeof", "type"),
                        _ => ("class", "class"),
                    };
                    if equal(&both) {
                        o.extend(sides(get(t, "object")?, get(t, "expected")?, |a, b| {
                            (exactly(a, f, &["x"], &[]) && (n2 != "class" || text(b).is_some())).then(|| named(r, vec![("object", x(a)), (n2, Some(b.clone()))]))
                        }));
                    }
                    if r == "expect_type" && exactly(t, "expect_true", &["object"], &[]) {
                        if let Call(h, a) = get(t, "object")? {
                            // predicates of one type refuse other arguments
                            if h.starts_with("is.") && a.len() != 1 {
                                return None;
                            }
                            if let Some(ty) = h.strip_prefix("is.") {
                                let ty = if ty == "null" { "NULL" } else { ty };
                                o.push(named(r, vec![("object", Some(a[0].1.clone())), ("type", Some(string(ty)))]));
                            }
                        }
                    }
                    if r == "expect_s3_class" && exactly(t, "expect_true", &["object"], &[]) {
                        let i = get(t, "object")?;
                        if exactly(i, "inherits", &["x", "what"], &[]) && text(get(i, "what")?).is_some() {
                            o.push(named(r, vec![("object", x(i)), ("class", get(i, "what").cloned())]));
                        }
                    }
                }
                "expect_not" => {
                    for (f, g) in [("expect_true", "expect_false"), ("expect_false", "expect_true")] {
                        if is(t, f) {
                            if let Call(h, a) = get(t, "object")? {
                                if h == "!" {
                                    o.push(with(g, vec![("object", Some(a[0].1.clone()))]));
                                }
                            }
                        }
                    }
                }
                "expect_null" => {
                    if equal(&both) {
                        o.extend(sides(get(t, "object")?, get(t, "expected")?, |a, b| (word(b) == "NULL").then(|| named(r, vec![("object", Some(a.clone()))]))));
                    }
                    if is(t, "expect_true") && exactly(get(t, "object")?, "is.null", &["x"], &[]) {
                        o.push(with(r, vec![("object", x(get(t, "object")?))]));
                    }
                }
                "expect_true_false" => {
                    if equal(&both) {
                        for (k, f) in [("TRUE", "expect_true"), ("FALSE", "expect_false")] {
                            o.extend(sides(get(t, "object")?, get(t, "expected")?, |a, b| (word(b) == k).then(|| named(f, vec![("object", Some(a.clone()))]))));
                        }
                    }
                }
                "expect_match" | "expect_no_match" => {
                    let f = if r == "expect_match" { "expect_true" } else { "expect_false" };
                    if is(t, f) {
                        let g = get(t, "object")?;
                        if is(g, "grepl") {
                            let Call(_, a) = g else { return None };
                            let v: Vec<(String, T)> = a
                                .iter()
                                .map(|(n, v)| (match n.as_str() { "x" => "object".into(), "pattern" => "regexp".into(), n => n.to_string() }, v.clone()))
                                .chain(keep.iter().filter_map(|(n, v)| v.clone().map(|v| (n.to_string(), v))))
                                .collect();
                            o.extend(matched(r, v));
                        }
                    }
                }
                _ => return None,
            }
        }
        _ => return None,
    }
    Some(out)
}
/// Arguments in the dots are compared whatever their order, unless unnamed.
fn settle(t: &T) -> T {
    match t {
        Call(h, a) => {
            let mut v: Vec<(String, T)> = a.iter().map(|(n, x)| (n.clone(), settle(x))).collect();
            if formals(h).is_some() {
                v.sort_by(|x, y| x.0.cmp(&y.0));
            }
            Call(h.clone(), v)
        }
        t => t.clone(),
    }
}
enum Judged {
    NotJudged,
    Right,
    Wrong(String),
}
fn judge(rule: &str, text: &str, fix: &Fix) -> Judged {
    let before = &text[fix.start..fix.end];
    let Some(b) = term_of(before) else { return Judged::NotJudged };
    // parts that are only written with their context
    let Some(a) = term_of(&fix.content) else {
        return match documented(rule, &b) {
            None => Judged::NotJudged,
            Some(_) => Judged::Wrong(format!("{before:?} becomes {:?}, which R refuses", fix.content)),
        };
    };
    match documented(rule, &b) {
        None => Judged::NotJudged,
        Some(v) if v.iter().any(|x| settle(x) == settle(&a)) => Judged::Right,
        Some(_) if missing_in_call(before) => Judged::NotJudged,
        Some(v) => Judged::Wrong(format!("{before:?} becomes {:?}; {}", fix.content, match v.first() {
            Some(x) => format!("documented: {}", show(x)),
            None => "no rewriting is documented for it".into(),
        })),
    }
}

// ---------------------------------------------------------------- neighbours
/// Every text one edit away: other constants, operators and names of functions,
/// arguments added, named, dropped and reordered.
fn neighbours(text: &str, names: &BTreeMap<String, BTreeSet<String>>) -> Vec<String> {
    let Some(t) = tree(text) else { return vec![] };
    let mut out = vec![];
    let put = |s: usize, e: usize, with: &str, out: &mut Vec<String>| out.push(format!("{}{}{}", &text[..s], with, &text[e..]));
    for n in t.descendants() {
        let r = n.text_trimmed_range();
        let (s, e): (usize, usize) = (r.start().into(), r.end().into());
        let cur = &text[s..e];
        let constant = matches!(
            n.kind(),
            K::R_STRING_VALUE | K::R_INTEGER_VALUE | K::R_DOUBLE_VALUE | K::R_TRUE_EXPRESSION | K::R_FALSE_EXPRESSION | K::R_NULL_EXPRESSION | K::R_NA_EXPRESSION | K::R_NAN_EXPRESSION
        );
        let parent = n.parent().map(|p| p.kind());
        let value = constant || n.kind() == K::R_IDENTIFIER && matches!(parent, Some(K::R_ARGUMENT | K::R_BINARY_EXPRESSION | K::R_UNARY_EXPRESSION | K::R_IF_STATEMENT | K::R_WHILE_STATEMENT));
        if value {
            for w in ["TRUE", "FALSE", "NULL", "NA", "NaN", "x", "y", "1", "1L", "2", "0L", "-1", "'a'", "\"b.c\"", "'a%%'", "\"\\\\1\"", "r\"(d)\"", "\"it's\"", "length", "sum", "f(x)", "!x", "-x", "x == 1"] {
                if w != cur {
                    put(s, e, w, &mut out);
                }
            }
        }
        if n.kind() == K::R_CALL {
            let f = n.children().next().unwrap();
            let fr = f.text_trimmed_range();
            let (fs, fe): (usize, usize) = (fr.start().into(), fr.end().into());
            for g in names.keys() {
                put(fs, fe, g, &mut out);
            }
            let base = text[fs..fe].rsplit("::").next().unwrap().to_string();
            let list = n.children().nth(1).unwrap();
            let lr = list.text_trimmed_range();
            let (ls, le): (usize, usize) = (lr.start().into(), lr.end().into());
            let items: Vec<String> = list
                .descendants()
                .filter(|a| a.kind() == K::R_ARGUMENT && a.parent().and_then(|p| p.parent()).is_some_and(|p| p == list))
                .map(|a| a.text_trimmed().to_string())
                .collect();
            let items: Vec<String> = if items == [""] { vec![] } else { items };
            let join = |v: &[String]| format!("({})", v.join(", "));
            let formal: Vec<&str> = formals(&base).unwrap_or(&[]).iter().copied().filter(|x| *x != "...").collect();
            let mut extra: Vec<String> = ["z", "TRUE", "'a'", "", "1", "zz = z"].iter().map(|s| s.to_string()).collect();
            for p in &formal {
                for v in ["TRUE", "FALSE", "z", "1L"] {
                    extra.push(format!("{p} = {v}"));
                }
            }
            for p in names.get(&base).into_iter().flatten() {
                if !formal.contains(&p.as_str()) {
                    extra.push(format!("{p} = z"));
                }
            }
            for k in 0..=items.len() {
                for x in &extra {
                    let mut v = items.clone();
                    v.insert(k, x.clone());
                    put(ls, le, &join(&v), &mut out);
                }
            }
            for k in 0..items.len() {
                let mut v = items.clone();
                let it = v.remove(k);
                put(ls, le, &join(&v), &mut out);
                for j in 0..items.len() {
                    let mut w = v.clone();
                    w.insert(j, it.clone());
                    put(ls, le, &join(&w), &mut out);
                }
                for p in formal.iter().copied().chain(["zz"]) {
                    let value = match it.split_once(" = ") {
                        Some((_, v)) => v,
                        None => &it,
                    };
                    let mut w = items.clone();
                    w[k] = format!("{p} = {value}");
                    put(ls, le, &join(&w), &mut out);
                    w[k] = value.to_string();
                    put(ls, le, &join(&w), &mut out);
                    // and moved to the front or end
                    let mut w = v.clone();
                    w.insert(0, format!("{p} = {value}"));
                    put(ls, le, &join(&w), &mut out);
                    let mut w = v.clone();
                    w.push(format!("{p} = {value}"));
                    put(ls, le, &join(&w), &mut out);
                }
            }
        }
    }
    for tok in t.descendants_tokens(biome_rowan::Direction::Next) {
        let r = tok.text_trimmed_range();
        let (s, e): (usize, usize) = (r.start().into(), r.end().into());
        let ops = ["==", "!=", "<", ">=", "%in%", "&&", "||", "&", "|", "+", "-", ":", "<-", "->", "=", "|>", "%||%", "*", "!"];
        if ops.contains(&&text[s..e]) {
            for o in ops {
                put(s, e, o, &mut out);
            }
        }
    }
    out
}
/// The arguments of the outermost call, as written: name (or "") and whether there is a value.
fn written(call: &str) -> Vec<(String, bool)> {
    let Some(t) = tree(call) else { return vec![] };
    let Some(list) = t.descendants().find(|n| n.kind() == K::R_ARGUMENT_LIST) else { return vec![] };
    list.children()
        .map(|a| {
            let name = a.children().find(|c| c.kind() == K::R_ARGUMENT_NAME_CLAUSE).map(|c| c.text_trimmed().to_string().trim_end_matches('=').trim().to_string());
            (name.unwrap_or_default(), !a.text_trimmed().is_empty())
        })
        .collect()
}
/// grep(..., value = ) whose unnamed arguments go beyond perl.
fn named_value_then_shifted(call: &str) -> bool {
    let a = written(call);
    let first = a.iter().filter(|(n, _)| ["", "pattern", "x", "ignore.case", "perl"].contains(&n.as_str())).count();
    a.iter().any(|(n, _)| n == "value") && first > 4 && a.iter().any(|(n, _)| n.is_empty())
}
/// Calls with missing arguments, f(, x), which few functions accept.
fn missing_in_call(text: &str) -> bool {
    tree(text).is_some_and(|t| {
        t.descendants().any(|n| {
            n.kind() == K::R_CALL_ARGUMENTS
                && n.children().any(|l| l.children().count() > 1 && l.children().any(|a| a.text_trimmed().is_empty()))
        })
    })
}
fn look(c: &Check, l: &Linter, text: &str) {
    let Ok(ds) = l.lint(text) else { return };
    c.eval(1);
    for d in ds {
        if d.fix.to_skip || d.fix.content.is_empty() {
            continue;
        }
        let rule = d.message.name.clone();
        match mcx::catch(|| judge(&rule, text, &d.fix)) {
            Ok(Judged::Right) => {
                c.nontriv(1);
                c.outcome(&rule, 1);
            }
            Ok(Judged::NotJudged) => c.outcome(&format!("{rule} (not judged)"), 1),
            Ok(Judged::Wrong(w)) => {
                // grep() with `value =` by name and others by position after perl
                let sig = if rule == "grepv" && named_value_then_shifted(&text[d.fix.start..d.fix.end]) { "grepv-named-value" } else { &rule };
                c.violation(sig, w, json!({"text": text}))
            }
            Err(e) => c.violation("oracle", format!("{text:?}: {e}"), json!({"text": text})),
        }
    }
}
fn main() {
    let c = Check::new("A06", "exploration");
    c.rule("every one-line expression of the corpus and every program one edit (thorough: two edits) away from it: another constant, operator or function, arguments added, named, unnamed, dropped or reordered. Every fix proposed is compared with the rewriting that the rule's documentation gives for that expression, as terms with arguments matched to parameters as R does");
    c.assume("functions have the parameters they have in base R and testthat, whatever package prefix they are called with, and arguments are not abbreviated; programs that R refuses have no meaning to keep; calls with missing arguments, f(, x), are not judged");
    let l = Linter::new(&Opts::all().unsafely(), "R");
    // with `=` as the preferred assignment operator
    let eq = Linter::new(&Opts { select: "assignment".into(), ..Opts::all() }.unsafely().equals(), "R");
    if let Some(r) = c.replay() {
        look(&c, &l, r["text"].as_str().unwrap());
        look(&c, &eq, r["text"].as_str().unwrap());
        c.finish();
    }
    let texts: Vec<String> = corpus().into_iter().map(|t| t.text).filter(|t| t.len() < 90 && parses(t)).collect();
    let mut names: BTreeMap<String, BTreeSet<String>> = FORMALS.iter().map(|(n, _)| (n.to_string(), BTreeSet::new())).collect();
    for t in &texts {
        for n in tree(t).unwrap().descendants().filter(|n| n.kind() == K::R_CALL) {
            let f = n.children().next().unwrap().text_trimmed().to_string();
            for a in n.descendants().filter(|a| a.kind() == K::R_ARGUMENT_NAME_CLAUSE) {
                if let Some(e) = names.get_mut(&f) {
                    e.insert(a.text_trimmed().to_string().trim_end_matches('=').trim().to_string());
                }
            }
        }
    }
    let mut seen: HashSet<String> = HashSet::new();
    let mut first: Vec<String> = vec![];
    for t in &texts {
        for x in std::iter::once(t.clone()).chain(neighbours(t, &names)) {
            if seen.insert(x.clone()) {
                first.push(x);
            }
        }
    }
    c.extra("programs", first.len() as u64);
    c.par(first.len() as u64, |i| {
        let t = &first[i as usize];
        look(&c, &l, t);
        if t.contains("<-") || t.contains("->") {
            look(&c, &eq, t);
        }
    });
    if c.thorough() {
        // two edits, where one edit leaves a violation with a fix
        c.par(first.len() as u64, |i| {
            let t = &first[i as usize];
            if t.len() > 60 || !l.lint(t).is_ok_and(|d| d.iter().any(|d| !d.fix.to_skip && !d.fix.content.is_empty())) {
                return;
            }
            for x in neighbours(t, &names) {
                look(&c, &l, &x);
            }
        });
    }
    c.finish()
}
