//! K01: the minimum R version a package declares in DESCRIPTION.

#[allow(dead_code)]
use jarl_core::description;

use description::Description;
use mcx::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// What one dependency says about the R version.
#[derive(PartialEq, Debug)]
enum Dep {
    Other,
    Version(String),
    /// R without a lower bound.
    NoBound,
    Malformed,
}

fn model_dep(dep: &str) -> Dep {
    let d: Vec<char> = dep.trim().chars().collect();
    if d.first() != Some(&'R') {
        return Dep::Other;
    }
    let mut i = 1;
    if d.get(1).is_some_and(|c| c.is_alphanumeric() || *c == '.') {
        return Dep::Other; // Rcpp, R6, R.utils ...
    }
    let blanks = |i: &mut usize| {
        while d.get(*i).is_some_and(|c| *c == ' ' || *c == '\t' || *c == '\n') {
            *i += 1
        }
    };
    blanks(&mut i);
    if i == d.len() {
        return Dep::NoBound;
    }
    if d[i] != '(' {
        return Dep::Malformed;
    }
    i += 1;
    blanks(&mut i);
    let op: String = d[i..].iter().take_while(|c| "<>=!".contains(**c)).collect();
    i += op.len();
    blanks(&mut i);
    let v: String = d[i..].iter().take_while(|c| c.is_ascii_digit() || **c == '.' || **c == '-').collect();
    i += v.len();
    blanks(&mut i);
    if i + 1 != d.len() || d[i] != ')' {
        return Dep::Malformed;
    }
    if v.is_empty() {
        // `R (>= )`: no version, no bound.
        return if ["", ">=", ">", "==", "<=", "<", "!="].contains(&op.as_str()) { Dep::NoBound } else { Dep::Malformed };
    }
    match op.as_str() {
        ">=" | ">" | "==" => Dep::Version(v),
        "<=" | "<" | "!=" => Dep::NoBound,
        _ => Dep::Malformed,
    }
}

/// The versions, or None when the file is malformed (then any answer will do).
fn model(text: &str) -> Option<Vec<String>> {
    let mut field: Option<(String, String)> = None;
    let mut depends: Option<String> = None;
    let mut close = |f: &mut Option<(String, String)>| -> bool {
        if let Some((k, v)) = f.take()
            && k == "Depends"
        {
            if depends.is_some() {
                return false; // declared twice
            }
            depends = Some(v);
        }
        true
    };
    let mut blank_seen = false;
    let mut any = false;
    for line in text.lines() {
        if line.trim().is_empty() {
            if !line.is_empty() || (any && !line.is_empty()) {
                return None;
            }
            blank_seen = any;
            continue;
        }
        if line.starts_with([' ', '\t']) {
            if blank_seen {
                return None;
            }
            match &mut field {
                Some((_, v)) => {
                    v.push(' ');
                    v.push_str(line.trim());
                }
                None => return None,
            }
            continue;
        }
        let (k, v) = line.split_once(':')?;
        if k.ends_with(' ') || k.is_empty() || k.contains(' ') || k.starts_with(char::is_whitespace) {
            return None;
        }
        if !close(&mut field) {
            return None;
        }
        field = Some((k.to_string(), v.trim().to_string()));
        blank_seen = false;
        any = true;
    }
    if !close(&mut field) {
        return None;
    }
    let mut out = vec![];
    for d in depends.unwrap_or_default().split(',') {
        match model_dep(d) {
            Dep::Version(v) => out.push(v),
            Dep::Malformed => return None,
            _ => {}
        }
    }
    Some(out)
}

struct T {
    n: AtomicU64,
    with: AtomicU64,
    malformed: AtomicU64,
}

fn judge(ck: &Check, text: &str, t: &T) {
    t.n.fetch_add(1, Relaxed);
    let want = model(text);
    match catch(|| Description::get_depend_r_version(text)) {
        Err(p) => ck.violation("panic", format!("{text:?}: {p}"), json!({ "description": text })),
        Ok(got) => match want {
            None => {
                t.malformed.fetch_add(1, Relaxed);
            }
            Some(w) => {
                if !w.is_empty() {
                    t.with.fetch_add(1, Relaxed);
                }
                if got.as_ref().ok() != Some(&w) {
                    ck.violation("version", format!("{text:?}: got {got:?}, expected {w:?}"), json!({ "description": text }));
                }
            }
        },
    }
}

const LINES: [&str; 27] = [
    "Package: p", "Depends: R (>= 4.3.0)", "Depends: R (>= 4.1), dplyr", "Depends:", "    R (>= 3.6.2),", "  dplyr,",
    "\tR(>=4.0)", "Imports: R (>= 9.9.9)", "Depends: dplyr", "Depends: R", "    (>= 1.0)",
    "Description: foo: bar R (>= 8.8)", "", "Suggests: x,", "depends: R (>= 7.0)", "DependsX: R (>= 7.1)",
    "a line without colon", "Authors@R: person(\"é\")", "Depends: RSQLite (>= 2.0), R6 (>= 2.1)",
    "LinkingTo: Rcpp (>= 1.0)", "Depends: R (<= 5.0)", "Depends: methods,R(>= 4.2.0),utils", "Depends:R (>= 4.10.12)",
    "  https://x.y: Depends: R (>= 6.6)", "   ", "Depends: R.utils (>= 9.1), R ( > 4.0 )", "Version: 1.0",
];
const TOK: [&str; 14] = ["R", " ", "(", ")", ">=", "4.3", ".0", ",", "dplyr", "<=", "\n ", "6", "\r\n\t", "é"];

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let ck = Check::new(&prop, "exploration");
    let t = T { n: AtomicU64::new(0), with: AtomicU64::new(0), malformed: AtomicU64::new(0) };
    if let Some(c) = ck.replay() {
        judge(&ck, c["description"].as_str().unwrap(), &t);
        ck.finish();
    }
    let w = Words::new(LINES.len(), ck.pick(4, 5));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        for (style, eol) in [("\n", true), ("\r\n", true), ("\n", false)] {
            let mut s: String = ix.iter().map(|k| format!("{}{}", LINES[*k], style)).collect();
            if !eol {
                s.pop();
            }
            judge(&ck, &s, &t);
        }
    });
    let w = Words::new(TOK.len(), ck.pick(6, 7));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        let s: String = ix.iter().map(|k| TOK[*k]).collect();
        judge(&ck, &format!("Package: p\nDepends: {s}\nImports: R (>= 1.1)\n"), &t);
    });
    // Every operator x spacing x version x place in the list.
    for op in [">=", ">", "==", "<=", "<", "!=", "", "=>"] {
        for v in ["4", "4.3", "4.3.0", "4.3.10", "0.0.1", "10.20.30", "4.3-1", "x"] {
            for (a, b, c) in [("R (", " ", ")"), ("R(", "", ")"), ("R  ( ", "  ", " )"), ("R\t(", "\t", ")"), ("R\n    (", "\n    ", ")")] {
                for (pre, post) in [("", ""), ("dplyr, ", ""), ("", ", dplyr"), ("RSQLite (>= 2.0),\n  ", ",\n  Rcpp"), ("", ",")] {
                    for tail in ["", "Imports: R (>= 9.9)\n", "Description: a, R (>= 9.9)\n   Depends: R (>= 9.8)\n"] {
                        judge(&ck, &format!("Package: x\nDepends: {pre}{a}{op}{b}{v}{c}{post}\n{tail}"), &t);
                        judge(&ck, &format!("{tail}Depends:\n    {pre}{a}{op}{b}{v}{c}{post}\n"), &t);
                    }
                }
            }
        }
    }
    let long: String = (0..5000).map(|i| format!("Field{i}: value {i}\n   more: R (>= 1.{i})\n")).collect();
    judge(&ck, &format!("{long}Depends: {} R (>= 4.4.4)\n{}", "pkg,".repeat(5000), long.replace("Field", "Other")), &t);
    ck.eval(t.n.load(Relaxed));
    ck.nontriv(t.with.load(Relaxed));
    ck.extra("malformed_files_survived", t.malformed.load(Relaxed));
    ck.rule("every sequence of DESCRIPTION lines, every Depends value over the fragments, every operator x spacing x position; non-trivial = a lower bound on R is declared");
    ck.sample(json!("Package: p\nDepends: methods,R(>= 4.2.0),utils\n"));
    ck.finish()
}
