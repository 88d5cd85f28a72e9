//! R01 R02: R code chunks of R Markdown and Quarto documents.

#[allow(dead_code)]
use jarl_core::rmd::extraction;

use extraction::extract_r_chunks;
use mcx::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// ---------------------------------------------------------------- the model

#[derive(Clone, Copy, PartialEq, Debug)]
enum Open {
    No,
    R(usize),
    /// The documentation does not say: such lines are not judged.
    Unspecified,
}

/// Is `line` the opening line of an R chunk, and with how many backticks?
fn model_open(line: &str) -> Open {
    let c: Vec<char> = line.trim_end_matches(['\n', '\r']).chars().collect();
    let mut i = 0;
    while i < c.len() && (c[i] == ' ' || c[i] == '\t') {
        i += 1;
    }
    let first = i;
    while i < c.len() && c[i] == '`' {
        i += 1;
    }
    let ticks = i - first;
    if ticks < 3 || i >= c.len() || c[i] != '{' {
        return Open::No;
    }
    i += 1;
    // The engine: the first word between the braces.
    let s = i;
    while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
        i += 1;
    }
    if i - s != 1 || (c[s] != 'r' && c[s] != 'R') {
        return Open::No;
    }
    let rest = &c[i..];
    let Some(close) = rest.iter().rposition(|x| *x == '}') else { return Open::No };
    let clean_end = rest[close + 1..].iter().all(|x| *x == ' ' || *x == '\t');
    let clean_engine = matches!(rest[0], '}' | ' ' | '\t' | ',');
    // `{r}}` or `{r} text}`: a brace right after the engine ends the header.
    let early = rest[0] == '}' && close != 0;
    if clean_end && clean_engine && !early { Open::R(ticks) } else { Open::Unspecified }
}

/// The chunks as byte ranges of the code, or None when a line is unspecified.
fn model_chunks(doc: &str) -> Option<Vec<(usize, usize)>> {
    let mut out = vec![];
    let mut at = 0;
    let mut open: Option<(usize, usize)> = None;
    for line in doc.split_inclusive('\n') {
        let end = at + line.len();
        match open {
            Some((ticks, start)) => {
                let t = line.trim();
                if t.len() == ticks && t.bytes().all(|b| b == b'`') {
                    out.push((start, at));
                    open = None;
                }
            }
            None => match model_open(line) {
                Open::R(n) => open = Some((n, end)),
                Open::Unspecified => return None,
                Open::No => {}
            },
        }
        at = end;
    }
    Some(out)
}

// --------------------------------------------------------------- the checks

fn judge(ck: &Check, doc: &str, t: &[AtomicU64; 3]) {
    t[0].fetch_add(1, Relaxed);
    let chunks = match catch(|| extract_r_chunks(doc)) {
        Ok(c) => c,
        Err(p) => return ck.violation("panic", format!("{doc:?}: {p}"), json!({ "document": doc })),
    };
    let got: Vec<(usize, usize)> = chunks.iter().map(|c| (c.start_byte, c.start_byte + c.code.len())).collect();
    if ck.prop == "R01" {
        // The code is the document's own text, in order, without overlap,
        // whole lines, right after one fence line and right before another.
        let mut last = 0;
        for (c, (a, b)) in chunks.iter().zip(&got) {
            let bad = |why: &str| ck.violation("not-a-slice", format!("{doc:?}: chunk {:?} at {a}: {why}", c.code), json!({ "document": doc }));
            if *b > doc.len() || !doc.is_char_boundary(*a) || !doc.is_char_boundary(*b) {
                bad("out of the document");
                continue;
            }
            if doc[*a..*b] != c.code {
                bad("text differs from the document at that place");
            }
            if *a < last {
                bad("overlaps the chunk before");
            }
            if !doc[..*a].ends_with('\n') {
                bad("does not start a line");
            }
            if !c.code.is_empty() && !c.code.ends_with('\n') {
                bad("cut inside a line");
            }
            let before = doc[..*a].trim_end_matches(['\n']).rsplit('\n').next().unwrap_or("");
            let after = doc[*b..].split('\n').next().unwrap_or("");
            if !before.contains("```") || !after.contains("```") {
                bad("not between two fences");
            }
            last = *b;
        }
        if !chunks.is_empty() {
            t[1].fetch_add(1, Relaxed);
        }
        t[2].fetch_add(chunks.len() as u64, Relaxed);
    }
    {
        let Some(want) = model_chunks(doc) else { return };
        if got != want {
            ck.violation("wrong-chunks", format!("{doc:?}: got {got:?}, expected {want:?}"), json!({ "document": doc }));
        }
        if ck.prop == "R01" {
            return;
        }
        if !want.is_empty() {
            t[1].fetch_add(1, Relaxed);
        }
        t[2].fetch_add(want.len() as u64, Relaxed);
    }
}

const LINES: [&str; 25] = [
    "```{r}", "```", "x <- 1", "", "````{r}", "````", "```{r a, echo=FALSE}", "```{R}", "  ```{r}", "\t```{r }",
    "  ```", "``` ", "`````", "```{python}", "```r", "~~~{r}", "```{rust}", "```{Rcpp}", "é🌍 `x`", "any(is.na(x))  ",
    "#| jarl-ignore-chunk:", "``", "```{r, fig.cap=\"a}b\"}", "```{r", "x ```{r}",
];
const TOKENS: [&str; 12] = ["`", "```", "{r}", "{", "r", "}", "\n", " ", "x", "é", "\r\n", "````"];
const FENCE: [&str; 11] = ["`", "{", "r", "}", "R", " ", ",", "a", "_", "\t", "é"];

const LABELS: &[&str] = &["setup", "setup-1", "eval", "python", "r", "R", "Rcpp", "rcpp", "julia", "bash", "sql", "include", "child", "not_r", ".class", "#id", "-", "1", "'a b'", "\"r\"", "é", "漢", "`x`", "a.b", "a/b", "a:b", "FALSE", "!"];
const OPTIONS: &[&str] = &[
    "eval", "echo", "include", "warning", "message", "error", "results", "purl", "child", "code", "cache", "label", "file", "engine", "tidy", "comment", "collapse", "prompt", "highlight", "fig.width",
    "fig.cap", "ref.label", "opts.label", "exercise", "context", "lang", "class.source", "attr.source", "jarl", "lint", "format", "python", "dependson", "autodep", "render", "animation.hook", "cap", "if", "when", "skip",
];
const VALUES: &[&str] = &["TRUE", "FALSE", "T", "F", "true", "false", "NULL", "NA", "0", "1:2", "-1", "'hide'", "\"asis\"", "''", "'r'", "'python'", "c(1, 2)", "!x", "x == 1", "knitr::is_html_output()", "'a.Rmd'", "\"{x}\"", "'é'", "x"];

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let ck = Check::new(&prop, "exploration");
    let t = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
    if let Some(c) = ck.replay() {
        judge(&ck, c["document"].as_str().unwrap(), &t);
        ck.finish();
    }
    // 1. Documents made of every sequence of line kinds.
    let w = Words::new(LINES.len(), ck.pick(4, 5));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        let mut doc = String::new();
        for style in 0..ck.pick(4, 4) {
            doc.clear();
            for (k, l) in ix.iter().enumerate() {
                doc.push_str(LINES[*l]);
                let last = k + 1 == ix.len();
                match style {
                    0 => doc.push('\n'),
                    1 if !last => doc.push('\n'),
                    2 => doc.push_str("\r\n"),
                    3 => doc.push_str(if k % 2 == 0 { "\r\n" } else { "\n" }),
                    _ => {}
                }
            }
            judge(&ck, &doc, &t);
        }
    });
    // 2. Every string over fence fragments.
    let w = Words::new(TOKENS.len(), ck.pick(6, 7));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        let doc: String = ix.iter().map(|k| TOKENS[*k]).collect();
        judge(&ck, &doc, &t);
    });
    // 3. Every opening line over the fence letters, with a body and a closing line.
    let w = Words::new(FENCE.len(), ck.pick(5, 6));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        let head: String = ix.iter().map(|k| FENCE[*k]).collect();
        for (pre, fence) in [("```", "```"), ("  ```{r", "```"), ("````{", "````")] {
            judge(&ck, &format!("{pre}{head}\ncode()\n{fence}\n"), &t);
        }
    });
    // Every label and option that means something somewhere, alone and in pairs.
    let mut words: Vec<String> = LABELS.iter().map(|l| l.to_string()).collect();
    for name in OPTIONS {
        for value in VALUES {
            words.extend([format!("{name}={value}"), format!("{name} = {value}")]);
        }
    }
    ck.par(words.len() as u64, |i| {
        let x = &words[i as usize];
        let wrap = |head: &str| judge(&ck, &format!("```{{r{head}}}\ncode()\n```\n\n```{{R}}\nmore()\n```\n"), &t);
        for pre in [" ", ", ", ",", "  ", "\t", " ,", " a, ", " a,", ", a, ", " a "] {
            for post in ["", " ", ", a", ",", "\t"] {
                wrap(&format!("{pre}{x}{post}"));
            }
        }
        let step = ck.pick(7, 1);
        for y in words.iter().skip(i as usize % step).step_by(step) {
            wrap(&format!(", {x}, {y}"));
            wrap(&format!(" {x} {y}"));
        }
    });
    // 4. Every pair of opening and closing fence lengths and indents.
    let indents = ["", " ", "   ", "\t", "      "];
    for a in 1..12usize {
        for b in 1..12usize {
            for ia in indents {
                for ib in indents {
                    for tail in ["", " ", "\r", "\t"] {
                        for body in ["", "x\n", "```\n", "  ````\n", "`\n"] {
                            judge(&ck, &format!("t\n{ia}{}{{r}}{tail}\n{body}{ib}{}{tail}\nafter\n", "`".repeat(a), "`".repeat(b)), &t);
                        }
                    }
                }
            }
        }
    }
    // 5. Large: many chunks, a long chunk, long lines.
    let many: String = (0..3000).map(|i| format!("text {i} é\n```{{r c{i}}}\nx{i} <- {i} # 漢\n```\n")).collect();
    let long = format!("```{{r}}\n{}```\n", "x <- \"🌍\"\n".repeat(70_000));
    let wide = format!("```{{r, cap=\"{}\"}}\n{}\n```\n", "é".repeat(70_000), "y".repeat(70_000));
    for d in [many, long, wide] {
        judge(&ck, &d, &t);
    }
    ck.eval(t[0].load(Relaxed));
    ck.nontriv(t[1].load(Relaxed));
    ck.extra("chunks_seen", t[2].load(Relaxed));
    ck.rule("every sequence of line kinds, every string of fence fragments and every opening line up to the bound, every option of forty with every value of 24 in every position, and pairs of them (quick: every seventh); non-trivial = the document has at least one R chunk");
    ck.sample(json!("```{r}\r\nx <- 1\r\n```\r\n"));
    ck.sample(json!("````{r}\n```\nx <- 1\n````"));
    ck.finish()
}
