//! What is reported: L01 where, L02 wherever the code stands, L03 always an answer, L04 however it is laid out; U03 as the published table says.
use air_r_syntax::RSyntaxKind;
use checks2::progs::*;
use checks2::*;
use jarl_core::diagnostic::Diagnostic;
use jarl_core::rule_set::{Category, FixStatus, Rule};
use mcx::{json, Check};
use std::collections::{BTreeMap, BTreeSet};

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    match prop.as_str() {
        "L01" => l01(),
        "L02" => l02(),
        "L03" => l03(),
        "L04" => l04(),
        "U03" => u03(),
        _ => {
            eprintln!("lints L01..L04 U03");
            std::process::exit(2)
        }
    }
}
fn contexts() -> Vec<&'static str> {
    TIGHT.iter().chain(LOOSE).copied().collect()
}
fn short(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

// ---------------------------------------------------------------- L01
/// Starts and ends of tokens and comments.
fn borders(text: &str) -> Option<(BTreeSet<usize>, BTreeSet<usize>)> {
    let t = tree(text)?;
    let (mut s, mut e) = (BTreeSet::new(), BTreeSet::new());
    for tok in t.descendants_tokens(biome_rowan::Direction::Next) {
        let r = tok.text_trimmed_range();
        s.insert(r.start().into());
        e.insert(r.end().into());
        for p in tok.leading_trivia().pieces().chain(tok.trailing_trivia().pieces()) {
            if p.is_comments() {
                s.insert(p.text_range().start().into());
                e.insert(p.text_range().end().into());
            }
        }
    }
    Some((s, e))
}
fn place(text: &str, start: usize, d: &Diagnostic) -> Result<(), String> {
    let before = &text[..start];
    let row = before.matches('\n').count() + 1;
    let line = &before[before.rfind('\n').map_or(0, |i| i + 1)..];
    let got = d.location.as_ref().map(|l| (l.row(), l.column()));
    // columns count from zero; the documentation calls them characters, the output bytes
    if got != Some((row, line.len())) && got != Some((row, line.chars().count())) {
        return Err(format!("reported at {got:?} but it is at line {row}, column {}", line.len()));
    }
    Ok(())
}
fn l01_judge(l: &Linter, text: &str) -> Result<u64, (String, String)> {
    let Ok(ds) = l.lint(text) else { return Ok(0) };
    let (starts, ends) = borders(text).unwrap_or_default();
    for d in &ds {
        let (s, e) = (usize::from(d.range.start()), usize::from(d.range.end()));
        let rule = &d.message.name;
        let bad = |w: String| Err((rule.clone(), format!("{rule} in {text:?} ({s}..{e}): {w}")));
        if s >= e || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
            return bad("is no range of the text".into());
        }
        if !starts.contains(&s) || !ends.contains(&e) {
            return bad(format!("{:?} is not a piece of code", &text[s..e]));
        }
        if let Err(w) = place(text, s, d) {
            let signature = if text.starts_with('\n') && before_is_line_two(text, s) { "leading-newline-column" } else { rule };
            return Err((signature.to_string(), format!("{rule} in {text:?} ({s}..{e}): {w}")));
        }
    }
    Ok(ds.len() as u64)
}
fn before_is_line_two(text: &str, s: usize) -> bool {
    text[..s].matches('\n').count() == 1
}
fn l01() {
    let c = Check::new("L01", "exploration");
    c.rule("every expression of the corpus in every surrounding, preceded by every short combination of blank lines, comments, non-ASCII text and CRLF; line and column of each diagnostic are counted anew and its range must be a piece of code; documents with chunks likewise, with positions in the document");
    c.assume("columns of lines with non-ASCII text may count bytes or characters");
    let l = Linter::new(&Opts::all(), "R");
    let m = Linter::new(&Opts::all(), "Rmd");
    if let Some(r) = c.replay() {
        let t = r["text"].as_str().unwrap();
        let res = if r["rmd"].as_bool() == Some(true) { rmd_judge(&m, &l, &serde_json::from_value::<Vec<String>>(r["chunks"].clone()).unwrap(), r["style"].as_u64().unwrap() as usize) } else { l01_judge(&l, t) };
        if let Err((s, e)) = res {
            c.violation(&s, e, r.clone());
        }
        c.finish();
    }
    let templates = corpus();
    let ctxs = contexts();
    c.par((templates.len() * ctxs.len()) as u64, |i| {
        let t = &templates[i as usize / ctxs.len()];
        let Some((full, _, _)) = stands(ctxs[i as usize % ctxs.len()], &t.text) else { return };
        c.eval(1);
        match l01_judge(&l, &full) {
            Ok(n) => c.nontriv((n > 0) as u64),
            Err((s, e)) => c.violation(&s, e, json!({"text": full})),
        }
    });
    let pieces = ["\n", "a\n", "# c\n", "\u{e9} <- '\u{1F600}'\n", "  ", "\n\n", "'x\ny'\n"];
    let w = mcx::Words::new(pieces.len(), c.pick(3, 4));
    c.par(w.count() * templates.len() as u64, |i| {
        let t = &templates[(i % templates.len() as u64) as usize];
        let mut v = vec![];
        w.get(i / templates.len() as u64, &mut v);
        let prefix: String = v.iter().map(|k| pieces[*k]).collect();
        for tail in ["", "\n", "\nb\n# end"] {
            let full = format!("{prefix}{}{tail}", t.text);
            if !parses(&full) {
                continue;
            }
            c.eval(1);
            match l01_judge(&l, &full) {
                Ok(n) => c.nontriv((n > 0) as u64),
                Err((s, e)) => c.violation(&s, e, json!({"text": full})),
            }
        }
    });
    // documents with chunks
    let seeds: Vec<&Template> = templates.iter().filter(|t| l.lint(&t.text).is_ok_and(|d| !d.is_empty()) && !t.text.contains("jarl-") && !t.text.contains("```")).collect();
    c.par(seeds.len() as u64 * 6, |i| {
        let t = &seeds[i as usize / 6];
        let style = i as usize % 6;
        for u in seeds.iter().step_by(c.pick(97, 5)) {
            let chunks = vec![t.text.clone(), u.text.clone()];
            c.eval(1);
            match rmd_judge(&m, &l, &chunks, style) {
                Ok(n) => c.nontriv((n > 0) as u64),
                Err((s, e)) => c.violation(&s, e, json!({"text": "", "rmd": true, "chunks": chunks, "style": style})),
            }
        }
    });
    c.finish()
}
/// A document of two chunks and the byte offset of each chunk's code.
fn document(chunks: &[String], style: usize) -> (String, Vec<usize>) {
    let mut doc = String::new();
    let mut at = vec![];
    if style & 1 != 0 {
        doc.push_str("---\ntitle: \u{e9}\u{1F600}\n---\n\ntext `r x`\n");
    }
    for (k, c) in chunks.iter().enumerate() {
        doc.push_str(match style / 2 {
            0 => "```{r}\n",
            1 => "````{r label, echo = FALSE}\n#| eval: true\n",
            _ => "\n\u{e9}t\u{e9}\n\n```{R}\n\n",
        });
        at.push(doc.len());
        doc.push_str(c);
        doc.push_str(if style / 2 == 1 { "\n````\n" } else { "\n```\n" });
        if k == 0 {
            doc.push_str("between\n\n");
        }
    }
    (doc, at)
}
fn rmd_judge(m: &Linter, l: &Linter, chunks: &[String], style: usize) -> Result<u64, (String, String)> {
    let (doc, at) = document(chunks, style);
    let Ok(ds) = m.lint(&doc) else { return Err(("rmd".into(), format!("no result for {doc:?}"))) };
    let mut want: Vec<(String, usize, usize)> = vec![];
    for (c, a) in chunks.iter().zip(&at) {
        for d in l.lint(c).map_err(|e| ("rmd".to_string(), e))? {
            want.push((d.message.name.clone(), a + usize::from(d.range.start()), a + usize::from(d.range.end())));
        }
    }
    let mut got: Vec<(String, usize, usize)> = ds.iter().map(|d| (d.message.name.clone(), d.range.start().into(), d.range.end().into())).collect();
    want.sort();
    got.sort();
    if want != got {
        return Err(("rmd".into(), format!("{doc:?}: reported {got:?}, but the chunks alone have {want:?}")));
    }
    for d in &ds {
        let (s, e) = (usize::from(d.range.start()), usize::from(d.range.end()));
        if let Err(w) = place(&doc, s, d) {
            return Err(("rmd".into(), format!("{} in {doc:?} ({s}..{e}): {w}", d.message.name)));
        }
        if !placeholder(d) {
            return Err(("rmd-fix".into(), format!("{} in {doc:?} has a fix", d.message.name)));
        }
    }
    Ok(ds.len() as u64)
}
fn placeholder(d: &Diagnostic) -> bool {
    d.fix.content.is_empty() && d.fix.start == d.fix.end
}

// ---------------------------------------------------------------- L02
/// Rules whose documentation makes them depend on the code around.
fn by_surroundings(rule: &str, ctx: &str) -> bool {
    // without white space and comments
    let c: String = ctx.lines().map(|l| l.split('#').next().unwrap().replace([' ', '\t', '\r'], "")).collect();
    let condition = c.contains("if(@") || c.contains("while(@");
    match rule {
        // what can run; where an assignment stands; nested loops; conditions
        "unreachable_code" | "implicit_assignment" | "for_loop_dup_index" | "if_always_true" | "vector_logic" => true,
        // a negated or condition position is what these rules are about
        "all_equal" => condition || ["!@", "+@", "-@", "?@", "~@"].iter().any(|u| c.contains(u)),
        "class_equals" => condition,
        "outer_negation" | "expect_match" | "expect_no_match" => c.contains("!@"),
        // the assignment that is rewritten is the one around
        "assignment" => c.contains("@->a") || c.contains("@->>a"),
        _ => false,
    }
}
type Seen = BTreeSet<(String, usize, usize, String)>;
fn bare(fix: &str) -> String {
    shape_plain(fix, true).unwrap_or_else(|| fix.to_string())
}
fn inside(ds: &[Diagnostic], a: usize, b: usize, ctx: &str) -> Seen {
    ds.iter()
        .filter(|d| usize::from(d.range.start()) >= a && usize::from(d.range.end()) <= b)
        .filter(|d| !by_surroundings(&d.message.name, ctx))
        .map(|d| (d.message.name.clone(), usize::from(d.range.start()) - a, usize::from(d.range.end()) - a, if placeholder(d) { String::new() } else { bare(&d.fix.content) }))
        .collect()
}
fn l02_judge(l: &Linter, t: &str, ctx: &str) -> Result<u64, (String, String)> {
    let Some((full, a, b)) = stands(ctx, t) else { return Ok(0) };
    let Ok(alone) = l.lint(t) else { return Ok(0) };
    let Ok(there) = l.lint(&full) else { return Ok(0) };
    let want = inside(&alone, 0, t.len(), ctx);
    let got = inside(&there, a, b, ctx);
    if let Some(x) = want.difference(&got).next().or_else(|| got.difference(&want).next()) {
        let brief = |s: &Seen| s.iter().map(|x| (x.0.clone(), x.1, x.2)).collect::<Vec<_>>();
        return Err((x.0.clone(), format!("{t:?} alone has {:?}, in {full:?} it has {:?} (or another fix)", brief(&want), brief(&got))));
    }
    Ok(1 + want.len() as u64)
}
fn l02() {
    let c = Check::new("L02", "exploration");
    c.rule("every expression of the corpus alone and in every surrounding (thorough: in every pair of surroundings); what is reported about it, and the fix up to parentheses, must be the same");
    c.assume("excluded where their documentation makes them depend on the surroundings: unreachable_code, implicit_assignment, for_loop_dup_index, if_always_true, vector_logic, and negated or condition positions of all_equal, class_equals, outer_negation, expect_(no_)match");
    let l = Linter::new(&Opts::all().unsafely(), "R");
    if let Some(r) = c.replay() {
        if let Err((s, e)) = l02_judge(&l, r["text"].as_str().unwrap(), r["context"].as_str().unwrap()) {
            c.violation(&s, e, r.clone());
        }
        c.finish();
    }
    let templates: Vec<Template> = corpus().into_iter().filter(|t| !t.text.contains("jarl-")).collect();
    let mut ctxs: Vec<String> = contexts().iter().map(|s| s.to_string()).collect();
    // nested surroundings: `@` of the outer one replaced by the inner one
    let loose: Vec<&str> = LOOSE.iter().copied().filter(|x| !x.contains('#') && !x.contains('\u{e9}') && !x.starts_with(['\n', 'a']) && !x.starts_with('@')).collect();
    for o in &loose {
        for i in if c.thorough() { contexts() } else { vec!["f(@)", "@ + b", "{\n  a\n  @\n}", "if (a) @ else b", "a <- @", "a[[@]]$b", "(@)", "function(a) @"] } {
            ctxs.push(o.replacen('@', &i.replacen('@', "\u{1}", 1), 1).replacen('\u{1}', "@", 1));
        }
    }
    let n = templates.len() * ctxs.len();
    c.extra("surroundings", ctxs.len() as u64);
    c.par(n as u64, |i| {
        let t = &templates[i as usize / ctxs.len()];
        let k = i as usize % ctxs.len();
        let ctx = &ctxs[k];
        c.eval(1);
        match l02_judge(&l, &t.text, ctx) {
            Ok(n) => c.nontriv((n > 1) as u64),
            Err((s, e)) => c.violation(&s, short(&e, 500), json!({"text": t.text, "context": ctx})),
        }
    });
    c.finish()
}

// ---------------------------------------------------------------- L03
fn l03_judge(l: &Linter, m: &Linter, text: &str) -> Result<(), String> {
    let p = parses(text);
    match l.lint(text) {
        Ok(_) if !p => return Err(format!("{text:?} has a syntax error, but is linted")),
        Err(e) if p => return Err(format!("{text:?}: {e}")),
        Err(e) if e.starts_with("panic") => return Err(format!("{text:?}: {e}")),
        _ => {}
    }
    if !text.contains("```") {
        if let Err(e) = m.lint(&format!("```{{r}}\n{text}\n```\n")) {
            return Err(format!("{text:?} as a chunk: {e}"));
        }
    }
    Ok(())
}
/// length_test gives up on `length(name =)`. Its source file looks like a test
/// to the rules of this task and is left alone: a known finding.
fn l03_signature(sig: &str, text: &str, e: &str) -> String {
    let known = e.contains("Found named argument without any value")
        && tree(&text.replace("```{r}", "").replace("```", "")).is_some_and(|t| {
            t.descendants().filter(|n| n.kind() == RSyntaxKind::R_CALL).any(|n| {
                let kids: Vec<_> = n.children().collect();
                let f = kids[0].text_trimmed().to_string();
                let a = kids[1].descendants().find(|a| a.kind() == RSyntaxKind::R_ARGUMENT);
                f.rsplit("::").next() == Some("length") && a.is_some_and(|a| { let t = a.text_trimmed().to_string(); t.is_empty() || t.ends_with('=') })
            })
        });
    if known { "length-missing-value".into() } else { sig.into() }
}
fn l03() {
    let c = Check::new("L03", "exploration");
    c.rule("every called function of the corpus with every argument list up to the bound (missing, empty, named, unnamed arguments, dots, constants, names the rules look for); every expression in every surrounding; every truncation of every corpus expression; all rules on. Linting must return a result without panicking, and fail only for code that cannot be parsed");
    let l = Linter::new(&Opts::all().unsafely(), "R");
    let m = Linter::new(&Opts::all().unsafely(), "Rmd");
    if let Some(r) = c.replay() {
        if let Err(e) = l03_judge(&l, &m, r["text"].as_str().unwrap()) {
            c.violation(&l03_signature("failed", r["text"].as_str().unwrap(), &e), e, r.clone());
        }
        c.finish();
    }
    let templates = corpus();
    let ctxs = contexts();
    c.par((templates.len() * ctxs.len()) as u64, |i| {
        let t = &templates[i as usize / ctxs.len()];
        let (full, _, _) = plug(ctxs[i as usize % ctxs.len()], &t.text);
        c.eval(1);
        if let Err(e) = l03_judge(&l, &m, &full) {
            c.violation(&l03_signature(&format!("surrounded {}", t.rule), &full, &e), short(&e, 500), json!({"text": full}));
        }
    });
    c.par(templates.len() as u64, |i| {
        let t = &templates[i as usize].text;
        for k in (0..t.len()).filter(|k| t.is_char_boundary(*k)) {
            for x in [&t[..k], &t[k..]] {
                c.eval(1);
                if let Err(e) = l03_judge(&l, &m, x) {
                    c.violation(&l03_signature(&format!("cut {}", templates[i as usize].rule), x, &e), short(&e, 500), json!({"text": x}));
                }
            }
        }
    });
    // argument lists
    let mut names: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    // (context text with the arguments cut out, function name)
    let mut holes: BTreeSet<(String, String, String)> = BTreeSet::new();
    for t in &templates {
        let Some(tr) = tree(&t.text) else { continue };
        for n in tr.descendants().filter(|n| n.kind() == RSyntaxKind::R_CALL) {
            let kids: Vec<_> = n.children().collect();
            let f = kids[0].text_trimmed().to_string();
            let args = &kids[1];
            for a in args.descendants().filter(|a| a.kind() == RSyntaxKind::R_ARGUMENT_NAME_CLAUSE) {
                let nm = a.text_trimmed().to_string();
                let nm = nm.split('=').next().unwrap().trim().to_string();
                if a.parent().and_then(|x| x.parent()).and_then(|x| x.parent()).is_some_and(|x| x == *args) {
                    names.entry(f.clone()).or_default().insert(nm);
                }
            }
            let r = args.text_trimmed_range();
            let (s, e) = (usize::from(r.start()), usize::from(r.end()));
            if t.text.contains('\n') || t.text.len() > 80 {
                continue;
            }
            holes.insert((t.text[..s].to_string(), t.text[e..].to_string(), f));
        }
    }
    let holes: Vec<_> = holes.into_iter().collect();
    c.extra("calls", holes.len() as u64);
    let depth = c.pick(2, 3);
    c.par(holes.len() as u64, |i| {
        let (a, b, f) = &holes[i as usize];
        let mut elems: Vec<String> = ["x", "", "...", "\"s\"", "1", "-1L", "NULL", "TRUE", "f(x)", "function(y) y", "zz = x", "zz =", "!x", "is.na(x)", "..1", "`x y` = x", "\"zz\" = x"].iter().map(|s| s.to_string()).collect();
        for n in names.get(f).into_iter().flatten() {
            for v in ["x", "\"s\"", "TRUE", "length", ""] {
                elems.push(format!("{n} = {v}"));
            }
        }
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        let mut k = 0;
        while k < lists.len() {
            let l0 = lists[k].clone();
            k += 1;
            if l0.len() < depth {
                for e in 0..elems.len() {
                    let mut v = l0.clone();
                    v.push(e);
                    lists.push(v);
                }
            }
        }
        for li in &lists {
            let inner: Vec<&str> = li.iter().map(|e| elems[*e].as_str()).collect();
            let text = format!("{a}({}){b}", inner.join(", "));
            c.eval(1);
            c.nontriv(1);
            if let Err(e) = l03_judge(&l, &m, &text) {
                c.violation(&l03_signature(&format!("arguments {f}"), &text, &e), short(&e, 500), json!({"text": text}));
                if !c.thorough() {
                    break;
                }
            }
        }
    });
    // operands
    c.par(templates.len() as u64, |i| {
        let t = &templates[i as usize].text;
        for v in operand_names(t) {
            for e in OPERANDS {
                let Some(te) = substitute(t, &v, e) else { continue };
                c.eval(1);
                if let Err(e) = l03_judge(&l, &m, &te) {
                    c.violation(&format!("operands {}", templates[i as usize].rule), short(&e, 500), json!({"text": te}));
                }
            }
        }
    });
    c.finish()
}

// ---------------------------------------------------------------- L04
const GAPS: &[&str] = &["", " ", "   ", "\t", "\n", "\n\n  ", "\r\n", " # c\n", "# \"c' (\n\t"];
/// The ranges of the tokens.
fn tokens(text: &str) -> Option<Vec<(usize, usize)>> {
    let mut v: Vec<(usize, usize)> = tree(text)?
        .descendants_tokens(biome_rowan::Direction::Next)
        .map(|t| t.text_trimmed_range())
        .map(|r| (r.start().into(), r.end().into()))
        .filter(|r: &(usize, usize)| r.0 < r.1)
        .collect();
    v.sort();
    Some(v)
}
/// The tree without parentheses: whether a fix needs them can depend on line breaks.
fn bare_shape(text: &str) -> Option<String> {
    fn walk(n: &air_r_syntax::RSyntaxNode, out: &mut String) {
        if n.kind() == RSyntaxKind::R_PARENTHESIZED_EXPRESSION {
            return n.children().for_each(|c| walk(&c, out));
        }
        out.push_str(&format!("({:?}", n.kind()));
        for e in n.children_with_tokens() {
            match e {
                biome_rowan::SyntaxElement::Node(c) => walk(&c, out),
                biome_rowan::SyntaxElement::Token(t) => {
                    out.push(' ');
                    out.push_str(t.text_trimmed());
                }
            }
        }
        out.push(')');
    }
    tree(text).map(|t| {
        let mut s = String::new();
        walk(&t, &mut s);
        s
    })
}
/// What is reported, by tokens, and what the fix makes of it.
type Reported = BTreeSet<(String, usize, usize, Option<String>)>;
fn reported(l: &Linter, text: &str, toks: &[(usize, usize)], fixes: bool) -> Result<Reported, String> {
    let mut out = BTreeSet::new();
    for d in l.lint(text)? {
        let (a, b): (usize, usize) = (d.range.start().into(), d.range.end().into());
        let (Some(i), Some(j)) = (toks.iter().position(|t| t.0 == a), toks.iter().position(|t| t.1 == b)) else {
            return Err(format!("{} is reported at {a}..{b}, which are not the ends of tokens", d.message.name));
        };
        let fix = (fixes && !d.fix.content.is_empty()).then(|| format!("{}{}{}", &text[..d.fix.start], d.fix.content, &text[d.fix.end..])).map(|t| bare_shape(&t).unwrap_or(t));
        out.insert((d.message.name.clone(), i, j, fix));
    }
    Ok(out)
}
fn l04_judge(l: &Linter, text: &str, gaps: &[Option<usize>]) -> Result<u64, (String, String)> {
    let toks = tokens(text).unwrap();
    let mut new = text[..toks[0].0].to_string();
    let mut at = vec![];
    for (i, t) in toks.iter().enumerate() {
        let a = new.len();
        new.push_str(&text[t.0..t.1]);
        at.push((a, new.len()));
        if i + 1 < toks.len() {
            new.push_str(match gaps[i] {
                Some(g) => GAPS[g],
                None => &text[t.1..toks[i + 1].0],
            });
        }
    }
    new.push_str(&text[toks[toks.len() - 1].1..]);
    // the same program, in the same tokens
    if new == text || shape(&new) != shape(text) || tokens(&new).as_ref() != Some(&at) {
        return Ok(0);
    }
    let fixes = !gaps.iter().flatten().any(|g| GAPS[*g].contains('#')) && !text.contains('#');
    let bad = |s: String| (String::new(), format!("{text:?} written as {new:?}: {s}"));
    let (a, b) = (reported(l, text, &toks, fixes).map_err(&bad)?, reported(l, &new, &at, fixes).map_err(&bad)?);
    if a != b {
        let d = a.symmetric_difference(&b).next().unwrap();
        return Err((d.0.clone(), bad(format!("{} of tokens {} to {} {}", d.0, d.1, d.2, if a.iter().any(|x| b.iter().any(|y| (&x.0, x.1, x.2) == (&y.0, y.1, y.2) && x.3 != y.3)) { format!("is fixed otherwise: {:?} and {:?}", a, b) } else if a.contains(d) { "is not reported any more".into() } else { "is reported".into() })).1));
    }
    Ok(1 + b.len() as u64)
}
fn l04() {
    let c = Check::new("L04", "exploration");
    c.rule("every expression of the corpus with nothing, blanks, a tab, line breaks or comments put between each two of its tokens, one or two (thorough: in longer ones as well) places at a time and everywhere at once, if that leaves its syntax tree as it is; the same violations are reported at the same tokens, and what the fixes make of it has the same tree");
    c.assume("violations with comments have no fix; only their reports are compared; expressions that have comments are left out, since those can be directives");
    let l = Linter::new(&Opts::all().unsafely(), "R");
    let run = |rule: &str, text: &str, gaps: &[Option<usize>]| match l04_judge(&l, text, gaps) {
        Ok(n) => {
            c.eval((n > 0) as u64);
            c.nontriv((n > 1) as u64);
        }
        Err((sig, what)) => c.violation(&format!("{rule} {sig}"), short(&what, 700), json!({"text": text, "gaps": gaps})),
    };
    if let Some(r) = c.replay() {
        let gaps: Vec<Option<usize>> = r["gaps"].as_array().unwrap().iter().map(|g| g.as_u64().map(|g| g as usize)).collect();
        run("", r["text"].as_str().unwrap(), &gaps);
        c.finish();
    }
    let mut templates = corpus();
    templates.retain(|t| !t.text.contains('#') && !t.text.trim().is_empty());
    // with longer operands, and where line breaks mean nothing
    let mut more = vec![];
    for t in &templates {
        let mut texts = vec![t.text.clone()];
        for v in operand_names(&t.text) {
            texts.extend(["p$q", "g(h)[1]", "(-k)"].iter().filter_map(|e| substitute(&t.text, &v, e)));
        }
        for x in texts {
            let inner = format!("f({})", x.trim());
            if parses(&inner) {
                more.push(Template { rule: t.rule.clone(), text: inner });
            }
            if x != t.text {
                more.push(Template { rule: t.rule.clone(), text: x });
            }
        }
    }
    let original = templates.len() as u64;
    templates.extend(more);
    c.extra("expressions", templates.len() as u64);
    c.par(templates.len() as u64, |i| {
        let t = &templates[i as usize];
        let Some(toks) = tokens(&t.text) else { return };
        if toks.is_empty() {
            return;
        }
        let n = toks.len() - 1;
        let none = vec![None; n];
        let most = if i < original { c.pick(7, 14) } else { c.pick(4, 11) };
        for g in 0..GAPS.len() {
            for a in 0..n {
                let mut v = none.clone();
                v[a] = Some(g);
                run(&t.rule, &t.text, &v);
                if n <= most {
                    for b in a + 1..n {
                        for h in 0..GAPS.len() {
                            v[b] = Some(h);
                            run(&t.rule, &t.text, &v);
                            v[b] = None;
                        }
                    }
                }
            }
            // everywhere it can be, from the left and from the right
            for order in [true, false] {
                let mut v = none.clone();
                for k in 0..n {
                    let a = if order { k } else { n - 1 - k };
                    let old = v[a];
                    v[a] = Some(g);
                    if l04_judge(&l, &t.text, &v) == Ok(0) {
                        v[a] = old;
                    }
                }
                run(&t.rule, &t.text, &v);
            }
        }
    });
    c.finish()
}

// ---------------------------------------------------------------- U03
/// The published reference (docs/rules.qmd) as rows.
fn published() -> BTreeMap<String, (String, String, String)> {
    let text = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/../../harness/gen/repo/docs/rules.qmd")).expect("docs/rules.qmd");
    let mut out = BTreeMap::new();
    for line in text.lines() {
        let l = line.trim();
        if l.starts_with("c(\"") {
            // The quoted strings of the row.
            let p: Vec<&str> = l.split('"').skip(1).step_by(2).collect();
            if p.len() == 4 {
                out.insert(p[0].to_string(), (p[1].to_string(), p[2].to_string(), p[3].to_string()));
            }
        }
    }
    out
}

fn documented(ck: &Check) {
    let doc = published();
    if doc.len() < 10 {
        eprintln!("docs/rules.qmd has no rule table");
        std::process::exit(2);
    }
    let word = |c: &Category| match c {
        Category::Comm => "comments",
        Category::Corr => "correctness",
        Category::Susp => "suspicious",
        Category::Perf => "performance",
        Category::Read => "readability",
        Category::Testthat => "testthat",
    };
    for (name, (group, fix, cond)) in &doc {
        ck.eval(1);
        let Some(r) = Rule::from_name(name) else {
            ck.violation("documented-unknown", format!("documented rule {name} does not exist"), json!({ "rule": name }));
            continue;
        };
        ck.nontriv(1);
        let want: BTreeSet<&str> = group.split(", ").collect();
        let got: BTreeSet<&str> = r.categories().iter().map(word).collect();
        if got != want {
            ck.violation("group", format!("{name}: documented in {want:?}, is in {got:?}"), json!({ "rule": name }));
        }
        let f = match r.fix_status() {
            FixStatus::Safe => "✅",
            FixStatus::Unsafe => "❗",
            FixStatus::None => "❌",
        };
        if f != fix {
            ck.violation(&format!("fix:{name}"), format!("{name}: documented fix {fix}, declared {f}"), json!({ "rule": name }));
        }
        if cond.contains("Disabled by default") != r.is_disabled_by_default() {
            ck.violation("default", format!("{name}: documented condition {cond:?}, but default is {:?}", r.default_status()), json!({ "rule": name }));
        }
        let v = needs(cond);
        if v != r.minimum_r_version() {
            ck.violation("r-version", format!("{name}: documented {cond:?}, needs {:?}", r.minimum_r_version()), json!({ "rule": name }));
        }
    }
    for r in Rule::all() {
        ck.eval(1);
        if !r.is_deprecated() && !doc.contains_key(r.name()) {
            ck.violation("undocumented", format!("{r} is not in the published table"), json!({ "rule": r.name() }));
        }
    }
}


type Version = (u32, u32, u32);
fn needs(cond: &str) -> Option<Version> {
    cond.split("R >= ").nth(1).map(|v| {
        let mut p = v.split(|c: char| c == '.' || !c.is_ascii_digit()).filter_map(|x| x.parse::<u32>().ok());
        (p.next().unwrap_or(0), p.next().unwrap_or(0), p.next().unwrap_or(0))
    })
}

/// What the rule tests have no expressions for.
const MORE: &[(&str, &str)] = &[
    ("R", "# jarl-ignore: why\nx"),
    ("R", "# jarl-ignore any_is_na\nany(is.na(x))"),
    ("R", "# jarl-ignore any_is_na: why\nx"),
    ("R", "# jarl-ignore any_na: why\nx"),
    ("R", "x\n# jarl-ignore-file any_is_na: why\nany(is.na(x))"),
    ("R", "f(a, # jarl-ignore any_is_na: why\n  b)"),
    ("R", "x # jarl-ignore any_is_na: why"),
    ("R", "# jarl-ignore-start any_is_na: why\nany(is.na(x))"),
    ("R", "# jarl-ignore-end any_is_na"),
    ("Rmd", "```{r}\n#| jarl-ignore-chunk any_is_na: why\nany(is.na(x))\n```\n"),
    ("Rmd", "```{r}\n#| jarl-ignore-chunk: any_is_na: why\nany(is.na(x))\n```\n"),
];
const VERSIONS: &[Option<Version>] = &[None, Some((3, 6, 0)), Some((3, 6, 3)), Some((3, 99, 9)), Some((4, 0, 0)), Some((4, 0, 5)), Some((4, 3, 3)), Some((4, 4, 0)), Some((4, 4, 3)), Some((4, 5, 0)), Some((4, 5, 1)), Some((5, 0, 0))];
/// What a rule does, in all texts in which it finds something, must be what its row says.
fn behaves(c: &Check) {
    let doc = published();
    let mut texts: Vec<(&str, String)> = corpus().into_iter().map(|t| ("R", t.text)).collect();
    texts.extend(MORE.iter().map(|(e, t)| (*e, t.to_string())));
    if c.thorough() {
        for t in corpus() {
            texts.extend(["f(@)", "{\n  @\n}", "a <- @"].iter().filter_map(|k| stands(k, &t.text)).map(|(t, _, _)| ("R", t)));
        }
    }
    let linters: BTreeMap<(String, &str), Linter> = {
        let mut m = BTreeMap::new();
        for e in ["R", "Rmd"] {
            for n in doc.keys() {
                for (k, v) in VERSIONS.iter().enumerate() {
                    let o = Opts { select: n.clone(), min_r: v.map(|(a, b, c)| format!("{a}.{b}.{c}")), ..Opts::default() };
                    m.insert((format!("{k} {n}"), e), Linter::new(&o, e));
                }
            }
            for g in ["ALL", "", "COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT"] {
                m.insert((g.to_string(), e), Linter::new(&Opts { select: g.into(), ..Opts::all() }, e));
            }
        }
        m
    };
    let scratch = Scratch::new("U03");
    scratch.enter();
    let seen: std::sync::Mutex<BTreeSet<String>> = Default::default();
    let changed: std::sync::Mutex<BTreeSet<(String, bool)>> = Default::default();
    // `on`: the rules reported with a linter; `fixes`: whether a rule changes the text
    let judge = |text: &str, on: &dyn Fn(&str) -> BTreeSet<String>, fixes: &dyn Fn(&str, bool) -> bool| {
        for n in on("ALL") {
            let Some((group, fix, cond)) = doc.get(&n) else {
                c.violation("undocumented", format!("{n} is reported for {text:?} but is not in the published table"), json!({ "rule": n }));
                continue;
            };
            seen.lock().unwrap().insert(n.clone());
            c.nontriv(1);
            let bad = |k: &str, what: String| c.violation(k, format!("{n}, documented as {group:?} {fix} {cond:?}, {what} for {text:?}"), json!({ "rule": n }));
            let off = cond.contains("Disabled by default");
            if on("").contains(&n) == off {
                bad("default", format!("is{} reported by default", if off { "" } else { " not" }));
            }
            for (f, word) in [("COMM", "comments"), ("CORR", "correctness"), ("SUSP", "suspicious"), ("PERF", "performance"), ("READ", "readability"), ("TESTTHAT", "testthat")] {
                let want = group.split(", ").any(|g| g == word);
                if on(f).contains(&n) != want {
                    bad("group", format!("is{} reported with --select {f}", if want { " not" } else { "" }));
                }
            }
            for (k, v) in VERSIONS.iter().enumerate() {
                let want = needs(cond).is_none_or(|m| v.is_some_and(|v| v >= m));
                if on(&format!("{k} {n}")).contains(&n) != want {
                    bad("r-version", format!("is{} reported for R {v:?}", if want { " not" } else { "" }));
                }
            }
            for unsafely in [false, true] {
                c.eval(1);
                if fixes(&n, unsafely) {
                    changed.lock().unwrap().insert((n.clone(), unsafely));
                    if !(fix == "✅" || unsafely && fix == "❗") {
                        bad(&format!("fix:{n}"), format!("changes the text{}", if unsafely { " with --unsafe-fixes" } else { "" }));
                    }
                }
            }
        }
    };
    let fixing = |n: &str, unsafely: bool| {
        let o = Opts { select: n.into(), ..Opts::all() };
        if unsafely { o.unsafely() } else { o.fixing() }
    };
    c.par(texts.len() as u64, |i| {
        let (e, text) = &texts[i as usize];
        let on = |l: &str| -> BTreeSet<String> {
            c.eval(1);
            linters[&(l.to_string(), *e)].lint(text).map(|v| v.into_iter().map(|d| d.message.name).collect()).unwrap_or_default()
        };
        judge(text, &on, &|n, unsafely| run(&scratch, e, &[text.clone()], &fixing(n, unsafely))[0].after != *text);
    });
    // What needs a package
    let text = "f <- function() 1\nf <- function() 2\n";
    let package = |o: &Opts| -> (BTreeSet<String>, bool) {
        let s = scratch.sub();
        let path = s.dir.join("R/a.R");
        std::fs::create_dir(s.dir.join("R")).unwrap();
        std::fs::write(s.dir.join("DESCRIPTION"), "Package: p\nVersion: 1.0\n").unwrap();
        std::fs::write(s.dir.join("NAMESPACE"), "").unwrap();
        std::fs::write(&path, text).unwrap();
        let config = jarl_core::config::build_config(&o.args(vec![path.clone()]), None, vec![path.clone()]).expect("config");
        let names = jarl_core::check::check(config).into_iter().flat_map(|(_, r)| r.unwrap_or_default()).map(|d| d.message.name).collect();
        (names, std::fs::read_to_string(&path).unwrap() != text)
    };
    let on = |l: &str| match l.split_once(' ') {
        Some((k, n)) => package(&Opts { select: n.into(), min_r: VERSIONS[k.parse::<usize>().unwrap()].map(|(a, b, c)| format!("{a}.{b}.{c}")), ..Opts::default() }).0,
        None => package(&Opts { select: if l == "ALL" { "ALL,unused_function".into() } else { l.into() }, ..Opts::all() }).0,
    };
    judge(text, &on, &|n, unsafely| package(&fixing(n, unsafely)).1);
    let (seen, changed) = (seen.into_inner().unwrap(), changed.into_inner().unwrap());
    c.states.fetch_add(seen.len() as u64, std::sync::atomic::Ordering::Relaxed);
    for (n, (_, fix, _)) in &doc {
        c.outcome(if seen.contains(n) { "rules found in a text" } else { "rules without a text" }, 1);
        for unsafely in [false, true] {
            if seen.contains(n) && (fix == "✅" || unsafely && fix == "❗") && !changed.contains(&(n.clone(), unsafely)) {
                c.violation(&format!("fix:{n}"), format!("{n}: documented fix {fix}, but no text is ever fixed{}", if unsafely { " with --unsafe-fixes" } else { "" }), json!({ "rule": n }));
            }
        }
        if !seen.contains(n) {
            c.violation("never", format!("{n} is documented but finds nothing in any text"), json!({ "rule": n }));
        }
    }
}

fn u03() {
    let c = Check::new("U03", "exploration");
    c.rule("every row of the published rule table and every rule; and every rule in every text of the corpus (the expressions of the rule tests, and each kind of wrong suppression comment) in which it finds something: reported by default, with each family, for each of twelve R versions and fixed with and without --unsafe-fixes as its row says; non-trivial = a rule in a text");
    documented(&c);
    behaves(&c);
    c.finish()
}
