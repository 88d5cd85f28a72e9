//! The language server as an editor sees it: E01 diagnostics, E02 code actions,
//! E06 its process, E07 the rules about packages, E08 which configuration is used.
use checks2::editor::*;
use checks2::progs::*;
use checks2::*;
use jarl_core::rule_set::{FixStatus, Rule};
use mcx::{json, Check, Value};
use std::path::{Path, PathBuf};

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "E01" => e01(),
        "E02" => e02(),
        "E06" => e06(),
        "E07" => e07(),
        "E08" => e08(),
        _ => {
            eprintln!("editor E01 E02 E06 E07 E08");
            std::process::exit(2)
        }
    }
}

/// A diagnostic of the command line program.
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
struct Diag {
    start: usize,
    end: usize,
    rule: String,
    message: String,
    /// The fix, if it is one that may be applied.
    fix: Option<(usize, usize, String)>,
}
/// A project in which every rule is on.
fn project(d: &Path, more: &str) {
    std::fs::write(d.join("jarl.toml"), format!("[lint]\nselect = [\"ALL\"]\n{more}")).unwrap();
    std::fs::write(d.join("DESCRIPTION"), "Package: p\nVersion: 1.0\nDepends: R (>= 4.5)\n").unwrap();
}
/// What the command line program says about every file of a directory.
fn cli_diags(d: &Path, names: &[String]) -> Result<Vec<Vec<Diag>>, String> {
    let r = cli::run_in(d, &["check", ".", "--output-format", "json"]);
    let v: Value = serde_json::from_str(&r.out).map_err(|e| format!("{e}: {} {}", r.out, r.err))?;
    if v["errors"].as_array().is_none_or(|e| !e.is_empty()) {
        return Err(format!("errors: {}", v["errors"]));
    }
    let mut out = vec![vec![]; names.len()];
    for x in v["diagnostics"].as_array().ok_or("no diagnostics")? {
        let file = Path::new(x["filename"].as_str().unwrap()).file_name().unwrap().to_str().unwrap();
        let k = names.iter().position(|n| n == file).ok_or(format!("unknown file {file}"))?;
        let n = |v: &Value| v.as_u64().unwrap() as usize;
        let m = &x["message"];
        let message = match m["suggestion"].as_str() {
            Some(s) => format!("{} {s}", m["body"].as_str().unwrap()),
            None => m["body"].as_str().unwrap().to_string(),
        };
        let f = &x["fix"];
        let fix = (f["to_skip"] != json!(true) && f["content"] != json!("")).then(|| (n(&f["start"]), n(&f["end"]), f["content"].as_str().unwrap().to_string()));
        out[k].push(Diag { start: n(&x["range"][0]), end: n(&x["range"][1]), rule: m["name"].as_str().unwrap().into(), message, fix });
    }
    Ok(out)
}

/// Programs and documents; `@` stands for an expression.
const R_FILES: &[&str] = &["@", "'\u{e9}\u{1F600}'; @", "\n\n  @ # \u{1F600}\n", "f({\n  '\u{1F600}'\n  g('\u{e9}', @)\n})\n", "# \u{e9}\r\nx <- 1\r\n@\r\n", "\u{e9} <- '\u{1F600}\u{1F600}'\n\t@"];
const DOCS: &[&str] = &[
    "---\ntitle: \u{e9}\u{1F600}\n---\n\n\u{1F600} text\n\n```{r}\n@\n```\n",
    "```{r}\nx <- 1\n```\n\n* \u{e9}\n\n  ```{r}\n  '\u{1F600}'; @\n  ```\n\n```{r}\n@\n```\n",
    "\u{1F600}\r\n\r\n```{r}\r\n@\r\n```\r\n",
];
fn write_all(d: &Path, texts: &[(String, &str)]) -> (Vec<String>, Vec<PathBuf>) {
    let names: Vec<String> = texts.iter().enumerate().map(|(i, (_, ext))| format!("f{i}.{ext}")).collect();
    let paths: Vec<PathBuf> = names.iter().map(|n| d.join(n)).collect();
    for (p, (t, _)) in paths.iter().zip(texts) {
        std::fs::write(p, t).unwrap();
    }
    (names, paths)
}
fn texts(files: &[&str], docs: &[&str], corpus: &[Template]) -> Vec<(String, &'static str)> {
    let mut v = vec![];
    for t in corpus {
        for f in files {
            let (text, ..) = plug(f, &t.text);
            if parses(&text) {
                v.push((text, "R"));
            }
        }
        for (k, d) in docs.iter().enumerate() {
            if parses(&t.text) && !t.text.contains("```") {
                v.push((d.replace('@', &t.text), if k % 2 == 0 { "Rmd" } else { "qmd" }));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- E01
fn e01() {
    let c = Check::new("E01", "exploration");
    c.rule("for every expression of the corpus in R files and documents, with wide characters and all line ends, and every position encoding: what the language server publishes when the file is saved is what `jarl check` says about it, at the same places");
    let scratch = Scratch::new("E01");
    scratch.enter();
    let judge = |all: &[(String, &str)]| {
        let d = scratch.sub();
        project(&d.dir, "");
        let (names, paths) = write_all(&d.dir, all);
        let want = match cli_diags(&d.dir, &names) {
            Ok(w) => w,
            Err(e) => return c.violation("cli", format!("jarl check fails: {e}"), json!({"texts": all})),
        };
        for enc in ENCS {
            let ed = Editor::start(enc);
            if ed.encoding != enc.name() {
                c.violation("encoding", format!("the server answers {} to a client that knows only {}", ed.encoding, enc.name()), json!({"texts": []}));
            }
            for (k, (text, ext)) in all.iter().enumerate() {
                ed.open(&paths[k], text);
                c.eval(1);
                c.nontriv(!want[k].is_empty() as u64);
                let bad = match ed.save(&paths[k]) {
                    Err(e) => Some(e),
                    Ok(got) => {
                        let mut g: Vec<_> = got.iter().map(|v| (range(&v["range"]), v["message"].as_str().unwrap_or("").to_string())).collect();
                        let mut w: Vec<_> = want[k].iter().map(|x| ((enc.position(text, x.start), enc.position(text, x.end)), x.message.clone())).collect();
                        g.sort();
                        w.sort();
                        if got.iter().any(|v| v["severity"] != json!(2) || v["source"] != json!("Jarl")) {
                            Some("severity or source are wrong".into())
                        } else {
                            (g != w).then(|| format!("published: {g:?}\njarl check: {w:?}"))
                        }
                    }
                };
                if let Some(e) = bad {
                    c.violation("diagnostics", format!("{} {text:?}:\n{e}", enc.name()), json!({"texts": [(text, ext)]}));
                }
                ed.close(&paths[k]);
            }
        }
    };
    if let Some(r) = c.replay() {
        let v: Vec<(String, String)> = serde_json::from_value(r["texts"].clone()).unwrap();
        let v: Vec<(String, &str)> = v.iter().map(|(a, b)| (a.clone(), b.as_str())).collect();
        judge(&v);
        c.finish();
    }
    let corpus = corpus();
    let (mut files, mut docs) = (R_FILES.to_vec(), DOCS.to_vec());
    if c.thorough() {
        files.extend(LOOSE.iter().chain(LINES).chain(TIGHT));
        docs.extend(["````{r, a}\n@\n````\n", "> ```{r}\n> @\n> ```\n", "```{r}\nf(\n  @)\n```\n```{python}\n@\n```\n```{r}\n\u{e9}; @\n```"]);
    }
    let all = texts(&files, &docs, &corpus);
    let size = 400;
    c.par(all.len().div_ceil(size) as u64, |i| judge(&all[i as usize * size..all.len().min((i as usize + 1) * size)]));
    c.finish()
}

// ---------------------------------------------------------------- E02
fn e02() {
    let c = Check::new("E02", "exploration");
    c.rule("for every violation of every expression of the corpus in every surrounding, in R files and documents: the code actions offered are the fix that `jarl check --fix` would make, marked as preferred only if it is safe, and comments that suppress this violation and change nothing else; they are offered wherever the range touches the violation and nowhere else");
    let scratch = Scratch::new("E02");
    scratch.enter();
    let o = Opts::all();
    let ls = [Linter::new(&o, "R"), Linter::new(&o, "Rmd"), Linter::new(&o, "qmd")];
    let lint = |text: &str, ext: &str| -> Result<Vec<Diag>, String> {
        let l = match ext {
            "R" => &ls[0],
            "Rmd" => &ls[1],
            _ => &ls[2],
        };
        Ok(l.lint(text)?.iter().map(|d| Diag { start: usize::from(d.range.start()), end: usize::from(d.range.end()), rule: d.message.name.clone(), message: String::new(), fix: None }).collect())
    };
    let judge_one = |ed: &mut Editor, enc: Enc, path: &Path, text: &str, ext: &str, want: &[Diag], more: &str| -> Result<(), (&'static str, String)> {
        let rmd = ext != "R";
        let at = |d: &Diag| (enc.position(text, d.start), enc.position(text, d.end));
        let whole = ((0, 0), enc.position(text, text.len()));
        let all = ed.actions(path, whole).map_err(|e| ("answer", e))?;
        let mut left: Vec<&Value> = all.iter().collect();
        let before = || -> Vec<(usize, usize, String)> { want.iter().map(|d| (d.start, d.end, d.rule.clone())).collect() };
        for d in want {
            let mine = |a: &Value| a["diagnostics"].as_array().is_some_and(|v| v.len() == 1 && v[0]["message"] == json!(d.message) && range(&v[0]["range"]) == at(d));
            let mut take = |p: &dyn Fn(&Value) -> bool| -> Option<Value> {
                let k = left.iter().position(|a| mine(a) && p(a))?;
                Some(left.remove(k).clone())
            };
            let title = |a: &Value| a["title"].as_str().unwrap_or("").to_string();
            // the fix
            let fix = take(&|a| title(a).starts_with("Fix"));
            match (&fix, &d.fix) {
                (None, None) => {}
                (Some(_), None) => return Err(("fix", format!("a fix of {} is offered that --fix would not make", d.rule))),
                (None, Some(_)) => return Err(("fix", format!("the fix of {} is not offered", d.rule))),
                (Some(a), Some((s, e, new))) => {
                    let got = apply(a, path, text, enc).map_err(|e| ("fix", e))?;
                    let want = format!("{}{new}{}", &text[..*s], &text[*e..]);
                    if got != want {
                        return Err(("fix", format!("the fix of {} makes {got:?} instead of {want:?}", d.rule)));
                    }
                    let safe = Rule::from_name(&d.rule).is_some_and(|r| r.fix_status() == FixStatus::Safe);
                    let kind = if safe { "quickfix" } else { "quickfix.unsafe" };
                    if a["kind"] != json!(kind) || a["isPreferred"] != json!(safe) {
                        return Err(("kind", format!("the fix of {} is offered as {} with isPreferred {}", d.rule, a["kind"], a["isPreferred"])));
                    }
                }
            }
            // the comments
            let mut comment = |chunk: bool| -> Result<(), (&'static str, String)> {
                let sig = if chunk { "chunk" } else { "suppress" };
                let Some(a) = take(&|a| !title(a).starts_with("Fix") && title(a).contains("chunk") == chunk) else {
                    return Err((sig, format!("no comment against {} is offered", d.rule)));
                };
                let got = apply(&a, path, text, enc).map_err(|e| (sig, e))?;
                let fail = |e: String| Err((sig, format!("the comment against {}: {e}:\n{text}becomes\n{got}", d.rule)));
                if a["isPreferred"] == json!(true) {
                    return fail("is preferred".into());
                }
                // where it went
                let o = text.bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(text.len());
                let n = got.len() - text.len();
                if !rmd {
                    if shape(&got) != shape(text) {
                        return fail("changes the code".into());
                    }
                    let (mut old, mut new) = (comments(text).unwrap_or_default(), comments(&got).unwrap_or_default());
                    old.push(format!("# jarl-ignore {}: <reason>", d.rule));
                    old.sort();
                    new.sort();
                    if old != new {
                        return fail("changes the comments".into());
                    }
                }
                let after = match lint(&got, ext) {
                    // the configuration may leave out comments about comments
                    Ok(v) => v.into_iter().filter(|d| more.is_empty() || !d.rule.ends_with("_suppression")).collect::<Vec<_>>(),
                    Err(e) => return fail(e),
                };
                // What is the same at both ends of the insertion may be taken
                // as either, so compare the code and not the places.
                let code = |t: &str, v: &[(usize, usize, String)]| {
                    let mut v: Vec<(String, String)> = v.iter().map(|x| (x.2.clone(), t[x.0..x.1].to_string())).collect();
                    v.sort();
                    v
                };
                let had = before();
                let now: Vec<(usize, usize, String)> = after.iter().map(|d| (d.start, d.end, d.rule.clone())).collect();
                let moved = |x: usize| if x >= o { x + n } else { x };
                if now.iter().any(|x| x.2 == d.rule && x.0 == moved(d.start) && x.1 == moved(d.end)) {
                    return fail("it is still reported".into());
                }
                let (h, w) = (code(text, &had), code(&got, &now));
                let mut rest = h.clone();
                for x in &w {
                    // a range in which the comment now stands
                    let k = rest.iter().position(|y| y == x).or_else(|| rest.iter().position(|y| y.0 == x.0 && x.1.contains("# jarl-ignore")));
                    match k {
                        Some(k) => {
                            rest.remove(k);
                        }
                        None => return fail(format!("{x:?} is reported afterwards")),
                    }
                }
                if let Some(x) = rest.iter().find(|x| x.0 != d.rule) {
                    return fail(format!("{x:?} is no longer reported"));
                }
                Ok(())
            };
            comment(false)?;
            if rmd {
                comment(true)?;
            }
        }
        if !left.is_empty() {
            return Err(("more", format!("{} more actions are offered: {}", left.len(), left[0])));
        }
        // where they are offered
        let mut spots = vec![((0, 0), (0, 0)), (whole.1, whole.1)];
        for d in want {
            let (s, e) = at(d);
            spots.extend([(s, s), (e, e)]);
        }
        spots.dedup();
        for r in spots {
            let some = ed.actions(path, r).map_err(|e| ("answer", e))?;
            let expect: Vec<&Value> = all.iter().filter(|a| { let (s, e) = range(&a["diagnostics"][0]["range"]); s <= r.1 && r.0 <= e }).collect();
            let mut some: Vec<String> = some.iter().map(|v| v.to_string()).collect();
            let mut expect: Vec<String> = expect.iter().map(|v| v.to_string()).collect();
            some.sort();
            expect.sort();
            if some != expect {
                return Err(("range", format!("{} actions are offered at {r:?} where {} violations' are expected", some.len(), expect.len())));
            }
        }
        Ok(())
    };
    let judge = |all: &[(String, &str)], enc: Enc, more: &str| {
        let d = scratch.sub();
        project(&d.dir, more);
        let (names, paths) = write_all(&d.dir, all);
        let want = match cli_diags(&d.dir, &names) {
            Ok(w) => w,
            Err(e) => return c.violation("cli", format!("jarl check fails: {e}"), json!({"texts": all, "enc": enc.name(), "more": more})),
        };
        let mut ed = Editor::start(enc);
        for (k, (text, ext)) in all.iter().enumerate() {
            // comments about comments
            if want[k].iter().any(|d| d.rule.ends_with("_suppression")) {
                continue;
            }
            c.eval(1);
            c.nontriv(!want[k].is_empty() as u64);
            ed.open(&paths[k], text);
            if let Err((sig, e)) = judge_one(&mut ed, enc, &paths[k], text, ext, &want[k], more) {
                c.violation(sig, format!("{} {text:?}:\n{e}", enc.name()), json!({"texts": [(text, ext)], "enc": enc.name(), "more": more}));
            }
            ed.close(&paths[k]);
        }
    };
    if let Some(r) = c.replay() {
        let v: Vec<(String, String)> = serde_json::from_value(r["texts"].clone()).unwrap();
        let v: Vec<(String, &str)> = v.iter().map(|(a, b)| (a.clone(), b.as_str())).collect();
        let enc = ENCS.into_iter().find(|e| Some(e.name()) == r["enc"].as_str()).unwrap();
        judge(&v, enc, r["more"].as_str().unwrap());
        c.finish();
    }
    let corpus = corpus();
    let files: Vec<&str> = R_FILES.iter().chain(["# note\n@ # note", "f(@, # note\n  @)", "\u{e9}(\n  # note\n  @\n)"].iter()).chain(LINES).copied().filter(|f| c.thorough() || f.len() % 3 == 0 || !f.is_ascii() || f.contains('#')).collect();
    let all = texts(&files, DOCS, &corpus);
    let size = 300;
    c.par(all.len().div_ceil(size) as u64, |i| judge(&all[i as usize * size..all.len().min((i as usize + 1) * size)], ENCS[i as usize % 2], ""));
    // comments inside of the violation
    let inside: Vec<(String, &str)> = corpus
        .iter()
        .flat_map(|t| {
            let open = t.text.find('(').map(|i| format!("{}( # \u{e9}\n  {}", &t.text[..i], &t.text[i + 1..]));
            let close = t.text.rfind(')').map(|i| format!("{} # \u{e9}\n{}", &t.text[..i], &t.text[i..]));
            [open, close]
        })
        .flatten()
        .filter(|t| parses(t))
        .map(|t| (t, "R"))
        .collect();
    c.par(inside.len().div_ceil(size) as u64, |i| judge(&inside[i as usize * size..inside.len().min((i as usize + 1) * size)], Enc::Utf16, ""));
    // fixes that the configuration forbids
    let first: Vec<(String, &str)> = corpus.iter().filter(|t| parses(&t.text)).map(|t| (t.text.clone(), "R")).collect();
    let configs = ["unfixable = [\"ALL\"]\n", "fixable = []\n", "fixable = [\"any_is_na\", \"seq\"]\n", "unfixable = [\"any_is_na\"]\nfixable = [\"any_is_na\"]\n"];
    let n = first.len().div_ceil(size);
    c.par((configs.len() * n) as u64, |i| {
        let (k, i) = (i as usize / n, i as usize % n);
        judge(&first[i * size..first.len().min((i + 1) * size)], Enc::Utf16, configs[k])
    });
    // comments that are there already, against other rules
    let names: Vec<&str> = jarl_core::rule_set::ALL_RULES.iter().map(|r| r.name()).collect();
    let others: Vec<(String, &str)> = corpus
        .iter()
        .filter(|t| parses(&t.text))
        .flat_map(|t| {
            let k = names.iter().position(|n| *n == t.rule).unwrap_or(0);
            let mut v: Vec<&str> = names.iter().copied().filter(|n| *n != t.rule && (t.rule.starts_with(n) || n.starts_with(t.rule.as_str()))).collect();
            v.push(names[(k + 1) % names.len()]);
            v.into_iter().map(|n| format!("# jarl-ignore {n}: why\n{}", t.text)).collect::<Vec<_>>()
        })
        .map(|t| (t, "R"))
        .collect();
    c.par(others.len().div_ceil(size) as u64, |i| judge(&others[i as usize * size..others.len().min((i as usize + 1) * size)], Enc::Utf16, "ignore = [\"outdated_suppression\"]\n"));
    c.finish()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Open,
    Wide,
    Long,
    Change,
    Save,
    Close,
    Ask,
    Unknown,
    Wrong,
    Note,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    /// `shutdown`, `exit`
    Orderly,
    /// And a request between them.
    Late,
    /// `exit` without `shutdown`
    Sudden,
    /// The editor has gone away.
    Gone,
    GoneAfterShutdown,
    /// Before or during the handshake.
    Early,
    ExitFirst,
}
/// Headers are those of any editor.
fn frame(v: &Value, k: usize) -> Vec<u8> {
    let b = v.to_string();
    match k % 3 {
        0 => format!("Content-Length: {}\r\n\r\n{b}", b.len()),
        1 => format!("Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n{b}", b.len()),
        _ => format!("content-length: {}\r\n\r\n{b}", b.len()),
    }
    .into_bytes()
}
fn frames(mut b: &[u8]) -> Result<Vec<Value>, String> {
    let mut all = vec![];
    while !b.is_empty() {
        let head = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("a header that does not end")?;
        let n: usize = std::str::from_utf8(&b[..head]).ok().and_then(|h| h.lines().find_map(|l| l.strip_prefix("Content-Length: ")?.parse().ok())).ok_or("a header without length")?;
        b = &b[head + 4..];
        if b.len() < n {
            return Err("a message that does not end".into());
        }
        all.push(serde_json::from_slice(&b[..n]).map_err(|e| format!("a message that is no JSON: {e}"))?);
        b = &b[n..];
    }
    Ok(all)
}
fn e06() {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let c = Check::new("E06", "exploration");
    c.rule("for every session up to the bound with the real server process over its standard input and output, and every way to end it: what it writes are complete messages; it ends by itself, with status 0 after shutdown and exit and with status 1 after exit alone; and if it was ended in order or its input ended, every request has got its answer and the diagnostics of every saved document have been sent, those of what was saved last in the end");
    c.assume("the sessions are written to the process at once, split in two at a point that varies with the session; the schedules of its threads are those that occur (E03 and E04 explore them)");
    const STEPS: [Step; 10] = [Step::Open, Step::Wide, Step::Long, Step::Change, Step::Save, Step::Close, Step::Ask, Step::Unknown, Step::Wrong, Step::Note];
    const ENDS: [End; 7] = [End::Orderly, End::Late, End::Sudden, End::Gone, End::GoneAfterShutdown, End::Early, End::ExitFirst];
    let depth = if c.thorough() { 4 } else { 3 };
    let mut words: Vec<Vec<Step>> = vec![vec![]];
    let mut last = words.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|w| STEPS.iter().map(move |s| { let mut w = w.clone(); w.push(*s); w })).collect();
        // A document is opened once before it is used
        last.retain(|w| {
            let mut open = false;
            w.iter().all(|s| match s {
                Step::Open | Step::Wide | Step::Long => !std::mem::replace(&mut open, true),
                Step::Change | Step::Save => open,
                Step::Close => std::mem::replace(&mut open, false),
                _ => true,
            })
        });
        words.extend(last.iter().cloned());
    }
    let mut cases: Vec<(Vec<Step>, End)> = words.iter().flat_map(|w| ENDS.iter().filter(|e| w.is_empty() || !matches!(e, End::Early | End::ExitFirst)).map(|e| (w.clone(), *e))).collect();
    if let Some(r) = c.replay() {
        cases.retain(|x| json!(format!("{x:?}")) == r["session"]);
    }
    let s = Scratch::new("E06");
    let dir = s.dir.clone();
    project(&dir, "");
    let uri = lsp_types::Url::from_file_path(dir.join("a.R")).unwrap().to_string();
    let run = |w: &[Step], end: End| -> Result<(), (String, String)> {
        let bad = |s: &str, w: String| Err((s.to_string(), w));
        let mut sent: Vec<Value> = vec![];
        let mut due = vec![];
        let note = |m: &str, p: Value| json!({"jsonrpc": "2.0", "method": m, "params": p});
        let ask = |id: Value, m: &str, p: Value| json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p});
        match end {
            End::Early => {}
            End::ExitFirst => sent.push(note("exit", Value::Null)),
            _ => {
                sent.push(ask(json!(0), "initialize", json!({"capabilities": {}})));
                due.push(json!(0));
                sent.push(note("initialized", json!({})));
            }
        }
        let (mut version, mut lines) = (0, 0);
        // What is shown in the end
        let mut shown: Option<usize> = None;
        for (k, step) in w.iter().enumerate() {
            let id = if k % 2 == 0 { json!(k + 1) } else { json!(format!("id-{k}\u{e9}")) };
            version += 1;
            match step {
                Step::Open | Step::Wide | Step::Long => {
                    let text = match step {
                        Step::Open => "any(is.na(x))\n".to_string(),
                        Step::Wide => "# \u{1f600}\u{e9}\nany(is.na('\u{1f600}'))\n".into(),
                        _ => format!("{}any(is.na(x))\n", "# a long comment, to be read in parts\n".repeat(4000)),
                    };
                    lines = 1;
                    sent.push(note("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "r", "version": version, "text": text}})));
                }
                Step::Change => {
                    lines += 1;
                    sent.push(note("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": "any(is.na('\u{e9}'))\n".repeat(lines)}]})));
                }
                Step::Save => {
                    shown = Some(lines);
                    sent.push(note("textDocument/didSave", json!({"textDocument": {"uri": uri}})));
                }
                Step::Close => {
                    shown = Some(0);
                    sent.push(note("textDocument/didClose", json!({"textDocument": {"uri": uri}})));
                }
                Step::Ask | Step::Unknown | Step::Wrong => {
                    let (m, p) = match step {
                        Step::Ask => ("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 9, "character": 0}}, "context": {"diagnostics": []}})),
                        Step::Unknown => ("textDocument/hover", json!({})),
                        _ => ("textDocument/codeAction", json!([])),
                    };
                    sent.push(ask(id.clone(), m, p));
                    due.push(id);
                }
                Step::Note => sent.push(note("$/setTrace", json!({"value": "off"}))),
            }
        }
        if matches!(end, End::Orderly | End::Late | End::GoneAfterShutdown) {
            sent.push(json!({"jsonrpc": "2.0", "id": "down", "method": "shutdown"}));
            due.push(json!("down"));
        }
        if end == End::Late {
            sent.push(ask(json!("late"), "textDocument/codeAction", json!({})));
            due.push(json!("late"));
        }
        if matches!(end, End::Orderly | End::Late | End::Sudden) {
            sent.push(json!({"jsonrpc": "2.0", "method": "exit"}));
        }
        let bytes: Vec<u8> = sent.iter().enumerate().flat_map(|(k, v)| frame(v, k)).collect();
        let mut child = Command::new(cli::jarl())
            .arg("server")
            .current_dir(&dir)
            .env_clear()
            .env("HOME", &dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("run jarl");
        let mut stdin = child.stdin.take().unwrap();
        let mut stdout = child.stdout.take().unwrap();
        let split = bytes.len() * (w.len() + end as usize) / 11;
        let writer = std::thread::spawn(move || {
            // It may have ended before it has read everything
            let _ = stdin.write_all(&bytes[..split]).and_then(|_| stdin.flush());
            std::thread::yield_now();
            let _ = stdin.write_all(&bytes[split..]).and_then(|_| stdin.flush());
            // An editor that asks for an end keeps the pipe open
            matches!(end, End::Orderly | End::Late | End::Sudden | End::ExitFirst).then_some(stdin)
        });
        let reader = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = stdout.read_to_end(&mut v);
            v
        });
        let begin = std::time::Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break Some(s);
            }
            if begin.elapsed().as_secs() >= 30 {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        };
        drop(writer.join());
        let out = reader.join().unwrap();
        let Some(status) = status else {
            return bad("hangs", "the process does not end".into());
        };
        match end {
            End::Orderly | End::Late if status.code() != Some(0) => return bad("status", format!("ends with {status} after shutdown and exit")),
            End::Sudden if status.code() != Some(1) => return bad("status", format!("ends with {status} after exit without shutdown")),
            // Killed by a signal or panicking
            _ if status.code().is_none() || status.code() == Some(101) => return bad("status", format!("ends with {status}")),
            _ => {}
        }
        let got = match frames(&out) {
            Ok(g) => g,
            // It was told to stop at once
            Err(_) if end == End::Sudden => return Ok(()),
            Err(e) => return bad("output", e),
        };
        for g in &got {
            if g["jsonrpc"] != json!("2.0") {
                return bad("output", format!("a message that is not JSON-RPC 2.0: {g}"));
            }
        }
        if end == End::Sudden {
            return Ok(());
        }
        let answers: Vec<&Value> = got.iter().filter(|g| g.get("method").is_none()).map(|g| &g["id"]).collect();
        for d in &due {
            let n = answers.iter().filter(|a| **a == d).count();
            if n != 1 {
                return bad("answers", format!("request {d} got {n} answers"));
            }
        }
        if answers.len() != due.len() {
            return bad("answers", "answers nobody asked for".into());
        }
        let last = got.iter().filter(|g| g["method"] == json!("textDocument/publishDiagnostics")).last().map(|g| g["params"]["diagnostics"].as_array().map_or(0, Vec::len));
        if last.unwrap_or(0) != shown.unwrap_or(0) {
            return bad("diagnostics", format!("{last:?} diagnostics are shown in the end, not {shown:?}"));
        }
        Ok(())
    };
    c.par(cases.len() as u64, |i| {
        let (w, end) = &cases[i as usize];
        c.eval(1);
        c.states.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        c.transitions.fetch_add(w.len() as u64, std::sync::atomic::Ordering::SeqCst);
        c.nontriv(!w.is_empty() as u64);
        if let Err((sig, what)) = run(w, *end) {
            c.violation(&sig, format!("{w:?}, ended by {end:?}: {what}"), json!({"session": format!("{:?}", cases[i as usize])}));
        }
    });
    c.finish()
}

// ---------------------------------------------------------------- E07
/// The rules about packages need the other files of the package.
fn e07() {
    let c = Check::new("E07", "exploration");
    c.rule("for all packages of up to four files whose contents, NAMESPACE, suppression comments, rule selection, threshold and exclusions are taken from lists: what the language server publishes when a file of R/ is saved is what `jarl check` of the package says about it, and for other files what `jarl check` of that file says; the notice about hidden functions is sent exactly if the command line hides them");
    c.assume("the other files of the package are as on disk");
    let scratch = Scratch::new("E07");
    scratch.enter();
    const A: &[&str] = &[
        "f <- function() 1\n",
        "",
        "f <- function() 1\ng <- function() f()\n",
        "'\u{e9}\u{1F600}'; x <- 1\r\nf <- function() 1\r\nf <- function() 2\r\n",
        "# jarl-ignore unused_function: r\nf <- function() 1\ng <- function() 1\n",
        "# jarl-ignore-file duplicated_function_definition: r\nf <- function() 1\nh <- function() any(is.na(1))\n",
        "f <- function() g()\ng <- function() h()\nh <- function() f()\n",
    ];
    const B: &[(&str, &str)] = &[("R/b.R", ""), ("R/b.R", "f()\n"), ("R/b.R", "f <- function() 2\n"), ("R/B.r", "g <- function() f\nu <- function() any(is.na(1))\n"), ("R/sub/b.R", "f(g)\n"), ("R/sub/b.R", "f <- function() 1\nv <- function() 1\n"), ("R/b \u{e9}.R", "f <- function() 1\n")];
    const T: &[(&str, &str)] = &[("tests/t.R", ""), ("tests/testthat/t.R", "g()\nany(is.na(x))\n"), ("tests/t.R", "f <- function() 1\nt1 <- function() 1\n"), ("src/t.c", "f(1)\n"), ("t.R", "g()\nf <- function() 1\n")];
    const NS: &[Option<&str>] = &[Some(""), Some("export(f)\n"), None];
    const SELECT: &[&str] = &["extend-select = [\"ALL\"]\n", "", "select = [\"unused_function\", \"any_is_na\"]\n", "extend-select = [\"CORR\"]\n", "extend-select = [\"unused_function\"]\nignore = [\"any_is_na\"]\n"];
    const MORE: &[&str] = &["", "[lint.unused_function]\nthreshold-ignore = 0\n", "[lint.unused_function]\nthreshold-ignore = 1\n", "[lint.unused_function]\nthreshold-ignore = 2\n", "[lint.unused_function]\nskipped-functions = [\"^f$\"]\nthreshold-ignore = 1\n"];
    const EXCL: &[&str] = &["", "exclude = [\"R/a.R\"]\n", "exclude = [\"tests/\"]\n"];
    let p = mcx::Product::new(&[A.len(), B.len(), T.len(), NS.len(), SELECT.len(), MORE.len(), EXCL.len(), 2]);
    let step = c.pick(29, 1);
    let judge = |i: u64| -> Result<(), (String, String)> {
        let mut k = vec![];
        p.get(i, &mut k);
        let d = scratch.sub();
        let name = ["p", "p q\u{e9}%20#"][k[7]];
        let root = d.dir.join(name);
        let mut files: Vec<(String, String)> = vec![("R/a.R".into(), A[k[0]].into()), (B[k[1]].0.into(), B[k[1]].1.into()), (T[k[2]].0.into(), T[k[2]].1.into())];
        let put = |f: &str, t: &str| {
            let f = root.join(f);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, t).unwrap();
        };
        for (f, t) in &files {
            put(f, t);
        }
        files.retain(|f| !f.0.ends_with(".c"));
        put("DESCRIPTION", "Package: p\n");
        if let Some(n) = NS[k[3]] {
            put("NAMESPACE", n);
        }
        put("jarl.toml", &format!("[lint]\n{}{}{}", SELECT[k[4]], EXCL[k[6]], MORE[k[5]]));
        let what = || format!("{files:?} NAMESPACE {:?} jarl.toml {:?} in {name:?}", NS[k[3]], std::fs::read_to_string(root.join("jarl.toml")).unwrap());
        type Report = (usize, usize, String);
        let cli = |path: &str, only: &str| -> Result<Vec<Report>, String> {
            let r = cli::run_home(&root, &d.dir, &["check", path, "--output-format", "json"]);
            let v: Value = serde_json::from_str(&r.out).map_err(|e| format!("{e}: {}{}", r.out, r.err))?;
            let mut out = vec![];
            for x in v["diagnostics"].as_array().ok_or("no diagnostics")? {
                if x["filename"] == *only {
                    let m = &x["message"];
                    let s = m["suggestion"].as_str().map_or(String::new(), |s| format!(" {s}"));
                    out.push((x["range"][0].as_u64().unwrap() as usize, x["range"][1].as_u64().unwrap() as usize, format!("{}{s}", m["body"].as_str().unwrap())));
                }
            }
            out.sort();
            Ok(out)
        };
        // How many the command line hides
        let r = cli::run_home(&root, &d.dir, &["check", ".", "--output-format", "concise"]);
        let hidden: Option<u64> = r.out.lines().chain(r.err.lines()).find(|l| l.contains("diagnostics hidden")).and_then(|l| l.split_whitespace().find_map(|w| w.parse().ok()));
        let ed = Editor::start(Enc::Utf16);
        let from = format!("{}/", root.strip_prefix(std::env::current_dir().unwrap()).unwrap_or(&root).display());
        let mut told = false;
        for (f, t) in &files {
            let path = root.join(f);
            ed.open(&path, t);
            c.eval(1);
            let got = ed.save(&path).map_err(|e| ("save".to_string(), format!("{}: {e}", what())))?;
            let direct = f.starts_with("R/") && !f.starts_with("R/sub");
            let excluded = EXCL[k[6]].contains("tests") && f.starts_with("tests/");
            let want = if excluded { Ok(vec![]) } else { cli(if direct { "." } else { f }, f) };
            let want = want.map_err(|e| ("cli".to_string(), format!("{}: jarl check: {e}", what())))?;
            let mut g: Vec<_> = got.iter().map(|v| (range(&v["range"]), v["message"].as_str().unwrap_or("").replace(&from, ""))).collect();
            let mut w: Vec<_> = want.iter().map(|x| ((Enc::Utf16.position(t, x.0), Enc::Utf16.position(t, x.1)), x.2.clone())).collect();
            g.sort();
            w.sort();
            c.nontriv(!w.is_empty() as u64);
            c.outcome(&format!("{} reports", w.len()), 1);
            if g != w {
                return Err(("reports".into(), format!("{}: for {f}\npublished: {g:?}\njarl check: {w:?}", what())));
            }
            told |= direct && hidden.is_some() && !(EXCL[k[6]].contains("a.R") && f == "R/a.R");
            let shown: Vec<String> = ed.messages.borrow().iter().filter(|m| !m.starts_with("Jarl uses the configuration")).cloned().collect();
            let right = if told { shown.len() == 1 && shown[0].starts_with(&format!("{} `unused_function` diagnostic", hidden.unwrap())) } else { shown.is_empty() };
            if !right {
                return Err(("notice".into(), format!("{}: after {f}, with {hidden:?} hidden by jarl check: shown: {shown:?}", what())));
            }
        }
        if told {
            c.outcome("hidden above the threshold", 1);
        }
        Ok(())
    };
    if let Some(r) = c.replay() {
        if let Err((s, e)) = judge(r["package"].as_u64().unwrap()) {
            c.violation(&s, e, r.clone());
        }
        c.finish();
    }
    let n = p.count();
    c.par_named(
        n / step,
        "package",
        |i| {
            if let Err((s, e)) = judge(i * step) {
                c.violation(&s, e, json!({"package": i * step}));
            }
        },
        |i| json!({"package": i * step}),
    );
    c.finish()
}

// ---------------------------------------------------------------- E08
/// What is in a place where a configuration may be.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Conf {
    None,
    Plain,
    Hidden,
    Wrong,
}
/// The places, outermost first, and the user's.
const PLACES: [&str; 4] = ["p", "p/s", "p/s/t", "u/.config/jarl"];
/// The documents an editor opens: through a link, and one that is not saved.
const OPENED: [&str; 7] = ["p/a.R", "p/s/b.R", "p/s/t/c.R", "o/d.R", "ln/a.R", "ln/s/b.R", ""];
const CWDS: [&str; 3] = ["p", "p/s", "o"];
fn e08() {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let c = Check::new("E08", "model_checking");
    c.rule("for every placement of configurations (none, jarl.toml, .jarl.toml, invalid) in three nested directories and the user's, every working directory and every sequence of documents that are opened, also through a link: the real server tells once which configuration it uses, namely that of the first document whose configuration is valid and not in its working directory; and the command line program names the configuration it used at the end of its report if there is exactly one and it is not in the working directory");
    let confs: &[Conf] = c.pick(&[Conf::None, Conf::Plain, Conf::Wrong], &[Conf::None, Conf::Plain, Conf::Hidden, Conf::Wrong]);
    let depth = c.pick(2, 3);
    let mut words: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        last = last.iter().flat_map(|w| (0..OPENED.len()).map(move |d| [w.as_slice(), &[d]].concat())).collect();
        words.extend(last.iter().cloned());
    }
    let scratch = Scratch::new("E08");
    let product = confs.len().pow(4);
    // Where the configuration of a file in a directory is.
    let nearest = |placed: &[Conf; 4], dir: &str| -> Option<usize> {
        let dir = dir.replacen("ln", "p", 1);
        (0..3).rev().find(|k| placed[*k] != Conf::None && Path::new(&dir).starts_with(PLACES[*k])).or_else(|| (placed[3] != Conf::None).then_some(3))
    };
    let file = |placed: &[Conf; 4], k: usize| format!("{}/{}", PLACES[k], if placed[k] == Conf::Hidden { ".jarl.toml" } else { "jarl.toml" });
    let write = |d: &Path, f: &str| std::fs::write(d.join(f), "any(is.na(x))\n").unwrap();
    let judge = |i: u64| {
        let placed: [Conf; 4] = std::array::from_fn(|k| confs[i as usize / confs.len().pow(k as u32) % confs.len()]);
        if let Some(r) = c.replay() {
            if r["placed"] != json!(format!("{placed:?}")) {
                return;
            }
        }
        let s = scratch.sub();
        let d = &s.dir;
        for x in ["p/s/t", "o", "u/.config/jarl"] {
            std::fs::create_dir_all(d.join(x)).unwrap();
        }
        std::os::unix::fs::symlink(d.join("p"), d.join("ln")).unwrap();
        let texts = || OPENED.iter().filter(|f| !f.is_empty()).for_each(|f| write(d, f));
        texts();
        for (k, x) in placed.iter().enumerate() {
            let t = match x {
                Conf::None => continue,
                Conf::Wrong => "[lint\nselect = [\"any_is_na\"]\n",
                _ => "[lint]\nselect = [\"any_is_na\"]\n",
            };
            std::fs::write(d.join(file(&placed, k)), t).unwrap();
        }
        for cwd in CWDS {
            // The editor
            for w in &words {
                let mut sent = vec![json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": {"capabilities": {}}}), json!({"jsonrpc": "2.0", "method": "initialized", "params": {}})];
                let mut want = None;
                for (n, k) in w.iter().enumerate() {
                    let f = OPENED[*k];
                    let u = if f.is_empty() { "untitled:Untitled-1".to_string() } else { uri(&d.join(f)) };
                    // Each is closed again, as the same one may follow.
                    sent.push(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "r", "version": n, "text": "x\n"}}}));
                    sent.push(json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": u}}}));
                    if want.is_none() && !f.is_empty() {
                        let k = nearest(&placed, f);
                        want = k.filter(|k| placed[*k] != Conf::Wrong && PLACES[*k] != cwd);
                    }
                }
                sent.push(json!({"jsonrpc": "2.0", "id": "down", "method": "shutdown"}));
                sent.push(json!({"jsonrpc": "2.0", "method": "exit"}));
                let bytes: Vec<u8> = sent.iter().enumerate().flat_map(|(k, v)| frame(v, k)).collect();
                let mut child = Command::new(cli::jarl())
                    .arg("server")
                    .current_dir(d.join(cwd))
                    .env_clear()
                    .env("HOME", d.join("u"))
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("run jarl");
                let _ = child.stdin.as_mut().unwrap().write_all(&bytes);
                let out = child.wait_with_output().unwrap().stdout;
                c.eval(1);
                c.states.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                c.transitions.fetch_add(w.len() as u64, std::sync::atomic::Ordering::SeqCst);
                c.nontriv(want.is_some() as u64);
                let what = format!("configurations {placed:?} in {PLACES:?}, the server runs in {cwd}, opened in turn: {:?}", w.iter().map(|k| OPENED[*k]).collect::<Vec<_>>());
                let replay = || json!({"placed": format!("{placed:?}"), "cwd": cwd, "opened": w.iter().map(|k| OPENED[*k]).collect::<Vec<_>>()});
                let got: Vec<String> = match frames(&out) {
                    Ok(v) => v.iter().filter(|m| m["method"] == json!("window/showMessage")).map(|m| m["params"]["message"].as_str().unwrap_or_default().to_string()).collect(),
                    Err(e) => {
                        c.violation("output", format!("{what}: {e}"), replay());
                        continue;
                    }
                };
                let named: Vec<Option<PathBuf>> = got.iter().map(|m| m.split('\'').nth(1).and_then(|p| Path::new(p).canonicalize().ok())).collect();
                let expected: Vec<Option<PathBuf>> = want.iter().map(|k| Some(d.join(file(&placed, *k)))).collect();
                if named != expected {
                    c.violation("notice", format!("{what}: the messages shown are {got:?}, but they should name {expected:?}"), replay());
                }
            }
            // The command line: a directory or files, and the modes that report to people
            for target in [&["p"][..], &["p/s"], &["p/s/t"], &["o"], &["p/a.R"], &["p/s/b.R"], &["o/d.R"], &["p/a.R", "p/s/b.R"], &["p/s/b.R", "p/s/t"]] {
                let mut used: Vec<usize> = target.iter().filter_map(|t| nearest(&placed, t)).collect();
                for t in target {
                    used.extend((0..3).filter(|k| placed[*k] != Conf::None && d.join(t).is_dir() && Path::new(PLACES[*k]).starts_with(t)));
                }
                used.sort();
                used.dedup();
                let wrong = used.iter().any(|k| placed[*k] == Conf::Wrong);
                let want = (used.len() == 1 && PLACES[used[0]] != cwd && !wrong).then(|| format!("Used '{}'", d.join(file(&placed, used[0])).display()));
                for mode in [&["--output-format", "full"][..], &["--output-format", "concise"], &["--statistics"], &["--add-jarl-ignore=x"], &["--output-format", "json"], &["--output-format", "github"]] {
                    // Given from the working directory, and as they are.
                    let paths: Vec<String> = target.iter().map(|t| if mode.len() == 1 { format!("{}{t}", "../".repeat(cwd.split('/').count())) } else { d.join(t).display().to_string() }).collect();
                    let mut args = vec!["check"];
                    args.extend(paths.iter().map(String::as_str));
                    args.extend(mode);
                    let r = cli::run_home(&d.join(cwd), &d.join("u"), &args);
                    if mode[0].starts_with("--add") {
                        texts();
                    }
                    c.eval(1);
                    c.states.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let human = !matches!(mode, ["--output-format", "json" | "github"]);
                    let what = format!("configurations {placed:?} in {PLACES:?}, in {cwd}: jarl {}", args.join(" "));
                    let replay = || json!({"placed": format!("{placed:?}"), "cwd": cwd, "arguments": args});
                    let noted: Vec<&str> = r.out.lines().chain(r.err.lines()).filter(|l| l.starts_with("Used '")).collect();
                    let expected: Vec<&str> = want.iter().filter(|_| human).map(String::as_str).collect();
                    if noted != expected {
                        c.violation("note", format!("{what}: notes {noted:?}, not {expected:?}"), replay());
                    }
                    if wrong != (r.status == Some(255)) {
                        c.violation("status", format!("{what}: ends with {:?} {}", r.status, r.err), replay());
                    }
                }
            }
        }
    };
    c.par(product as u64, judge);
    c.finish()
}
