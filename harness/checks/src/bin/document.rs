//! D01 D02 D03: the language server's copy of an open document.
//!
//! The real `TextDocument` is driven with every document and every edit batch
//! within the bounds; the oracle is an independent model of a text buffer
//! addressed by (line, unit) positions, written from the LSP specification.

#[allow(dead_code)]
use jarl_lsp::document;

use document::{PositionEncoding, TextDocument};
use lsp_types::{Position, Range, TextDocumentContentChangeEvent};
use mcx::*;
use std::collections::HashMap;
use std::sync::Mutex;

const ENCODINGS: [PositionEncoding; 3] =
    [PositionEncoding::UTF8, PositionEncoding::UTF16, PositionEncoding::UTF32];

fn units(c: char, e: PositionEncoding) -> usize {
    match e {
        PositionEncoding::UTF8 => c.len_utf8(),
        PositionEncoding::UTF16 => c.len_utf16(),
        PositionEncoding::UTF32 => 1,
    }
}

// ---------------------------------------------------------------- the model

/// Lines as (first char index, char index of the end of the visible line).
fn model_lines(text: &[char]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut start = 0;
    for i in 0..text.len() {
        if text[i] == '\n' {
            let end = if i > start && text[i - 1] == '\r' { i - 1 } else { i };
            out.push((start, end));
            start = i + 1;
        }
    }
    out.push((start, text.len()));
    out
}

/// Char index a position denotes; None when it denotes no place in the text.
fn model_index(text: &[char], p: Position, e: PositionEncoding) -> Option<usize> {
    let lines = model_lines(text);
    let (start, end) = *lines.get(p.line as usize)?;
    let mut left = p.character as usize;
    let mut i = start;
    while i < end {
        if left == 0 {
            return Some(i);
        }
        let u = units(text[i], e);
        if left < u {
            return None; // inside a character
        }
        left -= u;
        i += 1;
    }
    Some(end) // beyond the end of the line: the end of the line
}

fn model_apply(text: &[char], ch: &Change, e: PositionEncoding) -> Option<Vec<char>> {
    let new: Vec<char> = ch.text.chars().collect();
    let Some(r) = ch.range else { return Some(new) };
    let a = model_index(text, r.start, e)?;
    let b = model_index(text, r.end, e)?;
    if a > b {
        return None;
    }
    let mut out = text[..a].to_vec();
    out.extend(new);
    out.extend(&text[b..]);
    Some(out)
}

#[derive(Clone, Debug)]
struct Change {
    range: Option<Range>,
    text: &'static str,
}

fn to_lsp(c: &Change) -> TextDocumentContentChangeEvent {
    TextDocumentContentChangeEvent { range: c.range, range_length: None, text: c.text.to_string() }
}

// --------------------------------------------------------------- the checks

/// Every position worth sending: each line and one past the last, each unit
/// of the line, two beyond its end, and a huge one.
fn positions(text: &[char], e: PositionEncoding, huge: bool) -> Vec<Position> {
    let lines = model_lines(text);
    let mut out = vec![];
    for (l, (a, b)) in lines.iter().enumerate() {
        // Units of the raw line, line end characters included.
        let raw_end = lines.get(l + 1).map(|n| n.0).unwrap_or(*b);
        let n: usize = text[*a..raw_end].iter().map(|c| units(*c, e)).sum();
        for u in 0..=n + 1 {
            out.push(Position::new(l as u32, u as u32));
        }
        if huge {
            out.push(Position::new(l as u32, u32::MAX));
        }
    }
    out.push(Position::new(lines.len() as u32, 0));
    if huge {
        out.push(Position::new(u32::MAX, 0));
    }
    out
}

fn all_changes(text: &[char], e: PositionEncoding, texts: &[&'static str], huge: bool) -> Vec<Change> {
    let ps = positions(text, e, huge);
    let mut out = vec![];
    for t in texts {
        out.push(Change { range: None, text: t });
    }
    for a in &ps {
        for b in &ps {
            for t in texts {
                out.push(Change { range: Some(Range::new(*a, *b)), text: t });
            }
        }
    }
    out
}

/// Everything a client of the document can see.
fn observe(doc: &TextDocument, deep: bool) -> Result<String, String> {
    catch(|| {
        let mut s = format!("{:?}|{}|{:?}", doc.content(), doc.line_count(), doc.language_id());
        if deep {
            for e in ENCODINGS {
                for l in 0..=doc.line_count() as u32 + 1 {
                    for u in 0..6 {
                        s.push_str(&match doc.position_to_offset(Position::new(l, u), e) {
                            Ok(o) => format!(",{o}"),
                            Err(_) => ",E".into(),
                        });
                    }
                }
                for o in 0..=doc.content().len() + 1 {
                    if doc.content().is_char_boundary(o.min(doc.content().len())) {
                        s.push_str(&match doc.offset_to_position(o, e) {
                            Ok(p) => format!(";{}:{}", p.line, p.character),
                            Err(_) => ";E".into(),
                        });
                    }
                }
            }
        }
        s
    })
}

fn case(text: &str, e: PositionEncoding, batch: &[Change], v0: i32, v1: i32) -> Value {
    json!({
        "text": text, "encoding": format!("{e:?}"), "version": [v0, v1],
        "changes": batch.iter().map(|c| json!({
            "range": c.range.map(|r| json!([r.start.line, r.start.character, r.end.line, r.end.character])),
            "text": c.text})).collect::<Vec<_>>(),
    })
}

/// One batch on a fresh document: D01 judges accepted batches, D02 rejected ones.
fn run_batch(ck: &Check, text: &str, chars: &[char], e: PositionEncoding, batch: &[Change], versions: (i32, i32), deep: bool) -> Option<TextDocument> {
    let mut expect: Option<Vec<char>> = Some(chars.to_vec());
    for c in batch {
        expect = expect.and_then(|t| model_apply(&t, c, e));
    }
    let mut doc = TextDocument::new(text.to_string(), versions.0).with_language_id("r");
    let lsp: Vec<_> = batch.iter().map(to_lsp).collect();
    let got = catch(|| doc.apply_changes(lsp, versions.1, e));
    let got = match got {
        Ok(r) => r.is_ok(),
        Err(p) => {
            if ck.prop == "D01" || ck.prop == "D02" {
                ck.violation("panic", format!("applying {batch:?} ({e:?}) to {text:?} panicked: {p}"), case(text, e, batch, versions.0, versions.1));
            }
            return None;
        }
    };
    let seen = match observe(&doc, deep) {
        Ok(s) => s,
        Err(p) => {
            ck.violation("observe-panic", format!("after {batch:?} ({e:?}) on {text:?}: {p}"), case(text, e, batch, versions.0, versions.1));
            return None;
        }
    };
    // D01: every batch; D02: several edits in one, and edits that are refused.
    let several = ck.prop == "D01" || batch.len() > 1;
    match (&expect, got) {
        (Some(t), true) if several => {
            let t: String = t.iter().collect();
            if doc.content() != t {
                ck.violation("diverged", format!("{batch:?} ({e:?}) on {text:?}: server has {:?}, editor has {t:?}", doc.content()), case(text, e, batch, versions.0, versions.1));
            } else {
                if doc.version() != versions.1 {
                    ck.violation("version", format!("{batch:?} on {text:?}: version {} instead of {}", doc.version(), versions.1), case(text, e, batch, versions.0, versions.1));
                }
                let fresh = TextDocument::new(t.clone(), versions.1).with_language_id("r");
                if observe(&fresh, deep).as_deref() != Ok(seen.as_str()) {
                    ck.violation("stale-index", format!("{batch:?} ({e:?}) on {text:?}: the edited document answers differently from one opened with {t:?}"), case(text, e, batch, versions.0, versions.1));
                }
            }
        }
        (Some(_), false) if several => {
            ck.violation("refused", format!("valid edit {batch:?} ({e:?}) on {text:?} refused"), case(text, e, batch, versions.0, versions.1));
        }
        (None, true) => {
            // An edit that denotes no place must not be applied somewhere else.
            ck.violation("accepted-invalid", format!("{batch:?} ({e:?}) on {text:?} accepted, content now {:?}", doc.content()), case(text, e, batch, versions.0, versions.1));
        }
        (None, false) => {
            let fresh = TextDocument::new(text.to_string(), versions.0).with_language_id("r");
            if doc.version() != versions.0 || doc.content() != text || observe(&fresh, deep || chars.len() < 12) != observe(&doc, deep || chars.len() < 12) {
                ck.violation("half-applied", format!("rejected {batch:?} ({e:?}) changed {text:?} (version {}) to {:?} (version {})", versions.0, doc.content(), doc.version()), case(text, e, batch, versions.0, versions.1));
            }
        }
        _ => {}
    }
    (expect.is_some() && got).then_some(doc)
}

/// Each letter is a unit the editor can insert; CRLF is one letter.
const CORE: [&str; 5] = ["a", "\n", "é", "🌍", "\r\n"];
const WIDE: [&str; 14] = [
    "a", "\n", "é", "🌍", "\r\n", "\t", " ", "\u{feff}", "\u{2028}", "\u{85}", "\u{0}", "e\u{301}", "漢", "\u{c}",
];
const TEXTS: [&str; 6] = ["", "b", "\n", "🌍", "x\r\ny", "é\nz"];
const TEXTS2: [&str; 3] = ["", "b", "é\n"];

fn word(alpha: &[&str], w: &[usize]) -> String {
    w.iter().map(|i| alpha[*i]).collect()
}

fn versions_for(i: u64) -> (i32, i32) {
    [(1, 2), (0, 1), (7, 41), (-3, -1), (i32::MAX - 1, i32::MAX), (1, i32::MAX), (i32::MIN, 0)][(i % 7) as usize]
}

/// The names by which editor and server agree on an encoding.
fn names(ck: &Check) {
    use lsp_types::PositionEncodingKind as K;
    for (kind, e) in [(K::UTF8, PositionEncoding::UTF8), (K::UTF16, PositionEncoding::UTF16), (K::UTF32, PositionEncoding::UTF32)] {
        ck.eval(2);
        let got = catch(|| PositionEncoding::try_from(&kind).ok());
        if got != Ok(Some(e)) {
            ck.violation("encoding", format!("{kind:?} is taken for {got:?}"), json!({"encoding": kind.as_str()}));
        }
        if K::from(e) != kind {
            ck.violation("encoding", format!("{e:?} is announced as {:?}", K::from(e)), json!({"encoding": kind.as_str()}));
        }
    }
    for name in ["", "utf-7", "utf-1", "utf-161", "utf-88", "latin1", "utf-"] {
        ck.eval(1);
        let got = catch(|| PositionEncoding::try_from(&K::new(name)).ok());
        if got != Ok(None) {
            ck.violation("encoding", format!("{name:?} is taken for {got:?}"), json!({"encoding": name}));
        }
    }
    for text in ["", "a\n"] {
        let d = TextDocument::new(text.into(), 4).with_language_id("r");
        if (d.content(), d.version(), d.language_id()) != (text, 4, Some("r")) || TextDocument::new(text.into(), 4).language_id().is_some() {
            ck.violation("opened", format!("a document opened with {text:?}, version 4, language r is {d:?}"), json!({"text": text}));
        }
    }
}

fn edits(ck: &Check) {
    names(ck);
    let singles = AtomicTally::default();
    // 1. Every document over the core letters x every single change.
    let w = Words::new(CORE.len(), ck.pick(4, 5));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        let text = word(&CORE, &ix);
        let chars: Vec<char> = text.chars().collect();
        let mut distinct = std::collections::HashSet::new();
        for e in ENCODINGS {
            for (k, c) in all_changes(&chars, e, &TEXTS, ix.len() <= 3).iter().enumerate() {
                let deep = ix.len() <= 3;
                if let Some(d) = run_batch(ck, &text, &chars, e, std::slice::from_ref(c), versions_for(i + k as u64), deep) {
                    distinct.insert(d.content().to_string());
                    singles.add(1, 1);
                } else {
                    singles.add(1, 0);
                }
            }
        }
        ck.states.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        ck.outcome("distinct_successor_texts", distinct.len() as u64);
    });
    // 2. Every document over the wide letters, short, x every single change.
    let w = Words::new(WIDE.len(), ck.pick(2, 3));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        let text = word(&WIDE, &ix);
        let chars: Vec<char> = text.chars().collect();
        for e in ENCODINGS {
            for (k, c) in all_changes(&chars, e, &["", "q", "\n\u{feff}"], false).iter().enumerate() {
                let r = run_batch(ck, &text, &chars, e, std::slice::from_ref(c), versions_for(i + k as u64), true);
                singles.add(1, r.is_some() as u64);
            }
        }
        ck.states.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    });
    // 3. Batches of two: the second change addresses the text the first left.
    let w = Words::new(CORE.len(), ck.pick(2, 3));
    let pairs = AtomicTally::default();
    let work: Vec<(u64, PositionEncoding)> =
        (0..w.count()).flat_map(|i| ENCODINGS.map(|e| (i, e))).collect();
    ck.par(work.len() as u64, |j| {
        let (i, e) = work[j as usize];
        let mut ix = vec![];
        w.get(i, &mut ix);
        let text = word(&CORE, &ix);
        let chars: Vec<char> = text.chars().collect();
        let texts: &[&'static str] = if ix.len() <= 2 { &TEXTS } else { &TEXTS2 };
        let mut n = 0u64;
        for c1 in all_changes(&chars, e, texts, false) {
            let mid = model_apply(&chars, &c1, e);
            let second = all_changes(mid.as_deref().unwrap_or(&chars), e, &TEXTS2, false);
            for c2 in second {
                let batch = [c1.clone(), c2];
                let r = run_batch(ck, &text, &chars, e, &batch, versions_for(n), false);
                pairs.add(1, r.is_some() as u64);
                n += 1;
            }
            if ck.stopped() {
                return;
            }
        }
    });
    // 4. Batches of three on tiny documents.
    let tiny = ["", "a", "é", "\n", "a\n", "🌍"];
    let triples = AtomicTally::default();
    let work: Vec<(&str, PositionEncoding)> = tiny
        .iter()
        .take(ck.pick(3, 6))
        .flat_map(|t| ENCODINGS.map(|e| (*t, e)))
        .collect();
    let t3: &[&'static str] = &["", "b", "é\n"];
    ck.par(work.len() as u64, |j| {
        let (text, e) = work[j as usize];
        let chars: Vec<char> = text.chars().collect();
        let mut n = 0;
        for c1 in all_changes(&chars, e, t3, false) {
            let Some(m1) = model_apply(&chars, &c1, e) else { continue };
            for c2 in all_changes(&m1, e, t3, false) {
                let Some(m2) = model_apply(&m1, &c2, e) else { continue };
                for c3 in all_changes(&m2, e, &["", "b\n"], false) {
                    let batch = [c1.clone(), c2.clone(), c3];
                    let r = run_batch(ck, text, &chars, e, &batch, versions_for(n), false);
                    triples.add(1, r.is_some() as u64);
                    n += 1;
                }
            }
        }
    });
    // 5. Histories: breadth-first over real, live documents (no reopening):
    // each state is an object reached by edits, each transition one edit.
    struct S {
        doc: TextDocument,
        hist: Vec<(PositionEncoding, Change)>,
        init: String,
    }
    let hist_tr = AtomicTally::default();
    let seen_states: Mutex<HashMap<String, u64>> = Mutex::new(HashMap::new());
    let max_chars = ck.pick(3, 4);
    let init = ["", "a\n"].map(|t| S { doc: TextDocument::new(t.to_string(), 0), hist: vec![], init: t.to_string() });
    let stats = bfs(
        ck,
        init.into_iter().collect(),
        ck.pick(4, 6),
        |s| format!("{:?}|{}|{}", s.doc.content(), s.doc.line_count(), s.hist.last().map(|h| format!("{:?}", h.0)).unwrap_or_default()),
        |s, depth| {
            let chars: Vec<char> = s.doc.content().chars().collect();
            let mut out = vec![];
            let mut n = 0;
            for e in ENCODINGS {
                // A session has one encoding; histories keep theirs.
                if s.hist.first().is_some_and(|h| h.0 != e) {
                    continue;
                }
                for c in all_changes(&chars, e, &["", "b", "é", "🌍", "\n", "\r\n"], false) {
                    n += 1;
                    let expect = model_apply(&chars, &c, e);
                    let mut d = s.doc.clone();
                    let before_version = d.version();
                    let v = before_version + 1 + (n % 3) as i32;
                    let got = catch(|| d.apply_changes(vec![to_lsp(&c)], v, e).is_ok());
                    let mut hist = s.hist.clone();
                    hist.push((e, c.clone()));
                    let replay = || {
                        json!({"open": s.init, "encoding": format!("{e:?}"), "edits": hist.iter().map(|h| json!({
                            "range": h.1.range.map(|r| json!([r.start.line, r.start.character, r.end.line, r.end.character])),
                            "text": h.1.text})).collect::<Vec<_>>()})
                    };
                    hist_tr.add(1, matches!((&expect, &got), (Some(_), Ok(true))) as u64);
                    match (expect, got) {
                        (_, Err(p)) => ck.violation("panic", format!("edit {c:?} ({e:?}) panicked: {p}"), replay()),
                        (Some(t), Ok(true)) => {
                            let t: String = t.iter().collect();
                            if ck.prop == "D01" && (d.content() != t || d.version() != v) {
                                ck.violation("diverged", format!("after {} edits the server has {:?} (version {}), the editor {t:?} (version {v})", hist.len(), d.content(), d.version()), replay());
                            } else if ck.prop == "D01" && observe(&d, true) != observe(&TextDocument::new(t.clone(), v), true) {
                                ck.violation("stale-index", format!("after {} edits the document answers differently from one opened with {t:?}", hist.len()), replay());
                            } else if d.content().chars().count() <= max_chars {
                                out.push(S { doc: d, hist, init: s.init.clone() });
                            }
                        }
                        (Some(t), Ok(false)) => {
                            if ck.prop == "D01" {
                                ck.violation("refused", format!("valid edit refused; the editor now has {:?}", t.iter().collect::<String>()), replay())
                            }
                        }
                        (None, Ok(ok)) => {
                            {
                                if ok {
                                    ck.violation("accepted-invalid", format!("edit {c:?} ({e:?}) on {:?} accepted", s.doc.content()), replay());
                                } else if d.content() != s.doc.content() || d.version() != before_version || observe(&d, true) != observe(&s.doc, true) {
                                    ck.violation("half-applied", format!("rejected edit {c:?} ({e:?}) left {:?}", d.content()), replay());
                                } else if depth + 1 < 3 {
                                    // Life goes on after a rejection.
                                    out.push(S { doc: d, hist, init: s.init.clone() });
                                }
                            }
                        }
                    }
                }
            }
            *seen_states.lock().unwrap().entry(s.doc.content().to_string()).or_insert(0) += n;
            (out, n)
        },
    );
    // 6. Long lines and many lines: single edits at every line / a grid of columns.
    let scale = long_documents(ck);
    ck.transitions.fetch_add(singles.n() + pairs.n() + triples.n() + scale, std::sync::atomic::Ordering::SeqCst);
    let total = singles.n() + pairs.n() + triples.n() + hist_tr.n() + scale;
    ck.eval(total);
    ck.validated.fetch_add(singles.ok() + pairs.ok() + triples.ok() + hist_tr.ok() + scale, std::sync::atomic::Ordering::SeqCst);
    ck.extra("single_changes", json!({"run": singles.n(), "valid": singles.ok()}));
    ck.extra("two_change_batches", json!({"run": pairs.n(), "valid": pairs.ok()}));
    ck.extra("three_change_batches", json!({"run": triples.n(), "valid": triples.ok()}));
    ck.extra("live_histories", json!({"states": stats.states, "transitions": stats.transitions, "depth": stats.depth, "texts": seen_states.lock().unwrap().len()}));
    ck.extra("long_document_edits", scale);
    ck.sample(case("a\né", PositionEncoding::UTF16, &[Change { range: Some(Range::new(Position::new(0, 1), Position::new(1, 1))), text: "🌍" }], 1, 2));
    ck.sample(case("", PositionEncoding::UTF8, &[Change { range: None, text: "x\r\ny" }, Change { range: Some(Range::new(Position::new(0, 0), Position::new(0, 9))), text: "" }], 1, 2));
}

fn long_documents(ck: &Check) -> u64 {
    let mut docs: Vec<String> = vec![];
    docs.push((0..40).map(|i| format!("x{i} <- any(is.na(y{i})) # é🌍\n")).collect());
    docs.push((0..40).map(|i| format!("x{i} <- \"漢字\"\r\n")).collect());
    docs.push("é".repeat(300) + "\n" + &"🌍".repeat(300));
    docs.push("a".repeat(70_000) + "\n🌍z");
    docs.push("\n".repeat(70_000) + "é");
    let n = std::sync::atomic::AtomicU64::new(0);
    let work: Vec<(usize, PositionEncoding)> = (0..docs.len()).flat_map(|d| ENCODINGS.map(|e| (d, e))).collect();
    ck.par(work.len() as u64, |j| {
        let (d, e) = work[j as usize];
        let text = &docs[d];
        let chars: Vec<char> = text.chars().collect();
        let lines = model_lines(&chars);
        let pick = |n: usize| -> Vec<usize> {
            if n <= 45 {
                (0..n).collect()
            } else {
                let mut v = vec![0, 1, 127, 128, 255, 256, 299, 300, 32767, 32768, 65535, 65536, n - 2, n - 1];
                v.retain(|x| *x < n);
                v.sort();
                v.dedup();
                v
            }
        };
        let mut ps = vec![];
        for l in pick(lines.len()) {
            let (a, b) = lines[l];
            for k in pick(b - a + 1) {
                let u: usize = chars[a..a + k].iter().map(|c| units(*c, e)).sum();
                ps.push(Position::new(l as u32, u as u32));
            }
        }
        let big = chars.len() > 10_000;
        let stride = if big { 1 } else { ps.len() / ck.pick(60, 250) + 1 };
        let ps: Vec<_> = ps.into_iter().step_by(stride).collect();
        for a in &ps {
            for b in &ps {
                if big && !ck.thorough() && (a.line != b.line && b.line != a.line + 1) && b != ps.last().unwrap() {
                    continue;
                }
                let c = Change { range: Some(Range::new(*a, *b)), text: "Ω\n" };
                run_batch(ck, text, &chars, e, &[c], (1, 2), false);
                n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
        }
    });
    n.into_inner()
}

#[derive(Default)]
struct AtomicTally(std::sync::atomic::AtomicU64, std::sync::atomic::AtomicU64);
impl AtomicTally {
    fn add(&self, n: u64, ok: u64) {
        self.0.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        self.1.fetch_add(ok, std::sync::atomic::Ordering::Relaxed);
    }
    fn n(&self) -> u64 {
        self.0.load(std::sync::atomic::Ordering::Relaxed)
    }
    fn ok(&self) -> u64 {
        self.1.load(std::sync::atomic::Ordering::Relaxed)
    }
}

// D03 ------------------------------------------------------------------------

fn conversions_of(ck: &Check, text: &str, tally: &AtomicTally) {
    let chars: Vec<char> = text.chars().collect();
    let doc = TextDocument::new(text.to_string(), 1);
    let lines = model_lines(&chars);
    let bytes_at: Vec<usize> = {
        let mut v = vec![0];
        for c in &chars {
            v.push(v.last().unwrap() + c.len_utf8());
        }
        v
    };
    if doc.line_count() != lines.len() {
        ck.violation("line-count", format!("{text:?}: {} lines instead of {}", doc.line_count(), lines.len()), json!({"text": text}));
    }
    for e in ENCODINGS {
        // Position -> offset, every position, valid or not.
        for p in positions(&chars, e, true) {
            let want = model_index(&chars, p, e).map(|i| bytes_at[i]);
            let replay = || json!({"text": text, "encoding": format!("{e:?}"), "position": [p.line, p.character]});
            match catch(|| doc.position_to_offset(p, e)) {
                Err(m) => ck.violation("panic", format!("position {p:?} ({e:?}) in {text:?}: {m}"), replay()),
                Ok(r) => {
                    if r.as_ref().ok().copied() != want {
                        ck.violation("position-to-offset", format!("position {p:?} ({e:?}) in {text:?}: got {r:?}, expected {want:?}"), replay());
                    }
                    tally.add(1, r.is_ok() as u64);
                }
            }
        }
        // Offset -> position, every byte offset.
        for o in 0..=text.len() + 2 {
            let replay = || json!({"text": text, "encoding": format!("{e:?}"), "offset": o});
            let idx = bytes_at.binary_search(&o).ok();
            match catch(|| doc.offset_to_position(o, e)) {
                Err(m) => ck.violation("panic", format!("offset {o} ({e:?}) in {text:?}: {m}"), replay()),
                Ok(r) => {
                    tally.add(1, r.is_ok() as u64);
                    match idx {
                        None if o > text.len() => {
                            if r.is_ok() {
                                ck.violation("offset-out-of-range", format!("offset {o} in {text:?} gave {r:?}"), replay());
                            }
                        }
                        None => {} // inside a character: any answer, but no panic
                        Some(i) => {
                            let l = lines.iter().rposition(|x| x.0 <= i).unwrap();
                            if i > lines[l].1 {
                                continue; // between \r and \n: no position denotes it
                            }
                            let u: usize = chars[lines[l].0..i].iter().map(|c| units(*c, e)).sum();
                            let want = Position::new(l as u32, u as u32);
                            if r.as_ref().ok() != Some(&want) {
                                ck.violation("offset-to-position", format!("offset {o} ({e:?}) in {text:?}: got {r:?}, expected {want:?}"), replay());
                            }
                            // Round trip.
                            let back = catch(|| doc.position_to_offset(want, e).ok());
                            if back != Ok(Some(o)) {
                                ck.violation("round-trip", format!("offset {o} ({e:?}) in {text:?} came back as {back:?}"), replay());
                            }
                        }
                    }
                }
            }
        }
        // Ranges.
        if chars.len() <= 4 {
            for (i, a) in bytes_at.iter().enumerate() {
                for b in &bytes_at[i..] {
                    let r = catch(|| doc.range_of_text(*a, *b, e).ok());
                    let want = (doc.offset_to_position(*a, e).ok()).zip(doc.offset_to_position(*b, e).ok());
                    tally.add(1, 1);
                    match (r, want) {
                        (Ok(Some(r)), Some((x, y))) if r.start == x && r.end == y => {}
                        (r, _) => ck.violation("range", format!("range {a}..{b} ({e:?}) in {text:?}: {r:?}"), json!({"text": text, "range": [a, b]})),
                    }
                }
            }
        }
    }
}

fn conversions(ck: &Check) {
    names(ck);
    let t = AtomicTally::default();
    let texts = std::sync::atomic::AtomicU64::new(0);
    let w = Words::new(CORE.len(), ck.pick(7, 9));
    let wide = Words::new(WIDE.len(), ck.pick(4, 5));
    for (alpha, w) in [(&CORE[..], w), (&WIDE[..], wide)] {
        ck.par(w.count(), |i| {
            let mut ix = vec![];
            w.get(i, &mut ix);
            conversions_of(ck, &word(alpha, &ix), &t);
            texts.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        });
    }
    // Scaled: long lines, many lines, every offset of the first, a grid of the rest.
    let long = [
        (0..300).map(|i| format!("x{i} é🌍 漢\n")).collect::<String>(),
        (0..260).map(|i| format!("y{i} é🌍\r\n")).collect::<String>(),
        "🌍é".repeat(400),
    ];
    ck.par(long.len() as u64, |i| {
        conversions_of(ck, &long[i as usize], &t);
        texts.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    });
    let huge = ["a".repeat(70_000) + "é\n🌍", "\n".repeat(70_000) + "é🌍"];
    for text in &huge {
        let doc = TextDocument::new(text.clone(), 1);
        for e in ENCODINGS {
            for o in (0..text.len()).step_by(997).chain([65535, 65536, 69_999, 70_000, text.len()]) {
                if !text.is_char_boundary(o) {
                    continue;
                }
                let line = text[..o].matches('\n').count();
                let ls = text[..o].rfind('\n').map(|x| x + 1).unwrap_or(0);
                let u: usize = text[ls..o].chars().map(|c| units(c, e)).sum();
                let want = Position::new(line as u32, u as u32);
                let got = catch(|| doc.offset_to_position(o, e).ok());
                let back = catch(|| doc.position_to_offset(want, e).ok());
                t.add(2, 2);
                if got != Ok(Some(want)) || back != Ok(Some(o)) {
                    ck.violation("large-document", format!("offset {o} ({e:?}) of a {}-byte document: {got:?} / {back:?}, expected {want:?}", text.len()), json!({"offset": o, "len": text.len()}));
                }
            }
        }
    }
    ck.eval(t.n());
    ck.nontriv(t.ok());
    ck.extra("documents", texts.into_inner());
    ck.sample(json!({"text": "é\r\n🌍", "encoding": "UTF16", "position": [0, 9], "offset": 2}));
    ck.sample(json!({"text": "a🌍\n", "encoding": "UTF16", "position": [0, 2], "offset": null}));
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    match prop.as_str() {
        "D01" | "D02" => {
            let ck = Check::new(&prop, "model_checking");
            ck.rule("state = live document object reached by edits (plus every document over the letters up to the bound); transition = one change batch: every ordered pair of positions (every unit of every line, beyond line end, beyond the last line) x inserted texts, for UTF-8/16/32; every transition runs the real code and is compared with a character-array buffer model");
            ck.assume("texts end lines with LF or CRLF; a lone CR is not explored");
            edits(&ck);
            ck.finish()
        }
        "D03" => {
            let ck = Check::new(&prop, "exploration");
            ck.rule("every document over the letters up to the bound x every position and every byte offset x UTF-8/16/32; non-trivial = the conversion yields a place (not an error)");
            ck.assume("texts end lines with LF or CRLF; a lone CR is not explored");
            conversions(&ck);
            ck.finish()
        }
        _ => panic!("unknown property"),
    }
}
