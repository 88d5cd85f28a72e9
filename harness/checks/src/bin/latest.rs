//! C04: of several lintings of a document, only the latest is published, under
//! every interleaving of the main loop and the tasks that lint.

use client_mc::client::Client;
use lsp_server::Message;
use lsp_types::{Diagnostic, Position, Range, Url};
use mcstd::sched::{self, chan};
use mcx::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
enum Op {
    /// A linting of document 0 or 1 begins (main loop).
    Start(usize),
    /// The document is closed (main loop).
    Close(usize),
    /// The n-th linting that began is done, with or without findings.
    Done(usize),
    Empty(usize),
    /// The editor goes away.
    Gone,
}
use Op::*;
type Scenario = Vec<Vec<Op>>;

fn url(d: usize) -> Url {
    Url::parse(&format!("file:///p%C3%A9/{d}.R")).unwrap()
}

/// Something that happened to a document, with the moments it began and ended.
#[derive(Clone, Debug)]
struct Event {
    doc: usize,
    /// The linting's number, or none when the document was closed.
    lint: Option<usize>,
    begin: usize,
    end: usize,
}

fn versions() -> Vec<Option<i32>> {
    vec![None, Some(i32::MIN), Some(-1), Some(0), Some(1), Some(2), Some(i32::MAX)]
}
fn places() -> Vec<Url> {
    ["file:///a.R", "file:///p%C3%A9/a%20b.R", "untitled:Untitled-1", "file://server/share/a.R", "vscode-vfs://github/a/b.R?x=1#y"].iter().map(|u| Url::parse(u).unwrap()).collect()
}
/// Findings of every form.
fn forms() -> Vec<Vec<Diagnostic>> {
    use lsp_types::*;
    let at = |a, b, c, d| Range::new(Position::new(a, b), Position::new(c, d));
    let one = |m: &str| Diagnostic { range: at(0, 0, 0, 1), message: m.into(), ..Default::default() };
    let mut v = vec![vec![], vec![one("")], vec![one("a"), one("a")], vec![one("b"), one("a"), one("c")], vec![one("\u{e9} \u{1F600}\n\"\\\u{0}")]];
    v.push(vec![Diagnostic { range: at(3, 7, 1, 2), ..one("backwards") }, Diagnostic { range: at(0, 0, u32::MAX, u32::MAX), ..one("long") }, Diagnostic { range: at(2, 2, 2, 2), ..one("empty") }]);
    for s in [DiagnosticSeverity::ERROR, DiagnosticSeverity::WARNING, DiagnosticSeverity::INFORMATION, DiagnosticSeverity::HINT] {
        v.push(vec![Diagnostic { severity: Some(s), source: Some("jarl".into()), code: Some(NumberOrString::String("rule".into())), ..one("s") }]);
    }
    v.push(vec![Diagnostic {
        code: Some(NumberOrString::Number(0)),
        code_description: Some(CodeDescription { href: Url::parse("https://jarl.etiennebacher.com/rules/x").unwrap() }),
        tags: Some(vec![DiagnosticTag::UNNECESSARY, DiagnosticTag::DEPRECATED]),
        data: Some(json!({"a": [null, 1, "x"]})),
        related_information: Some(vec![DiagnosticRelatedInformation { location: Location::new(Url::parse("file:///b.R").unwrap(), at(1, 2, 3, 4)), message: "there".into() }]),
        ..one("all")
    }]);
    v.push((0..300).map(|i| Diagnostic { range: at(i, 0, i, 1), ..one(&format!("{i}")) }).collect());
    v
}
/// What the latest linting found is what is published, whatever it is.
fn exact(seen: &std::sync::atomic::AtomicU64) -> Result<(), (String, String)> {
    let (tx, rx) = chan::unbounded::<Message>();
    let client = Client::new(tx);
    for u in places() {
        for f in forms() {
            for v in versions() {
                let id = client.start_lint(&u);
                let ok = client.publish_lint(id, u.clone(), f.clone(), v).is_ok();
                let got = match rx.try_recv() {
                    Ok(Message::Notification(n)) => n,
                    x => return Err(("exact".into(), format!("{x:?} instead of findings of {u}"))),
                };
                let mut p = got.params.clone();
                let version = p.as_object_mut().and_then(|o| o.remove("version")).unwrap_or(Value::Null);
                let want = json!({"uri": u, "diagnostics": f});
                if !ok || got.method != "textDocument/publishDiagnostics" || p != want || version != json!(v) {
                    return Err(("exact".into(), format!("published {} (ok: {ok}) for {want} of version {v:?}", got.params)));
                }
                seen.fetch_add(1, SeqCst);
            }
        }
        // Closing removes all of them
        if client.clear_diagnostics(u.clone()).is_err() || !matches!(rx.try_recv(), Ok(Message::Notification(n)) if n.params["uri"] == json!(u) && n.params["diagnostics"] == json!([])) {
            return Err(("exact".into(), format!("closing {u} does not remove its findings")));
        }
        if rx.try_recv().is_ok() {
            return Err(("exact".into(), "something else is sent".into()));
        }
    }
    Ok(())
}

fn body(sc: &Scenario, outcomes: &Mutex<std::collections::BTreeMap<String, u64>>) -> Result<(), (String, String)> {
    let (tx, rx) = chan::unbounded::<Message>();
    let client = Client::new(tx);
    let rx = Arc::new(Mutex::new(Some(rx)));
    #[derive(Default)]
    struct Rec {
        now: usize,
        ids: Vec<(usize, u64)>,
        events: Vec<Event>,
        /// (tag, event, result)
        calls: Vec<(i32, Event, bool)>,
        gone: bool,
        broken: Vec<String>,
    }
    let rec = Arc::new(Mutex::new(Rec::default()));
    let mut hs = vec![];
    for (t, prog) in sc.iter().cloned().enumerate() {
        let (c, rec, rx) = (client.clone(), rec.clone(), rx.clone());
        hs.push(sched::spawn(move || {
            for (k, op) in prog.into_iter().enumerate() {
                let tag = (t * 1000 + k) as i32;
                let tick = || {
                    let mut r = rec.lock().unwrap();
                    r.now += 1;
                    r.now
                };
                match op {
                    Start(d) => {
                        let begin = tick();
                        let n = rec.lock().unwrap().ids.len();
                        let id = c.start_lint(&url(d));
                        let end = tick();
                        let mut r = rec.lock().unwrap();
                        r.ids.push((d, id));
                        r.events.push(Event { doc: d, lint: Some(n), begin, end });
                    }
                    Close(d) => {
                        let begin = tick();
                        let ok = c.clear_diagnostics(url(d)).is_ok();
                        let end = tick();
                        let mut r = rec.lock().unwrap();
                        if !ok && !r.gone {
                            r.broken.push(format!("closing document {d} failed"));
                        }
                        r.events.push(Event { doc: d, lint: None, begin, end });
                    }
                    Done(n) | Empty(n) => {
                        let Some((d, id)) = rec.lock().unwrap().ids.get(n).copied() else { continue };
                        let found = match op {
                            Done(_) => vec![Diagnostic { range: Range::new(Position::new(n as u32, 1), Position::new(n as u32, 2)), message: format!("lint {n}"), ..Default::default() }],
                            _ => vec![],
                        };
                        let begin = tick();
                        let ok = c.publish_lint(id, url(d), found, Some(tag)).is_ok();
                        let end = tick();
                        rec.lock().unwrap().calls.push((tag, Event { doc: d, lint: Some(n), begin, end }, ok));
                    }
                    Gone => {
                        if let Some(r) = rx.lock().unwrap().take() {
                            drop(r);
                            rec.lock().unwrap().gone = true;
                        }
                    }
                }
            }
        }));
    }
    for h in hs {
        if let Err(p) = h.join() {
            std::panic::resume_unwind(p)
        }
    }
    let r = rec.lock().unwrap();
    let fail = |sig: &str, what: String| Err((sig.to_string(), what));
    if let Some(b) = r.broken.first() {
        return fail("error", format!("{b} although the editor is there"));
    }
    if r.gone {
        return Ok(());
    }
    let mut got: Vec<(usize, Option<i32>, usize)> = vec![];
    if let Some(rx) = rx.lock().unwrap().as_ref() {
        while let Ok(m) = rx.try_recv() {
            let Message::Notification(n) = m else { return fail("kind", format!("{m:?}")) };
            if n.method != "textDocument/publishDiagnostics" {
                return fail("kind", format!("{n:?}"));
            }
            let d = (0..2).find(|d| n.params["uri"] == json!(url(*d))).unwrap_or(9);
            got.push((d, n.params["version"].as_i64().map(|v| v as i32), n.params["diagnostics"].as_array().map_or(99, |a| a.len())));
        }
    }
    *outcomes.lock().unwrap().entry(format!("published={} closings={}", got.iter().filter(|g| g.1.is_some()).count(), got.iter().filter(|g| g.1.is_none()).count())).or_insert(0) += 1;
    for (tag, e, ok) in &r.calls {
        if !ok {
            return fail("error", format!("publishing linting {:?} failed although the editor is there", e.lint));
        }
        let n = e.lint.unwrap();
        let times = got.iter().filter(|g| g.1 == Some(*tag)).count();
        if times > 1 {
            return fail("twice", format!("linting {n} was published {times} times by one call"));
        }
        let own = r.events.iter().find(|x| x.lint == Some(n)).unwrap();
        // What happened to the document after the linting began.
        let later = |x: &&Event| x.doc == e.doc && x.begin > own.end;
        if let Some(x) = r.events.iter().filter(later).find(|x| x.end < e.begin)
            && times != 0
        {
            return fail("outdated", format!("linting {n} was published after {:?}", x));
        }
        if times == 0 && !r.events.iter().filter(later).any(|x| x.begin < e.end) {
            return fail("lost", format!("linting {n}, the latest of document {}, was not published", e.doc));
        }
    }
    for d in 0..2 {
        // The editor's view: after a closing nothing older, and never an older linting after a later one.
        let mut newest: Option<usize> = None;
        let mut closings = r.events.iter().filter(|e| e.doc == d && e.lint.is_none()).collect::<Vec<_>>();
        closings.sort_by_key(|e| e.begin);
        let mut closed = closings.into_iter();
        let mut after: Option<&Event> = None;
        for g in got.iter().filter(|g| g.0 == d) {
            match g.1 {
                None => {
                    if g.2 != 0 {
                        return fail("closed", format!("closing document {d} published {} findings", g.2));
                    }
                    after = closed.next();
                    if after.is_none() {
                        return fail("closed", format!("document {d} was cleared too often"));
                    }
                }
                Some(tag) => {
                    let Some((_, e, _)) = r.calls.iter().find(|c| c.0 == tag) else { return fail("kind", format!("{g:?}")) };
                    let n = e.lint.unwrap();
                    if e.doc != d {
                        return fail("document", format!("linting {n} of document {} was published for {d}", e.doc));
                    }
                    let with = sc.iter().enumerate().find_map(|(t, p)| (tag / 1000 == t as i32).then(|| p[(tag % 1000) as usize])).unwrap();
                    if g.2 != matches!(with, Done(_)) as usize {
                        return fail("findings", format!("linting {n} was published with {} findings", g.2));
                    }
                    let own = r.events.iter().find(|x| x.lint == Some(n)).unwrap();
                    if after.is_some_and(|a| own.end < a.begin) {
                        return fail("closed", format!("linting {n} was published after document {d} had been closed"));
                    }
                    if newest.is_some_and(|m| m > n) {
                        return fail("order", format!("linting {n} was published after linting {newest:?}"));
                    }
                    newest = Some(n);
                }
            }
        }
        if closed.next().is_some() {
            return fail("closed", format!("the findings of document {d} stayed when it was closed"));
        }
    }
    Ok(())
}

/// Every word over `ops` of length 1..=n.
fn words(ops: &[Op], n: usize) -> Vec<Vec<Op>> {
    let mut out: Vec<Vec<Op>> = vec![];
    let mut last: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|w| ops.iter().map(move |o| [w.as_slice(), &[*o]].concat())).collect();
        out.extend(last.iter().cloned());
    }
    out
}

fn main() {
    let check = Check::new("C04", "model_checking");
    let mut scs: Vec<Scenario> = vec![];
    let mains = words(&[Start(0), Start(1), Close(0), Close(1)], check.pick(4, 5));
    for m in mains {
        let n = m.iter().filter(|o| matches!(o, Start(_))).count();
        if n == 0 || (m.len() == 5 && n < 3) {
            continue;
        }
        // each linting done once, by one task or spread over two, in either order
        let all: Vec<Op> = (0..n).map(|i| if i % 2 == 0 { Done(i) } else { Empty(i) }).collect();
        let back: Vec<Op> = all.iter().rev().copied().collect();
        scs.push(vec![m.clone(), all.clone()]);
        scs.push(vec![m.clone(), back.clone()]);
        if n >= 2 {
            for mask in 1..(1usize << n) - 1 {
                let part = |b: bool, v: &[Op]| -> Vec<Op> { v.iter().filter(|o| matches!(o, Done(i) | Empty(i) if (mask >> i & 1 == 1) == b)).copied().collect() };
                scs.push(vec![m.clone(), part(true, &all), part(false, &back)]);
            }
        }
        if n == 3 && m.len() <= check.pick(3, 4) {
            scs.push(vec![m.clone(), vec![all[0]], vec![all[1]], vec![all[2]]]);
        }
        // all in the main loop, and without an editor
        scs.push(vec![[m.clone(), all.clone()].concat()]);
        scs.push(vec![[m.clone(), back].concat()]);
        if m.len() <= 3 {
            scs.push(vec![m.clone(), all, vec![Gone]]);
        }
    }
    // Long histories of one thread.
    for w in words(&[Start(0), Start(1), Close(0)], 3) {
        let m = w.repeat(60);
        let n = m.iter().filter(|o| matches!(o, Start(_))).count();
        let mut done = 0;
        // done at once, one late, or all at the end
        for delay in [0usize, 1, 7, 1000] {
            let mut p = vec![];
            let mut begun = 0;
            for o in &m {
                p.push(*o);
                begun += matches!(o, Start(_)) as usize;
                while done + delay < begun {
                    p.push(Done(done));
                    done += 1;
                }
            }
            p.extend((done..n).map(Done));
            done = 0;
            scs.push(vec![p]);
        }
    }
    scs.sort_by_key(|s| (s.iter().map(|p| p.len()).sum::<usize>(), s.len()));
    let mut uniq = std::collections::HashSet::new();
    scs.retain(|s| uniq.insert(format!("{s:?}")));
    let outcomes = Mutex::new(Default::default());
    let horizon = |sc: &Scenario| 400 + 40 * sc.iter().map(|p| p.len()).max().unwrap_or(0).saturating_sub(5);

    if let Some(r) = check.replay() {
        if r["exact"] == true {
            if let Some((_, sig, what)) = sched::explore(1000, 1_000_000, &|| exact(&Default::default())).failure {
                check.violation(&sig, what, r.clone());
            }
            check.finish();
        }
        let sc: Scenario = serde_json::from_value(r["threads"].clone()).expect("threads");
        let schedule: Vec<usize> = serde_json::from_value(r["schedule"].clone()).expect("schedule");
        if let Err((sig, what)) = sched::replay(&schedule, horizon(&sc), &|| body(&sc, &outcomes)) {
            check.violation(&sig, what, r.clone());
        }
        check.finish();
    }
    // Every version, document and form of findings arrives as it is
    let n = versions().len() * forms().len() * places().len();
    let seen = std::sync::atomic::AtomicU64::new(0);
    let out = sched::explore(1000, 100 * n, &|| exact(&seen));
    check.eval(seen.load(SeqCst));
    check.nontriv(seen.load(SeqCst));
    if let Some((_, sig, what)) = out.failure {
        check.violation(&sig, what, json!({"threads": [], "schedule": [], "exact": true}));
    }
    let cap = check.pick(200_000, 5_000_000);
    let pruned = std::sync::atomic::AtomicU64::new(0);
    check.par_named(
        scs.len() as u64,
        "scenario",
        |i| {
            let sc = &scs[i as usize];
            let out = sched::explore(cap, horizon(sc), &|| body(sc, &outcomes));
            check.states.fetch_add(out.executions, SeqCst);
            check.transitions.fetch_add(out.transitions, SeqCst);
            check.validated.fetch_add(out.executions, SeqCst);
            pruned.fetch_add(out.pruned, SeqCst);
            if out.capped {
                check.not_exhaustive(&format!("{cap} executions of {sc:?}"));
            }
            if let Some((schedule, sig, what)) = out.failure {
                check.violation(&sig, format!("{what} [threads {sc:?}]"), json!({"threads": sc, "schedule": schedule}));
            }
        },
        |i| json!({"threads": scs[i as usize]}),
    );
    check.rule("Every form of findings, version and place is published as it is. Scenarios: every sequence of up to four (thorough: five) beginnings of lintings and closings of two documents by the main loop, with the lintings done by one, two or three tasks in every distribution, and long histories of one thread. Per scenario every interleaving of the visible operations up to reordering of independent ones (sleep sets). states = complete executions of the real code; transitions = visible operations executed.");
    check.extra("scenarios", scs.len() as u64);
    check.extra("pruned_executions", pruned.load(SeqCst));
    check.assume("Sequentially consistent memory; the main loop starts and closes documents one after the other.");
    for s in scs.iter().rev().step_by((scs.len() / 8).max(1)).filter(|s| s[0].len() < 20) {
        check.sample(json!({"threads": s}));
    }
    for (k, n) in outcomes.into_inner().unwrap() {
        check.outcome(&k, n);
    }
    check.finish();
}
