//! The language server under every order in which its threads can run:
//! E03 what it publishes last, E04 its answers.
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use mcstd::sched;
use mcx::{json, Check, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        p @ ("E03" | "E04") => explore(p),
        _ => {
            eprintln!("server E03 E04");
            std::process::exit(2)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum M {
    Open(usize),
    /// A change to other code that can be parsed.
    Change(usize),
    /// A change to something that cannot.
    Break(usize),
    /// A change whose range is not in the document.
    BadChange(usize),
    Save(usize),
    Close(usize),
    /// Code actions for the whole document.
    Action(usize),
    /// Requests that are not understood.
    BadAction,
    NoParams,
    Unknown,
    Again,
    /// Notifications that are not understood.
    BadOpen,
    BadSave,
    BadClose,
    Strange,
    Cancel,
    /// An answer to nothing.
    Stray,
    Shutdown,
    Exit,
}
use M::*;

/// `n` violations, one per line.
fn text(n: usize) -> String {
    "any(is.na(x))\n".repeat(n)
}

struct Doc {
    open: bool,
    /// How many violations it has; `None` if it cannot be parsed.
    now: Option<usize>,
    /// What it was when it was last saved, if that was since it was opened.
    saved: Option<(Option<usize>, i32)>,
    version: i32,
}
enum Expect {
    /// An answer of any kind.
    Any,
    Error,
    Params,
    Method,
    Null,
    Invalid,
    /// So many code actions at least, or an error, all of them in this document.
    Actions(Option<usize>, String),
    /// An error or no code action: the document is not open.
    NoActions,
}
struct Plan {
    messages: Vec<Message>,
    answers: Vec<(RequestId, Expect)>,
    docs: Vec<Doc>,
}
fn uri(dir: &std::path::Path, d: usize) -> String {
    lsp_types::Url::from_file_path(dir.join(format!("doc{d}.R"))).unwrap().to_string()
}

/// The messages of a history and what they call for. `None` if an editor would not send it.
fn plan(dir: &std::path::Path, h: &[M], strict: bool) -> Option<Plan> {
    let mut p = Plan { messages: vec![], answers: vec![], docs: (0..3).map(|_| Doc { open: false, now: None, saved: None, version: 0 }).collect() };
    let note = |m: &str, v: Value| Message::Notification(Notification { method: m.into(), params: v });
    p.messages.push(Message::Request(Request { id: RequestId::from(0), method: "initialize".into(), params: json!({"capabilities": {}}) }));
    p.answers.push((RequestId::from(0), Expect::Any));
    p.messages.push(note("initialized", json!({})));
    let mut lines = 0;
    let mut down = false;
    for (k, m) in h.iter().enumerate() {
        // Answers are due for whatever kind of id.
        let id = if k % 2 == 0 { RequestId::from(k as i32 + 1) } else { RequestId::from(format!("q{k}")) };
        let ask = |p: &mut Plan, method: &str, params: Value, e: Expect| {
            p.messages.push(Message::Request(Request { id: id.clone(), method: method.into(), params }));
            p.answers.push((id.clone(), if down { Expect::Invalid } else { e }));
        };
        match *m {
            Open(d) => {
                let x = &mut p.docs[d];
                if x.open {
                    return None;
                }
                lines += 1;
                *x = Doc { open: true, now: Some(lines), saved: None, version: x.version + 1 };
                p.messages.push(note("textDocument/didOpen", json!({"textDocument": {"uri": uri(dir, d), "languageId": "r", "version": x.version, "text": text(lines)}})));
            }
            Change(d) | Break(d) | BadChange(d) => {
                let x = &mut p.docs[d];
                if !x.open && strict {
                    return None;
                }
                let v = x.version + 1;
                let change = match m {
                    Change(_) => {
                        lines += 1;
                        json!([{"text": text(lines)}])
                    }
                    Break(_) => json!([{"text": "f("}]),
                    _ => json!([{"range": {"start": {"line": 3, "character": 9}, "end": {"line": 1, "character": 0}}, "text": "x"}]),
                };
                if x.open && !matches!(m, BadChange(_)) {
                    x.version = v;
                    x.now = matches!(m, Change(_)).then_some(lines);
                }
                p.messages.push(note("textDocument/didChange", json!({"textDocument": {"uri": uri(dir, d), "version": v}, "contentChanges": change})));
            }
            Save(d) => {
                let x = &mut p.docs[d];
                if !x.open && strict {
                    return None;
                }
                if x.open {
                    x.saved = Some((x.now, x.version));
                }
                p.messages.push(note("textDocument/didSave", json!({"textDocument": {"uri": uri(dir, d)}})));
            }
            Close(d) => {
                let x = &mut p.docs[d];
                if !x.open && strict {
                    return None;
                }
                x.open = false;
                x.saved = None;
                p.messages.push(note("textDocument/didClose", json!({"textDocument": {"uri": uri(dir, d)}})));
            }
            Action(d) => {
                let e = if p.docs[d].open { Expect::Actions(p.docs[d].now, uri(dir, d)) } else { Expect::NoActions };
                ask(&mut p, "textDocument/codeAction", json!({"textDocument": {"uri": uri(dir, d)}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 99, "character": 0}}, "context": {"diagnostics": []}}), e);
            }
            BadAction => ask(&mut p, "textDocument/codeAction", json!({"textDocument": {"uri": 1}}), Expect::Params),
            NoParams => ask(&mut p, "textDocument/codeAction", Value::Null, Expect::Params),
            Unknown => ask(&mut p, "textDocument/strange", json!({}), Expect::Method),
            Again => ask(&mut p, "initialize", json!({"capabilities": {}}), Expect::Error),
            BadOpen => p.messages.push(note("textDocument/didOpen", json!({"textDocument": {"uri": uri(dir, 0)}}))),
            BadSave => p.messages.push(note("textDocument/didSave", json!([1]))),
            BadClose => p.messages.push(note("textDocument/didClose", json!({"textDocument": {"uri": "::"}}))),
            Strange => p.messages.push(note("$/strange", json!({"a": [1]}))),
            Cancel => p.messages.push(note("$/cancelRequest", json!({"id": 1}))),
            Stray => p.messages.push(Message::Response(Response { id: RequestId::from(77), result: Some(json!(1)), error: None })),
            Shutdown => {
                ask(&mut p, "shutdown", Value::Null, Expect::Null);
                down = true;
            }
            Exit => p.messages.push(note("exit", Value::Null)),
        }
    }
    Some(p)
}

type Outcomes = Mutex<BTreeMap<String, u64>>;
/// One execution: everything is in the channel before the server starts; a server
/// that waits is the same as one that has not been scheduled.
fn execute(dir: &std::path::Path, h: &[M], prop: &str, workers: usize, outcomes: &Outcomes) -> Result<(), (String, String)> {
    let bad = |s: &str, w: String| Err((s.to_string(), w));
    let p = plan(dir, h, prop == "E03").unwrap();
    let (server, editor) = Connection::memory();
    for m in p.messages {
        editor.sender.send(m).unwrap();
    }
    let Connection { sender, receiver } = editor;
    drop(sender);
    let result = lsp_mc::Server::new(workers.try_into().unwrap(), server).and_then(|s| s.run());
    sched::join_all();
    let mut got = vec![];
    while let Ok(m) = receiver.try_recv() {
        got.push(m);
    }
    let mut order = vec![];
    // What the editor shows
    let mut shown: BTreeMap<String, (Value, usize)> = BTreeMap::new();
    let mut answers: Vec<Response> = vec![];
    for m in got {
        match m {
            Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => {
                let d = n.params["diagnostics"].as_array().map_or(0, Vec::len);
                order.push(d.to_string());
                shown.insert(n.params["uri"].as_str().unwrap_or_default().into(), (n.params["version"].clone(), d));
            }
            Message::Response(r) => {
                order.push(format!("a{}", r.id));
                answers.push(r)
            }
            _ => {}
        }
    }
    *outcomes.lock().unwrap().entry(order.join(" ")).or_insert(0) += 1;
    if let Err(e) = result {
        return bad("failed", format!("the server ended with: {e}"));
    }
    let shows = |k: usize| -> Result<(), (String, String)> {
        let d = &p.docs[k];
        let seen = shown.get(&uri(dir, k)).cloned();
        let n = seen.as_ref().map_or(0, |s| s.1);
        match d.saved {
            None if n != 0 && !d.open => bad("closed", format!("{n} diagnostics are left for a document that is closed")),
            None if n != 0 => bad("reopened", format!("{n} diagnostics are shown for a document that was not saved since it was opened")),
            Some((Some(want), version)) => {
                if n != want {
                    return bad("stale", format!("{n} diagnostics are shown for a document that was saved with {want}"));
                }
                match seen {
                    Some((v, _)) if v.is_null() || v == json!(version) => Ok(()),
                    Some((v, _)) => bad("version", format!("the diagnostics of version {version} are shown as those of version {v}")),
                    None => Ok(()),
                }
            }
            _ => Ok(()),
        }
    };
    if prop == "E03" {
        for k in 0..p.docs.len() {
            shows(k)?;
        }
        return Ok(());
    }
    for (id, e) in &p.answers {
        let mine: Vec<&Response> = answers.iter().filter(|r| r.id == *id).collect();
        let [a] = mine[..] else {
            return bad(if mine.is_empty() { "unanswered" } else { "answered twice" }, format!("request {id} got {} answers", mine.len()));
        };
        let code = a.error.as_ref().map(|e| e.code);
        let fine = match e {
            Expect::Any => true,
            Expect::Error => code.is_some(),
            Expect::Params => code == Some(-32602),
            Expect::Method => code == Some(-32601),
            Expect::Invalid => code == Some(-32600),
            Expect::Null => code.is_none() && a.result.as_ref().is_none_or(Value::is_null),
            Expect::Actions(n, uri) => {
                let v = a.result.as_ref().and_then(Value::as_array);
                n.is_none_or(|n| v.is_some_and(|v| v.len() >= n)) && v.is_none_or(|v| v.iter().all(|x| x["edit"]["changes"].as_object().is_none_or(|m| m.keys().all(|k| k == uri))))
            }
            Expect::NoActions => code.is_some() || a.result.as_ref().is_none_or(|r| r.is_null() || r.as_array().is_some_and(Vec::is_empty)),
        };
        if !fine {
            return bad("answer", format!("request {id} was answered with {:?}, {:?}", a.result, code));
        }
    }
    if let Some(r) = answers.iter().find(|r| p.answers.iter().all(|a| a.0 != r.id)) {
        return bad("stray", format!("an answer to {}, which was never asked", r.id));
    }
    shows(2)
}

fn explore(prop: &str) {
    let c = Check::new(prop, "model_checking");
    sched::quiet_steps();
    let workers = if c.thorough() { 3 } else { 2 };
    match prop {
        "E03" => c.rule("for every history of opening, changing, saving and closing two documents up to the bound, under every interleaving of the real server's main loop and workers: when the server has come to rest the last diagnostics published for a document that is open are those of what was last saved, and there are none for a document that is closed or was not saved since it was opened"),
        _ => c.rule("for every sequence of requests and notifications up to the bound, well-formed or not, under every interleaving of the real server's threads: every request gets exactly one answer of the right kind (code actions only for a document that is open, and only edits of it), nothing else is answered, and afterwards the server still publishes diagnostics, answers, and ends in order"),
    }
    c.assume("all messages are in the channel when the server starts, which is the same as messages that arrive while it is not scheduled; the memory model is sequential consistency; where several channels are ready the selection is explored");
    if prop == "E03" {
        c.assume("what is shown while the last saved text cannot be parsed is not judged");
    }
    let dir: PathBuf = {
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("verif-{prop}-{}", std::process::id()));
        let _ = std::fs::create_dir(&d);
        d.canonicalize().expect("scratch directory")
    };
    mcx::remove_at_end(&dir);
    std::env::set_current_dir(&dir).unwrap();
    // No other thread runs yet
    unsafe { std::env::set_var("HOME", &dir) };
    const ALL3: &[M] = &[Open(0), Change(0), Break(0), Save(0), Close(0), Open(1), Save(1), Close(1)];
    const ALL4: &[M] = &[
        Open(0), Change(0), Save(0), Close(0), Action(0), Action(1), Break(0), BadChange(0), BadAction, NoParams, Unknown, Again, BadOpen, BadSave, BadClose, Strange, Cancel, Stray, Shutdown, Save(1), Close(1), Change(1),
    ];
    let alphabet = if prop == "E03" { ALL3 } else { ALL4 };
    let full = |w: &[usize]| -> Vec<M> {
        let mut h: Vec<M> = w.iter().map(|i| alphabet[*i]).collect();
        if prop == "E04" {
            if !h.contains(&Shutdown) {
                h.extend([Open(2), Save(2), Action(2), Shutdown]);
            }
            h.push(Exit);
        }
        h
    };
    let outcomes: Outcomes = Mutex::default();
    let replay = |h: &[usize], s: &[usize]| json!({"history": h, "schedule": s, "workers": workers});
    let nums = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    if let Some(r) = c.replay() {
        let w = nums(&r["history"]);
        let h = full(&w);
        let n = r["workers"].as_u64().unwrap() as usize;
        let s = nums(&r["schedule"]);
        c.eval(1);
        if let Err((sig, what)) = sched::replay(&s, 20_000, &|| execute(&dir, &h, prop, n, &outcomes)) {
            c.violation(&sig, format!("{h:?}: {what}"), r.clone());
        }
        c.finish();
    }
    let depth = match (prop, c.thorough()) {
        ("E03", false) => std::env::var("MC_DEPTH").map_or(5, |d| d.parse().unwrap()),
        ("E03", true) => 6,
        (_, false) => std::env::var("MC_DEPTH").map_or(2, |d| d.parse().unwrap()),
        _ => 3,
    };
    let mut words: Vec<Vec<usize>> = (0..=depth)
        .flat_map(|n| {
            let mut all = vec![vec![]];
            for _ in 0..n {
                all = all.into_iter().flat_map(|w: Vec<usize>| (0..alphabet.len()).map(move |i| { let mut v = w.clone(); v.push(i); v })).filter(|w| plan(&dir, &full(w), prop == "E03").is_some()).collect();
            }
            all
        })
        // The last message of a history that matters
        .filter(|w| prop == "E04" || w.last().is_some_and(|i| matches!(alphabet[*i], Save(_) | Close(_) | Open(_))) && w.iter().any(|i| matches!(alphabet[*i], Save(_))))
        .collect();
    if prop == "E04" {
        // ... and with a document open already
        let more: Vec<Vec<usize>> = words.iter().filter(|w| w.len() == depth).map(|w| std::iter::once(0).chain(w.iter().copied()).collect()).collect();
        words.extend(more.into_iter().filter(|w: &Vec<usize>| w.len() <= 3 && plan(&dir, &full(w), false).is_some()));
    }
    c.extra("histories", json!(words.len()));
    let capped = std::sync::atomic::AtomicU64::new(0);
    c.par(words.len() as u64, |i| {
        let w = &words[i as usize];
        let h = full(w);
        let mine: Outcomes = Mutex::default();
        let o = sched::explore(50_000, 20_000, &|| execute(&dir, &h, prop, workers, &mine));
        for (k, n) in mine.lock().unwrap().iter() {
            *outcomes.lock().unwrap().entry(k.clone()).or_insert(0) += n;
        }
        c.states.fetch_add(o.executions, SeqCst);
        c.transitions.fetch_add(o.transitions, SeqCst);
        // For a comparison of reductions (see MC_COARSE)
        if std::env::var_os("MC_SHOW").is_some() {
            println!("{h:?} {:?} {:?}", mine.lock().unwrap().keys(), o.failure.as_ref().map(|f| &f.1));
            return;
        }
        c.eval(1);
        c.nontriv((o.executions > 1) as u64);
        if o.capped {
            capped.fetch_add(1, SeqCst);
        }
        if let Some((s, sig, what)) = o.failure {
            c.violation(&sig, format!("{h:?}: {what} (one of the interleavings)"), replay(w, &s));
        }
    });
    c.extra("histories not explored completely", json!(capped.into_inner()));
    c.extra("different outcomes", json!(outcomes.lock().unwrap().len()));
    c.finish()
}
