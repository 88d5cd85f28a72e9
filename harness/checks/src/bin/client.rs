//! C01 C02 C03: the language server's connection to the editor, under every
//! interleaving of the threads that share it (main loop, lint tasks, the peer).

use client_mc::client::{Client, ToLspError};
use lsp_server::{Message, RequestId, Response, ResponseError};
use lsp_types::{notification::Notification, request::Request};
use mcstd::sched::{self, chan};
use mcx::*;
use serde::{Deserialize, Serialize, Serializer};
use std::cell::RefCell;
use std::sync::Mutex;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

// ------------------------------------------------- what the log reports

thread_local! {
    static LOG: RefCell<Vec<tracing::Level>> = const { RefCell::new(vec![]) };
}
struct Collect;
impl tracing::Subscriber for Collect {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        // Formatting reads the arguments, as a real subscriber would.
        struct V(String);
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                self.0 += &format!("{f}={v:?};");
            }
        }
        let mut v = V(String::new());
        e.record(&mut v);
        LOG.with(|l| l.borrow_mut().push(*e.metadata().level()));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
/// Run `f`; how many warnings or errors did it log?
fn complaints<T>(f: impl FnOnce() -> T) -> (T, usize) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = f();
    let n = LOG.with(|l| l.borrow().iter().filter(|l| **l <= tracing::Level::WARN).count());
    (r, n)
}

// ------------------------------------------------- messages

#[derive(Clone, Debug, Deserialize)]
struct Payload {
    tag: u32,
    text: String,
    broken: bool,
}
impl Serialize for Payload {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.broken {
            return Err(serde::ser::Error::custom("cannot be serialized"));
        }
        (self.tag, &self.text).serialize(s)
    }
}
fn payload(tag: u32, broken: bool) -> Payload {
    Payload { tag, text: format!("p\u{e9}\u{1f600}\"{tag}"), broken }
}
fn wire(tag: u32) -> Value {
    json!([tag, format!("p\u{e9}\u{1f600}\"{tag}")])
}
struct Rq;
impl Request for Rq {
    type Params = Payload;
    type Result = Value;
    const METHOD: &'static str = "test/request";
}
struct Nt;
impl Notification for Nt {
    type Params = Payload;
    const METHOD: &'static str = "test/notification";
}

// ------------------------------------------------- scenarios

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
enum Op {
    /// Ask the editor something.
    Ask,
    /// Ask, with parameters that cannot be serialized.
    AskBroken,
    Notify,
    NotifyBroken,
    /// Answer a request of the editor.
    Answer,
    AnswerBroken,
    AnswerError,
    /// The once-per-session notification.
    Threshold,
    /// The editor reads one message and answers it if it is a request.
    PeerReply,
    /// The same, but it reports an error.
    PeerFail,
    /// The editor answers a request nobody made.
    PeerStray,
    /// The editor answers the same request twice.
    PeerTwice,
    /// Ten seconds pass.
    Time,
    /// Forget requests older than five seconds.
    Sweep,
    /// The editor goes away.
    Close,
}
use Op::*;

type Scenario = Vec<Vec<Op>>;

#[derive(Default)]
struct Rec {
    /// (thread, tag, op, ok)
    sent: Vec<(usize, u32, Op, bool)>,
    /// (count, the answer, was the connection already gone)
    threshold: Vec<(u32, Result<bool, ()>, bool)>,
    got: Vec<Message>,
    accepted: Vec<RequestId>,
    rejected: Vec<RequestId>,
    stray_accepted: bool,
    closed: bool,
    /// The connection was gone before the sending began: (thread, tag, op, ok).
    late: Vec<(usize, u32, Op, bool)>,
    gone: bool,
    timed_out: usize,
}

fn err(sig: &str, what: String) -> Result<(), (String, String)> {
    Err((sig.to_string(), what))
}

fn body(sc: &Scenario, prop: &str, outcomes: &Mutex<std::collections::BTreeMap<String, u64>>) -> Result<(), (String, String)> {
    let (tx, rx) = chan::unbounded::<Message>();
    let client = Client::new(tx);
    let rec = std::sync::Arc::new(Mutex::new(Rec::default()));
    let rx = std::sync::Arc::new(Mutex::new(Some(rx)));
    let mut hs = vec![];
    for (t, prog) in sc.iter().cloned().enumerate() {
        let (c, rec, rx) = (client.clone(), rec.clone(), rx.clone());
        hs.push(sched::spawn(move || {
            for (k, op) in prog.into_iter().enumerate() {
                let tag = (t * 10_000 + k) as u32;
                let gone = rec.lock().unwrap().gone;
                let note = |ok: bool| {
                    let mut r = rec.lock().unwrap();
                    r.sent.push((t, tag, op, ok));
                    if gone {
                        r.late.push((t, tag, op, ok));
                    }
                };
                match op {
                    Ask => note(c.send_request::<Rq>(payload(tag, false), |_| ()).is_ok()),
                    AskBroken => note(c.send_request::<Rq>(payload(tag, true), |_| ()).is_ok()),
                    Notify => note(c.send_notification::<Nt>(payload(tag, false)).is_ok()),
                    NotifyBroken => note(c.send_notification::<Nt>(payload(tag, true)).is_ok()),
                    Answer => note(c.send_response(RequestId::from(tag as i32), payload(tag, false)).is_ok()),
                    AnswerBroken => note(c.send_response(RequestId::from(tag as i32), payload(tag, true)).is_ok()),
                    AnswerError => {
                        let e = anyhow::anyhow!("oops {tag}");
                        // Every other error has no code of its own.
                        let e = if tag % 2 == 0 { e.to_lsp_error_with_code(-32000 - tag as i32) } else { e.to_lsp_error() };
                        note(c.send_error_response(RequestId::from(tag as i32), e).is_ok())
                    }
                    Threshold => {
                        // The very first one hides a single diagnostic.
                        let n = if tag == 0 { 1 } else { 1000 + tag };
                        let r = c.notify_unused_fn_threshold_once(n as usize).map_err(|_| ());
                        rec.lock().unwrap().threshold.push((n, r, gone));
                    }
                    PeerReply | PeerFail | PeerTwice => {
                        // Only one thread plays the editor.
                        let r = rx.lock().unwrap().take();
                        let Some(r) = r else { continue };
                        let m = r.recv();
                        *rx.lock().unwrap() = Some(r);
                        let Ok(m) = m else { continue };
                        rec.lock().unwrap().got.push(m.clone());
                        if let Message::Request(q) = m {
                            let resp = |id: RequestId| Response {
                                id,
                                result: if op == PeerFail { None } else { Some(json!(null)) },
                                error: if op == PeerFail {
                                    Some(ResponseError { code: -1, message: "no".into(), data: None })
                                } else {
                                    None
                                },
                            };
                            for round in 0..if op == PeerTwice { 2 } else { 1 } {
                                let (_, n) = complaints(|| c.handle_response(resp(q.id.clone())));
                                let mut g = rec.lock().unwrap();
                                if op == PeerFail {
                                    // Reported as an error either way: settled by the sweep below.
                                } else if n == 0 {
                                    g.accepted.push(q.id.clone())
                                } else if round == 0 {
                                    g.rejected.push(q.id.clone())
                                }
                            }
                        }
                    }
                    PeerStray => {
                        let (_, n) = complaints(|| {
                            c.handle_response(Response { id: RequestId::from(777_777), result: Some(json!(1)), error: None });
                            c.handle_response(Response {
                                id: RequestId::from("1".to_string()),
                                result: Some(json!(1)),
                                error: None,
                            });
                        });
                        if n < 2 {
                            rec.lock().unwrap().stray_accepted = true
                        }
                    }
                    Time => sched::advance(10_000_000_000),
                    Sweep => {
                        let (_, n) = complaints(|| c.cleanup_pending_requests(Duration::from_secs(5)));
                        rec.lock().unwrap().timed_out += n;
                    }
                    Close => {
                        let r = rx.lock().unwrap().take();
                        rec.lock().unwrap().closed = true;
                        // Some(_): nobody else holds the receiver.
                        if r.is_some() {
                            drop(r);
                            rec.lock().unwrap().gone = true;
                        }
                    }
                }
            }
        }));
    }
    for h in hs {
        if let Err(p) = h.join() {
            std::panic::resume_unwind(p)
        }
    }
    // Quiescence: what is still in the channel, and what is still pending.
    if let Some(r) = rx.lock().unwrap().as_ref() {
        while let Ok(m) = r.try_recv() {
            rec.lock().unwrap().got.push(m);
        }
    }
    // A sweep with a long patience forgets nothing of what is younger.
    let (_, young) = complaints(|| client.cleanup_pending_requests(Duration::from_secs(86_400)));
    sched::advance(1);
    let (_, left) = complaints(|| client.cleanup_pending_requests(Duration::ZERO));
    sched::advance(1);
    let (_, after) = complaints(|| client.cleanup_pending_requests(Duration::ZERO));
    let g = rec.lock().unwrap();

    *outcomes
        .lock()
        .unwrap()
        .entry(format!(
            "got={} accepted={} rejected={} timed_out={} left={left} thr={}",
            g.got.len(),
            g.accepted.len(),
            g.rejected.len(),
            g.timed_out,
            g.threshold.iter().filter(|t| t.1 == Ok(true)).count()
        ))
        .or_insert(0) += 1;

    if let Some((t, tag, op, _)) = g.late.iter().find(|l| l.3 && prop == "C03") {
        return err("lost-but-ok", format!("thread {t}: {op:?} #{tag} was reported as sent although the connection was already closed"));
    }
    let asked_ok = g.sent.iter().filter(|s| s.2 == Ask && s.3).count();
    let has = |o: Op| sc.iter().flatten().any(|x| *x == o);
    match prop {
        "C01" => {
            let ids: Vec<&RequestId> =
                g.got.iter().filter_map(|m| if let Message::Request(r) = m { Some(&r.id) } else { None }).collect();
            let distinct: std::collections::HashSet<_> = ids.iter().collect();
            if distinct.len() != ids.len() {
                return err("duplicate-id", format!("two requests carry the same id: {ids:?}"));
            }
            for s in &g.sent {
                if s.2 == AskBroken && s.3 {
                    return err("broken-ok", "a request that cannot be serialized was reported as sent".into());
                }
            }
            if !g.closed && g.sent.iter().any(|s| s.2 == Ask && !s.3) {
                return err("send-failed", "a request failed although the connection was open".into());
            }
            if !has(Sweep) && !g.rejected.is_empty() {
                return err(
                    "response-unknown",
                    format!("the answer to request {:?}, which the editor had received, was treated as unknown", g.rejected),
                );
            }
            let acc: std::collections::HashSet<_> = g.accepted.iter().collect();
            if acc.len() != g.accepted.len() {
                return err("answered-twice", format!("a request was settled twice: {:?}", g.accepted));
            }
            if g.stray_accepted {
                return err("stray-accepted", "an answer to a request nobody made was accepted".into());
            }
            if young != 0 {
                return err("forgot-young", format!("{young} requests younger than the timeout were dropped"));
            }
            if after != 0 {
                return err("not-forgotten", format!("{after} requests were reported as timed out twice"));
            }
            if !has(Time) && g.timed_out != 0 {
                return err("forgot-young", format!("{} requests younger than the timeout were dropped", g.timed_out));
            }
            if !has(PeerFail) {
                let settled = g.accepted.len() + g.timed_out + left;
                // A sweep that runs while a request is on its way out may count
                // that request as timed out before its sending fails.
                let in_flight = if has(Sweep) && has(Time) {
                    g.sent.iter().filter(|s| s.2 == Ask && !s.3).count().min(g.timed_out)
                } else {
                    0
                };
                if settled < asked_ok || settled > asked_ok + in_flight {
                    return err(
                        "pending",
                        format!(
                            "{asked_ok} requests were sent; {} were answered and {} counted as unanswered",
                            g.accepted.len(),
                            g.timed_out + left
                        ),
                    );
                }
            } else {
                // One request read by the failing peer is settled by the failure.
                let failed = g.got.iter().filter(|m| matches!(m, Message::Request(_))).count();
                if g.accepted.len() + left > asked_ok
                    || g.accepted.len() + g.timed_out + left + failed < asked_ok
                    || (!has(Sweep) && sc.iter().flatten().filter(|o| **o == PeerFail).count() == sc.iter().flatten().filter(|o| matches!(o, PeerReply | PeerTwice | PeerFail)).count() && peer_reads(sc, &g) + left != asked_ok)
                {
                    return err("pending", format!("{asked_ok} requests were sent; {left} still pending after the failure answers"));
                }
            }
        }
        "C02" => {
            let shown: Vec<&str> = g
                .got
                .iter()
                .filter_map(|m| match m {
                    Message::Notification(n) if n.method == "window/showMessage" => n.params["message"].as_str(),
                    _ => None,
                })
                .collect();
            let told: Vec<u32> = g.threshold.iter().filter(|t| t.1 == Ok(true)).map(|t| t.0).collect();
            if told.len() > 1 {
                return err("told-twice", format!("{} callers were told the notification was theirs", told.len()));
            }
            if shown.len() > 1 {
                return err("shown-twice", format!("the notification was shown {} times", shown.len()));
            }
            if g.threshold.iter().any(|t| t.2 && t.1 == Ok(true)) {
                return err("not-shown", "a caller was told the notification was shown, but the connection was already closed".into());
            }
            if !g.closed && has(Threshold) {
                if told.len() != 1 || shown.len() != 1 {
                    return err(
                        "not-shown",
                        format!("the notification was shown {} times, {} callers were told so", shown.len(), told.len()),
                    );
                }
                let start = format!("{} `unused_function` diagnostic{} hidden", told[0], if told[0] == 1 { "" } else { "s" });
                if !shown[0].starts_with(&start) {
                    return err("wrong-caller", format!("the message shown is not that of the caller told so: {}", shown[0]));
                }
                if g.threshold.iter().any(|t| t.1.is_err()) {
                    return err("error", "the notification failed although the connection was open".into());
                }
            }
        }
        _ => {
            // C03: exactly what was sent arrives, once, and in each sender's order.
            let mut arrived: Vec<(u32, &'static str)> = vec![];
            for m in &g.got {
                let (tag, kind, intact) = match m {
                    Message::Request(r) => (r.params[0].as_u64().unwrap_or(999_999) as u32, "rq", r.method == "test/request" && r.params == wire(r.params[0].as_u64().unwrap_or(0) as u32)),
                    Message::Notification(n) if n.method == "window/showMessage" => continue,
                    Message::Notification(n) => {
                        let t = n.params[0].as_u64().unwrap_or(999_999) as u32;
                        (t, "nt", n.method == "test/notification" && n.params == wire(t))
                    }
                    Message::Response(r) => {
                        let t = r.id.to_string().parse::<u32>().unwrap_or(999_999);
                        match (&r.result, &r.error) {
                            (Some(v), None) => (t, "rs", *v == wire(t)),
                            (None, Some(e)) => (
                                t,
                                "er",
                                e.code == if t % 2 == 0 { -32000 - t as i32 } else { -32603 } && e.message == format!("oops {t}") && e.data.is_none(),
                            ),
                            _ => (t, "??", false),
                        }
                    }
                };
                if !intact {
                    return err("altered", format!("a message arrived altered: {m:?}"));
                }
                if arrived.contains(&(tag, kind)) {
                    return err("duplicated", format!("a message arrived twice: {m:?}"));
                }
                arrived.push((tag, kind));
            }
            let kind = |o: Op| match o {
                Ask | AskBroken => "rq",
                Notify | NotifyBroken => "nt",
                AnswerError => "er",
                _ => "rs",
            };
            for s in &g.sent {
                let here = arrived.contains(&(s.1, kind(s.2)));
                let broken = matches!(s.2, AskBroken | NotifyBroken | AnswerBroken);
                if broken && s.3 {
                    return err("broken-ok", format!("{:?}: reported as sent", s.2));
                }
                if !g.closed && !broken && !s.3 {
                    return err("send-failed", format!("{:?} failed although the connection was open", s.2));
                }
                if !g.closed && s.3 && !here {
                    return err("lost", format!("{:?} was sent but never arrived", s.2));
                }
                if !s.3 && here {
                    return err("failed-but-sent", format!("{:?} failed, and yet arrived", s.2));
                }
            }
            for t in 0..sc.len() {
                let sent: Vec<_> =
                    g.sent.iter().filter(|s| s.0 == t && s.3).map(|s| (s.1, kind(s.2))).filter(|x| arrived.contains(x)).collect();
                let got: Vec<_> = arrived.iter().filter(|a| a.0 as usize / 10_000 == t).copied().collect();
                if sent != got {
                    return err("reordered", format!("thread {t} sent {sent:?}; the editor saw {got:?}"));
                }
            }
        }
    }
    Ok(())
}

/// Requests that a (failing) peer read, in scenarios where only failing peers read.
fn peer_reads(sc: &Scenario, g: &Rec) -> usize {
    let reads = sc.iter().flatten().filter(|o| **o == PeerFail).count();
    g.got.iter().take(reads).filter(|m| matches!(m, Message::Request(_))).count()
}

/// Every word over `ops` of length 1..=n.
fn words(ops: &[Op], n: usize) -> Vec<Vec<Op>> {
    let mut out: Vec<Vec<Op>> = vec![];
    let mut last: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|w| ops.iter().map(move |o| [w.as_slice(), &[*o]].concat())).collect();
        out.extend(last.iter().cloned());
    }
    out
}
fn pairs(a: &[Vec<Op>], b: &[Vec<Op>]) -> Vec<Scenario> {
    a.iter().flat_map(|x| b.iter().map(move |y| vec![x.clone(), y.clone()])).collect()
}
/// Multisets of `k` programs.
fn multi(p: &[Vec<Op>], k: usize) -> Vec<Scenario> {
    fn go(p: &[Vec<Op>], from: usize, k: usize, cur: &mut Scenario, out: &mut Vec<Scenario>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..p.len() {
            cur.push(p[i].clone());
            go(p, i, k - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(p, 0, k, &mut vec![], &mut out);
    out
}
/// Only one thread may play the editor; a read must have something to wait for.
fn sensible(sc: &Scenario) -> bool {
    let peers = sc.iter().filter(|p| p.iter().any(|o| matches!(o, PeerReply | PeerFail | PeerTwice | Close))).count();
    let reads = sc.iter().flatten().filter(|o| matches!(o, PeerReply | PeerFail | PeerTwice)).count();
    let closes = sc.iter().flatten().any(|o| *o == Close);
    // Messages certain to be sent while a peer waits.
    let sends = sc
        .iter()
        .filter(|p| !p.iter().any(|o| matches!(o, PeerReply | PeerFail | PeerTwice)))
        .flatten()
        .filter(|o| matches!(o, Ask | Notify | Answer | AnswerError))
        .count();
    peers <= 1 && (reads == 0 || (!closes && sends >= reads))
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let check = Check::new(&prop, "model_checking");
    tracing::subscriber::set_global_default(Collect).unwrap();
    let mut scs: Vec<Scenario> = vec![];
    match prop.as_str() {
        "C01" => {
            let ops = [Ask, AskBroken, PeerReply, PeerTwice, PeerFail, PeerStray, Sweep, Time, Close];
            let senders = [Ask, AskBroken, Notify];
            let w1 = words(&ops, 1);
            let w2 = words(&ops, 2);
            scs.extend(w2.iter().map(|w| vec![w.clone()]));
            scs.extend(pairs(&words(&senders, 2), &w2));
            scs.extend(multi(&w1, 3));
            scs.extend(pairs(&words(&senders, 2), &w1).into_iter().flat_map(|s| {
                [Ask, Sweep, PeerReply].into_iter().map(move |o| {
                    let mut s = s.clone();
                    s.push(vec![o]);
                    s
                })
            }));
            if check.thorough() {
                scs.extend(multi(&w1, 4));
                scs.extend(pairs(&words(&[Ask, AskBroken], 3), &words(&[PeerReply, PeerTwice, PeerFail, Sweep, Time], 3)));
                let one = words(&[Ask, Sweep, Time, PeerReply], 1);
                scs.extend(multi(&one, 2).into_iter().flat_map(|s| {
                    words(&[Ask, AskBroken, Sweep, PeerReply], 2).into_iter().map(move |w| [s.clone(), vec![w]].concat())
                }));
            }
        }
        "C02" => {
            let ops = [Threshold, Notify, Close, Ask, PeerReply];
            scs.extend(multi(&words(&ops, 2), 2));
            scs.extend(multi(&words(&[Threshold, Notify, Close], 1), 4));
            scs.extend(multi(&words(&[Threshold, Notify], 2), 3));
            if check.thorough() {
                scs.extend(multi(&words(&ops, 3), 2));
                scs.extend(multi(&words(&[Threshold, Notify, Close], 2), 3));
                scs.extend(multi(&words(&[Threshold], 1), 5));
            }
        }
        _ => {
            let ops = [Ask, AskBroken, Notify, NotifyBroken, Answer, AnswerBroken, AnswerError, Close, PeerReply];
            scs.extend(words(&ops, 3).into_iter().map(|w| vec![w]));
            scs.extend(multi(&words(&ops, 2), 2));
            scs.extend(multi(&words(&ops, 1), 3));
            if check.thorough() {
                scs.extend(multi(&words(&ops, 1), 4));
                scs.extend(pairs(&words(&[Ask, Notify, Answer, AnswerError], 3), &words(&[Ask, Notify, Answer, Close, PeerReply], 3)));
            }
        }
    }
    scs.retain(sensible);
    // Long histories of one thread: every short pattern, over and over.
    let ops: &[Op] = match prop.as_str() {
        "C01" => &[Ask, AskBroken, PeerReply, PeerTwice, PeerFail, PeerStray, Sweep, Time],
        "C02" => &[Threshold, Notify],
        _ => &[Ask, AskBroken, Notify, Answer, AnswerError, PeerReply],
    };
    for w in words(ops, check.pick(3, 4)) {
        // and the same with all of its readings at the end
        let (reads, rest): (Vec<Op>, Vec<Op>) = w.iter().partition(|o| matches!(o, PeerReply | PeerFail | PeerTwice));
        let n = check.pick(90, 300);
        let mut late = rest.repeat(n);
        late.extend(reads.repeat(n));
        for p in [w.repeat(n), late] {
            let mut waiting = 0i64;
            let fine = p.iter().all(|o| {
                match o {
                    Ask | Notify | Answer | AnswerError => waiting += 1,
                    PeerReply | PeerFail | PeerTwice => waiting -= 1,
                    _ => {}
                }
                waiting >= 0
            });
            if fine {
                scs.push(vec![p]);
            }
        }
    }
    scs.sort_by_key(|s| (s.iter().map(|p| p.len()).sum::<usize>(), s.len()));
    let mut uniq = std::collections::HashSet::new();
    scs.retain(|s| uniq.insert(format!("{s:?}")));
    let outcomes = Mutex::new(Default::default());
    let horizon = |sc: &Scenario| 400 + 40 * sc.iter().map(|p| p.len()).max().unwrap_or(0).saturating_sub(5);

    if let Some(r) = check.replay() {
        let sc: Scenario = serde_json::from_value(r["threads"].clone()).expect("threads");
        let schedule: Vec<usize> = serde_json::from_value(r["schedule"].clone()).expect("schedule");
        let res = sched::replay(&schedule, horizon(&sc), &|| body(&sc, &prop, &outcomes));
        if let Err((sig, what)) = res {
            check.violation(&sig, what, r.clone());
        }
        check.finish();
    }

    let cap = check.pick(200_000, 5_000_000);
    let deepest = std::sync::atomic::AtomicU64::new(0);
    let pruned = std::sync::atomic::AtomicU64::new(0);
    check.par_named(
        scs.len() as u64,
        "scenario",
        |i| {
            let sc = &scs[i as usize];
            let out = sched::explore(cap, horizon(&sc), &|| body(sc, &prop, &outcomes));
            check.states.fetch_add(out.executions, SeqCst);
            check.transitions.fetch_add(out.transitions, SeqCst);
            check.validated.fetch_add(out.executions, SeqCst);
            pruned.fetch_add(out.pruned, SeqCst);
            deepest.fetch_max(out.max_depth as u64, SeqCst);
            if out.capped {
                check.not_exhaustive(&format!("{cap} executions of {sc:?}"));
            }
            if let Some((schedule, sig, what)) = out.failure {
                // The same schedule must fail again before it is believed.
                match sched::replay(&schedule, horizon(&sc), &|| body(sc, &prop, &outcomes)) {
                    Err((s2, _)) if s2 == sig => check.violation(
                        &sig,
                        format!("{what} [threads {sc:?}]"),
                        json!({"threads": sc, "schedule": schedule}),
                    ),
                    r => panic!("the failing schedule does not fail again: {sig} then {r:?}"),
                }
            }
        },
        |i| json!({"threads": scs[i as usize]}),
    );
    check.rule(
        "Scenarios: every assignment of the listed short programs to 1-4 threads sharing one connection, and every \
         pattern of up to three (thorough: four) operations repeated 90 (300) times by one thread. Per scenario, \
         every interleaving of the visible operations (locks, atomics, channel, clock) up to reordering of independent \
         ones (sleep sets). states = complete executions of the real code; transitions = visible operations executed.",
    );
    check.extra("scenarios", scs.len() as u64);
    check.extra("longest_program", scs.iter().flatten().map(|p| p.len()).max().unwrap_or(0) as u64);
    check.extra("pruned_executions", pruned.load(SeqCst));
    check.extra("deepest_execution", deepest.load(SeqCst));
    check.assume("Sequentially consistent memory; the logger reports a response to an unknown request, and each timed-out request, as a warning.");
    for s in scs.iter().rev().step_by((scs.len() / 8).max(1)) {
        check.sample(json!({"threads": s}));
    }
    for (k, n) in outcomes.into_inner().unwrap() {
        check.outcome(&k, n);
    }
    check.finish();
}
