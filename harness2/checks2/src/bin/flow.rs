//! N03: what `unreachable_code` reports is never executed, and what it should
//! report is. Programs are enumerated by size and explored step by step.
use checks2::progs::*;
use checks2::*;
use mcx::{json, Check};
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::Relaxed;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "N03" => n03(),
        _ => {
            eprintln!("flow N03");
            std::process::exit(2)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cond {
    Open,
    True,
    False,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    Return,
    Stop,
    Break,
    Next,
    If(Cond),
    IfElse(Cond),
    For,
    While,
    Repeat,
    Fun,
}
use Cond::*;
use Kind::*;
const LEAVES: [Kind; 5] = [Plain, Return, Stop, Break, Next];
const ONE: [Kind; 7] = [If(Open), If(True), If(False), For, While, Repeat, Fun];
const TWO: [Kind; 3] = [IfElse(Open), IfElse(True), IfElse(False)];

/// A statement: its kind and the sequences in it.
#[derive(Clone, Debug)]
struct Stmt {
    kind: Kind,
    seqs: Vec<Vec<Stmt>>,
}
/// How many sequences and statements of every size there are.
struct Counts {
    seq: Vec<u64>,
    stmt: Vec<u64>,
}
impl Counts {
    fn new(max: usize) -> Counts {
        let (mut seq, mut stmt) = (vec![1u64], vec![0u64]);
        for n in 1..=max {
            let pairs: u64 = (0..n).map(|i| seq[i] * seq[n - 1 - i]).sum();
            stmt.push(if n == 1 { LEAVES.len() as u64 } else { 0 } + ONE.len() as u64 * seq[n - 1] + TWO.len() as u64 * pairs);
            seq.push((1..=n).map(|k| stmt[k] * seq[n - k]).sum());
        }
        Counts { seq, stmt }
    }
    fn stmt(&self, n: usize, mut i: u64) -> Stmt {
        if n == 1 {
            if i < LEAVES.len() as u64 {
                return Stmt { kind: LEAVES[i as usize], seqs: vec![] };
            }
            i -= LEAVES.len() as u64;
        }
        let ones = ONE.len() as u64 * self.seq[n - 1];
        if i < ones {
            return Stmt { kind: ONE[(i / self.seq[n - 1]) as usize], seqs: vec![self.seq(n - 1, i % self.seq[n - 1])] };
        }
        i -= ones;
        let kind = TWO[(i % 3) as usize];
        i /= 3;
        for a in 0..n {
            let c = self.seq[a] * self.seq[n - 1 - a];
            if i < c {
                return Stmt { kind, seqs: vec![self.seq(a, i % self.seq[a]), self.seq(n - 1 - a, i / self.seq[a])] };
            }
            i -= c;
        }
        unreachable!()
    }
    fn seq(&self, n: usize, mut i: u64) -> Vec<Stmt> {
        if n == 0 {
            return vec![];
        }
        for k in 1..=n {
            let c = self.stmt[k] * self.seq[n - k];
            if i < c {
                let mut v = vec![self.stmt(k, i % self.stmt[k])];
                v.extend(self.seq(n - k, i / self.stmt[k]));
                return v;
            }
            i -= c;
        }
        unreachable!()
    }
}

/// A program as text, with a node for every statement.
#[derive(Debug)]
struct Node {
    kind: Kind,
    range: (usize, usize),
    /// The node it is in and the sequence there, and the nodes after it.
    parent: Option<(usize, usize)>,
    next: Option<usize>,
    prev: Option<usize>,
    first: Vec<Option<usize>>,
    /// The ranges of its branches.
    bodies: Vec<(usize, usize)>,
    in_loop: bool,
    in_fun: bool,
}
struct Program {
    text: String,
    nodes: Vec<Node>,
    first: Option<usize>,
    style: u64,
    count: u64,
}
const PLAIN: &[&str] = &["p()", "x <- 1", "x$stop()", "stopifnot(x)", "x", "'return'", "stop", "p::r(x)", "return", "try(stop('a'))", "y <- function() return(1)", "lapply(x, \\(i) stop(i))", "stop(1)$a", "nonstop()", "{ p() }", "(p())", "-stop2(1)", "Stop('a')", "p(stop)"];
const RETURN: &[&str] = &["return(1)", "return()", "return(\n  x\n)", "return(function() 1)"];
const STOP: &[&str] = &["stop('a')", "rlang::abort('a')", "cli::cli_abort('a')", ".Defunct('a')", "stop()", "quit()", "q('no')", "cli:::cli_abort(x)", "base::stop(x, call. = FALSE)"];
const OPEN: &[&str] = &["x", "x && TRUE", "!TRUE", "x || FALSE", "is.na(x)", "T", "TRUE == x", "FALSE || x", "(x)", "x & FALSE | y", "!(x || TRUE)", "f(TRUE)", "TRUE + 1"];
const TRUE: &[&str] = &["TRUE", "(TRUE)", "TRUE || x", "x | TRUE", "TRUE && TRUE", "x && y || TRUE", "(x || (TRUE))", "TRUE | FALSE"];
const FALSE: &[&str] = &["FALSE", "(FALSE)", "FALSE && x", "x & FALSE", "FALSE || FALSE", "x && FALSE && y", "(FALSE & TRUE)"];
impl Program {
    fn word<'a>(&mut self, list: &[&'a str]) -> &'a str {
        self.count += 1;
        list[((self.style / 2 + self.count * (self.style % 13 + 1)) % list.len() as u64) as usize]
    }
    fn seq(&mut self, v: &[Stmt], parent: Option<(usize, usize)>, in_loop: bool, in_fun: bool) -> Option<usize> {
        let mut first = None;
        let mut prev: Option<usize> = None;
        for s in v {
            let id = self.nodes.len();
            self.nodes.push(Node { kind: s.kind, range: (0, 0), parent, next: None, prev, first: vec![], bodies: vec![], in_loop, in_fun });
            match prev {
                Some(p) => {
                    self.nodes[p].next = Some(id);
                    let sep = self.word(&["\n", "\n", "; ", "\n# stop()\n", "\n\n  "]);
                    self.text += sep;
                }
                None => first = Some(id),
            }
            let start = self.text.len();
            self.stmt(s, id, in_loop, in_fun);
            self.nodes[id].range = (start, self.text.len());
            prev = Some(id);
        }
        first
    }
    fn body(&mut self, s: &Stmt, k: usize, id: usize, in_loop: bool, in_fun: bool) {
        let v = &s.seqs[k];
        let bare = v.len() == 1 && v[0].seqs.is_empty() && self.style % 2 == 1;
        let start = self.text.len();
        if !bare {
            self.text += "{\n";
        }
        let f = self.seq(v, Some((id, k)), in_loop, in_fun);
        self.nodes[id].first.push(f);
        if !bare {
            self.text += "\n}";
        }
        self.nodes[id].bodies.push((start, self.text.len()));
    }
    fn stmt(&mut self, s: &Stmt, id: usize, in_loop: bool, in_fun: bool) {
        let cond = |c: Cond| match c {
            Open => OPEN,
            True => TRUE,
            False => FALSE,
        };
        let head = match s.kind {
            Plain => self.word(PLAIN).to_string(),
            Return => self.word(RETURN).to_string(),
            Stop => self.word(STOP).to_string(),
            Break => "break".into(),
            Next => "next".into(),
            If(c) | IfElse(c) => format!("if ({}) ", self.word(cond(c))),
            For => "for (i in x) ".into(),
            While => format!("while ({}) ", self.word(&["x", "i < 3", "TRUE && x"])),
            Repeat => "repeat ".into(),
            Fun => self.word(&["g <- function() ", "g = \\(x) ", "lapply(x, function(i) ", "(function(x = 1) "]).into(),
        };
        self.text += &head;
        match s.kind {
            If(_) => self.body(s, 0, id, in_loop, in_fun),
            IfElse(_) => {
                self.body(s, 0, id, in_loop, in_fun);
                self.text += " else ";
                self.body(s, 1, id, in_loop, in_fun);
            }
            For | While | Repeat => self.body(s, 0, id, true, in_fun),
            Fun => {
                self.body(s, 0, id, false, true);
                if head.starts_with('(') || head.starts_with('l') {
                    self.text += ")";
                }
            }
            _ => {}
        }
    }
    fn new(v: &[Stmt], top: bool, style: u64) -> Program {
        let mut p = Program { text: String::new(), nodes: vec![], first: None, style, count: 0 };
        if !top {
            p.text += "f <- function(x) {\n";
        }
        p.first = p.seq(v, None, false, !top);
        if !top {
            p.text += "\n}\n";
        }
        p
    }
    /// Where control goes when a statement has been executed.
    fn after(&self, mut id: usize) -> Option<usize> {
        loop {
            if let Some(n) = self.nodes[id].next {
                return Some(n);
            }
            let (p, _) = self.nodes[id].parent?;
            match self.nodes[p].kind {
                For | While | Repeat => return Some(p),
                Fun => return None,
                _ => id = p,
            }
        }
    }
    /// The statements that some execution reaches. If `loose`, every loop can
    /// be left.
    fn reached(&self, loose: bool) -> (Vec<bool>, u64) {
        let mut seen = vec![false; self.nodes.len()];
        let mut todo: Vec<usize> = self.first.into_iter().collect();
        let mut steps = 0;
        while let Some(id) = todo.pop() {
            if std::mem::replace(&mut seen[id], true) {
                continue;
            }
            let n = &self.nodes[id];
            let mut go = |x: Option<usize>| {
                steps += 1;
                todo.extend(x)
            };
            let enter = |k: usize| n.first[k].or_else(|| match n.kind {
                For | While | Repeat => Some(id),
                Fun => None,
                _ => self.after(id),
            });
            let the_loop = || {
                let mut p = n.parent.unwrap().0;
                while !matches!(self.nodes[p].kind, For | While | Repeat) {
                    p = self.nodes[p].parent.unwrap().0;
                }
                p
            };
            match n.kind {
                Plain => go(self.after(id)),
                Return | Stop => {}
                Break if n.in_loop => go(self.after(the_loop())),
                Next if n.in_loop => go(Some(the_loop())),
                Break | Next => go(self.after(id)),
                If(c) => {
                    if c != False {
                        go(enter(0));
                    }
                    if c != True {
                        go(self.after(id));
                    }
                }
                IfElse(c) => {
                    if c != False {
                        go(enter(0));
                    }
                    if c != True {
                        go(enter(1));
                    }
                }
                For | While => {
                    go(enter(0));
                    go(self.after(id));
                }
                Repeat => {
                    go(enter(0));
                    if loose {
                        go(self.after(id));
                    }
                }
                Fun => {
                    go(enter(0));
                    go(self.after(id));
                }
            }
        }
        (seen, steps)
    }
}
/// The message for code directly after a statement.
fn reason(k: Kind) -> Option<&'static str> {
    match k {
        Return => Some("after a return statement"),
        Stop => Some("after a `stop()` statement"),
        Break => Some("after a break statement"),
        Next => Some("after a next statement"),
        _ => None,
    }
}

fn judge(c: &Check, l: &Linter, p: &Program) -> Result<(), (String, String)> {
    let fail = |s: &str, e: String| Err((s.to_string(), format!("{e}\n{}", p.text)));
    let ds = match l.lint(&p.text) {
        Ok(d) => d,
        Err(e) => return fail("error", e),
    };
    let (real, s1) = p.reached(false);
    let (loose, s2) = p.reached(true);
    c.states.fetch_add(2 * p.nodes.len() as u64, Relaxed);
    c.transitions.fetch_add(s1 + s2, Relaxed);
    let mut reports = BTreeSet::new();
    for d in &ds {
        let r = (usize::from(d.range.start()), usize::from(d.range.end()));
        if !reports.insert(r) {
            return fail("twice", format!("reported twice: {:?}", &p.text[r.0..r.1]));
        }
        let message = &d.message.body;
        // What is reported: whole statements of one sequence, or a branch
        let start = p.nodes.iter().position(|n| n.range.0 == r.0 && n.range.1 <= r.1);
        let branch = p.nodes.iter().position(|n| n.bodies.contains(&r) && matches!(n.kind, If(_) | IfElse(_)));
        match (start, branch) {
            (_, Some(b)) if !real[b] || matches!(p.nodes[b].kind, If(False) | IfElse(True) | IfElse(False)) && !message.contains("after") => {
                let k = p.nodes[b].bodies.iter().position(|x| *x == r).unwrap();
                let dead = matches!((p.nodes[b].kind, k), (If(False), 0) | (IfElse(False), 0) | (IfElse(True), 1));
                if real[b] && !dead {
                    return fail("alive", format!("this branch can be executed: {:?}", &p.text[r.0..r.1]));
                }
                if dead && !message.contains("branch that can never be executed") {
                    return fail("reason", format!("{message} for the branch {:?}", &p.text[r.0..r.1]));
                }
            }
            (Some(mut s), _) => {
                if let Some(want) = p.nodes[s].prev.filter(|q| p.nodes[*q].in_fun || p.nodes[*q].kind != Return).and_then(|q| {
                    let n = &p.nodes[q];
                    if matches!(n.kind, Break | Next) && !n.in_loop { None } else { reason(n.kind) }
                }) {
                    if !message.contains(want) {
                        return fail("reason", format!("{message} for {:?}", &p.text[r.0..r.1]));
                    }
                } else if p.nodes[s].prev.is_some_and(|q| matches!(p.nodes[q].kind, If(_) | IfElse(_))) && !message.contains("preceding if/else terminates") {
                    return fail("reason", format!("{message} for {:?}", &p.text[r.0..r.1]));
                }
                loop {
                    if p.nodes[s].range.1 == r.1 {
                        break;
                    }
                    match p.nodes[s].next {
                        Some(n) if p.nodes[n].range.1 <= r.1 => s = n,
                        _ => return fail("range", format!("not whole statements: {:?}", &p.text[r.0..r.1])),
                    }
                }
            }
            _ => return fail("range", format!("not a statement: {:?}", &p.text[r.0..r.1])),
        }
    }
    let mut dead = 0;
    let returns = p.nodes.iter().any(|n| n.kind == Return && !n.in_fun);
    for (n, (real, loose)) in p.nodes.iter().zip(real.iter().zip(&loose)) {
        let touched = reports.iter().any(|r| r.0 < n.range.1 && n.range.0 < r.1);
        let covered = reports.iter().any(|r| r.0 <= n.range.0 && n.range.1 <= r.1);
        if *real && covered {
            return fail("alive", format!("reported, but it can be executed: {:?}", &p.text[n.range.0..n.range.1]));
        }
        if *real && n.bodies.is_empty() && touched {
            return fail("alive", format!("partly reported, but it can be executed: {:?}", &p.text[n.range.0..n.range.1]));
        }
        if !*loose && !returns {
            dead += 1;
            if !covered {
                return fail(&format!("missed {}", if n.in_fun { "in a function" } else { "at the top level" }), format!("not reported, but it can never be executed: {:?}", &p.text[n.range.0..n.range.1]));
            }
        }
    }
    c.nontriv((dead > 0) as u64);
    c.outcome(if dead > 0 { "with unreachable statements" } else { "without" }, 1);
    Ok(())
}

fn n03() {
    let c = Check::new("N03", "model_checking");
    c.rule("for all programs of up to N statements made of calls, return(), stop() and its equivalents, break, next, if and if/else with open and constant conditions, for, while, repeat and nested functions, in a function and at the top level, in many spellings: every statement that an execution can reach (explored step by step, both ways at every open condition) is outside what is reported; every statement that none can reach is inside; what is reported are whole statements or a branch, with the reason");
    c.assume("conditions other than TRUE, FALSE, parentheses, |, ||, &, && of them can be both; every loop can be left; break and next outside of a loop and return at the top level are not judged; functions are called");
    let l = Linter::new(&Opts { select: "unreachable_code".into(), ..Opts::default() }, "R");
    let max = c.pick(4, 5);
    let counts = Counts::new(max);
    let program = |n: usize, i: u64, top: bool, style: u64| Program::new(&counts.seq(n, i), top, style);
    if let Some(v) = c.replay() {
        let g = |k: &str| v[k].as_u64().unwrap();
        let counts = Counts::new(g("size") as usize);
        let p = Program::new(&counts.seq(g("size") as usize, g("index")), g("top") == 1, g("style"));
        println!("{}", p.text);
        if let Err((s, e)) = judge(&c, &l, &p) {
            c.violation(&s, e, v.clone());
        }
        c.finish();
    }
    for n in 1..=max {
        // Few large programs of many are made of every part
        let styles = [0, 400, 60, 6, 1, 1][n];
        let step = 1;
        const CHUNK: u64 = 512;
        let total = counts.seq[n] / step;
        c.par_named(
            total.div_ceil(CHUNK),
            &format!("programs of size {n}"),
            |k| {
                for i in k * CHUNK..((k + 1) * CHUNK).min(total) {
                    let i = i * step;
                    for s in 0..styles {
                        for top in [false, true] {
                            if top && styles == 1 && i % 2 == 0 {
                                continue;
                            }
                            let style = s + i % 97;
                            c.eval(1);
                            if let Err((sig, e)) = judge(&c, &l, &program(n, i, top, style)) {
                                c.violation(&sig, e, json!({"size": n, "index": i, "top": top as u64, "style": style}));
                            }
                        }
                    }
                }
            },
            |k| json!({"size": n, "index": k * CHUNK * step, "top": 0, "style": 0}),
        );
    }
    c.finish()
}
