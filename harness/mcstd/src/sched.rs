//! The controlled scheduler and its explorer.
#![allow(deprecated)]
//!
//! One execution runs the body on real OS threads, of which exactly one runs at
//! a time. Every visible operation first announces itself (object, read/write,
//! when it is enabled) and waits for its turn. The explorer enumerates, depth
//! first, every choice of the next thread; sleep sets prune interleavings that
//! only reorder independent operations (operations on different objects, or two
//! reads), so that exactly the distinct Mazurkiewicz traces are executed in full.
//! The memory model is sequential consistency.

use std::cell::{RefCell, UnsafeCell};
use std::collections::BTreeSet;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::Ordering;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult};

type Enabled = Box<dyn Fn() -> bool + Send>;

struct Op {
    obj: usize,
    /// Further objects, for an operation that waits for any of several.
    also: Vec<usize>,
    write: bool,
    enabled: Option<Enabled>,
}
impl Op {
    fn independent(&self, other: &Op) -> bool {
        let mine = std::iter::once(&self.obj).chain(&self.also);
        let theirs = || std::iter::once(&other.obj).chain(&other.also);
        !(self.write || other.write) || mine.into_iter().all(|a| theirs().all(|b| a != b))
    }
}

/// Answers of `choose` in a schedule.
const CHOICE: usize = 1 << 20;
pub const CLOCK_OBJ: usize = 1;
const START_OBJ: usize = 2;
const YIELD_OBJ: usize = 3;
const JOIN_OBJ: usize = 4;

struct Th {
    op: Option<Op>,
    finished: bool,
}

struct Node {
    chosen: usize,
    enabled: Vec<usize>,
    sleep: BTreeSet<usize>,
    done: BTreeSet<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Complete,
    /// Every continuation was covered by another execution.
    Pruned,
    Deadlock,
    Horizon,
    Diverged,
}

struct St {
    running: usize,
    threads: Vec<Th>,
    stack: Vec<Node>,
    depth: usize,
    /// Sleep set to hand to the next new node.
    next_sleep: BTreeSet<usize>,
    stop: Option<Stop>,
    clock: u64,
    horizon: usize,
    trace: Vec<usize>,
    transitions: u64,
    forced: Option<Vec<usize>>,
}

struct Exec {
    /// Threads that were spawned and have not ended.
    live: Arc<std::sync::atomic::AtomicUsize>,
    handles: std::sync::Mutex<Vec<std::thread::JoinHandle<()>>>,
    st: std::sync::Mutex<St>,
    cvs: std::sync::Mutex<Vec<Arc<std::sync::Condvar>>>,
}

thread_local! {
    static CTX: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}

struct Abort;

fn ctx() -> Option<(Arc<Exec>, usize)> {
    CTX.with(|c| c.borrow().clone())
}

/// Identity of the model thread that runs now.
pub fn current() -> Option<usize> {
    ctx().map(|c| c.1)
}

impl Exec {
    fn cv(&self, t: usize) -> Arc<std::sync::Condvar> {
        self.cvs.lock().unwrap()[t].clone()
    }

    fn abort(&self, st: &mut St, why: Stop) {
        if st.stop.is_none() {
            st.stop = Some(why);
        }
        for c in self.cvs.lock().unwrap().iter() {
            c.notify_all();
        }
    }

    /// Choose who runs next. Called by the thread that gives up its turn.
    fn schedule(&self, st: &mut St) {
        if st.stop.is_some() {
            return;
        }
        let enabled: Vec<usize> = (0..st.threads.len())
            .filter(|&t| {
                let th = &st.threads[t];
                !th.finished && th.op.as_ref().is_some_and(|o| o.enabled.as_ref().is_none_or(|e| e()))
            })
            .collect();
        if enabled.is_empty() {
            if st.threads.iter().all(|t| t.finished) {
                return;
            }
            return self.abort(st, Stop::Deadlock);
        }
        if st.depth >= st.horizon {
            return self.abort(st, Stop::Horizon);
        }
        // The first step of a thread concerns nobody else: nothing has to be explored
        // in which it comes later.
        // (Bodies whose threads look at anything unannounced do without this.)
        let enabled = match enabled.iter().find(|t| FROZEN.load(SeqCst) && st.threads[**t].op.as_ref().is_some_and(|o| o.obj == START_OBJ + 16 + **t && o.enabled.is_none())) {
            Some(t) => vec![*t],
            None => enabled,
        };
        let chosen;
        if let Some(f) = &st.forced {
            match f.get(st.depth) {
                Some(c) if enabled.contains(c) => chosen = *c,
                Some(_) => return self.abort(st, Stop::Diverged),
                None => chosen = enabled[0],
            }
        } else if st.depth < st.stack.len() {
            let n = &st.stack[st.depth];
            if n.enabled != enabled {
                return self.abort(st, Stop::Diverged);
            }
            chosen = n.chosen;
        } else {
            let sleep = std::mem::take(&mut st.next_sleep);
            // The thread that ran last goes first: fewest switches first.
            let order = |t: usize| (t != st.running, t);
            let Some(c) = enabled.iter().copied().filter(|t| !sleep.contains(t)).min_by_key(|t| order(*t)) else {
                return self.abort(st, Stop::Pruned);
            };
            chosen = c;
            st.stack.push(Node { chosen: c, enabled: enabled.clone(), sleep, done: BTreeSet::new() });
        }
        if st.forced.is_none() {
            let n = &st.stack[st.depth];
            let me = st.threads[chosen].op.as_ref().unwrap();
            let mut asleep = n.sleep.clone();
            asleep.extend(n.done.iter().copied());
            st.next_sleep = asleep
                .into_iter()
                .filter(|t| *t != chosen)
                .filter(|t| st.threads[*t].op.as_ref().is_some_and(|o| o.independent(me)))
                .collect();
        }
        st.depth += 1;
        st.transitions += 1;
        st.trace.push(chosen);
        st.running = chosen;
    }

    fn wait_turn(&self, me: usize) {
        let cv = self.cv(me);
        let mut st = self.st.lock().unwrap();
        loop {
            if st.stop.is_some() {
                drop(st);
                if !std::thread::panicking() {
                    std::panic::resume_unwind(Box::new(Abort));
                }
                return;
            }
            if st.running == me && st.threads[me].op.is_some() {
                st.threads[me].op = None;
                return;
            }
            st = cv.wait(st).unwrap();
        }
    }

    fn point(&self, me: usize, op: Op) {
        {
            let mut st = self.st.lock().unwrap();
            if st.stop.is_some() {
                drop(st);
                if !std::thread::panicking() {
                    std::panic::resume_unwind(Box::new(Abort));
                }
                return;
            }
            st.threads[me].op = Some(op);
            self.schedule(&mut st);
            let r = st.running;
            if st.stop.is_none() && r == me {
                st.threads[me].op = None;
                return;
            }
            drop(st);
            self.cv(r).notify_all();
        }
        self.wait_turn(me);
    }

    /// One of `n` answers, all of which are explored.
    fn choose(&self, n: usize) -> usize {
        let mut st = self.st.lock().unwrap();
        if st.stop.is_some() {
            return 0;
        }
        let all: Vec<usize> = (0..n).map(|k| CHOICE + k).collect();
        let chosen = if let Some(f) = &st.forced {
            match f.get(st.depth) {
                Some(c) if all.contains(c) => *c,
                Some(_) => {
                    self.abort(&mut st, Stop::Diverged);
                    CHOICE
                }
                None => CHOICE,
            }
        } else if st.depth < st.stack.len() {
            let node = &st.stack[st.depth];
            if node.enabled != all {
                self.abort(&mut st, Stop::Diverged);
                return 0;
            }
            node.chosen
        } else {
            st.stack.push(Node { chosen: CHOICE, enabled: all, sleep: BTreeSet::new(), done: BTreeSet::new() });
            CHOICE
        };
        st.depth += 1;
        st.trace.push(chosen);
        chosen - CHOICE
    }

    fn finish(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.threads[me].finished = true;
        st.threads[me].op = None;
        self.schedule(&mut st);
        let r = st.running;
        drop(st);
        self.cv(r).notify_all();
    }
}

fn point(op: Op) {
    if let Some((e, me)) = ctx() {
        if std::thread::panicking() {
            return; // destructors of an unwinding thread run as one step
        }
        e.point(me, op)
    }
}

pub fn point_access(obj: usize, write: bool) {
    point(Op { obj, also: vec![], write, enabled: None })
}

pub fn point_when(obj: usize, enabled: impl Fn() -> bool + Send + 'static) {
    point(Op { obj, also: vec![], write: true, enabled: Some(Box::new(enabled)) })
}

/// Waits until any of several objects is ready.
fn point_any(objs: Vec<usize>, enabled: Enabled) {
    point(Op { obj: objs[0], also: objs[1..].to_vec(), write: true, enabled: Some(enabled) })
}

/// A choice that the explorer makes in every possible way.
pub fn choose(n: usize) -> usize {
    match ctx() {
        Some((e, _)) if n > 1 => e.choose(n),
        _ => 0,
    }
}

pub fn yield_now() {
    point_access(YIELD_OBJ, true)
}

static FREE_CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1_000_000);

static FROZEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// For bodies in which no time passes and threads share nothing but announced
/// objects: reading the clock and starting are no steps then.
pub fn quiet_steps() {
    FROZEN.store(true, SeqCst);
}
pub(crate) fn read_clock() -> u64 {
    if !FROZEN.load(SeqCst) {
        point_access(CLOCK_OBJ, false);
    }
    clock()
}

pub fn clock() -> u64 {
    match ctx() {
        Some((e, _)) => e.st.lock().unwrap().clock,
        None => FREE_CLOCK.load(Ordering::SeqCst),
    }
}

/// Move the virtual clock: a visible write.
pub fn advance(ns: u64) {
    match ctx() {
        Some((e, _)) => {
            point_access(CLOCK_OBJ, true);
            e.st.lock().unwrap().clock += ns;
        }
        None => {
            FREE_CLOCK.fetch_add(ns, Ordering::SeqCst);
        }
    }
}

// ---------------------------------------------------------------- threads

pub struct JoinHandle<T> {
    slot: Arc<std::sync::Mutex<Option<std::thread::Result<T>>>>,
    real: Option<std::thread::JoinHandle<()>>,
    model: Option<(usize, Arc<std::sync::atomic::AtomicBool>)>,
}

pub fn spawn<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> JoinHandle<T> {
    let slot = Arc::new(std::sync::Mutex::new(None));
    let s2 = slot.clone();
    match ctx() {
        None => {
            let real = std::thread::spawn(move || {
                *s2.lock().unwrap() = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
            });
            JoinHandle { slot, real: Some(real), model: None }
        }
        Some((e, _)) => {
            let tid;
            {
                let mut st = e.st.lock().unwrap();
                tid = st.threads.len();
                st.threads.push(Th {
                    op: Some(Op { obj: START_OBJ + 16 + tid, also: vec![], write: true, enabled: None }),
                    finished: false,
                });
                e.cvs.lock().unwrap().push(Arc::new(std::sync::Condvar::new()));
            }
            let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let (e2, d2) = (e.clone(), done.clone());
            e.live.fetch_add(1, SeqCst);
            let real = std::thread::spawn(move || {
                CTX.with(|c| *c.borrow_mut() = Some((e2.clone(), tid)));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    e2.wait_turn(tid);
                    f()
                }));
                let aborted = r.as_ref().err().is_some_and(|p| p.is::<Abort>());
                *s2.lock().unwrap() = Some(r);
                CTX.with(|c| *c.borrow_mut() = None);
                if !aborted {
                    d2.store(true, SeqCst);
                    e2.live.fetch_sub(1, SeqCst);
                    e2.finish(tid);
                }
            });
            e.handles.lock().unwrap().push(real);
            JoinHandle { slot, real: None, model: Some((tid, done)) }
        }
    }
}

/// Waits until every other thread has ended.
pub fn join_all() {
    if let Some((e, _)) = ctx() {
        let live = e.live.clone();
        point_when(JOIN_OBJ, move || live.load(SeqCst) == 0);
    }
}

impl<T> JoinHandle<T> {
    pub fn join(mut self) -> std::thread::Result<T> {
        if let Some((tid, done)) = self.model.take() {
            point_when(START_OBJ + 16 + tid, move || done.load(SeqCst));
        }
        if let Some(r) = self.real.take() {
            r.join().expect("thread");
        }
        let r = self.slot.lock().unwrap().take().expect("thread result");
        r
    }
    pub fn is_finished(&self) -> bool {
        match &self.model {
            Some((tid, done)) => {
                point_access(START_OBJ + 16 + *tid, false);
                done.load(SeqCst)
            }
            None => self.real.as_ref().is_none_or(|r| r.is_finished()),
        }
    }
}

// ---------------------------------------------------------------- explorer

pub struct Outcome {
    pub executions: u64,
    pub pruned: u64,
    pub transitions: u64,
    pub max_depth: usize,
    pub capped: bool,
    /// Schedule and what was wrong, for the first failing execution.
    pub failure: Option<(Vec<usize>, String, String)>,
}

fn run_once<R>(
    stack: Vec<Node>,
    forced: Option<Vec<usize>>,
    horizon: usize,
    body: &dyn Fn() -> R,
) -> (Vec<Node>, Stop, Vec<usize>, u64, Result<R, String>) {
    let e = Arc::new(Exec {
        live: Default::default(),
        handles: Default::default(),
        st: std::sync::Mutex::new(St {
            running: 0,
            threads: vec![Th { op: None, finished: false }],
            stack,
            depth: 0,
            next_sleep: BTreeSet::new(),
            stop: None,
            clock: 1_000_000,
            horizon,
            trace: vec![],
            transitions: 0,
            forced,
        }),
        cvs: std::sync::Mutex::new(vec![Arc::new(std::sync::Condvar::new())]),
    });
    CTX.with(|c| *c.borrow_mut() = Some((e.clone(), 0)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    CTX.with(|c| *c.borrow_mut() = None);
    {
        // Threads the body did not join, or that an abort left waiting.
        let mut st = e.st.lock().unwrap();
        let left = st.threads.iter().skip(1).any(|t| !t.finished);
        if left && st.stop.is_none() {
            e.abort(&mut st, Stop::Horizon);
        }
    }
    let hs: Vec<_> = e.handles.lock().unwrap().drain(..).collect();
    for h in hs {
        let _ = h.join();
    }
    let mut st = e.st.lock().unwrap();
    let stop = st.stop.clone().unwrap_or(Stop::Complete);
    let r = r.map_err(|p| {
        if p.is::<Abort>() {
            "aborted".to_string()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    });
    (std::mem::take(&mut st.stack), stop, std::mem::take(&mut st.trace), st.transitions, r)
}

/// Run `body` under every schedule. `body` returns Err((signature, what)) when
/// the execution broke the property.
pub fn explore(
    max_executions: u64,
    horizon: usize,
    body: &dyn Fn() -> Result<(), (String, String)>,
) -> Outcome {
    let mut out =
        Outcome { executions: 0, pruned: 0, transitions: 0, max_depth: 0, capped: false, failure: None };
    let mut stack: Vec<Node> = vec![];
    loop {
        let (s, stop, trace, tr, r) = run_once(std::mem::take(&mut stack), None, horizon, body);
        stack = s;
        out.transitions += tr;
        out.max_depth = out.max_depth.max(trace.len());
        match stop {
            Stop::Pruned => out.pruned += 1,
            Stop::Complete => {
                out.executions += 1;
                let bad = match r {
                    Ok(Ok(())) => None,
                    Ok(Err((sig, what))) => Some((sig, what)),
                    Err(p) => Some(("panic".to_string(), format!("panic: {p}"))),
                };
                if let Some((sig, what)) = bad {
                    out.failure = Some((trace, sig, what));
                    return out;
                }
            }
            Stop::Deadlock => {
                out.executions += 1;
                out.failure = Some((trace, "deadlock".into(), "every thread waits for ever".into()));
                return out;
            }
            Stop::Horizon => {
                out.failure = Some((trace, "horizon".into(), format!("no end within {horizon} steps")));
                return out;
            }
            Stop::Diverged => panic!("the execution did not replay: nondeterminism outside the scheduler"),
        }
        // Backtrack.
        loop {
            let Some(n) = stack.last_mut() else { return out };
            n.done.insert(n.chosen);
            let next = n.enabled.iter().copied().find(|t| !n.done.contains(t) && !n.sleep.contains(t));
            match next {
                Some(t) => {
                    n.chosen = t;
                    break;
                }
                None => {
                    stack.pop();
                }
            }
        }
        if out.executions + out.pruned >= max_executions {
            out.capped = true;
            return out;
        }
    }
}

/// Run one recorded schedule again.
pub fn replay(
    schedule: &[usize],
    horizon: usize,
    body: &dyn Fn() -> Result<(), (String, String)>,
) -> Result<(), (String, String)> {
    let (_, stop, _, _, r) = run_once(vec![], Some(schedule.to_vec()), horizon, body);
    match stop {
        Stop::Complete => match r {
            Ok(x) => x,
            Err(p) => Err(("panic".into(), format!("panic: {p}"))),
        },
        Stop::Deadlock => Err(("deadlock".into(), "every thread waits for ever".into())),
        s => Err(("replay".into(), format!("{s:?}"))),
    }
}

// ---------------------------------------------------------------- atomics

fn addr<T>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

pub fn fence(_: Ordering) {}

macro_rules! atomic_common {
    ($name:ident, $t:ty, $inner:ty) => {
        #[derive(Debug, Default)]
        pub struct $name {
            v: $inner,
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self { v: <$inner>::new(v) }
            }
            fn r(&self) {
                point_access(addr(&self.v), false)
            }
            fn w(&self) {
                point_access(addr(&self.v), true)
            }
            pub fn load(&self, _: Ordering) -> $t {
                self.r();
                self.v.load(SeqCst)
            }
            pub fn store(&self, x: $t, _: Ordering) {
                self.w();
                self.v.store(x, SeqCst)
            }
            pub fn swap(&self, x: $t, _: Ordering) -> $t {
                self.w();
                self.v.swap(x, SeqCst)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                self.w();
                self.v.compare_exchange(a, b, SeqCst, SeqCst)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                self.compare_exchange(a, b, o, p)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self,
                _: Ordering,
                _: Ordering,
                f: F,
            ) -> Result<$t, $t> {
                self.w();
                self.v.fetch_update(SeqCst, SeqCst, f)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.v.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.v.into_inner()
            }
            pub fn fetch_and(&self, x: $t, _: Ordering) -> $t {
                self.w();
                self.v.fetch_and(x, SeqCst)
            }
            pub fn fetch_or(&self, x: $t, _: Ordering) -> $t {
                self.w();
                self.v.fetch_or(x, SeqCst)
            }
            pub fn fetch_xor(&self, x: $t, _: Ordering) -> $t {
                self.w();
                self.v.fetch_xor(x, SeqCst)
            }
        }
    };
}
macro_rules! atomic_int {
    ($name:ident, $t:ty) => {
        atomic_common!($name, $t, std::sync::atomic::$name);
        impl $name {
            pub fn fetch_add(&self, x: $t, _: Ordering) -> $t {
                self.w();
                self.v.fetch_add(x, SeqCst)
            }
            pub fn fetch_sub(&self, x: $t, _: Ordering) -> $t {
                self.w();
                self.v.fetch_sub(x, SeqCst)
            }
            pub fn fetch_max(&self, x: $t, _: Ordering) -> $t {
                self.w();
                self.v.fetch_max(x, SeqCst)
            }
            pub fn fetch_min(&self, x: $t, _: Ordering) -> $t {
                self.w();
                self.v.fetch_min(x, SeqCst)
            }
        }
    };
}
atomic_common!(AtomicBool, bool, std::sync::atomic::AtomicBool);
atomic_int!(AtomicI32, i32);
atomic_int!(AtomicI64, i64);
atomic_int!(AtomicU8, u8);
atomic_int!(AtomicU32, u32);
atomic_int!(AtomicU64, u64);
atomic_int!(AtomicUsize, usize);
atomic_int!(AtomicIsize, isize);

// ---------------------------------------------------------------- locks

/// Reader/writer state: -1 held for writing, n held by n readers.
struct Raw {
    s: Arc<std::sync::atomic::AtomicIsize>,
    poisoned: std::sync::atomic::AtomicBool,
}

impl Raw {
    fn new() -> Raw {
        Raw { s: Arc::new(std::sync::atomic::AtomicIsize::new(0)), poisoned: false.into() }
    }
    fn id(&self) -> usize {
        Arc::as_ptr(&self.s) as usize
    }
    fn acquire(&self, write: bool) {
        let s = self.s.clone();
        let free = move || {
            let v = s.load(SeqCst);
            if write {
                v == 0
            } else {
                v >= 0
            }
        };
        if ctx().is_none() || std::thread::panicking() {
            while !free() {
                std::thread::yield_now();
            }
        } else {
            point(Op { obj: self.id(), also: vec![], write, enabled: Some(Box::new(free)) });
        }
        if write {
            self.s.store(-1, SeqCst);
        } else {
            self.s.fetch_add(1, SeqCst);
        }
    }
    fn try_acquire(&self, write: bool) -> bool {
        point_access(self.id(), true);
        let v = self.s.load(SeqCst);
        if write && v == 0 {
            self.s.store(-1, SeqCst);
            true
        } else if !write && v >= 0 {
            self.s.fetch_add(1, SeqCst);
            true
        } else {
            false
        }
    }
    fn release(&self, write: bool) {
        if write {
            self.s.store(0, SeqCst);
        } else {
            self.s.fetch_sub(1, SeqCst);
        }
    }
    fn poison(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
}

macro_rules! lock_guard {
    ($g:ident, $l:ident, $write:expr) => {
        pub struct $g<'a, T: ?Sized> {
            l: &'a $l<T>,
            panicking: bool,
        }
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.l.v.get() }
            }
        }
        impl<T: ?Sized> Drop for $g<'_, T> {
            fn drop(&mut self) {
                if $write && !self.panicking && std::thread::panicking() {
                    self.l.raw.poisoned.store(true, SeqCst);
                }
                self.l.raw.release($write);
            }
        }
        impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<'a, T: ?Sized> $g<'a, T> {
            fn make(l: &'a $l<T>) -> LockResult<Self> {
                let g = $g { l, panicking: std::thread::panicking() };
                if l.raw.poison() {
                    Err(PoisonError::new(g))
                } else {
                    Ok(g)
                }
            }
            fn make_try(l: &'a $l<T>) -> TryLockResult<Self> {
                if l.raw.try_acquire($write) {
                    Self::make(l).map_err(TryLockError::Poisoned)
                } else {
                    Err(TryLockError::WouldBlock)
                }
            }
        }
    };
}

macro_rules! lock_type {
    ($l:ident) => {
        pub struct $l<T: ?Sized> {
            raw: std::sync::LazyLock<Raw>,
            v: UnsafeCell<T>,
        }
        unsafe impl<T: ?Sized + Send> Send for $l<T> {}
        unsafe impl<T: ?Sized + Send> Sync for $l<T> {}
        impl<T> $l<T> {
            pub const fn new(v: T) -> Self {
                $l { raw: std::sync::LazyLock::new(Raw::new), v: UnsafeCell::new(v) }
            }
            pub fn into_inner(self) -> LockResult<T> {
                let p = self.raw.poison();
                let v = self.v.into_inner();
                if p {
                    Err(PoisonError::new(v))
                } else {
                    Ok(v)
                }
            }
        }
        impl<T: ?Sized> $l<T> {
            pub fn is_poisoned(&self) -> bool {
                self.raw.poison()
            }
            pub fn clear_poison(&self) {
                self.raw.poisoned.store(false, SeqCst)
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                let p = self.raw.poison();
                let v = self.v.get_mut();
                if p {
                    Err(PoisonError::new(v))
                } else {
                    Ok(v)
                }
            }
        }
        impl<T: Default> Default for $l<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }
        impl<T> From<T> for $l<T> {
            fn from(v: T) -> Self {
                Self::new(v)
            }
        }
        impl<T: ?Sized> std::fmt::Debug for $l<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(concat!(stringify!($l), " { .. }"))
            }
        }
    };
}

lock_type!(Mutex);
lock_type!(RwLock);
lock_guard!(MutexGuard, Mutex, true);
lock_guard!(RwLockReadGuard, RwLock, false);
lock_guard!(RwLockWriteGuard, RwLock, true);
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.acquire(true);
        MutexGuard::make(self)
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        MutexGuard::make_try(self)
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.acquire(false);
        RwLockReadGuard::make(self)
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.acquire(true);
        RwLockWriteGuard::make(self)
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        RwLockReadGuard::make_try(self)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        RwLockWriteGuard::make_try(self)
    }
}

/// Condition variable: a waiter runs again only after a notification.
#[derive(Default)]
pub struct Condvar {
    q: Arc<std::sync::Mutex<(Vec<u64>, u64)>>,
}

impl Condvar {
    pub fn new() -> Condvar {
        Condvar::default()
    }
    fn id(&self) -> usize {
        Arc::as_ptr(&self.q) as *const u8 as usize
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let l = g.l;
        let ticket = {
            let mut q = self.q.lock().unwrap();
            q.1 += 1;
            let t = q.1;
            q.0.push(t);
            t
        };
        drop(g);
        let q = self.q.clone();
        point_when(self.id(), move || !q.lock().unwrap().0.contains(&ticket));
        l.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        point_access(self.id(), true);
        let mut q = self.q.lock().unwrap();
        if !q.0.is_empty() {
            q.0.remove(0);
        }
    }
    pub fn notify_all(&self) {
        point_access(self.id(), true);
        self.q.lock().unwrap().0.clear();
    }
}

/// One-time initialisation, as a lock around the initialiser.
pub struct OnceLock<T> {
    m: Mutex<()>,
    v: std::sync::OnceLock<T>,
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { m: Mutex::new(()), v: std::sync::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        point_access(self.m.raw.id(), false);
        self.v.get()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let _g = self.m.lock().unwrap();
        self.v.set(v)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let _g = self.m.lock().unwrap();
        self.v.get_or_init(f)
    }
}
pub struct Once {
    o: OnceLock<()>,
}
impl Once {
    pub const fn new() -> Self {
        Once { o: OnceLock::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.o.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.o.get().is_some()
    }
}

// ---------------------------------------------------------------- channels

pub mod chan {
    use super::*;
    use std::collections::VecDeque;
    use std::sync::atomic::AtomicUsize as RealUsize;

    struct Inner<T> {
        q: std::sync::Mutex<VecDeque<T>>,
        cap: Option<usize>,
        senders: RealUsize,
        receivers: RealUsize,
        /// Threads that wait for a message.
        waiting: std::sync::Mutex<BTreeSet<usize>>,
    }
    // What an operation touches. Two operations that can both go on commute
    // unless they share one of these: sending goes at the tail and fails without
    // receivers; receiving takes from the head, and can only go on together with
    // a sending if there is something to receive already.
    const HEAD: usize = 0;
    const TAIL: usize = 1;
    const SENDERS: usize = 2;
    /// With MC_COARSE set, everything on a channel depends on everything else and any
    /// of the waiting threads is served: slow, but the outcomes must be the same.
    static COARSE: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var_os("MC_COARSE").is_some());
    fn part<T>(i: &Arc<Inner<T>>, what: usize) -> usize {
        id(i) + if *COARSE { 0 } else { what }
    }
    /// Operations that can tell the difference.
    fn all<T>(i: &Arc<Inner<T>>) -> Vec<usize> {
        vec![part(i, HEAD), part(i, TAIL), part(i, SENDERS)]
    }
    pub struct Sender<T> {
        i: Arc<Inner<T>>,
    }
    pub struct Receiver<T> {
        i: Arc<Inner<T>>,
    }
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub struct SendError<T>(pub T);
    impl<T> SendError<T> {
        pub fn into_inner(self) -> T {
            self.0
        }
    }
    impl<T> std::fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            "SendError(..)".fmt(f)
        }
    }
    impl<T> std::fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            "sending on a disconnected channel".fmt(f)
        }
    }
    impl<T: Send> std::error::Error for SendError<T> {}
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum TrySendError<T> {
        Full(T),
        Disconnected(T),
    }
    impl<T> TrySendError<T> {
        pub fn into_inner(self) -> T {
            match self {
                TrySendError::Full(t) | TrySendError::Disconnected(t) => t,
            }
        }
        pub fn is_full(&self) -> bool {
            matches!(self, TrySendError::Full(_))
        }
        pub fn is_disconnected(&self) -> bool {
            !self.is_full()
        }
    }
    impl<T> std::fmt::Debug for TrySendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            "TrySendError(..)".fmt(f)
        }
    }
    impl<T> std::fmt::Display for TrySendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            if self.is_full() {
                "sending on a full channel".fmt(f)
            } else {
                "sending on a disconnected channel".fmt(f)
            }
        }
    }
    impl<T: Send> std::error::Error for TrySendError<T> {}
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, TryRecvError};

    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
        make(None)
    }
    pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        make(Some(cap.max(1)))
    }
    fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
        let i = Arc::new(Inner { q: Default::default(), cap, senders: 1.into(), receivers: 1.into(), waiting: Default::default() });
        (Sender { i: i.clone() }, Receiver { i })
    }
    fn id<T>(i: &Arc<Inner<T>>) -> usize {
        Arc::as_ptr(i) as *const u8 as usize * 4
    }
    impl<T: Send + 'static> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            let i = self.i.clone();
            point_when(part(&self.i, TAIL), move || {
                i.receivers.load(SeqCst) == 0 || i.cap.is_none_or(|c| i.q.lock().unwrap().len() < c)
            });
            if self.i.receivers.load(SeqCst) == 0 {
                return Err(SendError(t));
            }
            self.i.q.lock().unwrap().push_back(t);
            Ok(())
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            point_any(all(&self.i), Box::new(|| true));
            if self.i.receivers.load(SeqCst) == 0 {
                return Err(TrySendError::Disconnected(t));
            }
            let mut q = self.i.q.lock().unwrap();
            if self.i.cap.is_some_and(|c| q.len() >= c) {
                return Err(TrySendError::Full(t));
            }
            q.push_back(t);
            Ok(())
        }
        pub fn is_empty(&self) -> bool {
            point_any(all(&self.i), Box::new(|| true));
            self.i.q.lock().unwrap().is_empty()
        }
        pub fn len(&self) -> usize {
            point_any(all(&self.i), Box::new(|| true));
            self.i.q.lock().unwrap().len()
        }
    }
    impl<T: Send + 'static> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let i = self.i.clone();
            // Of several threads that wait here the first one is served: threads that
            // share a receiver do the same with what they receive.
            let me = current();
            self.i.waiting.lock().unwrap().extend(me);
            point_when(part(&self.i, HEAD), move || {
                (!i.q.lock().unwrap().is_empty() || i.senders.load(SeqCst) == 0) && (*COARSE || i.waiting.lock().unwrap().first() == me.as_ref())
            });
            if let Some(me) = me {
                self.i.waiting.lock().unwrap().remove(&me);
            }
            self.i.q.lock().unwrap().pop_front().ok_or(RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            point_any(all(&self.i), Box::new(|| true));
            match self.i.q.lock().unwrap().pop_front() {
                Some(t) => Ok(t),
                None if self.i.senders.load(SeqCst) == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn is_empty(&self) -> bool {
            point_any(all(&self.i), Box::new(|| true));
            self.i.q.lock().unwrap().is_empty()
        }
        pub fn len(&self) -> usize {
            point_any(all(&self.i), Box::new(|| true));
            self.i.q.lock().unwrap().len()
        }
        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(|| self.recv().ok())
        }
        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(|| self.try_recv().ok())
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.i.senders.fetch_add(1, SeqCst);
            Sender { i: self.i.clone() }
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            self.i.receivers.fetch_add(1, SeqCst);
            Receiver { i: self.i.clone() }
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            if self.i.senders.load(SeqCst) == 1 {
                point_access(part(&self.i, SENDERS), true);
            }
            self.i.senders.fetch_sub(1, SeqCst);
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            if *COARSE || self.i.receivers.load(SeqCst) == 1 {
                point_access(part(&self.i, TAIL), true);
            }
            if self.i.receivers.fetch_sub(1, SeqCst) == 1 {
                self.i.q.lock().unwrap().clear();
            }
        }
    }
    impl<T> std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Sender { .. }")
        }
    }
    impl<T> std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Receiver { .. }")
        }
    }

    /// What `select!` waits for.
    pub trait Ready {
        fn objects(&self) -> Vec<usize>;
        fn ready(&self) -> Enabled;
    }
    impl<T: Send + 'static> Ready for Receiver<T> {
        fn objects(&self) -> Vec<usize> {
            all(&self.i)
        }
        fn ready(&self) -> Enabled {
            let i = self.i.clone();
            Box::new(move || !i.q.lock().unwrap().is_empty() || i.senders.load(SeqCst) == 0)
        }
    }
    impl<T: Send + 'static> Receiver<T> {
        /// The message that made it ready.
        pub fn take(&self) -> Result<T, RecvError> {
            self.i.q.lock().unwrap().pop_front().ok_or(RecvError)
        }
        /// The explorer decides whether the time is up when there is nothing to receive.
        pub fn recv_timeout(&self, _: std::time::Duration) -> Result<T, RecvTimeoutError> {
            let ready = self.ready();
            point_any(all(&self.i), Box::new(|| true));
            if !ready() {
                if choose(2) == 1 {
                    return Err(RecvTimeoutError::Timeout);
                }
                point_any(all(&self.i), ready);
            }
            self.take().map_err(|_| RecvTimeoutError::Disconnected)
        }
    }
    /// Waits for one of them; `None` if there is a default and none is ready.
    pub fn select(of: &[&dyn Ready], default: bool) -> Option<usize> {
        let ready: Vec<Enabled> = of.iter().map(|r| r.ready()).collect();
        let any: Vec<Enabled> = of.iter().map(|r| r.ready()).collect();
        point_any(of.iter().flat_map(|r| r.objects()).collect(), Box::new(move || default || any.iter().any(|r| r())));
        let can: Vec<usize> = (0..of.len()).filter(|i| ready[*i]()).collect();
        if can.is_empty() {
            return None;
        }
        Some(can[choose(can.len())])
    }

    pub mod mpsc {
        pub use super::{Receiver, SendError, Sender, TrySendError};
        pub use std::sync::mpsc::{RecvError, RecvTimeoutError, TryRecvError};
        pub type SyncSender<T> = Sender<T>;
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            super::unbounded()
        }
        pub fn sync_channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
            super::bounded(n)
        }
    }
}
