//! One controlled execution: virtual threads are coroutines on one OS thread, every
//! synchronisation operation is a scheduling point with an enabledness predicate, and every
//! decision is taken from (and recorded in) a list of choices.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::Cell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

type Co = Coroutine<(), usize, (), DefaultStack>;
const STACK: usize = 1 << 20;
/// steps one thread may take in a row while others could run before it is made to yield
const FAIR: u32 = 4000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub chosen: u16,
    pub n: u16,
    /// 1: a non-default choice is a preemption; 2: a free deviation (blocked thread, victim, waiter)
    pub kind: u8,
    /// identifies what was decided, to notice a replay that diverges
    pub tag: u32,
}

pub struct VThread {
    co: Option<Co>,
    body: Option<Box<dyn FnOnce()>>,
    yielder: *const Yielder<(), usize>,
    pred: Option<*const dyn Fn() -> bool>,
    pub label: &'static str,
    pub done: bool,
    pub daemon: bool,
    /// an idle worker at its loop head
    pub idle: bool,
    yielded: bool,
    pub name: Option<String>,
    pub worker: Option<(usize, usize)>,
    pub tls: Vec<(usize, *mut dyn Any)>,
    pub token: bool,
    ops: u32,
}

pub struct Exec {
    pub threads: Vec<VThread>,
    pub cur: usize,
    prefix: Vec<Choice>,
    pub trail: Vec<Choice>,
    pub steps: u64,
    max_steps: u64,
    streak: u32,
    pub failure: Option<String>,
    pub diverged: bool,
    pub pools: Vec<crate::pool::Pool>,
    pub global_size: usize,
    pub shutdown: bool,
    pub symmetric: bool,
    stacks: Vec<DefaultStack>,
    pos: u64,
    pub seen: Option<*mut HashSet<u64>>,
    pub log: Option<Vec<String>>,
    aborting: bool,
}

thread_local! {
    static CUR: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: Cell<Vec<DefaultStack>> = const { Cell::new(Vec::new()) };
    static MAIN_TLS: Cell<Vec<(usize, *mut dyn Any)>> = const { Cell::new(Vec::new()) };
}

/// What code was seen to look at that is otherwise no scheduling point: from then on it is one.
static WATCHED: AtomicU32 = AtomicU32::new(0);
static WANTED: AtomicU32 = AtomicU32::new(0);
/// somebody tries a lock, so how long locks are held can be seen
pub const TRYING: u32 = 1;
/// somebody asks for a reference count
pub const REFERENCES: u32 = 2;
pub fn watched(what: u32) -> bool {
    WATCHED.load(Relaxed) & what != 0
}
pub fn watch(what: u32) {
    if !watched(what) {
        WANTED.fetch_or(what, Relaxed);
    }
}
/// What is watched, and what has been asked for besides.
pub fn watching() -> (u32, u32) {
    (WATCHED.load(Relaxed), WANTED.load(Relaxed))
}
pub fn set_watched(w: u32) {
    WATCHED.store(w, Relaxed);
    WANTED.store(0, Relaxed);
}

pub fn active() -> bool {
    !CUR.with(|c| c.get()).is_null()
}

/// The current execution. Callers never keep the reference across a scheduling point.
#[allow(clippy::mut_from_ref)]
pub fn ex<'a>() -> Option<&'a mut Exec> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

enum Next {
    Thread(usize),
    Finished,
    Deadlock,
}

impl Exec {
    fn enabled(&self, i: usize) -> bool {
        let t = &self.threads[i];
        if t.done {
            return false;
        }
        if t.idle {
            let (p, w) = t.worker.unwrap();
            return self.pools[p].has_work(w);
        }
        match t.pred {
            Some(p) => unsafe { (*p)() },
            None => true,
        }
    }

    fn step_done(&mut self, i: usize) {
        let t = &mut self.threads[i];
        t.ops += 1;
        let ops = t.ops as u64;
        self.pos = self
            .pos
            .wrapping_add(mix(mix(i as u64) ^ ops))
            .wrapping_sub(mix(mix(i as u64) ^ (ops - 1)));
    }

    /// Take (or replay) one decision among `n` alternatives.
    pub fn choose(&mut self, n: usize, kind: u8, tag: u32) -> usize {
        debug_assert!(n >= 1);
        if n == 1 {
            return 0;
        }
        if let Some(s) = self.seen {
            let h = self.pos ^ mix(tag as u64);
            unsafe { (*s).insert(h) };
        }
        let k = self.trail.len();
        let chosen = if k < self.prefix.len() {
            let c = self.prefix[k];
            if c.n as usize != n || c.tag != tag || c.kind != kind {
                self.diverged = true;
                0
            } else {
                c.chosen
            }
        } else {
            0
        };
        self.trail.push(Choice {
            chosen,
            n: n as u16,
            kind,
            tag,
        });
        chosen as usize
    }

    /// Which thread continues? `cur` has registered its predicate (or is done).
    fn pick(&mut self, free: bool) -> Next {
        let n = self.threads.len();
        let cur = self.cur;
        let mut cand: [u16; 64] = [0; 64];
        let mut len = 0;
        let cur_enabled = self.enabled(cur);
        let forced_yield = self.threads[cur].yielded || self.streak > FAIR;
        if cur_enabled && !forced_yield {
            cand[0] = cur as u16;
            len = 1;
        }
        let mut idle_pool: u64 = 0;
        for d in 1..n {
            let i = (cur + d) % n;
            if self.threads[i].yielded || len == cand.len() || !self.enabled(i) {
                continue;
            }
            if self.threads[i].idle && self.symmetric {
                // idle workers of one pool with empty deques are interchangeable
                let (p, w) = self.threads[i].worker.unwrap();
                if self.pools[p].fresh(w) {
                    if idle_pool >> p & 1 == 1 {
                        continue;
                    }
                    idle_pool |= 1 << p;
                }
            }
            cand[len] = i as u16;
            len += 1;
        }
        if len == 0 && cur_enabled {
            cand[0] = cur as u16;
            len = 1;
        }
        if len == 0 {
            // only threads that gave way are left
            for i in 0..n {
                if self.threads[i].yielded && self.enabled(i) && len < cand.len() {
                    cand[len] = i as u16;
                    len += 1;
                }
            }
        }
        if len == 0 {
            return if self.threads.iter().all(|t| t.done || (t.daemon && t.idle)) {
                Next::Finished
            } else {
                Next::Deadlock
            };
        }
        let kind = if cur_enabled && !forced_yield && !free { 1 } else { 2 };
        let mut tag = kind as u32;
        for &c in &cand[..len] {
            tag = tag.wrapping_mul(31).wrapping_add(c as u32 + 1);
        }
        let k = self.choose(len, kind, tag);
        Next::Thread(cand[k] as usize)
    }

    fn chosen(&mut self, i: usize) {
        if i == self.cur {
            self.streak += 1;
        } else {
            self.streak = 0;
        }
        for (j, t) in self.threads.iter_mut().enumerate() {
            if j != i {
                t.yielded = false;
            }
        }
        self.threads[i].yielded = false;
        self.threads[i].idle = false;
        self.threads[i].pred = None;
        self.steps += 1;
        self.step_done(i);
        if let Some(l) = &mut self.log {
            let t = &self.threads[i];
            l.push(format!(
                "{}{} {}",
                i,
                t.name.as_ref().map_or(String::new(), |n| format!("({n})")),
                t.label
            ));
        }
        self.cur = i;
    }

    pub fn describe(&self) -> String {
        self.threads
            .iter()
            .enumerate()
            .filter(|(_, t)| !t.done && !(t.daemon && t.idle))
            .map(|(i, t)| {
                let who = match (&t.name, t.worker) {
                    (Some(n), _) => n.clone(),
                    (None, Some((p, w))) => format!("worker {w} of pool {p}"),
                    _ => format!("thread {i}"),
                };
                format!("{who} at {}", t.label)
            })
            .collect::<Vec<_>>()
            .join(", ")
    }

    pub fn spawn(&mut self, name: Option<String>, worker: Option<(usize, usize)>, f: Box<dyn FnOnce()>) -> usize {
        let id = self.threads.len();
        self.threads.push(VThread {
            co: None,
            body: Some(f),
            yielder: std::ptr::null(),
            pred: None,
            label: "start",
            done: false,
            daemon: worker.is_some(),
            idle: worker.is_some(),
            yielded: false,
            name,
            worker,
            tls: vec![],
            token: false,
            ops: 0,
        });
        id
    }

    fn start(&mut self, id: usize) -> Co {
        let f = self.threads[id].body.take().expect("thread body");
        let stack = self
            .stacks
            .pop()
            .unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
        Coroutine::with_stack(stack, move |y: &Yielder<(), usize>, ()| {
            ex().unwrap().threads[id].yielder = y;
            let _ = catch_unwind(AssertUnwindSafe(f));
            drop_tls(id);
            ex().unwrap().threads[id].done = true;
        })
    }
}

fn drop_tls(id: usize) {
    loop {
        let t = std::mem::take(&mut ex().unwrap().threads[id].tls);
        if t.is_empty() {
            break;
        }
        for (_, p) in t {
            let _ = catch_unwind(AssertUnwindSafe(|| drop(unsafe { Box::from_raw(p) })));
        }
    }
}

/// The list of thread-local values of the current virtual thread.
pub fn with_tls<R>(f: impl FnOnce(&mut Vec<(usize, *mut dyn Any)>) -> R) -> R {
    match ex() {
        Some(e) => {
            e.symmetric = false;
            let c = e.cur;
            f(&mut e.threads[c].tls)
        }
        None => MAIN_TLS.with(|c| {
            let mut v = c.take();
            let r = f(&mut v);
            c.set(v);
            r
        }),
    }
}

fn point_with(label: &'static str, free: bool, idle: bool, pred: &dyn Fn() -> bool) {
    let Some(e) = ex() else {
        assert!(pred(), "blocked forever at {label} outside a controlled execution");
        return;
    };
    if e.aborting {
        // only reached while a failed execution is torn down
        return;
    }
    if std::thread::panicking() && pred() {
        return;
    }
    let me = e.cur;
    // the reference only lives until this call returns, and so does the entry
    let p: *const (dyn Fn() -> bool + '_) = pred;
    let p: *const (dyn Fn() -> bool + 'static) = unsafe { std::mem::transmute(p) };
    let t = &mut e.threads[me];
    t.pred = Some(p);
    t.label = label;
    t.idle = idle;
    if e.steps >= e.max_steps && e.failure.is_none() {
        e.failure = Some(format!("does not finish within {} steps: {}", e.max_steps, e.describe()));
        suspend(me, usize::MAX);
    }
    if e.diverged {
        suspend(me, usize::MAX);
    }
    match e.pick(free) {
        Next::Thread(i) if i == me => e.chosen(me),
        Next::Thread(i) => suspend(me, i),
        Next::Finished => suspend(me, usize::MAX - 1),
        Next::Deadlock => {
            e.failure = Some(format!("deadlock: {}", e.describe()));
            suspend(me, usize::MAX);
        }
    }
}

fn suspend(me: usize, next: usize) {
    let y = ex().unwrap().threads[me].yielder;
    unsafe { (*y).suspend(next) };
}

/// A scheduling point before an operation that can proceed once `pred` holds.
pub fn point(label: &'static str, pred: &dyn Fn() -> bool) {
    point_with(label, false, false, pred)
}

/// A scheduling point at which moving on to another thread does not count as a preemption.
pub fn free_point(label: &'static str, idle: bool, pred: &dyn Fn() -> bool) {
    point_with(label, true, idle, pred)
}

/// Give way to every other thread that can run.
pub fn yield_point(label: &'static str) {
    if let Some(e) = ex() {
        let c = e.cur;
        e.threads[c].yielded = true;
        point_with(label, true, false, &|| true);
    }
}

/// A decision that is not about threads (which waiter, which victim).
pub fn decide(n: usize, tag: u32) -> usize {
    match ex() {
        Some(e) if !std::thread::panicking() => e.choose(n, 2, 0x1000 + tag),
        _ => 0,
    }
}

#[derive(Debug, Default)]
pub struct Outcome {
    pub trail: Vec<Choice>,
    pub steps: u64,
    pub threads: usize,
    /// deadlock, livelock or a panic of the main thread
    pub failure: Option<String>,
    pub diverged: bool,
    pub log: Vec<String>,
}

pub struct Options<'a> {
    pub workers: usize,
    pub max_steps: u64,
    pub prefix: &'a [Choice],
    pub seen: Option<&'a mut HashSet<u64>>,
    pub log: bool,
}

/// Run `f` as the main thread of one controlled execution. After a failure the process must not
/// run another one (the threads that are stuck are abandoned).
pub fn run<R: 'static>(o: Options, f: impl FnOnce() -> R + 'static) -> (Option<R>, Outcome) {
    assert!(!active());
    let mut e = Box::new(Exec {
        threads: Vec::with_capacity(16),
        cur: 0,
        prefix: o.prefix.to_vec(),
        trail: Vec::with_capacity(o.prefix.len() + 64),
        steps: 0,
        max_steps: o.max_steps,
        streak: 0,
        failure: None,
        diverged: false,
        pools: vec![],
        global_size: o.workers,
        shutdown: false,
        symmetric: true,
        stacks: STACKS.with(|s| s.take()),
        pos: 0,
        seen: o.seen.map(|s| s as *mut _),
        log: if o.log { Some(vec![]) } else { None },
        aborting: false,
    });
    let p: *mut Exec = &mut *e;
    CUR.with(|c| c.set(p));
    let result: std::rc::Rc<Cell<Option<R>>> = Default::default();
    let slot = result.clone();
    e.spawn(
        Some("main".into()),
        None,
        Box::new(move || {
            let r = f();
            slot.set(Some(r));
        }),
    );
    let mut next = 0;
    e.chosen(0);
    loop {
        if next >= usize::MAX - 1 {
            break;
        }
        if e.cur != next {
            e.chosen(next);
        }
        let mut co = match e.threads[next].co.take() {
            Some(co) => co,
            None => e.start(next),
        };
        match co.resume(()) {
            CoroutineResult::Yield(n) => {
                e.threads[next].co = Some(co);
                next = n;
            }
            CoroutineResult::Return(()) => {
                e.stacks.push(co.into_stack());
                if e.diverged {
                    break;
                }
                match e.pick(true) {
                    Next::Thread(i) => next = i,
                    Next::Finished => break,
                    Next::Deadlock => {
                        e.failure = Some(format!("deadlock: {}", e.describe()));
                        break;
                    }
                }
            }
        }
    }
    let clean = e.failure.is_none() && !e.diverged;
    if clean {
        // let the idle workers leave their loops
        e.shutdown = true;
        for i in 0..e.threads.len() {
            if let Some(mut co) = e.threads[i].co.take() {
                e.cur = i;
                e.threads[i].pred = None;
                match co.resume(()) {
                    CoroutineResult::Return(()) => e.stacks.push(co.into_stack()),
                    CoroutineResult::Yield(_) => panic!("a worker did not leave its loop"),
                }
            }
        }
        e.pools.clear();
    } else {
        e.aborting = true;
        for t in &mut e.threads {
            std::mem::forget(t.co.take());
        }
        std::mem::forget(std::mem::take(&mut e.pools));
    }
    CUR.with(|c| c.set(std::ptr::null_mut()));
    STACKS.with(|s| s.set(std::mem::take(&mut e.stacks)));
    let out = Outcome {
        trail: std::mem::take(&mut e.trail),
        steps: e.steps,
        threads: e.threads.len(),
        failure: e.failure.take(),
        diverged: e.diverged,
        log: e.log.take().unwrap_or_default(),
    };
    let r = if clean { result.take() } else { None };
    if !clean {
        std::mem::forget(result);
    }
    (r, out)
}
