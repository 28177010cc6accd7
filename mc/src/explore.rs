//! Depth-first enumeration of all schedules of one body within a deviation bound.
use mc_rt::exec::{self, Choice, Options};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// What a body does with its threads.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// start them all, then join
    Parallel,
    /// one after another: the reference
    Sequential,
}

pub type Body = Rc<dyn Fn(Mode) -> Result<String, String>>;

#[derive(Clone)]
pub struct Case {
    pub section: &'static str,
    pub key: String,
    pub workers: usize,
    /// preemptions; free deviations (which thread goes on when one blocks, which victim is robbed)
    pub bounds: (u32, u32),
    /// the outcome must be the one of the sequential reference run
    pub differential: bool,
    /// over how many processes the schedules are spread
    pub parts: u32,
    pub body: Body,
    /// decided by something else than the schedules of `body`
    pub custom: Option<crate::cycles::Custom>,
}

pub struct Res {
    pub trail: Vec<Choice>,
    pub steps: u64,
    pub outcome: Result<String, String>,
    pub diverged: bool,
    pub log: Vec<String>,
}

pub const MAX_STEPS: u64 = 4_000_000;

pub fn last_panic() -> String {
    LAST.with(|p| p.borrow().clone())
}
thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s: String = msg.chars().take(160).collect::<String>().replace('\n', " ");
        LAST.with(|p| *p.borrow_mut() = format!("{s} ({loc})"));
    }));
}
pub fn clear_panic() {
    LAST.with(|p| *p.borrow_mut() = String::new());
}

/// One controlled execution of a case.
pub fn execute(case: &Case, mode: Mode, prefix: &[Choice], seen: Option<&mut HashSet<u64>>, log: bool) -> Res {
    let body = case.body.clone();
    let (r, o) = exec::run(
        Options { workers: case.workers, max_steps: MAX_STEPS, prefix, seen, log },
        move || match catch_unwind(AssertUnwindSafe(|| body(mode))) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", last_panic())),
        },
    );
    let outcome = match (o.failure, r) {
        (Some(f), _) => Err(f),
        (None, Some(r)) => r,
        (None, None) => Err("no result".into()),
    };
    Res { trail: o.trail, steps: o.steps, outcome, diverged: o.diverged, log: o.log }
}

#[derive(Default, Debug)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub choices: u64,
    pub max_len: usize,
    pub outcomes: HashSet<u64>,
    pub capped: bool,
}

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What is watched (if anything), then the choices.
pub fn schedule_text(t: &[Choice]) -> String {
    let w = exec::watching().0;
    let watched = if w > 0 { format!("w{w};") } else { String::new() };
    watched + &choices_text(t)
}
fn choices_text(t: &[Choice]) -> String {
    let mut v: Vec<String> = t.iter().map(|c| c.chosen.to_string()).collect();
    while v.last().map(String::as_str) == Some("0") {
        v.pop();
    }
    if v.is_empty() { "-".into() } else { v.join(",") }
}

pub struct Failure {
    pub what: String,
    pub trail: Vec<Choice>,
}

fn cost(trail: &[Choice]) -> (u32, u32) {
    let mut c = (0, 0);
    for t in trail {
        if t.chosen != 0 {
            if t.kind == 1 { c.0 += 1 } else { c.1 += 1 }
        }
    }
    c
}

/// Explore every schedule within `bounds` that belongs to `part`; `run` executes one prefix.
pub enum Stop {
    Done,
    Failed(Failure),
    Diverged,
    OutOfTime,
}

pub fn explore(
    bounds: (u32, u32),
    part: u32,
    parts: u32,
    stats: &mut Stats,
    deadline: &dyn Fn() -> bool,
    run: &mut dyn FnMut(&[Choice]) -> Res,
    check: &dyn Fn(&Result<String, String>) -> Result<(), String>,
) -> Stop {
    // subtrees are dealt out by their first deviations
    let owner_depth = if bounds.0.saturating_add(bounds.1) <= 1 { 1 } else { 2 };
    let mut prefix: Vec<Choice> = vec![];
    loop {
        let r = run(&prefix);
        let (watched, wanted) = exec::watching();
        if wanted != 0 {
            // the code looks at something that was no scheduling point so far: start over
            exec::set_watched(watched | wanted);
            *stats = Stats::default();
            prefix.clear();
            continue;
        }
        if r.diverged {
            return Stop::Diverged;
        }
        let devs = r.trail.iter().filter(|c| c.chosen != 0).count();
        if part == 0 || devs >= owner_depth {
            stats.execs += 1;
            stats.steps += r.steps;
            stats.choices += r.trail.len() as u64;
        }
        stats.max_len = stats.max_len.max(r.trail.len());
        if let Err(what) = check(&r.outcome) {
            return Stop::Failed(Failure { what, trail: r.trail });
        }
        if let Ok(o) = &r.outcome {
            stats.outcomes.insert(hash(o));
        }
        if deadline() {
            stats.capped = true;
            return Stop::OutOfTime;
        }
        // backtrack to the last choice with an alternative that is within the bound
        let mut trail = r.trail;
        let mut found = false;
        let (mut p, mut f) = cost(&trail);
        while let Some(mut c) = trail.pop() {
            if c.chosen != 0 {
                if c.kind == 1 { p -= 1 } else { f -= 1 }
            }
            loop {
                c.chosen += 1;
                if c.chosen >= c.n {
                    break;
                }
                if c.kind == 1 && p + 1 > bounds.0 || c.kind != 1 && f + 1 > bounds.1 {
                    break;
                }
                trail.push(c);
                if parts > 1 {
                    let d: Vec<(usize, u16)> = trail
                        .iter()
                        .enumerate()
                        .filter(|(_, c)| c.chosen != 0)
                        .map(|(i, c)| (i, c.chosen))
                        .collect();
                    if d.len() == owner_depth && hash(&d) % parts as u64 != part as u64 {
                        trail.pop();
                        continue;
                    }
                }
                found = true;
                break;
            }
            if found {
                break;
            }
        }
        if !found {
            return Stop::Done;
        }
        prefix = trail;
    }
}
