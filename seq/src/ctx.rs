//! Enumeration context: numbers every case, spreads the cases over threads, runs each one
//! under `catch_unwind`, counts what was covered and records violations.
use std::cell::Cell;
use std::collections::HashSet;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Instant;

thread_local! {
    pub static TRANSITIONS: Cell<u64> = Cell::new(0);
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let mut s: String = msg.chars().take(160).collect();
        s = s.replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{s} ({loc})"));
    }));
}

/// Run one real operation; a panic is a refusal.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    TRANSITIONS.with(|t| t.set(t.get() + 1));
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Count `n` real operations done outside `attempt`.
pub fn did(n: u64) {
    TRANSITIONS.with(|t| t.set(t.get() + n));
}

#[derive(Default)]
pub struct Progress {
    pub index: AtomicU64,
    /// milliseconds since program start, +1; 0 while idle
    pub since: AtomicU64,
}

pub struct Violation {
    pub index: u64,
    pub key: String,
    pub what: String,
}

pub struct Ctx {
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub only: Option<u64>,
    pub counter: u64,
    pub cases: u64,
    pub states: HashSet<u64>,
    pub samples: Vec<(String, String)>,
    pub violations: Vec<Violation>,
    pub progress: Arc<Progress>,
    pub trace: Option<Arc<File>>,
    pub start: Instant,
    pub outcomes: HashSet<u64>,
    pub counts: std::collections::BTreeMap<String, u64>,
    mark: std::collections::BTreeMap<String, u64>,
    pub section: String,
    /// keys listed in the known-findings file
    pub known: Arc<HashSet<String>>,
    pub known_hit: Vec<(String, String)>,
}

pub const MAX_VIOLATIONS: usize = 3;

impl Ctx {
    pub fn new(
        thorough: bool,
        shard: u64,
        shards: u64,
        only: Option<u64>,
        progress: Arc<Progress>,
        trace: Option<Arc<File>>,
        start: Instant,
    ) -> Ctx {
        Ctx {
            thorough,
            shard,
            shards,
            only,
            counter: 0,
            cases: 0,
            states: HashSet::new(),
            samples: vec![],
            violations: vec![],
            progress,
            trace,
            start,
            outcomes: HashSet::new(),
            counts: Default::default(),
            mark: Default::default(),
            section: String::new(),
            known: Default::default(),
            known_hit: vec![],
        }
    }

    /// Names the part of the enumeration that follows (for the evidence).
    pub fn section(&mut self, name: &str) {
        self.section = name.to_string();
        self.mark.entry(name.to_string()).or_insert(0);
    }

    /// Is the case that `case` would number next one of this shard's?
    pub fn mine(&self) -> bool {
        match self.only {
            Some(n) => n == self.counter,
            None => self.counter % self.shards == self.shard,
        }
    }

    /// Skip the next case number (when the caller used `mine` to avoid preparing it).
    pub fn skip(&mut self) {
        self.counter += 1;
    }

    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }

    /// One case: `key` describes it, `body` replays it on the real code and compares with the
    /// reference; `Err` is a violation and so is an unexpected panic.
    pub fn case(
        &mut self,
        key: impl Fn() -> String,
        body: impl FnOnce(&mut Ctx) -> Result<(), String>,
    ) {
        let idx = self.counter;
        let mine = self.mine();
        self.counter += 1;
        if !mine || self.violations.len() >= MAX_VIOLATIONS {
            return;
        }
        self.progress.index.store(idx, Ordering::Relaxed);
        let now = self.start.elapsed().as_millis() as u64 + 1;
        self.progress.since.store(now, Ordering::Relaxed);
        if let Some(f) = &self.trace {
            let _ = f.write_at(&(idx + 1).to_le_bytes(), self.shard * 8);
        }
        if self.only.is_some() {
            println!("KEY {}", key());
        }
        self.cases += 1;
        let section = self.section.clone();
        *self.counts.entry(section).or_insert(0) += 1;
        if self.cases.is_power_of_two() && self.samples.len() < 24 {
            let s = (self.section.clone(), key());
            self.samples.push(s);
        }
        let r = catch_unwind(AssertUnwindSafe(|| body(self)));
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!(
                "unexpected panic: {}",
                LAST_PANIC.with(|p| p.borrow().clone())
            )),
        };
        if let Some(what) = err {
            let k = key();
            if self.known.contains(&k) {
                self.known_hit.push((k, what));
                self.progress.since.store(0, Ordering::Relaxed);
                return;
            }
            self.violations.push(Violation {
                index: idx,
                key: key(),
                what,
            });
        }
        self.progress.since.store(0, Ordering::Relaxed);
    }
}

pub fn hash<H: std::hash::Hash>(h: H) -> u64 {
    use std::hash::Hasher;
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
