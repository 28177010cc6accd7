//! Small concurrent programs, each explored exhaustively on the controlled runtime and run many times
//! on the real std, rayon-core and crossbeam-channel. Every outcome seen on the real libraries must be
//! among the explored ones, and the explored ones must be exactly those the libraries' documentation allows.
#[path = "../../mc/src/explore.rs"]
#[allow(dead_code)]
mod explore;
mod cycles {
    #[derive(Clone)]
    pub struct Custom;
}

use explore::{Body, Case, Mode, Stats, Stop};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

/// name; program; every outcome that is possible
pub type Program = (&'static str, fn() -> String, &'static [&'static str]);

mod controlled {
    use mc_rt::{arc::Arc, channel, pool, sync, thread, thread_local};
    pub fn noise() {}
    include!("programs.rs");
}
mod real {
    use crossbeam_channel as channel;
    use rayon_core as pool;
    use std::sync::{self, Arc};
    use std::{thread, thread_local};
    /// moves the threads of the real runs against each other
    pub fn noise() {
        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        static S: AtomicU64 = AtomicU64::new(1);
        let mut z = S.fetch_add(0x9E3779B97F4A7C15, Relaxed);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z ^= z >> 27;
        match z % 8 {
            0..=3 => {}
            4 => thread::yield_now(),
            5 | 6 => (0..z / 8 % 2000).for_each(|_| std::hint::spin_loop()),
            _ => thread::sleep(std::time::Duration::from_micros(z / 8 % 60)),
        }
    }
    include!("programs.rs");
}

fn explored(name: &str, f: fn() -> String, bounds: (u32, u32)) -> (BTreeSet<String>, Stats, bool) {
    let body: Body = Rc::new(move |_| Ok(f()));
    let case = Case { section: "litmus", key: name.into(), workers: 2, bounds, differential: false, parts: 1, body, custom: None };
    let seen: Rc<RefCell<BTreeSet<String>>> = Rc::default();
    let mut stats = Stats::default();
    mc_rt::exec::set_watched(0);
    let t0 = Instant::now();
    let s2 = seen.clone();
    let stop = explore::explore(
        bounds, 0, 1, &mut stats,
        &|| t0.elapsed() > Duration::from_secs(200),
        &mut |prefix| {
            if prefix.is_empty() {
                s2.borrow_mut().clear();
            }
            explore::execute(&case, Mode::Parallel, prefix, None, false)
        },
        &|o| {
            seen.borrow_mut().insert(match o {
                Ok(s) => s.clone(),
                Err(e) if e.contains("deadlock") => "deadlock".into(),
                Err(e) if e.starts_with("panic") => "panic".into(),
                Err(e) => e.clone(),
            });
            Ok(())
        },
    );
    let complete = matches!(stop, Stop::Done);
    let s = seen.borrow().clone();
    (s, stats, complete)
}

fn observed(f: fn() -> String, runs: u32) -> BTreeMap<String, u32> {
    let mut m = BTreeMap::new();
    let t0 = Instant::now();
    for _ in 0..runs {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let r = std::panic::catch_unwind(f).unwrap_or_else(|_| "panic".into());
            let _ = tx.send(r);
        });
        let o = rx.recv_timeout(Duration::from_secs(3)).unwrap_or_else(|_| "deadlock".into());
        let n = m.entry(o).or_insert(0);
        *n += 1;
        if m.get("deadlock").copied().unwrap_or(0) >= 1 || t0.elapsed() > Duration::from_secs(3) {
            break;
        }
    }
    m
}

fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "2");
    let args: Vec<String> = std::env::args().collect();
    let only = args.get(1).filter(|a| !a.starts_with('-')).cloned();
    let runs = 3000;
    explore::install_hook();
    let mut bad = 0;
    let (mut progs, mut schedules, mut outcomes, mut witnessed, mut real_runs) = (0, 0, 0, 0, 0u32);
    for ((name, c, expected), (_, r, _)) in controlled::programs().into_iter().zip(real::programs()) {
        if only.as_ref().is_some_and(|o| !name.contains(o.as_str())) {
            continue;
        }
        progs += 1;
        let want: BTreeSet<String> = expected.iter().map(|s| s.to_string()).collect();
        let (got, stats, complete) = explored(name, c, (u32::MAX, u32::MAX));
        let seen = observed(r, runs);
        schedules += stats.execs;
        outcomes += got.len();
        witnessed += seen.len();
        real_runs += seen.values().sum::<u32>();
        let missing: Vec<&String> = seen.keys().filter(|o| !got.contains(*o)).collect();
        let ok = got == want && missing.is_empty() && complete;
        println!("{} {name}: {} schedules{}, explored {got:?}, real {seen:?}", if ok { "ok  " } else { "BAD " }, stats.execs, if complete { "" } else { " (incomplete)" });
        if got != want {
            println!("     expected {want:?}");
        }
        if !missing.is_empty() {
            println!("     happens on the real libraries but was not explored: {missing:?}");
        }
        bad += u32::from(!ok);
    }
    println!("SUMMARY {progs} programs, {schedules} schedules explored, {outcomes} outcomes, {witnessed} of them seen in {real_runs} runs on the real libraries, {bad} bad");
    // threads of runs that deadlocked are still there
    std::process::exit(i32::from(bad != 0));
}
