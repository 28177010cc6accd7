//! Stateless model checking of the real code: every schedule of every body within the bound.
//! The crate under test is compiled against mc_rt (std::sync, std::thread), rayon and crossbeam
//! stand-ins; see ../rustc-wrapper.sh.
mod bodies;
mod cycles;
mod explore;

use explore::*;
use mc_rt::exec::Choice;
use std::collections::{BTreeMap, HashSet};
use std::os::fd::FromRawFd;
use std::io::{Read, Seek, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[global_allocator]
static ALLOC: cycles::Counting = cycles::Counting;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn flat(s: &str) -> String {
    s.replace(['\t', '\n'], " ")
}

const SHARDS: usize = 8;
/// seconds without a finished execution after which a process counts as hanging
const STUCK: u64 = 60;

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    case: [AtomicU64; SHARDS],
    beat: [AtomicU64; SHARDS],
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

struct Out(i32);
impl Out {
    fn line(&self, s: String) {
        let s = s + "\n";
        let b = s.as_bytes();
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(self.0) });
        let _ = f.write_all(b);
    }
}

/// An item of work: a case at one level of its bound, one part of its schedules.
#[derive(Clone, Copy)]
struct Item {
    case: usize,
    bounds: (u32, u32),
    last: bool,
    part: u32,
    parts: u32,
}

fn items(cases: &[Case], only: Option<usize>) -> Vec<Item> {
    let mut v = vec![];
    let top = |b: u32| b.min(8);
    let levels = cases.iter().map(|c| top(c.bounds.0).max(top(c.bounds.1))).max().unwrap_or(0);
    for level in 0..=levels {
        for (i, c) in cases.iter().enumerate() {
            if only.is_some_and(|o| o != i) {
                continue;
            }
            let max = top(c.bounds.0).max(top(c.bounds.1));
            // cheap cases go straight to their full bound
            if level < max && (level == 0 && c.parts == 1 || level > 2) || level > max {
                continue;
            }
            let last = level == max;
            let bounds = if last { c.bounds } else { (c.bounds.0.min(level), c.bounds.1.min(level)) };
            let parts = if last { c.parts } else { 1 };
            for part in 0..parts {
                v.push(Item { case: i, bounds, last, part, parts });
            }
        }
    }
    v
}

fn fork(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let rc = f();
            libc::_exit(rc);
        }
        pid
    }
}
/// exit status, or 1000 + signal
fn wait(pid: i32) -> i32 {
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 1000 + libc::WTERMSIG(st) }
}

/// The outcome of the threads' work done one after another, in a process of its own, so that
/// what the code keeps in statics is not there yet when the threads start.
fn reference(case: &Case) -> Result<Option<String>, Failure> {
    if !case.differential {
        return Ok(None);
    }
    let r = child(|out| {
        let r = execute(case, Mode::Sequential, &[], None, false);
        send(&r, &r.outcome, out)
    });
    match r.outcome {
        Ok(o) => Ok(Some(o)),
        Err(e) => Err(Failure { what: format!("run one after another: {e}"), trail: r.trail }),
    }
}

fn checker(want: Option<String>) -> impl Fn(&Result<String, String>) -> Result<(), String> {
    move |o| match (o, &want) {
        (Err(e), _) => Err(e.clone()),
        (Ok(o), Some(w)) if o != w => Err(format!("got {o} but one after another gives {w}")),
        _ => Ok(()),
    }
}

struct Env<'a> {
    out: &'a Out,
    beat: &'a dyn Fn(),
    deadline: &'a dyn Fn() -> bool,
}

/// Explore an item inside this process (a child that is thrown away). 0 done, 1 failed, 3 diverged.
fn in_process(case: &Case, item: &Item, env: &Env) -> i32 {
    if let Some(run) = &case.custom {
        let (m, r) = run(env.beat, env.deadline);
        if let Err(what) = r {
            return failed(item, &Failure { what, trail: vec![] }, env.out);
        }
        let stats = Stats { execs: m.iterations, steps: m.operations, capped: m.capped, ..Stats::default() };
        report(item, &stats, m.states, "in-process", env.out);
        return 0;
    }
    let mut stats = Stats::default();
    let mut seen = HashSet::new();
    let want = match reference(case) {
        Ok(w) => w,
        Err(f) => return failed(item, &f, env.out),
    };
    let check = checker(want);
    {
        // the default schedule twice: the harness owns every choice
        let a = execute(case, Mode::Parallel, &[], None, false);
        if let Err(what) = check(&a.outcome) {
            return failed(item, &Failure { what, trail: a.trail }, env.out);
        }
        let (watched, wanted) = mc_rt::exec::watching();
        mc_rt::exec::set_watched(watched | wanted);
        let a = if wanted == 0 { a } else { execute(case, Mode::Parallel, &[], None, false) };
        let b = execute(case, Mode::Parallel, &a.trail, None, false);
        if a.trail != b.trail || a.outcome != b.outcome || b.diverged {
            return 3;
        }
    }
    let stop = explore(
        item.bounds,
        item.part,
        item.parts,
        &mut stats,
        env.deadline,
        &mut |p| {
            (env.beat)();
            execute(case, Mode::Parallel, p, Some(&mut seen), false)
        },
        &check,
    );
    match stop {
        Stop::Diverged => 3,
        Stop::Failed(f) => failed(item, &f, env.out),
        Stop::Done | Stop::OutOfTime => {
            report(item, &stats, seen.len() as u64, "in-process", env.out);
            0
        }
    }
}

fn failed(item: &Item, f: &Failure, out: &Out) -> i32 {
    out.line(format!("F\t{}\t{}\t{}", item.case, schedule_text(&f.trail), flat(&f.what)));
    1
}

fn report(item: &Item, s: &Stats, seen: u64, mode: &str, out: &Out) {
    let outcomes: Vec<String> = s.outcomes.iter().take(2000).map(|o| format!("{o:x}")).collect();
    out.line(format!(
        "R\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{mode}\t{}",
        item.case,
        item.last as u8,
        s.execs,
        s.steps,
        s.choices,
        seen,
        s.max_len,
        s.capped as u8,
        outcomes.join(",")
    ));
}

/// One execution in a fresh process.
fn isolated(case: &Case, prefix: &[Choice], want: &Option<String>) -> Res {
    let mut r = child(|out| {
        let r = execute(case, Mode::Parallel, prefix, None, false);
        let o = match checker(want.clone())(&r.outcome) {
            Ok(()) => Ok(r.outcome.clone().unwrap()),
            Err(e) => Err(e),
        };
        send(&r, &o, out)
    });
    if r.trail.is_empty() {
        r.trail = prefix.to_vec();
    }
    r
}

fn send(r: &Res, outcome: &Result<String, String>, out: &Out) {
    let o = match outcome {
        Ok(o) => format!("O\t{}", flat(o)),
        Err(e) => format!("E\t{}", flat(e)),
    };
    let t: Vec<String> = r
        .trail
        .iter()
        .map(|c| format!("{}:{}:{}:{}", c.chosen, c.n, c.kind, c.tag))
        .collect();
    let wanted = mc_rt::exec::watching().1;
    out.line(format!("T\t{}\t{}\t{}\t{wanted}\n{o}", r.steps, r.diverged as u8, t.join(",")));
}

fn child(f: impl FnOnce(&Out)) -> Res {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    let pid = fork(|| {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        unsafe { libc::close(fds[0]) };
        f(&Out(fds[1]));
        0
    });
    unsafe { libc::close(fds[1]) };
    let mut s = String::new();
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let _ = f.read_to_string(&mut s);
    let st = wait(pid);
    let mut res = Res { trail: vec![], steps: 0, outcome: Err("no result".into()), diverged: false, log: vec![] };
    for l in s.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "T" => {
                res.steps = p[1].parse().unwrap();
                res.diverged = p[2] == "1";
                mc_rt::exec::watch(p[4].parse().unwrap());
                res.trail = p[3]
                    .split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| {
                        let q: Vec<u32> = x.split(':').map(|y| y.parse().unwrap()).collect();
                        Choice { chosen: q[0] as u16, n: q[1] as u16, kind: q[2] as u8, tag: q[3] }
                    })
                    .collect();
            }
            "O" => res.outcome = Ok(p[1..].join(" ")),
            "E" => res.outcome = Err(p[1..].join(" ")),
            _ => {}
        }
    }
    if st != 0 {
        res.outcome = Err(if st >= 1000 {
            format!("the process dies (signal {})", st - 1000)
        } else {
            format!("the process ends with status {st}")
        });
    }
    res
}

/// Explore an item with every execution in a process of its own (for code that keeps state in
/// statics, or that kills the process).
fn in_processes(case: &Case, item: &Item, env: &Env) -> i32 {
    let mut stats = Stats::default();
    let want = match reference(case) {
        Ok(w) => w,
        Err(f) => return failed(item, &f, env.out),
    };
    let check = |o: &Result<String, String>| o.as_ref().map(|_| ()).map_err(|e| e.clone());
    let stop = explore(
        item.bounds,
        item.part,
        item.parts,
        &mut stats,
        env.deadline,
        &mut |p| {
            (env.beat)();
            isolated(case, p, &want)
        },
        &check,
    );
    match stop {
        Stop::Diverged => 3,
        Stop::Failed(f) => failed(item, &f, env.out),
        Stop::Done | Stop::OutOfTime => {
            report(item, &stats, 0, "isolated", env.out);
            0
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let property = arg("--property").expect("--property");
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let only: Option<usize> = arg("--only").map(|s| s.parse().unwrap());
    let budget: u64 = arg("--budget").map_or(if thorough { 5 * 3600 } else { 400 }, |s| s.parse().unwrap());
    let known: HashSet<String> = arg("--known")
        .map(|f| std::fs::read_to_string(f).unwrap().lines().map(str::to_string).collect())
        .unwrap_or_default();
    install_hook();
    // settle process-wide randomness before forking, so that all processes agree
    let _ = std::collections::HashMap::<u8, u8>::new();
    let cases = if property == "C22" { cycles::cases(thorough) } else { bodies::cases(&property, thorough) };
    if let (Some(o), Some(s)) = (only, arg("--schedule")) {
        return replay(&cases[o], &s);
    }
    let list = items(&cases, only);
    let start = Instant::now();
    let sh = shared();
    let fd = unsafe { libc::memfd_create(c"results".as_ptr(), 0) };
    assert!(fd >= 0);
    unsafe { libc::fcntl(fd, libc::F_SETFL, libc::O_APPEND) };
    let now = move || start.elapsed().as_millis() as u64 + 1;
    let mut pids = vec![];
    for shard in 0..SHARDS {
        let cases = &cases;
        let list = &list;
        pids.push(fork(|| {
            let out = Out(fd);
            let beat = || sh.beat[shard].store(now(), Ordering::Relaxed);
            let deadline = || now() > budget * 1000 || sh.stop.load(Ordering::Relaxed) != 0;
            let env = Env { out: &out, beat: &beat, deadline: &deadline };
            loop {
                let n = sh.next.fetch_add(1, Ordering::Relaxed) as usize;
                if n >= list.len() {
                    sh.beat[shard].store(0, Ordering::Relaxed);
                    return 0;
                }
                let item = &list[n];
                let case = &cases[item.case];
                if deadline() {
                    out.line(format!("S\t{}", item.case));
                    continue;
                }
                sh.case[shard].store(item.case as u64, Ordering::Relaxed);
                beat();
                let run = |isolate: bool| {
                    wait(fork(|| {
                        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                        if isolate { in_processes(case, item, &env) } else { in_process(case, item, &env) }
                    }))
                };
                let mut rc = run(false);
                if rc != 0 && rc != 1 && case.custom.is_some() {
                    let what = format!("the process ends with status {rc} (1000 + signal)");
                    rc = failed(item, &Failure { what, trail: vec![] }, &out);
                }
                if rc != 0 && rc != 1 {
                    rc = run(true);
                    if rc == 3 {
                        out.line(format!("D\t{}", item.case));
                    } else if rc != 0 && rc != 1 {
                        out.line(format!("X\t{}\t{rc}", item.case));
                    }
                }
                if rc == 1 && known.is_empty() {
                    sh.stop.store(1, Ordering::Relaxed);
                }
            }
        }));
    }
    // watch
    let mut left = pids.clone();
    while !left.is_empty() {
        std::thread::sleep(std::time::Duration::from_millis(10));
        left.retain(|&p| {
            let mut st = 0;
            unsafe { libc::waitpid(p, &mut st, libc::WNOHANG) == 0 }
        });
        for s in 0..SHARDS {
            let b = sh.beat[s].load(Ordering::Relaxed);
            if b != 0 && now() > b + STUCK * 1000 && left.contains(&pids[s]) {
                println!("HANG {}", sh.case[s].load(Ordering::Relaxed));
                if only.is_some() {
                    println!("KEY {}", cases[sh.case[s].load(Ordering::Relaxed) as usize].key);
                }
                for p in &left {
                    unsafe { libc::kill(*p, libc::SIGKILL) };
                }
                std::process::exit(4);
            }
        }
    }
    let mut text = String::new();
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    f.rewind().unwrap();
    f.read_to_string(&mut text).unwrap();
    finish(&cases, &text, only, &known, arg("--out"), &property, start, list.len());
}

#[derive(Default)]
struct Total {
    execs: u64,
    steps: u64,
    choices: u64,
    states: u64,
    max_len: u64,
    cases: HashSet<usize>,
    outcomes: u64,
    several: u64,
}

fn finish(
    cases: &[Case],
    text: &str,
    only: Option<usize>,
    known: &HashSet<String>,
    out: Option<String>,
    property: &str,
    start: Instant,
    n_items: usize,
) {
    let mut all = Total::default();
    let mut sections: BTreeMap<&str, Total> = BTreeMap::new();
    let mut fails: BTreeMap<usize, (String, String)> = BTreeMap::new();
    let mut capped = 0u64;
    let mut isolated = 0u64;
    let mut errors = vec![];
    let mut outcomes: BTreeMap<usize, HashSet<String>> = BTreeMap::new();
    let mut answered = 0;
    for l in text.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        let case: usize = p[1].parse().unwrap();
        let c = &cases[case];
        match p[0] {
            "F" => {
                answered += 1;
                let e = (p[2].to_string(), p[3..].join(" "));
                let better = fails.get(&case).map_or(true, |o| e.0.len() < o.0.len());
                if better {
                    fails.insert(case, e);
                }
            }
            "R" => {
                answered += 1;
                let num = |i: usize| p[i].parse::<u64>().unwrap();
                if p[8] == "1" {
                    capped += 1;
                }
                if p[9] == "isolated" {
                    isolated += 1;
                }
                if p[2] == "0" {
                    continue; // a lower level: its schedules are part of the last one
                }
                for t in [&mut all, sections.entry(c.section).or_default()] {
                    t.execs += num(3);
                    t.steps += num(4);
                    t.choices += num(5);
                    t.states += num(6);
                    t.max_len = t.max_len.max(num(7));
                    t.cases.insert(case);
                }
                outcomes.entry(case).or_default().extend(p[10].split(',').filter(|o| !o.is_empty()).map(str::to_string));
            }
            "S" => {
                answered += 1;
                capped += 1
            }
            "D" => errors.push(format!("case {case} ({}) is not deterministic under the controlled scheduler", c.key)),
            "X" => errors.push(format!("case {case} ({}): the explorer ended with {}", c.key, p[2])),
            _ => {}
        }
    }
    for (c, o) in &outcomes {
        for t in [&mut all, sections.entry(cases[*c].section).or_default()] {
            t.outcomes += o.len() as u64;
            t.several += (o.len() > 1) as u64;
        }
    }
    let complete = capped == 0 && fails.is_empty() && errors.is_empty() && only.is_none() && answered == n_items;
    let mut open = 0;
    for (i, (schedule, what)) in &fails {
        let c = &cases[*i];
        if known.contains(&c.key) {
            println!("KNOWN {}\t{}", esc(&c.key), esc(what));
            continue;
        }
        open += 1;
        if open <= 3 {
            println!("FAIL {i}\t{}\t{} [schedule {schedule}]", esc(&c.key), esc(what));
        }
    }
    if let Some(out) = out {
        let mut j = String::from("{");
        j += &format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"schedules\":{},\"bodies\":{},\"decisions\":{},\"longest_schedule_decisions\":{},\"distinct_outcomes\":{},\"bodies_with_several_outcomes\":{},\"exhaustive\":{},\"capped_items\":{},\"isolated_items\":{},",
            all.states, all.steps, all.execs, all.execs, all.cases.len(), all.choices, all.max_len, all.outcomes, all.several, complete, capped, isolated
        );
        j += "\"sections\":{";
        j += &sections
            .iter()
            .map(|(k, t)| {
                format!(
                    "\"{}\":{{\"bodies\":{},\"schedules\":{},\"steps\":{},\"states\":{},\"outcomes\":{}}}",
                    esc(k), t.cases.len(), t.execs, t.steps, t.states, t.outcomes
                )
            })
            .collect::<Vec<_>>()
            .join(",");
        j += "},\"samples\":[";
        let mut shown: BTreeMap<&str, usize> = BTreeMap::new();
        let mut s = vec![];
        for (i, c) in cases.iter().enumerate() {
            let n = shown.entry(c.section).or_default();
            if *n < 3 && i % 7 == 0 || *n == 0 {
                *n += 1;
                s.push(format!(
                    "\"{}: {} ({} workers, bounds {:?})\"",
                    esc(c.section), esc(&c.key), c.workers, c.bounds
                ));
            }
        }
        j += &s.join(",");
        j += "]}";
        std::fs::write(out, j).unwrap();
    }
    println!(
        "property={property} bodies={}/{} schedules={} steps={} states={} outcomes={} several={} longest={} capped={capped} isolated={isolated} time={:.1}s",
        all.cases.len(), cases.len(), all.execs, all.steps, all.states, all.outcomes, all.several, all.max_len,
        start.elapsed().as_secs_f64()
    );
    if std::env::var("MC_SECTIONS").is_ok() {
        for (k, t) in &sections {
            println!("  {k}: bodies={} schedules={} steps={} states={} outcomes={} several={} longest={}", t.cases.len(), t.execs, t.steps, t.states, t.outcomes, t.several, t.max_len);
        }
    }
    for e in errors.iter().take(5) {
        eprintln!("{e}");
    }
    std::process::exit(if open > 0 {
        1
    } else if !errors.is_empty() || (answered != n_items && fails.is_empty()) {
        5
    } else {
        0
    });
}

/// Re-run one recorded schedule and print what every thread does.
fn replay(case: &Case, schedule: &str) {
    println!("KEY {}", case.key);
    let (watched, schedule) = match schedule.strip_prefix('w').and_then(|s| s.split_once(';')) {
        Some((w, s)) => (w.parse().unwrap(), s),
        None => (0, schedule),
    };
    mc_rt::exec::set_watched(watched);
    let want: Vec<u16> = if schedule == "-" { vec![] } else { schedule.split(',').map(|s| s.parse().unwrap()).collect() };
    let expected = match reference(case) {
        Ok(w) => w,
        Err(f) => {
            println!("FAIL 0\t{}\t{}", case.key, f.what);
            std::process::exit(1);
        }
    };
    // the number of alternatives of each choice is learnt by running the schedule step by step
    let mut prefix: Vec<Choice> = vec![];
    loop {
        let st = isolated(case, &prefix, &expected);
        let k = prefix.len();
        match (0..want.len()).find(|&i| i >= k && want[i] != 0) {
            Some(i) => {
                prefix = st.trail[..=i].to_vec();
                assert!(want[i] < prefix[i].n, "the schedule does not fit this code");
                prefix[i].chosen = want[i];
            }
            None => break,
        }
    }
    let r = execute(case, Mode::Parallel, &prefix, None, true);
    for l in &r.log {
        println!("  {l}");
    }
    match checker(expected)(&r.outcome) {
        Ok(()) => println!("held: {:?}", r.outcome),
        Err(e) => {
            println!("FAIL 0\t{}\t{e}", case.key);
            std::process::exit(1);
        }
    }
}
