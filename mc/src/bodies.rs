//! The bodies of C23–C27: small threads that share tensors, each with its oracle.
use crate::explore::{last_panic, Body, Case, Mode};
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;
use std::cell::Cell;
use std::ops::Neg;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type T = RcTensor<f64>;
type Job<'a> = Box<dyn FnOnce() -> String + Send>;

pub fn cases(property: &str, thorough: bool) -> Vec<Case> {
    match property {
        "C23" => c23(thorough),
        "C24" => c24(thorough),
        "C25" => c25(thorough),
        "C26" => c26(thorough),
        "C27" => c27(thorough),
        _ => panic!("unknown property {property}"),
    }
}

// ------------------------------------------------------------------ helpers
fn t(v: &[f64], s: &[usize]) -> T {
    RcTensor::new(v.to_vec(), s.to_vec())
}
fn num(x: f64) -> String {
    let r = (x * 1e9).round() / 1e9;
    format!("{}", if r == 0.0 { 0.0 } else { r })
}
/// Shape and elements, by the public API.
pub fn show(v: &impl TensorLike<Elem = f64>) -> String {
    let shape = v.shape().to_vec();
    let n: usize = shape.iter().product();
    let mut s = format!("{shape:?}[");
    for k in 0..n {
        let mut rest = k;
        let mut idx = vec![0; shape.len()];
        for a in (0..shape.len()).rev() {
            idx[a] = rest % shape[a];
            rest /= shape[a];
        }
        match v.get(&idx) {
            Ok(x) => s += &num(*x),
            Err(e) => s += &format!("<{e}>"),
        }
        s.push(' ');
    }
    s.pop();
    s.push(']');
    s
}
pub fn grad(x: &T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(|| x.grad())).ok()
}
pub fn show_grad(x: &T) -> String {
    grad(x).map_or("none".into(), |g| show(&g))
}

/// Run the jobs as threads, or one after another.
fn par(mode: Mode, jobs: Vec<Job>) -> Result<Vec<String>, String> {
    let run = |f: Job| catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", last_panic()));
    match mode {
        Mode::Sequential => jobs.into_iter().map(run).collect(),
        Mode::Parallel => {
            let hs: Vec<_> = jobs
                .into_iter()
                .map(|f| mc_rt::thread::spawn(move || catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", last_panic()))))
                .collect();
            let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            rs.into_iter().collect()
        }
    }
}

/// A tensor of this shape whose elements are these, again and again, a little more each time.
fn like(v: &[f64], shape: &[usize]) -> T {
    let n: usize = shape.iter().product();
    t(&(0..n).map(|i| v[i % v.len()] + (i / v.len()) as f64).collect::<Vec<_>>(), shape)
}

/// All words over `0..n` of length 1..=len, shortest first.
fn words(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut last = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for w in &last {
            for k in 0..n {
                let mut v: Vec<usize> = w.clone();
                v.push(k);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

// ------------------------------------------------------------------ C23
#[derive(Clone)]
struct World {
    x: T,
    w: T,
    u: T,
    r1: T,
    r2: T,
    p: T,
    q: T,
    r3: Option<T>,
}
impl World {
    fn new(pool: bool, shape: &[usize]) -> World {
        let x = like(&[1.0, -2.0], shape);
        let w = like(&[3.0, 5.0], shape);
        let u = &x + &w;
        let p = t(&[2.0, 3.0], &[1, 2]);
        let q = t(&[5.0, 7.0], &[2, 1]);
        World {
            r1: u.sum(),
            r2: (&x).neg().sum(),
            r3: if pool { Some(p.bmm(&q).sum()) } else { None },
            x,
            w,
            u,
            p,
            q,
        }
    }
    fn show(&self) -> String {
        format!(
            "x:{} w:{} u:{} r1:{} p:{} q:{}",
            show_grad(&self.x),
            show_grad(&self.w),
            show_grad(&self.u),
            show_grad(&self.r1),
            show_grad(&self.p),
            show_grad(&self.q)
        )
    }
    fn act(&self, k: usize) {
        let t = |v: &[f64], s: &[usize]| if s == [2] { like(v, self.x.shape()) } else { t(v, s) };
        match k {
            0 => self.x.update_grad(t(&[10.0, 20.0], &[2])),
            1 => self.r1.backward(),
            2 => self.r2.backward(),
            3 => self.x.sum().backward(),
            4 => (&self.x - &self.w).sum().backward(),
            5 => (&self.x + &self.x).sum().backward(),
            6 => self.w.update_grad(t(&[100.0, 200.0], &[2])),
            7 => self.u.update_grad(t(&[1000.0, 2000.0], &[2])),
            8 => (F::relu((&self.u).neg()) + self.x.abs()).sum().backward(),
            9 => F::dot(&self.x, &self.w).backward(),
            10 => self.r3.as_ref().unwrap().backward(),
            11 => self.p.bmm(&self.q).backward(),
            12 => self.p.update_grad(t(&[10.0, 20.0], &[1, 2])),
            // tensors of the graph, and gradients, given as gradients
            14 => self.x.update_grad(self.w.clone()),
            15 => self.w.update_grad(self.x.clone()),
            16 => self.x.update_grad(self.u.clone()),
            17 => self.x.update_grad(self.x.clone()),
            18 => self.u.update_grad(self.w.deep_clone()),
            19 => {
                let own = t(&[4.0, 6.0], &[2]);
                (&own + &self.w).sum().backward();
                self.x.update_grad(own.grad());
            }
            // gradients of other shapes that broadcast with the tensor's
            20 => self.x.update_grad(t(&[7.0], &[1])),
            21 => self.x.update_grad(t(&[0.5], &[])),
            22 => self.x.update_grad(t(&[40.0, 80.0], &[1, 2])),
            _ => F::tanh(self.p.clone()).bmm(&self.q).sum().backward(),
        }
    }
    const NAMES: [&'static str; 23] = [
        "update x", "r1.backward", "r2.backward", "x.sum.backward", "(x-w).sum.backward", "(x+x).sum.backward", "update w", "update u",
        "(relu(-u)+|x|).sum.backward", "dot(x,w).backward", "r3.backward", "p.bmm(q).backward", "update p", "tanh(p).bmm(q).sum.backward",
        "update x with w", "update w with x", "update x with u", "update x with x", "update u with a copy of w", "update x with the gradient of an own tensor",
        "update x with [1]", "update x with []", "update x with [1, 2]",
    ];
}

fn c23(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let shaped = |section: &'static str, shape: Vec<usize>, progs: Vec<Vec<usize>>, pool: usize, bounds: (u32, u32), parts: u32| {
        let mut key = progs
            .iter()
            .map(|p| p.iter().map(|&k| World::NAMES[k]).collect::<Vec<_>>().join("; "))
            .collect::<Vec<_>>()
            .join(" || ");
        if shape != [2] {
            key += &format!(", shape {shape:?}");
        }
        let body: Body = Rc::new(move |mode| {
            let world = World::new(pool > 0, &shape);
            let jobs = progs
                .iter()
                .map(|p| {
                    let (w, p) = (world.clone(), p.clone());
                    Box::new(move || {
                        for k in p {
                            w.act(k);
                        }
                        String::new()
                    }) as Job
                })
                .collect();
            par(mode, jobs)?;
            Ok(world.show())
        });
        Case { section, key, workers: pool.max(1), bounds, differential: true, parts, body, custom: None }
    };
    let case = |section, progs, pool, bounds, parts| shaped(section, vec![2], progs, pool, bounds, parts);
    let all = u32::MAX;
    // tensors of other sizes and ranks
    for shape in SHAPES {
        let n: usize = shape.iter().product();
        let (few, bounds) = (if n < 500 { 10 } else { 8 }, (if n <= 9 { all } else if n <= 70 { 3 } else { 2 }, all));
        for a in 0..few {
            for b in a..few {
                if [a, b].contains(&9) && n > 1000 {
                    continue;
                }
                out.push(shaped("other sizes and ranks", shape.to_vec(), vec![vec![a], vec![b]], 0, bounds, 1));
            }
        }
        for (a, b) in [(vec![0, 0], vec![0]), (vec![0, 1], vec![0, 6]), (vec![1, 0], vec![2, 0]), (vec![14], vec![15, 0])] {
            out.push(shaped("other sizes and ranks", shape.to_vec(), vec![a, b], 0, (2, all), 1));
        }
        out.push(shaped("other sizes and ranks", shape.to_vec(), vec![vec![0], vec![0], vec![0]], 0, (2, all), 1));
        out.push(shaped("other sizes and ranks", shape.to_vec(), vec![vec![0], vec![2], vec![1]], 0, (2, all), 1));
    }
    // two threads
    let small: Vec<usize> = (0..10).collect();
    for a in 0..small.len() {
        for b in a..small.len() {
            out.push(case("two threads, one action each, every schedule", vec![vec![a], vec![b]], 0, (all, all), 1));
        }
    }
    let len2 = words(if thorough { 10 } else { 7 }, 2);
    for (i, a) in len2.iter().enumerate() {
        for b in &len2[i..] {
            if a.len() + b.len() > 2 {
                let full = a.len() + b.len() == 3 || thorough;
                out.push(case(
                    "two threads, up to two actions each",
                    vec![a.clone(), b.clone()],
                    0,
                    if full { (all, all) } else { (2, all) },
                    1,
                ));
            }
        }
    }
    // tensors the threads share are also what they add to each other's gradients
    let give = |k: usize| [14, 15, 16, 17, 18, 19, 0, 1, 6][k];
    let given = words(if thorough { 9 } else { 6 }, 2);
    for (i, a) in given.iter().enumerate() {
        for b in &given[i..] {
            let (a, b): (Vec<usize>, Vec<usize>) = (a.iter().map(|&k| give(k)).collect(), b.iter().map(|&k| give(k)).collect());
            let full = a.len() + b.len() < 4;
            out.push(case("shared tensors as gradients", vec![a, b], 0, if full || thorough { (all, all) } else { (2, all) }, 1));
        }
    }
    for a in 0..9 {
        for b in a..9 {
            for c in b..9 {
                if a < 6 {
                    out.push(case("shared tensors as gradients", vec![vec![give(a)], vec![give(b)], vec![give(c)]], 0, (2, all), 1));
                }
            }
        }
    }
    // gradients of other shapes
    let other = |k: usize| [20, 21, 22, 0, 3, 1][k];
    let others = words(if thorough { 6 } else { 5 }, 2);
    for (i, a) in others.iter().enumerate() {
        for b in &others[i..] {
            if !a.iter().chain(b).any(|&k| k < 3) {
                continue;
            }
            let (a, b): (Vec<usize>, Vec<usize>) = (a.iter().map(|&k| other(k)).collect(), b.iter().map(|&k| other(k)).collect());
            let full = a.len() + b.len() < 4;
            out.push(case("gradients of other shapes", vec![a, b], 0, if full || thorough { (all, all) } else { (2, all) }, 1));
        }
    }
    for a in 0..3 {
        for b in a..5 {
            for c in b..5 {
                out.push(case("gradients of other shapes", vec![vec![other(a)], vec![other(b)], vec![other(c)]], 0, (2, all), 1));
            }
        }
    }
    // three threads
    for a in 0..8 {
        for b in a..8 {
            for c in b..8 {
                let updates = [a, b, c].iter().filter(|&&k| matches!(k, 0 | 6 | 7)).count();
                let bounds = if updates > 0 || thorough { (3, all) } else { (2, all) };
                out.push(case("three threads, one action each", vec![vec![a], vec![b], vec![c]], 0, bounds, 1));
            }
        }
    }
    if thorough {
        for a in words(3, 2) {
            for b in words(3, 2) {
                for c in words(3, 2) {
                    if a <= b && b <= c {
                        out.push(case("three threads, up to two actions each", vec![a.clone(), b.clone(), c.clone()], 0, (2, all), 1));
                    }
                }
            }
        }
        for a in 0..3 {
            for b in a..3 {
                for c in b..3 {
                    for d in c..3 {
                        out.push(case("four threads", vec![vec![a], vec![b], vec![c], vec![d]], 0, (2, all), 1));
                    }
                }
            }
        }
    }
    // with the worker pool
    for workers in 1..=2 {
        for a in 10..14 {
            for b in a..14 {
                let b1 = if thorough { (2, 2) } else { (1, 1) };
                out.push(case("passes through matrix multiplication", vec![vec![a], vec![b]], workers, b1, if thorough { 16 } else { 1 }));
            }
        }
    }
    out
}

/// Shapes of the tensors that threads share, besides vectors of two.
const SHAPES: [&[usize]; 13] =
    [&[], &[1], &[1, 1], &[3], &[9], &[17], &[4, 5], &[33], &[65], &[130], &[17, 18], &[1, 1, 2, 1, 1, 1, 1, 2, 1, 1], &[1025]];

// ------------------------------------------------------------------ C24
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Update,
    Zero,
    Grad,
    Back,
}
#[derive(Clone, Debug)]
struct Event {
    op: Op,
    /// the amount added, or read (None: no gradient, taken as 0)
    value: f64,
    start: u64,
    end: u64,
}

thread_local! {
    static CLOCK: Cell<u64> = const { Cell::new(0) };
}
fn tick() -> u64 {
    CLOCK.with(|c| {
        c.set(c.get() + 1);
        c.get()
    })
}

/// Is there an order of the operations, each at an instant within its interval, that explains
/// every value read?
fn linearizable(ev: &[Event], done: u32, state: f64) -> bool {
    if done == (1 << ev.len()) - 1 {
        return true;
    }
    let open = |i: usize| done >> i & 1 == 0;
    let first_end = (0..ev.len()).filter(|&i| open(i)).map(|i| ev[i].end).min().unwrap();
    (0..ev.len()).filter(|&i| open(i) && ev[i].start < first_end).any(|i| {
        let next = match ev[i].op {
            Op::Update | Op::Back => state + ev[i].value,
            Op::Zero => 0.0,
            Op::Grad if ev[i].value == state => state,
            Op::Grad => return false,
        };
        linearizable(ev, done | 1 << i, next)
    })
}

fn c24(thorough: bool) -> Vec<Case> {
    let ops = [Op::Update, Op::Zero, Op::Grad, Op::Back];
    let shaped = |section: &'static str, shape: Vec<usize>, progs: Vec<Vec<usize>>, preset: bool, bounds: (u32, u32)| {
        let key = format!(
            "{}{}{}",
            progs
                .iter()
                .map(|p| p.iter().map(|&k| format!("{:?}", ops[k])).collect::<Vec<_>>().join("; "))
                .collect::<Vec<_>>()
                .join(" || "),
            if preset { ", with a gradient at the start" } else { "" },
            if shape != [2] { format!(", shape {shape:?}") } else { String::new() },
        );
        let body: Body = Rc::new(move |mode| {
            CLOCK.with(|c| c.set(0));
            let n: usize = shape.iter().product();
            // every amount v stands for a tensor v, 3v, v, 3v, ...
            let amount = |v: f64, shape: &[usize]| {
                let n: usize = shape.iter().product();
                t(&(0..n).map(|i| if i % 2 == 0 { v } else { 3.0 * v }).collect::<Vec<_>>(), shape)
            };
            let parts = |g: &T| -> Result<f64, String> {
                let a = *g.get(&vec![0; g.shape().len()]).unwrap();
                for (i, idx) in g.iter_indices().enumerate() {
                    let b = *g.get(&idx).unwrap();
                    if b != if i % 2 == 0 { a } else { 3.0 * a } {
                        return Err(format!("a read sees {a} and {b}: parts of different sums"));
                    }
                }
                Ok(a)
            };
            let x = like(&[1.0, 2.0], &shape);
            if preset {
                x.update_grad(amount(65536.0, &shape));
            }
            let mut unit = 1.0;
            let mut jobs: Vec<Job> = vec![];
            for p in &progs {
                let mut todo = vec![];
                for &k in p {
                    // every amount is a different power of two; a result that contributes it is
                    // prepared before the threads start
                    let r = match ops[k] {
                        Op::Back => Some(F::dot(&x, &amount(unit, &shape))),
                        _ => None,
                    };
                    todo.push((ops[k], unit, r));
                    unit *= 2.0;
                }
                let x = x.clone();
                jobs.push(Box::new(move || {
                    let mut s = String::new();
                    for (op, v, r) in todo {
                        let x = x.clone();
                        let start = tick();
                        let value = match op {
                            Op::Update => {
                                x.update_grad(amount(v, x.shape()));
                                v
                            }
                            Op::Back => {
                                r.unwrap().backward();
                                v
                            }
                            Op::Zero => {
                                x.zero_grad();
                                0.0
                            }
                            Op::Grad => match grad(&x) {
                                None => 0.0,
                                Some(g) => match parts(&g) {
                                    // no operation leaves a gradient of zeros behind
                                    Ok(a) if a == 0.0 => return "!a read sees a gradient of zeros".into(),
                                    Ok(a) => a,
                                    Err(e) => return format!("!{e}"),
                                },
                            },
                        };
                        let end = tick();
                        s += &format!("{} {value} {start} {end};", op as u8);
                    }
                    s
                }));
            }
            let rs = par(mode, jobs)?;
            let mut ev = vec![];
            if preset {
                ev.push(Event { op: Op::Update, value: 65536.0, start: 0, end: 0 });
            }
            for r in &rs {
                if let Some(e) = r.strip_prefix('!') {
                    return Err(e.to_string());
                }
                for e in r.split(';').filter(|e| !e.is_empty()) {
                    let f: Vec<&str> = e.split(' ').collect();
                    ev.push(Event {
                        op: ops[f[0].parse::<usize>().unwrap()],
                        value: f[1].parse().unwrap(),
                        start: f[2].parse().unwrap(),
                        end: f[3].parse().unwrap(),
                    });
                }
            }
            let last = match grad(&x) {
                None => 0.0,
                Some(g) if g.shape().iter().product::<usize>() != n => return Err("the gradient has another shape".into()),
                Some(g) => parts(&g)?,
            };
            let start = tick();
            ev.push(Event { op: Op::Grad, value: last, start, end: start + 1 });
            if preset {
                // events at time 0 come first
                for e in &mut ev[1..] {
                    e.start += 1;
                    e.end += 1;
                }
                ev[0].end = 1;
            }
            if !linearizable(&ev, 0, 0.0) {
                return Err(format!("no order explains the history {ev:?}"));
            }
            Ok(ev.iter().filter(|e| e.op == Op::Grad).map(|e| num(e.value)).collect::<Vec<_>>().join(" "))
        });
        Case { section, key, workers: 1, bounds, differential: false, parts: 1, body, custom: None }
    };
    let case = |section, progs, preset, bounds| shaped(section, vec![2], progs, preset, bounds);
    let all = (u32::MAX, u32::MAX);
    let mut out = vec![];
    for shape in SHAPES {
        let n: usize = shape.iter().product();
        let two = words(4, if n > 500 { 1 } else { 2 });
        for (i, a) in two.iter().enumerate() {
            for b in &two[i..] {
                for preset in [false, true] {
                    let bounds = if n <= 70 { all } else { (4, u32::MAX) };
                    out.push(shaped("other sizes and ranks", shape.to_vec(), vec![a.clone(), b.clone()], preset, bounds));
                }
            }
        }
        for a in 0..4 {
            for b in a..4 {
                for c in b..4 {
                    out.push(shaped("other sizes and ranks", shape.to_vec(), vec![vec![a], vec![b], vec![c]], a % 2 == 0, (2, u32::MAX)));
                }
            }
        }
    }
    let two = words(4, if thorough { 4 } else { 3 });
    for (i, a) in two.iter().enumerate() {
        for b in &two[i..] {
            if a.len() + b.len() > 7 {
                continue;
            }
            for preset in [false, true] {
                out.push(case("two threads, every schedule", vec![a.clone(), b.clone()], preset, all));
            }
        }
    }
    let three = words(4, 2);
    for (i, a) in three.iter().enumerate() {
        for (j, b) in three.iter().enumerate().skip(i) {
            for c in &three[j..] {
                let full = thorough || a.len() + b.len() + c.len() < 6;
                out.push(case(
                    if full { "three threads, every schedule" } else { "three threads, up to three preemptions" },
                    vec![a.clone(), b.clone(), c.clone()],
                    i % 2 == 0,
                    if full { all } else { (3, u32::MAX) },
                ));
            }
        }
    }
    if thorough {
        let four = words(4, 1);
        for (i, a) in four.iter().enumerate() {
            for (j, b) in four.iter().enumerate().skip(i) {
                for (k, c) in four.iter().enumerate().skip(j) {
                    for d in &four[k..] {
                        out.push(case("four threads, every schedule", vec![a.clone(), b.clone(), c.clone(), d.clone()], false, all));
                    }
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ C25 and C26
#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    /// an ordinary thread
    Outside,
    /// a task of the pool
    InPool,
    /// a task of a pool of its own with this many workers
    OwnPool(usize),
    /// two ordinary threads at once
    TwoThreads,
    /// both halves of a join in the pool
    Join,
    /// two tasks of one scope
    TwoTasks,
    /// an ordinary thread and a task of the pool
    Mixed,
    /// three tasks of one scope
    ThreeTasks,
    /// three ordinary threads at once
    ThreeThreads,
}
impl Where {
    fn callers(self) -> usize {
        match self {
            Where::Outside | Where::InPool | Where::OwnPool(_) => 1,
            Where::ThreeTasks | Where::ThreeThreads => 3,
            _ => 2,
        }
    }
    /// Run the callers' jobs in this context and collect what they return.
    fn run(self, mode: Mode, mut jobs: Vec<Job>) -> Result<Vec<String>, String> {
        if mode == Mode::Sequential {
            return par(mode, jobs);
        }
        match self {
            Where::Outside => Ok(vec![jobs.pop().unwrap()()]),
            Where::InPool => {
                let f = jobs.pop().unwrap();
                Ok(vec![rayon::scope(|_| f())])
            }
            Where::OwnPool(n) => {
                let f = jobs.pop().unwrap();
                let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
                Ok(vec![pool.install(f)])
            }
            Where::TwoThreads | Where::ThreeThreads => par(mode, jobs),
            Where::Join => {
                let b = jobs.pop().unwrap();
                let a = jobs.pop().unwrap();
                let (a, b) = rayon::join(a, b);
                Ok(vec![a, b])
            }
            Where::TwoTasks | Where::ThreeTasks => {
                let slots: Vec<std::sync::Mutex<String>> = jobs.iter().map(|_| Default::default()).collect();
                rayon::scope(|s| {
                    for (f, slot) in jobs.into_iter().zip(&slots) {
                        s.spawn(move |_| *slot.lock().unwrap() = f());
                    }
                });
                Ok(slots.into_iter().map(|s| s.into_inner().unwrap()).collect())
            }
            Where::Mixed => {
                let b = jobs.pop().unwrap();
                let a = jobs.pop().unwrap();
                let h = mc_rt::thread::spawn(a);
                let b = rayon::scope(|_| b());
                Ok(vec![h.join().map_err(|_| format!("panic: {}", last_panic()))?, b])
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct Size {
    /// 0: a matrix
    batch: usize,
    m: usize,
    k: usize,
    n: usize,
}
impl Size {
    fn text(self) -> String {
        if self.batch == 0 {
            format!("{}x{}x{}", self.m, self.k, self.n)
        } else {
            format!("{}*{}x{}x{}", self.batch, self.m, self.k, self.n)
        }
    }
    fn rows(self) -> usize {
        self.batch.max(1) * self.m
    }
    fn left(self) -> (Vec<f64>, Vec<usize>) {
        let n = self.rows() * self.k;
        let s = if self.batch == 0 { vec![self.m, self.k] } else { vec![self.batch, self.m, self.k] };
        ((0..n).map(|i| (i * i % 11) as f64 + 1.0).collect(), s)
    }
    fn right(self) -> (Vec<f64>, Vec<usize>) {
        ((0..self.k * self.n).map(|i| (i * 5 % 13) as f64 - 4.5).collect(), vec![self.k, self.n])
    }
    fn weight(self) -> (Vec<f64>, Vec<usize>) {
        let n = self.rows() * self.n;
        let s = if self.batch == 0 { vec![self.m, self.n] } else { vec![self.batch, self.m, self.n] };
        ((0..n).map(|i| (i * 3 % 7) as f64 + 0.5).collect(), s)
    }
    /// the product, and the gradients of left and right for the weights as upstream derivative
    fn truth(self) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
        let (a, b, w) = (self.left().0, self.right().0, self.weight().0);
        let (r, k, n) = (self.rows(), self.k, self.n);
        let mut c = vec![0.0; r * n];
        let mut ga = vec![0.0; r * k];
        let mut gb = vec![0.0; k * n];
        for i in 0..r {
            for j in 0..n {
                for l in 0..k {
                    c[i * n + j] += a[i * k + l] * b[l * n + j];
                    ga[i * k + l] += w[i * n + j] * b[l * n + j];
                    gb[l * n + j] += w[i * n + j] * a[i * k + l];
                }
            }
        }
        (c, ga, gb)
    }
}

fn text(v: &[f64], s: &[usize]) -> String {
    show(&RawTensor::new(v.to_vec(), s.to_vec()))
}

fn multiply(place: Where, sizes: Vec<Size>, workers: usize, slice: bool, bounds: (u32, u32), parts: u32) -> Case {
    let key = format!(
        "{place:?} {}{}",
        sizes.iter().map(|s| s.text()).collect::<Vec<_>>().join(" and "),
        if slice { " of slices" } else { "" }
    );
    let body: Body = Rc::new(move |mode| {
        let ops: Vec<(T, T, Size)> = {
            // callers with the same size share their operands
            let mut v: Vec<(T, T, Size)> = vec![];
            for &s in &sizes {
                let prev = v.iter().find(|o| o.2.text() == s.text()).map(|o| (o.0.clone(), o.1.clone()));
                let (a, b) = prev.unwrap_or_else(|| (t(&s.left().0, &s.left().1), t(&s.right().0, &s.right().1)));
                v.push((a, b, s));
            }
            v
        };
        let jobs = ops
            .iter()
            .map(|(a, b, s)| {
                let (a, b, s) = (a.clone(), b.clone(), *s);
                Box::new(move || {
                    if slice {
                        let full = |sh: &[usize]| sh.iter().map(|&e| SliceRange::new(0, e)).collect::<Vec<_>>();
                        let (va, vb) = (a.view(full(&s.left().1)), b.view(full(&s.right().1)));
                        let c = va.bmm(&vb);
                        show(&c)
                    } else {
                        show(&a.bmm(&b))
                    }
                }) as Job
            })
            .collect();
        let got = place.run(mode, jobs)?;
        for (g, s) in got.iter().zip(&sizes) {
            let want = text(&s.truth().0, &s.weight().1);
            if *g != want {
                return Err(format!("product of {} is {g}, should be {want}", s.text()));
            }
        }
        Ok(got.join(" "))
    });
    Case { section: "matrix multiplication", key, workers, bounds, differential: true, parts, body, custom: None }
}

fn c25(thorough: bool) -> Vec<Case> {
    let s = |batch, m, k, n| Size { batch, m, k, n };
    let mut out = vec![];
    let tiny = [s(0, 1, 1, 1), s(0, 1, 2, 1), s(0, 1, 1, 2), s(0, 1, 2, 3), s(0, 2, 2, 2), s(0, 2, 1, 1), s(2, 1, 2, 2), s(0, 3, 1, 2)];
    let places = [Where::Outside, Where::InPool, Where::OwnPool(1), Where::OwnPool(2), Where::OwnPool(3)];
    let max = if thorough { 4 } else { 3 };
    for workers in 1..=max {
        for z in tiny {
            for place in places {
                if matches!(place, Where::OwnPool(_)) && workers > 1 {
                    continue;
                }
                let tasks = z.rows() * z.n;
                let b = match (thorough, tasks) {
                    (false, 0..=2) => (6, 6),
                    (false, 3) => (5, 5),
                    (false, _) => (3, 3),
                    (true, 0..=3) => (6, 6),
                    (true, _) => (3, 3),
                };
                out.push(multiply(place, vec![z], workers, false, b, if thorough { 32 } else { 4 }));
            }
        }
        for z in [s(0, 2, 3, 4), s(0, 1, 2, 9), s(3, 2, 2, 2), s(0, 6, 1, 2), s(0, 1, 1, 34)] {
            for place in [Where::Outside, Where::InPool] {
                out.push(multiply(place, vec![z], workers, false, if thorough { (3, 3) } else { (2, 2) }, if thorough { 32 } else { 8 }));
            }
        }
        for z in [s(0, 1, 2, 2), s(0, 2, 2, 2)] {
            out.push(multiply(Where::Outside, vec![z], workers, true, (3, 3), 4));
        }
        for place in [Where::TwoThreads, Where::Join, Where::TwoTasks, Where::Mixed] {
            for (a, b) in [(s(0, 1, 2, 2), s(0, 1, 2, 2)), (s(0, 1, 2, 2), s(0, 2, 1, 1)), (s(0, 2, 2, 2), s(0, 1, 1, 3))] {
                out.push(multiply(place, vec![a, b], workers, false, if thorough { (3, 3) } else { (2, 2) }, if thorough { 32 } else { 8 }));
            }
        }
        out.push(multiply(Where::ThreeTasks, vec![s(0, 1, 1, 2), s(0, 1, 2, 1), s(0, 1, 1, 2)], workers, false, if thorough { (3, 3) } else { (2, 2) }, 8));
        for z in [s(0, 1, 2, 2), s(0, 2, 2, 1), s(2, 1, 2, 1)] {
            for place in [Where::ThreeTasks, Where::ThreeThreads] {
                out.push(multiply(place, vec![z, z, z], workers, false, if thorough { (2, 2) } else { (1, 1) }, 8));
            }
        }
        // many rows, columns and inner elements
        for z in [s(0, 1, 2, 17), s(0, 1, 1, 65), s(0, 2, 1, 67), s(0, 1, 1, 130), s(0, 65, 1, 1), s(0, 67, 2, 1), s(0, 130, 1, 2), s(0, 1, 65, 2), s(0, 1, 300, 2), s(17, 1, 1, 1), s(33, 1, 1, 2), s(65, 1, 1, 1), s(2, 17, 2, 1), s(5, 3, 3, 3)] {
            for place in [Where::Outside, Where::InPool] {
                let b = match z.rows() * z.n {
                    0..=20 => (2, 1),
                    _ => (1, 1),
                };
                out.push(multiply(place, vec![z], workers, false, b, 8));
            }
        }
    }
    // thousands of tasks, one schedule of each
    for workers in [1, 3] {
        for z in [s(0, 40, 3, 140), s(0, 140, 2, 40), s(0, 3, 1500, 5), s(50, 4, 2, 20)] {
            for place in [Where::Outside, Where::InPool] {
                out.push(multiply(place, vec![z], workers, false, (0, 0), 1));
            }
        }
    }
    // every number of workers with every number of columns and of rows, few schedules of each
    for workers in 1..=8 {
        for n in 1..=(if thorough { 40 } else { 20 }) {
            for z in [s(0, 1, 2, n), s(0, n, 2, 1), s(0, 3, 1, n), s(n, 1, 2, 2)] {
                out.push(multiply(Where::Outside, vec![z], workers, false, (0, 1), 1));
                if n % 3 == 1 {
                    out.push(multiply(Where::InPool, vec![z], workers, false, (0, 1), 1));
                    out.push(multiply(Where::OwnPool(workers), vec![z], 1, false, (0, 1), 1));
                }
            }
        }
        // and many rows, columns or inner elements, one schedule of each
        for z in [s(0, 3, 3, 70), s(0, 70, 3, 3), s(0, 10, 90, 10), s(7, 5, 4, 9), s(40, 1, 3, 2)] {
            for place in [Where::Outside, Where::InPool] {
                out.push(multiply(place, vec![z], workers, false, (0, 0), 1));
            }
            out.push(multiply(Where::OwnPool(workers), vec![z], 1, false, (0, 0), 1));
        }
    }
    out
}

fn differentiate(place: Where, sizes: Vec<Size>, workers: usize, plain: bool, bounds: (u32, u32), parts: u32) -> Case {
    let key = format!(
        "{place:?} {}{}",
        sizes.iter().map(|s| s.text()).collect::<Vec<_>>().join(" and "),
        if plain { " through sum" } else { "" }
    );
    let body: Body = Rc::new(move |mode| {
        let mut v: Vec<(T, T, T, Size, bool)> = vec![];
        for &s in &sizes {
            let prev = v.iter().find(|o| o.3.text() == s.text()).map(|o| (o.0.clone(), o.1.clone()));
            let fresh = prev.is_none();
            let (a, b) = prev.unwrap_or_else(|| (t(&s.left().0, &s.left().1), t(&s.right().0, &s.right().1)));
            // the forward pass is not what is explored here
            let c = a.bmm(&b);
            let r = if plain { c.sum() } else { F::dot(&c, &t(&s.weight().0, &s.weight().1)) };
            v.push((a, b, r, s, fresh));
        }
        let jobs = v
            .iter()
            .map(|o| {
                let r = o.2.clone();
                Box::new(move || {
                    r.backward();
                    String::new()
                }) as Job
            })
            .collect();
        place.run(mode, jobs)?;
        let mut text_out = String::new();
        for (a, b, _, s, fresh) in &v {
            if !fresh {
                continue;
            }
            let times = v.iter().filter(|o| o.3.text() == s.text()).count() as f64;
            let (_, mut ga, mut gb) = s.truth();
            if plain {
                let (l, r, k, n) = (s.left().0, s.right().0, s.k, s.n);
                ga = (0..s.rows() * k).map(|i| (0..n).map(|j| r[i % k * n + j]).sum()).collect();
                gb = (0..k * n).map(|i| (0..s.rows()).map(|q| l[q * k + i / n]).sum()).collect();
            }
            for g in ga.iter_mut().chain(gb.iter_mut()) {
                *g *= times;
            }
            for (name, got, want) in [
                ("left", show_grad(a), text(&ga, &s.left().1)),
                ("right", show_grad(b), text(&gb, &s.right().1)),
            ] {
                if got != want {
                    return Err(format!("gradient of the {name} operand of {} is {got}, should be {want}", s.text()));
                }
                text_out += &got;
            }
        }
        Ok(text_out)
    });
    Case { section: "backward of matrix multiplication", key, workers, bounds, differential: true, parts, body, custom: None }
}

fn c26(thorough: bool) -> Vec<Case> {
    let s = |batch, m, k, n| Size { batch, m, k, n };
    let mut out = vec![];
    let max = if thorough { 4 } else { 3 };
    for workers in 1..=max {
        for z in [s(0, 1, 1, 1), s(0, 1, 1, 2), s(0, 2, 1, 1), s(0, 1, 2, 1)] {
            for place in [Where::Outside, Where::InPool, Where::OwnPool(1), Where::OwnPool(2)] {
                if matches!(place, Where::OwnPool(_)) && workers > 1 {
                    continue;
                }
                out.push(differentiate(place, vec![z], workers, false, if thorough { (3, 3) } else { (2, 2) }, if thorough { 32 } else { 8 }));
            }
        }
        for z in [s(0, 1, 2, 2), s(0, 2, 2, 2), s(2, 1, 1, 2), s(0, 2, 3, 2)] {
            for place in [Where::Outside, Where::InPool] {
                out.push(differentiate(place, vec![z], workers, z.k == 2 && z.m == 2, if thorough { (2, 2) } else { (1, 1) }, if thorough { 32 } else { 4 }));
            }
        }
        // more than one segment on one or both sides
        for z in [s(0, 1, 1, 33), s(0, 33, 1, 1), s(0, 1, 33, 1), s(0, 1, 1, 65), s(2, 17, 1, 1)] {
            for place in [Where::Outside, Where::InPool] {
                let deep = thorough && z.n < 40;
                out.push(differentiate(place, vec![z], workers, false, if deep { (1, 1) } else { (1, 0) }, if thorough { 32 } else { 4 }));
            }
        }
        // full segments whose elements receive several contributions
        for (z, b) in [(s(0, 33, 1, 2), (1, 1)), (s(0, 2, 1, 33), (1, 1)), (s(0, 2, 32, 1), (1, 1)), (s(2, 1, 8, 4), (1, 1)), (s(0, 8, 4, 2), (1, 1))] {
            for place in [Where::Outside, Where::InPool] {
                out.push(differentiate(place, vec![z], workers, false, if thorough { (1, 2) } else { b }, if thorough { 32 } else { 4 }));
            }
        }
        for place in [Where::TwoThreads, Where::Join, Where::TwoTasks, Where::Mixed] {
            for (a, b) in [(s(0, 1, 1, 1), s(0, 1, 1, 1)), (s(0, 1, 1, 2), s(0, 1, 1, 2)), (s(0, 1, 2, 1), s(0, 2, 1, 1))] {
                out.push(differentiate(place, vec![a, b], workers, false, if thorough { (2, 2) } else { (1, 1) }, if thorough { 32 } else { 4 }));
            }
        }
        for z in [s(0, 1, 1, 1), s(0, 1, 2, 1), s(0, 2, 1, 1)] {
            out.push(differentiate(Where::ThreeThreads, vec![z, z, z], workers, false, (1, 1), if thorough { 32 } else { 4 }));
        }
        // many segments
        for z in [s(0, 1, 1, 97), s(0, 97, 1, 1), s(0, 1, 129, 1), s(0, 1, 65, 2), s(0, 2, 65, 1), s(0, 5, 3, 33), s(33, 1, 1, 1), s(33, 1, 2, 1), s(3, 5, 7, 2), s(0, 1, 1, 257), s(0, 257, 1, 1)] {
            for place in [Where::Outside, Where::InPool] {
                out.push(differentiate(place, vec![z], workers, false, if thorough && z.rows() * z.n < 100 { (1, 0) } else { (0, 1) }, if thorough { 32 } else { 4 }));
            }
        }
        out.push(differentiate(
            Where::ThreeTasks,
            vec![s(0, 1, 1, 1), s(0, 1, 1, 2), s(0, 1, 1, 1)],
            workers,
            false,
            if thorough { (2, 2) } else { (1, 1) },
            if thorough { 32 } else { 4 },
        ));
    }
    // thousands of contributions to every segment, one schedule of each
    for workers in [1, 3] {
        for z in [s(0, 40, 40, 140), s(0, 140, 40, 40), s(0, 300, 2, 300), s(50, 4, 10, 140), s(0, 3, 1500, 5)] {
            for place in [Where::Outside, Where::InPool] {
                out.push(differentiate(place, vec![z], workers, false, (0, 0), 1));
            }
        }
    }
    // every number of workers with every extent, few schedules of each
    for workers in 1..=8 {
        for n in (1..=20).step_by(if thorough { 1 } else { 2 }) {
            for z in [s(0, 1, 2, n), s(0, n, 2, 1), s(0, 2, n, 1), s(n, 1, 2, 1)] {
                out.push(differentiate(Where::Outside, vec![z], workers, false, (0, 1), 1));
                if n % 3 == 1 {
                    out.push(differentiate(Where::InPool, vec![z], workers, false, (0, 1), 1));
                    out.push(differentiate(Where::OwnPool(workers), vec![z], 1, false, (0, 1), 1));
                }
            }
        }
        // and hundreds of contributions to every segment, one schedule of each
        for z in [s(0, 20, 15, 20), s(0, 3, 40, 30), s(0, 80, 3, 6), s(0, 6, 3, 80), s(6, 5, 10, 8)] {
            for place in [Where::Outside, Where::InPool] {
                out.push(differentiate(place, vec![z], workers, false, (0, 0), 1));
            }
            out.push(differentiate(Where::OwnPool(workers), vec![z], 1, false, (0, 0), 1));
        }
    }
    out
}

// ------------------------------------------------------------------ C27
#[derive(Clone)]
struct Common {
    x: T,
    w: T,
    u: T,
    r: T,
    inp: T,
    net: std::sync::Arc<Linear<f64>>,
    cube: T,
    /// only in the cases whose programs use it
    big: Option<T>,
}
impl Common {
    fn new(big: bool) -> Common {
        let x = t(&[1.0, -2.0, 3.0, 4.0], &[2, 2]);
        let w = t(&[3.0, 5.0, -7.0, 11.0], &[2, 2]);
        let u = &x + &w;
        Common {
            r: u.sum(),
            inp: t(&[2.0, 3.0], &[1, 2]),
            cube: t(&[1.0, -2.0, 3.0, -4.0], &[2, 1, 2]),
            big: big.then(|| like(&[1.0, -2.0, 0.5], &[6, 50])),
            net: std::sync::Arc::new(Linear::new(t(&[1.0, 2.0], &[2, 1]), t(&[0.5], &[1, 1]), Some(F::relu))),
            x,
            w,
            u,
        }
    }
    fn show(&self) -> String {
        format!(
            "x:{} w:{} u:{} inp:{} net:{} {} cube:{} values {} {} {} {} {}",
            show_grad(&self.x),
            show_grad(&self.w),
            show_grad(&self.u),
            show_grad(&self.inp),
            show_grad(&self.net.weights),
            show_grad(&self.net.bias),
            show_grad(&self.cube),
            show(&self.cube),
            show(&self.x),
            show(&self.w),
            show(&self.u),
            self.big.as_ref().map_or(String::new(), |b| format!("big {} {}", show_grad(b), show(b)))
        )
    }
}
const PROGRAMS: [&str; 30] = [
    "forward over shared tensors",
    "backward through shared and own tensors",
    "backward twice over a chain of own results",
    "slices and copies of shared tensors",
    "clone, use and drop shared tensors",
    "reset and refill of an own gradient",
    "backward of the shared result",
    "deep copy of a shared tensor, then backward through the copy",
    "refused operations on shared tensors",
    // with the pool
    "forward of the shared layer",
    "training step of an own layer on the shared input",
    "training step of an own two-layer network",
    // without it
    "broadcast the shared cube against 1x3x2",
    "broadcast 3x2x1 against 1x2x2",
    "broadcast a row against rank four",
    "slices of slices, reshaped, of an own rank-four tensor",
    "another slice of the same shape as the shared matrix",
    "nested literals, comparing and printing",
    "tanh, abs and relu over rank three",
    "element-wise and scalar products",
    // with it
    "batched multiplication with backward",
    "multiplication of slices",
    "forward of an own three-layer network twice",
    // without it, on more elements
    "maps and additions over 6x7",
    "maps and additions over 7x6 and 5x13",
    "reductions and maps of the shared 6x50",
    "backward through the shared 6x50 and an own row",
    "slices, copies and scaling of the shared 6x50",
    // with it
    "multiplication of the shared 6x50",
    "multiplication of the shared matrix by an own 2x11",
];
const POOL: [usize; 9] = [9, 10, 11, 18, 20, 21, 22, 28, 29];
/// These use the large shared tensor.
const BIG: [usize; 4] = [25, 26, 27, 28];
fn program(k: usize, c: Common) -> String {
    match k {
        0 => {
            let y = &(&c.x - &c.w) + &c.u;
            format!("{} {}", show(&y), show(&(&y).neg().abs().sum()))
        }
        1 => {
            let z = t(&[1.0, 1.0, 2.0, -3.0], &[2, 2]);
            let r = F::dot(&(&c.x + &z), &c.w);
            r.backward();
            format!("{} {}", show(&r), show_grad(&z))
        }
        2 => {
            let z = t(&[5.0], &[1]);
            let y = &z + &c.x;
            let r = F::relu(y.clone()).sum();
            r.backward();
            r.backward();
            format!("{} {} {}", show(&r), show_grad(&z), show_grad(&y))
        }
        3 => {
            let v = c.x.view(vec![SliceRange::new(0, 2), SliceRange::new(1, 2)]);
            let s = v.to_tensor();
            let d = v.sum();
            format!("{} {} {}", show(&v), show(&s), show(&d))
        }
        4 => {
            let mut keep = vec![c.x.clone(), c.u.clone()];
            let y = (&keep[0] + &keep[1]).sum();
            keep.clear();
            let s = show(&y);
            drop(y);
            drop(c);
            s
        }
        5 => {
            let z = t(&[1.0, 2.0, 3.0, 4.0], &[2, 2]);
            (&z + &c.w).sum().backward();
            let a = show_grad(&z);
            z.zero_grad();
            z.update_grad(t(&[7.0, 7.0, 7.0, 7.0], &[2, 2]));
            format!("{a} {}", show_grad(&z))
        }
        6 => {
            c.r.backward();
            show(&c.r)
        }
        7 => {
            let d = c.w.deep_clone();
            d.zero_grad();
            (&d - &c.x).sum().backward();
            format!("{} {}", show(&d), show_grad(&d))
        }
        8 => {
            let bad = catch_unwind(AssertUnwindSafe(|| c.x.backward())).is_err();
            let bad2 = catch_unwind(AssertUnwindSafe(|| &c.x + &t(&[1.0, 2.0, 3.0], &[3]))).is_err();
            (&c.x + &c.x).sum().backward();
            format!("{bad} {bad2}")
        }
        9 => {
            let y = c.net.forward(c.inp.clone());
            show(&y)
        }
        10 => {
            let mut l = Linear::new(t(&[1.0, -1.0], &[2, 1]), t(&[2.0], &[1, 1]), None);
            let y = l.forward(c.inp.clone());
            y.sum().backward();
            sgd_step(&mut l, RcTensor::scalar(0.5));
            let p = l.params();
            format!("{} {} {}", show(&y), show(&p[0]), show(&p[1]))
        }
        12 => {
            let z = t(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], &[1, 3, 2]);
            let y = &c.cube + &z;
            y.sum().backward();
            let n = &z - &c.cube;
            format!("{} {} {}", show(&y), show_grad(&z), show(&n))
        }
        13 => {
            let a = t(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], &[3, 2, 1]);
            let b = t(&[10.0, 20.0, 30.0, 40.0], &[1, 2, 2]);
            let y = &a + &b;
            let w = t(&(0..12).map(|i| i as f64).collect::<Vec<_>>(), &[3, 2, 2]);
            F::dot(&y, &w).backward();
            format!("{} {} {}", show(&y), show_grad(&a), show_grad(&b))
        }
        14 => {
            let a = t(&[1.0, 2.0], &[2]);
            let b = t(&[10.0, 20.0, 30.0, 40.0], &[2, 1, 2, 1]);
            let y = &a - &b;
            y.sum().backward();
            format!("{} {} {}", show(&y), show_grad(&a), show_grad(&b))
        }
        15 => {
            let a = t(&(0..16).map(|i| i as f64).collect::<Vec<_>>(), &[2, 2, 2, 2]);
            let v = a.view((0..4).map(|k| SliceRange::new(k % 2, 2)).collect());
            let r = v.reshape(vec![2, 2]);
            let q = r.slice(vec![SliceRange::new(0, 2), SliceRange::new(1, 2)]);
            format!("{} {} {} {}", show(&v), show(&r), show(&q), v == v.to_tensor())
        }
        16 => {
            let a = t(&[5.0, 6.0, 7.0, 8.0], &[2, 2]);
            let v = a.view(vec![SliceRange::new(0, 2), SliceRange::new(0, 1)]);
            let s = c.w.view(vec![SliceRange::new(1, 2), SliceRange::new(0, 2)]);
            format!("{} {} {}", show(&v), show(&s), show(&v.sum()))
        }
        17 => {
            let a: T = RcTensor::from([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]);
            let b: T = RcTensor::from(vec![vec![1.0, -2.0], vec![3.0, 4.0]]);
            let f: T = RcTensor::new_with_filler(vec![2, 2], 7.0);
            format!("{} {} {} {} {} {}", show(&a), show(&b), show(&f), b == c.x, a == b, b.deep_clone() == b)
        }
        18 => {
            let a = t(&[-1.0, 2.0, 0.5, -0.25], &[1, 2, 2]);
            let y = F::tanh(F::relu(a.clone()) + (&a).neg().abs());
            y.sum().backward();
            let k = F::relu(c.cube.clone());
            format!("{} {} {}", show(&y), show_grad(&a), show(&k))
        }
        19 => {
            let s = RcTensor::scalar(3.0);
            let y = F::element_wise_multiplication(&c.x, &c.w);
            let z = c.x.clone() * s;
            format!("{} {} {}", show(&y), show(&z), show(&c.w.left_scalar_multiplication(&2.0)))
        }
        20 => {
            let a = t(&[1.0, 2.0, 3.0, 4.0], &[2, 1, 2]);
            let b = t(&[5.0, 6.0], &[2, 1]);
            let y = a.bmm(&b);
            y.sum().backward();
            format!("{} {} {}", show(&y), show_grad(&a), show_grad(&b))
        }
        21 => {
            let v = c.x.view(vec![SliceRange::new(1, 2), SliceRange::new(0, 2)]);
            let w = c.w.view(vec![SliceRange::new(0, 2), SliceRange::new(1, 2)]);
            show(&v.bmm(&w))
        }
        23 => {
            let a = like(&[1.0, -2.0, 0.25], &[6, 7]);
            let y = &a.abs() + &(&F::relu(a.clone()) - &like(&[4.0, 5.0], &[7]));
            format!("{} {}", show(&y), show(&(&y).neg()))
        }
        24 => {
            let a = like(&[-3.0, 2.0], &[7, 6]);
            let b = like(&[7.0, -0.5, 1.0, -50.0], &[5, 13]);
            format!("{} {} {}", show(&F::relu(a.clone())), show(&(&b.abs() - &like(&[1.0], &[5, 1]))), show(&(&a + &(&a).neg())))
        }
        25 => {
            let b = c.big.unwrap();
            format!("{} {} {}", show(&b.sum()), show(&F::dot(&b, &b)), show(&(&b.abs() + &F::relu(b.clone()))))
        }
        26 => {
            let b = c.big.unwrap();
            let row = like(&[2.0, -1.0], &[50]);
            (&b - &row).sum().backward();
            show_grad(&row)
        }
        27 => {
            let b = c.big.unwrap();
            let v = b.view(vec![SliceRange::new(1, 5), SliceRange::new(3, 40)]);
            format!("{} {} {} {}", show(&v), show(&v.to_tensor().deep_clone()), show(&b.left_scalar_multiplication(&2.0)), show(&F::element_wise_multiplication(&b, &b)))
        }
        28 => {
            let b = c.big.unwrap();
            show(&b.bmm(&like(&[1.0, -1.0, 0.5], &[50, 1])))
        }
        29 => show(&c.x.bmm(&like(&[1.0, -1.0, 0.5], &[2, 11]))),
        22 => {
            let layer = |v: f64| Linear::new(t(&[v], &[1, 1]), t(&[1.0], &[1, 1]), Some(F::relu as fn(T) -> T));
            let m = Mlp::new([layer(1.0), layer(-2.0), layer(3.0)]);
            let a = m.forward(t(&[2.0], &[1, 1]));
            let b = m.forward(t(&[-5.0], &[1, 1]));
            format!("{} {}", show(&a), show(&b))
        }
        _ => {
            let layer = |v: f64| Linear::new(t(&[v, 1.0, 0.0, -v], &[2, 2]), t(&[1.0, v], &[1, 2]), Some(F::relu as fn(T) -> T));
            let mut m = Mlp::new([layer(1.0), layer(2.0)]);
            let y = m.forward(c.inp.clone());
            F::dot(&y, &t(&[1.0, 3.0], &[1, 2])).backward();
            sgd_step(&mut m, RcTensor::scalar(1.0));
            let z = m.forward(c.inp.clone());
            format!("{} {} {}", show(&y), show(&z), m.params().iter().map(|p| show(p)).collect::<Vec<_>>().join(" "))
        }
    }
}

fn c27(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let case = |section: &'static str, progs: Vec<usize>, workers: usize, bounds: (u32, u32), parts: u32| {
        let key = progs.iter().map(|&k| PROGRAMS[k]).collect::<Vec<_>>().join(" || ");
        let body: Body = Rc::new(move |mode| {
            let c = Common::new(progs.iter().any(|k| BIG.contains(k)));
            let jobs = progs
                .iter()
                .map(|&k| {
                    let c = c.clone();
                    Box::new(move || program(k, c)) as Job
                })
                .collect();
            let got = par(mode, jobs)?;
            Ok(format!("{} || {}", got.join(" | "), c.show()))
        });
        Case { section, key, workers, bounds, differential: true, parts, body, custom: None }
    };
    let pool = |k: usize| POOL.contains(&k);
    let plain: Vec<usize> = (0..PROGRAMS.len()).filter(|&k| !pool(k)).collect();
    for (i, &a) in plain.iter().enumerate() {
        for &b in &plain[i..] {
            out.push(case("two programs", vec![a, b], 1, (if thorough { 6 } else { 3 }, u32::MAX), if thorough { 8 } else { 1 }));
        }
    }
    for (i, &a) in plain.iter().enumerate() {
        for (j, &b) in plain.iter().enumerate().skip(i) {
            for &d in &plain[j..] {
                let old = d < 9;
                if BIG.contains(&d) && (a, b, d) != (a, d, d) && !thorough {
                    continue;
                }
                let deep = match (thorough, old) {
                    (true, true) => 3,
                    (false, false) => 1,
                    _ => 2,
                };
                out.push(case("three programs", vec![a, b, d], 1, (deep, u32::MAX), if thorough && old { 8 } else { 1 }));
            }
        }
    }
    let heavy = |k: usize| matches!(k, 11 | 18 | 20 | 22 | 28 | 29);
    for workers in 1..=(if thorough { 3 } else { 2 }) {
        for (i, &p) in POOL.iter().enumerate() {
            for b in plain.iter().chain(&POOL[i..]).copied() {
                let n = heavy(p) as u32 + heavy(b) as u32;
                let bounds = match (thorough, n) {
                    (false, 0) => (1, 2),
                    (false, _) => (1, 1),
                    (true, 0) => (2, 2),
                    (true, _) => (2, 1),
                };
                out.push(case("programs that use the pool", vec![p, b], workers, bounds, if thorough { 16 } else { 2 }));
            }
        }
        // three at a time
        for p in [9, 10, 21] {
            for q in [9, 21, 29] {
                for r in [1, 9, 18, 21] {
                    let n = u32::from(heavy(q)) + u32::from(heavy(r));
                    let bounds = if thorough { (1, 2) } else { (1, u32::from(n == 0)) };
                    out.push(case("three programs that use the pool", vec![p, q, r], workers, bounds, if thorough { 16 } else { 2 }));
                }
            }
        }
    }
    out
}
