//! C22: every cycle of operations up to a length, repeated; live heap bytes and heap allocations
//! per repetition are compared at iterations 9, 17, 33 and, when they grew, on up to 4097.
use crate::bodies::{grad, show, show_grad};
use crate::explore::*;
use mc_rt::exec::{self, Options};
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::ops::Neg;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}

type T = RcTensor<f64>;
fn t(v: &[f64], s: &[usize]) -> T {
    RcTensor::new(v.to_vec(), s.to_vec())
}

/// What lives on from one repetition to the next.
struct World {
    n: usize,
    x: T,
    w: T,
    row: T,
    col: T,
    /// results prepared once, and used again and again
    r_add: T,
    r_mix: T,
    r_bmm: T,
    stash: Option<T>,
    saved: Option<T>,
    raw: RawTensor<f64>,
    layer: Linear<f64>,
    net: Mlp<f64, 2>,
    input: T,
    goal: T,
}
impl World {
    /// matrices of n by n
    fn new(n: usize) -> World {
        let of = |v: &[f64], s: &[usize]| t(&v.iter().copied().cycle().take(s.iter().product()).collect::<Vec<_>>(), s);
        let x = of(&[1.0, -2.0, 0.5, 3.0], &[n, n]);
        let w = of(&[3.0, 5.0, -1.0, 0.25], &[n, n]);
        let row = of(&[1.0, -1.0], &[1, n]);
        let col = of(&[2.0, 0.5], &[n, 1]);
        let lin = |i: usize, o: usize, f: fn(T) -> T| {
            let n = i * o;
            Linear::new(t(&(0..n).map(|k| 0.25 * k as f64 - 0.5).collect::<Vec<_>>(), &[i, o]), t(&vec![0.125; o], &[1, o]), Some(f))
        };
        World {
            r_add: (&x + &w).sum(),
            r_mix: (F::relu(&(&x - &w) + &row)).sum(),
            r_bmm: row.bmm(&x).bmm(&col).sum(),
            stash: None,
            saved: None,
            raw: RawTensor::new(vec![1.0, 2.0], vec![2]),
            layer: lin(n, n, F::tanh),
            net: Mlp::new([lin(n, 3, F::relu), lin(3, n, F::tanh)]),
            input: of(&[1.0, 2.0], &[1, n]),
            goal: of(&[0.0, 1.0], &[1, n]),
            n,
            x,
            w,
            row,
            col,
        }
    }
}

const STEP: f64 = 1e-4;

type Act = (&'static str, fn(&mut World));
fn acts() -> Vec<Act> {
    vec![
        ("x.update_grad", |s| s.x.update_grad(t(&vec![1.5; s.n * s.n], &[s.n, s.n]))),
        ("(x+w).sum.backward", |s| (&s.x + &s.w).sum().backward()),
        ("r_add.backward", |s| s.r_add.backward()),
        ("r_mix.backward", |s| s.r_mix.backward()),
        ("r_bmm.backward", |s| s.r_bmm.backward()),
        ("zero_grad", |s| {
            s.x.zero_grad();
            s.w.zero_grad();
            s.row.zero_grad();
        }),
        ("layer step", |s| {
            let y = s.layer.forward(s.input.clone());
            (&y - &s.goal).abs().sum().backward();
            sgd_step(&mut s.layer, RcTensor::scalar(STEP));
        }),
        ("network step", |s| {
            let y = s.net.forward(s.input.clone());
            F::dot(&y, &s.goal).backward();
            sgd_step(&mut s.net, RcTensor::scalar(STEP));
        }),
        ("stash = x + row", |s| s.stash = Some(&s.x + &s.row)),
        ("stash.sum.backward", |s| {
            if let Some(u) = &s.stash {
                u.sum().backward();
            }
        }),
        ("saved = x.grad", |s| s.saved = grad(&s.x)),
        ("(saved + w).sum.backward", |s| {
            if let Some(g) = &s.saved {
                (g + &s.w).sum().backward();
            }
        }),
        ("x.deep_clone, backward of the copy", |s| {
            let d = s.x.deep_clone();
            (&d + &s.w).sum().backward();
            s.saved = Some(d.deep_clone());
        }),
        ("fresh leaves through every operation", |_| {
            let (a, b, c) = (t(&[1.0, -2.0], &[1, 2]), t(&[3.0, 5.0, -1.0, 0.5], &[2, 2]), t(&[0.5], &[1]));
            let y = F::tanh(&(&a.bmm(&b) - &c) + &a);
            let z = F::relu((&y).neg()).abs();
            let d = F::dot(&z, &a);
            d.backward();
            z.sum().backward();
            (y + z).sum().backward();
            let _ = show_grad(&a);
        }),
        ("forward, result dropped", |s| {
            let y = (&s.x + &s.w).abs();
            let _ = show(&F::relu((&y).neg()).sum());
            let _ = s.net.forward(s.input.clone());
            let _ = s.x.bmm(&s.w);
        }),
        ("slices", |s| {
            let v = s.x.view(vec![SliceRange::new(0, s.n), SliceRange::new(1, 2)]);
            let v2 = v.slice(vec![SliceRange::new(0, 1), SliceRange::new(0, 1)]);
            let m = v.to_tensor();
            let _ = (show(&v), show(&v2), show(&v.sum()), show(&v2.reshape(vec![1])));
            (&m + &s.col).sum().backward();
            let _ = show(&v.bmm(&s.row));
        
            // of every rank to 6
            let mut shape = vec![s.n, s.n];
            for rank in 3..=6 {
                shape.insert(1, 1 + rank % 2);
                let deep = t(&vec![0.5; shape.iter().product()], &shape);
                let all = |from: usize| shape.iter().map(|&d| SliceRange::new(from.min(d - 1), d)).collect::<Vec<_>>();
                let v = deep.view(all(1));
                let _ = (show(&v), show(&v.slice(v.shape().iter().map(|&d| SliceRange::new(0, d)).collect())), show(&deep.view(all(0)).sum()));
            }
        }),
        ("scaling and products", |s| {
            let two = RcTensor::scalar(2.0);
            let y = &two * &s.x;
            let z = s.x.clone() * s.w.clone();
            let _ = (show(&y), show(&z));
        }),
        ("refused operations", |s| {
            let no = |r: std::thread::Result<()>| assert!(r.is_err(), "was not refused");
            no(catch_unwind(AssertUnwindSafe(|| s.x.backward())));
            no(catch_unwind(AssertUnwindSafe(|| drop(&s.x + &t(&vec![1.0; s.n + 1], &[s.n + 1])))));
            no(catch_unwind(AssertUnwindSafe(|| drop(s.x.bmm(&s.row)))));
            assert!(s.x.get(&vec![50, 50]).is_err());
        }),
        ("update_params(params)", |s| {
            let p = s.net.params();
            s.net.update_params(p);
            let p = Module::params(&s.layer);
            s.layer.update_params(p);
            let _ = Linear::params(&mut s.layer).count();
        }),
        ("raw tensors", |s| {
            let y = &s.raw + &RawTensor::new(vec![1.0, 1.0], vec![2]);
            let z = &y * &RawTensor::new(vec![2.0, 0.5], vec![2]);
            let _ = show(&z.sum());
            s.raw = RawTensor::new(vec![1.0, 2.0], vec![2]);
            s.raw.update_grad(t(&[1.0, 1.0], &[2]));
            s.raw.update_grad(t(&[1.0, 1.0], &[2]));
            let _ = s.raw.to_tensor();
        }),
        ("clones", |s| {
            let k = vec![s.x.clone(), s.x.clone(), s.r_mix.clone(), s.r_bmm.clone()];
            k[2].backward();
            s.x = k[1].clone();
        }),
        ("x.update_grad(x + w)", |s| s.x.update_grad(&s.x + &s.w)),
        ("momentum", |s| {
            if let Some(g) = grad(&s.x) {
                s.x.zero_grad();
                s.x.update_grad(&g + &s.w);
            }
        }),
        ("x.update_grad(x)", |s| s.x.update_grad(s.x.clone())),
        ("x.grad.sum.backward", |s| {
            if let Some(g) = grad(&s.x) {
                (&g + &s.w).sum().backward();
            }
        }),
    ]
}

#[derive(Default)]
pub struct Measured {
    pub iterations: u64,
    pub operations: u64,
    pub steps: u64,
    pub states: u64,
    pub capped: bool,
}

fn at(k: u64) -> bool {
    k >= 9 && (k - 1).is_power_of_two()
}

/// Repeat the cycle; Err when memory or work per repetition keeps growing.
fn repeat(word: &[Act], size: usize, fresh: bool, min: u64, workers: usize, m: &mut Measured, beat: &dyn Fn(), deadline: &dyn Fn() -> bool) -> Result<(), String> {
    let word: Rc<Vec<Act>> = Rc::new(word.to_vec());
    let world: Rc<RefCell<Option<World>>> = Default::default();
    // measured values are kept in place: the harness itself must not allocate
    let mut points = [(0u64, 0i64, 0u64, 0u64); 16];
    let mut n = 0;
    let mut sizes = std::collections::HashSet::with_capacity(4096);
    let mut k = 0;
    loop {
        k += 1;
        let (w, wd) = (word.clone(), world.clone());
        let allocs = ALLOCS.load(Relaxed);
        let (r, o) = exec::run(Options { workers, max_steps: MAX_STEPS, prefix: &[], seen: None, log: false }, move || {
            let mut g = wd.borrow_mut();
            if fresh || g.is_none() {
                *g = Some(World::new(size));
            }
            let s = g.as_mut().unwrap();
            for a in w.iter() {
                if catch_unwind(AssertUnwindSafe(|| a.1(s))).is_err() {
                    return Some(format!("{}: panic: {}", a.0, last_panic()));
                }
            }
            if fresh {
                *g = None;
            }
            None
        });
        let (steps, failure) = (o.steps, o.failure.clone());
        drop(o);
        if let Some(e) = failure.or(r.flatten()) {
            return Err(format!("repetition {k}: {e}"));
        }
        clear_panic();
        beat();
        if deadline() {
            m.capped = true;
            break;
        }
        let work = ALLOCS.load(Relaxed) - allocs;
        let live = LIVE.load(Relaxed);
        m.iterations += 1;
        m.operations += word.len() as u64;
        m.steps += steps;
        if sizes.len() < 2000 && sizes.insert((live, work)) {
            m.states += 1;
        }
        if at(k) {
            points[n] = (k, live, work, steps);
            n += 1;
            let grows = |f: fn(&(u64, i64, u64, u64)) -> i64| n >= 3 && points[n - 3..n].windows(2).all(|p| f(&p[0]) < f(&p[1]));
            let memory = grows(|p| p.1);
            let effort = grows(|p| p.2 as i64) || grows(|p| p.3 as i64);
            if k >= 33 && !(memory || effort) && k >= min {
                break;
            }
            // a bounded cache or pool fills up; a history grows by as much in every repetition
            let steady = |f: fn(&(u64, i64, u64, u64)) -> i64| {
                let slope = |p: &[(u64, i64, u64, u64)]| (f(&p[1]) - f(&p[0])) as f64 / (p[1].0 - p[0].0) as f64;
                n >= 7 && (0..n - 1).all(|i| slope(&points[i..]) > 0.0 && 2.0 * slope(&points[i..]) >= slope(&points[..]))
            };
            let sure = steady(|p| p.1) || steady(|p| p.2 as i64) || steady(|p| p.3 as i64);
            if k >= 4097 || sure {
                if memory || effort {
                    let p: Vec<String> = points[..n].iter().map(|p| format!("{}: {} bytes held, {} allocations, {} steps", p.0, p.1 - points[0].1, p.2, p.3)).collect();
                    let what = if memory { "memory held" } else { "work per repetition" };
                    return Err(format!("{what} keeps growing with the number of repetitions [{}] (bytes since repetition 9)", p.join("; ")));
                }
                break;
            }
        }
    }
    // leave nothing behind: dropping what has been built up must not exhaust the stack
    let wd = world.clone();
    let (_, o) = exec::run(Options { workers, max_steps: MAX_STEPS, prefix: &[], seen: None, log: false }, move || {
        wd.borrow_mut().take();
    });
    o.failure.map_or(Ok(()), Err)
}

pub type Custom = Rc<dyn Fn(&dyn Fn(), &dyn Fn() -> bool) -> (Measured, Result<(), String>)>;

pub fn cases(thorough: bool) -> Vec<Case> {
    let acts = acts();
    let mut words: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..if thorough { 4 } else { 3 } {
        last = last
            .iter()
            .flat_map(|w| (0..acts.len()).map(move |k| w.iter().copied().chain([k]).collect::<Vec<_>>()))
            .collect();
        words.extend(last.iter().cloned());
    }
    let mut out = vec![];
    let mut add = |section: &'static str, w: &[usize], size: usize, fresh: bool, min: u64, workers: usize| {
        let word: Vec<Act> = w.iter().map(|&k| acts[k]).collect();
        let key = format!(
            "{}{}{}{}",
            word.iter().map(|a| a.0).collect::<Vec<_>>().join("; "),
            if fresh { ", everything created and dropped in each repetition" } else { "" },
            if size != 2 { format!(", on {size}x{size} matrices") } else { String::new() },
            if min > 33 { format!(", {min} repetitions") } else { String::new() }
        );
        let custom: Custom = Rc::new(move |beat, deadline| {
            let mut m = Measured::default();
            let r = repeat(&word, size, fresh, min, workers, &mut m, beat, deadline);
            (m, r)
        });
        out.push(Case {
            section,
            key,
            workers,
            bounds: (0, 0),
            differential: false,
            parts: 1,
            body: Rc::new(|_| Ok(String::new())),
            custom: Some(custom),
        });
    };
    for w in words.iter().filter(|w| w.len() == 1) {
        for fresh in [false, true] {
            add("long runs", w, 2, fresh, if thorough { 65537 } else { 4097 }, 2);
        }
    }
    if thorough {
        for w in words.iter().filter(|w| w.len() == 2) {
            add("long runs", w, 2, false, 4097, 2);
        }
    }
    for w in words.iter().filter(|w| w.len() <= if thorough { 2 } else { 1 }) {
        for size in if w.len() == 1 { &[12, 24, 40][..] } else { &[40] } {
            for fresh in [false, true] {
                add("on matrices of up to 1600 elements", w, *size, fresh, 33, 1);
            }
        }
    }
    for w in &words {
        for fresh in [false, true] {
            let section = match w.len() {
                1 => "cycles of one operation",
                2 => "cycles of two operations",
                3 => "cycles of three operations",
                _ => "cycles of four operations",
            };
            if !(fresh && w.len() > if thorough { 3 } else { 2 }) {
                add(section, w, 2, fresh, 33, if w.len() == 1 { 3 } else { 1 });
            }
            if w.len() <= if thorough { 3 } else { 2 } && !fresh {
                for size in [3, 6] {
                    add("the same on larger matrices", w, size, fresh, 33, 1);
                }
            }
        }
    }
    out
}
