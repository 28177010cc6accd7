//! C12–C17: derivatives, accumulation, purity and refusals, over all compositions and sequences
//! of operations in bounds.
use crate::ctx::*;
use crate::model::*;
use crate::real::*;
use rust_light::nn::{Linear, Module};
use rust_light::tensor::functional as F;
use rust_light::tensor::*;

type R = Result<(), String>;
type Rc = RcTensor<f64>;


// ---------------------------------------------------------------- C12

struct Search {
    max_ops: usize,
    leaves: usize,
    ops: Vec<Op>,
    all_binary_orders: bool,
}

impl Search {
    fn go(&self, c: &mut Ctx, t: &mut Tape, label: &str) {
        if c.violations.len() >= MAX_VIOLATIONS {
            // keep numbering consistent between shards only matters on success
            return;
        }
        let done = t.nodes.len() - self.leaves;
        if done > 0 {
            let root = t.nodes.len() - 1;
            let anc = t.ancestors(root);
            let used = anc.iter().filter(|&&i| i >= self.leaves).count();
            if t.val(root).data.len() == 1 && used == done - 1 {
                self.check(c, t, label);
            }
        }
        if done == self.max_ops {
            return;
        }
        // every operation must reach the root: count the ones nobody uses yet
        let mut is_used = vec![false; t.nodes.len()];
        for n in &t.nodes {
            for &i in &n.ins {
                is_used[i] = true;
            }
        }
        let unused = (self.leaves..t.nodes.len()).filter(|&i| !is_used[i]).count();
        let left = self.max_ops - done;
        if unused > left + 1 {
            return;
        }
        let n = t.nodes.len();
        for &op in &self.ops {
            if UNARY.contains(&op) {
                for i in 0..n {
                    if t.push(op, &[i]).is_some() {
                        self.go(c, t, label);
                        t.nodes.pop();
                    }
                }
            } else {
                for i in 0..n {
                    for j in 0..n {
                        if !self.all_binary_orders && op != Op::Bmm && i > j && done > 1 {
                            continue;
                        }
                        if t.push(op, &[i, j]).is_some() {
                            self.go(c, t, label);
                            t.nodes.pop();
                        }
                    }
                }
            }
        }
    }

    fn check(&self, c: &mut Ctx, t: &Tape, label: &str) {
        if !c.mine() {
            c.skip();
            return;
        }
        let form = c.counter as usize / 8;
        let t = t.clone();
        let key = || {
            let mut s = format!("{label} form {}:", form % 6);
            for (k, n) in t.nodes.iter().enumerate().skip(self.leaves) {
                s += &format!(" t{k}={:?}{:?}", n.op, n.ins);
            }
            s + "; backward on the last"
        };
        c.case(key, |c| composition(c, &t, self.leaves, form % 6));
    }
}

fn composition(c: &mut Ctx, t: &Tape, leaves: usize, form: usize) -> R {
    let mut real: Vec<Rc> = vec![];
    let mut structure = vec![];
    for (k, n) in t.nodes.iter().enumerate() {
        if k < leaves {
            real.push(rc(&n.val));
            structure.push((Op::Leaf, n.val.digest() as usize, 0));
        } else {
            let a = &real[n.ins[0]];
            let b = n.ins.get(1).map(|&i| &real[i]);
            let r = attempt(|| real_op(n.op, a, b, form))
                .map_err(|e| format!("t{k} = {:?}{:?} was refused: {e}", n.op, n.ins))?;
            // (dot has one element; its rank is not promised, but what follows depends on it)
            near(&format!("value of t{k}"), &read(&r)?, &n.val)?;
            real.push(r);
            structure.push((n.op, n.ins[0], n.ins.get(1).map_or(99, |&i| i)));
        }
        c.state(hash(&structure));
    }
    let root = real.len() - 1;
    let mut m = t.clone();
    attempt(|| real[root].backward()).map_err(|e| format!("backward failed: {e}"))?;
    m.backward(root);
    for k in 0..real.len() {
        grad_matches(&format!("t{k}"), &real[k], &m.nodes[k].grad)?;
    }
    if t.nodes.len() > leaves + 1 {
        // the same once more, nobody holding the intermediate results (nor, at last, the result)
        let mut real: Vec<Rc> = vec![];
        for n in t.nodes.iter() {
            let r = if n.op == Op::Leaf {
                rc(&n.val)
            } else {
                let b = n.ins.get(1).map(|&i| &real[i]);
                attempt(|| real_op(n.op, &real[n.ins[0]], b, form + 1))?
            };
            real.push(r);
        }
        let last = real.pop().unwrap();
        real.truncate(leaves);
        attempt(|| last.backward()).map_err(|e| format!("backward without intermediates failed: {e}"))?;
        drop(last);
        for k in 0..leaves {
            grad_matches(&format!("t{k} without intermediates"), &real[k], &m.nodes[k].grad)?;
        }
    }
    Ok(())
}

/// The tape's last operation is a dot with leaf `w`: with that leaf scaled by a power of two all
/// other gradients scale along, exactly.
fn scaled(t: &Tape, leaves: usize, w: usize, form: usize) -> R {
    let root = t.nodes.len() - 1;
    let mut m = t.clone();
    m.backward(root);
    for exp in [-70i32, -30, 30, 70] {
        let k = 2f64.powi(exp);
        let mut real: Vec<Rc> = vec![];
        for (i, n) in t.nodes.iter().enumerate() {
            let r = if i < leaves {
                rc(&if i == w { n.val.map(|x| x * k) } else { n.val.clone() })
            } else {
                let b = n.ins.get(1).map(|&i| &real[i]);
                attempt(|| real_op(n.op, &real[n.ins[0]], b, form))?
            };
            real.push(r);
        }
        attempt(|| real[root].backward()).map_err(|e| format!("backward failed: {e}"))?;
        for i in (0..root).filter(|&i| i != w && m.nodes[i].grad.is_some()) {
            let g = grad(&real[i])?.ok_or_else(|| format!("t{i}: no gradient with the upstream scaled by 2^{exp}"))?;
            let g = rc(&g.map(|x| x / k));
            let seen = rc(&read(&real[i])?);
            seen.update_grad(g);
            grad_matches(&format!("t{i}, upstream scaled by 2^{exp}"), &seen, &m.nodes[i].grad)?;
        }
    }
    Ok(())
}

/// One operation (or two) on `shape`, weighted by an arbitrary upstream derivative.
fn every_op(c: &mut Ctx, shape: &[usize], form: usize) -> R {
    let (x, y, w) = (vals(shape, form), vals(shape, form + 1), vals(shape, form + 2).map(|v| v * 0.5 + 0.125));
    c.state(hash(("every op", shape, form)));
    for op in [Op::Neg, Op::Abs, Op::Relu, Op::Tanh] {
        if op == Op::Tanh && size(shape) > 300 {
            continue; // the code builds a square matrix of this size
        }
        let mut t = Tape::default();
        for l in [&x, &w] {
            t.leaf(l.clone());
        }
        t.push(op, &[0]).unwrap();
        t.push(Op::Dot, &[2, 1]).unwrap();
        composition(c, &t, 2, form).map_err(|e| format!("{op:?} dot weights: {e}"))?;
        scaled(&t, 2, 1, form).map_err(|e| format!("{op:?} dot weights: {e}"))?;
    }
    for op in [Op::Add, Op::Sub] {
        for ins in [[0, 1], [0, 0]] {
            let mut t = Tape::default();
            for l in [&x, &y, &w] {
                t.leaf(l.clone());
            }
            t.push(op, &ins).unwrap();
            t.push(Op::Dot, &[2, 3]).unwrap();
            composition(c, &t, 3, form).map_err(|e| format!("{op:?}{ins:?} dot weights: {e}"))?;
            scaled(&t, 3, 2, form).map_err(|e| format!("{op:?}{ins:?} dot weights: {e}"))?;
        }
    }
    // reductions, with an upstream derivative other than one
    let s = vals(&[], form + 2);
    let mut t = Tape::default();
    for l in [&x, &s] {
        t.leaf(l.clone());
    }
    t.push(Op::Sum, &[0]).unwrap();
    t.push(Op::Dot, &[2, 1]).unwrap();
    composition(c, &t, 2, form).map_err(|e| format!("sum times a factor: {e}"))?;
    scaled(&t, 2, 1, form).map_err(|e| format!("sum times a factor: {e}"))?;
    let s1 = vals(&[1], form + 2);
    for ins in [[0, 1], [1, 0], [0, 0]] {
        let mut t = Tape::default();
        for l in [&x, &y, &s1] {
            t.leaf(l.clone());
        }
        t.push(Op::Dot, &ins).unwrap();
        t.push(Op::Dot, &[3, 2]).unwrap();
        composition(c, &t, 3, form).map_err(|e| format!("dot{ins:?} times a factor: {e}"))?;
        scaled(&t, 3, 2, form).map_err(|e| format!("dot{ins:?} times a factor: {e}"))?;
    }
    Ok(())
}

pub fn c12(c: &mut Ctx) {
    let pairs: Vec<(Vec<usize>, Vec<usize>)> = vec![
        (vec![], vec![]),
        (vec![1], vec![1]),
        (vec![2], vec![2]),
        (vec![2], vec![1]),
        (vec![2], vec![]),
        (vec![1, 1], vec![1]),
        (vec![2, 2], vec![2, 2]),
        (vec![2, 2], vec![2]),
        (vec![2, 2], vec![2, 1]),
        (vec![1, 2], vec![2, 1]),
        (vec![2, 1], vec![1, 2]),
        (vec![2, 3], vec![3, 2]),
        (vec![3, 1], vec![1, 2]),
        (vec![2, 2, 2], vec![2, 2]),
        (vec![1, 2, 2], vec![2, 1]),
        (vec![2, 1, 2], vec![2, 1]),
        (vec![1, 1, 1], vec![1, 1]),
        (vec![2, 1, 2], vec![2]),
        (vec![2, 1, 1, 2], vec![2, 1]),
    ];
    let mut all_ops: Vec<Op> = UNARY.to_vec();
    all_ops.extend(BINARY);
    c.section("two leaves, up to three operations");
    for (set, (a, b)) in pairs.iter().enumerate() {
        let mut t = Tape::default();
        t.leaf(vals(a, set));
        t.leaf(vals(b, set + 1));
        Search {
            max_ops: 3,
            leaves: 2,
            ops: all_ops.clone(),
            all_binary_orders: true,
        }
        .go(c, &mut t, &format!("leaves {a:?} {b:?}"));
    }
    c.section("one leaf, up to four operations");
    let single = [vec![], vec![1], vec![2], vec![1, 1], vec![2, 2], vec![1, 2, 2]];
    for (set, a) in single.iter().enumerate() {
        let mut t = Tape::default();
        t.leaf(vals(a, set + 1));
        Search {
            max_ops: 4,
            leaves: 1,
            ops: all_ops.clone(),
            all_binary_orders: c.thorough,
        }
        .go(c, &mut t, &format!("leaf {a:?}"));
    }
    c.section("three leaves, up to three operations");
    for (set, (x, y, z)) in [
        (vec![2, 2], vec![2], vec![2, 1]),
        (vec![1, 2], vec![2, 2], vec![2, 1]),
        (vec![2], vec![2], vec![1]),
        (vec![2, 1, 2], vec![2, 2], vec![2]),
    ]
    .iter()
    .enumerate()
    {
        let mut t = Tape::default();
        t.leaf(vals(x, set));
        t.leaf(vals(y, set + 1));
        t.leaf(vals(z, set + 2));
        Search {
            max_ops: 3,
            leaves: 3,
            ops: all_ops.clone(),
            all_binary_orders: c.thorough,
        }
        .go(c, &mut t, &format!("leaves {x:?} {y:?} {z:?}"));
    }
    c.section("every operation at every shape, arbitrary upstream derivative");
    for shape in shapes(0..=4, &[1, 2, 3]).into_iter().chain(shapes(5..=6, &[1, 2])) {
        for form in 0..2 {
            c.case(|| format!("all operations on shape {shape:?}, values {form}"), |c| every_op(c, &shape, form));
        }
    }
    for n in 4..=if c.thorough { 300 } else { 140 } {
        c.case(
            || format!("all operations on shapes [{n}], [{n},2], [2,{n}]"),
            |c| {
                every_op(c, &[n], 0)?;
                every_op(c, &[n, 2], 1)?;
                every_op(c, &[2, n], 2)
            },
        );
    }
    for n in [255, 256, 257, 511, 513, 1024, 1025, 2049, 4097, 16385] {
        c.case(|| format!("all operations on shape [{n}]"), |c| every_op(c, &[n], 1));
    }
    c.section("every operation at high ranks");
    for shape in high_rank(&[9, 12, 17, 33]) {
        c.case(|| format!("all operations on shape {shape:?}"), |c| every_op(c, &shape, 0));
    }
    c.section("every special value under every function");
    for x in [0.0, -0.0, 1e-9, -1e-9, 5e-324, 0.1, -0.5, 1.0, -1.0, 3.0, -3.0, 10.0, -19.0, 20.0, -20.0, 45.0, 400.0, -400.0, 800.0, -800.0, 1e300, -1e300] {
        c.case(
            || format!("functions of {x:?} at every position, upstream derivatives of all sizes"),
            |c| {
                for shape in [vec![], vec![1], vec![3], vec![2, 2], vec![1, 5]] {
                    for p in 0..size(&shape) {
                        for up in [1.0, -2.0, 0.0, 1e-12, 1e12, -0.75] {
                            for op in [Op::Neg, Op::Abs, Op::Relu, Op::Tanh] {
                                let mut v = vals(&shape, 0);
                                v.data[p] = x;
                                let mut w = vals(&shape, 1);
                                w.data[p] = up;
                                let mut t = Tape::default();
                                t.leaf(v);
                                t.leaf(w);
                                t.push(op, &[0]).unwrap();
                                t.push(Op::Dot, &[1, 2]).unwrap();
                                c.state(hash((&shape, p, x.to_bits(), up.to_bits(), op)));
                                composition(c, &t, 2, 0).map_err(|e| format!("{op:?} on {shape:?}: {e}"))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.section("deep chains and wide fans");
    let far: &[usize] = if c.thorough {
        &[255, 256, 257, 299, 300, 301, 511, 512, 513, 600, 777, 999, 1000, 1001, 1023, 1024, 1025, 1200, 1500, 2000]
    } else {
        &[96, 99, 100, 101, 127, 128, 129, 160, 199, 200, 201, 250, 255, 256, 257, 300, 400, 500, 511, 512, 513, 640, 800, 1000, 1001, 1024, 1025, 1026]
    };
    for n in (1..=if c.thorough { 200 } else { 70 }).chain(far.iter().copied()) {
        c.case(
            || format!("{n} operations one after another, and one tensor used {n} times"),
            |c| {
                for op in [Op::Neg, Op::Abs, Op::Relu, Op::Tanh, Op::Add, Op::Sub, Op::Bmm] {
                    for shape in [vec![2, 2], vec![1, 1]] {
                        let mut t = Tape::default();
                        t.leaf(vals(&shape, 0).map(|x| x * 0.25));
                        // a factor that keeps long products in range
                        let f = if op == Op::Bmm { Nd::from_fn(&shape, |i| if i[0] == i[1] { 0.75 } else { -0.25 }) } else { vals(&shape, 1) };
                        t.leaf(f);
                        let mut last = 0;
                        for _ in 0..n {
                            last = if UNARY.contains(&op) { t.push(op, &[last]) } else { t.push(op, &[last, 1]) }.unwrap();
                        }
                        t.push(Op::Sum, &[last]).unwrap();
                        c.state(hash(("chain", op, n, &shape)));
                        composition(c, &t, 2, n).map_err(|e| format!("chain of {op:?} on {shape:?}: {e}"))?;
                    }
                }
                // f(x) + f(x) + ... for fresh f(x)
                for op in [Op::Neg, Op::Abs, Op::Tanh] {
                    let mut t = Tape::default();
                    t.leaf(vals(&[3], 0));
                    let mut acc = 0;
                    for _ in 0..n {
                        let y = t.push(op, &[0]).unwrap();
                        acc = t.push(Op::Add, &[acc, y]).unwrap();
                    }
                    t.push(Op::Sum, &[acc]).unwrap();
                    c.state(hash(("fan", op, n)));
                    composition(c, &t, 1, n).map_err(|e| format!("fan of {op:?}: {e}"))?;
                }
                Ok(())
            },
        );
    }
    c.section("doubling: every level uses the one before twice");
    for n in 1..=10 {
        for op in [Op::Add, Op::Bmm] {
            c.case(
                || format!("{n} levels of {op:?}"),
                |c| {
                    let mut t = Tape::default();
                    t.leaf(Nd::new(&[2, 2], vec![0.75, -0.25, 0.5, 1.0]));
                    let mut last = 0;
                    for k in 0..n {
                        if op == Op::Bmm && k % 2 == 1 {
                            last = t.push(Op::Tanh, &[last]).unwrap();
                        }
                        last = t.push(op, &[last, last]).unwrap();
                    }
                    t.push(Op::Sum, &[last]).unwrap();
                    composition(c, &t, 1, 0)
                },
            );
        }
    }
    c.section("other element types");
    for shape in [vec![], vec![1], vec![3], vec![2, 2], vec![2, 1, 3], vec![9], vec![33]] {
        macro_rules! ty {
            ($($t:ty),*) => {$(
                c.case(
                    || format!("{} {shape:?}: every operation, weighted", stringify!($t)),
                    |_| {
                        let conv = |n: &Nd<f64>| -> Nd<$t> { Nd::new(&n.shape, n.data.iter().map(|&x| x as $t).collect()) };
                        for op in [Op::Neg, Op::Add, Op::Sub, Op::Sum, Op::Dot] {
                            let mut t = Tape::default();
                            let ints = |o: usize| -> Nd<f64> { pattern::<f64>(&shape, o).map(|x| if x == 0.0 { 2.0 } else { x }) };
                            t.leaf(ints(1));
                            t.leaf(ints(2));
                            let up = match op { Op::Sum => Nd::new(&[], vec![-3.0]), Op::Dot => Nd::new(&[1], vec![-3.0]), _ => ints(3) };
                            t.leaf(up);
                            if UNARY.contains(&op) { t.push(op, &[0]) } else { t.push(op, &[0, 1]) }.unwrap();
                            let r = t.push(Op::Dot, &[3, 2]).unwrap();
                            let (a, b, w) = (rc(&conv(t.val(0))), rc(&conv(t.val(1))), rc(&conv(t.val(2))));
                            use std::ops::Neg;
                            let y: RcTensor<$t> = attempt(|| match op {
                                Op::Neg => (&a).neg(),
                                Op::Add => &a + &b,
                                Op::Sub => &a - &b,
                                Op::Sum => a.sum(),
                                _ => F::dot(&a, &b),
                            })?;
                            let l = attempt(|| F::dot(&y, &w))?;
                            attempt(|| l.backward())?;
                            t.backward(r);
                            for (what, x, m) in [("x", &a, 0), ("y", &b, 1), ("w", &w, 2), ("f(x,y)", &y, 3)] {
                                match &t.nodes[m].grad {
                                    Some(g) => expect(&format!("{op:?}: gradient of {what}"), &attempt(|| x.grad())?, &conv(&g[0]))?,
                                    None => if grad(x)?.is_some() { return Err(format!("{op:?}: {what} has a gradient")); },
                                }
                            }
                        }
                        Ok(())
                    },
                );
            )*};
        }
        ty!(i64, f32, i32, i128);
        c.case(
            || format!("f32 {shape:?}: abs, relu, tanh, weighted"),
            |_| {
                let conv = |n: &Nd<f64>| -> Nd<f32> { Nd::new(&n.shape, n.data.iter().map(|&x| x as f32).collect()) };
                for op in [Op::Abs, Op::Relu, Op::Tanh] {
                    let mut t = Tape::default();
                    t.leaf(vals(&shape, 0));
                    t.leaf(vals(&shape, 1));
                    t.push(op, &[0]).unwrap();
                    let r = t.push(Op::Dot, &[2, 1]).unwrap();
                    let (x, w) = (rc(&conv(t.val(0))), rc(&conv(t.val(1))));
                    let y: RcTensor<f32> = attempt(|| match op {
                        Op::Abs => x.abs(),
                        Op::Relu => F::relu(x.clone()),
                        _ => F::tanh(x.clone()),
                    })?;
                    let l = attempt(|| F::dot(&y, &w))?;
                    attempt(|| l.backward())?;
                    t.backward(r);
                    for (what, z, m) in [("x", &x, 0), ("w", &w, 1), ("f(x)", &y, 2)] {
                        let got = read(&attempt(|| z.grad())?)?;
                        let want = conv(&t.nodes[m].grad.as_ref().unwrap()[0]);
                        let ok = got.shape == want.shape && got.data.iter().zip(&want.data).all(|(a, b)| (a - b).abs() <= 1e-5 * b.abs().max(1.0));
                        if !ok {
                            return Err(format!("{op:?}: gradient of {what} is {} want {}", show(&got), show(&want)));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.section("long chains: every word of unary operations around a shared leaf");
    // f1(f2(...(x)...)) + x at every level, then sum: depth 6
    let depth = if c.thorough { 6 } else { 4 };
    let steps = [Op::Neg, Op::Abs, Op::Relu, Op::Tanh, Op::Add, Op::Sub, Op::Bmm];
    for shape in [vec![2usize, 2], vec![1, 1]] {
        let mut words: Vec<Vec<Op>> = vec![vec![]];
        for _ in 0..depth {
            words = words
                .into_iter()
                .flat_map(|w| {
                    steps.iter().map(move |&o| {
                        let mut v = w.clone();
                        v.push(o);
                        v
                    })
                })
                .collect();
        }
        for w in words {
            if !c.mine() {
                c.skip();
                continue;
            }
            let mut t = Tape::default();
            t.leaf(vals(&shape, 3).map(|x| x * 0.5));
            t.leaf(vals(&shape, 0).map(|x| x * 0.25));
            let mut last = 0;
            for &o in &w {
                last = if UNARY.contains(&o) {
                    t.push(o, &[last]).unwrap()
                } else {
                    t.push(o, &[last, 1]).unwrap()
                };
            }
            let root = t.push(Op::Sum, &[last]).unwrap();
            let _ = root;
            c.case(|| format!("chain {w:?} on {shape:?}, sum"), |c| composition(c, &t, 2, 0));
        }
    }
    if c.thorough {
        c.section("two leaves, up to four operations");
        for (set, (a, b)) in [
            (vec![2], vec![2]),
            (vec![2, 2], vec![2, 2]),
            (vec![2], vec![1]),
            (vec![1], vec![]),
            (vec![1, 2], vec![2, 1]),
            (vec![2, 2], vec![2, 1]),
        ]
        .iter()
        .enumerate()
        {
            let mut t = Tape::default();
            t.leaf(vals(a, set));
            t.leaf(vals(b, set + 1));
            Search {
                max_ops: 4,
                leaves: 2,
                ops: all_ops.clone(),
                all_binary_orders: false,
            }
            .go(c, &mut t, &format!("leaves {a:?} {b:?}"));
        }
    }
}

/// Build and check one hand-made tape (all its nodes reachable from the last).
fn tape_case(c: &mut Ctx, label: &str, leaves: &[Nd<f64>], ops: &[(Op, &[usize])], form: usize) -> R {
    let mut t = Tape::default();
    for l in leaves {
        t.leaf(l.clone());
    }
    for (op, ins) in ops {
        if t.push(*op, ins).is_none() {
            return Err(format!("harness: {label}: {op:?}{ins:?} does not fit"));
        }
    }
    composition(c, &t, leaves.len(), form).map_err(|e| format!("{label}: {e}"))
}

// ---------------------------------------------------------------- C13

fn few_shapes() -> Vec<Vec<usize>> {
    vec![vec![], vec![1], vec![2], vec![3], vec![2, 1], vec![1, 2], vec![2, 2], vec![1, 1], vec![3, 1], vec![1, 3], vec![2, 1, 2], vec![2, 3], vec![2, 1, 1]]
        .into_iter()
        .collect()
}

pub fn c13(c: &mut Ctx) {
    let mut list = shapes(0..=3, &[1, 2, 3]);
    if c.thorough {
        list.extend(shapes(4..=4, &[1, 2, 3]));
    } else {
        list.extend(shapes(4..=4, &[1, 2]));
    }
    c.section("every compatible pair of shapes, arbitrary upstream derivative");
    for a in &list {
        for b in &list {
            let Some(out) = broadcast_shape(a, b) else { continue };
            c.case(
                || format!("operands {a:?} and {b:?}, upstream weights of shape {out:?}"),
                |c| {
                    let (x, y) = (vals(a, 0), vals(b, 1));
                    for (k, op) in [Op::Add, Op::Sub].into_iter().enumerate() {
                        for form in 0..3 {
                            let w: Nd<f64> = iota(&out, 1).map(|v| v * 0.5 - 3.0);
                            tape_case(c, &format!("{op:?} dot weights"), &[x.clone(), y.clone(), w.clone()],
                                &[(op, &[0, 1]), (Op::Dot, &[3, 2])], form)?;
                            if form == 0 {
                                tape_case(c, &format!("{op:?} sum"), &[x.clone(), y.clone()],
                                    &[(op, &[0, 1]), (Op::Sum, &[2])], k)?;
                                tape_case(c, &format!("-{op:?} dot weights"), &[x.clone(), y.clone(), w.clone()],
                                    &[(op, &[0, 1]), (Op::Neg, &[3]), (Op::Dot, &[2, 4])], k)?;
                                tape_case(c, &format!("{op:?} of computed operands"), &[x.clone(), y.clone(), w.clone()],
                                    &[(Op::Neg, &[0]), (Op::Tanh, &[1]), (op, &[3, 4]), (Op::Dot, &[5, 2])], k)?;
                            }
                            if size(&out) == 1 {
                                tape_case(c, &format!("{op:?} alone"), &[x.clone(), y.clone()], &[(op, &[0, 1])], form)?;
                            }
                        }
                    }
                    if out.len() == 2 {
                        let u = vals(&[1, out[0]], 2);
                        let v = vals(&[out[1], 1], 3);
                        for op in [Op::Add, Op::Sub] {
                            tape_case(c, &format!("u.({op:?}).v"), &[x.clone(), y.clone(), u.clone(), v.clone()],
                                &[(op, &[0, 1]), (Op::Bmm, &[2, 4]), (Op::Bmm, &[5, 3])], 0)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("operands and upstream derivatives of zeros and ones");
    let few = shapes(0..=3, &[1, 2]);
    for a in &few {
        for b in &few {
            let out = broadcast_shape(a, b).unwrap();
            c.case(
                || format!("operands {a:?} and {b:?} of equal elements"),
                |c| {
                    for (p, q, r) in [(0.0, 1.5, -2.0), (1.5, 0.0, -2.0), (0.0, 0.0, 3.0), (-0.0, 2.0, 1.0), (1.0, 1.0, 1.0), (1.0, 2.0, 0.0), (1.0, -1.0, 1.0), (0.0, 0.0, 0.0)] {
                        let l = [Nd::fill(a, p), Nd::fill(b, q), Nd::fill(&out, r)];
                        for (form, op) in [(0, Op::Add), (1, Op::Add), (2, Op::Add), (0, Op::Sub), (1, Op::Sub), (2, Op::Sub)] {
                            let w = format!("{p}, {q}, {r}: {op:?}");
                            tape_case(c, &w, &l, &[(op, &[0, 1]), (Op::Dot, &[3, 2])], form)?;
                            tape_case(c, &w, &l, &[(Op::Neg, &[0]), (op, &[3, 1]), (Op::Dot, &[4, 2])], form)?;
                            tape_case(c, &w, &l, &[(Op::Neg, &[1]), (op, &[0, 3]), (Op::Dot, &[4, 2])], form)?;
                        }
                        if *a != out {
                            // the same tensor twice, once stretched
                            tape_case(c, "twice", &l, &[(Op::Add, &[0, 1]), (Op::Sub, &[3, 0]), (Op::Dot, &[4, 2])], 0)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("higher ranks");
    let high = shapes(5..=5, &[1, 2]);
    for a in &high {
        for b in high.iter().chain(&shapes(0..=4, &[1, 2])) {
            let out = broadcast_shape(a, b).unwrap();
            c.case(
                || format!("operands {a:?} and {b:?}"),
                |c| {
                    let w: Nd<f64> = iota(&out, 1).map(|v| v * 0.5 - 3.0);
                    let l = [vals(a, 0), vals(b, 1), w];
                    tape_case(c, "sum", &l, &[(Op::Add, &[0, 1]), (Op::Dot, &[3, 2])], 0)?;
                    tape_case(c, "difference", &l, &[(Op::Sub, &[0, 1]), (Op::Dot, &[3, 2])], 1)?;
                    tape_case(c, "difference the other way round", &l, &[(Op::Sub, &[1, 0]), (Op::Dot, &[3, 2])], 2)
                },
            );
        }
    }
    c.section("higher ranks, stretched along one or two axes");
    for rank in 1..=if c.thorough { 7 } else { 6 } {
        for i in 0..rank {
            for j in i..rank {
                for e in [3, 4, 5] {
                    let full: Vec<usize> = (0..rank).map(|k| if k == i || k == j { e } else { 2 - (k + rank) % 2 }).collect();
                    let mut a = full.clone();
                    a[i] = 1;
                    a[j] = 1;
                    let (mut half, mut other) = (full.clone(), full.clone());
                    half[i] = 1;
                    other[j] = 1;
                    for (a, b) in [(a, full.clone()), (half, other)] {
                        c.case(
                            || format!("operands {a:?} and {b:?}"),
                            |c| {
                                let out = broadcast_shape(&a, &b).unwrap();
                                let w: Nd<f64> = vals(&out, 3);
                                let l = [vals(&a, 0), vals(&b, 1), w];
                                tape_case(c, "sum", &l, &[(Op::Add, &[0, 1]), (Op::Dot, &[3, 2])], 0)?;
                                tape_case(c, "difference", &l, &[(Op::Sub, &[0, 1]), (Op::Dot, &[3, 2])], 1)?;
                                tape_case(c, "difference the other way round", &l, &[(Op::Sub, &[1, 0]), (Op::Dot, &[3, 2])], 2)
                            },
                        );
                    }
                }
            }
        }
    }
    c.section("high ranks");
    for shape in high_rank(&[9, 12, 17, 33]).into_iter().chain([vec![2; 9], vec![2; 10]]) {
        c.case(
            || format!("operands of shape {shape:?} and its stretched and shortened shapes"),
            |c| {
                let r = shape.len();
                let long: Vec<usize> = (0..r).filter(|&a| shape[a] > 1).collect();
                let mut pairs = vec![(shape.clone(), vec![]), (shape.clone(), vec![1; r]), (shape.clone(), vec![1; r + 1])];
                for &a in long.iter().take(3) {
                    let (mut one, mut rest) = (vec![1; r], shape.clone());
                    one[a] = shape[a];
                    rest[a] = 1;
                    pairs.extend([(one, rest.clone()), (shape.clone(), rest)]);
                }
                for cut in [1, 2, r - 8, r / 2, r - 1] {
                    pairs.extend([(shape.clone(), shape[cut..].to_vec()), (shape[cut..].to_vec(), shape.clone())]);
                }
                for (a, b) in pairs {
                    let out = broadcast_shape(&a, &b).unwrap();
                    let l = [vals(&a, 0), vals(&b, 1), vals(&out, 3)];
                    c.state(hash((&a, &b)));
                    for op in [Op::Add, Op::Sub] {
                        tape_case(c, &format!("{op:?} of {a:?} and {b:?}"), &l, &[(op, &[0, 1]), (Op::Dot, &[3, 2])], 0)?;
                    }
                }
                Ok(())
            },
        );
    }
    c.section("large tensors");
    for n in [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097, 8195, 10_007, 16_385] {
        c.case(
            || format!("extent {n}"),
            |c| {
                for (a, b) in [
                    (vec![n], vec![n]),
                    (vec![n], vec![1]),
                    (vec![], vec![n]),
                    (vec![n, 1], vec![2]),
                    (vec![2, n], vec![n]),
                    (vec![n, 2], vec![n, 1]),
                    (vec![2, n], vec![2, 1]),
                    (vec![n, 2], vec![2]),
                    (vec![2, n, 2], vec![n, 1]),
                ] {
                    let out = broadcast_shape(&a, &b).unwrap();
                    let w: Nd<f64> = vals(&out, 3);
                    for op in [Op::Add, Op::Sub] {
                        tape_case(c, &format!("{op:?} of {a:?} and {b:?}"), &[vals(&a, 0), vals(&b, 1), w.clone()],
                            &[(op, &[0, 1]), (Op::Dot, &[3, 2])], 0)?;
                    }
                }
                Ok(())
            },
        );
    }
    c.section("upstream derivatives of all sizes");
    for a in &few_shapes() {
        for b in &few_shapes() {
            let Some(out) = broadcast_shape(a, b) else { continue };
            c.case(
                || format!("operands {a:?} and {b:?}, upstream scaled by powers of two"),
                |c| {
                    for op in [Op::Add, Op::Sub] {
                        let mut t = Tape::default();
                        for l in [vals(a, 0), vals(b, 1), vals(&out, 2)] {
                            t.leaf(l);
                        }
                        t.push(op, &[0, 1]).unwrap();
                        t.push(Op::Dot, &[3, 2]).unwrap();
                        c.state(hash(("scaled", a, b, op)));
                        scaled(&t, 3, 2, 0).map_err(|e| format!("{op:?}: {e}"))?;
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("one-hot upstream at every position");
    for a in &few_shapes() {
        for b in &few_shapes() {
            let Some(out) = broadcast_shape(a, b) else { continue };
            c.case(
                || format!("operands {a:?} and {b:?}"),
                |c| {
                    for p in 0..size(&out) {
                        let mut w = Nd::fill(&out, 0.0);
                        w.data[p] = -2.0;
                        tape_case(c, "difference", &[vals(a, 0), vals(b, 1), w], &[(Op::Sub, &[0, 1]), (Op::Dot, &[3, 2])], p)?;
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("three operands");
    let few = few_shapes();
    for a in &few {
        for b in &few {
            for d in &few {
                let Some(o1) = broadcast_shape(a, b) else { continue };
                let Some(o2) = broadcast_shape(&o1, d) else { continue };
                c.case(
                    || format!("({a:?} - {b:?}) + {d:?}, and the first operand once more"),
                    |c| {
                        let w: Nd<f64> = iota(&o2, 2).map(|v| v * 0.25 - 1.0);
                        let l = [vals(a, 0), vals(b, 1), vals(d, 2), w];
                        tape_case(c, "(a-b)+c", &l, &[(Op::Sub, &[0, 1]), (Op::Add, &[4, 2]), (Op::Dot, &[5, 3])], 0)?;
                        tape_case(c, "c-(a+b)", &l, &[(Op::Add, &[0, 1]), (Op::Sub, &[2, 4]), (Op::Dot, &[5, 3])], 1)?;
                        tape_case(c, "((a+b)-c)-a", &l, &[(Op::Add, &[0, 1]), (Op::Sub, &[4, 2]), (Op::Sub, &[5, 0]), (Op::Dot, &[6, 3])], 2)
                    },
                );
            }
        }
    }
    c.section("long axes");
    let max = if c.thorough { 400 } else { 140 };
    for n in 1..=max {
        c.case(
            || format!("axis {n}"),
            |c| {
                for (a, b) in [
                    (vec![n], vec![1]),
                    (vec![n], vec![]),
                    (vec![n, 1], vec![2]),
                    (vec![n], vec![n]),
                    (vec![2, n], vec![n]),
                    (vec![n, 2], vec![n, 1]),
                ] {
                    let out = broadcast_shape(&a, &b).unwrap();
                    let w: Nd<f64> = iota(&out, 1).map(|v| v * 0.5);
                    tape_case(c, &format!("{a:?}-{b:?}"), &[vals(&a, 0), vals(&b, 1), w],
                        &[(Op::Sub, &[0, 1]), (Op::Dot, &[3, 2])], 0)?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C14

fn bmm_grad(c: &mut Ctx, sa: &[usize], sb: &[usize]) -> R {
    let (a, b) = (vals(sa, 0), vals(sb, 1));
    let out = a.bmm(&b).unwrap();
    let w: Nd<f64> = Nd::new(&out.shape, (0..out.data.len()).map(|i| ((i * 7 + 3) % 19) as f64 * 0.5 - 4.0).collect());
    tape_case(c, "weighted", &[a, b, w], &[(Op::Bmm, &[0, 1]), (Op::Dot, &[3, 2])], 0)
}

pub fn c14(c: &mut Ctx) {
    let m = if c.thorough { 12 } else { 8 };
    c.section("all extents, arbitrary upstream derivative");
    for i in 1..=m {
        for k in 1..=m {
            for j in 1..=m {
                c.case(
                    || format!("[{i},{k}] x [{k},{j}] dot weights"),
                    |c| {
                        bmm_grad(c, &[i, k], &[k, j])?;
                        if i <= 4 && j <= 4 && k <= 4 {
                            let l = [vals(&[i, k], 0), vals(&[k, j], 1), vals(&[1, i], 2), vals(&[j, 1], 3)];
                            tape_case(c, "u.(A.B).v", &l, &[(Op::Bmm, &[0, 1]), (Op::Bmm, &[2, 4]), (Op::Bmm, &[5, 3])], 1)?;
                            tape_case(c, "(u.A).(B.v)", &l, &[(Op::Bmm, &[2, 0]), (Op::Bmm, &[1, 3]), (Op::Bmm, &[4, 5])], 0)?;
                            tape_case(c, "sum(A.B)", &l[..2], &[(Op::Bmm, &[0, 1]), (Op::Sum, &[2])], 0)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    c.section("batches");
    for b in 1..=5 {
        for i in 1..=4 {
            for k in 1..=4 {
                for j in 1..=4 {
                    c.case(
                        || format!("[{b},{i},{k}] x [{k},{j}] dot weights"),
                        |c| {
                            bmm_grad(c, &[b, i, k], &[k, j])?;
                            if b <= 2 && j <= 2 {
                                let l = [vals(&[b, i, k], 1), vals(&[k, j], 2), vals(&[j, 2], 3), vals(&[j], 0)];
                                tape_case(c, "sum(relu(A.B+bias).C)", &l,
                                    &[(Op::Bmm, &[0, 1]), (Op::Add, &[4, 3]), (Op::Relu, &[5]), (Op::Bmm, &[6, 2]), (Op::Sum, &[7])], 0)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    c.section("one tensor in both roles, and shared factors");
    for n in 1..=6 {
        c.case(
            || format!("A.A, (A.A).A, (A.B).(A.B) for {n}x{n}"),
            |c| {
                let l = [vals(&[n, n], 0).map(|x| x * 0.5), vals(&[n, n], 1), vals(&[n, n], 2)];
                tape_case(c, "A.A", &l, &[(Op::Bmm, &[0, 0]), (Op::Dot, &[3, 2])], 0)?;
                tape_case(c, "(A.A).A", &l, &[(Op::Bmm, &[0, 0]), (Op::Bmm, &[3, 0]), (Op::Dot, &[4, 2])], 0)?;
                tape_case(c, "(A.B).(A.B)", &l, &[(Op::Bmm, &[0, 1]), (Op::Bmm, &[3, 3]), (Op::Dot, &[4, 2])], 1)?;
                tape_case(c, "A.B+B.A", &l, &[(Op::Bmm, &[0, 1]), (Op::Bmm, &[1, 0]), (Op::Add, &[3, 4]), (Op::Dot, &[2, 5])], 1)
            },
        );
    }
    c.section("one-hot upstream at every position");
    for (sa, sb) in [(vec![3, 3], vec![3, 3]), (vec![2, 3, 2], vec![2, 3]), (vec![6, 7], vec![7, 6])] {
        let n = vals(&sa, 0).bmm(&vals(&sb, 1)).unwrap();
        for p in 0..n.data.len() {
            c.case(
                || format!("{sa:?} x {sb:?}, upstream one-hot at {p}"),
                |c| {
                    let mut w = Nd::fill(&n.shape, 0.0);
                    w.data[p] = 2.0;
                    tape_case(c, "one-hot", &[vals(&sa, 0), vals(&sb, 1), w], &[(Op::Bmm, &[0, 1]), (Op::Dot, &[3, 2])], 0)
                },
            );
        }
    }
    for n in [7, 8, 9, 16, 33] {
        c.case(
            || format!("batch of {n}"),
            |c| {
                bmm_grad(c, &[n, 2, 3], &[3, 2])?;
                bmm_grad(c, &[n, 1, 1], &[1, 1])?;
                bmm_grad(c, &[n, 5, 6], &[6, 7])
            },
        );
    }
    c.section("large extents");
    for n in [255, 256, 257, 511, 513, 1025] {
        c.case(
            || format!("extent {n} in each role"),
            |c| {
                bmm_grad(c, &[n, 2], &[2, 2])?;
                bmm_grad(c, &[2, n], &[n, 2])?;
                bmm_grad(c, &[2, 2], &[2, n])?;
                bmm_grad(c, &[n, 2, 1], &[1, 2])
            },
        );
    }
    c.section("large combinations");
    for (i, k, j) in [
        (65, 3, 2), (66, 5, 3), (67, 3, 5), (129, 3, 2), (130, 4, 3), (257, 3, 3), (513, 3, 2), (1025, 3, 1),
        (2, 101, 3), (3, 102, 2), (5, 129, 3), (3, 257, 2), (2, 513, 3), (2, 1025, 2),
        (2, 3, 161), (3, 2, 163), (3, 5, 257), (2, 3, 513), (2, 2, 1025), (7, 3, 97), (5, 3, 129),
        (33, 33, 33), (34, 17, 35), (65, 33, 3), (3, 65, 33), (33, 3, 65), (67, 9, 67), (9, 67, 67), (67, 67, 9), (41, 43, 47),
    ] {
        c.case(|| format!("[{i},{k}] x [{k},{j}]"), |c| bmm_grad(c, &[i, k], &[k, j]));
    }
    for (b, i, k, j) in [
        (10, 2, 2, 2), (12, 3, 2, 3), (15, 2, 3, 1), (17, 2, 3, 2), (31, 3, 2, 2), (32, 2, 2, 3), (33, 2, 2, 2), (34, 3, 3, 2), (63, 2, 2, 1), (64, 2, 3, 2), (65, 2, 2, 2), (67, 3, 2, 3), (100, 2, 2, 2), (129, 2, 3, 2), (257, 2, 2, 2), (300, 1, 3, 2), (513, 1, 2, 3),
        (2, 65, 3, 2), (3, 67, 2, 3), (2, 129, 2, 2), (5, 33, 3, 3), (2, 3, 101, 2), (3, 2, 129, 3), (2, 2, 257, 2), (2, 3, 2, 161), (3, 2, 3, 129), (2, 2, 2, 257), (5, 17, 9, 11), (9, 33, 3, 5), (3, 17, 33, 17),
    ] {
        c.case(|| format!("[{b},{i},{k}] x [{k},{j}]"), |c| bmm_grad(c, &[b, i, k], &[k, j]));
    }
    c.section("upstream derivatives of all sizes");
    for i in 1..=4 {
        for k in 1..=4 {
            for j in 1..=4 {
                c.case(
                    || format!("[{i},{k}] x [{k},{j}] and batches, upstream scaled by powers of two"),
                    |c| {
                        for sa in [vec![i, k], vec![2, i, k]] {
                            let mut t = Tape::default();
                            t.leaf(vals(&sa, 0));
                            t.leaf(vals(&[k, j], 1));
                            let out = t.val(0).bmm(t.val(1)).unwrap().shape;
                            t.leaf(vals(&out, 2));
                            t.push(Op::Bmm, &[0, 1]).unwrap();
                            t.push(Op::Dot, &[3, 2]).unwrap();
                            c.state(hash(("scaled", &sa, j)));
                            scaled(&t, 3, 2, 0)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    c.section("lengths along each extent");
    let max = if c.thorough { 300 } else { 132 };
    let far: &[usize] = if c.thorough {
        &[511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 8300, 16384, 16385, 32767, 32768, 32769, 40_000, 65535, 65536, 65537]
    } else {
        &[255, 256, 257, 511, 512, 513, 1024, 1025, 2048, 2049, 4096, 4097, 8192, 8193, 8300, 16385]
    };
    for n in (1..=max).chain(far.iter().copied()) {
        c.case(
            || format!("extent {n} in each role"),
            |c| {
                bmm_grad(c, &[n, 1], &[1, 1])?;
                bmm_grad(c, &[1, n], &[n, 1])?;
                bmm_grad(c, &[1, 1], &[1, n])?;
                bmm_grad(c, &[n, 2], &[2, 1])?;
                bmm_grad(c, &[2, n], &[n, 1])?;
                bmm_grad(c, &[1, 2], &[2, n])?;
                bmm_grad(c, &[n, 1, 1], &[1, 2])?;
                bmm_grad(c, &[2, n, 1], &[1, 1])
            },
        );
    }
    c.section("sizes around the split width");
    let sizes: &[usize] = if c.thorough {
        &[1, 4, 8, 9, 31, 32, 33, 63, 64, 65]
    } else {
        &[1, 4, 9, 31, 32, 33]
    };
    for &i in sizes {
        for &k in sizes {
            for &j in sizes {
                if i * k * j > 40_000 && !c.thorough {
                    continue;
                }
                c.case(|| format!("[{i},{k}] x [{k},{j}]"), |c| bmm_grad(c, &[i, k], &[k, j]));
            }
        }
    }
    c.section("other element types");
    for (i, k, j) in [(1, 1, 1), (2, 2, 2), (2, 3, 1), (1, 4, 2), (3, 2, 3), (5, 7, 6), (6, 6, 6)] {
        macro_rules! ty {
            ($($t:ty),*) => {$(
                c.case(
                    || format!("{} [{i},{k}] x [{k},{j}]", stringify!($t)),
                    |_| {
                        let conv = |n: &Nd<f64>| -> Nd<$t> { Nd::new(&n.shape, n.data.iter().map(|&x| x as $t).collect()) };
                        let ints = |s: &[usize], o: usize| -> Nd<f64> { pattern(s, o).map(|x: f64| x.abs()) };
                        let mut t = Tape::default();
                        for l in [ints(&[i, k], 1), ints(&[k, j], 2), ints(&[i, j], 3)] { t.leaf(l); }
                        t.push(Op::Bmm, &[0, 1]).unwrap();
                        let r = t.push(Op::Dot, &[3, 2]).unwrap();
                        let (a, b, w) = (rc(&conv(t.val(0))), rc(&conv(t.val(1))), rc(&conv(t.val(2))));
                        let p = attempt(|| a.bmm(&b))?;
                        let l = attempt(|| F::dot(&p, &w))?;
                        attempt(|| l.backward())?;
                        t.backward(r);
                        for (what, x, m) in [("A", &a, 0), ("B", &b, 1), ("W", &w, 2), ("A.B", &p, 3)] {
                            expect(what, &attempt(|| x.grad())?, &conv(&t.nodes[m].grad.as_ref().unwrap()[0]))?;
                        }
                        Ok(())
                    },
                );
            )*};
        }
        ty!(i64, f32, i32, i128, u64, usize, u128, u32);
    }
}

// ---------------------------------------------------------------- shared: all words

/// Every word over `0..k` of length 1..=n, shortest first.
fn words(k: usize, n: usize, mut f: impl FnMut(&[usize])) {
    for len in 1..=n {
        let mut w = vec![0usize; len];
        loop {
            f(&w);
            let mut i = len;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                w[i] += 1;
                if w[i] < k {
                    break;
                }
                w[i] = 0;
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if i == usize::MAX {
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- C15

/// Real tensors next to the model's tape: real[i] is node i.
struct World {
    t: Tape,
    real: Vec<Rc>,
}

impl World {
    fn new() -> World {
        World {
            t: Tape::default(),
            real: vec![],
        }
    }
    fn leaf(&mut self, shape: &[usize], set: usize) -> usize {
        let v = vals(shape, set);
        self.real.push(rc(&v));
        self.t.leaf(v)
    }
    fn adopt(&mut self, r: Rc, v: Nd<f64>) -> usize {
        self.real.push(r);
        self.t.leaf(v)
    }
    fn op(&mut self, op: Op, ins: &[usize], form: usize) -> Result<usize, String> {
        let i = self
            .t
            .push(op, ins)
            .ok_or_else(|| format!("harness: {op:?}{ins:?} does not fit"))?;
        let a = &self.real[ins[0]];
        let b = ins.get(1).map(|&j| &self.real[j]);
        let r = attempt(|| real_op(op, a, b, form)).map_err(|e| format!("{op:?}{ins:?} was refused: {e}"))?;
        self.real.push(r);
        Ok(i)
    }
    fn back(&mut self, i: usize) -> R {
        attempt(|| self.real[i].backward()).map_err(|e| format!("backward on t{i} failed: {e}"))?;
        self.t.backward(i);
        Ok(())
    }
    fn check(&self) -> R {
        for i in 0..self.real.len() {
            near(&format!("value of t{i}"), &read(&self.real[i])?, self.t.val(i))?;
            grad_matches(&format!("t{i}"), &self.real[i], &self.t.nodes[i].grad)?;
        }
        Ok(())
    }
}

const C15_ACTS: [&str; 19] = [
    "backward sum(x+y)",
    "backward dot(x+y,y)",
    "backward (p+x).q",
    "zero x",
    "zero y",
    "zero x+y",
    "zero q",
    "update x",
    "update x+y",
    "update a clone of y",
    "zero a clone of x",
    "backward a clone of dot(x+y,y)",
    "backward a new sum(x-y)",
    "drop results, rebuild them",
    "backward new sum(relu(x)) twice",
    "update x with x's own gradient",
    "update q through a freshly computed gradient",
    "update x with x itself",
    "update y with the result x+y",
];

fn c15_run(c: &mut Ctx, w: &[usize]) -> R {
    let mut o = World::new();
    let x = o.leaf(&[2], 0);
    let y = o.leaf(&[2], 1);
    let p = o.leaf(&[1, 2], 2);
    let q = o.leaf(&[2, 1], 3);
    let build = |o: &mut World| -> Result<[usize; 4], String> {
        let mid = o.op(Op::Add, &[x, y], 0)?;
        let r1 = o.op(Op::Sum, &[mid], 0)?;
        let r2 = o.op(Op::Dot, &[mid, y], 0)?;
        let px = o.op(Op::Add, &[p, x], 1)?;
        let r3 = o.op(Op::Bmm, &[px, q], 0)?;
        Ok([mid, r1, r2, r3])
    };
    let [mut mid, mut r1, mut r2, mut r3] = build(&mut o)?;
    let g = Nd::new(&[2], vec![0.5, -8.0]);
    for &a in w {
        match a {
            0 => o.back(r1)?,
            1 => o.back(r2)?,
            2 => o.back(r3)?,
            3..=6 => {
                let i = [x, y, mid, q][a - 3];
                attempt(|| o.real[i].zero_grad())?;
                o.t.zero(i);
            }
            7 | 8 => {
                let i = [x, mid][a - 7];
                attempt(|| o.real[i].update_grad(rc(&g)))?;
                o.t.update_plain(i, &g);
            }
            9 => {
                attempt(|| o.real[y].clone().update_grad(rc(&g)))?;
                o.t.update_plain(y, &g);
            }
            10 => {
                attempt(|| o.real[x].to_tensor().zero_grad())?;
                o.t.zero(x);
            }
            11 => {
                attempt(|| o.real[r2].clone().backward())?;
                o.t.backward(r2);
            }
            12 => {
                let d = o.op(Op::Sub, &[x, y], 2)?;
                let s = o.op(Op::Sum, &[d], 0)?;
                o.back(s)?;
            }
            13 => {
                // results go out of scope; what they contributed stays
                let keep = 4;
                o.real.truncate(keep);
                o.t.nodes.truncate(keep);
                [mid, r1, r2, r3] = build(&mut o)?;
            }
            14 => {
                let d = o.op(Op::Relu, &[x], 0)?;
                let s = o.op(Op::Sum, &[d], 0)?;
                o.back(s)?;
                o.back(s)?;
            }
            15 => {
                if let Some(gm) = o.t.nodes[x].grad.clone() {
                    attempt(|| o.real[x].update_grad(o.real[x].grad()))?;
                    o.t.update(x, gm);
                }
            }
            17 | 18 => {
                // a tensor that is part of the graph serves as the gradient
                let (to, g) = [(x, x), (y, mid)][a - 17];
                let v = o.t.val(g).clone();
                attempt(|| o.real[to].update_grad(o.real[g].clone()))?;
                o.t.update_plain(to, &v);
            }
            _ => {
                let v = Nd::new(&[2, 1], vec![1.0, 3.0]);
                let gr = attempt(|| &rc(&v) + &rc(&v))?;
                attempt(|| o.real[q].update_grad(gr))?;
                o.t.update_plain(q, &v.map(|k| 2.0 * k));
            }
        }
        c.state(o.t.digest());
    }
    o.check()
}

const C15_TYPED: [&str; 5] = ["backward", "an update with ones", "another update", "an update with the gradient itself", "a reset"];

/// Histories over one tensor of any element type; every number stays small enough to be exact.
fn c15_typed<T: crate::model::num_like::El>(c: &mut Ctx, shape: &[usize], first: usize) -> R {
    let n = size(shape);
    let x: Nd<T> = Nd::new(shape, (0..n).map(|i| T::of(i as i64 % 3)).collect());
    let mut result = Ok(());
    words(5, 4, |w| {
        if w[0] != first || result.is_err() {
            return;
        }
        let (a, b) = (rc(&x), rc(&x));
        let mut run = || -> R {
            let y = attempt(|| (&a + &b).sum())?;
            let mut want: Option<Vec<i64>> = None;
            for (k, &act) in w.iter().enumerate() {
                let more: Vec<i64> = match act {
                    0 | 1 => vec![1; n],
                    2 => (0..n).map(|i| (i as i64 + 1) % 3).collect(),
                    3 => want.clone().unwrap_or(vec![2; n]),
                    _ => vec![],
                };
                let of = |v: &[i64]| -> Nd<T> { Nd::new(shape, v.iter().map(|&v| T::of(v)).collect()) };
                match act {
                    0 => attempt(|| y.backward())?,
                    3 if want.is_some() => attempt(|| a.update_grad(a.grad()))?,
                    4 => attempt(|| a.zero_grad())?,
                    _ => attempt(|| a.update_grad(rc(&of(&more))))?,
                }
                want = match (act, want) {
                    (4, _) => None,
                    (_, None) => Some(more),
                    (_, Some(v)) => Some(v.iter().zip(&more).map(|(a, b)| a + b).collect()),
                };
                match &want {
                    Some(v) => expect("gradient", &attempt(|| a.grad())?, &of(v)).map_err(|e| format!("after step {k}: {e}"))?,
                    None if attempt(|| a.grad()).is_ok() => return Err(format!("after step {k}: has a gradient")),
                    None => {}
                }
            }
            c.state(hash((T::NAME, shape, &want)));
            Ok(())
        };
        result = run().map_err(|e| format!("{}: {e}", w.iter().map(|&a| C15_TYPED[a]).collect::<Vec<_>>().join("; ")));
    });
    result
}

pub fn c15(c: &mut Ctx) {
    let depth = if c.thorough { 5 } else { 4 };
    c.section("all histories of backward, reset and update");
    words(C15_ACTS.len(), depth, |w| {
        c.case(
            || w.iter().map(|&a| C15_ACTS[a]).collect::<Vec<_>>().join("; "),
            |c| c15_run(c, w),
        )
    });
    c.section("other element types");
    macro_rules! ty {
        ($($t:ty),*) => {$(
            for shape in [vec![], vec![1], vec![2, 2], vec![2, 1, 3]] {
                for first in 0..5 {
                    c.case(
                        || format!("{} shape {shape:?}, histories that begin with {}", stringify!($t), C15_TYPED[first]),
                        |c| c15_typed::<$t>(c, &shape, first),
                    );
                }
            }
        )*};
    }
    ty!(f32, i64, i32, i128, u8, u32, u64, u128, usize);
    c.section("repeated passes");
    for n in 1..=40 {
        for kind in 0..3 {
            c.case(
                || format!("{n} times {}", C15_ACTS[kind]),
                |c| c15_run(c, &vec![kind; n]),
            );
        }
    }
    c.section("very long histories");
    let long: usize = if c.thorough { 300_000 } else { 70_000 };
    for shape in [vec![], vec![1], vec![2], vec![2, 2]] {
        c.case(
            || format!("{long} updates of a tensor of shape {shape:?}, with passes in between"),
            |c| {
                let mut o = World::new();
                let x = o.leaf(&shape, 0);
                let s = o.op(Op::Sum, &[x], 0)?;
                for k in 0..long {
                    let g = vals(&shape, k % 5);
                    attempt(|| o.real[x].update_grad(rc(&g)))?;
                    o.t.update_plain(x, &g);
                    if k % 64 == 5 {
                        o.back(s)?;
                    }
                    if k < 2000 || k % 257 == 0 || (k + 2) & (k + 1) == 0 || (k + 1) & k == 0 || k & (k.max(1) - 1) == 0 {
                        o.check()?;
                    }
                }
                c.state(o.t.digest());
                o.check()
            },
        );
        c.case(
            || format!("{} resets of a tensor of shape {shape:?}", long / 8),
            |c| {
                let mut o = World::new();
                let x = o.leaf(&shape, 0);
                let s = o.op(Op::Sum, &[x], 0)?;
                for k in 0..long / 8 {
                    let g = vals(&shape, k % 5);
                    attempt(|| o.real[x].zero_grad())?;
                    o.t.nodes[x].grad = None;
                    attempt(|| o.real[x].update_grad(rc(&g)))?;
                    o.t.update_plain(x, &g);
                    if k % 3 == 0 {
                        o.back(s)?;
                    }
                    o.check()?;
                }
                c.state(o.t.digest());
                Ok(())
            },
        );
    }
    c.section("very many passes");
    let passes = if c.thorough { 70_000 } else { 3_000 };
    for (what, many) in [("one graph", false), ("a fresh graph each time", true)] {
        c.case(
            || format!("{passes} passes over {what}"),
            |c| {
                let (a, b) = (vals(&[2], 0), vals(&[2], 1));
                let (ra, rb) = (rc(&a), rc(&b));
                let mut graph = None;
                let (mut ga, mut gb) = (Nd::fill(&[2], 0.0), Nd::fill(&[2], 0.0));
                for k in 0..passes {
                    if many || graph.is_none() {
                        graph = Some(attempt(|| F::dot(&(&ra + &rb), &rb))?);
                    }
                    attempt(|| graph.as_ref().unwrap().backward())?;
                    ga = ga.add(&b).unwrap();
                    gb = gb.add(&a.zip(&b, |x, y| x + 2.0 * y).unwrap()).unwrap();
                    near(&format!("gradient after pass {}", k + 1), &grad(&ra)?.ok_or("no gradient")?, &ga)?;
                    near(&format!("gradient after pass {}", k + 1), &grad(&rb)?.ok_or("no gradient")?, &gb)?;
                }
                c.state(hash((what, passes)));
                Ok(())
            },
        );
    }
    c.section("accumulation for every shape");
    for shape in shapes(0..=4, &[1, 2, 3])
        .into_iter()
        .chain(high_rank(&[9, 17, 33]))
        .chain([17, 31, 33, 64, 65, 127, 129, 255, 257, 300, 511, 513, 999, 1001, 1023, 1025, 2049, 4097, 10_007, 65_537].into_iter().flat_map(|n| [vec![n], vec![n, 2], vec![3, n]]))
    {
        c.case(
            || format!("three updates and two passes on {shape:?}"),
            |c| {
                let mut o = World::new();
                let x = o.leaf(&shape, 0);
                let s = o.op(Op::Sum, &[x], 0)?;
                for k in 0..3 {
                    let g = vals(&shape, k);
                    attempt(|| o.real[x].update_grad(rc(&g)))?;
                    o.t.update_plain(x, &g);
                    o.check()?;
                }
                o.back(s)?;
                o.check()?;
                o.back(s)?;
                o.check()?;
                // the same gradient several times, and gradients that differ at one end only
                attempt(|| o.real[x].zero_grad())?;
                o.t.zero(x);
                let n = size(&shape);
                for k in 0..5 {
                    let mut g = vals(&shape, 1);
                    if k > 1 {
                        g.data[if k % 2 == 0 { n - 1 } else { 0 }] += 1.0;
                    }
                    attempt(|| o.real[x].update_grad(rc(&g)))?;
                    o.t.update_plain(x, &g);
                    o.check()?;
                }
                c.state(o.t.digest());
                o.check()
            },
        );
    }
    c.section("plain tensors accumulate too");
    words(4, depth, |w| {
        c.case(
            || format!("plain tensor history {w:?}"),
            |c| {
                let t = raw(&vals(&[2], 0));
                let mut m: Option<Nd<f64>> = None;
                for &a in w {
                    match a {
                        0 | 1 => {
                            let g = vals(&[2], a + 1);
                            attempt(|| t.update_grad(rc(&g)))?;
                            m = Some(m.map_or(g.clone(), |o| o.add(&g).unwrap()));
                        }
                        2 => {
                            attempt(|| t.zero_grad())?;
                            m = None;
                        }
                        _ => {
                            // a copy has its own gradient from here on
                            let cpy = attempt(|| t.clone())?;
                            cpy.update_grad(rc(&vals(&[2], 3)));
                            cpy.zero_grad();
                        }
                    }
                    c.state(hash(m.as_ref().map(|g| g.digest())));
                }
                let seen = attempt(|| t.to_tensor())?;
                grad_matches("plain tensor", &seen, &m.map(|g| std::array::from_fn(|_| g.clone())))
            },
        )
    });
}

// ---------------------------------------------------------------- C16

#[derive(Clone, PartialEq, Debug)]
struct Snap {
    val: Nd<f64>,
    grad: Option<Nd<f64>>,
}

fn snap(t: &Rc) -> Result<Snap, String> {
    Ok(Snap {
        val: read(t)?,
        grad: grad(t)?,
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Un(Op, usize),
    Bin(Op, usize, usize),
    Mul(usize, usize),
    Deep(usize),
    GradOf(usize),
    Reads(usize),
    Views(usize),
    Raw(usize),
    Net(usize),
    Back(usize),
    Update(usize),
    /// the second tensor is the gradient added to the first one
    UpdateWith(usize, usize),
    Zero(usize),
}

const Z: usize = 6; // register for the latest result
const NAMES: [&str; 7] = ["x", "y", "m", "x+y", "sum(x+y)", "copy", "z"];

struct Pool {
    o: World,
    at: [usize; 7],
    /// tensors no longer in a register are still watched
    views: Vec<(TensorView<f64>, Nd<f64>)>,
    /// whose gradient has been taken as a tensor: taken twice, it may be one tensor or two
    taken: Vec<usize>,
}

impl Pool {
    /// vectors of `n` elements, an n-by-n matrix
    fn new(n: usize) -> Result<Pool, String> {
        let mut o = World::new();
        let x = o.leaf(&[n], 0);
        let y = o.leaf(&[n], 1);
        let m = o.leaf(&[n, n], 2);
        let g = vals(&[n], 3);
        o.real[x].update_grad(rc(&g));
        o.t.update_plain(x, &g);
        let g2 = vals(&[n, n], 3);
        o.real[m].update_grad(rc(&g2));
        o.t.update_plain(m, &g2);
        let mid = o.op(Op::Add, &[x, y], 0)?;
        let r = o.op(Op::Sum, &[mid], 0)?;
        let d = o.real[x].deep_clone();
        let dv = o.t.val(x).clone();
        let copy = o.adopt(d, dv);
        let z = o.op(Op::Neg, &[x], 0)?;
        let v = view_of(&o.real[m], &[(0, n), (n / 2, n)]);
        let vn = o.t.val(m).window(&[(0, n), (n / 2, n)]).unwrap();
        Ok(Pool {
            o,
            at: [x, y, m, mid, r, copy, z],
            views: vec![(v, vn)],
            taken: vec![],
        })
    }

    fn valid(&self, a: Act) -> bool {
        let v = |i: usize| self.o.t.val(self.at[i]);
        match a {
            Act::Un(..) | Act::Deep(_) | Act::Reads(_) | Act::Raw(_) | Act::Update(_) | Act::Zero(_) => true,
            Act::Bin(op, i, j) => apply(op, v(i), Some(v(j))).is_some(),
            Act::Mul(i, j) => v(i).mul(v(j)).is_some(),
            Act::GradOf(i) => self.o.t.nodes[self.at[i]].grad.is_some() && !self.taken.contains(&self.at[i]),
            Act::UpdateWith(i, j) => v(i).shape == v(j).shape,
            Act::Views(i) => !v(i).shape.is_empty(),
            Act::Net(i) => v(i).shape == v(2).shape,
            Act::Back(i) => v(i).data.len() == 1 && self.o.t.nodes[self.at[i]].op != Op::Leaf,
        }
    }

    fn run(&mut self, a: Act) -> R {
        let at = self.at;
        let t = |i: usize| at[i];
        match a {
            Act::Un(op, i) => self.at[Z] = self.o.op(op, &[t(i)], 0)?,
            Act::Bin(op, i, j) => self.at[Z] = self.o.op(op, &[t(i), t(j)], i + j)?,
            Act::Mul(i, j) => {
                let r = attempt(|| &self.o.real[t(i)] * &self.o.real[t(j)])?;
                let v = self.o.t.val(t(i)).mul(self.o.t.val(t(j))).unwrap();
                self.at[Z] = self.o.adopt(r, v);
            }
            Act::Deep(i) => {
                let r = attempt(|| self.o.real[t(i)].deep_clone())?;
                let v = self.o.t.val(t(i)).clone();
                self.at[Z] = self.o.adopt(r, v);
            }
            Act::GradOf(i) => {
                let r = attempt(|| self.o.real[t(i)].grad())?;
                let v = self.o.t.nodes[t(i)].grad.clone().unwrap()[0].clone();
                self.taken.push(t(i));
                self.at[Z] = self.o.adopt(r, v);
            }
            Act::Reads(i) => {
                let r = self.o.real[t(i)].clone();
                attempt(|| {
                    let _ = format!("{r} {r:?}");
                    for idx in r.iter_indices() {
                        let _ = r.get(&idx);
                    }
                    let _ = r.get(&vec![9; 9]);
                    let _ = (r == r.to_tensor(), r.count(), r.is_scalar(), r.shape().len());
                    let _ = r.broadcastable(&vec![2]);
                    let _ = r.same_shape(&r);
                    let _ = r.get_first_elem();
                    let raw: &RawTensor<f64> = &r;
                    let _ = (raw.sum(), raw.clone());
                })?;
            }
            Act::Views(i) => {
                let r = self.o.real[t(i)].clone();
                let n = self.o.t.val(t(i)).clone();
                let w: Vec<(usize, usize)> = n.shape.iter().map(|&d| (0, d.min(2))).collect();
                let win = n.window(&w).unwrap();
                let v = attempt(|| view_of(&r, &w))?;
                let mut results = attempt(|| {
                    let flat = v.reshape(vec![win.data.len()]);
                    let part = v.slice(win.shape.iter().map(|&d| SliceRange::new(0, d)).collect());
                    let raw: &RawTensor<f64> = &r;
                    let mut res = vec![
                        ("sum", v.sum()),
                        ("deep copy", v.deep_clone()),
                        ("copy of the reshaped slice", flat.to_tensor()),
                        ("copy of the slice of the slice", part.to_tensor()),
                        ("sum of the slice of the slice", part.sum()),
                        ("scaled", v.left_scalar_multiplication(&2.0).to_tensor()),
                        ("scaled by one", v.right_scalar_multiplication(&1.0).to_tensor()),
                        ("dot", F::dot_no_derivative(&v, &v)),
                        ("product", F::element_wise_multiplication(&v, &v).to_tensor()),
                        ("scaled by a tensor", &RcTensor::scalar(3.0) * &v),
                        ("plain sum", if win.shape == n.shape { raw + &v } else { &RawTensor::scalar(0.0) + &v }.to_tensor()),
                        ("mapped", F::generic_unary_op(&v, |t| t).to_tensor()),
                        ("copy", v.to_tensor()),
                    ];
                    if n.shape == [2, 2] {
                        res.extend([("slice times slice", v.bmm(&v)), ("tensor times slice", r.bmm(&v)), ("bmm_rc", v.bmm_rc(&r))]);
                    }
                    res
                })?;
                for (what, t) in &results {
                    if let Some(g) = grad(t)? {
                        return Err(format!("the {what} of a slice starts with gradient {g:?}"));
                    }
                }
                // the copy is a tensor of its own, and stays one
                results.truncate(13);
                let copy = results.pop().unwrap().1;
                let copy = self.o.adopt(copy, win.clone());
                let g = vals(&win.shape, 2);
                attempt(|| self.o.real[copy].update_grad(rc(&g)))?;
                self.o.t.update_plain(copy, &g);
                self.views.push((v, win));
            }
            Act::Raw(i) => {
                let r = self.o.real[t(i)].clone();
                let raw: &RawTensor<f64> = &r;
                let results = attempt(|| {
                    let all = raw.slice(raw.shape().iter().map(|&d| SliceRange::new(0, d)).collect());
                    let mut res = vec![
                        ("sum", (raw + raw).to_tensor()),
                        ("difference", (raw - raw).to_tensor()),
                        ("negation", (-raw).to_tensor()),
                        ("product", (raw * raw).to_tensor()),
                        ("dot", raw.dot(raw)),
                        ("reduction", raw.sum().to_tensor()),
                        ("mapped", F::generic_unary_op(raw, |v| v).to_tensor()),
                        ("scaled", raw.left_scalar_multiplication(&2.0).to_tensor()),
                        ("scaled by one", raw.right_scalar_multiplication(&1.0).to_tensor()),
                        ("one times it", raw.left_scalar_multiplication(&1.0).to_tensor()),
                        ("plus zero", (raw + &RawTensor::scalar(0.0)).to_tensor()),
                        ("copy of the whole slice", all.to_tensor()),
                        ("deep copy", raw.deep_clone()),
                    ];
                    if raw.shape().len() == 2 {
                        res.extend([("matrix product", raw.bmm(raw).to_tensor()), ("bmm_rc", raw.bmm_rc(raw))]);
                    }
                    res
                })?;
                for (what, t) in &results {
                    if let Some(g) = grad(t)? {
                        return Err(format!("the {what} of a plain tensor starts with gradient {g:?}"));
                    }
                }
                // a copy of a plain tensor, changed afterwards
                let c = raw.to_tensor();
                c.update_grad(rc(&Nd::fill(&self.o.t.val(t(i)).shape, 9.0)));
                c.zero_grad();
            }
            Act::Net(i) => {
                let (w, b) = (self.o.real[t(2)].clone(), self.o.real[t(1)].clone());
                let l = Linear::new(w, b, Some(F::tanh));
                let input = self.o.real[t(i)].clone();
                let y = attempt(|| l.forward(input))?;
                let bm = self.o.t.push(Op::Bmm, &[t(i), t(2)]).unwrap();
                self.o.real.push(y.clone()); // placeholder, replaced below
                let ad = self.o.t.push(Op::Add, &[bm, t(1)]).unwrap();
                self.o.real.push(y.clone());
                let th = self.o.t.push(Op::Tanh, &[ad]).unwrap();
                self.o.real.push(y);
                // the two inner results are not visible: never inspected
                self.hidden(bm);
                self.hidden(ad);
                self.at[Z] = th;
            }
            Act::Back(i) => self.o.back(t(i))?,
            Act::Update(i) => {
                let g = vals(&self.o.t.val(t(i)).shape, 1);
                attempt(|| self.o.real[t(i)].update_grad(rc(&g)))?;
                self.o.t.update_plain(t(i), &g);
            }
            Act::UpdateWith(i, j) => {
                let v = self.o.t.val(t(j)).clone();
                attempt(|| self.o.real[t(i)].update_grad(self.o.real[t(j)].clone()))?;
                self.o.t.update_plain(t(i), &v);
            }
            Act::Zero(i) => {
                attempt(|| self.o.real[t(i)].zero_grad())?;
                self.o.t.zero(t(i));
            }
        }
        Ok(())
    }

    fn hidden(&mut self, i: usize) {
        HIDDEN.with(|h| h.borrow_mut().push(i));
    }

    fn check(&self) -> R {
        for i in 0..self.o.real.len() {
            if HIDDEN.with(|h| h.borrow().contains(&i)) {
                continue;
            }
            let s = snap(&self.o.real[i])?;
            let name = |i: usize| {
                let reg: Vec<&str> = (0..7).filter(|&k| self.at[k] == i).map(|k| NAMES[k]).collect();
                format!("tensor {i} {reg:?}")
            };
            near(&format!("elements of {}", name(i)), &s.val, self.o.t.val(i))?;
            if s.grad.is_some() && self.o.t.nodes[i].grad.is_none() {
                return Err(format!("{} has gradient {:?}, it should have none", name(i), s.grad));
            }
            grad_matches(&name(i), &self.o.real[i], &self.o.t.nodes[i].grad)?;
        }
        for (v, n) in &self.views {
            near("a slice", &read(v)?, n)?;
        }
        Ok(())
    }
}

thread_local! {
    static HIDDEN: std::cell::RefCell<Vec<usize>> = std::cell::RefCell::new(vec![]);
}

fn c16_acts() -> Vec<Act> {
    let mut v = vec![];
    for i in [0, 2, 3, Z] {
        for op in UNARY {
            v.push(Act::Un(op, i));
        }
        v.extend([Act::Deep(i), Act::GradOf(i), Act::Reads(i), Act::Views(i), Act::Raw(i), Act::Net(i), Act::Update(i), Act::Zero(i)]);
    }
    for op in BINARY {
        for (i, j) in [(0, 1), (0, 0), (2, 0), (0, 2), (Z, 0), (0, Z), (Z, Z), (2, 2), (2, Z), (Z, 2), (5, 0), (3, Z)] {
            v.push(Act::Bin(op, i, j));
        }
    }
    for (i, j) in [(0, 1), (2, 2), (Z, Z), (4, 0), (Z, 2), (0, Z)] {
        v.push(Act::Mul(i, j));
    }
    v.extend([Act::Back(4), Act::Back(Z), Act::Reads(4), Act::Raw(5), Act::Update(5), Act::Zero(5)]);
    for (i, j) in [(0, 1), (0, 0), (1, 3), (1, Z), (5, 3), (2, Z), (Z, 2), (Z, Z)] {
        v.push(Act::UpdateWith(i, j));
    }
    v
}

fn c16_run(c: &mut Ctx, n: usize, acts: &[Act]) -> R {
    HIDDEN.with(|h| h.borrow_mut().clear());
    let mut p = Pool::new(n)?;
    for &a in acts {
        if !p.valid(a) {
            return Ok(());
        }
        p.run(a).map_err(|e| format!("{a:?}: {e}"))?;
        c.state(p.o.t.digest());
        p.check().map_err(|e| format!("after {a:?}: {e}"))?;
    }
    Ok(())
}

pub fn c16(c: &mut Ctx) {
    let acts = c16_acts();
    c.section("all sequences over a pool of tensors; registers x,y,m,x+y,sum(x+y),copy,z=0..6");
    let depth = if c.thorough { 3 } else { 2 };
    words(acts.len(), depth, |w| {
        if !c.mine() {
            c.skip();
            return;
        }
        let s: Vec<Act> = w.iter().map(|&i| acts[i]).collect();
        c.case(|| format!("{s:?}"), |c| c16_run(c, 2, &s));
    });
    c.section("computation on the latest result, then a backward pass or another use of it");
    // three steps where each of the later ones touches z
    let z: Vec<Act> = acts
        .iter()
        .copied()
        .filter(|a| match a {
            Act::Un(_, i) | Act::Deep(i) | Act::GradOf(i) | Act::Reads(i) | Act::Views(i) | Act::Raw(i) | Act::Net(i) | Act::Back(i) | Act::Update(i) | Act::Zero(i) => *i == Z,
            Act::Bin(_, i, j) | Act::Mul(i, j) | Act::UpdateWith(i, j) => *i == Z || *j == Z,
        })
        .collect();
    for &a in &acts {
        for &b in &z {
            for &d in &z {
                if !c.mine() {
                    c.skip();
                    continue;
                }
                let s = [a, b, d, Act::Back(Z)];
                c.case(|| format!("{s:?}"), |c| c16_run(c, 2, &s));
            }
        }
    }
    c.section("the same over tensors of other sizes");
    for n in [1, 3, 4, 5, 6, 8, 9, 16, 17, 33, 64, 65, 130] {
        let depth = match n {
            1 | 5 => 2,
            _ if c.thorough && n <= 17 => 2,
            _ => 1,
        };
        words(acts.len(), depth, |w| {
            if !c.mine() {
                c.skip();
                return;
            }
            let mut s: Vec<Act> = w.iter().map(|&i| acts[i]).collect();
            if depth == 1 {
                s.extend([Act::Update(0), Act::Un(Op::Sum, Z), Act::Back(Z)]);
            }
            c.case(|| format!("{s:?} on vectors of {n}"), |c| c16_run(c, n, &s));
        });
    }
    c.section("a tensor without history as the gradient, every shape");
    for shape in shapes(0..=3, &[1, 2, 3]).into_iter().chain([vec![5], vec![9], vec![17], vec![70], vec![4, 5], vec![6, 6], vec![2, 2, 2, 2], vec![129], vec![257], vec![300], vec![513], vec![1025], vec![4097], vec![33, 34], vec![3, 2000], vec![10_007]])
        .chain(high_rank(&[9, 17]).into_iter().step_by(5))
    {
        c.case(
            || format!("shape {shape:?}"),
            |c| {
                let mut o = World::new();
                let (x, y) = (o.leaf(&shape, 0), o.leaf(&shape, 1));
                let g = vals(&shape, 2);
                for step in 0..3 {
                    let v = o.t.val(y).clone();
                    attempt(|| o.real[x].update_grad(o.real[y].clone()))?;
                    o.t.update_plain(x, &v);
                    o.check()?;
                    // y gets a gradient: the gradient of x does not
                    attempt(|| o.real[y].update_grad(rc(&g)))?;
                    o.t.update_plain(y, &g);
                    o.check()?;
                    let xg = attempt(|| o.real[x].grad())?;
                    if let Some(gg) = grad(&xg)? {
                        return Err(format!("step {step}: the gradient's gradient is {}", show(&gg)));
                    }
                    // and the other way round
                    xg.update_grad(rc(&g));
                    xg.zero_grad();
                    xg.update_grad(rc(&g));
                    o.check()?;
                    if step == 1 {
                        attempt(|| o.real[x].zero_grad())?;
                        o.t.zero(x);
                        attempt(|| o.real[y].zero_grad())?;
                        o.t.zero(y);
                        o.check()?;
                    }
                }
                // a tensor as its own gradient
                for step in 0..2 {
                    let v = o.t.val(y).clone();
                    attempt(|| o.real[y].update_grad(o.real[y].clone()))?;
                    o.t.update_plain(y, &v);
                    o.check()?;
                    if step == 0 {
                        attempt(|| o.real[y].zero_grad())?;
                        o.t.zero(y);
                        o.check()?;
                    }
                }
                c.state(o.t.digest());
                Ok(())
            },
        );
    }
    c.section("deep copies and gradients as tensors, every shape");
    for shape in shapes(0..=3, &[1, 2, 3])
        .into_iter()
        .chain([17, 33, 65, 129, 255, 257, 300, 513, 1025, 4097, 10_007].into_iter().flat_map(|n| [vec![n], vec![n, 1], vec![2, n]]))
        .chain(high_rank(&[9, 17]).into_iter().step_by(5))
    {
        c.case(
            || format!("shape {shape:?}"),
            |c| {
                let mut o = World::new();
                let x = o.leaf(&shape, 0);
                // a deep copy of a tensor that has neither a history nor a gradient
                let e = attempt(|| o.real[x].deep_clone())?;
                let v = o.t.val(x).clone();
                let e = o.adopt(e, v.clone());
                let e2 = attempt(|| raw(&v).deep_clone())?;
                let e2 = o.adopt(e2, v);
                let s = o.op(Op::Sum, &[x], 0)?;
                o.back(s)?;
                o.check()?;
                for e in [e, e2] {
                    attempt(|| o.real[e].update_grad(rc(&vals(&shape, 3))))?;
                    o.t.update_plain(e, &vals(&shape, 3));
                    o.check()?;
                }
                // a deep copy of a tensor with a history and a gradient
                let y = o.op(Op::Neg, &[x], 0)?;
                let r = o.op(Op::Sum, &[y], 0)?;
                o.back(r)?;
                let d = attempt(|| o.real[y].deep_clone())?;
                let v = o.t.val(y).clone();
                let d = o.adopt(d, v);
                if grad(&o.real[d])?.is_some() {
                    return Err("a deep copy starts with a gradient".into());
                }
                let ds = o.op(Op::Dot, &[d, d], 0)?;
                o.back(ds)?;
                o.check()?;
                // the gradient tensor in a computation of its own
                let g = attempt(|| o.real[x].grad())?;
                let gv = o.t.nodes[x].grad.clone().unwrap()[0].clone();
                let g = o.adopt(g, gv);
                let gs = o.op(Op::Dot, &[g, x], 0)?;
                o.back(gs)?;
                o.check()?;
                attempt(|| o.real[g].zero_grad())?;
                o.t.zero(g);
                let gg = vals(&shape, 2);
                attempt(|| o.real[g].update_grad(rc(&gg)))?;
                o.t.update_plain(g, &gg);
                o.check()?;
                attempt(|| o.real[x].update_grad(rc(&gg)))?;
                o.t.update_plain(x, &gg);
                attempt(|| o.real[d].zero_grad())?;
                o.t.zero(d);
                o.check()?;
                // a result given as the first gradient is copied: what it was computed from is not reached
                let h = o.op(Op::Add, &[x, d], 0)?;
                let hv = o.t.val(h).clone();
                let k = o.leaf(&shape, 3);
                attempt(|| o.real[k].update_grad(o.real[h].clone()))?;
                o.t.update_plain(k, &hv);
                let kg = attempt(|| o.real[k].grad())?;
                let kg = o.adopt(kg, hv);
                let ks = o.op(Op::Sum, &[kg], 0)?;
                o.back(ks)?;
                o.check()?;
                attempt(|| o.real[h].zero_grad())?;
                o.t.zero(h);
                c.state(o.t.digest());
                o.check()
            },
        );
    }
}

// ---------------------------------------------------------------- C17

const REFUSALS: [&str; 27] = [
    "x + y (mismatch)",
    "x + y owned (mismatch)",
    "x - y (mismatch)",
    "x * y (mismatch)",
    "dot(x, y) (mismatch)",
    "m . n (inner extents)",
    "x . m (rank)",
    "m . x (rank)",
    "backward on x+x (two elements)",
    "backward on leaf s (no recorded operation)",
    "update x with shape [3] while it has a gradient",
    "update m with shape [3] while it has a gradient",
    "RcTensor::new with the wrong length",
    "ragged nested vectors",
    "view outside the tensor",
    "reversed range",
    "reshape to another count",
    "get outside",
    "index outside",
    "slice get outside",
    "elem() of a vector",
    "a user function that panics",
    "forward of a layer with a mismatching batch",
    "raw + raw (mismatch)",
    "element_wise_multiplication (mismatch)",
    "four-dimensional bmm",
    "backward on a product (no recorded operation)",
];
const VALID: [&str; 12] = [
    "backward sum(x+x)",
    "backward dot(y,y)",
    "backward u.m.v",
    "update x",
    "zero x",
    "zero m",
    "backward x.sum() kept from the start",
    "read everything",
    "backward sum(tanh(m))",
    "update m",
    "backward of a forward pass",
    "update s",
];

fn c17_run(c: &mut Ctx, w: &[usize]) -> R {
    let mut o = World::new();
    let x = o.leaf(&[2], 0);
    let y = o.leaf(&[3], 1);
    let m = o.leaf(&[2, 2], 2);
    let n = o.leaf(&[3, 2], 3);
    let s = o.leaf(&[], 0);
    let u = o.leaf(&[1, 2], 1);
    let v = o.leaf(&[2, 1], 2);
    let kept = o.op(Op::Sum, &[x], 0)?;
    let twice = o.op(Op::Add, &[x, x], 0)?;
    let view = view_of(&o.real[m], &[(0, 1), (0, 2)]);
    let layer = Linear::new(o.real[m].clone(), o.real[x].clone(), Some(F::relu));
    for &a in w {
        if a < REFUSALS.len() {
            let r = o.real.clone();
            let refused: Option<bool> = match a {
                0 => Some(attempt(|| &r[x] + &r[y]).is_err()),
                1 => Some(attempt(|| r[x].clone() + r[y].clone()).is_err()),
                2 => Some(attempt(|| &r[x] - &r[y]).is_err()),
                3 => Some(attempt(|| &r[x] * &r[y]).is_err()),
                4 => Some(attempt(|| F::dot(&r[x], &r[y])).is_err()),
                5 => Some(attempt(|| r[m].bmm(&r[n])).is_err()),
                6 => Some(attempt(|| r[x].bmm(&r[m])).is_err()),
                7 => Some(attempt(|| r[m].bmm(&r[x])).is_err()),
                8 => Some(attempt(|| r[twice].backward()).is_err()),
                9 => Some(attempt(|| r[s].backward()).is_err()),
                10 | 11 => {
                    let i = [x, m][a - 10];
                    if o.t.nodes[i].grad.is_some() {
                        Some(attempt(|| r[i].update_grad(rc(&vals(&[3], 1)))).is_err())
                    } else {
                        None
                    }
                }
                12 => Some(attempt(|| RcTensor::new(vec![1.0, 2.0, 3.0], vec![2])).is_err()),
                13 => Some(attempt(|| RcTensor::from(vec![vec![1.0, 2.0], vec![3.0]])).is_err()),
                14 => Some(attempt(|| view_of(&r[m], &[(0, 3), (0, 2)])).is_err()),
                15 => Some(attempt(|| view_of(&r[m], &[(2, 1), (0, 2)])).is_err()),
                16 => Some(attempt(|| view.reshape(vec![3])).is_err()),
                17 => Some(attempt(|| r[x].get(&vec![2]).is_err())?),
                18 => Some(attempt(|| r[x][&vec![2]]).is_err()),
                19 => Some(attempt(|| view.get(&vec![0, 2]).is_err())?),
                20 => Some(attempt(|| r[x].elem()).is_err()),
                21 => Some(attempt(|| F::generic_unary_op(&r[x], |v| if v < 0.0 { panic!("user") } else { v })).is_err()),
                22 => Some(attempt(|| layer.forward(r[n].bmm(&r[m]).bmm(&r[v]))).is_err()),
                23 => Some(attempt(|| &*r[x] + &*r[y]).is_err()),
                24 => Some(attempt(|| F::element_wise_multiplication(&r[x], &r[y])).is_err()),
                25 => Some(attempt(|| RcTensor::new_with_filler(vec![1, 1, 2, 2], 1.0).bmm(&r[m])).is_err()),
                _ => Some(attempt(|| RcTensor::scalar(2.0).clone().backward()).is_err()),
            };
            if refused == Some(false) {
                return Err(format!("{} was not refused", REFUSALS[a]));
            }
        } else {
            match a - REFUSALS.len() {
                0 => {
                    let t = o.op(Op::Add, &[x, x], 1)?;
                    let r = o.op(Op::Sum, &[t], 0)?;
                    o.back(r)?;
                }
                1 => {
                    let r = o.op(Op::Dot, &[y, y], 0)?;
                    o.back(r)?;
                }
                2 => {
                    let t = o.op(Op::Bmm, &[u, m], 0)?;
                    let r = o.op(Op::Bmm, &[t, v], 0)?;
                    o.back(r)?;
                }
                3 => {
                    let g = vals(&[2], 2);
                    attempt(|| o.real[x].update_grad(rc(&g)))?;
                    o.t.update_plain(x, &g);
                }
                4 | 5 => {
                    let i = [x, m][a - REFUSALS.len() - 4];
                    attempt(|| o.real[i].zero_grad())?;
                    o.t.zero(i);
                }
                6 => o.back(kept)?,
                7 => o.check()?,
                8 => {
                    let t = o.op(Op::Tanh, &[m], 0)?;
                    let r = o.op(Op::Sum, &[t], 0)?;
                    o.back(r)?;
                }
                9 => {
                    let g = vals(&[2, 2], 1);
                    attempt(|| o.real[m].update_grad(rc(&g)))?;
                    o.t.update_plain(m, &g);
                }
                11 => {
                    let g = vals(&[], 1);
                    attempt(|| o.real[s].update_grad(rc(&g)))?;
                    o.t.update_plain(s, &g);
                }
                _ => {
                    let out = attempt(|| layer.forward(o.real[u].clone()).sum())?;
                    let b = o.t.push(Op::Bmm, &[u, m]).unwrap();
                    let d = o.t.push(Op::Add, &[b, x]).unwrap();
                    let e = o.t.push(Op::Relu, &[d]).unwrap();
                    let f = o.t.push(Op::Sum, &[e]).unwrap();
                    near("forward", &read(&out)?, o.t.val(f))?;
                    attempt(|| out.backward())?;
                    o.t.backward(f);
                    o.t.nodes.truncate(b);
                }
            }
        }
        c.state(hash((o.t.digest(), a)));
    }
    o.check()?;
    near("the slice", &read(&view)?, &o.t.val(m).window(&[(0, 1), (0, 2)]).unwrap())?;
    // everything is still usable
    let a = o.op(Op::Add, &[twice, x], 0)?;
    let b = o.op(Op::Sum, &[a], 0)?;
    o.back(b)?;
    let d = o.op(Op::Bmm, &[m, v], 0)?;
    let e = o.op(Op::Sum, &[d], 0)?;
    o.back(e)?;
    let f = o.op(Op::Dot, &[y, y], 0)?;
    o.back(f)?;
    o.check()
}

/// x of shape `a` and y of shape `b`: everything about them that must be refused is, with and
/// without gradients on them, and nothing is the worse for it.
fn c17_pair(c: &mut Ctx, a: &[usize], b: &[usize], pre: bool) -> R {
    let mut o = World::new();
    let x = o.leaf(a, 0);
    let y = o.leaf(b, 1);
    if pre {
        for i in [x, y] {
            let s = o.op(Op::Sum, &[i], 0)?;
            o.back(s)?;
        }
    }
    let mut refused = 0;
    for (op, forms) in [(Op::Add, 2), (Op::Sub, 3), (Op::Dot, 1), (Op::Bmm, 2)] {
        if apply(op, o.t.val(x), Some(o.t.val(y))).is_none() {
            for form in 0..forms {
                if attempt(|| real_op(op, &o.real[x], Some(&o.real[y]), form)).is_ok() {
                    return Err(format!("{op:?} (form {form}) was not refused"));
                }
                refused += 1;
            }
        }
    }
    if o.t.val(x).mul(o.t.val(y)).is_none() {
        let r = &o.real;
        for (form, bad) in [
            ("by reference", attempt(|| &r[x] * &r[y]).is_ok()),
            ("by value", attempt(|| r[x].clone() * r[y].clone()).is_ok()),
        ] {
            if bad {
                return Err(format!("* {form} was not refused"));
            }
        }
        refused += 2;
    }
    if a != b {
        if attempt(|| F::element_wise_multiplication(&o.real[x], &o.real[y])).is_ok() {
            return Err("element_wise_multiplication was not refused".into());
        }
        refused += 1;
    }
    if size(a) != 1 && attempt(|| (&o.real[x] + &o.real[x]).backward()).is_ok() {
        return Err("backward from several elements was not refused".into());
    }
    for i in [x, y] {
        if attempt(|| o.real[i].backward()).is_ok() {
            return Err("backward from a tensor that was not computed was not refused".into());
        }
        refused += 1;
    }
    if pre && broadcast_shape(a, b).is_none() {
        for (i, g) in [(x, b), (y, a)] {
            if attempt(|| o.real[i].update_grad(rc(&vals(g, 2)))).is_ok() {
                return Err(format!("an explicit gradient of shape {g:?} was not refused"));
            }
            refused += 1;
        }
    }
    o.check()?;
    // everything still works
    for i in [x, y] {
        let t = o.op(Op::Add, &[i, i], 1)?;
        let s = o.op(Op::Sum, &[t], 0)?;
        o.back(s)?;
        let g = vals(&o.t.val(i).shape.clone(), 3);
        attempt(|| o.real[i].update_grad(rc(&g)))?;
        o.t.update_plain(i, &g);
    }
    c.state(hash((a, b, pre, refused)));
    o.check()
}

pub fn c17(c: &mut Ctx) {
    c.section("every pair of shapes that does not fit");
    let mut all = shapes(0..=2, &[1, 2, 3, 4, 5, 7, 9]);
    all.extend(shapes(3..=if c.thorough { 4 } else { 3 }, &[1, 2, 3]));
    all.extend([vec![33], vec![2, 33], vec![64, 1], vec![1, 1, 1, 8], vec![2, 1, 1, 4]]);
    for a in &all {
        for b in &all {
            for pre in [false, true] {
                c.case(
                    || format!("x {a:?}, y {b:?}{}", if pre { ", with gradients" } else { "" }),
                    |c| c17_pair(c, a, b, pre),
                );
            }
        }
    }
    let k = REFUSALS.len() + VALID.len();
    let name = |a: usize| {
        if a < REFUSALS.len() {
            format!("refused: {}", REFUSALS[a])
        } else {
            VALID[a - REFUSALS.len()].to_string()
        }
    };
    c.section("all sequences of refused and valid calls");
    let depth = if c.thorough { 4 } else { 3 };
    words(k, depth, |w| {
        if !w.iter().any(|&a| a < REFUSALS.len()) {
            return;
        }
        // reads and resets only matter next to something else
        c.case(
            || w.iter().map(|&a| name(a)).collect::<Vec<_>>().join("; "),
            |c| c17_run(c, w),
        )
    });
    c.section("many refusals");
    for a in 0..REFUSALS.len() {
        for n in [4, 17, 130, 1030] {
            c.case(
                || format!("{n} times refused: {}; then every valid call", REFUSALS[a]),
                |c| {
                    let valid = REFUSALS.len()..k;
                    let w: Vec<usize> = valid.clone().chain(std::iter::repeat(a).take(n)).chain(valid.rev()).collect();
                    c17_run(c, &w)
                },
            );
        }
    }
}
