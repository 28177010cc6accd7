//! C18–C21: layers, networks, optimiser steps and training histories.
use crate::ctx::*;
use crate::model::*;
use crate::real::*;
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;
use std::ops::Neg;

type R = Result<(), String>;
type Rc = RcTensor<f64>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fun {
    None,
    Relu,
    Tanh,
    Abs,
    Neg,
}
const FUNS: [Fun; 5] = [Fun::None, Fun::Relu, Fun::Tanh, Fun::Abs, Fun::Neg];

impl Fun {
    fn real(self) -> Option<fn(Rc) -> Rc> {
        match self {
            Fun::None => None,
            Fun::Relu => Some(F::relu),
            Fun::Tanh => Some(F::tanh),
            Fun::Abs => Some(|t: Rc| t.abs()),
            Fun::Neg => Some(|t: Rc| (&t).neg()),
        }
    }
    fn op(self) -> Option<Op> {
        match self {
            Fun::None => None,
            Fun::Relu => Some(Op::Relu),
            Fun::Tanh => Some(Op::Tanh),
            Fun::Abs => Some(Op::Abs),
            Fun::Neg => Some(Op::Neg),
        }
    }
}

/// A real module of either kind.
enum Net {
    L(Linear<f64>),
    M1(Mlp<f64, 1>),
    M2(Mlp<f64, 2>),
    M3(Mlp<f64, 3>),
    M4(Mlp<f64, 4>),
    M5(Mlp<f64, 5>),
    M6(Mlp<f64, 6>),
    M7(Mlp<f64, 7>),
    M8(Mlp<f64, 8>),
    M9(Mlp<f64, 9>),
    M10(Mlp<f64, 10>),
    M12(Mlp<f64, 12>),
    M16(Mlp<f64, 16>),
    M17(Mlp<f64, 17>),
    M33(Mlp<f64, 33>),
}

/// The depths beyond four.
const DEEP: [usize; 10] = [5, 6, 7, 8, 9, 10, 12, 16, 17, 33];

macro_rules! on {
    ($net:expr, $m:ident => $e:expr) => {
        match $net {
            Net::L($m) => $e,
            Net::M1($m) => $e,
            Net::M2($m) => $e,
            Net::M3($m) => $e,
            Net::M4($m) => $e,
            Net::M5($m) => $e,
            Net::M6($m) => $e,
            Net::M7($m) => $e,
            Net::M8($m) => $e,
            Net::M9($m) => $e,
            Net::M10($m) => $e,
            Net::M12($m) => $e,
            Net::M16($m) => $e,
            Net::M17($m) => $e,
            Net::M33($m) => $e,
        }
    };
}

impl Net {
    /// `params`: weights and bias per layer
    fn build(mlp: bool, params: &[Rc], funs: &[Fun]) -> Net {
        let mut layers: Vec<Linear<f64>> = (0..funs.len())
            .map(|l| Linear::new(params[2 * l].clone(), params[2 * l + 1].clone(), funs[l].real()))
            .collect();
        did(1);
        if !mlp {
            return Net::L(layers.remove(0));
        }
        match layers.len() {
            1 => Net::M1(Mlp::new(<[_; 1]>::try_from(layers).unwrap())),
            2 => Net::M2(Mlp::new(<[_; 2]>::try_from(layers).unwrap())),
            3 => Net::M3(Mlp::new(<[_; 3]>::try_from(layers).unwrap())),
            4 => Net::M4(Mlp::new(<[_; 4]>::try_from(layers).unwrap())),
            5 => Net::M5(Mlp::new(<[_; 5]>::try_from(layers).unwrap())),
            6 => Net::M6(Mlp::new(<[_; 6]>::try_from(layers).unwrap())),
            7 => Net::M7(Mlp::new(<[_; 7]>::try_from(layers).unwrap())),
            8 => Net::M8(Mlp::new(<[_; 8]>::try_from(layers).unwrap())),
            9 => Net::M9(Mlp::new(<[_; 9]>::try_from(layers).unwrap())),
            10 => Net::M10(Mlp::new(<[_; 10]>::try_from(layers).unwrap())),
            12 => Net::M12(Mlp::new(<[_; 12]>::try_from(layers).unwrap())),
            16 => Net::M16(Mlp::new(<[_; 16]>::try_from(layers).unwrap())),
            17 => Net::M17(Mlp::new(<[_; 17]>::try_from(layers).unwrap())),
            33 => Net::M33(Mlp::new(<[_; 33]>::try_from(layers).unwrap())),
            _ => unreachable!(),
        }
    }
    fn forward(&self, x: &Rc) -> Result<Rc, String> {
        attempt(|| on!(self, m => m.forward(x.clone()))).map_err(|e| format!("forward failed: {e}"))
    }
    fn params(&self) -> Result<Vec<Rc>, String> {
        attempt(|| on!(self, m => Module::params(m)))
    }
    fn install(&mut self, p: Vec<Rc>) -> R {
        attempt(|| on!(self, m => m.update_params(p))).map_err(|e| format!("update_params failed: {e}"))
    }
    fn step(&mut self, s: f64) -> Result<(), String> {
        let s = RcTensor::scalar(s);
        attempt(|| match self {
            Net::L(m) => sgd_step(m, s),
            Net::M1(m) => sgd_step(m, s),
            Net::M2(m) => sgd_step(m, s),
            Net::M3(m) => sgd_step(m, s),
            Net::M4(m) => sgd_step(m, s),
            Net::M5(m) => sgd_step(m, s),
            Net::M6(m) => sgd_step(m, s),
            Net::M7(m) => sgd_step(m, s),
            Net::M8(m) => sgd_step(m, s),
            Net::M9(m) => sgd_step(m, s),
            Net::M10(m) => sgd_step(m, s),
            Net::M12(m) => sgd_step(m, s),
            Net::M16(m) => sgd_step(m, s),
            Net::M17(m) => sgd_step(m, s),
            Net::M33(m) => sgd_step(m, s),
        })
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    mlp: bool,
    widths: Vec<usize>,
    funs: Vec<Fun>,
    row_bias: bool,
}

impl Config {
    fn label(&self) -> String {
        format!(
            "{} widths {:?} activations {:?} bias {}",
            if self.mlp { "Mlp" } else { "Linear" },
            self.widths,
            self.funs,
            if self.row_bias { "[1,n]" } else { "[n]" }
        )
    }
    fn shapes(&self) -> Vec<Vec<usize>> {
        let mut v = vec![];
        for l in 0..self.funs.len() {
            v.push(vec![self.widths[l], self.widths[l + 1]]);
            v.push(if self.row_bias {
                vec![1, self.widths[l + 1]]
            } else {
                vec![self.widths[l + 1]]
            });
        }
        v
    }
    fn params(&self, set: usize) -> Vec<Nd<f64>> {
        self.shapes()
            .iter()
            .enumerate()
            .map(|(i, s)| vals(s, set + i).map(|x| x * 0.5))
            .collect()
    }
}

/// The forward pass on the model's tape; returns the output node.
fn model_forward(t: &mut Tape, params: &[usize], funs: &[Fun], input: usize) -> Option<usize> {
    let mut cur = input;
    for (l, f) in funs.iter().enumerate() {
        let y = t.push(Op::Bmm, &[cur, params[2 * l]])?;
        let z = t.push(Op::Add, &[y, params[2 * l + 1]])?;
        cur = match f.op() {
            None => z,
            Some(op) => t.push(op, &[z])?,
        };
    }
    Some(cur)
}

fn configs(c: &Ctx) -> Vec<Config> {
    let mut v = vec![];
    // one layer: everything
    for mlp in [false, true] {
        for i in 1..=3 {
            for o in 1..=3 {
                for f in FUNS {
                    for row_bias in [false, true] {
                        v.push(Config { mlp, widths: vec![i, o], funs: vec![f], row_bias });
                    }
                }
            }
        }
    }
    // two layers: all widths, all activation pairs
    for w in shapes(3..=3, &[1, 2, 3]) {
        for f in FUNS {
            for g in FUNS {
                v.push(Config { mlp: true, widths: w.clone(), funs: vec![f, g], row_bias: false });
            }
        }
    }
    // three layers
    for w in shapes(4..=4, if c.thorough { &[1, 2, 3] } else { &[1, 2] }) {
        for k in 0..if c.thorough { 125 } else { 27 } {
            let pick = |n: usize| if c.thorough { FUNS[n % 5] } else { FUNS[n % 3] };
            let b = if c.thorough { 5 } else { 3 };
            v.push(Config {
                mlp: true,
                widths: w.clone(),
                funs: vec![pick(k), pick(k / b), pick(k / b / b)],
                row_bias: k % 2 == 1,
            });
        }
    }
    for (i, w) in [vec![2, 3, 1, 2, 3], vec![1, 1, 1, 1, 1], vec![3, 2, 3, 2, 1]].into_iter().enumerate() {
        v.push(Config {
            mlp: true,
            widths: w,
            funs: vec![Fun::Tanh, Fun::None, Fun::Relu, FUNS[i]],
            row_bias: i == 1,
        });
    }
    v.extend(deep());
    v
}

/// Networks of many layers: narrow ones, and one of changing width.
fn deep() -> Vec<Config> {
    let mut v = vec![];
    for n in DEEP {
        for (k, width) in [[1, 1, 1], [2, 1, 2], [1, 2, 3]].into_iter().enumerate() {
            if n > 12 && k > 0 {
                continue;
            }
            v.push(Config {
                mlp: true,
                widths: (0..=n).map(|i| width[i % 3]).collect(),
                funs: (0..n).map(|i| if i == 0 { Fun::Tanh } else { FUNS[[0, 4, 3][(i * 7 + k) % 3]] }).collect(),
                row_bias: k == 1,
            });
        }
    }
    v
}

/// Layers and networks that are wide.
fn wide() -> Vec<Config> {
    let mut v = vec![];
    for n in [4, 5, 8, 9, 16, 17, 31, 33, 63, 65, 127, 129, 257, 300] {
        for (i, widths) in [vec![n, 1], vec![1, n], vec![2, n, 1], vec![n, 2, 3], vec![3, 2, n]].into_iter().enumerate() {
            v.push(Config { mlp: widths.len() > 2, funs: vec![FUNS[(n + i) % 5]; widths.len() - 1], widths, row_bias: i % 2 == 1 });
        }
    }
    v
}

/// A few networks, for what is enumerated in other respects.
fn few() -> Vec<Config> {
    [
        (false, vec![2, 3], vec![Fun::None]),
        (false, vec![1, 2], vec![Fun::Tanh]),
        (true, vec![2, 2, 1], vec![Fun::Relu, Fun::None]),
        (true, vec![3, 1, 2, 2], vec![Fun::Neg, Fun::None, Fun::Abs]),
    ]
    .into_iter()
    .enumerate()
    .map(|(i, (mlp, widths, funs))| Config { mlp, widths, funs, row_bias: i == 1 })
    .collect()
}

/// Batches with many rows or many matrices.
fn tall(width: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    for n in [5, 8, 9, 15, 17, 31, 32, 33, 40, 48, 63, 64, 65, 66, 80, 97, 100, 127, 128, 129, 130, 193, 200, 255, 256, 257, 258, 300, 511, 513, 1025] {
        v.extend([vec![n, width], vec![n, 1, width], vec![1, n, width]]);
        if n < 130 {
            v.extend([vec![2, n, width], vec![n, 3, width]]);
        }
    }
    v
}

fn batches(width: usize) -> Vec<Vec<usize>> {
    vec![
        vec![1, width],
        vec![2, width],
        vec![3, width],
        vec![1, 1, width],
        vec![2, 1, width],
        vec![1, 2, width],
        vec![2, 3, width],
    ]
}

// ---------------------------------------------------------------- C18

fn output(cfg: &Config, params: &[Nd<f64>], x: &Nd<f64>) -> Nd<f64> {
    let mut t = Tape::default();
    let ids: Vec<usize> = params.iter().map(|p| t.leaf(p.clone())).collect();
    let i = t.leaf(x.clone());
    let o = model_forward(&mut t, &ids, &cfg.funs, i).unwrap();
    t.val(o).clone()
}

fn c18_one(c: &mut Ctx, cfg: &Config, shape: &[usize]) -> R {
    let pn = cfg.params(1);
    let params: Vec<Rc> = pn.iter().map(rc).collect();
    let mut net = Net::build(cfg.mlp, &params, &cfg.funs);
    let xn = vals(shape, 2);
    let x = rc(&xn);
    let want = output(cfg, &pn, &xn);
    c.state(hash((cfg.label(), shape, want.digest())));
    let y = net.forward(&x)?;
    near("forward", &read(&y)?, &want)?;
    // composition of the layers one by one
    let mut cur = x.clone();
    for l in 0..cfg.funs.len() {
        let one = Linear::new(params[2 * l].clone(), params[2 * l + 1].clone(), cfg.funs[l].real());
        cur = attempt(|| one.forward(cur.clone()))?;
    }
    near("layers one by one", &read(&cur)?, &want)?;
    // rows are independent: each row alone, and all rows in reverse order
    let w = shape[shape.len() - 1];
    let ow = want.shape[want.shape.len() - 1];
    let rows = xn.data.len() / w;
    for r in 0..rows {
        let one = Nd::new(&[1, w], xn.data[r * w..(r + 1) * w].to_vec());
        let wr = Nd::new(&[1, ow], want.data[r * ow..(r + 1) * ow].to_vec());
        near(&format!("row {r} alone"), &read(&net.forward(&rc(&one))?)?, &wr)?;
    }
    let rev = |d: &[f64], w: usize| -> Vec<f64> { d.chunks(w).rev().flatten().copied().collect() };
    let xr = Nd::new(shape, rev(&xn.data, w));
    let wr = Nd::new(&want.shape, rev(&want.data, ow));
    near("rows reversed", &read(&net.forward(&rc(&xr))?)?, &wr)?;
    // only input and current parameters matter: gradients, other passes, repetition
    let s = attempt(|| y.sum())?;
    attempt(|| s.backward()).map_err(|e| format!("backward failed: {e}"))?;
    near("again after a backward pass", &read(&net.forward(&x)?)?, &want)?;
    for p in &params {
        attempt(|| p.update_grad(p.deep_clone()))?;
    }
    near("again after gradient updates", &read(&net.forward(&x)?)?, &want)?;
    near("earlier output", &read(&y)?, &want)?;
    // new parameters take effect, and the old ones when put back
    let pn2 = cfg.params(3);
    net.install(pn2.iter().map(rc).collect())?;
    near("new parameters", &read(&net.forward(&x)?)?, &output(cfg, &pn2, &xn))?;
    net.install(params.clone())?;
    near("old parameters again", &read(&net.forward(&x)?)?, &want)?;
    near("input afterwards", &read(&x)?, &xn)?;
    for (p, n) in params.iter().zip(&pn) {
        near("parameter afterwards", &read(p)?, n)?;
    }
    Ok(())
}

pub fn c18(c: &mut Ctx) {
    c.section("all networks with all batch shapes");
    for cfg in configs(c) {
        for b in batches(cfg.widths[0]) {
            c.case(
                || format!("{} batch {b:?}", cfg.label()),
                |c| c18_one(c, &cfg, &b),
            );
        }
    }
    c.section("sizes");
    for n in 1..=if c.thorough { 70 } else { 40 } {
        for (w, b) in [
            (vec![n, 2], vec![2, n]),
            (vec![2, n], vec![2, 2]),
            (vec![2, 2], vec![n, 2]),
            (vec![1, n, 1], vec![2, 1]),
            (vec![2, 2], vec![n, 1, 2]),
        ] {
            let cfg = Config {
                mlp: w.len() > 2,
                funs: vec![Fun::Relu; w.len() - 1],
                widths: w,
                row_bias: false,
            };
            c.case(|| format!("{} batch {b:?}", cfg.label()), |c| c18_one(c, &cfg, &b));
        }
    }
    c.section("batches with many rows");
    for cfg in few() {
        for b in tall(cfg.widths[0]) {
            c.case(|| format!("{} batch {b:?}", cfg.label()), |c| c18_one(c, &cfg, &b));
        }
    }
    c.section("wide layers");
    for cfg in wide() {
        for b in [vec![2, cfg.widths[0]], vec![2, 3, cfg.widths[0]], vec![33, cfg.widths[0]]] {
            c.case(|| format!("{} batch {b:?}", cfg.label()), |c| c18_one(c, &cfg, &b));
        }
    }
    c.section("one layer, biases of every shape that broadcasts");
    for batch in [vec![1], vec![2], vec![3], vec![1, 1], vec![1, 2], vec![2, 1], vec![2, 2], vec![3, 2], vec![3, 3], vec![2, 3], vec![4, 4]] {
        for (w, out) in [(1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 4)] {
            let mut b: Vec<usize> = batch.clone();
            b.push(w);
            let mut y = batch.clone();
            y.push(out);
            let mut biases: Vec<Vec<usize>> = vec![];
            for from in 0..=y.len() {
                let tail = &y[from..];
                for ones in 0..1usize << tail.len() {
                    biases.push(tail.iter().enumerate().map(|(i, &d)| if ones >> i & 1 == 1 { 1 } else { d }).collect());
                }
            }
            biases.sort();
            biases.dedup();
            for bias in biases {
                if b.len() > 3 {
                    continue;
                }
                for f in FUNS {
                    c.case(
                        || format!("Linear {w}x{out} {f:?} bias {bias:?} batch {b:?}"),
                        |c| {
                            let mut t = Tape::default();
                            let ids = [t.leaf(vals(&[w, out], 0)), t.leaf(vals(&bias, 1)), t.leaf(vals(&b, 2))];
                            let Some(o) = model_forward(&mut t, &ids[..2], &[f], ids[2]) else { return Ok(()) };
                            let r: Vec<Rc> = ids.iter().map(|&i| rc(t.val(i))).collect();
                            let l = Linear::new(r[0].clone(), r[1].clone(), f.real());
                            let got = attempt(|| l.forward(r[2].clone()))?;
                            c.state(hash((&b, &bias, out, f as usize)));
                            near("forward", &read(&got)?, t.val(o))?;
                            // and the gradients find their way back
                            let s = t.push(Op::Dot, &[o, o]).unwrap();
                            t.backward(s);
                            attempt(|| F::dot(&got, &got).backward())?;
                            for k in 0..3 {
                                grad_matches(&format!("input {k}"), &r[k], &t.nodes[ids[k]].grad)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    c.section("other element types");
    for (w, b) in [(vec![1, 1], vec![1, 1]), (vec![2, 3], vec![2, 2]), (vec![3, 2], vec![2, 1, 3]), (vec![2, 3, 1], vec![4, 2]), (vec![3, 3, 2], vec![2, 2, 3])] {
        c.case(
            || format!("f32 widths {w:?} batch {b:?}, a forward pass, a backward pass and a step"),
            |c| {
                // small dyadic numbers: exact in f32
                let p: Vec<(Nd<f32>, Nd<f32>)> = (0..w.len() - 1).map(|l| (pattern(&[w[l], w[l + 1]], l), pattern(&[w[l + 1]], l + 5))).collect();
                let x: Nd<f32> = pattern(&b, 9);
                let out = |p: &[(Nd<f32>, Nd<f32>)]| p.iter().fold(x.clone(), |x, (w, b)| x.bmm(w).unwrap().add(b).unwrap());
                let layer = |l: usize| Linear::new(rc(&p[l].0), rc(&p[l].1), None);
                c.state(hash((&w, &b)));
                fn run<M: Module<f32, InputType = RcTensor<f32>, OutputType = RcTensor<f32>>>(m: &mut M, x: &Nd<f32>, p: &[(Nd<f32>, Nd<f32>)]) -> Result<(Nd<f32>, Nd<f32>), String> {
                    let y = attempt(|| m.forward(rc(x)))?;
                    let before = read(&y)?;
                    for (i, q) in m.params().iter().enumerate() {
                        let g = if i % 2 == 0 { &p[i / 2].0 } else { &p[i / 2].1 };
                        q.update_grad(rc(&g.map(|v| v * 2.0 - 1.0)));
                    }
                    attempt(|| sgd_step(m, RcTensor::scalar(0.25f32)))?;
                    Ok((before, read(&attempt(|| m.forward(rc(x)))?)?))
                }
                let (before, after) = if p.len() == 1 {
                    run(&mut layer(0), &x, &p)?
                } else {
                    run(&mut Mlp::new([layer(0), layer(1)]), &x, &p)?
                };
                same("forward", &before, &out(&p))?;
                let next: Vec<_> = p.iter().map(|(w, b)| (w.map(|v| v - 0.25 * (v * 2.0 - 1.0)), b.map(|v| v - 0.25 * (v * 2.0 - 1.0)))).collect();
                same("forward after a step", &after, &out(&next))
            },
        );
    }
    c.section("mismatching inputs are refused");
    for cfg in configs(c).into_iter().step_by(7) {
        c.case(
            || format!("{} with inputs of another width or rank", cfg.label()),
            |_| {
                let params: Vec<Rc> = cfg.params(1).iter().map(rc).collect();
                let net = Net::build(cfg.mlp, &params, &cfg.funs);
                let w = cfg.widths[0];
                for s in [vec![2, w + 1], vec![w], vec![], vec![1, 1, 2, w], vec![2, w + 2], vec![2, 2, w + 1]] {
                    if net.forward(&rc(&vals(&s, 0))).is_ok() {
                        return Err(format!("input of shape {s:?} was accepted"));
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C19

/// Are these two handles the same tensor? A gradient put on one shows on the other.
fn same_tensor(a: &Rc, b: &Rc, mark: f64) -> Result<bool, String> {
    let (ga, gb) = (grad(a)?, grad(b)?);
    attempt(|| a.zero_grad())?;
    let m = Nd::fill(a.shape(), mark);
    attempt(|| a.update_grad(rc(&m)))?;
    let seen = grad(b)? == Some(m);
    attempt(|| a.zero_grad())?;
    let gone = seen && grad(b)?.is_none();
    for (t, g) in [(b, gb), (a, ga)] {
        attempt(|| t.zero_grad())?;
        if let Some(g) = g {
            attempt(|| t.update_grad(rc(&g)))?;
        }
    }
    Ok(seen && gone)
}

fn listed(net: &Net, want: &[Rc]) -> R {
    let got = net.params()?;
    if got.len() != want.len() {
        return Err(format!("{} parameters listed, want {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        same(&format!("parameter {i}"), &read(g)?, &read(w)?)?;
        if !same_tensor(g, w, 100.0 + i as f64)? {
            return Err(format!("parameter {i} is not the installed tensor"));
        }
        if !same_tensor(w, g, 200.0 + i as f64)? {
            return Err(format!("the installed tensor is not parameter {i}"));
        }
    }
    Ok(())
}

fn uses(net: &Net, cfg: &Config, params: &[Rc], batch: &[usize]) -> R {
    let pn: Vec<Nd<f64>> = params.iter().map(|p| read(p).unwrap()).collect();
    let mut t = Tape::default();
    let ids: Vec<usize> = pn.iter().map(|p| t.leaf(p.clone())).collect();
    let x = t.leaf(vals(batch, 3));
    let o = model_forward(&mut t, &ids, &cfg.funs, x).unwrap();
    let s = t.push(Op::Sum, &[o]).unwrap();
    for p in params {
        attempt(|| p.zero_grad())?;
    }
    let y = net.forward(&rc(t.val(x)))?;
    near("forward", &read(&y)?, t.val(o))?;
    let r = attempt(|| y.sum())?;
    attempt(|| r.backward()).map_err(|e| format!("backward failed: {e}"))?;
    t.backward(s);
    for (i, p) in params.iter().enumerate() {
        grad_matches(&format!("gradient on parameter {i}"), p, &t.nodes[ids[i]].grad)?;
        if grad(p)?.is_none() {
            return Err(format!("no gradient on parameter {i}"));
        }
    }
    for (i, p) in net.params()?.iter().enumerate() {
        grad_matches(&format!("gradient on listed parameter {i}"), p, &t.nodes[ids[i]].grad)?;
    }
    Ok(())
}

fn c19_run(c: &mut Ctx, cfg: &Config, word: &[usize]) -> R {
    c19_batch(c, cfg, word, &[2, cfg.widths[0]])
}

fn c19_batch(c: &mut Ctx, cfg: &Config, word: &[usize], batch: &[usize]) -> R {
    let first: Vec<Rc> = cfg.params(0).iter().map(rc).collect();
    let mut net = Net::build(cfg.mlp, &first, &cfg.funs);
    let mut cur = first.clone();
    listed(&net, &cur)?;
    for &a in word {
        match a {
            0 => {
                // fresh tensors of the same shapes
                let fresh: Vec<Rc> = cfg.params(c.cases as usize % 3 + 1).iter().map(rc).collect();
                net.install(fresh.clone())?;
                cur = fresh;
            }
            1 => {
                // its own parameters
                let own = net.params()?;
                net.install(own)?;
            }
            2 => {
                net.install(first.clone())?;
                cur = first.clone();
            }
            3 => {
                // all but one kept
                let k = c.cases as usize % cur.len();
                let n = read(&cur[k])?.map(|x| x + 2.0);
                let mut next = cur.clone();
                next[k] = rc(&n);
                net.install(next.clone())?;
                cur = next;
            }
            4 => {
                // an optimiser step in between
                uses(&net, cfg, &cur, batch)?;
                net.step(0.125)?;
                cur = net.params()?;
                if cur.len() != first.len() {
                    return Err("a step changed the number of parameters".into());
                }
            }
            _ => uses(&net, cfg, &cur, batch)?,
        }
        listed(&net, &cur)?;
        c.state(hash((cfg.label(), cur.iter().map(|p| read(p).unwrap().digest()).collect::<Vec<_>>())));
    }
    uses(&net, cfg, &cur, batch)?;
    listed(&net, &cur)
}

pub fn c19(c: &mut Ctx) {
    let cfgs = configs(c);
    c.section("all networks, two steps of every kind");
    for cfg in &cfgs {
        for w in 0..36 {
            let word = [w / 6, w % 6];
            c.case(|| format!("{} word {word:?}", cfg.label()), |c| c19_run(c, cfg, &word));
        }
    }
    c.section("small networks, longer sequences");
    let depth = if c.thorough { 6 } else { 4 };
    for (cfg, _) in cfgs.iter().zip(0..).filter(|(c, _)| c.widths == [1, 2] || c.widths == [2, 1, 2] || c.widths == [2, 1, 1, 2]).step_by(9) {
        let mut n = 6usize.pow(depth);
        while n > 0 {
            n -= 1;
            let word: Vec<usize> = (0..depth).map(|i| n / 6usize.pow(i) % 6).collect();
            c.case(|| format!("{} word {word:?}", cfg.label()), |c| c19_run(c, cfg, &word));
        }
    }
    c.section("batches with many rows");
    for cfg in few() {
        for b in tall(cfg.widths[0]) {
            c.case(|| format!("{} batch {b:?}", cfg.label()), |c| c19_batch(c, &cfg, &[5, 0], &b));
        }
    }
    c.section("wide layers");
    for cfg in wide() {
        for word in [[0, 5], [3, 4], [4, 2]] {
            c.case(|| format!("{} word {word:?}", cfg.label()), |c| c19_run(c, &cfg, &word));
        }
    }
    c.section("parameters of other shapes than those they replace");
    for funs in [vec![Fun::None], vec![Fun::Relu, Fun::None], vec![Fun::Relu, Fun::Relu, Fun::None]] {
        for mlp in [false, true] {
            if !mlp && funs.len() > 1 {
                continue;
            }
            let widths: Vec<Vec<usize>> = [1, 2, 3, 7].iter().flat_map(|&a| [1, 2, 5].map(|b| (0..=funs.len()).map(|i| if i % 2 == 0 { a } else { b }).collect())).collect();
            for from in &widths {
                for to in &widths {
                    c.case(
                        || format!("{} of widths {from:?}, then {to:?}, activations {funs:?}, every form of bias", if mlp { "Mlp" } else { "Linear" }),
                        |c| {
                            let form = |w: &[usize], k: usize, set: usize| {
                                let mut v = vec![];
                                for l in 0..funs.len() {
                                    v.push(rc(&vals(&[w[l], w[l + 1]], set + 2 * l)));
                                    let b = match k {
                                        0 => vec![w[l + 1]],
                                        1 => vec![1, w[l + 1]],
                                        2 => vec![1],
                                        3 => vec![1, 1],
                                        _ => vec![],
                                    };
                                    v.push(rc(&vals(&b, set + 2 * l + 1)));
                                }
                                v
                            };
                            for (i, j) in (0..5).flat_map(|i| (0..5).map(move |j| (i, j))) {
                                let a = form(from, i, 0);
                                let mut net = Net::build(mlp, &a, &funs);
                                for (w, p) in [(to, form(to, j, 3)), (from, form(from, j, 1)), (from, a)] {
                                    let cfg = Config { mlp, widths: w.clone(), funs: funs.clone(), row_bias: false };
                                    net.install(p.clone())?;
                                    listed(&net, &p)?;
                                    uses(&net, &cfg, &p, &[2, w[0]]).map_err(|e| format!("bias forms {i} then {j}: {e}"))?;
                                }
                                c.state(hash((mlp, funs.len(), from, to, i, j)));
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    c.section("the fields and the inherent list of a linear layer");
    for i in 1..=3 {
        for o in 1..=3 {
            c.case(
                || format!("Linear {i}x{o}"),
                |_| {
                    let (w, b) = (rc(&vals(&[i, o], 0)), rc(&vals(&[o], 1)));
                    let mut l = Linear::new(w.clone(), b.clone(), None);
                    for (w, b) in [(w, b), (rc(&vals(&[i, o], 2)), rc(&vals(&[o], 3)))] {
                        attempt(|| l.update_params(vec![w.clone(), b.clone()]))?;
                        let inherent: Vec<Rc> = attempt(|| Linear::params(&mut l))?.collect();
                        if inherent.len() != 2 {
                            return Err("inherent params() has not two entries".into());
                        }
                        for (k, (x, y)) in [(&l.weights, &w), (&l.bias, &b), (&inherent[0], &w), (&inherent[1], &b)].into_iter().enumerate() {
                            if !same_tensor(x, y, 3.0)? {
                                return Err(format!("handle {k} is another tensor"));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C20

fn stepped(net: &Net, old: &[Rc], pn: &[Nd<f64>], gn: &[Nd<f64>], size: f64) -> R {
    let new = net.params()?;
    if new.len() != pn.len() {
        return Err(format!("{} parameters after the step", new.len()));
    }
    for i in 0..pn.len() {
        let want = pn[i].zip(&gn[i], |p, g| p - size * g).unwrap();
        near(&format!("parameter {i} after the step"), &read(&new[i])?, &want)?;
        if let Some(g) = grad(&new[i])? {
            return Err(format!("parameter {i} starts with gradient {}", show(&g)));
        }
        near(&format!("old parameter {i}"), &read(&old[i])?, &pn[i])?;
        match grad(&old[i])? {
            Some(g) => near(&format!("gradient of old parameter {i}"), &g, &gn[i])?,
            None => return Err(format!("old parameter {i} lost its gradient")),
        }
    }
    // a pass on the new parameters leaves the old ones alone
    for (i, p) in new.iter().enumerate() {
        attempt(|| p.sum().backward()).map_err(|e| format!("backward on parameter {i}: {e}"))?;
        let g = grad(&old[i])?.ok_or("old parameter lost its gradient")?;
        near(&format!("gradient of old parameter {i} after a pass on the new one"), &g, &gn[i])?;
        p.zero_grad();
    }
    Ok(())
}

pub fn c20(c: &mut Ctx) {
    c.section("all networks, all step sizes, explicit gradients");
    let sizes = [0.5, 1.0, -0.25, 0.0, 2.0, 0.015625];
    for cfg in configs(c) {
        for size in sizes {
            c.case(
                || format!("{} step {size}", cfg.label()),
                |c| {
                    let pn = cfg.params(2);
                    let params: Vec<Rc> = pn.iter().map(rc).collect();
                    let mut net = Net::build(cfg.mlp, &params, &cfg.funs);
                    // every parameter its own, recognisable gradient, put together from two parts
                    let gn: Vec<Nd<f64>> = pn
                        .iter()
                        .enumerate()
                        .map(|(i, p)| Nd::new(&p.shape, (0..p.data.len()).map(|k| (10 * i + k + 1) as f64 * 0.5).collect()))
                        .collect();
                    for (p, g) in params.iter().zip(&gn) {
                        attempt(|| p.update_grad(rc(&g.map(|x| x - 1.0))))?;
                        attempt(|| p.update_grad(rc(&g.map(|_| 1.0))))?;
                    }
                    net.step(size).map_err(|e| format!("step failed: {e}"))?;
                    c.state(hash((cfg.label(), size.to_bits())));
                    stepped(&net, &params, &pn, &gn, size)?;
                    // a second step from the new parameters
                    let p2n: Vec<Nd<f64>> = pn.iter().zip(&gn).map(|(p, g)| p.zip(g, |p, g| p - size * g).unwrap()).collect();
                    let new = net.params()?;
                    for (i, p) in new.iter().enumerate() {
                        attempt(|| p.update_grad(rc(&gn[i].map(|x| -x))))?;
                    }
                    net.step(size).map_err(|e| format!("second step failed: {e}"))?;
                    let g2: Vec<Nd<f64>> = gn.iter().map(|g| g.map(|x| -x)).collect();
                    stepped(&net, &new, &p2n, &g2, size)?;
                    // and the forward pass uses them
                    let x = vals(&[2, cfg.widths[0]], 1);
                    let p3n: Vec<Nd<f64>> = p2n.iter().zip(&g2).map(|(p, g)| p.zip(g, |p, g| p - size * g).unwrap()).collect();
                    near("forward after two steps", &read(&net.forward(&rc(&x))?)?, &output(&cfg, &p3n, &x))
                },
            );
        }
    }
    c.section("gradients from backward passes");
    for cfg in configs(c) {
        for b in batches(cfg.widths[0]) {
            c.case(
                || format!("{} batch {b:?}, one or two passes, step", cfg.label()),
                |c| {
                    for passes in 1..=2 {
                        let pn = cfg.params(1);
                        let params: Vec<Rc> = pn.iter().map(rc).collect();
                        let mut net = Net::build(cfg.mlp, &params, &cfg.funs);
                        let mut t = Tape::default();
                        let ids: Vec<usize> = pn.iter().map(|p| t.leaf(p.clone())).collect();
                        let x = t.leaf(vals(&b, 2));
                        for _ in 0..passes {
                            let o = model_forward(&mut t, &ids, &cfg.funs, x).unwrap();
                            let s = t.push(Op::Dot, &[o, o]).unwrap();
                            let y = net.forward(&rc(t.val(x)))?;
                            let r = attempt(|| F::dot(&y, &y))?;
                            attempt(|| r.backward()).map_err(|e| format!("backward failed: {e}"))?;
                            t.backward(s);
                        }
                        // at a kink any subgradient may have been taken: use what the code shows
                        let mut gn = vec![];
                        for (i, p) in params.iter().enumerate() {
                            grad_matches(&format!("gradient {i}"), p, &t.nodes[ids[i]].grad)?;
                            gn.push(grad(p)?.ok_or("no gradient")?);
                        }
                        net.step(0.25).map_err(|e| format!("step failed: {e}"))?;
                        c.state(hash((cfg.label(), &b, passes)));
                        stepped(&net, &params, &pn, &gn, 0.25)?;
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("gradients from backward passes over many rows, and on wide layers");
    for (cfg, b) in few()
        .into_iter()
        .flat_map(|cfg| tall(cfg.widths[0]).into_iter().map(move |b| (cfg.clone(), b)))
        .chain(wide().into_iter().map(|cfg| (cfg.clone(), vec![2, cfg.widths[0]])))
    {
        c.case(
            || format!("{} batch {b:?}, pass, step", cfg.label()),
            |c| {
                let pn = cfg.params(1);
                let params: Vec<Rc> = pn.iter().map(rc).collect();
                let mut net = Net::build(cfg.mlp, &params, &cfg.funs);
                let mut t = Tape::default();
                let ids: Vec<usize> = pn.iter().map(|p| t.leaf(p.clone())).collect();
                let x = t.leaf(vals(&b, 2));
                let o = model_forward(&mut t, &ids, &cfg.funs, x).unwrap();
                let s = t.push(Op::Sum, &[o]).unwrap();
                let y = net.forward(&rc(t.val(x)))?;
                let r = attempt(|| y.sum())?;
                attempt(|| r.backward()).map_err(|e| format!("backward failed: {e}"))?;
                t.backward(s);
                let mut gn = vec![];
                for (i, p) in params.iter().enumerate() {
                    grad_matches(&format!("gradient {i}"), p, &t.nodes[ids[i]].grad)?;
                    gn.push(grad(p)?.ok_or("no gradient")?);
                }
                net.step(0.25).map_err(|e| format!("step failed: {e}"))?;
                c.state(hash((cfg.label(), &b)));
                stepped(&net, &params, &pn, &gn, 0.25)
            },
        );
    }
    c.section("step sizes of every magnitude");
    for cfg in configs(c).into_iter().step_by(5) {
        c.case(
            || format!("{} steps of plus and minus every power of two", cfg.label()),
            |c| {
                for zero in [false, true] {
                    // from zero every step of this kind is exact, from small dyadic numbers those nearby are
                    let range = if zero { -900..=900 } else { -40..=40i32 };
                    for e in range.step_by(if zero { 17 } else { 1 }) {
                        for size in [2f64.powi(e), -2f64.powi(e)] {
                            let pn: Vec<Nd<f64>> = cfg.params(1).into_iter().map(|p| if zero { p.map(|_| 0.0) } else { p }).collect();
                            let params: Vec<Rc> = pn.iter().map(rc).collect();
                            let mut net = Net::build(cfg.mlp, &params, &cfg.funs);
                            let gn: Vec<Nd<f64>> = pn.iter().enumerate().map(|(i, p)| Nd::new(&p.shape, (0..p.data.len()).map(|k| ((3 * i + k) % 11) as f64 - 5.0).collect())).collect();
                            for (p, g) in params.iter().zip(&gn) {
                                attempt(|| p.update_grad(rc(g)))?;
                            }
                            net.step(size).map_err(|e| format!("step {size:e} failed: {e}"))?;
                            c.state(hash((cfg.label(), size.to_bits(), zero)));
                            for (i, (p, g)) in pn.iter().zip(&gn).enumerate() {
                                same(&format!("parameter {i} after the step of {size:e}"), &read(&net.params()?[i])?, &p.zip(g, |p, g| p - size * g).unwrap())?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.section("parameters with equal values and equal gradients");
    const FEW: [f64; 3] = [0.0, 1.0, -0.5];
    let same_shapes = [vec![1, 1], vec![1, 2], vec![1, 3], vec![2, 2], vec![1, 1, 1], vec![2, 2, 2], vec![1, 1, 1, 1]];
    for (widths, row_bias) in same_shapes.into_iter().flat_map(|w| [(w.clone(), false), (w, true)]) {
        let cfg = Config { mlp: widths.len() > 2, funs: vec![Fun::None; widths.len() - 1], widths, row_bias };
        let n = cfg.params(0).len();
        let words_of = |n: usize, base: usize| -> Vec<Vec<usize>> {
            (0..base.pow(n as u32)).map(|k| (0..n).map(|i| k / base.pow(i as u32) % base).collect()).collect()
        };
        let base = if n <= 2 { 3 } else { 2 };
        for values in words_of(n, base) {
            c.case(
                || format!("{} all elements of parameter i are {values:?} of {FEW:?}, all such gradients", cfg.label()),
                |c| {
                    for grads in words_of(n, base) {
                        let pn: Vec<Nd<f64>> = cfg.params(0).iter().zip(&values).map(|(p, &v)| p.map(|_| FEW[v])).collect();
                        let gn: Vec<Nd<f64>> = pn.iter().zip(&grads).map(|(p, &g)| p.map(|_| FEW[g])).collect();
                        let params: Vec<Rc> = pn.iter().map(rc).collect();
                        for (p, g) in params.iter().zip(&gn) {
                            attempt(|| p.update_grad(rc(g)))?;
                        }
                        c.state(hash((cfg.label(), &values, &grads)));
                        for size in [0.5, 1.0] {
                            let mut net = Net::build(cfg.mlp, &params, &cfg.funs);
                            net.step(size).map_err(|e| format!("step failed: {e}"))?;
                            stepped(&net, &params, &pn, &gn, size).map_err(|e| format!("gradients {grads:?}: {e}"))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("parameters of every rank, gradients equal to them or not");
    for rank in 0..=6 {
        for shape in shapes(rank..=rank, if rank < 4 { &[1, 2, 3] } else { &[1, 2] }) {
            c.case(
                || format!("bias of shape {shape:?}, then a weight"),
                |c| {
                    for equal in 0..4 {
                        for swap in [false, true] {
                            let mut pn: Vec<Nd<f64>> = vec![vals(&[2, 2], 0), vals(&shape, 1)];
                            if swap {
                                pn.reverse();
                            }
                            let params: Vec<Rc> = pn.iter().map(rc).collect();
                            let mut net = Net::build(false, &params, &[Fun::None]);
                            let gn: Vec<Nd<f64>> = pn.iter().enumerate().map(|(i, p)| if equal >> i & 1 == 1 { p.clone() } else { vals(&p.shape, i + 2) }).collect();
                            for (p, g) in params.iter().zip(&gn) {
                                attempt(|| p.update_grad(rc(g)))?;
                            }
                            net.step(0.5).map_err(|e| format!("step failed: {e}"))?;
                            c.state(hash((&shape, equal, swap)));
                            stepped(&net, &params, &pn, &gn, 0.5)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("parameters of all sizes");
    for n in (1..=if c.thorough { 130 } else { 70 }).chain([127, 129, 255, 257, 300, 511, 513, 1000, 1023, 1025, 2049, 4097, 16_385]) {
        for w in [vec![1, n], vec![n, 1], vec![2, n, 1]] {
            let cfg = Config { mlp: w.len() > 2, funs: vec![Fun::None; w.len() - 1], widths: w, row_bias: false };
            c.case(
                || format!("{} step", cfg.label()),
                |_| {
                    let pn = cfg.params(0);
                    let params: Vec<Rc> = pn.iter().map(rc).collect();
                    let mut net = Net::build(cfg.mlp, &params, &cfg.funs);
                    let gn: Vec<Nd<f64>> = pn.iter().enumerate().map(|(i, p)| vals(&p.shape, i + 1)).collect();
                    for (p, g) in params.iter().zip(&gn) {
                        attempt(|| p.update_grad(rc(g)))?;
                    }
                    net.step(0.5).map_err(|e| format!("step failed: {e}"))?;
                    stepped(&net, &params, &pn, &gn, 0.5)
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C21

const ACTS: [&str; 10] = [
    "forward+backward on batch A",
    "forward+backward on batch B",
    "step",
    "reset all gradients",
    "backward again on the last loss",
    "forward only",
    "replace the parameters by shifted ones",
    "forward+backward through the first layer's weights only",
    "reset the first parameter",
    "put the parameters of the start back",
];

struct Train {
    cfg: Config,
    net: Net,
    t: Tape,
    /// every parameter there ever was: handle and node
    all: Vec<(Rc, usize)>,
    cur: Vec<(Rc, usize)>,
    start: Vec<(Rc, usize)>,
    loss: Option<(Rc, usize)>,
    outs: Vec<(Rc, usize)>,
}

impl Train {
    fn new(cfg: &Config) -> Train {
        let mut t = Tape::default();
        let cur: Vec<(Rc, usize)> = cfg.params(1).iter().map(|p| (rc(p), t.leaf(p.clone()))).collect();
        let handles: Vec<Rc> = cur.iter().map(|x| x.0.clone()).collect();
        Train {
            cfg: cfg.clone(),
            net: Net::build(cfg.mlp, &handles, &cfg.funs),
            t,
            all: cur.clone(),
            start: cur.clone(),
            cur,
            loss: None,
            outs: vec![],
        }
    }
    fn ids(&self) -> Vec<usize> {
        self.cur.iter().map(|x| x.1).collect()
    }
    fn pass(&mut self, shape: &[usize], set: usize, target: f64) -> R {
        let xn = vals(shape, set).map(|v| v * 0.5);
        let x = self.t.leaf(xn.clone());
        let ids = self.ids();
        let o = model_forward(&mut self.t, &ids, &self.cfg.funs, x).unwrap();
        let y = self.net.forward(&rc(&xn))?;
        near("forward", &read(&y)?, self.t.val(o))?;
        let tn = Nd::fill(&[1], target);
        let tg = self.t.leaf(tn.clone());
        let d = self.t.push(Op::Sub, &[o, tg]).unwrap();
        let l = self.t.push(Op::Dot, &[d, d]).unwrap();
        let dr = attempt(|| &y - &rc(&tn))?;
        let lr = attempt(|| F::dot(&dr, &dr))?;
        near("loss", &read(&lr)?, self.t.val(l))?;
        self.outs.push((y, o));
        attempt(|| lr.backward()).map_err(|e| format!("backward failed: {e}"))?;
        self.t.backward(l);
        self.loss = Some((lr, l));
        Ok(())
    }
    fn replace(&mut self, next: Vec<(Rc, usize)>) {
        self.all.extend(next.iter().cloned());
        self.cur = next;
    }
    fn run(&mut self, a: usize) -> R {
        let w = self.cfg.widths[0];
        match a {
            0 => self.pass(&[2, w], 0, 0.5)?,
            1 => self.pass(&[2, 1, w], 2, -1.0)?,
            2 => {
                let step = 0.125;
                if self.cur.iter().any(|(_, i)| self.t.nodes[*i].grad.is_none()) {
                    // nothing to step by: may be refused, then nothing may change
                    if self.net.step(step).is_err() {
                        return Ok(());
                    }
                    return Err("SKIP".into());
                }
                // a gradient that depends on the choice at a kink has no unique reference
                let free = |g: &[Nd<f64>; 4]| g.iter().any(|k| k.data.iter().zip(&g[0].data).any(|(&a, &b)| !close(a, b)));
                if self.cur.iter().any(|(_, i)| free(self.t.nodes[*i].grad.as_ref().unwrap())) {
                    return Err("SKIP".into());
                }
                self.net.step(step).map_err(|e| format!("step failed: {e}"))?;
                let new = self.net.params()?;
                if new.len() != self.cur.len() {
                    return Err("a step changed the number of parameters".into());
                }
                let mut next = vec![];
                for (h, (_, i)) in new.into_iter().zip(&self.cur) {
                    let n = &self.t.nodes[*i];
                    let v = n.val.zip(&n.grad.as_ref().unwrap()[0], |p, g| p - step * g).unwrap();
                    next.push((h, self.t.leaf(v)));
                }
                self.replace(next);
            }
            3 => {
                for (h, i) in &self.cur {
                    attempt(|| h.zero_grad())?;
                    self.t.zero(*i);
                }
            }
            4 => {
                if let Some((r, l)) = self.loss.clone() {
                    attempt(|| r.backward()).map_err(|e| format!("backward failed: {e}"))?;
                    self.t.backward(l);
                }
            }
            5 => {
                let xn = vals(&[1, w], 3);
                let mut t = self.t.clone();
                let x = t.leaf(xn.clone());
                let o = model_forward(&mut t, &self.ids(), &self.cfg.funs, x).unwrap();
                near("forward", &read(&self.net.forward(&rc(&xn))?)?, t.val(o))?;
            }
            6 => {
                let mut next = vec![];
                for (_, i) in &self.cur {
                    let v = self.t.val(*i).map(|x| x + 0.25);
                    next.push((rc(&v), self.t.leaf(v)));
                }
                self.net.install(next.iter().map(|x| x.0.clone()).collect())?;
                self.replace(next);
            }
            7 => {
                let (h, i) = self.cur[0].clone();
                let n = self.t.push(Op::Tanh, &[i]).unwrap();
                let s = self.t.push(Op::Sum, &[n]).unwrap();
                let r = attempt(|| F::tanh(h.clone()).sum())?;
                attempt(|| r.backward())?;
                self.t.backward(s);
            }
            8 => {
                let (h, i) = &self.cur[0];
                attempt(|| h.zero_grad())?;
                self.t.zero(*i);
            }
            _ => {
                self.net.install(self.start.iter().map(|x| x.0.clone()).collect())?;
                self.cur = self.start.clone();
            }
        }
        Ok(())
    }
    fn check(&self) -> R {
        let listed = self.net.params()?;
        for (k, ((h, i), l)) in self.cur.iter().zip(&listed).enumerate() {
            near(&format!("parameter {k}"), &read(l)?, self.t.val(*i))?;
            near(&format!("parameter {k}"), &read(h)?, self.t.val(*i))?;
        }
        for (k, (h, i)) in self.all.iter().enumerate() {
            near(&format!("parameter {k} of the history"), &read(h)?, self.t.val(*i))?;
            grad_matches(&format!("parameter {k} of the history"), h, &self.t.nodes[*i].grad)?;
        }
        for (k, (h, i)) in self.outs.iter().enumerate() {
            near(&format!("output {k}"), &read(h)?, self.t.val(*i))?;
            grad_matches(&format!("output {k}"), h, &self.t.nodes[*i].grad)?;
        }
        Ok(())
    }
}

fn c21_run(c: &mut Ctx, cfg: &Config, word: &[usize]) -> R {
    let mut tr = Train::new(cfg);
    for &a in word {
        match tr.run(a) {
            Err(e) if e == "SKIP" => return Ok(()),
            r => r.map_err(|e| format!("{}: {e}", ACTS[a]))?,
        }
        // values can grow without bound; stop where doubles no longer resolve the comparison
        if tr.all.iter().any(|(_, i)| tr.t.val(*i).data.iter().any(|x| x.abs() > 1e12)) {
            return Ok(());
        }
        tr.check().map_err(|e| format!("after {}: {e}", ACTS[a]))?;
        c.state(tr.t.digest());
    }
    Ok(())
}

pub fn c21(c: &mut Ctx) {
    let nets = [
        Config { mlp: false, widths: vec![2, 1], funs: vec![Fun::None], row_bias: false },
        Config { mlp: true, widths: vec![2, 2, 1], funs: vec![Fun::Tanh, Fun::None], row_bias: false },
        Config { mlp: true, widths: vec![1, 2, 1, 2], funs: vec![Fun::Relu, Fun::None, Fun::Tanh], row_bias: true },
        Config { mlp: false, widths: vec![2, 3], funs: vec![Fun::Abs], row_bias: true },
    ];
    let depth = if c.thorough { 5 } else { 4 };
    for (k, cfg) in nets.iter().enumerate() {
        c.section(&format!("all training histories on {}", cfg.label()));
        let d = if k == 0 { depth + 1 } else { depth };
        let n = ACTS.len();
        for len in 1..=d {
            for code in 0..n.pow(len as u32) {
                if !c.mine() {
                    c.skip();
                    continue;
                }
                let word: Vec<usize> = (0..len).map(|i| code / n.pow(i as u32) % n).collect();
                c.case(
                    || format!("{}: {}", cfg.label(), word.iter().map(|&a| ACTS[a]).collect::<Vec<_>>().join("; ")),
                    |c| c21_run(c, cfg, &word),
                );
            }
        }
    }
    c.section("long regular training");
    for cfg in configs(c).into_iter().step_by(5) {
        for (label, cycle) in [
            ("pass, step", vec![0usize, 2]),
            ("pass, pass, step", vec![0, 1, 2]),
            ("reset, pass, step, old loss again", vec![3, 1, 2, 4]),
        ] {
            c.case(
                || format!("{}: 12 times ({label})", cfg.label()),
                |c| {
                    let word: Vec<usize> = (0..12).flat_map(|_| cycle.clone()).collect();
                    c21_run(c, &cfg, &word)
                },
            );
        }
    }
}
