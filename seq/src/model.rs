//! The reference model: n-dimensional arrays and a reverse-mode tape, written for plainness.
//! Nothing here calls the code under test.
use self::num_like::El;
use std::fmt::Debug;

pub mod num_like {
    use rust_light::tensor::Numeric;
    use std::ops::{Add, Mul, Sub};
    pub trait El:
        Numeric
        + Add<Output = Self>
        + Mul<Output = Self>
        + Sub<Output = Self>
        + Default
        + 'static
    {
        const NAME: &'static str;
        const SIGNED: bool;
        fn of(i: i64) -> Self;
        fn bits(self) -> u64;
    }
    macro_rules! el {
        ($($t:ty, $s:expr, $b:expr);+) => {$(
            impl El for $t {
                const NAME: &'static str = stringify!($t);
                const SIGNED: bool = $s;
                fn of(i: i64) -> Self { i as $t }
                fn bits(self) -> u64 { let f: fn($t) -> u64 = $b; f(self) }
            }
        )+};
    }
    el!(usize, false, |x| x as u64; u8, false, |x| x as u64; u32, false, |x| x as u64;
        u64, false, |x| x; u128, false, |x| x as u64; i8, true, |x| x as u64;
        i32, true, |x| x as u64; i64, true, |x| x as u64; i128, true, |x| x as u64;
        f32, true, |x: f32| x.to_bits() as u64; f64, true, |x: f64| x.to_bits());
}

#[derive(Clone, Debug, PartialEq)]
pub struct Nd<T> {
    pub shape: Vec<usize>,
    pub data: Vec<T>,
}

pub fn size(shape: &[usize]) -> usize {
    shape.iter().product()
}

/// All valid indices of a shape, row-major.
pub fn indices(shape: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for n in 0..size(shape) {
        let mut rest = n;
        let mut idx = vec![0; shape.len()];
        for a in (0..shape.len()).rev() {
            idx[a] = rest % shape[a];
            rest /= shape[a];
        }
        out.push(idx);
    }
    out
}

/// Row-major position of an index under the broadcast indexing rules; None if it names nothing.
pub fn position(shape: &[usize], index: &[usize]) -> Option<usize> {
    let mut pos = 0usize;
    for (a, &dim) in shape.iter().enumerate() {
        let from_end = shape.len() - a; // 1 = last axis
        let coord = if from_end > index.len() {
            if dim != 1 {
                return None;
            }
            0
        } else if dim == 1 {
            0
        } else {
            index[index.len() - from_end]
        };
        if coord >= dim {
            return None;
        }
        pos = pos * dim + coord;
    }
    Some(pos)
}

pub fn broadcast_shape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut out = vec![0; n];
    for i in 0..n {
        let da = if i < n - a.len() { 1 } else { a[i - (n - a.len())] };
        let db = if i < n - b.len() { 1 } else { b[i - (n - b.len())] };
        out[i] = if da == db {
            da
        } else if da == 1 {
            db
        } else if db == 1 {
            da
        } else {
            return None;
        };
    }
    Some(out)
}

impl<T: El> Nd<T> {
    pub fn new(shape: &[usize], data: Vec<T>) -> Nd<T> {
        assert_eq!(size(shape), data.len(), "harness: bad Nd");
        Nd {
            shape: shape.to_vec(),
            data,
        }
    }
    pub fn fill(shape: &[usize], v: T) -> Nd<T> {
        Nd::new(shape, vec![v; size(shape)])
    }
    pub fn at(&self, index: &[usize]) -> T {
        self.data[position(&self.shape, index).unwrap()]
    }
    pub fn from_fn(shape: &[usize], f: impl Fn(&[usize]) -> T) -> Nd<T> {
        Nd::new(shape, indices(shape).iter().map(|i| f(i)).collect())
    }
    pub fn map(&self, f: impl Fn(T) -> T) -> Nd<T> {
        Nd::new(&self.shape, self.data.iter().map(|&x| f(x)).collect())
    }
    pub fn zip(&self, o: &Nd<T>, f: impl Fn(T, T) -> T) -> Option<Nd<T>> {
        let s = broadcast_shape(&self.shape, &o.shape)?;
        Some(Nd::from_fn(&s, |i| f(self.at(i), o.at(i))))
    }
    pub fn add(&self, o: &Nd<T>) -> Option<Nd<T>> {
        self.zip(o, |x, y| x + y)
    }
    pub fn sub(&self, o: &Nd<T>) -> Option<Nd<T>> {
        self.zip(o, |x, y| x - y)
    }
    pub fn mul(&self, o: &Nd<T>) -> Option<Nd<T>> {
        if self.shape == o.shape || self.shape.is_empty() || o.shape.is_empty() {
            self.zip(o, |x, y| x * y)
        } else {
            None
        }
    }
    pub fn sum(&self) -> T {
        self.data.iter().fold(T::of(0), |a, &x| a + x)
    }
    pub fn dot(&self, o: &Nd<T>) -> Option<Nd<T>> {
        if self.shape != o.shape {
            return None;
        }
        let v = self
            .data
            .iter()
            .zip(&o.data)
            .fold(T::of(0), |a, (&x, &y)| a + x * y);
        Some(Nd::new(&[1], vec![v]))
    }
    pub fn bmm(&self, o: &Nd<T>) -> Option<Nd<T>> {
        let r = self.shape.len();
        if !(2..=3).contains(&r) || o.shape.len() != 2 || self.shape[r - 1] != o.shape[0] {
            return None;
        }
        let (k, n) = (o.shape[0], o.shape[1]);
        let mut shape = self.shape.clone();
        shape[r - 1] = n;
        let rows = size(&self.shape[..r - 1]);
        let mut data = vec![T::of(0); rows * n];
        for i in 0..rows {
            for j in 0..n {
                let mut v = T::of(0);
                for l in 0..k {
                    v = v + self.data[i * k + l] * o.data[l * n + j];
                }
                data[i * n + j] = v;
            }
        }
        Some(Nd { shape, data })
    }
    pub fn window(&self, ranges: &[(usize, usize)]) -> Option<Nd<T>> {
        if ranges.len() != self.shape.len() {
            return None;
        }
        let mut shape = vec![];
        for (&(s, e), &d) in ranges.iter().zip(&self.shape) {
            if s > e || e > d {
                return None;
            }
            shape.push(e - s);
        }
        let data = indices(&shape)
            .iter()
            .map(|i| {
                let mut pos = 0;
                for a in 0..i.len() {
                    pos = pos * self.shape[a] + ranges[a].0 + i[a];
                }
                self.data[pos]
            })
            .collect();
        Some(Nd { shape, data })
    }
    pub fn reshape(&self, shape: &[usize]) -> Option<Nd<T>> {
        if size(shape) != self.data.len() {
            return None;
        }
        Some(Nd::new(shape, self.data.clone()))
    }
    pub fn digest(&self) -> u64 {
        crate::ctx::hash((
            &self.shape,
            self.data.iter().map(|x| x.bits()).collect::<Vec<_>>(),
        ))
    }
}

/// Sum `g` (of the broadcast shape) back onto `shape`.
pub fn unbroadcast(g: &Nd<f64>, shape: &[usize]) -> Nd<f64> {
    let mut out = Nd::fill(shape, 0.0);
    for i in indices(&g.shape) {
        let p = position(shape, &i).unwrap();
        out.data[p] += g.at(&i);
    }
    out
}

pub fn transpose(m: &Nd<f64>) -> Nd<f64> {
    Nd::from_fn(&[m.shape[1], m.shape[0]], |i| m.at(&[i[1], i[0]]))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Leaf,
    Add,
    Sub,
    Neg,
    Sum,
    Dot,
    Bmm,
    Abs,
    Relu,
    Tanh,
}

pub const UNARY: [Op; 5] = [Op::Neg, Op::Sum, Op::Abs, Op::Relu, Op::Tanh];
pub const BINARY: [Op; 4] = [Op::Add, Op::Sub, Op::Dot, Op::Bmm];

/// Derivative of relu and of abs at zero: any subgradient is a correct answer there.
pub const KINKS: [(f64, f64); 4] = [(1.0, 1.0), (0.0, 0.0), (0.0, -1.0), (0.5, 0.0)];

#[derive(Clone, Debug)]
pub struct Node {
    pub op: Op,
    pub ins: Vec<usize>,
    pub val: Nd<f64>,
    /// accumulated gradient, under each convention of KINKS
    pub grad: Option<[Nd<f64>; 4]>,
}

#[derive(Clone, Debug, Default)]
pub struct Tape {
    pub nodes: Vec<Node>,
}

pub fn apply(op: Op, a: &Nd<f64>, b: Option<&Nd<f64>>) -> Option<Nd<f64>> {
    Some(match op {
        Op::Leaf => return None,
        Op::Add => a.add(b?)?,
        Op::Sub => a.sub(b?)?,
        Op::Neg => a.map(|x| -x),
        Op::Sum => Nd::new(&[], vec![a.sum()]),
        Op::Dot => a.dot(b?)?,
        Op::Bmm => a.bmm(b?)?,
        Op::Abs => a.map(|x| x.abs()),
        Op::Relu => a.map(|x| if x > 0.0 { x } else { 0.0 }),
        Op::Tanh => a.map(|x| x.tanh()),
    })
}

impl Tape {
    pub fn leaf(&mut self, val: Nd<f64>) -> usize {
        self.nodes.push(Node {
            op: Op::Leaf,
            ins: vec![],
            val,
            grad: None,
        });
        self.nodes.len() - 1
    }
    pub fn push(&mut self, op: Op, ins: &[usize]) -> Option<usize> {
        let a = &self.nodes[ins[0]].val;
        let b = ins.get(1).map(|&i| &self.nodes[i].val);
        let val = apply(op, a, b)?;
        self.nodes.push(Node {
            op,
            ins: ins.to_vec(),
            val,
            grad: None,
        });
        Some(self.nodes.len() - 1)
    }
    pub fn val(&self, i: usize) -> &Nd<f64> {
        &self.nodes[i].val
    }

    /// The nodes `root` was computed from (without `root`).
    pub fn ancestors(&self, root: usize) -> Vec<usize> {
        let mut seen = vec![false; self.nodes.len()];
        let mut stack = self.nodes[root].ins.clone();
        while let Some(i) = stack.pop() {
            if !seen[i] {
                seen[i] = true;
                stack.extend(self.nodes[i].ins.iter().copied());
            }
        }
        (0..seen.len()).filter(|&i| seen[i]).collect()
    }

    /// Derivative of `root` (one element) with respect to every node it depends on.
    pub fn derivative(&self, root: usize, kink: (f64, f64)) -> Vec<Option<Nd<f64>>> {
        let mut d: Vec<Option<Nd<f64>>> = vec![None; self.nodes.len()];
        d[root] = Some(Nd::fill(&self.nodes[root].val.shape, 1.0));
        for i in (0..=root).rev() {
            let Some(g) = d[i].clone() else { continue };
            let n = &self.nodes[i];
            let v = |k: usize| &self.nodes[n.ins[k]].val;
            let contributions: Vec<Nd<f64>> = match n.op {
                Op::Leaf => vec![],
                Op::Add => vec![unbroadcast(&g, &v(0).shape), unbroadcast(&g, &v(1).shape)],
                Op::Sub => vec![
                    unbroadcast(&g, &v(0).shape),
                    unbroadcast(&g.map(|x| -x), &v(1).shape),
                ],
                Op::Neg => vec![g.map(|x| -x)],
                Op::Sum => vec![Nd::fill(&v(0).shape, g.data[0])],
                Op::Dot => vec![v(1).map(|x| x * g.data[0]), v(0).map(|x| x * g.data[0])],
                Op::Bmm => {
                    let (a, b) = (v(0), v(1));
                    let r = a.shape.len();
                    let rows = size(&a.shape[..r - 1]);
                    let ga = g
                        .bmm(&transpose(b))
                        .unwrap()
                        .reshape(&a.shape)
                        .unwrap();
                    let flat_a = a.reshape(&[rows, a.shape[r - 1]]).unwrap();
                    let flat_g = g.reshape(&[rows, b.shape[1]]).unwrap();
                    let gb = transpose(&flat_a).bmm(&flat_g).unwrap();
                    vec![ga, gb]
                }
                Op::Abs => vec![g
                    .zip(v(0), |g, x| {
                        g * if x > 0.0 {
                            1.0
                        } else if x < 0.0 {
                            -1.0
                        } else {
                            kink.1
                        }
                    })
                    .unwrap()],
                Op::Relu => vec![g
                    .zip(v(0), |g, x| {
                        g * if x > 0.0 {
                            1.0
                        } else if x < 0.0 {
                            0.0
                        } else {
                            kink.0
                        }
                    })
                    .unwrap()],
                Op::Tanh => vec![g
                    .zip(v(0), |g, x| g * (1.0 - x.tanh() * x.tanh()))
                    .unwrap()],
            };
            for (&j, c) in n.ins.iter().zip(contributions) {
                d[j] = Some(match d[j].take() {
                    None => c,
                    Some(old) => old.add(&c).unwrap(),
                });
            }
        }
        d[root] = None;
        d
    }

    pub fn update(&mut self, i: usize, g: [Nd<f64>; 4]) {
        let slot = &mut self.nodes[i].grad;
        *slot = Some(match slot.take() {
            None => g,
            Some(old) => std::array::from_fn(|k| old[k].add(&g[k]).unwrap()),
        });
    }
    pub fn update_plain(&mut self, i: usize, g: &Nd<f64>) {
        self.update(i, std::array::from_fn(|_| g.clone()));
    }
    pub fn zero(&mut self, i: usize) {
        self.nodes[i].grad = None;
    }

    pub fn backward(&mut self, root: usize) {
        let ds: Vec<_> = KINKS.iter().map(|&k| self.derivative(root, k)).collect();
        for i in 0..self.nodes.len() {
            if ds[0][i].is_some() {
                let g = std::array::from_fn(|k| ds[k][i].clone().unwrap());
                self.update(i, g);
            }
        }
    }

    pub fn digest(&self) -> u64 {
        crate::ctx::hash(
            self.nodes
                .iter()
                .map(|n| (n.val.digest(), n.grad.as_ref().map(|g| g[0].digest())))
                .collect::<Vec<_>>(),
        )
    }
}

pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0f64).max(a.abs()).max(b.abs())
}

pub fn show<T: Debug>(n: &Nd<T>) -> String {
    let s = format!("{:?}{:?}", n.shape, n.data);
    if s.len() > 300 {
        format!("{}…", &s[..s.char_indices().take(300).last().unwrap().0])
    } else {
        s
    }
}
