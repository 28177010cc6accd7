//! Access to the code under test, through its public API only.
use crate::ctx::{attempt, did};
use crate::model::num_like::El;
use crate::model::*;
use rust_light::tensor::*;

pub fn rc<T: El>(n: &Nd<T>) -> RcTensor<T> {
    did(1);
    RcTensor::new(n.data.clone(), n.shape.clone())
}
pub fn raw<T: El>(n: &Nd<T>) -> RawTensor<T> {
    did(1);
    RawTensor::new(n.data.clone(), n.shape.clone())
}

/// Shape and elements as the public API shows them.
pub fn read<V: TensorLike>(v: &V) -> Result<Nd<V::Elem>, String>
where
    V::Elem: El,
{
    let shape = v.shape().to_vec();
    if shape.len() > 70 || size(&shape) > 5_000_000 {
        return Err(format!("absurd shape {shape:?}"));
    }
    let mut data = Vec::with_capacity(size(&shape));
    for i in indices(&shape) {
        match v.get(&i) {
            Ok(&x) => data.push(x),
            Err(e) => return Err(format!("get({i:?}) of shape {shape:?} refused: {e}")),
        }
    }
    if v.count() != data.len() {
        return Err(format!("count() is {} for shape {shape:?}", v.count()));
    }
    Ok(Nd { shape, data })
}

/// The gradient as the public API shows it; `None` when there is none.
pub fn grad<T: El>(t: &RcTensor<T>) -> Result<Option<Nd<T>>, String> {
    match attempt(|| t.grad()) {
        Ok(g) => read(&g).map(Some),
        Err(e) if e.contains("None") => Ok(None),
        Err(e) => Err(format!("reading the gradient failed: {e}")),
    }
}

pub fn same<T: El>(what: &str, got: &Nd<T>, want: &Nd<T>) -> Result<(), String> {
    // NaN stands for NaN
    let nan = |x: &T| *x != *x;
    if got == want
        || (got.shape == want.shape
            && got.data.len() == want.data.len()
            && got.data.iter().zip(&want.data).all(|(a, b)| a == b || (nan(a) && nan(b))))
    {
        Ok(())
    } else {
        Err(format!("{what}: got {} want {}", show(got), show(want)))
    }
}

pub fn expect<V: TensorLike>(what: &str, got: &V, want: &Nd<V::Elem>) -> Result<(), String>
where
    V::Elem: El,
{
    same(what, &read(got).map_err(|e| format!("{what}: {e}"))?, want)
}

/// `got` must be the wanted tensor, or a refusal when nothing is wanted.
pub fn expect_or_refusal<V: TensorLike>(
    what: &str,
    got: Result<V, String>,
    want: &Option<Nd<V::Elem>>,
) -> Result<(), String>
where
    V::Elem: El,
{
    match (got, want) {
        (Ok(v), Some(w)) => expect(what, &v, w),
        (Err(_), None) => Ok(()),
        (Ok(v), None) => Err(format!(
            "{what}: should be refused, but gave {:?}",
            read(&v).map(|n| show(&n))
        )),
        (Err(e), Some(w)) => Err(format!("{what}: refused ({e}), want {}", show(w))),
    }
}

pub fn near(what: &str, got: &Nd<f64>, want: &Nd<f64>) -> Result<(), String> {
    if got.shape == want.shape && got.data.iter().zip(&want.data).all(|(&a, &b)| close(a, b)) {
        Ok(())
    } else {
        Err(format!("{what}: got {} want {}", show(got), show(want)))
    }
}

/// Compare a real gradient with the model's, leaving out elements that depend on the choice of
/// subgradient at a kink. No model gradient: absent or all zero is accepted.
pub fn grad_matches(
    what: &str,
    t: &RcTensor<f64>,
    want: &Option<[Nd<f64>; 4]>,
) -> Result<(), String> {
    let got = grad(t).map_err(|e| format!("{what}: {e}"))?;
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), None) if g.data.iter().all(|&x| x == 0.0) => Ok(()),
        (Some(g), None) => Err(format!("{what}: has gradient {} want none", show(&g))),
        (None, Some(w)) => Err(format!("{what}: has no gradient, want {}", show(&w[0]))),
        (Some(g), Some(w)) => {
            if g.shape != w[0].shape {
                return Err(format!(
                    "{what}: gradient has shape {:?} want {:?}",
                    g.shape, w[0].shape
                ));
            }
            for p in 0..g.data.len() {
                let free = w.iter().any(|k| !close(k.data[p], w[0].data[p]));
                if !free && !close(g.data[p], w[0].data[p]) {
                    return Err(format!(
                        "{what}: gradient element {p} is {} want {} (got {} want {})",
                        g.data[p],
                        w[0].data[p],
                        show(&g),
                        show(&w[0])
                    ));
                }
            }
            Ok(())
        }
    }
}

/// Apply an operation to real tensors; `form` picks one of the equivalent operator forms.
pub fn real_op(op: Op, a: &RcTensor<f64>, b: Option<&RcTensor<f64>>, form: usize) -> RcTensor<f64> {
    use rust_light::tensor::functional as F;
    use std::ops::Neg;
    match op {
        Op::Leaf => unreachable!(),
        Op::Add => match form % 2 {
            0 => a + b.unwrap(),
            _ => a.clone() + b.unwrap().clone(),
        },
        Op::Sub => match form % 3 {
            0 => a - b.unwrap(),
            1 => a.clone() - b.unwrap().clone(),
            _ => a.clone() - b.unwrap(),
        },
        Op::Neg => a.neg(),
        Op::Sum => a.sum(),
        Op::Dot => F::dot(a, b.unwrap()),
        Op::Bmm => match form % 2 {
            0 => a.bmm(b.unwrap()),
            _ => a.bmm_rc(b.unwrap()),
        },
        Op::Abs => a.abs(),
        Op::Relu => F::relu(a.clone()),
        Op::Tanh => F::tanh(a.clone()),
    }
}

pub fn view_of<V: TensorLike>(v: &V, ranges: &[(usize, usize)]) -> TensorView<V::Elem> {
    v.slice(
        ranges
            .iter()
            .map(|&(s, e)| SliceRange::new(s, e))
            .collect(),
    )
}

/// All shapes with the given ranks and extents.
pub fn shapes(ranks: std::ops::RangeInclusive<usize>, extents: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for r in ranks {
        let mut level: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..r {
            level = level
                .into_iter()
                .flat_map(|s| {
                    extents.iter().map(move |&e| {
                        let mut t = s.clone();
                        t.push(e);
                        t
                    })
                })
                .collect();
        }
        out.extend(level);
    }
    out
}

/// Distinct elements 1, 2, 3, …
pub fn iota<T: El>(shape: &[usize], from: i64) -> Nd<T> {
    Nd::new(shape, (0..size(shape)).map(|i| T::of(from + i as i64)).collect())
}

/// Elements that tell positions apart and stay small: a fixed pattern without symmetry.
pub fn pattern<T: El>(shape: &[usize], seed: usize) -> Nd<T> {
    Nd::new(
        shape,
        (0..size(shape))
            .map(|i| {
                let k = (i * 7 + seed * 5 + (i * i) % 11 + (i / 3) * 3) % 13;
                if T::SIGNED {
                    T::of(k as i64 - 6)
                } else {
                    T::of(k as i64 % 4)
                }
            })
            .collect(),
    )
}

/// Shapes of high rank: two axes that are longer than one, at every pair of the first, last and middle places.
pub fn high_rank(ranks: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for &r in ranks {
        let mut at: Vec<usize> = [0, 1, 2, 7, 8, 9, 15, 16]
            .into_iter()
            .chain([r / 2])
            .chain([1, 2, 3, 7, 8, 9, 10, 16, 17].iter().filter_map(|&k| r.checked_sub(k)))
            .filter(|&p| p < r)
            .collect();
        at.sort();
        at.dedup();
        for (k, &p) in at.iter().enumerate() {
            for &q in &at[k + 1..] {
                let mut s = vec![1; r];
                s[p] = 2;
                s[q] = 3;
                out.push(s);
            }
        }
    }
    out
}

pub fn windows(shape: &[usize]) -> Vec<Vec<(usize, usize)>> {
    let mut level: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for &d in shape {
        let mut next = vec![];
        for w in &level {
            for s in 0..=d {
                for e in s..=d {
                    let mut v = w.clone();
                    v.push((s, e));
                    next.push(v);
                }
            }
        }
        level = next;
    }
    level
}

pub fn vals(shape: &[usize], set: usize) -> Nd<f64> {
    const A: [f64; 9] = [1.5, -2.0, 0.5, -1.0, 3.0, -0.25, 2.0, -3.0, 0.75];
    const B: [f64; 7] = [-0.5, 2.0, 1.25, -1.5, 4.0, 0.5, -2.5];
    const C: [f64; 8] = [2.0, 1.0, -3.0, 0.25, -1.25, 5.0, -0.5, 1.75];
    const D: [f64; 5] = [-1.0, -0.5, 3.5, 2.25, -4.0];
    Nd::new(
        shape,
        (0..size(shape))
            .map(|i| match set % 4 {
                0 => A[i % 9],
                1 => B[i % 7],
                2 => C[i % 8],
                _ => D[i % 5],
            })
            .collect(),
    )
}

/// `a == b`; `!=` has to be its exact opposite.
pub fn eq<A: PartialEq<B>, B>(a: &A, b: &B) -> bool {
    let (e, n) = (*a == *b, *a != *b);
    assert!(e != n, "== and != both gave {e}");
    e
}
