//! C01–C11: values, shapes and refusals of the operations, for all shapes and indices in bounds.
use crate::ctx::*;
use crate::model::num_like::El;
use crate::model::*;
use crate::real::*;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;
use std::ops::Neg;

type R = Result<(), String>;

// ---------------------------------------------------------------- C01

fn all_indices(len: usize, coords: &[usize]) -> Vec<Vec<usize>> {
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        level = level
            .into_iter()
            .flat_map(|s| {
                coords.iter().map(move |&e| {
                    let mut t = s.clone();
                    t.push(e);
                    t
                })
            })
            .collect();
    }
    level
}

fn read_one<V: TensorLike>(v: &V, n: &Nd<V::Elem>, idx: &Vec<usize>) -> R
where
    V::Elem: El,
{
    let want = position(&n.shape, idx).map(|p| n.data[p]);
    let got = attempt(|| v.get(idx).map(|&x| x));
    match (got, want) {
        (Ok(Ok(g)), Some(w)) if g == w => Ok(()),
        (Ok(Err(_)), None) => Ok(()),
        (Ok(Ok(g)), w) => Err(format!(
            "shape {:?}: get({idx:?}) gave {g:?}, want {w:?}",
            n.shape
        )),
        (Ok(Err(e)), w) => Err(format!(
            "shape {:?}: get({idx:?}) refused ({e}), want {w:?}",
            n.shape
        )),
        (Err(p), w) => Err(format!(
            "shape {:?}: get({idx:?}) crashed ({p}), want {w:?}",
            n.shape
        )),
    }
}

fn c01_shape<T: El>(c: &mut Ctx, shape: &[usize], idxs: &[Vec<usize>]) -> R {
    let n: Nd<T> = iota(shape, 1);
    let (a, b) = (raw(&n), rc(&n));
    c.state(hash((T::NAME, shape)));
    for idx in idxs {
        read_one(&a, &n, idx)?;
        read_one(&b, &n, idx)?;
        if let Some(p) = position(shape, idx) {
            if a[idx] != n.data[p] || b[idx] != n.data[p] {
                return Err(format!("shape {shape:?}: [{idx:?}] is not element {p}"));
            }
        }
        c.state(hash((shape, idx)));
    }
    if let Some(&first) = n.data.first() {
        if *a.get_first_elem() != first || *b.get_first_elem() != first {
            return Err(format!("shape {shape:?}: first element is wrong"));
        }
        if shape.is_empty() && (a.elem() != first || b.elem() != first) {
            return Err("elem() of a scalar is wrong".into());
        }
    }
    Ok(())
}

pub fn c01(c: &mut Ctx) {
    const M: usize = usize::MAX;
    let maxrank = if c.thorough { 5 } else { 4 };
    c.section("small shapes x all index vectors");
    for shape in shapes(0..=maxrank, &[0, 1, 2, 3]) {
        if shape.len() == 5 && shape.contains(&0) {
            continue;
        }
        for len in 0..=shape.len() + 2 {
            let coords: &[usize] = match len {
                0..=4 => &[0, 1, 2, 3, M],
                5 => &[0, 1, 2, 3],
                6 => &[0, 1, 3],
                _ => &[0, 2],
            };
            c.case(
                || format!("i64 shape {shape:?}, all indices of length {len} over {coords:?}"),
                |c| c01_shape::<i64>(c, &shape, &all_indices(len, coords)),
            );
        }
    }
    c.section("rank 5 and 6, extents 1 and 2");
    for shape in shapes(5..=6, &[1, 2]) {
        for len in shape.len() - 2..=shape.len() + 1 {
            c.case(
                || format!("i64 shape {shape:?}, all indices of length {len} over 0,1,2"),
                |c| c01_shape::<i64>(c, &shape, &all_indices(len, &[0, 1, 2])),
            );
        }
    }
    c.section("rank 7 and 8, extents 1 and 2");
    for shape in shapes(7..=8, &[1, 2]) {
        for len in shape.len() - 1..=shape.len() + 1 {
            c.case(
                || format!("i64 shape {shape:?}, all indices of length {len} over 0,1"),
                |c| c01_shape::<i64>(c, &shape, &all_indices(len, &[0, 1])),
            );
        }
    }
    c.section("high ranks");
    for shape in high_rank(&[9, 10, 12, 13, 16, 17, 18, 24, 32, 33, 64, 65]).into_iter().chain([vec![2; 9], vec![2; 10], vec![2; 12]]) {
        c.case(
            || format!("i64 shape {shape:?}, all its indices and those around them"),
            |c| {
                let inside = indices(&shape);
                let mut idxs = inside.clone();
                for (k, i) in inside.iter().enumerate() {
                    if k % (1 + inside.len() / 8) != 0 {
                        continue;
                    }
                    // one coordinate changed: stretched when its axis has one element, outside otherwise
                    for a in 0..shape.len() {
                        for v in [1, shape[a], 5, M] {
                            let mut j = i.clone();
                            j[a] = v;
                            idxs.push(j);
                        }
                    }
                    // leading coordinates left out, and too many of them
                    for cut in [1, 2, shape.len() - 8, shape.len() / 2, shape.len() - 1] {
                        idxs.push(i[cut..].to_vec());
                    }
                    for more in [1, 2, 8, 10] {
                        let mut j = vec![0; more];
                        j.extend(i);
                        idxs.push(j);
                    }
                }
                c01_shape::<i64>(c, &shape, &idxs)
            },
        );
    }
    c.section("coordinates that wrap around");
    // coordinates whose product with a stride comes back into the data modulo 2^64 or a narrower word
    const WIDE: [usize; 17] = [
        0, 1, 2, 255, 256, 257, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, 1 << 63,
        (1 << 63) + 1, 0xAAAA_AAAA_AAAA_AAAB, M - 1, M,
    ];
    for shape in shapes(0..=3, &[1, 2, 3, 4]) {
        for len in shape.len().saturating_sub(1)..=(shape.len() + 1).min(3) {
            c.case(
                || format!("i64 shape {shape:?}, all indices of length {len} over {WIDE:?}"),
                |c| c01_shape::<i64>(c, &shape, &all_indices(len, &WIDE)),
            );
        }
    }
    c.section("other element types");
    for shape in shapes(0..=3, &[1, 2, 3]) {
        macro_rules! ty {
            ($($t:ty),*) => {$(
                for len in 0..=shape.len() + 1 {
                    c.case(
                        || format!("{} shape {shape:?} indices of length {len}", stringify!($t)),
                        |c| c01_shape::<$t>(c, &shape, &all_indices(len, &[0, 1, 2, 3])),
                    );
                }
            )*};
        }
        ty!(usize, u8, u32, u64, u128, i8, i32, i128, f32, f64);
    }
    c.section("long axes, every index and the first ones outside");
    let max = if c.thorough { 1100 } else { 300 };
    for n in 1..=max {
        for shape in [
            vec![n],
            vec![1, n],
            vec![n, 1],
            vec![2, n],
            vec![n, 2],
            vec![1, n, 1],
            vec![3, n, 2],
        ] {
            c.case(
                || format!("i64 shape {shape:?}, all its indices and boundary ones"),
                |c| {
                    let mut idxs = indices(&shape);
                    for a in 0..shape.len() {
                        for v in [shape[a], shape[a] + 1, 2 * shape[a], 255, 256, 65536, M, M - 1] {
                            for base in [0, 1] {
                                let mut i: Vec<usize> =
                                    shape.iter().map(|&d| base * (d - 1)).collect();
                                i[a] = v;
                                idxs.push(i);
                            }
                        }
                    }
                    c01_shape::<i64>(c, &shape, &idxs)
                },
            );
        }
    }
    c.section("large tensors, every index");
    for shape in [
        vec![511], vec![513], vec![1023], vec![1025], vec![4097], vec![65537], vec![257, 256], vec![256, 257], vec![3, 1, 4099],
        vec![17, 16, 15], vec![9, 8, 7, 6], vec![7, 6, 5, 4, 3], vec![1, 300, 1, 300],
    ] {
        c.case(
            || format!("i64 shape {shape:?}, all its indices"),
            |c| {
                let mut idxs = indices(&shape);
                for a in 0..shape.len() {
                    let mut i: Vec<usize> = shape.iter().map(|&d| d - 1).collect();
                    i[a] += 1;
                    idxs.push(i);
                }
                c01_shape::<i64>(c, &shape, &idxs)
            },
        );
    }
}

// ---------------------------------------------------------------- C02

fn built<T: El>(what: &str, r: Result<RawTensor<T>, String>, want: &Option<Nd<T>>) -> R {
    if let (Ok(t), Some(n)) = (&r, want) {
        if t.is_scalar() != n.shape.is_empty() {
            return Err(format!("{what}: is_scalar() is {}", t.is_scalar()));
        }
        let copy = attempt(|| t.to_tensor())?;
        expect(&format!("{what} as rc"), &copy, n)?;
        if grad(&copy)?.is_some() {
            return Err(format!("{what}: created with a gradient"));
        }
        if attempt(|| copy.backward()).is_ok() {
            return Err(format!("{what}: created with a recorded operation"));
        }
    }
    expect_or_refusal(what, r, want)
}
fn built_rc<T: El>(what: &str, r: Result<RcTensor<T>, String>, want: &Option<Nd<T>>) -> R {
    if let (Ok(t), Some(n)) = (&r, want) {
        if t.is_scalar() != n.shape.is_empty() {
            return Err(format!("{what}: is_scalar() is {}", t.is_scalar()));
        }
        if grad(t)?.is_some() {
            return Err(format!("{what}: created with a gradient"));
        }
    }
    expect_or_refusal(what, r, want)
}

fn c02_type<T: El>(c: &mut Ctx) {
    let name = T::NAME;
    c.section("flat data plus shape, right and wrong lengths; fillers");
    for shape in shapes(0..=4, &[0, 1, 2, 3]) {
        c.case(
            || format!("{name} new/new_with_filler with shape {shape:?}"),
            |c| {
                let n = size(&shape);
                for len in [n, n + 1, n + 2, 2 * n, n.saturating_sub(1), 0, 1] {
                    let data: Vec<T> = (0..len).map(|i| T::of(i as i64 + 1)).collect();
                    let want = (len == n).then(|| Nd::new(&shape, data.clone()));
                    c.state(hash((name, &shape, len)));
                    let w = format!("new({len} elements, {shape:?})");
                    built(
                        &w,
                        attempt(|| RawTensor::new(data.clone(), shape.clone())),
                        &want,
                    )?;
                    built_rc(
                        &w,
                        attempt(|| RcTensor::new(data.clone(), shape.clone())),
                        &want,
                    )?;
                }
                for f in [0, 1, 7] {
                    let want = Some(Nd::fill(&shape, T::of(f)));
                    let w = format!("new_with_filler({shape:?},{f})");
                    c.state(hash((name, &shape, "fill", f)));
                    built(
                        &w,
                        attempt(|| RawTensor::new_with_filler(shape.clone(), T::of(f))),
                        &want,
                    )?;
                    built_rc(
                        &w,
                        attempt(|| RcTensor::new_with_filler(shape.clone(), T::of(f))),
                        &want,
                    )?;
                }
                Ok(())
            },
        );
    }
    c.section("high ranks");
    for shape in high_rank(&[9, 12, 16, 17, 33]).into_iter().chain([vec![2; 10], vec![1; 13], vec![1; 40]]) {
        c.case(
            || format!("{name} new/new_with_filler with shape {shape:?}"),
            |c| {
                c.state(hash((name, &shape)));
                let n: Nd<T> = pattern(&shape, 1);
                built("new", attempt(|| RawTensor::new(n.data.clone(), shape.clone())), &Some(n.clone()))?;
                built_rc("new", attempt(|| RcTensor::new(n.data.clone(), shape.clone())), &Some(n.clone()))?;
                built("filler", attempt(|| RawTensor::new_with_filler(shape.clone(), T::of(3))), &Some(Nd::fill(&shape, T::of(3))))?;
                let mut more = n.data.clone();
                more.push(T::of(1));
                if attempt(|| RawTensor::new(more.clone(), shape.clone())).is_ok() || attempt(|| RawTensor::new(more[2..].to_vec(), shape.clone())).is_ok() {
                    return Err("data of the wrong length was accepted".into());
                }
                // equality: other elements, and the same elements in other shapes of the same rank
                let (a, b) = (rc(&n), raw(&n));
                if !eq(&a, &rc(&n)) || !eq(&b, &raw(&n)) {
                    return Err("not equal to itself".into());
                }
                for p in 0..n.data.len().min(6) {
                    let mut o = n.clone();
                    o.data[p] = o.data[p] + T::of(1);
                    if eq(&a, &rc(&o)) || eq(&b, &raw(&o)) {
                        return Err(format!("equal though element {p} differs"));
                    }
                }
                for k in [1, 2, 8, shape.len() / 2] {
                    let mut s = shape.clone();
                    s.rotate_left(k);
                    let o = Nd::new(&s, n.data.clone());
                    if s != shape && (eq(&a, &rc(&o)) || eq(&b, &raw(&o))) {
                        return Err(format!("equal to a tensor of shape {s:?}"));
                    }
                }
                Ok(())
            },
        );
    }
    c.section("shapes whose element count overflows");
    for len in 0..=8 {
        for shape in wrapping(len) {
            c.case(
                || format!("{name} {len} elements for shape {shape:?}"),
                |c| {
                    let data: Vec<T> = (0..len).map(|i| T::of(i as i64 + 1)).collect();
                    c.state(hash((name, &shape, len, "wraps")));
                    if attempt(|| RawTensor::new(data.clone(), shape.clone())).is_ok()
                        || attempt(|| RcTensor::new(data.clone(), shape.clone())).is_ok()
                    {
                        return Err(format!("new({len} elements, {shape:?}) was accepted"));
                    }
                    if attempt(|| RawTensor::new_with_filler(shape.clone(), T::of(1))).is_ok() {
                        return Err(format!("new_with_filler({shape:?}) gave a tensor"));
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("scalars");
    c.case(
        || format!("{name} scalars"),
        |_| {
            for v in 0..50 {
                let want = Some(Nd::new(&[], vec![T::of(v)]));
                built("scalar", attempt(|| RawTensor::scalar(T::of(v))), &want)?;
                built_rc("scalar", attempt(|| RcTensor::scalar(T::of(v))), &want)?;
                built("from", attempt(|| RawTensor::from(T::of(v))), &want)?;
                built_rc("from", attempt(|| RcTensor::from(T::of(v))), &want)?;
            }
            Ok(())
        },
    );
}

/// Nested vectors of every combination of row lengths (1 to 3), depth 1 to 4.
macro_rules! nested {
    ($c:expr, $t:ty) => {{
        let c: &mut Ctx = $c;
        let name = stringify!($t);
        let el = |k: usize| k as $t;
        c.section("nested vectors, regular");
        for shape in shapes(1..=4, &[1, 2, 3]) {
            c.case(
                || format!("{name} nested vectors of shape {shape:?}"),
                |c| {
                    c.state(hash((name, &shape, "nest")));
                    let n: Nd<$t> = Nd::new(&shape, (0..size(&shape)).map(el).collect());
                    let want = Some(n.clone());
                    let flat = n.data.clone();
                    match shape.len() {
                        1 => {
                            built("from", attempt(|| RawTensor::from(flat.clone())), &want)?;
                            built_rc("from", attempt(|| RcTensor::from(flat.clone())), &want)?;
                        }
                        2 => {
                            let v: Vec<Vec<$t>> =
                                flat.chunks(shape[1]).map(|x| x.to_vec()).collect();
                            built("from", attempt(|| RawTensor::from(v.clone())), &want)?;
                            built_rc("from", attempt(|| RcTensor::from(v.clone())), &want)?;
                        }
                        3 => {
                            let v: Vec<Vec<Vec<$t>>> = flat
                                .chunks(shape[1] * shape[2])
                                .map(|x| x.chunks(shape[2]).map(|y| y.to_vec()).collect())
                                .collect();
                            built("from", attempt(|| RawTensor::from(v.clone())), &want)?;
                            built_rc("from", attempt(|| RcTensor::from(v.clone())), &want)?;
                        }
                        _ => {
                            let v: Vec<Vec<Vec<Vec<$t>>>> = flat
                                .chunks(shape[1] * shape[2] * shape[3])
                                .map(|x| {
                                    x.chunks(shape[2] * shape[3])
                                        .map(|y| y.chunks(shape[3]).map(|z| z.to_vec()).collect())
                                        .collect()
                                })
                                .collect();
                            built("from", attempt(|| RawTensor::from(v.clone())), &want)?;
                            built_rc("from", attempt(|| RcTensor::from(v.clone())), &want)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        c.section("nested vectors, all row lengths");
        for rows in 1..=8usize {
            let lengths: &[usize] = if rows <= 4 { &[1, 2, 3] } else { &[1, 2] };
            for lens in all_indices(rows, lengths) {
                c.case(
                    || format!("{name} rows of lengths {lens:?}"),
                    |c| {
                        c.state(hash((name, &lens, "rag2")));
                        let mut k = 0;
                        let v: Vec<Vec<$t>> = lens
                            .iter()
                            .map(|&l| (0..l).map(|_| { k += 1; el(k) }).collect())
                            .collect();
                        let ok = lens.iter().all(|&l| l == lens[0]);
                        let want = ok.then(|| Nd::new(&[rows, lens[0]], v.concat()));
                        built("from", attempt(|| RawTensor::from(v.clone())), &want)?;
                        built_rc("from", attempt(|| RcTensor::from(v.clone())), &want)
                    },
                );
            }
        }
        // depth 3: each block is one of all small row-length lists
        let mut blocks: Vec<Vec<usize>> = vec![];
        for rows in 1..=3usize {
            blocks.extend(all_indices(rows, &[1, 2]));
        }
        for a in blocks.iter() {
            for b in blocks.iter() {
                for third in [None, Some(vec![1, 1]), Some(vec![2])] {
                    let list: Vec<Vec<usize>> =
                        [a.clone(), b.clone()].into_iter().chain(third.clone()).collect();
                    c.case(
                        || format!("{name} blocks with rows of lengths {list:?}"),
                        |c| {
                            c.state(hash((name, &list, "rag3")));
                            let mut k = 0;
                            let v: Vec<Vec<Vec<$t>>> = list
                                .iter()
                                .map(|b| {
                                    b.iter()
                                        .map(|&l| (0..l).map(|_| { k += 1; el(k) }).collect())
                                        .collect()
                                })
                                .collect();
                            let ok = list.iter().all(|b| {
                                b.len() == list[0].len() && b.iter().all(|&l| l == list[0][0])
                            });
                            let want = ok.then(|| {
                                Nd::new(
                                    &[list.len(), list[0].len(), list[0][0]],
                                    v.concat().concat(),
                                )
                            });
                            built("from", attempt(|| RawTensor::from(v.clone())), &want)?;
                            built_rc("from", attempt(|| RcTensor::from(v.clone())), &want)
                        },
                    );
                }
            }
        }
    }};
}

macro_rules! arrays {
    ($c:expr; $([$a:literal]),*; $([$b1:literal, $b2:literal]),*; $([$c1:literal, $c2:literal, $c3:literal]),*) => {{
        let c: &mut Ctx = $c;
        c.section("nested arrays");
        $(c.case(|| format!("array [{}]", $a), |_| {
            let mut v = [0i64; $a];
            for i in 0..$a { v[i] = i as i64 + 1; }
            let want = Some(Nd::new(&[$a], v.to_vec()));
            built("from array", attempt(|| RawTensor::from(v)), &want)?;
            built_rc("from array", attempt(|| RcTensor::from(v)), &want)
        });)*
        $(c.case(|| format!("array [{},{}]", $b1, $b2), |_| {
            let mut v = [[0i64; $b2]; $b1];
            let mut k = 0;
            for i in 0..$b1 { for j in 0..$b2 { k += 1; v[i][j] = k; } }
            let want = Some(iota(&[$b1, $b2], 1));
            built("from array", attempt(|| RawTensor::from(v)), &want)?;
            built_rc("from array", attempt(|| RcTensor::from(v)), &want)?;
            let mixed: Vec<[i64; $b2]> = v.to_vec();
            built("from vec of arrays", attempt(|| RawTensor::from(mixed.clone())), &want)?;
            built_rc("from vec of arrays", attempt(|| RcTensor::from(mixed.clone())), &want)
        });)*
        $(c.case(|| format!("array [{},{},{}]", $c1, $c2, $c3), |_| {
            let mut v = [[[0i64; $c3]; $c2]; $c1];
            let mut k = 0;
            for i in 0..$c1 { for j in 0..$c2 { for l in 0..$c3 { k += 1; v[i][j][l] = k; } } }
            let want = Some(iota(&[$c1, $c2, $c3], 1));
            built("from array", attempt(|| RawTensor::from(v)), &want)?;
            built_rc("from array", attempt(|| RcTensor::from(v)), &want)
        });)*
    }};
}

pub fn c02(c: &mut Ctx) {
    c02_type::<i64>(c);
    c02_type::<f64>(c);
    c02_type::<u8>(c);
    c02_type::<usize>(c);
    c02_type::<f32>(c);
    c02_type::<i32>(c);
    nested!(c, i64);
    nested!(c, f64);
    nested!(c, usize);
    arrays!(c; [1], [2], [3], [4], [7], [16], [33], [64], [100];
        [1, 1], [1, 2], [1, 3], [2, 1], [2, 2], [2, 3], [3, 1], [3, 2], [3, 3], [1, 7], [7, 1], [5, 4], [33, 2], [2, 33];
        [1, 1, 1], [2, 2, 2], [1, 2, 3], [3, 2, 1], [2, 1, 3], [3, 1, 2], [2, 3, 1], [1, 3, 2], [3, 3, 3], [4, 5, 2]);
    c02_close::<f64>(c, &[1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON, 0.0, -0.0, 5e-324, 1e-9, -1e-9, -1.0, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::MAX]);
    c02_close::<f32>(c, &[1.0, 1.0 + f32::EPSILON, 1.0 - f32::EPSILON, 0.0, -0.0, 1e-45, f32::INFINITY, f32::MAX]);
    c02_close::<i64>(c, &[0, 1, -1, i64::MAX, i64::MAX - 1, i64::MIN, (1 << 53) + 1, 1 << 53, 1 << 32, 256]);
    c02_close::<u64>(c, &[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 53) + 1, 1 << 53, 1 << 32]);
    c02_close::<i128>(c, &[0, 1, 1 << 64, 1 << 100, (1 << 100) + 1, i128::MIN, i128::MAX]);
    c02_close::<u8>(c, &[0, 1, 127, 128, 255]);
    c.section("large data");
    for n in [511, 512, 513, 1024, 1025, 4096, 4097, 65536, 65537, 100_003usize] {
        c.case(
            || format!("{n} elements, equal but for one"),
            |c| {
                c.state(hash(("large", n)));
                let want: Nd<i64> = iota(&[n], -7);
                let t = attempt(|| RcTensor::new(want.data.clone(), vec![n]))?;
                expect("new", &t, &want)?;
                let rows: Vec<Vec<i64>> = want.data.iter().map(|&x| vec![x, -x, 0]).collect();
                let w2 = Nd::new(&[n, 3], rows.concat());
                built_rc("from", attempt(|| RcTensor::from(rows.clone())), &Some(w2))?;
                let cols: Vec<Vec<i64>> = vec![want.data.clone(), want.data.clone()];
                let w3 = Nd::new(&[2, n], cols.concat());
                built_rc("from", attempt(|| RcTensor::from(cols.clone())), &Some(w3))?;
                built("filler", attempt(|| RawTensor::new_with_filler(vec![n], 5i64)), &Some(Nd::fill(&[n], 5)))?;
                if attempt(|| RawTensor::new(want.data.clone(), vec![n + 1])).is_ok() || attempt(|| RawTensor::new(want.data.clone(), vec![n - 1])).is_ok() {
                    return Err("data of the wrong length was accepted".into());
                }
                if !eq(&t, &rc(&want)) {
                    return Err("not equal to itself".into());
                }
                for p in [0, 1, n / 2, n - 2, n - 1, 255, 256, n / 3] {
                    let mut other = want.clone();
                    other.data[p] += 1;
                    if eq(&t, &rc(&other)) || eq(&raw(&other), &raw(&want)) {
                        return Err(format!("equal although element {p} differs"));
                    }
                }
                Ok(())
            },
        );
    }
    c.section("long data");
    let max = if c.thorough { 2000 } else { 300 };
    for n in 0..=max {
        c.case(
            || format!("{n} elements"),
            |c| {
                c.state(hash(("long", n)));
                let want: Nd<i64> = iota(&[n], 3);
                built("new", attempt(|| RawTensor::new(want.data.clone(), vec![n])), &Some(want.clone()))?;
                if n > 0 {
                    built("from", attempt(|| RawTensor::from(want.data.clone())), &Some(want.clone()))?;
                    let rows: Vec<Vec<i64>> = want.data.iter().map(|&x| vec![x, -x]).collect();
                    let w2 = Nd::new(&[n, 2], rows.concat());
                    built("from", attempt(|| RawTensor::from(rows.clone())), &Some(w2))?;
                }
                built(
                    "filler",
                    attempt(|| RawTensor::new_with_filler(vec![n, 3], 5i64)),
                    &Some(Nd::fill(&[n, 3], 5)),
                )
            },
        );
    }
    c.section("equality of all pairs");
    let mut pool: Vec<Nd<f64>> = vec![];
    for shape in shapes(0..=3, &[0, 1, 2, 3, 4]) {
        let n = size(&shape);
        if n > 4 || (n == 0 && shape.len() > 2) {
            continue;
        }
        for bits in 0..1usize << n {
            pool.push(Nd::new(&shape, (0..n).map(|i| (bits >> i & 1) as f64).collect()));
        }
    }
    alike_in_shape(c);
    for a in &pool {
        c.case(
            || format!("{} against all {} others", show(a), pool.len()),
            |c| {
                c.state(a.digest());
                let (ra, ca) = (raw(a), rc(a));
                // equality looks at shape and elements only
                let with_grad = rc(a);
                with_grad.update_grad(rc(a));
                let zero: RcTensor<f64> = RcTensor::scalar(0.0);
                let computed = &rc(a) + &zero;
                for b in &pool {
                    let (rb, cb) = (raw(b), rc(b));
                    let want = a == b;
                    did(8);
                    let got = [
                        eq(&ra, &rb),
                        ca == cb,
                        !(ca != cb),
                        eq(&with_grad, &cb),
                        eq(&cb, &with_grad),
                        cb.clone() == ca.clone(),
                        if a.shape.contains(&0) { want } else { computed == cb },
                        eq(&*ca, &rb),
                    ];
                    if got.iter().any(|&g| g != want) {
                        return Err(format!(
                            "equality of {} and {} is {got:?}, want all {want}",
                            show(a),
                            show(b)
                        ));
                    }
                }
                Ok(())
            },
        );
    }
}

/// Tensors and slices of equal elements and every shape, compared with each other.
fn alike_in_shape(c: &mut Ctx) {
    let mut alike = shapes(4..=5, &[1, 2]);
    alike.extend(shapes(6..=6, &[1, 2]));
    alike.extend([vec![4], vec![4, 1], vec![2, 2], vec![1, 2, 2], vec![8], vec![4, 2], vec![2, 4], vec![2, 2, 2]]);
    for s in alike.clone() {
        c.case(
            || format!("equal elements of shape {s:?} in {} shapes, as tensors and slices", alike.len()),
            |c| {
                c.state(hash((&s, "alike")));
                let a: Nd<i64> = Nd::fill(&s, 3);
                let (ra, ca) = (raw(&a), rc(&a));
                let va = view_of(&ca, &s.iter().map(|&d| (0, d)).collect::<Vec<_>>());
                for o in &alike {
                    if size(o) > 4 * size(&s) {
                        continue;
                    }
                    let b: Nd<i64> = Nd::fill(o, 3);
                    let (rb, cb) = (raw(&b), rc(&b));
                    let vb = view_of(&cb, &o.iter().map(|&d| (0, d)).collect::<Vec<_>>());
                    did(6);
                    let got = [eq(&ra, &rb), ca == cb, eq(&va, &rb), eq(&va, &cb), eq(&va, &vb)];
                    if got.iter().any(|&g| g != (*o == s)) {
                        return Err(format!("equality with shape {o:?} is {got:?}"));
                    }
                }
                Ok(())
            },
        );
    }
}

/// Equality of tensors whose elements are close, but not equal.
fn c02_close<T: El>(c: &mut Ctx, values: &[T]) {
    c.section("equality of close elements");
    for shape in [vec![], vec![1], vec![3], vec![2, 2], vec![40]] {
        c.case(
            || format!("{} {shape:?}: all pairs of close elements at every position", T::NAME),
            |c| {
                let n = size(&shape);
                for (i, &x) in values.iter().enumerate() {
                    for (j, &y) in values.iter().enumerate() {
                        for p in 0..n {
                            let mut a = Nd::fill(&shape, values[0]);
                            let mut b = a.clone();
                            a.data[p] = x;
                            b.data[p] = y;
                            c.state(hash((T::NAME, &shape, i, j, p)));
                            let want = x == y;
                            let (ra, rb, ca, cb) = (raw(&a), raw(&b), rc(&a), rc(&b));
                            let full: Vec<_> = shape.iter().map(|&d| (0, d)).collect();
                            let va = view_of(&ca, &full);
                            did(5);
                            if [eq(&ra, &rb), eq(&ca, &cb), eq(&*ca, &rb), eq(&va, &rb), eq(&va, &cb)].iter().any(|&g| g != want) {
                                return Err(format!("{x:?} and {y:?} at {p}: equality is not {want}"));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C03

fn enumerates<V: TensorLike>(v: &V, shape: &[usize]) -> R {
    let want = indices(shape);
    let mut it = v.iter_indices();
    for w in &want {
        match attempt(|| it.next())? {
            Some(i) if i == *w => {}
            got => return Err(format!("shape {shape:?}: got {got:?} where {w:?} is next")),
        }
    }
    for _ in 0..3 {
        if let Some(i) = attempt(|| it.next())? {
            return Err(format!("shape {shape:?}: {i:?} after the end"));
        }
    }
    // every way of driving an iterator gives the same enumeration, from the start and from anywhere in it
    let n = want.len();
    let mut starts: Vec<usize> = if n <= 6 { (0..=n).collect() } else { vec![0, 1, 2, n / 2, n - 2, n - 1, n] };
    if n > 300 {
        starts = vec![0, 1, n - 1];
    }
    for &k in &starts {
        let at = || {
            let mut it = v.iter_indices();
            for _ in 0..k {
                it.next();
            }
            it
        };
        let rest = &want[k..];
        let bad = |what: String| Err(format!("shape {shape:?} after {k} steps: {what}"));
        let (lo, hi) = attempt(|| at().size_hint())?;
        if lo > rest.len() || hi.map_or(false, |h| h < rest.len()) {
            return bad(format!("{} left, size hint {lo}, {hi:?}", rest.len()));
        }
        let got = attempt(|| at().count())?;
        if got != rest.len() {
            return bad(format!("count {got}, want {}", rest.len()));
        }
        let got = attempt(|| at().last())?;
        if got.as_ref() != rest.last() {
            return bad(format!("last {got:?}, want {:?}", rest.last()));
        }
        let got = attempt(|| at().collect::<Vec<_>>())?;
        if got != rest {
            return bad(format!("collected {got:?}"));
        }
        let got = attempt(|| at().fold(vec![], |mut s, i| { s.push(i); s }))?;
        if got != rest {
            return bad(format!("folded {got:?}"));
        }
        let mut got = vec![];
        attempt(|| at().for_each(|i| got.push(i)))?;
        if got != rest {
            return bad(format!("for_each {got:?}"));
        }
        let (got, want) = (attempt(|| at().max())?, rest.last());
        if got.as_ref() != want || attempt(|| at().min())?.as_ref() != rest.first() {
            return bad(format!("greatest {got:?}, or least"));
        }
        let m = rest.len();
        let mut jumps: Vec<usize> = if m <= 6 { (0..=m + 2).collect() } else { vec![0, 1, 2, 3, m / 2, m - 1, m, m + 1] };
        jumps.push(100_000);
        for &j in &jumps {
            let mut it = at();
            let got = attempt(|| it.nth(j))?;
            if got.as_ref() != rest.get(j) {
                return bad(format!("nth({j}) {got:?}, want {:?}", rest.get(j)));
            }
            let after: &[Vec<usize>] = if j < m { &rest[j + 1..] } else { &[] };
            let got = attempt(|| it.next())?;
            if got.as_ref() != after.first() {
                return bad(format!("{got:?} follows nth({j}), want {:?}", after.first()));
            }
            if j < 100_000 {
                let got = attempt(|| at().skip(j).next())?;
                if got.as_ref() != rest.get(j) {
                    return bad(format!("skip({j}) gives {got:?}, want {:?}", rest.get(j)));
                }
                let got = attempt(|| at().step_by(j + 1).take(m + 2).collect::<Vec<_>>())?;
                if got.iter().ne(rest.iter().step_by(j + 1)) {
                    return bad(format!("every {}th: {got:?}", j + 1));
                }
                let mut it = at();
                let got = attempt(|| it.by_ref().take(j).collect::<Vec<_>>())?;
                if got != rest[..j.min(m)] || (j <= m && attempt(|| it.next())?.as_ref() != rest.get(j)) {
                    return bad(format!("take({j}) gives {got:?}, or what follows it is wrong"));
                }
                let mut it = at();
                let mut left = j;
                let got = attempt(|| it.find(|_| { let hit = left == 0; left = left.saturating_sub(1); hit }))?;
                if got.as_ref() != rest.get(j) || attempt(|| it.next())?.as_ref() != after.first() {
                    return bad(format!("the search ending at {j} gives {got:?}, or what follows it is wrong"));
                }
                let mut it = at();
                let mut left = j + 1;
                let stopped = attempt(|| it.try_for_each(|_| { left -= 1; if left == 0 { Err(()) } else { Ok(()) } }))?;
                if stopped.is_err() != (j < m) || attempt(|| it.next())?.as_ref() != after.first() {
                    return bad(format!("stopping after {j} goes wrong"));
                }
            }
        }
    }
    Ok(())
}

pub fn c03(c: &mut Ctx) {
    c.section("tensors of all small shapes");
    for shape in shapes(0..=4, &[0, 1, 2, 3, 4])
        .into_iter()
        .chain(shapes(5..=6, &[1, 2, 3]))
        .chain(shapes(5..=5, &[0, 2]))
        .chain(shapes(7..=10, &[1, 2]))
        .chain(shapes(7..=7, &[1, 3]))
        .chain(high_rank(&[9, 12, 16, 17, 24, 32, 33, 64, 65]))
        .chain([vec![4097], vec![257, 256], vec![65537], vec![2, 4099], vec![4099, 2], vec![17, 16, 15], vec![9, 8, 7, 6], vec![10, 1, 10, 1, 10], vec![1; 12], vec![2; 13]])
    {
        c.case(
            || format!("tensor of shape {shape:?}"),
            |c| {
                c.state(hash(&shape));
                let n: Nd<i64> = iota(&shape, 0);
                enumerates(&raw(&n), &shape)?;
                enumerates(&rc(&n), &shape)
            },
        );
    }
    c.section("slices: all windows");
    for base in shapes(0..=3, &[1, 2, 3])
        .into_iter()
        .chain(shapes(4..=5, &[1, 2]))
        .chain([vec![5], vec![4, 5], vec![7, 2], vec![4, 4], vec![9], vec![4, 3, 3]])
    {
        let n: Nd<i64> = iota(&base, 0);
        for w in windows(&base) {
            c.case(
                || format!("slice {w:?} of shape {base:?}"),
                |c| {
                    let shape: Vec<usize> = w.iter().map(|(s, e)| e - s).collect();
                    c.state(hash((&base, &w)));
                    enumerates(&view_of(&rc(&n), &w), &shape)
                },
            );
        }
    }
    c.section("long axes");
    let max = if c.thorough { 1200 } else { 300 };
    for k in 1..=max {
        for shape in [vec![k], vec![2, k], vec![k, 2], vec![k, 1, 3], vec![1, k]] {
            c.case(
                || format!("tensor of shape {shape:?}"),
                |c| {
                    c.state(hash(&shape));
                    enumerates(&raw(&iota::<i64>(&shape, 0)), &shape)?;
                    let big: Vec<usize> = shape.iter().map(|d| d + 1).collect();
                    let w: Vec<_> = shape.iter().map(|&d| (1, d + 1)).collect();
                    enumerates(&view_of(&rc(&iota::<i64>(&big, 0)), &w), &shape)
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C04

fn slice_is(c: &mut Ctx, v: &TensorView<i64>, n: &Nd<i64>) -> R {
    let s = &n.shape;
    if v.shape() != s {
        return Err(format!("shape is {:?} want {s:?}", v.shape()));
    }
    if v.count() != n.data.len() {
        return Err(format!("count is {} want {}", v.count(), n.data.len()));
    }
    // reads, inside and outside
    let maxd = s.iter().copied().max().unwrap_or(0);
    let coords: Vec<usize> = if s.len() <= 3 && maxd <= 4 {
        (0..=maxd + 1).chain([usize::MAX, usize::MAX - 1]).collect()
    } else {
        vec![0, 1, maxd.saturating_sub(1), maxd, maxd + 1, usize::MAX]
    };
    for len in s.len().saturating_sub(2)..=s.len() + 1 {
        if len <= 4 {
            for idx in all_indices(len, &coords) {
                read_one(v, n, &idx)?;
                if let Some(p) = position(s, &idx) {
                    if v[&idx] != n.data[p] {
                        return Err(format!("[{idx:?}] is {} want {}", v[&idx], n.data[p]));
                    }
                }
            }
        }
    }
    for idx in indices(s) {
        did(1);
        if v[&idx] != n.at(&idx) {
            return Err(format!("[{idx:?}] is {} want {}", v[&idx], n.at(&idx)));
        }
        c.state(hash((s, &idx, n.at(&idx))));
    }
    if let Some(&f) = n.data.first() {
        if *v.get_first_elem() != f {
            return Err(format!("first element is {} want {f}", v.get_first_elem()));
        }
    }
    if s.is_empty() && v.elem() != n.data[0] {
        return Err("elem() is wrong".into());
    }
    expect("sum", &attempt(|| v.sum())?, &Nd::new(&[], vec![n.sum()]))?;
    expect("to_tensor", &attempt(|| v.to_tensor())?, n)?;
    expect("deep_clone", &attempt(|| v.deep_clone())?, n)?;
    // equality
    let other_view = {
        // the same elements as a window of a larger tensor
        let big: Vec<usize> = s.iter().map(|d| d + 1).collect();
        let mut b = Nd::fill(&big, 77i64);
        for i in indices(s) {
            let j: Vec<usize> = i.iter().map(|x| x + 1).collect();
            let p = position(&big, &j);
            if let Some(p) = p {
                b.data[p] = n.at(&i);
            }
        }
        let w: Vec<_> = s.iter().map(|&d| (1, d + 1)).collect();
        if s.iter().any(|&d| d == 0) {
            None
        } else {
            Some(view_of(&rc(&b), &w))
        }
    };
    did(4);
    if !eq(v, &raw(n)) || !eq(v, &rc(n)) || !other_view.as_ref().map_or(true, |o| eq(v, o)) {
        return Err("not equal to a tensor with its elements".into());
    }
    for p in 0..n.data.len() {
        let mut m = n.clone();
        m.data[p] += 1;
        did(2);
        if eq(v, &raw(&m)) || eq(v, &rc(&m)) {
            return Err(format!("equal to a tensor that differs in element {p}"));
        }
    }
    let mut longer = s.clone();
    longer.insert(0, 1);
    let mut trailing = s.clone();
    trailing.push(1);
    let mut reversed = s.clone();
    reversed.reverse();
    for other in [longer, trailing, reversed] {
        if other != *s {
            let m = Nd::new(&other, n.data.clone());
            did(2);
            if eq(v, &raw(&m)) || eq(v, &rc(&m)) {
                return Err(format!("equal to a tensor of shape {other:?}"));
            }
        }
    }
    Ok(())
}

pub fn c04(c: &mut Ctx) {
    let mut bases = shapes(0..=3, &[1, 2, 3]);
    bases.extend(shapes(4..=4, &[1, 2]));
    bases.extend([vec![0], vec![5], vec![8], vec![4, 4], vec![5, 2], vec![2, 0], vec![0, 3], vec![2, 5, 2]]);
    if c.thorough {
        bases.extend([vec![4, 4, 2], vec![3, 4, 4], vec![6, 6], vec![2, 3, 2, 3], vec![3, 3, 3, 2]]);
    }
    for base in bases {
        let n: Nd<i64> = iota(&base, 1);
        c.section("all windows of all bases");
        for w in windows(&base) {
            c.case(
                || format!("slice {w:?} of shape {base:?}"),
                |c| {
                    let want = n.window(&w).unwrap();
                    let ranges = || -> Vec<SliceRange> {
                        w.iter().map(|&(s, e)| SliceRange::new(s, e)).collect()
                    };
                    let t = rc(&n);
                    for (how, v) in [
                        ("rc.slice", attempt(|| t.slice(ranges()))?),
                        ("rc.view", attempt(|| t.view(ranges()))?),
                        ("TensorView::new", attempt(|| TensorView::new(t.clone(), ranges()))?),
                        ("raw.slice", attempt(|| raw(&n).slice(ranges()))?),
                    ] {
                        slice_is(c, &v, &want).map_err(|e| format!("{how}: {e}"))?;
                    }
                    Ok(())
                },
            );
        }
        c.section("ranges outside, reversed, or of the wrong number");
        // for each axis every (start,end) up to extent+2, the other axes full
        for axis in 0..base.len() {
            for s in 0..=base[axis] + 2 {
                for e in 0..=base[axis] + 2 {
                    let mut w: Vec<(usize, usize)> = base.iter().map(|&d| (0, d)).collect();
                    w[axis] = (s, e);
                    c.case(
                        || format!("slice {w:?} of shape {base:?}"),
                        |_| {
                            let want = n.window(&w);
                            expect_or_refusal("rc.slice", attempt(|| view_of(&rc(&n), &w)), &want)?;
                            expect_or_refusal("raw.slice", attempt(|| view_of(&raw(&n), &w)), &want)?;
                            let full = rc(&n);
                            let r: Vec<_> = base.iter().map(|&d| (0, d)).collect();
                            let v = view_of(&full, &r);
                            expect_or_refusal("view.slice", attempt(|| view_of(&v, &w)), &want)
                        },
                    );
                }
            }
        }
        for len in 0..=base.len() + 2 {
            if len == base.len() {
                continue;
            }
            c.case(
                || format!("{len} ranges for shape {base:?}"),
                |_| {
                    for e in [0, 1] {
                        let w = vec![(0, e); len];
                        expect_or_refusal("rc.slice", attempt(|| view_of(&rc(&n), &w)), &None)?;
                        expect_or_refusal("raw.slice", attempt(|| view_of(&raw(&n), &w)), &None)?;
                        let r: Vec<_> = base.iter().map(|&d| (0, d)).collect();
                        let v = view_of(&rc(&n), &r);
                        expect_or_refusal("view.slice", attempt(|| view_of(&v, &w)), &None)?;
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("equality of equal elements in other shapes");
    alike_in_shape(c);
    c.section("high ranks");
    for shape in high_rank(&[9, 12, 16, 17, 33]).into_iter().chain([vec![2; 9]]) {
        c.case(
            || format!("windows of both long axes of {shape:?}"),
            |c| {
                let base: Vec<usize> = shape.iter().map(|&d| if d > 1 { d + 1 } else { 1 }).collect();
                let n: Nd<i64> = iota(&base, 1);
                let t = rc(&n);
                for from in [0, 1] {
                    for less in [0, 1] {
                        let w: Vec<(usize, usize)> = shape.iter().map(|&d| if d > 1 { (from, from + d - less) } else { (0, 1) }).collect();
                        let m = n.window(&w).unwrap();
                        c.state(hash((&base, &w)));
                        if shape.len() < 20 {
                            slice_is(c, &attempt(|| view_of(&t, &w))?, &m)?;
                        }
                        let v = attempt(|| view_of(&raw(&n), &w))?;
                        expect("slice", &v, &m)?;
                        expect("sum", &attempt(|| v.sum())?, &Nd::new(&[], vec![m.sum()]))?;
                        expect("copy", &attempt(|| v.to_tensor())?, &m)?;
                        // a slice of the slice, and the slice outside
                        let w2: Vec<(usize, usize)> = m.shape.iter().map(|&d| (d - 1, d)).collect();
                        expect("slice of slice", &attempt(|| view_of(&v, &w2))?, &m.window(&w2).unwrap())?;
                        for a in 0..m.shape.len() {
                            let mut w3: Vec<(usize, usize)> = m.shape.iter().map(|&d| (0, d)).collect();
                            w3[a].1 += 1;
                            if attempt(|| view_of(&v, &w3)).is_ok() {
                                return Err(format!("slice {w3:?} of {:?} was accepted", m.shape));
                            }
                            let mut i = vec![0; m.shape.len()];
                            i[a] = m.shape[a];
                            read_one(&v, &m, &i)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.section("reads with coordinates that wrap around");
    const M: usize = usize::MAX;
    const WIDE: [usize; 15] = [
        0, 1, 2, 255, 256, 65536, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, 1 << 63, (1 << 63) + 1,
        0xAAAA_AAAA_AAAA_AAAB, M - 1, M,
    ];
    for base in [vec![3], vec![4], vec![2, 3], vec![3, 2], vec![4, 4], vec![2, 2, 2], vec![3, 2, 3]] {
        let n: Nd<i64> = iota(&base, 1);
        for w in windows(&base) {
            if w.iter().any(|(s, e)| s == e) && base.len() > 1 {
                continue;
            }
            c.case(
                || format!("slice {w:?} of shape {base:?}, indices over {WIDE:?}"),
                |c| {
                    let (v, m) = (view_of(&rc(&n), &w), n.window(&w).unwrap());
                    for len in base.len() - 1..=base.len() {
                        for idx in all_indices(len, &WIDE) {
                            read_one(&v, &m, &idx)?;
                            c.state(hash((&w, &base, &idx)));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("ranges that wrap around");
    for base in [vec![1], vec![3], vec![2, 3], vec![3, 1, 2]] {
        let n: Nd<i64> = iota(&base, 1);
        for axis in 0..base.len() {
            c.case(
                || format!("all ranges over {WIDE:?} on axis {axis} of {base:?}"),
                |c| {
                    let t = rc(&n);
                    let r: Vec<_> = base.iter().map(|&d| (0, d)).collect();
                    let v = view_of(&t, &r);
                    for s in WIDE {
                        for e in WIDE {
                            let mut w = r.clone();
                            w[axis] = (s, e);
                            let want = if s <= e && e <= base[axis] { n.window(&w) } else { None };
                            c.state(hash((&base, &w)));
                            expect_or_refusal("rc.slice", attempt(|| view_of(&t, &w)), &want)?;
                            expect_or_refusal("view.slice", attempt(|| view_of(&v, &w)), &want)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("large windows");
    for k in LARGE {
        c.case(
            || format!("[1..{k}-1] of [{k}], both axes of [{k},3] and [3,{k}]"),
            |c| {
                for (base, w) in [
                    (vec![k], vec![(1, k - 1)]),
                    (vec![k, 3], vec![(1, k), (1, 3)]),
                    (vec![3, k], vec![(1, 3), (2, k - 1)]),
                ] {
                    let n: Nd<i64> = iota(&base, 1);
                    let (v, m) = (view_of(&rc(&n), &w), n.window(&w).unwrap());
                    c.state(hash(&base));
                    expect("slice", &v, &m)?;
                    expect("copy", &attempt(|| v.to_tensor())?, &m)?;
                    expect("sum", &attempt(|| v.sum())?, &Nd::new(&[], vec![m.sum()]))?;
                    if !eq(&v, &rc(&m)) {
                        return Err("not equal to its elements".into());
                    }
                    for p in [0, m.data.len() / 2, m.data.len() - 1] {
                        let mut o = m.clone();
                        o.data[p] += 1;
                        if eq(&v, &rc(&o)) {
                            return Err(format!("equal though element {p} differs"));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.section("windows of long axes");
    let max = if c.thorough { 140 } else { 40 };
    for k in 1..=max {
        let n: Nd<i64> = iota(&[k, 2], 1);
        c.case(
            || format!("all windows (s,e) of the first axis of [{k},2]"),
            |_| {
                let t = rc(&n);
                for s in 0..=k {
                    for e in s..=k {
                        let w = [(s, e), (0, 2)];
                        let v = attempt(|| view_of(&t, &w))?;
                        expect("slice", &v, &n.window(&w).unwrap())?;
                        let u = attempt(|| v.to_tensor())?;
                        expect("copy", &u, &n.window(&w).unwrap())?;
                        expect("sum", &attempt(|| v.sum())?, &Nd::new(&[], vec![n.window(&w).unwrap().sum()]))?;
                        if e - s != 1 && attempt(|| v.get(&vec![e - s, 0]).is_ok())? {
                            return Err(format!("{w:?}: read one past the end"));
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C05

/// Results that must agree: same tensor, or refused both.
fn agree<A: TensorLike, B: TensorLike<Elem = A::Elem>>(
    what: &str,
    on_slice: Result<A, String>,
    on_copy: Result<B, String>,
) -> R
where
    A::Elem: El,
{
    match (on_slice, on_copy) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(a), Ok(b)) => {
            let want = read(&b)?;
            expect(what, &a, &want)
        }
        (Ok(a), Err(e)) => Err(format!(
            "{what}: slice gave {:?}, copy was refused ({e})",
            read(&a).map(|n| show(&n))
        )),
        (Err(e), Ok(b)) => Err(format!(
            "{what}: slice was refused ({e}), copy gave {:?}",
            read(&b).map(|n| show(&n))
        )),
    }
}

fn c05_alone(v: &TensorView<i64>, n: &Nd<i64>) -> R {
    let (copy, craw) = (rc(n), raw(n));
    for s in [-2i64, 3] {
        agree("left scalar", attempt(|| v.left_scalar_multiplication(&s)), attempt(|| copy.left_scalar_multiplication(&s)))?;
        agree("right scalar", attempt(|| v.right_scalar_multiplication(&s)), attempt(|| craw.right_scalar_multiplication(&s)))?;
        let sr: RawTensor<i64> = RawTensor::scalar(s);
        let sc: RcTensor<i64> = RcTensor::scalar(s);
        agree("raw scalar * slice", attempt(|| &sr * v), attempt(|| &sr * &copy))?;
        agree("rc scalar * slice", attempt(|| &sc * v), attempt(|| &sc * &copy))?;
        agree("owned rc scalar * slice", attempt(|| sc.clone() * v), attempt(|| sc.clone() * &copy))?;
        agree("raw scalar + slice", attempt(|| &sr + v), attempt(|| &sr + &craw))?;
    }
    agree("map", attempt(|| F::generic_unary_op(v, |x| x * x + 1)), attempt(|| F::generic_unary_op(&copy, |x| x * x + 1)))?;
    agree("sum", attempt(|| v.sum()), attempt(|| copy.sum()))?;
    agree("dot with itself", attempt(|| F::dot_no_derivative(v, v)), attempt(|| F::dot_no_derivative(&copy, &copy)))?;
    agree("product with itself", attempt(|| F::element_wise_multiplication(v, v)), attempt(|| F::element_wise_multiplication(&copy, &copy)))?;
    agree("bmm with itself", attempt(|| v.bmm(v)), attempt(|| copy.bmm(&copy)))
}

fn c05_pair(v: &TensorView<i64>, n: &Nd<i64>, o: &Nd<i64>) -> R {
    let (copy, craw) = (rc(n), raw(n));
    let (or, oc) = (raw(o), rc(o));
    agree("raw + slice", attempt(|| &or + v), attempt(|| &or + &craw))?;
    agree("rc-deref + slice", attempt(|| &*oc + v), attempt(|| &*oc + &copy))?;
    agree("raw * slice", attempt(|| &or * v), attempt(|| &or * &craw))?;
    agree("rc * slice", attempt(|| &oc * v), attempt(|| &oc * &copy))?;
    agree("owned rc * slice", attempt(|| oc.clone() * v), attempt(|| oc.clone() * &copy))?;
    agree("raw.dot(slice)", attempt(|| or.dot(v)), attempt(|| or.dot(&craw)))?;
    agree("dot(slice, t)", attempt(|| F::dot_no_derivative(v, &oc)), attempt(|| F::dot_no_derivative(&copy, &oc)))?;
    agree("dot(t, slice)", attempt(|| F::dot_no_derivative(&oc, v)), attempt(|| F::dot_no_derivative(&oc, &copy)))?;
    agree("mul(slice, t)", attempt(|| F::element_wise_multiplication(v, &oc)), attempt(|| F::element_wise_multiplication(&copy, &oc)))?;
    agree("mul(t, slice)", attempt(|| F::element_wise_multiplication(&oc, v)), attempt(|| F::element_wise_multiplication(&oc, &copy)))?;
    Ok(())
}

fn c05_bmm(v: &TensorView<i64>, n: &Nd<i64>, o: &Nd<i64>) -> R {
    let (copy, craw) = (rc(n), raw(n));
    let (or, oc) = (raw(o), rc(o));
    agree("slice.bmm(rc)", attempt(|| v.bmm(&oc)), attempt(|| copy.bmm(&oc)))?;
    agree("slice.bmm_rc(raw)", attempt(|| v.bmm_rc(&or)), attempt(|| craw.bmm_rc(&or)))?;
    agree("raw.bmm(slice)", attempt(|| or.bmm(v)), attempt(|| or.bmm(&craw)))?;
    agree("rc.bmm(slice)", attempt(|| oc.bmm(v)), attempt(|| oc.bmm(&copy)))?;
    agree("raw.bmm_rc(slice)", attempt(|| or.bmm_rc(v)), attempt(|| or.bmm_rc(&craw)))?;
    // the gradient the other operand receives
    let (w, x) = (rc(o), rc(o));
    let a = attempt(|| w.bmm(v).sum());
    let b = attempt(|| x.bmm(&copy).sum());
    if let (Ok(a), Ok(b)) = (a, b) {
        agree("value", Ok(a.clone()), Ok(b.clone()))?;
        let (ra, rb) = (attempt(|| a.backward()), attempt(|| b.backward()));
        if ra.is_ok() != rb.is_ok() {
            return Err(format!("backward through a product with a slice: {ra:?}, with its copy: {rb:?}"));
        }
        if ra.is_ok() {
            agree("gradient", attempt(|| w.grad()), attempt(|| x.grad()))?;
        }
    }
    Ok(())
}

pub fn c05(c: &mut Ctx) {
    let mut bases = shapes(0..=2, &[1, 2, 3]);
    bases.extend([vec![4], vec![3, 4], vec![2, 2, 2], vec![1, 2, 3], vec![3, 2, 2]]);
    bases.extend([vec![5], vec![4, 4], vec![2, 3, 2], vec![1, 3, 3], vec![2, 2, 2, 2], vec![1, 2, 1, 2]]);
    if c.thorough {
        bases.extend(shapes(3..=3, &[1, 2, 3]));
        bases.extend(shapes(4..=4, &[1, 2]));
    }
    let partners = shapes(0..=3, &[1, 2, 3]);
    let matrices = shapes(2..=2, &[1, 2, 3, 4]);
    for base in bases {
        let n: Nd<i64> = Nd::new(&base, (0..size(&base)).map(|i| (i as i64 * 5 + 2) % 17 - 6).collect());
        for w in windows(&base) {
            let m = n.window(&w).unwrap();
            c.section("operations on one slice");
            c.case(
                || format!("slice {w:?} of shape {base:?} alone"),
                |c| {
                    c.state(hash((&base, &w)));
                    c05_alone(&view_of(&rc(&n), &w), &m)
                },
            );
            if m.data.is_empty() {
                continue;
            }
            c.section("slice with every partner shape");
            c.case(
                || format!("slice {w:?} of shape {base:?} with all partners of rank <= 3"),
                |c| {
                    let v = view_of(&rc(&n), &w);
                    for p in &partners {
                        let o: Nd<i64> = pattern(p, 3);
                        c.state(hash((&base, &w, p)));
                        c05_pair(&v, &m, &o).map_err(|e| format!("partner {p:?}: {e}"))?;
                    }
                    Ok(())
                },
            );
            if m.shape.len() >= 2 {
                c.section("matrix products with a slice");
                c.case(
                    || format!("slice {w:?} of shape {base:?} in bmm with all matrices up to 4x4"),
                    |c| {
                        let v = view_of(&rc(&n), &w);
                        let r = m.shape.len();
                        for p in &matrices {
                            let fits = p[0] == m.shape[r - 1] || (r == 2 && p[1] == m.shape[0]);
                            if !fits && (p[0] + p[1]) % 3 != 0 {
                                continue; // refusals: a third of them
                            }
                            let o: Nd<i64> = pattern(p, 1);
                            c.state(hash((&base, &w, p, "bmm")));
                            c05_bmm(&v, &m, &o).map_err(|e| format!("matrix {p:?}: {e}"))?;
                        }
                        if r == 2 {
                            for b in [1, 2] {
                                let o: Nd<i64> = pattern(&[b, 2, m.shape[0]], 2);
                                c05_bmm(&v, &m, &o).map_err(|e| format!("batch {b}: {e}"))?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    c.section("large slices");
    for k in [17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 129, 131, 255, 257, 258, 511, 513, 515, 1021, 1023, 1025, 1027, 2047, 2049, 4093, 4097, 4099, 8195, 10_007] {
        c.case(
            || format!("slices with an extent of {k}"),
            |c| {
                for (base, w) in [
                    (vec![k + 2], vec![(1, k + 1)]),
                    (vec![k + 1, 3], vec![(0, k), (1, 3)]),
                    (vec![3, k + 1], vec![(1, 3), (1, k + 1)]),
                ] {
                    let n: Nd<i64> = pattern(&base, 2);
                    let (v, m) = (view_of(&rc(&n), &w), n.window(&w).unwrap());
                    c.state(hash(&base));
                    if m.shape.len() == 1 || k <= 65 {
                        c05_alone(&v, &m)?;
                    }
                    let mut shapes = vec![m.shape.clone(), vec![], vec![1]];
                    if m.shape.len() == 2 {
                        shapes.extend([vec![m.shape[1]], vec![m.shape[0], 1], vec![1, m.shape[1]]]);
                    }
                    for p in shapes {
                        c05_pair(&v, &m, &pattern(&p, 1)).map_err(|e| format!("partner {p:?}: {e}"))?;
                    }
                    if m.shape.len() == 2 {
                        c05_bmm(&v, &m, &pattern(&[m.shape[1], if k > 65 { 1 } else { 2 }], 3))?;
                        c05_bmm(&v, &m, &pattern(&[3, m.shape[0]], 3))?;
                        c05_bmm(&v, &m, &pattern(&[2, 3, m.shape[0]], 3))?;
                    }
                }
                Ok(())
            },
        );
    }
    c.section("slices large on both axes");
    const BOTH: [usize; 9] = [5, 8, 9, 16, 17, 18, 33, 40, 65];
    for a in BOTH {
        for b in BOTH {
            c.case(
                || format!("slices of {a} by {b}"),
                |c| {
                    for (base, w) in [
                        (vec![a + 2, b + 3], vec![(1, a + 1), (2, b + 2)]),
                        (vec![a, b + 1], vec![(0, a), (1, b + 1)]),
                        (vec![a + 1, b], vec![(1, a + 1), (0, b)]),
                    ] {
                        let n: Nd<i64> = pattern(&base, 2);
                        let (v, m) = (view_of(&rc(&n), &w), n.window(&w).unwrap());
                        c.state(hash((&base, &w)));
                        for p in [vec![a, b], vec![b], vec![a, 1], vec![]] {
                            c05_pair(&v, &m, &pattern(&p, 1)).map_err(|e| format!("partner {p:?}: {e}"))?;
                        }
                        for p in [vec![2, a], vec![b, 3], vec![2, 2, a]] {
                            c05_bmm(&v, &m, &pattern(&p, 3)).map_err(|e| format!("product with {p:?}: {e}"))?;
                        }
                        let (t, tm) = (view_of(&rc(&n), &w), pattern(&[b, a], 1));
                        agree("slice.bmm(slice)", attempt(|| t.bmm(&view_of(&rc(&tm), &[(0, b), (0, a)]))), attempt(|| rc(&m).bmm(&rc(&tm))))?;
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("high ranks");
    for shape in high_rank(&[9, 12, 17, 33]) {
        c.case(
            || format!("slices of {shape:?} with partners of every lower rank"),
            |c| {
                let base: Vec<usize> = shape.iter().map(|&d| if d > 1 { d + 1 } else { 1 }).collect();
                let n: Nd<i64> = pattern(&base, 2);
                let w: Vec<(usize, usize)> = shape.iter().map(|&d| if d > 1 { (1, d + 1) } else { (0, 1) }).collect();
                let (v, m) = (view_of(&rc(&n), &w), n.window(&w).unwrap());
                c.state(hash(&base));
                c05_alone(&v, &m)?;
                let r = shape.len();
                for p in [shape.clone(), vec![], vec![1], shape[1..].to_vec(), shape[r - 8..].to_vec(), shape[r / 2..].to_vec(), vec![1; r], vec![2; 4]] {
                    c05_pair(&v, &m, &pattern(&p, 1)).map_err(|e| format!("partner {p:?}: {e}"))?;
                }
                Ok(())
            },
        );
    }
    c.section("slices of several windows together");
    let base = [3, 3];
    let n: Nd<i64> = iota(&base, 1);
    let ws: Vec<_> = windows(&base)
        .into_iter()
        .filter(|w| w.iter().all(|(s, e)| e > s))
        .collect();
    for w1 in &ws {
        c.case(
            || format!("slice {w1:?} of 3x3 with every other slice of it"),
            |c| {
                let t = rc(&n);
                let (a, am) = (view_of(&t, w1), n.window(w1).unwrap());
                for w2 in &ws {
                    c.state(hash((w1, w2)));
                    let (b, bm) = (view_of(&t, w2), n.window(w2).unwrap());
                    let (ac, bc) = (rc(&am), rc(&bm));
                    agree("mul", attempt(|| F::element_wise_multiplication(&a, &b)), attempt(|| F::element_wise_multiplication(&ac, &bc)))?;
                    agree("dot", attempt(|| F::dot_no_derivative(&a, &b)), attempt(|| F::dot_no_derivative(&ac, &bc)))?;
                    agree("bmm", attempt(|| a.bmm(&b)), attempt(|| ac.bmm(&bc)))?;
                    if (a == b) != (am == bm) {
                        return Err(format!("{w1:?} == {w2:?} is {}", a == b));
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C06

/// Shapes with far more than `n` elements, whose product is `n` modulo 2^64.
fn wrapping(n: usize) -> Vec<Vec<usize>> {
    const H: usize = 1 << 63;
    const Q: usize = 1 << 32;
    let mut out = vec![];
    if n % 2 == 0 {
        out.extend([vec![H + n / 2, 2], vec![2, H + n / 2], vec![2, 1, H + n / 2]]);
        if n == 0 {
            out.extend([vec![Q, Q], vec![H, 2, 3], vec![Q, 1, Q], vec![1 << 62, 4]]);
        }
    }
    if n == 1 {
        // 3 * 0xAAAA_AAAA_AAAA_AAAB = 2^65 + 1
        out.push(vec![3, 0xAAAA_AAAA_AAAA_AAAB]);
    }
    if n % 4 == 0 {
        out.push(vec![4, (1 << 62) + n / 4]);
    }
    out
}

fn c06_walk(c: &mut Ctx, v: &TensorView<i64>, n: &Nd<i64>, depth: usize, path: &mut String) -> R {
    expect("chain", v, n).map_err(|e| format!("{path}: {e}"))?;
    expect("sum", &attempt(|| v.sum())?, &Nd::new(&[], vec![n.sum()])).map_err(|e| format!("{path}: {e}"))?;
    expect("copy", &attempt(|| v.to_tensor())?, n).map_err(|e| format!("{path}: {e}"))?;
    did(1);
    if !eq(v, &raw(n)) {
        return Err(format!("{path}: not equal to its elements"));
    }
    c.state(hash((&n.shape, &n.data)));
    if depth == 0 {
        return Ok(());
    }
    for w in windows(&n.shape) {
        let m = n.window(&w).unwrap();
        if m.data.is_empty() && w.iter().any(|&(s, _)| s != 0) {
            continue;
        }
        let len = path.len();
        path.push_str(&format!(" slice{w:?}"));
        let u = attempt(|| view_of(v, &w)).map_err(|e| format!("{path}: refused {e}"))?;
        c06_walk(c, &u, &m, depth - 1, path)?;
        path.truncate(len);
    }
    for s in shapes(0..=3, &[0, 1, 2, 3, 4, 6]) {
        if n.data.is_empty() && depth > 1 && s != [0] && s != [2, 0] && s != [0, 3] && s != [1, 0, 2] && s.contains(&0) {
            // going on from a slice without elements: a few shapes stand for all of them
            continue;
        }
        let len = path.len();
        path.push_str(&format!(" reshape{s:?}"));
        let u = attempt(|| v.reshape(s.clone()));
        match (u, n.reshape(&s)) {
            (Ok(u), Some(m)) => c06_walk(c, &u, &m, depth - 1, path)?,
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("{path}: should be refused")),
            (Err(e), Some(_)) => return Err(format!("{path}: refused {e}")),
        }
        path.truncate(len);
    }
    // shapes whose element count only comes out right modulo the word size
    for s in wrapping(n.data.len()) {
        if attempt(|| v.reshape(s.clone())).is_ok() {
            return Err(format!("{path}: reshape to {s:?} was accepted"));
        }
    }
    // ranges outside the slice, though inside the tensor below it
    for a in 0..n.shape.len() {
        for extra in 1..=2 {
            let mut w: Vec<(usize, usize)> = n.shape.iter().map(|&d| (0, d)).collect();
            w[a] = (0, n.shape[a] + extra);
            if attempt(|| view_of(v, &w)).is_ok() {
                return Err(format!("{path}: slice {w:?} outside the slice was accepted"));
            }
        }
    }
    Ok(())
}

pub fn c06(c: &mut Ctx) {
    let d = usize::from(c.thorough);
    let plans: Vec<(Vec<usize>, usize)> = vec![
        (vec![], 3 + d),
        (vec![1], 3 + d),
        (vec![2], 3 + d),
        (vec![3], 3),
        (vec![4], 2 + d),
        (vec![5], 2),
        (vec![1, 1], 2 + d),
        (vec![1, 2], 2 + d),
        (vec![2, 1], 2 + d),
        (vec![2, 2], 2 + d),
        (vec![1, 3], 2 + d),
        (vec![2, 3], 2),
        (vec![3, 2], 2),
        (vec![3, 3], 1 + d),
        (vec![6], 2),
        (vec![2, 2, 2], 1 + d),
        (vec![3, 4], 1 + d),
        (vec![8], 1 + d),
        (vec![4, 4], 1),
        (vec![1, 2, 3], 1 + d),
        (vec![2, 3, 2], 1),
        (vec![2, 2, 2, 2], 1),
        (vec![4, 3, 2], 1),
    ];
    for (base, depth) in plans {
        let n: Nd<i64> = iota(&base, 1);
        c.section("chains starting with a slice");
        for w in windows(&base) {
            c.case(
                || format!("base {base:?}, slice {w:?}, then all chains of {depth} more steps"),
                |c| {
                    let mut path = format!("base {base:?} slice{w:?}");
                    c06_walk(c, &view_of(&rc(&n), &w), &n.window(&w).unwrap(), depth, &mut path)
                },
            );
        }
    }
    c.section("high ranks");
    for shape in high_rank(&[9, 12, 17, 33]) {
        c.case(
            || format!("reshape [6] and [3,2] to {shape:?}, slice, reshape back"),
            |c| {
                for base in [vec![6], vec![3, 2], vec![1, 6, 1]] {
                    let n: Nd<i64> = iota(&base, 1);
                    let full: Vec<_> = base.iter().map(|&d| (0, d)).collect();
                    let v = attempt(|| view_of(&rc(&n), &full).reshape(shape.clone()))?;
                    let m = n.reshape(&shape).unwrap();
                    c.state(hash((&base, &shape)));
                    expect("reshaped", &v, &m)?;
                    for (from, less) in [(0, 1), (1, 0), (0, 0)] {
                        let w: Vec<(usize, usize)> = shape.iter().map(|&d| if d > 1 { (from, d - less) } else { (0, 1) }).collect();
                        let (u, um) = (attempt(|| view_of(&v, &w))?, m.window(&w).unwrap());
                        expect("slice", &u, &um)?;
                        let k = um.data.len();
                        let flat = attempt(|| u.reshape(vec![k]))?;
                        expect("flat", &flat, &Nd::new(&[k], um.data.clone()))?;
                        if attempt(|| u.reshape(vec![k + 1])).is_ok() || attempt(|| view_of(&u, &[w.clone(), vec![(0, 1)]].concat())).is_ok() {
                            return Err("a wrong shape was accepted".into());
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.section("operations at the end of a chain");
    for base in [vec![3, 4], vec![2, 6], vec![4, 3]] {
        let n: Nd<i64> = iota(&base, 1);
        for w in windows(&base) {
            let m = n.window(&w).unwrap();
            if m.data.is_empty() {
                continue;
            }
            c.case(
                || format!("base {base:?} slice {w:?}, reshape, slice, then products"),
                |c| {
                    let v = view_of(&rc(&n), &w);
                    for s in shapes(1..=2, &[1, 2, 3, 4, 6]) {
                        let Some(r) = m.reshape(&s) else { continue };
                        let u = attempt(|| v.reshape(s.clone()))?;
                        for w2 in windows(&s) {
                            let z = r.window(&w2).unwrap();
                            if z.data.is_empty() {
                                continue;
                            }
                            let x = attempt(|| view_of(&u, &w2))?;
                            c.state(hash((&base, &w, &s, &w2)));
                            let copy = rc(&z);
                            let other: Nd<i64> = pattern(&z.shape, 4);
                            let o = rc(&other);
                            agree("mul", attempt(|| &o * &x), attempt(|| &o * &copy))?;
                            agree("add", attempt(|| &*o + &x), attempt(|| &*o + &copy))?;
                            agree("dot", attempt(|| F::dot_no_derivative(&x, &o)), attempt(|| F::dot_no_derivative(&copy, &o)))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// One tensor as both operands, held once, by a clone, and as a complete slice of itself.
fn twice<T: El>(c: &mut Ctx, what: &str, shapes: &[Vec<usize>], f: fn(&RawTensor<T>, &RcTensor<T>, &Nd<T>) -> R) {
    c.section("one tensor as both operands");
    for shape in shapes {
        c.case(
            || format!("{} {what} of shape {shape:?} with itself", T::NAME),
            |c| {
                for o in 0..3 {
                    let n: Nd<T> = Nd::new(shape, (0..size(shape)).map(|i| T::of(((i * (2 * o + 5) + o) % 11) as i64)).collect());
                    c.state(hash((T::NAME, shape, o)));
                    let (r, x) = (raw(&n), rc(&n));
                    f(&r, &x, &n)?;
                    expect("the operand afterwards", &x, &n)?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C07

/// Element counts around the sizes at which implementations change strategy.
const LARGE: [usize; 16] = [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4096, 4097, 16385, 65537, 100_003];

const FLOATS: [f64; 13] = [0.0, -0.0, 1.0, -1.0, 0.1, 1e16, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, 4503599627370497.5];
const INTS: [i64; 14] = [0, 1, -1, 2, -3, 127, 1 << 31, (1 << 32) + 1, (1 << 53) + 1, -(1 << 53) - 1, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1];

/// Runs `$one(a, b)` on tensors holding every pair of the listed elements for which `$fits` says
/// that the exact result can be represented.
macro_rules! extremes {
    ($c:expr, $t:ty, $values:expr, $fits:expr, $one:expr) => {{
        let c: &mut Ctx = $c;
        let values: Vec<$t> = $values.to_vec();
        let fits: fn($t, $t) -> bool = $fits;
        let one: fn(&Nd<$t>, &Nd<$t>) -> R = $one;
        c.section("extreme elements");
        for (sa, sb) in [(vec![], vec![]), (vec![2], vec![2]), (vec![], vec![2, 2]), (vec![1, 3], vec![1, 3]), (vec![40], vec![40])] {
            for &x in &values {
                c.case(
                    || format!("{} {x:?} in {sa:?} with all elements in {sb:?}", stringify!($t)),
                    |c| {
                        for (j, &y) in values.iter().enumerate() {
                            if !fits(x, y) {
                                continue;
                            }
                            let (zx, zy): ($t, $t) = (<$t as El>::of(1), <$t as El>::of(0));
                            for p in 0..size(&sb) {
                                let mut a = Nd::fill(&sa, zx);
                                let mut b = Nd::fill(&sb, zy);
                                let q = p.min(a.data.len() - 1);
                                a.data[q] = x;
                                b.data[p] = y;
                                if sa != sb {
                                    // the first operand meets every element of the second
                                    b = Nd::fill(&sb, y);
                                }
                                c.state(hash((stringify!($t), &sa, x.bits(), j, p)));
                                one(&a, &b)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }};
}

fn add_forms<T: El>(a: &Nd<T>, b: &Nd<T>) -> R {
    let want = a.add(b);
    let w = |f: &str| format!("{f} of {:?} and {:?}", a.shape, b.shape);
    let (ra, rb, ca, cb) = (raw(a), raw(b), rc(a), rc(b));
    expect_or_refusal(&w("&raw + &raw"), attempt(|| &ra + &rb), &want)?;
    expect_or_refusal(&w("&raw + &rc"), attempt(|| &ra + &cb), &want)?;
    expect_or_refusal(&w("&rc + &rc"), attempt(|| &ca + &cb), &want)?;
    expect_or_refusal(&w("rc + rc"), attempt(|| ca.clone() + cb.clone()), &want)?;
    expect("left operand afterwards", &ca, a)?;
    expect("right operand afterwards", &cb, b)
}

fn sub_forms<T: El + Neg<Output = T>>(a: &Nd<T>, b: &Nd<T>) -> R {
    let want = a.sub(b);
    let w = |f: &str| format!("{f} of {:?} and {:?}", a.shape, b.shape);
    let (ra, rb, ca, cb) = (raw(a), raw(b), rc(a), rc(b));
    expect_or_refusal(&w("&raw - &raw"), attempt(|| &ra - &rb), &want)?;
    expect_or_refusal(&w("&raw - &rc"), attempt(|| &ra - &cb), &want)?;
    expect_or_refusal(&w("&rc - &rc"), attempt(|| &ca - &cb), &want)?;
    expect_or_refusal(&w("rc - rc"), attempt(|| ca.clone() - cb.clone()), &want)?;
    expect_or_refusal(&w("rc - &rc"), attempt(|| ca.clone() - &cb), &want)?;
    expect("left operand afterwards", &ca, a)?;
    expect("right operand afterwards", &cb, b)
}

fn neg_forms<T: El + Neg<Output = T>>(a: &Nd<T>) -> R {
    let want = Some(a.map(|x| -x));
    expect_or_refusal("-&raw", attempt(|| -&raw(a)), &want)?;
    expect_or_refusal("-&rc", attempt(|| -&rc(a)), &want)?;
    expect_or_refusal("rc.neg()", attempt(|| rc(a).neg()), &want)
}

macro_rules! c07_signed {
    ($c:expr, $shapes:expr, $t:ty) => {{
        let c: &mut Ctx = $c;
        let list: &Vec<Vec<usize>> = $shapes;
        for a in list {
            c.case(
                || format!("{} shape {a:?} with all {} shapes", stringify!($t), list.len()),
                |c| {
                    let x: Nd<$t> = pattern(a, 2);
                    neg_forms(&x)?;
                    for b in list {
                        c.state(hash((stringify!($t), a, b)));
                        let y: Nd<$t> = Nd::new(b, (0..size(b)).map(|i| <$t as El>::of((i as i64 * 9 + 20) % 50)).collect());
                        add_forms(&x, &y)?;
                        sub_forms(&x, &y)?;
                    }
                    Ok(())
                },
            );
        }
    }};
}

pub fn c07(c: &mut Ctx) {
    let own: Vec<Vec<usize>> = shapes(0..=4, &[1, 2, 3]).into_iter().chain([vec![7], vec![17], vec![5, 5], vec![9, 8], vec![33, 3], vec![130], vec![1000], vec![65, 66]]).collect();
    twice::<i64>(c, "sum and difference", &own, |r, x, n| {
        let (two, none) = (n.add(n), n.sub(n));
        expect_or_refusal("&raw + &raw", attempt(|| r + r), &two)?;
        expect_or_refusal("&rc + &rc", attempt(|| x + x), &two)?;
        expect_or_refusal("rc + rc", attempt(|| x.clone() + x.clone()), &two)?;
        expect_or_refusal("&raw - &raw", attempt(|| r - r), &none)?;
        expect_or_refusal("&rc - &rc", attempt(|| x - x), &none)?;
        expect_or_refusal("rc - rc", attempt(|| x.clone() - x.clone()), &none)?;
        expect_or_refusal("rc - &rc", attempt(|| x.clone() - x), &none)?;
        let all: Vec<(usize, usize)> = n.shape.iter().map(|&d| (0, d)).collect();
        expect_or_refusal("&raw + slice of it", attempt(|| r + &view_of(r, &all)), &two)?;
        expect_or_refusal("&rc + slice of it", attempt(|| &**x + &view_of(x, &all)), &two)
    });
    twice::<f32>(c, "sum and difference", &own, |r, x, n| {
        expect_or_refusal("&raw + &raw", attempt(|| r + r), &n.add(n))?;
        expect_or_refusal("&rc + &rc", attempt(|| x + x), &n.add(n))?;
        expect_or_refusal("&rc - &rc", attempt(|| x - x), &n.sub(n))
    });
    let mut list = shapes(0..=3, &[1, 2, 3]);
    list.extend(shapes(1..=2, &[0]));
    list.extend([vec![2, 0], vec![0, 2], vec![0, 1], vec![1, 0], vec![4], vec![4, 2], vec![2, 4]]);
    if c.thorough {
        list.extend(shapes(4..=4, &[1, 2, 3]));
    }
    c.section("all pairs of shapes (distinct elements)");
    for a in &list {
        c.case(
            || format!("i64 shape {a:?} with all {} shapes", list.len()),
            |c| {
                let x: Nd<i64> = iota(a, 1);
                neg_forms(&x)?;
                for b in &list {
                    c.state(hash((a, b)));
                    let y = iota::<i64>(b, 0).map(|k| k * 1000 + 500);
                    add_forms(&x, &y)?;
                    sub_forms(&x, &y)?;
                }
                Ok(())
            },
        );
    }
    c.section("rank 4 and 5");
    let high = shapes(4..=5, &[1, 2]);
    let low = shapes(0..=5, &[1, 2]);
    for a in &high {
        c.case(
            || format!("i64 shape {a:?} with all {} shapes over 1,2", low.len()),
            |c| {
                let x: Nd<i64> = iota(a, 1);
                neg_forms(&x)?;
                for b in &low {
                    c.state(hash((a, b)));
                    let y = iota::<i64>(b, 0).map(|k| k * 1000 + 500);
                    add_forms(&x, &y)?;
                    sub_forms(&x, &y)?;
                    add_forms(&y, &x)?;
                    sub_forms(&y, &x)?;
                }
                Ok(())
            },
        );
    }
    c.section("high ranks");
    for shape in high_rank(&[9, 12, 17, 33]).into_iter().chain([vec![2; 9], vec![2; 10]]) {
        c.case(
            || format!("i64 shape {shape:?} with its own stretched and shortened shapes, and mismatches"),
            |c| {
                let x: Nd<i64> = iota(&shape, 1);
                neg_forms(&x)?;
                let r = shape.len();
                let mut partners = vec![shape.clone(), vec![], vec![1; r], vec![1; r + 3]];
                for a in 0..r {
                    // one axis stretched, one axis that disagrees
                    for d in [1, shape[a] + 1, 4] {
                        let mut s = shape.clone();
                        s[a] = d;
                        partners.push(s);
                    }
                }
                for cut in [1, 2, r - 8, r / 2, r - 1] {
                    partners.push(shape[cut..].to_vec());
                    let mut s = shape[cut..].to_vec();
                    s[0] += 1;
                    partners.push(s);
                }
                partners.retain(|p| size(p) <= 2048);
                for p in &partners {
                    c.state(hash((&shape, p)));
                    let y = iota::<i64>(p, 0).map(|k| k * 1000 + 500);
                    if r <= 12 {
                        add_forms(&x, &y)?;
                        sub_forms(&x, &y)?;
                    }
                    expect_or_refusal("sum", attempt(|| &raw(&y) + &raw(&x)), &y.add(&x))?;
                    expect_or_refusal("sum", attempt(|| &rc(&x) + &rc(&y)), &x.add(&y))?;
                    expect_or_refusal("difference", attempt(|| &rc(&y) - &rc(&x)), &y.sub(&x))?;
                }
                Ok(())
            },
        );
    }
    c.section("other element types");
    let small = shapes(0..=2, &[1, 2, 3]);
    c07_signed!(c, &small, f64);
    c07_signed!(c, &small, f32);
    c07_signed!(c, &small, i32);
    c07_signed!(c, &small, i8);
    c07_signed!(c, &small, i128);
    for a in &small {
        c.case(
            || format!("unsigned shape {a:?} with all shapes"),
            |_| {
                for b in &small {
                    add_forms::<u8>(&iota(a, 1), &iota(b, 40))?;
                    add_forms::<u32>(&iota(a, 1), &iota(b, 40))?;
                    add_forms::<u64>(&iota(a, 1), &iota(b, 40))?;
                    add_forms::<usize>(&iota(a, 1), &iota(b, 40))?;
                    add_forms::<u128>(&iota(a, 1), &iota(b, 40))?;
                }
                Ok(())
            },
        );
    }
    extremes!(c, i64, INTS, |x, y| x != i64::MIN && x.checked_add(y).is_some() && x.checked_sub(y).is_some() && y != i64::MIN, |a, b| {
        add_forms(a, b)?;
        sub_forms(a, b)?;
        neg_forms(a)
    });
    extremes!(c, f64, FLOATS, |_, _| true, |a, b| {
        add_forms(a, b)?;
        sub_forms(a, b)?;
        neg_forms(a)
    });
    extremes!(c, f32, [0.0, -0.0, 1.0, 16777216.0, 1e-45, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY], |_, _| true, |a, b| {
        add_forms(a, b)?;
        sub_forms(a, b)?;
        neg_forms(a)
    });
    extremes!(c, i8, [0, 1, -1, 63, 64, -64, 127, -127], |x, y| x.checked_add(y).is_some() && x.checked_sub(y).is_some(), |a, b| {
        add_forms(a, b)?;
        sub_forms(a, b)?;
        neg_forms(a)
    });
    extremes!(c, u64, [0, 1, 1 << 32, (1 << 53) + 1, 1 << 63, u64::MAX, u64::MAX - 1], |x, y| x.checked_add(y).is_some(), |a, b| add_forms(a, b));
    extremes!(c, u8, [0, 1, 127, 128, 254, 255], |x, y| x.checked_add(y).is_some(), |a, b| add_forms(a, b));
    extremes!(c, u128, [0, 1, 1 << 64, (1 << 100) + 1, u128::MAX, u128::MAX - 1], |x, y| x.checked_add(y).is_some(), |a, b| add_forms(a, b));
    c.section("large tensors");
    for n in LARGE {
        c.case(
            || format!("{n} elements along each axis"),
            |c| {
                for (a, b) in [(vec![n], vec![n]), (vec![n], vec![]), (vec![2, n], vec![n]), (vec![n, 1], vec![2]), (vec![n, 2], vec![n, 1]), (vec![1, n], vec![2, 1]), (vec![1], vec![n])] {
                    c.state(hash((&a, &b)));
                    let (x, y) = (iota::<i64>(&a, 1), iota::<i64>(&b, 0).map(|k| k * 1000_000 + 500_000));
                    expect_or_refusal("sum", attempt(|| &rc(&x) + &rc(&y)), &x.add(&y))?;
                    expect_or_refusal("sum", attempt(|| &raw(&y) + &raw(&x)), &x.add(&y))?;
                    expect_or_refusal("difference", attempt(|| &rc(&y) - &rc(&x)), &y.sub(&x))?;
                    expect_or_refusal("difference", attempt(|| &raw(&x) - &raw(&y)), &x.sub(&y))?;
                }
                expect_or_refusal("sum", attempt(|| &rc(&iota::<i64>(&[n], 0)) + &rc(&iota::<i64>(&[n + 1], 0))), &None)?;
                let x = iota::<i64>(&[n], 1);
                expect_or_refusal("negation", attempt(|| -&raw(&x)), &Some(x.map(|v| -v)))?;
                expect_or_refusal("negation", attempt(|| -&rc(&x)), &Some(x.map(|v| -v)))
            },
        );
    }
    c.section("all values over -1,0,2");
    for (sa, sb) in [
        (vec![2], vec![2]),
        (vec![2, 1], vec![2]),
        (vec![1, 2], vec![2, 2]),
        (vec![], vec![3]),
        (vec![1], vec![1, 1]),
    ] {
        let (na, nb) = (size(&sa), size(&sb));
        for va in all_indices(na, &[0, 1, 2]) {
            c.case(
                || format!("f64 {sa:?}{va:?} with all values of {sb:?}"),
                |c| {
                    const V: [f64; 3] = [-1.0, 0.0, 2.0];
                    let a = Nd::new(&sa, va.iter().map(|&i| V[i]).collect());
                    neg_forms(&a)?;
                    for vb in all_indices(nb, &[0, 1, 2]) {
                        let b = Nd::new(&sb, vb.iter().map(|&i| V[i]).collect());
                        c.state(hash((a.digest(), b.digest())));
                        add_forms(&a, &b)?;
                        sub_forms(&a, &b)?;
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("long axes");
    let max = if c.thorough { 600 } else { 200 };
    for k in 1..=max {
        c.case(
            || format!("long axis {k}"),
            |c| {
                for (a, b) in [
                    (vec![k], vec![k]),
                    (vec![2, k], vec![k]),
                    (vec![2, k], vec![2, 1]),
                    (vec![k, 1], vec![3]),
                    (vec![k, 1], vec![1, 2]),
                    (vec![k], vec![]),
                    (vec![k, 2, 1], vec![2, 2]),
                ] {
                    c.state(hash((&a, &b)));
                    let (x, y) = (iota::<i64>(&a, 1), iota::<i64>(&b, 0).map(|k| k * 1000 + 500));
                    add_forms(&x, &y)?;
                    sub_forms(&y, &x)?;
                }
                if k > 1 {
                    add_forms(&iota::<i64>(&[k], 1), &iota::<i64>(&[k + 1], 1))?;
                    add_forms(&iota::<i64>(&[2, k], 1), &iota::<i64>(&[2 * k], 1))?;
                }
                neg_forms(&iota::<i64>(&[k, 2], 1))
            },
        );
    }
}

// ---------------------------------------------------------------- C08

fn mul_forms<T: El>(a: &Nd<T>, b: &Nd<T>) -> R {
    let want = a.mul(b);
    let w = |f: &str| format!("{f} of {:?} and {:?}", a.shape, b.shape);
    let (ra, rb, ca, cb) = (raw(a), raw(b), rc(a), rc(b));
    expect_or_refusal(&w("&raw * &raw"), attempt(|| &ra * &rb), &want)?;
    expect_or_refusal(&w("&raw * &rc"), attempt(|| &ra * &cb), &want)?;
    expect_or_refusal(&w("&raw * rc"), attempt(|| &ra * cb.clone()), &want)?;
    expect_or_refusal(&w("&rc * &rc"), attempt(|| &ca * &cb), &want)?;
    expect_or_refusal(&w("&rc * &raw"), attempt(|| &ca * &rb), &want)?;
    expect_or_refusal(&w("rc * rc"), attempt(|| ca.clone() * cb.clone()), &want)?;
    expect_or_refusal(&w("rc * &rc"), attempt(|| ca.clone() * &cb), &want)?;
    expect_or_refusal(&w("&rc * rc"), attempt(|| &ca * cb.clone()), &want)?;
    let ew = if a.shape == b.shape { want.clone() } else { None };
    expect_or_refusal(&w("element_wise_multiplication"), attempt(|| F::element_wise_multiplication(&ra, &cb)), &ew)?;
    expect_or_refusal(&w("element_wise_multiplication"), attempt(|| F::element_wise_multiplication(&ca, &rb)), &ew)?;
    if a.shape.is_empty() {
        let s = a.data[0];
        expect_or_refusal("left_scalar", attempt(|| rb.left_scalar_multiplication(&s)), &want)?;
        expect_or_refusal("left_scalar", attempt(|| cb.left_scalar_multiplication(&s)), &want)?;
        expect_or_refusal("right_scalar", attempt(|| rb.right_scalar_multiplication(&s)), &want)?;
        expect_or_refusal("right_scalar", attempt(|| cb.right_scalar_multiplication(&s)), &want)?;
    }
    expect("left operand afterwards", &ca, a)?;
    expect("right operand afterwards", &cb, b)
}

pub fn c08(c: &mut Ctx) {
    let own: Vec<Vec<usize>> = shapes(0..=4, &[1, 2, 3]).into_iter().chain([vec![7], vec![17], vec![5, 5], vec![9, 8], vec![33, 3], vec![130], vec![1000], vec![65, 66]]).collect();
    twice::<i64>(c, "product", &own, |r, x, n| {
        let square = n.mul(n);
        expect_or_refusal("&raw * &raw", attempt(|| r * r), &square)?;
        expect_or_refusal("&rc * &rc", attempt(|| x * x), &square)?;
        expect_or_refusal("rc * rc", attempt(|| x.clone() * x.clone()), &square)?;
        expect_or_refusal("element_wise_multiplication", attempt(|| F::element_wise_multiplication(r, r)), &square)?;
        expect_or_refusal("element_wise_multiplication", attempt(|| F::element_wise_multiplication(x, x)), &square)
    });
    twice::<f32>(c, "product", &own, |r, x, n| {
        expect_or_refusal("&raw * &raw", attempt(|| r * r), &n.mul(n))?;
        expect_or_refusal("&rc * &rc", attempt(|| x * x), &n.mul(n))
    });
    let mut list = shapes(0..=3, &[1, 2, 3]);
    list.extend([vec![0], vec![2, 0], vec![0, 3], vec![4], vec![6], vec![4, 1]]);
    list.extend(shapes(4..=4, &[1, 2]));
    if c.thorough {
        list.extend(shapes(4..=4, &[1, 3]));
        list.extend(shapes(5..=5, &[1, 2]));
    }
    c.section("all pairs of shapes");
    for a in &list {
        c.case(
            || format!("i64 shape {a:?} with all {} shapes", list.len()),
            |c| {
                let x: Nd<i64> = iota(a, 2);
                for b in &list {
                    c.state(hash((a, b)));
                    mul_forms(&x, &iota::<i64>(b, 0).map(|k| k * 7 - 3))?;
                }
                Ok(())
            },
        );
    }
    c.section("other element types");
    let small = shapes(0..=2, &[1, 2, 3]);
    for a in &small {
        macro_rules! ty {
            ($($t:ty),*) => {$(
                c.case(
                    || format!("{} shape {a:?} with all shapes", stringify!($t)),
                    |_| {
                        for b in &small {
                            mul_forms::<$t>(&iota(a, 1), &iota(b, 2))?;
                        }
                        Ok(())
                    },
                );
            )*};
        }
        ty!(usize, u8, u32, u64, u128, i8, i32, i128, f32, f64);
    }
    c.section("high ranks");
    for shape in high_rank(&[9, 12, 17, 33]).into_iter().chain([vec![2; 9]]) {
        c.case(
            || format!("i64 shape {shape:?}"),
            |c| {
                c.state(hash(&shape));
                let (x, y) = (iota::<i64>(&shape, 1), iota::<i64>(&shape, 0).map(|k| k * 3 - 5));
                mul_forms(&x, &y)?;
                mul_forms(&x, &Nd::new(&[], vec![3]))?;
                mul_forms(&Nd::new(&[], vec![-3]), &x)?;
                for a in 0..shape.len() {
                    for d in [1, shape[a] + 1] {
                        let mut s = shape.clone();
                        s[a] = d;
                        if s != shape {
                            expect_or_refusal("product", attempt(|| &rc(&x) * &rc(&iota::<i64>(&s, 1))), &None)?;
                            expect_or_refusal("product", attempt(|| &raw(&iota::<i64>(&s, 1)) * &raw(&x)), &None)?;
                        }
                    }
                    let mut s = shape.clone();
                    s.remove(a);
                    expect_or_refusal("product", attempt(|| &rc(&x) * &rc(&iota::<i64>(&s, 1))), &None)?;
                }
                Ok(())
            },
        );
    }
    extremes!(c, i64, INTS, |x, y| x.checked_mul(y).is_some(), |a, b| { mul_forms(a, b)?; mul_forms(b, a) });
    extremes!(c, f64, FLOATS, |_, _| true, |a, b| { mul_forms(a, b)?; mul_forms(b, a) });
    extremes!(c, u64, [0, 1, 2, 3, 1 << 32, (1 << 53) + 1, 1 << 63, u64::MAX], |x, y| x.checked_mul(y).is_some(), |a, b| mul_forms(a, b));
    extremes!(c, u8, [0, 1, 2, 15, 16, 17, 127, 128, 255], |x, y| x.checked_mul(y).is_some(), |a, b| mul_forms(a, b));
    extremes!(c, i8, [0, 1, -1, 2, 11, -11, 64, -64, 127, -128], |x, y| x.checked_mul(y).is_some(), |a, b| mul_forms(a, b));
    extremes!(c, i128, [0, 1, -1, 1 << 62, (1 << 64) + 1, i128::MAX, i128::MIN], |x, y| x.checked_mul(y).is_some(), |a, b| mul_forms(a, b));
    c.section("large tensors");
    for n in LARGE {
        c.case(
            || format!("{n} elements along each axis"),
            |c| {
                for s in [vec![n], vec![2, n], vec![n, 2]] {
                    c.state(hash(&s));
                    let (x, y) = (iota::<i64>(&s, 1), iota::<i64>(&s, 0).map(|k| k * 3 - 5));
                    let three = Nd::new(&[], vec![3i64]);
                    expect_or_refusal("product", attempt(|| &rc(&x) * &rc(&y)), &x.mul(&y))?;
                    expect_or_refusal("product", attempt(|| &raw(&y) * &raw(&x)), &x.mul(&y))?;
                    expect_or_refusal("scalar", attempt(|| &rc(&three) * &rc(&y)), &three.mul(&y))?;
                    expect_or_refusal("scalar", attempt(|| &rc(&y) * &rc(&three)), &three.mul(&y))?;
                    expect_or_refusal("scalar", attempt(|| raw(&y).left_scalar_multiplication(&3)), &three.mul(&y))?;
                    expect_or_refusal("scalar", attempt(|| rc(&y).right_scalar_multiplication(&3)), &three.mul(&y))?;
                }
                expect_or_refusal("product", attempt(|| &rc(&iota::<i64>(&[n], 0)) * &rc(&iota::<i64>(&[n + 1], 0))), &None)?;
                expect_or_refusal("product", attempt(|| &rc(&iota::<i64>(&[n], 0)) * &rc(&iota::<i64>(&[1], 5))), &None)
            },
        );
    }
    c.section("all values over -1,0,2");
    for (sa, sb) in [
        (vec![], vec![2, 2]),
        (vec![2], vec![2]),
        (vec![3], vec![]),
        (vec![], vec![]),
        (vec![1, 2], vec![1, 2]),
    ] {
        for va in all_indices(size(&sa), &[0, 1, 2]) {
            c.case(
                || format!("f64 {sa:?}{va:?} with all values of {sb:?}"),
                |c| {
                    const V: [f64; 3] = [-1.0, 0.0, 2.0];
                    let a = Nd::new(&sa, va.iter().map(|&i| V[i]).collect());
                    for vb in all_indices(size(&sb), &[0, 1, 2]) {
                        let b = Nd::new(&sb, vb.iter().map(|&i| V[i]).collect());
                        c.state(hash((a.digest(), b.digest())));
                        mul_forms(&a, &b)?;
                    }
                    Ok(())
                },
            );
        }
    }
    c.section("long axes");
    let max = if c.thorough { 600 } else { 200 };
    for k in 1..=max {
        c.case(
            || format!("long axis {k}"),
            |c| {
                for s in [vec![k], vec![2, k], vec![k, 2], vec![k, 1, 2]] {
                    c.state(hash(&s));
                    let (x, y) = (iota::<i64>(&s, 1), iota::<i64>(&s, 0).map(|k| k * 3 + 5));
                    mul_forms(&x, &y)?;
                    mul_forms(&x, &Nd::new(&[], vec![3]))?;
                    mul_forms(&Nd::new(&[], vec![-3]), &x)?;
                }
                mul_forms(&iota::<i64>(&[k], 1), &iota::<i64>(&[k + 1], 1))?;
                mul_forms(&iota::<i64>(&[k, 2], 1), &iota::<i64>(&[2 * k], 1))
            },
        );
    }
}

// ---------------------------------------------------------------- C09

fn bmm_forms<T: El>(a: &Nd<T>, b: &Nd<T>) -> R {
    let want = a.bmm(b);
    let w = |f: &str| format!("{f} of {:?} and {:?}", a.shape, b.shape);
    let (ra, rb, ca, cb) = (raw(a), raw(b), rc(a), rc(b));
    expect_or_refusal(&w("raw.bmm(raw)"), attempt(|| ra.bmm(&rb)), &want)?;
    expect_or_refusal(&w("rc.bmm(rc)"), attempt(|| ca.bmm(&cb)), &want)?;
    expect_or_refusal(&w("raw.bmm_rc(rc)"), attempt(|| ra.bmm_rc(&cb)), &want)?;
    expect_or_refusal(&w("rc.bmm_rc(raw)"), attempt(|| ca.bmm_rc(&rb)), &want)?;
    expect("left operand afterwards", &ca, a)?;
    expect("right operand afterwards", &cb, b)
}

fn bmm_one(a: &Nd<i64>, b: &Nd<i64>) -> R {
    let want = a.bmm(b);
    expect_or_refusal(
        &format!("bmm of {:?} and {:?}", a.shape, b.shape),
        attempt(|| rc(a).bmm(&rc(b))),
        &want,
    )
}

pub fn c09(c: &mut Ctx) {
    let own: Vec<Vec<usize>> = (1..=12).chain([15, 16, 17, 31, 32, 33, 40, 65]).map(|n| vec![n, n]).chain([vec![2, 3], vec![3, 2], vec![1, 4], vec![2, 2, 2], vec![1, 1, 1]]).collect();
    fn own_product<T: El>(r: &RawTensor<T>, x: &RcTensor<T>, n: &Nd<T>) -> R {
        let want = n.bmm(n);
        expect_or_refusal("raw.bmm(itself)", attempt(|| r.bmm(r)), &want)?;
        expect_or_refusal("rc.bmm(itself)", attempt(|| x.bmm(x)), &want)?;
        expect_or_refusal("rc.bmm(clone)", attempt(|| x.bmm(&x.clone())), &want)?;
        expect_or_refusal("raw.bmm_rc(itself)", attempt(|| r.bmm_rc(r)), &want)?;
        let all: Vec<(usize, usize)> = n.shape.iter().map(|&d| (0, d)).collect();
        expect_or_refusal("slice.bmm(its tensor)", attempt(|| view_of(x, &all).bmm(x)), &want)?;
        expect_or_refusal("rc.bmm(slice of it)", attempt(|| x.bmm(&view_of(x, &all))), &want)
    }
    twice::<i64>(c, "matrix product", &own, own_product);
    twice::<f64>(c, "matrix product", &own, own_product);
    twice::<f32>(c, "matrix product", &own, own_product);
    let m = if c.thorough { 7 } else { 5 };
    c.section("all matrix extents");
    for i in 0..=m {
        for k in 0..=m {
            for j in 0..=m {
                c.case(
                    || format!("[{i},{k}] x [{k},{j}]"),
                    |c| {
                        c.state(hash((i, k, j)));
                        bmm_forms::<i64>(&iota(&[i, k], 1), &pattern(&[k, j], 1))?;
                        bmm_forms::<f64>(&pattern(&[i, k], 1), &pattern(&[k, j], 2))
                    },
                );
            }
        }
    }
    c.section("batches");
    for b in 0..=4 {
        for i in 1..=3 {
            for k in 0..=3 {
                for j in 1..=3 {
                    c.case(
                        || format!("[{b},{i},{k}] x [{k},{j}]"),
                        |c| {
                            c.state(hash((b, i, k, j)));
                            bmm_forms::<i64>(&iota(&[b, i, k], 1), &pattern(&[k, j], 3))
                        },
                    );
                }
            }
        }
    }
    c.section("refusals: all pairs of shapes");
    let list: Vec<_> = shapes(0..=3, &[1, 2, 3])
        .into_iter()
        .chain(shapes(4..=5, &[1, 2]))
        .collect();
    for a in &list {
        c.case(
            || format!("shape {a:?} with all {} shapes", list.len()),
            |c| {
                for b in &list {
                    c.state(hash((a, b)));
                    bmm_one(&iota(a, 1), &iota(b, 2))?;
                }
                Ok(())
            },
        );
    }
    c.section("one-hot operands: every pair of positions");
    for (sa, sb) in [
        (vec![2, 3], vec![3, 2]),
        (vec![2, 2, 2], vec![2, 3]),
        (vec![3, 1], vec![1, 3]),
        (vec![1, 4], vec![4, 1]),
    ] {
        c.case(
            || format!("one-hot {sa:?} x {sb:?}"),
            |c| {
                for p in 0..size(&sa) {
                    for q in 0..size(&sb) {
                        let mut a = Nd::fill(&sa, 0i64);
                        let mut b = Nd::fill(&sb, 0i64);
                        a.data[p] = 3;
                        b.data[q] = 5;
                        c.state(hash((&sa, &sb, p, q)));
                        bmm_one(&a, &b)?;
                    }
                }
                Ok(())
            },
        );
    }
    c.section("all values over -1,0,2");
    for va in all_indices(4, &[0, 1, 2]) {
        c.case(
            || format!("2x2 {va:?} with all 2x2 over -1,0,2"),
            |c| {
                const V: [i64; 3] = [-1, 0, 2];
                let a = Nd::new(&[2, 2], va.iter().map(|&i| V[i]).collect());
                for vb in all_indices(4, &[0, 1, 2]) {
                    let b = Nd::new(&[2, 2], vb.iter().map(|&i| V[i]).collect());
                    c.state(hash((a.digest(), b.digest())));
                    bmm_one(&a, &b)?;
                }
                Ok(())
            },
        );
    }
    c.section("extreme elements");
    for &x in &FLOATS {
        c.case(
            || format!("[1,2] x [2,1] over extreme doubles, first one {x:?}"),
            |c| {
                for &y in &FLOATS {
                    for &z in &FLOATS {
                        for &w in &FLOATS {
                            let a = Nd::new(&[1, 2], vec![x, y]);
                            let b = Nd::new(&[2, 1], vec![z, w]);
                            c.state(hash((a.digest(), b.digest())));
                            expect_or_refusal("bmm", attempt(|| rc(&a).bmm(&rc(&b))), &a.bmm(&b))?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    for &x in &INTS {
        c.case(
            || format!("[1,2] x [2,1] over extreme integers, first one {x}"),
            |c| {
                for &y in &INTS {
                    for &z in &INTS {
                        for &w in &INTS {
                            let ok = x.checked_mul(z).and_then(|p| y.checked_mul(w).and_then(|q| p.checked_add(q))).is_some();
                            if ok {
                                let a = Nd::new(&[1, 2], vec![x, y]);
                                let b = Nd::new(&[2, 1], vec![z, w]);
                                c.state(hash((a.digest(), b.digest())));
                                bmm_one(&a, &b)?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.section("infinities and zeros at every position");
    for (i, k, j) in [(1, 1, 1), (2, 2, 2), (3, 2, 4), (2, 5, 3), (5, 5, 5), (9, 9, 9)] {
        c.case(
            || format!("[{i},{k}] x [{k},{j}], one infinite element against zeros"),
            |c| {
                for p in 0..i * k {
                    let mut a: Nd<f64> = pattern(&[i, k], 1);
                    let mut b: Nd<f64> = pattern(&[k, j], 2);
                    a.data[p] = f64::INFINITY;
                    for q in 0..j {
                        b.data[(p % k) * j + q] = if q % 2 == 0 { 0.0 } else { -1.0 };
                    }
                    c.state(hash((i, k, j, p)));
                    expect_or_refusal("bmm", attempt(|| rc(&a).bmm(&rc(&b))), &a.bmm(&b))?;
                    let (a2, b2) = (Nd::new(&[j, k], b.data.clone()), Nd::new(&[k, i], a.data.clone()));
                    expect_or_refusal("bmm", attempt(|| rc(&a2).bmm(&rc(&b2))), &a2.bmm(&b2))?;
                }
                Ok(())
            },
        );
    }
    c.section("large");
    for n in [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097] {
        c.case(
            || format!("extent {n} in each role"),
            |c| {
                c.state(hash(("large", n)));
                bmm_one(&pattern(&[n, 3], 1), &pattern(&[3, 2], 2))?;
                bmm_one(&pattern(&[3, n], 1), &pattern(&[n, 2], 2))?;
                bmm_one(&pattern(&[3, 2], 1), &pattern(&[2, n], 2))?;
                bmm_one(&pattern(&[n, 2, 2], 1), &pattern(&[2, 2], 2))?;
                bmm_one(&pattern(&[2, n, 2], 1), &pattern(&[2, 1], 2))?;
                bmm_one(&pattern(&[2, 1, n], 1), &pattern(&[n, 1], 2))
            },
        );
    }
    c.section("large batches and combinations");
    for (b, i, k, j) in [
        (256, 1, 1, 1), (257, 2, 3, 2), (300, 1, 2, 5), (513, 2, 2, 2), (1025, 1, 3, 1), (4097, 1, 1, 2),
        (2, 129, 3, 2), (3, 130, 2, 3), (2, 257, 2, 2), (5, 128, 2, 1), (2, 513, 1, 2), (9, 65, 3, 3), (33, 33, 3, 3), (65, 17, 5, 2),
        (2, 5, 129, 3), (3, 2, 601, 2), (2, 2, 1027, 3), (17, 3, 67, 5), (2, 3, 2, 129), (3, 2, 3, 257), (33, 2, 2, 65), (2, 1, 5, 1027),
        (9, 9, 9, 9), (10, 11, 12, 13), (17, 17, 17, 17), (3, 67, 33, 35), (2, 35, 67, 33),
    ] {
        c.case(|| format!("[{b},{i},{k}] x [{k},{j}]"), |c| {
            c.state(hash((b, i, k, j)));
            bmm_one(&pattern(&[b, i, k], 1), &pattern(&[k, j], 2))?;
            bmm_one(&pattern(&[b, i, k], 1), &pattern(&[k + 1, j], 2))
        });
    }
    for (i, k, j) in [(1, 601, 1), (3, 602, 5), (2, 603, 3), (5, 605, 2), (607, 7, 3), (7, 3, 607), (67, 131, 3), (131, 67, 5), (3, 131, 67), (1, 4099, 2), (2, 2051, 33), (35, 1027, 2), (1, 10_007, 1)] {
        c.case(|| format!("[{i},{k}] x [{k},{j}]"), |c| {
            c.state(hash((i, k, j)));
            bmm_one(&pattern(&[i, k], 1), &pattern(&[k, j], 2))
        });
    }
    for (i, k, j) in [(64, 64, 64), (100, 100, 100), (128, 128, 128), (129, 65, 130), (65, 130, 129)] {
        c.case(|| format!("[{i},{k}] x [{k},{j}]"), |_| bmm_one(&pattern(&[i, k], 1), &pattern(&[k, j], 2)));
    }
    c.section("lengths along each extent");
    let max = if c.thorough { 300 } else { 130 };
    for n in 1..=max {
        c.case(
            || format!("extent {n} in each role"),
            |c| {
                c.state(hash(("line", n)));
                bmm_one(&pattern(&[n, 2], 1), &pattern(&[2, 3], 2))?;
                bmm_one(&pattern(&[2, n], 1), &pattern(&[n, 2], 2))?;
                bmm_one(&pattern(&[2, 3], 1), &pattern(&[3, n], 2))?;
                bmm_one(&pattern(&[n, 1, 2], 1), &pattern(&[2, 2], 2))?;
                bmm_one(&pattern(&[2, n, 2], 1), &pattern(&[2, 1], 2))
            },
        );
    }
    c.section("sizes around powers of two");
    let sizes: &[usize] = if c.thorough {
        &[1, 2, 7, 31, 32, 33, 63, 64, 65, 100]
    } else {
        &[1, 7, 31, 32, 33, 65]
    };
    for &i in sizes {
        for &k in sizes {
            for &j in sizes {
                c.case(
                    || format!("[{i},{k}] x [{k},{j}]"),
                    |c| {
                        c.state(hash((i, k, j)));
                        bmm_one(&pattern(&[i, k], 1), &pattern(&[k, j], 2))
                    },
                );
            }
        }
    }
    c.section("other element types");
    for (a, b) in [(vec![2, 3], vec![3, 2]), (vec![2, 2, 2], vec![2, 2]), (vec![1, 3], vec![3, 1]), (vec![2, 2], vec![3, 2])] {
        macro_rules! ty {
            ($($t:ty),*) => {$(
                c.case(
                    || format!("{} {a:?} x {b:?}", stringify!($t)),
                    |_| bmm_forms::<$t>(&iota(&a, 1), &pattern(&b, 1)),
                );
            )*};
        }
        ty!(usize, u8, u32, u64, u128, i8, i32, i128, f32);
    }
}

// ---------------------------------------------------------------- C10

fn sums<T: El>(a: &Nd<T>) -> R {
    let want = Some(Nd::new(&[], vec![a.sum()]));
    let w = format!("sum of {:?}", a.shape);
    expect_or_refusal(&w, attempt(|| raw(a).sum()), &want)?;
    expect_or_refusal(&w, attempt(|| rc(a).sum()), &want)?;
    let full: Vec<_> = a.shape.iter().map(|&d| (0, d)).collect();
    expect_or_refusal(&w, attempt(|| view_of(&rc(a), &full).sum()), &want)
}
fn dots<T: El>(a: &Nd<T>, b: &Nd<T>) -> R {
    let want = a.dot(b);
    let w = |s: &str| format!("{s} of {:?} and {:?}", a.shape, b.shape);
    let (ra, rb, ca, cb) = (raw(a), raw(b), rc(a), rc(b));
    // one element; its rank is not part of the promise
    let one = |what: &str, r: Result<RcTensor<T>, String>| -> R {
        match (r, &want) {
            (Err(_), None) => Ok(()),
            (Ok(t), Some(n)) => {
                let got = read(&t)?;
                if got.data == n.data {
                    Ok(())
                } else {
                    Err(format!("{}: got {} want {}", w(what), show(&got), show(n)))
                }
            }
            (Ok(_), None) => Err(format!("{} should be refused", w(what))),
            (Err(e), Some(_)) => Err(format!("{} was refused ({e})", w(what))),
        }
    };
    one("F::dot", attempt(|| F::dot(&ca, &cb)))?;
    one("dot_no_derivative", attempt(|| F::dot_no_derivative(&ra, &cb)))?;
    one("dot_no_derivative", attempt(|| F::dot_no_derivative(&ca, &rb)))?;
    one("raw.dot", attempt(|| ra.dot(&rb)))?;
    one("raw.dot(rc)", attempt(|| ra.dot(&cb)))
}

pub fn c10(c: &mut Ctx) {
    let own: Vec<Vec<usize>> = shapes(0..=4, &[1, 2, 3]).into_iter().chain([vec![7], vec![17], vec![5, 5], vec![9, 8], vec![33, 3], vec![130], vec![1000], vec![65, 66]]).collect();
    fn own_dot<T: El>(r: &RawTensor<T>, x: &RcTensor<T>, n: &Nd<T>) -> R {
        let want = Nd::new(&[1], vec![n.data.iter().fold(T::of(0), |a, &v| a + v * v)]);
        let is = |what: &str, y: RcTensor<T>| if y.count() == 1 && y.get(&vec![]) == Ok(&want.data[0]) { Ok(()) } else { Err(format!("{what}: {y:?}, want {want:?}")) };
        is("raw.dot(itself)", attempt(|| r.dot(r))?)?;
        is("dot(raw, raw)", attempt(|| F::dot_no_derivative(r, r))?)?;
        is("dot(rc, rc)", attempt(|| F::dot_no_derivative(x, x))?)?;
        is("dot(rc, clone)", attempt(|| F::dot(x, &x.clone()))?)?;
        is("dot(rc, rc)", attempt(|| F::dot(x, x))?)
    }
    twice::<i64>(c, "dot", &own, own_dot);
    twice::<f64>(c, "dot", &own, own_dot);
    twice::<f32>(c, "dot", &own, own_dot);
    let rank = if c.thorough { 5 } else { 4 };
    c.section("each element exactly once: all shapes");
    for shape in shapes(0..=rank, &[0, 1, 2, 3, 4]) {
        let n = size(&shape);
        if n > 260 {
            continue;
        }
        c.case(
            || format!("shape {shape:?}, distinct powers of two and one-hot elements"),
            |c| {
                c.state(hash(&shape));
                if n <= 60 {
                    let p = Nd::new(&shape, (0..n).map(|i| 1i128 << i).collect());
                    sums(&p)?;
                    dots(&p, &Nd::fill(&shape, 1))?;
                    let q = Nd::new(&shape, (0..n).map(|i| 1i128 << (n - i)).collect());
                    dots(&p, &q)?;
                }
                sums(&iota::<i64>(&shape, -3))?;
                dots(&iota::<i64>(&shape, -3), &pattern(&shape, 1))?;
                for hot in 0..n.min(64) {
                    let mut a = Nd::fill(&shape, 0i64);
                    a.data[hot] = 5;
                    sums(&a)?;
                    dots(&a, &iota(&shape, 1))?;
                    c.state(hash((&shape, hot)));
                }
                Ok(())
            },
        );
    }
    c.section("high ranks");
    for shape in high_rank(&[9, 12, 17, 33]).into_iter().chain([vec![2; 9], vec![2; 11]]) {
        c.case(
            || format!("shape {shape:?}"),
            |c| {
                c.state(hash(&shape));
                let a: Nd<i64> = iota(&shape, -3);
                sums(&a)?;
                dots(&a, &pattern(&shape, 1))?;
                let mut s = shape.clone();
                s.rotate_left(1);
                for o in [s, shape[1..].to_vec(), [vec![1], shape.clone()].concat()] {
                    dots(&a, &pattern(&o, 1))?;
                }
                Ok(())
            },
        );
    }
    c.section("dot: all pairs of shapes");
    let list: Vec<_> = shapes(0..=3, &[1, 2, 3]).into_iter().chain([vec![4], vec![6], vec![0], vec![1, 0], vec![8], vec![9]]).collect();
    for a in &list {
        c.case(
            || format!("shape {a:?} with all {} shapes", list.len()),
            |c| {
                for b in &list {
                    c.state(hash((a, b)));
                    dots::<i64>(&iota(a, 1), &iota(b, 2))?;
                }
                Ok(())
            },
        );
    }
    c.section("long");
    let max = if c.thorough { 3000 } else { 400 };
    for n in 0..=max {
        c.case(
            || format!("{n} elements, as [n], [2,n], [n,3]"),
            |c| {
                for shape in [vec![n], vec![2, n], vec![n, 3]] {
                    c.state(hash(&shape));
                    sums(&iota::<i64>(&shape, 1))?;
                    dots(&iota::<i64>(&shape, 1), &pattern(&shape, 3))?;
                }
                Ok(())
            },
        );
    }
    c.section("other element types");
    for shape in shapes(0..=2, &[1, 2, 3]) {
        macro_rules! ty {
            ($($t:ty),*) => {$(
                c.case(
                    || format!("{} shape {shape:?}", stringify!($t)),
                    |_| {
                        sums::<$t>(&iota(&shape, 1))?;
                        dots::<$t>(&pattern(&shape, 1), &pattern(&shape, 2))
                    },
                );
            )*};
        }
        ty!(usize, u8, u32, u64, u128, i8, i32, i128, f32, f64);
    }
    c.section("large tensors");
    for n in LARGE {
        c.case(
            || format!("{n} elements, as [n], [2,n], [n,3], and without the first and last"),
            |c| {
                for shape in [vec![n], vec![2, n], vec![n, 3]] {
                    c.state(hash(&shape));
                    let (a, b) = (iota::<i64>(&shape, 1), pattern::<i64>(&shape, 3));
                    sums(&a)?;
                    dots(&a, &b)?;
                    let w: Vec<_> = shape.iter().map(|&d| if d == n { (1, d - 1) } else { (0, d) }).collect();
                    let (va, m) = (view_of(&rc(&a), &w), a.window(&w).unwrap());
                    expect("sum of slice", &attempt(|| va.sum())?, &Nd::new(&[], vec![m.sum()]))?;
                }
                dots(&iota::<i64>(&[n], 1), &iota::<i64>(&[n + 1], 1))
            },
        );
    }
    c.section("extreme elements");
    for &x in &INTS {
        c.case(
            || format!("sum and dot over extreme integers, first one {x}"),
            |c| {
                let add = |a: Option<i64>, b: Option<i64>| a?.checked_add(b?);
                for &y in &INTS {
                    for &z in &INTS {
                        let v = [Some(x), Some(y), Some(z)];
                        // any order of adding must fit
                        if add(add(v[0], v[1]), v[2]).is_some() && add(v[1], v[2]).is_some() && add(v[0], v[2]).is_some() {
                            c.state(hash((x, y, z)));
                            let a = Nd::new(&[3], vec![x, y, z]);
                            sums(&a)?;
                            dots(&a, &Nd::fill(&[3], 1))?;
                        }
                        for &w in &INTS {
                            if add(x.checked_mul(z), y.checked_mul(w)).is_some() {
                                dots(&Nd::new(&[2], vec![x, y]), &Nd::new(&[2], vec![z, w]))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    for &x in &FLOATS {
        c.case(
            || format!("dot over extreme doubles, first one {x:?}"),
            |c| {
                for &y in &FLOATS {
                    for &z in &FLOATS {
                        for &w in &FLOATS {
                            let (a, b) = (Nd::new(&[2], vec![x, y]), Nd::new(&[2], vec![z, w]));
                            c.state(hash((a.digest(), b.digest())));
                            let want = a.dot(&b).unwrap();
                            for (what, r) in [
                                ("F::dot", attempt(|| F::dot(&rc(&a), &rc(&b)))?),
                                ("raw.dot", attempt(|| raw(&a).dot(&raw(&b)))?),
                            ] {
                                let got = read(&r)?;
                                same(what, &Nd::new(&[], got.data), &Nd::new(&[], want.data.clone()))?;
                            }
                        }
                    }
                    let a = Nd::new(&[2], vec![x, y]);
                    let want = Some(Nd::new(&[], vec![a.sum()]));
                    expect_or_refusal("sum", attempt(|| raw(&a).sum()), &want)?;
                    expect_or_refusal("sum", attempt(|| rc(&a).sum()), &want)?;
                }
                Ok(())
            },
        );
    }
    c.section("sums of all windows");
    for base in [vec![4], vec![3, 3], vec![2, 3, 2], vec![2, 2, 2, 2]] {
        let n: Nd<i64> = Nd::new(&base, (0..size(&base)).map(|i| 1 << i).collect());
        for w in windows(&base) {
            c.case(
                || format!("sum and dot of slice {w:?} of {base:?}"),
                |c| {
                    let m = n.window(&w).unwrap();
                    c.state(hash((&base, &w)));
                    let v = view_of(&rc(&n), &w);
                    expect("sum of slice", &attempt(|| v.sum())?, &Nd::new(&[], vec![m.sum()]))?;
                    let o: Nd<i64> = iota(&m.shape, 3);
                    let want = o.dot(&m).unwrap().data;
                    for got in [
                        attempt(|| raw(&o).dot(&v))?,
                        attempt(|| F::dot_no_derivative(&v, &rc(&o)))?,
                    ] {
                        if read(&got)?.data != want {
                            return Err(format!("dot with slice: {} want {want:?}", show(&read(&got)?)));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C11

macro_rules! c11_type {
    ($c:expr, $t:ident, $values:expr, $tol:expr) => {{
        let c: &mut Ctx = $c;
        let name = stringify!($t);
        let values: Vec<$t> = $values;
        let ok = |what: &str, got: &RcTensor<$t>, n: &Nd<$t>, f: &dyn Fn($t) -> $t, tol: $t| -> R {
            let g = read(got)?;
            if g.shape != n.shape {
                return Err(format!("{what}: shape {:?} want {:?}", g.shape, n.shape));
            }
            for (p, (&y, &x)) in g.data.iter().zip(&n.data).enumerate() {
                let w = f(x);
                if !(y == w || (y - w).abs() <= tol * w.abs()) {
                    return Err(format!("{what} of {x:?} at {p} of {:?} is {y:?} want {w:?}", n.shape));
                }
            }
            Ok(())
        };
        let all = |n: &Nd<$t>| -> R {
            let t = rc(n);
            ok("abs", &attempt(|| t.abs())?, n, &|x| if x < 0.0 { -x } else { x }, 0.0)?;
            ok("relu", &attempt(|| F::relu(t.clone()))?, n, &|x| if x > 0.0 { x } else { 0.0 }, 0.0)?;
            ok("tanh", &attempt(|| F::tanh(t.clone()))?, n, &|x: $t| x.tanh(), $tol)?;
            let m = attempt(|| F::generic_unary_op(&t, |x| x * 2.0 + 1.0))?;
            ok("2x+1", &m.to_tensor(), n, &|x| x * 2.0 + 1.0, 0.0)?;
            let m = attempt(|| F::generic_unary_op(&raw(n), |x| if x > 0.0 { 1.0 } else { -1.0 }))?;
            ok("sign", &m.to_tensor(), n, &|x| if x > 0.0 { 1.0 } else { -1.0 }, 0.0)?;
            expect("operand afterwards", &t, n)
        };
        c.section("every special value at every position");
        for shape in shapes(0..=3, &[1, 2, 3])
            .into_iter()
            .chain(shapes(4..=4, &[1, 2]))
            .chain([vec![7], vec![2, 5], vec![0], vec![2, 0]])
            .chain(high_rank(&[9, 17]).into_iter().step_by(7))
        {
            c.case(
                || format!("{name} shape {shape:?}: every value at every position"),
                |c| {
                    for p in 0..size(&shape).max(1) {
                        for (k, &v) in values.iter().enumerate() {
                            let mut n: Nd<$t> = Nd::new(
                                &shape,
                                (0..size(&shape))
                                    .map(|i| values[(i * 3 + k + 1) % values.len()])
                                    .collect(),
                            );
                            if p < n.data.len() {
                                n.data[p] = v;
                            }
                            c.state(hash((name, n.digest())));
                            all(&n)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        c.section("all pairs of special values");
        for &a in &values {
            c.case(
                || format!("{name} all vectors [{a:?}, b, c]"),
                |c| {
                    for &b in &values {
                        for &d in &values {
                            let n = Nd::new(&[3], vec![a, b, d]);
                            c.state(hash((name, n.digest())));
                            all(&n)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        c.section("long");
        let max = if c.thorough { 1500 } else { 300 };
        for k in (1..=max).chain(LARGE) {
            c.case(
                || format!("{name} {k} elements"),
                |c| {
                    for shape in [vec![k], vec![2, k], vec![k, 1, 2]] {
                        c.state(hash((name, &shape)));
                        let n: Nd<$t> = Nd::new(
                            &shape,
                            (0..size(&shape)).map(|i| (i % 97) as $t * 0.37 - 17.0).collect(),
                        );
                        all(&n)?;
                    }
                    Ok(())
                },
            );
        }
    }};
}

pub fn c11(c: &mut Ctx) {
    c11_type!(
        c,
        f64,
        vec![
            0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-9, -1e-9, 5e-324, -5e-324,
            f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::EPSILON, -f64::EPSILON,
            20.0, -20.0, 400.0, -400.0, 800.0, -800.0, 1e300, -1e300,
            f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY
        ],
        1e-9
    );
    c11_type!(
        c,
        f32,
        vec![
            0.0, -0.0, 1.0, -1.0, 0.25, -3.5, 1e-9, -1e-9, 1e-45, -1e-45,
            f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 9.5, -9.5, 60.0, -60.0, 100.0, -100.0,
            f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY
        ],
        1e-5
    );
    // all f32 values whose low bits are zero (quick) / a much finer grid (thorough)
    c.section("a grid over all f32 bit patterns");
    let low: u32 = if c.thorough { 8 } else { 16 };
    let block = 4096u32;
    let total = 1u64 << (32 - low);
    for b in 0..(total / block as u64) {
        c.case(
            || format!("f32 bit patterns {:#010x}… step {:#x}, {block} of them", (b * block as u64) << low, 1u64 << low),
            |c| {
                let data: Vec<f32> = (0..block)
                    .map(|i| f32::from_bits((((b * block as u64) + i as u64) << low) as u32))
                    .filter(|x| !x.is_nan())
                    .collect();
                if data.is_empty() {
                    return Ok(());
                }
                c.state(hash(("f32 grid", b)));
                let n = Nd::new(&[data.len()], data);
                let t = rc(&n);
                let (a, r) = (attempt(|| t.abs())?, attempt(|| F::relu(t.clone()))?);
                let (ga, gr) = (read(&a)?, read(&r)?);
                for (p, &x) in n.data.iter().enumerate() {
                    if ga.data[p] != if x < 0.0 { -x } else { x } {
                        return Err(format!("abs({x:?}) is {:?}", ga.data[p]));
                    }
                    if gr.data[p] != if x > 0.0 { x } else { 0.0 } {
                        return Err(format!("relu({x:?}) is {:?}", gr.data[p]));
                    }
                }
                let gt = read(&attempt(|| F::tanh(t.clone()))?)?;
                for (p, &x) in n.data.iter().enumerate() {
                    let w = (x as f64).tanh();
                    if !((gt.data[p] as f64 - w).abs() <= 1e-5 * w.abs() + 1e-44) {
                        return Err(format!("tanh({x:?}) is {:?} want {w}", gt.data[p]));
                    }
                }
                Ok(())
            },
        );
    }
}
