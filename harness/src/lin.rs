//! Dense solver: cases, independent oracles, comparison.
use crate::rat::Rat;
use crate::util::*;
use linear::{Dense, Error, LSolver};
use nalgebra::{Const, DMatrix, RealField, SMatrix, SVector};

/// the real solver behind one interface for all sizes and storages; matrices are row-major
pub trait Obj<T> {
    fn setup(&mut self, a: &mut [T]) -> Result<(), usize>;
    fn solve(&self, a: &[T], x: &mut [T], b: &[T], tol: T) -> Result<(), String>;
    fn pivots(&self) -> Option<Vec<usize>>;
}
struct O<const N: usize> {
    d: Dense<Const<N>>,
    view: bool,
}
fn col_of(e: Error) -> usize {
    #[allow(unreachable_patterns)]
    match e {
        Error::LUFactFail { col } => col,
        _ => usize::MAX,
    }
}
impl<const N: usize, T: RealField + Copy> Obj<T> for O<N> {
    fn setup(&mut self, a: &mut [T]) -> Result<(), usize> {
        if self.view {
            let mut big = DMatrix::<T>::from_element(N + 3, N + 2, T::one());
            for i in 0..N {
                for j in 0..N {
                    big[(i + 1, j + 1)] = a[i * N + j];
                }
            }
            let mut v = big.fixed_view_mut::<N, N>(1, 1);
            let r = LSolver::<T, Const<N>>::setup(&mut self.d, &mut v).map_err(col_of);
            for i in 0..N {
                for j in 0..N {
                    a[i * N + j] = big[(i + 1, j + 1)];
                }
            }
            r
        } else {
            let mut m = SMatrix::<T, N, N>::from_fn(|i, j| a[i * N + j]);
            let r = LSolver::<T, Const<N>>::setup(&mut self.d, &mut m).map_err(col_of);
            for i in 0..N {
                for j in 0..N {
                    a[i * N + j] = m[(i, j)];
                }
            }
            r
        }
    }
    fn solve(&self, a: &[T], x: &mut [T], b: &[T], tol: T) -> Result<(), String> {
        let m = SMatrix::<T, N, N>::from_fn(|i, j| a[i * N + j]);
        if self.view {
            let mut big = DMatrix::<T>::from_element(N + 2, 3, T::one());
            let mut bb = DMatrix::<T>::from_element(N + 1, 2, T::one());
            for i in 0..N {
                big[(i + 1, 1)] = x[i];
                bb[(i, 1)] = b[i];
            }
            let r = {
                let mut xv = big.fixed_view_mut::<N, 1>(1, 1);
                let bv = bb.fixed_view_mut::<N, 1>(0, 1);
                LSolver::<T, Const<N>>::solve(&self.d, &m, &mut xv, &bv, tol).map_err(|e| format!("{:?}", e))
            };
            for i in 0..N {
                x[i] = big[(i + 1, 1)];
            }
            r
        } else {
            let mut xv = SVector::<T, N>::from_fn(|i, _| x[i]);
            let bv = SVector::<T, N>::from_fn(|i, _| b[i]);
            let r = LSolver::<T, Const<N>>::solve(&self.d, &m, &mut xv, &bv, tol).map_err(|e| format!("{:?}", e));
            for i in 0..N {
                x[i] = xv[i];
            }
            r
        }
    }
    fn pivots(&self) -> Option<Vec<usize>> {
        // the Debug form of the solver prints its pivot vector
        let s = format!("{:?}", self.d);
        let s = match s.find("pivots") {
            Some(i) => s[i..].to_string(),
            None => s,
        };
        let mut out = vec![];
        let mut cur = String::new();
        let mut inside = false;
        for c in s.chars() {
            match c {
                '[' => {
                    inside = true;
                    cur.clear();
                    out.clear();
                }
                ']' if inside => {
                    if !cur.is_empty() {
                        out.push(cur.parse().ok()?);
                    }
                    break;
                }
                c if inside && c.is_ascii_digit() => cur.push(c),
                _ if inside => {
                    if !cur.is_empty() {
                        out.push(cur.parse().ok()?);
                        cur.clear();
                    }
                }
                _ => {}
            }
        }
        if out.len() == N { Some(out) } else { None }
    }
}
pub fn obj<T: RealField + Copy>(n: usize, view: bool) -> Box<dyn Obj<T>> {
    macro_rules! sz { ($($k:literal),*) => { match n { $($k => Box::new(O::<$k> { d: <Dense<Const<$k>> as LSolver<T, Const<$k>>>::new(), view }),)* _ => panic!("size {}", n) } } }
    sz!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33)
}

// ---------------------------------------------------------------- oracles
fn show<T: std::fmt::Debug>(n: usize, a: &[T]) -> String {
    let rows: Vec<String> = (0..n).map(|i| format!("{:?}", &a[i * n..(i + 1) * n])).collect();
    format!("A=[{}]", rows.join(" "))
}
/// first column (from one) that depends on the columns before it
fn first_dependent(n: usize, a: &[Rat]) -> Option<usize> {
    let mut w = a.to_vec();
    let z = Rat::int(0);
    for k in 0..n {
        // any nonzero pivot, from the bottom, unlike the code under test
        let p = match (k..n).rev().find(|&i| w[i * n + k] != z) {
            Some(p) => p,
            None => return Some(k + 1),
        };
        for j in 0..n {
            w.swap(k * n + j, p * n + j);
        }
        for i in k + 1..n {
            let f = w[i * n + k] / w[k * n + k];
            for j in k..n {
                w[i * n + j] = w[i * n + j] - f * w[k * n + j];
            }
        }
    }
    None
}
fn residual_zero(n: usize, a: &[Rat], x: &[Rat], b: &[Rat]) -> bool {
    (0..n).all(|i| (0..n).fold(Rat::int(0), |s, j| s + a[i * n + j] * x[j]) == b[i])
}
fn product(n: usize, f: &[Rat]) -> Vec<Rat> {
    let mut m = vec![Rat::int(0); n * n];
    for i in 0..n {
        for j in 0..n {
            let mut s = Rat::int(0);
            for t in 0..=i.min(j) {
                s = s + if t == i { f[t * n + j] } else { f[i * n + t] * f[t * n + j] };
            }
            m[i * n + j] = s;
        }
    }
    m
}
fn c01(n: usize, a: &[Rat], view: bool) -> Outcome {
    let mut o = obj::<Rat>(n, view);
    let mut f = a.to_vec();
    if o.setup(&mut f).is_err() {
        return Outcome::Trivial;
    }
    let p = match o.pivots() {
        Some(p) => p,
        None => return Outcome::Skip,
    };
    let mut pa = a.to_vec();
    for k in 0..n {
        if p[k] >= n {
            return Outcome::Fail(format!("recorded exchange {} of step {} is out of range", p[k], k));
        }
        if p[k] != k {
            for j in 0..n {
                pa.swap(k * n + j, p[k] * n + j);
            }
        }
    }
    for k in 0..n {
        if f[k * n + k] == Rat::int(0) {
            return Outcome::Fail(format!("U has a zero on its diagonal at {} after a successful setup", k));
        }
    }
    let m = product(n, &f);
    if m != pa {
        return Outcome::Fail(format!("L U = {} but the exchanged rows of A are {} (exchanges {:?}, factors {})", show(n, &m), show(n, &pa), p, show(n, &f)));
    }
    Outcome::Ok
}
fn c02(n: usize, a: &[Rat], view: bool) -> Outcome {
    let mut o = obj::<Rat>(n, view);
    let mut f = a.to_vec();
    let r = o.setup(&mut f);
    let done = match r {
        Ok(()) => n,
        Err(c) => c.saturating_sub(1).min(n),
    };
    if r.is_ok() {
        for i in 0..n {
            for j in 0..i {
                if num_traits::Signed::abs(&f[i * n + j]) > Rat::int(1) {
                    return Outcome::Fail(format!("multiplier ({},{}) is {:?}, larger than one", i, j, f[i * n + j]));
                }
            }
        }
    }
    let p = match o.pivots() {
        Some(p) => p,
        None => return Outcome::Skip,
    };
    let mut w = a.to_vec();
    let ab = |x: Rat| num_traits::Signed::abs(&x);
    for k in 0..done {
        if p[k] < k || p[k] >= n {
            return Outcome::Fail(format!("pivot row {} of step {} is not among the remaining rows", p[k], k));
        }
        let top = ab(w[p[k] * n + k]);
        for i in k..n {
            let v = ab(w[i * n + k]);
            if v > top || (v == top && i < p[k]) {
                return Outcome::Fail(format!("step {} chose row {} (magnitude {:?}) although row {} has magnitude {:?}", k, p[k], top, i, v));
            }
        }
        for j in 0..n {
            w.swap(k * n + j, p[k] * n + j);
        }
        if w[k * n + k] == Rat::int(0) {
            break;
        }
        for i in k + 1..n {
            let g = w[i * n + k] / w[k * n + k];
            for j in k..n {
                w[i * n + j] = w[i * n + j] - g * w[k * n + j];
            }
        }
    }
    if done == 0 { Outcome::Trivial } else { Outcome::Ok }
}
fn c03(n: usize, a: &[Rat], view: bool) -> Outcome {
    let mut o = obj::<Rat>(n, view);
    let mut f = a.to_vec();
    let r = o.setup(&mut f);
    let want = first_dependent(n, a);
    match (r, want) {
        (Ok(()), None) => Outcome::Ok,
        (Err(c), Some(d)) if c == d => Outcome::Ok,
        (r, w) => Outcome::Fail(format!("setup returned {:?}; first dependent column is {:?}", r, w)),
    }
}
fn rhs(n: usize, r: &mut Rng) -> Vec<Rat> {
    match r.below(4) {
        0 => {
            let k = r.below(n);
            (0..n).map(|i| Rat::int((i == k) as i64)).collect()
        }
        1 => (0..n).map(|i| Rat::int(i as i64 + 1)).collect(),
        _ => (0..n).map(|_| Rat::int(r.below(7) as i64 - 3)).collect(),
    }
}
fn c04(n: usize, a: &[Rat], view: bool, r: &mut Rng) -> Outcome {
    let mut o = obj::<Rat>(n, view);
    let mut f = a.to_vec();
    if first_dependent(n, a).is_some() {
        return Outcome::Trivial;
    }
    if o.setup(&mut f).is_err() {
        return Outcome::Trivial;
    }
    let b = rhs(n, r);
    let f0 = f.clone();
    let mut x: Vec<Rat> = (0..n).map(|_| Rat::int(r.below(5) as i64 - 2)).collect();
    let tol = [Rat::int(0), Rat::int(1), Rat::int(-1), Rat::new(1, 1000), Rat::int(1000000)][r.below(5)];
    let x0 = x.clone();
    if let Err(e) = o.solve(&f, &mut x, &b, tol) {
        return Outcome::Fail(format!("solve reported {}", e));
    }
    if f != f0 {
        return Outcome::Fail("solve changed the factored matrix".into());
    }
    if !residual_zero(n, a, &x, &b) {
        return Outcome::Fail(format!("x = {:?} does not solve A x = b for b = {:?} (x held {:?}, tol {:?})", x, b, x0, tol));
    }
    Outcome::Ok
}
/// a history of setups and solves on one object, each compared with a new object
fn c05(n: usize, pool: &[Vec<Rat>], seed: u64, view: bool) -> Outcome {
    let mut r = Rng::new(seed);
    let mut o = obj::<Rat>(n, view);
    let mut g = obj::<f64>(n, view);
    let mut nt = 0;
    for step in 0..2 + r.below(3) {
        let a = &pool[r.below(pool.len())];
        let mut f = a.clone();
        let got = o.setup(&mut f);
        let mut fresh = obj::<Rat>(n, view);
        let mut f2 = a.clone();
        let want = fresh.setup(&mut f2);
        if got != want || f != f2 {
            return Outcome::Fail(format!("setup {} of the history gave {:?} {}, a new solver {:?} {} on {}", step, got, show(n, &f), want, show(n, &f2), show(n, a)));
        }
        // the same on floating point values
        let af: Vec<f64> = a.iter().map(|v| v.to_f64()).collect();
        let mut h = af.clone();
        let mut h2 = af.clone();
        let mut gfresh = obj::<f64>(n, view);
        let gr = g.setup(&mut h);
        let gr2 = gfresh.setup(&mut h2);
        if gr != gr2 || h.iter().zip(&h2).any(|(p, q)| !same(*p, *q)) {
            return Outcome::Fail(format!("floating-point setup {} of the history differs from a new solver on {}", step, show(n, a)));
        }
        if first_dependent(n, a).is_some() || got.is_err() {
            continue;
        }
        for s in 0..1 + r.below(4) {
            let b = rhs(n, &mut r);
            let mut x: Vec<Rat> = (0..n).map(|_| Rat::int(r.below(9) as i64 - 4)).collect();
            let q = o.solve(&f, &mut x, &b, Rat::int(0));
            if q.is_err() || !residual_zero(n, a, &x, &b) {
                return Outcome::Fail(format!("setup {}, solve {} gave {:?} {:?} for b = {:?} on {}", step, s, q, x, b, show(n, a)));
            }
            if gr.is_ok() {
                let bf: Vec<f64> = b.iter().map(|v| v.to_f64()).collect();
                let mut y = vec![7.0; n];
                let mut y2 = vec![-1.0; n];
                let _ = g.solve(&h, &mut y, &bf, 0.0);
                let _ = gfresh.solve(&h2, &mut y2, &bf, 0.0);
                if y.iter().zip(&y2).any(|(p, q)| !same(*p, *q)) {
                    return Outcome::Fail(format!("floating-point setup {}, solve {} differs from a new solver for b = {:?} on {}", step, s, b, show(n, a)));
                }
            }
            nt += 1;
        }
    }
    if nt > 0 { Outcome::Ok } else { Outcome::Trivial }
}
// ---------------------------------------------------------------- floating point reference (SUNDIALS dense)
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn ref_getrf(n: usize, a: &mut [f64], p: &mut [usize]) -> Result<(), usize> {
    for k in 0..n {
        let mut l = k;
        for i in k + 1..n {
            if a[i * n + k].abs() > a[l * n + k].abs() {
                l = i;
            }
        }
        p[k] = l;
        if a[l * n + k] == 0.0 {
            return Err(k + 1);
        }
        if l != k {
            for j in 0..n {
                a.swap(l * n + j, k * n + j);
            }
        }
        let mult = 1.0 / a[k * n + k];
        for i in k + 1..n {
            a[i * n + k] *= mult;
        }
        for j in k + 1..n {
            let akj = a[k * n + j];
            if akj != 0.0 {
                for i in k + 1..n {
                    a[i * n + j] -= akj * a[i * n + k];
                }
            }
        }
    }
    Ok(())
}
fn ref_getrs(n: usize, a: &[f64], p: &[usize], b: &mut [f64]) {
    for k in 0..n {
        if p[k] != k {
            b.swap(k, p[k]);
        }
    }
    for k in 0..n - 1 {
        let bk = b[k];
        for i in k + 1..n {
            b[i] -= a[i * n + k] * bk;
        }
    }
    for k in (1..n).rev() {
        b[k] /= a[k * n + k];
        let bk = b[k];
        for i in 0..k {
            b[i] -= a[i * n + k] * bk;
        }
    }
    b[0] /= a[0];
}
fn c06(n: usize, a: &[f64], b: &[f64], view: bool) -> Outcome {
    let mut o = obj::<f64>(n, view);
    let mut f = a.to_vec();
    let mut g = a.to_vec();
    let mut p = vec![0usize; n];
    let r = o.setup(&mut f);
    let q = ref_getrf(n, &mut g, &mut p);
    if r != q {
        return Outcome::Fail(format!("setup returned {:?}, the reference {:?}", r, q));
    }
    if let Some(i) = (0..n * n).find(|&i| !same(f[i], g[i])) {
        return Outcome::Fail(format!("entry ({},{}) after setup is {:e}, in the reference {:e}", i / n, i % n, f[i], g[i]));
    }
    if r.is_err() {
        return Outcome::Ok;
    }
    if let Some(pv) = o.pivots() {
        if pv != p {
            return Outcome::Fail(format!("exchanges {:?}, in the reference {:?}", pv, p));
        }
    }
    let mut x = vec![3.0; n];
    let mut y = b.to_vec();
    if let Err(e) = o.solve(&f, &mut x, b, 1e-3) {
        return Outcome::Fail(format!("solve reported {}", e));
    }
    ref_getrs(n, &g, &p, &mut y);
    if let Some(i) = (0..n).find(|&i| !same(x[i], y[i])) {
        return Outcome::Fail(format!("x[{}] = {:e}, in the reference {:e}, for b = {:?}", i, x[i], y[i], b));
    }
    Outcome::Ok
}
fn c07(n: usize, seed: u64, view: bool) -> Outcome {
    let mut r = Rng::new(seed);
    let mut o = obj::<f64>(n, view);
    let mut a = fmat(n, &mut r);
    for _ in 0..1 + r.below(6) {
        match r.below(3) {
            0 => a = fmat(n, &mut r),
            1 => {
                let _ = o.setup(&mut a);
            }
            _ => {
                let b = fvec(n, &mut r);
                let mut x = fvec(n, &mut r);
                let _ = o.solve(&a, &mut x, &b, SPECIAL[r.below(SPECIAL.len())]);
            }
        }
    }
    Outcome::Ok
}
pub const SPECIAL: [f64; 16] = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, -3.0, 1.0 / 3.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-308, 5e-324, 1e308, 1e-17, -1e17];
fn fvec(n: usize, r: &mut Rng) -> Vec<f64> {
    let mode = r.below(3);
    (0..n).map(|_| fval(mode, r)).collect()
}
fn fval(mode: usize, r: &mut Rng) -> f64 {
    match mode {
        0 => SPECIAL[r.below(SPECIAL.len())],
        1 => (r.next() as i64 as f64) / (1u64 << 60) as f64,
        _ => {
            if r.below(3) == 0 { SPECIAL[r.below(8)] } else { (r.below(2001) as f64 - 1000.0) / 7.0 * 10f64.powi(r.below(9) as i32 - 4) }
        }
    }
}
fn fmat(n: usize, r: &mut Rng) -> Vec<f64> {
    let mode = r.below(6);
    let mut a: Vec<f64> = (0..n * n).map(|_| match mode {
        0 => SPECIAL[r.below(SPECIAL.len())],
        1 | 2 => fval(1, r),
        3 => SPECIAL[r.below(6)],
        4 => if r.below(3) == 0 { fval(1, r) } else { 0.0 },
        _ => fval(2, r),
    }).collect();
    if r.below(5) == 0 && n > 1 {
        let (p, q) = (r.below(n), r.below(n));
        for i in 0..n {
            a[i * n + q] = a[i * n + p];
        }
    }
    a
}
// ---------------------------------------------------------------- exact case families
fn small(set: &[Rat], n: usize, mut code: u64) -> Vec<Rat> {
    (0..n * n).map(|_| {
        let v = set[(code % set.len() as u64) as usize];
        code /= set.len() as u64;
        v
    }).collect()
}
fn random(n: usize, r: &mut Rng) -> Vec<Rat> {
    let z = Rat::int(0);
    let span = [3usize, 5, 9, 21][r.below(4)];
    let val = |r: &mut Rng| Rat::int(r.below(span) as i64 - (span / 2) as i64);
    let kind = r.below(9);
    let mut a: Vec<Rat> = (0..n * n).map(|_| val(r)).collect();
    match kind {
        // upper triangular with shuffled rows: every pivot order
        0 | 1 => {
            for i in 0..n {
                for j in 0..n {
                    if j < i {
                        a[i * n + j] = z;
                    } else if i == j && a[i * n + j] == z {
                        a[i * n + j] = Rat::int(1);
                    }
                }
            }
            for i in (1..n).rev() {
                let k = r.below(i + 1);
                for j in 0..n {
                    a.swap(i * n + j, k * n + j);
                }
            }
        }
        // a column equal to a combination of others
        2 | 3 => {
            let q = r.below(n);
            let (s, t) = (r.below(n), r.below(n));
            let (u, v) = (val(r), val(r));
            for i in 0..n {
                a[i * n + q] = u * a[i * n + s] + v * a[i * n + t];
                if s == q && t == q {
                    a[i * n + q] = z;
                }
            }
        }
        // equal magnitudes
        4 => {
            for v in a.iter_mut() {
                *v = if r.coin() { Rat::int(1) } else { Rat::int(-1) };
            }
        }
        // very small and very large entries
        5 => {
            for v in a.iter_mut() {
                if r.below(3) == 0 {
                    *v = *v * Rat { n: 1, d: 1i128 << (4 + r.below(3) * 26) };
                } else if r.below(5) == 0 {
                    *v = *v * Rat { n: 1i128 << 20, d: 1 };
                }
            }
        }
        // sparse
        6 => {
            for v in a.iter_mut() {
                if r.below(3) != 0 {
                    *v = z;
                }
            }
        }
        // fractions
        7 => {
            for v in a.iter_mut() {
                *v = *v / Rat::int(1 + r.below(4) as i64);
            }
        }
        _ => {}
    }
    a
}
fn sparse_big(n: usize, r: &mut Rng) -> Vec<Rat> {
    // shuffled unit-triangular matrices with few entries: exact values stay small
    let mut a = vec![Rat::int(0); n * n];
    for i in 0..n {
        a[i * n + i] = Rat::int([1, -1, 2, 3, -2][r.below(5)]);
        for j in 0..n {
            if j > i && r.below(4) == 0 {
                a[i * n + j] = Rat::int(r.below(5) as i64 - 2);
            } else if j < i && r.below(2 * n) == 0 {
                a[i * n + j] = Rat::int(r.below(3) as i64 - 1);
            }
        }
    }
    for i in (1..n).rev() {
        let k = r.below(i + 1);
        for j in 0..n {
            a.swap(i * n + j, k * n + j);
        }
    }
    if r.below(4) == 0 {
        let (q, s) = (r.below(n), r.below(n));
        for i in 0..n {
            a[i * n + q] = if q == s { Rat::int(0) } else { a[i * n + s] };
        }
    }
    a
}
pub fn run(run: &mut Run) {
    let pid = run.pid.clone();
    let seed = run.seed;
    let th = run.thorough;
    match pid.as_str() {
        "C01" | "C02" | "C03" | "C04" => {
            let one = |n: usize, a: &[Rat], i: u64| -> Outcome {
                let view = i % 5 == 4;
                match pid.as_str() {
                    "C01" => c01(n, a, view),
                    "C02" => c02(n, a, view),
                    "C03" => c03(n, a, view),
                    _ => c04(n, a, view, &mut Rng::new(seed ^ i.wrapping_mul(77))),
                }
            };
            let q = |v: &[i64]| -> Vec<Rat> { v.iter().map(|x| Rat::int(*x)).collect() };
            let mut s1 = q(&[-2, -1, 0, 1, 2, 7]);
            s1.push(Rat::new(1, 3));
            s1.push(Rat { n: 1, d: 1i128 << 60 });
            let s2 = if th { q(&[-3, -2, -1, 0, 1, 2, 3]) } else { q(&[-2, -1, 0, 1, 2]) };
            let s3 = if th { q(&[-1, 0, 1, 2]) } else { q(&[-1, 0, 2]) };
            for (n, s) in [(1usize, &s1), (2, &s2), (3, &s3)] {
                run.family(&format!("all {}x{} with entries from {:?}", n, n, s));
                let tot = (s.len() as u64).pow((n * n) as u32);
                for code in 0..tot {
                    if !run.open() {
                        break;
                    }
                    let a = small(s, n, code);
                    run.case(|| show(n, &a), || one(n, &a, code));
                }
            }
            let reps: u64 = if th { 200_000 } else { 12_000 };
            for n in [2usize, 3, 4, 5, 6, 7, 8] {
                run.family(&format!("random {}x{}", n, n));
                let mut r = Rng::new(seed * 1000 + n as u64);
                for i in 0..reps / (n as u64) {
                    if !run.open() {
                        break;
                    }
                    let a = random(n, &mut r);
                    run.case(|| show(n, &a), || one(n, &a, i));
                }
            }
            for n in [9usize, 10, 12, 16, 17, 20, 33] {
                run.family(&format!("sparse {}x{}", n, n));
                let mut r = Rng::new(seed * 2000 + n as u64);
                for i in 0..reps / 20 {
                    if !run.open() {
                        break;
                    }
                    let a = sparse_big(n, &mut r);
                    run.case(|| show(n, &a), || one(n, &a, i));
                }
            }
        }
        "C05" => {
            for n in [1usize, 2, 3, 4, 5, 7, 9, 12] {
                run.family(&format!("histories of {}x{} systems", n, n));
                let mut r = Rng::new(seed * 3000 + n as u64);
                for i in 0..(if th { 60_000 } else { 3_000 }) / n as u64 {
                    if !run.open() {
                        break;
                    }
                    let pool: Vec<Vec<Rat>> = (0..3).map(|_| if n < 8 { random(n, &mut r) } else { sparse_big(n, &mut r) }).collect();
                    run.case(|| format!("pool {}", pool.iter().map(|a| show(n, a)).collect::<Vec<_>>().join(" ; ")), || c05(n, &pool, i, i % 4 == 3));
                }
            }
        }
        "C06" => {
            let set = [0.0, -0.0, 1.0, -1.0, 3.0, f64::INFINITY, f64::NAN];
            run.family("all 2x2 with entries from {0,-0,1,-1,3,inf,nan}");
            for code in 0..7u64.pow(4) {
                if !run.open() {
                    break;
                }
                let mut c = code;
                let a: Vec<f64> = (0..4).map(|_| { let v = set[(c % 7) as usize]; c /= 7; v }).collect();
                run.case(|| show(2, &a), || c06(2, &a, &[1.0, -3.0], code % 5 == 4));
            }
            for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33] {
                run.family(&format!("random floating point {}x{}", n, n));
                let mut r = Rng::new(seed * 4000 + n as u64);
                for i in 0..(if th { 100_000u64 } else { 6_000 }) / n as u64 {
                    if !run.open() {
                        break;
                    }
                    let a = fmat(n, &mut r);
                    let b = fvec(n, &mut r);
                    run.case(|| show(n, &a), || c06(n, &a, &b, i % 5 == 4));
                }
            }
        }
        "C07" => {
            for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33] {
                run.family(&format!("any calls in any order, {}x{}", n, n));
                for i in 0..(if th { 100_000u64 } else { 8_000 }) / n as u64 {
                    if !run.open() {
                        break;
                    }
                    let s = seed * 5000 + i * 41 + n as u64;
                    run.case(|| format!("n = {}, call sequence seed {}", n, s), || c07(n, s, i % 5 == 4));
                }
            }
        }
        _ => {}
    }
}
