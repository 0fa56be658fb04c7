//! Weighted root-mean-square norm against a direct evaluation with compensated sums.
use crate::util::*;
use nalgebra::{DMatrix, DVector, SVector};
use nonlinear::norm_wrms::NormWRMS;

/// sum of squares of products, nearly exact: every partial sum is kept with its rounding error
fn oracle(x: &[f64], w: &[f64]) -> f64 {
    let (mut s, mut c) = (0f64, 0f64);
    for (a, b) in x.iter().zip(w) {
        let p = a * b;
        let e = a.mul_add(*b, -p);
        let q = p * p;
        let eq = p.mul_add(p, -q) + 2.0 * p * e;
        let t = s + q;
        c += if s.abs() >= q.abs() { (s - t) + q } else { (q - t) + s } + eq;
        s = t;
    }
    ((s + c) / x.len() as f64).sqrt()
}
fn eval(x: &[f64], w: &[f64], kind: u64) -> f64 {
    let n = x.len();
    match kind % 4 {
        1 => {
            let m = DMatrix::from_fn(n + 2, 3, |i, j| if j == 1 && i >= 1 && i <= n { x[i - 1] } else { 1e9 });
            let v = m.view((1, 1), (n, 1));
            v.norm_wrms(&DVector::from_column_slice(w).column(0))
        }
        2 if n == 1 => SVector::<f64, 1>::from_column_slice(x).norm_wrms(&SVector::<f64, 1>::from_column_slice(w)),
        2 if n == 3 => SVector::<f64, 3>::from_column_slice(x).norm_wrms(&SVector::<f64, 3>::from_column_slice(w)),
        2 if n == 8 => SVector::<f64, 8>::from_column_slice(x).norm_wrms(&SVector::<f64, 8>::from_column_slice(w)),
        3 => DVector::from_column_slice(x).column(0).norm_wrms(&DVector::from_column_slice(w)),
        _ => DVector::from_column_slice(x).norm_wrms(&DVector::from_column_slice(w)),
    }
}
fn one(x: &[f64], w: &[f64], kind: u64) -> Outcome {
    let (g, e) = (eval(x, w, kind), oracle(x, w));
    // the plain sum of n non-negative terms errs by at most about n roundings, relatively
    let tol = (x.len() as f64 + 16.0) * 4.0 * f64::EPSILON;
    if !((g - e).abs() <= tol * e) {
        return Outcome::Fail(format!("norm is {:e}, expected {:e}", g, e));
    }
    if e == 0.0 { Outcome::Trivial } else { Outcome::Ok }
}
pub fn run(run: &mut Run) {
    let th = run.thorough;
    let show = |x: &[f64], w: &[f64]| if x.len() <= 8 { format!("x {:?} w {:?}", x, w) } else { format!("N = {}, x[..4] {:?}, w[..4] {:?}", x.len(), &x[..4], &w[..4]) };
    let set = [-2.0, -0.5, 0.0, 1.0, 3.0];
    for n in [1usize, 2, 3] {
        run.family(&format!("all x, w of length {} over {:?}", n, set));
        for code in 0..25u64.pow(n as u32) {
            if !run.open() {
                break;
            }
            let mut c = code;
            let v: Vec<(f64, f64)> = (0..n).map(|_| { let a = (c % 5) as usize; let b = (c / 5 % 5) as usize; c /= 25; (set[a], set[b]) }).collect();
            let (x, w): (Vec<f64>, Vec<f64>) = v.into_iter().unzip();
            run.case(|| show(&x, &w), || one(&x, &w, code));
        }
    }
    let mut lens: Vec<usize> = (1..=40).collect();
    lens.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 4097]);
    run.family("one nonzero component, at every position");
    for &n in &lens {
        for k in (0..n).step_by(1 + n / 64) {
            if !run.open() {
                break;
            }
            let mut x = vec![0.0; n];
            x[k] = 3.0 + k as f64;
            let w: Vec<f64> = (0..n).map(|i| 0.5 + i as f64).collect();
            run.case(|| format!("N = {}, nonzero at {}", n, k), || one(&x, &w, k as u64));
        }
    }
    run.family("pseudo-random vectors");
    let mut r = Rng::new(run.seed * 9000);
    for i in 0..(if th { 200_000u64 } else { 10_000 }) {
        if !run.open() {
            break;
        }
        let n = if i % 50 == 49 { [65_535usize, 65_536, 70_000, 131_072][r.below(4)] } else { lens[r.below(if i % 3 == 0 { lens.len() } else { 40 })] };
        let mut g = |z: bool| -> f64 {
            let m = (r.below(20_001) as f64 - 10_000.0) / 1024.0;
            if z && r.below(6) == 0 { 0.0 } else { m * [1.0, 1e-3, 1e6, 1e-30, 1e30][if z { r.below(5) } else { 0 }] }
        };
        let x: Vec<f64> = (0..n).map(|_| g(i % 4 == 0)).collect();
        let w: Vec<f64> = (0..n).map(|_| g(false)).collect();
        run.case(|| show(&x, &w), || one(&x, &w, i));
    }
}
