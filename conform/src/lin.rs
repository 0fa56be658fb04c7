// the extracted dense solver against the real one
#![allow(warnings)]
mod rt;
mod gen;
use gen::*;
mod ext {
    use crate::rt::*;
    include!(env!("VX_EXT"));
}
use linear::{Dense, LSolver};
use nalgebra::{Const, SMatrix, SVector};

/// what a history of calls shows: after each setup its answer and the matrix, after each solve its answer and x
type Seen = Vec<(i64, Vec<f64>)>;
fn real<const N: usize>(h: &[(Vec<f64>, Vec<Vec<f64>>)], x0: &[f64]) -> Seen {
    let mut s = <Dense<Const<N>> as LSolver<f64, Const<N>>>::new();
    let mut out = vec![];
    for (a, bs) in h {
        let mut m = SMatrix::<f64, N, N>::from_fn(|i, j| a[i * N + j]);
        let r = match s.setup(&mut m) { Ok(()) => -1, Err(linear::Error::LUFactFail { col }) => col as i64, #[allow(unreachable_patterns)] _ => -9 };
        out.push((r, (0..N * N).map(|k| m[(k / N, k % N)]).collect()));
        for b in bs {
            let mut x = SVector::<f64, N>::from_fn(|i, _| x0[i]);
            let bv = SVector::<f64, N>::from_fn(|i, _| b[i]);
            let r = if s.solve(&m, &mut x, &bv, 0.5).is_ok() { -1 } else { -2 };
            out.push((r, (0..N).map(|i| x[i]).collect()));
        }
    }
    out
}
fn extr(n: usize, h: &[(Vec<f64>, Vec<Vec<f64>>)], x0: &[f64]) -> Seen {
    use rt::*;
    set_dim(n);
    let vc = |v: &[f64]| Vc(v.iter().map(|x| Sc(*x)).collect());
    let mut s = ext::Dense::new();
    let mut out = vec![];
    for (a, bs) in h {
        let mut m = Mat { r: n, c: n, d: a.iter().map(|x| Sc(*x)).collect() };
        let r = match s.setup(&mut m) { Ok(()) => -1, Err(ext::Error::LUFactFail { col }) => col as i64 };
        out.push((r, m.d.iter().map(|x| x.0).collect()));
        for b in bs {
            let mut x = vc(x0);
            let r = if s.solve(&m, &mut x, &vc(b), Sc(0.5)).is_ok() { -1 } else { -2 };
            out.push((r, x.0.iter().map(|x| x.0).collect()));
        }
    }
    out
}
fn eq(a: &Result<Seen, ()>, b: &Result<Seen, ()>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && sames(&x.1, &y.1)),
        (Err(()), Err(())) => true,
        _ => false,
    }
}
fn main() {
    let mut run = start();
    let mut r = Rng(run.seed * 77);
    while run.open() {
        let n = 1 + r.below(if run.cases % 8 == 0 { 8 } else { 4 });
        let mode = r.below(4);
        let x0: Vec<f64> = (0..n).map(|_| r.val(1)).collect();
        let h: Vec<_> = (0..1 + r.below(3)).map(|_| {
            let mut a: Vec<f64> = (0..n * n).map(|_| r.val(mode)).collect();
            if n > 1 && r.below(6) == 0 { let (p, q) = (r.below(n), r.below(n)); for i in 0..n { a[i * n + p] = a[i * n + q] } }
            (a, (0..r.below(3)).map(|_| (0..n).map(|_| r.val(mode)).collect()).collect::<Vec<Vec<f64>>>())
        }).collect();
        let a = guarded(|| match n { 1 => real::<1>(&h, &x0), 2 => real::<2>(&h, &x0), 3 => real::<3>(&h, &x0), 4 => real::<4>(&h, &x0),
            5 => real::<5>(&h, &x0), 6 => real::<6>(&h, &x0), 7 => real::<7>(&h, &x0), _ => real::<8>(&h, &x0) });
        let b = guarded(|| extr(n, &h, &x0));
        if !eq(&a, &b) { run.differs(format!("n={} history {:?}: crate {:?}, extracted text {:?}", n, h, a, b)) }
    }
    run.done();
}
