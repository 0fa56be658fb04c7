// the extracted norm against the real one
#![allow(warnings)]
mod rt;
mod gen;
use gen::*;
mod ext {
    use crate::rt::*;
    include!(env!("VX_EXT"));
}
use nalgebra::{DVector, SVector};
use nonlinear::norm_wrms::NormWRMS;
fn main() {
    let mut run = start();
    let mut r = Rng(run.seed * 79);
    while run.open() {
        let n = 1 + r.below(if run.cases % 16 == 0 { 300 } else { 9 });
        let mode = r.below(4);
        let x: Vec<f64> = (0..n).map(|_| r.val(mode)).collect();
        let w: Vec<f64> = (0..n).map(|_| r.val(mode)).collect();
        let a = guarded(|| if n == 3 { SVector::<f64, 3>::from_column_slice(&x).norm_wrms(&SVector::<f64, 3>::from_column_slice(&w)) } else { DVector::from_column_slice(&x).norm_wrms(&DVector::from_column_slice(&w)) });
        let vc = |v: &[f64]| rt::Vc(v.iter().map(|x| rt::Sc(*x)).collect());
        let b = guarded(|| ext::norm_wrms(&vc(&x), &vc(&w)).0);
        // sums nalgebra computes by itself may be taken in another order
        let (eq, exact) = match (a, b) { (Ok(a), Ok(b)) => (same(a, b), ext::EXACT || !a.is_finite() || (a - b).abs() <= 1e-12 * a.abs()), (Err(()), Err(())) => (true, true), _ => (false, false) };
        if !(eq || !ext::EXACT && exact) { run.differs(format!("x {:?} w {:?}: crate {:?}, extracted text {:?}", x, w, a, b)) }
    }
    run.done();
}
