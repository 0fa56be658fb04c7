// every operation assumed in specs/prelude.rs and specs/norm.rs, and every axiom of specs/bits.rs,
// against nalgebra and f64; an assumed operation or axiom without a test here is an error
#![allow(warnings)]
mod rt;
mod gen;
use gen::*;
use nalgebra::{DMatrix, DVector, Matrix, OVector, RealField, SMatrix, SVector, Const};
use num_traits_shim::*;
use rt::*;
use std::collections::BTreeSet;
// the trait methods the crates reach through nalgebra
mod num_traits_shim {
    pub fn zero<T: nalgebra::RealField>() -> T { T::zero() }
    pub fn one<T: nalgebra::RealField>() -> T { T::one() }
    pub fn abs<T: nalgebra::RealField>(a: T) -> T { a.abs() }
    pub fn recip<T: nalgebra::RealField>(a: T) -> T { a.recip() }
    pub fn sqrt<T: nalgebra::RealField>(a: T) -> T { nalgebra::ComplexField::sqrt(a) }
    pub fn powi<T: nalgebra::RealField>(a: T, n: i32) -> T { nalgebra::ComplexField::powi(a, n) }
    pub fn is_zero<T: nalgebra::RealField>(a: &T) -> bool { a.is_zero() }
    pub fn lt<T: nalgebra::RealField>(a: T, b: T) -> (bool, bool, bool) { (a < b, a > b, a == b) }
    pub fn from_usize<T: nalgebra::RealField>(n: usize) -> T { assert!(T::from_usize(n) == Some(nalgebra::convert(n as f64))); nalgebra::convert(n as f64) }
    pub fn convert<T: nalgebra::RealField>(x: f64) -> T { nalgebra::convert(x) }
    pub fn default_epsilon<T: nalgebra::RealField>() -> T { T::default_epsilon() }
    pub fn max<T: nalgebra::RealField>(a: T, b: T) -> T { a.max(b) }
    pub fn min<T: nalgebra::RealField>(a: T, b: T) -> T { a.min(b) }
    pub fn mul_add<T: nalgebra::RealField>(a: T, b: T, c: T) -> T { a.mul_add(b, c) }
    pub fn signum<T: nalgebra::RealField>(a: T) -> T { a.signum() }
    pub fn is_finite<T: nalgebra::RealField>(a: T) -> bool { a.is_finite() }
    pub fn from<T: From<u32>>(n: u32) -> T { T::from(n) }
}

struct T { run: Run, done: BTreeSet<&'static str> }
impl T {
    fn ck(&mut self, name: &'static str, ok: bool, what: impl Fn() -> String) {
        self.done.insert(name);
        if !ok { self.run.differs(format!("{}: {}", name, what())) }
    }
}
fn fv(v: &Vc) -> Vec<f64> { v.0.iter().map(|x| x.0).collect() }
fn vc(v: &[f64]) -> Vc { Vc(v.iter().map(|x| Sc(*x)).collect()) }
fn fm(m: &Mat) -> Vec<f64> { m.d.iter().map(|x| x.0).collect() }
fn dm(m: &DMatrix<f64>) -> Vec<f64> { (0..m.nrows() * m.ncols()).map(|k| m[(k / m.ncols(), k % m.ncols())]).collect() }
fn same_or(a: Result<Vec<f64>, ()>, b: Result<Vec<f64>, ()>) -> bool {
    match (a, b) { (Ok(a), Ok(b)) => sames(&a, &b), (Err(()), Err(())) => true, _ => false }
}
fn axioms(t: &mut T, a: f64, b: f64) {
    let eq = |x: f64, y: f64| same(x, y);
    let w = || format!("{:e} ({:x}), {:e} ({:x})", a, a.to_bits(), b, b.to_bits());
    t.ck("ieee_mul_comm", eq(a * b, b * a), w);
    t.ck("ieee_add_comm", eq(a + b, b + a), w);
    t.ck("ieee_lt_asym", !(a < b) || !(b < a), w);
    t.ck("ieee_eq_sym", (a == b) == (b == a), w);
    t.ck("ieee_eq_lt", !(a < b) || a != b, w);
    t.ck("ieee_recip", eq(recip(a), one::<f64>() / a), w);
    t.ck("ieee_mul_one", eq(a * one::<f64>(), a), w);
    t.ck("ieee_one_nonzero", one::<f64>() != zero::<f64>(), w);
    t.ck("ieee_sub_neg", eq(a + (-b), a - b), w);
    t.ck("ieee_mul_minus_one", eq(a * (-one::<f64>()), -a), w);
}
fn scalars(t: &mut T, a: f64, b: f64, n: u32) {
    let w = || format!("{:e}, {:e}, {}", a, b, n);
    t.ck("abs", same(Sc(a).abs().0, abs(a)), w);
    t.ck("recip", same(Sc(a).recip().0, recip(a)), w);
    t.ck("sqrt", same(Sc(a).sqrt().0, sqrt(a)), w);
    t.ck("powi", same(Sc(a).powi(n as i32 % 4).0, powi(a, n as i32 % 4)), w);
    t.ck("zero", same(Sc::zero().0, zero()), w);
    t.ck("one", same(Sc::one().0, one()), w);
    t.ck("from", same(Sc::from(n).0, from(n)), w);
    t.ck("from_int", same(Sc::from_int(n as usize).0, from_usize(n as usize)), w);
    let d = 1u64 << (n % 60);
    t.ck("dyadic", same(Sc::dyadic(n as i64, d).0, convert(n as f64 / d as f64)), w);
    t.ck("literal", same(Sc::literal(a.to_bits()).0, convert(a)), w);
    t.ck("default_epsilon", same(Sc::default_epsilon().0, default_epsilon()), w);
    t.ck("max", same(Sc(a).max(Sc(b)).0, max(a, b)), w);
    t.ck("min", same(Sc(a).min(Sc(b)).0, min(a, b)), w);
    t.ck("mul_add", same(Sc(a).mul_add(Sc(b), Sc(n as f64)).0, mul_add(a, b, n as f64)), w);
    t.ck("signum", same(Sc(a).signum().0, signum(a)), w);
    t.ck("is_finite", Sc(a).is_finite() == is_finite(a), w);
    t.ck("is_zero", Sc(a).is_zero() == is_zero(&a), w);
    t.ck("clone_sc", same(Sc(a).clone_sc().0, a.clone()), w);
    t.ck("add", same((Sc(a) + Sc(b)).0, a + b), w);
    t.ck("sub", same((Sc(a) - Sc(b)).0, a - b), w);
    t.ck("mul", same((Sc(a) * Sc(b)).0, a * b), w);
    t.ck("div", same((Sc(a) / Sc(b)).0, a / b), w);
    t.ck("neg", same((-Sc(a)).0, -a), w);
    t.ck("eq", (Sc(a) == Sc(b)) == (a == b) && (Sc(a) != Sc(b)) == (a != b), w);
    t.ck("partial_cmp", Sc(a).partial_cmp(&Sc(b)) == a.partial_cmp(&b) && (Sc(a) < Sc(b), Sc(a) > Sc(b), Sc(a) == Sc(b)) == lt(a, b) && (Sc(a) <= Sc(b)) == (a <= b) && (Sc(a) >= Sc(b)) == (a >= b), w);
}
fn vectors(t: &mut T, r: &mut Rng, mode: usize) {
    let n = 1 + r.below(5);
    let k = if r.below(8) == 0 { 1 + r.below(6) } else { n };
    let x: Vec<f64> = (0..n).map(|_| r.val(mode)).collect();
    let y: Vec<f64> = (0..k).map(|_| r.val(mode)).collect();
    let (s, u) = (r.val(mode), if r.below(3) == 0 { 0.0 } else { r.val(mode) });
    let (i, j) = (r.below(n + 1), r.below(n + 1));
    let (dx, dy) = (DVector::from_column_slice(&x), DVector::from_column_slice(&y));
    let w = || format!("x {:?} y {:?} s {:e} u {:e} i {} j {}", x, y, s, u, i, j);
    macro_rules! mutate { ($name:expr, $f:expr, $g:expr) => {{
        let a = guarded(|| { let mut v = vc(&x); $f(&mut v); fv(&v) });
        let b = guarded(|| { let mut v = dx.clone(); $g(&mut v); v.as_slice().to_vec() });
        t.ck($name, same_or(a, b), w);
    }} }
    macro_rules! value { ($name:expr, $f:expr, $g:expr) => {{
        let a = guarded(|| { let v = vc(&x); $f(&v) });
        let b = guarded(|| { let v = dx.clone(); $g(&v) });
        t.ck($name, same_or(a, b), w);
    }} }
    type D = DVector<f64>;
    value!("at1", |v: &Vc| vec![v.at1(i).0], |v: &D| vec![v[i]]);
    value!("at2", |v: &Vc| vec![v.at2((i, 0)).0], |v: &D| vec![v[(i, 0)]]);
    value!("len", |v: &Vc| vec![v.len() as f64], |v: &D| vec![v.len() as f64]);
    value!("nrows", |v: &Vc| vec![v.nrows() as f64], |v: &D| vec![v.nrows() as f64]);
    value!("shape", |v: &Vc| vec![v.shape().0 as f64, v.shape().1 as f64], |v: &D| vec![v.shape().0 as f64, v.shape().1 as f64]);
    mutate!("put1", |v: &mut Vc| v.put1(i, Sc(s)), |v: &mut D| v[i] = s);
    mutate!("put2", |v: &mut Vc| v.put2((i, 0), Sc(s)), |v: &mut D| v[(i, 0)] = s);
    mutate!("swap", |v: &mut Vc| v.swap((i, 0), (j, 0)), |v: &mut D| v.swap((i, 0), (j, 0)));
    mutate!("swap_rows", |v: &mut Vc| v.swap_rows(i, j), |v: &mut D| v.swap_rows(i, j));
    mutate!("set_column", |v: &mut Vc| v.set_column(0, &vc(&y)), |v: &mut D| v.set_column(0, &dy));
    mutate!("copy_from", |v: &mut Vc| v.copy_from(&vc(&y)), |v: &mut D| v.copy_from(&dy));
    mutate!("neg_mut", |v: &mut Vc| v.neg_mut(), |v: &mut D| v.neg_mut());
    mutate!("fill", |v: &mut Vc| v.fill(Sc(s)), |v: &mut D| v.fill(s));
    mutate!("vx_add_assign", |v: &mut Vc| v.vx_add_assign(&vc(&y)), |v: &mut D| *v += &dy);
    mutate!("vx_sub_assign", |v: &mut Vc| v.vx_sub_assign(&vc(&y)), |v: &mut D| *v -= &dy);
    mutate!("vx_mul_assign", |v: &mut Vc| v.vx_mul_assign(Sc(s)), |v: &mut D| *v *= s);
    mutate!("axpy", |v: &mut Vc| v.axpy(Sc(s), &vc(&y), Sc(u)), |v: &mut D| v.axpy(s, &dy, u));
    value!("component_mul", |v: &Vc| fv(&v.component_mul(&vc(&y))), |v: &D| v.component_mul(&dy).as_slice().to_vec());
    value!("clone_owned", |v: &Vc| fv(&v.clone_owned()), |v: &D| v.clone_owned().as_slice().to_vec());
    value!("clone", |v: &Vc| fv(&v.clone()), |v: &D| v.clone().as_slice().to_vec());
    value!("vx_vneg", |v: &Vc| fv(&vx_vneg(v)), |v: &D| (-v).as_slice().to_vec());
    value!("vx_vadd", |v: &Vc| fv(&vx_vadd(v, &vc(&y))), |v: &D| (v + &dy).as_slice().to_vec());
    value!("vx_vsub", |v: &Vc| fv(&vx_vsub(v, &vc(&y))), |v: &D| (v - &dy).as_slice().to_vec());
    value!("vx_vscale", |v: &Vc| fv(&vx_vscale(v, Sc(s))), |v: &D| (v * s).as_slice().to_vec());
    // sums in nalgebra's own order: compared on values whose sums are exact
    let e: Vec<f64> = (0..n).map(|_| r.below(41) as f64 - 20.0).collect();
    let g: Vec<f64> = (0..n).map(|_| r.below(41) as f64 - 20.0).collect();
    let (de, dg) = (DVector::from_column_slice(&e), DVector::from_column_slice(&g));
    let w = || format!("{:?} {:?}", e, g);
    t.ck("dot", vc(&e).dot(&vc(&g)).0 == de.dot(&dg), w);
    t.ck("norm_squared", vc(&e).norm_squared().0 == de.norm_squared(), w);
    t.ck("norm", vc(&e).norm().0 == de.norm(), w);
    t.ck("sum", vc(&e).sum().0 == de.sum(), w);
    // integer vectors
    let p: Vec<usize> = (0..n).map(|_| r.below(9)).collect();
    let dp = DVector::from_column_slice(&p);
    let w = || format!("{:?} {} {}", p, i, j);
    let f = |a: Result<Vec<usize>, ()>, b: Result<Vec<usize>, ()>| a == b;
    t.ck("Piv::at1", guarded(|| Piv(p.clone()).at1(i)) == guarded(|| dp[i]), w);
    t.ck("Piv::len", Piv(p.clone()).len() == dp.len(), w);
    t.ck("Piv::nrows", Piv(p.clone()).nrows() == dp.nrows(), w);
    t.ck("Piv::put1", f(guarded(|| { let mut v = Piv(p.clone()); v.put1(i, j); v.0 }), guarded(|| { let mut v = dp.clone(); v[i] = j; v.as_slice().to_vec() })), w);
    t.ck("Piv::fill", f(guarded(|| { let mut v = Piv(p.clone()); v.fill(j); v.0 }), guarded(|| { let mut v = dp.clone(); v.fill(j); v.as_slice().to_vec() })), w);
    set_dim(3);
    t.ck("Piv::zeros", Piv::zeros().0 == OVector::<usize, Const<3>>::zeros().as_slice(), w);
    t.ck("zeros", sames(&fv(&Vc::zeros()), OVector::<f64, Const<3>>::zeros().as_slice()), w);
    t.ck("vx_dim", vx_dim() == <Const<3> as nalgebra::DimName>::dim(), w);
}
fn matrices(t: &mut T, r: &mut Rng, mode: usize) {
    let (m, n) = (1 + r.below(4), 1 + r.below(4));
    let a: Vec<f64> = (0..m * n).map(|_| r.val(mode)).collect();
    let da = DMatrix::from_row_slice(m, n, &a);
    let (i, j, k, l, s) = (r.below(m + 1), r.below(n + 1), r.below(m + 1), r.below(n + 1), r.val(mode));
    let w = || format!("{}x{} {:?} {} {} {} {}", m, n, a, i, j, k, l);
    let mk = || Mat { r: m, c: n, d: a.iter().map(|x| Sc(*x)).collect() };
    t.ck("Mat::nrows", mk().nrows() == da.nrows(), w);
    t.ck("Mat::ncols", mk().ncols() == da.ncols(), w);
    t.ck("Mat::clone", sames(&fm(&mk().clone()), &dm(&da.clone())), w);
    t.ck("Mat::shape", mk().shape() == da.shape(), w);
    t.ck("Mat::column", same_or(guarded(|| fv(&mk().column(j))), guarded(|| da.column(j).iter().cloned().collect())), w);
    t.ck("Mat::at2", same_or(guarded(|| vec![mk().at2((i, j)).0]), guarded(|| vec![da[(i, j)]])), w);
    t.ck("Mat::put2", same_or(guarded(|| { let mut x = mk(); x.put2((i, j), Sc(s)); fm(&x) }), guarded(|| { let mut x = da.clone(); x[(i, j)] = s; dm(&x) })), w);
    t.ck("Mat::swap", same_or(guarded(|| { let mut x = mk(); x.swap((i, j), (k, l)); fm(&x) }), guarded(|| { let mut x = da.clone(); x.swap((i, j), (k, l)); dm(&x) })), w);
    t.ck("Mat::swap_rows", same_or(guarded(|| { let mut x = mk(); x.swap_rows(i, k); fm(&x) }), guarded(|| { let mut x = da.clone(); x.swap_rows(i, k); dm(&x) })), w);
}
/// names of the functions and axioms the specification text assumes
fn assumed(text: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut cur = String::new();
    for ln in text.lines() {
        if ln.starts_with("impl ") {
            cur = ln.split_whitespace().nth(1).unwrap().to_string();
            if ln.contains("::ops::") || ln.contains("PartialEq") || ln.contains("PartialOrd") { cur = String::new() }
        }
        let is_fn = ln.contains("external_body]") && ln.contains("fn ");
        if is_fn || ln.contains("axiom fn ") {
            let name = ln.split("fn ").nth(1).unwrap().split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap();
            out.insert(if cur == "Piv" || cur == "Mat" { format!("{}::{}", cur, name) } else { name.to_string() });
        }
        if ln == "}" { cur = String::new() }
    }
    out
}
fn main() {
    let mut t = T { run: start(), done: BTreeSet::new() };
    let mut r = Rng(t.run.seed * 89);
    let sp = [0.0, -0.0, 1.0, -1.0, 0.5, 3.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1.0 + f64::EPSILON, f64::from_bits(0x7ff0000000000001)];
    for a in sp { for b in sp { axioms(&mut t, a, b); scalars(&mut t, a, b, 7) } }
    while t.run.open() {
        let mode = r.below(4);
        let (a, b, n) = (r.val(mode), r.val(mode), r.next() as u32);
        axioms(&mut t, a, b);
        scalars(&mut t, a, b, n);
        vectors(&mut t, &mut r, mode);
        matrices(&mut t, &mut r, mode);
    }
    let mut want = BTreeSet::new();
    for s in [include_str!("../../specs/prelude.rs"), include_str!("../../specs/norm.rs"), include_str!("../../specs/bits.rs")] { want.extend(assumed(s)) }
    // the exact square root is idealised (specs/norm.rs); vx_absurd is never reached
    for x in ["ex_sqrt", "vx_absurd"] { want.remove(x); }
    let missing: Vec<_> = want.iter().filter(|x| !t.done.contains(x.as_str())).collect();
    if !missing.is_empty() { t.run.differs(format!("assumed but not tested: {:?}", missing)) }
    println!("names {}", want.len());
    t.run.done();
}
