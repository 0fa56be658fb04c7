// Executable reading of specs/prelude.rs and specs/norm.rs: every operation does what its assumed
// contract says, nothing else. The extracted text is compiled against this file and compared with
// the real crates (lin.rs, newton.rs, norm.rs); this file is compared with nalgebra (contracts.rs).
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug)]
pub struct Sc(pub f64);
impl Add for Sc { type Output = Sc; fn add(self, o: Sc) -> Sc { Sc(self.0 + o.0) } }
impl Sub for Sc { type Output = Sc; fn sub(self, o: Sc) -> Sc { Sc(self.0 - o.0) } }
impl Mul for Sc { type Output = Sc; fn mul(self, o: Sc) -> Sc { Sc(self.0 * o.0) } }
impl Div for Sc { type Output = Sc; fn div(self, o: Sc) -> Sc { Sc(self.0 / o.0) } }
impl Neg for Sc { type Output = Sc; fn neg(self) -> Sc { Sc(-self.0) } }
impl PartialEq for Sc { fn eq(&self, o: &Sc) -> bool { self.0 == o.0 } }
impl PartialOrd for Sc { fn partial_cmp(&self, o: &Sc) -> Option<Ordering> { self.0.partial_cmp(&o.0) } }
impl Sc {
    pub fn abs(self) -> Sc { Sc(self.0.abs()) }
    pub fn recip(self) -> Sc { Sc(1.0 / self.0) }
    pub fn sqrt(self) -> Sc { Sc(self.0.sqrt()) }
    pub fn powi(self, n: i32) -> Sc { Sc(self.0.powi(n)) }
    pub fn zero() -> Sc { Sc(0.0) }
    pub fn one() -> Sc { Sc(1.0) }
    pub fn from(n: u32) -> Sc { Sc(n as f64) }
    pub fn from_int(n: usize) -> Sc { Sc(n as f64) }
    pub fn dyadic(n: i64, d: u64) -> Sc { Sc(n as f64 / d as f64) }
    pub fn literal(bits: u64) -> Sc { Sc(f64::from_bits(bits)) }
    pub fn default_epsilon() -> Sc { Sc(f64::EPSILON) }
    pub fn max(self, o: Sc) -> Sc { Sc(self.0.max(o.0)) }
    pub fn min(self, o: Sc) -> Sc { Sc(self.0.min(o.0)) }
    pub fn mul_add(self, a: Sc, b: Sc) -> Sc { Sc(self.0.mul_add(a.0, b.0)) }
    pub fn signum(self) -> Sc { Sc(self.0.signum()) }
    pub fn is_finite(&self) -> bool { self.0.is_finite() }
    pub fn is_zero(&self) -> bool { self.0 == 0.0 }
    pub fn clone_sc(&self) -> Sc { *self }
}
thread_local! { static DIM: Cell<usize> = const { Cell::new(0) }; }
pub fn set_dim(n: usize) { DIM.with(|d| d.set(n)) }
pub fn vx_dim() -> usize { DIM.with(|d| d.get()) }
pub fn vx_assert(c: bool) { assert!(c) }
pub fn vx_unreachable() { unreachable!() }
pub fn vx_absurd<T>() -> T { unreachable!() }
pub fn vx_min(a: usize, b: usize) -> usize { if a <= b { a } else { b } }
pub fn vx_monus(a: usize, b: usize) -> usize { a.saturating_sub(b) }
pub fn vx_max(a: usize, b: usize) -> usize { if a >= b { a } else { b } }

#[derive(Clone, Debug)]
pub struct Piv(pub Vec<usize>);
impl Piv {
    pub fn zeros() -> Piv { Piv(vec![0; vx_dim()]) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn nrows(&self) -> usize { self.0.len() }
    pub fn at1(&self, i: usize) -> usize { self.0[i] }
    pub fn put1(&mut self, i: usize, v: usize) { self.0[i] = v }
    pub fn fill(&mut self, v: usize) { for i in 0..self.0.len() { self.0[i] = v } }
}
pub struct Vc(pub Vec<Sc>);
impl Vc {
    fn map2(a: &Vc, b: &Vc, f: impl Fn(Sc, Sc) -> Sc) -> Vc {
        assert!(a.len() == b.len());
        Vc((0..a.len()).map(|i| f(a.0[i], b.0[i])).collect())
    }
    pub fn zeros() -> Vc { Vc(vec![Sc(0.0); vx_dim()]) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn nrows(&self) -> usize { self.0.len() }
    pub fn shape(&self) -> (usize, usize) { (self.0.len(), 1) }
    pub fn at1(&self, i: usize) -> Sc { self.0[i] }
    pub fn at2(&self, ix: (usize, usize)) -> Sc { assert!(ix.1 == 0); self.0[ix.0] }
    pub fn put1(&mut self, i: usize, v: Sc) { self.0[i] = v }
    pub fn put2(&mut self, ix: (usize, usize), v: Sc) { assert!(ix.1 == 0); self.0[ix.0] = v }
    pub fn swap(&mut self, a: (usize, usize), b: (usize, usize)) {
        assert!(a.1 == 0 && b.1 == 0);
        let (x, y) = (self.0[a.0], self.0[b.0]);
        self.0[a.0] = y;
        self.0[b.0] = x;
    }
    pub fn swap_rows(&mut self, a: usize, b: usize) { self.swap((a, 0), (b, 0)) }
    pub fn set_column(&mut self, j: usize, v: &Vc) { assert!(j == 0 && v.len() == self.len()); self.0 = v.0.clone() }
    pub fn copy_from(&mut self, v: &Vc) { assert!(v.len() == self.len()); self.0 = v.0.clone() }
    pub fn neg_mut(&mut self) { self.0 = vx_vneg(self).0 }
    pub fn vx_add_assign(&mut self, v: &Vc) { self.0 = vx_vadd(self, v).0 }
    pub fn vx_sub_assign(&mut self, v: &Vc) { self.0 = vx_vsub(self, v).0 }
    pub fn vx_mul_assign(&mut self, s: Sc) { self.0 = vx_vscale(self, s).0 }
    pub fn axpy(&mut self, a: Sc, x: &Vc, b: Sc) {
        self.0 = Vc::map2(self, x, |y, x| if b == Sc::zero() { (a * x) * Sc::one() } else { (a * x) * Sc::one() + b * y }).0
    }
    pub fn component_mul(&self, v: &Vc) -> Vc { Vc::map2(self, v, |a, b| a * b) }
    pub fn clone_owned(&self) -> Vc { Vc(self.0.clone()) }
    pub fn clone(&self) -> Vc { Vc(self.0.clone()) }
    pub fn fill(&mut self, v: Sc) { for i in 0..self.0.len() { self.0[i] = v } }
    pub fn dot(&self, v: &Vc) -> Sc { assert!(v.len() == self.len()); (0..self.len()).fold(Sc(0.0), |s, i| s + self.0[i] * v.0[i]) }
    pub fn norm_squared(&self) -> Sc { self.dot(self) }
    pub fn norm(&self) -> Sc { self.dot(self).sqrt() }
    pub fn sum(&self) -> Sc { self.0.iter().fold(Sc(0.0), |s, x| s + *x) }
}
pub fn vx_vneg(a: &Vc) -> Vc { Vc(a.0.iter().map(|x| -*x).collect()) }
pub fn vx_vadd(a: &Vc, b: &Vc) -> Vc { Vc::map2(a, b, |x, y| x + y) }
pub fn vx_vsub(a: &Vc, b: &Vc) -> Vc { Vc::map2(a, b, |x, y| x - y) }
pub fn vx_vscale(a: &Vc, s: Sc) -> Vc { Vc(a.0.iter().map(|x| *x * s).collect()) }

pub struct Mat { pub r: usize, pub c: usize, pub d: Vec<Sc> }
impl Mat {
    fn ix(&self, i: usize, j: usize) -> usize { assert!(i < self.r && j < self.c); i * self.c + j }
    pub fn nrows(&self) -> usize { self.r }
    pub fn ncols(&self) -> usize { self.c }
    pub fn clone(&self) -> Mat { Mat { r: self.r, c: self.c, d: self.d.clone() } }
    pub fn shape(&self) -> (usize, usize) { (self.r, self.c) }
    pub fn column(&self, j: usize) -> Vc { assert!(j < self.c); Vc((0..self.r).map(|i| self.at2((i, j))).collect()) }
    pub fn at2(&self, ix: (usize, usize)) -> Sc { self.d[self.ix(ix.0, ix.1)] }
    pub fn put2(&mut self, ix: (usize, usize), v: Sc) { let k = self.ix(ix.0, ix.1); self.d[k] = v }
    pub fn swap(&mut self, a: (usize, usize), b: (usize, usize)) {
        let (x, y) = (self.at2(a), self.at2(b));
        self.put2(a, y);
        self.put2(b, x);
    }
    pub fn swap_rows(&mut self, a: usize, b: usize) {
        assert!(a < self.r && b < self.r);
        for j in 0..self.c { self.swap((a, j), (b, j)) }
    }
}
