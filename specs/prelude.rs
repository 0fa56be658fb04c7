// ---------------------------------------------------------------------------------------------
// Verification model of the scalar type and of the nalgebra containers.
// Sc stands for the generic scalar T; nothing is assumed about its arithmetic here: every
// operation is an uninterpreted function. exact.rs adds field axioms, bits.rs adds what IEEE
// arithmetic guarantees. Every external_body function below is an ASSUMED contract on a
// nalgebra/num-traits operation (checked against the real crate by the replay engine).
// ---------------------------------------------------------------------------------------------
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Sc { _x: f64 }
impl View for Sc { type V = real; uninterp spec fn view(&self) -> real; }
pub uninterp spec fn fadd(a: Sc, b: Sc) -> Sc;
pub uninterp spec fn fsub(a: Sc, b: Sc) -> Sc;
pub uninterp spec fn fmul(a: Sc, b: Sc) -> Sc;
pub uninterp spec fn fdiv(a: Sc, b: Sc) -> Sc;
pub uninterp spec fn fneg(a: Sc) -> Sc;
pub uninterp spec fn fabs(a: Sc) -> Sc;
pub uninterp spec fn frecip(a: Sc) -> Sc;
pub uninterp spec fn fsqrt(a: Sc) -> Sc;
pub uninterp spec fn fpowi(a: Sc, n: i32) -> Sc;
pub uninterp spec fn ffrom(n: u32) -> Sc;
pub uninterp spec fn ffromint(n: usize) -> Sc;
pub uninterp spec fn fquot(n: i64, d: u64) -> Sc;
pub uninterp spec fn flit(bits: u64) -> Sc;
pub uninterp spec fn feps() -> Sc;
pub uninterp spec fn fmaxi(a: Sc, b: Sc) -> Sc;
pub uninterp spec fn fmini(a: Sc, b: Sc) -> Sc;
pub uninterp spec fn ffma(a: Sc, b: Sc, c: Sc) -> Sc;
pub uninterp spec fn fsignum(a: Sc) -> Sc;
pub uninterp spec fn ffinite(a: Sc) -> bool;
pub uninterp spec fn flt(a: Sc, b: Sc) -> bool;
pub uninterp spec fn feq(a: Sc, b: Sc) -> bool;
pub uninterp spec fn fzero() -> Sc;
pub uninterp spec fn fone() -> Sc;
pub open spec fn fle(a: Sc, b: Sc) -> bool { flt(a, b) || (!flt(b, a) && feq(a, b)) }
pub open spec fn fgt(a: Sc, b: Sc) -> bool { !flt(a, b) && flt(b, a) }
impl AddSpecImpl for Sc {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: Sc) -> bool { true }
  open spec fn add_spec(self, rhs: Sc) -> Sc { fadd(self, rhs) }
}
impl core::ops::Add for Sc { type Output = Sc; #[verifier::external_body] fn add(self, o: Sc) -> (r: Sc) { unimplemented!() } }
impl MulSpecImpl for Sc {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: Sc) -> bool { true }
  open spec fn mul_spec(self, rhs: Sc) -> Sc { fmul(self, rhs) }
}
impl core::ops::Mul for Sc { type Output = Sc; #[verifier::external_body] fn mul(self, o: Sc) -> (r: Sc) { unimplemented!() } }
impl SubSpecImpl for Sc {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: Sc) -> bool { true }
  open spec fn sub_spec(self, rhs: Sc) -> Sc { fsub(self, rhs) }
}
impl core::ops::Sub for Sc { type Output = Sc; #[verifier::external_body] fn sub(self, o: Sc) -> (r: Sc) { unimplemented!() } }
impl DivSpecImpl for Sc {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, rhs: Sc) -> bool { true }
  open spec fn div_spec(self, rhs: Sc) -> Sc { fdiv(self, rhs) }
}
impl core::ops::Div for Sc { type Output = Sc; #[verifier::external_body] fn div(self, o: Sc) -> (r: Sc) { unimplemented!() } }
impl NegSpecImpl for Sc {
  open spec fn obeys_neg_spec() -> bool { true }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> Sc { fneg(self) }
}
impl core::ops::Neg for Sc { type Output = Sc; #[verifier::external_body] fn neg(self) -> (r: Sc) { unimplemented!() } }
impl PartialEqSpecImpl for Sc {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, rhs: &Sc) -> bool { feq(*self, *rhs) }
}
impl PartialEq for Sc { #[verifier::external_body] fn eq(&self, o: &Sc) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Sc {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, rhs: &Sc) -> Option<core::cmp::Ordering> {
    if flt(*self, *rhs) { Some(core::cmp::Ordering::Less) }
    else if flt(*rhs, *self) { Some(core::cmp::Ordering::Greater) }
    else if feq(*self, *rhs) { Some(core::cmp::Ordering::Equal) } else { None } }
}
impl PartialOrd for Sc { #[verifier::external_body] fn partial_cmp(&self, o: &Sc) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl Sc {
  #[verifier::external_body] pub fn abs(self) -> (r: Sc) ensures r == fabs(self) { unimplemented!() }
  #[verifier::external_body] pub fn recip(self) -> (r: Sc) ensures r == frecip(self) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: Sc) ensures r == fsqrt(self) { unimplemented!() }
  #[verifier::external_body] pub fn powi(self, n: i32) -> (r: Sc) ensures r == fpowi(self, n) { unimplemented!() }
  #[verifier::external_body] pub fn zero() -> (r: Sc) ensures r == fzero() { unimplemented!() }
  #[verifier::external_body] pub fn one() -> (r: Sc) ensures r == fone() { unimplemented!() }
  #[verifier::external_body] pub fn from(n: u32) -> (r: Sc) ensures r == ffrom(n) { unimplemented!() }
  // a count, a quotient by a power of two, any other literal
  #[verifier::external_body] pub fn from_int(n: usize) -> (r: Sc) ensures r == ffromint(n) { unimplemented!() }
  #[verifier::external_body] pub fn dyadic(n: i64, d: u64) -> (r: Sc) ensures r == fquot(n, d) { unimplemented!() }
  #[verifier::external_body] pub fn literal(bits: u64) -> (r: Sc) ensures r == flit(bits) { unimplemented!() }
  #[verifier::external_body] pub fn default_epsilon() -> (r: Sc) ensures r == feps() { unimplemented!() }
  #[verifier::external_body] pub fn max(self, o: Sc) -> (r: Sc) ensures r == fmaxi(self, o) { unimplemented!() }
  #[verifier::external_body] pub fn min(self, o: Sc) -> (r: Sc) ensures r == fmini(self, o) { unimplemented!() }
  #[verifier::external_body] pub fn mul_add(self, a: Sc, b: Sc) -> (r: Sc) ensures r == ffma(self, a, b) { unimplemented!() }
  #[verifier::external_body] pub fn signum(self) -> (r: Sc) ensures r == fsignum(self) { unimplemented!() }
  #[verifier::external_body] pub fn is_finite(&self) -> (r: bool) ensures r == ffinite(*self) { unimplemented!() }
  #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == feq(*self, fzero()) { unimplemented!() }
  #[verifier::external_body] pub fn clone_sc(&self) -> (r: Sc) ensures r == *self { unimplemented!() }
}
// a compile-time size of the generic dimension
pub uninterp spec fn dimn() -> nat;
#[verifier::external_body] pub fn vx_dim() -> (r: usize) ensures r == dimn() { unimplemented!() }

pub fn vx_assert(c: bool) requires c { }
pub fn vx_unreachable() -> ! requires false { vx_absurd() }
#[verifier::external_body] pub fn vx_absurd<T>() -> (r: T) requires false { unimplemented!() }
pub uninterp spec fn vx_never(k: int) -> bool;
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_monus(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }

// ---------------------------------------------------------------- vectors
#[verifier::external_body]
pub struct Piv { _p: Vec<usize> }
impl View for Piv { type V = Seq<usize>; uninterp spec fn view(&self) -> Seq<usize>; }
impl Piv {
  #[verifier::external_body] pub fn zeros() -> (r: Piv) ensures r@.len() == dimn(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == 0 { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn at1(&self, i: usize) -> (r: usize) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
  #[verifier::external_body] pub fn put1(&mut self, i: usize, v: usize) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v) { unimplemented!() }
  #[verifier::external_body] pub fn fill(&mut self, v: usize) ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == v { unimplemented!() }
}
#[verifier::external_body]
pub struct Vc { _p: Vec<f64> }
impl View for Vc { type V = Seq<Sc>; uninterp spec fn view(&self) -> Seq<Sc>; }
impl Vc {
  #[verifier::external_body] pub fn zeros() -> (r: Vc) ensures r@.len() == dimn(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == fzero() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn at1(&self, i: usize) -> (r: Sc) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
  #[verifier::external_body] pub fn at2(&self, ix: (usize, usize)) -> (r: Sc) requires ix.0 < self@.len(), ix.1 == 0 ensures r == self@[ix.0 as int] { unimplemented!() }
  #[verifier::external_body] pub fn put1(&mut self, i: usize, v: Sc) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v) { unimplemented!() }
  #[verifier::external_body] pub fn put2(&mut self, ix: (usize, usize), v: Sc) requires ix.0 < old(self)@.len(), ix.1 == 0 ensures final(self)@ == old(self)@.update(ix.0 as int, v) { unimplemented!() }
  #[verifier::external_body] pub fn swap(&mut self, a: (usize, usize), b: (usize, usize)) requires a.0 < old(self)@.len(), b.0 < old(self)@.len(), a.1 == 0, b.1 == 0
     ensures final(self)@ == old(self)@.update(a.0 as int, old(self)@[b.0 as int]).update(b.0 as int, old(self)@[a.0 as int]) { unimplemented!() }
  #[verifier::external_body] pub fn swap_rows(&mut self, a: usize, b: usize) requires a < old(self)@.len(), b < old(self)@.len()
     ensures final(self)@ == old(self)@.update(a as int, old(self)@[b as int]).update(b as int, old(self)@[a as int]) { unimplemented!() }
  #[verifier::external_body] pub fn set_column(&mut self, j: usize, v: &Vc) requires j == 0, v@.len() == old(self)@.len() ensures final(self)@ == v@ { unimplemented!() }
  #[verifier::external_body] pub fn copy_from(&mut self, v: &Vc) requires v@.len() == old(self)@.len() ensures final(self)@ == v@ { unimplemented!() }
  #[verifier::external_body] pub fn neg_mut(&mut self) ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == fneg(old(self)@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn vx_add_assign(&mut self, v: &Vc) requires v@.len() == old(self)@.len()
     ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == fadd(old(self)@[i], v@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn vx_sub_assign(&mut self, v: &Vc) requires v@.len() == old(self)@.len()
     ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == fsub(old(self)@[i], v@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn vx_mul_assign(&mut self, s: Sc)
     ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == fmul(old(self)@[i], s) { unimplemented!() }
  // nalgebra: self = a * x * 1 + b * self, element by element; with b == 0 the old values are not read
  #[verifier::external_body] pub fn axpy(&mut self, a: Sc, x: &Vc, b: Sc) requires x@.len() == old(self)@.len()
     ensures final(self)@.len() == old(self)@.len(), !feq(b, fzero()) ==> forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == fadd(fmul(fmul(a, x@[i]), fone()), fmul(b, old(self)@[i])),
       feq(b, fzero()) ==> forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == fmul(fmul(a, x@[i]), fone()) { unimplemented!() }
  #[verifier::external_body] pub fn component_mul(&self, v: &Vc) -> (r: Vc) requires v@.len() == self@.len()
     ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == fmul(self@[i], v@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn clone_owned(&self) -> (r: Vc) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Vc) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn fill(&mut self, v: Sc) ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == v { unimplemented!() }
}
#[verifier::external_body] pub fn vx_vneg(a: &Vc) -> (r: Vc) ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> #[trigger] r@[i] == fneg(a@[i]) { unimplemented!() }
#[verifier::external_body] pub fn vx_vadd(a: &Vc, b: &Vc) -> (r: Vc) requires a@.len() == b@.len() ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> #[trigger] r@[i] == fadd(a@[i], b@[i]) { unimplemented!() }
#[verifier::external_body] pub fn vx_vsub(a: &Vc, b: &Vc) -> (r: Vc) requires a@.len() == b@.len() ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> #[trigger] r@[i] == fsub(a@[i], b@[i]) { unimplemented!() }
#[verifier::external_body] pub fn vx_vscale(a: &Vc, s: Sc) -> (r: Vc) ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> #[trigger] r@[i] == fmul(a@[i], s) { unimplemented!() }
// ---------------------------------------------------------------- matrices
#[verifier::external_body]
pub struct Mat { _p: Vec<f64> }
pub uninterp spec fn rows(m: Mat) -> int;
pub uninterp spec fn cols(m: Mat) -> int;
pub uninterp spec fn el(m: Mat, i: int, j: int) -> Sc;
impl Mat {
  #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == rows(*self) { unimplemented!() }
  #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r == cols(*self) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Mat) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn shape(&self) -> (r: (usize, usize)) ensures r.0 == rows(*self), r.1 == cols(*self) { unimplemented!() }
  #[verifier::external_body] pub fn column(&self, j: usize) -> (r: Vc) requires j < cols(*self)
     ensures r@.len() == rows(*self), forall|i: int| 0 <= i < rows(*self) ==> #[trigger] r@[i] == el(*self, i, j as int) { unimplemented!() }
  #[verifier::external_body] pub fn at2(&self, ix: (usize, usize)) -> (r: Sc) requires ix.0 < rows(*self), ix.1 < cols(*self) ensures r == el(*self, ix.0 as int, ix.1 as int) { unimplemented!() }
  #[verifier::external_body] pub fn put2(&mut self, ix: (usize, usize), v: Sc) requires ix.0 < rows(*old(self)), ix.1 < cols(*old(self))
     ensures rows(*final(self)) == rows(*old(self)), cols(*final(self)) == cols(*old(self)),
       forall|r: int, c: int| #[trigger] el(*final(self), r, c) == if r == ix.0 && c == ix.1 { v } else { el(*old(self), r, c) } { unimplemented!() }
  #[verifier::external_body] pub fn swap(&mut self, a: (usize, usize), b: (usize, usize)) requires a.0 < rows(*old(self)), a.1 < cols(*old(self)), b.0 < rows(*old(self)), b.1 < cols(*old(self))
     ensures rows(*final(self)) == rows(*old(self)), cols(*final(self)) == cols(*old(self)),
       forall|r: int, c: int| #[trigger] el(*final(self), r, c) == if r == a.0 && c == a.1 { el(*old(self), b.0 as int, b.1 as int) } else if r == b.0 && c == b.1 { el(*old(self), a.0 as int, a.1 as int) } else { el(*old(self), r, c) } { unimplemented!() }
  #[verifier::external_body] pub fn swap_rows(&mut self, a: usize, b: usize) requires a < rows(*old(self)), b < rows(*old(self))
     ensures rows(*final(self)) == rows(*old(self)), cols(*final(self)) == cols(*old(self)),
       forall|r: int, c: int| #[trigger] el(*final(self), r, c) == if r == a { el(*old(self), b as int, c) } else if r == b { el(*old(self), a as int, c) } else { el(*old(self), r, c) } { unimplemented!() }
}
}
