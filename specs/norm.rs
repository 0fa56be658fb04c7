// weighted root-mean-square norm: sums over a range of components, in exact arithmetic
verus! {
pub open spec fn sq(x: Seq<Sc>, w: Seq<Sc>, i: int) -> real { (x[i]@ * w[i]@) * (x[i]@ * w[i]@) }
// sum of the squared weighted components a, a+1, .., b-1
pub open spec fn ssum(x: Seq<Sc>, w: Seq<Sc>, a: int, b: int) -> real decreases b - a { if b <= a { 0real } else { ssum(x, w, a, b - 1) + sq(x, w, b - 1) } }
pub proof fn sq_nonneg(z: real) ensures z * z >= 0real { assert(z * z >= 0real) by(nonlinear_arith); }
pub proof fn ssum_nonneg(x: Seq<Sc>, w: Seq<Sc>, a: int, b: int) ensures ssum(x, w, a, b) >= 0real decreases b - a
{ if b > a { ssum_nonneg(x, w, a, b - 1); sq_nonneg(x[b - 1]@ * w[b - 1]@); } }
pub proof fn ssum_front(x: Seq<Sc>, w: Seq<Sc>, a: int, b: int) requires a < b ensures ssum(x, w, a, b) == sq(x, w, a) + ssum(x, w, a + 1, b) decreases b - a
{ if b > a + 1 { ssum_front(x, w, a, b - 1); } else { assert(ssum(x, w, a + 1, b) == 0real); assert(ssum(x, w, a, b - 1) == 0real); } }
pub proof fn sq_forms(a: real, b: real) ensures (a * b) * (a * b) == (a * a) * (b * b), (a * b) * (a * b) == a * a * b * b, (a * b) * (a * b) == a * (b * (a * b)), a * b == b * a
{ assert((a * b) * (a * b) == (a * a) * (b * b) && (a * b) * (a * b) == a * a * b * b && (a * b) * (a * b) == a * (b * (a * b)) && a * b == b * a) by(nonlinear_arith); }
// the square root of a non-negative number, in exact arithmetic
pub broadcast axiom fn ex_sqrt(a: Sc) ensures a@ >= 0real ==> (#[trigger] fsqrt(a))@ >= 0real && fsqrt(a)@ * fsqrt(a)@ == a@;
pub proof fn div_nonneg(s: real, n: real) requires s >= 0real, n > 0real ensures s / n >= 0real, s * (1real / n) == s / n
{ assert(s / n >= 0real) by(nonlinear_arith) requires s >= 0real, n > 0real; assert(s * (1real / n) == s / n) by(nonlinear_arith) requires n > 0real; }
// a quotient by a root
pub broadcast proof fn sqrt_quot(a: Sc, b: Sc) requires a@ >= 0real, b@ > 0real
  ensures (#[trigger] fdiv(a, fsqrt(b)))@ >= 0real, fdiv(a, fsqrt(b))@ * fdiv(a, fsqrt(b))@ == (a@ * a@) / b@
{ broadcast use {ex_div, ex_sqrt};
  let x = a@; let y = fsqrt(b)@;
  assert(y != 0real) by(nonlinear_arith) requires y * y == b@, b@ > 0real;
  assert(fdiv(a, fsqrt(b))@ == x / y);
  assert(x / y >= 0real) by(nonlinear_arith) requires x >= 0real, y >= 0real, y != 0real;
  assert((x / y) * (x / y) == (x * x) / (y * y)) by(nonlinear_arith) requires y != 0real; }
// sums nalgebra computes by itself
pub open spec fn dsum(x: Seq<Sc>, w: Seq<Sc>, b: int) -> real decreases b { if b <= 0 { 0real } else { dsum(x, w, b - 1) + x[b - 1]@ * w[b - 1]@ } }
pub open spec fn vsum(x: Seq<Sc>, b: int) -> real decreases b { if b <= 0 { 0real } else { vsum(x, b - 1) + x[b - 1]@ } }
pub open spec fn prods(p: Seq<Sc>, x: Seq<Sc>, w: Seq<Sc>, n: int) -> bool { n <= p.len() && forall|i: int| 0 <= i < n ==> (#[trigger] p[i])@ == x[i]@ * w[i]@ }
pub open spec fn squares(p: Seq<Sc>, x: Seq<Sc>, w: Seq<Sc>, n: int) -> bool { n <= p.len() && forall|i: int| 0 <= i < n ==> (#[trigger] p[i])@ == sq(x, w, i) }
pub proof fn dsum_prods(p: Seq<Sc>, q: Seq<Sc>, x: Seq<Sc>, w: Seq<Sc>, n: int) requires prods(p, x, w, n), prods(q, x, w, n) ensures dsum(p, q, n) == ssum(x, w, 0, n) decreases n
{ if n > 0 { dsum_prods(p, q, x, w, n - 1); assert(p[n - 1]@ == x[n - 1]@ * w[n - 1]@); assert(q[n - 1]@ == x[n - 1]@ * w[n - 1]@); } }
pub proof fn vsum_squares(p: Seq<Sc>, x: Seq<Sc>, w: Seq<Sc>, n: int) requires squares(p, x, w, n) ensures vsum(p, n) == ssum(x, w, 0, n) decreases n
{ if n > 0 { vsum_squares(p, x, w, n - 1); assert(p[n - 1]@ == sq(x, w, n - 1)); } }
impl Vc {
  #[verifier::external_body] pub fn dot(&self, v: &Vc) -> (r: Sc) requires v@.len() == self@.len() ensures r@ == dsum(self@, v@, self@.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn norm_squared(&self) -> (r: Sc) ensures r@ == dsum(self@, self@, self@.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn norm(&self) -> (r: Sc) ensures r@ >= 0real && r@ * r@ == dsum(self@, self@, self@.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn sum(&self) -> (r: Sc) ensures r@ == vsum(self@, self@.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn shape(&self) -> (r: (usize, usize)) ensures r.0 == self@.len(), r.1 == 1 { unimplemented!() }
}
}
