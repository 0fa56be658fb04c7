// triangular solves (exact arithmetic)
verus! {
pub open spec fn lsum(w: Mat, b: Seq<Sc>, i: int, t: int) -> real decreases t { if t <= 0 { 0real } else { lsum(w, b, i, t - 1) + a(w, i, t - 1) * b[t - 1]@ } }
pub open spec fn usum(w: Mat, b: Seq<Sc>, i: int, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 0real } else { usum(w, b, i, lo, hi - 1) + a(w, i, hi - 1) * b[hi - 1]@ } }
pub open spec fn imax(x: int, y: int) -> int { if x < y { y } else { x } }
pub open spec fn permuted(b: Seq<Sc>, b0: Seq<Sc>, p: Seq<usize>, k: int) -> bool { forall|i: int| 0 <= i < b0.len() ==> (#[trigger] b[i])@ == b0[perm(p, k, i)]@ }
// forward substitution has treated the first k columns
pub open spec fn lowered(w: Mat, b: Seq<Sc>, pb: Seq<Sc>, k: int) -> bool { forall|i: int| 0 <= i < pb.len() ==> (#[trigger] b[i])@ + lsum(w, b, i, imin(i, k)) == pb[i]@ }
// backward substitution has treated the columns from c on
pub open spec fn upval(w: Mat, b: Seq<Sc>, i: int, c: int, n: int) -> real { (if i < c { b[i]@ } else { 0real }) + usum(w, b, i, imax(i, c), n) }
pub open spec fn raised(w: Mat, b: Seq<Sc>, y: Seq<Sc>, c: int) -> bool { forall|i: int| 0 <= i < y.len() ==> #[trigger] upval(w, b, i, c, y.len() as int) == y[i]@ }
pub proof fn lsum_cong(w: Mat, b: Seq<Sc>, c: Seq<Sc>, i: int, t: int)
  requires forall|s: int| 0 <= s < t ==> (#[trigger] b[s])@ == c[s]@ ensures lsum(w, b, i, t) == lsum(w, c, i, t) decreases t
{ if t > 0 { lsum_cong(w, b, c, i, t - 1); assert(b[t - 1]@ == c[t - 1]@); } }
pub proof fn usum_cong(w: Mat, b: Seq<Sc>, c: Seq<Sc>, i: int, lo: int, hi: int)
  requires forall|s: int| lo <= s < hi ==> (#[trigger] b[s])@ == c[s]@ ensures usum(w, b, i, lo, hi) == usum(w, c, i, lo, hi) decreases hi - lo
{ if lo < hi { usum_cong(w, b, c, i, lo, hi - 1); assert(b[hi - 1]@ == c[hi - 1]@); } }
pub proof fn usum_head(w: Mat, b: Seq<Sc>, i: int, lo: int, hi: int)
  requires lo < hi ensures usum(w, b, i, lo, hi) == a(w, i, lo) * b[lo]@ + usum(w, b, i, lo + 1, hi) decreases hi - lo
{ reveal_with_fuel(usum, 2); if lo + 1 < hi { usum_head(w, b, i, lo, hi - 1); } }
pub proof fn perm_range(p: Seq<usize>, k: int, i: int, n: int)
  requires forall|t: int| 0 <= t < k ==> #[trigger] p[t] < n, 0 <= i < n, 0 <= k <= n ensures 0 <= perm(p, k, i) < n decreases k
{ if k > 0 { perm_range(p, k - 1, sw(k - 1, p[k - 1] as int, i), n); } }
pub proof fn perm_step(b: Seq<Sc>, c: Seq<Sc>, b0: Seq<Sc>, p: Seq<usize>, k: int)
  requires 0 <= k < b0.len(), p[k] < b0.len(), permuted(b, b0, p, k), b.len() == b0.len(), c.len() == b0.len(), forall|i: int| 0 <= i < b0.len() ==> #[trigger] c[i] == b[sw(k, p[k] as int, i)]
  ensures permuted(c, b0, p, k + 1)
{ assert forall|i: int| 0 <= i < b0.len() implies (#[trigger] c[i])@ == b0[perm(p, k + 1, i)]@ by { let j = sw(k, p[k] as int, i); assert(b[j]@ == b0[perm(p, k, j)]@); } }
pub proof fn lower_step(w: Mat, b: Seq<Sc>, c: Seq<Sc>, pb: Seq<Sc>, k: int)
  requires 0 <= k < pb.len(), lowered(w, b, pb, k), b.len() == pb.len(), c.len() == pb.len(),
    forall|i: int| 0 <= i <= k ==> #[trigger] c[i] == b[i], forall|i: int| k < i < pb.len() ==> (#[trigger] c[i])@ == b[i]@ - a(w, i, k) * b[k]@
  ensures lowered(w, c, pb, k + 1)
{
  assert forall|i: int| 0 <= i < pb.len() implies (#[trigger] c[i])@ + lsum(w, c, i, imin(i, k + 1)) == pb[i]@ by {
    assert(b[i]@ + lsum(w, b, i, imin(i, k)) == pb[i]@);
    lsum_cong(w, c, b, i, imin(i, k));
    if i > k { assert(c[k] == b[k]); }
  }
}
pub proof fn lower_last(w: Mat, b: Seq<Sc>, pb: Seq<Sc>, k: int)
  requires lowered(w, b, pb, k), pb.len() - 1 <= k ensures lowered(w, b, pb, pb.len() as int)
{ assert forall|i: int| 0 <= i < pb.len() implies (#[trigger] b[i])@ + lsum(w, b, i, imin(i, pb.len() as int)) == pb[i]@ by { assert(imin(i, pb.len() as int) == i && imin(i, k) == i); } }
pub proof fn upper_step(w: Mat, b: Seq<Sc>, c: Seq<Sc>, y: Seq<Sc>, k: int)
  requires 0 <= k < y.len(), raised(w, b, y, k + 1), b.len() == y.len(), c.len() == y.len(), a(w, k, k) != 0real, c[k]@ == b[k]@ / a(w, k, k),
    forall|i: int| k < i < y.len() ==> #[trigger] c[i] == b[i], forall|i: int| 0 <= i < k ==> (#[trigger] c[i])@ == b[i]@ - a(w, i, k) * c[k]@
  ensures raised(w, c, y, k)
{
  let n = y.len() as int;
  assert forall|i: int| 0 <= i < n implies #[trigger] upval(w, c, i, k, n) == y[i]@ by {
    assert(upval(w, b, i, k + 1, n) == y[i]@);
    usum_cong(w, c, b, i, imax(i, k + 1), n);
    if i < k { usum_head(w, c, i, k, n); }
    else if i == k {
      usum_head(w, c, k, k, n);
      let (d, r) = (a(w, k, k), b[k]@);
      assert(d * (r / d) == r) by (nonlinear_arith) requires d != 0real;
    }
  }
}
// sum over j < hi of (first t terms of the product L U in row i, plus U_ij) x_j
pub open spec fn accsum(w: Mat, x: Seq<Sc>, i: int, t: int, hi: int) -> real decreases hi { if hi <= 0 { 0real } else { accsum(w, x, i, t, hi - 1) + (dot(w, i, hi - 1, imin(t, hi)) + if hi - 1 >= i { a(w, i, hi - 1) } else { 0real }) * x[hi - 1]@ } }
pub open spec fn prodsum(w0: Mat, r: int, x: Seq<Sc>, hi: int) -> real decreases hi { if hi <= 0 { 0real } else { prodsum(w0, r, x, hi - 1) + a(w0, r, hi - 1) * x[hi - 1]@ } }
pub open spec fn is_solution(w0: Mat, x: Seq<Sc>, b: Seq<Sc>) -> bool { forall|r: int| 0 <= r < rows(w0) ==> #[trigger] prodsum(w0, r, x, cols(w0)) == b[r]@ }
pub proof fn accsum_step(w: Mat, x: Seq<Sc>, i: int, t: int, hi: int)
  requires 0 <= t < i, 0 <= hi ensures accsum(w, x, i, t + 1, hi) == accsum(w, x, i, t, hi) + a(w, i, t) * usum(w, x, t, t, hi) decreases hi
{
  if hi > 0 {
    accsum_step(w, x, i, t, hi - 1);
    let j = hi - 1; let xj = x[j]@; let q = a(w, i, t);
    let d = dot(w, i, j, imin(t, hi)) + if j >= i { a(w, i, j) } else { 0real };
    if j >= t {
      let e = a(w, t, j); let s = usum(w, x, t, t, hi - 1);
      assert(imin(t + 1, hi) == t + 1 && imin(t, hi) == t);
      assert((d + q * e) * xj == d * xj + q * (e * xj)) by (nonlinear_arith);
      assert(q * (s + e * xj) == q * s + q * (e * xj)) by (nonlinear_arith);
    } else { assert(imin(t + 1, hi) == imin(t, hi)); assert(q * 0real == 0real) by (nonlinear_arith); }
  } else { let q = a(w, i, t); assert(q * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn accsum_zero(w: Mat, x: Seq<Sc>, i: int, hi: int)
  requires 0 <= i, 0 <= hi ensures accsum(w, x, i, 0, hi) == usum(w, x, i, i, hi) decreases hi
{ if hi > 0 { accsum_zero(w, x, i, hi - 1); let xj = x[hi - 1]@; assert(0real * xj == 0real) by (nonlinear_arith); } }
pub proof fn accsum_lower(w: Mat, x: Seq<Sc>, y: Seq<Sc>, i: int, t: int, n: int)
  requires 0 <= t <= i < n, n == y.len(), raised(w, x, y, 0)
  ensures accsum(w, x, i, t, n) == lsum(w, y, i, t) + usum(w, x, i, i, n) decreases t
{
  if t == 0 { accsum_zero(w, x, i, n); }
  else {
    accsum_lower(w, x, y, i, t - 1, n);
    accsum_step(w, x, i, t - 1, n);
    assert(y[t - 1]@ == usum(w, x, t - 1, t - 1, n)) by { assert(upval(w, x, t - 1, 0, n) == y[t - 1]@); }
  }
}
pub proof fn acc_prod(w: Mat, w0: Mat, p: Seq<usize>, x: Seq<Sc>, i: int, hi: int)
  requires 0 <= i < rows(w), 0 <= hi <= cols(w), cols(w) == rows(w), lu_inv(w, w0, p, cols(w))
  ensures accsum(w, x, i, i, hi) == prodsum(w0, perm(p, cols(w), i), x, hi) decreases hi
{
  if hi > 0 {
    acc_prod(w, w0, p, x, i, hi - 1);
    assert(acc(w, i, hi - 1, cols(w)) == a(w0, perm(p, cols(w), i), hi - 1));
    assert(imin(imin(i, hi), cols(w)) == imin(i, hi) && imin(i, cols(w)) == i);
  }
}
pub open spec fn iperm(p: Seq<usize>, k: int, r: int) -> int decreases k { if k <= 0 { r } else { sw(k - 1, p[k - 1] as int, iperm(p, k - 1, r)) } }
pub proof fn iperm_inv(p: Seq<usize>, k: int, r: int, n: int)
  requires 0 <= r < n, 0 <= k <= n, forall|t: int| 0 <= t < k ==> #[trigger] p[t] < n
  ensures 0 <= iperm(p, k, r) < n, perm(p, k, iperm(p, k, r)) == r decreases k
{ if k > 0 { iperm_inv(p, k - 1, r, n); let j = iperm(p, k - 1, r); assert(sw(k - 1, p[k - 1] as int, sw(k - 1, p[k - 1] as int, j)) == j); } }
// what a triangular solve with factors w and exchanges p returns for the right-hand side b0
pub open spec fn solved(w: Mat, p: Seq<usize>, x: Seq<Sc>, b0: Seq<Sc>) -> bool { forall|i: int| 0 <= i < b0.len() ==> #[trigger] accsum(w, x, i, i, b0.len() as int) == b0[perm(p, b0.len() as int, i)]@ }
pub proof fn lemma_solved(w: Mat, p: Seq<usize>, x: Seq<Sc>, y: Seq<Sc>, pb: Seq<Sc>, b0: Seq<Sc>)
  requires permuted(pb, b0, p, b0.len() as int), lowered(w, y, pb, b0.len() as int), raised(w, x, y, 0), pb.len() == b0.len(), y.len() == b0.len(), x.len() == b0.len()
  ensures solved(w, p, x, b0)
{
  let n = b0.len() as int;
  assert forall|i: int| 0 <= i < n implies #[trigger] accsum(w, x, i, i, n) == b0[perm(p, n, i)]@ by {
    accsum_lower(w, x, y, i, i, n);
    assert(imin(i, n) == i && imax(i, 0) == i);
    assert(y[i]@ + lsum(w, y, i, imin(i, n)) == pb[i]@);
    assert(upval(w, x, i, 0, n) == y[i]@);
    assert(pb[i]@ == b0[perm(p, n, i)]@);
  }
}
pub open spec fn factored(w0: Mat, w: Mat, p: Seq<usize>) -> bool {
  rows(w) == cols(w) && rows(w0) == rows(w) && cols(w0) == cols(w) && p.len() == cols(w) && piv_ok(p, cols(w), rows(w)) && lu_inv(w, w0, p, cols(w)) && diag_ok(w, cols(w))
}
pub proof fn lemma_solution(w0: Mat, w: Mat, p: Seq<usize>, x: Seq<Sc>, b0: Seq<Sc>)
  requires factored(w0, w, p), solved(w, p, x, b0), b0.len() == cols(w)
  ensures is_solution(w0, x, b0)
{
  let n = cols(w);
  assert forall|r: int| 0 <= r < rows(w0) implies #[trigger] prodsum(w0, r, x, cols(w0)) == b0[r]@ by {
    assert forall|t: int| 0 <= t < n implies #[trigger] p[t] < n by { assert(t <= p[t] < rows(w)); }
    iperm_inv(p, n, r, n);
    let i = iperm(p, n, r);
    acc_prod(w, w0, p, x, i, n);
    assert(accsum(w, x, i, i, n) == b0[perm(p, n, i)]@);
  }
}
}
