verus! {
pub proof fn dep_not_indep(w: Mat, c: int) requires 1 <= c <= cols(w), dep(w, c) ensures !indep(w, cols(w))
{
  let x = choose|x: spec_fn(int) -> real| #[trigger] nullk(w, 0, x) && x(c - 1) == 1real && (forall|j: int| !(0 <= j < c) ==> #[trigger] x(j) == 0real);
  if indep(w, cols(w)) { assert(x(c - 1) == 0real); }
}
pub proof fn prodsum_diff(w: Mat, r: int, x: Seq<Sc>, y: Seq<Sc>, d: spec_fn(int) -> real, hi: int)
  requires forall|j: int| 0 <= j < hi ==> #[trigger] d(j) == x[j]@ - y[j]@
  ensures rowsum(w, r, 0, hi, d) == prodsum(w, r, x, hi) - prodsum(w, r, y, hi) decreases hi
{
  if hi > 0 {
    prodsum_diff(w, r, x, y, d, hi - 1);
    let (q, s, t) = (a(w, r, hi - 1), x[hi - 1]@, y[hi - 1]@);
    assert(d(hi - 1) == s - t);
    assert(q * (s - t) == q * s - q * t) by (nonlinear_arith);
  }
}
// A x = b determines x when the columns of A are independent
pub proof fn unique_solution(w: Mat, x: Seq<Sc>, y: Seq<Sc>, b: Seq<Sc>)
  requires rows(w) == cols(w), indep(w, cols(w)), is_solution(w, x, b), is_solution(w, y, b)
  ensures forall|i: int| 0 <= i < cols(w) ==> #[trigger] x[i]@ == y[i]@
{
  let n = cols(w);
  let d = |j: int| if 0 <= j < n { x[j]@ - y[j]@ } else { 0real };
  assert forall|r: int| 0 <= r < rows(w) implies #[trigger] rowsum(w, r, imin(r, 0), n, d) == 0real by {
    prodsum_diff(w, r, x, y, d, n);
    assert(prodsum(w, r, x, n) == b[r]@ && prodsum(w, r, y, n) == b[r]@);
  }
  assert(nullk(w, 0, d));
  assert forall|i: int| 0 <= i < n implies #[trigger] x[i]@ == y[i]@ by { assert(d(i) == 0real); }
}
}
