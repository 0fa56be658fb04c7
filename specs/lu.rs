// LU theory in exact arithmetic
verus! {
pub open spec fn a(m: Mat, i: int, j: int) -> real { el(m, i, j)@ }
pub open spec fn imin(x: int, y: int) -> int { if x < y { x } else { y } }
// sum over s < t of m[i][s] * m[s][j]
pub open spec fn dot(m: Mat, i: int, j: int, t: int) -> real decreases t { if t <= 0 { 0real } else { dot(m, i, j, t-1) + a(m, i, t-1) * a(m, t-1, j) } }
// row i, column j of the product of the factors after k elimination steps
pub open spec fn acc(m: Mat, i: int, j: int, k: int) -> real { dot(m, i, j, imin(imin(i, j+1), k)) + if j >= imin(i,k) { a(m, i, j) } else { 0real } }
pub open spec fn sw(k: int, l: int, i: int) -> int { if i == k { l } else if i == l { k } else { i } }
// original row that the first k recorded exchanges moved to position i
pub open spec fn perm(p: Seq<usize>, k: int, i: int) -> int decreases k { if k <= 0 { i } else { perm(p, k-1, sw(k-1, p[k-1] as int, i)) } }
pub open spec fn piv_ok(p: Seq<usize>, k: int, m: int) -> bool { forall|t: int| 0 <= t < k ==> t <= #[trigger] p[t] < m }
pub open spec fn lu_inv(w: Mat, w0: Mat, p: Seq<usize>, k: int) -> bool {
  forall|i: int, j: int| 0 <= i < rows(w) && 0 <= j < cols(w) ==> #[trigger] acc(w, i, j, k) == a(w0, perm(p, k, i), j)
}
pub open spec fn diag_ok(w: Mat, k: int) -> bool { forall|t: int| 0 <= t < k ==> #[trigger] a(w, t, t) != 0real }
// one elimination step with pivot row l, as a relation between the matrix before and after
pub open spec fn stepped(ws: Mat, w3: Mat, k: int, l: int) -> bool {
  rows(ws) == rows(w3) && cols(ws) == cols(w3)
  && (forall|r: int, c: int| 0 <= r < rows(ws) && 0 <= c < cols(ws) && (r <= k || c < k) ==> #[trigger] a(w3, r, c) == a(ws, sw(k, l, r), c))
  && (forall|r: int| k < r < rows(ws) ==> #[trigger] a(w3, r, k) == a(ws, sw(k, l, r), k) * (1real / a(ws, l, k)))
  && (forall|r: int, c: int| k < r < rows(ws) && k < c < cols(ws) ==> #[trigger] a(w3, r, c) == a(ws, sw(k, l, r), c) - a(ws, l, c) * a(w3, r, k))
}
pub proof fn dot_cong(m1: Mat, m2: Mat, i1: int, i2: int, j: int, t: int)
  requires forall|s: int| 0 <= s < t ==> a(m1, i1, s) == #[trigger] a(m2, i2, s), forall|s: int| 0 <= s < t ==> a(m1, s, j) == #[trigger] a(m2, s, j)
  ensures dot(m1, i1, j, t) == dot(m2, i2, j, t)
  decreases t
{ if t > 0 { dot_cong(m1, m2, i1, i2, j, t-1); assert(a(m1, i1, t-1) == a(m2, i2, t-1)); assert(a(m1, t-1, j) == a(m2, t-1, j)); } }
pub proof fn perm_cong(p: Seq<usize>, q: Seq<usize>, k: int, i: int)
  requires forall|t: int| 0 <= t < k ==> p[t] == q[t]
  ensures perm(p, k, i) == perm(q, k, i) decreases k
{ if k > 0 { perm_cong(p, q, k-1, sw(k-1, p[k-1] as int, i)); } }
// what one step keeps: the product of the factors, up to the new exchange
pub proof fn lemma_step(ws: Mat, w3: Mat, w0: Mat, ps: Seq<usize>, p: Seq<usize>, k: int)
  requires 0 <= k < cols(ws) <= rows(ws), k <= p[k] < rows(ws), stepped(ws, w3, k, p[k] as int), a(ws, p[k] as int, k) != 0real,
    lu_inv(ws, w0, ps, k), forall|t: int| 0 <= t < k ==> p[t] == ps[t]
  ensures lu_inv(w3, w0, p, k + 1)
{
  let l = p[k] as int;
  assert forall|i: int, j: int| 0 <= i < rows(w3) && 0 <= j < cols(w3) implies #[trigger] acc(w3, i, j, k+1) == a(w0, perm(p, k+1, i), j) by {
    let i2 = sw(k, l, i);
    let t = imin(imin(i, j+1), k);
    assert(t == imin(imin(i2, j+1), k));
    assert forall|s: int| 0 <= s < t implies a(w3, i, s) == #[trigger] a(ws, i2, s) by { }
    assert forall|s: int| 0 <= s < t implies a(w3, s, j) == #[trigger] a(ws, s, j) by { assert(sw(k, l, s) == s); }
    dot_cong(w3, ws, i, i2, j, t);
    assert(a(w3, k, j) == a(ws, l, j));
    perm_cong(p, ps, k, i2);
    assert(acc(ws, i2, j, k) == a(w0, perm(ps, k, i2), j));
    if i > k && j >= k {
      assert(dot(w3, i, j, k+1) == dot(w3, i, j, k) + a(w3, i, k) * a(w3, k, j));
      let x = a(ws, i2, k); let d = a(ws, l, k);
      if j == k {
        assert(a(w3, i, k) == x * (1real / d));
        assert((x * (1real / d)) * d == x) by (nonlinear_arith) requires d != 0real;
      } else {
        assert(a(w3, i, j) == a(ws, i2, j) - a(ws, l, j) * a(w3, i, k));
        assert(a(ws, l, j) * a(w3, i, k) == a(w3, i, k) * a(ws, l, j)) by (nonlinear_arith);
      }
    } else if i <= k {
      assert(a(w3, i, j) == a(ws, i2, j));
    } else {
      assert(a(w3, i, j) == a(ws, i2, j));
    }
  }
}
}
