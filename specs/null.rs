// linear dependence of columns, carried through elimination (exact arithmetic)
verus! {
pub open spec fn rowsum(w: Mat, i: int, lo: int, hi: int, x: spec_fn(int) -> real) -> real decreases hi - lo { if hi <= lo { 0real } else { rowsum(w, i, lo, hi - 1, x) + a(w, i, hi - 1) * x(hi - 1) } }
// x is annihilated by the rows of w, counting entries left of the diagonal of the first k columns as zero
pub open spec fn nullk(w: Mat, k: int, x: spec_fn(int) -> real) -> bool { forall|i: int| 0 <= i < rows(w) ==> #[trigger] rowsum(w, i, imin(i, k), cols(w), x) == 0real }
pub open spec fn same_null(w0: Mat, w: Mat, k: int) -> bool { forall|x: spec_fn(int) -> real| #![trigger nullk(w0, 0, x)] #![trigger nullk(w, k, x)] nullk(w0, 0, x) <==> nullk(w, k, x) }
// the first c columns are linearly independent
pub open spec fn indep(w: Mat, c: int) -> bool { forall|x: spec_fn(int) -> real| #[trigger] nullk(w, 0, x) && (forall|j: int| !(0 <= j < c) ==> #[trigger] x(j) == 0real) ==> forall|j: int| #[trigger] x(j) == 0real }
// column c - 1 is a linear combination of the columns before it
pub open spec fn dep(w: Mat, c: int) -> bool { exists|x: spec_fn(int) -> real| #[trigger] nullk(w, 0, x) && x(c - 1) == 1real && (forall|j: int| !(0 <= j < c) ==> #[trigger] x(j) == 0real) }
pub open spec fn colzero(w: Mat, k: int) -> bool { forall|i: int| k <= i < rows(w) ==> #[trigger] a(w, i, k) == 0real }
pub proof fn rowsum_head(w: Mat, i: int, lo: int, hi: int, x: spec_fn(int) -> real)
  requires lo < hi ensures rowsum(w, i, lo, hi, x) == a(w, i, lo) * x(lo) + rowsum(w, i, lo + 1, hi, x) decreases hi - lo
{ reveal_with_fuel(rowsum, 2); if lo + 1 < hi { rowsum_head(w, i, lo, hi - 1, x); } }
pub proof fn rowsum_cong(w: Mat, i: int, v: Mat, i2: int, lo: int, hi: int, x: spec_fn(int) -> real, y: spec_fn(int) -> real)
  requires forall|c: int| lo <= c < hi ==> #[trigger] a(w, i, c) == a(v, i2, c), forall|c: int| lo <= c < hi ==> #[trigger] x(c) == y(c)
  ensures rowsum(w, i, lo, hi, x) == rowsum(v, i2, lo, hi, y) decreases hi - lo
{ if lo < hi { rowsum_cong(w, i, v, i2, lo, hi - 1, x, y); assert(a(w, i, hi - 1) == a(v, i2, hi - 1)); assert(x(hi - 1) == y(hi - 1)); } }
pub proof fn rowsum_zero(w: Mat, i: int, lo: int, hi: int, x: spec_fn(int) -> real)
  requires forall|c: int| lo <= c < hi ==> #[trigger] x(c) == 0real ensures rowsum(w, i, lo, hi, x) == 0real decreases hi - lo
{ if lo < hi { rowsum_zero(w, i, lo, hi - 1, x); assert(x(hi - 1) == 0real); } }
pub proof fn rowsum_elim(ws: Mat, i2: int, l: int, w3: Mat, i: int, m: real, lo: int, hi: int, x: spec_fn(int) -> real)
  requires forall|c: int| lo <= c < hi ==> #[trigger] a(w3, i, c) == a(ws, i2, c) - a(ws, l, c) * m
  ensures rowsum(w3, i, lo, hi, x) == rowsum(ws, i2, lo, hi, x) - m * rowsum(ws, l, lo, hi, x) decreases hi - lo
{
  if lo < hi {
    rowsum_elim(ws, i2, l, w3, i, m, lo, hi - 1, x);
    let (p, q, r, s) = (a(ws, i2, hi - 1), a(ws, l, hi - 1), x(hi - 1), rowsum(ws, l, lo, hi - 1, x));
    assert(a(w3, i, hi - 1) == p - q * m);
    assert((p - q * m) * r == p * r - m * (q * r)) by (nonlinear_arith);
    assert(m * (s + q * r) == m * s + m * (q * r)) by (nonlinear_arith);
  } else { assert(m * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn elim_row(ws: Mat, w3: Mat, k: int, l: int, i: int, x: spec_fn(int) -> real)
  requires 0 <= k < cols(ws), cols(ws) == rows(ws), k <= l < rows(ws), stepped(ws, w3, k, l), a(ws, l, k) != 0real, k < i < rows(ws)
  ensures rowsum(w3, i, k + 1, cols(ws), x) == rowsum(ws, sw(k, l, i), k, cols(ws), x) - a(w3, i, k) * rowsum(ws, l, k, cols(ws), x)
{
  let n = cols(ws); let i2 = sw(k, l, i); let m = a(w3, i, k); let d = a(ws, l, k); let e = a(ws, i2, k);
  rowsum_elim(ws, i2, l, w3, i, m, k + 1, n, x);
  rowsum_head(ws, i2, k, n, x); rowsum_head(ws, l, k, n, x);
  assert(m == e * (1real / d));
  assert((e * (1real / d)) * d == e) by (nonlinear_arith) requires d != 0real;
  let (r, s) = (x(k), rowsum(ws, l, k + 1, n, x));
  assert(m * (d * r + s) == e * r + m * s) by (nonlinear_arith) requires m * d == e;
}
pub proof fn null_step(ws: Mat, w3: Mat, k: int, l: int, x: spec_fn(int) -> real)
  requires 0 <= k < cols(ws), cols(ws) == rows(ws), k <= l < rows(ws), stepped(ws, w3, k, l), a(ws, l, k) != 0real
  ensures nullk(ws, k, x) <==> nullk(w3, k + 1, x)
{
  let n = cols(ws);
  assert forall|i: int| 0 <= i < k implies #[trigger] rowsum(w3, i, imin(i, k + 1), n, x) == rowsum(ws, i, imin(i, k), n, x) by {
    assert forall|c: int| imin(i, k) <= c < n implies #[trigger] a(w3, i, c) == a(ws, i, c) by { assert(sw(k, l, i) == i); }
    rowsum_cong(w3, i, ws, i, i, n, x, x);
  }
  assert forall|c: int| k <= c < n implies #[trigger] a(w3, k, c) == a(ws, l, c) by { assert(sw(k, l, k) == l); }
  rowsum_cong(w3, k, ws, l, k, n, x, x);
  assert(imin(k, k + 1) == k && imin(l, k) == k);
  if nullk(ws, k, x) {
    assert forall|i: int| 0 <= i < n implies #[trigger] rowsum(w3, i, imin(i, k + 1), n, x) == 0real by {
      if i < k { assert(rowsum(ws, i, imin(i, k), n, x) == 0real); }
      else {
        assert(rowsum(ws, l, imin(l, k), n, x) == 0real);
        if i > k {
          elim_row(ws, w3, k, l, i, x);
          let i2 = sw(k, l, i);
          assert(rowsum(ws, i2, imin(i2, k), n, x) == 0real);
          let m = a(w3, i, k);
          assert(m * 0real == 0real) by (nonlinear_arith);
        }
      }
    }
  }
  if nullk(w3, k + 1, x) {
    assert(rowsum(w3, k, imin(k, k + 1), n, x) == 0real);
    assert forall|i: int| 0 <= i < n implies #[trigger] rowsum(ws, i, imin(i, k), n, x) == 0real by {
      if i < k { assert(rowsum(w3, i, imin(i, k + 1), n, x) == 0real); }
      else if i != l {
        let j = sw(k, l, i);
        assert(j > k && sw(k, l, j) == i);
        elim_row(ws, w3, k, l, j, x);
        assert(rowsum(w3, j, imin(j, k + 1), n, x) == 0real);
        let m = a(w3, j, k);
        assert(m * 0real == 0real) by (nonlinear_arith);
      }
    }
  }
}
pub proof fn same_null_step(w0: Mat, ws: Mat, w3: Mat, k: int, l: int)
  requires 0 <= k < cols(ws), cols(ws) == rows(ws), k <= l < rows(ws), stepped(ws, w3, k, l), a(ws, l, k) != 0real, same_null(w0, ws, k)
  ensures same_null(w0, w3, k + 1)
{
  assert forall|x: spec_fn(int) -> real| nullk(w0, 0, x) <==> nullk(w3, k + 1, x) by { null_step(ws, w3, k, l, x); assert(nullk(w0, 0, x) <==> nullk(ws, k, x)); }
}
// a vector supported on the first k columns and annihilated by the eliminated matrix is zero
pub proof fn back_zero(w: Mat, k: int, x: spec_fn(int) -> real, t: int)
  requires 0 <= t <= k <= cols(w), cols(w) == rows(w), diag_ok(w, k), nullk(w, k, x), forall|j: int| !(0 <= j < k) ==> #[trigger] x(j) == 0real
  ensures forall|j: int| j >= t ==> #[trigger] x(j) == 0real decreases k - t
{
  if t < k {
    back_zero(w, k, x, t + 1);
    let n = cols(w);
    assert(rowsum(w, t, imin(t, k), n, x) == 0real);
    rowsum_head(w, t, t, n, x);
    rowsum_zero(w, t, t + 1, n, x);
    let (d, r) = (a(w, t, t), x(t));
    assert(r == 0real) by (nonlinear_arith) requires d * r == 0real, d != 0real;
    assert forall|j: int| j >= t implies #[trigger] x(j) == 0real by { if j == t { } else { assert(j >= t + 1); } }
  } else { assert forall|j: int| j >= t implies #[trigger] x(j) == 0real by { assert(!(0 <= j < k)); } }
}
pub proof fn lemma_indep(w0: Mat, w: Mat, k: int)
  requires 0 <= k <= cols(w), cols(w) == rows(w), diag_ok(w, k), same_null(w0, w, k)
  ensures indep(w0, k)
{
  assert forall|x: spec_fn(int) -> real| #[trigger] nullk(w0, 0, x) && (forall|j: int| !(0 <= j < k) ==> #[trigger] x(j) == 0real) implies forall|j: int| #[trigger] x(j) == 0real by {
    assert(nullk(w, k, x));
    back_zero(w, k, x, 0);
    assert forall|j: int| #[trigger] x(j) == 0real by { if j < 0 { assert(!(0 <= j < k)); } }
  }
}
// the dependence vector: 1 in position k, the entries above by back substitution
pub open spec fn bsx(w: Mat, k: int, t: int) -> spec_fn(int) -> real decreases k - t {
  if t >= k { |j: int| if j == k { 1real } else { 0real } }
  else { let x = bsx(w, k, t + 1); |j: int| if j == t { (0real - rowsum(w, t, t + 1, cols(w), x)) / a(w, t, t) } else { x(j) } }
}
pub proof fn bsx_supp(w: Mat, k: int, t: int, j: int)
  requires 0 <= t <= k ensures bsx(w, k, t)(k) == 1real, !(t <= j <= k) ==> bsx(w, k, t)(j) == 0real decreases k - t
{ if t < k { bsx_supp(w, k, t + 1, j); } }
pub proof fn bsx_rows(w: Mat, k: int, t: int, i: int)
  requires 0 <= t <= i < k < cols(w), cols(w) == rows(w), diag_ok(w, k)
  ensures rowsum(w, i, i, cols(w), bsx(w, k, t)) == 0real decreases k - t
{
  let n = cols(w); let x = bsx(w, k, t); let y = bsx(w, k, t + 1);
  if i == t {
    rowsum_head(w, i, i, n, x);
    rowsum_cong(w, i, w, i, i + 1, n, x, y);
    let (d, s) = (a(w, i, i), rowsum(w, i, i + 1, n, y));
    assert(d * ((0real - s) / d) == 0real - s) by (nonlinear_arith) requires d != 0real;
  } else {
    bsx_rows(w, k, t + 1, i);
    rowsum_cong(w, i, w, i, i, n, x, y);
  }
}
pub proof fn lemma_dep(w0: Mat, w: Mat, k: int)
  requires 0 <= k < cols(w), cols(w) == rows(w), diag_ok(w, k), same_null(w0, w, k), colzero(w, k)
  ensures dep(w0, k + 1)
{
  let n = cols(w); let x = bsx(w, k, 0);
  assert forall|i: int| 0 <= i < n implies #[trigger] rowsum(w, i, imin(i, k), n, x) == 0real by {
    if i < k { bsx_rows(w, k, 0, i); }
    else {
      rowsum_head(w, i, k, n, x);
      assert forall|c: int| k + 1 <= c < n implies #[trigger] x(c) == 0real by { bsx_supp(w, k, 0, c); }
      rowsum_zero(w, i, k + 1, n, x);
      let r = x(k);
      assert(0real * r == 0real) by (nonlinear_arith);
    }
  }
  assert(nullk(w, k, x));
  assert(nullk(w0, 0, x));
  bsx_supp(w, k, 0, 0);
  assert forall|j: int| !(0 <= j < k + 1) implies #[trigger] x(j) == 0real by { bsx_supp(w, k, 0, j); }
}
}
