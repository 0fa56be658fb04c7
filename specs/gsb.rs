// the reference operation sequence (SUNDIALS dense GETRF/GETRS), over any scalar arithmetic
verus! {
pub type Fm = spec_fn(int, int) -> Sc;
pub open spec fn sw(k: int, l: int, i: int) -> int { if i == k { l } else if i == l { k } else { i } }
// row chosen after looking at rows k .. t-1 of column k
pub open spec fn bsearch(f: Fm, k: int, t: int) -> int decreases t - k { if t <= k + 1 { k } else { let l = bsearch(f, k, t - 1); if fgt(fabs(f(t - 1, k)), fabs(f(l, k))) { t - 1 } else { l } } }
pub open spec fn bstep(f: Fm, k: int, n: int) -> Fm {
  let l = bsearch(f, k, n);
  let g = |r: int, c: int| f(sw(k, l, r), c);
  let mult = frecip(g(k, k));
  let h = |r: int, c: int| if r > k && c == k { fmul(g(r, k), mult) } else { g(r, c) };
  |r: int, c: int| if r > k && c > k && !feq(h(k, c), fzero()) { fsub(h(r, c), fmul(h(k, c), h(r, k))) } else { h(r, c) }
}
pub open spec fn gsb(f0: Fm, n: int, k: int) -> Fm decreases k { if k <= 0 { f0 } else { bstep(gsb(f0, n, k - 1), k - 1, n) } }
pub open spec fn bpivot(f0: Fm, n: int, k: int) -> int { bsearch(gsb(f0, n, k), k, n) }
pub open spec fn bzero(f0: Fm, n: int, k: int) -> bool { feq(gsb(f0, n, k)(bpivot(f0, n, k), k), fzero()) }
pub open spec fn fm(m: Mat) -> Fm { |r: int, c: int| el(m, r, c) }
pub open spec fn agrees(m: Mat, f: Fm) -> bool { forall|r: int, c: int| 0 <= r < rows(m) && 0 <= c < cols(m) ==> #[trigger] el(m, r, c) == f(r, c) }
pub proof fn bsearch_range(f: Fm, k: int, t: int) requires 0 <= k ensures k <= bsearch(f, k, t), bsearch(f, k, t) < imx(t, k + 1) decreases t - k { if t > k + 1 { bsearch_range(f, k, t - 1); } }
pub open spec fn imx(x: int, y: int) -> int { if x < y { y } else { x } }
// permutation, forward and backward substitution
pub open spec fn bperm(b0: Seq<Sc>, p: Seq<usize>, k: int) -> Seq<Sc> decreases k { if k <= 0 { b0 } else { let b = bperm(b0, p, k - 1); b.update(k - 1, b[p[k - 1] as int]).update(p[k - 1] as int, b[k - 1]) } }
pub open spec fn blower(w: Mat, b0: Seq<Sc>, k: int) -> Seq<Sc> decreases k { if k <= 0 { b0 } else { let b = blower(w, b0, k - 1); Seq::new(b0.len(), |i: int| if i >= k { fsub(b[i], fmul(el(w, i, k - 1), b[k - 1])) } else { b[i] }) } }
pub open spec fn bupper(w: Mat, b0: Seq<Sc>, c: int) -> Seq<Sc> decreases b0.len() - c { if c >= b0.len() { b0 } else { let b = bupper(w, b0, c + 1); let d = fdiv(b[c], el(w, c, c)); Seq::new(b0.len(), |i: int| if i < c { fsub(b[i], fmul(el(w, i, c), d)) } else if i == c { d } else { b[i] }) } }
pub open spec fn bsolve(w: Mat, p: Seq<usize>, b0: Seq<Sc>) -> Seq<Sc> { let n = b0.len() as int; bupper(w, blower(w, bperm(b0, p, n), n), 0) }
pub proof fn bperm_len(b0: Seq<Sc>, p: Seq<usize>, k: int) ensures bperm(b0, p, k).len() == b0.len() decreases k { if k > 0 { bperm_len(b0, p, k - 1); } }
pub proof fn blower_len(w: Mat, b0: Seq<Sc>, k: int) ensures blower(w, b0, k).len() == b0.len() { }
pub proof fn bupper_len(w: Mat, b0: Seq<Sc>, c: int) ensures bupper(w, b0, c).len() == b0.len() { }
// the last column of the forward substitution changes nothing
pub proof fn blower_last(w: Mat, b0: Seq<Sc>, k: int)
  requires b0.len() - 1 <= k ensures blower(w, b0, k) == blower(w, b0, b0.len() as int) || b0.len() == 0 decreases k
{
  let n = b0.len() as int;
  if n > 0 {
    blower_len(w, b0, n - 1);
    assert(blower(w, b0, n) =~= blower(w, b0, n - 1));
    if k > n { blower_last(w, b0, k - 1); blower_len(w, b0, k - 1); assert(blower(w, b0, k) =~= blower(w, b0, k - 1)); }
  }
}
pub proof fn bperm_last(b0: Seq<Sc>, p: Seq<usize>, n: int)
  requires 1 <= n == b0.len(), p[n - 1] == n - 1 ensures bperm(b0, p, n) == bperm(b0, p, n - 1)
{ bperm_len(b0, p, n - 1); assert(bperm(b0, p, n) =~= bperm(b0, p, n - 1)); }
}
