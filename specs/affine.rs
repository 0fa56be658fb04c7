// Newton's method on an affine residual F(y) = J y + c with the dense solver supplying the corrections
verus! {
pub open spec fn resid(j: Mat, c: Seq<Sc>, y: Seq<Sc>, f: Seq<Sc>) -> bool { f.len() == rows(j) && forall|i: int| 0 <= i < rows(j) ==> (#[trigger] f[i])@ == c[i]@ + prodsum(j, i, y, cols(j)) }
pub open spec fn root(j: Mat, c: Seq<Sc>, y: Seq<Sc>) -> bool { forall|i: int| 0 <= i < rows(j) ==> c[i]@ + #[trigger] prodsum(j, i, y, cols(j)) == 0real }
// a completed residual evaluation gives the residual, a completed solve solves the system; nothing about anything else
pub open spec fn lawful(j: Mat, c: Seq<Sc>, e: Ev) -> bool { match e {
    Ev::Sys { y, out, r } => r is Ok ==> resid(j, c, y, out),
    Ev::Solve { y, b, x, r } => r is Ok ==> is_solution(j, x, b),
    _ => true } }
pub proof fn prodsum_add(j: Mat, r: int, y: Seq<Sc>, x: Seq<Sc>, z: Seq<Sc>, hi: int)
  requires forall|i: int| 0 <= i < hi ==> (#[trigger] z[i])@ == y[i]@ + x[i]@
  ensures prodsum(j, r, z, hi) == prodsum(j, r, y, hi) + prodsum(j, r, x, hi) decreases hi
{ if hi > 0 { prodsum_add(j, r, y, x, z, hi - 1); let (q, s, t) = (a(j, r, hi - 1), y[hi - 1]@, x[hi - 1]@); assert(z[hi - 1]@ == s + t); assert(q * (s + t) == q * s + q * t) by (nonlinear_arith); } }
pub proof fn prodsum_push(j: Mat, r: int, y: Seq<Sc>, hi: int) requires 0 <= hi ensures prodsum(j, r, y, hi + 1) == prodsum(j, r, y, hi) + a(j, r, hi) * y[hi]@ { }
// the correction of an affine system leads to a root
pub proof fn corrected(j: Mat, c: Seq<Sc>, y: Seq<Sc>, f: Seq<Sc>, b: Seq<Sc>, x: Seq<Sc>, z: Seq<Sc>)
  requires rows(j) == cols(j), resid(j, c, y, f), isneg(b, f), is_solution(j, x, b), issum(z, y, x), y.len() == cols(j)
  ensures root(j, c, z)
{
  broadcast use exact;
  assert forall|i: int| 0 <= i < rows(j) implies c[i]@ + #[trigger] prodsum(j, i, z, cols(j)) == 0real by {
    assert forall|k: int| 0 <= k < cols(j) implies (#[trigger] z[k])@ == y[k]@ + x[k]@ by { }
    prodsum_add(j, i, y, x, z, cols(j));
    assert(f[i]@ == c[i]@ + prodsum(j, i, y, cols(j)));
    assert(b[i] == fneg(f[i]));
    assert(prodsum(j, i, x, cols(j)) == b[i]@);
  }
}
// where a lawful log stands: the residual at hand is that of the iterate, a pending correction is the one that leads to a root
pub open spec fn stands(j: Mat, c: Seq<Sc>, p: St) -> bool {
  p.at >= 0 && (p.at > 0 ==> p.len >= 1 && (p.len == 1 ==> p.last is Sys)
    && (going(p.last) && (p.last is Sys || p.last is Setup) ==> resid(j, c, p.y, p.out))
    && (going(p.last) && p.last is Solve ==> p.last->Solve_y == p.y && resid(j, c, p.y, p.out) && isneg(p.last->Solve_b, p.out) && is_solution(j, p.last->Solve_x, p.last->Solve_b))) }
pub proof fn law_stands(j: Mat, c: Seq<Sc>, l: Seq<Ev>, st: Set<int>, s: int, b: int, cx: Cx)
  requires rows(j) == cols(j), 0 <= s <= b <= l.len(), ok_law(l, st, s, b, cx), forall|k: int| s <= k < b ==> lawful(j, c, #[trigger] l[k])
  ensures stands(j, c, run(l, st, s, b, cx)) decreases b - s
{ if b > s { law_stands(j, c, l, st, s, b - 1, cx); let p = run(l, st, s, b - 1, cx); let e = l[b - 1]; assert(lawful(j, c, e)); assert(run(l, st, s, b, cx) == step(p, e, st.contains(b - 1))); } }
// every vector shown to the convergence test is a root
pub proof fn law_roots(j: Mat, c: Seq<Sc>, l: Seq<Ev>, st: Set<int>, s: int, b: int, cx: Cx)
  requires rows(j) == cols(j), 0 <= s <= b <= l.len(), ok_law(l, st, s, b, cx), forall|k: int| s <= k < b ==> lawful(j, c, #[trigger] l[k]),
    forall|k: int| s <= k < b && (#[trigger] l[k]) is Ctest ==> l[k]->Ctest_y.len() == cols(j)
  ensures forall|k: int| s <= k < b && (#[trigger] l[k]) is Ctest ==> root(j, c, l[k]->Ctest_y) decreases b - s
{ if b > s {
    law_roots(j, c, l, st, s, b - 1, cx); law_stands(j, c, l, st, s, b - 1, cx);
    let p = run(l, st, s, b - 1, cx); let e = l[b - 1];
    if e is Ctest { corrected(j, c, p.y, p.out, p.last->Solve_b, p.last->Solve_x, e->Ctest_y); } } }
}
