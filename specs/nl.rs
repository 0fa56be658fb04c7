// The problem's side of a Newton solve, seen as a log of callback calls with their arguments and answers.
// Any implementation of the callbacks is allowed; each call only appends what was asked and answered.
verus! {
pub enum Ev {
  Sys { y: Seq<Sc>, out: Seq<Sc>, r: Result<(), Error> },
  Setup { y: Seq<Sc>, f: Seq<Sc>, jbad: bool, r: Result<bool, Error> },
  Solve { y: Seq<Sc>, b: Seq<Sc>, x: Seq<Sc>, r: Result<(), Error> },
  Ctest { y: Seq<Sc>, del: Seq<Sc>, tol: Sc, w: Seq<Sc>, cur: usize, r: Result<bool, Error> },
}
pub trait NLProblem: Sized {
  spec fn log(&self) -> Seq<Ev>;
  fn sys(&mut self, y: &Vc, f: &mut Vc) -> (r: Result<(), Error>)
    ensures final(self).log() == old(self).log().push(Ev::Sys { y: y@, out: final(f)@, r }), final(f)@.len() == old(f)@.len();
  fn setup(&mut self, y: &Vc, f: &Vc, jbad: bool) -> (r: Result<bool, Error>)
    ensures final(self).log() == old(self).log().push(Ev::Setup { y: y@, f: f@, jbad, r });
  fn solve(&mut self, y: &Vc, b: &mut Vc) -> (r: Result<(), Error>)
    ensures final(self).log() == old(self).log().push(Ev::Solve { y: y@, b: old(b)@, x: final(b)@, r }), final(b)@.len() == old(b)@.len();
  fn ctest(&mut self, solver: &Newton, y: &Vc, del: &Vc, tol: Sc, w: &Vc) -> (r: Result<bool, Error>)
    ensures final(self).log() == old(self).log().push(Ev::Ctest { y: y@, del: del@, tol, w: w@, cur: cur_iter(*solver), r });
}
pub open spec fn recov(e: Error) -> bool { e is ConvergenceRecover }
// what an event as the last one of an attempt means for the attempt
pub open spec fn ev_err(e: Ev) -> bool { match e { Ev::Sys { r, .. } => r is Err, Ev::Setup { r, .. } => r is Err, Ev::Solve { r, .. } => r is Err, Ev::Ctest { r, .. } => r is Err } }
pub open spec fn err_of(e: Ev) -> Error { match e { Ev::Sys { r, .. } => r->Err_0, Ev::Setup { r, .. } => r->Err_0, Ev::Solve { r, .. } => r->Err_0, Ev::Ctest { r, .. } => r->Err_0 } }
pub open spec fn ctrue(e: Ev) -> bool { e is Ctest && e->Ctest_r == Ok::<bool, Error>(true) }
pub open spec fn cfalse(e: Ev) -> bool { e is Ctest && e->Ctest_r == Ok::<bool, Error>(false) }
pub open spec fn fatal(e: Ev) -> bool { ev_err(e) && !recov(err_of(e)) }
// the attempt failed recoverably with this event: a recoverable error, or one more iteration without convergence
pub open spec fn failed_recov(e: Ev) -> bool { (ev_err(e) && recov(err_of(e))) || cfalse(e) }
pub open spec fn verdict(e: Ev) -> Result<(), Error> { if ctrue(e) { Ok(()) } else if ev_err(e) { Err(err_of(e)) } else { Err(Error::ConvergenceRecover {}) } }
pub open spec fn ends(e: Ev) -> bool { ev_err(e) || e is Ctest }
pub open spec fn lim(limit: usize) -> int { if limit == 0 { 1 } else { limit as int } }

pub open spec fn nsolve(l: Seq<Ev>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { nsolve(l, a, b - 1) + if l[b - 1] is Solve { 1int } else { 0 } } }
pub open spec fn going(e: Ev) -> bool { !ev_err(e) && !ctrue(e) }
// Jacobian data is current: the latest completed setup reported an update and no solve converged since
pub open spec fn current(j0: bool, l: Seq<Ev>, a: int, b: int) -> bool decreases b - a {
  if b <= a { j0 } else if l[b - 1] is Setup && l[b - 1]->Setup_r is Ok { l[b - 1]->Setup_r->Ok_0 } else if ctrue(l[b - 1]) { false } else { current(j0, l, a, b - 1) } }
pub broadcast proof fn nsolve_push(l: Seq<Ev>, e: Ev, a: int, b: int) requires a <= b <= l.len() + 1, 0 <= a ensures #[trigger] nsolve(l.push(e), a, b) == if b <= l.len() { nsolve(l, a, b) } else if a == b { 0 } else { nsolve(l, a, l.len() as int) + if e is Solve { 1int } else { 0 } } decreases b - a
{ if b > a { nsolve_push(l, e, a, b - 1); } }
pub broadcast proof fn current_push(j: bool, l: Seq<Ev>, e: Ev, a: int, b: int) requires a <= b <= l.len() + 1, 0 <= a ensures #[trigger] current(j, l.push(e), a, b) == if b <= l.len() { current(j, l, a, b) } else if a == b { j } else if e is Setup && e->Setup_r is Ok { e->Setup_r->Ok_0 } else if ctrue(e) { false } else { current(j, l, a, l.len() as int) } decreases b - a
{ if b > a { current_push(j, l, e, a, b - 1); } }
pub open spec fn extends(l: Seq<Ev>, l0: Seq<Ev>) -> bool { l0.len() <= l.len() && forall|i: int| 0 <= i < l0.len() ==> #[trigger] l[i] == l0[i] }
pub open spec fn isneg(b: Seq<Sc>, f: Seq<Sc>) -> bool { b.len() == f.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == fneg(f[i]) }
pub open spec fn issum(z: Seq<Sc>, y: Seq<Sc>, x: Seq<Sc>) -> bool { z.len() == y.len() && x.len() == y.len() && forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == fadd(y[i], x[i]) }
// ---- one solve, read event by event; st holds the positions at which an attempt starts
pub struct St { pub at: int, pub len: int, pub fc: int, pub sc: int, pub jc: bool, pub y: Seq<Sc>, pub out: Seq<Sc>, pub last: Ev }
pub struct Cx { pub y0: Seq<Sc>, pub lim: int, pub ask: bool, pub j0: bool }
pub open spec fn init(cx: Cx) -> St { St { at: 0, len: 0, fc: 0, sc: 0, jc: cx.j0, y: cx.y0, out: cx.y0, last: arbitrary() } }
// at: attempts begun; len, fc, sc: calls, unconverged iterations and linear solves of the attempt; y, out: the latest residual evaluation
pub open spec fn step(p: St, e: Ev, start: bool) -> St {
  St { at: if start { p.at + 1 } else { p.at }, len: if start { 1 } else { p.len + 1 },
    fc: (if start { 0 } else { p.fc }) + (if cfalse(e) { 1int } else { 0 }), sc: (if start { 0 } else { p.sc }) + (if e is Solve { 1int } else { 0 }),
    jc: if e is Setup && e->Setup_r is Ok { e->Setup_r->Ok_0 } else if ctrue(e) { false } else { p.jc },
    y: if e is Sys { e->Sys_y } else { p.y }, out: if e is Sys { e->Sys_out } else { p.out }, last: e } }
pub open spec fn run(l: Seq<Ev>, st: Set<int>, s: int, b: int, cx: Cx) -> St decreases b - s { if b <= s { init(cx) } else { step(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1)) } }
pub broadcast proof fn run_push(l: Seq<Ev>, e: Ev, st: Set<int>, s: int, b: int, cx: Cx) requires 0 <= s <= b <= l.len() + 1
  ensures #[trigger] run(l.push(e), st, s, b, cx) == if b <= l.len() { run(l, st, s, b, cx) } else if b == s { init(cx) } else { step(run(l, st, s, l.len() as int, cx), e, st.contains(l.len() as int)) } decreases b - s
{ if b > s { run_push(l, e, st, s, b - 1, cx); } }
pub broadcast proof fn run_ins(l: Seq<Ev>, st: Set<int>, p: int, s: int, b: int, cx: Cx) requires b <= p
  ensures #[trigger] run(l, st.insert(p), s, b, cx) == run(l, st, s, b, cx) decreases b - s
{ if b > s { run_ins(l, st, p, s, b - 1, cx); } }
pub proof fn run_jc(l: Seq<Ev>, st: Set<int>, s: int, b: int, cx: Cx) ensures run(l, st, s, b, cx).jc == current(cx.j0, l, s, b) decreases b - s { if b > s { run_jc(l, st, s, b - 1, cx); } }
// ---- every event is a legal next one, by each property's own rule
pub open spec fn shape(p: St, e: Ev, start: bool) -> bool {
  if start { e is Sys && (p.at == 0 || failed_recov(p.last)) }
  else { p.at > 0 && going(p.last) && (e is Setup ==> p.len == 1) && (e is Sys ==> cfalse(p.last)) && (e is Ctest ==> p.last is Solve) && (e is Solve ==> p.last is Sys || p.last is Setup) } }
pub open spec fn chk_law(p: St, e: Ev, start: bool, cx: Cx) -> bool { match e {
    Ev::Sys { y, .. } => y == if start { cx.y0 } else { p.last->Ctest_y },
    Ev::Setup { y, f, .. } => y == cx.y0 && f == p.out,
    Ev::Solve { y, b, .. } => y == p.y && isneg(b, p.out),
    Ev::Ctest { y, del, .. } => del == p.last->Solve_x && issum(y, p.last->Solve_y, p.last->Solve_x) } }
pub open spec fn chk_work(p: St, e: Ev, start: bool, cx: Cx) -> bool {
  if start { p.at < 2 } else { (e is Solve ==> p.sc < cx.lim) && p.len <= 3 * cx.lim } }
pub open spec fn chk_lim(p: St, e: Ev, start: bool, cx: Cx) -> bool { start && p.at > 0 && cfalse(p.last) ==> p.fc >= cx.lim }
pub open spec fn chk_cur(p: St, e: Ev, start: bool, cx: Cx) -> bool { e is Ctest ==> e->Ctest_cur == p.fc }
pub open spec fn chk_retry(p: St, e: Ev, start: bool, cx: Cx) -> bool {
  if start { e->Sys_y == cx.y0 && (p.at == 0 || (p.at == 1 && !p.jc)) }
  else { (p.len == 1 ==> (e is Setup <==> (cx.ask || p.at == 2))) && (e is Setup ==> (e->Setup_jbad <==> p.at == 2)) } }
pub open spec fn ok_law(l: Seq<Ev>, st: Set<int>, s: int, b: int, cx: Cx) -> bool decreases b - s {
  b <= s || (ok_law(l, st, s, b - 1, cx) && shape(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1)) && chk_law(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1), cx)) }
pub broadcast proof fn ok_law_push(l: Seq<Ev>, e: Ev, st: Set<int>, s: int, b: int, cx: Cx) requires 0 <= s <= b <= l.len() + 1
  ensures #[trigger] ok_law(l.push(e), st, s, b, cx) == if b <= l.len() { ok_law(l, st, s, b, cx) } else if b == s { true } else {
    let p = run(l, st, s, l.len() as int, cx); let start = st.contains(l.len() as int); ok_law(l, st, s, l.len() as int, cx) && shape(p, e, start) && chk_law(p, e, start, cx) } decreases b - s
{ if b > s { ok_law_push(l, e, st, s, b - 1, cx); run_push(l, e, st, s, b - 1, cx); } }
pub broadcast proof fn ok_law_ins(l: Seq<Ev>, st: Set<int>, p: int, s: int, b: int, cx: Cx) requires b <= p
  ensures #[trigger] ok_law(l, st.insert(p), s, b, cx) == ok_law(l, st, s, b, cx) decreases b - s
{ if b > s { ok_law_ins(l, st, p, s, b - 1, cx); run_ins(l, st, p, s, b - 1, cx); } }
pub open spec fn ok_work(l: Seq<Ev>, st: Set<int>, s: int, b: int, cx: Cx) -> bool decreases b - s {
  b <= s || (ok_work(l, st, s, b - 1, cx) && shape(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1)) && chk_work(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1), cx)) }
pub broadcast proof fn ok_work_push(l: Seq<Ev>, e: Ev, st: Set<int>, s: int, b: int, cx: Cx) requires 0 <= s <= b <= l.len() + 1
  ensures #[trigger] ok_work(l.push(e), st, s, b, cx) == if b <= l.len() { ok_work(l, st, s, b, cx) } else if b == s { true } else {
    let p = run(l, st, s, l.len() as int, cx); let start = st.contains(l.len() as int); ok_work(l, st, s, l.len() as int, cx) && shape(p, e, start) && chk_work(p, e, start, cx) } decreases b - s
{ if b > s { ok_work_push(l, e, st, s, b - 1, cx); run_push(l, e, st, s, b - 1, cx); } }
pub broadcast proof fn ok_work_ins(l: Seq<Ev>, st: Set<int>, p: int, s: int, b: int, cx: Cx) requires b <= p
  ensures #[trigger] ok_work(l, st.insert(p), s, b, cx) == ok_work(l, st, s, b, cx) decreases b - s
{ if b > s { ok_work_ins(l, st, p, s, b - 1, cx); run_ins(l, st, p, s, b - 1, cx); } }
pub open spec fn ok_lim(l: Seq<Ev>, st: Set<int>, s: int, b: int, cx: Cx) -> bool decreases b - s {
  b <= s || (ok_lim(l, st, s, b - 1, cx) && shape(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1)) && chk_lim(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1), cx)) }
pub broadcast proof fn ok_lim_push(l: Seq<Ev>, e: Ev, st: Set<int>, s: int, b: int, cx: Cx) requires 0 <= s <= b <= l.len() + 1
  ensures #[trigger] ok_lim(l.push(e), st, s, b, cx) == if b <= l.len() { ok_lim(l, st, s, b, cx) } else if b == s { true } else {
    let p = run(l, st, s, l.len() as int, cx); let start = st.contains(l.len() as int); ok_lim(l, st, s, l.len() as int, cx) && shape(p, e, start) && chk_lim(p, e, start, cx) } decreases b - s
{ if b > s { ok_lim_push(l, e, st, s, b - 1, cx); run_push(l, e, st, s, b - 1, cx); } }
pub broadcast proof fn ok_lim_ins(l: Seq<Ev>, st: Set<int>, p: int, s: int, b: int, cx: Cx) requires b <= p
  ensures #[trigger] ok_lim(l, st.insert(p), s, b, cx) == ok_lim(l, st, s, b, cx) decreases b - s
{ if b > s { ok_lim_ins(l, st, p, s, b - 1, cx); run_ins(l, st, p, s, b - 1, cx); } }
pub open spec fn ok_cur(l: Seq<Ev>, st: Set<int>, s: int, b: int, cx: Cx) -> bool decreases b - s {
  b <= s || (ok_cur(l, st, s, b - 1, cx) && shape(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1)) && chk_cur(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1), cx)) }
pub broadcast proof fn ok_cur_push(l: Seq<Ev>, e: Ev, st: Set<int>, s: int, b: int, cx: Cx) requires 0 <= s <= b <= l.len() + 1
  ensures #[trigger] ok_cur(l.push(e), st, s, b, cx) == if b <= l.len() { ok_cur(l, st, s, b, cx) } else if b == s { true } else {
    let p = run(l, st, s, l.len() as int, cx); let start = st.contains(l.len() as int); ok_cur(l, st, s, l.len() as int, cx) && shape(p, e, start) && chk_cur(p, e, start, cx) } decreases b - s
{ if b > s { ok_cur_push(l, e, st, s, b - 1, cx); run_push(l, e, st, s, b - 1, cx); } }
pub broadcast proof fn ok_cur_ins(l: Seq<Ev>, st: Set<int>, p: int, s: int, b: int, cx: Cx) requires b <= p
  ensures #[trigger] ok_cur(l, st.insert(p), s, b, cx) == ok_cur(l, st, s, b, cx) decreases b - s
{ if b > s { ok_cur_ins(l, st, p, s, b - 1, cx); run_ins(l, st, p, s, b - 1, cx); } }
pub open spec fn ok_retry(l: Seq<Ev>, st: Set<int>, s: int, b: int, cx: Cx) -> bool decreases b - s {
  b <= s || (ok_retry(l, st, s, b - 1, cx) && shape(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1)) && chk_retry(run(l, st, s, b - 1, cx), l[b - 1], st.contains(b - 1), cx)) }
pub broadcast proof fn ok_retry_push(l: Seq<Ev>, e: Ev, st: Set<int>, s: int, b: int, cx: Cx) requires 0 <= s <= b <= l.len() + 1
  ensures #[trigger] ok_retry(l.push(e), st, s, b, cx) == if b <= l.len() { ok_retry(l, st, s, b, cx) } else if b == s { true } else {
    let p = run(l, st, s, l.len() as int, cx); let start = st.contains(l.len() as int); ok_retry(l, st, s, l.len() as int, cx) && shape(p, e, start) && chk_retry(p, e, start, cx) } decreases b - s
{ if b > s { ok_retry_push(l, e, st, s, b - 1, cx); run_push(l, e, st, s, b - 1, cx); } }
pub broadcast proof fn ok_retry_ins(l: Seq<Ev>, st: Set<int>, p: int, s: int, b: int, cx: Cx) requires b <= p
  ensures #[trigger] ok_retry(l, st.insert(p), s, b, cx) == ok_retry(l, st, s, b, cx) decreases b - s
{ if b > s { ok_retry_ins(l, st, p, s, b - 1, cx); run_ins(l, st, p, s, b - 1, cx); } }
pub broadcast group logs { nsolve_push, current_push, run_push, run_ins, ok_law_push, ok_law_ins, ok_work_push, ok_work_ins, ok_lim_push, ok_lim_ins, ok_cur_push, ok_cur_ins, ok_retry_push, ok_retry_ins }
// ---- counting over a log that was continued, and over consecutive parts of it
pub proof fn nsolve_ext(l: Seq<Ev>, l0: Seq<Ev>, a: int, b: int) requires extends(l, l0), 0 <= a, b <= l0.len() ensures nsolve(l, a, b) == nsolve(l0, a, b) decreases b - a { if b > a { nsolve_ext(l, l0, a, b - 1); } }
pub proof fn nsolve_add(l: Seq<Ev>, a: int, b: int, c: int) requires a <= b <= c ensures nsolve(l, a, c) == nsolve(l, a, b) + nsolve(l, b, c) decreases c - b { if c > b { nsolve_add(l, a, b, c - 1); } }
pub proof fn current_ext(j: bool, l: Seq<Ev>, l0: Seq<Ev>, a: int, b: int) requires extends(l, l0), 0 <= a, b <= l0.len() ensures current(j, l, a, b) == current(j, l0, a, b) decreases b - a { if b > a { current_ext(j, l, l0, a, b - 1); } }
pub proof fn current_add(j: bool, l: Seq<Ev>, a: int, b: int, c: int) requires a <= b <= c ensures current(j, l, a, c) == current(current(j, l, a, b), l, b, c) decreases c - b { if c > b { current_add(j, l, a, b, c - 1); } }
}
