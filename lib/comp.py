"""Contracts of the two solvers together: Newton's method with the dense solver on affine residuals."""
import re
from core import *
import lin, nl


class Ctx:
    pass


def load(work):
    c = Ctx()
    c.lin, c.nl = lin.load(work), nl.load(work)
    c.j = {'fns': c.lin.j['fns'] + c.nl.j['fns'], 'structs': dict(c.lin.j['structs'], **c.nl.j['structs'])}
    return c


def trait(out):
    """the callbacks of nl.rs, each keeping an invariant of the problem, called with vectors of the right length"""
    res = []
    for t, tag in out:
        if tag != ('spec', 'nl.rs'):
            res.append((t, tag))
            continue
        if t.strip() == 'spec fn log(&self) -> Seq<Ev>;':
            t += ' spec fn inv(&self) -> bool; spec fn par(&self) -> (Mat, Seq<Sc>);'
        m = re.match(r'\s*fn (sys|setup|solve|ctest)\(&mut self', t)
        if m:
            v = {'sys': ['y@', 'old(f)@'], 'setup': ['y@', 'f@'], 'solve': ['y@', 'old(b)@'], 'ctest': ['y@']}[m.group(1)]
            t += ' requires old(self).inv()' + ''.join(', %s.len() == dimn()' % x for x in v)
        if re.match(r'\s*ensures final\(self\)\.log\(\)', t) and t.rstrip().endswith(';'):
            t = t.rstrip()[:-1] + ', final(self).inv(), final(self).par() == old(self).par();'
        res.append((t, tag))
    n = sum('final(self).inv()' in t for t, tag in res if tag == ('spec', 'nl.rs'))
    if n != 4:
        raise Lost('comp: trait text')
    return res


CLIENT = """
#[verifier::external_body] pub fn any_bool() -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn any_mat() -> (r: Mat) ensures rows(r) == dimn(), cols(r) == dimn() { unimplemented!() }
#[verifier::external_body] pub fn any_vc() -> (r: Vc) ensures r@.len() == dimn() { unimplemented!() }
#[verifier::external_body] pub fn any_sc() -> (r: Sc) { unimplemented!() }
#[verifier::external_body] pub fn any_err() -> (r: Error) { unimplemented!() }
// F(y) = J y + c; every callback may also fail, in any way and at any time
pub struct Affine { pub dense: lin::Dense, pub jac: Mat, pub lu: Mat, pub c: Vc, pub ready: bool, pub l: Ghost<Seq<Ev>> }
impl NLProblem for Affine {
  open spec fn log(&self) -> Seq<Ev> { self.l@ }
  open spec fn par(&self) -> (Mat, Seq<Sc>) { (self.jac, self.c@) }
  open spec fn inv(&self) -> bool {
    1 <= dimn() < 0x4000_0000 && rows(self.jac) == dimn() && cols(self.jac) == dimn() && rows(self.lu) == dimn() && cols(self.lu) == dimn() && self.c@.len() == dimn() && self.dense.$p@.len() == dimn()
    && (self.ready ==> factored(self.jac, self.lu, self.dense.$p@))
    && forall|k: int| 0 <= k < self.l@.len() ==> lawful(self.jac, self.c@, #[trigger] self.l@[k]) }
  #[verifier::loop_isolation(false)]
  fn sys(&mut self, y: &Vc, f: &mut Vc) -> (r: Result<(), Error>) {
    broadcast use exact;
    let r = if any_bool() { Err(any_err()) } else { Ok(()) };
    let n = vx_dim();
    let mut i: usize = 0;
    while i < n
      invariant
        i <= n && f@.len() == dimn() && (forall|k: int| 0 <= k < i ==> (#[trigger] f@[k])@ == self.c@[k]@ + prodsum(self.jac, k, y@, cols(self.jac))), // @ob client: residual
      decreases n - i
    {
      let mut s = self.c.at1(i);
      let mut k: usize = 0;
      while k < n
        invariant
          k <= n && s@ == self.c@[i as int]@ + prodsum(self.jac, i as int, y@, k as int), // @ob client: entry of the residual
        decreases n - k
      { s = s + self.jac.at2((i, k)) * y.at1(k); k = k + 1; }
      f.put1(i, s);
      i = i + 1;
    }
    self.l = Ghost(self.l@.push(Ev::Sys { y: y@, out: f@, r }));
    r
  }
  fn setup(&mut self, y: &Vc, f: &Vc, jbad: bool) -> (r: Result<bool, Error>) {
    let mut r = Err(any_err());
    if any_bool() {
      self.ready = false;
      self.lu = self.jac.clone();
      match self.dense.setup(&mut self.lu) { Ok(_) => { self.ready = true; r = Ok(any_bool()); } Err(_) => { } }
    }
    self.l = Ghost(self.l@.push(Ev::Setup { y: y@, f: f@, jbad, r }));
    r
  }
  fn solve(&mut self, y: &Vc, b: &mut Vc) -> (r: Result<(), Error>) {
    let mut r = Err(any_err());
    let rhs = b.clone();
    if self.ready && any_bool() { match self.dense.solve(&self.lu, b, &rhs, any_sc()) { Ok(_) => { r = Ok(()); } Err(_) => { } } }
    self.l = Ghost(self.l@.push(Ev::Solve { y: y@, b: rhs@, x: b@, r }));
    r
  }
  fn ctest(&mut self, solver: &Newton, y: &Vc, del: &Vc, tol: Sc, w: &Vc) -> (r: Result<bool, Error>) {
    let r = if any_bool() { Err(any_err()) } else { Ok(any_bool()) };
    self.l = Ghost(self.l@.push(Ev::Ctest { y: y@, del: del@, tol, w: w@, cur: cur_iter(*solver), r }));
    r
  }
}
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
pub fn client_affine(maxiters: usize)
  requires maxiters < usize::MAX / 8, 1 <= dimn() < 0x4000_0000
{
  let jac = any_mat();
  let lu = any_mat();
  let c = any_vc();
  let ghost j = jac;
  let ghost c0 = c@;
  let mut p = Affine { dense: lin::Dense::new(), jac, lu, c, ready: false, l: Ghost(Seq::empty()) };
  let mut s = Newton::new(maxiters);
  loop
    invariant
      p.inv() && p.par() == (j, c0) && s.$delta@.len() == dimn() && s.$limit == maxiters, // @ob both solvers stay usable
  {
    let y0 = any_vc(); let w = any_vc(); let mut y = any_vc();
    if s.get_num_iters() >= usize::MAX / 8 || s.get_num_conv_fails() >= usize::MAX / 8 || s.get_cur_iter() >= usize::MAX / 8 { return; }
    let ghost l0 = p.log();
    let r = s.solve(&mut p, &y0, &mut y, &w, any_sc(), any_bool());
    proof {
      let (l, a, b) = (p.log(), l0.len() as int, p.log().len() as int);
      let (st, cx): (Set<int>, Cx) = choose|st: Set<int>, cx: Cx| #[trigger] ok_law(l, st, a, b, cx);
      law_roots(j, c0, l, st, a, b, cx);
    }
    proof { assert(forall|k: int| l0.len() <= k < p.log().len() && (#[trigger] p.log()[k]) is Ctest ==> root(j, c0, p.log()[k]->Ctest_y)); } // @ob every iterate shown to the convergence test is a root
    proof { assert(r is Ok ==> root(j, c0, y@)); } // @ob the returned vector is a root
  }
}
"""


def C15(c):
    cl, cn = c.lin, c.nl

    def build(dropped):
        rf, rs = lin.rf_exact(cl), lin.rs_exact(cl)
        generic_loops(rf, dropped)
        generic_loops(rs, dropped)
        out = []
        for s in ['prelude.rs', 'exact.rs', 'lu.rs', 'solve.rs']:
            out += spec(s)
        for ln in ['pub mod lin {', 'use super::*;', 'use super::LinError as Error;', 'verus! {', 'pub struct Dense { %s }' % ', '.join('pub %s: %s' % tuple(x) for x in cl.fields)]:
            out.append((ln, ('struct',)))
        for f in (rf, rs, lin.new_fn(cl), lin.setup_exact(cl), lin.solve_exact(cl)):
            if f.d['self']:
                out.append(('impl %s {' % f.d['self'], None))
            weave(f, out, dropped)
            if f.d['self']:
                out.append(('}', None))
        out.append(('} }', None))
        f, o, i = nl.newton(cn, dropped)
        f.requires += [('the problem is usable', 'old(problem).inv() && y0@.len() == dimn()')]
        nl.follows(cn, f, o, i, 'law', 'each residual, setup, solve and test is given the vectors the Newton iteration prescribes')
        nl.inv(cn, i, ('the residual at hand is that of the iterate', 'if cfalse($R.last) { $R.last->Ctest_y == y@ } else { $R.out == $delta && $R.y == y@ }'),
               ('the first iterate is the initial vector', '$R.last is Setup ==> y@ == y0@'))
        keep = ('the problem stays usable', 'problem.inv() && problem.par() == g_par')
        f.ghost.append('let ghost g_par = problem.par();')
        nl.inv(cn, o, keep)
        nl.inv(cn, i, keep)
        sized = 'forall|k: int| g_s <= k < $n && (#[trigger] $L[k]) is Ctest ==> $L[k]->Ctest_y.len() == dimn()'
        for l in (o, i):
            nl.inv(cn, l, ('iterates keep their length', sized))
        f.ensures += nl.ens(cn, ('the problem stays usable', 'final(problem).inv() && final(problem).par() == old(problem).par()'),
                            ('the accepted vector is the returned one', 'ret is Ok ==> ctrue($L[$e - 1]) && $L[$e - 1]->Ctest_y == final(y)@'),
                            ('iterates keep their length', 'forall|k: int| $s <= k < $e && (#[trigger] $L[k]) is Ctest ==> $L[k]->Ctest_y.len() == dimn()'))
        t = nl.text(cn, ['nl.rs', 'bits.rs'], [('fn', nl.new_fn(cn)), ('fn', f)] + nl.getters(cn) + [('text', sub(CLIENT, cl, cn))], dropped)
        n = len(spec('prelude.rs'))
        out += [x for x in AFFINE_AT(t[n:])]
        return out
    return build


def AFFINE_AT(t):
    """specs/affine.rs goes between the specifications and the solver"""
    t = trait(t)
    k = max(k for k, (x, tag) in enumerate(t) if x.startswith('impl Newton {') and not any(y.startswith('impl Newton {') for y, _ in t[:k]))
    while t[k][0] != 'verus! {':
        k -= 1
    return t[:k] + spec('affine.rs') + t[k:]


def sub(t, cl, cn):
    return nl.sub(t, p=cl.piv, delta=cn.delta, limit=cn.limit)
