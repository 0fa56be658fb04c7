"""Contracts of the dense linear solver, per property."""
import re
from core import *

TARGETS = [
    {'name': 'dense_get_rf', 'self': None, 'params': ['A', 'P'], 'types': ['&mut Mat', '&mut Piv'], 'ret': 'Result<(), usize>'},
    {'name': 'dense_get_rs', 'self': None, 'params': ['A', 'P', 'b'], 'types': ['&Mat', '&Piv', '&mut Vc'], 'ret': '()'},
    {'name': 'new', 'self': 'Dense', 'params': []},
    {'name': 'setup', 'self': 'Dense', 'params': ['A']},
    {'name': 'solve', 'self': 'Dense', 'params': ['A', 'x', 'b', 'tol']},
]


class Ctx:
    pass


def load(work):
    j = extract('linear', ['crates/linear/src'], ['Dense'], TARGETS, work)
    c = Ctx()
    c.j = j
    st = j['structs']['Dense']
    if st['lost']:
        raise Lost('; '.join(st['lost']))
    pf = [f for f, t in st['fields'] if t == 'Piv']
    if len(pf) != 1:
        raise Lost('struct Dense has no single pivot vector')
    c.piv = pf[0]
    c.fields = st['fields']
    return c


def fn(c, name, self_ty=None):
    for d in c.j['fns']:
        if d['name'] == name and (d.get('self') or None) == self_ty:
            f = Fn(d)
            sigs = {
                ('dense_get_rf', None): (None, ['&mut Mat', '&mut Piv'], 'Result<(), usize>'),
                ('dense_get_rs', None): (None, ['&Mat', '&Piv', '&mut Vc'], '()'),
                ('new', 'Dense'): (None, [], 'Dense'),
                ('setup', 'Dense'): ('&mut self', ['&mut Mat'], 'Result<(), Error>'),
                ('solve', 'Dense'): ('&self', ['&Mat', '&mut Vc', '&Vc', 'Sc'], 'Result<(), Error>'),
            }
            f.check_sig(*sigs[(name, self_ty)])
            return f
    raise Lost('function %s not found' % name)


def sub(text, **kw):
    return re.sub(r'\$(\w+)', lambda m: str(kw[m.group(1)]), text)


# ---------------------------------------------------------------- loop roles
def rf_roles(f):
    tops = f.top()
    outer = [l for l in tops if l.children]
    if len(outer) != 1 or len(tops) != 1:
        raise Lost('dense_get_rf: expected one elimination loop, found %d' % len(tops))
    o = outer[0]
    if not o.canonical or o.desc or o.lo_spec != '0':
        raise Lost('dense_get_rf: elimination loop is not counted upwards from 0')
    o.role = 'outer'
    search = [l for l in o.children if not l.auto and not [n for n, t in l.mutated if t.startswith('&mut')]
              and len([n for n, t in l.mutated if t == 'usize']) == 1]
    if len(search) != 1 or not search[0].canonical:
        raise Lost('dense_get_rf: pivot search loop not recognised')
    s = search[0]
    if s.desc:
        raise Lost('dense_get_rf: pivot search runs downwards')
    s.role = 'search'
    s.lvar = [n for n, t in s.mutated if t == 'usize'][0]
    s.vvars = [n for n, t in s.mutated if t == 'Sc']
    for l in f.loops:
        if l.role is None and not l.auto:
            raise Lost('dense_get_rf: loop %d has no summary' % l.id)
    return o, s


def rs_roles(f):
    tops = f.top()
    perm = [l for l in tops if not l.children]
    low = [l for l in tops if l.children and not l.desc]
    up = [l for l in tops if l.children and l.desc]
    if len(perm) != 1 or len(low) != 1 or len(up) != 1 or not (perm[0].id < low[0].id < up[0].id):
        raise Lost('dense_get_rs: expected exchange, forward and backward loops')
    if perm[0].desc or not all(l.canonical for l in tops):
        raise Lost('dense_get_rs: loop shape')
    for l in f.loops:
        if l.parent is not None and not l.auto:
            raise Lost('dense_get_rs: loop %d has no summary' % l.id)
    if not perm[0].auto:
        pass
    return perm[0], low[0], up[0]


PRE_RF = [('shape', '1 <= cols(*old(A)) < 0x4000_0000 && rows(*old(A)) == cols(*old(A)) && cols(*old(A)) == dimn()'), ('pivot length', 'old(P)@.len() == cols(*old(A))')]
SHAPE_RF = [('matrix keeps its shape', 'rows(*final(A)) == rows(*old(A)) && cols(*final(A)) == cols(*old(A))'),
            ('pivot length kept', 'final(P)@.len() == old(P)@.len()')]


def struct_text(c):
    t = ['verus! {', 'pub struct Dense { %s }' % ', '.join('pub %s: %s' % (f, t) for f, t in c.fields),
         'pub enum Error { LUFactFail { col: usize } }', '}']
    return [(x, ('struct',)) for x in t]


def file_of(c, specs, parts, dropped, struct=True):
    out = []
    for s in specs:
        out += spec(s)
    if struct:
        out += struct_text(c)
    out.append(('verus! {', None))
    for kind, f in parts:
        if kind == 'fn':
            if f.d['self']:
                out.append(('impl %s {' % f.d['self'], None))
            weave(f, out, dropped)
            if f.d['self']:
                out.append(('}', None))
        else:
            for ln in f.split('\n'):
                m = re.search(r'// @ob (.*)$', ln)
                out.append((ln, ('assert', m.group(1), 'client') if m else None))
                if PROBE[0] and m and ln.strip().startswith('proof {'):
                    out.append(('proof { assert(vx_never(%d)); }' % len(out), ('probe', 'client: after ' + m.group(1), 'client')))
    out.append(('}', None))
    return out



SETUP_REQ = [('shape', '1 <= cols(*old(A)) < 0x4000_0000 && rows(*old(A)) == cols(*old(A)) && cols(*old(A)) == dimn()')]


def setup_fn(c, ensures, broadcast=None):
    f = fn(c, 'setup', 'Dense')
    f.requires = SETUP_REQ + [('pivot length', 'old(self).%s@.len() == dimn()' % c.piv)]
    f.ensures = [('setup keeps the shape', 'rows(*final(A)) == rows(*old(A)) && cols(*final(A)) == cols(*old(A))'),
                 ('setup keeps the pivot length', 'final(self).%s@.len() == dimn()' % c.piv)] + ensures
    f.broadcast = broadcast
    return f


def new_fn(c, ensures=()):
    f = fn(c, 'new', 'Dense')
    f.ensures = [('new solver has its pivot vector', 'ret.%s@.len() == dimn()' % c.piv)] + list(ensures)
    return f


A = lambda s, n, F='dense_get_rf': (s, ('assert', n, F))


def rf_base(c, broadcast):
    f = fn(c, 'dense_get_rf')
    o, s = rf_roles(f)
    f.broadcast = broadcast
    f.requires = list(PRE_RF)
    f.ensures = list(SHAPE_RF)
    f.ghost = ['let ghost g_w0 = *A;', 'let ghost g_n: int = cols(g_w0);']
    o.inv = [('elimination covers every column', '%s == g_n' % o.hi_spec, True)]
    o.start = [('let ghost g_ws = *A;',), ('let ghost g_ps = P@;',), ('let ghost g_k: int = %s as int - 1;' % o.ctr,)]
    o.end = []
    s.inv = [('candidate row', 'g_k <= %s && %s < g_n' % (s.lvar, s.lvar), False)]
    for v in s.vvars:
        s.inv.append(('cached magnitude', '%s == fabs(el(*A, %s as int, g_k))' % (v, s.lvar), True))
    return f, o, s


# search keeps the largest magnitude seen
def search_max(s, topmost):
    r = '%s as int' % s.lvar
    s.inv.append(('largest so far', 'forall|i: int| g_k <= i < %s ==> rabs(#[trigger] a(*A, i, g_k)) <= rabs(a(*A, %s, g_k))' % (s.c, r), False))
    if topmost:
        s.inv.append(('topmost so far', 'forall|i: int| g_k <= i < %s ==> rabs(#[trigger] a(*A, i, g_k)) < rabs(a(*A, %s, g_k))' % (r, r), False))


STEP = [A('assert(g_k <= P@[g_k] < g_n);', 'pivot row lies in the remaining rows'),
        A('assert(a(g_ws, P@[g_k] as int, g_k) != 0real);', 'pivot is nonzero'),
        A('assert forall|r: int, c: int| 0 <= r < g_n && 0 <= c < g_n && (r <= g_k || c < g_k) implies #[trigger] a(*A, r, c) == a(g_ws, sw(g_k, P@[g_k] as int, r), c) by { }', 'finished rows and columns are only exchanged'),
        A('assert forall|r: int| g_k < r < g_n implies #[trigger] a(*A, r, g_k) == a(g_ws, sw(g_k, P@[g_k] as int, r), g_k) * (1real / a(g_ws, P@[g_k] as int, g_k)) by { }', 'multipliers'),
        A('assert forall|r: int, c: int| g_k < r < g_n && g_k < c < g_n implies #[trigger] a(*A, r, c) == a(g_ws, sw(g_k, P@[g_k] as int, r), c) - a(g_ws, P@[g_k] as int, c) * a(*A, r, g_k) by { let (vx_u, vx_q) = (a(g_ws, P@[g_k] as int, c), a(*A, r, g_k)); assert(vx_u == 0real ==> vx_u * vx_q == 0real) by (nonlinear_arith); }', 'remaining entries are eliminated'),
        A('assert(stepped(g_ws, *A, g_k, P@[g_k] as int));', 'one step is an exchange and an elimination')]
DIAG = A('assert forall|t: int| 0 <= t < g_k + 1 implies #[trigger] a(*A, t, t) != 0real by { assert(sw(g_k, P@[g_k] as int, t) == (if t == g_k { P@[g_k] as int } else { t })); }', 'diagonal stays nonzero')

LU_ENS = [('recorded exchanges are valid', 'ret is Ok ==> piv_ok(final(P)@, cols(*old(A)), rows(*old(A)))'),
          ('the factors reproduce the permuted matrix', 'ret is Ok ==> lu_inv(*final(A), *old(A), final(P)@, cols(*old(A)))'),
          ('the diagonal of U is nonzero', 'ret is Ok ==> diag_ok(*final(A), cols(*old(A)))')]
SING_ENS = [('the reported column is dependent on the columns before it', 'ret is Err ==> 1 <= ret->Err_0 <= cols(*old(A)) && dep(*old(A), ret->Err_0 as int)'),
            ('the columns before the reported one are independent', 'ret is Err ==> indep(*old(A), ret->Err_0 - 1)'),
            ('success only on a nonsingular matrix', 'ret is Ok ==> indep(*old(A), cols(*old(A)))')]


def rf_exact(c, lu=True, sing=False):
    f, o, s = rf_base(c, 'exact')
    search_max(s, False) if sing else None
    o.inv.append(('pivots so far are nonzero', 'diag_ok(*A, %s)' % o.c, False))
    o.end = [('proof {',)] + STEP + [DIAG]
    if lu:
        f.ensures += LU_ENS
        o.inv += [('exchanges so far are valid', 'piv_ok(P@, %s, g_n)' % o.c, False),
                  ('factors so far reproduce the matrix', 'lu_inv(*A, g_w0, P@, %s)' % o.c, False)]
        o.end += [A('lemma_step(g_ws, *A, g_w0, g_ps, P@, g_k);', 'step preconditions')]
    if sing:
        f.ensures += SING_ENS
        o.inv += [('null vectors are kept', 'same_null(g_w0, *A, %s)' % o.c, False)]
        o.start += [('proof { lemma_indep(g_w0, g_ws, g_k); if colzero(g_ws, g_k) { lemma_dep(g_w0, g_ws, g_k); } }', ('assert', 'dependence facts', 'dense_get_rf'))]
        o.end += [A('same_null_step(g_w0, g_ws, *A, g_k, P@[g_k] as int);', 'null vectors step')]
        o.post += [('proof { lemma_indep(g_w0, *A, g_n); }', ('assert', 'independence at the end', 'dense_get_rf'))]
        f.before_return[o.id] = [A('assert(colzero(g_ws, g_k));', 'failure only when the rest of the column is zero')]
    o.end += [('}',)]
    return f


def setup_exact(c, lu=True, sing=False):
    p = c.piv
    e = []
    if lu:
        e += [('setup: recorded exchanges are valid', 'ret is Ok ==> piv_ok(final(self).%s@, cols(*old(A)), rows(*old(A)))' % p),
              ('setup: the factors reproduce the permuted matrix', 'ret is Ok ==> lu_inv(*final(A), *old(A), final(self).%s@, cols(*old(A)))' % p),
              ('setup: the diagonal of U is nonzero', 'ret is Ok ==> diag_ok(*final(A), cols(*old(A)))')]
    if sing:
        e += [('setup: the reported column is dependent on the columns before it', 'ret is Err ==> 1 <= ret->Err_0->col <= cols(*old(A)) && dep(*old(A), ret->Err_0->col as int)'),
              ('setup: the columns before the reported one are independent', 'ret is Err ==> indep(*old(A), ret->Err_0->col - 1)'),
              ('setup: success only on a nonsingular matrix', 'ret is Ok ==> indep(*old(A), cols(*old(A)))')]
    return setup_fn(c, e)


EX = ['prelude.rs', 'exact.rs', 'lu.rs']


def C01(c):
    def build(dropped):
        rf = rf_exact(c)
        generic_loops(rf, dropped)
        return file_of(c, EX, [('fn', rf), ('fn', setup_exact(c))], dropped)
    return build


# ---------------------------------------------------------------- C02
def C02(c):
    def build(dropped):
        f, o, s = rf_base(c, 'exact')
        search_max(s, True)
        f.ensures.append(('every multiplier has magnitude at most one', 'ret is Ok ==> forall|r: int, j: int| 0 <= j < r < rows(*old(A)) ==> rabs(#[trigger] a(*final(A), r, j)) <= 1real'))
        o.inv.append(('multipliers so far have magnitude at most one', 'forall|r: int, j: int| 0 <= j < %s && j < r < g_n ==> rabs(#[trigger] a(*A, r, j)) <= 1real' % o.c, False))
        o.end = [('proof {',), ('let l = P@[g_k] as int;',),
                 A('assert(g_k <= l < g_n);', 'the chosen pivot is among the remaining rows'),
                 A('assert forall|i: int| g_k <= i < g_n implies rabs(#[trigger] a(g_ws, i, g_k)) <= rabs(a(g_ws, l, g_k)) by { }', 'the chosen pivot is the largest remaining entry of its column'),
                 A('assert forall|i: int| g_k <= i < l implies rabs(#[trigger] a(g_ws, i, g_k)) < rabs(a(g_ws, l, g_k)) by { }', 'the chosen pivot is the topmost among equals'),
                 A('assert(a(g_ws, l, g_k) != 0real);', 'the pivot of a completed step is nonzero'),
                 A('assert forall|r: int, j: int| 0 <= j < g_k + 1 && j < r < g_n implies rabs(#[trigger] a(*A, r, j)) <= 1real by { let q = a(g_ws, sw(g_k, l, r), j); if j < g_k { assert(a(*A, r, j) == q); } else { assert(r > g_k); let d = a(g_ws, l, g_k); assert(rabs(q) <= rabs(d)); assert(a(*A, r, j) == q * (1real / d)); quot_le_one(q, d); } }', 'multipliers of this step have magnitude at most one'),
                 ('}',)]
        generic_loops(f, dropped)
        return file_of(c, EX + ['pivot.rs'], [('fn', f), ('fn', setup_fn(c, [
            ('setup: every multiplier has magnitude at most one', 'ret is Ok ==> forall|r: int, j: int| 0 <= j < r < rows(*old(A)) ==> rabs(#[trigger] a(*final(A), r, j)) <= 1real')]))], dropped)
    return build


# ---------------------------------------------------------------- C03
def C03(c):
    def build(dropped):
        rf = rf_exact(c, lu=False, sing=True)
        generic_loops(rf, dropped)
        return file_of(c, EX + ['null.rs'], [('fn', rf), ('fn', setup_exact(c, lu=False, sing=True))], dropped)
    return build


# ---------------------------------------------------------------- C04
def rs_exact(c):
    f = fn(c, 'dense_get_rs')
    pm, lo, up = rs_roles(f)
    B = lambda s, n: A(s, n, 'dense_get_rs')
    f.broadcast = 'exact'
    f.requires = [('shape', '1 <= cols(*A) < 0x4000_0000 && rows(*A) == cols(*A) && P@.len() == cols(*A) && old(b)@.len() == cols(*A)'),
                  ('valid factors', 'piv_ok(P@, cols(*A), rows(*A)) && diag_ok(*A, cols(*A))')]
    f.ensures = [('length kept', 'final(b)@.len() == old(b)@.len()'), ('b becomes the solution of the factored system', 'solved(*A, P@, final(b)@, old(b)@)')]
    f.ghost = ['let ghost g_b0 = b@;', 'let ghost g_n: int = cols(*A);', 'let ghost mut g_pb = b@;', 'let ghost mut g_y = b@;', 'let ghost mut g_u = b@;',
               'proof { assert forall|i: int| 0 <= i < g_n implies (#[trigger] b@[i])@ == g_b0[perm(P@, 0, i)]@ by { } }']
    pm.inv = [('exchanges so far', 'permuted(b@, g_b0, P@, %s)' % pm.c, False), ('every exchange is applied', '%s == g_n' % pm.hi_spec, True)]
    pm.start = [('let ghost g_bs = b@;',), ('let ghost g_k: int = %s as int - 1;' % pm.ctr,)]
    pm.end = [('proof {',), ('assert(g_k <= P@[g_k] < g_n);',),
              B('assert forall|i: int| 0 <= i < g_n implies #[trigger] b@[i] == g_bs[sw(g_k, P@[g_k] as int, i)] by { }', 'one exchange'),
              ('perm_step(g_bs, b@, g_b0, P@, g_k);',), ('}',)]
    pm.post = [('proof { g_pb = b@; g_y = b@; assert forall|i: int| 0 <= i < g_n implies (#[trigger] b@[i])@ + lsum(*A, b@, i, imin(i, 0)) == g_pb[i]@ by { } }',)]
    lo.inv = [('forward substitution so far', 'lowered(*A, b@, g_pb, %s)' % lo.c, False),
              ('forward substitution covers every column', 'g_n - 1 <= %s' % lo.hi_spec, True)]
    lo.start = [('let ghost g_bs = b@;',), ('let ghost g_k: int = %s as int - 1;' % lo.ctr,)]
    lo.end = [('proof {',), B('assert forall|i: int| 0 <= i <= g_k implies #[trigger] b@[i] == g_bs[i] by { }', 'treated rows stay'),
              B('assert forall|i: int| g_k < i < g_n implies (#[trigger] b@[i])@ == g_bs[i]@ - a(*A, i, g_k) * g_bs[g_k]@ by { }', 'one column of the forward substitution'),
              ('lower_step(*A, g_bs, b@, g_pb, g_k);',), ('}',)]
    lo.post = [('proof { lower_last(*A, b@, g_pb, %s); g_y = b@;' % lo.c,),
               ('assert forall|i: int| 0 <= i < g_n implies #[trigger] upval(*A, b@, i, g_n, g_n) == g_y[i]@ by { } }',)]
    up.inv = [('backward substitution so far', 'raised(*A, b@, g_y, %s)' % up.c, False)]
    up.start = [('let ghost g_bs = b@;',), ('let ghost g_k: int = %s as int;' % up.ctr,)]
    up.end = [('proof {',), ('assert(a(*A, g_k, g_k) != 0real);',),
              B('assert(b@[g_k]@ == g_bs[g_k]@ / a(*A, g_k, g_k));', 'division by the diagonal'),
              B('assert forall|i: int| g_k < i < g_n implies #[trigger] b@[i] == g_bs[i] by { }', 'solved entries stay'),
              B('assert forall|i: int| 0 <= i < g_k implies (#[trigger] b@[i])@ == g_bs[i]@ - a(*A, i, g_k) * b@[g_k]@ by { }', 'one column of the backward substitution'),
              ('upper_step(*A, g_bs, b@, g_y, g_k);',), ('}',)]
    up.post = [('proof { g_u = b@; }',)]
    lo_c = up.lo_spec
    f.tail = [('proof {',),
              ('if %s == 1 { assert(a(*A, 0, 0) != 0real);' % lo_c,),
              B('assert(b@[0]@ == g_u[0]@ / a(*A, 0, 0));', 'last division'),
              B('assert forall|i: int| 0 < i < g_n implies #[trigger] b@[i] == g_u[i] by { }', 'solved entries stay at the end'),
              ('upper_step(*A, g_u, b@, g_y, 0); }',),
              B('assert(raised(*A, b@, g_y, 0));', 'backward substitution is complete'),
              ('lemma_solved(*A, P@, b@, g_y, g_pb, g_b0);',), ('}',)]
    return f


def solve_exact(c):
    f = fn(c, 'solve', 'Dense')
    p = c.piv
    f.requires = [('shape', '1 <= cols(*A) < 0x4000_0000 && rows(*A) == cols(*A) && self.%s@.len() == cols(*A) && old(x)@.len() == cols(*A) && b@.len() == cols(*A)' % p),
                  ('after a successful setup', 'exists|w0: Mat| factored(w0, *A, self.%s@)' % p)]
    f.ensures = [('solve succeeds', 'ret is Ok'), ('length kept', 'final(x)@.len() == old(x)@.len()'),
                 ('solve returns the solution', 'forall|w0: Mat| factored(w0, *A, self.%s@) ==> is_solution(w0, final(x)@, b@)' % p)]
    f.tail = [('proof { assert forall|w0: Mat| factored(w0, *A, self.%s@) implies is_solution(w0, x@, b@) by { lemma_solution(w0, *A, self.%s@, x@, b@); } }' % (p, p), ('assert', 'solution of the factored system solves the system', 'Dense::solve'))]
    return f


CLIENT4 = """
pub fn client_setup_solve(A: &mut Mat, x: &mut Vc, b: &Vc, tol: Sc) -> (ret: bool)
  requires 1 <= cols(*old(A)) < 0x4000_0000, rows(*old(A)) == cols(*old(A)), cols(*old(A)) == dimn(), old(x)@.len() == dimn(), b@.len() == dimn()
  ensures
    ret ==> is_solution(*old(A), final(x)@, b@), // @ob setup then solve gives A x = b
{
  let ghost w0 = *A;
  let mut s = Dense::new();
  match s.setup(A) {
    Ok(_) => {
      proof { assert(factored(w0, *A, s.$p@)); } // @ob a successful setup is what solve needs
      match s.solve(A, x, b, tol) { Ok(_) => true, Err(_) => { proof { assert(false); } /* */ false } } // @ob solve succeeds
    }
    Err(_) => false,
  }
}
"""


def C04(c):
    def build(dropped):
        rf = rf_exact(c)
        rs = rs_exact(c)
        generic_loops(rf, dropped)
        generic_loops(rs, dropped)
        return file_of(c, EX + ['solve.rs'], [('fn', rf), ('fn', rs), ('fn', new_fn(c)), ('fn', setup_exact(c)), ('fn', solve_exact(c)),
                                              ('text', sub(CLIENT4, p=c.piv))], dropped)
    return build


# ---------------------------------------------------------------- C05
CLIENT5 = """
// an arbitrary outside world choosing the next operation and its arguments
#[verifier::external_body] pub fn any_bool() -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn any_mat() -> (r: Mat) ensures rows(r) == dimn(), cols(r) == dimn() { unimplemented!() }
#[verifier::external_body] pub fn any_vc() -> (r: Vc) ensures r@.len() == dimn() { unimplemented!() }
#[verifier::external_body] pub fn any_sc() -> (r: Sc) { unimplemented!() }
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
pub fn client_history()
  requires 1 <= dimn() < 0x4000_0000
{
  let mut s = Dense::new();
  loop
    invariant
      s.$p@.len() == dimn(), // @ob the solver object stays usable
  {
    let mut m = any_mat();
    let ghost w0 = m;
    let r = s.setup(&mut m);
    match r {
      Err(Error::LUFactFail { col }) => {
        proof { assert(dep(w0, col as int) && indep(w0, col - 1)); } // @ob a used solver reports the same column as a new one
        proof { assert(!indep(w0, dimn() as int)) by { dep_not_indep(w0, col as int); } } // @ob a used solver fails only on singular matrices
      }
      Ok(_) => {
        proof { assert(indep(w0, dimn() as int)); } // @ob a used solver succeeds only on nonsingular matrices
        proof { assert(factored(w0, m, s.$p@)); } // @ob a used solver factors like a new one
        while any_bool()
          invariant
            factored(w0, m, s.$p@), // @ob solves leave the factors and the solver as they were
        {
          let b = any_vc();
          let mut x = any_vc();
          let q = s.solve(&m, &mut x, &b, any_sc());
          proof { assert(q is Ok); } // @ob every solve succeeds
          proof { assert(is_solution(w0, x@, b@)); } // @ob every solve returns the solution for its own right-hand side
          let mut z = any_vc();
          let q2 = s.solve(&m, &mut z, &b, any_sc());
          proof { assert(forall|i: int| 0 <= i < dimn() ==> #[trigger] x@[i]@ == z@[i]@) by { unique_solution(w0, x@, z@, b@); } } // @ob repeated solves agree whatever was solved between and whatever x held
        }
      }
    }
  }
}
"""


def C05(c):
    def build(dropped):
        rf = rf_exact(c, sing=True)
        rs = rs_exact(c)
        generic_loops(rf, dropped)
        generic_loops(rs, dropped)
        return file_of(c, EX + ['null.rs', 'solve.rs', 'unique.rs'], [('fn', rf), ('fn', rs), ('fn', new_fn(c)), ('fn', setup_exact(c, sing=True)),
                       ('fn', solve_exact(c)), ('text', sub(CLIENT5, p=c.piv))], dropped)
    return build


# ---------------------------------------------------------------- C06
def C06(c):
    p = c.piv
    def build(dropped):
        f, o, s = rf_base(c, 'ieee')
        F0 = 'gsb(fm(g_w0), g_n, %s)'
        f.ensures += [
            ('factors are those of the reference', 'ret is Ok ==> agrees(*final(A), gsb(fm(*old(A)), cols(*old(A)), cols(*old(A))))'),
            ('exchanges are those of the reference', 'ret is Ok ==> forall|k: int| 0 <= k < cols(*old(A)) ==> #[trigger] final(P)@[k] == bpivot(fm(*old(A)), cols(*old(A)), k)'),
            ('success only where the reference succeeds', 'ret is Ok ==> forall|k: int| 0 <= k < cols(*old(A)) ==> !#[trigger] bzero(fm(*old(A)), cols(*old(A)), k)'),
            ('failure only where the reference fails', 'ret is Err ==> 1 <= ret->Err_0 <= cols(*old(A)) && bzero(fm(*old(A)), cols(*old(A)), ret->Err_0 - 1) && forall|k: int| 0 <= k < ret->Err_0 - 1 ==> !#[trigger] bzero(fm(*old(A)), cols(*old(A)), k)'),
            ('matrix left by a failed factorization is that of the reference', 'ret is Err ==> agrees(*final(A), gsb(fm(*old(A)), cols(*old(A)), ret->Err_0 - 1))')]
        o.inv += [('matrix so far is that of the reference', 'agrees(*A, %s)' % (F0 % o.c), False),
                  ('exchanges so far are those of the reference', 'forall|k: int| 0 <= k < %s ==> #[trigger] P@[k] == bpivot(fm(g_w0), g_n, k)' % o.c, False),
                  ('no zero pivot so far', 'forall|k: int| 0 <= k < %s ==> !#[trigger] bzero(fm(g_w0), g_n, k)' % o.c, False)]
        o.start += [('let ghost g_f = %s;' % (F0 % 'g_k'),)]
        s.inv.append(('candidate row is that of the reference', '%s == bsearch(g_f, g_k, %s)' % (s.lvar, s.c), False))
        o.end = [('proof {',), ('let l = bpivot(fm(g_w0), g_n, g_k); bsearch_range(g_f, g_k, g_n);',),
                 A('assert(P@[g_k] == l);', 'exchange of this step is that of the reference'),
                 A('assert(!bzero(fm(g_w0), g_n, g_k));', 'zero pivot decision is that of the reference'),
                 A('assert forall|r: int, c: int| 0 <= r < g_n && 0 <= c < g_n implies #[trigger] el(*A, r, c) == bstep(g_f, g_k, g_n)(r, c) by { let e1 = el(g_ws, sw(g_k, l, r), c); let e2 = el(g_ws, l, g_k); let e3 = el(g_ws, l, c); let e4 = el(g_ws, sw(g_k, l, r), g_k); }', 'one elimination step is that of the reference'),
                 ('}',)]
        o.post = []
        generic_loops(f, dropped)
        rs = fn(c, 'dense_get_rs')
        pm, lo, up = rs_roles(rs)
        B = lambda t, n: A(t, n, 'dense_get_rs')
        rs.broadcast = 'ieee'
        rs.requires = [('shape', '1 <= cols(*A) < 0x4000_0000 && rows(*A) == cols(*A) && P@.len() == cols(*A) && old(b)@.len() == cols(*A)'),
                       ('recorded rows are valid', 'forall|k: int| 0 <= k < cols(*A) ==> k <= #[trigger] P@[k] < cols(*A)')]
        rs.ensures = [('b becomes the solution vector of the reference', 'final(b)@ == bsolve(*A, P@, old(b)@)')]
        rs.ghost = ['let ghost g_b0 = b@;', 'let ghost g_n: int = cols(*A);', 'let ghost mut g_pb = b@;', 'let ghost mut g_y = b@;', 'let ghost mut g_u = b@;']
        pm.inv = [('exchanges so far', 'b@ == bperm(g_b0, P@, %s)' % pm.c, False), ('every exchange is applied', '%s == g_n' % pm.hi_spec, True)]
        pm.start = [('let ghost g_bs = b@;',), ('let ghost g_k: int = %s as int - 1;' % pm.ctr,)]
        pm.end = [('proof {',), ('bperm_len(g_b0, P@, g_k); bperm_len(g_b0, P@, g_k + 1);',), B('assert(b@ =~= bperm(g_b0, P@, g_k + 1));', 'one exchange'), ('}',)]
        pm.post = [('proof { if %s == g_n - 1 { bperm_last(g_b0, P@, g_n); } g_pb = b@; }' % pm.c,)]
        lo.inv = [('forward substitution so far', 'b@ == blower(*A, g_pb, %s)' % lo.c, False), ('forward substitution covers every column', 'g_n - 1 <= %s' % lo.hi_spec, True)]
        lo.start = [('let ghost g_bs = b@;',), ('let ghost g_k: int = %s as int - 1;' % lo.ctr,)]
        lo.end = [('proof {',), B('assert(b@ =~= blower(*A, g_pb, g_k + 1));', 'one column of the forward substitution'), ('}',)]
        lo.post = [('proof { blower_last(*A, g_pb, %s); g_y = b@; }' % lo.c,)]
        up.inv = [('backward substitution so far', 'b@ == bupper(*A, g_y, %s)' % up.c, False)]
        up.start = [('let ghost g_bs = b@;',), ('let ghost g_k: int = %s as int;' % up.ctr,)]
        up.end = [('proof {',), ('bupper_len(*A, g_y, g_k); bupper_len(*A, g_y, g_k + 1);',), B('assert(b@ =~= bupper(*A, g_y, g_k));', 'one column of the backward substitution'), ('}',)]
        rs.tail = [('proof {',), ('if %s == 1 { bupper_len(*A, g_y, 0); bupper_len(*A, g_y, 1);' % up.lo_spec,),
                   B('assert(b@ =~= bupper(*A, g_y, 0)); }', 'last division'),
                   B('assert(b@ == bsolve(*A, P@, g_b0));', 'substitutions are complete'), ('}',)]
        generic_loops(rs, dropped)
        st = setup_fn(c, [
            ('setup: factors are those of the reference', 'ret is Ok ==> agrees(*final(A), gsb(fm(*old(A)), cols(*old(A)), cols(*old(A))))'),
            ('setup: exchanges are those of the reference', 'ret is Ok ==> forall|k: int| 0 <= k < cols(*old(A)) ==> #[trigger] final(self).%s@[k] == bpivot(fm(*old(A)), cols(*old(A)), k)' % p),
            ('setup: success only where the reference succeeds', 'ret is Ok ==> forall|k: int| 0 <= k < cols(*old(A)) ==> !#[trigger] bzero(fm(*old(A)), cols(*old(A)), k)'),
            ('setup: failure only where the reference fails', 'ret is Err ==> 1 <= ret->Err_0->col <= cols(*old(A)) && bzero(fm(*old(A)), cols(*old(A)), ret->Err_0->col - 1) && forall|k: int| 0 <= k < ret->Err_0->col - 1 ==> !#[trigger] bzero(fm(*old(A)), cols(*old(A)), k)')])
        sv = fn(c, 'solve', 'Dense')
        sv.requires = [('shape', '1 <= cols(*A) < 0x4000_0000 && rows(*A) == cols(*A) && self.%s@.len() == cols(*A) && old(x)@.len() == cols(*A) && b@.len() == cols(*A)' % p),
                       ('recorded rows are valid', 'forall|k: int| 0 <= k < cols(*A) ==> k <= #[trigger] self.%s@[k] < cols(*A)' % p)]
        sv.ensures = [('solve: x is that of the reference', 'final(x)@ == bsolve(*A, self.%s@, b@)' % p), ('solve succeeds', 'ret is Ok')]
        return file_of(c, ['prelude.rs', 'bits.rs', 'gsb.rs'], [('fn', f), ('fn', rs), ('fn', st), ('fn', sv)], dropped)
    return build


# ---------------------------------------------------------------- C07
CLIENT7 = """
#[verifier::external_body] pub fn any_int() -> (r: u8) { unimplemented!() }
#[verifier::external_body] pub fn any_mat() -> (r: Mat) ensures rows(r) == dimn(), cols(r) == dimn() { unimplemented!() }
#[verifier::external_body] pub fn any_vc() -> (r: Vc) ensures r@.len() == dimn() { unimplemented!() }
#[verifier::external_body] pub fn any_sc() -> (r: Sc) { unimplemented!() }
#[verifier::exec_allows_no_decreases_clause]
pub fn client_any_order()
  requires 1 <= dimn() < 0x4000_0000
{
  let mut s = Dense::new();
  let mut m = any_mat();
  loop
    invariant
      s.$p@.len() == dimn() && 1 <= dimn() < 0x4000_0000 && rows(m) == dimn() && cols(m) == dimn(), // @ob the solver object stays usable
      forall|k: int| 0 <= k < dimn() ==> #[trigger] s.$p@[k] < dimn(), // @ob recorded rows stay below n
  {
    let op = any_int();
    if op == 0 { m = any_mat(); }
    else if op == 1 { let r = s.setup(&mut m); }
    else { let mut x = any_vc(); let b = any_vc(); let r = s.solve(&m, &mut x, &b, any_sc()); }
  }
}
"""


def C07(c):
    p = c.piv
    def build(dropped):
        f, o, s = rf_base(c, None)
        BELOW = 'forall|k: int| 0 <= k < %s ==> #[trigger] %s[k] < %s'
        f.requires.append(('old recorded rows are below n', BELOW % ('cols(*old(A))', 'old(P)@', 'cols(*old(A))')))
        f.ensures.append(('recorded rows are below n on every exit', BELOW % ('cols(*old(A))', 'final(P)@', 'cols(*old(A))')))
        o.inv = [('recorded rows are below n', BELOW % ('g_n', 'P@', 'g_n'), False), ('elimination loop bound', '%s <= g_n' % o.hi_spec, True)]
        generic_loops(f, dropped)
        rs = fn(c, 'dense_get_rs')
        rs.requires = [('shape', '1 <= cols(*A) < 0x4000_0000 && rows(*A) == cols(*A) && P@.len() == cols(*A) && old(b)@.len() == cols(*A)'),
                       ('recorded rows are below n', BELOW % ('cols(*A)', 'P@', 'cols(*A)'))]
        rs.ensures = [('length kept', 'final(b)@.len() == old(b)@.len()')]
        generic_loops(rs, dropped)
        st = setup_fn(c, [('setup: recorded rows are below n on every exit', BELOW % ('dimn()', 'final(self).%s@' % p, 'dimn()'))])
        st.requires.append(('old recorded rows are below n', BELOW % ('dimn()', 'old(self).%s@' % p, 'dimn()')))
        nw = new_fn(c, [('new: recorded rows are below n', 'dimn() >= 1 ==> (%s)' % (BELOW % ('dimn()', 'ret.%s@' % p, 'dimn()')))])
        sv = fn(c, 'solve', 'Dense')
        sv.requires = [('shape', '1 <= cols(*A) < 0x4000_0000 && rows(*A) == cols(*A) && self.%s@.len() == cols(*A) && old(x)@.len() == cols(*A) && b@.len() == cols(*A)' % p),
                       ('recorded rows are below n', BELOW % ('cols(*A)', 'self.%s@' % p, 'cols(*A)'))]
        return file_of(c, ['prelude.rs'], [('fn', f), ('fn', rs), ('fn', nw), ('fn', st), ('fn', sv), ('text', sub(CLIENT7, p=p))], dropped)
    return build
