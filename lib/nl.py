"""Contracts of the Newton solver, per property, over a ghost log of the callback calls."""
import re
from core import *

TARGETS = [
    {'name': 'new', 'self': 'Newton', 'params': ['maxiters']},
    {'name': 'solve', 'self': 'Newton', 'params': ['problem', 'y0', 'y', 'w', 'tol', 'call_lsetup']},
    {'name': 'get_num_iters', 'self': 'Newton', 'params': []},
    {'name': 'get_cur_iter', 'self': 'Newton', 'params': []},
    {'name': 'get_num_conv_fails', 'self': 'Newton', 'params': []},
]
SIGS = {
    'new': (None, ['usize'], 'Newton'),
    'solve': ('&mut self', ['&mut NLP', '&Vc', '&mut Vc', '&Vc', 'Sc', 'bool'], 'Result<(), Error>'),
    'get_num_iters': ('&self', [], 'usize'), 'get_cur_iter': ('&self', [], 'usize'), 'get_num_conv_fails': ('&self', [], 'usize'),
}


class Ctx:
    pass


def error_enum():
    """the crate's error enum, attributes and comments dropped"""
    for f in rust_files(os.path.join(REPO, 'crates/nonlinear/src')):
        t = re.sub(r'//[^\n]*', '', open(f).read())
        m = re.search(r'pub enum Error \{', t)
        if m:
            d, i = 1, m.end()
            while d:
                d += {'{': 1, '}': -1}.get(t[i], 0)
                i += 1
            s = re.sub(r'#\[(?:[^\[\]]|\[[^\]]*\])*\]', '', t[m.start():i])
            s = s.replace('linear::Error', 'LinError')
            if 'ConvergenceRecover' not in s:
                raise Lost('Error::ConvergenceRecover not found')
            return re.sub(r'\s+', ' ', s)
    raise Lost('enum Error not found')


def getter(c, name):
    for d in c.j['fns']:
        if d['name'] == name and d.get('self') == 'Newton':
            m = set(re.findall(r'\bself \. (\w+)\b(?! \()', d['body']))
            if len(m) == 1:
                return m.pop()
    raise Lost('%s: its field is not recognised' % name)


def load(work):
    j = extract('nonlinear', ['crates/nonlinear/src'], ['Newton'], TARGETS, work)
    c = Ctx()
    c.j = j
    st = j['structs']['Newton']
    if st['lost']:
        raise Lost('; '.join(st['lost']))
    c.fields = st['fields']
    c.err = error_enum()
    c.niters, c.cur, c.nfail = getter(c, 'get_num_iters'), getter(c, 'get_cur_iter'), getter(c, 'get_num_conv_fails')
    b = [f for f, t in c.fields if t == 'bool']
    v = [f for f, t in c.fields if t == 'Vc']
    u = [f for f, t in c.fields if t == 'usize' and f not in (c.niters, c.cur, c.nfail)]
    if len(b) != 1 or len(v) != 1 or len(u) != 1 or len(set([c.niters, c.cur, c.nfail])) != 3:
        raise Lost('struct Newton: fields not recognised')
    c.jcur, c.delta, c.limit = b[0], v[0], u[0]
    return c


def fn(c, name):
    for d in c.j['fns']:
        if d['name'] == name and d.get('self') == 'Newton':
            f = Fn(dict(d))
            f.check_sig(*SIGS[name])
            return f
    raise Lost('function %s not found' % name)


def text(c, specs, parts, dropped):
    out = []
    for s in ['prelude.rs']:
        out += spec(s)
    for ln in ['verus! {', 'pub struct Newton { %s }' % ', '.join('pub %s: %s' % (f, t) for f, t in c.fields),
               'pub enum LinError { LUFactFail { col: usize } }', c.err,
               'pub open spec fn cur_iter(s: Newton) -> usize { s.%s }' % c.cur, '}']:
        out.append((ln, ('struct',)))
    for s in specs:
        out += spec(s)
    out.append(('verus! {', None))
    for kind, f in parts:
        if kind == 'fn':
            out.append(('impl Newton {', None))
            weave(f, out, dropped)
            out.append(('}', None))
        else:
            for ln in f.split('\n'):
                m = re.search(r'// @ob (.*)$', ln)
                out.append((ln, ('assert', m.group(1), 'client') if m else None))
                if PROBE[0] and m and ln.strip().startswith('proof {'):
                    out.append(('proof { assert(vx_never(%d)); }' % len(out), ('probe', 'client: after ' + m.group(1), 'client')))
    out.append(('}', None))
    return out


def roles(f):
    """the loops over attempts (at most one) and over iterations; the others are element by element"""
    calls = lambda l: any(m.startswith('problem.') for m in l.methods)
    cb = [l for l in f.loops if calls(l)]
    el = [l for l in f.loops if not calls(l)]
    if any(not l.canonical for l in el):
        raise Lost('solve: a loop without callbacks is not a counting loop')
    it = [l for l in cb if not any(calls(c) for c in l.children)]
    att = [l for l in cb if l not in it]
    if not it or len(att) > 1 or any('problem.solve' not in l.methods for l in it):
        raise Lost('solve: expected loops over iterations in at most one loop over attempts')
    if att and any(l.parent != att[0].id for l in it) or not att and any(l.parent is not None for l in it):
        raise Lost('solve: loops over iterations')
    return att, it, el


class Many:
    """the same annotations for several loops"""
    def __init__(self, loops):
        object.__setattr__(self, 'loops', loops)
        object.__setattr__(self, 'inv', Shared(loops))

    def __setattr__(self, k, v):
        if k != 'inv':
            for l in self.loops:
                setattr(l, k, v)


class Shared:
    def __init__(self, loops):
        self.loops = loops

    def append(self, x):
        for l in self.loops:
            l.inv.append(x)

    def __iadd__(self, xs):
        for x in xs:
            self.append(x)
        return self


def elementwise(c, f, el):
    """loops over the elements of a vector: the elements written so far, everything else as before"""
    for l in el:
        g = 'g_e%d' % l.id
        f.ghost.append('let ghost mut %s = *self;' % g)
        l.pre.append(('proof { %s = *self; }' % g,))
        if any(m[0].startswith('self.') for m in l.mutated):
            for x, t in c.fields:
                l.inv.append(('unchanged %s' % x, 'self.%s == %s.%s' % (x, g, x), True))
            l.inv.append(('length of the update', 'self.%s@.len() == %s.%s@.len()' % (c.delta, g, c.delta), True))
    keep = f.loops
    f.loops = el
    generic_loops(f, set())
    f.loops = keep


def first_residuals(body, line):
    """without a loop over attempts, an attempt starts at each residual evaluation outside the loops"""
    out, depth = [], 0
    for ln in body.split('\n'):
        if re.search(r'__VX_LOOP_\d+', ln):
            depth += 1
        if re.search(r'__VX_POST_\d+', ln):
            depth -= 1
        if depth == 0 and re.search(r'problem \. sys \(', ln):
            out.append(line)
        out.append(ln)
    return '\n'.join(out)


def in_scope(f, l, x):
    """a candidate names only variables declared before its loop"""
    if not x[2]:
        return True
    pos = f.d['body'].index('__VX_PRE_%d ;' % l.id)
    for v in f.d['locals']:
        if re.search(r'(?<![\w.])%s\b' % re.escape(v['name']), x[1]):
            m = re.search(r'let mut %s\b' % re.escape(v['name']), f.d['body'])
            if not m or m.start() > pos or not encloses(f.d['body'], m.start(), pos):
                return False
    return True


def encloses(t, a, b):
    d = 0
    for ch in t[a:b]:
        d += {'{': 1, '}': -1}.get(ch, 0)
        if d < 0:
            return False
    return True


S = lambda s, n: (s, ('assert', n, 'Newton::solve'))


def newton(c, dropped):
    """what every property's contract of solve shares"""
    f = fn(c, 'solve')
    f.d['generics'] = '<NLP: NLProblem>'
    os_, is_, el = roles(f)
    o, i = Many(os_), Many(is_)
    f.broadcast = '{logs, ieee}'
    L = 'problem.log()'
    f.requires = [('vector lengths', 'old(self).%s@.len() == y0@.len() && old(y)@.len() == y0@.len() && w@.len() == y0@.len()' % c.delta),
                  ('counters not near their maximum', 'old(self).%s < usize::MAX / 8 && old(self).%s < usize::MAX / 8 && old(self).%s < usize::MAX / 8' % (c.niters, c.nfail, c.limit))]
    f.ensures = [('vector lengths kept', 'final(self).%s@.len() == y0@.len() && final(y)@.len() == y0@.len()' % c.delta),
                 ('iteration limit kept', 'final(self).%s == old(self).%s' % (c.limit, c.limit)),
                 ('callbacks are only called', 'extends(final(problem).log(), old(problem).log()) && final(problem).log().len() > old(problem).log().len()')]
    f.ghost = ['let ghost g_l0 = problem.log();', 'let ghost g_s: int = problem.log().len() as int;', 'let ghost g_lim = self.%s;' % c.limit,
               'let ghost g_ni = self.%s as int; let ghost g_nf = self.%s as int;' % (c.niters, c.nfail),
               'let ghost g_cx = Cx { y0: y0@, lim: lim(self.%s), ask: call_lsetup, j0: self.%s };' % (c.limit, c.jcur),
               'let ghost mut g_st: Set<int> = Set::empty();']
    n = '(%s.len() as int)' % L
    R = 'run(%s, g_st, g_s, %s, g_cx)' % (L, n)
    c.L, c.n, c.R = L, n, R
    common = [('vector lengths kept', 'self.%s@.len() == y0@.len() && y@.len() == y0@.len()' % c.delta, False),
              ('iteration limit kept', 'self.%s == g_lim' % c.limit, True),
              ('callbacks are only called', 'extends(%s, g_l0)' % L, False),
              ('attempts started', 'forall|p: int| #[trigger] g_st.contains(p) ==> p < %s' % n, False)]
    usz = ['self.' + x for x, t in c.fields if t == 'usize'] + [l['name'] for l in f.d['locals'] if l['ty'] == 'usize']
    boo = [l['name'] for l in f.d['locals'] if l['ty'] == 'bool']
    o.inv += common
    i.inv += common
    elementwise(c, f, el)
    start = 'proof { g_st = g_st.insert(problem.log().len() as int); }'
    if os_:
        os_[0].start = [(start,)]
    else:
        f.d['body'] = first_residuals(f.d['body'], start)
    # R.at counts attempts begun; at the head of the outer loop all of them have failed
    o.inv += [('attempts counted', '%s.at >= 0 && (%s.at == 0 <==> %s == g_s)' % (R, R, n), False)]
    i.inv += [('attempts counted', '%s.at >= 1 && %s > g_s' % (R, n), False)]
    for x in boo:
        for l in (o, i):
            l.inv += [('flag %s set' % x, x, True), ('flag %s not set' % x, '!' + x, True)]
        for k, e in enumerate(['%s == ($R.at >= 1)', '%s == ($R.at == 0)', '$R.at >= 1 ==> %s', '$R.at >= 1 ==> !%s', '$R.at == 0 ==> %s == call_lsetup', '$R.at == 0 ==> %s == false']):
            o.inv.append(('flag %s %d' % (x, k), sub(e % x, R=R), True))
        for k, e in enumerate(['%s == ($R.at >= 2)', '%s == ($R.at == 1)', '$R.at >= 2 ==> %s', '$R.at >= 2 ==> !%s', '$R.at == 1 ==> %s == call_lsetup', '$R.at == 1 ==> %s == false']):
            i.inv.append(('flag %s %d' % (x, k), sub(e % x, R=R), True))
    for x in usz:
        if x == 'self.' + c.limit:
            continue
        i.inv.append(('count %s of iterations of this attempt' % x, '%s == %s.fc' % (x, R), True))
        i.inv.append(('iteration number %s' % x, '%s == %s.fc + 1' % (x, R), True))
        i.inv.append(('count %s of all iterations' % x, '%s == g_ni + nsolve(%s, g_s, %s)' % (x, L, n), True))
        o.inv.append(('count %s of all iterations' % x, '%s == g_ni + nsolve(%s, g_s, %s)' % (x, L, n), True))
        i.inv.append(('count %s of failed attempts' % x, '%s == g_nf + %s.at - 1' % (x, R), True))
        o.inv.append(('count %s of failed attempts' % x, '%s == g_nf + %s.at' % (x, R), True))
        o.inv.append(('attempt number %s' % x, '%s == %s.at' % (x, R), True))
        i.inv.append(('attempt number %s' % x, '%s == %s.at - 1' % (x, R), True))
    # where the residual is evaluated at the start of an iteration, the last call was a test that did not converge
    i.inv.append(('the residual is at hand', '!cfalse(%s.last)' % R, True))
    i.inv.append(('the residual is at hand below the limit', 'cfalse(%s.last) <==> %s.fc >= g_cx.lim' % (R, R), True))
    for x in usz:
        if x != 'self.' + c.limit:
            i.inv.append(('residual still to come by %s' % x, '%s > 0 <==> cfalse(%s.last)' % (x, R), True))
    for x in boo:
        i.inv.append(('residual still to come by %s' % x, '%s <==> cfalse(%s.last)' % (x, R), True))
        i.inv.append(('residual still to come by not %s' % x, '!%s <==> cfalse(%s.last)' % (x, R), True))
    for l in (o, i):
        l.inv.append(('status of the Jacobian data', 'self.%s == %s.jc' % (c.jcur, R), True))
    # sizes, for machine arithmetic
    i.inv += [('one unconverged test per iteration', '%s.fc == %s.sc' % (R, R), True),
              ('counts are not negative', '0 <= %s.fc && 0 <= %s.sc' % (R, R), True),
              ('below the limit', '%s.fc < g_cx.lim' % R, True),
              ('not beyond the limit', '%s.fc <= g_cx.lim' % R, True),
              ('at most two attempts', '%s.at <= 2' % R, True),
              ('work of the first attempt', '%s.at == 1 ==> nsolve(%s, g_s, %s) == %s.sc' % (R, L, n, R), True),
              ('work of the second attempt', '%s.at == 2 ==> nsolve(%s, g_s, %s) <= g_cx.lim + %s.sc' % (R, L, n, R), True)]
    o.inv += [('at most one failed attempt', '%s.at <= 1' % R, True), ('no work yet', '%s.at == 0 ==> nsolve(%s, g_s, %s) == 0' % (R, L, n), True),
              ('work of the failed attempt', '%s.at == 1 ==> nsolve(%s, g_s, %s) <= g_cx.lim' % (R, L, n), True)]
    f.attrs = ['#[verifier::loop_isolation(false)]', '#[verifier::exec_allows_no_decreases_clause]']
    for l in os_ + is_:
        l.inv = [x for x in l.inv if in_scope(f, l, x)]
    return f, o, i


def ens(c, *pairs):
    """$L final log, $s its length before the call, $e its length now, $cx the caller's request"""
    return [(n, sub(t, L='final(problem).log()', s='(old(problem).log().len() as int)', e='(final(problem).log().len() as int)', j0='old(self).' + c.jcur,
                    cx='(Cx { y0: y0@, lim: lim(old(self).%s), ask: call_lsetup, j0: old(self).%s })' % (c.limit, c.jcur)))
            for n, t in pairs]


def sub(t, **kw):
    return re.sub(r'\$(\w+)', lambda m: str(kw[m.group(1)]), t)


def inv(c, l, *pairs):
    for n, t in pairs:
        l.inv.append((n, sub(t, L=c.L, n=c.n, delta='self.%s@' % c.delta, R=c.R), False))


def follows(c, f, o, i, rule, name, more='', exitmore=''):
    """every call of the solve is a legal next one by the property's rule"""
    K = 'ok_%s($L, %s, %s, %s, %s)'
    f.ensures += ens(c, (name, 'exists|st: Set<int>| #[trigger] ' + K % (rule, 'st', '$s', '$e', '$cx') + more))
    G = K % (rule, 'g_st', 'g_s', '$n', 'g_cx')
    inv(c, o, (name, G), ('only a recoverable failure is followed by another attempt', '$R.at > 0 ==> failed_recov($R.last)'))
    inv(c, i, (name, G), ('the iteration goes on from a residual, a setup or a test that did not converge', 'going($R.last) && ($R.last is Sys || ($R.last is Setup && $R.len == 2) || cfalse($R.last))'))
    f.at_exit = [S(sub('proof { %sassert(%s); }' % (exitmore, G), L=c.L, n=c.n), name + ', at return')]


CLIENT = """
#[verifier::external_body] pub fn any_bool() -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn any_vc() -> (r: Vc) ensures r@.len() == dimn() { unimplemented!() }
#[verifier::external_body] pub fn any_sc() -> (r: Sc) { unimplemented!() }
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
pub fn client_history<NLP: NLProblem>(p: &mut NLP, maxiters: usize)
  requires maxiters < usize::MAX / 8
{
  let mut s = Newton::new(maxiters);
  let ghost a = p.log().len() as int;
  $start
  loop
    invariant
      s.$delta@.len() == dimn() && s.$limit == maxiters && a <= p.log().len(), // @ob the solver object stays usable
      $inv
  {
    let y0 = any_vc(); let w = any_vc(); let mut y = any_vc();
    if s.get_num_iters() >= usize::MAX / 8 || s.get_num_conv_fails() >= usize::MAX / 8 || s.get_cur_iter() >= usize::MAX / 8 { return; }
    let ghost l0 = p.log();
    let ghost s0 = s;
    let r = s.solve(p, &y0, &mut y, &w, any_sc(), any_bool());
    proof { $step }
  }
}
"""


def client(c, start, inv, step):
    t = CLIENT.replace('$start', start).replace('$inv', inv).replace('$step', step)
    return sub(t, delta=c.delta, limit=c.limit, jcur=c.jcur, niters=c.niters)


def new_fn(c):
    f = fn(c, 'new')
    f.requires = []
    f.ensures = [('a new solver has its update vector and limit', 'ret.%s@.len() == dimn() && ret.%s == maxiters' % (c.delta, c.limit))]
    return f


def getters(c):
    out = []
    for nme, fld in (('get_num_iters', c.niters), ('get_cur_iter', c.cur), ('get_num_conv_fails', c.nfail)):
        f = fn(c, nme)
        f.ensures = [('returns its count', 'ret == self.%s' % fld)]
        out.append(('fn', f))
    return out


def C08(c):
    def build(dropped):
        f, o, i = newton(c, dropped)
        f.ensures += ens(c,
            ('success exactly when the last question was the convergence test and it answered converged', 'ret is Ok <==> ctrue($L[$e - 1])'),
            ('success at once when the convergence test answers converged', 'forall|k: int| $s <= k < $e - 1 ==> !ctrue(#[trigger] $L[k])'),
            ('the accepted vector is the returned one', 'ret is Ok ==> $L[$e - 1]->Ctest_y == final(y)@'),
            ('the accepted vector contains the update just applied', 'ret is Ok ==> $e - 2 >= $s && $L[$e - 2] is Solve && $L[$e - 1]->Ctest_del == $L[$e - 2]->Solve_x && issum($L[$e - 1]->Ctest_y, $L[$e - 2]->Solve_y, $L[$e - 2]->Solve_x)'),
            ('the convergence test is given the tolerance and weights of the caller', 'forall|k: int| $s <= k < $e && ctrue(#[trigger] $L[k]) ==> $L[k]->Ctest_tol == tol && $L[k]->Ctest_w == w@'))
        for l in (o, i):
            inv(c, l, ('not converged so far', 'forall|k: int| g_s <= k < $n ==> !ctrue(#[trigger] $L[k])'))
        return text(c, ['nl.rs', 'bits.rs'], [('fn', f)], dropped)
    return build


def C09(c):
    def build(dropped):
        f, o, i = newton(c, dropped)
        follows(c, f, o, i, 'law', 'each residual, setup, solve and test is given the vectors the Newton iteration prescribes')
        inv(c, i, ('the residual at hand is that of the iterate', 'if cfalse($R.last) { $R.last->Ctest_y == y@ } else { $R.out == $delta && $R.y == y@ }'),
            ('the first iterate is the initial vector', '$R.last is Setup ==> y@ == y0@'))
        return text(c, ['nl.rs', 'bits.rs'], [('fn', f)], dropped)
    return build


def C10(c):
    def build(dropped):
        f, o, i = newton(c, dropped)
        f.attrs = ['#[verifier::loop_isolation(false)]']
        follows(c, f, o, i, 'work', 'at most two attempts, each of at most max(1, limit) iterations and three calls per iteration')
        f.ensures += ens(c,
            ('using up the limit without converging is a recoverable convergence failure', '!ev_err($L[$e - 1]) && !ctrue($L[$e - 1]) ==> ret == Err::<(), Error>(Error::ConvergenceRecover {})'))
        inv(c, o, ('at most one failed attempt', '$R.at <= 1'))
        inv(c, i, ('at most two attempts', '$R.at <= 2'),
            ('iterations of this attempt within the limit', '0 <= $R.sc && (if cfalse($R.last) { $R.sc <= g_cx.lim && $R.len <= 3 * $R.sc + 1 } else { $R.sc < g_cx.lim && $R.len <= 3 * $R.sc + 2 })'))
        o.dec = sub('2 - $R.at', R=c.R)
        i.dec = sub('g_cx.lim - $R.sc', R=c.R)
        return text(c, ['nl.rs', 'bits.rs'], [('fn', f)], dropped)
    return build


def C11(c):
    def build(dropped):
        f, o, i = newton(c, dropped)
        follows(c, f, o, i, 'retry', 'one attempt, or a recoverably failed one with outdated data and one retry from the start; setups and their flags as asked',
                ' && (failed_recov($L[$e - 1]) ==> run($L, st, $s, $e, $cx).at == 2 || run($L, st, $s, $e, $cx).jc)',
                'run_jc(problem.log(), g_st, g_s, problem.log().len() as int, g_cx); ')
        f.ensures += ens(c, ('an unretried recoverable failure is returned', 'failed_recov($L[$e - 1]) ==> ret is Err && recov(ret->Err_0)'),
                         ('status of the Jacobian data is kept', 'final(self).%s == current($j0, $L, $s, $e)' % c.jcur))
        J = ('status of the Jacobian data', 'self.%s == $R.jc' % c.jcur)
        inv(c, o, J, ('a second attempt is the last one', '$R.at <= 1'),
            ('a retry needs outdated data', '$R.at == 1 ==> !$R.jc'))
        inv(c, i, J, ('at most two attempts', '$R.at <= 2'),
            ('setup as asked', '$R.len >= 1 && ($R.len == 1 ==> !call_lsetup && $R.at == 1)'))
        nw = new_fn(c)
        nw.ensures.append(('a new solver has no current Jacobian data', '!ret.%s' % c.jcur))
        cl = client(c, '', 's.$jcur == current(false, p.log(), a, p.log().len() as int), // @ob over any history the status is that of the latest completed setup, until a solve converges',
                    'current_ext(false, p.log(), l0, a, l0.len() as int); current_add(false, p.log(), a, l0.len() as int, p.log().len() as int);')
        return text(c, ['nl.rs', 'bits.rs'], [('fn', nw), ('fn', f)] + getters(c) + [('text', cl)], dropped)
    return build


def C12(c):
    def build(dropped):
        f, o, i = newton(c, dropped)
        follows(c, f, o, i, 'lim', 'an attempt ends by an error, by convergence or by using up the limit')
        f.ensures += ens(c, ('nothing is called after a non-recoverable error', 'forall|k: int| $s <= k < $e - 1 ==> !fatal(#[trigger] $L[k])'),
                         ('no error without a cause', 'cfalse($L[$e - 1]) ==> exists|st: Set<int>| #[trigger] ok_lim($L, st, $s, $e, $cx) && run($L, st, $s, $e, $cx).fc >= lim(old(self).%s)' % c.limit),
                         ('the result is that of the last call', 'ends($L[$e - 1]) && ret == verdict($L[$e - 1])'))
        NF = ('no fatal error so far', 'forall|k: int| g_s <= k < $n ==> !fatal(#[trigger] $L[k])')
        inv(c, o, NF, ('a failed attempt without an error used up the limit', '$R.at > 0 && cfalse($R.last) ==> $R.fc >= g_cx.lim'))
        inv(c, i, NF)
        return text(c, ['nl.rs', 'bits.rs'], [('fn', f)], dropped)
    return build


def C13(c):
    def build(dropped):
        f, o, i = newton(c, dropped)
        follows(c, f, o, i, 'cur', 'each convergence test sees the iterations of its attempt counted; failures and the current count match the attempts',
                ' && ({ let r = run($L, st, $s, $e, $cx); final(self).%s == old(self).%s + r.at - (if ret is Ok { 1int } else { 0 }) && (ret is Ok ==> final(self).%s == r.fc) })' % (c.nfail, c.nfail, c.cur))
        f.ensures += ens(c, ('total iterations grow by the linear solves requested', 'final(self).%s == old(self).%s + nsolve($L, $s, $e)' % (c.niters, c.niters)))
        inv(c, o, ('failed attempts', 'self.%s == g_nf + $R.at' % c.nfail), ('total iterations', 'self.%s == g_ni + nsolve($L, g_s, $n)' % c.niters))
        inv(c, i, ('failed attempts', 'self.%s == g_nf + $R.at - 1' % c.nfail), ('total iterations', 'self.%s == g_ni + nsolve($L, g_s, $n)' % c.niters),
            ('current count', 'self.%s == $R.fc' % c.cur))
        nw = new_fn(c)
        nw.ensures.append(('a new solver has counts zero', 'ret.%s == 0 && ret.%s == 0 && ret.%s == 0' % (c.niters, c.cur, c.nfail)))
        cl = client(c, 'proof { assert(s.$niters == 0); } // @ob counts start at zero', 's.$niters == nsolve(p.log(), a, p.log().len() as int), // @ob over any history the total is the number of linear solves requested',
                    'nsolve_ext(p.log(), l0, a, l0.len() as int); nsolve_add(p.log(), a, l0.len() as int, p.log().len() as int);')
        return text(c, ['nl.rs', 'bits.rs'], [('fn', nw), ('fn', f)] + getters(c) + [('text', cl)], dropped)
    return build
