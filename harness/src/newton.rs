//! Newton solver: scripted callbacks, every answer sequence up to a bound, and each property read off the calls.
use crate::util::*;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DMatrix, DefaultAllocator, Dim, DimName, DimNameAdd, Matrix, SVector, Storage, StorageMut, U1};
use nonlinear::{Error, NLProblem, NLSolver, Newton};

#[derive(Clone, Debug, PartialEq)]
enum Er {
    Rec,
    Cont,
    Ill,
    Lin(usize),
}
fn mk(e: &Er) -> Error {
    match e {
        Er::Rec => Error::ConvergenceRecover {},
        Er::Cont => Error::Continue {},
        Er::Ill => Error::IllegalInput {},
        Er::Lin(c) => Error::LinearSetupFailed { source: linear::Error::LUFactFail { col: *c } },
    }
}
fn un(e: Error) -> Er {
    match e {
        Error::ConvergenceRecover {} => Er::Rec,
        Error::Continue {} => Er::Cont,
        Error::IllegalInput {} => Er::Ill,
        #[allow(unreachable_patterns)]
        Error::LinearSetupFailed { source } => Er::Lin(match source {
            linear::Error::LUFactFail { col } => col,
            _ => usize::MAX,
        }),
        #[allow(unreachable_patterns)]
        _ => Er::Lin(usize::MAX),
    }
}
type V = Vec<f64>;
/// not-a-number is one value here
fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}
#[derive(Clone, Debug)]
enum Ev {
    Sys { y: V, out: V, r: Result<(), Er> },
    Setup { y: V, f: V, jbad: bool, r: Result<bool, Er> },
    Solve { y: V, b: V, x: V, r: Result<(), Er> },
    Ctest { y: V, del: V, tol: f64, w: V, cur: usize, r: Result<bool, Er> },
}
use Ev::*;
impl Ev {
    fn err(&self) -> Option<&Er> {
        match self {
            Sys { r, .. } | Solve { r, .. } => r.as_ref().err(),
            Setup { r, .. } | Ctest { r, .. } => r.as_ref().err(),
        }
    }
    fn ctrue(&self) -> bool {
        matches!(self, Ctest { r: Ok(true), .. })
    }
    fn cfalse(&self) -> bool {
        matches!(self, Ctest { r: Ok(false), .. })
    }
    fn recov(&self) -> bool {
        self.cfalse() || self.err() == Some(&Er::Rec)
    }
    fn fatal(&self) -> bool {
        matches!(self.err(), Some(e) if *e != Er::Rec)
    }
}

/// where the answers come from
pub struct Script {
    digits: Vec<(usize, usize)>,
    pos: usize,
    rng: Option<Rng>,
    bias: usize,
}
impl Script {
    fn pick(&mut self, n: usize) -> usize {
        if let Some(r) = &mut self.rng {
            // mostly the answer that keeps the iteration going
            return if r.below(10) < self.bias { 0 } else { r.below(n) };
        }
        if self.pos == self.digits.len() {
            self.digits.push((0, n));
        }
        self.pos += 1;
        self.digits[self.pos - 1].0
    }
    /// next sequence in lexicographic order; false when all were seen
    fn advance(&mut self) -> bool {
        self.digits.truncate(self.pos);
        self.pos = 0;
        while let Some((d, n)) = self.digits.pop() {
            if d + 1 < n {
                self.digits.push((d + 1, n));
                return true;
            }
        }
        false
    }
}
const CAP: &str = "event cap";
struct Mock<'a> {
    s: &'a mut Script,
    log: Vec<Ev>,
    cap: usize,
    tick: u64,
    special: bool,
    rich: bool,
}
fn val(t: u64, i: usize, special: bool) -> f64 {
    let mut r = Rng::new(t * 64 + i as u64);
    if special && r.below(4) == 0 {
        return [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308, 5e-324][r.below(7)];
    }
    // distinct, with few bits so that sums keep apart
    ((r.below(200_000) as f64) - 100_000.0) / 64.0 + 0.0078125
}
impl<'a> Mock<'a> {
    fn fill<D: Dim, S: StorageMut<f64, D, U1>>(&mut self, v: &mut Matrix<f64, D, U1, S>) {
        self.tick += 1;
        for i in 0..v.nrows() {
            v[i] = val(self.tick, i, self.special);
        }
    }
    fn add(&mut self, e: Ev) {
        self.log.push(e);
        if self.log.len() > self.cap {
            std::panic::panic_any(CAP.to_string());
        }
    }
    fn fatal(&mut self) -> Er {
        let n = self.log.len();
        [Er::Ill, Er::Lin(n), Er::Cont][(self.tick as usize + n) % 3].clone()
    }
    fn unit(&mut self) -> Result<(), Er> {
        match self.s.pick(3) {
            0 => Ok(()),
            1 => Err(Er::Rec),
            _ => Err(self.fatal()),
        }
    }
    fn flag(&mut self, first: bool) -> Result<bool, Er> {
        match self.s.pick(4) {
            0 => Ok(first),
            1 => Err(Er::Rec),
            2 => Ok(!first),
            _ => Err(self.fatal()),
        }
    }
}
fn vec<D: Dim, S: Storage<f64, D, U1>>(v: &Matrix<f64, D, U1, S>) -> V {
    (0..v.nrows()).map(|i| v[i]).collect()
}
impl<'a, D: DimName> NLProblem<f64, D> for Mock<'a> {
    fn sys<SB1, SB2>(&mut self, y: &Matrix<f64, D, U1, SB1>, f: &mut Matrix<f64, D, U1, SB2>) -> Result<(), Error>
    where
        SB1: Storage<f64, D, U1>,
        SB2: StorageMut<f64, D, U1>,
    {
        self.fill(f);
        let r = self.unit();
        self.add(Sys { y: vec(y), out: vec(f), r: r.clone() });
        r.map_err(|e| mk(&e))
    }
    fn setup<SA, SB>(&mut self, y: &Matrix<f64, D, U1, SA>, f: &Matrix<f64, D, U1, SB>, jbad: bool) -> Result<bool, Error>
    where
        SA: Storage<f64, D, U1>,
        SB: Storage<f64, D, U1>,
    {
        let r = self.flag(false);
        self.add(Setup { y: vec(y), f: vec(f), jbad, r: r.clone() });
        r.map_err(|e| mk(&e))
    }
    fn solve<SA, SB>(&mut self, y: &Matrix<f64, D, U1, SA>, b: &mut Matrix<f64, D, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<f64, D, U1>,
        SB: StorageMut<f64, D, U1>,
    {
        let b0 = vec(b);
        self.fill(b);
        let r = self.unit();
        self.add(Solve { y: vec(y), b: b0, x: vec(b), r: r.clone() });
        r.map_err(|e| mk(&e))
    }
    fn ctest<NLS, SA, SB, SC>(&mut self, solver: &NLS, y: &Matrix<f64, D, U1, SA>, del: &Matrix<f64, D, U1, SB>, tol: f64, ewt: &Matrix<f64, D, U1, SC>) -> Result<bool, Error>
    where
        NLS: NLSolver<f64, D>,
        SA: Storage<f64, D, U1>,
        SB: Storage<f64, D, U1>,
        SC: Storage<f64, D, U1>,
    {
        let r = if self.rich { self.flag(false) } else { match self.s.pick(3) { 0 => Ok(false), 1 => Ok(true), _ => Err(if self.tick % 2 == 0 { Er::Rec } else { self.fatal() }) } };
        self.add(Ctest { y: vec(y), del: vec(del), tol, w: vec(ewt), cur: solver.get_cur_iter(), r: r.clone() });
        r.map_err(|e| mk(&e))
    }
}

/// what one call to solve showed
struct Call {
    log: Vec<Ev>,
    y0: V,
    y: V,
    tol: f64,
    w: V,
    ask: bool,
    lim: usize,
    ret: Option<Result<(), Er>>,
    panicked: Option<String>,
    before: [usize; 3],
    after: [usize; 3],
    current0: bool,
}
/// the attempts as ranges of the log
fn attempts(c: &Call) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let (mut s, mut fc) = (0, 0);
    for k in 0..c.log.len() {
        if k > s {
            if let Sys { y, .. } = &c.log[k] {
                let restart = if c.log[k - 1].err() == Some(&Er::Rec) {
                    true
                } else if let Ctest { y: yt, r: Ok(false), .. } = &c.log[k - 1] {
                    match c.log.get(k + 1) {
                        Some(Setup { .. }) => true,
                        // without a setup only the vector and the limit tell
                        next => fc >= c.lim && same(y, &c.y0) && (next.is_none() || !same(yt, &c.y0)),
                    }
                } else {
                    false
                };
                if restart {
                    out.push((s, k));
                    s = k;
                    fc = 0;
                }
            }
        }
        if c.log[k].cfalse() {
            fc += 1;
        }
    }
    out.push((s, c.log.len()));
    out
}
fn current(j: bool, l: &[Ev]) -> bool {
    let mut j = j;
    for e in l {
        match e {
            Setup { r: Ok(b), .. } => j = *b,
            e if e.ctrue() => j = false,
            _ => {}
        }
    }
    j
}
fn count<F: Fn(&Ev) -> bool>(l: &[Ev], f: F) -> usize {
    l.iter().filter(|e| f(e)).count()
}

fn judge(pid: &str, c: &Call) -> Result<(), String> {
    let l = &c.log;
    let n = l.len();
    macro_rules! need {
        ($e:expr, $($m:tt)*) => { if !($e) { return Err(format!($($m)*)); } };
    }
    let at = attempts(c);
    match pid {
        "C08" => {
            for (k, e) in l.iter().enumerate() {
                need!(!e.ctrue() || k == n - 1, "the convergence test answered converged at call {} but the solver went on", k);
            }
            if let Some(r) = &c.ret {
                let acc = n > 0 && l[n - 1].ctrue();
                need!(r.is_ok() == acc, "returned {:?} although the last call was {:?}", r, l.last());
                if acc {
                    if let Ctest { y, del, tol, w, .. } = &l[n - 1] {
                        need!(same(y, &c.y), "accepted vector {:?} but returned {:?}", y, c.y);
                        need!(n >= 2 && matches!(&l[n - 2], Solve { .. }), "no linear solve directly before the accepting convergence test");
                        if let Solve { y: ys, x, .. } = &l[n - 2] {
                            need!(same(x, del), "the convergence test was given the update {:?}, the linear solve returned {:?}", del, x);
                            let sum: V = ys.iter().zip(x).map(|(a, b)| a + b).collect();
                            need!(same(&sum, y), "the accepted vector is not the iterate plus the update");
                        }
                        need!(tol.to_bits() == c.tol.to_bits() && same(w, &c.w), "the convergence test was not given the caller's tolerance and weights");
                    }
                }
            }
        }
        "C09" => {
            need!(n == 0 || matches!(&l[0], Sys { .. }), "the first call is not a residual evaluation");
            for &(s, e) in &at {
                for k in s..e {
                    let prev = if k > s { Some(&l[k - 1]) } else { None };
                    let latest = l[s..k].iter().rev().find_map(|e| match e { Sys { y, out, .. } => Some((y, out)), _ => None });
                    match &l[k] {
                        Sys { y, .. } if k == s => need!(same(y, &c.y0), "attempt starting at call {} evaluates the residual at {:?} instead of the initial vector {:?}", k, y, c.y0),
                        Sys { y, .. } => match prev {
                            Some(Ctest { y: yt, .. }) => need!(same(y, yt), "call {}: residual at {:?}, the iterate is {:?}", k, y, yt),
                            _ => return Err(format!("call {}: residual evaluated after {:?}", k, prev)),
                        },
                        Setup { y, f, .. } => {
                            need!(k == s + 1, "call {}: setup in the middle of an attempt", k);
                            need!(same(y, &c.y0) && latest.map_or(false, |(_, o)| same(o, f)), "call {}: setup is not given the initial vector and its residual", k);
                        }
                        Solve { y, b, .. } => {
                            need!(matches!(prev, Some(Sys { .. }) | Some(Setup { .. })), "call {}: linear solve without a fresh residual", k);
                            let (ys, out) = latest.unwrap();
                            let neg: V = out.iter().map(|x| -x).collect();
                            need!(same(b, &neg), "call {}: the linear solve is given {:?}, the residual is {:?}", k, b, out);
                            need!(same(y, ys), "call {}: the linear solve is given another vector than the residual was evaluated at", k);
                        }
                        Ctest { y, del, .. } => match prev {
                            Some(Solve { y: ys, x, .. }) => {
                                let sum: V = ys.iter().zip(x).map(|(a, b)| a + b).collect();
                                need!(same(del, x), "call {}: the update tested is not the one the linear solve returned", k);
                                need!(same(y, &sum), "call {}: the new iterate {:?} is not the old one {:?} plus the update {:?}", k, y, ys, x);
                            }
                            _ => return Err(format!("call {}: convergence test without a linear solve before it", k)),
                        },
                    }
                }
            }
        }
        "C10" => {
            if let Some(p) = &c.panicked {
                return Err(if p == CAP { format!("still calling after {} calls with limit {}", n, c.lim) } else { format!("panicked: {}", p) });
            }
            need!(at.len() <= 2, "{} attempts", at.len());
            for &(s, e) in &at {
                let it = count(&l[s..e], |e| matches!(e, Solve { .. }));
                need!(it <= c.lim, "an attempt of {} iterations with limit {}", it, c.lim);
            }
            need!(n <= 6 * c.lim + 2, "{} calls with limit {}", n, c.lim);
            if n > 0 && l[n - 1].cfalse() {
                need!(c.ret == Some(Err(Er::Rec)), "used up the limit without converging and returned {:?}", c.ret);
            }
        }
        "C11" => {
            need!(at.len() <= 2, "{} attempts", at.len());
            for (i, &(s, e)) in at.iter().enumerate() {
                if i > 0 {
                    need!(l[s - 1].recov(), "retried after {:?}", l[s - 1]);
                    need!(!current(c.current0, &l[..s]), "retried although the Jacobian data is current");
                    if let Sys { y, .. } = &l[s] {
                        need!(same(y, &c.y0), "the retry does not start from the initial vector");
                    }
                }
                for k in s..e {
                    if let Setup { jbad, .. } = &l[k] {
                        need!(k == s + 1, "call {}: setup in the middle of an attempt", k);
                        need!(*jbad == (i > 0), "attempt {}: setup told jbad = {}", i + 1, jbad);
                    }
                    if k == s + 1 {
                        need!(matches!(&l[k], Setup { .. }) == (i > 0 || c.ask), "attempt {} (caller asked for setup: {}) goes on with {:?}", i + 1, c.ask, l[k]);
                    }
                }
            }
            if let Some(r) = &c.ret {
                if n > 0 && l[n - 1].recov() {
                    need!(at.len() == 2 || current(c.current0, l), "recoverable failure with outdated Jacobian data was not retried");
                    need!(*r == Err(Er::Rec), "recoverable failure, but returned {:?}", r);
                }
            }
        }
        "C12" => {
            for (k, e) in l.iter().enumerate() {
                need!(!e.fatal() || k == n - 1, "call {} failed with {:?} but the solver went on", k, e.err());
            }
            for &(s, e) in &at {
                if e < n && l[e - 1].cfalse() {
                    need!(count(&l[s..e], Ev::cfalse) >= c.lim, "an attempt was given up after {} iterations without an error, the limit is {}", count(&l[s..e], Ev::cfalse), c.lim);
                }
            }
            if let Some(r) = &c.ret {
                need!(n > 0, "returned without any call");
                let want = match &l[n - 1] {
                    e if e.err().is_some() => Err(e.err().unwrap().clone()),
                    e if e.ctrue() => Ok(()),
                    e if e.cfalse() => {
                        let &(s, _) = at.last().unwrap();
                        need!(count(&l[s..], Ev::cfalse) >= c.lim, "gave up after {} iterations, the limit is {}", count(&l[s..], Ev::cfalse), c.lim);
                        Err(Er::Rec)
                    }
                    e => return Err(format!("returned {:?} right after {:?}", r, e)),
                };
                need!(*r == want, "returned {:?} instead of {:?}", r, want);
            }
        }
        "C13" => {
            for &(s, e) in &at {
                let mut fc = 0;
                for k in s..e {
                    if let Ctest { cur, .. } = &l[k] {
                        need!(*cur == fc, "call {}: the convergence test sees current count {}, {} iterations of the attempt did not converge", k, cur, fc);
                    }
                    fc += l[k].cfalse() as usize;
                }
            }
            if let Some(r) = &c.ret {
                let &(s, _) = at.last().unwrap();
                let d = count(l, |e| matches!(e, Solve { .. }));
                need!(c.after[0] == c.before[0] + d, "total iterations went from {} to {} over {} linear solves", c.before[0], c.after[0], d);
                let f = at.len() - r.is_ok() as usize;
                need!(c.after[2] == c.before[2] + f, "convergence failures went from {} to {} over {} failed attempts", c.before[2], c.after[2], f);
                let fc = count(&l[s..], Ev::cfalse);
                need!(r.is_err() || c.after[1] == fc, "current count {} after a success with {} unconverged iterations", c.after[1], fc);
            }
        }
        _ => {}
    }
    Ok(())
}

fn getters<const N: usize>(s: &Newton<f64, Const<N>>) -> [usize; 3]
where
    Const<N>: DimNameAdd<U1>,
    DefaultAllocator: Allocator<f64, Const<N>>,
    Newton<f64, Const<N>>: NLSolver<f64, Const<N>>,
{
    [s.get_num_iters(), s.get_cur_iter(), s.get_num_conv_fails()]
}
macro_rules! history {
    ($name:ident, $n:literal) => {
        /// a new solver used for several solves; true when a call was non-trivial
        fn $name(pid: &str, script: &mut Script, limit: usize, asks: &[bool], special: bool, view: bool, rich: bool) -> Outcome {
            let mut solver = <Newton<f64, Const<$n>> as NLSolver<f64, Const<$n>>>::new(limit);
            if pid == "C13" && getters::<$n>(&solver) != [0, 0, 0] {
                return Outcome::Fail("a new solver does not start with counts zero".into());
            }
            let mut j = false;
            let mut work = 0;
            for (i, ask) in asks.iter().enumerate() {
                let t = 100_000 * (i as u64 + 1);
                let mut m = Mock { s: script, log: vec![], cap: 6 * limit.max(1) + 24, tick: t, special, rich };
                let y0 = SVector::<f64, $n>::from_fn(|k, _| val(t + 90000, k, special));
                let w = SVector::<f64, $n>::from_fn(|k, _| val(t + 90001, k, false));
                let mut y = SVector::<f64, $n>::from_fn(|k, _| val(t + 90002, k, true));
                let tol = val(t + 90003, 0, false);
                let before = getters::<$n>(&solver);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if view {
                        let mut big = DMatrix::<f64>::from_fn($n + 3, 4, |a, b| (a * 7 + b) as f64);
                        for k in 0..$n {
                            big[(k + 1, 0)] = y0[k];
                            big[(k + 2, 2)] = y[k];
                            big[(k, 3)] = w[k];
                        }
                        let c0 = big.columns(0, 1).into_owned();
                        let c3 = big.columns(3, 1).into_owned();
                        let y0v = c0.fixed_view::<$n, 1>(1, 0);
                        let wv = c3.fixed_view::<$n, 1>(0, 0);
                        let r = {
                            let mut yv = big.fixed_view_mut::<$n, 1>(2, 2);
                            solver.solve(&mut m, &y0v, &mut yv, &wv, tol, *ask)
                        };
                        for k in 0..$n {
                            y[k] = big[(k + 2, 2)];
                        }
                        r
                    } else {
                        solver.solve(&mut m, &y0, &mut y, &w, tol, *ask)
                    }
                }));
                let (ret, panicked) = match r {
                    Ok(r) => (Some(r.map_err(un)), None),
                    Err(e) => (None, Some(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
                };
                let c = Call {
                    log: std::mem::take(&mut m.log), y0: vec(&y0), y: vec(&y), tol, w: vec(&w), ask: *ask, lim: limit.max(1), ret, panicked,
                    before, after: getters::<$n>(&solver), current0: j,
                };
                if let Err(e) = judge(pid, &c) {
                    return Outcome::Fail(format!("call {} of the solver (limit {}, setup asked: {}): {}; calls: {}", i + 1, limit, ask, e, brief(&c.log)));
                }
                work += c.log.len();
                j = current(j, &c.log);
                if c.panicked.is_some() {
                    return Outcome::Skip;
                }
            }
            if work > asks.len() { Outcome::Ok } else { Outcome::Trivial }
        }
    };
}
history!(h1, 1);
history!(h2, 2);
history!(h3, 3);
history!(h7, 7);

fn brief(l: &[Ev]) -> String {
    let f = |r: String| r.replace("Ok(", "").replace("Err(", "!").trim_end_matches(')').to_string();
    let v: Vec<String> = l.iter().take(40).map(|e| match e {
        Sys { r, .. } => format!("sys{}", if r.is_ok() { String::new() } else { f(format!("{:?}", r)) }),
        Setup { jbad, r, .. } => format!("setup({})={}", jbad, f(format!("{:?}", r))),
        Solve { r, .. } => format!("solve{}", if r.is_ok() { String::new() } else { f(format!("{:?}", r)) }),
        Ctest { r, .. } => format!("ctest={}", f(format!("{:?}", r))),
    }).collect();
    v.join(" ")
}

pub fn run(run: &mut Run) {
    let pid = run.pid.clone();
    let seed = run.seed;
    let th = run.thorough;
    let go = |n: usize, s: &mut Script, limit: usize, asks: &[bool], special: bool, view: bool, rich: bool| match n {
        1 => h1(&pid, s, limit, asks, special, view, rich),
        2 => h2(&pid, s, limit, asks, special, view, rich),
        3 => h3(&pid, s, limit, asks, special, view, rich),
        _ => h7(&pid, s, limit, asks, special, view, rich),
    };
    let mut plan: Vec<(usize, usize, usize, bool)> = vec![(2, 1, 1, true), (1, 0, 1, true), (2, 2, 1, true), (2, 3, 1, true), (2, 1, 2, true), (2, 2, 2, false), (3, 5, 1, false)];
    if th {
        plan.extend([(2, 0, 2, true), (2, 2, 2, true), (2, 3, 2, false), (2, 1, 3, false), (2, 6, 1, true), (2, 8, 1, false)]);
    }
    for (n, limit, calls, rich) in plan {
        for mask in 0..(1usize << calls) {
            let asks: Vec<bool> = (0..calls).map(|i| mask >> i & 1 == 1).collect();
            run.family(&format!("every answer sequence{}, limit {}, N = {}, setup asked {:?}", if rich { "" } else { " (one kind of test error)" }, limit, n, asks));
            let mut s = Script { digits: vec![], pos: 0, rng: None, bias: 0 };
            let mut i = 0u64;
            loop {
                if !run.open() {
                    break;
                }
                s.pos = 0;
                let d = std::cell::RefCell::new(&mut s);
                let dig = d.borrow().digits.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join("");
                let lbl = format!("limit {}, N {}, asked {:?}, answers {}*", limit, n, asks, dig);
                run.case(|| lbl.clone(), || go(n, &mut d.borrow_mut(), limit, &asks, i % 3 == 1, i % 7 == 5, rich));
                drop(d);
                if s.pos == 0 {
                    // not run (replay of another case): run it silently so that the order is kept
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(n, &mut s, limit, &asks, i % 3 == 1, i % 7 == 5, rich)));
                }
                i += 1;
                if !s.advance() {
                    break;
                }
            }
        }
    }
    for (n, limit, calls) in [(1usize, 2usize, 6usize), (2, 4, 5), (3, 7, 4), (7, 12, 4), (2, 1, 12), (3, 30, 3), (7, 300, 2)] {
        run.family(&format!("pseudo-random histories of {} solves, limit {}, N = {}", calls, limit, n));
        let mut r = Rng::new(seed * 7000 + n as u64 + limit as u64 * 31);
        for i in 0..(if th { 40_000u64 } else { 4_000 }) / (1 + limit as u64 / 10) {
            if !run.open() {
                break;
            }
            let asks: Vec<bool> = (0..calls).map(|_| r.coin()).collect();
            let sd = r.next();
            let bias = 2 + (sd % 8) as usize + if limit > 20 && sd % 3 != 0 { 10 } else { 0 };
            let lbl = format!("limit {}, N {}, asked {:?}, answers from seed {} bias {}", limit, n, asks, sd, bias);
            run.case(|| lbl.clone(), || {
                let mut s = Script { digits: vec![], pos: 0, rng: Some(Rng::new(sd)), bias };
                go(n, &mut s, limit, &asks, i % 3 == 1, i % 5 == 4, true)
            });
        }
    }
}
