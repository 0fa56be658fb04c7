// the extracted Newton solver against the real one: both see the same answers, and must ask the same
#![allow(warnings)]
mod rt;
mod gen;
use gen::*;
mod ext {
    use crate::rt::*;
    pub trait NLProblem {
        fn sys(&mut self, y: &Vc, f: &mut Vc) -> Result<(), Error>;
        fn setup(&mut self, y: &Vc, f: &Vc, jbad: bool) -> Result<bool, Error>;
        fn solve(&mut self, y: &Vc, b: &mut Vc) -> Result<(), Error>;
        fn ctest(&mut self, solver: &Newton, y: &Vc, del: &Vc, tol: Sc, w: &Vc) -> Result<bool, Error>;
    }
    include!(env!("VX_EXT"));
}
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, Dim, DimName, DimNameAdd, Matrix, SVector, Storage, StorageMut, U1};
use nonlinear::{NLProblem, NLSolver, Newton};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Er { Rec, Cont, Ill, Lin(usize), Other }
#[derive(Clone, Debug)]
struct Ev { kind: u8, vs: Vec<Vec<f64>>, flag: usize, ans: Result<bool, Er> }
#[derive(Clone)]
struct Core { seed: u64, log: Vec<Ev>, bias: usize, mode: usize }
const CAP: usize = 60;
impl Core {
    fn ask(&mut self, kind: u8, vs: Vec<Vec<f64>>, flag: usize) -> Result<bool, Er> {
        let k = self.log.len();
        if k >= CAP { std::panic::panic_any(0u8) }
        let mut r = Rng(self.seed ^ (k as u64 * 1315423911));
        r.next();
        let ans = if r.below(10) < self.bias { Ok(false) } else { match r.below(6) {
            0 | 1 => Ok(true), 2 | 3 => Err(Er::Rec), 4 => Ok(false), _ => Err([Er::Cont, Er::Ill, Er::Lin(k)][r.below(3)]) } };
        self.log.push(Ev { kind, vs, flag, ans });
        ans
    }
    fn out(&self, n: usize) -> Vec<f64> {
        let mut r = Rng(self.seed ^ (self.log.len() as u64 * 2654435761));
        (0..n).map(|_| r.val(self.mode)).collect()
    }
}
fn er(e: &nonlinear::Error) -> Er {
    #[allow(unreachable_patterns)]
    match e {
        nonlinear::Error::ConvergenceRecover {} => Er::Rec,
        nonlinear::Error::Continue {} => Er::Cont,
        nonlinear::Error::IllegalInput {} => Er::Ill,
        nonlinear::Error::LinearSetupFailed { source: linear::Error::LUFactFail { col } } => Er::Lin(*col),
        _ => Er::Other,
    }
}
fn ere(e: &ext::Error) -> Er {
    match e {
        ext::Error::ConvergenceRecover {} => Er::Rec,
        ext::Error::Continue {} => Er::Cont,
        ext::Error::IllegalInput {} => Er::Ill,
        ext::Error::LinearSetupFailed { source: ext::LinError::LUFactFail { col } } => Er::Lin(*col),
        _ => Er::Other,
    }
}
fn mk(e: Er) -> nonlinear::Error {
    match e {
        Er::Rec => nonlinear::Error::ConvergenceRecover {},
        Er::Cont => nonlinear::Error::Continue {},
        Er::Ill | Er::Other => nonlinear::Error::IllegalInput {},
        Er::Lin(col) => nonlinear::Error::LinearSetupFailed { source: linear::Error::LUFactFail { col } },
    }
}
fn mke(e: Er) -> ext::Error {
    match e {
        Er::Rec => ext::Error::ConvergenceRecover {},
        Er::Cont => ext::Error::Continue {},
        Er::Ill | Er::Other => ext::Error::IllegalInput {},
        Er::Lin(col) => ext::Error::LinearSetupFailed { source: ext::LinError::LUFactFail { col } },
    }
}
struct Real<'a>(&'a mut Core);
fn vec<D: Dim, S: Storage<f64, D, U1>>(v: &Matrix<f64, D, U1, S>) -> Vec<f64> { (0..v.nrows()).map(|i| v[i]).collect() }
impl<'a, D: DimName> NLProblem<f64, D> for Real<'a> {
    fn sys<SB1, SB2>(&mut self, y: &Matrix<f64, D, U1, SB1>, f: &mut Matrix<f64, D, U1, SB2>) -> Result<(), nonlinear::Error>
    where SB1: Storage<f64, D, U1>, SB2: StorageMut<f64, D, U1> {
        let o = self.0.out(f.nrows());
        for i in 0..o.len() { f[i] = o[i] }
        self.0.ask(0, vec![vec(y)], 0).map(|_| ()).map_err(mk)
    }
    fn setup<SA, SB>(&mut self, y: &Matrix<f64, D, U1, SA>, f: &Matrix<f64, D, U1, SB>, jbad: bool) -> Result<bool, nonlinear::Error>
    where SA: Storage<f64, D, U1>, SB: Storage<f64, D, U1> { self.0.ask(1, vec![vec(y), vec(f)], jbad as usize).map_err(mk) }
    fn solve<SA, SB>(&mut self, y: &Matrix<f64, D, U1, SA>, b: &mut Matrix<f64, D, U1, SB>) -> Result<(), nonlinear::Error>
    where SA: Storage<f64, D, U1>, SB: StorageMut<f64, D, U1> {
        let b0 = vec(b);
        let o = self.0.out(b.nrows());
        for i in 0..o.len() { b[i] = o[i] }
        self.0.ask(2, vec![vec(y), b0], 0).map(|_| ()).map_err(mk)
    }
    fn ctest<NLS, SA, SB, SC>(&mut self, s: &NLS, y: &Matrix<f64, D, U1, SA>, del: &Matrix<f64, D, U1, SB>, tol: f64, w: &Matrix<f64, D, U1, SC>) -> Result<bool, nonlinear::Error>
    where NLS: NLSolver<f64, D>, SA: Storage<f64, D, U1>, SB: Storage<f64, D, U1>, SC: Storage<f64, D, U1> {
        self.0.ask(3, vec![vec(y), vec(del), vec![tol], vec(w)], s.get_cur_iter()).map_err(mk)
    }
}
struct Extr<'a>(&'a mut Core);
fn ve(v: &rt::Vc) -> Vec<f64> { v.0.iter().map(|x| x.0).collect() }
fn vc(v: &[f64]) -> rt::Vc { rt::Vc(v.iter().map(|x| rt::Sc(*x)).collect()) }
impl<'a> ext::NLProblem for Extr<'a> {
    fn sys(&mut self, y: &rt::Vc, f: &mut rt::Vc) -> Result<(), ext::Error> {
        let o = self.0.out(f.len());
        f.0 = vc(&o).0;
        self.0.ask(0, vec![ve(y)], 0).map(|_| ()).map_err(mke)
    }
    fn setup(&mut self, y: &rt::Vc, f: &rt::Vc, jbad: bool) -> Result<bool, ext::Error> { self.0.ask(1, vec![ve(y), ve(f)], jbad as usize).map_err(mke) }
    fn solve(&mut self, y: &rt::Vc, b: &mut rt::Vc) -> Result<(), ext::Error> {
        let b0 = ve(b);
        let o = self.0.out(b.len());
        b.0 = vc(&o).0;
        self.0.ask(2, vec![ve(y), b0], 0).map(|_| ()).map_err(mke)
    }
    fn ctest(&mut self, s: &ext::Newton, y: &rt::Vc, del: &rt::Vc, tol: rt::Sc, w: &rt::Vc) -> Result<bool, ext::Error> {
        self.0.ask(3, vec![ve(y), ve(del), vec![tol.0], ve(w)], s.get_cur_iter()).map_err(mke)
    }
}
/// one solve after another with the same solver: answer, y, counters
#[derive(Debug)]
struct Seen { r: Result<(), Er>, y: Vec<f64>, cnt: [usize; 3] }
struct Job { limit: usize, calls: Vec<(Vec<f64>, Vec<f64>, Vec<f64>, f64, bool)> }
macro_rules! real { ($name:ident, $n:literal) => {
fn $name(j: &Job, c: &mut Core) -> Vec<Seen> {
    let mut s: Newton<f64, Const<$n>> = NLSolver::<f64, Const<$n>>::new(j.limit);
    j.calls.iter().map(|(y0, y, w, tol, ask)| {
        let (v0, mut v, w) = (SVector::<f64, $n>::from_fn(|i, _| y0[i]), SVector::<f64, $n>::from_fn(|i, _| y[i]), SVector::<f64, $n>::from_fn(|i, _| w[i]));
        let r = NLSolver::solve(&mut s, &mut Real(c), &v0, &mut v, &w, *tol, *ask);
        Seen { r: r.map_err(|e| er(&e)), y: vec(&v), cnt: [s.get_num_iters(), s.get_cur_iter(), s.get_num_conv_fails()] }
    }).collect()
}
} }
real!(real1, 1);
real!(real2, 2);
real!(real3, 3);
fn extr(n: usize, j: &Job, c: &mut Core) -> Vec<Seen> {
    rt::set_dim(n);
    let mut s = ext::Newton::new(j.limit);
    j.calls.iter().map(|(y0, y, w, tol, ask)| {
        let mut v = vc(y);
        let r = s.solve(&mut Extr(c), &vc(y0), &mut v, &vc(w), rt::Sc(*tol), *ask);
        Seen { r: r.map_err(|e| ere(&e)), y: ve(&v), cnt: [s.get_num_iters(), s.get_cur_iter(), s.get_num_conv_fails()] }
    }).collect()
}
fn main() {
    let mut run = start();
    let mut r = Rng(run.seed * 83);
    while run.open() {
        let n = 1 + r.below(3);
        let mode = [1, 1, 0, 3][r.below(4)];
        let job = Job { limit: r.below(5), calls: (0..1 + r.below(3)).map(|_| {
            let mut v = || (0..n).map(|_| r.val(mode)).collect::<Vec<f64>>();
            let (a, b, c) = (v(), v(), v());
            (a, b, c, r.val(1), r.below(2) == 0)
        }).collect() };
        let core = Core { seed: r.next(), log: vec![], bias: r.below(9), mode };
        let (mut ca, mut cb) = (core.clone(), core);
        let a = guarded(|| match n { 1 => real1(&job, &mut ca), 2 => real2(&job, &mut ca), _ => real3(&job, &mut ca) });
        let b = guarded(|| extr(n, &job, &mut cb));
        let same_log = ca.log.len() == cb.log.len() && ca.log.iter().zip(&cb.log).all(|(x, y)| x.kind == y.kind && x.flag == y.flag && x.vs.len() == y.vs.len() && x.vs.iter().zip(&y.vs).all(|(p, q)| sames(p, q)));
        let same_end = match (&a, &b) {
            (Ok(a), Ok(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.r == y.r && sames(&x.y, &y.y) && x.cnt == y.cnt),
            (Err(()), Err(())) => true,
            _ => false,
        };
        if !same_log || !same_end { run.differs(format!("limit {} calls {:?}: crate asked {:?} and ended {:?}; extracted text asked {:?} and ended {:?}", job.limit, job.calls, ca.log, a, cb.log, b)) }
    }
    run.done();
}
