//! Newton with the dense solver on affine residuals, in exact arithmetic: every iterate tested must be a root.
use crate::rat::Rat;
use crate::util::*;
use linear::{Dense, LSolver};
use nalgebra::{Const, DimName, DimNameAdd, Matrix, SMatrix, SVector, Storage, StorageMut, U1};
use nonlinear::{Error, NLProblem, NLSolver, Newton};

struct Affine<const N: usize> {
    dense: Dense<Const<N>>,
    j: SMatrix<Rat, N, N>,
    lu: SMatrix<Rat, N, N>,
    c: SVector<Rat, N>,
    ready: bool,
    r: Rng,
    tests: Vec<Vec<Rat>>,
    calls: usize,
    flaky: usize,
}
impl<const N: usize> Affine<N> {
    fn root(&self, y: &[Rat]) -> bool {
        (0..N).all(|i| (0..N).fold(self.c[i], |s, k| s + self.j[(i, k)] * y[k]) == Rat::int(0))
    }
    fn trouble(&mut self) -> Result<(), Error> {
        self.calls += 1;
        if self.calls > 200 {
            std::panic::panic_any("event cap".to_string());
        }
        if self.r.below(100) >= self.flaky {
            return Ok(());
        }
        Err(if self.r.below(4) == 0 { Error::IllegalInput {} } else { Error::ConvergenceRecover {} })
    }
}
impl<const N: usize> NLProblem<Rat, Const<N>> for Affine<N> {
    fn sys<A, B>(&mut self, y: &Matrix<Rat, Const<N>, U1, A>, f: &mut Matrix<Rat, Const<N>, U1, B>) -> Result<(), Error>
    where
        A: Storage<Rat, Const<N>, U1>,
        B: StorageMut<Rat, Const<N>, U1>,
    {
        for i in 0..N {
            f[i] = (0..N).fold(self.c[i], |s, k| s + self.j[(i, k)] * y[k]);
        }
        self.trouble()
    }
    fn setup<A, B>(&mut self, _y: &Matrix<Rat, Const<N>, U1, A>, _f: &Matrix<Rat, Const<N>, U1, B>, _jbad: bool) -> Result<bool, Error>
    where
        A: Storage<Rat, Const<N>, U1>,
        B: Storage<Rat, Const<N>, U1>,
    {
        self.trouble()?;
        self.ready = false;
        self.lu = self.j;
        LSolver::<Rat, Const<N>>::setup(&mut self.dense, &mut self.lu).map_err(|_| Error::IllegalInput {})?;
        self.ready = true;
        Ok(self.r.coin())
    }
    fn solve<A, B>(&mut self, _y: &Matrix<Rat, Const<N>, U1, A>, b: &mut Matrix<Rat, Const<N>, U1, B>) -> Result<(), Error>
    where
        A: Storage<Rat, Const<N>, U1>,
        B: StorageMut<Rat, Const<N>, U1>,
    {
        self.trouble()?;
        if !self.ready {
            return Err(Error::ConvergenceRecover {});
        }
        let rhs = SVector::<Rat, N>::from_fn(|i, _| b[i]);
        LSolver::<Rat, Const<N>>::solve(&self.dense, &self.lu, b, &rhs, Rat::int(0)).map_err(|_| Error::IllegalInput {})
    }
    fn ctest<NLS, A, B, C>(&mut self, _s: &NLS, y: &Matrix<Rat, Const<N>, U1, A>, _del: &Matrix<Rat, Const<N>, U1, B>, _tol: Rat, _w: &Matrix<Rat, Const<N>, U1, C>) -> Result<bool, Error>
    where
        NLS: NLSolver<Rat, Const<N>>,
        A: Storage<Rat, Const<N>, U1>,
        B: Storage<Rat, Const<N>, U1>,
        C: Storage<Rat, Const<N>, U1>,
    {
        self.tests.push((0..N).map(|i| y[i]).collect());
        self.trouble()?;
        Ok(self.r.below(3) > 0)
    }
}
fn small(r: &mut Rng) -> Rat {
    match r.below(8) {
        0 | 1 => Rat::int(0),
        2 => Rat::new(r.below(7) as i128 - 3, 1 + r.below(3) as i128),
        _ => Rat::int(r.below(9) as i64 - 4),
    }
}
fn one<const N: usize>(seed: u64) -> Outcome
where
    Const<N>: DimName + DimNameAdd<Const<N>>,
{
    let mut r = Rng::new(seed);
    let j = SMatrix::<Rat, N, N>::from_fn(|_, _| small(&mut r));
    // sometimes the constant and the vectors are tiny
    let unit = if r.below(4) == 0 { Rat::new(1, 1i128 << [30, 53, 60][r.below(3)]) } else { Rat::int(1) };
    let c = SVector::<Rat, N>::from_fn(|_, _| small(&mut r) * unit);
    let lim = r.below(4);
    let mut s = <Newton<Rat, Const<N>> as NLSolver<Rat, Const<N>>>::new(lim);
    let flaky = [0, 5, 20][r.below(3)];
    let mut p = Affine { dense: <Dense<Const<N>> as LSolver<Rat, Const<N>>>::new(), j, lu: j, c, ready: false, r: Rng::new(seed ^ 77), tests: vec![], calls: 0, flaky };
    let mut reached = false;
    for k in 0..1 + r.below(3) {
        let y0 = SVector::<Rat, N>::from_fn(|_, _| small(&mut r) * unit);
        let mut y = SVector::<Rat, N>::from_fn(|_, _| small(&mut r));
        let w = SVector::<Rat, N>::from_fn(|_, _| Rat::int(1));
        let ask = k == 0 || r.coin();
        p.tests.clear();
        let ret = s.solve(&mut p, &y0, &mut y, &w, Rat::int(1), ask);
        for (q, t) in p.tests.iter().enumerate() {
            reached = true;
            if crate::rat::poisoned() {
                return Outcome::Skip;
            }
            if !p.root(t) {
                return Outcome::Fail(format!("solve {}: iterate {} shown to the convergence test is not a root: {:?} for J = {:?} (columns), c = {:?}, y0 = {:?}", k, q, t, j.as_slice(), c.as_slice(), y0.as_slice()));
            }
        }
        if ret.is_ok() && !crate::rat::poisoned() && !p.root(y.as_slice()) {
            return Outcome::Fail(format!("solve {} succeeded with {:?}, not a root, for J = {:?} (columns), c = {:?}", k, y.as_slice(), j.as_slice(), c.as_slice()));
        }
    }
    if reached { Outcome::Ok } else { Outcome::Trivial }
}
pub fn run(run: &mut Run) {
    let seed = run.seed;
    run.family("affine");
    let max = if run.thorough { 3_000_000 } else { 60_000u64 };
    for i in 0..max {
        if !run.open() {
            break;
        }
        let s = seed.wrapping_mul(1 << 32).wrapping_add(i);
        let n = 1 + (i % 4);
        run.case(|| format!("affine residual of size {}, case seed {}", n, s), || match n { 1 => one::<1>(s), 2 => one::<2>(s), 3 => one::<3>(s), _ => one::<4>(s) });
    }
}
