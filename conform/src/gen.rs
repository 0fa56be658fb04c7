// inputs, comparison and the run-time limit
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    /// mode 0: small integers with ties and zeros; 1: distinct values; 2: many magnitudes; 3: any bit pattern or special value
    pub fn val(&mut self, mode: usize) -> f64 {
        match mode {
            0 => [0.0, 0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 0.5][self.below(8)],
            1 => (self.below(2_000_001) as f64 - 1_000_000.0) / 977.0,
            2 => (self.below(2001) as f64 - 1000.0) * 10f64.powi(self.below(40) as i32 - 20),
            _ => match self.below(4) {
                0 => [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1.0, -1.0][self.below(10)],
                1 => f64::from_bits(self.next()),
                _ => self.below(9) as f64 - 4.0,
            },
        }
    }
}
/// not-a-number is one value
pub fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
pub fn sames(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y)) }
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }
pub struct Run { pub cases: u64, pub deadline: Instant, pub seed: u64 }
pub fn start() -> Run {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let secs: f64 = a[2].parse().unwrap();
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs_f64(secs + 8.0));
        println!("hang");
        std::process::exit(3);
    });
    Run { cases: 0, deadline: Instant::now() + Duration::from_secs_f64(secs), seed: a[1].parse().unwrap() }
}
impl Run {
    pub fn open(&mut self) -> bool { self.cases += 1; self.cases % 32 != 0 || Instant::now() < self.deadline }
    pub fn differs(&self, what: String) -> ! { println!("differs {}", what.replace('\n', " ")); std::process::exit(1) }
    pub fn done(&self) { println!("agrees {}", self.cases) }
}
