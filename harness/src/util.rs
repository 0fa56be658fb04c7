use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// what happened on one case
pub enum Outcome {
    Skip,
    Trivial,
    Ok,
    Fail(String),
}

pub struct Run {
    pub pid: String,
    pub evals: u64,
    pub nontrivial: u64,
    pub skipped: u64,
    pub samples: Vec<String>,
    pub families: Vec<(String, u64, bool)>,
    pub fail: Option<(String, String)>,
    pub deadline: Instant,
    pub replay: Option<(String, u64)>,
    pub seed: u64,
    pub thorough: bool,
    fam: String,
    idx: u64,
    seen: std::collections::HashSet<u64>,
}

static STARTED: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

impl Run {
    pub fn new(pid: &str, budget: f64, seed: u64, thorough: bool, replay: Option<(String, u64)>) -> Run {
        std::panic::set_hook(Box::new(|_| {}));
        let p = pid.to_string();
        let t0 = Instant::now();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = STARTED.load(Ordering::SeqCst);
            if s != 0 && (t0.elapsed().as_millis() as u64).saturating_sub(s) > 8000 {
                let c = CURRENT.lock().map(|g| g.clone()).unwrap_or_default();
                println!("{{\"pid\":{},\"hang\":{}}}", esc(&p), esc(&c));
                std::process::exit(3);
            }
        });
        T0.with(|t| t.set(Some(t0)));
        Run {
            pid: pid.into(), evals: 0, nontrivial: 0, skipped: 0, samples: vec![], families: vec![], fail: None,
            deadline: t0 + Duration::from_secs_f64(budget), replay, seed, thorough, fam: String::new(), idx: 0, seen: Default::default(),
        }
    }
    pub fn family(&mut self, name: &str) {
        self.fam = name.into();
        self.idx = 0;
        self.families.push((name.into(), 0, true));
    }
    /// false when the family was cut short
    pub fn open(&mut self) -> bool {
        if self.fail.is_some() {
            return false;
        }
        if self.evals % 64 == 0 && Instant::now() > self.deadline {
            self.families.last_mut().unwrap().2 = false;
            return false;
        }
        true
    }
    pub fn case<D: Fn() -> String, F: FnOnce() -> Outcome>(&mut self, desc: D, f: F) {
        let i = self.idx;
        self.idx += 1;
        if let Some((fm, ix)) = &self.replay {
            if *fm != self.fam || *ix != i {
                return;
            }
        }
        self.evals += 1;
        self.families.last_mut().unwrap().1 += 1;
        *CURRENT.lock().unwrap() = format!("{} case {}:{}", desc(), self.fam, i);
        STARTED.store(T0.with(|t| t.get().unwrap()).elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        crate::rat::clear();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        STARTED.store(0, Ordering::SeqCst);
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if crate::panic_counts(&self.pid) { Outcome::Fail(format!("panicked: {}", m)) } else { Outcome::Skip }
            }
        };
        let r = if crate::rat::poisoned() { Outcome::Skip } else { r };
        match r {
            Outcome::Skip => self.skipped += 1,
            Outcome::Trivial => {}
            Outcome::Ok => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                desc().hash(&mut h);
                if self.seen.insert(h.finish()) {
                    self.nontrivial += 1;
                }
                if self.samples.len() < 3 && self.nontrivial % 7 == 1 {
                    self.samples.push(format!("{}:{} {}", self.fam, i, desc()));
                }
            }
            Outcome::Fail(m) => {
                if self.fail.is_none() {
                    self.fail = Some((format!("{}:{}", self.fam, i), format!("{} -- {}", m, desc())));
                }
            }
        }
    }
    pub fn report(&self) {
        let fam: Vec<String> = self.families.iter().map(|(n, c, full)| format!("{{\"family\":{},\"cases\":{},\"complete\":{}}}", esc(n), c, full)).collect();
        let smp: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let fail = match &self.fail {
            Some((c, m)) => format!("{{\"case\":{},\"what\":{}}}", esc(c), esc(m)),
            None => "null".into(),
        };
        println!("{{\"pid\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"skipped\":{},\"families\":[{}],\"samples\":[{}],\"fail\":{}}}",
            esc(&self.pid), self.evals, self.nontrivial, self.skipped, fam.join(","), smp.join(","), fail);
    }
}
thread_local! { static T0: std::cell::Cell<Option<Instant>> = std::cell::Cell::new(None); }
