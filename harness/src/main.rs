//! Runs the real crates on generated cases and compares with independent oracles.
mod comp;
mod lin;
mod newton;
mod norm;
mod rat;
mod util;
use util::*;

/// a panic is itself a violation of these properties; elsewhere the case is skipped
pub fn panic_counts(pid: &str) -> bool {
    !matches!(pid, "C01" | "C02" | "C08" | "C09" | "C11" | "C12" | "C13" | "C15")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let pid = a[1].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let thorough = a.iter().any(|x| x == "--thorough");
    let replay = get("--case").and_then(|c| c.rsplit_once(':').map(|(f, i)| (f.to_string(), i.parse().unwrap())));
    let mut run = Run::new(&pid, budget, seed, thorough, replay);
    match pid.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => lin::run(&mut run),
        "C08" | "C09" | "C10" | "C11" | "C12" | "C13" => newton::run(&mut run),
        "C15" => comp::run(&mut run),
        "C14" => norm::run(&mut run),
        _ => panic!("no such property"),
    }
    run.report();
}
