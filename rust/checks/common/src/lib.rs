//! Shared by all check programs: seeded randomness, exact integers, the verdict ledger
//! (violations, known findings, evidence) and panic attribution.
pub mod big;
pub mod poseidon;
pub mod ledger;
pub mod rng;
pub use big::*;
pub use ledger::*;
pub use rng::*;

/// f(0..n) on up to eight threads, none started after the deadline
pub fn par<R: Send>(n: usize, deadline: std::time::Instant, f: impl Fn(usize) -> R + Sync) -> Vec<Option<R>> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Option<R>>> = (0..n).map(|_| std::sync::Mutex::new(None)).collect();
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n || std::time::Instant::now() > deadline {
                        break;
                    }
                    let r = f(i);
                    *out[i].lock().unwrap() = Some(r);
                })
                .unwrap();
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}
