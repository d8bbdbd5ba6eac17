use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct PanicInfo {
    pub msg: String,
    pub loc: String,
    /// a frame of the code under test was on the stack
    pub in_repo: bool,
}
thread_local! {
    static LAST: RefCell<PanicInfo> = RefCell::new(PanicInfo::default());
    static CHEAP: RefCell<bool> = RefCell::new(false);
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let cheap = CHEAP.with(|c| *c.borrow());
        let in_repo = loc.contains("/repo/packages/") || (!cheap && format!("{}", std::backtrace::Backtrace::force_capture()).contains("/repo/packages/"));
        LAST.with(|l| *l.borrow_mut() = PanicInfo { msg, loc, in_repo });
    }));
}
/// Run code that may abort by panicking; the abort is an observation, not a verdict.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    let old = CHEAP.with(|c| std::mem::replace(&mut *c.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CHEAP.with(|c| *c.borrow_mut() = old);
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub struct Ledger {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    sample_at: u64,
    known: Vec<(String, String)>,
    pub viol: Vec<(String, String)>,
    known_hit: BTreeMap<String, String>,
    pub budget: Duration,
    pub rule: String,
    pub assumptions: Vec<String>,
    minimums: Vec<(String, u64)>,
    verif: String,
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
const MAX_VIOL: usize = 8;
/// thrown to stop a workload early once enough violations are on record
struct Enough;

impl Ledger {
    pub fn new(id: &str) -> Ledger {
        let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif)) {
            for l in t.lines() {
                // known: property=<id> key=<key> <description>
                if let Some(r) = l.strip_prefix("known: property=") {
                    let mut it = r.splitn(3, ' ');
                    let (p, k, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                    if p == id {
                        if let Some(k) = k.strip_prefix("key=") {
                            known.push((k.to_string(), d.to_string()));
                        }
                    }
                }
            }
        }
        let secs = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 240 });
        Ledger { id: id.into(), thorough, seed, start: Instant::now(), evals: 0, distinct: HashSet::new(), counters: BTreeMap::new(), samples: vec![], sample_at: 1, known, viol: vec![], known_hit: BTreeMap::new(), budget: Duration::from_secs(secs), rule: String::new(), assumptions: vec![], minimums: vec![], verif }
    }
    /// scale an iteration count with the tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.into()).or_insert(0) += 1;
    }
    pub fn addc(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_insert(0) += n;
    }
    /// record one judged case; `key` identifies it, `nontrivial` says whether it counts
    pub fn case<K: Hash + ?Sized>(&mut self, key: &K, nontrivial: bool, show: impl FnOnce() -> String) {
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            if self.distinct.len() < 4_000_000 {
                self.distinct.insert(h.finish());
            }
        }
        if self.evals == self.sample_at && self.samples.len() < 12 {
            let mut s = show();
            if s.len() > 600 {
                s.truncate(600);
            }
            self.samples.push(s);
            self.sample_at = self.sample_at * 3 + 1;
        }
    }
    pub fn require(&mut self, counter: &str, min: u64) {
        self.minimums.push((counter.into(), min));
    }
    /// a violation, identified by `key` for the known-findings file
    pub fn violation(&mut self, key: &str, detail: &str) {
        if let Some((_, d)) = self.known.iter().find(|(k, _)| k == key) {
            let d = d.clone();
            self.known_hit.entry(key.into()).or_insert(d);
            self.count(&format!("known_finding:{}", key));
            return;
        }
        self.viol.push((key.into(), detail.into()));
        if self.viol.len() >= MAX_VIOL {
            std::panic::resume_unwind(Box::new(Enough));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.violation(key, &d);
        }
        ok
    }
    /// Run code under test that must not panic.
    pub fn must<T>(&mut self, key: &str, detail: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match attempt(f) {
            Ok(v) => Some(v),
            Err(p) => {
                let d = format!("aborted: {} at {} on {}", p.msg, p.loc, detail());
                self.violation(key, &d);
                None
            }
        }
    }
    /// Runs the whole workload, writes evidence, prints verdict lines, and exits.
    pub fn run(mut self, f: impl FnOnce(&mut Ledger)) -> ! {
        install_panic_hook();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut self)));
        let mut harness_error = None;
        if let Err(e) = r {
            if e.downcast_ref::<Enough>().is_none() {
                let p = LAST.with(|l| l.borrow().clone());
                if p.in_repo {
                    let d = format!("code under test aborted outside a tolerated place: {} at {}", p.msg, p.loc);
                    self.viol.push(("unexpected-abort".into(), d));
                } else if p.loc.contains("/subtle-") && ["C01", "C02", "C14", "C15", "C16", "C17", "C18"].contains(&self.id.as_str()) {
                    // the checks unwrap an optional result only where the value asked for exists
                    let d = format!("an operation whose result exists reported none ({} at {})", p.msg.replace('\n', " "), p.loc);
                    self.viol.push(("no-value".into(), d));
                } else {
                    harness_error = Some(format!("{} at {}", p.msg, p.loc));
                }
            }
        }
        if self.viol.is_empty() && harness_error.is_none() {
            for (c, m) in &self.minimums {
                let v = self.counters.get(c).copied().unwrap_or(0);
                if v < *m {
                    harness_error = Some(format!("inconclusive: monitor saw {}={} but needs {}", c, v, m));
                }
            }
        }
        let mut lines = vec![];
        for (i, (k, d)) in self.viol.iter().enumerate() {
            let path = format!("{}/evidence/replay-{}{}-{}.txt", self.verif, self.id, if std::env::var("VERIF_EVIDENCE").is_ok() { "-part" } else { "" }, i);
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
            let _ = std::fs::write(&path, format!("property={}\nseed={}\ntier={}\nkey={}\n{}\nreplay: VERIF_SEED={} VERIF_TIER={} {}/check {}\n", self.id, self.seed, if self.thorough { "thorough" } else { "quick" }, k, d, self.seed, if self.thorough { "thorough" } else { "quick" }, self.verif, self.id));
            lines.push(format!("VIOLATION property={} replay={}", self.id, path));
            let mut s = d.clone();
            s.truncate(s.char_indices().nth(500).map(|x| x.0).unwrap_or(s.len()));
            println!("  [{}] {}", k, s);
        }
        for (k, d) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, d, k);
        }
        let mut cov = vec![format!("\"evaluations\":{}", self.evals), format!("\"distinct_nontrivial\":{}", self.distinct.len()), format!("\"rule\":{}", jstr(&self.rule)), format!("\"samples\":[{}]", self.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))];
        let obs = self.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
        cov.push(format!("\"observed\":{{{}}}", obs));
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            jstr(&self.id),
            jstr(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            cov.join(","),
            self.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            self.start.elapsed().as_secs_f64(),
            self.viol.len()
        );
        let part = std::env::var("VERIF_EVIDENCE").unwrap_or(format!("{}/evidence/{}.json", self.verif, self.id));
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
        if let Err(e) = std::fs::write(&part, ev) {
            println!("cannot write evidence {}: {}", part, e);
        }
        println!("{}: {} evaluations, {} distinct non-trivial, {:.1}s", self.id, self.evals, self.distinct.len(), self.start.elapsed().as_secs_f64());
        for l in &lines {
            println!("{}", l);
        }
        if !lines.is_empty() {
            std::process::exit(1);
        }
        if let Some(h) = harness_error {
            println!("HARNESS-ERROR {}: {}", self.id, h);
            std::process::exit(3);
        }
        std::process::exit(0);
    }
}
