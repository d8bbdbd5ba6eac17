//! C12: proofs are freshly randomised. Many proofs of few statements, made concurrently, one after the other
//! and in separate processes; everything a proof reveals about the witness goes into one ledger, in which no
//! value may occur twice or be the unblinded zero.
use libspartan::verif_hooks::random::RandomTape;
use merlin::{tap_start, tap_take, Event, Transcript};
use num_bigint_dig::BigUint;
use num_traits::Zero;
use serde_json::Value;
use spartanchk::*;
use std::collections::HashMap;
use std::time::Instant;
use vcommon::*;

/// the part of the proof that depends on the witness
fn masked(v: &Value) -> &Value {
    v.get("r1cs_sat_proof").unwrap_or(v)
}
struct Seen {
    leaves: Vec<(String, Vec<u8>)>,
    /// private transcripts: what seeded them, what was drawn
    seeds: Vec<Vec<u8>>,
    draws: Vec<Vec<u8>>,
    v: V,
}
fn one(st: &St, w: Which) -> Seen {
    tap_start();
    let mut t = Transcript::new(b"fresh");
    let id = t.tap_id();
    let p = prove(st, w, &mut t);
    let log = tap_take();
    let j = p.json();
    let m = masked(&j);
    let leaves = tree(m).leaves.iter().map(|p| (path_str(p), leaf_bytes(get(m, p)))).collect();
    let (mut seeds, mut draws) = (vec![], vec![]);
    for (i, e) in log {
        if i != id {
            match e {
                Event::Append(_, b) => seeds.push(b),
                Event::Challenge(_, b) => draws.push(b),
                _ => {}
            }
        }
    }
    let v = verify(st, w, &p, &mut Transcript::new(b"fresh"));
    Seen { leaves, seeds, draws, v }
}
fn systems(seed: u64, n: usize) -> Vec<Sys> {
    let mut r = Rng::new(seed, "fresh");
    (0..n)
        .map(|i| {
            let (nc, nv, ni) = match i {
                0 => (1, 1, 0),
                1 => (4, 8, 1),
                3 => (2, 1030, 2),
                _ => (r.range(1, 9), r.range(1, 20), r.range(0, 3)),
            };
            let d = r.range(1, 4);
            if i % 3 == 1 {
                // nothing but zeros: every value that is sent is blinding alone
                let mut s = gen_sys(&mut r, nc, nv, ni, d, Wit::AllZero);
                s.inputs = vec![BigUint::zero(); ni];
                for m in s.m.iter_mut() {
                    m.retain(|e| e.1 != nv);
                }
                s
            } else if i % 3 == 2 {
                gen_sys(&mut r, nc, nv, ni, d, Wit::AllEqual)
            } else {
                gen_sys(&mut r, nc, nv, ni, d, Wit::Random)
            }
        })
        .collect()
}
fn trivial(b: &[u8]) -> bool {
    b.iter().all(|x| *x == 0) || (b.len() == 32 && b[0] == 1 && b[1..].iter().all(|x| *x == 0))
}
fn emit() {
    let s = systems(77, 2);
    for (i, sys) in s.into_iter().enumerate() {
        let w = if i == 0 { Which::N } else { Which::S };
        let st = St::new(sys, w);
        for (p, b) in one(&st, w).leaves {
            println!("leaf {} {:?}{} {}", i, w, p, hex(&b));
        }
    }
}
/// one proof in a process whose operating system randomness is a given stream with one bit changed
fn entropy_run(kind: &str, flip: Option<usize>) {
    let mut script = Rng::new(4242, "entropy").bytes(1 << 16);
    if let Some(b) = flip {
        script[b / 8] ^= 1 << (b % 8);
    }
    getrandom::tap_script(script);
    let w = if kind == "N" { Which::N } else { Which::S };
    let st = St::new(systems(78, 1).remove(0), w);
    for (p, b) in one(&st, w).leaves {
        println!("leaf {} {}", p, hex(&b));
    }
    println!("drawn {}", getrandom::tap_drawn());
}
/// what a proof reveals must depend on all of 32 bytes of the system's randomness or more
fn entropy(l: &mut Ledger, kind: &'static str, most: usize) {
    let exe = std::env::current_exe().unwrap();
    let run = |flip: String| -> Option<(Vec<String>, usize)> {
        let o = std::process::Command::new(&exe).args(["entropy", kind, &flip]).output().ok()?;
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        let n = t.lines().find_map(|x| x.strip_prefix("drawn "))?.parse().ok()?;
        Some((t.lines().filter(|x| x.starts_with("leaf ")).map(String::from).collect(), n))
    };
    let (Some(a), Some(b)) = (run("-".into()), run("-".into())) else {
        l.count("emit_failed");
        return;
    };
    l.addc(&format!("entropy_bytes_{kind}"), a.1 as u64);
    l.check(a.1 >= 32, "entropy", || format!("the whole process took {} bytes from the system's random generator for a {kind} proof", a.1));
    if a.1 < 32 {
        return;
    }
    if a.0 != b.0 {
        // something else is mixed in: the dependence cannot be watched
        l.count("entropy_not_repeatable");
        return;
    }
    let bits = (a.1 * 8).min(1 << 19);
    let pick: Vec<usize> = if bits <= most { (0..bits).collect() } else { (0..most).map(|i| i * bits / most).collect() };
    let deadline = Instant::now() + l.budget;
    let runs = par(pick.len(), deadline, |i| run(pick[i].to_string()));
    let mut seen: HashMap<String, usize> = a.0.iter().map(|x| (x.clone(), usize::MAX)).collect();
    let (mut done, mut felt) = (0, 0);
    for (i, x) in runs.into_iter().enumerate() {
        let Some(Some((leaves, _))) = x else { continue };
        done += 1;
        let fresh: Vec<&String> = leaves.iter().filter(|x| !seen.contains_key(*x)).collect();
        if fresh.is_empty() {
            continue; // this bit changes nothing
        }
        felt += 1;
        // a short seed is behind everything; where randomness is drawn value by value, each bit has its own reach
        if fresh.len() < leaves.len() && a.1 <= 256 {
            let same: Vec<&String> = leaves.iter().filter(|x| seen.contains_key(*x)).take(3).collect();
            let lone = same.iter().any(|x| x.rsplit(' ').next().unwrap().trim_start_matches("01").contains(|c| c != '0'));
            l.check(!lone, "entropy-partly", || format!("with bit {} of the system's randomness changed a {kind} proof still holds {:?}", pick[i], same));
        }
        for x in leaves {
            seen.insert(x, i);
        }
    }
    // and everything depends on some of it
    let path = |x: &String| x.rsplit_once(' ').map(|(p, _)| p.to_string()).unwrap_or_default();
    for x in &a.0 {
        let p = path(x);
        let moved = seen.keys().any(|y| y != x && path(y) == p);
        let lone = x.rsplit(' ').next().unwrap().trim_start_matches("01").contains(|c| c != '0');
        l.check(moved || !lone || felt < 100, "entropy-still", || format!("whichever bit of the system's randomness changes, a {kind} proof holds {x}"));
    }
    l.addc(&format!("entropy_bits_felt_{kind}"), felt);
    if done as usize == pick.len() {
        // sampled: the same share of all bits
        let all = felt as usize * bits / pick.len();
        l.check(all >= 240, "entropy-narrow", || format!("only about {all} of {bits} bits of the system's randomness change a {kind} proof"));
        l.case(&("entropy", kind), true, || format!("{felt} of {done} single-bit changes of the system's randomness gave {felt} different proofs"));
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("entropy") {
        let a: Vec<String> = std::env::args().collect();
        return entropy_run(&a[2], a[3].parse().ok());
    }
    if std::env::args().nth(1).as_deref() == Some("emit") {
        return emit();
    }
    let mut l = Ledger::new("C12");
    l.budget = std::time::Duration::from_secs(if l.thorough { 1200 } else { 240 });
    l.run(|l| {
        l.rule = "one case per proof; every commitment and response of its witness-dependent part is compared with those of all other proofs, with all others in the same proof and with the unblinded zero".into();
        let deadline = Instant::now() + l.budget;
        let sys = systems(l.seed, l.n(9, 60));
        let reps = l.n(3, 6);
        // statements first, then all proofs at once, the repetitions of one statement side by side
        let sts = par(sys.len() * 2, deadline, |i| attempt(|| St::new(sys[i / 2].clone(), if i % 2 == 0 { Which::N } else { Which::S })));
        let jobs: Vec<(usize, usize)> = (0..sts.len()).flat_map(|i| (0..reps).map(move |k| (i, k))).collect();
        let res = par(jobs.len(), deadline, |k| {
            let i = jobs[k].0;
            match &sts[i] {
                Some(Ok(st)) => Some(attempt(|| one(st, if i % 2 == 0 { Which::N } else { Which::S }))),
                _ => None,
            }
        });
        let mut ledger: HashMap<Vec<u8>, String> = HashMap::new();
        let mut seeds: HashMap<Vec<u8>, String> = HashMap::new();
        let mut draws: HashMap<Vec<u8>, String> = HashMap::new();
        let mut short_draws: HashMap<usize, String> = HashMap::new();
        for (k, x) in res.into_iter().enumerate() {
            let (i, rep) = jobs[k];
            let w = if i % 2 == 0 { "nizk" } else { "snark" };
            let sh = format!("{} proof {} of statement {} ({})", w, rep, i / 2, sys[i / 2].show());
            let s = match x {
                Some(Some(Ok(s))) => s,
                Some(Some(Err(e))) => {
                    println!("note: {} aborted: {:?}", sh, e);
                    l.count("aborted");
                    continue;
                }
                _ => {
                    l.count("skipped");
                    continue;
                }
            };
            if s.v != V::Accept {
                l.count("not_accepted");
                continue;
            }
            for (p, b) in &s.leaves {
                l.count("values");
                let class: String = p.chars().filter(|c| !c.is_ascii_digit()).collect();
                l.check(!trivial(b), &format!("unblinded:{class}"), || format!("{p} is {} in {sh}", hex(b)));
                if trivial(b) {
                    continue;
                }
                let old = ledger.insert(b.clone(), format!("{p} in {sh}"));
                l.check(old.is_none(), &format!("repeated:{class}"), || format!("{} equals {p} in {sh}: {}", old.clone().unwrap(), hex(b)));
            }
            for b in &s.seeds {
                if b.len() < 16 {
                    continue;
                }
                l.count("tape_seeds");
                let old = seeds.insert(b.clone(), sh.clone());
                l.check(old.is_none(), "tape-seed-repeats", || format!("the random tape is seeded alike in {} and {sh}", old.clone().unwrap()));
            }
            for b in &s.draws {
                if b.len() < 32 {
                    short_draws.insert(b.len(), sh.clone());
                }
                l.count("tape_draws");
                let old = draws.insert(b.clone(), sh.clone());
                l.check(old.is_none(), "tape-draw-repeats", || format!("the random tape gives the same value in {} and {sh}", old.clone().unwrap()));
            }
            l.case(&sh, true, || format!("{} values of {}", s.leaves.len(), sh));
        }
        // and across processes
        let exe = std::env::current_exe().unwrap();
        let runs: Vec<Vec<String>> = (0..2)
            .map(|_| {
                let o = std::process::Command::new(&exe).arg("emit").output().unwrap();
                String::from_utf8_lossy(&o.stdout).lines().filter(|x| x.starts_with("leaf ")).map(String::from).collect()
            })
            .collect();
        if runs.iter().all(|r| !r.is_empty()) {
            for a in &runs[0] {
                l.check(!runs[1].contains(a), "repeated-across-processes", || format!("two processes made proofs with the same {a}"));
                l.count("cross_process_values");
            }
            l.case("processes", true, || format!("{} values of proofs made by two processes", runs[0].len()));
        } else {
            l.count("emit_failed");
        }
        // every bit of what seeds the private tape is sometimes 0 and sometimes 1
        let mut spread: HashMap<usize, (u64, Vec<[u32; 2]>)> = HashMap::new();
        for b in seeds.keys() {
            let e = spread.entry(b.len()).or_insert((0, vec![[0; 2]; b.len() * 8]));
            e.0 += 1;
            for i in 0..b.len() * 8 {
                e.1[i][(b[i / 8] >> (i % 8) & 1) as usize] += 1;
            }
        }
        for (n, (k, v)) in &spread {
            if *k < 45 || *n < 32 {
                continue;
            }
            let stuck = v.iter().filter(|x| x[0] == 0 || x[1] == 0).count();
            l.addc("tape_seed_bits_moving", (v.len() - stuck) as u64);
            l.check(v.len() - stuck >= 248, "tape-seed-narrow", || format!("of the {} bits that seed the random tape {stuck} never change in {k} proofs", n * 8));
        }
        // what the tape gives is spread over the whole field, and never the same twice
        for (k, d) in &short_draws {
            l.violation("tape-draw-short", &format!("the random tape drew {k} bytes for a value in {d}"));
        }
        let mut given = HashMap::new();
        for (how, many) in [("random_scalar", 0), ("random_vector", 1), ("random_vector", 5)] {
            let mut spread = Spread::new();
            for round in 0..l.n(12, 60) {
                let mut tape = RandomTape::new(b"proof");
                for k in 0..10 {
                    let x = if many == 0 { vec![tape.random_scalar(b"x")] } else { tape.random_vector(b"x", many) };
                    l.check(x.len() == many.max(1), "tape-draw-count", || format!("{how} of {many} gave {} values", x.len()));
                    for (i, v) in x.iter().enumerate() {
                        let b = v.to_bytes();
                        spread.add(&b);
                        let old = given.insert(b, format!("{how} {many}: value {i} of draw {k} of tape {round}"));
                        l.check(old.is_none(), "tape-draw-repeats", || format!("{} was also {}", old.clone().unwrap(), given[&b]));
                        l.count("tape_values");
                    }
                }
            }
            l.check(spread.stuck() == 0, "tape-draw-narrow", || format!("{} of 256 bits never change in {} values by {how}", spread.stuck(), spread.n));
        }
        entropy(l, "N", l.n(512, 1024));
        entropy(l, "S", l.n(96, 512));
        l.require("values", 500);
    })
}
