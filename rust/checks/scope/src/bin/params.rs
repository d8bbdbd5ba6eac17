//! C30: size helpers and the parameter tool.
#![allow(dead_code)]
use num_bigint_dig::BigUint;
use num_traits::One;
use vcommon::*;
#[path = "/repo/packages/Spartan-secq/src/math.rs"]
mod math;
use math::Math;

fn words(v: &BigUint) -> Vec<u64> {
    limbs(v).to_vec()
}
fn c30(l: &mut Ledger) {
    l.rule = "every machine integer at and around powers of two and squares plus random ones; the whole output of the tool; non-trivial = n > 1".into();
    let mut r = Rng::new(l.seed, "C30");
    let mut xs: Vec<usize> = (0..5000).collect();
    for k in 0..64 {
        for d in 0..4usize {
            xs.push((1usize << k).wrapping_add(d));
            xs.push((1usize << k).wrapping_sub(d));
        }
    }
    for _ in 0..l.n(200_000, 5_000_000) {
        let s = r.below(64);
        xs.push((r.u64() >> s) as usize);
    }
    for (i, &n) in xs.iter().enumerate() {
        l.case(&n, n > 1, || format!("n = {}", n));
        if n != 0 {
            let want = { let mut k = 0; while k < 64 && (1u128 << k) < n as u128 { k += 1 } k };
            let got = l.must("log_2", || n.to_string(), || n.log_2());
            l.count("log_2");
            l.check(got == Some(want), "log_2", || format!("log_2({}) = {:?}, want {}", n, got, want));
        }
        let nb = if i < 10000 { i % 65 } else { r.below(65) };
        let got = l.must("get_bits", || format!("{} {}", n, nb), || n.get_bits(nb));
        let want: Vec<bool> = (0..nb).rev().map(|k| (n >> k) & 1 == 1).collect();
        l.count("get_bits");
        l.check(got.as_ref() == Some(&want), "get_bits", || format!("get_bits({}, {}) = {:?}", n, nb, got));
        let root = (n % (1usize << 32)) as u64;
        let sq = root.wrapping_mul(root) as usize;
        let got = l.must("square_root", || sq.to_string(), || sq.square_root());
        l.count("square_root");
        l.check(got == Some(root as usize), "square_root", || format!("square_root({}) = {:?}, want {}", sq, got, root));
    }
    for k in 0..64usize {
        let got = l.must("pow2", || k.to_string(), || k.pow2());
        l.count("pow2");
        l.check(got == Some(1usize << k), "pow2", || format!("pow2({}) = {:?}", k, got));
        l.check(k == 0 || got.map(|g| g.log_2()) == Some(k), "pow2-log2", || format!("log_2(pow2({}))", k));
    }
    // the tool
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("mont_params");
    let out = std::process::Command::new(&exe).output().expect("cannot run the parameter tool");
    let txt = String::from_utf8_lossy(&out.stdout).to_string();
    l.check(out.status.success(), "tool-exit", || format!("tool failed: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
    let m = modp();
    let t = two256();
    let r1 = &t % &m;
    let r2 = mulm(&r1, &r1, &m);
    let r3 = mulm(&r2, &r1, &m);
    let t64 = BigUint::one() << 64usize;
    // INV = -p^-1 mod 2^64
    let pinv = { let p0 = limbs(&m)[0]; let mut x = 1u64; for _ in 0..6 { x = x.wrapping_mul(2u64.wrapping_sub(p0.wrapping_mul(x))) } x };
    let inv = BigUint::from(pinv.wrapping_neg()) % &t64;
    let mut got: Vec<(String, Vec<u64>)> = vec![];
    for line in txt.lines() {
        if let Some(n) = line.strip_prefix("//") {
            got.push((n.trim().to_string(), vec![]));
        } else if let Some(h) = line.trim().trim_end_matches(',').strip_prefix("0x") {
            let w = u64::from_str_radix(h, 16).unwrap_or(0xdead);
            if let Some(x) = got.last_mut() {
                x.1.push(w)
            }
        }
    }
    for (name, v) in [("Modulus", &m), ("R", &r1), ("R2", &r2), ("R3", &r3), ("INV", &inv)] {
        l.count("tool_constants");
        let w = words(v);
        let g = got.iter().find(|x| x.0 == name).map(|x| x.1.clone());
        l.case(name, true, || format!("{} {:x?}", name, g));
        l.check(g.as_ref() == Some(&w), "tool-constant", || format!("{}: tool printed {:x?}, exact {:x?}", name, g, w));
    }
    l.require("tool_constants", 5);
    l.require("log_2", 1000);
}
fn main() {
    Ledger::new("C30").run(c30)
}
