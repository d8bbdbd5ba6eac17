//! C20, C26-C29: the circuits, run from their source, against plain references; every execution also searched for
//! a second assignment with the same inputs.
use circomi::solve::{holds, Outcome, System};
use circomi::*;
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use vcommon::poseidon::{k256_params, Params};
use vcommon::*;

type In = HashMap<String, Vec<F>>;
fn circuits() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_CIRCUITS").unwrap_or("/repo/packages/circuits".into()))
}
fn load(file: &str, template: &str, params: &[usize], publics: &[&str]) -> Result<Program, String> {
    let lib = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("circomlib");
    let mut p = Program::load(&circuits().join(file), Path::new(&lib))?;
    if !template.is_empty() {
        if !p.has(template) {
            return Err(format!("{file} has no template {template}"));
        }
        p.set_main(template, &params.iter().map(|x| F::u(*x as u64)).collect::<Vec<_>>(), publics);
    }
    Ok(p)
}
fn f(b: &BigUint) -> F {
    F::from_big(b)
}
fn ins(v: &[(&str, Vec<BigUint>)]) -> In {
    v.iter().map(|(k, x)| (k.to_string(), x.iter().map(f).collect())).collect()
}
fn one(k: &'static str, b: &BigUint) -> (&'static str, Vec<BigUint>) {
    (k, vec![b.clone()])
}
#[derive(Default)]
struct Out {
    viol: Vec<(&'static str, String)>,
    counts: Vec<&'static str>,
    cases: Vec<(String, bool)>,
    harness: Option<String>,
}
/// what a run must come to
enum Want<'a> {
    /// these outputs, and no others under any assignment
    Outs(&'a [(&'a str, Vec<BigUint>)]),
    /// satisfied, nothing said about outputs
    Sat,
    /// no assignment at all
    Unsat,
}
fn judge(o: &mut Out, p: &Program, input: &In, want: Want, what: &str, seed: u64, deep: bool) -> Option<Run> {
    let show = || {
        let mut s: Vec<String> = input.iter().map(|(k, v)| format!("{k}={:?}", &v[..v.len().min(24)])).collect();
        s.sort();
        format!("{what}: {}", s.join(" "))
    };
    let r = match p.run(input, Opt { sym: deep, hints: None }) {
        Ok(r) => r,
        Err(m) if m.contains("is not defined") || m.contains("input:") => {
            o.harness = Some(format!("{what}: {m}"));
            return None;
        }
        Err(m) => {
            o.viol.push(("circuit-does-not-run", format!("{m}; {}", show())));
            return None;
        }
    };
    o.cases.push((show(), true));
    if deep {
        o.counts.push("constraint_systems");
        // the recorded constraints and the run must tell the same
        let bad = r.cons.iter().find(|c| !holds(c, &r.wires));
        if bad.is_some() && r.broken.is_none() {
            o.harness = Some(format!("{what}: recorded constraints disagree with the run"));
            return None;
        }
    }
    let given: Vec<(u32, F)> = r.in_wires().iter().map(|w| (*w, r.wires[*w as usize])).collect();
    match want {
        Want::Unsat => {
            if r.broken.is_none() {
                o.viol.push(("accepts", format!("no constraint is broken; {}", show())));
                return Some(r);
            }
            if deep {
                let s = System::new(&r.cons, r.wires.len(), &r.hints);
                match s.solve(&given, &r.wires, &[], seed, 40_000_000) {
                    Outcome::Contradiction => o.counts.push("shown_unsatisfiable"),
                    Outcome::Other(w) => {
                        let d = differing(&r, &w);
                        o.viol.push(("accepts-forged-witness", format!("an assignment satisfies every constraint, changed at {d}; {}", show())));
                    }
                    _ => o.counts.push("unsatisfiable_for_honest_witness_only"),
                }
            }
            return Some(r);
        }
        Want::Sat => {
            if let Some(b) = &r.broken {
                o.viol.push(("honest-witness-refused", format!("{b} is broken; {}", show())));
            }
            return Some(r);
        }
        Want::Outs(outs) => {
            if let Some(b) = &r.broken {
                o.viol.push(("honest-witness-refused", format!("{b} is broken; {}", show())));
                return Some(r);
            }
            for (n, v) in outs {
                let got = r.out(n);
                let want: Vec<F> = v.iter().map(f).collect();
                if got != want {
                    let i = (0..want.len()).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
                    o.viol.push(("wrong-output", format!("{n}[{i}] is {:?}, not {:?}; {}", got.get(i), want.get(i), show())));
                    return Some(r);
                }
            }
            o.counts.push("outputs_right");
        }
    }
    if !deep {
        return Some(r);
    }
    let targets = r.out_wires();
    // each output wire changed alone
    let s = System::new(&r.cons, r.wires.len(), &r.hints);
    let mut w = r.wires.clone();
    for t in &targets {
        let h = w[*t as usize];
        for v in [h.add(F::ONE), F::ONE.sub(h), h.neg()] {
            if v == h {
                continue;
            }
            w[*t as usize] = v;
            if r.cons.iter().filter(|c| [&c.a, &c.b, &c.c].iter().any(|l| l.iter().any(|e| e.0 == *t))).all(|c| holds(c, &w)) {
                o.viol.push(("output-not-constrained", format!("{} changed from {h:?} to {v:?}; {}", r.name(*t), show())));
                return Some(r);
            }
            o.counts.push("altered_outputs_refused");
        }
        w[*t as usize] = h;
        if targets.len() > 40 && o.counts.len() > 4000 {
            break;
        }
    }
    match s.solve(&given, &r.wires, &targets, seed, 40_000_000) {
        Outcome::Unique => o.counts.push("shown_unique"),
        Outcome::Other(w) => {
            let d = differing(&r, &w);
            o.viol.push(("second-output", format!("another assignment satisfies every constraint, changed at {d}; {}", show())));
        }
        Outcome::Contradiction => o.harness = Some(format!("{what}: solver refutes a satisfied system")),
        Outcome::Open => o.counts.push("uniqueness_open"),
    }
    Some(r)
}
fn differing(r: &Run, w: &[F]) -> String {
    let d: Vec<String> =
        (0..w.len()).filter(|i| w[*i] != r.wires[*i]).take(6).map(|i| format!("{} = {:?}", r.name(i as u32), w[i])).collect();
    d.join(", ")
}
/// hints replaced by other values: whatever still satisfies everything must leave the outputs alone
fn hints(o: &mut Out, p: &Program, input: &In, r: &mut Rng, n: usize, what: &str) {
    let Ok(base) = p.run(input, Opt { sym: true, hints: None }) else { return };
    if base.broken.is_some() || base.hints.is_empty() {
        return;
    }
    for _ in 0..n {
        let mut h = HashMap::new();
        for _ in 0..r.range(1, 2) {
            let i = r.below(base.hints.len());
            let x = base.wires[base.hints[i] as usize];
            let v = match r.below(5) {
                0 => x.add(F::ONE),
                1 => x.neg(),
                2 => F::ZERO,
                3 => F::u(r.u64()),
                _ => F::reduce([r.u64(), r.u64(), r.u64(), r.u64()]),
            };
            h.insert(i, v);
        }
        let Ok(q) = p.run(input, Opt { sym: false, hints: Some(&h) }) else { continue };
        o.counts.push("forged_hints");
        if q.wires.len() != base.wires.len() {
            continue;
        }
        let outs = base.out_wires();
        if outs.iter().all(|w| q.wires[*w as usize] == base.wires[*w as usize]) {
            o.counts.push("forged_hints_without_effect");
            continue;
        }
        if base.cons.iter().all(|c| holds(c, &q.wires)) {
            o.viol.push(("second-output", format!("{what}: hints {h:?} change an output and satisfy every constraint; inputs {input:?}")));
            return;
        }
    }
}
/// bit decompositions replaced by those of the same number plus the modulus, where that fits:
/// such a witness must be refused or change nothing. `bound` says the inputs have no witness at all.
fn aliases(o: &mut Out, p: &Program, base: &Run, input: &In, bound: bool, what: &str) {
    let bit = |h: usize| {
        let v = base.wires[base.hints[h] as usize];
        v == F::ZERO || v == F::ONE
    };
    let m = modp();
    let mut at = 0;
    let mut groups = vec![];
    while at < base.hints.len() {
        let mut end = at;
        while end < base.hints.len() && bit(end) && (end == at || base.hints[end] == base.hints[end - 1] + 1) {
            end += 1;
        }
        if end - at >= 256 && end - at < 300 {
            let v: BigUint = (at..end).filter(|h| base.wires[base.hints[*h] as usize] == F::ONE).map(|h| BigUint::one() << (h - at)).sum();
            if v.clone() + &m < BigUint::one() << (end - at) {
                groups.push((at, end, v + &m));
            }
        }
        at = end.max(at + 1);
    }
    for k in 1..1usize << groups.len().min(2) {
        let mut h = HashMap::new();
        for (j, (a, b, v)) in groups.iter().enumerate() {
            if k >> j & 1 == 1 {
                for (i, x) in bits_le(v, b - a).iter().enumerate() {
                    h.insert(a + i, f(x));
                }
            }
        }
        let Ok(q) = p.run(input, Opt { sym: false, hints: Some(&h) }) else { continue };
        o.counts.push("aliased_bits");
        if q.broken.is_some() {
            o.counts.push("aliased_bits_refused");
            continue;
        }
        let same = base.out_wires() == q.out_wires() && base.out_wires().iter().all(|w| q.wires[*w as usize] == base.wires[*w as usize]);
        if bound || !same {
            o.viol.push(("second-decomposition", format!("{what}: bits of x + p satisfy every constraint; inputs {input:?}")));
            return;
        }
    }
}
// ---- the curve ----
struct Curve {
    p: BigUint,
    n: BigUint,
    g: Pt,
    z: BigUint,
}
fn curve() -> Curve {
    let g = (
        hexu("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
        hexu("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
    );
    Curve { p: modp(), n: modn(), g: Some(g), z: BigUint::zero() }
}
fn xy(q: &Pt) -> (BigUint, BigUint) {
    q.clone().unwrap_or((BigUint::zero(), BigUint::zero()))
}
impl Curve {
    fn add(&self, a: &Pt, b: &Pt) -> Pt {
        pt_add(a, b, &self.z, &self.p)
    }
    fn mul(&self, a: &Pt, k: &BigUint) -> Pt {
        pt_mul(a, &(k % &self.n), &self.p)
    }
    fn neg(&self, a: &Pt) -> Pt {
        pt_neg(a, &self.p)
    }
    fn at_x(&self, x: &BigUint, odd: bool) -> Pt {
        let y = sqrtm(&addm(&powm(x, &BigUint::from(3u32), &self.p), &BigUint::from(7u32), &self.p), &self.p)?;
        let y = if (&y % 2u32 == BigUint::one()) != odd { negm(&y, &self.p) } else { y };
        Some((x.clone(), y))
    }
    fn at_y(&self, y: &BigUint) -> Pt {
        // p = 7 mod 9: a^((p+2)/9) is a cube root where there is one
        let a = subm(&mulm(y, y, &self.p), &BigUint::from(7u32), &self.p);
        let x = powm(&a, &((&self.p + 2u32) / 9u32), &self.p);
        if powm(&x, &BigUint::from(3u32), &self.p) == a {
            Some((x, y.clone()))
        } else {
            None
        }
    }
    fn beta(&self) -> BigUint {
        // a primitive cube root of one
        let e = (&self.p - 1u32) / 3u32;
        let mut a = BigUint::from(2u32);
        loop {
            let b = powm(&a, &e, &self.p);
            if !b.is_one() {
                return b;
            }
            a += 1u32;
        }
    }
    fn point(&self, r: &mut Rng) -> Pt {
        match r.below(8) {
            0 => self.mul(&self.g, &BigUint::from(r.range(1, 20) as u32)),
            1 => self.neg(&self.mul(&self.g, &BigUint::from(r.range(1, 20) as u32))),
            2 => loop {
                let x = BigUint::from(r.range(0, 200) as u32);
                if let q @ Some(_) = self.at_x(&x, r.chance(1, 2)) {
                    return q;
                }
            },
            3 => loop {
                let y = if r.chance(1, 2) { BigUint::from(r.range(1, 300) as u32) } else { &self.p - BigUint::from(r.range(1, 300) as u32) };
                if let q @ Some(_) = self.at_y(&y) {
                    return q;
                }
            },
            4 => loop {
                let x = &self.p - BigUint::from(r.range(1, 200) as u32);
                if let q @ Some(_) = self.at_x(&x, r.chance(1, 2)) {
                    return q;
                }
            },
            _ => self.mul(&self.g, &(from_le(&r.arr32()) % (&self.n - 1u32) + 1u32)),
        }
    }
    /// a second point, often related to the first
    fn second(&self, r: &mut Rng, a: &Pt) -> Pt {
        let (x, y) = xy(a);
        let b = self.beta();
        match r.below(14) {
            0 => a.clone(),
            1 => self.neg(a),
            2 => Some((mulm(&x, &b, &self.p), y)),
            3 => Some((mulm(&x, &b, &self.p), negm(&y, &self.p))),
            4 => self.add(a, a),
            5 => self.neg(&self.add(a, a)),
            // y' with y + y' or y - y' a small constant
            6 | 7 => {
                for k in [1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] {
                    let k = BigUint::from(k);
                    let t = if r.chance(1, 2) { subm(&k, &y, &self.p) } else { addm(&k, &y, &self.p) };
                    if let q @ Some(_) = self.at_y(&t) {
                        return q;
                    }
                }
                self.point(r)
            }
            8 => {
                for k in 1u32..12 {
                    if let q @ Some(_) = self.at_x(&addm(&x, &BigUint::from(k), &self.p), r.chance(1, 2)) {
                        return q;
                    }
                }
                self.point(r)
            }
            9 => self.mul(a, &invm(&BigUint::from(2u32), &self.n).unwrap()),
            _ => self.point(r),
        }
    }
    /// both on the curve, the ordinates adding up to one
    fn sum_one(&self, r: &mut Rng) -> (Pt, Pt) {
        loop {
            let y = from_le(&r.arr32()) % &self.p;
            let t = subm(&BigUint::one(), &y, &self.p);
            if let (a @ Some(_), b @ Some(_)) = (self.at_y(&y), self.at_y(&t)) {
                return (a, b);
            }
        }
    }
}
fn scalar(r: &mut Rng, c: &Curve) -> BigUint {
    let t = two256() - &c.n; // 2^256 mod n
    let p128 = BigUint::one() << 128usize;
    let small = BigUint::from(r.range(0, 5) as u32);
    let around = |b: BigUint, r: &mut Rng| -> BigUint {
        let d = BigUint::from(r.range(0, 4) as u32);
        if r.chance(1, 2) || b < d {
            b + d
        } else {
            b - d
        }
    };
    let v = match r.below(16) {
        0 => small,
        1 => around(c.n.clone(), r),
        2 => around(&c.p - 5u32, r),
        3 => around(p128.clone(), r),
        // the lowest half-words at which the tweak carries
        4 => {
            let lo = (&c.n + &c.n - two256()) % &p128;
            around(&p128 - lo, r)
        }
        5 => {
            let lo = (&c.n + &c.n - two256()) % &p128;
            let base = &p128 - &lo;
            &base + from_le(&r.arr32()) % lo
        }
        6 => around(t.clone(), r),
        7 => around(&c.n - &t, r),
        8 => around((&c.n >> 1usize) + 1u32, r),
        9 => BigUint::one() << r.below(256),
        10 => (BigUint::one() << r.range(1, 255)) - 1u32,
        11 => &c.n - (BigUint::one() << r.below(128)),
        12 => from_le(&r.arr32()) % &p128,
        13 => (from_le(&r.arr32()) % &p128) << 128usize,
        _ => from_le(&r.arr32()),
    };
    v % &c.p
}
fn address(q: &Pt) -> BigUint {
    let (x, y) = xy(q);
    let mut m = be32(&x).to_vec();
    m.extend_from_slice(&be32(&y));
    from_be(&keccak256(&m)[12..])
}
fn bits_le(v: &BigUint, n: usize) -> Vec<BigUint> {
    (0..n).map(|i| (v >> i) & BigUint::one()).collect()
}
/// an efficient-ECDSA input: s, T, U and the key
fn signature(r: &mut Rng, c: &Curve, key: Option<Pt>) -> (BigUint, Pt, Pt, Pt) {
    loop {
        let (s, t, u);
        if let Some(q) = &key {
            s = scalar(r, c);
            t = c.point(r);
            u = c.add(q, &c.neg(&c.mul(&t, &s)));
        } else if r.chance(2, 3) {
            // a signature as a signer makes it
            let d = from_le(&r.arr32()) % (&c.n - 1u32) + 1u32;
            let k = from_le(&r.arr32()) % (&c.n - 1u32) + 1u32;
            let m = match r.below(4) {
                0 => BigUint::from(r.range(1, 5) as u32),
                1 => from_le(&r.arr32()),
                _ => from_le(&r.arr32()) % &c.n,
            };
            let big_r = c.mul(&c.g, &k);
            let rr = xy(&big_r).0 % &c.n;
            s = mulm(&invm(&k, &c.n).unwrap(), &addm(&(&m % &c.n), &mulm(&rr, &d, &c.n), &c.n), &c.n);
            let ri = invm(&rr, &c.n).unwrap();
            t = c.mul(&big_r, &ri);
            u = c.neg(&c.mul(&c.g, &mulm(&m, &ri, &c.n)));
            assert!(c.add(&c.mul(&t, &s), &u) == c.mul(&c.g, &d));
        } else {
            s = scalar(r, c);
            t = c.point(r);
            let st = c.mul(&t, &s);
            u = match r.below(4) {
                0 => st.clone(),
                1 => c.neg(&st),
                2 => c.second(r, &st),
                _ => c.point(r),
            };
        }
        let q = c.add(&c.mul(&t, &s), &u);
        if t.is_none() || (key.is_some() && u.is_none()) {
            continue;
        }
        return (s, t, u, q);
    }
}
fn tree(r: &mut Rng, ps: &Params, leaf: &BigUint, n: usize) -> (Vec<BigUint>, Vec<BigUint>, BigUint) {
    let p = modp();
    let (mut bits, mut sib, mut h) = (vec![], vec![], leaf.clone());
    for _ in 0..n {
        let b = r.below(2);
        let s = match r.below(6) {
            0 => BigUint::zero(),
            1 => h.clone(),
            2 => edge256(r, &p) % &p,
            _ => from_le(&r.arr32()) % &p,
        };
        h = if b == 0 { ps.hash(&h, &s) } else { ps.hash(&s, &h) };
        bits.push(BigUint::from(b as u32));
        sib.push(s);
    }
    (bits, sib, h)
}

// ---- one job each; `i` selects the workload ----
fn c26(seed: u64, i: usize) -> Out {
    let mut o = Out::default();
    let mut r = Rng::new(seed, &format!("c26-{i}"));
    let c = curve();
    let e = "eff_ecdsa_membership/secp256k1/";
    let get = |o: &mut Out, f: &str, t: &str| match load(&format!("{e}{f}"), t, &[], &[]) {
        Ok(p) => Some(p),
        Err(m) => {
            o.harness = Some(m);
            None
        }
    };
    let (Some(inc), Some(com), Some(dbl)) = (
        get(&mut o, "add.circom", "Secp256k1AddIncomplete"),
        get(&mut o, "add.circom", "Secp256k1AddComplete"),
        get(&mut o, "double.circom", "Secp256k1Double"),
    ) else {
        return o;
    };
    let input = |a: &Pt, b: &Pt| {
        let ((x1, y1), (x2, y2)) = (xy(a), xy(b));
        ins(&[one("xP", &x1), one("yP", &y1), one("xQ", &x2), one("yQ", &y2)])
    };
    for j in 0..40 {
        let a = c.point(&mut r);
        let mut b = c.second(&mut r, &a);
        let mut a = a;
        if j % 8 == 0 {
            (a, b) = c.sum_one(&mut r);
        }
        let s = c.add(&a, &b);
        let w = |q: &Pt| {
            let (x, y) = xy(q);
            [("outX", vec![x]), ("outY", vec![y])]
        };
        if a.is_some() && b.is_some() && xy(&a).0 != xy(&b).0 {
            judge(&mut o, &inc, &input(&a, &b), Want::Outs(&w(&s)), "incomplete addition", r.u64(), true);
            if j % 4 == 0 {
                hints(&mut o, &inc, &input(&a, &b), &mut r, 6, "incomplete addition");
            }
        }
        let (mut u, mut v) = (a.clone(), b.clone());
        match r.below(8) {
            0 => u = None,
            1 => v = None,
            2 => {
                u = None;
                v = None;
            }
            _ => {}
        }
        let what = match (&u, &v) {
            (None, None) => "complete addition, both the identity",
            (None, _) => "complete addition, P the identity",
            (_, None) => "complete addition, Q the identity",
            (Some(x), Some(y)) if x == y => "complete addition, equal points",
            (Some(x), Some(y)) if x.0 == y.0 => "complete addition, opposite points",
            _ => "complete addition",
        };
        o.counts.push(match what {
            "complete addition, both the identity" => "both_identity",
            "complete addition, P the identity" => "p_identity",
            "complete addition, Q the identity" => "q_identity",
            "complete addition, equal points" => "equal_points",
            "complete addition, opposite points" => "opposite_points",
            _ => "plain_points",
        });
        judge(&mut o, &com, &input(&u, &v), Want::Outs(&w(&c.add(&u, &v))), what, r.u64(), true);
        if j % 4 == 0 {
            hints(&mut o, &com, &input(&u, &v), &mut r, 12, what);
        }
        let (x, y) = xy(&a);
        judge(&mut o, &dbl, &ins(&[one("xP", &x), one("yP", &y)]), Want::Outs(&w(&c.add(&a, &a))), "doubling", r.u64(), true);
    }
    o
}
fn c27(seed: u64, i: usize) -> Out {
    let mut o = Out::default();
    let mut r = Rng::new(seed, &format!("c27-{i}"));
    let c = curve();
    let mul = load("eff_ecdsa_membership/secp256k1/mul.circom", "Secp256k1Mul", &[], &[]);
    let eff = load("eff_ecdsa_membership/eff_ecdsa.circom", "EfficientECDSA", &[], &["Tx", "Ty", "Ux", "Uy"]);
    let (mul, eff) = match (mul, eff) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(m), _) | (_, Err(m)) => {
            o.harness = Some(m);
            return o;
        }
    };
    for j in 0..4 {
        let k = scalar(&mut r, &c);
        let t = c.point(&mut r);
        let (x, y) = xy(&t);
        let (ox, oy) = xy(&c.mul(&t, &k));
        let input = ins(&[one("scalar", &k), one("xP", &x), one("yP", &y)]);
        o.counts.push(if k < c.n { "scalar_below_order" } else { "scalar_above_order" });
        judge(&mut o, &mul, &input, Want::Outs(&[("outX", vec![ox]), ("outY", vec![oy])]), "multiplication", r.u64(), true);
        if j == 0 {
            hints(&mut o, &mul, &input, &mut r, 6, "multiplication");
        }
        let (s, t, u, q) = signature(&mut r, &c, None);
        let ((tx, ty), (ux, uy), (qx, qy)) = (xy(&t), xy(&u), xy(&q));
        let input = ins(&[one("s", &s), one("Tx", &tx), one("Ty", &ty), one("Ux", &ux), one("Uy", &uy)]);
        if u.is_none() {
            o.counts.push("identity_U");
        }
        if q.is_none() {
            o.counts.push("identity_key");
        }
        judge(&mut o, &eff, &input, Want::Outs(&[("pubKeyX", vec![qx]), ("pubKeyY", vec![qy])]), "signature", r.u64(), true);
    }
    o
}
fn member(s: &BigUint, t: &Pt, u: &Pt, root: &BigUint, bits: &[BigUint], sib: &[BigUint]) -> In {
    let ((tx, ty), (ux, uy)) = (xy(t), xy(u));
    ins(&[
        one("s", s), one("root", root), one("Tx", &tx), one("Ty", &ty), one("Ux", &ux), one("Uy", &uy),
        ("pathIndices", bits.to_vec()), ("siblings", sib.to_vec()),
    ])
}
/// a satisfied membership input with one thing about it made wrong
fn spoil(r: &mut Rng, c: &Curve, ps: &Params, v: &mut In, sib: &[BigUint], bits: &[BigUint], root: &BigUint) -> &'static str {
    let bump = |v: &mut In, k: &str, i: usize| {
        let x = v.get_mut(k).unwrap();
        x[i] = x[i].add(F::ONE);
    };
    match r.below(8) {
        0 => {
            bump(v, "root", 0);
            "root plus one"
        }
        1 => {
            let i = r.below(sib.len());
            bump(v, "siblings", i);
            "another sibling"
        }
        2 => {
            bump(v, "s", 0);
            "another s"
        }
        3 => {
            let q = c.point(r);
            let (x, y) = xy(&q);
            v.insert("Ux".into(), vec![f(&x)]);
            v.insert("Uy".into(), vec![f(&y)]);
            "another U"
        }
        4 => {
            let q = c.point(r);
            let (x, y) = xy(&q);
            v.insert("Tx".into(), vec![f(&x)]);
            v.insert("Ty".into(), vec![f(&y)]);
            "another T"
        }
        5 => {
            let x = v["Uy"][0];
            v.insert("Uy".into(), vec![x.neg()]);
            "U negated"
        }
        6 => {
            let i = r.below(bits.len());
            let x = v["pathIndices"][i];
            v.get_mut("pathIndices").unwrap()[i] = F::ONE.sub(x);
            "the other side"
        }
        _ => {
            // the right root one level short
            let mut h = root.clone();
            h = ps.hash(&h, &BigUint::zero());
            v.insert("root".into(), vec![f(&h)]);
            "the root's parent"
        }
    }
}
fn c28(seed: u64, i: usize, quick: bool) -> Out {
    let mut o = Out::default();
    let mut r = Rng::new(seed, &format!("c28-{i}"));
    let c = curve();
    let ps = k256_params();
    let p = modp();
    let pubs = ["root", "Tx", "Ty", "Ux", "Uy"];
    macro_rules! get {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(m) => {
                    o.harness = Some(m);
                    return o;
                }
            }
        };
    }
    // 0: the registered circuit of addresses; 1: small circuit of addresses; 2: registered of keys; others
    let kind = match i {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        _ if !quick && i % 8 == 0 => 1,
        _ if !quick && i % 8 == 4 => 2,
        _ => 3 + i % 2,
    };
    match kind {
        0 | 1 | 2 => {
            let (m, n) = match kind {
                0 => (get!(load("instances/addr_membership.circom", "", &[], &[])), 20),
                1 => {
                    let n = r.range(1, 3);
                    (get!(load("eff_ecdsa_membership/addr_membership.circom", "AddrMembership", &[n], &pubs)), n)
                }
                _ => (get!(load("instances/pubkey_membership.circom", "", &[], &[])), 20),
            };
            let addr = kind != 2;
            let (s, t, u, q) = signature(&mut r, &c, None);
            let (s, t, u, q) = if q.is_none() || u.is_none() { signature(&mut r, &c, Some(c.g.clone())) } else { (s, t, u, q) };
            let leaf = if addr { address(&q) } else { ps.hash(&xy(&q).0, &xy(&q).1) };
            let (bits, sib, root) = tree(&mut r, &ps, &leaf, n);
            let good = member(&s, &t, &u, &root, &bits, &sib);
            let what = if addr { "address membership" } else { "key membership" };
            let deep = !addr;
            if let Some(run) = judge(&mut o, &m, &good, Want::Sat, what, r.u64(), deep) {
                let l = r1cs::layout(&run);
                let mut names: Vec<&str> = vec![];
                for x in run.ins.iter().filter(|x| x.2) {
                    for _ in &x.1 {
                        names.push(&x.0);
                    }
                }
                if l.outs != 0 || names != pubs {
                    o.viol.push(("public-signals", format!("{what}: {} outputs, public inputs {names:?}", l.outs)));
                }
                o.counts.push("public_layouts");
            }
            if kind == 1 {
                // a member whose key has a second 256-bit encoding, in the tree under the address of that one
                let q = loop {
                    let x = BigUint::from(r.range(1, 3000) as u32);
                    let q = if r.chance(1, 2) { c.at_x(&x, r.chance(1, 2)) } else { c.at_y(&x) };
                    if q.is_some() {
                        break q;
                    }
                };
                let (s, t, u, _) = signature(&mut r, &c, Some(q.clone()));
                let (x, y) = xy(&q);
                let low = BigUint::from(3000u32);
                let b: Vec<u8> = [&x, &y].iter().flat_map(|v| be32(&if **v <= low { *v + &p } else { (*v).clone() })).collect();
                let leaf = from_be(&keccak256(&b)[12..]);
                let (bits, sib, root) = tree(&mut r, &ps, &leaf, n);
                let v = member(&s, &t, &u, &root, &bits, &sib);
                if let Some(b) = judge(&mut o, &m, &v, Want::Unsat, "membership of another encoding's address", r.u64(), false) {
                    aliases(&mut o, &m, &b, &v, true, "membership of another encoding's address");
                }
            }
            for j in 0..if addr { 1 + (!quick as usize) * 3 } else { 3 } {
                let mut v = good.clone();
                let w = spoil(&mut r, &c, &ps, &mut v, &sib, &bits, &root);
                if v == good {
                    continue;
                }
                // the other side of equal siblings is the same side
                if w == "the other side" {
                    let pi: Vec<BigUint> = v["pathIndices"].iter().map(|x| x.big()).collect();
                    let mut h = leaf.clone();
                    for (b, s) in pi.iter().zip(&sib) {
                        h = if b.is_zero() { ps.hash(&h, s) } else { ps.hash(s, &h) };
                    }
                    if h == root {
                        continue;
                    }
                }
                o.counts.push("spoiled_memberships");
                judge(&mut o, &m, &v, Want::Unsat, &format!("{what} with {w}"), r.u64(), deep && j == 0);
            }
        }
        3 => {
            // keys, few levels, everything examined
            let n = r.range(1, 4);
            let m = get!(load("eff_ecdsa_membership/pubkey_membership.circom", "PubKeyMembership", &[n], &pubs));
            let (s, t, u, q) = signature(&mut r, &c, None);
            if q.is_none() || u.is_none() {
                return o;
            }
            let leaf = ps.hash(&xy(&q).0, &xy(&q).1);
            let (bits, sib, root) = tree(&mut r, &ps, &leaf, n);
            let good = member(&s, &t, &u, &root, &bits, &sib);
            judge(&mut o, &m, &good, Want::Sat, "key membership", r.u64(), true);
            for _ in 0..3 {
                let mut v = good.clone();
                let w = spoil(&mut r, &c, &ps, &mut v, &sib, &bits, &root);
                if v == good || (w == "the other side") {
                    continue;
                }
                o.counts.push("spoiled_memberships");
                judge(&mut o, &m, &v, Want::Unsat, &format!("key membership with {w}"), r.u64(), true);
            }
            // a member's key for another member's signature
            let (s2, t2, u2, _) = signature(&mut r, &c, None);
            judge(&mut o, &m, &member(&s2, &t2, &u2, &root, &bits, &sib), Want::Unsat, "a stranger's signature", r.u64(), true);
        }
        _ => {
            for _ in 0..6 {
                let n = r.range(1, 6);
                let m = get!(load("eff_ecdsa_membership/tree.circom", "MerkleTreeInclusionProof", &[n], &[]));
                let leaf = if r.chance(1, 5) { BigUint::zero() } else { from_le(&r.arr32()) % &p };
                let (mut bits, sib, root) = tree(&mut r, &ps, &leaf, n);
                let v = |bits: &[BigUint]| ins(&[one("leaf", &leaf), ("pathIndices", bits.to_vec()), ("siblings", sib.clone())]);
                judge(&mut o, &m, &v(&bits), Want::Outs(&[("root", vec![root])]), "inclusion", r.u64(), true);
                let i = r.below(n);
                bits[i] = match r.below(4) {
                    0 => BigUint::from(2u32),
                    1 => &p - 1u32,
                    2 => invm(&BigUint::from(2u32), &p).unwrap(),
                    _ => from_le(&r.arr32()) % &p,
                };
                o.counts.push("path_bits_not_bits");
                judge(&mut o, &m, &v(&bits), Want::Unsat, "inclusion with a path index that is no bit", r.u64(), true);
            }
        }
    }
    o
}
fn c29(seed: u64, i: usize, quick: bool) -> Out {
    let mut o = Out::default();
    let mut r = Rng::new(seed, &format!("c29-{i}"));
    let c = curve();
    macro_rules! get {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(m) => {
                    o.harness = Some(m);
                    return o;
                }
            }
        };
    }
    let key = |r: &mut Rng| loop {
        let q = match r.below(5) {
            // coordinates so small that the encoding of the next residue also fits
            0 => c.at_x(&BigUint::from(r.range(1, 3000) as u32), r.chance(1, 2)),
            1 => c.at_y(&BigUint::from(r.range(1, 3000) as u32)),
            2 => c.at_x(&((BigUint::one() << 32usize) + BigUint::from(r.range(0, 976) as u32)), r.chance(1, 2)),
            _ => c.point(r),
        };
        if q.is_some() {
            return q;
        }
    };
    let small = |r: &mut Rng| loop {
        let q = if r.chance(1, 2) { c.at_x(&BigUint::from(r.range(1, 3000) as u32), r.chance(1, 2)) } else { c.at_y(&BigUint::from(r.range(1, 3000) as u32)) };
        if q.is_some() {
            return q;
        }
    };
    let kbits = |q: &Pt| {
        let (x, y) = xy(q);
        let mut b = bits_le(&y, 256);
        b.extend(bits_le(&x, 256));
        b
    };
    match i % 4 {
        0 => {
            let m = get!(load("eff_ecdsa_membership/eff_ecdsa_to_addr.circom", "EfficientECDSAToAddr", &[], &["Tx", "Ty", "Ux", "Uy"]));
            let q = if i % 8 == 4 { small(&mut r) } else { key(&mut r) };
            let (s, t, u, _) = signature(&mut r, &c, Some(q.clone()));
            let ((tx, ty), (ux, uy)) = (xy(&t), xy(&u));
            let v = ins(&[one("s", &s), one("Tx", &tx), one("Ty", &ty), one("Ux", &ux), one("Uy", &uy)]);
            o.counts.push("signature_to_address");
            if let Some(b) = judge(&mut o, &m, &v, Want::Outs(&[("addr", vec![address(&q)])]), "signature to address", r.u64(), i == 0 || !quick) {
                aliases(&mut o, &m, &b, &v, false, "signature to address");
            }
        }
        1 => {
            let m = get!(load("eff_ecdsa_membership/to_address/zk-identity/eth.circom", "PubkeyToAddress", &[], &[]));
            let q = key(&mut r);
            o.counts.push("key_to_address");
            judge(&mut o, &m, &ins(&[("pubkeyBits", kbits(&q))]), Want::Outs(&[("address", vec![address(&q)])]), "key to address", r.u64(), i == 1 || !quick);
            // chunked keys
            for (nb, k) in [(64usize, 4usize), (86, 3), (128, 2), (32, 8), (256, 1), (88, 3)] {
                if nb * k < 256 || (nb == 256) {
                    continue;
                }
                let Ok(m) = load("eff_ecdsa_membership/to_address/zk-identity/eth.circom", "FlattenPubkey", &[nb, k], &[]) else { continue };
                let (x, y) = xy(&q);
                let ch = |v: &BigUint| -> Vec<BigUint> { (0..k).map(|j| (v >> (nb * j)) % (BigUint::one() << nb)).collect() };
                let mut b = ch(&x);
                b.extend(ch(&y));
                o.counts.push("chunked_keys");
                judge(&mut o, &m, &ins(&[("chunkedPubkey", b)]), Want::Outs(&[("pubkeyBits", kbits(&q))]), "chunked key", r.u64(), true);
            }
        }
        2 => {
            let m = get!(load("eff_ecdsa_membership/to_address/zk-identity/eth.circom", "PubkeyToAddress", &[], &[]));
            // any 512 bits, also such as are no key
            let b = r.bytes(64);
            let v = from_be(&b);
            o.counts.push("bytes_to_address");
            judge(&mut o, &m, &ins(&[("pubkeyBits", bits_le(&v, 512))]), Want::Outs(&[("address", vec![from_be(&keccak256(&b)[12..])])]), "bytes to address", r.u64(), !quick && i < 12);
        }
        _ => {
            let n = *r.pick(&[1usize, 2, 8, 31, 32, 55, 63, 64, 65, 100, 127, 128, 134, 135]);
            let m = get!(load("eff_ecdsa_membership/to_address/vocdoni-keccak/keccak.circom", "Keccak", &[8 * n, 256], &[]));
            let b = match r.below(4) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                _ => r.bytes(n),
            };
            let bl = |b: &[u8]| -> Vec<BigUint> { b.iter().flat_map(|x| (0..8).map(move |j| BigUint::from((x >> j & 1) as u32))).collect() };
            o.counts.push("keccak");
            judge(&mut o, &m, &ins(&[("in", bl(&b))]), Want::Outs(&[("out", bl(&keccak256(&b)))]), &format!("keccak of {n} bytes"), r.u64(), i == 3 || (!quick && i < 24));
        }
    }
    o
}
fn c20(seed: u64, i: usize) -> Out {
    let mut o = Out::default();
    let mut r = Rng::new(seed, &format!("c20-{i}"));
    let p = modp();
    let m = match load("poseidon/poseidon.circom", "Poseidon", &[], &[]) {
        Ok(m) => m,
        Err(m) => {
            o.harness = Some(m);
            return o;
        }
    };
    for _ in 0..10 {
        let mut v = |r: &mut Rng| match r.below(4) {
            0 => BigUint::from(r.range(0, 3) as u32),
            1 => edge256(r, &p) % &p,
            2 => &p - BigUint::from(r.range(1, 4) as u32),
            _ => from_le(&r.arr32()) % &p,
        };
        let a = v(&mut r);
        let b = if r.chance(1, 6) { a.clone() } else { v(&mut r) };
        use ff::PrimeField;
        type L = ::poseidon::poseidon_k256::FieldElement;
        let el = |x: &BigUint| L::from_str_vartime(&x.to_string()).unwrap();
        let lib = attempt(|| ::poseidon::poseidon_k256::hash(&[el(&a), el(&b)]));
        let lib = match lib {
            Ok(x) => from_be(x.to_repr().as_ref()),
            Err(e) => {
                o.viol.push(("library-aborts", format!("{} at {} on {a} {b}", e.msg, e.loc)));
                return o;
            }
        };
        judge(&mut o, &m, &ins(&[("inputs", vec![a, b])]), Want::Outs(&[("out", vec![lib])]), "poseidon", r.u64(), true);
    }
    o
}
fn main() {
    let id = std::env::args().nth(1).expect("property");
    let mut l = Ledger::new(&id);
    if id == "C29" {
        // the reference itself, on a published digest
        assert_eq!(hex(&keccak256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(hex(&keccak256(b"abc")), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45");
    }
    l.rule = "one execution of a circuit on concrete inputs, with its outputs and satisfaction compared with the reference; distinct inputs count once".into();
    l.assumptions.push("circom and circomlib are stood in for by an interpreter and a library in /verif; constraints are those circom emits before simplification".into());
    l.assumptions.push("a second assignment is looked for by propagation and search at each execution; where neither is conclusive the counter uniqueness_open says so".into());
    l.run(|l| {
        let quick = !l.thorough;
        let seed = l.seed;
        let n = match id.as_str() {
            "C20" => l.n(400, 6000),
            "C26" => l.n(240, 6000),
            "C27" => l.n(200, 3000),
            "C28" => l.n(120, 1500),
            _ => l.n(24, 300),
        };
        let deadline = Instant::now() + Duration::from_secs(if quick { 100 } else { 700 });
        let res = par(n, deadline, |i| {
            attempt(|| match id.as_str() {
                "C20" => c20(seed, i),
                "C26" => c26(seed, i),
                "C27" => c27(seed, i),
                "C28" => c28(seed, i, quick),
                _ => c29(seed, i, quick),
            })
        });
        let mut done = 0;
        for x in res.into_iter().flatten() {
            let o = match x {
                Ok(o) => o,
                Err(e) => panic!("harness: {} at {}", e.msg, e.loc),
            };
            done += 1;
            for (k, d) in o.viol {
                l.violation(k, &d);
            }
            for c in o.counts {
                l.count(c);
            }
            for (k, nt) in o.cases {
                l.case(&k, nt, || k.clone());
            }
            if let Some(h) = o.harness {
                panic!("cannot run the circuit: {h}");
            }
        }
        l.addc("workloads", done);
        match id.as_str() {
            "C20" => l.require("shown_unique", 100),
            "C26" => {
                for c in ["both_identity", "p_identity", "q_identity", "equal_points", "opposite_points", "plain_points", "shown_unique", "forged_hints"] {
                    l.require(c, 5);
                }
            }
            "C27" => {
                for c in ["shown_unique", "scalar_below_order", "scalar_above_order", "identity_key"] {
                    l.require(c, 2);
                }
            }
            "C28" => {
                for c in ["public_layouts", "spoiled_memberships", "shown_unsatisfiable", "path_bits_not_bits"] {
                    l.require(c, 2);
                }
            }
            _ => {
                for c in ["signature_to_address", "key_to_address", "keccak", "shown_unique"] {
                    l.require(c, 2);
                }
            }
        }
    });
}
