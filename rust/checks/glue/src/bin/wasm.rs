//! C21: the functions exported to the browser, called natively.
use gluechk::*;
use num_bigint_dig::BigUint;
use num_traits::Zero;
use num_traits::One;
use spartan_wasm::wasm::{load_witness_from_bin_reader, poseidon, prove, verify, F1};
use ff::PrimeField;
use std::io::Read;
use std::time::Instant;
use vcommon::poseidon::k256_params;
use vcommon::*;

struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn fval(f: &F1) -> BigUint {
    from_be(f.to_repr().as_ref())
}
fn load(b: &[u8], chunk: usize) -> Option<Vec<BigUint>> {
    attempt(|| load_witness_from_bin_reader::<F1, _>(Slow(b, chunk)).ok()).ok().flatten().map(|v| v.iter().map(fval).collect())
}
fn witness_files(l: &mut Ledger, r: &mut Rng) {
    let p = modp();
    let long = [256usize, 1 << 16, (1 << 16) + 1, 70_001];
    for n in 0..l.n(300, 6000) {
        let k = if n < 5 { n } else if n % 75 == 30 { long[n / 75 % 4] } else { r.range(0, 40) };
        let w: Vec<BigUint> = (0..k).map(|_| if r.chance(1, 3) { edge256(r, &p) % &p } else { from_le(&r.arr32()) % &p }).collect();
        let f = wtns(&w);
        let chunk = *r.pick(&[1usize, 3, 31, 1 << 20]);
        let got = load(&f, chunk);
        l.check(got.as_ref() == Some(&w), "witness-values", || format!("a witness of {k} values, read {chunk} bytes at a time, came back as {} values; file {}", got.map(|g| g.len() as i64).unwrap_or(-1), hex(&f)));
        l.count("witness_files");
        l.case(&f, k > 0, || format!("witness file of {k} values"));
        // and broken ones; none may yield a value
        let le = |v: u32| v.to_le_bytes().to_vec();
        let mut bad: Vec<(&str, Vec<u8>)> = vec![];
        let put = |at: usize, b: Vec<u8>| {
            let mut g = f.clone();
            g[at..at + b.len()].copy_from_slice(&b);
            g
        };
        let i = r.below(4);
        bad.push(("magic", put(i, vec![f[i] ^ (1 << r.below(8))])));
        bad.push(("version", put(4, le(3 + r.below(1000) as u32))));
        bad.push(("version", put(4, le(0x200 << r.below(20)))));
        let mut other = || *r.pick(&[0u32, 1, 3, 4, 0x102, 0x2000000]);
        bad.push(("number of sections", put(8, le(other()))));
        bad.push(("first section type", put(12, le(*Rng::new(n as u64, "t").pick(&[0u32, 2, 3, 257])))));
        for d in [39u64, 41, 0, 1 << 32 | 40] {
            bad.push(("first section length", put(16, d.to_le_bytes().to_vec())));
        }
        for d in [31u32, 33, 0, 8, 64, 288] {
            bad.push(("field size", put(24, le(d))));
        }
        bad.push(("second section type", put(64, le(*Rng::new(n as u64, "u").pick(&[0u32, 1, 3, 258])))));
        let sz = 32 * k as u64;
        for d in [sz + 1, sz + 32, sz.wrapping_sub(32), sz | 1 << 40, 1 << 32 | sz] {
            bad.push(("second section length", put(68, d.to_le_bytes().to_vec())));
        }
        bad.push(("witness count", put(60, le(k as u32 + 1))));
        if k > 0 {
            bad.push(("witness count", put(60, le(k as u32 - 1))));
            let cut = 76 + r.below(32 * k);
            bad.push(("truncation", f[..cut].to_vec()));
            let at = r.below(k);
            let over = &p + BigUint::from(*r.pick(&[0u32, 1, 5, 976]));
            bad.push(("value not below the modulus", put(76 + 32 * at, le32(&over).to_vec())));
            bad.push(("value not below the modulus", put(76 + 32 * at, vec![255; 32])));
        }
        bad.push(("truncation", f[..r.below(76)].to_vec()));
        for (what, g) in bad {
            if g == f {
                continue;
            }
            let got = load(&g, 1 << 20);
            l.check(got.is_none(), &format!("witness-accepted:{what}"), || format!("a witness file with a wrong {what} was read as {} values; file {}", got.unwrap().len(), hex(&g)));
            l.count("broken_witness_files");
            l.case(&g, true, || format!("witness file with a wrong {what}"));
        }
    }
}
fn poseidon_entry(l: &mut Ledger, r: &mut Rng) {
    let k = k256_params();
    let p = modp();
    for n in 0..l.n(150, 4000) {
        let v = |r: &mut Rng| if r.chance(1, 3) { edge256(r, &p) % &p } else { from_le(&r.arr32()) % &p };
        let (a, b) = (v(r), v(r));
        let mut x = le32(&a).to_vec();
        x.extend(le32(&b));
        let want = le32(&k.hash(&a, &b)).to_vec();
        let got = attempt(|| poseidon(&x).unwrap());
        l.check(matches!(&got, Ok(g) if *g == want), "poseidon", || format!("poseidon({}) gave {:?} and not {}", hex(&x), got.as_ref().map(|g| hex(g)).ok(), hex(&want)));
        l.case(&x, true, || format!("poseidon({a}, {b})"));
        l.count("poseidon");
        if n % 3 == 0 {
            // pairs that look alike: exchanged, equal sum, equal difference, words exchanged, one half repeated
            let (one, d) = (BigUint::one(), from_le(&r.arr32()) % &p);
            let mut wx = x.clone();
            let (i, j) = (r.below(8), r.below(8));
            for t in 0..8 {
                wx.swap(8 * i + t, 8 * j + t);
            }
            let flip = |at: usize| {
                let mut y = x.clone();
                y[at] ^= 1;
                y[at + 32] ^= 1;
                y
            };
            let pair = |a: &BigUint, b: &BigUint| [le32(a), le32(b)].concat();
            for y in [pair(&b, &a), pair(&addm(&a, &one, &p), &subm(&b, &one, &p)), pair(&addm(&a, &d, &p), &addm(&b, &d, &p)), wx, flip(r.below(24)), pair(&a, &a), pair(&b, &b), pair(&a, &BigUint::zero()), pair(&BigUint::zero(), &a), x.clone()] {
                let (u, v) = (from_le(&y[..32]), from_le(&y[32..]));
                if u >= p || v >= p {
                    continue;
                }
                let want = le32(&k.hash(&u, &v)).to_vec();
                let got = attempt(|| poseidon(&y).unwrap());
                l.check(matches!(&got, Ok(g) if *g == want), "poseidon", || format!("poseidon({}) after poseidon({}) gave {:?} and not {}", hex(&y), hex(&x), got.as_ref().map(|g| hex(g)).ok(), hex(&want)));
                l.count("poseidon_lookalikes");
            }
        }
        if n % 10 == 0 {
            // lengths and values that are not two field elements
            let mut y = x.clone();
            let over = le32(&(&p + BigUint::from(r.below(977) as u32)));
            y[32 * (n / 10 % 2)..][..32].copy_from_slice(&over);
            for (what, y) in [("an element not below the modulus", y), ("63 bytes", x[..63].to_vec()), ("96 bytes", [x.clone(), vec![0; 32]].concat())] {
                let got = attempt(|| poseidon(&y).unwrap());
                l.check(got.is_err(), "poseidon-bad-input", || format!("poseidon of {what} gave {:?}", got));
                l.count("poseidon_refused");
            }
        }
    }
}
struct Sess {
    bad: Vec<(&'static str, String)>,
    cases: Vec<String>,
    counts: Vec<&'static str>,
}
fn yes(c: &[u8], p: &[u8], x: &[u8]) -> bool {
    attempt(|| verify(c, p, x).unwrap()).unwrap_or(false)
}
fn session(seed: u64, n: usize) -> Sess {
    let mut o = Sess { bad: vec![], cases: vec![], counts: vec![] };
    let mut r = Rng::new(seed, &format!("wasm-{n}"));
    let p = modp();
    let mut c = Circuit::gen(&mut r, n % 7 == 6);
    while c.cons.is_empty() || (n % 3 == 0 && c.outs + c.ins == 0) {
        c = Circuit::gen(&mut r, n % 7 == 6);
    }
    // the last public input often zero: leaving it out must not be the same
    for _ in 0..300 {
        if n % 3 != 1 || c.publics().last().map_or(false, |v| v.is_zero()) {
            break;
        }
        c = Circuit::gen(&mut r, false);
    }
    let npub = c.outs + c.ins;
    let dir = Scratch::new(&format!("c21-{n}"));
    let inst = circuit_reader::load_as_spartan_inst(dir.put("c.r1cs", &c.r1cs()), npub);
    let circ = bincode::serialize(&inst).unwrap();
    let (w, x) = (wtns(&c.wires), publics(&c.publics()));
    let proof = match attempt(|| prove(&circ, &w, &x).unwrap()) {
        Ok(p) => p,
        Err(e) => {
            o.bad.push(("prove-aborts", format!("proving a satisfied circuit aborted: {:?}; {}", e, c.dump())));
            return o;
        }
    };
    let mut say = |o: &mut Sess, want: bool, key: &'static str, what: String, ci: &[u8], pr: &[u8], x: &[u8]| {
        let got = yes(ci, pr, x);
        if got != want {
            o.bad.push((key, format!("{what}: the exported verifier says {got}; {}", c.dump())));
        }
        o.counts.push(if want { "accepted" } else { "refused" });
        o.cases.push(format!("{what} on {}", c.show()));
    };
    say(&mut o, true, "honest-refused", "honest proof".into(), &circ, &proof, &x);
    // other public inputs
    let one = BigUint::one();
    for i in 0..npub {
        let mut y = c.publics();
        y[i] = addm(&y[i], &one, &p);
        say(&mut o, false, "other-inputs-accepted", format!("public input {i} plus one"), &circ, &proof, &publics(&y));
        let mut b = x.clone();
        b[32 * i..32 * i + 32].reverse();
        if b != x {
            say(&mut o, false, "other-inputs-accepted", format!("public input {i} in the other byte order"), &circ, &proof, &b);
        }
        let mut b = x.clone();
        b[32 * i + r.below(32)] ^= 1 << r.below(8);
        say(&mut o, false, "other-inputs-accepted", format!("a bit of public input {i}"), &circ, &proof, &b);
        // the same residue written another way is not the same input
        let v = from_be(&x[32 * i..32 * i + 32]) + &p;
        if v < two256() {
            let mut b = x.clone();
            b[32 * i..32 * i + 32].copy_from_slice(&be32(&v));
            say(&mut o, false, "other-inputs-accepted", format!("public input {i} plus the modulus"), &circ, &proof, &b);
        }
    }
    if npub > 1 && c.publics()[0] != c.publics()[1] {
        let mut y = c.publics();
        y.swap(0, 1);
        say(&mut o, false, "other-inputs-accepted", "public inputs exchanged".into(), &circ, &proof, &publics(&y));
    }
    if npub > 0 {
        say(&mut o, false, "other-inputs-accepted", "public inputs cut short".into(), &circ, &proof, &x[..x.len() - 1]);
        say(&mut o, false, "other-inputs-accepted", "no public inputs".into(), &circ, &proof, &[]);
        say(&mut o, false, "other-inputs-accepted", "last public input left out".into(), &circ, &proof, &x[..x.len() - 32]);
        say(&mut o, false, "other-inputs-accepted", "first public input left out".into(), &circ, &proof, &x[32..]);
        if c.publics().last().unwrap().is_zero() {
            o.counts.push("last_input_zero");
        }
    }
    // an altered proof
    for _ in 0..10 {
        let mut q = proof.clone();
        let i = r.below(q.len());
        q[i] ^= 1 << r.below(8);
        // the length words before field elements are not read back, so they say nothing: bytes that
        // decode to the very same proof are not an altered proof
        if let Ok(Ok(t)) = attempt(|| bincode::deserialize::<libspartan::NIZK>(&q)) {
            if bincode::serialize(&t).unwrap() == proof {
                o.counts.push("same_proof_other_bytes");
                continue;
            }
        }
        say(&mut o, false, "altered-proof-accepted", format!("bit in byte {i} of the proof"), &circ, &q, &x);
    }
    say(&mut o, false, "altered-proof-accepted", "proof cut short".into(), &circ, &proof[..proof.len() - 1 - r.below(40)], &x);
    say(&mut o, false, "altered-proof-accepted", "empty proof".into(), &circ, &[], &x);
    // the same circuit with one coefficient changed
    let mut d = c.clone();
    let k = r.below(d.cons.len());
    for lc in d.cons[k].iter_mut() {
        if let Some(e) = lc.first_mut() {
            e.1 = addm(&e.1, &one, &p);
            break;
        }
    }
    if d.r1cs() != c.r1cs() {
        let other = bincode::serialize(&circuit_reader::load_as_spartan_inst(dir.put("d.r1cs", &d.r1cs()), npub)).unwrap();
        say(&mut o, false, "other-circuit-accepted", "another circuit".into(), &other, &proof, &x);
        // and a proof made for it with a witness that violates it
        if !d.sat(&d.wires) {
            if let Ok(q) = attempt(|| prove(&other, &w, &x).unwrap()) {
                say(&mut o, false, "false-proof-accepted", "a proof from a violating witness".into(), &other, &q, &x);
            }
        }
    }
    // a witness whose public wires are not the public inputs given
    if npub > 0 {
        let mut y = c.publics();
        let i = r.below(npub);
        y[i] = addm(&y[i], &one, &p);
        if let Ok(q) = attempt(|| prove(&circ, &w, &publics(&y)).unwrap()) {
            say(&mut o, false, "false-proof-accepted", "a proof for inputs the witness does not have".into(), &circ, &q, &publics(&y));
        }
    }
    // twice: both good, not the same
    if let Ok(q) = attempt(|| prove(&circ, &w, &x).unwrap()) {
        say(&mut o, true, "honest-refused", "second proof".into(), &circ, &q, &x);
        if q == proof {
            o.bad.push(("proof-repeats", format!("two proofs are the same bytes; {}", c.dump())));
        }
    }
    o
}
fn main() {
    let mut l = Ledger::new("C21");
    l.budget = std::time::Duration::from_secs(if l.thorough { 1200 } else { 300 });
    l.run(|l| {
        l.rule = "one case per witness file, hashed pair or (circuit, proof, inputs) put to the exported functions".into();
        let mut r = Rng::new(l.seed, "wasm");
        witness_files(l, &mut r);
        poseidon_entry(l, &mut r);
        let deadline = Instant::now() + l.budget;
        let (n, seed) = (l.n(24, 400), l.seed);
        let res = spartanchk::par(n, deadline, |i| attempt(|| session(seed, i)));
        for (i, x) in res.into_iter().enumerate() {
            match x {
                None => l.count("skipped"),
                Some(Err(e)) => {
                    println!("note: session {i} aborted: {:?}", e);
                    l.count("aborted");
                }
                Some(Ok(o)) => {
                    for (k, d) in o.bad {
                        l.violation(k, &d);
                    }
                    for k in o.counts {
                        l.count(k);
                    }
                    for c in o.cases {
                        l.case(&(&c, i), true, || c.clone());
                    }
                }
            }
        }
        l.require("accepted", 10);
        l.require("last_input_zero", 3);
        l.require("poseidon_lookalikes", 100);
        l.require("refused", 100);
    })
}
