//! C19: the Poseidon hash against an independent generation of its parameters and a plain permutation.
use ff::PrimeField;
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use ::poseidon::poseidon_k256::{hash, FieldElement as F};
use ::poseidon::{Poseidon, PoseidonConstants};
use secq256k1::field::{field_secq::FieldElement as G, BaseField};
use vcommon::poseidon::{k256_params, Params};
use vcommon::{from_be, from_le, hex, edge256, modp, modn, subm, Ledger, Rng};

fn f<T: PrimeField>(v: &BigUint) -> T {
    T::from_str_vartime(&v.to_str_radix(10)).unwrap()
}
fn b<T: PrimeField>(v: &T) -> BigUint {
    // bit by bit through the field itself would trust too little; the representation is big-endian
    from_be(v.to_repr().as_ref())
}
fn mine<T: PrimeField>(p: &Params) -> PoseidonConstants<T> {
    PoseidonConstants::new(p.rc.iter().map(f).collect(), p.mds.iter().map(|r| r.iter().map(f).collect()).collect(), p.rf, p.rp)
}
fn operand(r: &mut Rng, p: &BigUint) -> BigUint {
    match r.below(6) {
        0 => edge256(r, p) % p,
        1 => BigUint::from(r.below(5) as u32),
        2 => p - BigUint::from(1 + r.below(5) as u32),
        3 => BigUint::one() << r.below(256),
        _ => from_le(&r.arr32()),
    }
    .clone()
        % p
}
fn main() {
    let mut l = Ledger::new("C19");
    l.budget = std::time::Duration::from_secs(if l.thorough { 1200 } else { 240 });
    l.run(|l| {
        l.rule = "one case per hashed pair or per hash by a reused instance, compared with the reference permutation".into();
        let k = k256_params();
        let mut r = Rng::new(l.seed, "poseidon");
        let p = k.p.clone();
        // the library's own constants
        let special = [BigUint::zero(), BigUint::one(), &p - 1u32, (&p - 1u32) >> 1usize, BigUint::from(3u32), (BigUint::one() << 255usize), k.rc[0].clone(), &p - &k.rc[1], &p - &k.rc[2]];
        let mut pairs: Vec<(BigUint, BigUint)> = vec![];
        for x in &special {
            for y in &special {
                pairs.push((x.clone(), y.clone()));
            }
        }
        for i in 0..l.n(1500, 60000) {
            let (x, y) = (operand(&mut r, &p), operand(&mut r, &p));
            pairs.push(if i % 10 == 0 { (x.clone(), x) } else { (x, y) });
        }
        // inputs that make a state element zero, one or small after the first addition of constants
        for i in 0..20u32 {
            pairs.push((subm(&BigUint::from(i), &k.rc[1], &p), subm(&BigUint::from(20 - i), &k.rc[2], &p)));
        }
        let mut seen = std::collections::HashMap::new();
        for (x, y) in &pairs {
            if l.out_of_time() {
                break;
            }
            let Some(got) = l.must("hash-aborts", || format!("hash({x}, {y})"), || hash(&[f(x), f(y)])) else { continue };
            let want = k.hash(x, y);
            l.check(b::<F>(&got) == want, "hash", || format!("hash({x}, {y}) = {} and not {want}", b::<F>(&got)));
            // and encoded and compared like any element
            l.check(from_le(&got.to_bytes()) == want, "hash-bytes", || format!("hash({x}, {y}) encodes as {}", hex(&got.to_bytes())));
            if let Some((a, c)) = seen.insert(want.clone(), (x.clone(), y.clone())) {
                l.check((&a, &c) == (x, y), "collision", || format!("hash({x}, {y}) = hash({a}, {c})"));
            }
            l.case(&(x.to_bytes_le(), y.to_bytes_le()), true, || format!("hash({x}, {y}) = {want}"));
        }
        // one instance used again and again, also on other parameters and on the other field
        for i in 0..l.n(40, 800) {
            if l.out_of_time() {
                break;
            }
            reuse::<F>(l, &mut r, &k, &p, "F_p", i == 0);
            let mut q = k.clone();
            q.p = modn();
            for x in q.rc.iter_mut().chain(q.mds.iter_mut().flatten()) {
                *x = &*x % &q.p;
            }
            let m = q.p.clone();
            reuse::<G>(l, &mut r, &q, &m, "F_n", i == 0);
        }
        // the shared constants, first touched by many threads at once
        let want: Vec<BigUint> = pairs.iter().take(64).map(|(x, y)| k.hash(x, y)).collect();
        let bad: Vec<usize> = std::thread::scope(|s| {
            let h: Vec<_> = (0..8)
                .map(|t| {
                    let (pairs, want) = (&pairs, &want);
                    s.spawn(move || (0..64).filter(|i| i % 2 == t % 2 && b::<F>(&hash(&[f(&pairs[*i].0), f(&pairs[*i].1)])) != want[*i]).collect::<Vec<_>>())
                })
                .collect();
            h.into_iter().flat_map(|h| h.join().unwrap_or(vec![999])).collect()
        });
        l.check(bad.is_empty(), "concurrent", || format!("concurrent hashing went wrong for pairs {:?}", bad));
        l.addc("concurrent_hashes", 256);
        // and for some seconds, so that two calls meet at every point of each
        let operands: Vec<[F; 2]> = pairs.iter().take(64).map(|(x, y)| [f(&x), f(&y)]).collect();
        let answers: Vec<F> = want.iter().map(f).collect();
        let end = std::time::Instant::now() + std::time::Duration::from_secs(l.n(5, 60) as u64);
        let outs: Vec<(u64, Option<usize>)> = std::thread::scope(|s| {
            let h: Vec<_> = (0..8usize)
                .map(|t| {
                    let (operands, answers) = (&operands, &answers);
                    s.spawn(move || {
                        let (mut n, mut i) = (0u64, t);
                        while std::time::Instant::now() < end {
                            i = (i * 5 + 2 * t + 1) % operands.len();
                            n += 1;
                            if hash(&operands[i]) != answers[i] {
                                return (n, Some(i));
                            }
                        }
                        (n, None)
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or((0, Some(999)))).collect()
        });
        l.addc("concurrent_hashes_hammered", outs.iter().map(|o| o.0).sum());
        l.require("concurrent_hashes_hammered", 500);
        for i in outs.iter().filter_map(|o| o.1) {
            l.violation("concurrent", &format!("hashing beside other threads: another answer for pair {i} ({:?})", pairs.get(i)));
        }
        l.require("reused_hashes", 100);
    })
}
fn reuse<T: PrimeField>(l: &mut Ledger, r: &mut Rng, k: &Params, p: &BigUint, name: &str, standard: bool) {
    let mut q = k.clone();
    if !standard {
        q.rf = 2 * r.range(0, 4);
        q.rp = r.below(57);
        if r.chance(1, 2) {
            q.rc = (0..(q.rf + q.rp) * 3).map(|_| operand(r, p)).collect();
            q.mds = (0..3).map(|_| (0..3).map(|_| operand(r, p)).collect()).collect();
        } else {
            q.rc.truncate((q.rf + q.rp) * 3);
        }
    }
    let mut h = Poseidon::<T>::new(mine(&q));
    let mut prev: Option<(BigUint, BigUint)> = None;
    for n in 0..6 {
        let (x, y) = match &prev {
            Some(p) if r.chance(1, 4) => p.clone(),
            _ => (operand(r, p), operand(r, p)),
        };
        prev = Some((x.clone(), y.clone()));
        let got = l.must("reuse-aborts", || format!("use {n} of one instance over {name}, {} full and {} partial rounds: hash({x}, {y})", q.rf, q.rp), || h.hash(&[f(&x), f(&y)]));
        let Some(got) = got else { return };
        let want = q.hash(&x, &y);
        l.check(b::<T>(&got) == want, "reuse", || format!("use {n} of one instance over {name}, {} full and {} partial rounds: hash({x}, {y}) = {} and not {want}", q.rf, q.rp, b::<T>(&got)));
        l.count("reused_hashes");
        l.case(&(name, n, x.to_bytes_le(), y.to_bytes_le()), true, || format!("use {n} over {name}, rounds {}+{}: hash({x}, {y})", q.rf, q.rp));
    }
}
