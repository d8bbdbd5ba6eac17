//! C01, C02: the proof-system scalar against exact integers.
#![allow(dead_code, unused_imports)]
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vcommon::*;
use zeroize::Zeroize;

// nested as in the crate
mod scalar {
    #[path = "/repo/packages/Spartan-secq/src/scalar/scalar.rs"]
    mod scalar;
    pub use self::scalar::Scalar;
}
use scalar::Scalar;

fn val(s: &Scalar) -> BigUint {
    from_le(&s.to_bytes())
}
/// residue -> scalar along one of several public routes
fn make(r: &mut Rng, v: &BigUint, m: &BigUint) -> (Scalar, &'static str) {
    let c = v % m;
    let pick = r.below(7);
    let t = two256();
    match pick {
        0 => (Scalar::from_bytes(&le32(&c)).unwrap(), "from_bytes"),
        1 => (Scalar::from_raw(limbs(v)), "from_raw"),
        2 => {
            let mut b = [0u8; 64];
            b[..32].copy_from_slice(&le32(v));
            (Scalar::from_bytes_wide(&b), "from_bytes_wide")
        }
        3 => {
            // v + k*m spread over 512 bits
            let k = from_le(&r.bytes(31));
            let w = v + &k * m;
            let mut b = w.to_bytes_le();
            b.resize(64, 0);
            let mut a = [0u8; 64];
            a.copy_from_slice(&b);
            (Scalar::from_bytes_wide(&a), "from_bytes_wide(+km)")
        }
        4 => (-Scalar::from_bytes(&le32(&negm(&c, m))).unwrap(), "neg"),
        5 => {
            let x = from_le(&r.arr32()) % m;
            let y = subm(&c, &x, m);
            (Scalar::from_bytes(&le32(&x)).unwrap() + Scalar::from_bytes(&le32(&y)).unwrap(), "sum")
        }
        _ => {
            let _ = t;
            if c.bits() <= 64 {
                (Scalar::from(limbs(&c)[0]), "from_u64")
            } else {
                let x = from_le(&r.arr32()) % m;
                if x.is_zero() {
                    (Scalar::from_raw(limbs(&c)), "from_raw")
                } else {
                    let y = mulm(&c, &invm(&x, m).unwrap(), m);
                    (Scalar::from_bytes(&le32(&x)).unwrap() * Scalar::from_bytes(&le32(&y)).unwrap(), "product")
                }
            }
        }
    }
}
/// operand pairs: independent, or correlated so that sums, differences and products land on boundaries;
/// half of them with the boundary pattern in the internal (Montgomery) representation
fn pair(r: &mut Rng, m: &BigUint, rinv: &BigUint) -> (BigUint, BigUint) {
    let a = edge256(r, m);
    let small = BigUint::from((r.u64() >> r.below(64)) as u32 % 4);
    let b = match r.below(8) {
        0 => subm(&small, &a, m),
        1 => negm(&addm(&a, &small, m), m),
        2 => addm(&a, &small, m),
        3 => match invm(&a, m) {
            Some(i) => mulm(&addm(&small, &edge256(r, m), m), &i, m),
            None => small,
        },
        4 => a.clone(),
        _ => edge256(r, m),
    };
    if r.chance(1, 2) {
        (mulm(&a, rinv, m), mulm(&b, rinv, m))
    } else {
        (a, b)
    }
}
fn ck(l: &mut Ledger, op: &str, got: Option<Scalar>, want: &BigUint, args: &[&BigUint]) {
    let Some(got) = got else { return };
    l.count(&format!("op:{}", op));
    let g = val(&got);
    let ok = g == *want;
    let show = || format!("{}({}) -> {:x}, exact result {:x}", op, args.iter().map(|a| format!("{:x}", a)).collect::<Vec<_>>().join(", "), g, want);
    l.check(ok, &format!("op-{}", op), show);
    l.case(&(op, args.iter().map(|a| a.to_bytes_le()).collect::<Vec<_>>()), args.iter().any(|a| a.bits() > 1), show);
    // the same residue made along the plain route must compare equal, and a neighbour must not
    let canon = Scalar::from_bytes(&le32(want)).unwrap();
    l.check(got == canon && bool::from(got.ct_eq(&canon)) && !(got != canon), "equality-same", || format!("{} result {:x} is not == to the same residue decoded from bytes", op, want));
    let other = canon + Scalar::one();
    l.check(got != other && !bool::from(got.ct_eq(&other)), "equality-different", || format!("{:x} compares equal to its successor", want));
}

fn c01(l: &mut Ledger) {
    l.rule = "operands drawn from residues biased to limb, modulus and Montgomery-radix boundaries, each built along a random public route; every result is compared with exact integers mod p and with the same residue decoded from bytes; non-trivial = some operand > 1".into();
    let m = modp();
    let mut r = Rng::new(l.seed, "C01");
    let n = l.n(80_000, 2_500_000);
    let rinv = invm(&(two256() % &m), &m).unwrap();
    for i in 0..n {
        if l.out_of_time() {
            l.addc("stopped_by_budget", 1);
            break;
        }
        let (av, bv) = pair(&mut r, &m, &rinv);
        let (ar, br) = (&av % &m, &bv % &m);
        let x = l.must("construct", || format!("{:x}", av), || make(&mut r, &av, &m));
        let Some((a, route)) = x else { continue };
        ck(l, &format!("make/{}", route), Some(a), &ar, &[&av]);
        let Some((b, route)) = l.must("construct", || format!("{:x}", bv), || make(&mut r, &bv, &m)) else { continue };
        ck(l, &format!("make/{}", route), Some(b), &br, &[&bv]);
        let sum = addm(&ar, &br, &m);
        let dif = subm(&ar, &br, &m);
        let pro = mulm(&ar, &br, &m);
        let d = || format!("{:x} {:x}", ar, br);
        macro_rules! op {
            ($n:expr, $w:expr, $e:expr) => {{
                let v = l.must($n, d, || $e);
                ck(l, $n, v, $w, &[&ar, &br]);
            }};
        }
        match i % 4 {
            0 => {
                op!("add", &sum, a + b);
                op!("sub", &dif, a - b);
                op!("mul", &pro, a * b);
            }
            1 => {
                op!("add_ref", &sum, &a + &b);
                op!("sub_ref", &dif, &a - &b);
                op!("mul_ref", &pro, &a * &b);
            }
            2 => {
                op!("add_mixed", &sum, &a + b);
                op!("sub_mixed", &dif, &a - b);
                op!("mul_mixed", &pro, &a * b);
                op!("add_mixed2", &sum, a + &b);
                op!("sub_mixed2", &dif, a - &b);
                op!("mul_mixed2", &pro, a * &b);
            }
            _ => {
                op!("add_assign", &sum, { let mut t = a; t += b; t });
                op!("sub_assign", &dif, { let mut t = a; t -= b; t });
                op!("mul_assign", &pro, { let mut t = a; t *= b; t });
                op!("add_assign_ref", &sum, { let mut t = a; t += &b; t });
                op!("sub_assign_ref", &dif, { let mut t = a; t -= &b; t });
                op!("mul_assign_ref", &pro, { let mut t = a; t *= &b; t });
                op!("add_method", &sum, a.add(&b));
                op!("sub_method", &dif, a.sub(&b));
                op!("mul_method", &pro, a.mul(&b));
            }
        }
        op!("square", &mulm(&ar, &ar, &m), a.square());
        op!("double", &addm(&ar, &ar, &m), a.double());
        op!("neg", &negm(&ar, &m), if i % 2 == 0 { -a } else { -&a });
        op!("neg_method", &negm(&ar, &m), a.neg());
        let c = (i % 3 == 0) as u8;
        op!("select", if c == 1 { &br } else { &ar }, Scalar::conditional_select(&a, &b, Choice::from(c)));
        let eqw = ar == br;
        l.check((a == b) == eqw && bool::from(a.ct_eq(&b)) == eqw, "equality", || format!("{:x} == {:x}", ar, br));
        if i % 16 == 0 {
            op!("conditional_assign", if c == 1 { &br } else { &ar }, { let mut t = a; t.conditional_assign(&b, Choice::from(c)); t });
            op!("conditional_swap", if c == 1 { &br } else { &ar }, { let mut t = a; let mut u = b; Scalar::conditional_swap(&mut t, &mut u, Choice::from(c)); t });
            let w = r.u64() >> r.below(64);
            let w = *r.pick(&[w, 0, 1, u64::MAX, 1 << 63, 0xfffffffefffffc2f]);
            op!("from_u64", &BigUint::from(w), Scalar::from(w));
            op!("clone", &ar, a.clone());
            let k = r.below(6);
            let xs: Vec<BigUint> = (0..k).map(|_| edge256(&mut r, &m) % &m).collect();
            let ss: Vec<Scalar> = xs.iter().map(|x| Scalar::from_raw(limbs(x))).collect();
            let ws = xs.iter().fold(BigUint::zero(), |s, x| addm(&s, x, &m));
            let wp = xs.iter().fold(BigUint::one(), |s, x| mulm(&s, x, &m));
            op!("sum", &ws, ss.iter().sum::<Scalar>());
            op!("sum_owned", &ws, ss.iter().copied().sum::<Scalar>());
            op!("product", &wp, ss.iter().product::<Scalar>());
            op!("product_owned", &wp, ss.iter().copied().product::<Scalar>());
        }
        if i % 64 == 1 {
            let e = if r.chance(1, 4) { BigUint::from(r.below(20) as u32) } else { edge256(&mut r, &m) };
            let w = powm(&ar, &e, &m);
            op!("pow", &w, a.pow(&limbs(&e)));
            op!("pow_vartime", &w, a.pow_vartime(&limbs(&e)));
        }
        if i % 16 == 3 {
            let iv = l.must("invert", d, || { let o = a.invert(); if bool::from(o.is_some()) { Some(o.unwrap()) } else { None } });
            if let Some(iv) = iv {
                match (iv, ar.is_zero()) {
                    (None, true) => l.count("op:invert_zero"),
                    (Some(v), false) => {
                        let w = invm(&ar, &m).unwrap();
                        ck(l, "invert", Some(v), &w, &[&ar]);
                    }
                    (got, z) => {
                        l.violation("op-invert", &format!("invert({:x}) presence wrong: zero={} got={:?}", ar, z, got.map(|g| hex(&g.to_bytes()))));
                    }
                }
            }
        }
        if i % 128 == 5 {
            let k = *r.pick(&[0usize, 1, 2, 3, 5, 8, 17]);
            let xs: Vec<BigUint> = (0..k).map(|_| loop { let v = edge256(&mut r, &m) % &m; if !v.is_zero() { break v } }).collect();
            let mut ss: Vec<Scalar> = xs.iter().map(|x| make(&mut r, x, &m).0).collect();
            let ret = l.must("batch_invert", || format!("{:?}", xs.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>()), || Scalar::batch_invert(&mut ss));
            if ret.is_some() {
                let all = xs.iter().fold(BigUint::one(), |s, x| mulm(&s, x, &m));
                ck(l, "batch_invert_product", ret, &invm(&all, &m).unwrap(), &[&all]);
                for (x, s) in xs.iter().zip(ss.iter()) {
                    ck(l, "batch_invert", Some(*s), &invm(x, &m).unwrap(), &[x]);
                }
            }
            if k > 0 {
                // a zero among the inputs has no inverse: never a value
                let mut ss2: Vec<Scalar> = xs.iter().map(|x| Scalar::from_raw(limbs(x))).collect();
                let p = r.below(k);
                ss2[p] = Scalar::zero();
                let got = attempt(|| Scalar::batch_invert(&mut ss2));
                l.count("op:batch_invert_zero");
                l.check(got.is_err(), "op-batch_invert-zero", || "batch inversion of a list containing zero returned a value".into());
            }
        }
    }
    // long chains: results fed back, compared at every step
    let chains = l.n(60, 600);
    for c in 0..chains {
        let mut pool: Vec<(Scalar, BigUint)> = (0..4).map(|_| { let v = edge256(&mut r, &m) % &m; (Scalar::from_bytes(&le32(&v)).unwrap(), v) }).collect();
        pool.push((Scalar::zero(), BigUint::zero()));
        pool.push((Scalar::one(), BigUint::one()));
        pool.push((Scalar::default(), BigUint::zero()));
        for step in 0..200 {
            let (i, j) = (r.below(pool.len()), r.below(pool.len()));
            let (a, av) = pool[i].clone();
            let (b, bv) = pool[j].clone();
            let op = r.below(7);
            let x = l.must("chain", || format!("chain {} step {}", c, step), || match op {
                0 => a + b,
                1 => a - b,
                2 => a * b,
                3 => a.square(),
                4 => -a,
                5 => a.double(),
                _ => Scalar::from_bytes(&a.to_bytes()).unwrap() - b,
            });
            let w = match op {
                0 => addm(&av, &bv, &m),
                1 => subm(&av, &bv, &m),
                2 => mulm(&av, &bv, &m),
                3 => mulm(&av, &av, &m),
                4 => negm(&av, &m),
                5 => addm(&av, &av, &m),
                _ => subm(&av, &bv, &m),
            };
            let Some(x) = x else { break };
            l.count("chain_steps");
            let g = val(&x);
            if !l.check(g == w, "chain", || format!("chain {} step {} op {}: {:x} want {:x}", c, step, op, g, w)) {
                break;
            }
            let z = x == Scalar::zero();
            l.check(z == w.is_zero(), "chain-zero", || format!("zero test of {:x}", w));
            for (s, v) in pool.iter() {
                l.check((x == *s) == (w == *v), "chain-equality", || format!("{:x} vs {:x}: equality wrong (chain {} step {})", w, v, c, step));
            }
            let k = r.below(pool.len());
            pool[k] = (x, w);
        }
    }
    let mut z = Scalar::from(7u64);
    z.zeroize();
    l.check(z == Scalar::zero() && val(&z).is_zero(), "zeroize", || "zeroize leaves a non-zero value".into());
    // random elements come from the rng and are canonical
    let a = Scalar::random(&mut Rng::new(l.seed, "x"));
    let b = Scalar::random(&mut Rng::new(l.seed, "x"));
    let c = Scalar::random(&mut Rng::new(l.seed, "y"));
    l.check(a == b && a != c && val(&a) < m, "random", || "random() is not a function of the generator".into());
    let mut spread = Spread::new();
    let mut r = Rng::new(l.seed, "spread");
    for i in 0..200 {
        spread.add(&Scalar::random(&mut r).to_bytes());
        let high = i % 70;
        if let Some(x) = l.must("random", || format!("{high} bytes of ones first"), || Scalar::random(&mut HighRng { high, rest: Rng::new(i as u64, "high") })) {
            l.check(val(&x) < m, "random", || format!("{high} bytes of ones first: {:x}", val(&x)));
        }
    }
    l.check(spread.stuck() == 0, "random", || format!("{} of 256 bits never change in {} random scalars", spread.stuck(), spread.n));
    l.require("op:mul", 1000);
    l.require("op:invert", 500);
    l.require("op:invert_zero", 3);
    l.require("chain_steps", 5000);
}

fn c02(l: &mut Ledger) {
    l.rule = "32-byte strings around 0, p, 2^256 and limb boundaries plus random ones; 64-byte strings likewise; every truncation of a serialised scalar; non-trivial = not all-zero".into();
    let m = modp();
    let mut r = Rng::new(l.seed, "C02");
    let n = l.n(60_000, 2_000_000);
    let mut strings: Vec<BigUint> = vec![];
    for k in 0..256usize {
        // every single-bit and single-byte neighbour of the modulus
        let bit = BigUint::one() << k;
        strings.push(if (&m >> k) % BigUint::from(2u32) == BigUint::one() { &m - &bit } else { &m + &bit });
        if m > bit {
            strings.push(&m - &bit);
        }
        strings.push((&m + &bit) % two256());
    }
    for k in 0..64u32 {
        strings.push(&m - BigUint::from(k));
        strings.push(&m + BigUint::from(k));
        strings.push(two256() - BigUint::from(k + 1));
    }
    for i in 0..n + strings.len() {
        if l.out_of_time() {
            break;
        }
        let v = if i < strings.len() { strings[i].clone() } else { edge256(&mut r, &m) };
        let v = v % two256();
        let b = le32(&v);
        let want = v < m;
        let got = l.must("from_bytes", || hex(&b), || { let o = Scalar::from_bytes(&b); if bool::from(o.is_some()) { Some(o.unwrap()) } else { None } });
        let Some(got) = got else { continue };
        l.case(&b, !v.is_zero(), || format!("decode {} accept={}", hex(&b), want));
        l.count(if want { "decode_accept" } else { "decode_reject" });
        l.check(got.is_some() == want, "decode-accepts", || format!("decoding {} (LE) accepted={} but it is {} p", hex(&b), got.is_some(), if want { "below" } else { "not below" }));
        if let (Some(s), true) = (got, want) {
            let e = s.to_bytes();
            l.check(e == b, "decode-value", || format!("decode then encode {} -> {}", hex(&b), hex(&e)));
            // value really is v: combine with arithmetic
            let two = Scalar::from(2u64);
            l.check(from_le(&(s * two).to_bytes()) == mulm(&v, &BigUint::from(2u32), &m), "decode-arith", || format!("{} decodes to a different residue", hex(&b)));
            if i % 8 == 0 {
                let txt = format!("{:?}", s);
                l.check(txt == format!("0x{}", hex(&be32(&v))), "debug", || format!("text of {:x} is {}", v, txt));
                let ser = bincode::serialize(&s).unwrap();
                let back: Option<Result<Scalar, String>> = l.must("serde", || hex(&b), || bincode::deserialize::<Scalar>(&ser).map_err(|e| e.to_string()));
                if let Some(back) = back {
                    l.check(matches!(&back, Ok(x) if *x == s && x.to_bytes() == b), "serde-roundtrip", || format!("bincode round trip of {} gave {:?}", hex(&b), back.map(|x| hex(&x.to_bytes()))));
                }
                let js = serde_json::to_string(&s).unwrap();
                let back = l.must("serde", || js.clone(), || serde_json::from_str::<Scalar>(&js).map_err(|e| e.to_string()));
                if let Some(back) = back {
                    l.check(matches!(&back, Ok(x) if *x == s), "serde-json-roundtrip", || format!("json round trip of {}", js));
                }
                l.count("serde_roundtrip");
                // two different scalars never serialise alike
                let t = s + Scalar::one();
                l.check(bincode::serialize(&t).unwrap() != ser, "serde-injective", || format!("{} and its successor serialise alike", hex(&b)));
            }
            if i % 512 == 1 {
                let ser = bincode::serialize(&s).unwrap();
                for cut in 0..ser.len() {
                    let got = l.must("serde-truncated", || format!("{} of {} bytes", cut, ser.len()), || bincode::deserialize::<Scalar>(&ser[..cut]).is_ok());
                    l.count("truncations");
                    l.check(got != Some(true), "serde-truncated", || format!("{} of {} bytes decoded", cut, ser.len()));
                }
                let full: Vec<u8> = s.to_bytes().to_vec();
                for cut in 0..32 {
                    let js = serde_json::to_string(&full[..cut]).unwrap();
                    let got = l.must("serde-truncated", || js.clone(), || serde_json::from_str::<Scalar>(&js).is_ok());
                    l.count("truncations");
                    l.check(got != Some(true), "serde-truncated", || format!("json list of {} bytes decoded", cut));
                }
            }
        }
        // wide
        let hi = if i < strings.len() { strings[strings.len() - 1 - i].clone() % two256() } else { edge256(&mut r, &m) };
        let w = &v + &hi * two256();
        let mut wb = [0u8; 64];
        wb[..32].copy_from_slice(&b);
        wb[32..].copy_from_slice(&le32(&hi));
        let got = l.must("wide", || hex(&wb), || Scalar::from_bytes_wide(&wb));
        if let Some(g) = got {
            l.case(&wb[..], true, || format!("wide {}", hex(&wb)));
            l.count("wide");
            let want = &w % &m;
            let gv = val(&g);
            l.check(gv == want, "wide", || format!("wide decoding of {} gave {:x}, exact {:x}", hex(&wb), gv, want));
            l.check(g == Scalar::from_bytes(&le32(&want)).unwrap(), "wide-eq", || format!("wide decoding of {} is not equal to its residue", hex(&wb)));
        }
        let got = l.must("raw", || hex(&b), || Scalar::from_raw(limbs(&v)));
        if let Some(g) = got {
            let want = &v % &m;
            l.check(val(&g) == want && g == Scalar::from_bytes(&le32(&want)).unwrap(), "raw", || format!("from_raw({:x})", v));
        }
    }
    l.require("decode_accept", 1000);
    l.require("decode_reject", 300);
    l.require("wide", 1000);
    l.require("truncations", 100);
}
fn main() {
    let id = std::env::args().nth(1).unwrap();
    let l = Ledger::new(&id);
    match id.as_str() {
        "C01" => l.run(c01),
        "C02" => l.run(c02),
        _ => panic!("unknown property"),
    }
}
