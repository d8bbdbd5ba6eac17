//! C14, C15: the two fields of the curve package and its group scalar against exact integers.
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use secq256k1::elliptic_curve::ops::Reduce;
use secq256k1::elliptic_curve::IsHigh;
use secq256k1::field::{field_secp, field_secq, BaseField, SqrtRatio};
use secq256k1::{FieldBytes, Scalar as GScalar, U256};
use ff::{Field, PrimeField, PrimeFieldBits};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vcommon::*;
use zeroize::Zeroize;

fn fb(b: &[u8; 32]) -> FieldBytes {
    *FieldBytes::from_slice(b)
}
fn chain_op(r: &mut Rng) -> usize {
    r.below(12)
}

macro_rules! field_checks {
    ($modname:ident, $F:ty, $m:expr, $z:expr, $tag:expr) => {
        mod $modname {
            use super::*;
            type F = $F;
            fn m() -> BigUint {
                $m
            }
            fn val(f: &F) -> BigUint {
                from_le(&f.to_bytes())
            }
            fn of(v: &BigUint) -> F {
                F::from_bytes(&le32(&(v % m()))).unwrap()
            }
            /// the residue along one of several public routes
            fn make(r: &mut Rng, v: &BigUint) -> F {
                let m = m();
                let c = v % &m;
                match r.below(7) {
                    0 => of(&c),
                    1 => F::from_raw(limbs(v)),
                    2 => {
                        let w = v + from_le(&r.bytes(31)) * &m;
                        let mut b = w.to_bytes_le();
                        b.resize(64, 0);
                        let mut a = [0u8; 64];
                        a.copy_from_slice(&b);
                        F::from_bytes_wide(&a)
                    }
                    3 => -of(&negm(&c, &m)),
                    4 => {
                        let x = from_le(&r.arr32()) % &m;
                        of(&x) + of(&subm(&c, &x, &m))
                    }
                    5 => F::from_repr(fb(&be32(&c))).unwrap(),
                    _ => {
                        if c.bits() <= 64 {
                            F::from(limbs(&c)[0])
                        } else {
                            let x = from_le(&r.arr32()) % &m + BigUint::one();
                            match invm(&x, &m) {
                                Some(i) => of(&x) * of(&mulm(&c, &i, &m)),
                                None => of(&c),
                            }
                        }
                    }
                }
            }
            fn ck(l: &mut Ledger, op: &str, got: Option<F>, want: &BigUint, args: &[&BigUint]) {
                let Some(got) = got else { return };
                let g = val(&got);
                l.count(&format!("{}:{}", $tag, op));
                let show = || format!("{} {}({}) -> {:x}, exact {:x}", $tag, op, args.iter().map(|a| format!("{:x}", a)).collect::<Vec<_>>().join(", "), g, want);
                l.check(g == *want, &format!("{}-{}", $tag, op), show);
                l.case(&($tag, op, args.iter().map(|a| a.to_bytes_le()).collect::<Vec<_>>()), args.iter().any(|a| a.bits() > 1), show);
                let canon = of(want);
                l.check(got == canon && bool::from(got.ct_eq(&canon)) && !(got != canon), &format!("{}-equality-same", $tag), || format!("{} result {:x} is not == to the same residue decoded from bytes", op, want));
                let other = canon + F::one();
                l.check(got != other && !bool::from(got.ct_eq(&other)), &format!("{}-equality-different", $tag), || format!("{:x} compares equal to its successor", want));
            }
            pub fn arith(l: &mut Ledger, n: usize) {
                let m = m();
                let mut r = Rng::new(l.seed, concat!("C14", $tag));
                let rinv = invm(&(two256() % &m), &m).unwrap();
                // trait constants
                l.check(bool::from(F::zero().is_zero()) && val(&F::zero()).is_zero() && val(&F::one()).is_one(), concat!($tag, "-constants"), || "zero/one".into());
                l.check(val(&<F as Field>::zero()).is_zero() && val(&<F as Field>::one()).is_one() && val(&F::default()).is_zero() && val(&F::ZERO).is_zero() && val(&F::ONE).is_one(), concat!($tag, "-constants"), || "zero/one/default".into());
                let s = {
                    let mut t = &m - BigUint::one();
                    let mut s = 0u32;
                    while (&t & BigUint::one()).is_zero() {
                        t >>= 1usize;
                        s += 1
                    }
                    s
                };
                let root = val(&F::root_of_unity());
                let gen = val(&<F as PrimeField>::multiplicative_generator());
                l.check(F::S == s, concat!($tag, "-two-adicity"), || format!("S is {}, the group order has 2-adicity {}", F::S, s));
                l.check(powm(&root, &(BigUint::one() << F::S as usize), &m).is_one() && !powm(&root, &(BigUint::one() << (F::S as usize - 1)), &m).is_one(), concat!($tag, "-root-of-unity"), || format!("{:x} is not a primitive 2^S-th root of unity", root));
                l.check(!is_square(&gen, &m), concat!($tag, "-generator"), || format!("{:x} is a square, so not a generator", gen));
                l.check(F::NUM_BITS == 256 && F::CAPACITY == 255, concat!($tag, "-bits"), || "NUM_BITS/CAPACITY".into());
                for i in 0..n {
                    if l.out_of_time() {
                        l.addc("stopped_by_budget", 1);
                        break;
                    }
                    let (av, bv) = opair(&mut r, &m, &rinv);
                    let (a, b) = (make(&mut r, &av), make(&mut r, &bv));
                    let sh = || format!("{} a={:x} b={:x}", $tag, av, bv);
                    let ab = [&av, &bv];
                    let t = l.must(concat!($tag, "-add"), sh, || a + b);
                    ck(l, "add", t, &addm(&av, &bv, &m), &ab);
                    let t = l.must(concat!($tag, "-sub"), sh, || a - b);
                    ck(l, "sub", t, &subm(&av, &bv, &m), &ab);
                    let t = l.must(concat!($tag, "-mul"), sh, || a * b);
                    ck(l, "mul", t, &mulm(&av, &bv, &m), &ab);
                    let t = l.must(concat!($tag, "-square"), sh, || a.square());
                    ck(l, "square", t, &mulm(&av, &av, &m), &ab[..1]);
                    let t = l.must(concat!($tag, "-double"), sh, || a.double());
                    ck(l, "double", t, &addm(&av, &av, &m), &ab[..1]);
                    let t = l.must(concat!($tag, "-neg"), sh, || -a);
                    ck(l, "neg", t, &negm(&av, &m), &ab[..1]);
                    let odd = !(&av & BigUint::one()).is_zero();
                    l.check(bool::from(a.is_odd()) == odd && bool::from(a.is_even()) != odd, concat!($tag, "-parity"), || format!("parity of {:x}", av));
                    l.check(bool::from(a.is_zero()) == av.is_zero() && a.is_zero_vartime() == av.is_zero(), concat!($tag, "-is_zero"), || format!("is_zero of {:x}", av));
                    l.check((a == b) == (av == bv) && bool::from(a.ct_eq(&b)) == (av == bv), concat!($tag, "-eq"), || format!("{:x} == {:x} says {}", av, bv, a == b));
                    if i % 4 == 0 {
                        // every spelling of the operators
                        for (op, want) in [("add", addm(&av, &bv, &m)), ("sub", subm(&av, &bv, &m)), ("mul", mulm(&av, &bv, &m))] {
                            let fs: Vec<F> = match op {
                                "add" => { let mut x = a; x += b; let mut y = a; y += &b; vec![&a + &b, a + &b, &a + b, x, y, a.add(&b)] }
                                "sub" => { let mut x = a; x -= b; let mut y = a; y -= &b; vec![&a - &b, a - &b, &a - b, x, y, a.sub(&b)] }
                                _ => { let mut x = a; x *= b; let mut y = a; y *= &b; vec![&a * &b, a * &b, &a * b, x, y, a.mul(&b)] }
                            };
                            for (k, f) in fs.into_iter().enumerate() {
                                ck(l, &format!("{}-form{}", op, k), Some(f), &want, &ab);
                            }
                        }
                        ck(l, "neg-ref", Some(-&a), &negm(&av, &m), &ab[..1]);
                        ck(l, "cube", Some(a.cube()), &mulm(&av, &mulm(&av, &av, &m), &m), &ab[..1]);
                        ck(l, "square-trait", Some(<F as Field>::square(&a)), &mulm(&av, &av, &m), &ab[..1]);
                        ck(l, "double-trait", Some(<F as Field>::double(&a)), &addm(&av, &av, &m), &ab[..1]);
                        let c = r.chance(1, 2);
                        ck(l, "select", Some(F::conditional_select(&a, &b, Choice::from(c as u8))), if c { &bv } else { &av }, &ab);
                        let mut x = a;
                        x.conditional_assign(&b, Choice::from(c as u8));
                        ck(l, "assign", Some(x), if c { &bv } else { &av }, &ab);
                        let (mut x, mut y) = (a, b);
                        F::conditional_swap(&mut x, &mut y, Choice::from(c as u8));
                        ck(l, "swap", Some(if c { y } else { x }), &av, &ab);
                        let mut x = a;
                        x.zeroize();
                        ck(l, "zeroize", Some(x), &BigUint::zero(), &ab[..1]);
                    }
                    if i % 8 == 0 {
                        let want = invm(&av, &m);
                        if let Some(inv) = l.must(concat!($tag, "-invert"), sh, || a.invert()) {
                            l.check(bool::from(inv.is_some()) == want.is_some(), concat!($tag, "-invert-some"), || format!("invert({:x}) is_some={:?}", av, inv.is_some()));
                            if let (Some(w), true) = (&want, bool::from(inv.is_some())) {
                                ck(l, "invert", Some(inv.unwrap()), w, &ab[..1]);
                            }
                        }
                        if let Some(inv) = l.must(concat!($tag, "-invert"), sh, || <F as Field>::invert(&a)) {
                            l.check(bool::from(inv.is_some()) == want.is_some() && (want.is_none() || val(&inv.unwrap()) == want.clone().unwrap()), concat!($tag, "-invert-trait"), || format!("trait invert({:x})", av));
                        }
                        let e = edge256(&mut r, &m);
                        let el = limbs(&e);
                        let want = powm(&av, &e, &m);
                        let p = l.must(concat!($tag, "-pow"), sh, || a.pow(&el));
                        ck(l, "pow", p, &want, &[&av, &e]);
                        let p = l.must(concat!($tag, "-pow_vartime"), sh, || <F as Field>::pow_vartime(&a, el));
                        ck(l, "pow_vartime", p, &want, &[&av, &e]);
                        let p = l.must(concat!($tag, "-pow_vartime"), sh, || a.pow_vartime(&el));
                        ck(l, "pow_vartime", p, &want, &[&av, &e]);
                        let es = e.clone() % &m;
                        let p = l.must(concat!($tag, "-pow_by_self"), sh, || a.pow_by_self(&of(&es)));
                        ck(l, "pow_by_self", p, &powm(&av, &es, &m), &[&av, &es]);
                        // integers and decimal strings
                        let w = r.u64() >> r.below(64);
                        ck(l, "from_u64", Some(F::from(w)), &(BigUint::from(w) % &m), &[&BigUint::from(w)]);
                        let st = if r.chance(1, 6) { format!("0{}", e) } else { format!("{}", e) };
                        let got = F::from_str_vartime(&st);
                        let canonical = st == "0" || !st.starts_with('0');
                        if canonical {
                            l.check(got.is_some(), concat!($tag, "-from_str"), || format!("from_str_vartime({}) is None", st));
                            ck(l, "from_str", got, &(&e % &m), &[&e]);
                        } else {
                            l.check(got.is_none() || val(&got.unwrap()) == &e % &m, concat!($tag, "-from_str"), || format!("from_str_vartime({}) is a wrong value", st));
                        }
                        for bad in ["", "x", "12x", "-1", " 1", "0x10"] {
                            l.check(F::from_str_vartime(bad).is_none(), concat!($tag, "-from_str-bad"), || format!("from_str_vartime({:?}) is Some", bad));
                        }
                    }
                    if i % 16 == 0 {
                        roots(l, &mut r, &m, &av, &bv, a, b);
                    }
                    if i % 32 == 0 {
                        let k = if i % 256 == 0 { *r.pick(&[31usize, 32, 33, 64, 65, 128, 129, 300]) } else { r.below(20) };
                        let vs: Vec<BigUint> = (0..k).map(|_| edge256(&mut r, &m) % &m).collect();
                        let fs: Vec<F> = vs.iter().map(of).collect();
                        let s = vs.iter().fold(BigUint::zero(), |x, y| addm(&x, y, &m));
                        let p = vs.iter().fold(BigUint::one(), |x, y| mulm(&x, y, &m));
                        let refs: Vec<&BigUint> = vs.iter().collect();
                        ck(l, "sum-ref", Some(fs.iter().sum()), &s, &refs);
                        ck(l, "sum", Some(fs.iter().copied().sum()), &s, &refs);
                        ck(l, "product-ref", Some(fs.iter().product()), &p, &refs);
                        ck(l, "product", Some(fs.iter().copied().product()), &p, &refs);
                        let nz: Vec<BigUint> = vs.iter().filter(|v| !v.is_zero()).cloned().collect();
                        if !nz.is_empty() {
                            let mut fs: Vec<F> = nz.iter().map(of).collect();
                            let all = nz.iter().fold(BigUint::one(), |x, y| mulm(&x, y, &m));
                            if let Some(ret) = l.must(concat!($tag, "-batch_invert"), || format!("{} values", nz.len()), || F::batch_invert(&mut fs)) {
                                ck(l, "batch_invert-product", Some(ret), &invm(&all, &m).unwrap(), &[&all]);
                                for (f, v) in fs.iter().zip(&nz) {
                                    ck(l, "batch_invert", Some(*f), &invm(v, &m).unwrap(), &[v]);
                                }
                            }
                        }
                    }
                    if i % 64 == 0 {
                        chain(l, &mut r, &m);
                    }
                }
                for op in ["add", "mul", "invert", "pow_by_self", "sqrt", "sqrt_ratio", "chain", "batch_invert", "from_str"] {
                    l.require(&format!("{}:{}", $tag, op), 20);
                }
                l.require(concat!($tag, ":sqrt-none"), 20);
            }
            fn roots(l: &mut Ledger, r: &mut Rng, m: &BigUint, av: &BigUint, bv: &BigUint, a: F, b: F) {
                // squares, and arbitrary residues (half of them not squares)
                for x in [av.clone(), mulm(av, av, m), mulm(bv, bv, m), addm(av, bv, m)] {
                    let f = make(r, &x);
                    let sq = is_square(&x, m);
                    let Some(s) = l.must(concat!($tag, "-sqrt-abort"), || format!("sqrt({:x})", x), || f.sqrt()) else { continue };
                    if sq {
                        l.check(bool::from(s.is_some()), concat!($tag, "-sqrt-square"), || format!("sqrt({:x}) is None, but it is a square", x));
                        if bool::from(s.is_some()) {
                            let y = val(&s.unwrap());
                            l.check(mulm(&y, &y, m) == x, concat!($tag, "-sqrt-value"), || format!("sqrt({:x}) = {:x} does not square back", x, y));
                            ck(l, "sqrt", Some(s.unwrap() * s.unwrap()), &x, &[&x]);
                        }
                    } else {
                        l.count(concat!($tag, ":sqrt-none"));
                        // the listed finding is exactly: the secp256k1 base field hands out the root of -x
                        let key = if bool::from(s.is_some()) && { let y = val(&s.unwrap()); mulm(&y, &y, m) == negm(&x, m) } { concat!($tag, "-sqrt-of-nonsquare-is-root-of-negation") } else { concat!($tag, "-sqrt-nonsquare") };
                        l.check(!bool::from(s.is_some()), key, || format!("sqrt({:x}) is Some although it is not a square", x));
                    }
                }
                let z = of(&subm(&BigUint::zero(), &BigUint::from($z as u32), m));
                let zv = val(&z);
                if bv.is_zero() {
                    return;
                }
                let Some((q, y)) = l.must(concat!($tag, "-sqrt_ratio-abort"), || format!("sqrt_ratio({:x},{:x})", av, bv), || F::sqrt_ratio(&a, &b)) else { return };
                let ratio = mulm(av, &invm(bv, m).unwrap(), m);
                let y2 = { let y = val(&y); mulm(&y, &y, m) };
                l.count(concat!($tag, ":sqrt_ratio"));
                l.case(&($tag, "sqrt_ratio", av.to_bytes_le(), bv.to_bytes_le()), true, || format!("{} sqrt_ratio({:x},{:x})", $tag, av, bv));
                if ratio.is_zero() {
                    l.check(y2.is_zero(), concat!($tag, "-sqrt_ratio"), || format!("sqrt_ratio(0,{:x}) is not 0", bv));
                } else {
                    let sq = is_square(&ratio, m);
                    let want = if sq { ratio.clone() } else { mulm(&zv, &ratio, m) };
                    l.check(bool::from(q) == sq && y2 == want, concat!($tag, "-sqrt_ratio"), || format!("sqrt_ratio({:x},{:x}): flag {}, root^2 {:x}; the ratio is {}a square, expected root^2 {:x}", av, bv, bool::from(q), y2, if sq { "" } else { "not " }, want));
                }
            }
            /// a random program over both the element type and exact integers
            fn chain(l: &mut Ledger, r: &mut Rng, m: &BigUint) {
                let mut st: Vec<(F, BigUint)> = (0..4).map(|_| { let v = edge256(r, m) % m; (make(r, &v), v) }).collect();
                let mut log = String::new();
                for _ in 0..60 {
                    let (i, j, k) = (r.below(4), r.below(4), r.below(4));
                    let op = chain_op(r);
                    let (fa, va) = st[i].clone();
                    let (fb_, vb) = st[j].clone();
                    let Some(f) = l.must(concat!($tag, "-chain-abort"), || log.clone(), || match op {
                        0 | 1 => fa + fb_,
                        2 | 3 => fa - fb_,
                        4 | 5 | 6 => fa * fb_,
                        7 => fa.square(),
                        8 => -fa,
                        9 => fa.double(),
                        10 => fa.invert().unwrap_or(F::zero()),
                        _ => F::from_raw(limbs(&val(&fa))),
                    }) else { return };
                    let v = match op {
                        0 | 1 => addm(&va, &vb, m),
                        2 | 3 => subm(&va, &vb, m),
                        4 | 5 | 6 => mulm(&va, &vb, m),
                        7 => mulm(&va, &va, m),
                        8 => negm(&va, m),
                        9 => addm(&va, &va, m),
                        10 => invm(&va, m).unwrap_or(BigUint::zero()),
                        _ => va.clone(),
                    };
                    log.push_str(&format!("r{}=op{}(r{},r{}) ", k, op, i, j));
                    st[k] = (f, v);
                }
                for (f, v) in &st {
                    l.check(val(f) == *v, concat!($tag, "-chain"), || format!("after {}: {:x} instead of {:x}", log, val(f), v));
                    ck(l, "chain", Some(*f), v, &[v]);
                }
            }
            pub fn enc(l: &mut Ledger, n: usize) {
                let m = m();
                let mut r = Rng::new(l.seed, concat!("C15", $tag));
                let mut seen = std::collections::HashSet::new();
                let mut spread = [Spread::new(), Spread::new()];
                for i in 0..n {
                    if l.out_of_time() {
                        break;
                    }
                    let v = edge256(&mut r, &m);
                    let canon = v < m;
                    l.count(if canon { concat!($tag, ":canonical") } else { concat!($tag, ":noncanonical") });
                    l.case(&($tag, v.to_bytes_le()), v.bits() > 1, || format!("{} {:x}", $tag, v));
                    let le = le32(&v);
                    let be = be32(&v);
                    let k = |s: &str| format!("{}-{}", $tag, s);
                    for (name, d) in [("from_bytes", l.must(&k("from_bytes"), || hex(&le), || F::from_bytes(&le))), ("from_sec1", l.must(&k("from_sec1"), || hex(&be), || F::from_sec1(fb(&be)))), ("from_repr", l.must(&k("from_repr"), || hex(&be), || F::from_repr(fb(&be))))] {
                        let Some(d) = d else { continue };
                        let d: Option<F> = d.into();
                        l.check(d.is_some() == canon, &k(name), || format!("{} accepts {:x}: {}; canonical: {}", name, v, d.is_some(), canon));
                        if let Some(f) = d {
                            l.check(f.to_bytes() == le && f.to_be_bytes() == be, &k(name), || format!("{} of {:x} reads back as {}", name, v, hex(&f.to_be_bytes())));
                        }
                    }
                    let d = F::from_repr_vartime(fb(&be));
                    l.check(d.is_some() == canon && d.map_or(true, |f| f.to_bytes() == le), &k("from_repr_vartime"), || format!("{:x}", v));
                    let c = &v % &m;
                    let f = make(&mut r, &v);
                    let (cle, cbe) = (le32(&c), be32(&c));
                    l.check(f.to_bytes() == cle, &k("to_bytes"), || format!("{:x} encodes as {}", c, hex(&f.to_bytes())));
                    l.check(f.to_be_bytes() == cbe, &k("to_be_bytes"), || format!("{:x} encodes as {}", c, hex(&f.to_be_bytes())));
                    l.check(f.to_repr().as_slice() == cbe && f.to_sec1().as_slice() == cbe, &k("to_repr"), || format!("{:x} encodes as {}", c, hex(&f.to_repr())));
                    let via: [u8; 32] = (&f).into();
                    l.check(via == cle, &k("into-bytes"), || format!("{:x}", c));
                    l.check(F::from_raw(limbs(&v)).to_bytes() == cle, &k("from_raw"), || format!("from_raw({:x})", v));
                    // wide reduction
                    let hi = if r.chance(1, 3) { BigUint::zero() } else { edge256(&mut r, &m) };
                    let wide = (&hi << 256usize) + &v;
                    let mut b = [0u8; 64];
                    b[..32].copy_from_slice(&le);
                    b[32..].copy_from_slice(&le32(&hi));
                    if let Some(w) = l.must(&k("from_bytes_wide"), || hex(&b), || F::from_bytes_wide(&b)) {
                        l.check(val(&w) == &wide % &m, &k("from_bytes_wide"), || format!("{:x} reduces to {:x}", wide, val(&w)));
                    }
                    l.check(format!("{:?}", f).trim_start_matches("0x").to_string() == format!("{:0>64}", format!("{:x}", c)), &k("debug"), || format!("{:?} for {:x}", f, c));
                    if i % 4 == 0 {
                        // serialisation
                        let tup = (f, 0xa5u8, f + F::one());
                        if let Some(bytes) = l.must(&k("serialize"), || format!("{:x}", c), || bincode::serialize(&tup).unwrap()) {
                            let back: Result<Result<(F, u8, F), _>, _> = attempt(|| bincode::deserialize(&bytes));
                            match back {
                                Ok(Ok(t)) => { l.check(t == tup, &k("serde-roundtrip"), || format!("bincode of {:x} reads back as {:?}", c, t)); }
                                Ok(Err(e)) => l.violation(&k("serde-roundtrip"), &format!("bincode of {:x}: {}", c, e)),
                                Err(p) => l.violation(&k("serde-roundtrip"), &format!("bincode of {:x} aborts: {}", c, p.msg)),
                            }
                            // truncations are errors
                            let cut = r.below(bytes.len());
                            match attempt(|| bincode::deserialize::<(F, u8, F)>(&bytes[..cut])) {
                                Ok(res) => { l.check(res.is_err(), &k("serde-truncated"), || format!("{} of {} bytes decode", cut, bytes.len())); }
                                Err(p) => l.violation(&k("serde-truncated"), &format!("{} of {} bytes abort: {}", cut, bytes.len(), p.msg)),
                            }
                        }
                        let js = serde_json::to_string(&f).unwrap();
                        match attempt(|| serde_json::from_str::<F>(&js)) {
                            Ok(Ok(g)) => { l.check(g == f, &k("json-roundtrip"), || js.clone()); }
                            _ => l.violation(&k("json-roundtrip"), &js),
                        }
                        // two encodings never decode to one element
                        let enc: Vec<u8> = le.to_vec();
                        match attempt(|| serde_json::from_str::<F>(&serde_json::to_string(&enc).unwrap())) {
                            Ok(Ok(g)) => { l.check(canon && g.to_bytes() == le, &k("serde-canonical"), || format!("{:x} accepted as {:?}", v, g)); }
                            Ok(Err(_)) => { l.check(!canon, &k("serde-canonical"), || format!("{:x} rejected", v)); }
                            Err(p) => l.violation(&k("serde-canonical"), &format!("{:x} aborts: {}", v, p.msg)),
                        }
                        // random draws are canonical and do not repeat
                        let x = <F as Field>::random(&mut r);
                        let y = F::random(&mut r);
                        l.check(val(&x) < m && val(&y) < m && seen.insert(x.to_bytes()) && seen.insert(y.to_bytes()), &k("random"), || format!("{:?} {:?}", x, y));
                        spread[0].add(&x.to_bytes());
                        spread[1].add(&y.to_bytes());
                        // a generator whose first numbers are as large as they can be
                        let high = *r.pick(&[8usize, 31, 32, 33, 64, 96]);
                        let h = || HighRng { high, rest: Rng::new(v.bits() as u64, "high") };
                        for x in [l.must(&k("random"), || format!("{high} bytes of ones first"), || <F as Field>::random(h())), l.must(&k("random"), || format!("{high} bytes of ones first"), || F::random(&mut h()))].into_iter().flatten() {
                            l.check(val(&x) < m && F::from_bytes(&x.to_bytes()).is_some().into(), &k("random"), || format!("{high} bytes of ones first: {:?}", x));
                        }
                    }
                }
                for s in &spread {
                    l.check(s.n < 100 || s.stuck() == 0, concat!($tag, "-random"), || format!("{} of 256 bits never change in {} random elements", s.stuck(), s.n));
                }
                l.require(concat!($tag, ":canonical"), 100);
                l.require(concat!($tag, ":noncanonical"), 100);
            }
        }
    };
}
field_checks!(secp, field_secp::FieldElement, modp(), 11, "secp");
field_checks!(secq, field_secq::FieldElement, modn(), 14, "secq");

fn gval(s: &GScalar) -> BigUint {
    from_be(&s.to_repr())
}
fn gof(v: &BigUint) -> GScalar {
    GScalar::from_repr(fb(&be32(&(v % modp())))).unwrap()
}
fn u256(v: &BigUint) -> U256 {
    U256::from_le_slice(&le32(v))
}
/// group scalar arithmetic
fn gscalar(l: &mut Ledger, n: usize) {
    let m = modp();
    let mut r = Rng::new(l.seed, "C14g");
    let rinv = invm(&(two256() % &m), &m).unwrap();
    let root = gval(&GScalar::root_of_unity());
    l.check(GScalar::S == 1 && root == &m - BigUint::one() && !is_square(&gval(&GScalar::multiplicative_generator()), &m), "gscalar-constants", || format!("S={} root={:x}", GScalar::S, root));
    l.check(gval(&GScalar::ZERO).is_zero() && gval(&GScalar::ONE).is_one() && gval(&GScalar::zero()).is_zero() && gval(&GScalar::one()).is_one() && gval(&GScalar::default()).is_zero(), "gscalar-constants", || "zero/one".into());
    for i in 0..n {
        let (a, b) = opair(&mut r, &m, &rinv);
        let (x, y) = (gof(&a), gof(&b));
        let mut res: Vec<(&str, Option<GScalar>, BigUint)> = vec![];
        let sh = || format!("a={:x} b={:x}", a, b);
        res.push(("add", l.must("gscalar-add", sh, || x + y), addm(&a, &b, &m)));
        res.push(("sub", l.must("gscalar-sub", sh, || x - y), subm(&a, &b, &m)));
        res.push(("mul", l.must("gscalar-mul", sh, || x * y), mulm(&a, &b, &m)));
        res.push(("neg", l.must("gscalar-neg", sh, || -x), negm(&a, &m)));
        res.push(("double", l.must("gscalar-double", sh, || x.double()), addm(&a, &a, &m)));
        if i % 4 == 0 {
            let f: fn(&mut GScalar, GScalar) = |p, q| *p += q;
            let _ = f;
            let (mut p, mut q) = (x, x);
            p += y;
            q += &y;
            res.push(("add_assign", Some(p), addm(&a, &b, &m)));
            res.push(("add_assign_ref", Some(q), addm(&a, &b, &m)));
            let (mut p, mut q) = (x, x);
            p -= y;
            q -= &y;
            res.push(("sub_assign", Some(p), subm(&a, &b, &m)));
            res.push(("sub_assign_ref", Some(q), subm(&a, &b, &m)));
            let (mut p, mut q) = (x, x);
            p *= y;
            q *= &y;
            res.push(("mul_assign", Some(p), mulm(&a, &b, &m)));
            res.push(("mul_assign_ref", Some(q), mulm(&a, &b, &m)));
            res.push(("add_ref", Some(x + &y), addm(&a, &b, &m)));
            res.push(("sub_ref", Some(x - &y), subm(&a, &b, &m)));
            res.push(("mul_ref", Some(x * &y), mulm(&a, &b, &m)));
            let c = r.chance(1, 2);
            res.push(("select", Some(GScalar::conditional_select(&x, &y, Choice::from(c as u8))), if c { b.clone() } else { a.clone() }));
        }
        l.check((x == y) == (a == b) && bool::from(x.ct_eq(&y)) == (a == b) && (x.cmp(&y) == a.cmp(&b)), "gscalar-eq", sh);
        l.check(bool::from(x.is_zero()) == a.is_zero() && bool::from(x.is_odd()) == !(&a & BigUint::one()).is_zero() && bool::from(x.is_high()) == (a > (&m >> 1usize)), "gscalar-predicates", sh);
        for (op, got, want) in res {
            if let Some(g) = got {
                l.count(&format!("gscalar:{}", op));
                l.case(&("gscalar", op, a.to_bytes_le(), b.to_bytes_le()), a.bits() > 1, || format!("gscalar {} a={:x} b={:x}", op, a, b));
                l.check(gval(&g) == want, &format!("gscalar-{}", op), || format!("{}(a={:x}, b={:x}) = {:x}, exact {:x}", op, a, b, gval(&g), want));
            }
        }
    }
    l.require("gscalar:mul", 100);
}
fn gscalar_enc(l: &mut Ledger, n: usize) {
    let m = modp();
    let mut r = Rng::new(l.seed, "C15g");
    let mut spread = Spread::new();
    let bits = GScalar::char_le_bits();
    let mut c = BigUint::zero();
    for (i, b) in bits.iter().enumerate() {
        if *b {
            c += BigUint::one() << i;
        }
    }
    l.check(c == m, "gscalar-char_le_bits", || format!("the field characteristic reads {:x}", c));
    for _ in 0..n {
        let v = edge256(&mut r, &m);
        let canon = v < m;
        let red = &v % &m;
        l.case(&("gs", v.to_bytes_le()), v.bits() > 1, || format!("gscalar {:x}", v));
        l.count(if canon { "gscalar:canonical" } else { "gscalar:noncanonical" });
        let d: Option<GScalar> = GScalar::from_repr(fb(&be32(&v))).into();
        l.check(d.is_some() == canon, "gscalar-from_repr", || format!("{:x} accepted: {}", v, d.is_some()));
        if let Some(s) = d {
            l.check(s.to_repr().as_slice() == be32(&v) && s.to_bytes() == le32(&v), "gscalar-to_repr", || format!("{:x} -> {}", v, hex(&s.to_repr())));
            let f1: FieldBytes = s.into();
            let f2: FieldBytes = (&s).into();
            l.check(f1.as_slice() == be32(&v) && f2.as_slice() == be32(&v), "gscalar-into-bytes", || format!("{:x}", v));
            let u: U256 = s.into();
            l.check(u == u256(&v), "gscalar-into-u256", || format!("{:x}", v));
            let mut x = BigUint::zero();
            for (i, b) in s.to_le_bits().iter().enumerate() {
                if *b {
                    x += BigUint::one() << i;
                }
            }
            l.check(x == v, "gscalar-bits", || format!("{:x} has bits of {:x}", v, x));
        }
        let t = GScalar::try_from(u256(&v));
        l.check(t.is_ok() == canon && t.map_or(true, |s| gval(&s) == v), "gscalar-try_from", || format!("{:x}", v));
        if let Some(s) = l.must("gscalar-reduce", || format!("{:x}", v), || GScalar::from_uint_reduced(u256(&v))) {
            l.check(gval(&s) == red, "gscalar-reduce", || format!("{:x} reduces to {:x}", v, gval(&s)));
        }
        let w = r.u64() >> r.below(64);
        l.check(gval(&GScalar::from(w)) == BigUint::from(w) && gval(&GScalar::from(w as u32)) == BigUint::from(w as u32), "gscalar-from-int", || format!("{}", w));
        let x = GScalar::random(&mut r);
        l.check(gval(&x) < m, "gscalar-random", || format!("{:x}", gval(&x)));
        spread.add(&x.to_bytes());
        let high = *r.pick(&[8usize, 31, 32, 33, 64, 96]);
        if let Some(x) = l.must("gscalar-random", || format!("{high} bytes of ones first"), || GScalar::random(HighRng { high, rest: Rng::new(w, "high") })) {
            l.check(gval(&x) < m && bool::from(GScalar::from_repr(x.to_repr()).is_some()), "gscalar-random", || format!("{high} bytes of ones first: {:x}", gval(&x)));
        }
    }
    l.check(spread.n < 100 || spread.stuck() == 0, "gscalar-random", || format!("{} of 256 bits never change in {} random scalars", spread.stuck(), spread.n));
    l.require("gscalar:canonical", 100);
    l.require("gscalar:noncanonical", 100);
}
fn main() {
    let id = std::env::args().nth(1).unwrap();
    Ledger::new(&id).run(|l| {
        l.rule = "residues biased to limb, modulus and Montgomery-radix boundaries, built along random public routes; results compared with exact integers; non-trivial = some operand > 1".into();
        l.assumptions.push("the elliptic-curve ScalarCore and ff default methods come from the cached crates, the primeorder fork from an offline stand-in".into());
        match id.as_str() {
            "C14" => {
                let n = l.n(6_000, 200_000);
                let total = l.budget;
                l.budget = total / 2;
                secp::arith(l, n);
                l.budget = total;
                secq::arith(l, n);
                gscalar(l, n);
            }
            "C15" => {
                let n = l.n(8_000, 300_000);
                let total = l.budget;
                l.budget = total / 2;
                secp::enc(l, n);
                l.budget = total;
                secq::enc(l, n);
                gscalar_enc(l, n);
            }
            _ => panic!("unknown property"),
        }
    })
}
