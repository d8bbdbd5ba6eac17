//! C13, C16, C17, C18: the curve group, its encodings, hashing to it and the generators built on it.
use digest::{ExtendableOutput, Input};
use libspartan::verif_hooks::{commitments::*, group::*, nizk::DotProductProofGens, dense_mlpoly::PolyCommitmentGens, scalar::Scalar};
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use secq256k1::affine::Group;
use secq256k1::elliptic_curve::sec1::ToEncodedPoint;
use secq256k1::{AffinePoint, EncodedPoint, ProjectivePoint, Scalar as GScalar};
use ff::PrimeField;
use std::collections::{HashMap, HashSet};
use std::io::Read;
use vcommon::*;

fn n() -> BigUint {
    modn()
}
fn z() -> BigUint {
    BigUint::zero()
}
fn coords(p: &AffinePoint) -> Pt {
    let e = p.0.to_encoded_point(false);
    if e.is_identity() {
        return None;
    }
    Some((from_be(e.x().unwrap()), from_be(e.y().unwrap())))
}
fn on_curve(p: &Pt) -> bool {
    match p {
        None => true,
        Some((x, y)) => {
            let m = n();
            *x < m && *y < m && mulm(y, y, &m) == addm(&mulm(x, &mulm(x, x, &m), &m), &BigUint::from(7u32), &m)
        }
    }
}
fn gs(v: &BigUint) -> GScalar {
    GScalar::from_repr((*secq256k1::FieldBytes::from_slice(&be32(&(v % modp())))).into()).unwrap()
}
fn ss(v: &BigUint) -> Scalar {
    Scalar::from_bytes(&le32(&(v % modp()))).unwrap()
}
fn raw(tag: u8, parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![tag];
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
fn from_coords(p: &Pt) -> AffinePoint {
    match p {
        None => AffinePoint::identity(),
        Some((x, y)) => AffinePoint::decompress(EncodedPoint::from_bytes(raw(4, &[&be32(x), &be32(y)])).unwrap()).unwrap(),
    }
}
fn show(p: &Pt) -> String {
    match p {
        None => "O".into(),
        Some((x, y)) => format!("({:x},{:x})", x, y),
    }
}
fn gen() -> Pt {
    Some((hexu("76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6"), hexu("3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f")))
}
/// a point with a random or an extreme x coordinate
fn rand_point(r: &mut Rng) -> Pt {
    let m = n();
    loop {
        let x = edge256(r, &m) % &m;
        if let Some(y) = sqrtm(&addm(&mulm(&x, &mulm(&x, &x, &m), &m), &BigUint::from(7u32), &m), &m) {
            return Some((x, if r.chance(1, 2) { y } else { negm(&y, &m) }));
        }
    }
}
fn ckp(l: &mut Ledger, op: &str, got: Option<AffinePoint>, want: &Pt, args: &str) {
    let Some(g) = got else { return };
    let c = coords(&g);
    l.count(&format!("op:{}", op));
    l.case(&(op, args), want.is_some(), || format!("{} {} -> {}", op, args, show(want)));
    l.check(c == *want, &format!("group-{}", op), || format!("{}: {} gives {}, group law {}", op, args, show(&c), show(want)));
    l.check(on_curve(&c), "group-off-curve", || format!("{}: {} gives {}", op, args, show(&c)));
    let w = from_coords(want);
    l.check(g == w && bool::from(Group::is_identity(&g)) == want.is_none(), "group-equality", || format!("{}: {} is not == to the point with its coordinates", op, args));
}
fn c16(l: &mut Ledger) {
    l.rule = "pairs of points (random, extreme coordinates, equal, opposite, identity, small multiples) and scalars around 0, 1, the order and limb boundaries; every operator form compared with affine chord-and-tangent arithmetic over exact integers; non-trivial = result is not the identity".into();
    let (m, p) = (n(), modp());
    let mut r = Rng::new(l.seed, "C16");
    let g = gen();
    l.check(coords(&AffinePoint::generator()) == g && coords(&<AffinePoint as Group>::generator()) == g && on_curve(&g), "generator", || format!("generator is {}", show(&coords(&AffinePoint::generator()))));
    l.check(coords(&AffinePoint::identity()).is_none() && coords(&<AffinePoint as Group>::identity()).is_none() && coords(&AffinePoint::default()).is_none(), "identity", || "identity()".into());
    l.check(pt_mul(&g, &p, &m).is_none(), "generator-order", || "order*G is not the identity in the model".into());
    let last = AffinePoint::generator() * gs(&(&p - BigUint::one()));
    ckp(l, "order", Some(last + AffinePoint::generator()), &None, "(p-1)G+G");
    // model self-test: fast multiplication against repeated addition
    let mut acc: Pt = None;
    for k in 0..20u32 {
        assert_eq!(pt_mul(&g, &BigUint::from(k), &m), acc);
        acc = pt_add(&acc, &g, &z(), &m);
    }
    let iters = l.n(500, 20_000);
    for it in 0..iters {
        if l.out_of_time() {
            l.addc("stopped_by_budget", 1);
            break;
        }
        let a = match r.below(8) {
            0 => None,
            1 => pt_mul(&g, &BigUint::from(r.below(6) as u32), &m),
            2 => pt_mul(&g, &(edge256(&mut r, &p) % &p), &m),
            _ => rand_point(&mut r),
        };
        let b = match r.below(8) {
            0 => None,
            1 => a.clone(),
            2 => pt_neg(&a, &m),
            3 => pt_add(&a, &a, &z(), &m),
            4 => pt_neg(&pt_add(&a, &a, &z(), &m), &m),
            5 => a.as_ref().map(|(x, y)| {
                // same y, different x: the endomorphism image
                let w = powm(&BigUint::from(3u32), &((&m - BigUint::one()) / BigUint::from(3u32)), &m);
                (mulm(x, &w, &m), y.clone())
            }),
            _ => rand_point(&mut r),
        };
        l.count(match (&a, &b) {
            (None, None) => "pair:O,O",
            (None, _) => "pair:O,P",
            (_, None) => "pair:P,O",
            (x, y) if x == y => "pair:P,P",
            (x, y) if pt_neg(x, &m) == *y => "pair:P,-P",
            _ => "pair:P,Q",
        });
        let (pa, pb) = (from_coords(&a), from_coords(&b));
        let args = format!("{} {}", show(&a), show(&b));
        let sh = || args.clone();
        let sum = pt_add(&a, &b, &z(), &m);
        let dif = pt_add(&a, &pt_neg(&b, &m), &z(), &m);
        let t = l.must("add", sh, || pa + pb);
        ckp(l, "add", t, &sum, &args);
        let t = l.must("sub", sh, || pa - pb);
        ckp(l, "sub", t, &dif, &args);
        let t = l.must("neg", sh, || -pa);
        ckp(l, "neg", t, &pt_neg(&a, &m), &args);
        let t = l.must("double", sh, || Group::double(&pa));
        ckp(l, "double", t, &pt_add(&a, &a, &z(), &m), &args);
        let t = l.must("add-ref", sh, || pa + &pb);
        ckp(l, "add-ref", t, &sum, &args);
        let t = l.must("sub-ref", sh, || pa - &pb);
        ckp(l, "sub-ref", t, &dif, &args);
        let mut x = pa;
        x += pb;
        ckp(l, "add-assign", Some(x), &sum, &args);
        let mut x = pa;
        x += &pb;
        ckp(l, "add-assign-ref", Some(x), &sum, &args);
        let mut x = pa;
        x -= pb;
        ckp(l, "sub-assign", Some(x), &dif, &args);
        let mut x = pa;
        x -= &pb;
        ckp(l, "sub-assign-ref", Some(x), &dif, &args);
        l.check((pa == pb) == (a == b), "equality", || args.clone());
        ckp(l, "from-projective", Some(AffinePoint::from(ProjectivePoint::from(pa.0) + ProjectivePoint::from(pb.0))), &sum, &args);
        // scalar multiplication
        if it % 3 == 0 {
            let k = match r.below(4) {
                0 => BigUint::from(r.below(17) as u32),
                1 => &p - BigUint::from(r.range(1, 17) as u32),
                _ => edge256(&mut r, &p) % &p,
            };
            let want = pt_mul(&a, &k, &m);
            let args = format!("{} * {:x}", show(&a), k);
            let sh = || args.clone();
            let kg = gs(&k);
            let ks = ss(&k);
            l.count(if k.is_zero() { "scalar:0" } else if k.is_one() { "scalar:1" } else if k == &p - BigUint::one() { "scalar:order-1" } else { "scalar:other" });
            let t = l.must("mul", sh, || pa * kg);
            ckp(l, "mul", t, &want, &args);
            for form in 0..12 {
                let t = l.must("mul-form", sh, || match form {
                    0 => &pa * kg,
                    1 => pa * &kg,
                    2 => { let mut x = pa; x *= kg; x }
                    3 => { let mut x = pa; x *= &kg; x }
                    4 => &pa * &ks,
                    5 => pa * &ks,
                    6 => &pa * ks,
                    7 => pa * ks,
                    8 => &ks * &pa,
                    9 => ks * pa,
                    10 => { let mut x = pa; x *= &ks; x }
                    _ => { let mut x = pa; x *= ks; x }
                });
                ckp(l, &format!("mul-form{}", form), t, &want, &args);
            }
        }
        // sums and multi-scalar multiplication
        if it % 10 == 0 {
            let cnt = if it % 100 == 0 { *r.pick(&[33usize, 64, 65, 129, 257]) } else { *r.pick(&[0usize, 1, 2, 3, 5, 8, 17]) };
            let mut pts: Vec<Pt> = vec![];
            let mut ks: Vec<BigUint> = vec![];
            for i in 0..cnt {
                pts.push(match r.below(6) {
                    0 => None,
                    1 if i > 0 => pts[i - 1].clone(),
                    2 if i > 0 => pt_neg(&pts[i - 1], &m),
                    _ => rand_point(&mut r),
                });
                ks.push(match r.below(5) {
                    0 if i > 0 => ks[i - 1].clone(),
                    1 if i > 0 => negm(&ks[i - 1], &p),
                    _ => edge256(&mut r, &p) % &p,
                });
            }
            let real: Vec<AffinePoint> = pts.iter().map(from_coords).collect();
            let args = format!("{} points, scalars {}", cnt, ks.iter().map(|k| format!("{:x}", k)).collect::<Vec<_>>().join(","));
            let want = pts.iter().fold(None, |s, q| pt_add(&s, q, &z(), &m));
            ckp(l, "sum", Some(real.iter().copied().sum()), &want, &args);
            ckp(l, "sum-ref", Some(real.iter().sum()), &want, &args);
            let want = pts.iter().zip(&ks).fold(None, |s, (q, k)| pt_add(&s, &pt_mul(q, k, &m), &z(), &m));
            let sc: Vec<Scalar> = ks.iter().map(ss).collect();
            let t = l.must("msm", || args.clone(), || GroupElement::vartime_multiscalar_mul(sc.clone(), real.clone()));
            ckp(l, "msm", t, &want, &args);
        }
        // a random walk over four registers, in both worlds
        if it % 25 == 0 {
            let mut regs: Vec<(AffinePoint, Pt)> = vec![(pa, a.clone()), (pb, b.clone()), (AffinePoint::generator(), g.clone()), (AffinePoint::identity(), None)];
            let mut log = String::new();
            for _ in 0..25 {
                let (i, j, k, op) = (r.below(4), r.below(4), r.below(4), r.below(6));
                let c = BigUint::from(r.below(9) as u32);
                log.push_str(&format!("r{}=op{}(r{},r{},{}) ", k, op, i, j, c));
                let (x, y) = (regs[i].clone(), regs[j].clone());
                regs[k] = match op {
                    0 | 1 => (x.0 + y.0, pt_add(&x.1, &y.1, &z(), &m)),
                    2 => (x.0 - y.0, pt_add(&x.1, &pt_neg(&y.1, &m), &z(), &m)),
                    3 => (Group::double(&x.0), pt_add(&x.1, &x.1, &z(), &m)),
                    4 => (-x.0, pt_neg(&x.1, &m)),
                    _ => (x.0 * gs(&c), pt_mul(&x.1, &c, &m)),
                };
            }
            for (q, w) in regs {
                ckp(l, "walk", Some(q), &w, &log);
            }
        }
    }
    let a = AffinePoint::random(&mut r);
    let b = AffinePoint::random(&mut r);
    l.check(a != b && on_curve(&coords(&a)) && on_curve(&coords(&b)), "random-points", || "Group::random".into());
    let mut spread = Spread::new();
    for _ in 0..150 {
        if let Some(p) = l.must("random-points", || "Group::random".into(), || AffinePoint::random(&mut r)) {
            let c = coords(&p);
            l.check(on_curve(&c), "random-points", || format!("Group::random gives {:?}", c));
            if let Some((x, _)) = &c {
                spread.add(&le32(x));
            }
        }
    }
    l.check(spread.stuck() == 0, "random-points", || format!("{} of 256 bits of the first coordinate never change in {} random points", spread.stuck(), spread.n));
    for k in ["pair:P,P", "pair:P,-P", "pair:O,P", "pair:P,O", "pair:P,Q", "op:mul", "op:msm", "op:walk"] {
        l.require(k, 5);
    }
}
/// what bytes stand for: None = not an encoding of any point
fn model_decode(b: &[u8]) -> Option<Pt> {
    let m = n();
    match b.first() {
        Some(0) if b.len() == 1 => Some(None),
        Some(t @ (2 | 3)) if b.len() == 33 => {
            let x = from_be(&b[1..]);
            if x >= m {
                return None;
            }
            let y = sqrtm(&addm(&mulm(&x, &mulm(&x, &x, &m), &m), &BigUint::from(7u32), &m), &m)?;
            let odd = !(&y & BigUint::one()).is_zero();
            let y = if odd == (*t == 3) { y } else { negm(&y, &m) };
            if (!(&y & BigUint::one()).is_zero()) != (*t == 3) {
                return None;
            }
            Some(Some((x, y)))
        }
        Some(4) if b.len() == 65 => {
            let p = Some((from_be(&b[1..33]), from_be(&b[33..])));
            if on_curve(&p) { Some(p) } else { None }
        }
        _ => None,
    }
}
fn c17(l: &mut Ledger) {
    l.rule = "encodings of points, of corrupted points (tag, length, parity, coordinate off the curve or not reduced) and random byte strings, decoded through both decoders and judged by exact curve arithmetic; non-trivial = distinct byte strings".into();
    let m = n();
    let mut r = Rng::new(l.seed, "C17");
    let mut enc: HashMap<Vec<u8>, Pt> = HashMap::new();
    let iters = l.n(3_000, 120_000);
    for it in 0..iters {
        if l.out_of_time() {
            l.addc("stopped_by_budget", 1);
            break;
        }
        let p = if it == 0 { None } else if it % 16 == 0 { coords(&(AffinePoint::generator() * gs(&edge256(&mut r, &modp())))) } else { rand_point(&mut r) };
        let q = from_coords(&p);
        let c = q.compress();
        let bytes = c.as_bytes().to_vec();
        let want = match &p {
            None => vec![0],
            Some((x, y)) => raw(if (y & BigUint::one()).is_zero() { 2 } else { 3 }, &[&be32(x)]),
        };
        l.check(bytes == want, "compress", || format!("{} compresses to {}", show(&p), hex(&bytes)));
        if let Some(old) = enc.insert(bytes.clone(), p.clone()) {
            l.check(old == p, "injective", || format!("{} and {} share the encoding {}", show(&old), show(&p), hex(&bytes)));
        }
        l.check(coords(&AffinePoint::decompress(c).unwrap()) == p && AffinePoint::decompress(c).unwrap() == q, "roundtrip", || show(&p));
        // serialisation of the encoded form
        if it % 4 == 0 {
            let tup = (c, 7u8, (-q).compress());
            let ser = bincode::serialize(&tup).unwrap();
            match attempt(|| bincode::deserialize::<(CompressedGroup, u8, CompressedGroup)>(&ser)) {
                Ok(Ok(t)) => { l.check(t == tup && coords(&t.0.unpack().unwrap()) == p, "serde", || show(&p)); }
                Ok(Err(e)) => l.violation("serde", &format!("{}: {}", show(&p), e)),
                Err(e) => l.violation("serde", &format!("{}: {}", show(&p), e.msg)),
            }
        }
        // hostile bytes
        let hostile: Vec<u8> = match r.below(9) {
            0 => raw(2 + r.below(2) as u8, &[&be32(&edge256(&mut r, &m))]),
            1 => raw(2 + r.below(2) as u8, &[&r.arr32()]),
            2 => raw(4, &[&be32(&edge256(&mut r, &m)), &be32(&edge256(&mut r, &m))]),
            3 => match &p {
                // a correct point with one coordinate nudged
                Some((x, y)) => if r.chance(1, 2) { raw(4, &[&be32(&addm(x, &BigUint::one(), &m)), &be32(y)]) } else { raw(4, &[&be32(x), &be32(&addm(y, &BigUint::from(r.range(1, 3) as u32), &m))]) },
                None => vec![0],
            },
            4 => match &p {
                // not reduced
                Some((x, y)) if (x + &m) < two256() => if r.chance(1, 2) { raw(4, &[&be32(&(x + &m)), &be32(y)]) } else { raw(3, &[&be32(&(x + &m))]) },
                _ => raw(3, &[&be32(&(&m + BigUint::from(r.below(1000) as u32)))]),
            },
            5 => { let mut b = bytes.clone(); b[0] = r.u64() as u8; b }
            6 => { let mut b = bytes.clone(); let k = r.below(b.len() + 1); b.truncate(k); b }
            7 => { let mut b = bytes.clone(); let k = r.below(40); b.extend(r.bytes(k)); b }
            _ => match &p {
                Some((x, y)) => raw(4, &[&be32(x), &be32(y)]),
                None => vec![0],
            },
        };
        let want = model_decode(&hostile);
        l.case(&hostile, true, || format!("bytes {} decode to {:?}", hex(&hostile), want.as_ref().map(show)));
        l.count(&format!("hostile:{}:{}", hostile.first().map(|t| if *t < 6 { t.to_string() } else { "other".into() }).unwrap_or("empty".into()), if want.is_some() { "point" } else { "no-point" }));
        if hostile.first() == Some(&5) {
            // "compact" tag: decided by the sec1 crate and the fork, not by this tree
            continue;
        }
        match attempt(|| EncodedPoint::from_bytes(&hostile)) {
            Err(e) => l.violation("encoded-abort", &format!("{}: {}", hex(&hostile), e.msg)),
            Ok(Err(_)) => { l.check(want.is_none(), "encoded-refused", || hex(&hostile)); }
            Ok(Ok(e)) => {
                let d: Result<Option<AffinePoint>, _> = attempt(|| AffinePoint::decompress(e).into());
                match d {
                    Err(p) => l.violation("decompress-abort", &format!("{}: {}", hex(&hostile), p.msg)),
                    Ok(d) => {
                        let got = d.map(|p| coords(&p));
                        l.check(got == want, "decompress", || format!("{} decodes to {:?}, stands for {:?}", hex(&hostile), got.as_ref().map(show), want.as_ref().map(show)));
                    }
                }
                match attempt(|| e.unpack()) {
                    Err(p) => l.violation("unpack-abort", &format!("{}: {}", hex(&hostile), p.msg)),
                    Ok(d) => {
                        let got = d.ok().map(|p| coords(&p));
                        l.check(got == want, "unpack", || format!("{} unpacks to {:?}, stands for {:?}", hex(&hostile), got.as_ref().map(show), want.as_ref().map(show)));
                    }
                }
                // the optional decoder may abort on a non-point, but must not invent one
                if let Ok(d) = attempt(|| DecompressEncodedPoint::decompress(&e)) {
                    let got = d.map(|p| coords(&p));
                    l.check(got == want, "decompress-trait", || hex(&hostile));
                }
            }
        }
    }
    for k in ["hostile:2:point", "hostile:2:no-point", "hostile:3:no-point", "hostile:4:point", "hostile:4:no-point", "hostile:other:no-point"] {
        l.require(k, 10);
    }
}
fn iso_consts() -> Vec<BigUint> {
    // output of hashtocurve_params.sage, most significant limb last as in the tree
    let t: [[u64; 4]; 13] = [
        [7679007869575068054, 9522933797269734319, 16397105843297379213, 10248191152060862008],
        [9826996953646961554, 15182850926035153421, 14578491762904662818, 12647934416601614380],
        [12837744973953074055, 3022921441994356503, 9226076221592167090, 5322610924144458968],
        [7679007869575068113, 9522933797269734319, 16397105843297379213, 10248191152060862008],
        [5509687591411919004, 593833991126057235, 2079217350175104065, 3150945307157219731],
        [10055942181862970998, 5902098865151897053, 9296385024764340435, 14583286435933530837],
        [1018159320366879645, 7658288605871115257, 17763531330238827481, 9564978408590137874],
        [14136870513678256585, 7591425463017576710, 7289245881452331409, 6323967208300807190],
        [14802773332216597422, 16078857340678580677, 3084372689655359971, 1069495981486797935],
        [2553960894281893207, 13252224180066972444, 13664254869414482677, 11614616639002310276],
        [17487903423972654314, 10114123023543861660, 12342198062117431905, 4726417960735829596],
        [2523398215118668000, 9249176628478019873, 9442411000583469692, 6856371160381489280],
        [13822214165235121741, 13451932020343611451, 18446744073709551614, 18446744073709551615],
    ];
    t.iter().map(|w| w.iter().rev().fold(z(), |a, x| (a << 64usize) + BigUint::from(*x))).collect()
}
fn dec(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}
fn iso_ab() -> (BigUint, BigUint) {
    (dec("3642995984045157452672683439396299070953881827175886364060394186787010798372"), BigUint::from(1771u32))
}
/// RFC 9380 6.6.2 (the straight-line definition, not the optimised one), on the isogenous curve
fn swu(u: &BigUint) -> (BigUint, BigUint) {
    let m = n();
    let (a, b) = iso_ab();
    let zz = subm(&z(), &BigUint::from(14u32), &m);
    let zu2 = mulm(&zz, &mulm(u, u, &m), &m);
    let d = addm(&mulm(&zu2, &zu2, &m), &zu2, &m);
    let x1 = match invm(&d, &m) {
        Some(i) => mulm(&mulm(&negm(&b, &m), &invm(&a, &m).unwrap(), &m), &addm(&BigUint::one(), &i, &m), &m),
        None => mulm(&b, &invm(&mulm(&zz, &a, &m), &m).unwrap(), &m),
    };
    let gx = |x: &BigUint| addm(&addm(&mulm(x, &mulm(x, x, &m), &m), &mulm(&a, x, &m), &m), &b, &m);
    let (x, y) = match sqrtm(&gx(&x1), &m) {
        Some(y) => (x1, y),
        None => {
            let x2 = mulm(&zu2, &x1, &m);
            let y = sqrtm(&gx(&x2), &m).expect("SWU: one of the two is a square");
            (x2, y)
        }
    };
    let odd = |v: &BigUint| !(v & BigUint::one()).is_zero();
    if odd(u) == odd(&y) { (x, y) } else { (x, negm(&y, &m)) }
}
fn iso(p: &Pt) -> Pt {
    let m = n();
    let k = iso_consts();
    let (x, y) = p.clone()?;
    let x2 = mulm(&x, &x, &m);
    let x3 = mulm(&x2, &x, &m);
    let poly = |c: [&BigUint; 4]| addm(&addm(&mulm(c[0], &x3, &m), &mulm(c[1], &x2, &m), &m), &addm(&mulm(c[2], &x, &m), c[3], &m), &m);
    let (o, zr) = (BigUint::one(), z());
    let xn = poly([&k[0], &k[1], &k[2], &k[3]]);
    let xd = poly([&zr, &o, &k[4], &k[5]]);
    let yn = poly([&k[6], &k[7], &k[8], &k[9]]);
    let yd = poly([&o, &k[10], &k[11], &k[12]]);
    Some((mulm(&xn, &invm(&xd, &m)?, &m), mulm(&y, &mulm(&yn, &invm(&yd, &m)?, &m), &m)))
}
fn hash_model(bytes: &[u8]) -> Pt {
    let m = n();
    let u1 = from_le(&bytes[..64]) % &m;
    let u2 = from_le(&bytes[64..]) % &m;
    pt_add(&iso(&Some(swu(&u1))), &iso(&Some(swu(&u2))), &z(), &m)
}
fn c18(l: &mut Ledger) {
    l.rule = "128-byte inputs: random, both halves equal, opposite residues, residues with extreme values (0, 1, modulus neighbours, non-reduced), hashed and compared with the straight-line SWU definition and the isogeny over exact integers; non-trivial = distinct inputs".into();
    let m = n();
    let mut r = Rng::new(l.seed, "C18");
    // the model's isogeny is a homomorphism onto the curve
    let (a, _) = iso_ab();
    for _ in 0..20 {
        let p = Some(swu(&from_le(&r.arr32())));
        let q = Some(swu(&from_le(&r.arr32())));
        assert!(on_curve(&iso(&p)));
        assert_eq!(iso(&pt_add(&p, &q, &a, &m)), pt_add(&iso(&p), &iso(&q), &z(), &m));
    }
    let mut seen: HashMap<Vec<u8>, (BigUint, BigUint)> = HashMap::new();
    let iters = l.n(1_200, 60_000);
    for it in 0..iters {
        if l.out_of_time() {
            l.addc("stopped_by_budget", 1);
            break;
        }
        let part = |r: &mut Rng| -> BigUint {
            match r.below(6) {
                0 => edge256(r, &m),
                1 => { let k = BigUint::from(r.u64()); &k * &m + edge256(r, &m) % &m }
                2 => (edge256(r, &m) << 256usize) + edge256(r, &m),
                3 => BigUint::from(r.below(4) as u32) * &m,
                _ => from_le(&r.bytes(64)),
            }
        };
        let u = part(&mut r);
        let v = match r.below(8) {
            0 => u.clone(),
            1 => negm(&(&u % &m), &m),
            2 => (&u + &m) % (BigUint::one() << 512usize),
            _ => part(&mut r),
        };
        let mut b = [0u8; 128];
        for (i, w) in [&u, &v].iter().enumerate() {
            let mut x = w.to_bytes_le();
            x.resize(64, 0);
            b[i * 64..i * 64 + 64].copy_from_slice(&x);
        }
        if it < 8 {
            // 0 and its neighbours on both sides
            for i in 0..128 {
                b[i] = 0
            }
            b[0] = (it & 1) as u8;
            b[64] = ((it >> 1) & 3) as u8;
        }
        let want = hash_model(&b);
        l.count(if want.is_none() { "result:identity" } else { "result:point" });
        if (from_le(&b[..64]) % &m).is_zero() || (from_le(&b[64..]) % &m).is_zero() {
            l.count("input:zero-residue");
        }
        l.case(&b.to_vec(), true, || format!("{} -> {}", hex(&b), show(&want)));
        let Some(got) = l.must("hash-abort", || hex(&b), || AffinePoint::from_uniform_bytes(&b)) else { continue };
        let c = coords(&got);
        l.check(on_curve(&c), "hash-off-curve", || format!("{} -> {}", hex(&b), show(&c)));
        l.check(c == want, "hash-value", || format!("{} -> {}, the published map gives {}", hex(&b), show(&c), show(&want)));
        l.check(AffinePoint::from_uniform_bytes(&b) == got, "hash-deterministic", || hex(&b));
        // collisions, other than those of equal (unordered) residue pairs or cancelling ones
        let mut key = (from_le(&b[..64]) % &m, from_le(&b[64..]) % &m);
        if key.0 > key.1 {
            key = (key.1, key.0);
        }
        if c.is_some() {
            if let Some(o) = seen.insert(got.compress().as_bytes().to_vec(), key.clone()) {
                l.check(o == key, "hash-collision", || format!("residues {:x},{:x} and {:x},{:x} hash to one point", o.0, o.1, key.0, key.1));
            }
        }
    }
    l.require("result:point", 100);
    l.require("result:identity", 1);
    l.require("input:zero-residue", 5);
}
fn gens_model(cnt: usize, label: &[u8]) -> Vec<Pt> {
    let mut s = sha3::Shake256::default();
    s.input(label);
    let Some((x, y)) = gen() else { unreachable!() };
    s.input(raw(if (&y & BigUint::one()).is_zero() { 2 } else { 3 }, &[&be32(&x)]));
    let mut rd = s.xof_result();
    (0..cnt)
        .map(|_| {
            let mut b = [0u8; 128];
            rd.read_exact(&mut b).unwrap();
            hash_model(&b)
        })
        .collect()
}
fn c13(l: &mut Ledger) {
    l.rule = "parameter sets over labels and sizes: every generator compared with SHAKE256 expansion plus the published hash-to-curve map, all pairwise distinct; commitments compared with exact group arithmetic; non-trivial = commitment to a non-zero vector, or a distinct generator".into();
    let (m, p) = (n(), modp());
    let mut r = Rng::new(l.seed, "C13");
    // SHAKE256("") reference bytes, so the stand-in hash is the real one
    let mut rd = sha3::Shake256::default().xof_result();
    let mut o = [0u8; 16];
    rd.read_exact(&mut o).unwrap();
    assert_eq!(hex(&o), "46b9dd2b0ba88d13233b3feb743eeb24");
    let labels: Vec<&'static [u8]> = vec![b"gens_r1cs_sat", b"gens_r1cs_eval", b"", b"a", b"gens_r1cs_sa", b"\x00\xff binary"];
    let mut owner: HashMap<Vec<u8>, (usize, usize)> = HashMap::new();
    let maxn = l.n(33, 200);
    for (li, label) in labels.iter().enumerate() {
        let big = l.n(700, 3000);
        let model = gens_model(if li == 0 { big } else { maxn } + 1, label);
        for (i, g) in model.iter().enumerate() {
            assert!(g.is_some());
            let _ = i;
        }
        let mut sizes = vec![0, 1, 2, 3, 4, 8, maxn];
        sizes.push(r.range(5, maxn));
        if li == 0 {
            // as many as a circuit of practical size takes
            sizes.push(big);
        }
        for nn in sizes {
            let Some(g) = l.must("gens-abort", || format!("n={}", nn), || MultiCommitGens::new(nn, label)) else { continue };
            let g2 = MultiCommitGens::new(nn, label);
            let g3 = g.clone();
            l.check(g.n == nn && g.G.len() == nn && g2.G == g.G && g2.h == g.h && g3.G == g.G && g3.h == g.h && g3.n == nn, "gens-deterministic", || format!("label {} n {}", hex(label), nn));
            let all: Vec<AffinePoint> = g.G.iter().copied().chain([g.h]).collect();
            for (i, q) in all.iter().enumerate() {
                let c = coords(q);
                l.case(&(li, i, nn), true, || format!("label {} generator {} of {} = {}", hex(label), i, nn, show(&c)));
                l.count("generators");
                l.check(c.is_some() && on_curve(&c), "gens-on-curve", || format!("label {} generator {}: {}", hex(label), i, show(&c)));
                l.check(c == model[i], "gens-value", || format!("label {} generator {} of {}: {} instead of {}", hex(label), i, nn, show(&c), show(&model[i])));
                let o = *owner.entry(q.compress().as_bytes().to_vec()).or_insert((li, i));
                l.check(o == (li, i), "gens-distinct", || format!("label {} generator {} repeats label {} generator {}", hex(label), i, hex(labels[o.0]), o.1));
                let neg = (-*q).compress().as_bytes().to_vec();
                l.check(!owner.contains_key(&neg), "gens-distinct", || format!("label {} generator {} is the negative of another", hex(label), i));
            }
            // splitting keeps them all
            if nn > 0 {
                let mid = r.below(nn + 1);
                let (a, b) = g.split_at(mid);
                l.check(a.n == mid && b.n == nn - mid && a.G == g.G[..mid] && b.G == g.G[mid..] && a.h == g.h && b.h == g.h, "gens-split", || format!("n {} mid {}", nn, mid));
                let k = edge256(&mut r, &p) % &p;
                let s = g.scale(&ss(&k));
                for i in 0..nn.min(4) {
                    l.check(coords(&s.G[i]) == pt_mul(&coords(&g.G[i]), &k, &m) && s.h == g.h && s.n == nn, "gens-scale", || format!("n {} i {} by {:x}", nn, i, k));
                }
            }
            // Pedersen commitments
            for _ in 0..if nn > 10 { 1 } else { 4 } {
                let ms: Vec<BigUint> = (0..nn).map(|_| edge256(&mut r, &p) % &p).collect();
                let bl = edge256(&mut r, &p) % &p;
                let want = ms.iter().zip(&g.G).fold(pt_mul(&coords(&g.h), &bl, &m), |s, (k, q)| pt_add(&s, &pt_mul(&coords(q), k, &m), &z(), &m));
                let v: Vec<Scalar> = ms.iter().map(ss).collect();
                l.count("commitments");
                l.case(&("commit", ms.iter().map(|x| x.to_bytes_le()).collect::<Vec<_>>()), ms.iter().any(|x| !x.is_zero()), || format!("commit n={}", nn));
                let sh = || format!("commit to {:?} blind {:x}", ms.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>(), bl);
                let bs = ss(&bl);
                let t = l.must("commit-abort", sh, || v.commit(&bs, &g));
                if let Some(t) = t {
                    l.check(coords(&t) == want, "commit", sh);
                }
                if let Some(t) = l.must("commit-abort", sh, || v[..].commit(&bs, &g)) {
                    l.check(coords(&t) == want, "commit-slice", sh);
                }
                if nn == 1 {
                    if let Some(t) = l.must("commit-abort", sh, || v[0].commit(&bs, &g)) {
                        l.check(coords(&t) == want, "commit-scalar", sh);
                    }
                }
            }
        }
    }
    // parameter sets built on top: one sequence, no overlap inside a set
    for nv in [0usize, 1, 2, 3, 4, 5, 6] {
        for label in [&b"gens_r1cs_sat"[..], &b"gens_r1cs_eval"[..]] {
            let right = 1usize << (nv - nv / 2);
            let pc = PolyCommitmentGens::new(nv, label);
            let want = gens_model(right + 2, label);
            let check_dot = |l: &mut Ledger, d: &DotProductProofGens, what: &str| {
                let all: Vec<Pt> = d.gens_n.G.iter().chain(d.gens_1.G.iter()).chain([d.gens_n.h].iter()).map(coords).collect();
                l.check(all == want && d.gens_n.h == d.gens_1.h && d.gens_1.G.len() == 1 && d.gens_n.n == right && d.gens_1.n == 1, "pc-gens", || format!("{} for {} variables", what, nv));
                let set: HashSet<_> = all.iter().map(show).collect();
                l.check(set.len() == all.len(), "pc-gens-distinct", || format!("{} for {} variables", what, nv));
                l.count("parameter-sets");
            };
            check_dot(l, &pc.gens, "PolyCommitmentGens");
            check_dot(l, &DotProductProofGens::new(right, label), "DotProductProofGens");
        }
    }
    l.require("generators", 100);
    l.require("commitments", 50);
}
fn main() {
    let id = std::env::args().nth(1).unwrap();
    Ledger::new(&id).run(|l| {
        l.assumptions.push("complete projective formulas come from an offline stand-in of the primeorder fork, multi-exponentiation from a stand-in of the multiexp crate; the tree's field arithmetic, constants, wrappers and maps are the real ones".into());
        match id.as_str() {
            "C13" => c13(l),
            "C16" => c16(l),
            "C17" => c17(l),
            "C18" => c18(l),
            _ => panic!("unknown property"),
        }
    })
}
