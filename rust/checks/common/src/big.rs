//! Exact integers and residues: the oracle side of every arithmetic check.
pub use num_bigint_dig::BigUint;
use crate::rng::Rng;
use num_traits::{One, Zero};

pub fn hexu(s: &str) -> BigUint {
    BigUint::parse_bytes(s.replace([' ', '_', '\n'], "").as_bytes(), 16).unwrap()
}
/// order of secq256k1 = base field of secp256k1
pub fn modp() -> BigUint {
    hexu("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
}
/// base field of secq256k1 = order of secp256k1
pub fn modn() -> BigUint {
    hexu("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
}
pub fn from_le(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
pub fn from_be(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}
pub fn le32(v: &BigUint) -> [u8; 32] {
    let mut b = v.to_bytes_le();
    assert!(b.len() <= 32 || b[32..].iter().all(|x| *x == 0));
    b.resize(32, 0);
    let mut a = [0u8; 32];
    a.copy_from_slice(&b);
    a
}
pub fn be32(v: &BigUint) -> [u8; 32] {
    let mut a = le32(v);
    a.reverse();
    a
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn limbs(v: &BigUint) -> [u64; 4] {
    let b = le32(v);
    let mut r = [0u64; 4];
    for i in 0..4 {
        let mut a = [0u8; 8];
        a.copy_from_slice(&b[8 * i..8 * i + 8]);
        r[i] = u64::from_le_bytes(a);
    }
    r
}
pub fn two256() -> BigUint {
    BigUint::one() << 256usize
}
pub fn addm(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
    (a + b) % m
}
pub fn subm(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
    ((a % m) + m - (b % m)) % m
}
pub fn mulm(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
    (a * b) % m
}
pub fn negm(a: &BigUint, m: &BigUint) -> BigUint {
    subm(&BigUint::zero(), a, m)
}
/// square-and-multiply on our own, not BigUint::modpow
pub fn powm(a: &BigUint, e: &BigUint, m: &BigUint) -> BigUint {
    let mut r = BigUint::one() % m;
    let bits = e.to_bytes_be();
    for byte in bits {
        for i in (0..8).rev() {
            r = (&r * &r) % m;
            if (byte >> i) & 1 == 1 {
                r = (&r * a) % m;
            }
        }
    }
    r
}
/// Fermat inverse (m prime); None for zero
pub fn invm(a: &BigUint, m: &BigUint) -> Option<BigUint> {
    let a = a % m;
    if a.is_zero() {
        return None;
    }
    Some(powm(&a, &(m - BigUint::from(2u32)), m))
}
pub fn is_square(a: &BigUint, m: &BigUint) -> bool {
    let a = a % m;
    a.is_zero() || powm(&a, &((m - BigUint::one()) >> 1usize), m).is_one()
}
/// An integer in [0, 2^256) biased to the places where limb arithmetic goes wrong.
pub fn edge256(r: &mut Rng, m: &BigUint) -> BigUint {
    let one = BigUint::one();
    let t = two256();
    let small = BigUint::from(r.u64() >> (r.below(64)));
    let v = match r.below(16) {
        0 => BigUint::from(r.below(5) as u32),
        1 => m - &one - BigUint::from(r.below(5) as u32),
        2 => m + BigUint::from(r.below(5) as u32),
        3 => &t - &one - BigUint::from(r.below(5) as u32),
        4 => {
            // limbs drawn from extreme words
            let mut l = BigUint::zero();
            for _ in 0..4 {
                let w = *r.pick(&[0u64, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64, 0xfffffffefffffc2f, 0xfffffffefffffc2e, 0x1000003d1, 0xbfd25e8cd0364141]);
                l = (l << 64usize) + BigUint::from(w);
            }
            l
        }
        5 => one << r.below(256),
        6 => (one.clone() << r.range(1, 256)) - &one,
        7 => m >> r.below(256),
        8 => match r.below(3) {
            // around the half, and between the half of the modulus and the half of 2^256
            0 => (m >> 1usize) + BigUint::from(r.below(3) as u32),
            1 => (&t >> 1usize) - BigUint::from(r.below(3) as u32),
            _ => (m >> 1usize) + BigUint::from(r.u64() >> r.below(64)),
        },
        9 => small,
        10 => {
            // 2^256 mod m and neighbours, i.e. the Montgomery radix
            let rr = &t % m;
            powm(&rr, &BigUint::from(r.range(1, 3) as u32), m) + BigUint::from(r.below(2) as u32)
        }
        11 => {
            // values whose Montgomery form is extreme
            let rr = &t % m;
            let ri = invm(&rr, m).unwrap();
            let target = match r.below(5) {
                0 => BigUint::from(r.below(3) as u32),
                1 => m - BigUint::from(r.range(1, 3) as u32),
                2 => (BigUint::one() << (64 * r.range(1, 3))) - BigUint::one(),
                3 => BigUint::one() << (64 * r.range(1, 3)),
                _ => m - (BigUint::one() << (r.below(255))),
            };
            mulm(&target, &ri, m)
        }
        12 => {
            // all-ones runs
            let a = r.below(256);
            let b = r.below(256);
            let (lo, hi) = if a < b { (a, b) } else { (b, a) };
            ((BigUint::one() << (hi - lo + 1)) - BigUint::one()) << lo
        }
        _ => from_le(&r.arr32()),
    };
    v % t
}
/// operand pairs: independent, or correlated so that sums, differences and products land on boundaries;
/// half of them with the boundary pattern in the Montgomery representation
pub fn opair(r: &mut Rng, m: &BigUint, rinv: &BigUint) -> (BigUint, BigUint) {
    let a = edge256(r, m) % m;
    let small = BigUint::from((r.u64() >> r.below(64)) as u32 % 4);
    let b = match r.below(8) {
        0 => subm(&small, &a, m),
        1 => negm(&addm(&a, &small, m), m),
        2 => addm(&a, &small, m),
        3 => match invm(&a, m) {
            Some(i) => mulm(&addm(&small, &edge256(r, m), m), &i, m),
            None => small,
        },
        4 => a.clone(),
        _ => edge256(r, m) % m,
    };
    if r.chance(1, 2) {
        (mulm(&a, rinv, m), mulm(&b, rinv, m))
    } else {
        (a, b)
    }
}
/// Tonelli-Shanks, on our own
pub fn sqrtm(a: &BigUint, m: &BigUint) -> Option<BigUint> {
    let a = a % m;
    if a.is_zero() {
        return Some(a);
    }
    if !is_square(&a, m) {
        return None;
    }
    let one = BigUint::one();
    let mut q = m - &one;
    let mut s = 0usize;
    while (&q & &one).is_zero() {
        q >>= 1usize;
        s += 1;
    }
    let mut z = BigUint::from(2u32);
    while is_square(&z, m) {
        z += &one;
    }
    let (mut mm, mut c, mut t, mut r) = (s, powm(&z, &q, m), powm(&a, &q, m), powm(&a, &((&q + &one) >> 1usize), m));
    while !t.is_one() {
        let mut i = 0;
        let mut tt = t.clone();
        while !tt.is_one() {
            tt = mulm(&tt, &tt, m);
            i += 1;
        }
        let mut b = c.clone();
        for _ in 0..mm - i - 1 {
            b = mulm(&b, &b, m);
        }
        mm = i;
        c = mulm(&b, &b, m);
        t = mulm(&t, &c, m);
        r = mulm(&r, &b, m);
    }
    Some(r)
}
/// affine short-Weierstrass points over F_m, a = 0 unless given; None is the identity
pub type Pt = Option<(BigUint, BigUint)>;
pub fn pt_add(p: &Pt, q: &Pt, a: &BigUint, m: &BigUint) -> Pt {
    let (x1, y1) = match p {
        None => return q.clone(),
        Some(v) => v,
    };
    let (x2, y2) = match q {
        None => return p.clone(),
        Some(v) => v,
    };
    let l = if x1 == x2 {
        if (y1 + y2) % m == BigUint::zero() {
            return None;
        }
        mulm(&addm(&mulm(&BigUint::from(3u32), &mulm(x1, x1, m), m), a, m), &invm(&(y1 + y2), m).unwrap(), m)
    } else {
        mulm(&subm(y2, y1, m), &invm(&subm(x2, x1, m), m).unwrap(), m)
    };
    let x3 = subm(&subm(&mulm(&l, &l, m), x1, m), x2, m);
    let y3 = subm(&mulm(&l, &subm(x1, &x3, m), m), y1, m);
    Some((x3, y3))
}
pub fn pt_neg(p: &Pt, m: &BigUint) -> Pt {
    p.as_ref().map(|(x, y)| (x.clone(), negm(y, m)))
}
/// Jacobian double-and-add for a = 0 (one inversion), checked against pt_add by its users' self-test
pub fn pt_mul(p: &Pt, k: &BigUint, m: &BigUint) -> Pt {
    let (x, y) = match p {
        None => return None,
        Some(v) => v.clone(),
    };
    let z0 = BigUint::zero();
    let mut acc: Option<(BigUint, BigUint, BigUint)> = None;
    let dbl = |j: &(BigUint, BigUint, BigUint)| -> Option<(BigUint, BigUint, BigUint)> {
        let (x, y, z) = j;
        if y == &z0 {
            return None;
        }
        let yy = mulm(y, y, m);
        let s = mulm(&BigUint::from(4u32), &mulm(x, &yy, m), m);
        let mm = mulm(&BigUint::from(3u32), &mulm(x, x, m), m);
        let x3 = subm(&mulm(&mm, &mm, m), &(&s + &s), m);
        let y3 = subm(&mulm(&mm, &subm(&s, &x3, m), m), &mulm(&BigUint::from(8u32), &mulm(&yy, &yy, m), m), m);
        let z3 = mulm(&(y + y), z, m);
        Some((x3, y3, z3))
    };
    for byte in k.to_bytes_be() {
        for i in (0..8).rev() {
            acc = acc.as_ref().and_then(|j| dbl(j));
            if (byte >> i) & 1 == 1 {
                acc = match &acc {
                    None => Some((x.clone(), y.clone(), BigUint::one())),
                    Some((x1, y1, z1)) => {
                        let zz = mulm(z1, z1, m);
                        let u2 = mulm(&x, &zz, m);
                        let s2 = mulm(&y, &mulm(&zz, z1, m), m);
                        if &u2 == x1 {
                            if &s2 == y1 {
                                dbl(&(x1.clone(), y1.clone(), z1.clone()))
                            } else {
                                None
                            }
                        } else {
                            let h = subm(&u2, x1, m);
                            let r = subm(&s2, y1, m);
                            let hh = mulm(&h, &h, m);
                            let hhh = mulm(&hh, &h, m);
                            let v = mulm(x1, &hh, m);
                            let x3 = subm(&subm(&mulm(&r, &r, m), &hhh, m), &(&v + &v), m);
                            let y3 = subm(&mulm(&r, &subm(&v, &x3, m), m), &mulm(y1, &hhh, m), m);
                            Some((x3, y3, mulm(z1, &h, m)))
                        }
                    }
                };
            }
        }
    }
    acc.map(|(x, y, z)| {
        let zi = invm(&z, m).unwrap();
        let z2 = mulm(&zi, &zi, m);
        (mulm(&x, &z2, m), mulm(&y, &mulm(&z2, &zi, m), m))
    })
}
