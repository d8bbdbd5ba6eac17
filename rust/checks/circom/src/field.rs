//! Integers mod p = 2^256 - 2^32 - 977, always reduced.
use num_bigint_dig::BigUint;
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct F(pub [u64; 4]); // little-endian limbs; the derived order is not numeric
const P: [u64; 4] = [0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX];
const C: u64 = 0x1000003D1;
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.dec())
    }
}
fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn subb(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut o = [0; 4];
    let mut c = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (x, c2) = x.overflowing_sub(c as u64);
        o[i] = x;
        c = c1 | c2;
    }
    (o, c)
}
fn addc(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    (o, c != 0)
}
impl F {
    pub const ZERO: F = F([0; 4]);
    pub const ONE: F = F([1, 0, 0, 0]);
    pub fn u(v: u64) -> F {
        F([v, 0, 0, 0])
    }
    pub fn reduce(mut v: [u64; 4]) -> F {
        if geq(&v, &P) {
            v = subb(&v, &P).0;
        }
        F(v)
    }
    pub fn big(&self) -> BigUint {
        let mut b = vec![];
        for l in &self.0 {
            b.extend_from_slice(&l.to_le_bytes());
        }
        BigUint::from_bytes_le(&b)
    }
    pub fn from_big(v: &BigUint) -> F {
        let v = v % vcommon::modp();
        F(vcommon::limbs(&v))
    }
    pub fn dec(&self) -> String {
        self.big().to_string()
    }
    pub fn is_zero(&self) -> bool {
        *self == F::ZERO
    }
    pub fn add(self, b: F) -> F {
        let (o, c) = addc(&self.0, &b.0);
        if c {
            // 2^256 = p + C
            let (o, _) = addc(&o, &[C, 0, 0, 0]);
            return F::reduce(o);
        }
        F::reduce(o)
    }
    pub fn sub(self, b: F) -> F {
        let (o, c) = subb(&self.0, &b.0);
        if c {
            return F(addc(&o, &P).0);
        }
        F(o)
    }
    pub fn neg(self) -> F {
        F::ZERO.sub(self)
    }
    pub fn mul(self, b: F) -> F {
        let (a, b) = (&self.0, &b.0);
        if a[1] | a[2] | a[3] == 0 && a[0] <= 1 {
            return if a[0] == 1 { F(*b) } else { F::ZERO };
        }
        if b[1] | b[2] | b[3] == 0 && b[0] <= 1 {
            return if b[0] == 1 { F(*a) } else { F::ZERO };
        }
        let mut t = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[i + j] as u128 + a[i] as u128 * b[j] as u128;
                t[i + j] = c as u64;
                c >>= 64;
            }
            t[i + 4] = c as u64;
        }
        // low + high * C
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += t[i] as u128 + t[i + 4] as u128 * C as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        let mut c = c * C as u128; // < 2^64 * 2^33 fits
        for x in r.iter_mut() {
            c += *x as u128;
            *x = c as u64;
            c >>= 64;
        }
        if c != 0 {
            r = addc(&r, &[C, 0, 0, 0]).0;
        }
        F::reduce(r)
    }
    pub fn pow(self, e: &[u64; 4]) -> F {
        let mut r = F::ONE;
        for i in (0..256).rev() {
            r = r.mul(r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    /// 0 for 0
    pub fn inv(self) -> F {
        if self == F::ONE {
            return self;
        }
        self.pow(&[P[0] - 2, P[1], P[2], P[3]])
    }
    pub fn sqrt(self) -> Option<F> {
        let e = (vcommon::modp() + 1u32) >> 2;
        let r = self.pow(&vcommon::limbs(&e));
        if r.mul(r) == self {
            Some(r)
        } else {
            None
        }
    }
    pub fn pow2(i: usize) -> F {
        if i < 256 {
            let mut l = [0; 4];
            l[i / 64] = 1 << (i % 64);
            return F::reduce(l);
        }
        let mut r = F::pow2(255);
        for _ in 255..i {
            r = r.add(r);
        }
        r
    }
    pub fn num_cmp(&self, o: &F) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
    /// order in which circom compares: p/2+1 .. p-1 are the negatives
    pub fn signed_cmp(&self, o: &F) -> std::cmp::Ordering {
        let h = F([0xFFFFFFFF7FFFFE18, u64::MAX, u64::MAX, 0x7FFFFFFFFFFFFFFF]); // p/2 + 1
        let s = |x: &F| x.num_cmp(&h).is_ge();
        match (s(self), s(o)) {
            (true, false) => std::cmp::Ordering::Less,
            (false, true) => std::cmp::Ordering::Greater,
            _ => self.num_cmp(o),
        }
    }
    pub fn low(&self) -> Option<usize> {
        if self.0[1] | self.0[2] | self.0[3] == 0 && self.0[0] < 1 << 40 {
            Some(self.0[0] as usize)
        } else {
            None
        }
    }
}
