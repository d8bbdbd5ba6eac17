//! Reference Poseidon: the Grain LFSR parameter generation of the specification and a plain permutation.
use crate::big::*;
use num_bigint_dig::BigUint;

pub struct Grain(Vec<u8>);
impl Grain {
    pub fn new(n: u32, t: u32, rf: u32, rp: u32) -> Grain {
        let mut b = vec![];
        for (v, w) in [(1, 2), (0, 4), (n, 12), (t, 12), (rf, 10), (rp, 10), ((1 << 30) - 1, 30)] {
            for i in (0..w).rev() {
                b.push((v >> i & 1) as u8);
            }
        }
        let mut g = Grain(b);
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> u8 {
        let b = &self.0;
        let x = b[62] ^ b[51] ^ b[38] ^ b[23] ^ b[13] ^ b[0];
        self.0.remove(0);
        self.0.push(x);
        x
    }
    fn bit(&mut self) -> u8 {
        while self.step() == 0 {
            self.step();
        }
        self.step()
    }
    pub fn int(&mut self, n: usize) -> BigUint {
        let mut v = BigUint::from(0u32);
        for _ in 0..n {
            v = (v << 1usize) + BigUint::from(self.bit());
        }
        v
    }
}
#[derive(Clone)]
pub struct Params {
    pub p: BigUint,
    pub rc: Vec<BigUint>,
    pub mds: Vec<Vec<BigUint>>,
    pub rf: usize,
    pub rp: usize,
}
/// width 3, 8 full and 56 partial rounds over the 256-bit field of p
pub fn k256_params() -> Params {
    let p = modp();
    let mut g = Grain::new(256, 3, 8, 56);
    let mut rc = vec![];
    while rc.len() < 64 * 3 {
        let x = g.int(256);
        if x < p {
            rc.push(x);
        }
    }
    let xs: Vec<BigUint> = (0..6).map(|_| g.int(256) % &p).collect();
    let mds = (0..3).map(|i| (0..3).map(|j| invm(&addm(&xs[i], &xs[3 + j], &p), &p).unwrap()).collect()).collect();
    Params { p, rc, mds, rf: 8, rp: 56 }
}
impl Params {
    pub fn hash(&self, a: &BigUint, b: &BigUint) -> BigUint {
        let p = &self.p;
        let mut s = vec![BigUint::from(3u32), a.clone(), b.clone()];
        for r in 0..self.rf / 2 * 2 + self.rp {
            for i in 0..3 {
                s[i] = (&s[i] + &self.rc[3 * r + i]) % p;
            }
            let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
            for x in s.iter_mut().take(if full { 3 } else { 1 }) {
                let x2 = &*x * &*x % p;
                *x = &x2 * &x2 % p * &*x % p;
            }
            s = (0..3).map(|i| (0..3).fold(BigUint::from(0u32), |acc, j| acc + &self.mds[i][j] * &s[j]) % p).collect();
        }
        s[1].clone()
    }
}
