/// xoshiro256** seeded by splitmix64; deterministic in (seed, stream name).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64, stream: &str) -> Rng {
        let mut x = seed ^ 0xA5A5_5A5A_1234_5678;
        for b in stream.bytes() {
            x = x.wrapping_mul(0x100000001b3) ^ (b as u64);
            splitmix(&mut x);
        }
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        let v = self.bytes(32);
        let mut a = [0u8; 32];
        a.copy_from_slice(&v);
        a
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Rng {}
/// a generator that first gives `high` bytes of ones
pub struct HighRng {
    pub high: usize,
    pub rest: Rng,
}
impl rand_core::RngCore for HighRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            if self.high > 0 {
                self.high -= 1;
                *b = 0xff;
            } else {
                *b = self.rest.u64() as u8;
            }
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for HighRng {}
/// which bits have been seen 0 and 1
pub struct Spread {
    pub n: u32,
    seen: [[u8; 32]; 2],
}
impl Spread {
    pub fn new() -> Spread {
        Spread { n: 0, seen: [[0; 32]; 2] }
    }
    pub fn add(&mut self, b: &[u8; 32]) {
        self.n += 1;
        for i in 0..32 {
            self.seen[0][i] |= !b[i];
            self.seen[1][i] |= b[i];
        }
    }
    /// bits that never changed
    pub fn stuck(&self) -> u32 {
        (0..32).map(|i| (!(self.seen[0][i] & self.seen[1][i])).count_ones()).sum()
    }
}
