//! Circom circuits as plain data: constraints over wires, a satisfying assignment, and the files circom writes.
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use vcommon::*;

pub type Lc = Vec<(usize, BigUint)>;
#[derive(Clone)]
pub struct Circuit {
    pub outs: usize,
    pub ins: usize,
    pub prv: usize,
    pub cons: Vec<[Lc; 3]>,
    /// wires: 1, public outputs, public inputs, private
    pub wires: Vec<BigUint>,
}
fn value(r: &mut Rng, p: &BigUint) -> BigUint {
    match r.below(5) {
        0 => BigUint::from(r.below(4) as u32),
        1 => edge256(r, p) % p,
        _ => from_le(&r.arr32()) % p,
    }
}
impl Circuit {
    pub fn n(&self) -> usize {
        1 + self.outs + self.ins + self.prv
    }
    pub fn publics(&self) -> Vec<BigUint> {
        self.wires[1..1 + self.outs + self.ins].to_vec()
    }
    pub fn gen(r: &mut Rng, big: bool) -> Circuit {
        let m = if big { 40 } else { 7 };
        let (outs, ins, prv) = (r.below(3), r.below(4), r.range(0, m));
        let least = if r.chance(1, 12) { 0 } else { 1 };
        let rows = r.range(least, m);
        Circuit::shaped(r, outs, ins, prv, rows)
    }
    pub fn shaped(r: &mut Rng, outs: usize, ins: usize, prv: usize, rows: usize) -> Circuit {
        let p = modp();
        let n = 1 + outs + ins + prv;
        let mut wires: Vec<BigUint> = (0..n).map(|_| value(r, &p)).collect();
        wires[0] = BigUint::one();
        let homogeneous = r.chance(1, 5);
        let mut cons = vec![];
        for _ in 0..rows {
            let lc = |r: &mut Rng| -> Lc {
                let t = if r.chance(1, 8) { 0 } else { r.range(1, 4) };
                // each wire at most once as circom writes them, in any order
                let mut w: Vec<usize> = (if homogeneous && n > 1 { 1 } else { 0 }..n).collect();
                r.shuffle(&mut w);
                w.truncate(t);
                let mut lc: Lc = w.into_iter().map(|i| (i, value(r, &p))).collect();
                // or, as the format allows, a wire twice, perhaps cancelling
                if !lc.is_empty() && r.chance(1, 6) {
                    let (i, v) = r.pick(&lc).clone();
                    let again = if r.chance(1, 3) { subm(&BigUint::zero(), &v, &p) } else { value(r, &p) };
                    let at = r.below(lc.len() + 1);
                    lc.insert(at, (i, again));
                }
                lc
            };
            let mut c = [lc(r), lc(r), lc(r)];
            let (a, b, d) = (eval(&c[0], &wires), eval(&c[1], &wires), eval(&c[2], &wires));
            let diff = subm(&mulm(&a, &b, &p), &d, &p);
            if !diff.is_zero() {
                let cands: Vec<usize> = (if homogeneous { 1 } else { 0 }..n).filter(|i| !wires[*i].is_zero()).collect();
                if cands.is_empty() {
                    continue;
                }
                let i = *r.pick(&cands);
                let k = mulm(&diff, &invm(&wires[i], &p).unwrap(), &p);
                match c[2].iter_mut().find(|e| e.0 == i) {
                    Some(e) => e.1 = addm(&e.1, &k, &p),
                    None => c[2].push((i, k)),
                }
            }
            cons.push(c);
        }
        let c = Circuit { outs, ins, prv, cons, wires };
        assert!(c.sat(&c.wires));
        c
    }
    /// every constraint of the file holds
    pub fn sat(&self, w: &[BigUint]) -> bool {
        let p = modp();
        self.cons.iter().all(|c| mulm(&eval(&c[0], w), &eval(&c[1], w), &p) == eval(&c[2], w))
    }
    pub fn r1cs(&self) -> Vec<u8> {
        let p = modp();
        let mut h = vec![];
        h.extend(32u32.to_le_bytes());
        h.extend(le32(&p));
        for x in [self.n(), self.outs, self.ins, self.prv] {
            h.extend((x as u32).to_le_bytes());
        }
        h.extend((self.n() as u64).to_le_bytes());
        h.extend((self.cons.len() as u32).to_le_bytes());
        let mut c = vec![];
        for row in &self.cons {
            for lc in row {
                c.extend((lc.len() as u32).to_le_bytes());
                for (i, v) in lc {
                    c.extend((*i as u32).to_le_bytes());
                    c.extend(le32(v));
                }
            }
        }
        let w: Vec<u8> = (0..self.n() as u64).flat_map(|x| x.to_le_bytes()).collect();
        let mut o = b"r1cs".to_vec();
        o.extend(1u32.to_le_bytes());
        o.extend(3u32.to_le_bytes());
        for (t, s) in [(1u32, h), (2, c), (3, w)] {
            o.extend(t.to_le_bytes());
            o.extend((s.len() as u64).to_le_bytes());
            o.extend(s);
        }
        o
    }
    pub fn show(&self) -> String {
        format!("wires={} outs={} ins={} cons={}", self.n(), self.outs, self.ins, self.cons.len())
    }
    pub fn dump(&self) -> String {
        let f = self.r1cs();
        format!("{} file={}{}", self.show(), hex(&f[..f.len().min(1 << 16)]), if f.len() > 1 << 16 { "…" } else { "" })
    }
}
pub fn eval(lc: &Lc, w: &[BigUint]) -> BigUint {
    let p = modp();
    lc.iter().fold(BigUint::zero(), |a, (i, v)| (a + v * &w[*i]) % &p)
}
pub fn wtns(w: &[BigUint]) -> Vec<u8> {
    let mut o = b"wtns".to_vec();
    o.extend(2u32.to_le_bytes());
    o.extend(2u32.to_le_bytes());
    o.extend(1u32.to_le_bytes());
    o.extend(40u64.to_le_bytes());
    o.extend(32u32.to_le_bytes());
    o.extend(le32(&modp()));
    o.extend((w.len() as u32).to_le_bytes());
    o.extend(2u32.to_le_bytes());
    o.extend((32 * w.len() as u64).to_le_bytes());
    for v in w {
        o.extend(le32(v));
    }
    o
}
pub fn publics(v: &[BigUint]) -> Vec<u8> {
    v.iter().flat_map(|x| be32(x)).collect()
}
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let d = std::env::temp_dir().join(format!("verif-{}-{}", name, std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn put(&self, name: &str, b: &[u8]) -> std::path::PathBuf {
        let f = self.0.join(name);
        std::fs::write(&f, b).unwrap();
        f
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
