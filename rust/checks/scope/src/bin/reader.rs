//! C03, C04: the circom constraint-file reader against files written by an independent writer.
#![allow(dead_code, unused_imports)]
use ff::PrimeField;
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use std::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom};
use vcommon::*;
#[path = "/repo/packages/circuit_reader/src/circom_reader.rs"]
mod circom_reader;
type G = k256::ProjectivePoint;
type Lc = Vec<(u32, BigUint)>;

#[derive(Clone, Debug)]
struct File {
    n_wires: u32,
    n_out: u32,
    n_in: u32,
    n_prv: u32,
    n_labels: u64,
    cons: Vec<[Lc; 3]>,
    map: Vec<u64>,
    prime: Vec<u8>,
}
fn w_lc(o: &mut Vec<u8>, lc: &Lc) {
    o.extend((lc.len() as u32).to_le_bytes());
    for (w, c) in lc {
        o.extend(w.to_le_bytes());
        o.extend(le32(c));
    }
}
impl File {
    fn header(&self) -> Vec<u8> {
        let mut o = vec![];
        o.extend((self.prime.len() as u32).to_le_bytes());
        o.extend(&self.prime);
        for v in [self.n_wires, self.n_out, self.n_in, self.n_prv] {
            o.extend(v.to_le_bytes());
        }
        o.extend(self.n_labels.to_le_bytes());
        o.extend((self.cons.len() as u32).to_le_bytes());
        o
    }
    fn constraints(&self) -> Vec<u8> {
        let mut o = vec![];
        for c in &self.cons {
            for x in c {
                w_lc(&mut o, x)
            }
        }
        o
    }
    fn wires(&self) -> Vec<u8> {
        self.map.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}
fn assemble(magic: &[u8; 4], version: u32, secs: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    o.extend(magic);
    o.extend(version.to_le_bytes());
    o.extend((secs.len() as u32).to_le_bytes());
    for (t, b) in secs {
        o.extend(t.to_le_bytes());
        o.extend((b.len() as u64).to_le_bytes());
        o.extend(b);
    }
    o
}
fn gen(r: &mut Rng) -> File {
    let m = modn();
    let n_wires = match r.below(6) { 0 => 1, 1 => 2, 2 => r.range(3, 300) as u32, _ => r.range(2, 12) as u32 };
    let pubs = r.below(n_wires as usize) as u32;
    let n_out = r.below(pubs as usize + 1) as u32;
    let n_in = pubs - n_out;
    let n_prv = r.below((n_wires - pubs) as usize) as u32;
    let nc = match r.below(6) { 0 => 0, 1 => 1, 2 => r.range(2, 60), _ => r.range(1, 8) };
    let mut cons = vec![];
    for _ in 0..nc {
        let mut c: [Lc; 3] = Default::default();
        for x in c.iter_mut() {
            let k = match r.below(8) { 0 | 1 => 0, 2 => r.range(1, 30), _ => r.range(1, 4) };
            for _ in 0..k {
                let v = match r.below(10) {
                    // low bytes all ones, single high byte etc.: byte-order sensitive values
                    0 => (BigUint::one() << (8 * r.range(1, 31))) - BigUint::one(),
                    1 => BigUint::from(r.below(256) as u32) << (8 * r.below(31)),
                    2 => &m - BigUint::from(r.range(1, 300) as u32),
                    _ => edge256(r, &m),
                } % &m;
                let w = match r.below(5) { 0 => 0, 1 => n_wires - 1, _ => r.below(n_wires as usize) as u32 };
                x.push((w, v));
            }
        }
        cons.push(c);
    }
    let mut map: Vec<u64> = (0..n_wires as u64).map(|i| if i == 0 { 0 } else if r.chance(1, 3) { r.u64() >> r.below(64) } else { i * 3 + 1 }).collect();
    map[0] = 0;
    File { n_wires, n_out, n_in, n_prv, n_labels: r.u64() >> r.below(64), cons, map, prime: if r.chance(1, 2) { le32(&modp()).to_vec() } else { r.bytes(32) } }
}
/// counts and indices that do not fit 8 or 16 bits
fn gen_big(r: &mut Rng, i: usize) -> File {
    let mut f = gen(r);
    match i % 3 {
        0 => {
            f.n_wires = 70_000 + r.below(5000) as u32;
            f.n_in = 66_000;
            f.n_out = 300;
            f.n_prv = 1000;
            f.map = (0..f.n_wires as u64).collect();
            f.cons = (0..10u32).map(|k| [vec![(65_536 + k, BigUint::from(k))], vec![(f.n_wires - 1 - k, BigUint::one())], vec![(k, BigUint::one())]]).collect();
        }
        1 => {
            f.cons = (0..66_000u32).map(|k| [vec![], if k % 1000 == 1 || k > 65_500 { vec![(0, BigUint::from(k))] } else { vec![] }, vec![]]).collect();
        }
        _ => {
            f.cons = vec![[vec![(0, BigUint::one())], (0..66_000u32).map(|k| (k % f.n_wires, BigUint::from(k + 1))).collect(), vec![]], Default::default()];
        }
    }
    f
}
/// delivers at most k bytes per call, sometimes reports an interruption, fails at byte `fail_at`
struct Chunky {
    c: Cursor<Vec<u8>>,
    k: usize,
    fail_at: Option<u64>,
    tick: u64,
    reads: u64,
}
impl Read for Chunky {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.tick += 1;
        self.reads += 1;
        if self.tick % 5 == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        if let Some(f) = self.fail_at {
            if self.c.position() >= f {
                return Err(Error::new(ErrorKind::Other, "device error"));
            }
        }
        let n = b.len().min(self.k);
        self.c.read(&mut b[..n])
    }
}
impl Seek for Chunky {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}
/// a file with a run of zeros that is not in memory
struct Holed {
    before: Vec<u8>,
    hole: u64,
    after: Vec<u8>,
    at: u64,
}
impl Read for Holed {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let (x, y) = (self.before.len() as u64, self.before.len() as u64 + self.hole);
        let n = if self.at < x {
            (&self.before[self.at as usize..]).read(b)?
        } else if self.at < y {
            let n = b.len().min((y - self.at).min(1 << 40) as usize);
            b[..n].fill(0);
            n
        } else {
            (&self.after[((self.at - y) as usize).min(self.after.len())..]).read(b)?
        };
        self.at += n as u64;
        Ok(n)
    }
}
impl Seek for Holed {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let end = self.before.len() as u64 + self.hole + self.after.len() as u64;
        let to = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(d) => self.at as i128 + d as i128,
            SeekFrom::End(d) => end as i128 + d as i128,
        };
        if to < 0 || to > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek before the start"));
        }
        self.at = to as u64;
        Ok(self.at)
    }
}
type Fr = k256::Scalar;
fn fval(f: &Fr) -> BigUint {
    from_be(f.to_repr().as_slice())
}
fn compare(f: &File, got: &circom_reader::R1CSFile<Fr>) -> Option<String> {
    let h = &got.header;
    if got.version != 1 {
        return Some(format!("version {}", got.version));
    }
    if (h.field_size, h.n_wires, h.n_pub_out, h.n_pub_in, h.n_prv_in, h.n_labels, h.n_constraints) != (32, f.n_wires, f.n_out, f.n_in, f.n_prv, f.n_labels, f.cons.len() as u32) {
        return Some(format!("header {:?} for {:?}", h, (f.n_wires, f.n_out, f.n_in, f.n_prv, f.n_labels, f.cons.len())));
    }
    if h.prime_size != f.prime {
        return Some("prime".into());
    }
    if got.wire_mapping != f.map {
        return Some(format!("map {:?} want {:?}", got.wire_mapping, f.map));
    }
    cons(f, &got.constraints)
}
fn cons(f: &File, got: &[(Vec<(usize, Fr)>, Vec<(usize, Fr)>, Vec<(usize, Fr)>)]) -> Option<String> {
    if got.len() != f.cons.len() {
        return Some(format!("{} constraints for {}", got.len(), f.cons.len()));
    }
    for (i, (g, w)) in got.iter().zip(&f.cons).enumerate() {
        for (n, (g, w)) in [("A", (&g.0, &w[0])), ("B", (&g.1, &w[1])), ("C", (&g.2, &w[2]))] {
            if g.len() != w.len() {
                return Some(format!("constraint {} {} has {} terms for {}", i, n, g.len(), w.len()));
            }
            for (g, w) in g.iter().zip(w.iter()) {
                if g.0 != w.0 as usize || fval(&g.1) != w.1 {
                    return Some(format!("constraint {} {}: wire {} coeff {:x}, file has wire {} coeff {:x}", i, n, g.0, fval(&g.1), w.0, w.1));
                }
            }
        }
    }
    None
}
fn junk(r: &mut Rng) -> (u32, Vec<u8>) {
    let t = *r.pick(&[0u32, 4, 5, 6, 7, 99, 256, u32::MAX]);
    let k = *r.pick(&[0usize, 1, 7, 64, 300]);
    (t, r.bytes(k))
}
const MAGIC: &[u8; 4] = b"r1cs";
fn c03(l: &mut Ledger) {
    l.rule = "random well-formed files (any section order, unknown sections, empty and repeated terms, byte-order-sensitive coefficients) read through buffered, chunked and interrupted readers; non-trivial = at least one constraint".into();
    let mut r = Rng::new(l.seed, "C03");
    let n = l.n(6_000, 150_000);
    let dir = std::env::temp_dir().join(format!("vchk-c03-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for i in 0..n {
        if l.out_of_time() {
            break;
        }
        let f = if i < 9 { gen_big(&mut r, i) } else { gen(&mut r) };
        let mut secs = vec![(1u32, f.header()), (2, f.constraints()), (3, f.wires())];
        if r.chance(2, 3) {
            r.shuffle(&mut secs);
        }
        let k = r.below(4);
        for _ in 0..k {
            let p = r.below(secs.len() + 1);
            let mut j = junk(&mut r);
            while [1, 2, 3].contains(&j.0) {
                j = junk(&mut r)
            }
            secs.insert(p, j);
        }
        let order: Vec<u32> = secs.iter().map(|s| s.0).collect();
        let mut bytes = assemble(MAGIC, 1, &secs);
        if r.chance(1, 8) {
            let k = r.below(40);
            bytes.extend(r.bytes(k)); // bytes after the last section
        }
        let show = || format!("sections {:?} wires {} out {} in {} prv {} constraints {} first {}", order, f.n_wires, f.n_out, f.n_in, f.n_prv, f.cons.len(), f.cons.first().map(|c| c.iter().map(|lc| lc.iter().take(3).map(|(w, v)| format!("{:x}*w{}", v, w)).collect::<Vec<_>>().join("+")).collect::<Vec<_>>().join(" | ")).unwrap_or_default());
        l.case(&bytes[..], !f.cons.is_empty(), show);
        l.count(&format!("order:{}", order.iter().filter(|x| [1, 2, 3].contains(x)).map(|x| x.to_string()).collect::<String>()));
        let mode = i % 3;
        let got = l.must("well-formed", show, || match mode {
            0 => circom_reader::from_reader::<G, _>(Cursor::new(bytes.clone())).map_err(|e| e.to_string()),
            1 => circom_reader::from_reader::<G, _>(std::io::BufReader::with_capacity(7, Cursor::new(bytes.clone()))).map_err(|e| e.to_string()),
            _ => circom_reader::from_reader::<G, _>(Chunky { c: Cursor::new(bytes.clone()), k: 1 + i % 13, fail_at: None, tick: 0, reads: 0 }).map_err(|e| e.to_string()),
        });
        l.count(&format!("reader_mode:{}", mode));
        match got {
            None => {}
            Some(Err(e)) => l.violation("well-formed-refused", &format!("{}: {}", e, show())),
            Some(Ok(g)) => {
                if let Some(d) = compare(&f, &g) {
                    l.violation("decoded-differs", &format!("{} in {}", d, show()));
                }
            }
        }
        // the derived form
        let got = l.must("well-formed", show, || if i % 4 == 0 {
            let p = dir.join("x.r1cs");
            std::fs::write(&p, &bytes).unwrap();
            circom_reader::load_r1cs_from_bin_file::<G>(&p)
        } else {
            circom_reader::load_r1cs_from_bin::<G, _>(Cursor::new(bytes.clone()))
        });
        if let Some((g, map)) = got {
            let want = ((1 + f.n_in + f.n_out) as usize, f.n_wires as usize);
            l.count("derived");
            l.check((g.num_inputs, g.num_variables) == want && g.num_aux == want.1 - want.0, "derived-counts", || format!("inputs {} aux {} variables {} for {}", g.num_inputs, g.num_aux, g.num_variables, show()));
            l.check(map.iter().map(|x| *x as u64).eq(f.map.iter().copied()), "derived-map", show);
            if let Some(d) = cons(&f, &g.constraints) {
                l.violation("derived-constraints", &format!("{} in {}", d, show()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // unknown sections larger than 31 and 32 bits count
    for i in 0..l.n(24, 60) {
        let f = gen(&mut r);
        let mut secs = vec![(1u32, f.header()), (2, f.constraints()), (3, f.wires())];
        r.shuffle(&mut secs);
        let p = r.below(3);
        let hole = match i % 3 {
            0 => (1u64 << 31) + r.below(1000) as u64,
            1 => (1u64 << 32) + r.below(1000) as u64,
            _ => (1u64 << 32) * 3 / 2 + r.below(1000) as u64,
        };
        let whole = assemble(MAGIC, 1, &secs);
        let mut at = 12;
        for s in &secs[..p] {
            at += 12 + s.1.len();
        }
        let mut before = whole[..at].to_vec();
        before[8..12].copy_from_slice(&4u32.to_le_bytes());
        before.extend(r.range(4, 90).to_le_bytes()[..4].iter());
        before.extend(hole.to_le_bytes());
        let show = || format!("section of {} bytes after {} of {:?}: wires {} constraints {}", hole, p, secs.iter().map(|s| s.0).collect::<Vec<_>>(), f.n_wires, f.cons.len());
        l.case(&(&whole, hole), !f.cons.is_empty(), show);
        l.count("huge_unknown_section");
        match l.must("well-formed", show, || circom_reader::from_reader::<G, _>(Holed { before: before.clone(), hole, after: whole[at..].to_vec(), at: 0 }).map_err(|e| e.to_string())) {
            None => {}
            Some(Err(e)) => l.violation("well-formed-refused", &format!("{}: {}", e, show())),
            Some(Ok(g)) => {
                if let Some(d) = compare(&f, &g) {
                    l.violation("decoded-differs", &format!("{} in {}", d, show()));
                }
            }
        }
    }
    l.require("huge_unknown_section", 20);
    l.require("derived", 500);
    for o in ["order:123", "order:132", "order:213", "order:231", "order:312", "order:321"] {
        l.require(o, 20);
    }
}
fn never(l: &mut Ledger, kind: &str, bytes: Vec<u8>, fail_at: Option<u64>, show: &dyn Fn() -> String) {
    l.case(&(kind, &bytes[..], fail_at), true, || format!("{} {}", kind, show()));
    l.count(&format!("malformed:{}", kind));
    let b2 = bytes.clone();
    let got = attempt(|| match fail_at {
        None => circom_reader::from_reader::<G, _>(Cursor::new(bytes)).map(|_| ()).map_err(|_| ()),
        Some(f) => circom_reader::from_reader::<G, _>(Chunky { c: Cursor::new(bytes), k: 5, fail_at: Some(f), tick: 0, reads: 0 }).map(|_| ()).map_err(|_| ()),
    });
    l.count(match &got { Ok(Ok(())) => "outcome:decoded", Ok(Err(())) => "outcome:error", Err(_) => "outcome:abort" });
    l.check(!matches!(got, Ok(Ok(()))), &format!("malformed-{}", kind), || format!("decoded although {}: {}", kind, show()));
    if fail_at.is_none() {
        let got = attempt(|| circom_reader::load_r1cs_from_bin::<G, _>(Cursor::new(b2)));
        l.check(got.is_err(), &format!("malformed-{}", kind), || format!("loaded although {}: {}", kind, show()));
    }
}
fn c04(l: &mut Ledger) {
    l.rule = "well-formed random files with exactly one structural corruption, every truncation point inside the mandatory sections, and device errors at every byte; each case is non-trivial".into();
    let mut r = Rng::new(l.seed, "C04");
    let n = l.n(1_500, 30_000);
    for i in 0..n {
        if l.out_of_time() {
            break;
        }
        let f = gen(&mut r);
        let mut secs = vec![(1u32, f.header()), (2, f.constraints()), (3, f.wires())];
        if r.chance(1, 2) {
            r.shuffle(&mut secs);
        }
        let show = || format!("wires {} out {} in {} constraints {}", f.n_wires, f.n_out, f.n_in, f.cons.len());
        let good = assemble(MAGIC, 1, &secs);
        // the uncorrupted file decodes, so the corruption is what is refused
        let ok = attempt(|| circom_reader::from_reader::<G, _>(Cursor::new(good.clone())).is_ok());
        l.count("controls");
        l.check(matches!(ok, Ok(true)), "control", || format!("well-formed file refused: {}", show()));
        match i % 10 {
            0 => {
                let mut m = *MAGIC;
                let p = r.below(4);
                m[p] ^= 1 << r.below(8);
                never(l, "magic", assemble(&m, 1, &secs), None, &show);
                never(l, "magic", assemble(b"wtns", 1, &secs), None, &show);
            }
            1 => {
                for v in [0u32, 2, 3, 0x0100_0000, 257, u32::MAX] {
                    never(l, "version", assemble(MAGIC, v, &secs), None, &show);
                }
            }
            2 => {
                for t in 1..=3u32 {
                    let s: Vec<_> = secs.iter().filter(|x| x.0 != t).cloned().collect();
                    never(l, "missing-section", assemble(MAGIC, 1, &s), None, &show);
                    // present under another type number only
                    let s: Vec<_> = secs.iter().cloned().map(|x| if x.0 == t { (x.0 + 10, x.1) } else { x }).collect();
                    never(l, "missing-section", assemble(MAGIC, 1, &s), None, &show);
                }
            }
            3 => {
                // header section of a wrong size for its field size
                for d in [1usize, 4, 8, 32] {
                    let s: Vec<_> = secs.iter().cloned().map(|mut x| { if x.0 == 1 { x.1.extend(vec![0u8; d]) } x }).collect();
                    never(l, "header-size", assemble(MAGIC, 1, &s), None, &show);
                }
                for d in [1usize, 4, 8] {
                    let s: Vec<_> = secs.iter().cloned().map(|mut x| { if x.0 == 1 { let k = x.1.len() - d; x.1.truncate(k) } x }).collect();
                    never(l, "header-size", assemble(MAGIC, 1, &s), None, &show);
                }
            }
            4 => {
                for k in [1usize, 8, 16, 24, 31, 33, 40, 48, 64] {
                    let mut g = f.clone();
                    g.prime = r.bytes(k);
                    let s: Vec<_> = secs.iter().cloned().map(|x| if x.0 == 1 { (1, g.header()) } else { x }).collect();
                    never(l, "field-size", assemble(MAGIC, 1, &s), None, &show);
                }
            }
            5 => {
                for d in [-1i64, 1, 2] {
                    let mut g = f.clone();
                    let k = g.map.len() as i64 + d;
                    g.map.resize(k as usize, 77);
                    let s: Vec<_> = secs.iter().cloned().map(|x| if x.0 == 3 { (3, g.wires()) } else { x }).collect();
                    never(l, "map-size", assemble(MAGIC, 1, &s), None, &show);
                }
                for d in 1..8usize {
                    let s: Vec<_> = secs.iter().cloned().map(|mut x| { if x.0 == 3 { if d % 2 == 0 { x.1.extend(vec![0; d]) } else { let k = x.1.len() - d; x.1.truncate(k) } } x }).collect();
                    never(l, "map-size", assemble(MAGIC, 1, &s), None, &show);
                }
            }
            6 => {
                for v in [1u64, 2, 1 << 32, 1 << 63, u64::MAX, r.u64() | 1] {
                    let mut g = f.clone();
                    g.map[0] = v;
                    let s: Vec<_> = secs.iter().cloned().map(|x| if x.0 == 3 { (3, g.wires()) } else { x }).collect();
                    never(l, "wire0", assemble(MAGIC, 1, &s), None, &show);
                }
            }
            7 => {
                // cut inside every section
                let step = (good.len() / 150).max(1);
                let mut cut = r.below(step);
                while cut < good.len() {
                    never(l, "truncated", good[..cut].to_vec(), None, &show);
                    cut += step;
                }
                never(l, "truncated", good[..good.len() - 1].to_vec(), None, &show);
            }
            8 => {
                let step = (good.len() / 100).max(1);
                let mut at = r.below(step);
                // a failure before the last byte read: everything before the end of the map or constraints
                while at + 8 < good.len() {
                    // only positions inside something the reader needs
                    never(l, "device-error", good.clone(), Some(at as u64), &show);
                    at += step;
                }
            }
            _ => {
                // a coefficient that is not below the modulus
                if f.cons.is_empty() {
                    continue;
                }
                let m = modn();
                let top = two256();
                let room = &top - &m;
                let some = &m + from_le(&r.arr32()) % &room;
                let low = (&top - BigUint::one()) - from_le(&r.bytes(16)) % &room;
                let near = &m + BigUint::from(r.u64() as u32);
                for v in [m.clone(), &m + BigUint::one(), &top - BigUint::one(), &m + (BigUint::one() << 100usize), modp(), some, low, near] {
                    let mut g = f.clone();
                    let c = r.below(g.cons.len());
                    let s3 = r.below(3);
                    let lc = &mut g.cons[c][s3];
                    let at = r.below(lc.len() + 1);
                    lc.insert(at, (0, v));
                    let s: Vec<_> = secs.iter().cloned().map(|x| if x.0 == 2 { (2, g.constraints()) } else { x }).collect();
                    never(l, "coefficient", assemble(MAGIC, 1, &s), None, &show);
                }
            }
        }
    }
    for k in ["magic", "version", "missing-section", "header-size", "field-size", "map-size", "wire0", "truncated", "device-error", "coefficient"] {
        l.require(&format!("malformed:{}", k), 50);
    }
}
fn main() {
    let id = std::env::args().nth(1).unwrap();
    let l = Ledger::new(&id);
    match id.as_str() {
        "C03" => l.run(c03),
        "C04" => l.run(c04),
        _ => panic!("unknown property"),
    }
}
