//! C34: the code as it runs on wasm32, the platform it is shipped for, against the same code on this machine.
//! The same operations are built for both; the wasm32 module runs in node. Answers must be the same bytes, and proofs
//! made on either must pass on both, or on neither.
use gluechk::*;
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use spartanchk::{bytes_mat, falsify, gen_sys, Sys, Wit};
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vcommon::*;

#[derive(Clone, PartialEq, Debug)]
enum Got {
    Answer(Vec<u8>),
    Refused(String),
    Trap(String),
}
impl Got {
    fn answered(&self) -> Option<&Vec<u8>> {
        if let Got::Answer(v) = self { Some(v) } else { None }
    }
    fn yes(&self) -> bool {
        self.answered().map_or(false, |v| v[..] == [1])
    }
    fn show(&self) -> String {
        match self {
            Got::Answer(v) => format!("{} bytes {}", v.len(), hex(&v[..v.len().min(48)])),
            Got::Refused(s) => format!("refused ({})", s.chars().take(160).collect::<String>()),
            Got::Trap(s) => format!("aborted ({})", s.chars().take(300).collect::<String>()),
        }
    }
}
fn native(op: usize, a: &[Vec<u8>]) -> Got {
    match attempt(|| platops::run(op as u8, a)) {
        Ok(Ok(v)) => Got::Answer(v),
        Ok(Err(e)) => Got::Refused(e),
        Err(p) => Got::Trap(format!("{} at {}", p.msg, p.loc)),
    }
}
struct Wasm {
    child: Arc<Mutex<Child>>,
    to: ChildStdin,
    from: ChildStdout,
    since: Arc<Mutex<Option<Instant>>>,
}
const PATIENCE: u64 = 200;
impl Wasm {
    fn new() -> Wasm {
        let v = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let m = std::env::var("VERIF_WASM").expect("VERIF_WASM");
        let mut c = Command::new("node").arg("--stack-size=2000").arg(format!("{v}/ts/wasm32.js")).arg(m).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("node");
        let (to, from) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
        let (child, since) = (Arc::new(Mutex::new(c)), Arc::new(Mutex::new(None::<Instant>)));
        let (c2, s2) = (Arc::downgrade(&child), since.clone());
        std::thread::spawn(move || {
            while let Some(c) = c2.upgrade() {
                if s2.lock().unwrap().map_or(false, |t| t.elapsed() > Duration::from_secs(PATIENCE)) {
                    let _ = c.lock().unwrap().kill();
                    return;
                }
                drop(c);
                std::thread::sleep(Duration::from_millis(500));
            }
        });
        Wasm { child, to, from, since }
    }
    fn ask(&mut self, op: usize, a: &[Vec<u8>]) -> Got {
        let b = platops::pack(a);
        *self.since.lock().unwrap() = Some(Instant::now());
        let r = (|| -> std::io::Result<Got> {
            self.to.write_all(&(op as u32).to_le_bytes())?;
            self.to.write_all(&(b.len() as u32).to_le_bytes())?;
            self.to.write_all(&b)?;
            self.to.flush()?;
            let mut h = [0u8; 5];
            self.from.read_exact(&mut h)?;
            let mut v = vec![0u8; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
            self.from.read_exact(&mut v)?;
            let s = || String::from_utf8_lossy(&v).to_string();
            Ok(match h[0] {
                1 => Got::Answer(v),
                0 => Got::Refused(s()),
                _ => Got::Trap(s()),
            })
        })();
        *self.since.lock().unwrap() = None;
        r.unwrap_or_else(|e| {
            *self = Wasm::new();
            Got::Trap(format!("no answer after {PATIENCE} s, or the process ended: {e}"))
        })
    }
}
impl Drop for Wasm {
    fn drop(&mut self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}
#[derive(Default)]
struct Out {
    bad: Vec<(String, String)>,
    cases: Vec<(Vec<u8>, String)>,
    counts: Vec<String>,
}
impl Out {
    fn bad(&mut self, k: &str, d: String) {
        self.bad.push((k.into(), d));
    }
}
fn clip(a: &[Vec<u8>]) -> String {
    a.iter().map(|x| format!("{}{} ", hex(&x[..x.len().min(1200)]), if x.len() > 1200 { "…" } else { "" })).collect()
}
/// the same answer, or no answer on either
fn same(o: &mut Out, w: &mut Wasm, op: usize, a: &[Vec<u8>], what: &str) -> Got {
    let (n, g) = (native(op, a), w.ask(op, a));
    let name = platops::NAMES[op];
    if n.answered() != g.answered() {
        o.bad(&format!("{name}-differs"), format!("{name}, {what}: here {}, on wasm32 {}; on {}", n.show(), g.show(), clip(a)));
    }
    o.counts.push(format!("{}_{}", name, if g.answered().is_some() { "answered" } else { "refused" }));
    o.cases.push((platops::pack(a), format!("{name}, {what}: {}", g.show())));
    g
}
fn encoded(r: &mut Rng) -> Vec<u8> {
    let m = if r.chance(1, 2) { modp() } else { modn() };
    be32(&match r.below(4) {
        0 => from_le(&r.arr32()),
        _ => edge256(r, &m) % two256(),
    })
    .to_vec()
}
fn arithmetic(w: &mut Wasm, r: &mut Rng, n: usize) -> Out {
    let mut o = Out::default();
    let wide = |r: &mut Rng| -> Vec<u8> { if r.chance(1, 3) { [le32(&from_be(&encoded(r))), le32(&from_be(&encoded(r)))].concat() } else { r.bytes(64) } };
    for _ in 0..n {
        let e = encoded(r);
        same(&mut o, w, 0, &[wide(r), wide(r), e.clone()], "arithmetic");
        for f in [1, 2] {
            let a = [encoded(r), encoded(r), e.clone()];
            same(&mut o, w, f, &a, "arithmetic");
        }
        same(&mut o, w, 5, &[encoded(r), encoded(r)].map(|v| if r.chance(1, 2) { v } else { be32(&(from_be(&v) % modp())).to_vec() }), "two values");
        let a = [encoded(r), encoded(r)].concat();
        same(&mut o, w, 8, &[a], "two values");
    }
    for _ in 0..n / 6 + 1 {
        let a = [r.bytes(128), r.bytes(128), encoded(r)];
        same(&mut o, w, 3, &a, "group law");
        let k = *r.pick(&[33usize, 33, 33, 65, 1]);
        let mut e = r.bytes(k);
        e[0] = *r.pick(&[2u8, 3, 2, 3, 4, 0, 5, 1]);
        same(&mut o, w, 4, &[e], "an encoding");
    }
    for k in [0usize, 1, 2, 7, 300] {
        let p = modp();
        let v: Vec<BigUint> = (0..k).map(|_| edge256(r, &p) % &p).collect();
        let f = wtns(&v);
        same(&mut o, w, 9, &[f.clone()], "a witness file");
        for _ in 0..6 {
            let mut g = f.clone();
            match r.below(4) {
                0 => g.truncate(r.below(g.len())),
                // counts and lengths that are right modulo 2^32
                1 => g[16..24].copy_from_slice(&((40u64) + (1 << 32)).to_le_bytes()),
                2 => {
                    let at = g.len() - 32 * k - 8;
                    g[at..at + 8].copy_from_slice(&((32 * k) as u64 + ((1 + r.below(9) as u64) << 32)).to_le_bytes())
                }
                _ => {
                    // a count 2^27 too large is 2^32 bytes too many
                    let at = g.len() - 32 * k - 16;
                    g[at..at + 4].copy_from_slice(&((k as u32) + ((1 + r.below(31) as u32) << 27)).to_le_bytes())
                }
            }
            same(&mut o, w, 9, &[g], "a broken witness file");
        }
    }
    o
}
fn mat(m: &[(usize, usize, [u8; 32])]) -> Vec<u8> {
    m.iter().flat_map(|(i, j, v)| [(*i as u32).to_le_bytes().to_vec(), (*j as u32).to_le_bytes().to_vec(), v.to_vec()].concat()).collect()
}
fn sysargs(s: &Sys) -> Vec<Vec<u8>> {
    let z = |v: &[BigUint]| v.iter().flat_map(|x| le32(x).to_vec()).collect::<Vec<u8>>();
    let n: Vec<u8> = [s.nc, s.nv, s.ni].iter().flat_map(|x| (*x as u64).to_le_bytes()).collect();
    vec![n, mat(&bytes_mat(&s.m[0])), mat(&bytes_mat(&s.m[1])), mat(&bytes_mat(&s.m[2])), z(&s.vars), z(&s.inputs)]
}
/// constraint systems: what is built, what it says of an assignment, proofs with the commitment to the matrices
fn systems(w: &mut Wasm, r: &mut Rng, n: usize, snark: bool) -> Out {
    let mut o = Out::default();
    for k in 0..n {
        let wit = *r.pick(&[Wit::Random, Wit::Small, Wit::Edge, Wit::AllZero]);
        let (nc, nv) = (r.range(1, 20), r.range(1, 20));
        let ni = r.below(nv.min(6));
        let s = gen_sys(r, nc, nv, ni, 3, wit);
        let a = sysargs(&s);
        let g = same(&mut o, w, 10, &a, "a satisfied system");
        if g.answered().map_or(true, |v| v.last() != Some(&1)) {
            o.bad("satisfied-system", format!("a satisfied system on wasm32: {}; {}", g.show(), s.key()));
        }
        if let Some((t, _)) = falsify(r, &s) {
            let g = same(&mut o, w, 10, &sysargs(&t), "a violated system");
            if g.answered().map_or(false, |v| v.last() == Some(&1)) {
                o.bad("violated-system", format!("a violated system on wasm32 is satisfied; {}", t.key()));
            }
        }
        // rows and columns out of range, an unreduced value
        let mut b = a.clone();
        let m = 1 + r.below(3);
        if !b[m].is_empty() {
            let at = 40 * r.below(b[m].len() / 40);
            match r.below(3) {
                0 => b[m][at..at + 4].copy_from_slice(&((nc as u32) | 1 << 31).to_le_bytes()),
                1 => b[m][at + 4..at + 8].copy_from_slice(&((nv + ni + 1) as u32).wrapping_add(r.below(2) as u32 * 0x7fff_fff0).to_le_bytes()),
                _ => b[m][at + 8..at + 40].copy_from_slice(&le32(&(modp() + BigUint::from(r.below(9) as u32)))),
            }
            same(&mut o, w, 10, &b, "a malformed system");
        }
        if !snark || s.nnz() == 0 || s.m.iter().any(|m| m.is_empty()) {
            continue;
        }
        let _ = k;
        for on_wasm in [false, true] {
            let here = if on_wasm { "wasm32" } else { "this machine" };
            let p = if on_wasm { w.ask(11, &a) } else { native(11, &a) };
            let Some(p) = p.answered() else {
                o.bad("snark-not-proved", format!("no proof on {here}: {}; {}", p.show(), s.key()));
                continue;
            };
            crossed(&mut o, w, r, 12, &a, 6, 5, p, here, &s.show());
        }
    }
    o
}
/// a proof made on one of the two is judged on both, as it is and altered
fn crossed(o: &mut Out, w: &mut Wasm, r: &mut Rng, op: usize, a: &[Vec<u8>], at: usize, inputs: usize, p: &[u8], made: &str, what: &str) {
    let mut with = a.to_vec();
    with.resize(at.max(inputs) + 1, vec![]);
    if op == 7 {
        with[2] = a[2].clone();
    }
    with[at] = p.to_vec();
    let name = platops::NAMES[op];
    let mut judge = |o: &mut Out, with: &[Vec<u8>], want: bool, how: &str| {
        let (n, g) = (native(op, with), w.ask(op, with));
        if n.yes() != want || g.yes() != want {
            o.bad(
                &format!("{name}-{}", if want { "refused" } else { "accepted" }),
                format!("{how}, made on {made}: here {}, on wasm32 {}; {what}; {}", n.show(), g.show(), clip(with)),
            );
        }
        o.counts.push(format!("{name}_{}", if want { "accepted_on_both" } else { "refused_on_both" }));
        o.cases.push((platops::pack(with), format!("{name}: {how}, made on {made}; {what}")));
    };
    judge(o, &with, true, "an honest proof");
    // a bit
    for _ in 0..3 {
        let mut b = with.clone();
        let i = r.below(p.len());
        b[at][i] ^= 1 << r.below(8);
        // a length that asks for more than there is, or an altered value
        judge(o, &b, false, &format!("a proof with a bit of byte {i} changed"));
    }
    // counts that are right modulo 2^32
    let spots: Vec<usize> = (0..p.len() - 8).filter(|i| (1..=64).contains(&u64::from_le_bytes(p[*i..*i + 8].try_into().unwrap()))).collect();
    for _ in 0..2 {
        let mut b = with.clone();
        let i = *r.pick(&spots);
        b[at][i + 4] ^= 1 << r.below(8);
        judge(o, &b, false, &format!("a proof whose count at byte {i} is larger by a multiple of 2^32"));
    }
    if !with[inputs].is_empty() {
        let mut b = with.clone();
        let i = r.below(b[inputs].len());
        b[inputs][i] ^= 1;
        judge(o, &b, false, "other public inputs");
    }
}
/// the functions the browser calls, on the files it is given
fn browser(w: &mut Wasm, r: &mut Rng, size: usize, id: usize) -> Out {
    let mut o = Out::default();
    let mut c = if size == 0 { Circuit::gen(r, id % 3 == 2) } else { Circuit::shaped(r, 1, 2, size, size) };
    while c.cons.is_empty() || c.publics().is_empty() && id % 2 == 0 {
        c = Circuit::gen(r, id % 3 == 2);
    }
    let dir = Scratch::new(&format!("c34-{id}-{size}"));
    let inst = circuit_reader::load_as_spartan_inst(dir.put("c.r1cs", &c.r1cs()), c.outs + c.ins);
    let circ = bincode::serialize(&inst).unwrap();
    let (wit, x) = (wtns(&c.wires), publics(&c.publics()));
    let args = vec![circ.clone(), wit, x.clone()];
    for on_wasm in [false, true] {
        let made = if on_wasm { "wasm32" } else { "this machine" };
        let p = if on_wasm { w.ask(6, &args) } else { native(6, &args) };
        let Some(p) = p.answered() else {
            o.bad("not-proved", format!("no proof on {made}: {}; {}", p.show(), c.dump()));
            continue;
        };
        o.counts.push(format!("proved_on_{}", if on_wasm { "wasm32" } else { "host" }));
        crossed(&mut o, w, r, 7, &[circ.clone(), vec![], x.clone()], 1, 2, p, made, &c.show());
        // the same proof through the library, whose inputs are little-endian
        let le: Vec<u8> = c.publics().iter().flat_map(|v| le32(v)).collect();
        let g = same(&mut o, w, 13, &[circ.clone(), p.clone(), le], "the browser's proof");
        if !g.yes() {
            o.bad("nizk-verify-refused", format!("a proof made on {made} is refused by the library on wasm32: {}; {}", g.show(), c.dump()));
        }
        // a circuit whose counts are right modulo 2^32 is another circuit
        if on_wasm {
            let spots: Vec<usize> = (0..circ.len().min(4000) - 8).filter(|i| (1..=64).contains(&u64::from_le_bytes(circ[*i..*i + 8].try_into().unwrap()))).collect();
            for _ in 0..4 {
                let i = *r.pick(&spots);
                let mut b = circ.clone();
                b[i + 4] ^= 1 << r.below(8);
                if w.ask(7, &[b.clone(), p.clone(), x.clone()]).yes() {
                    o.bad("other-circuit-accepted", format!("a proof passes on wasm32 for a circuit whose count at byte {i} is larger by a multiple of 2^32; {}", c.dump()));
                }
                o.counts.push("other_circuits_refused_on_wasm32".into());
                o.cases.push((b, format!("a circuit file with a count larger by a multiple of 2^32 at byte {i}, {}", c.show())));
            }
        }
    }
    // a witness that does not satisfy: whatever comes out passes on neither
    if let Some(i) = (0..c.wires.len()).rev().find(|i| {
        let mut v = c.wires.clone();
        v[*i] = addm(&v[*i], &BigUint::one(), &modp());
        *i > c.outs + c.ins && !c.sat(&v)
    }) {
        let mut v = c.wires.clone();
        v[i] = addm(&v[i], &BigUint::one(), &modp());
        if let Some(p) = w.ask(6, &[circ.clone(), wtns(&v), x.clone()]).answered() {
            let a = [circ.clone(), p.clone(), x.clone()];
            let (n, g) = (native(7, &a), w.ask(7, &a));
            if n.yes() || g.yes() {
                o.bad("false-witness-accepted", format!("a proof from a witness that fails, made on wasm32: here {}, on wasm32 {}; {}", n.show(), g.show(), c.dump()));
            }
        }
        o.counts.push("false_witnesses".into());
    }
    o
}
fn main() {
    let l = Ledger::new("C34");
    l.run(|l| {
        l.rule = "for each operation and its bytes: the wasm32 build and the native build of /repo answer with the same bytes, or neither answers; a proof made on either is accepted by both, an altered one, one for other inputs and one from a false witness by neither".into();
        let (arith, sys, snarks, small) = (l.n(24, 400), l.n(10, 60), l.n(6, 40), l.n(24, 200));
        let big: &[usize] = if l.thorough { &[300, 1100, 5000, 9000] } else { &[300, 1500] };
        let jobs = arith + sys + snarks + small + big.len();
        let pool: Mutex<Vec<Wasm>> = Mutex::new(vec![]);
        let seed = l.seed;
        let end = Instant::now() + Duration::from_secs(if l.thorough { 600 } else { 240 });
        let outs = par(jobs, end, |k| {
            let mut w = pool.lock().unwrap().pop().unwrap_or_else(Wasm::new);
            let mut r = Rng::new(seed, &format!("platform-{k}"));
            // the long ones first
            let o = if k < big.len() {
                browser(&mut w, &mut r, big[k], k)
            } else if k < big.len() + snarks {
                systems(&mut w, &mut r, 1, true)
            } else if k < big.len() + snarks + small {
                browser(&mut w, &mut r, 0, k)
            } else if k < big.len() + snarks + small + sys {
                systems(&mut w, &mut r, 6, false)
            } else {
                arithmetic(&mut w, &mut r, 12)
            };
            pool.lock().unwrap().push(w);
            o
        });
        for o in outs.into_iter().flatten() {
            for c in o.counts {
                l.count(&c);
            }
            for (k, s) in o.cases {
                l.case(&k, true, || s);
            }
            for (k, d) in o.bad {
                l.violation(&k, &d);
            }
        }
        for (c, n) in [
            ("scalar_answered", 100), ("field-secp_answered", 100), ("field-secq_answered", 100), ("point_answered", 20), ("point-decoding_answered", 10),
            ("point-decoding_refused", 5), ("poseidon_answered", 40), ("browser-poseidon_answered", 40), ("witness-file_answered", 50), ("witness-file_refused", 50),
            ("instance_answered", 40), ("instance_refused", 5), ("proved_on_wasm32", 15), ("proved_on_host", 15), ("browser-verify_accepted_on_both", 30),
            ("browser-verify_refused_on_both", 100), ("snark-verify_accepted_on_both", 4), ("nizk-verify_answered", 30), ("other_circuits_refused_on_wasm32", 40), ("false_witnesses", 10),
        ] {
            l.require(c, n);
        }
        let _ = BigUint::zero();
    })
}
