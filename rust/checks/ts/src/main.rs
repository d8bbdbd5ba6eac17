//! C22-C25: the TypeScript library as it is, under node, judged from what it returned.
mod node;
use node::*;
use circomi::{r1cs, Opt, Program, F};
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use vcommon::poseidon::{k256_params, Params};
use vcommon::*;

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
impl Scratch {
    fn new(n: &str) -> Scratch {
        let d = std::env::temp_dir().join(format!("verif-{n}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
fn zero() -> BigUint {
    BigUint::zero()
}
fn u(n: u64) -> BigUint {
    BigUint::from(n)
}
fn g() -> Pt {
    Some((
        hexu("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
        hexu("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
    ))
}
fn mul(p: &Pt, k: &BigUint) -> Pt {
    pt_mul(p, &(k % modn()), &modp())
}
fn lift(x: &BigUint, odd: bool) -> Pt {
    let p = modp();
    let y = sqrtm(&addm(&powm(x, &u(3), &p), &u(7), &p), &p)?;
    let y = if (&y % 2u32).is_one() == odd { y } else { negm(&y, &p) };
    Some((x.clone(), y))
}
/// T and U as r, the parity of R and the message determine them; None where there is no such pair of points
fn tu(r: &BigUint, odd: bool, m: &BigUint) -> Option<[BigUint; 4]> {
    let n = modn();
    let big_r = lift(&(r % modp()), odd);
    big_r.as_ref()?;
    let ri = invm(&(r % &n), &n)?;
    let (tx, ty) = mul(&big_r, &ri)?;
    let w = negm(&mulm(&ri, &(m % &n), &n), &n);
    let (ux, uy) = mul(&g(), &w)?;
    Some([tx, ty, ux, uy])
}
struct Sig {
    d: BigUint,
    q: Pt,
    r: BigUint,
    s: BigUint,
    odd: bool,
    /// what a parity of zero is written as: 27, or 35 + twice a chain id
    vb: u64,
    m: Vec<u8>,
}
impl Sig {
    fn v(&self) -> u64 {
        self.vb + self.odd as u64
    }
    fn other_v(&self) -> u64 {
        self.vb + !self.odd as u64
    }
}
fn message(r: &mut Rng) -> Vec<u8> {
    let n = modn();
    match r.below(8) {
        0 => be32(&edge256(r, &n)).to_vec(),
        1 => be32(&(&n + u(r.range(1, 1000) as u64))).to_vec(),
        2 => vec![0xff; 32],
        3 => {
            let mut b = r.bytes(32);
            let k = r.range(1, 31);
            b[..k].iter_mut().for_each(|x| *x = 0);
            b
        }
        _ => r.bytes(32),
    }
}
fn sign(r: &mut Rng, d: Option<BigUint>) -> Sig {
    let n = modn();
    loop {
        let d = d.clone().unwrap_or_else(|| match r.below(6) {
            0 => u(r.range(1, 5) as u64),
            1 => &n - u(r.range(1, 5) as u64),
            _ => from_le(&r.arr32()) % (&n - 1u32) + 1u32,
        });
        let k = match r.below(6) {
            0 => u(r.range(1, 9) as u64),
            1 => &n - u(r.range(1, 9) as u64),
            _ => from_le(&r.arr32()) % (&n - 1u32) + 1u32,
        };
        let m = message(r);
        let e = from_be(&m) % &n;
        let (x, y) = mul(&g(), &k).unwrap();
        let rr = &x % &n;
        let s = mulm(&invm(&k, &n).unwrap(), &addm(&e, &mulm(&rr, &d, &n), &n), &n);
        if rr != x || rr.is_zero() || s.is_zero() || e.is_zero() {
            continue;
        }
        let q = mul(&g(), &d);
        return Sig { d, q, r: rr, s, odd: (&y % 2u32).is_one(), vb: *r.pick(&[27u64, 27, 27, 27, 27, 35, 37, 45, 235, 253]), m };
    }
}
fn st(v: &BigUint) -> String {
    v.to_string()
}
fn num(v: &Value) -> Option<BigUint> {
    BigUint::parse_bytes(v.as_str()?.as_bytes(), 10)
}
struct Job {
    work: Value,
    what: String,
    judge: Box<dyn Fn(&Value) -> Verdict + Send + Sync>,
}
#[derive(Default)]
struct Verdict {
    bad: Vec<(&'static str, String)>,
    counts: Vec<&'static str>,
}
impl Verdict {
    fn count(mut self, k: &'static str) -> Verdict {
        self.counts.push(k);
        self
    }
    fn bad(&mut self, k: &'static str, d: String) {
        self.bad.push((k, d));
    }
}
fn job(work: Value, what: impl Into<String>, judge: impl Fn(&Value) -> Verdict + Send + Sync + 'static) -> Job {
    Job { work, what: what.into(), judge: Box::new(judge) }
}
fn fields(f: &[BigUint; 4]) -> [(&'static str, String); 4] {
    [("Tx", st(&f[0])), ("Ty", st(&f[1])), ("Ux", st(&f[2])), ("Uy", st(&f[3]))]
}
// ---- C22 ----
fn c22(r: &mut Rng) -> Vec<Job> {
    let mut j = vec![];
    let n = modn();
    let mut s = sign(r, None);
    if r.chance(1, 4) {
        let bits = r.range(1, 40);
        s.vb = 35 + 2 * r.below(1usize << bits) as u64;
    }
    let mhex = hex(&s.m);
    let v = s.v();
    // from the signature's text on
    let mut sig = be32(&s.r).to_vec();
    sig.extend(be32(&s.s));
    let vhex = { let h = format!("{v:02x}"); if h.len() % 2 == 1 { format!("0{h}") } else { h } };
    let (text, form) = match r.below(4) {
        _ if s.vb != 27 => (format!("{}{vhex}", hex(&sig)), "v with a chain id"),
        0 => (format!("{}{:02x}", hex(&sig), v), "v of 27 or 28"),
        1 => (format!("{}{:02x}", hex(&sig), s.odd as u8), "v of 0 or 1"),
        2 => (format!("{}{:02X}", hex(&sig).to_uppercase(), v), "upper case"),
        _ if s.s < (BigUint::one() << 255usize) => {
            sig[32] |= (s.odd as u8) << 7;
            (hex(&sig), "compact")
        }
        _ => (format!("{}{:02x}", hex(&sig), v), "v of 27 or 28"),
    };
    let want = (st(&s.r), st(&s.s), v.to_string());
    let t2 = text.clone();
    j.push(job(json!({"op": "fromSig", "sig": format!("0x{text}")}), format!("signature text ({form}) 0x{text}"), move |o| {
        let mut w = Verdict::default().count("signatures_parsed");
        let x = &o["ok"];
        if (x["r"].as_str(), x["s"].as_str(), x["v"].as_str()) != (Some(&want.0), Some(&want.1), Some(&want.2)) {
            w.bad("signature-text", format!("0x{t2} ({form}) is r={} s={} v={}, read as {o}", want.0, want.1, want.2));
        }
        w
    }));
    let exp = tu(&s.r, s.odd, &from_be(&s.m)).unwrap();
    // what makes it worth anything: s T + U is the signer's key
    let (t, uu) = (Some((exp[0].clone(), exp[1].clone())), Some((exp[2].clone(), exp[3].clone())));
    assert!(pt_add(&mul(&t, &s.s), &uu, &zero(), &modp()) == s.q && s.q == mul(&g(), &s.d));
    let (q, ss, mh, rr) = (s.q.clone(), s.s.clone(), mhex.clone(), s.r.clone());
    j.push(job(json!({"op": "compute", "r": st(&s.r), "v": v.to_string(), "m": mhex}), format!("signature r={} v={v} m={mhex}", s.r), move |o| {
        let mut w = Verdict::default().count("public_inputs");
        let x = &o["ok"];
        for (k, e) in fields(&exp) {
            if x[k].as_str() != Some(&e) {
                let got = [num(&x["Tx"]), num(&x["Ty"]), num(&x["Ux"]), num(&x["Uy"])];
                let key = if got.iter().all(|g| g.is_some()) {
                    let g: Vec<BigUint> = got.into_iter().flatten().collect();
                    let p = modp();
                    let on = |x: &BigUint, y: &BigUint| mulm(y, y, &p) == addm(&powm(x, &u(3), &p), &u(7), &p);
                    if !on(&g[0], &g[1]) || !on(&g[2], &g[3]) {
                        "not-on-curve"
                    } else if pt_add(&mul(&Some((g[0].clone(), g[1].clone())), &ss), &Some((g[2].clone(), g[3].clone())), &zero(), &p) != q {
                        "other-key"
                    } else {
                        "other-points"
                    }
                } else {
                    "no-public-input"
                };
                w.bad(key, format!("{k} should be {e}; r={rr} v={v} m={mh}: {o}"));
                break;
            }
        }
        if !x.is_null() && x["after"].as_str() != Some(&mh) {
            w.bad("message-altered", format!("message {mh} became {}", x["after"]));
        }
        if from_be(&unhex(&mh)) >= modn() {
            w.counts.push("message_at_or_above_the_order");
        }
        w
    }));
    // an r that is no x-coordinate
    let mut x = match r.below(4) {
        0 => u(r.range(0, 50) as u64),
        1 => &n - u(r.range(1, 50) as u64),
        _ => from_le(&r.arr32()) % &n,
    };
    while lift(&x, false).is_some() {
        x += 1u32;
    }
    let v = 27 + r.below(2);
    let x2 = x.clone();
    j.push(job(json!({"op": "compute", "r": st(&x), "v": v.to_string(), "m": mhex}), format!("r={x} is no x-coordinate"), move |o| {
        let mut w = Verdict::default().count("no_such_point");
        if !o["ok"].is_null() {
            w.bad("public-input-without-point", format!("r={x2} v={v}: {o}"));
        }
        w
    }));
    // a message that is zero modulo the order has no U
    if r.chance(1, 4) {
        let m = if r.chance(1, 2) { vec![0; 32] } else { be32(&n).to_vec() };
        j.push(job(json!({"op": "compute", "r": st(&s.r), "v": "27", "m": hex(&m)}), "message zero", |o| {
            let mut w = Verdict::default().count("message_zero_modulo_order");
            let x = &o["ok"];
            // whatever is said, it must not be a point: U is the identity
            if !x.is_null() && (x["Ux"].as_str(), x["Uy"].as_str()) != (Some("0"), Some("0")) {
                w.bad("other-points", format!("message zero modulo the order: {o}"));
            }
            w
        }));
    }
    j
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
// ---- C23 ----
fn val(r: &mut Rng) -> BigUint {
    match r.below(7) {
        0 => u(r.range(0, 300) as u64),
        1 => two256() - u(r.range(1, 3) as u64),
        2 => edge256(r, &modp()),
        3 => from_le(&r.bytes(32)) >> r.range(1, 255),
        4 => BigUint::one() << r.range(0, 255),
        _ => from_le(&r.arr32()),
    }
}
fn c23(r: &mut Rng) -> Vec<Job> {
    let mut j = vec![];
    // ---- checking
    let s = sign(r, None);
    let f = tu(&s.r, s.odd, &from_be(&s.m)).unwrap();
    let v = s.v();
    let mk = |f: &[BigUint; 4], rr: &BigUint, v: u64, m: &[u8], root: &BigUint| {
        json!({"op": "check", "r": st(rr), "rV": v.to_string(), "m": hex(m), "root": st(root),
               "Tx": st(&f[0]), "Ty": st(&f[1]), "Ux": st(&f[2]), "Uy": st(&f[3])})
    };
    let root = val(r);
    let mut tries: Vec<(String, Value)> = vec![("unchanged".into(), mk(&f, &s.r, v, &s.m, &root))];
    for i in 0..4 {
        let mut h = f.clone();
        h[i] = match r.below(6) {
            0 => &h[i] + 1u32,
            1 => BigUint::zero(),
            2 => negm(&h[i], &modp()),
            3 => h[r.below(4)].clone(),
            4 => &h[i] ^ &(BigUint::one() << r.below(256)),
            _ => val(r),
        };
        tries.push((format!("{} replaced", ["Tx", "Ty", "Ux", "Uy"][i]), mk(&h, &s.r, v, &s.m, &root)));
    }
    // consistent with something else than r, the recovery id or the message
    let p = modp();
    let neg = |f: &[BigUint; 4], t: bool, uu: bool| {
        let mut h = f.clone();
        if t {
            h[1] = negm(&h[1], &p);
        }
        if uu {
            h[3] = negm(&h[3], &p);
        }
        h
    };
    for (a, b) in [(true, false), (false, true), (true, true)] {
        tries.push(("T or U negated".into(), mk(&neg(&f, a, b), &s.r, v, &s.m, &root)));
    }
    tries.push(("the other recovery id".into(), mk(&f, &s.r, s.other_v(), &s.m, &root)));
    tries.push(("the other recovery id and its T".into(), mk(&neg(&f, true, false), &s.r, s.other_v(), &s.m, &root)));
    let mut m2 = s.m.clone();
    let b = r.below(256);
    m2[b / 8] ^= 1 << (b % 8);
    tries.push(("another message".into(), mk(&f, &s.r, v, &m2, &root)));
    let s2 = sign(r, None);
    let f2 = tu(&s2.r, s2.odd, &from_be(&s2.m)).unwrap();
    tries.push(("another r".into(), mk(&f, &s2.r, v, &s.m, &root)));
    tries.push(("T and U of another signature".into(), mk(&f2, &s.r, v, &s.m, &root)));
    tries.push(("T of another signature".into(), mk(&[f2[0].clone(), f2[1].clone(), f[2].clone(), f[3].clone()], &s.r, v, &s.m, &root)));
    tries.push(("U of another signature".into(), mk(&[f[0].clone(), f[1].clone(), f2[2].clone(), f2[3].clone()], &s.r, v, &s.m, &root)));
    tries.push(("T and U exchanged".into(), mk(&[f[2].clone(), f[3].clone(), f[0].clone(), f[1].clone()], &s.r, v, &s.m, &root)));
    tries.push(("n - r".into(), mk(&f, &(modn() - &s.r), v, &s.m, &root)));
    let mut plus = f.clone();
    let i = r.below(4);
    plus[i] += &p;
    tries.push(("a coordinate plus the modulus".into(), mk(&plus, &s.r, v, &s.m, &root)));
    // several coordinates changed so that a relation between them survives
    for _ in 0..3 {
        let (i, mut k) = (r.below(4), r.below(3));
        if k >= i {
            k += 1;
        }
        let mut h = f.clone();
        let d = if r.chance(1, 3) { u(r.range(1, 9) as u64) } else { val(r) };
        let what = match r.below(6) {
            0 => {
                h.swap(i, k);
                "two coordinates exchanged"
            }
            1 => {
                let d = d % (&h[k] + 1u32);
                h[i] += &d;
                h[k] -= &d;
                "the sum of two coordinates kept"
            }
            2 => {
                h[i] = &h[i] ^ &d;
                h[k] = &h[k] ^ &d;
                "the xor of two coordinates kept"
            }
            3 => {
                h[i] = addm(&h[i], &(&d % &p), &p);
                h[k] = addm(&h[k], &(&d % &p), &p);
                "the difference of two coordinates kept"
            }
            4 => {
                let d = (&d % &p).max(u(2));
                h[i] = mulm(&h[i], &d, &p);
                h[k] = mulm(&h[k], &invm(&d, &p).unwrap(), &p);
                "the product of two coordinates kept"
            }
            _ => {
                h[k] = h[i].clone();
                "one coordinate twice"
            }
        };
        tries.push((what.into(), mk(&h, &s.r, v, &s.m, &root)));
    }
    let mut h = f.clone();
    match r.below(3) {
        0 => h.rotate_left(1),
        1 => h.rotate_right(1),
        _ => h.reverse(),
    }
    tries.push(("coordinates permuted".into(), mk(&h, &s.r, v, &s.m, &root)));
    let keep = r.range(5, 10);
    while tries.len() > keep {
        let k = r.range(1, tries.len() - 1);
        tries.remove(k);
    }
    for (what, w) in tries {
        let mut sent = w.clone();
        sent.as_object_mut().unwrap().remove("op");
        let label = format!("{what}: {sent}");
        j.push(job(w, label.clone(), move |o| {
            let mut vd = Verdict::default();
            let get = |k: &str| num(&sent[k]).unwrap();
            let m = from_be(&unhex(sent["m"].as_str().unwrap()));
            let want = tu(&get("r"), (get("rV") % 2u32).is_zero(), &m).map(|t| t == [get("Tx"), get("Ty"), get("Ux"), get("Uy")]).unwrap_or(false);
            let said = &o["ok"]["ok"];
            if want {
                vd.counts.push("accepted");
                if said != &json!(true) {
                    vd.bad("refuses-right-input", format!("{label}: {o}"));
                }
            } else {
                vd.counts.push("refused");
                // refusing is saying false, or an error
                if !(said == &json!(false) || o["ok"].is_null()) {
                    vd.bad("accepts-wrong-input", format!("{label}: {o}"));
                }
            }
            if !o["ok"].is_null() {
                for k in ["r", "rV", "m", "root", "Tx", "Ty", "Ux", "Uy"] {
                    if o["ok"]["after"][k] != sent[k] {
                        vd.bad("input-altered", format!("{k} became {} after checking; {label}", o["ok"]["after"][k]));
                    }
                }
            }
            vd
        }));
    }
    // ---- serialising, all values
    let vals: Vec<BigUint> = (0..6).map(|_| val(r)).collect();
    let rv = r.below(256);
    let mlen = *r.pick(&[0usize, 1, 20, 31, 32, 32, 32, 33, 64, 100, 500]);
    let m = if r.chance(1, 4) { vec![0; mlen] } else { r.bytes(mlen) };
    let mut circ = vec![];
    for x in &vals[1..] {
        circ.extend(be32(x));
    }
    let mut full = be32(&vals[0]).to_vec();
    full.push(rv as u8);
    full.extend(&circ);
    full.extend(&m);
    let obj = json!({"r": st(&vals[0]), "rV": rv.to_string(), "m": hex(&m), "root": st(&vals[1]), "Tx": st(&vals[2]), "Ty": st(&vals[3]), "Ux": st(&vals[4]), "Uy": st(&vals[5])});
    let mut w = obj.clone();
    w["op"] = json!("ser");
    let (o1, fh, ch) = (obj.clone(), hex(&full), hex(&circ));
    j.push(job(w, format!("serialise {obj}"), move |o| {
        let mut v = Verdict::default().count("serialised");
        let x = &o["ok"];
        if x["full"].as_str() != Some(&fh) || x["circ"].as_str() != Some(&ch) || x["again"].as_str() != Some(&fh) {
            v.bad("wrong-bytes", format!("{o1} should be {fh}, its circuit part {ch}: {o}"));
        } else {
            for k in ["r", "rV", "m", "root", "Tx", "Ty", "Ux", "Uy"] {
                if x["after"][k] != o1[k] {
                    v.bad("input-altered", format!("{k} of {o1} is {} after serialising", x["after"][k]));
                }
            }
        }
        v
    }));
    let (o1, fh) = (obj.clone(), hex(&full));
    let (view, node, scribble) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
    j.push(job(json!({"op": "deser", "hex": fh, "view": view, "node": node, "scribble": scribble}), format!("read back {fh}"), move |o| {
        let mut v = Verdict::default().count("read_back");
        let x = &o["ok"];
        for k in ["r", "rV", "m", "root", "Tx", "Ty", "Ux", "Uy"] {
            if x["p"][k] != o1[k] {
                v.bad("wrong-values", format!("{fh} is {o1}, read as {o}"));
                break;
            }
            if x["then"][k] != o1[k] {
                v.bad("values-alias-the-bytes", format!("{k} changed with the caller's bytes after reading {fh}"));
                break;
            }
        }
        if !x.is_null() && x["after"].as_str() != Some(&fh) {
            v.bad("bytes-altered", format!("{fh} became {} by reading it", x["after"]));
        }
        v
    }));
    let (o1, ch) = (obj, hex(&circ));
    j.push(job(json!({"op": "cdeser", "hex": ch}), format!("read back circuit part {ch}"), move |o| {
        let mut v = Verdict::default().count("read_back");
        let x = &o["ok"];
        if ["root", "Tx", "Ty", "Ux", "Uy"].iter().any(|k| x["p"][*k] != o1[*k]) {
            v.bad("wrong-values", format!("{ch} is {o1}, read as {o}"));
        } else if x["after"].as_str() != Some(&ch) {
            v.bad("bytes-altered", format!("{ch} became {} by reading it", x["after"]));
        }
        v
    }));
    // values that do not fit are not to become others
    let mut big = vals.clone();
    let i = r.below(6);
    big[i] = match r.below(3) {
        0 => two256(),
        1 => two256() * u(16) - 1u32,
        _ => two256() + (from_le(&r.arr32()) << r.range(0, 40)),
    };
    j.push(job(
        json!({"op": "ser", "r": st(&big[0]), "rV": "27", "m": "00", "root": st(&big[1]), "Tx": st(&big[2]), "Ty": st(&big[3]), "Ux": st(&big[4]), "Uy": st(&big[5])}),
        format!("a value of more than 32 bytes at {i}: {}", big[i]),
        move |o| {
            let mut v = Verdict::default().count("too_large");
            if !o["ok"].is_null() {
                v.bad("too-large-serialised", format!("value {i} = {} serialised: {o}", big[i]));
            }
            v
        },
    ));
    // ---- helpers
    for _ in 0..3 {
        let n = *r.pick(&[1usize, 2, 5, 16, 31, 32, 32, 33, 64]);
        let mut b = r.bytes(n);
        if r.chance(1, 2) {
            let k = r.below(n);
            b[..k].iter_mut().for_each(|x| *x = 0);
        }
        if r.chance(1, 3) {
            let k = r.below(n);
            b[k..].iter_mut().for_each(|x| *x = 0);
        }
        for (op, want) in [("b2i", from_be(&b)), ("le2i", from_le(&b))] {
            let h = hex(&b);
            j.push(job(json!({"op": op, "hex": h}), format!("{op} {h}"), move |o| {
                let mut v = Verdict::default().count("helper_calls");
                if num(&o["ok"]["n"]) != Some(want.clone()) {
                    v.bad("wrong-number", format!("{op} of {h} should be {want}: {o}"));
                } else if o["ok"]["after"].as_str() != Some(&h) {
                    v.bad("bytes-altered", format!("{op} of {h} left {}", o["ok"]["after"]));
                }
                v
            }));
        }
        let x = from_be(&b);
        let mut le = b.clone();
        le.reverse();
        for (op, want) in [("i2b", hex(&b)), ("i2le", hex(&le))] {
            let y = x.clone();
            j.push(job(json!({"op": op, "n": st(&x), "size": n}), format!("{op} {x} in {n}"), move |o| {
                let mut v = Verdict::default().count("helper_calls");
                if o["ok"]["b"].as_str() != Some(&want) {
                    v.bad("wrong-bytes", format!("{op} of {y} in {n} bytes should be {want}: {o}"));
                }
                v
            }));
            let y = x.clone() + (BigUint::one() << (8 * n + r.below(9)));
            j.push(job(json!({"op": op, "n": st(&y), "size": n}), format!("{op} {y} in {n}"), move |o| {
                let mut v = Verdict::default().count("too_large");
                let b = o["ok"]["b"].as_str().map(unhex);
                // an error, or bytes that still mean the number
                if let Some(mut b) = b {
                    if op == "i2le" {
                        b.reverse();
                    }
                    if from_be(&b) != y {
                        v.bad("another-number", format!("{op} of {y} in {n} bytes: {o}"));
                    }
                }
                v
            }));
        }
    }
    j
}
// ---- C24 ----
fn elem(r: &mut Rng) -> BigUint {
    let p = modp();
    match r.below(5) {
        0 => u(r.range(0, 4) as u64),
        1 => &p - u(r.range(1, 3) as u64),
        2 => from_le(&r.bytes(20)),
        _ => from_le(&r.arr32()) % &p,
    }
}
struct Model {
    depth: usize,
    leaves: Vec<BigUint>,
    zeros: Vec<BigUint>,
}
impl Model {
    fn new(depth: usize, ps: &Params) -> Model {
        let mut zeros = vec![BigUint::zero()];
        for i in 0..depth {
            let z = ps.hash(&zeros[i], &zeros[i]);
            zeros.push(z);
        }
        Model { depth, leaves: vec![], zeros }
    }
    fn levels(&self, ps: &Params) -> Vec<Vec<BigUint>> {
        let mut v = vec![self.leaves.clone()];
        for l in 0..self.depth {
            let z = &self.zeros[l];
            let row = &v[l];
            let next = (0..(row.len() + 1) / 2).map(|i| ps.hash(&row[2 * i], row.get(2 * i + 1).unwrap_or(z))).collect();
            v.push(next);
        }
        v
    }
    fn root(&self, ps: &Params) -> BigUint {
        self.levels(ps)[self.depth].first().cloned().unwrap_or_else(|| self.zeros[self.depth].clone())
    }
    fn proof(&self, i: usize, ps: &Params) -> (Vec<BigUint>, Vec<u64>) {
        let lv = self.levels(ps);
        let mut s = vec![];
        let mut b = vec![];
        let mut i = i;
        for l in 0..self.depth {
            b.push((i % 2) as u64);
            s.push(lv[l].get(i ^ 1).cloned().unwrap_or_else(|| self.zeros[l].clone()));
            i /= 2;
        }
        (s, b)
    }
}
fn up(leaf: &BigUint, sib: &[BigUint], bits: &[u64], ps: &Params) -> BigUint {
    let mut h = leaf.clone();
    for (s, b) in sib.iter().zip(bits) {
        h = if *b == 0 { ps.hash(&h, s) } else { ps.hash(s, &h) };
    }
    h
}
fn c24(r: &mut Rng, ps: &std::sync::Arc<Params>) -> Vec<Job> {
    let mut j = vec![];
    // hashing
    for _ in 0..3 {
        let (a, b) = (elem(r), elem(r));
        let want = ps.hash(&a, &b);
        let (a2, b2) = (a.clone(), b.clone());
        j.push(job(json!({"op": "hash", "in": [st(&a), st(&b)]}), format!("hash of {a} and {b}"), move |o| {
            let mut v = Verdict::default().count("hashes");
            let x = &o["ok"];
            if num(&x["h"]) != Some(want.clone()) || num(&x["again"]) != Some(want.clone()) {
                v.bad("wrong-hash", format!("hash of {a2}, {b2} should be {want}: {o}"));
            } else if x["after"] != json!([st(&a2), st(&b2)]) {
                v.bad("argument-altered", format!("arguments {a2}, {b2} became {}", x["after"]));
            }
            v
        }));
    }
    // what is no field element has no hash
    let (mut a, mut b) = (elem(r), elem(r));
    let big = match r.below(4) {
        0 => modp(),
        1 => two256() - 1u32,
        2 => two256() + (from_le(&r.arr32()) << r.range(0, 30)),
        _ => modp() + u(r.u64() % 1000),
    };
    if r.chance(1, 2) {
        a = big;
    } else {
        b = big;
    }
    j.push(job(json!({"op": "hash", "in": [st(&a), st(&b)]}), format!("hash of {a} and {b}, one no field element"), move |o| {
        let mut v = Verdict::default().count("no_field_element");
        if !o["ok"].is_null() {
            v.bad("hash-of-no-element", format!("hash of {a} and {b}: {o}"));
        }
        v
    }));
    let (x, y) = (elem(r), elem(r));
    let key = [be32(&x), be32(&y)].concat();
    let want = ps.hash(&x, &y);
    j.push(job(json!({"op": "hashPubKey", "hex": hex(&key)}), format!("hash of key {}", hex(&key)), move |o| {
        let mut v = Verdict::default().count("keys_hashed");
        if num(&o["ok"]["h"]) != Some(want.clone()) {
            v.bad("wrong-key-hash", format!("key {} should hash to {want}: {o}", hex(&key)));
        } else if o["ok"]["after"].as_str() != Some(&hex(&key)) {
            v.bad("argument-altered", format!("key {} became {}", hex(&key), o["ok"]["after"]));
        }
        v
    }));
    // a history
    let depth = *r.pick(&[1usize, 1, 2, 2, 3, 4, 5, 8, 20, 32]);
    let cap: u64 = 1 << depth.min(40);
    let mut m = Model::new(depth, ps);
    let (mut ops, mut wants): (Vec<Value>, Vec<Value>) = (vec![], vec![]);
    let err = json!("error");
    struct P {
        root: BigUint,
        sib: Vec<BigUint>,
        bits: Vec<u64>,
        leaf: BigUint,
    }
    let mut proofs: Vec<P> = vec![];
    let steps = if depth > 8 { 12 } else { r.range(8, 40) };
    for _ in 0..steps {
        let len = m.leaves.len();
        let index = |r: &mut Rng| -> i64 {
            match r.below(12) {
                0 => -1 - r.below(3) as i64,
                1 => (len + r.below(3)) as i64,
                _ if len > 0 => r.below(len) as i64,
                _ => 0,
            }
        };
        match r.below(12) {
            0..=3 => {
                let v = match r.below(5) {
                    0 if len > 0 => m.leaves[r.below(len)].clone(),
                    1 => BigUint::zero(),
                    _ => elem(r),
                };
                ops.push(json!(["insert", st(&v)]));
                if (len as u64) < cap {
                    m.leaves.push(v);
                    wants.push(json!(true));
                } else {
                    wants.push(err.clone());
                }
            }
            4 => {
                let i = index(r);
                ops.push(json!(["delete", i]));
                if i >= 0 && (i as usize) < len {
                    m.leaves[i as usize] = BigUint::zero();
                    wants.push(json!(true));
                } else {
                    wants.push(err.clone());
                }
            }
            5 => {
                ops.push(json!(["root"]));
                wants.push(json!(st(&m.root(ps))));
            }
            6 => {
                ops.push(json!(["leaves", r.chance(1, 2)]));
                wants.push(json!(m.leaves.iter().map(st).collect::<Vec<_>>()));
            }
            7 => {
                let v = if len > 0 && r.chance(2, 3) { m.leaves[r.below(len)].clone() } else { elem(r) };
                ops.push(json!(["indexOf", st(&v)]));
                wants.push(json!(m.leaves.iter().position(|x| *x == v).map(|x| x as i64).unwrap_or(-1)));
            }
            8 | 9 => {
                let i = index(r);
                ops.push(json!(["prove", i]));
                if i >= 0 && (i as usize) < len {
                    let (sib, bits) = m.proof(i as usize, ps);
                    let root = m.root(ps);
                    wants.push(json!({"root": st(&root), "siblings": sib.iter().map(|s| vec![st(s)]).collect::<Vec<_>>(), "pathIndices": bits}));
                    proofs.push(P { root, sib, bits, leaf: m.leaves[i as usize].clone() });
                } else {
                    wants.push(err.clone());
                }
            }
            _ if !proofs.is_empty() => {
                let k = r.below(proofs.len());
                let p = &proofs[k];
                let mut leaf = p.leaf.clone();
                let (mut root, mut sib, mut bits) = (p.root.clone(), p.sib.clone(), p.bits.clone());
                let mut alt = Value::Null;
                match r.below(7) {
                    0 => leaf = elem(r),
                    1 => leaf = addm(&leaf, &BigUint::one(), &modp()),
                    2 => {
                        root = if r.chance(1, 2) { elem(r) } else { m.root(ps) };
                        alt = json!(["root", st(&root)]);
                    }
                    3 => {
                        let i = r.below(depth);
                        sib[i] = elem(r);
                        alt = json!(["sibling", i, st(&sib[i])]);
                    }
                    4 => {
                        let i = r.below(depth);
                        bits[i] ^= 1;
                        alt = json!(["path", i, bits[i]]);
                    }
                    5 if depth > 1 => {
                        let i = r.below(depth);
                        sib.truncate(i);
                        bits.truncate(i);
                        alt = json!(["cut", i]);
                    }
                    _ => {}
                }
                ops.push(json!(["verify", k, st(&leaf), alt]));
                wants.push(json!({"ok": up(&leaf, &sib, &bits, ps) == root}));
            }
            _ => {}
        }
    }
    ops.push(json!(["root"]));
    wants.push(json!(st(&m.root(ps))));
    ops.push(json!(["depth"]));
    wants.push(json!(depth));
    let o2 = ops.clone();
    j.push(job(json!({"op": "tree", "depth": depth, "ops": ops}), format!("tree of depth {depth}: {}", json!(o2)), move |o| {
        let mut v = Verdict::default().count("tree_histories");
        let Some(a) = o["ok"].as_array() else {
            v.bad("tree-fails", format!("{o}"));
            return v;
        };
        for (i, (got, want)) in a.iter().zip(&wants).enumerate() {
            let kind = o2[i][0].as_str().unwrap();
            let refused = !got["error"].is_null();
            let ok = if *want == json!("error") {
                refused
            } else if kind == "verify" {
                // refusing to verify at all is not accepting
                got["ok"] == want["ok"] || (refused && want["ok"] == json!(false))
            } else {
                got == want
            };
            if !ok {
                let key = match kind {
                    "verify" if want["ok"] == json!(true) => "own-proof-refused",
                    "verify" => "wrong-proof-accepted",
                    "prove" => "wrong-proof",
                    "root" => "wrong-root",
                    "leaves" | "indexOf" => "wrong-lookup",
                    _ => "wrong-result",
                };
                v.bad(key, format!("step {i} {} gave {got}, should be {want}; history of depth {depth}: {}", o2[i], json!(o2[..=i])));
                break;
            }
            if kind == "verify" && got["same"] == json!(false) {
                v.bad("argument-altered", format!("verifying changed the proof at step {i}"));
            }
            v.counts.push(match kind {
                "insert" => "insertions",
                "delete" => "deletions",
                "prove" => "proofs",
                "verify" if want["ok"] == json!(true) => "proofs_accepted",
                "verify" => "proofs_refused",
                _ => "look_ups",
            });
        }
        v
    }));
    j
}
// ---- C25 ----
include!("sessions.rs");

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let mut l = Ledger::new(&id);
    l.rule = match id.as_str() {
        "C22" => "one call of the library on a signature, its text or an r without point, compared with the curve reference",
        "C23" => "one check, (de)serialisation or helper call, compared with the reference",
        "C24" => "one hash or one whole tree history, every answer compared with a plain Merkle tree",
        _ => "one proof or one verification by the library, allowed or not by what the verifier was given",
    }
    .into();
    l.assumptions.push("the third-party packages (elliptic, bn.js, @ethereumjs/util, incremental-merkle-tree, snarkjs) and the wasm runtime are stood in for".into());
    l.run(|l| {
        let dir = Scratch::new(&id);
        let b = bundle(&dir.0).unwrap_or_else(|e| panic!("{e}"));
        if id == "C25" {
            c25(l, &dir.0, &b);
            return;
        }
        let ps = std::sync::Arc::new(k256_params());
        let rounds = match id.as_str() {
            "C22" => l.n(2000, 40000),
            "C23" => l.n(1200, 30000),
            _ => l.n(2000, 40000),
        };
        let deadline = Instant::now() + Duration::from_secs(if l.thorough { 1500 } else { 200 });
        let batches = 16.max(rounds / 60);
        let per = rounds / batches;
        let seed = l.seed;
        let res = par(batches, deadline, |k| {
            let native = Native { programs: HashMap::new(), ideal: Ideal::default(), log: Default::default() };
            let mut jobs = vec![];
            for i in 0..per {
                let mut r = Rng::new(seed, &format!("{id}-{k}-{i}"));
                jobs.extend(match id.as_str() {
                    "C22" => c22(&mut r),
                    "C23" => c23(&mut r),
                    _ => c24(&mut r, &ps),
                });
            }
            let work: Vec<Value> = jobs.iter().map(|j| j.work.clone()).collect();
            let out = node::run(&b, &dir.0, &format!("b{k}"), &native, &work)?;
            if out.len() != jobs.len() {
                return Err(format!("{} results for {} operations", out.len(), jobs.len()));
            }
            // a helper the library no longer has under that name says nothing
            let gone = |o: &Value| o["ok"]["missing"] == json!(true);
            Ok(jobs.iter().zip(&out).map(|(j, o)| (j.what.clone(), if gone(o) { Verdict::default().count("helper_not_there") } else { (j.judge)(o) })).collect::<Vec<_>>())
        });
        for b in res.into_iter().flatten() {
            let b = b.unwrap_or_else(|e: String| panic!("harness: {e}"));
            for (what, v) in b {
                l.case(&what, true, || what.clone());
                for c in v.counts {
                    l.count(c);
                }
                for (k, d) in v.bad {
                    l.violation(k, &d);
                }
            }
        }
        match id.as_str() {
            "C22" => {
                for c in ["public_inputs", "no_such_point", "message_at_or_above_the_order", "message_zero_modulo_order"] {
                    l.require(c, 5);
                }
            }
            "C23" => {
                for c in ["accepted", "refused", "serialised", "read_back", "too_large"] {
                    l.require(c, 20);
                }
            }
            _ => {
                for c in ["hashes", "keys_hashed", "tree_histories", "deletions", "proofs", "proofs_accepted", "proofs_refused"] {
                    l.require(c, 20);
                }
            }
        }
    });
}
