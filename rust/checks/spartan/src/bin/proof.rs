//! C07-C10: completeness and rejection of the two proof systems, judged on executions of the real prover and verifier.
use libspartan::*;
use merlin::Transcript;
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use serde_json::Value;
use spartanchk::*;
use std::time::{Duration, Instant};
use vcommon::*;

const L1: &[u8] = b"statement transcript";
const WITS: [Wit; 5] = [Wit::Random, Wit::Small, Wit::Edge, Wit::AllZero, Wit::AllEqual];

fn tr(label: &'static [u8], pre: &[u8]) -> Transcript {
    let mut t = Transcript::new(label);
    if !pre.is_empty() {
        t.append_message(b"context", pre);
    }
    t
}

// ---------------- completeness ----------------
struct Done {
    desc: String,
    key: String,
    bad: Vec<(String, String)>,
    leaves: usize,
    bytes: usize,
}
fn complete_one(sys: Sys, w: Which, seed: u64) -> Done {
    let mut r = Rng::new(seed, "complete");
    let mut bad = vec![];
    let desc = sys.show();
    let key = sys.key();
    let mut leaves = 0;
    let mut bytes = 0;
    let s = match attempt(|| St::new(sys.clone(), w)) {
        Ok(s) => s,
        Err(p) => {
            bad.push(("setup-aborts".to_string(), format!("building parameters aborts: {} at {} for {}", p.msg, p.loc, desc)));
            return Done { desc, key, bad, leaves, bytes };
        }
    };
    let pre = r.bytes(if seed % 2 == 0 { 0 } else { 40 });
    let mut proofs = vec![];
    for _ in 0..2 {
        let s = &s;
        let p = match attempt(|| prove(s, w, &mut tr(L1, &pre))) {
            Ok(p) => p,
            Err(p) => {
                bad.push(("prover-aborts".to_string(), format!("{} at {} for {}; system {}", p.msg, p.loc, desc, key)));
                break;
            }
        };
        let v = verify(s, w, &p, &mut tr(L1, &pre));
        if v != V::Accept {
            bad.push(("honest-proof-refused".to_string(), format!("{:?} for {}; system {}", v, desc, key)));
        }
        proofs.push(p);
    }
    if let Some(p) = proofs.first() {
        // serialised proof
        bytes = p.bytes().len();
        let b = p.bytes();
        match Proof::from_bytes(w, &b) {
            None => bad.push(("serialised-proof-unreadable".into(), desc.clone())),
            Some(q) => {
                if q.bytes() != b || q.json() != p.json() {
                    bad.push(("serialised-proof-changed".into(), desc.clone()));
                }
                let v = verify(&s, w, &q, &mut tr(L1, &pre));
                if v != V::Accept {
                    bad.push(("serialised-proof-refused".into(), format!("{:?} for {}", v, desc)));
                }
            }
        }
        let j = p.json();
        leaves = tree(&j).leaves.len();
        match Proof::from_json(w, &j) {
            None => bad.push(("serialised-proof-unreadable".into(), format!("text form, {}", desc))),
            Some(q) => {
                if q.bytes() != b {
                    bad.push(("serialised-proof-changed".into(), format!("text form, {}", desc)));
                }
            }
        }
        // serialised instance, on either side
        let ib = bincode::serialize(&s.inst).unwrap();
        match bincode::deserialize::<Instance>(&ib) {
            Err(e) => bad.push(("serialised-instance-unreadable".into(), format!("{} for {}", e, desc))),
            Ok(i2) => {
                if bincode::serialize(&i2).unwrap() != ib {
                    bad.push(("serialised-instance-changed".into(), desc.clone()));
                }
                let ab = bincode::serialize(&s.vars).unwrap();
                let v2: Assignment = bincode::deserialize(&ab).unwrap();
                let s2 = match attempt(|| {
                    let mut s2 = St::new(sys.clone(), w);
                    s2.inst = i2;
                    s2.vars = v2;
                    if w == Which::S {
                        let (g, _, _) = s2.sg.take().unwrap();
                        let (c, d) = SNARK::encode(&s2.inst, &g);
                        s2.sg = Some((g, c, d));
                    }
                    s2
                }) {
                    Ok(s2) => s2,
                    Err(p) => {
                        bad.push(("setup-aborts".to_string(), format!("{} at {} for the reread {}", p.msg, p.loc, desc)));
                        return Done { desc, key, bad, leaves, bytes };
                    }
                };
                let v = verify(&s2, w, p, &mut tr(L1, &pre));
                if v != V::Accept {
                    bad.push(("refused-after-reread".into(), format!("{:?}: verifier with the reread instance, {}", v, desc)));
                }
                if let Ok(p2) = attempt(|| prove(&s2, w, &mut tr(L1, &pre))) {
                    let v = verify(&s, w, &p2, &mut tr(L1, &pre));
                    if v != V::Accept {
                        bad.push(("refused-after-reread".into(), format!("{:?}: prover with the reread instance, {}", v, desc)));
                    }
                } else {
                    bad.push(("prover-aborts".into(), format!("with the reread instance, {}", desc)));
                }
            }
        }
    }
    Done { desc, key, bad, leaves, bytes }
}
fn shapes(l: &Ledger, w: Which, r: &mut Rng) -> Vec<(usize, usize, usize, usize, Wit)> {
    let mut v = vec![];
    for nc in [0usize, 1, 2, 3, 4, 5] {
        for nv in [0usize, 1, 2, 3, 5] {
            let ni = [0, 1, 2, 7][r.below(4)];
            v.push((nc, nv, ni, 2, WITS[r.below(if nv == 0 { 3 } else { 5 })]));
        }
    }
    // sparse to the point of empty matrices
    for (nc, nv, ni) in [(1, 1, 0), (2, 2, 1), (4, 4, 3), (7, 3, 2), (16, 8, 0)] {
        v.push((nc, nv, ni, 0, Wit::Random));
        v.push((nc, nv, ni, 1, Wit::Small));
    }
    for (nc, nv, ni) in [(8, 8, 7), (9, 8, 8), (17, 31, 1), (16, 64, 10), (64, 16, 15), (33, 100, 40), (100, 20, 60), (128, 128, 127)] {
        v.push((nc, nv, ni, 3, Wit::Random));
    }
    let extra = l.n(if w == Which::N { 150 } else { 40 }, 3000);
    for _ in 0..extra {
        let big = r.chance(1, 20);
        let m = if big { 150 } else { 20 };
        let nv = r.below(m);
        v.push((r.below(m), nv, r.below(m), r.range(0, 4), WITS[r.below(if nv == 0 { 3 } else { 5 })]));
    }
    for (nc, nv, ni) in if w == Which::N { vec![(600, 300, 5), (20, 1100, 9), (1100, 40, 600)] } else { vec![(300, 300, 20), (20, 600, 30)] } {
        v.push((nc, nv, ni, 2, Wit::Random));
    }
    if l.thorough {
        for e in [300, 700, 1500] {
            v.push((e, e, 10, 3, Wit::Random));
        }
    }
    v
}
/// density 0 means: at most one entry in the whole system
fn make(r: &mut Rng, (nc, nv, ni, d, wit): (usize, usize, usize, usize, Wit)) -> Sys {
    if d > 0 {
        return gen_sys(r, nc, nv, ni, d, wit);
    }
    let mut s = gen_sys(r, 0, nv, ni, 1, wit);
    s.nc = nc;
    if nc > 0 && nv > 0 && r.chance(1, 2) {
        let k = r.below(2);
        s.m[k].push((r.below(nc), r.below(nv + 1 + ni), scalar_like(r, Wit::Random)));
    }
    s
}
fn completeness(l: &mut Ledger, w: Which) {
    let mut r = Rng::new(l.seed, "complete-shapes");
    let sh = shapes(l, w, &mut r);
    let systems: Vec<Sys> = sh.iter().map(|x| make(&mut r, *x)).collect();
    let deadline = l.start + l.budget;
    let seed = l.seed;
    let res = par(systems.len(), deadline, |i| complete_one(systems[i].clone(), w, seed * 100_000 + i as u64));
    for (i, d) in res.into_iter().enumerate() {
        let Some(d) = d else { continue };
        for (k, t) in &d.bad {
            l.violation(k, t);
        }
        l.count("statements");
        l.addc("proof_components", d.leaves as u64);
        l.count(if systems[i].nc.is_power_of_two() && systems[i].nv.is_power_of_two() { "shape_pow2" } else { "shape_other" });
        if systems[i].nnz() < 2 {
            l.count("nearly_empty");
        }
        l.case(&d.key, true, || format!("{} proved twice, verified as is, serialised ({} bytes, {} components) and with the reread instance", d.desc, d.bytes, d.leaves));
    }
    l.require("statements", if w == Which::N { 60 } else { 30 });
    l.require("shape_other", 20);
    l.require("nearly_empty", 4);
    l.rule = "one case per satisfiable statement proved and verified by the real prover and verifier".into();
}

// ---------------- rejection ----------------
fn soundness(l: &mut Ledger, w: Which) {
    l.rule = "one case per altered proof, false witness or mismatched verifier statement given to the real verifier".into();
    let deadline = l.start + l.budget;
    let mut r = Rng::new(l.seed, "sound");
    // 1. false witnesses
    let nf = l.n(if w == Which::N { 160 } else { 40 }, 3000);
    let mut fal = vec![];
    while fal.len() < nf {
        let m = if r.chance(1, 10) { 40 } else { 9 };
        let (nc, nv, ni) = (r.range(1, m), r.range(1, m), r.below(m));
        let wit = WITS[r.below(3)];
        let s = gen_sys(&mut r, nc, nv, ni, 3, wit);
        if let Some((t, what)) = falsify(&mut r, &s) {
            fal.push((t, what));
        }
        // a single violated row, everything else exact
        let mut t = s.clone();
        t.m[2].push((r.below(nc), nv, BigUint::one()));
        if !t.sat(&t.vars, &t.inputs) {
            fal.push((t, "one row violated"));
        }
        // several, so that the errors cancel out under a simple weighing of the rows
        if nc > 1 && fal.len() % 3 == 0 {
            let (es, how) = conspiracy(&mut r, nc);
            let mut t = s.clone();
            t.m[2].extend(es.into_iter().map(|(i, e)| (i, nv, e)));
            if !t.sat(&t.vars, &t.inputs) {
                fal.push((t, how));
            }
        }
    }
    // larger ones
    for (nc, nv, ni) in if w == Which::N { vec![(300, 40, 3), (70, 600, 5), (130, 130, 100)] } else { vec![(70, 30, 3)] } {
        let s = gen_sys(&mut r, nc, nv, ni, 2, Wit::Random);
        let (es, how) = if r.chance(1, 2) { conspiracy(&mut r, nc) } else { (vec![(r.below(nc), BigUint::one())], "one row violated") };
        let mut t = s.clone();
        t.m[2].extend(es.into_iter().map(|(i, e)| (i, nv, e)));
        if !t.sat(&t.vars, &t.inputs) {
            fal.push((t, how));
        }
        let mut t = s.clone();
        let i = r.below(ni);
        t.inputs[i] = addm(&t.inputs[i], &BigUint::one(), &modp());
        if !t.sat(&t.vars, &t.inputs) {
            fal.push((t, "one input off by one"));
        }
    }
    let part = Instant::now() + (l.budget / 4);
    let res = par(fal.len(), part.min(deadline), |i| {
        let r = attempt(|| {
            let s = St::new(fal[i].0.clone(), w);
            let p = prove(&s, w, &mut Transcript::new(L1));
            verify(&s, w, &p, &mut Transcript::new(L1))
        });
        match r {
            Ok(v) => v,
            Err(p) => V::Abort(format!("prover: {} at {}", p.msg, p.loc)),
        }
    });
    for (i, v) in res.into_iter().enumerate() {
        let Some(v) = v else { continue };
        l.check(v != V::Accept, "false-witness-accepted", || format!("{}: {}; system {}", fal[i].1, fal[i].0.show(), fal[i].0.key()));
        l.count("false_witness");
        l.count(&format!("false_witness:{}", v.tag()));
        l.case(&fal[i].0.key(), true, || format!("{} ({}) {}", fal[i].0.show(), fal[i].1, v.tag()));
    }
    // 2. a verifier that holds something else
    let nm = l.n(if w == Which::N { 24 } else { 8 }, 400);
    let seeds: Vec<u64> = (0..nm).map(|_| r.u64()).collect();
    let part = Instant::now() + (l.budget / 4);
    let res = par(nm, part.min(deadline), |i| mismatches(seeds[i], w));
    for x in res.into_iter().flatten() {
        match x {
            Err(e) => l.violation("control", &e),
            Ok(v) => {
                for (what, key, v) in v {
                    l.check(v != V::Accept, &format!("accepted:{}", what), || key.clone());
                    l.count("mismatched");
                    l.count(&format!("mismatched:{}", what));
                    l.case(&(what.clone(), key.clone()), true, || format!("{} -> {}", what, v.tag()));
                }
            }
        }
    }
    // 3. altered proofs
    let mut sh: Vec<(usize, usize, usize)> = vec![(2, 4, 1), (4, 3, 2), (5, 9, 3), (1, 1, 0)];
    if w == Which::N {
        sh.push((33, 260, 5));
    }
    if l.thorough {
        for _ in 0..40 {
            sh.push((r.range(1, 20), r.range(1, 20), r.below(10)));
        }
    }
    for (k, (nc, nv, ni)) in sh.iter().enumerate() {
        if Instant::now() > deadline {
            break;
        }
        let sys = gen_sys(&mut r, *nc, *nv, *ni, 2, WITS[k % 2]);
        let sys2 = gen_sys(&mut r, *nc, *nv, *ni, 2, Wit::Random);
        let made = attempt(|| {
            let s = St::new(sys.clone(), w);
            let a = prove(&s, w, &mut Transcript::new(L1)).json();
            let b = prove(&s, w, &mut Transcript::new(L1)).json();
            let s2 = St::new(sys2.clone(), w);
            let c = prove(&s2, w, &mut Transcript::new(L1)).json();
            (s, a, b, c)
        });
        let Ok((s, a, b, c)) = made else {
            l.count("prover_aborted");
            continue;
        };
        let control = verify_json(&s, w, &a, L1);
        if control != V::Accept {
            l.count("control_refused");
            continue;
        }
        l.count("proofs_altered");
        l.addc("components", tree(&a).leaves.len() as u64);
        let mut ms = mutants(&mut r, &a, k == 0);
        ms.extend(splices(&a, &b, "another proof of the statement"));
        ms.extend(splices(&a, &c, "a proof of another statement"));
        // rarest kinds of component first, so that a cut-off leaves none out
        let mut seen: std::collections::HashMap<String, usize> = Default::default();
        let mut order: Vec<(usize, usize)> = ms.iter().enumerate().map(|(i, m)| { let e = seen.entry(m.class.clone()).or_insert(0); *e += 1; (*e, i) }).collect();
        order.sort();
        let left = deadline.saturating_duration_since(Instant::now());
        let rest = sh.len() - k;
        let part = Instant::now() + left / (rest as u32);
        let res = par(order.len(), part, |i| verify_json(&s, w, &ms[order[i].1].proof, L1));
        for (i, v) in res.into_iter().enumerate() {
            let Some(v) = v else { l.count("alterations_skipped"); continue };
            let m = &ms[order[i].1];
            l.check(v != V::Accept, &format!("altered-accepted:{}", m.class), || format!("{}: proof of {} accepted; system {}", m.what, s.sys.show(), s.sys.key()));
            l.count("altered");
            l.count(&format!("altered:{}", v.tag()));
            l.case(&(k, &m.what), true, || format!("{} -> {}", m.what, v.tag()));
        }
        for c in seen.keys() {
            l.count(&format!("class:{}", c));
        }
    }
    l.require("false_witness", if w == Which::N { 60 } else { 20 });
    l.require("mismatched", if w == Which::N { 60 } else { 30 });
    l.require("altered", if w == Which::N { 800 } else { 1000 });
}
type Mis = Vec<(String, String, V)>;
fn with_json<T: serde::de::DeserializeOwned>(v: &Value) -> Option<T> {
    serde_json::from_str(&v.to_string()).ok()
}
fn mismatches(seed: u64, w: Which) -> Result<Mis, String> {
    let mut r = Rng::new(seed, "mis");
    let p = modp();
    let (nc, nv, ni) = (r.range(1, 8), r.range(2, 9), r.range(1, 4));
    let wit = if r.chance(1, 4) { Wit::AllZero } else { WITS[r.below(3)] };
    let sys = gen_sys(&mut r, nc, nv, ni, 2, wit);
    let made = attempt(|| {
        let s = St::new(sys.clone(), w);
        let pf = prove(&s, w, &mut tr(L1, b"ctx"));
        (s, pf)
    });
    let Ok((s, pf)) = made else { return Ok(vec![]) };
    if verify(&s, w, &pf, &mut tr(L1, b"ctx")) != V::Accept {
        return Ok(vec![]);
    }
    let mut out: Mis = vec![];
    let desc = format!("{}; {}", sys.show(), sys.key());
    let mut push = |what: &str, v: V| out.push((what.to_string(), format!("{}: {}", what, desc), v));
    // transcripts
    push("other transcript label", verify(&s, w, &pf, &mut tr(b"another transcript", b"ctx")));
    push("other transcript context", verify(&s, w, &pf, &mut tr(L1, b"ctX")));
    push("missing transcript context", verify(&s, w, &pf, &mut tr(L1, b"")));
    // inputs
    for i in 0..ni {
        for k in 0..2 {
            let mut x = sys.inputs.clone();
            x[i] = if k == 0 { addm(&x[i], &BigUint::one(), &p) } else { scalar_like(&mut r, Wit::Random) };
            if x[i] != sys.inputs[i] {
                push("other public input", verify_with(&s, w, &pf, &assign(&x), &mut tr(L1, b"ctx")));
            }
        }
    }
    let mut rot = sys.inputs.clone();
    rot.rotate_left(1);
    if rot != sys.inputs {
        push("permuted public inputs", verify_with(&s, w, &pf, &assign(&rot), &mut tr(L1, b"ctx")));
    }
    for x in [sys.inputs[..ni - 1].to_vec(), [sys.inputs.clone(), vec![BigUint::zero()]].concat()] {
        push("public inputs of another length", verify_with(&s, w, &pf, &assign(&x), &mut tr(L1, b"ctx")));
    }
    // an input no constraint mentions is still part of the statement
    let mut quiet = sys.clone();
    for m in quiet.m.iter_mut() {
        m.retain(|e| e.1 != nv + ni);
    }
    if quiet.sat(&quiet.vars, &quiet.inputs) {
        if let Ok((qs, qp)) = attempt(|| {
            let qs = St::new(quiet.clone(), w);
            let qp = prove(&qs, w, &mut tr(L1, b""));
            (qs, qp)
        }) {
            if verify(&qs, w, &qp, &mut tr(L1, b"")) == V::Accept {
                let mut x = quiet.inputs.clone();
                x[ni - 1] = addm(&x[ni - 1], &BigUint::one(), &p);
                push("other value of an unused public input", verify_with(&qs, w, &qp, &assign(&x), &mut tr(L1, b"")));
            }
        }
    }
    // other instances of the same shape; the witness may well satisfy them too
    let mut others: Vec<(&str, Sys)> = vec![];
    for k in 0..3 {
        if !sys.m[k].is_empty() {
            let mut t = sys.clone();
            let i = r.below(t.m[k].len());
            t.m[k][i].2 = addm(&t.m[k][i].2, &BigUint::one(), &p);
            others.push(("instance with one coefficient changed", t));
            let mut t = sys.clone();
            let i = r.below(t.m[k].len());
            t.m[k][i].1 = (t.m[k][i].1 + 1) % (nv + 1 + ni);
            if t.m[k] != sys.m[k] && !sys.m[k][i].2.is_zero() {
                others.push(("instance with one column changed", t));
            }
            if nc > 1 {
                let mut t = sys.clone();
                t.m[k][i].0 = (t.m[k][i].0 + 1) % nc;
                if !sys.m[k][i].2.is_zero() {
                    others.push(("instance with one row changed", t));
                }
            }
            let mut t = sys.clone();
            t.m[k].remove(i);
            if !sys.m[k][i].2.is_zero() {
                others.push(("instance with one entry less", t));
            }
        }
        let mut t = sys.clone();
        t.m[k].push((r.below(nc), r.below(nv + 1 + ni), BigUint::one()));
        others.push(("instance with one entry more", t));
    }
    if sys.m[0] != sys.m[1] {
        let mut t = sys.clone();
        t.m.swap(0, 1); // the same statement, written differently
        others.push(("instance with two matrices swapped", t));
    }
    let mut t = sys.clone();
    t.ni += 1;
    t.inputs.push(BigUint::zero());
    if t.padded_vars() == sys.padded_vars() {
        others.push(("instance with one more input", t));
    }
    let mut t = sys.clone();
    t.nc = sys.padded_cons() + 1;
    others.push(("instance with more constraints", t));
    for (what, t) in &others {
        if let Ok(o) = attempt(|| St::new(t.clone(), w)) {
            let x = if t.ni == sys.ni { s.inputs.clone() } else { o.inputs.clone() };
            push(what, verify_with(&o, w, &pf, &x, &mut tr(L1, b"ctx")));
        }
    }
    // the cheapest real cheat: prove an easy statement while claiming to speak about another one
    let easy = gen_sys(&mut r, nc, nv, ni, 2, Wit::Random);
    let mut easy = Sys { inputs: sys.inputs.clone(), ..easy };
    // make it hold for the inputs of the target
    easy.m = [vec![], vec![], vec![]];
    for row in 0..nc {
        let z = easy.z(&easy.vars, &easy.inputs);
        let (a, b) = (r.below(nv), r.below(nv + 1 + ni));
        easy.m[0].push((row, a, BigUint::one()));
        easy.m[1].push((row, b, BigUint::one()));
        easy.m[2].push((row, nv, mulm(&z[a], &z[b], &p)));
    }
    if easy.sat(&easy.vars, &easy.inputs) {
        match w {
            Which::N => {
                let made = attempt(|| {
                    let e = St::new(easy.clone(), w);
                    let mut ij = serde_json::to_value(&e.inst).unwrap();
                    ij["digest"] = serde_json::to_value(&s.inst).unwrap()["digest"].clone();
                    let forged: Option<Instance> = with_json(&ij);
                    forged.map(|inst| {
                        let e = St { inst, ..e };
                        prove(&e, w, &mut tr(L1, b"ctx"))
                    })
                });
                if let Ok(Some(q)) = made {
                    push("proof for another instance under this digest", verify(&s, w, &q, &mut tr(L1, b"ctx")));
                }
            }
            Which::S => {
                // same padded sizes are needed for the parameters to fit
                while easy.nnz() < sys.nnz() {
                    let z = (easy.nc - 1, r.below(nv), BigUint::zero());
                    easy.m[0].push(z);
                }
                let made = attempt(|| {
                    let e = St::new(easy.clone(), w);
                    let (g, c, d) = s.sg.as_ref().unwrap();
                    let (_, _, de) = e.sg.as_ref().unwrap();
                    let mut v = vec![];
                    v.push(("proof for another instance under this commitment", attempt(|| SNARK::prove(&e.inst, c, de, e.vars.clone(), &e.inputs, g, &mut tr(L1, b"ctx")))));
                    v.push(("proof for another instance with this opening", attempt(|| SNARK::prove(&e.inst, c, d, e.vars.clone(), &e.inputs, g, &mut tr(L1, b"ctx")))));
                    v.push(("proof with the opening of another instance", attempt(|| SNARK::prove(&s.inst, c, de, s.vars.clone(), &s.inputs, g, &mut tr(L1, b"ctx")))));
                    v
                });
                if let Ok(v) = made {
                    for (what, q) in v {
                        match q {
                            Ok(q) => push(what, verify(&s, w, &Proof::S(q), &mut tr(L1, b"ctx"))),
                            Err(p) => push(what, V::Abort(p.msg)),
                        }
                    }
                }
            }
        }
    }
    // other public parameters
    let big = sys.padded_vars() * 4;
    match w {
        Which::N => {
            let o = St { ng: Some(NIZKGens::new(nc, big, ni)), sys: sys.clone(), inst: sys.instance(), vars: s.vars.clone(), inputs: s.inputs.clone(), sg: None };
            push("parameters of another size", verify(&o, w, &pf, &mut tr(L1, b"ctx")));
        }
        Which::S => {
            let o = attempt(|| {
                let (_, c, d) = St::new(sys.clone(), w).sg.unwrap();
                St { ng: None, sys: sys.clone(), inst: sys.instance(), vars: s.vars.clone(), inputs: s.inputs.clone(), sg: Some((SNARKGens::new(nc, big, ni, sys.nnz()), c, d)) }
            });
            if let Ok(o) = o {
                push("parameters of another size", verify(&o, w, &pf, &mut tr(L1, b"ctx")));
            }
            // entry counts that change the evaluation parameters
            let o = attempt(|| {
                let (_, c, d) = St::new(sys.clone(), w).sg.unwrap();
                St { ng: None, sys: sys.clone(), inst: sys.instance(), vars: s.vars.clone(), inputs: s.inputs.clone(), sg: Some((SNARKGens::new(nc, nv, ni, sys.nnz().max(2) * 16), c, d)) }
            });
            if let Ok(o) = o {
                push("parameters for another number of entries", verify(&o, w, &pf, &mut tr(L1, b"ctx")));
            }
        }
    }
    Ok(out)
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let mut l = Ledger::new(&id);
    l.budget = Duration::from_secs(std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if l.thorough { 1500 } else if id == "C07" || id == "C09" { 400 } else { 160 }));
    l.run(|l| match l.id.as_str() {
        "C07" => completeness(l, Which::N),
        "C08" => soundness(l, Which::N),
        "C09" => completeness(l, Which::S),
        "C10" => soundness(l, Which::S),
        _ => panic!("unknown property"),
    })
}
