//! C12, second part: where each blind comes from. For the all-zero witness every commitment is its blind
//! times h, so each can be traced back to the draw of the random tape that blinds it: no draw may serve
//! two commitments, and no commitment may go without.
use libspartan::verif_hooks::commitments::*;
use libspartan::verif_hooks::dense_mlpoly::*;
use libspartan::verif_hooks::group::*;
use libspartan::verif_hooks::math::Math;
use libspartan::verif_hooks::scalar::Scalar;
use merlin::{tap_start, tap_take, Event, Transcript};
use num_bigint_dig::BigUint;
use num_traits::Zero;
use serde_json::Value;
use spartanchk::*;
use std::collections::HashMap;
use std::time::Instant;
use vcommon::*;

fn pt(v: &Value) -> GroupElement {
    let c: CompressedGroup = serde_json::from_str(&v.to_string()).unwrap();
    c.decompress().unwrap()
}
fn scv(v: &Value) -> Scalar {
    Scalar::from_bytes(&leaf_bytes(v).try_into().unwrap()).unwrap()
}
fn key(p: &GroupElement) -> Vec<u8> {
    leaf_bytes(&serde_json::to_value(p.compress()).unwrap())
}
fn msm(s: &[Scalar], g: &[GroupElement]) -> GroupElement {
    let mut a = s[0] * g[0];
    for i in 1..s.len() {
        a = a + s[i] * g[i];
    }
    a
}
struct Trace {
    name: String,
    /// tape draws found, by commitment
    found: Vec<(String, Option<usize>, bool)>,
    draws: usize,
}
fn trace(sys: &Sys, zero: bool, w: Which) -> Option<Trace> {
    let st = St::new(sys.clone(), w);
    tap_start();
    let mut t = Transcript::new(b"blinds");
    let id = t.tap_id();
    let p = prove(&st, w, &mut t);
    let log = tap_take();
    if verify(&st, w, &p, &mut Transcript::new(b"blinds")) != V::Accept {
        return None;
    }
    let mut draws = vec![];
    let mut main = vec![];
    let mut chal = vec![];
    for (i, e) in log {
        match e {
            Event::Challenge(_, b) if i != id && b.len() == 64 => draws.push(Scalar::from_bytes_wide(&b.try_into().unwrap())),
            Event::Challenge(_, b) if b.len() == 64 => chal.push(Scalar::from_bytes_wide(&b.try_into().unwrap())),
            Event::Append(_, b) if i == id => main.push(b),
            _ => {}
        }
    }
    let nv = sys.padded_vars();
    let label = b"gens_r1cs_sat";
    let pc = PolyCommitmentGens::new(nv.log_2(), label);
    let (g3, g4) = (MultiCommitGens::new(3, label), MultiCommitGens::new(4, label));
    let (gn, g1) = (&pc.gens.gens_n, &pc.gens.gens_1);
    let mut tab: HashMap<Vec<u8>, usize> = HashMap::new();
    for (i, d) in draws.iter().enumerate() {
        for h in [&gn.h, &g1.h, &g3.h, &g4.h] {
            tab.entry(key(&(d * h))).or_insert(i);
        }
    }
    let j = p.json();
    let s = &j["r1cs_sat_proof"];
    let mut found = vec![];
    let tab = &tab;
    let mut look = |name: String, p: GroupElement| {
        let k = key(&p);
        found.push((name, tab.get(&k).copied(), k.iter().all(|b| *b == 0)));
    };
    // the witness itself, whatever it is
    let mut vars: Vec<Scalar> = sys.vars.iter().map(|v| Scalar::from_bytes(&le32(v)).unwrap()).collect();
    vars.resize(nv, Scalar::zero());
    let rows = s["comm_vars"]["C"].as_array()?;
    let per = nv / rows.len();
    for (i, c) in rows.iter().enumerate() {
        look(format!("comm_vars[{i}]"), pt(c) - msm(&vars[i * per..(i + 1) * per], &gn.G));
    }
    if let Some(ry) = j["r"][1].as_array() {
        let ry: Vec<Scalar> = ry.iter().map(scv).collect();
        let e = DensePolynomial::new(vars.clone()).evaluate(&ry[1..]);
        look("comm_vars_at_ry".into(), pt(&s["comm_vars_at_ry"]) - e * g1.G[0]);
    } else if zero {
        look("comm_vars_at_ry".into(), pt(&s["comm_vars_at_ry"]));
    }
    if zero {
        for i in 0..4 {
            look(format!("claims_phase2[{i}]"), pt(&s["claims_phase2"][i]));
        }
        for (ph, g) in [(1, &g4), (2, &g3)] {
            let q = &s[format!("sc_proof_phase{ph}")];
            for (i, pr) in q["proofs"].as_array()?.iter().enumerate() {
                look(format!("phase {ph} comm_polys[{i}]"), pt(&q["comm_polys"][i]));
                look(format!("phase {ph} comm_evals[{i}]"), pt(&q["comm_evals"][i]));
                let z: Vec<Scalar> = pr["z"].as_array()?.iter().map(scv).collect();
                look(format!("phase {ph} proofs[{i}].delta"), pt(&pr["delta"]) - msm(&z, &g.G));
                // the public vector is what was absorbed right before
                let d = leaf_bytes(&pr["delta"]);
                let at = main.iter().position(|b| *b == d)?;
                let a: Vec<Scalar> = main[..at].iter().rev().filter(|b| b.len() == 32).take(z.len()).map(|b| Scalar::from_bytes(&b[..].try_into().unwrap()).unwrap()).collect();
                let y = a.iter().rev().zip(&z).fold(Scalar::zero(), |x, (a, z)| x + a * z);
                look(format!("phase {ph} proofs[{i}].beta"), pt(&pr["beta"]) - y * g1.G[0]);
            }
            look(format!("proof_eq_sc_phase{ph}.alpha"), pt(&s[format!("proof_eq_sc_phase{ph}")]["alpha"]));
        }
        let k = &s["pok_claims_phase2"][0];
        look("knowledge alpha".into(), pt(&k["alpha"]) - scv(&k["z1"]) * g1.G[0]);
        let k = &s["pok_claims_phase2"][1];
        look("product alpha".into(), pt(&k["alpha"]) - scv(&k["z"][0]) * g1.G[0]);
        look("product beta".into(), pt(&k["beta"]) - scv(&k["z"][2]) * g1.G[0]);
        look("product delta".into(), pt(&k["delta"]) - scv(&k["z"][2]) * pt(&s["claims_phase2"][0]));
        let k = &s["proof_eval_vars_at_ry"]["proof"];
        for f in ["L_vec", "R_vec"] {
            for (i, c) in k["bullet_reduction_proof"][f].as_array()?.iter().enumerate() {
                look(format!("{f}[{i}]"), pt(c));
            }
        }
        // made over a generator scaled by one of the challenges
        let (b, z1) = (pt(&k["beta"]), scv(&k["z1"]));
        let c = chal.iter().map(|c| b - *c * z1 * g1.G[0]).find(|p| tab.contains_key(&key(p)) || key(p).iter().all(|b| *b == 0));
        look("evaluation beta".into(), c.unwrap_or(b));
    }
    Some(Trace { name: format!("{:?} {} {}", w, sys.show(), if zero { "zero" } else { "random" }), found, draws: draws.len() })
}
fn main() {
    let mut l = Ledger::new("C12");
    l.budget = std::time::Duration::from_secs(if l.thorough { 900 } else { 150 });
    l.run(|l| {
        l.rule = "one case per traced commitment; non-trivial when its blind was found among the draws of the random tape".into();
        let deadline = Instant::now() + l.budget;
        let mut r = Rng::new(l.seed, "blinds");
        let mut jobs = vec![];
        for i in 0..l.n(12, 120) {
            let (nc, nv, ni) = (r.range(2, 9), r.range(1, 20), r.range(0, 3));
            let zero = i % 3 != 2;
            let mut s = gen_sys(&mut r, nc, nv, ni, 3, if zero { Wit::AllZero } else { Wit::Random });
            if zero {
                s.inputs = vec![BigUint::zero(); ni];
                for m in s.m.iter_mut() {
                    // with no matrix at all even the second sum-check is over zeros
                    m.retain(|e| e.1 != nv && i % 3 == 0);
                }
            }
            jobs.push((s, zero, if i % 4 == 3 { Which::S } else { Which::N }));
        }
        let res = par(jobs.len(), deadline, |i| attempt(|| trace(&jobs[i].0, jobs[i].1, jobs[i].2)));
        let mut matched = 0u64;
        let all: Vec<Trace> = res.into_iter().flatten().flatten().flatten().collect();
        for t in &all {
            matched += t.found.iter().filter(|f| f.1.is_some()).count() as u64;
        }
        l.addc("traced_proofs", all.len() as u64);
        l.addc("blinds_found", matched);
        let total: u64 = all.iter().map(|t| t.found.len() as u64).sum();
        if matched * 2 < total {
            // the blinds are drawn in a way this part does not know: it has nothing to say
            println!("void: {} of {} blinds traced to the tape", matched, total);
            l.count("void");
            return;
        }
        for t in &all {
            l.addc("draws", t.draws as u64);
            let mut used: HashMap<usize, &str> = HashMap::new();
            for (n, d, id) in &t.found {
                l.check(!id, &format!("no-blind:{}", n.trim_end_matches(|c: char| c == ']' || c == '[' || c.is_ascii_digit())), || format!("{n} carries no blinding in {}", t.name));
                match d {
                    Some(d) => {
                        let old = used.insert(*d, n);
                        l.check(old.is_none(), "blind-reused", || format!("{} and {n} are blinded by the same draw {d} in {}", old.unwrap(), t.name));
                    }
                    None => {
                        l.count("untraced");
                        if std::env::var("VERBOSE").is_ok() {
                            println!("untraced {n} in {}", t.name);
                        }
                    }
                }
                l.case(&(n, &t.name), d.is_some(), || format!("{n} <- draw {d:?} of {} in {}", t.draws, t.name));
            }
        }
    })
}
