//! C08/C10, second part: provers that cheat. A copy of the sat prover, built from the crate's own parts,
//! deviates in exactly one place so that exactly one verifier check stands between it and acceptance.
//! The undeviating copy is the control: if it no longer matches the crate's protocol the part is void.
use libspartan::verif_hooks::commitments::*;
use libspartan::verif_hooks::dense_mlpoly::*;
use libspartan::verif_hooks::group::*;
use libspartan::verif_hooks::math::Math;
use libspartan::verif_hooks::nizk::*;
use libspartan::verif_hooks::random::RandomTape;
use libspartan::verif_hooks::scalar::Scalar;
use libspartan::verif_hooks::transcript::{AppendToTranscript, ProofTranscript};
use libspartan::verif_hooks::unipoly::UniPoly;
use libspartan::verif_hooks::r1csinstance::{R1CSCommitmentGens, R1CSEvalProof};
use libspartan::Instance;
use merlin::{tap_start, tap_take, Event, Transcript};
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use serde_json::{json, Value};
use spartanchk::*;
use std::time::Instant;
use vcommon::*;

#[path = "../evalforge.rs"]
mod evalforge;
use evalforge::{lies, Lie};

const L1: &[u8] = b"forge";
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cheat {
    None,
    /// the wires include public inputs or a constant other than the stated ones
    Inputs,
    Constant,
    /// ... and the claimed evaluation of the witness is adjusted to hide it
    InputsEval,
    /// ... and the evaluation proof carries a surplus point that cancels its commitment
    InputsEvalSurplus,
    /// a violating witness: the last claim of the first sum-check is just wrong
    Phase1,
    /// ... with the product claim adjusted
    Product,
    /// ... with one of the three claims adjusted
    ClaimA,
    ClaimB,
    ClaimC,
    /// ... and the claimed evaluation of the witness adjusted to hide it
    ClaimCEval,
    /// ... and the point of evaluation of the matrices chosen to hide it
    ClaimCPoint,
    /// ... and the claimed matrix evaluations chosen to hide it
    ClaimCEvals,
    /// ... one of them, and an evaluation proof that lies as well (Lie::None: honestly, about a true statement)
    Eval(usize, Lie),
    /// a violating witness and honest round polynomials, so that one round check fails
    Round1(usize),
    Round2(usize),
    /// a sum-check round polynomial evaluated elsewhere
    RoundEval1(usize),
    RoundEval2(usize),
    /// the commitment opened is not the one sent
    OtherVector,
    /// one satisfied row shown in place of every row, and its corner as the point of the first sum-check
    Rows(usize),
    /// more or fewer inputs than the instance has, the rest being zero
    MoreInputs,
    FewerInputs,
}
fn sc(v: &BigUint) -> Scalar {
    Scalar::from_bytes(&le32(v)).unwrap()
}
fn big(s: &Scalar) -> BigUint {
    from_le(&s.to_bytes())
}
fn j<T: serde::Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap()
}
fn inv(s: &Scalar) -> Scalar {
    s.invert().unwrap()
}
struct Gens {
    pc: PolyCommitmentGens,
    g3: MultiCommitGens,
    g4: MultiCommitGens,
}
/// sum-check over committed round polynomials; `comb` combines one value of each table
fn zk_sumcheck(
    claim: Scalar,
    blind_claim: Scalar,
    tables: &mut Vec<Vec<Scalar>>,
    degree: usize,
    comb: impl Fn(&[Scalar]) -> Scalar,
    g1: &MultiCommitGens,
    gn: &MultiCommitGens,
    t: &mut Transcript,
    tape: &mut RandomTape,
    cheat_round: Option<usize>,
    cheat_eval: Option<usize>,
) -> (Value, Vec<Scalar>, Vec<Scalar>, Scalar, Scalar) {
    let rounds = tables[0].len().log_2();
    let bp = tape.random_vector(b"blinds_poly", rounds);
    let be = tape.random_vector(b"blinds_evals", rounds);
    let mut claim = claim;
    let mut cclaim = claim.commit(&blind_claim, g1).compress();
    let (mut cp, mut ce, mut pr, mut r) = (vec![], vec![], vec![], vec![]);
    for k in 0..rounds {
        let half = tables[0].len() / 2;
        let mut at = vec![Scalar::zero(); degree + 1];
        for i in 0..half {
            let lo: Vec<Scalar> = tables.iter().map(|x| x[i]).collect();
            let step: Vec<Scalar> = tables.iter().map(|x| x[half + i] - x[i]).collect();
            let mut p = lo;
            for a in at.iter_mut() {
                *a = *a + comb(&p);
                for (x, s) in p.iter_mut().zip(&step) {
                    *x = *x + *s;
                }
            }
        }
        // the crate's prover takes the value at one from the claim; so do all rounds that do not cheat
        if cheat_round != Some(k) {
            at[1] = claim - at[0];
        }
        let poly = UniPoly::from_evals(&at);
        let c = poly.commit(gn, &bp[k]).compress();
        c.append_to_transcript(b"comm_poly", t);
        let rj = t.challenge_scalar(b"challenge_nextround");
        for x in tables.iter_mut() {
            for i in 0..half {
                x[i] = x[i] + rj * (x[half + i] - x[i]);
            }
            x.truncate(half);
        }
        let mut eval = poly.evaluate(&rj);
        if cheat_eval == Some(k) {
            eval = eval + Scalar::one();
        }
        let cev = eval.commit(&be[k], g1).compress();
        cclaim.append_to_transcript(b"comm_claim_per_round", t);
        cev.append_to_transcript(b"comm_eval", t);
        let w = t.challenge_vector(b"combine_two_claims_to_one", 2);
        let target = w[0] * claim + w[1] * eval;
        let blind = w[0] * (if k == 0 { blind_claim } else { be[k - 1] }) + w[1] * be[k];
        let mut a = vec![];
        let mut pw = Scalar::one();
        for i in 0..degree + 1 {
            let one = Scalar::one();
            a.push(w[0] * (if i == 0 { one + one } else { one }) + w[1] * pw);
            pw = pw * rj;
        }
        let (p, _, _) = DotProductProof::prove(g1, gn, t, tape, &poly.as_vec(), &bp[k], &a, &target, &blind);
        pr.push(j(&p));
        cp.push(j(&c));
        ce.push(j(&cev));
        claim = eval;
        cclaim = cev;
        r.push(rj);
    }
    let fin = tables.iter().map(|x| x[0]).collect();
    (json!({"comm_polys": cp, "comm_evals": ce, "proofs": pr}), r, fin, claim, be[rounds - 1])
}
struct Out {
    sat: Value,
    rx: Vec<Scalar>,
    ry: Vec<Scalar>,
    evals: (Scalar, Scalar, Scalar),
}
/// everything a sat proof consists of; `z` is whatever the cheater has, `io` what it states
fn sat_prove(inst: &Instance, sys: &Sys, z: &[Scalar], io: &[Scalar], g: &Gens, t: &mut Transcript, tape: &mut RandomTape, ch: Cheat, other: &[Scalar]) -> Out {
    let nv = sys.padded_vars();
    let nc = inst.inst.get_num_cons();
    t.append_protocol_name(b"R1CS proof");
    io.append_to_transcript(b"input", t);
    let vars = if ch == Cheat::OtherVector { other.to_vec() } else { z[..nv].to_vec() };
    let poly = DensePolynomial::new(vars);
    let (comm, blinds) = poly.commit(&g.pc, Some(tape));
    comm.append_to_transcript(b"poly_commitment", t);
    let lx = nc.log_2();
    let tau = t.challenge_vector(b"challenge_tau", lx);
    let eqt = EqPolynomial::new(tau).evals();
    let (az, bz, cz) = inst.inst.multiply_vec(nc, z.len(), z);
    let col = |p: &DensePolynomial| -> Vec<Scalar> { (0..p.len()).map(|i| p[i]).collect() };
    let mut tabs = vec![eqt, col(&az), col(&bz), col(&cz)];
    if let Cheat::Rows(i) = ch {
        for t in &mut tabs[1..] {
            *t = vec![t[i]; t.len()];
        }
    }
    let g1 = &g.pc.gens.gens_1;
    let (sc1, rx, fin, post1, bpost1) = zk_sumcheck(Scalar::zero(), Scalar::zero(), &mut tabs, 3, |v| v[0] * (v[1] * v[2] - v[3]), g1, &g.g4, t, tape,
        if let Cheat::Round1(k) = ch { Some(k % lx) } else { None }, if let Cheat::RoundEval1(k) = ch { Some(k % lx) } else { None });
    let (tc, mut a, mut b, mut c) = (fin[0], fin[1], fin[2], fin[3]);
    let want = post1 * inv(&tc); // what prod - C must be
    let mut prod = a * b;
    match ch {
        Cheat::Eval(_, lie) if lie != Lie::None => c = prod - want,
        Cheat::Product => prod = want + c,
        Cheat::ClaimC | Cheat::ClaimCEval | Cheat::ClaimCPoint | Cheat::ClaimCEvals => c = prod - want,
        Cheat::ClaimA if b != Scalar::zero() => {
            a = (want + c) * inv(&b);
            prod = a * b;
        }
        Cheat::ClaimB if a != Scalar::zero() => {
            b = (want + c) * inv(&a);
            prod = a * b;
        }
        _ => {}
    }
    let (ba, bb, bc, bp) = (tape.random_scalar(b"Az_blind"), tape.random_scalar(b"Bz_blind"), tape.random_scalar(b"Cz_blind"), tape.random_scalar(b"prod_Az_Bz_blind"));
    let (pok, cc) = KnowledgeProof::prove(g1, t, tape, &c, &bc);
    let (pprod, ca, cb, cp) = ProductProof::prove(g1, t, tape, &a, &ba, &b, &bb, &prod, &bp);
    ca.append_to_transcript(b"comm_Az_claim", t);
    cb.append_to_transcript(b"comm_Bz_claim", t);
    cc.append_to_transcript(b"comm_Cz_claim", t);
    cp.append_to_transcript(b"comm_prod_Az_Bz_claims", t);
    // both sides committed separately, so that a false equality stays false
    let (peq1, _, _) = EqualityProof::prove(g1, t, tape, &((prod - c) * tc), &(tc * (bp - bc)), &post1, &bpost1);
    let ra = t.challenge_scalar(b"challenege_Az");
    let rb = t.challenge_scalar(b"challenege_Bz");
    let rc = t.challenge_scalar(b"challenege_Cz");
    let claim2 = ra * a + rb * b + rc * c;
    let blind2 = ra * ba + rb * bb + rc * bc;
    let rx: Vec<Scalar> = match ch {
        Cheat::Rows(i) => (0..lx).map(|k| if (i >> (lx - 1 - k)) & 1 == 1 { Scalar::one() } else { Scalar::zero() }).collect(),
        _ => rx,
    };
    let erx = EqPolynomial::new(rx.clone()).evals();
    let (ea, eb, ec) = inst.inst.compute_eval_table_sparse(nc, z.len(), &erx);
    let abc: Vec<Scalar> = (0..ea.len()).map(|i| ra * ea[i] + rb * eb[i] + rc * ec[i]).collect();
    let ly = (2 * nv).log_2();
    let mut tabs = vec![z.to_vec(), abc];
    let (sc2, ry, fin2, post2, bpost2) = zk_sumcheck(claim2, blind2, &mut tabs, 2, |v| v[0] * v[1], g1, &g.g3, t, tape,
        if let Cheat::Round2(k) = ch { Some(k % ly) } else { None }, if let Cheat::RoundEval2(k) = ch { Some(k % ly) } else { None });
    let mut evals = inst.inst.evaluate(&rx, &ry);
    let comb = |e: &(Scalar, Scalar, Scalar)| ra * e.0 + rb * e.1 + rc * e.2;
    // what the verifier computes for the inputs part
    let mut pub_tab = vec![Scalar::zero(); nv];
    pub_tab[0] = Scalar::one();
    pub_tab[1..1 + io.len()].copy_from_slice(io);
    let pub_eval = DensePolynomial::new(pub_tab).evaluate(&ry[1..]);
    let mut v = poly.evaluate(&ry[1..]);
    let one = Scalar::one();
    let mut point = (rx.clone(), ry.clone());
    match ch {
        Cheat::InputsEval | Cheat::InputsEvalSurplus | Cheat::ClaimCEval | Cheat::OtherVector => {
            // post2 = comb * ((1-ry0) v + ry0 pub)
            v = (post2 * inv(&comb(&evals)) - ry[0] * pub_eval) * inv(&(one - ry[0]));
        }
        _ => {}
    }
    let zr = (one - ry[0]) * v + ry[0] * pub_eval;
    if ch == Cheat::ClaimCPoint {
        // the matrices' evaluation is linear in every coordinate of the point: solve for one that fits
        let need = post2 * inv(&zr);
        let last = point.1.len() - 1;
        let mut done = false;
        for (which, k) in (0..=last).map(|k| (1, k)).chain((0..rx.len()).map(|k| (0, k))) {
            let mut at = |x: Scalar| {
                let mut q = (rx.clone(), ry.clone());
                if which == 1 { q.1[k] = x } else { q.0[k] = x }
                (comb(&inst.inst.evaluate(&q.0, &q.1)), q)
            };
            let (f0, f1) = (at(Scalar::zero()).0, at(one).0);
            if f0 == f1 {
                continue;
            }
            let x = (need - f0) * inv(&(f1 - f0));
            let (fx, q) = at(x);
            if fx == need {
                point = q;
                done = true;
                break;
            }
        }
        assert!(done, "no coordinate to solve for");
        evals = inst.inst.evaluate(&point.0, &point.1);
    }
    let wrong = match ch {
        Cheat::ClaimCEvals => Some(2),
        Cheat::Eval(k, l) if l != Lie::None => Some(k),
        _ => None,
    };
    if let Some(k) = wrong {
        let need = post2 * inv(&zr);
        match k {
            0 => evals.0 = (need - rb * evals.1 - rc * evals.2) * inv(&ra),
            1 => evals.1 = (need - ra * evals.0 - rc * evals.2) * inv(&rb),
            _ => evals.2 = (need - ra * evals.0 - rb * evals.1) * inv(&rc),
        }
    }
    let beval = tape.random_scalar(b"blind_eval");
    tap_start();
    let (pe, cv) = PolyEvalProof::prove(&poly, Some(&blinds), &ry[1..], &v, Some(&beval), &g.pc, t, tape);
    let log = tap_take();
    let mut pe = j(&pe);
    if ch == Cheat::InputsEvalSurplus {
        pe = cancel(pe, &log, t.tap_id(), g, &ry[1..]);
    }
    let (peq2, _, _) = EqualityProof::prove(g1, t, tape, &(comb(&evals) * zr), &(comb(&evals) * (one - ry[0]) * beval), &post2, &bpost2);
    let sat = json!({
        "comm_vars": j(&comm), "sc_proof_phase1": sc1, "claims_phase2": [j(&ca), j(&cb), j(&cc), j(&cp)],
        "pok_claims_phase2": [j(&pok), j(&pprod)], "proof_eq_sc_phase1": j(&peq1), "sc_proof_phase2": sc2,
        "comm_vars_at_ry": j(&cv), "proof_eval_vars_at_ry": pe, "proof_eq_sc_phase2": j(&peq2)
    });
    let _ = fin2;
    Out { sat, rx: point.0, ry: point.1, evals }
}
fn point(v: &Value) -> GroupElement {
    let c: CompressedGroup = serde_json::from_str(&v.to_string()).unwrap();
    c.decompress().unwrap()
}
/// a surplus right-hand point that makes up for whatever the opened commitment lacks
fn cancel(pe: Value, log: &[(u64, Event)], id: u64, g: &Gens, r: &[Scalar]) -> Value {
    let ch: Vec<Scalar> = log.iter().filter(|e| e.0 == id).filter_map(|e| if let Event::Challenge(_, b) = &e.1 { let mut w = [0u8; 64]; w.copy_from_slice(b); Some(Scalar::from_bytes_wide(&w)) } else { None }).collect();
    let br = &pe["proof"]["bullet_reduction_proof"];
    let (lv, rv) = (br["L_vec"].as_array().unwrap().clone(), br["R_vec"].as_array().unwrap().clone());
    let (rq, us, c) = (ch[0], &ch[1..1 + lv.len()], ch[1 + lv.len()]);
    let n = 1usize << lv.len();
    // s_i as the verifier derives them, by definition: product of u_k^(+-1)
    let s: Vec<Scalar> = (0..n).map(|i| (0..lv.len()).map(|k| if (i >> (lv.len() - 1 - k)) & 1 == 1 { us[k] } else { inv(&us[k]) }).product()).collect();
    let (_, rr) = EqPolynomial::new(r.to_vec()).compute_factored_evals();
    let ahat: Scalar = (0..n).map(|i| rr[i] * s[i]).sum();
    let gh = GroupElement::vartime_multiscalar_mul(s, g.pc.gens.gens_n.G.clone());
    let q = rq * g.pc.gens.gens_1.G[0];
    let h = g.pc.gens.gens_1.h;
    let sval = |v: &Value| sc(&from_le(&leaf_bytes(v)));
    let (z1, z2) = (sval(&pe["proof"]["z1"]), sval(&pe["proof"]["z2"]));
    let (beta, delta) = (point(&pe["proof"]["beta"]), point(&pe["proof"]["delta"]));
    let rhs = (gh + q * ahat) * z1 + h * z2;
    let need = ((rhs - delta) * inv(&ahat) - beta) * inv(&c);
    let mut acc = need;
    for k in 0..lv.len() {
        acc = acc - point(&lv[k]) * (us[k] * us[k]) - point(&rv[k]) * (inv(&us[k]) * inv(&us[k]));
    }
    let mut pe = pe;
    pe["proof"]["bullet_reduction_proof"]["R_vec"].as_array_mut().unwrap().push(j(&acc.compress()));
    pe
}
fn attack(sys: &Sys, z: Vec<BigUint>, io: &[BigUint], other: &[BigUint], w: Which, ch: Cheat) -> Result<(V, String), String> {
    let r = attempt(|| {
        let mut s = St::new(sys.clone(), w);
        s.inputs = assign(io);
        let nv = sys.padded_vars();
        // z over the padded width
        let mut zz: Vec<Scalar> = z[..sys.nv].iter().map(sc).collect();
        zz.resize(nv, Scalar::zero());
        zz.extend(z[sys.nv..].iter().map(sc));
        zz.resize(2 * nv, Scalar::zero());
        let mut ov: Vec<Scalar> = other.iter().map(sc).collect();
        ov.resize(nv, Scalar::zero());
        let iov: Vec<Scalar> = io.iter().map(sc).collect();
        let g = Gens { pc: PolyCommitmentGens::new(nv.log_2(), b"gens_r1cs_sat"), g3: MultiCommitGens::new(3, b"gens_r1cs_sat"), g4: MultiCommitGens::new(4, b"gens_r1cs_sat") };
        let mut tape = RandomTape::new(b"proof");
        let mut t = Transcript::new(L1);
        let pf = match w {
            Which::N => {
                t.append_protocol_name(b"Spartan NIZK proof");
                let ij = j(&s.inst);
                let dig: Vec<u8> = ij["digest"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                t.append_message(b"R1CSInstanceDigest", &dig);
                let o = sat_prove(&s.inst, sys, &zz, &iov, &g, &mut t, &mut tape, ch, &ov);
                json!({"r1cs_sat_proof": o.sat, "r": [o.rx.iter().map(j).collect::<Vec<_>>(), o.ry.iter().map(j).collect::<Vec<_>>()]})
            }
            Which::S => {
                t.append_protocol_name(b"Spartan SNARK proof");
                let eg = R1CSCommitmentGens::new(b"gens_r1cs_eval", sys.nc.max(2), nv, sys.ni, sys.nnz());
                let (cm, de) = s.inst.inst.commit(&eg);
                cm.append_to_transcript(b"comm", &mut t);
                let o = sat_prove(&s.inst, sys, &zz, &iov, &g, &mut t, &mut tape, ch, &ov);
                o.evals.0.append_to_transcript(b"Ar_claim", &mut t);
                o.evals.1.append_to_transcript(b"Br_claim", &mut t);
                o.evals.2.append_to_transcript(b"Cr_claim", &mut t);
                let ep = if let Cheat::Eval(k, lie) = ch {
                    let m = [0, 1, 2].map(|k| sys.m[k].iter().map(|(r, c, v)| (*r, if *c < sys.nv { *c } else { *c + nv - sys.nv }, sc(v))).collect::<Vec<_>>());
                    evalforge::prove(&m, b"gens_r1cs_eval", sys.nnz(), &o.rx, &o.ry, &[o.evals.0, o.evals.1, o.evals.2], k, lie, &mut t, &mut tape)
                } else {
                    // the crate's own prover for the matrix evaluations; it can only be fed the true ones
                    let truth = s.inst.inst.evaluate(&o.rx, &o.ry);
                    j(&R1CSEvalProof::prove(&de, &o.rx, &o.ry, &truth, &eg, &mut t, &mut tape))
                };
                json!({"r1cs_sat_proof": o.sat, "inst_evals": [j(&o.evals.0), j(&o.evals.1), j(&o.evals.2)], "r1cs_eval_proof": ep})
            }
        };
        let v = verify_json(&s, w, &pf, L1);
        let d = match &v { V::Reject(e) => e.clone(), V::Abort(e) => e.clone(), _ => String::new() };
        (v, d)
    });
    r.map_err(|p| format!("{} at {}", p.msg, p.loc))
}
fn main() {
    let id = std::env::args().nth(1).expect("property");
    let w = if id == "C08" { Which::N } else { Which::S };
    let mut l = Ledger::new(&id);
    l.budget = std::time::Duration::from_secs(if l.thorough { 900 } else { 150 });
    l.run(|l| {
        let deadline = Instant::now() + l.budget;
        l.rule = "one case per proof made by a deviating prover and given to the real verifier".into();
        let p = modp();
        let mut r = Rng::new(l.seed, "forge");
        let mut jobs = vec![];
        let kinds = [Cheat::Inputs, Cheat::Constant, Cheat::InputsEval, Cheat::InputsEvalSurplus, Cheat::Phase1, Cheat::Product, Cheat::ClaimA, Cheat::ClaimB, Cheat::ClaimC, Cheat::ClaimCEval, Cheat::ClaimCPoint, Cheat::ClaimCEvals, Cheat::Round1(0), Cheat::Round1(1), Cheat::Round1(9), Cheat::Round2(0), Cheat::Round2(1), Cheat::Round2(9), Cheat::RoundEval1(0), Cheat::RoundEval1(9), Cheat::RoundEval2(0), Cheat::RoundEval2(9), Cheat::OtherVector, Cheat::Rows(0), Cheat::MoreInputs, Cheat::FewerInputs];
        for sysno in 0..l.n(if w == Which::N { 12 } else { 4 }, 120) as usize {
            let (nc, nv, ni) = (r.range(2, 9), r.range(3, 12), r.range(1, 3));
            // dense enough that every claim is non-trivial
            let mut s = gen_sys(&mut r, nc, nv, ni, 4, Wit::Random);
            // a row that needs input and constant to be what they are
            let z = s.z(&s.vars, &s.inputs);
            let c = mulm(&addm(&z[0], &z[nv + 1], &p), &z[1], &p);
            let row = r.below(nc);
            for m in s.m.iter_mut() {
                m.retain(|e| e.0 != row);
            }
            s.m[0].push((row, 0, BigUint::one()));
            s.m[0].push((row, nv + 1, BigUint::one()));
            s.m[1].push((row, 1, BigUint::one()));
            s.m[2].push((row, nv, c));
            if !s.sat(&s.vars, &s.inputs) {
                l.count("generator_missed");
                continue;
            }
            // honest control, and with every deviation
            jobs.push((s.clone(), z.clone(), s.inputs.clone(), s.vars.clone(), Cheat::None));
            for k in kinds {
                let mut io = s.inputs.clone();
                let mut zz = z.clone();
                match k {
                    Cheat::Inputs | Cheat::InputsEval | Cheat::InputsEvalSurplus => io[0] = addm(&io[0], &BigUint::one(), &p),
                    Cheat::Constant => {
                        // a scaled witness satisfies the same quadratic system when the constant may scale too:
                        // A z . B z scales quadratically, so solve for it on a fresh homogeneous system instead
                    }
                    Cheat::OtherVector => {}
                    _ => {
                        // a violating witness
                        let i = r.below(nv);
                        zz[i] = addm(&zz[i], &BigUint::one(), &p);
                        zz[0] = addm(&zz[0], &BigUint::from(7u32), &p);
                    }
                }
                let mut other = s.vars.clone();
                other[0] = addm(&other[0], &BigUint::one(), &p);
                if let Cheat::Rows(_) = k {
                    // another row is violated
                    let mut t = s.clone();
                    t.m[2].push(((row + 1) % nc, nv, BigUint::one()));
                    jobs.push((t, z.clone(), io, other, Cheat::Rows(row)));
                    continue;
                }
                if k == Cheat::MoreInputs {
                    let room = s.padded_vars() - 1 - ni;
                    if room > 0 {
                        io.resize(ni + r.range(1, room), BigUint::zero());
                        jobs.push((s.clone(), z.clone(), io, other, k));
                    }
                    continue;
                }
                if k == Cheat::FewerInputs {
                    // an instance whose last inputs are not used, and are zero
                    let mut t = s.clone();
                    t.ni += r.range(1, 2);
                    t.inputs.resize(t.ni, BigUint::zero());
                    let z = t.z(&t.vars, &t.inputs);
                    jobs.push((t, z, io, other, k));
                    continue;
                }
                if k == Cheat::Constant {
                    // z0 * z1 = const, satisfied with the constant at c instead of one
                    let mut t = s.clone();
                    t.m = [vec![(row, 0, BigUint::one())], vec![(row, 1, BigUint::one())], vec![(row, nv, BigUint::one())]];
                    let mut zz = z.clone();
                    zz[nv] = mulm(&zz[0], &zz[1], &p);
                    jobs.push((t, zz, io, other, k));
                    continue;
                }
                jobs.push((s.clone(), zz, io, other, k));
            }
            if w == Which::S {
                // the evaluation argument: its own honest control, then every lie with a violating witness
                jobs.push((s.clone(), z.clone(), s.inputs.clone(), s.vars.clone(), Cheat::Eval(0, Lie::None)));
                for (n, lie) in evalforge::lies().into_iter().enumerate() {
                    let i = r.below(nv);
                    let mut zz = z.clone();
                    zz[i] = addm(&zz[i], &BigUint::one(), &p);
                    zz[0] = addm(&zz[0], &BigUint::from(7u32), &p);
                    jobs.push((s.clone(), zz, s.inputs.clone(), s.vars.clone(), Cheat::Eval((n + sysno) % 3, lie)));
                }
            }
        }
        let res = par(jobs.len(), deadline, |i| attack(&jobs[i].0, jobs[i].1.clone(), &jobs[i].2, &jobs[i].3, w, jobs[i].4));
        let mut controls = (0, 0);
        let mut eval_controls = (0, 0);
        for (i, x) in res.iter().enumerate() {
            if jobs[i].4 == Cheat::Eval(0, Lie::None) {
                if let Some(x) = x {
                    eval_controls.0 += 1;
                    if matches!(x, Ok((V::Accept, _))) {
                        eval_controls.1 += 1;
                    } else if eval_controls.0 == 1 {
                        println!("control of the evaluation argument: {:?}", x);
                    }
                }
            }
            if jobs[i].4 == Cheat::None {
                if let Some(x) = x {
                    controls.0 += 1;
                    if matches!(x, Ok((V::Accept, _))) {
                        controls.1 += 1;
                    } else if controls.0 == 1 {
                        println!("control: {:?}", x);
                    }
                }
            }
        }
        l.addc("control_proofs", controls.0);
        l.addc("control_accepted", controls.1);
        if controls.1 == 0 {
            // the protocol moved on; nothing here says anything about it
            println!("void: the copied prover no longer speaks the crate's protocol");
            l.count("void");
        }
        if w == Which::S {
            l.addc("eval_control_proofs", eval_controls.0);
            l.addc("eval_control_accepted", eval_controls.1);
            if eval_controls.1 == 0 {
                println!("void: the lying evaluation prover no longer speaks the crate's protocol");
                l.count("eval_void");
            }
        }
        for (i, x) in res.iter().enumerate() {
            let (s, _, io, _, k) = &jobs[i];
            if matches!(k, Cheat::None | Cheat::Eval(_, Lie::None)) {
                continue;
            }
            let Some(x) = x else { l.count("skipped"); continue };
            let name = match k {
                Cheat::Eval(_, lie) => format!("Eval({:?})", lie),
                k => format!("{:?}", k),
            };
            match x {
                Err(e) => {
                    l.count(&format!("cheat_failed:{}", name));
                    if std::env::var("VERBOSE").is_ok() {
                        println!("{}: {}", name, e);
                    }
                }
                Ok((v, d)) => {
                    l.check(*v != V::Accept, &format!("forged:{}", name), || format!("a deviating prover ({}) was believed: {}; inputs {:?}; system {}", name, s.show(), io, s.key()));
                    l.count(&format!("forged:{}", name));
                    l.count("forged");
                    l.count(&format!("stopped_at:{}:{}", name, d.rsplit('/').next().unwrap_or("")));
                    l.case(&(i, &name), true, || format!("{} on {} -> {} {}", name, s.show(), v.tag(), d));
                }
            }
        }
    })
}
