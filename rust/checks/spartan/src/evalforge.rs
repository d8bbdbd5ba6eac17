//! A prover for the matrix evaluations of the SNARK that can lie: a copy of the crate's own, built from the crate's parts over
//! plain vectors, that claims a false evaluation of one matrix and repairs everything except what one verifier check looks at.
use libspartan::verif_hooks::dense_mlpoly::*;
use libspartan::verif_hooks::math::Math;
use libspartan::verif_hooks::random::RandomTape;
use libspartan::verif_hooks::scalar::Scalar;
use libspartan::verif_hooks::transcript::{AppendToTranscript, ProofTranscript};
use libspartan::verif_hooks::unipoly::UniPoly;
use merlin::Transcript;
use serde_json::{json, Value};

fn j<T: serde::Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap()
}
fn inv(s: &Scalar) -> Scalar {
    s.invert().unwrap()
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Side {
    Row,
    Col,
}
use Side::*;
/// what the prover lies about, and so which check is left to notice
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Lie {
    /// nothing: the true evaluation
    None,
    /// the claim itself: the two halves no longer add up to it
    Sum,
    /// one half: the last sum-check of the product circuits does not end where it should
    Half,
    /// ... repaired in a final claim about the values looked up (row, column) or the coefficients
    FinalLookup(Side),
    FinalCoefficient,
    /// ... in a final claim about the hashed reads or writes
    FinalRead(Side),
    FinalWrite(Side),
    /// ... repaired further, down to an evaluation of a committed polynomial
    OpenCoefficient,
    OpenReadTs(Side),
    OpenAddress(Side),
    OpenLookup(Side),
    /// the looked-up values committed to are not the memory's: the sets of reads and writes differ
    Lookup(Side),
    /// ... hidden by a false product of the initial or final memory, or of the reads or writes
    InitTop(Side),
    AuditTop(Side),
    ReadTop(Side),
    WriteTop(Side),
    /// ... carried down to the last claim of that circuit
    InitHash(Side),
    AuditHash(Side),
    /// ... and to the evaluation of the final timestamps
    OpenAudit(Side),
    /// ... carried down some layers only
    InitLayer(Side, usize),
    AuditLayer(Side, usize),
    ReadLayer(Side, usize),
    WriteLayer(Side, usize),
}
pub fn lies() -> Vec<Lie> {
    let mut v = vec![Lie::Sum, Lie::Half, Lie::FinalCoefficient, Lie::OpenCoefficient];
    for s in [Row, Col] {
        v.extend([
            Lie::FinalLookup(s), Lie::FinalRead(s), Lie::FinalWrite(s), Lie::OpenReadTs(s), Lie::OpenAddress(s), Lie::OpenLookup(s), Lie::Lookup(s),
            Lie::InitTop(s), Lie::AuditTop(s), Lie::ReadTop(s), Lie::WriteTop(s), Lie::InitHash(s), Lie::AuditHash(s), Lie::OpenAudit(s),
        ]);
        for n in 1..3 {
            v.extend([Lie::InitLayer(s, n), Lie::AuditLayer(s, n), Lie::ReadLayer(s, n), Lie::WriteLayer(s, n)]);
        }
    }
    v
}
/// how a wrong claim is carried down the layers of the product circuits
struct Repair {
    /// layers up to this one are repaired
    layers: usize,
    /// circuits whose left claim takes the difference, with weights
    prod: Vec<(usize, Scalar)>,
    /// dot products whose final claim (which of the three, which one) takes it
    dotp: Vec<(usize, usize, Scalar)>,
}
fn none() -> Repair {
    Repair { layers: 0, prod: vec![], dotp: vec![] }
}
struct Run {
    proof: Value,
    rand: Vec<Scalar>,
    /// by how much the final claims of a weight-one entry of the repair are off
    off: Scalar,
}
fn fold(v: &mut Vec<Scalar>, r: &Scalar) {
    let h = v.len() / 2;
    for i in 0..h {
        v[i] = v[i] + *r * (v[h + i] - v[i]);
    }
    v.truncate(h);
}
fn batched(circuits: &[Vec<Scalar>], dotps: &[[Vec<Scalar>; 3]], claims: &[Scalar], dclaims: &[Scalar], rep: &Repair, t: &mut Transcript) -> Run {
    // layer tables: the input at the bottom, one product per pair above
    let layers = circuits[0].len().log_2();
    let mut tabs: Vec<Vec<Vec<Scalar>>> = vec![];
    for c in circuits {
        let mut x = vec![c.clone()];
        for _ in 1..layers {
            let l = x.last().unwrap();
            let h = l.len() / 2;
            x.push((0..h).map(|i| l[i] * l[h + i]).collect());
        }
        tabs.push(x);
    }
    let one = Scalar::one();
    let mut claims = claims.to_vec();
    let (mut proof, mut rand, mut off) = (vec![], Vec::<Scalar>::new(), Scalar::zero());
    let mut fin: [Vec<Scalar>; 3] = [vec![], vec![], vec![]];
    for (step, layer) in (0..layers).rev().enumerate() {
        let last = layer == 0;
        // triples of tables; the first ones share the equality table
        let mut eq = EqPolynomial::new(rand.clone()).evals();
        let mut trip: Vec<(Vec<Scalar>, Vec<Scalar>, Option<Vec<Scalar>>)> = tabs
            .iter()
            .map(|x| {
                let h = x[layer].len() / 2;
                (x[layer][..h].to_vec(), x[layer][h..].to_vec(), None)
            })
            .collect();
        if last {
            trip.extend(dotps.iter().map(|d| (d[0].clone(), d[1].clone(), Some(d[2].clone()))));
            claims.extend_from_slice(dclaims);
        }
        let coeff = t.challenge_vector(b"rand_coeffs_next_layer", claims.len());
        let mut e: Scalar = (0..claims.len()).map(|i| claims[i] * coeff[i]).sum();
        let (mut polys, mut rp) = (vec![], vec![]);
        let mut eqr = one;
        for k in 0..trip[0].0.len().log_2() {
            let h = trip[0].0.len() / 2;
            let mut at = [Scalar::zero(); 4];
            for (n, (a, b, c)) in trip.iter().enumerate() {
                let c = c.as_ref().unwrap_or(&eq);
                for i in 0..h {
                    let (mut x, mut y, mut z) = (a[i], b[i], c[i]);
                    for p in at.iter_mut() {
                        *p = *p + coeff[n] * x * y * z;
                        x = x + (a[h + i] - a[i]);
                        y = y + (b[h + i] - b[i]);
                        z = z + (c[h + i] - c[i]);
                    }
                }
            }
            at[1] = e - at[0];
            let poly = UniPoly::from_evals(&at);
            poly.append_to_transcript(b"poly", t);
            let r = t.challenge_scalar(b"challenge_nextround");
            eqr = eqr * (rand[k] * r + (one - rand[k]) * (one - r));
            for (a, b, c) in trip.iter_mut() {
                fold(a, &r);
                fold(b, &r);
                if let Some(c) = c {
                    fold(c, &r);
                }
            }
            fold(&mut eq, &r);
            e = poly.evaluate(&r);
            polys.push(j(&poly.compress()));
            rp.push(r);
        }
        let np = circuits.len();
        let mut left: Vec<Scalar> = trip.iter().map(|x| x.0[0]).collect();
        let right: Vec<Scalar> = trip.iter().map(|x| x.1[0]).collect();
        let weight: Vec<Scalar> = trip.iter().map(|x| x.2.as_ref().map(|c| c[0]).unwrap_or(eqr)).collect();
        let (mut right, mut weight) = (right, weight);
        let expected: Scalar = (0..claims.len()).map(|i| coeff[i] * left[i] * right[i] * weight[i]).sum();
        let gap = e - expected;
        off = Scalar::zero();
        if gap != Scalar::zero() && step < rep.layers {
            let mut slope: Scalar = rep.prod.iter().map(|(i, m)| coeff[*i] * *m * right[*i] * weight[*i]).sum();
            if last {
                for (w, i, m) in &rep.dotp {
                    let n = np + i;
                    slope = slope + coeff[n] * *m * (if *w == 0 { one } else { left[n] }) * (if *w == 1 { one } else { right[n] }) * (if *w == 2 { one } else { weight[n] });
                }
            }
            let d = gap * inv(&slope);
            for (i, m) in &rep.prod {
                left[*i] = left[*i] + *m * d;
            }
            if last {
                for (w, i, m) in &rep.dotp {
                    let x = match w {
                        0 => &mut left[np + i],
                        1 => &mut right[np + i],
                        _ => &mut weight[np + i],
                    };
                    *x = *x + *m * d;
                }
            }
            off = d;
        }
        for i in 0..np {
            t.append_scalar(b"claim_prod_left", &left[i]);
            t.append_scalar(b"claim_prod_right", &right[i]);
        }
        if last {
            for i in np..claims.len() {
                t.append_scalar(b"claim_dotp_left", &left[i]);
                t.append_scalar(b"claim_dotp_right", &right[i]);
                t.append_scalar(b"claim_dotp_weight", &weight[i]);
            }
            fin = [left[np..].to_vec(), right[np..].to_vec(), weight[np..].to_vec()];
        }
        let r = t.challenge_scalar(b"challenge_r_layer");
        claims = (0..np).map(|i| left[i] + r * (right[i] - left[i])).collect();
        off = off * (one - r);
        rand = std::iter::once(r).chain(rp).collect();
        let js = |v: &[Scalar]| v.iter().map(j).collect::<Vec<_>>();
        proof.push(json!({"proof": {"compressed_polys": polys}, "claims_prod_left": js(&left[..np]), "claims_prod_right": js(&right[..np])}));
    }
    Run { proof: json!({"proof": proof, "claims_dotp": fin.iter().map(|v| v.iter().map(j).collect::<Vec<_>>()).collect::<Vec<_>>()}), rand, off }
}
struct Mem {
    addr: Vec<Vec<usize>>,
    read_ts: Vec<Vec<usize>>,
    audit: Vec<usize>,
}
fn mem(cells: usize, addr: Vec<Vec<usize>>) -> Mem {
    let mut audit = vec![0; cells];
    let read_ts = addr
        .iter()
        .map(|a| {
            a.iter()
                .map(|x| {
                    audit[*x] += 1;
                    audit[*x] - 1
                })
                .collect()
        })
        .collect();
    Mem { addr, read_ts, audit }
}
fn su(x: usize) -> Scalar {
    Scalar::from(x as u64)
}
fn dense(v: &[usize]) -> DensePolynomial {
    DensePolynomial::new(v.iter().map(|x| su(*x)).collect())
}
/// what the several claims are folded to, and the point with the folding challenges in front
fn join(evals: Vec<Scalar>, label: &'static [u8], joint: &'static [u8], at: &[Scalar], t: &mut Transcript) -> (Vec<Scalar>, Scalar) {
    let c = t.challenge_vector(label, evals.len().log_2());
    let e = DensePolynomial::new(evals).evaluate(&c);
    e.append_to_transcript(joint, t);
    (c.into_iter().chain(at.iter().copied()).collect(), e)
}
/// `mats`: the three matrices over the padded columns, entries in the order given to the instance. `k`: the matrix lied about.
#[allow(clippy::too_many_arguments)]
pub fn prove(mats: &[Vec<(usize, usize, Scalar)>; 3], label: &'static [u8], declared_nz: usize, rx: &[Scalar], ry: &[Scalar], claimed: &[Scalar; 3], k: usize, lie: Lie, t: &mut Transcript, tape: &mut RandomTape) -> Value {
    let one = Scalar::one();
    let n = mats.iter().map(|m| m.len()).max().unwrap().max(2).next_power_of_two();
    let dim = rx.len().max(ry.len());
    let cells = 1usize << dim;
    let pg = |nv: usize| PolyCommitmentGens::new(nv, label);
    let nops = declared_nz.max(2).next_power_of_two().log_2();
    let (g_ops, g_mem, g_der) = (pg(nops + 4), pg(dim + 1), pg(nops + 3));
    let col = |f: &dyn Fn(&(usize, usize, Scalar)) -> usize| -> Vec<Vec<usize>> {
        mats.iter().map(|m| m.iter().map(f).chain(std::iter::repeat(0)).take(n).collect()).collect()
    };
    let val: Vec<Vec<Scalar>> = mats.iter().map(|m| m.iter().map(|e| e.2).chain(std::iter::repeat(Scalar::zero())).take(n).collect()).collect();
    let ms = [mem(cells, col(&|e| e.0)), mem(cells, col(&|e| e.1))];
    t.append_protocol_name(b"Sparse polynomial evaluation proof");
    let ext = |r: &[Scalar]| -> Vec<Scalar> { vec![Scalar::zero(); dim - r.len()].into_iter().chain(r.iter().copied()).collect() };
    let pts = [ext(rx), ext(ry)];
    let tables: Vec<Vec<Scalar>> = pts.iter().map(|p| EqPolynomial::new(p.clone()).evals()).collect();
    let mut look: Vec<Vec<Vec<Scalar>>> = (0..2).map(|s| ms[s].addr.iter().map(|a| a.iter().map(|x| tables[s][*x]).collect()).collect()).collect();
    let truth: Vec<Scalar> = (0..3).map(|m| (0..n).map(|i| look[0][m][i] * look[1][m][i] * val[m][i]).sum()).collect();
    let delta = claimed[k] - truth[k];
    use Lie::*;
    let false_lookup = match lie {
        Lookup(s) | InitTop(s) | AuditTop(s) | ReadTop(s) | WriteTop(s) | InitHash(s) | AuditHash(s) | OpenAudit(s) | InitLayer(s, _) | AuditLayer(s, _) | ReadLayer(s, _) | WriteLayer(s, _) => Some(s as usize),
        _ => Option::None,
    };
    if let Some(s) = false_lookup {
        let i = (0..n).find(|i| val[k][*i] * look[1 - s][k][*i] != Scalar::zero()).expect("an entry that counts");
        look[s][k][i] = look[s][k][i] + delta * inv(&(val[k][i] * look[1 - s][k][i]));
    }
    let dp = |v: &Vec<Scalar>| DensePolynomial::new(v.clone());
    let ders: Vec<DensePolynomial> = look[0].iter().chain(look[1].iter()).map(dp).collect();
    let comb_der = DensePolynomial::merge(ders.iter());
    let (comm_der, _) = comb_der.commit(&g_der, Option::None);
    t.append_message(b"derefs_commitment", b"begin_derefs_commitment");
    comm_der.append_to_transcript(b"comm_poly_row_col_ops_val", t);
    t.append_message(b"derefs_commitment", b"end_derefs_commitment");
    let h = t.challenge_vector(b"challenge_r_hash", 2);
    let hash = |a: Scalar, v: Scalar, ts: Scalar| ts * h[0] * h[0] + v * h[0] + a - h[1];
    t.append_protocol_name(b"Sparse polynomial evaluation proof");
    t.append_protocol_name(b"Sparse polynomial product layer proof");
    // circuits: per side init, reads, writes, audit
    let mut init = vec![];
    let mut audit = vec![];
    let (mut read, mut write) = (vec![], vec![]);
    for s in 0..2 {
        init.push((0..cells).map(|i| hash(su(i), tables[s][i], Scalar::zero())).collect::<Vec<_>>());
        audit.push((0..cells).map(|i| hash(su(i), tables[s][i], su(ms[s].audit[i]))).collect::<Vec<_>>());
        for (to, add) in [(&mut read, 0), (&mut write, 1)] {
            to.push((0..3).map(|m| (0..n).map(|i| hash(su(ms[s].addr[m][i]), look[s][m][i], su(ms[s].read_ts[m][i] + add))).collect::<Vec<_>>()).collect::<Vec<_>>());
        }
    }
    let pr = |v: &Vec<Scalar>| -> Scalar { v.iter().product() };
    let mut ev: Vec<(Scalar, Vec<Scalar>, Vec<Scalar>, Scalar)> = (0..2).map(|s| (pr(&init[s]), read[s].iter().map(pr).collect(), write[s].iter().map(pr).collect(), pr(&audit[s]))).collect();
    if let Some(s) = false_lookup {
        let e = &mut ev[s];
        let (w, r): (Scalar, Scalar) = (e.2.iter().product(), e.1.iter().product());
        match lie {
            InitTop(_) | InitHash(_) | InitLayer(..) => e.0 = r * e.3 * inv(&w),
            AuditTop(_) | AuditHash(_) | OpenAudit(_) | AuditLayer(..) => e.3 = e.0 * w * inv(&r),
            ReadTop(_) | ReadLayer(..) => e.1[k] = e.1[k] * e.0 * w * inv(&(r * e.3)),
            WriteTop(_) | WriteLayer(..) => e.2[k] = e.2[k] * r * e.3 * inv(&(e.0 * w)),
            _ => {}
        }
    }
    for (s, l) in [(0, [b"claim_row_eval_init" as &'static [u8], b"claim_row_eval_read", b"claim_row_eval_write", b"claim_row_eval_audit"]), (1, [b"claim_col_eval_init", b"claim_col_eval_read", b"claim_col_eval_write", b"claim_col_eval_audit"])] {
        ev[s].0.append_to_transcript(l[0], t);
        ev[s].1.append_to_transcript(l[1], t);
        ev[s].2.append_to_transcript(l[2], t);
        ev[s].3.append_to_transcript(l[3], t);
    }
    let half = n / 2;
    let mut dotps: Vec<[Vec<Scalar>; 3]> = vec![];
    let (mut dl, mut dr) = (vec![], vec![]);
    for m in 0..3 {
        for (out, at) in [(&mut dl, 0..half), (&mut dr, half..n)] {
            let p = [look[0][m][at.clone()].to_vec(), look[1][m][at.clone()].to_vec(), val[m][at].to_vec()];
            out.push((0..half).map(|i| p[0][i] * p[1][i] * p[2][i]).sum::<Scalar>());
            dotps.push(p);
        }
    }
    if lie != None && lie != Sum && false_lookup.is_none() {
        dl[k] = dl[k] + delta;
    }
    let mut dclaims = vec![];
    for m in 0..3 {
        dl[m].append_to_transcript(b"claim_eval_dotp_left", t);
        dr[m].append_to_transcript(b"claim_eval_dotp_right", t);
        dclaims.extend([dl[m], dr[m]]);
    }
    // reads and writes of both sides, then the memories
    let ops: Vec<Vec<Scalar>> = [&read[0], &write[0], &read[1], &write[1]].into_iter().flatten().cloned().collect();
    let oclaims: Vec<Scalar> = [&ev[0].1, &ev[0].2, &ev[1].1, &ev[1].2].into_iter().flatten().copied().collect();
    let at = |s: Side, w: usize| 6 * s as usize + 3 * w + k;
    let ih = inv(&h[0]);
    let orep = match lie {
        FinalLookup(s) => Repair { layers: usize::MAX, prod: vec![], dotp: vec![(s as usize, 2 * k, one)] },
        FinalCoefficient | OpenCoefficient => Repair { layers: usize::MAX, prod: vec![], dotp: vec![(2, 2 * k, one)] },
        FinalRead(s) => Repair { layers: usize::MAX, prod: vec![(at(s, 0), one)], dotp: vec![] },
        FinalWrite(s) => Repair { layers: usize::MAX, prod: vec![(at(s, 1), one)], dotp: vec![] },
        ReadLayer(s, n) => Repair { layers: n, prod: vec![(at(s, 0), one)], dotp: vec![] },
        WriteLayer(s, n) => Repair { layers: n, prod: vec![(at(s, 1), one)], dotp: vec![] },
        OpenReadTs(s) | OpenAddress(s) => Repair { layers: usize::MAX, prod: vec![(at(s, 0), one), (at(s, 1), one)], dotp: vec![] },
        OpenLookup(s) => Repair { layers: usize::MAX, prod: vec![(at(s, 0), one), (at(s, 1), one)], dotp: vec![(s as usize, 2 * k, ih)] },
        _ => none(),
    };
    let o = batched(&ops, &dotps, &oclaims, &dclaims, &orep, t);
    let mems = [init[0].clone(), audit[0].clone(), init[1].clone(), audit[1].clone()];
    let mrep = match lie {
        InitHash(s) => Repair { layers: usize::MAX, prod: vec![(2 * s as usize, one)], dotp: vec![] },
        InitLayer(s, n) => Repair { layers: n, prod: vec![(2 * s as usize, one)], dotp: vec![] },
        AuditLayer(s, n) => Repair { layers: n, prod: vec![(2 * s as usize + 1, one)], dotp: vec![] },
        AuditHash(s) | OpenAudit(s) => Repair { layers: usize::MAX, prod: vec![(2 * s as usize + 1, one)], dotp: vec![] },
        _ => none(),
    };
    let m = batched(&mems, &[], &[ev[0].0, ev[0].3, ev[1].0, ev[1].3], &[], &mrep, t);
    let (rm, ro) = (&m.rand, &o.rand);
    // the openings
    t.append_protocol_name(b"Sparse polynomial hash layer proof");
    let mut ed: Vec<Vec<Scalar>> = (0..2).map(|s| ders[3 * s..3 * s + 3].iter().map(|d| d.evaluate(ro)).collect()).collect();
    if let OpenLookup(s) = lie {
        ed[s as usize][k] = ed[s as usize][k] + o.off * ih;
    }
    let js = |v: &[Scalar]| v.iter().map(j).collect::<Vec<_>>();
    let mut open = |poly: &DensePolynomial, r: &[Scalar], e: &Scalar, g: &PolyCommitmentGens, t: &mut Transcript| j(&PolyEvalProof::prove(poly, Option::None, r, e, Option::None, g, t, tape).0);
    t.append_protocol_name(b"Derefs evaluation proof");
    let mut evals: Vec<Scalar> = ed[0].iter().chain(ed[1].iter()).copied().collect();
    evals.resize(evals.len().next_power_of_two(), Scalar::zero());
    evals.append_to_transcript(b"evals_ops_val", t);
    let (r, e) = join(evals, b"challenge_combine_n_to_one", b"joint_claim_eval", ro, t);
    let p_der = open(&comb_der, &r, &e, &g_der, t);
    let pa: Vec<Vec<DensePolynomial>> = (0..2).map(|s| ms[s].addr.iter().map(|v| dense(v)).collect()).collect();
    let pt: Vec<Vec<DensePolynomial>> = (0..2).map(|s| ms[s].read_ts.iter().map(|v| dense(v)).collect()).collect();
    let pv: Vec<DensePolynomial> = val.iter().map(dp).collect();
    let evs = |p: &[DensePolynomial]| p.iter().map(|x| x.evaluate(ro)).collect::<Vec<Scalar>>();
    let (mut ea, mut et, mut vv) = ([evs(&pa[0]), evs(&pa[1])], [evs(&pt[0]), evs(&pt[1])], evs(&pv));
    match lie {
        OpenReadTs(s) => et[s as usize][k] = et[s as usize][k] + o.off * ih * ih,
        OpenAddress(s) => ea[s as usize][k] = ea[s as usize][k] + o.off,
        OpenCoefficient => vv[k] = vv[k] + o.off,
        _ => {}
    }
    let mut evals: Vec<Scalar> = [&ea[0], &et[0], &ea[1], &et[1], &vv].into_iter().flatten().copied().collect();
    evals.resize(evals.len().next_power_of_two(), Scalar::zero());
    evals.append_to_transcript(b"claim_evals_ops", t);
    let (r, e) = join(evals, b"challenge_combine_n_to_one", b"joint_claim_eval_ops", ro, t);
    let comb_ops = DensePolynomial::merge(pa[0].iter().chain(pt[0].iter()).chain(pa[1].iter()).chain(pt[1].iter()).chain(pv.iter()));
    let p_ops = open(&comb_ops, &r, &e, &g_ops, t);
    let au = [dense(&ms[0].audit), dense(&ms[1].audit)];
    let mut eu: Vec<Scalar> = au.iter().map(|p| p.evaluate(rm)).collect();
    if let OpenAudit(s) = lie {
        eu[s as usize] = eu[s as usize] + m.off * ih * ih;
    }
    eu.append_to_transcript(b"claim_evals_mem", t);
    let (r, e) = join(eu.clone(), b"challenge_combine_two_to_one", b"joint_claim_eval_mem", rm, t);
    let p_mem = open(&DensePolynomial::merge(au.iter()), &r, &e, &g_mem, t);
    let side = |s: usize| json!([j(&ev[s].0), js(&ev[s].1), js(&ev[s].2), j(&ev[s].3)]);
    let hs = |s: usize| json!([js(&ea[s]), js(&et[s]), j(&eu[s])]);
    json!({"proof": {
        "comm_derefs": {"comm_ops_val": j(&comm_der)},
        "poly_eval_network_proof": {
            "proof_prod_layer": {"eval_row": side(0), "eval_col": side(1), "eval_val": [js(&dl), js(&dr)], "proof_mem": m.proof, "proof_ops": o.proof},
            "proof_hash_layer": {"eval_row": hs(0), "eval_col": hs(1), "eval_val": js(&vv), "eval_derefs": [js(&ed[0]), js(&ed[1])],
                "proof_ops": p_ops, "proof_mem": p_mem, "proof_derefs": {"proof_derefs": p_der}}}}})
}
