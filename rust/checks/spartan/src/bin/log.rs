//! C11: the transcript log. Offline checker over the recorded sequence of absorbed messages and drawn
//! challenges of the real prover and the real verifier.
use libspartan::verif_hooks::transcript::ProofTranscript;
use merlin::{tap_start, tap_take, Event, Transcript};
use num_bigint_dig::BigUint;
use num_traits::One;
use serde_json::Value;
use spartanchk::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::Instant;
use vcommon::*;

type Log = Vec<Event>;
/// runs f with the tap on; the log of the transcript the caller made
fn recorded<T>(label: &'static [u8], f: impl FnOnce(&mut Transcript) -> T) -> (T, Log) {
    tap_start();
    let mut t = Transcript::new(label);
    let id = t.tap_id();
    let r = f(&mut t);
    (r, tap_take().into_iter().filter(|x| x.0 == id).map(|x| x.1).collect())
}
fn challenges(l: &Log) -> Vec<&Vec<u8>> {
    l.iter().filter_map(|e| if let Event::Challenge(_, o) = e { Some(o) } else { None }).collect()
}
/// messages with the number of challenges drawn before each
fn absorbed(l: &Log) -> HashMap<&[u8], usize> {
    let mut m: HashMap<&[u8], usize> = HashMap::new();
    let mut n = 0;
    for e in l {
        match e {
            Event::Append(_, b) => {
                m.entry(b).or_insert(n);
            }
            Event::Challenge(..) => n += 1,
            _ => {}
        }
    }
    m
}
fn log2(n: usize) -> usize {
    n.next_power_of_two().trailing_zeros() as usize
}
fn len(v: &Value, p: &str) -> usize {
    v.pointer(p).and_then(|x| x.as_array()).map(|a| a.len()).unwrap_or(0)
}
/// For each place in the proof (as a path prefix), how many challenges the protocol has drawn when its
/// contents must have been absorbed; None: a response that nothing follows.
fn order(v: &Value, s: &Sys, w: Which) -> Vec<(String, Option<usize>)> {
    let mut o: Vec<(String, Option<usize>)> = vec![];
    let (nx, ny) = (log2(s.padded_cons()), log2(2 * s.padded_vars()));
    let mut c = 0;
    let sat = ".r1cs_sat_proof";
    let mut at = |p: String, c: usize| o.push((p, Some(c)));
    at(format!("{sat}.comm_vars"), 0);
    c += nx;
    for (ph, rounds) in [(1, nx), (2, ny)] {
        for j in 0..rounds {
            at(format!("{sat}.sc_proof_phase{ph}.comm_polys[{j}]"), c);
            c += 1;
            at(format!("{sat}.sc_proof_phase{ph}.comm_evals[{j}]"), c);
            c += 2;
            at(format!("{sat}.sc_proof_phase{ph}.proofs[{j}].delta"), c);
            at(format!("{sat}.sc_proof_phase{ph}.proofs[{j}].beta"), c);
            c += 1;
        }
        if ph == 1 {
            at(format!("{sat}.claims_phase2[2]"), c);
            at(format!("{sat}.pok_claims_phase2[0].alpha"), c);
            c += 1;
            at(format!("{sat}.claims_phase2"), c);
            for f in ["alpha", "beta", "delta"] {
                at(format!("{sat}.pok_claims_phase2[1].{f}"), c);
            }
            c += 1;
            at(format!("{sat}.proof_eq_sc_phase1.alpha"), c);
            c += 1 + 3;
        }
    }
    let mut opening = |p: &str, comm: Option<&str>, c: &mut usize, o: &mut Vec<(String, Option<usize>)>| {
        let mut at = |p: String, c: usize| o.push((p, Some(c)));
        if let Some(m) = comm {
            at(m.into(), *c);
        }
        *c += 1;
        let jp = p.replace('.', "/");
        for i in 0..len(v, &format!("{jp}/bullet_reduction_proof/L_vec")) {
            at(format!("{p}.bullet_reduction_proof.L_vec[{i}]"), *c);
            at(format!("{p}.bullet_reduction_proof.R_vec[{i}]"), *c);
            *c += 1;
        }
        at(format!("{p}.delta"), *c);
        at(format!("{p}.beta"), *c);
        *c += 1;
        for z in ["z1", "z2"] {
            o.push((format!("{p}.{z}"), None));
        }
    };
    opening(&format!("{sat}.proof_eval_vars_at_ry.proof"), Some(&format!("{sat}.comm_vars_at_ry")), &mut c, &mut o);
    o.push((format!("{sat}.proof_eq_sc_phase2.alpha"), Some(c)));
    c += 1;
    for ph in [1, 2] {
        o.push((format!("{sat}.proof_eq_sc_phase{ph}.z"), None));
        for j in 0..[nx, ny][ph - 1] {
            for z in ["z", "z_delta", "z_beta"] {
                o.push((format!("{sat}.sc_proof_phase{ph}.proofs[{j}].{z}"), None));
            }
        }
    }
    for z in ["[0].z1", "[0].z2", "[1].z"] {
        o.push((format!("{sat}.pok_claims_phase2{z}"), None));
    }
    o.push((".r".into(), None));
    if w == Which::S {
        o.push((".inst_evals".into(), Some(c)));
        let e = ".r1cs_eval_proof.proof";
        o.push((format!("{e}.comm_derefs"), Some(c)));
        c += 2;
        let n = format!("{e}.poly_eval_network_proof");
        for f in ["eval_row", "eval_col", "eval_val"] {
            o.push((format!("{n}.proof_prod_layer.{f}"), Some(c)));
        }
        for part in ["proof_ops", "proof_mem"] {
            let p = format!("{n}.proof_prod_layer.{part}");
            let jp = p.replace('.', "/");
            let layers = len(v, &format!("{jp}/proof"));
            for i in 0..layers {
                let prods = len(v, &format!("{jp}/proof/{i}/claims_prod_left"));
                let dotp = if i + 1 == layers { len(v, &format!("{jp}/claims_dotp/0")) } else { 0 };
                c += prods + dotp;
                for k in 0..len(v, &format!("{jp}/proof/{i}/proof/compressed_polys")) {
                    o.push((format!("{p}.proof[{i}].proof.compressed_polys[{k}]"), Some(c)));
                    c += 1;
                }
                for f in ["claims_prod_left", "claims_prod_right"] {
                    o.push((format!("{p}.proof[{i}].{f}"), Some(c)));
                }
                if dotp > 0 {
                    o.push((format!("{p}.claims_dotp"), Some(c)));
                }
                c += 1;
            }
        }
        let h = format!("{n}.proof_hash_layer");
        o.push((format!("{h}.eval_derefs"), Some(c)));
        c += 3;
        opening(&format!("{h}.proof_derefs.proof_derefs.proof"), None, &mut c, &mut o);
        for f in ["eval_row[0]", "eval_row[1]", "eval_col[0]", "eval_col[1]", "eval_val"] {
            o.push((format!("{h}.{f}"), Some(c)));
        }
        c += 4;
        opening(&format!("{h}.proof_ops.proof"), None, &mut c, &mut o);
        for f in ["eval_row[2]", "eval_col[2]"] {
            o.push((format!("{h}.{f}"), Some(c)));
        }
        c += 1;
        opening(&format!("{h}.proof_mem.proof"), None, &mut c, &mut o);
    }
    o
}
fn covers(prefix: &str, path: &str) -> bool {
    path.strip_prefix(prefix).map(|r| r.is_empty() || r.starts_with('.') || r.starts_with('[')).unwrap_or(false)
}
#[derive(Default)]
struct Out {
    bad: Vec<(String, String)>,
    cases: Vec<(String, u64)>,
    n: BTreeMap<String, u64>,
    samples: Vec<String>,
    points: Vec<[u8; 32]>,
}
impl Out {
    fn c(&mut self, k: &str, n: u64) {
        *self.n.entry(k.into()).or_default() += n;
    }
    fn check(&mut self, ok: bool, k: &str, d: impl FnOnce() -> String) {
        self.c("comparisons", 1);
        if !ok && self.bad.len() < 20 {
            self.bad.push((k.into(), d()));
        }
    }
}
const LA: &[u8] = b"log";
fn other_leaf(r: &mut Rng, v: &Value, q: &Value, p: &[Step]) -> Option<Value> {
    let now = get(v, p);
    // the leaf of another proof in the same place, else another leaf of the same kind
    if has(q, p) && get(q, p) != now {
        return Some(get(q, p).clone());
    }
    if is_scalar(now) {
        let mut b = leaf_bytes(now);
        b[r.below(8)] ^= 1 << r.below(8);
        return Some(scalar_value(&b));
    }
    let t = tree(v);
    let c: Vec<&Path> = t.leaves.iter().filter(|x| is_point(get(v, x)) && get(v, x) != now && leaf_bytes(get(v, x)).len() == 33).collect();
    if c.is_empty() {
        None
    } else {
        Some(get(v, r.pick(&c)).clone())
    }
}
fn variants(r: &mut Rng, s: &Sys) -> Vec<(String, Sys)> {
    let p = modp();
    let mut o = vec![];
    let one = BigUint::one();
    for k in 0..3 {
        if s.m[k].is_empty() {
            continue;
        }
        let i = r.below(s.m[k].len());
        let mut t = s.clone();
        t.m[k][i].2 = addm(&t.m[k][i].2, &one, &p);
        o.push((format!("coefficient of matrix {k}"), t));
        let mut t = s.clone();
        t.m[k][i].0 = (t.m[k][i].0 + 1) % s.nc;
        if s.nc > 1 {
            o.push((format!("row of matrix {k}"), t));
        }
        let mut t = s.clone();
        t.m[k][i].1 = (t.m[k][i].1 + 1) % (s.nv + 1 + s.ni);
        o.push((format!("column of matrix {k}"), t));
        let mut t = s.clone();
        t.m[k].remove(i);
        o.push((format!("an entry less in matrix {k}"), t));
    }
    let mut t = s.clone();
    t.m.swap(0, 2);
    o.push(("matrices exchanged".into(), t));
    let mut t = s.clone();
    t.nc = s.padded_cons() * 2;
    o.push(("twice the constraints".into(), t));
    o.retain(|x| x.1.key() != s.key() && x.1.m != s.m || x.1.nc != s.nc);
    o
}
fn session(i: usize, seed: u64, w: Which, thorough: bool) -> Out {
    let mut o = Out::default();
    let mut r = Rng::new(seed, &format!("log-{}-{:?}", i, w));
    let big = thorough && i % 8 == 7;
    let (nc, nv, ni) = match i {
        0 => (1, 1, 0),
        1 => (4, 4, 1),
        2 => (3, 5, 2),
        // long lists of inputs and of coefficients
        3 => (2, 3, 70),
        4 if w == Which::N => (2, 300, 270),
        _ => (r.range(1, if big { 40 } else { 10 }), r.range(1, if big { 70 } else { 12 }), r.range(0, 3)),
    };
    let d = r.range(1, 4);
    let wit = *r.pick(&[Wit::Random, Wit::Random, Wit::Small, Wit::Edge]);
    let sys = gen_sys(&mut r, nc, nv, ni, d, wit);
    let st = St::new(sys.clone(), w);
    let (proof, pl) = recorded(LA, |t| prove(&st, w, t));
    let (proof2, pl2) = recorded(LA, |t| prove(&st, w, t));
    let (v, vl) = recorded(LA, |t| verify(&st, w, &proof, t));
    let sh = format!("{:?} {}", w, sys.show());
    if v != V::Accept {
        o.c("not_accepted", 1); // C07's business
        return o;
    }
    // (a) the same conversation on both sides
    let same = pl == vl;
    o.check(same, "prover-verifier-differ", || {
        let i = pl.iter().zip(&vl).position(|(a, b)| a != b).unwrap_or(pl.len().min(vl.len()));
        format!("prover and verifier logs part at event {} of {}/{}: {:?} / {:?}; {}", i, pl.len(), vl.len(), pl.get(i), vl.get(i), sh)
    });
    o.c("events", (pl.len() + vl.len()) as u64);
    o.cases.push((format!("log {sh}"), 1));
    o.samples.push(format!("{} events, {} challenges on {}", vl.len(), challenges(&vl).len(), sh));
    // (b) no challenge repeats, none is drawn twice from the same state, and a fresh proof shares none
    for (l, n) in [(&pl, "prover"), (&vl, "verifier")] {
        let c = challenges(l);
        let set: HashSet<_> = c.iter().collect();
        o.check(set.len() == c.len(), "challenge-repeats", || format!("{n} drew the same challenge twice; {sh}"));
        o.c("challenges", c.len() as u64);
        // a challenge is worth no more than the bits taken for it
        let short = c.iter().find(|x| x.len() < 32);
        o.check(short.is_none(), "challenge-short", || format!("{n} drew a challenge of {} bytes only; {sh}", short.unwrap().len()));
    }
    // the challenges as field elements: those a NIZK carries
    for x in ["0", "1"] {
        for c in proof.json()["r"][x.parse::<usize>().unwrap()].as_array().into_iter().flatten() {
            o.points.push(leaf_bytes(c).try_into().unwrap());
        }
    }
    let c2: HashSet<_> = challenges(&pl2).into_iter().collect();
    o.check(!challenges(&pl).iter().any(|c| c2.contains(*c)), "challenge-shared", || format!("two proofs with fresh commitments share a challenge; {sh}"));
    // (c) what the proof carries is absorbed no later than the protocol needs it
    let json = proof.json();
    let json2 = proof2.json();
    let t = tree(&json);
    let ord = order(&json, &sys, w);
    let nch = challenges(&vl).len();
    let mut placed = vec![];
    for (side, l) in [("verifier", &vl), ("prover", &pl)] {
        let abs = absorbed(l);
        for p in &t.leaves {
            let ps = path_str(p);
            let b = leaf_bytes(get(&json, p));
            let rule = ord.iter().find(|x| covers(&x.0, &ps)).map(|x| x.1);
            match rule {
                Some(None) => o.c("leaves_responses", 1),
                Some(Some(n)) => {
                    let got = abs.get(&b[..]).copied();
                    o.check(got.map(|g| g <= n).unwrap_or(false), &format!("late:{}", path_class(p)), || match got {
                        None => format!("{} never absorbed {}; {}", side, ps, sh),
                        Some(g) => format!("{} absorbed {} after {} challenges, {} at most expected; {}", side, ps, g, n, sh),
                    });
                    o.c("leaves_placed", 1);
                    if side == "verifier" {
                        placed.push((p.clone(), n));
                    }
                }
                None if is_point(get(&json, p)) => {
                    let got = abs.get(&b[..]).copied();
                    o.check(got.map(|g| g < nch).unwrap_or(false), &format!("unabsorbed:{}", path_class(p)), || format!("{side} never absorbed {ps} before its last challenge; {sh}"));
                    o.c("leaves_unplaced_points", 1);
                }
                None => o.c("leaves_unplaced_scalars", 1),
            }
        }
    }
    // (d) the statement is absorbed before the first challenge
    for (side, l) in [("verifier", &vl), ("prover", &pl)] {
        let abs = absorbed(l);
        for (k, x) in sys.inputs.iter().enumerate() {
            o.check(abs.get(&le32(x)[..]) == Some(&0), "input-late", || format!("{side}: public input {k} is not absorbed before the first challenge; {sh}"));
            o.c("statement_values", 1);
        }
    }
    // (e) near-identical statements, checked against the same proof, never share the first challenge
    let mut firsts: HashMap<Vec<u8>, String> = HashMap::new();
    let first = |l: &Log| challenges(l).first().map(|c| c.to_vec());
    if let Some(c) = first(&vl) {
        firsts.insert(c, "the statement itself".into());
    }
    let mut meet = |o: &mut Out, what: String, l: &Log| match first(l) {
        None => o.c("variant_refused_early", 1),
        Some(c) => {
            let old = firsts.insert(c, what.clone());
            o.check(old.is_none(), "statements-share-challenge", || format!("{} and {} share the first challenge; {}", old.unwrap(), what, sh));
            o.c("variants", 1);
            o.cases.push((format!("{what} {sh}"), 2));
        }
    };
    let (_, l) = recorded(b"gol", |t| verify(&st, w, &proof, t));
    meet(&mut o, "transcript label".into(), &l);
    let (_, l) = recorded(LA, |t| {
        t.append_message(b"", b"");
        verify(&st, w, &proof, t)
    });
    meet(&mut o, "an empty message before".into(), &l);
    for k in 0..sys.ni {
        let mut x = sys.inputs.clone();
        x[k] = addm(&x[k], &BigUint::one(), &modp());
        let (_, l) = recorded(LA, |t| verify_with(&st, w, &proof, &assign_inputs(&x), t));
        meet(&mut o, format!("public input {k}"), &l);
        if k + 1 < sys.ni && sys.inputs[k] != sys.inputs[k + 1] {
            let mut x = sys.inputs.clone();
            x.swap(k, k + 1);
            let (_, l) = recorded(LA, |t| verify_with(&st, w, &proof, &assign_inputs(&x), t));
            meet(&mut o, format!("public inputs {k} and {} exchanged", k + 1), &l);
        }
    }
    match w {
        Which::N => {
            for (what, s2) in variants(&mut r, &sys) {
                let st2 = St { inst: s2.instance(), vars: st.vars.clone(), inputs: st.inputs.clone(), ng: None, sg: None, sys: s2 };
                let (_, l) = recorded(LA, |t| nizk_verify(&st2, &st, &proof, t));
                meet(&mut o, what, &l);
            }
        }
        Which::S => {
            let (g, _, _) = st.sg.as_ref().unwrap();
            for (what, s2) in variants(&mut r, &sys) {
                // the commitment of a near-identical instance
                let Ok((c2, _)) = attempt(|| libspartan::SNARK::encode(&s2.instance(), &libspartan::SNARKGens::new(s2.nc, s2.nv, s2.ni, s2.nnz()))) else {
                    o.c("variant_not_encoded", 1);
                    continue;
                };
                let (_, l) = recorded(LA, |t| snark_verify(&c2, &st, g, &proof, t));
                meet(&mut o, what, &l);
            }
        }
    }
    // (f) altering what is absorbed alters every later challenge 
    let base = challenges(&vl);
    let mut chosen = placed.clone();
    r.shuffle(&mut chosen);
    // one of each kind, then more at random
    let mut kinds = HashSet::new();
    let (a, b): (Vec<_>, Vec<_>) = chosen.into_iter().partition(|x| kinds.insert(path_class(&x.0)));
    let lim = if thorough { 160 } else if w == Which::N { 40 } else { 36 };
    for (p, n) in a.into_iter().chain(b).take(lim) {
        let Some(nv) = other_leaf(&mut r, &json, &json2, &p) else { continue };
        let mut m = json.clone();
        *get_mut(&mut m, &p) = nv;
        let Some(q) = Proof::from_json(w, &m) else {
            o.c("alteration_undecodable", 1);
            continue;
        };
        let (_, l) = recorded(LA, |t| verify(&st, w, &q, t));
        let c = challenges(&l);
        let early = c.iter().zip(&base).take(n).all(|(x, y)| x == y);
// being bound earlier than needed, through a value derived from it, is fine
        if !early {
            o.c("bound_earlier_than_needed", 1);
        }
        if c.len() <= n {
            o.c("alteration_stopped_before", 1);
            continue;
        }
        let stuck = c.iter().zip(&base).skip(n).position(|(x, y)| x == y);
        o.check(stuck.is_none(), &format!("unbound:{}", path_class(&p)), || format!("challenge {} is the same whatever {} holds; {}", n + stuck.unwrap(), path_str(&p), sh));
        o.c("alterations_followed", 1);
        o.cases.push((format!("{} {sh}", path_str(&p)), 3));
    }
    o
}
fn assign_inputs(x: &[BigUint]) -> libspartan::Assignment {
    assign(x)
}
fn nizk_verify(stmt: &St, gens: &St, p: &Proof, t: &mut Transcript) -> bool {
    let Proof::N(p) = p else { return false };
    attempt(|| p.verify(&stmt.inst, &stmt.inputs, t, gens.ng.as_ref().unwrap()).is_ok()).unwrap_or(false)
}
fn snark_verify(c: &libspartan::ComputationCommitment, st: &St, g: &libspartan::SNARKGens, p: &Proof, t: &mut Transcript) -> bool {
    let Proof::S(p) = p else { return false };
    attempt(|| p.verify(c, &st.inputs, t, g).is_ok()).unwrap_or(false)
}
fn main() {
    let mut l = Ledger::new("C11");
    l.budget = std::time::Duration::from_secs(if l.thorough { 1500 } else { 300 });
    l.run(|l| {
        l.rule = "one case per recorded conversation, per statement variant that reached its first challenge and per altered message followed to the challenges after it; all on the real prover and verifier".into();
        let deadline = Instant::now() + l.budget;
        let (ns, nn) = (l.n(16, 160), l.n(28, 400));
        let (seed, th) = (l.seed, l.thorough);
        let jobs: Vec<(usize, Which)> = (0..ns).map(|i| (i, Which::S)).chain((0..nn).map(|i| (i, Which::N))).collect();
        let res = par(jobs.len(), deadline, |i| attempt(|| session(jobs[i].0, seed, jobs[i].1, th)));
        let mut spread = Spread::new();
        let mut all = HashSet::new();
        for (i, x) in res.into_iter().enumerate() {
            match x {
                None => l.count("skipped"),
                Some(Err(e)) => {
                    // a prover that aborts is C07's and C09's business
                    println!("note: session {:?} aborted: {:?}", jobs[i], e);
                    l.count("aborted");
                }
                Some(Ok(o)) => {
                    for x in &o.points {
                        spread.add(x);
                        if !all.insert(*x) {
                            l.violation("challenge-repeats", &format!("{} is a coordinate of two random points", hex(x)));
                        }
                    }
                    for (k, d) in o.bad {
                        l.violation(&k, &d);
                    }
                    for (k, n) in o.n {
                        l.addc(&k, n);
                    }
                    let mut s = o.samples.into_iter();
                    for (k, kind) in o.cases {
                        let sh = s.next().unwrap_or(k.clone());
                        l.case(&(k, kind, i), true, || sh);
                    }
                }
            }
        }
        l.addc("challenges_as_elements", spread.n as u64);
        if spread.n >= 60 {
            l.check(spread.stuck() == 0, "challenge-narrow", || format!("{} bits of {} challenges never change", spread.stuck(), spread.n));
        }
        // and as the transcript gives them, one or many at a time
        let mut t = Transcript::new(LA);
        for many in [false, true] {
            let mut spread = Spread::new();
            let mut seen = HashSet::new();
            for k in 0..60u64 {
                t.append_message(b"k", &k.to_le_bytes());
                let c = if many { t.challenge_vector(b"c", 3) } else { vec![t.challenge_scalar(b"c")] };
                for x in c {
                    let b = x.to_bytes();
                    spread.add(&b);
                    l.check(seen.insert(b), "challenge-repeats", || format!("{} drawn twice", hex(&b)));
                }
            }
            l.check(spread.stuck() == 0, "challenge-narrow", || format!("{} bits of {} challenges never change", spread.stuck(), spread.n));
            l.addc("challenges_as_elements", spread.n as u64);
        }
        l.require("events", 500);
        l.require("leaves_placed", 200);
        l.require("alterations_followed", 50);
    })
}
