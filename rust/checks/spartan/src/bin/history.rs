//! C31: what the proof system answers is a function of what it is given. Sessions hold families of look-alike
//! statements (same dimensions, one coefficient, column, row order, input, label apart) of several sizes; random
//! histories of proving, checking, refusing, aborting, encoding, decoding run over them, first by one thread and
//! then by eight sharing every object. A monitor with the exact model of the statements judges each answer.
//! C32: the form of a proof is fixed by the dimensions of the statement.
use libspartan::verif_hooks::commitments::*;
use libspartan::verif_hooks::dense_mlpoly::*;
use libspartan::verif_hooks::group::*;
use libspartan::verif_hooks::scalar::Scalar;
use libspartan::verif_hooks::transcript::ProofTranscript;
use libspartan::verif_hooks::unipoly::UniPoly;
use merlin::Transcript;
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use spartanchk::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, RwLock};
use std::time::Duration;
use vcommon::*;

/// every row of C ends with an entry on the constant column, which is what makes the row hold
fn fixed(r: &mut Rng, nc: usize, nv: usize, ni: usize) -> Sys {
    let vars = (0..nv).map(|_| scalar_like(r, Wit::Random)).collect();
    let inputs = (0..ni).map(|_| scalar_like(r, Wit::Random)).collect();
    let mut s = Sys { nc, nv, ni, m: [vec![], vec![], vec![]], vars, inputs };
    // the last variable and the last input occur nowhere, so that other values there keep the statement true
    let mut cols: Vec<usize> = (0..nv - 1).collect();
    cols.extend(nv..nv + ni);
    for row in 0..nc {
        for k in 0..3 {
            for _ in 0..2 {
                let c = loop {
                    let c = *r.pick(&cols);
                    if !(k == 2 && c == nv) {
                        break c;
                    }
                };
                let w = if r.chance(1, 3) { Wit::Small } else { Wit::Random };
                s.m[k].push((row, c, scalar_like(r, w)));
            }
        }
        s.m[2].push((row, nv, BigUint::zero()));
    }
    repair(&mut s);
    s
}
fn repair(s: &mut Sys) {
    let p = modp();
    let z = s.z(&s.vars, &s.inputs);
    let nv = s.nv;
    let (a, b) = (s.row_values(0, &z), s.row_values(1, &z));
    for e in s.m[2].iter_mut().filter(|e| e.1 == nv) {
        e.2 = BigUint::zero();
    }
    let c = s.row_values(2, &z);
    for e in s.m[2].iter_mut().filter(|e| e.1 == nv) {
        e.2 = subm(&mulm(&a[e.0], &b[e.0], &p), &c[e.0], &p);
    }
}
/// the matrices as functions (entries on one place added up), by which statements are told apart
fn canon(s: &Sys) -> String {
    let p = modp();
    let mut o = String::new();
    for k in 0..3 {
        let mut m: BTreeMap<(usize, usize), BigUint> = BTreeMap::new();
        for (r, c, v) in &s.m[k] {
            let e = m.entry((*r, *c)).or_insert_with(BigUint::zero);
            *e = (&*e + v) % &p;
        }
        for ((r, c), v) in m {
            if !v.is_zero() {
                o.push_str(&format!("{},{},{:x};", r, c, v));
            }
        }
        o.push('|');
    }
    format!("{}/{}/{} {} {:?}", s.nc, s.nv, s.ni, o, s.inputs.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>())
}
fn alike(r: &mut Rng, base: &Sys, n: usize) -> Vec<(Sys, &'static str)> {
    let p = modp();
    let mut o = vec![(base.clone(), "base")];
    for i in 0..n {
        let mut s = base.clone();
        let what = match i % 7 {
            0 => {
                let k = r.below(2);
                let e = r.below(s.m[k].len());
                s.m[k][e].2 = (&s.m[k][e].2 + BigUint::one()) % &p;
                repair(&mut s);
                "one coefficient larger by one"
            }
            1 => {
                let k = r.below(2);
                let e = r.below(s.m[k].len());
                let c = s.m[k][e].1;
                s.m[k][e].1 = if c == s.nv { s.nv + s.ni } else { s.nv };
                repair(&mut s);
                "one entry in another column"
            }
            2 => {
                if s.nc >= 2 {
                    let a = r.below(s.nc);
                    let b = (a + 1) % s.nc;
                    for m in s.m.iter_mut() {
                        for e in m.iter_mut() {
                            e.0 = if e.0 == a { b } else if e.0 == b { a } else { e.0 };
                        }
                    }
                }
                "two rows exchanged"
            }
            3 => {
                s.vars[s.nv - 1] = scalar_like(r, Wit::Random);
                "another witness of the same statement"
            }
            4 => {
                if s.ni > 0 {
                    let l = s.ni - 1;
                    if s.m.iter().all(|m| m.iter().all(|e| e.1 != s.nv + s.ni)) {
                        s.inputs[l] = (&s.inputs[l] + BigUint::one()) % &p;
                    } else {
                        s.inputs[l] = (&s.inputs[l] + BigUint::one()) % &p;
                        repair(&mut s);
                    }
                }
                "one input larger by one"
            }
            5 => {
                let (a, b) = (s.m[0].clone(), s.m[1].clone());
                s.m[0] = b;
                s.m[1] = a;
                "A and B exchanged"
            }
            _ => {
                s.vars.rotate_left(1);
                repair(&mut s);
                "the same left sides, other variables"
            }
        };
        o.push((s, what));
    }
    o
}
const LABELS: [&[u8]; 4] = [b"session", b"sessioo", b"session ", b"s"];
struct Stmt {
    st: RwLock<Arc<St>>,
    sys: Sys,
    which: Which,
    what: &'static str,
    canon: String,
    bytes: Vec<u8>,
    shape: usize,
}
struct Kept {
    of: usize,
    label: usize,
    proof: Arc<Proof>,
}
struct World {
    all: Vec<Stmt>,
    kept: Mutex<Vec<Kept>>,
}
#[derive(Default)]
struct Seen {
    counts: BTreeMap<String, u64>,
    cases: Vec<(String, bool)>,
    bad: Vec<(String, String)>,
}
impl Seen {
    fn c(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_insert(0) += 1;
    }
    fn fail(&mut self, k: &str, d: String) {
        self.bad.push((k.into(), d));
    }
}
fn world(r: &mut Rng, shapes: &[(usize, usize, usize)], per: usize) -> World {
    let mut all = vec![];
    for (shape, &(nc, nv, ni)) in shapes.iter().enumerate() {
        let base = fixed(r, nc, nv, ni);
        for (sys, what) in alike(r, &base, per) {
            assert!(sys.sat(&sys.vars, &sys.inputs), "harness: {}", what);
            for which in [Which::N, Which::S] {
                let st = St::new(sys.clone(), which);
                all.push(Stmt { bytes: bincode::serialize(&st.inst).unwrap(), st: RwLock::new(Arc::new(st)), canon: canon(&sys), sys: sys.clone(), which, what, shape });
            }
        }
    }
    World { all, kept: Mutex::new(vec![]) }
}
/// one history of `n` operations
fn walk(w: &World, r: &mut Rng, n: usize, stop: std::time::Instant, mode: &str) -> Seen {
    let mut o = Seen::default();
    let mut trail: Vec<String> = vec![];
    for _ in 0..n {
        if std::time::Instant::now() > stop {
            break;
        }
        if r.chance(1, 4) {
            std::thread::yield_now();
        }
        let j = r.below(w.all.len());
        let s = &w.all[j];
        let st = s.st.read().unwrap().clone();
        let who = format!("#{} {:?} {} ({})", j, s.which, s.sys.show(), s.what);
        let op = r.below(20);
        let tail = |t: &Vec<String>| t[t.len().saturating_sub(12)..].join(" ; ");
        match op {
            0..=4 => {
                let label = if r.chance(1, 2) { 0 } else { r.below(LABELS.len()) };
                trail.push(format!("prove {} label {}", j, label));
                match attempt(|| prove(&st, s.which, &mut Transcript::new(LABELS[label]))) {
                    Err(p) => o.fail("prove-aborts", format!("proving {} aborted: {} at {} after {}", who, p.msg, p.loc, tail(&trail))),
                    Ok(p) => {
                        o.c("proofs");
                        let mut k = w.kept.lock().unwrap();
                        let item = Kept { of: j, label, proof: Arc::new(p) };
                        if k.len() < 60 {
                            k.push(item);
                        } else {
                            let at = r.below(60);
                            k[at] = item;
                        }
                    }
                }
            }
            5..=13 => {
                let (of, label, proof) = {
                    let k = w.kept.lock().unwrap();
                    // mostly proofs of the same kind and size: the ones that could be confused
                    let near: Vec<usize> = (0..k.len()).filter(|i| w.all[k[*i].of].which == s.which && (w.all[k[*i].of].shape == s.shape || r.chance(1, 10))).collect();
                    if near.is_empty() {
                        continue;
                    }
                    let own: Vec<usize> = near.iter().copied().filter(|i| w.all[k[*i].of].canon == s.canon).collect();
                    let x = &k[if !own.is_empty() && r.chance(1, 2) { *r.pick(&own) } else { *r.pick(&near) }];
                    (x.of, x.label, x.proof.clone())
                };
                let with = if r.chance(2, 3) { label } else { r.below(LABELS.len()) };
                let proof = if r.chance(1, 4) {
                    match Proof::from_bytes(s.which, &proof.bytes()) {
                        Some(p) => Arc::new(p),
                        None => {
                            o.fail("unreadable", format!("a proof of {} could not be read back after {}", who, tail(&trail)));
                            continue;
                        }
                    }
                } else {
                    proof
                };
                let want = w.all[of].canon == s.canon && with == label;
                trail.push(format!("verify proof-of {} on {} label {}/{}", of, j, label, with));
                let got = verify(&st, s.which, &proof, &mut Transcript::new(LABELS[with]));
                o.c(&format!("{}-{}", if want { "own" } else { "foreign" }, got.tag()));
                o.cases.push((format!("proof of {} #{} {:?} {} ({}) asked of {} ({}), labels {}/{}, {} [{:x}/{:x}]", mode, of, s.which, w.all[of].sys.show(), w.all[of].what, j, s.what, label, with, got.tag(), hash(&w.all[of].canon), hash(&s.canon)), true));
                if want != (got == V::Accept) {
                    o.fail(if want { "own-proof-refused" } else { "foreign-proof-accepted" }, format!("[{}] proof of #{} ({}) under label {:?} {} on {} under label {:?}: {:?}; history: {}", mode, of, w.all[of].what, LABELS[label], got.tag(), who, LABELS[with], got, tail(&trail)));
                }
            }
            14 => {
                // other values, the model says whether they satisfy the same matrices
                let near: Vec<usize> = (0..w.all.len()).filter(|i| w.all[*i].shape == s.shape).collect();
                for _ in 0..4 {
                let o_ = *r.pick(&near);
                let other = &w.all[o_].sys;
                let (v, i) = (assign(&other.vars), assign(&other.inputs));
                let want = s.sys.sat(&other.vars, &other.inputs);
                trail.push(format!("is_sat {} with values of {}", j, o_));
                match attempt(|| st.inst.is_sat(&v, &i)) {
                    Ok(Ok(g)) => {
                        o.c(if want { "satisfied" } else { "not-satisfied" });
                        if g != want {
                            o.fail("is-sat", format!("[{}] is_sat of {} with the values of #{} says {} but it is {}; history: {}", mode, who, o_, g, want, tail(&trail)));
                        }
                    }
                    x => o.fail("is-sat", format!("is_sat of {} failed: {:?}", who, x.map_err(|p| p.msg))),
                }
                }
            }
            15 => {
                // the same statement made again gives the same bytes, and its objects serve from now on
                trail.push(format!("again {}", j));
                match attempt(|| St::new(s.sys.clone(), s.which)) {
                    Ok(n) => {
                        o.c("made-again");
                        let b = bincode::serialize(&n.inst).unwrap();
                        if b != s.bytes {
                            o.fail("instance-bytes", format!("[{}] {} made again has other bytes; history: {}", mode, who, tail(&trail)));
                        }
                        *s.st.write().unwrap() = Arc::new(n);
                    }
                    Err(p) => o.fail("again-aborts", format!("{} made again aborted: {} at {}", who, p.msg, p.loc)),
                }
            }
            16 => {
                trail.push(format!("reload {}", j));
                let back: Result<libspartan::Instance, _> = bincode::deserialize(&s.bytes);
                match back {
                    Ok(i) if bincode::serialize(&i).unwrap() == s.bytes => {
                        o.c("reloaded");
                        let mut n = St { sys: s.sys.clone(), vars: assign(&s.sys.vars), inputs: assign(&s.sys.inputs), ng: None, sg: None, inst: i };
                        match s.which {
                            Which::N => n.ng = Some(libspartan::NIZKGens::new(s.sys.nc, s.sys.nv, s.sys.ni)),
                            Which::S => {
                                let g = libspartan::SNARKGens::new(s.sys.nc, s.sys.nv, s.sys.ni, s.sys.nnz());
                                let (c, d) = libspartan::SNARK::encode(&n.inst, &g);
                                n.sg = Some((g, c, d));
                            }
                        }
                        *s.st.write().unwrap() = Arc::new(n);
                    }
                    _ => o.fail("instance-bytes", format!("[{}] {} read back from its bytes is another; history: {}", mode, who, tail(&trail))),
                }
            }
            _ => {
                // a spoilt proof, which is refused or aborts, and then the good one
                let x = {
                    let k = w.kept.lock().unwrap();
                    let own: Vec<usize> = (0..k.len()).filter(|i| w.all[k[*i].of].canon == s.canon && w.all[k[*i].of].which == s.which).collect();
                    if own.is_empty() {
                        continue;
                    }
                    let x = &k[*r.pick(&own)];
                    (x.label, x.proof.clone())
                };
                let mut v = x.1.json();
                let leaves = tree(&v).leaves;
                let path = r.pick(&leaves).clone();
                let leaf = get(&v, &path).clone();
                let spoilt = if is_scalar(&leaf) {
                    let b = from_le(&leaf_bytes(&leaf));
                    scalar_value(&le32(&((b + BigUint::one()) % modp())))
                } else {
                    // another point of the same proof
                    let pts: Vec<_> = leaves.iter().filter(|q| is_point(get(&v, q)) && get(&v, q) != &leaf).collect();
                    if pts.is_empty() {
                        continue;
                    }
                    get(&v, r.pick(&pts)).clone()
                };
                *get_mut(&mut v, &path) = spoilt;
                trail.push(format!("spoilt {} at {}", j, path_class(&path)));
                let got = verify_json(&st, s.which, &v, LABELS[x.0]);
                o.c(&format!("spoilt-{}", got.tag()));
                if got == V::Accept {
                    o.fail("spoilt-accepted", format!("[{}] proof of {} altered at {} accepted; history: {}", mode, who, path_str(&path), tail(&trail)));
                }
                let got = verify(&st, s.which, &x.1, &mut Transcript::new(LABELS[x.0]));
                o.c("good-after-spoilt");
                if got != V::Accept {
                    o.fail("own-proof-refused", format!("[{}] the good proof of {} after a spoilt one: {:?}; history: {}", mode, who, got, tail(&trail)));
                }
            }
        }
        if o.bad.len() > 3 {
            break;
        }
    }
    o
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn take(l: &mut Ledger, o: Seen) {
    for (k, n) in o.counts {
        l.addc(&k, n);
    }
    for (k, nt) in o.cases {
        l.case(&k, nt, || k.chars().take(200).collect());
    }
    for (k, d) in o.bad {
        l.violation(&k, &d);
    }
}
fn c31(l: &mut Ledger) {
    l.rule = "every answer (accept, refuse, satisfied, bytes) equals that of the exact model of the statement asked about, whatever came before and whatever runs beside it".into();
    let share = l.budget.mul_f64(0.95);
    let sessions = l.n(3, 24);
    let shapes_all = [(3usize, 4usize, 2usize), (8, 8, 3), (5, 6, 2), (16, 16, 5), (7, 13, 1), (33, 20, 4), (8, 8, 7)];
    for sess in 0..sessions {
        if l.start.elapsed() > share {
            break;
        }
        let mut r = Rng::new(l.seed, &format!("history-{}", sess));
        let mut sh = shapes_all.to_vec();
        r.shuffle(&mut sh);
        let shapes: Vec<_> = sh.into_iter().take(3).collect();
        let w = match attempt(|| world(&mut r, &shapes, 7)) {
            Ok(w) => w,
            Err(p) => {
                l.violation("setup-aborts", &format!("making the statements aborted: {} at {}", p.msg, p.loc));
                continue;
            }
        };
        l.addc("statements", w.all.len() as u64);
        let stop = l.start + share;
        // alone
        let n = l.n(90, 400);
        let o = walk(&w, &mut r, n, stop, "one thread");
        l.count("histories-alone");
        take(l, o);
        // eight threads over the same objects
        let seeds: Vec<u64> = (0..8).map(|_| r.u64()).collect();
        let n = l.n(80, 250);
        let w = &w;
        let outs: Vec<Seen> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || walk(w, &mut Rng::new(*s, "thread"), n, stop, "eight threads")).unwrap())
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for o in outs {
            l.count("histories-beside-others");
            take(l, o);
        }
    }
    pieces(l);
    runs(l, share);
    bursts(l, share);
    for (c, m) in [("proofs", 200), ("own-accepted", 120), ("foreign-rejected", 150), ("satisfied", 20), ("not-satisfied", 40), ("made-again", 30), ("reloaded", 30), ("spoilt-rejected", 20), ("good-after-spoilt", 20), ("histories-beside-others", 8)] {
        l.require(c, m);
    }
}
/// many refusals in a row and then the good proof; many acceptances in a row and then the foreign one; nothing else goes on
fn runs(l: &mut Ledger, share: Duration) {
    let stop = (l.start + share).min(std::time::Instant::now() + Duration::from_secs(l.n(45, 300) as u64));
    let mut r = Rng::new(l.seed, "runs");
    // lengths of the rows: all the short ones, and a long one
    let cases: Vec<(Which, usize, usize)> = vec![(Which::N, l.n(66, 150), l.n(300, 3000)), (Which::S, l.n(9, 40), l.n(70, 600))];
    for (which, short, long) in cases {
        let base = fixed(&mut r, 3, 4, 1);
        let fam = alike(&mut r, &base, 1);
        let (a, b) = (St::new(fam[0].0.clone(), which), St::new(fam[1].0.clone(), which));
        let p = prove(&a, which, &mut Transcript::new(b"runs"));
        let ask = |s: &St| verify(s, which, &p, &mut Transcript::new(b"runs"));
        let mut o = Seen::default();
        'all: for want in [true, false] {
            // a row of what is not wanted, then the wanted verdict on the other
            let (many, last) = if want { (&b, &a) } else { (&a, &b) };
            let lens: Vec<usize> = if want { (1..=short).chain([long]).collect() } else { vec![short, long] };
            for n in lens {
                for k in 0..n {
                    if std::time::Instant::now() > stop {
                        break 'all;
                    }
                    let g = ask(many);
                    o.c(if want { "refusals-in-a-row" } else { "acceptances-in-a-row" });
                    if (g == V::Accept) == want {
                        o.fail(if want { "foreign-proof-accepted" } else { "own-proof-refused" }, format!("{:?} {}: number {} of a row of the same: {:?}", which, a.sys.show(), k + 1, g));
                        break 'all;
                    }
                }
                let g = ask(last);
                if (g == V::Accept) != want {
                    o.fail(if want { "own-proof-refused" } else { "foreign-proof-accepted" }, format!("{:?} {}: after {} of the other kind: {:?}", which, a.sys.show(), n, g));
                    break 'all;
                }
                o.c("turns-after-a-row");
            }
        }
        take(l, o);
    }
    l.require("turns-after-a-row", 4);
}
type Piece = (String, Box<dyn Fn() -> String + Sync + Send>);
fn scalars(r: &mut Rng, n: usize) -> Vec<Scalar> {
    (0..n)
        .map(|_| {
            let w = if r.chance(1, 4) { Wit::Small } else { Wit::Random };
            Scalar::from_bytes(&le32(&scalar_like(r, w))).unwrap()
        })
        .collect()
}
/// the building blocks that have one right answer, small and large, in look-alike pairs
fn blocks(r: &mut Rng) -> Vec<Piece> {
    let mut o: Vec<Piece> = vec![];
    for ell in [1usize, 3, 6, 8, 10] {
        for _ in 0..2 {
            let v = scalars(r, ell);
            let v2 = v.clone();
            o.push((format!("basis table of {} variables", ell), Box::new(move || format!("{:?}", EqPolynomial::new(v.clone()).evals()))));
            o.push((format!("factored basis tables of {} variables", ell), Box::new(move || format!("{:?}", EqPolynomial::new(v2.clone()).compute_factored_evals()))));
        }
    }
    for ell in [2usize, 5, 9] {
        for _ in 0..2 {
            let (z, at) = (scalars(r, 1 << ell), scalars(r, ell));
            let z2 = z.clone();
            o.push((format!("multilinear value, {} variables", ell), Box::new(move || format!("{:?}", DensePolynomial::new(z.clone()).evaluate(&at)))));
            if ell < 9 {
                o.push((
                    format!("polynomial commitment, {} variables", ell),
                    Box::new(move || {
                        let g = PolyCommitmentGens::new(ell, b"pieces");
                        serde_json::to_string(&DensePolynomial::new(z2.clone()).commit(&g, None).0).unwrap()
                    }),
                ));
            }
        }
    }
    for (n, label) in [(1usize, &b"gens"[..]), (8, b"gens"), (9, b"gens"), (33, b"gens"), (8, b"genz"), (8, b"gen")] {
        o.push((
            format!("{} generators for {:?}", n, label),
            Box::new(move || {
                let g = MultiCommitGens::new(n, label);
                format!("{:?}{:?}", g.G.iter().map(|x| x.compress()).collect::<Vec<_>>(), g.h.compress())
            }),
        ));
    }
    for n in [1usize, 7, 40] {
        for _ in 0..2 {
            let s = scalars(r, n);
            let g = MultiCommitGens::new(n, b"points").G;
            o.push((format!("multi-scalar product of {}", n), Box::new(move || format!("{:?}", GroupElement::vartime_multiscalar_mul(s.clone(), g.clone()).compress()))));
        }
    }
    for n in [1usize, 5, 64] {
        let v: Vec<Scalar> = scalars(r, n).into_iter().filter(|x| *x != Scalar::zero()).collect();
        o.push((
            format!("batch inversion of {}", n),
            Box::new(move || {
                let mut v = v.clone();
                let p = Scalar::batch_invert(&mut v);
                format!("{:?}{:?}", p, v)
            }),
        ));
    }
    for n in [3usize, 4] {
        for _ in 0..2 {
            let (e, at) = (scalars(r, n), scalars(r, 1)[0]);
            o.push((
                format!("round polynomial of degree {}", n - 1),
                Box::new(move || {
                    let p = UniPoly::from_evals(&e);
                    let hint = p.eval_at_zero() + p.eval_at_one();
                    format!("{:?}{:?}{:?}", p.as_vec(), p.evaluate(&at), p.compress().decompress(&hint).as_vec())
                }),
            ));
        }
    }
    for msg in [&b"a message"[..], b"a messagf", b""] {
        o.push((
            format!("challenges after {:?}", msg),
            Box::new(move || {
                let mut t = Transcript::new(b"pieces");
                t.append_protocol_name(msg);
                let a = t.challenge_scalar(b"one");
                format!("{:?}{:?}", a, t.challenge_vector(b"more", 3))
            }),
        ));
    }
    for (nc, nv, ni) in [(8usize, 8usize, 3usize), (40, 33, 2)] {
        let base = fixed(r, nc, nv, ni);
        for (s, _) in alike(r, &base, 4) {
            let t = s.clone();
            let i = s.instance();
            o.push((format!("instance of {}", s.show()), Box::new(move || format!("{:?}", bincode::serialize(&s.instance()).unwrap()))));
            o.push((
                format!("satisfaction of {}", t.show()),
                Box::new(move || {
                    let (a, b) = t.assignments();
                    let mut v = t.vars.clone();
                    v[0] = (&v[0] + BigUint::one()) % modp();
                    format!("{:?} {:?} {}", i.is_sat(&a, &b).unwrap(), i.is_sat(&assign(&v), &b).unwrap(), t.sat(&v, &t.inputs))
                }),
            ));
        }
    }
    o
}
/// every building block gives the answer it gave alone, on eight threads at once in random orders
fn pieces(l: &mut Ledger) {
    let mut r = Rng::new(l.seed, "pieces");
    let bs = match attempt(|| blocks(&mut r)) {
        Ok(b) => b,
        Err(p) => {
            l.violation("setup-aborts", &format!("making the building blocks aborted: {} at {}", p.msg, p.loc));
            return;
        }
    };
    let say = |b: &Piece| attempt(|| (b.1)()).unwrap_or_else(|p| format!("aborted: {} at {}", p.msg, p.loc));
    let alone: Vec<String> = bs.iter().map(say).collect();
    // the other way round, so that each comes after what followed it before
    for i in (0..bs.len()).rev() {
        let g = say(&bs[i]);
        l.count("pieces-alone");
        l.case(&("piece", i, "reverse"), true, || bs[i].0.clone());
        l.check(g == alone[i], "piece-differs", || format!("{}: another answer the second time: {} / {}", bs[i].0, cut(&alone[i]), cut(&g)));
    }
    // blocks of one kind, by the first word of the name
    let mut kinds: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, b) in bs.iter().enumerate() {
        kinds.entry(b.0.split(|c: char| c.is_ascii_digit()).next().unwrap().split_whitespace().take(2).collect::<Vec<_>>().join(" ")).or_default().push(i);
    }
    let kinds: Vec<Vec<usize>> = kinds.into_values().collect();
    l.addc("kinds-of-pieces", kinds.len() as u64);
    let n = l.n(200, 3000);
    let each = Duration::from_millis(if l.thorough { 6000 } else { 500 });
    let stop = std::time::Instant::now() + l.budget.mul_f64(0.15);
    let bar = std::sync::Barrier::new(8);
    let seeds: Vec<u64> = (0..8).map(|_| r.u64()).collect();
    let outs: Vec<Seen> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (bs, alone, bar, say, kinds) = (&bs, &alone, &bar, &say, &kinds);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut o = Seen::default();
                        let mut r = Rng::new(*seed, "pieces");
                        let one = |o: &mut Seen, i: usize| {
                            let g = say(&bs[i]);
                            o.c("pieces-beside-others");
                            if g != alone[i] && o.bad.is_empty() {
                                o.fail("piece-differs", format!("{}: another answer beside other threads: {} / {}", bs[i].0, cut(&alone[i]), cut(&g)));
                            }
                        };
                        bar.wait();
                        for _ in 0..n {
                            if std::time::Instant::now() > stop || !o.bad.is_empty() {
                                break;
                            }
                            one(&mut o, r.below(bs.len()));
                        }
                        // and all threads at blocks of one kind
                        for k in kinds {
                            bar.wait();
                            let t = std::time::Instant::now();
                            while t.elapsed() < each && o.bad.is_empty() {
                                one(&mut o, *r.pick(k));
                            }
                        }
                        o
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for o in outs {
        take(l, o);
    }
    l.require("pieces-beside-others", 500);
}
fn cut(s: &str) -> String {
    s.chars().take(160).collect()
}
/// eight threads let go at once, again and again: each proves, then each checks what its neighbour made
fn bursts(l: &mut Ledger, share: std::time::Duration) {
    let mut r = Rng::new(l.seed, "bursts");
    for (nc, nv, ni, which) in [(32usize, 32usize, 3usize, Which::N), (128, 120, 5, Which::N), (8, 8, 2, Which::S)] {
        let base = fixed(&mut r, nc, nv, ni);
        let fam: Vec<St> = alike(&mut r, &base, 7).into_iter().map(|(s, _)| St::new(s, which)).collect();
        let canons: Vec<String> = fam.iter().map(|s| canon(&s.sys)).collect();
        let rounds = l.n(if nc < 100 { 12 } else { 8 }, 60);
        let bar = std::sync::Barrier::new(8);
        let made: Vec<Mutex<Option<(usize, Proof)>>> = (0..8).map(|_| Mutex::new(None)).collect();
        let late = std::sync::atomic::AtomicBool::new(false);
        let start = l.start;
        let outs: Vec<Seen> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8usize)
                .map(|t| {
                    let (fam, canons, bar, made, late) = (&fam, &canons, &bar, &made, &late);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut o = Seen::default();
                            for k in 0..rounds {
                                if t == 0 && start.elapsed() > share {
                                    late.store(true, std::sync::atomic::Ordering::SeqCst);
                                }
                                bar.wait();
                                if late.load(std::sync::atomic::Ordering::SeqCst) {
                                    break;
                                }
                                // in some rounds all are at one statement, in others each at its own
                                let j = if k % 3 == 0 { k % fam.len() } else { (t + k) % fam.len() };
                                let p = attempt(|| prove(&fam[j], which, &mut Transcript::new(b"burst")));
                                match p {
                                    Ok(p) => *made[t].lock().unwrap() = Some((j, p)),
                                    Err(p) => {
                                        *made[t].lock().unwrap() = None;
                                        o.fail("prove-aborts", format!("[burst] proving {:?} {} aborted: {} at {}", which, fam[j].sys.show(), p.msg, p.loc));
                                    }
                                }
                                o.c("burst-proofs");
                                bar.wait();
                                for (n, other) in [(t + 1) % 8, (t + k) % 8].into_iter().enumerate() {
                                    // taken out for the check, so that no lock of ours puts the threads in a row
                                    let g = made[other].lock().unwrap();
                                    let Some((of, p)) = &*g else { continue };
                                    let Some(p) = Proof::from_bytes(which, &p.bytes()) else {
                                        o.fail("unreadable", "[burst] a proof could not be read back".into());
                                        continue;
                                    };
                                    let of = *of;
                                    drop(g);
                                    let at = if n == 0 { of } else { (of + 1) % fam.len() };
                                    let want = canons[at] == canons[of];
                                    let got = verify(&fam[at], which, &p, &mut Transcript::new(b"burst"));
                                    o.c(if want { "burst-own" } else { "burst-foreign" });
                                    o.cases.push((format!("burst {:?} {} round {} thread {} proof of {} on {}: {}", which, fam[at].sys.show(), k, t, of, at, got.tag()), true));
                                    if want != (got == V::Accept) {
                                        o.fail(if want { "own-proof-refused" } else { "foreign-proof-accepted" }, format!("[burst] {:?} {} round {}: proof of {} on {}: {:?}", which, fam[at].sys.show(), k, of, at, got));
                                    }
                                }
                            }
                            o
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for o in outs {
            take(l, o);
        }
    }
    l.require("burst-own", 60);
}
/// the layout of a proof: paths and lengths of all leaves
fn form(p: &Proof) -> (usize, Vec<(String, usize)>) {
    let v = p.json();
    (p.bytes().len(), tree(&v).leaves.iter().map(|q| (path_str(q), leaf_bytes(get(&v, q)).len())).collect())
}
fn c32(l: &mut Ledger) {
    l.rule = "for given dimensions (and, for SNARK, number of entries) every proof has the same fields, list lengths and encoded size, and the size stays within the root-plus-logarithm bound".into();
    let deadline = l.start + l.budget.mul_f64(0.95);
    let mut shapes: Vec<(usize, usize, usize)> = vec![(1, 1, 0), (2, 2, 1), (3, 5, 2), (8, 8, 7), (9, 16, 3), (16, 17, 15), (40, 33, 6), (64, 64, 63)];
    shapes.extend_from_slice(if l.thorough { &[(128, 300, 20), (500, 512, 100), (1000, 700, 33), (2048, 2048, 5), (4000, 5000, 9), (20, 9000, 3)] } else { &[(128, 300, 20), (600, 1025, 10), (20, 6000, 3)] });
    let each = l.n(7, 24);
    let mut jobs = vec![];
    for (si, s) in shapes.iter().enumerate() {
        for which in [Which::N, Which::S] {
            if which == Which::S && s.0 > if l.thorough { 1200 } else { 150 } {
                continue;
            }
            for k in 0..each {
                jobs.push((si, *s, which, k));
            }
        }
    }
    let seed = l.seed;
    let outs = par(jobs.len(), deadline, |i| {
        let (_, (nc, nv, ni), which, k) = jobs[i];
        let mut r = Rng::new(seed, &format!("form-{}", i));
        let p = modp();
        // fixed number of entries: two in every row of A and B and three in every row of C
        let mut s = if nv >= 2 { fixed(&mut r, nc, nv, ni) } else { Sys { nc, nv, ni, m: [vec![(0, 0, BigUint::one()), (0, 0, BigUint::one())], vec![(0, 1, BigUint::one()), (0, 1, BigUint::zero())], vec![(0, 0, BigUint::one()), (0, 0, BigUint::one()), (0, 1, BigUint::zero())]], vars: vec![scalar_like(&mut r, Wit::Random)], inputs: vec![] } };
        let kind = match k % 7 {
            0 => "random",
            1 => {
                s.vars.iter_mut().for_each(|x| *x = BigUint::zero());
                "all variables zero"
            }
            2 => {
                let h = s.vars.len() / 2;
                s.vars[h..].iter_mut().for_each(|x| *x = BigUint::zero());
                "second half zero"
            }
            3 => {
                let e = scalar_like(&mut r, Wit::Random);
                s.vars.iter_mut().for_each(|x| *x = e.clone());
                "all equal"
            }
            4 => {
                s.vars.iter_mut().for_each(|x| *x = &p - BigUint::one());
                s.inputs.iter_mut().for_each(|x| *x = BigUint::zero());
                "extreme"
            }
            5 => {
                for m in s.m.iter_mut() {
                    m.iter_mut().for_each(|e| e.2 = BigUint::zero());
                }
                s.vars.iter_mut().for_each(|x| *x = BigUint::zero());
                s.inputs.iter_mut().for_each(|x| *x = BigUint::zero());
                "everything zero"
            }
            _ => {
                s.vars.iter_mut().for_each(|x| *x = scalar_like(&mut r, Wit::Small));
                "small"
            }
        };
        repair(&mut s);
        if !s.sat(&s.vars, &s.inputs) {
            return Err(format!("harness: unsatisfied {}", kind));
        }
        match attempt(|| prove(&St::new(s.clone(), which), which, &mut Transcript::new(b"form"))) {
            Ok(p) => Ok((kind, form(&p))),
            Err(p) => Err(format!("{} at {}", p.msg, p.loc)),
        }
    });
    let mut first: BTreeMap<(usize, bool), (&str, (usize, Vec<(String, usize)>))> = BTreeMap::new();
    for (i, o) in outs.into_iter().enumerate() {
        let Some(o) = o else { continue };
        let (si, (nc, nv, ni), which, k) = jobs[i];
        let show = format!("{:?} cons={} vars={} inputs={}", which, nc, nv, ni);
        match o {
            Err(e) => {
                assert!(!e.starts_with("harness"), "{} {}", e, show);
                l.violation("prove-aborts", &format!("{}: {}", show, e));
            }
            Ok((kind, f)) => {
                l.count("proofs");
                l.case(&(si, which, k), true, || format!("{} {}: {} bytes, {} values", show, kind, f.0, f.1.len()));
                // points and scalars of the root part and of the logarithmic part
                let lg = |n: usize| n.max(2).next_power_of_two().trailing_zeros() as usize;
                let (x, y) = (lg(nc), lg(2 * nv.max(ni + 1)));
                let rows = |n: usize| 1usize << n / 2;
                let nizk = 48 * rows(y - 1) + 520 * (x + y) + 1500;
                let bound = match which {
                    Which::N => nizk,
                    Which::S => {
                        let z = lg(3 * nc);
                        let cells = x.max(y).max(z);
                        nizk + 48 * rows(z + 3) + 200 * (cells + 3) * (cells + 3) + 7000
                    }
                };
                l.count(if f.0 * 10 > bound * 6 { "at-sixty-percent-of-the-bound-or-more" } else { "below-sixty-percent-of-the-bound" });
                l.check(f.0 <= bound, "too-large", || format!("{} {}: {} bytes, the bound is {}", show, kind, f.0, bound));
                match first.get(&(si, which == Which::N)) {
                    None => {
                        first.insert((si, which == Which::N), (kind, f));
                    }
                    Some((k0, f0)) => {
                        l.count("compared");
                        if *f0 != f {
                            let d = f0.1.iter().zip(f.1.iter()).find(|(a, b)| a != b).map(|(a, b)| format!("{:?} against {:?}", a, b)).unwrap_or_else(|| format!("{} against {} values", f0.1.len(), f.1.len()));
                            l.violation("form-differs", &format!("{}: a proof for {} has {} bytes, one for {} has {} bytes; {}", show, k0, f0.0, kind, f.0, d));
                        }
                    }
                }
            }
        }
    }
    l.require("compared", 60);
}
fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C32") => Ledger::new("C32").run(c32),
        _ => Ledger::new("C31").run(c31),
    }
}
