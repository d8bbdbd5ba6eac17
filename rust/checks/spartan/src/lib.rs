//! Shared by the proof-system checks: random constraint systems with an exact model of satisfaction,
//! and a tree view of proofs whose leaves (scalars, points) can be altered one by one.
use libspartan::{Assignment, Instance};
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use serde_json::Value;
use vcommon::*;

pub type Mat = Vec<(usize, usize, BigUint)>;
#[derive(Clone, Debug)]
pub struct Sys {
    pub nc: usize,
    pub nv: usize,
    pub ni: usize,
    pub m: [Mat; 3],
    pub vars: Vec<BigUint>,
    pub inputs: Vec<BigUint>,
}
pub fn bytes_mat(m: &Mat) -> Vec<(usize, usize, [u8; 32])> {
    m.iter().map(|(r, c, v)| (*r, *c, le32(v))).collect()
}
pub fn assign(v: &[BigUint]) -> Assignment {
    Assignment::new(&v.iter().map(le32).collect::<Vec<_>>()).unwrap()
}
impl Sys {
    pub fn z(&self, vars: &[BigUint], inputs: &[BigUint]) -> Vec<BigUint> {
        let mut z = vars.to_vec();
        z.resize(self.nv, BigUint::zero());
        z.push(BigUint::one());
        z.extend_from_slice(inputs);
        z
    }
    pub fn row_values(&self, k: usize, z: &[BigUint]) -> Vec<BigUint> {
        let p = modp();
        let mut o = vec![BigUint::zero(); self.nc];
        for (r, c, v) in &self.m[k] {
            o[*r] = (&o[*r] + v * &z[*c]) % &p;
        }
        o
    }
    /// exact satisfaction by integer arithmetic
    pub fn sat(&self, vars: &[BigUint], inputs: &[BigUint]) -> bool {
        let p = modp();
        let z = self.z(vars, inputs);
        let (a, b, c) = (self.row_values(0, &z), self.row_values(1, &z), self.row_values(2, &z));
        (0..self.nc).all(|i| mulm(&a[i], &b[i], &p) == c[i])
    }
    pub fn instance(&self) -> Instance {
        Instance::new(self.nc, self.nv, self.ni, &bytes_mat(&self.m[0]), &bytes_mat(&self.m[1]), &bytes_mat(&self.m[2])).unwrap()
    }
    pub fn assignments(&self) -> (Assignment, Assignment) {
        (assign(&self.vars), assign(&self.inputs))
    }
    pub fn nnz(&self) -> usize {
        self.m.iter().map(|m| m.len()).max().unwrap()
    }
    pub fn padded_vars(&self) -> usize {
        self.nv.max(self.ni + 1).next_power_of_two()
    }
    pub fn padded_cons(&self) -> usize {
        self.nc.max(2).next_power_of_two()
    }
    pub fn show(&self) -> String {
        format!("cons={} vars={} inputs={} nnz={}/{}/{}", self.nc, self.nv, self.ni, self.m[0].len(), self.m[1].len(), self.m[2].len())
    }
    pub fn key(&self) -> String {
        let f = |m: &Mat| m.iter().map(|(r, c, v)| format!("{},{},{:x};", r, c, v)).collect::<String>();
        format!("{} {} {} {}|{}|{}|{:?}|{:?}", self.nc, self.nv, self.ni, f(&self.m[0]), f(&self.m[1]), f(&self.m[2]), self.vars, self.inputs)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wit {
    Random,
    Small,
    Edge,
    AllZero,
    AllEqual,
}
pub fn scalar_like(r: &mut Rng, w: Wit) -> BigUint {
    let p = modp();
    match w {
        Wit::Random | Wit::AllEqual => from_le(&r.arr32()) % &p,
        Wit::Small => BigUint::from(r.below(4) as u32),
        Wit::Edge => edge256(r, &p) % &p,
        Wit::AllZero => BigUint::zero(),
    }
}
/// A satisfiable constraint system of the given shape together with a satisfying assignment.
pub fn gen_sys(r: &mut Rng, nc: usize, nv: usize, ni: usize, density: usize, w: Wit) -> Sys {
    let p = modp();
    let e0 = scalar_like(r, Wit::Random);
    let mut pick = |r: &mut Rng, n: usize| -> Vec<BigUint> { (0..n).map(|_| if w == Wit::AllEqual { e0.clone() } else { scalar_like(r, w) }).collect() };
    let vars = pick(r, nv);
    let inputs = pick(r, ni);
    let mut s = Sys { nc, nv, ni, m: [vec![], vec![], vec![]], vars, inputs };
    let z = s.z(&s.vars, &s.inputs);
    let cols = nv + 1 + ni;
    for row in 0..nc {
        let style = r.below(12);
        if style == 0 {
            continue; // an empty row
        }
        let mut lc = |r: &mut Rng, s: &mut Sys, k: usize| -> BigUint {
            let mut acc = BigUint::zero();
            let t = if style == 1 { 1 } else { r.range(1, density.max(1)) };
            for _ in 0..t {
                let c = if r.chance(1, 6) { nv + r.below(1 + ni) } else { r.below(cols) };
                let wv = if w == Wit::Edge || r.chance(1, 4) { Wit::Edge } else if r.chance(1, 3) { Wit::Small } else { Wit::Random };
                // homogeneous rows for the all-zero witness, so that nothing but blinding is left
                let v = scalar_like(r, wv);
                let c = if w == Wit::AllZero && c == nv { 0 } else { c };
                acc = (acc + &v * &z[c]) % &p;
                s.m[k].push((row, c, v));
            }
            acc
        };
        let a = if style == 2 { BigUint::zero() } else { lc(r, &mut s, 0) };
        let b = if style == 3 { BigUint::zero() } else { lc(r, &mut s, 1) };
        let c = if style == 4 { BigUint::zero() } else { lc(r, &mut s, 2) };
        let want = mulm(&a, &b, &p);
        let diff = subm(&want, &c, &p);
        if !diff.is_zero() {
            // put the difference on any column whose value is not zero (the constant always is one)
            let nz: Vec<usize> = (0..cols).filter(|i| !z[*i].is_zero()).collect();
            let col = *r.pick(&nz);
            let v = mulm(&diff, &invm(&z[col], &p).unwrap(), &p);
            s.m[2].push((row, col, v));
        }
    }
    for k in 0..3 {
        r.shuffle(&mut s.m[k]);
    }
    debug_assert!(s.sat(&s.vars, &s.inputs));
    s
}
/// A violated variant: the same matrices with another assignment that the model says is false.
pub fn falsify(r: &mut Rng, s: &Sys) -> Option<(Sys, &'static str)> {
    let p = modp();
    for _ in 0..20 {
        let mut t = s.clone();
        let what = match r.below(4) {
            0 if !t.vars.is_empty() => {
                let i = r.below(t.vars.len());
                t.vars[i] = addm(&t.vars[i], &BigUint::one(), &p);
                "one variable off by one"
            }
            1 if !t.vars.is_empty() => {
                let i = r.below(t.vars.len());
                t.vars[i] = scalar_like(r, Wit::Random);
                "one variable random"
            }
            2 if !t.inputs.is_empty() => {
                let i = r.below(t.inputs.len());
                t.inputs[i] = addm(&t.inputs[i], &BigUint::one(), &p);
                "one input off by one"
            }
            _ if t.nc > 0 => {
                let k = r.below(3);
                if t.m[k].is_empty() {
                    continue;
                }
                let i = r.below(t.m[k].len());
                t.m[k][i].2 = addm(&t.m[k][i].2, &BigUint::one(), &p);
                "one coefficient off by one"
            }
            _ => continue,
        };
        if !t.sat(&t.vars, &t.inputs) {
            return Some((t, what));
        }
    }
    None
}
/// Errors for some rows that cancel out under one or several simple ways of adding rows up
pub fn conspiracy(r: &mut Rng, nc: usize) -> (Vec<(usize, BigUint)>, &'static str) {
    let p = modp();
    let x = from_le(&r.arr32()) % (&p - 1u32) + 1u32;
    let x = if r.chance(1, 4) { BigUint::one() << r.below(255) } else { x };
    let neg = |v: BigUint| (&p - v % &p) % &p;
    let times = |k: u64| &x * k % &p;
    let (i, j) = {
        let i = r.below(nc - 1);
        (i, r.range(i + 1, nc - 1))
    };
    match r.below(9) {
        0 => (vec![(i, x.clone()), (j, neg(x))], "two errors that add up to zero"),
        1 => (vec![(i, x.clone()), (j, x)], "two equal errors"),
        2 => (vec![(i, times(j as u64 + 1)), (j, neg(times(i as u64 + 1)))], "two errors that cancel when weighed by the row counted from one"),
        3 if i > 0 => (vec![(i, times(j as u64)), (j, neg(times(i as u64)))], "two errors that cancel when weighed by the row"),
        4 => (vec![(i, x.clone()), (i + 1, neg(times(2)))], "two errors that cancel when later rows count half"),
        5 => (vec![(i, neg(times(2))), (i + 1, x.clone())], "two errors that cancel when later rows count double"),
        6 if nc > 2 => {
            let i = r.below(nc - 2);
            (vec![(i, x.clone()), (i + 1, neg(times(2))), (i + 2, x)], "three errors that cancel for every linear weight")
        }
        7 if nc > 3 => {
            let i = r.below(nc - 3);
            (vec![(i, x.clone()), (i + 1, neg(times(3))), (i + 2, times(3)), (i + 3, neg(x))], "four errors that cancel for every quadratic weight")
        }
        8 if nc > 2 => {
            // the squares of the three errors add up to zero
            loop {
                let a = from_le(&r.arr32()) % &p;
                let t = neg(BigUint::one() + &a * &a);
                let b = t.modpow(&((&p + 1u32) >> 2), &p);
                if &b * &b % &p == t {
                    let i = r.below(nc - 2);
                    return (vec![(i, x.clone()), (i + 1, &x * a % &p), (i + 2, &x * b % &p)], "three errors whose squares add up to zero");
                }
            }
        }
        _ => (vec![(i, x.clone()), (j, neg(x))], "two errors that add up to zero"),
    }
}

// ---- proofs as trees ----
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Step {
    Key(String),
    Idx(usize),
}
pub type Path = Vec<Step>;
pub fn path_str(p: &[Step]) -> String {
    p.iter().map(|s| match s { Step::Key(k) => format!(".{}", k), Step::Idx(i) => format!("[{}]", i) }).collect()
}
/// path with the indices blanked: which kind of component it is
pub fn path_class(p: &[Step]) -> String {
    p.iter().map(|s| match s { Step::Key(k) => format!(".{}", k), Step::Idx(_) => "[]".to_string() }).collect()
}
pub fn is_scalar(v: &Value) -> bool {
    matches!(v, Value::Array(a) if a.len() == 32 && a.iter().all(|x| x.as_u64().map(|n| n < 256).unwrap_or(false)))
}
pub fn is_point(v: &Value) -> bool {
    v.is_string()
}
pub fn leaf_bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(),
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        _ => vec![],
    }
}
pub fn scalar_value(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}
pub fn point_value(b: &[u8]) -> Value {
    Value::String(hex(b))
}
fn walk(v: &Value, p: &mut Path, leaves: &mut Vec<Path>, vecs: &mut Vec<Path>, nodes: &mut Vec<Path>) {
    nodes.push(p.clone());
    if is_scalar(v) || is_point(v) {
        leaves.push(p.clone());
        return;
    }
    match v {
        Value::Array(a) => {
            vecs.push(p.clone());
            for (i, x) in a.iter().enumerate() {
                p.push(Step::Idx(i));
                walk(x, p, leaves, vecs, nodes);
                p.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                p.push(Step::Key(k.clone()));
                walk(x, p, leaves, vecs, nodes);
                p.pop();
            }
        }
        _ => {}
    }
}
pub struct Tree {
    pub leaves: Vec<Path>,
    pub vecs: Vec<Path>,
    pub nodes: Vec<Path>,
}
pub fn tree(v: &Value) -> Tree {
    let (mut l, mut a, mut n) = (vec![], vec![], vec![]);
    walk(v, &mut vec![], &mut l, &mut a, &mut n);
    Tree { leaves: l, vecs: a, nodes: n }
}
pub fn get<'a>(v: &'a Value, p: &[Step]) -> &'a Value {
    p.iter().fold(v, |v, s| match s {
        Step::Key(k) => &v[k.as_str()],
        Step::Idx(i) => &v[*i],
    })
}
pub fn get_mut<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Step::Key(k) => &mut v[k.as_str()],
        Step::Idx(i) => &mut v[*i],
    })
}
pub fn has(v: &Value, p: &[Step]) -> bool {
    let mut c = v;
    for s in p {
        let n = match s {
            Step::Key(k) => c.get(k.as_str()),
            Step::Idx(i) => c.get(*i),
        };
        match n {
            Some(x) => c = x,
            None => return false,
        }
    }
    true
}

// ---- statements and the two proof systems behind one interface ----
use libspartan::{ComputationCommitment, ComputationDecommitment, NIZKGens, SNARKGens, NIZK, SNARK};
use merlin::Transcript;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Which {
    N,
    S,
}
pub struct St {
    pub sys: Sys,
    pub inst: Instance,
    pub vars: Assignment,
    pub inputs: Assignment,
    pub ng: Option<NIZKGens>,
    pub sg: Option<(SNARKGens, ComputationCommitment, ComputationDecommitment)>,
}
impl St {
    pub fn new(sys: Sys, which: Which) -> St {
        let inst = sys.instance();
        let (vars, inputs) = sys.assignments();
        let mut s = St { inst, vars, inputs, ng: None, sg: None, sys };
        match which {
            Which::N => s.ng = Some(NIZKGens::new(s.sys.nc, s.sys.nv, s.sys.ni)),
            Which::S => {
                let g = SNARKGens::new(s.sys.nc, s.sys.nv, s.sys.ni, s.sys.nnz());
                let (c, d) = libspartan::SNARK::encode(&s.inst, &g);
                s.sg = Some((g, c, d));
            }
        }
        s
    }
}
pub enum Proof {
    N(NIZK),
    S(SNARK),
}
impl Proof {
    pub fn json(&self) -> Value {
        match self {
            Proof::N(p) => serde_json::to_value(p),
            Proof::S(p) => serde_json::to_value(p),
        }
        .unwrap()
    }
    pub fn from_json(w: Which, v: &Value) -> Option<Proof> {
        // through text, so that strings are read the way a file would be
        let t = v.to_string();
        match w {
            Which::N => serde_json::from_str(&t).ok().map(Proof::N),
            Which::S => serde_json::from_str(&t).ok().map(Proof::S),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Proof::N(p) => bincode::serialize(p),
            Proof::S(p) => bincode::serialize(p),
        }
        .unwrap()
    }
    pub fn from_bytes(w: Which, b: &[u8]) -> Option<Proof> {
        match w {
            Which::N => bincode::deserialize(b).ok().map(Proof::N),
            Which::S => bincode::deserialize(b).ok().map(Proof::S),
        }
    }
}
pub fn prove(s: &St, w: Which, t: &mut Transcript) -> Proof {
    match w {
        Which::N => Proof::N(NIZK::prove(&s.inst, s.vars.clone(), &s.inputs, s.ng.as_ref().unwrap(), t)),
        Which::S => {
            let (g, c, d) = s.sg.as_ref().unwrap();
            Proof::S(SNARK::prove(&s.inst, c, d, s.vars.clone(), &s.inputs, g, t))
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Accept,
    Reject(String),
    Abort(String),
    Undecodable,
}
impl V {
    pub fn tag(&self) -> &'static str {
        match self {
            V::Accept => "accepted",
            V::Reject(_) => "rejected",
            V::Abort(_) => "aborted",
            V::Undecodable => "undecodable",
        }
    }
}
pub fn verify(s: &St, w: Which, p: &Proof, t: &mut Transcript) -> V {
    verify_with(s, w, p, &s.inputs, t)
}
pub fn verify_with(s: &St, w: Which, p: &Proof, inputs: &Assignment, t: &mut Transcript) -> V {
    let r = attempt(|| match (w, p) {
        (Which::N, Proof::N(p)) => p.verify(&s.inst, inputs, t, s.ng.as_ref().unwrap()).map_err(|e| format!("{:?}", e)),
        (Which::S, Proof::S(p)) => {
            let (g, c, _) = s.sg.as_ref().unwrap();
            p.verify(c, inputs, t, g).map_err(|e| format!("{:?}", e))
        }
        _ => unreachable!(),
    });
    match r {
        Ok(Ok(())) => V::Accept,
        Ok(Err(e)) => V::Reject(e),
        Err(p) => V::Abort(format!("{} at {}", p.msg, p.loc)),
    }
}
pub fn verify_json(s: &St, w: Which, v: &Value, label: &'static [u8]) -> V {
    match Proof::from_json(w, v) {
        None => V::Undecodable,
        Some(p) => verify(s, w, &p, &mut Transcript::new(label)),
    }
}
/// run jobs on all cores; each job gets its index
pub use vcommon::par;

// ---- alterations ----
#[derive(Clone, Debug)]
pub struct Mutant {
    pub what: String,
    pub class: String,
    pub proof: Value,
}
fn put(v: &Value, p: &[Step], x: Value) -> Value {
    let mut c = v.clone();
    *get_mut(&mut c, p) = x;
    c
}
/// every single-component alteration of a proof: leaves, then list lengths and orders
pub fn mutants(r: &mut Rng, proof: &Value, every_leaf: bool) -> Vec<Mutant> {
    let t = tree(proof);
    let p = modp();
    let n = modn();
    let scalars: Vec<&Path> = t.leaves.iter().filter(|x| is_scalar(get(proof, x))).collect();
    let points: Vec<&Path> = t.leaves.iter().filter(|x| is_point(get(proof, x))).collect();
    let mut by: std::collections::BTreeMap<String, Vec<Path>> = Default::default();
    for l in &t.leaves {
        by.entry(path_class(l)).or_default().push(l.clone());
    }
    let mut out = vec![];
    let mut add = |class: &str, what: String, v: Value| {
        if v != *proof {
            out.push(Mutant { what, class: class.into(), proof: v });
        }
    };
    for (class, ls) in &by {
        // first and last of its kind, and a random one; or all of them
        let mut chosen: Vec<Path> = if every_leaf { ls.clone() } else { vec![ls[0].clone(), ls[ls.len() - 1].clone(), ls[r.below(ls.len())].clone()] };
        chosen.dedup();
        for l in &chosen {
            let v = get(proof, l);
            let at = path_str(l);
            if is_scalar(v) {
                let x = from_le(&leaf_bytes(v));
                let big = &p + (from_le(&r.arr32()) % (two256() - &p));
                for (k, y) in [("plus one", addm(&x, &BigUint::one(), &p)), ("negated", negm(&x, &p)), ("zero", BigUint::zero()), ("random", from_le(&r.arr32()) % &p), ("not canonical", big)] {
                    add(class, format!("{} {}", at, k), put(proof, l, scalar_value(&le32(&y))));
                }
                let o = *r.pick(&scalars);
                let mut c = put(proof, l, get(proof, o).clone());
                add(class, format!("{} replaced by {}", at, path_str(o)), c.clone());
                *get_mut(&mut c, o) = v.clone();
                add(class, format!("{} swapped with {}", at, path_str(o)), c);
            } else {
                let b = leaf_bytes(v);
                if b.len() == 33 {
                    let mut nb = b.clone();
                    nb[0] ^= 1;
                    add(class, format!("{} negated", at), put(proof, l, point_value(&nb)));
                    let x = from_be(&b[1..]);
                    if x < n {
                        let y2 = addm(&mulm(&x, &mulm(&x, &x, &n), &n), &BigUint::from(7u32), &n);
                        if let Some(y) = sqrtm(&y2, &n) {
                            let odd = (&y % BigUint::from(2u32)).is_one();
                            let y = if odd == (b[0] == 3) { y } else { negm(&y, &n) };
                            let mut ub = vec![4u8];
                            ub.extend(be32(&x));
                            ub.extend(be32(&y));
                            add(class, format!("{} uncompressed", at), put(proof, l, point_value(&ub)));
                        }
                    }
                }
                add(class, format!("{} identity", at), put(proof, l, point_value(&[0])));
                let mut gb = vec![2u8];
                gb.extend(r.arr32());
                add(class, format!("{} garbage", at), put(proof, l, point_value(&gb)));
                let o = *r.pick(&points);
                let mut c = put(proof, l, get(proof, o).clone());
                add(class, format!("{} replaced by {}", at, path_str(o)), c.clone());
                *get_mut(&mut c, o) = v.clone();
                add(class, format!("{} swapped with {}", at, path_str(o)), c);
            }
        }
    }
    for l in &t.vecs {
        let class = format!("list {}", path_class(l));
        let a = get(proof, l).as_array().unwrap().clone();
        let at = path_str(l);
        let mut alt = |k: &str, b: Vec<Value>| add(&class, format!("{} {}", at, k), put(proof, l, Value::Array(b)));
        if a.is_empty() {
            continue;
        }
        alt("without its last", a[..a.len() - 1].to_vec());
        alt("without its first", a[1..].to_vec());
        let mut b = a.clone();
        b.push(a[a.len() - 1].clone());
        alt("with its last repeated", b);
        // values that add nothing to a sum or a product
        for (name, x) in [("zero", scalar_value(&[0; 32])), ("one", scalar_value(&le32(&BigUint::one())))] {
            if is_scalar(&a[0]) {
                let mut b = a.clone();
                b.push(x);
                alt(&format!("with a {name} appended"), b);
            }
        }
        let mut b = a.clone();
        b.push(a[0].clone());
        alt("with its first appended", b);
        let mut b = a.clone();
        b.insert(0, a[0].clone());
        alt("with its first repeated in front", b);
        alt("emptied", vec![]);
        if a.len() > 1 {
            let mut b = a.clone();
            b.swap(0, a.len() - 1);
            alt("with its ends swapped", b);
            let mut b = a.clone();
            b.rotate_left(1);
            alt("rotated", b);
        }
    }
    // the border between two neighbouring lists moved, all values kept
    let lists: Vec<&Path> = t.vecs.iter().filter(|l| { let a = get(proof, l).as_array().unwrap(); !a.is_empty() && a.iter().all(is_scalar) }).collect();
    for a in &lists {
        for b in &lists {
            // neighbours: lists of one structure, at most one level apart
            let up = |p: &[Step]| p[..p.len().saturating_sub(2)].to_vec();
            if a == b || !(up(a) == up(b) || a.starts_with(&up(b)) || b.starts_with(&up(a))) || a.len().abs_diff(b.len()) > 1 {
                continue;
            }
            let (x, y) = (get(proof, a).as_array().unwrap().clone(), get(proof, b).as_array().unwrap().clone());
            let mut ks = vec![1, x.len()];
            ks.dedup();
            for k in ks {
                let class = format!("border {}|{}", path_class(a), path_class(b));
                // the last k of the one put in front of the other, or the first k at its end
                let mut front = x[x.len() - k..].to_vec();
                front.extend(y.clone());
                let c = put(proof, a, Value::Array(x[..x.len() - k].to_vec()));
                add(&class, format!("the last {k} of {} moved to the front of {}", path_str(a), path_str(b)), put(&c, b, Value::Array(front)));
                let mut end = y.clone();
                end.extend(x[..k].to_vec());
                let c = put(proof, a, Value::Array(x[k..].to_vec()));
                add(&class, format!("the first {k} of {} moved to the end of {}", path_str(a), path_str(b)), put(&c, b, Value::Array(end)));
            }
        }
    }
    out
}
/// parts of one valid proof put into another
pub fn splices(a: &Value, b: &Value, from: &str) -> Vec<Mutant> {
    let t = tree(a);
    let mut out = vec![];
    for n in &t.nodes {
        if n.is_empty() || !has(b, n) {
            continue;
        }
        let x = get(b, n);
        if get(a, n) != x {
            out.push(Mutant { what: format!("{} taken from {}", path_str(n), from), class: format!("splice {}", path_class(n)), proof: put(a, n, x.clone()) });
        }
    }
    out
}
