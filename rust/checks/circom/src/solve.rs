//! Looks for a second assignment: given the values of some wires, derives what the constraints force, and where
//! they force nothing tries other values. An alternative is only reported after all constraints held for it.
use crate::field::F;
use crate::interp::{Con, Lc};
use std::collections::VecDeque;

pub struct System<'c> {
    pub n: usize,
    cons: &'c [Con],
    uses: Vec<Vec<u32>>,
    /// in which order wires are tried: hints, the rest, targets
    order: Vec<u32>,
}
#[derive(Debug)]
pub enum Outcome {
    /// the given wires force every target to its honest value
    Unique,
    /// another satisfying assignment with some target changed
    Other(Vec<F>),
    /// no assignment at all has these given values
    Contradiction,
    /// neither shown
    Open,
}
pub fn eval(l: &Lc, w: &[F]) -> F {
    let mut s = F::ZERO;
    for (i, c) in l {
        s = s.add(w[*i as usize].mul(*c));
    }
    s
}
pub fn holds(c: &Con, w: &[F]) -> bool {
    eval(&c.a, w).mul(eval(&c.b, w)) == eval(&c.c, w)
}
#[derive(Clone)]
struct State {
    val: Vec<Option<F>>,
    dom: Vec<Option<(F, F)>>,
    trail: Vec<u32>,
    dtrail: Vec<u32>,
    /// sums of bits with more than one reading: the wires and each reading
    alias: Vec<(Vec<u32>, Vec<Vec<F>>)>,
}
type Part = (F, Vec<(u32, F)>);
fn part(l: &Lc, s: &State) -> Part {
    let mut k = F::ZERO;
    let mut u = vec![];
    for (i, c) in l {
        match s.val[*i as usize] {
            Some(v) => k = k.add(v.mul(*c)),
            None => u.push((*i, *c)),
        }
    }
    (k, u)
}
fn lin_add(a: &[(u32, F)], b: &[(u32, F)], f: F) -> Vec<(u32, F)> {
    crate::interp::lc_add(&a.to_vec(), &b.to_vec(), f)
}
enum Step {
    Ok,
    Bad,
}
impl<'c> System<'c> {
    pub fn new(cons: &'c [Con], n: usize, hints: &[u32]) -> System<'c> {
        let mut uses = vec![vec![]; n];
        for (j, c) in cons.iter().enumerate() {
            let mut ws: Vec<u32> = c.a.iter().chain(c.b.iter()).chain(c.c.iter()).map(|e| e.0).collect();
            ws.sort();
            ws.dedup();
            for w in ws {
                uses[w as usize].push(j as u32);
            }
        }
        let mut is = vec![false; n];
        let mut order = vec![];
        for w in hints.iter().copied().chain(0..n as u32) {
            if !std::mem::replace(&mut is[w as usize], true) {
                order.push(w);
            }
        }
        System { n, cons, uses, order }
    }
    fn set(&self, s: &mut State, q: &mut VecDeque<u32>, w: u32, v: F) -> Step {
        match s.val[w as usize] {
            Some(x) => {
                if x == v {
                    Step::Ok
                } else {
                    Step::Bad
                }
            }
            None => {
                if let Some((a, b)) = s.dom[w as usize] {
                    if v != a && v != b {
                        return Step::Bad;
                    }
                }
                s.val[w as usize] = Some(v);
                s.trail.push(w);
                q.extend(self.uses[w as usize].iter());
                Step::Ok
            }
        }
    }
    /// the bit patterns x_i in {0,1} with sum c_i x_i = t, where the c_i are one scale of distinct powers of two
    fn bits(u: &[(u32, F)], t: F) -> Option<Vec<Vec<F>>> {
        for (_, c0) in u.iter().take(1).chain(u.iter().skip(1).take(2)).chain(u.iter().rev().take(1)) {
            for s in [c0.inv(), F::ONE] {
                for s in [s, s.neg()] {
                    let mut pos = vec![usize::MAX; u.len()];
                    let mut used = [false; 256];
                    let mut ok = true;
                    for (j, (_, c)) in u.iter().enumerate() {
                        let v = c.mul(s);
                        let ones: u32 = v.0.iter().map(|l| l.count_ones()).sum();
                        if ones != 1 {
                            ok = false;
                            break;
                        }
                        let i = (0..4).find(|i| v.0[*i] != 0).unwrap();
                        let p = i * 64 + v.0[i].trailing_zeros() as usize;
                        if used[p] {
                            ok = false;
                            break;
                        }
                        used[p] = true;
                        pos[j] = p;
                    }
                    if !ok {
                        continue;
                    }
                    let t = t.mul(s);
                    let mut out = vec![];
                    // t, and t + p where that still fits into 256 bits
                    for plus in [false, true] {
                        let mut l = t.0;
                        if plus {
                            let mut c = 0u128;
                            for (i, q) in [0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX].iter().enumerate() {
                                c += l[i] as u128 + *q as u128;
                                l[i] = c as u64;
                                c >>= 64;
                            }
                            if c != 0 {
                                continue;
                            }
                        }
                        if (0..256).any(|i| l[i / 64] >> (i % 64) & 1 == 1 && !used[i]) {
                            continue;
                        }
                        out.push(pos.iter().map(|p| F::u(l[p / 64] >> (p % 64) & 1)).collect());
                    }
                    return Some(out);
                }
            }
        }
        None
    }
    fn visit(&self, s: &mut State, q: &mut VecDeque<u32>, j: u32) -> Step {
        let c = &self.cons[j as usize];
        let (ak, au) = part(&c.a, s);
        let (bk, bu) = part(&c.b, s);
        let (ck, cu) = part(&c.c, s);
        if au.is_empty() && bu.is_empty() && cu.is_empty() {
            return if ak.mul(bk) == ck { Step::Ok } else { Step::Bad };
        }
        if au.is_empty() || bu.is_empty() {
            // linear: k + sum = 0
            let (k, l) = if au.is_empty() {
                (ak.mul(bk).sub(ck), lin_add(&bu.iter().map(|e| (e.0, e.1.mul(ak))).filter(|e| !e.1.is_zero()).collect::<Vec<_>>(), &cu, F::ONE.neg()))
            } else {
                (ak.mul(bk).sub(ck), lin_add(&au.iter().map(|e| (e.0, e.1.mul(bk))).filter(|e| !e.1.is_zero()).collect::<Vec<_>>(), &cu, F::ONE.neg()))
            };
            if l.is_empty() {
                return if k.is_zero() { Step::Ok } else { Step::Bad };
            }
            if l.len() == 1 {
                return self.set(s, q, l[0].0, k.neg().mul(l[0].1.inv()));
            }
            if l.iter().all(|e| s.dom[e.0 as usize] == Some((F::ZERO, F::ONE))) {
                if let Some(pats) = Self::bits(&l, k.neg()) {
                    if pats.is_empty() {
                        return Step::Bad;
                    }
                    if pats.len() == 1 {
                        for ((w, _), v) in l.iter().zip(&pats[0]) {
                            if let Step::Bad = self.set(s, q, *w, *v) {
                                return Step::Bad;
                            }
                        }
                    } else {
                        s.alias.push((l.iter().map(|e| e.0).collect(), pats));
                    }
                }
            }
            return Step::Ok;
        }
        // one unknown, squared
        let w = au[0].0;
        if au.len() == 1 && bu.len() == 1 && bu[0].0 == w && (cu.is_empty() || (cu.len() == 1 && cu[0].0 == w)) {
            let c1 = if cu.is_empty() { F::ZERO } else { cu[0].1 };
            // x^2 + 2hx + m = 0
            let q2 = au[0].1.mul(bu[0].1).inv();
            let h = ak.mul(bu[0].1).add(bk.mul(au[0].1)).sub(c1).mul(q2).mul(F::u(2).inv());
            let m = ak.mul(bk).sub(ck).mul(q2);
            let Some(r) = h.mul(h).sub(m).sqrt() else { return Step::Bad };
            let (x, y) = (r.sub(h), r.neg().sub(h));
            if x == y {
                return self.set(s, q, w, x);
            }
            let (x, y) = if x.num_cmp(&y).is_lt() { (x, y) } else { (y, x) };
            match s.dom[w as usize] {
                None => {
                    s.dom[w as usize] = Some((x, y));
                    s.dtrail.push(w);
                    q.extend(self.uses[w as usize].iter());
                }
                Some((u, v)) if (u, v) != (x, y) => {
                    if u == x || u == y {
                        return self.set(s, q, w, u);
                    }
                    if v == x || v == y {
                        return self.set(s, q, w, v);
                    }
                    return Step::Bad;
                }
                _ => {}
            }
        }
        Step::Ok
    }
    fn propagate(&self, s: &mut State, q: &mut VecDeque<u32>, work: &mut u64) -> Step {
        while let Some(j) = q.pop_front() {
            *work += 1;
            if let Step::Bad = self.visit(s, q, j) {
                return Step::Bad;
            }
        }
        Step::Ok
    }
    fn undo(&self, s: &mut State, t: usize, d: usize, al: usize) {
        while s.trail.len() > t {
            let w = s.trail.pop().unwrap();
            s.val[w as usize] = None;
        }
        while s.dtrail.len() > d {
            let w = s.dtrail.pop().unwrap();
            s.dom[w as usize] = None;
        }
        s.alias.truncate(al);
    }
    /// `work`: how many constraint visits to spend
    pub fn solve(&self, given: &[(u32, F)], honest: &[F], targets: &[u32], seed: u64, work: u64) -> Outcome {
        let mut s = State { val: vec![None; self.n], dom: vec![None; self.n], trail: vec![], dtrail: vec![], alias: vec![] };
        let mut q: VecDeque<u32> = (0..self.cons.len() as u32).collect();
        let mut spent = 0;
        let mut rng = vcommon::Rng::new(seed, "solve");
        if let Step::Bad = self.set(&mut s, &mut q, 0, F::ONE) {
            return Outcome::Contradiction;
        }
        for (w, v) in given {
            if let Step::Bad = self.set(&mut s, &mut q, *w, *v) {
                return Outcome::Contradiction;
            }
        }
        if let Step::Bad = self.propagate(&mut s, &mut q, &mut spent) {
            return Outcome::Contradiction;
        }
        let mut guessed = false;
        let mut at = 0;
        let mut order: Vec<u32> = self.order.iter().copied().filter(|w| !targets.contains(w)).collect();
        order.extend(targets);
        loop {
            if let Some(o) = self.leaf(&s, honest, targets) {
                return if guessed && !matches!(o, Outcome::Other(_)) { Outcome::Open } else { o };
            }
            if spent > work {
                return Outcome::Open;
            }
            // readings of a sum of bits first
            let mut tries: Vec<Vec<(u32, F)>> = vec![];
            let mut keep: Vec<(u32, F)> = vec![];
            s.alias.retain(|a| a.0.iter().any(|w| s.val[*w as usize].is_none()));
            if let Some((ws, pats)) = s.alias.pop() {
                for p in &pats {
                    let t: Vec<(u32, F)> = ws.iter().copied().zip(p.iter().copied()).collect();
                    if t.iter().any(|(w, v)| honest[*w as usize] != *v) {
                        tries.push(t);
                    } else {
                        keep = t;
                    }
                }
                if keep.is_empty() {
                    keep = tries.pop().unwrap_or_default();
                }
            } else {
                while at < order.len() && (s.val[order[at] as usize].is_some() || self.uses[order[at] as usize].is_empty()) {
                    at += 1;
                }
                if at == order.len() {
                    break;
                }
                let w = order[at];
                let h = honest[w as usize];
                match s.dom[w as usize] {
                    Some((a, b)) => tries.push(vec![(w, if h == a { b } else { a })]),
                    None => {
                        let mut r = [0u64; 4];
                        for l in r.iter_mut() {
                            *l = rng.u64();
                        }
                        for v in [
                            F::reduce(r), F([r[0], r[1], 0, 0]), F::u(r[2]), h.add(F::ONE), h.sub(F::ONE), F::ZERO, F::ONE, h.neg(),
                            h.add(F::pow2(128)), h.sub(F::pow2(128)), h.add(h),
                        ] {
                            if v != h && !tries.iter().any(|t| t[0].1 == v) {
                                tries.push(vec![(w, v)]);
                            }
                        }
                    }
                }
                keep.push((w, h));
            }
            // all the values it could have are among tries and keep
            let exhaustive = tries.iter().all(|t| t.len() > 1 || s.dom[t[0].0 as usize].is_some());
            let mut refuted = exhaustive;
            let (t, d, al) = (s.trail.len(), s.dtrail.len(), s.alias.len());
            for tr in tries {
                let mut q = VecDeque::new();
                let mut bad = false;
                for (w, v) in &tr {
                    if let Step::Bad = self.set(&mut s, &mut q, *w, *v) {
                        bad = true;
                        break;
                    }
                }
                if !bad {
                    if let Step::Ok = self.propagate(&mut s, &mut q, &mut spent) {
                        refuted = false;
                        // complete it with honest values where nothing is forced
                        if let Some(w) = self.complete(&mut s.clone(), &order, honest, &mut spent, work) {
                            if targets.iter().any(|t| w[*t as usize] != honest[*t as usize]) {
                                return Outcome::Other(w);
                            }
                        }
                    }
                }
                self.undo(&mut s, t, d, al);
                if spent > work {
                    return Outcome::Open;
                }
            }
            guessed |= !refuted;
            let mut q = VecDeque::new();
            for (w, v) in &keep {
                if let Step::Bad = self.set(&mut s, &mut q, *w, *v) {
                    return Outcome::Open;
                }
            }
            if let Step::Bad = self.propagate(&mut s, &mut q, &mut spent) {
                return Outcome::Open;
            }
        }
        Outcome::Open
    }
    fn leaf(&self, s: &State, honest: &[F], targets: &[u32]) -> Option<Outcome> {
        let mut all = true;
        for t in targets {
            match s.val[*t as usize] {
                None => all = false,
                Some(v) if v != honest[*t as usize] => all = false,
                _ => {}
            }
        }
        if all && !targets.is_empty() {
            return Some(Outcome::Unique);
        }
        if s.val.iter().enumerate().all(|(i, v)| v.is_some() || self.uses[i].is_empty()) {
            let w: Vec<F> = s.val.iter().enumerate().map(|(i, v)| v.unwrap_or(honest[i])).collect();
            if self.cons.iter().all(|c| holds(c, &w)) {
                if targets.iter().any(|t| w[*t as usize] != honest[*t as usize]) {
                    return Some(Outcome::Other(w));
                }
                return Some(if targets.is_empty() { Outcome::Other(w) } else { Outcome::Unique });
            }
            return Some(Outcome::Contradiction);
        }
        None
    }
    fn complete(&self, s: &mut State, order: &[u32], honest: &[F], spent: &mut u64, work: u64) -> Option<Vec<F>> {
        for i in order.iter().map(|w| *w as usize) {
            if s.val[i].is_none() && !self.uses[i].is_empty() {
                if *spent > work {
                    return None;
                }
                let mut done = false;
                let mut cands = vec![honest[i]];
                if let Some((a, b)) = s.dom[i] {
                    cands = if honest[i] == b { vec![b, a] } else { vec![a, b] };
                }
                let (t, d, al) = (s.trail.len(), s.dtrail.len(), s.alias.len());
                for v in cands {
                    let mut q = VecDeque::new();
                    if let Step::Ok = self.set(s, &mut q, i as u32, v) {
                        if let Step::Ok = self.propagate(s, &mut q, spent) {
                            done = true;
                            break;
                        }
                    }
                    self.undo(s, t, d, al);
                }
                if !done {
                    return None;
                }
            }
        }
        let w: Vec<F> = s.val.iter().enumerate().map(|(i, v)| v.unwrap_or(honest[i])).collect();
        if self.cons.iter().all(|c| holds(c, &w)) {
            Some(w)
        } else {
            None
        }
    }
}
