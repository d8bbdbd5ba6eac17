//! C06: the satisfaction oracle against exact integer arithmetic, and the refusals of Instance::new.
use libspartan::verif_hooks::errors::R1CSError;
use libspartan::{Assignment, Instance};
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use spartanchk::*;
use vcommon::*;

fn kind(e: &R1CSError) -> &'static str {
    match e {
        R1CSError::InvalidIndex => "InvalidIndex",
        R1CSError::InvalidScalar => "InvalidScalar",
        R1CSError::InvalidNumberOfInputs => "InvalidNumberOfInputs",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}
type BM = Vec<(usize, usize, [u8; 32])>;
fn build(l: &mut Ledger, what: &str, nc: usize, nv: usize, ni: usize, m: &[BM; 3]) -> Option<Result<Instance, R1CSError>> {
    l.must(what, || format!("Instance::new cons={} vars={} inputs={} nnz={}/{}/{}", nc, nv, ni, m[0].len(), m[1].len(), m[2].len()), || Instance::new(nc, nv, ni, &m[0], &m[1], &m[2]))
}
fn bm(s: &Sys) -> [BM; 3] {
    [bytes_mat(&s.m[0]), bytes_mat(&s.m[1]), bytes_mat(&s.m[2])]
}
fn judge(l: &mut Ledger, s: &Sys, inst: &Instance, vars: &[BigUint], inputs: &[BigUint], what: &str) {
    let want = s.sat(&vars[..vars.len().min(s.nv)], inputs);
    let (va, ia) = (assign(vars), assign(inputs));
    let got = l.must("is-sat-abort", || format!("is_sat on {} ({})", s.show(), what), || inst.is_sat(&va, &ia).map_err(|e| kind(&e).to_string()));
    if let Some(got) = got {
        l.check(got == Ok(want), "is-sat", || format!("{} ({}): is_sat says {:?}, exact arithmetic says {}; system {}", s.show(), what, got, want, s.key()));
        l.count(if want { "satisfied" } else { "violated" });
        l.case(&(s.key(), what, vars.to_vec(), inputs.to_vec()), true, || format!("{} {} -> {}", s.show(), what, want));
    }
}

fn main() {
    let mut l = Ledger::new("C06");
    l.rule = "is_sat, the refusals of Instance::new and the synthetic generator against exact integer arithmetic; one case per (system, assignment) or malformed input".into();
    l.run(|l| {
        l.require("satisfied", 300);
        l.require("violated", 300);
        l.require("refused:InvalidIndex", 60);
        l.require("refused:InvalidScalar", 60);
        l.require("refused:length", 60);
        l.require("synthetic", 8);
        let p = modp();
        let mut r = Rng::new(l.seed, "c06");
        let sizes = [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100];
        let total = l.n(900, 20000);
        for it in 0..total {
            if l.out_of_time() {
                break;
            }
            let small = it < sizes.len() * sizes.len();
            let (nc, nv) = if small { (sizes[it / sizes.len()], sizes[it % sizes.len()]) } else { (r.below(40), r.below(40)) };
            let ni = *r.pick(&[0usize, 0, 1, 1, 2, 3, 5, 8, nv, nv + 1, 2 * nv + 1]);
            let w = *r.pick(&[Wit::Random, Wit::Small, Wit::Edge, Wit::AllZero, Wit::AllEqual]);
            let w = if nv == 0 && w == Wit::AllZero { Wit::Random } else { w };
            let dens = *r.pick(&[1usize, 2, 3, 8]);
            let s = gen_sys(&mut r, nc, nv, ni, dens, w);
            let m = bm(&s);
            l.count(if nc.is_power_of_two() { "cons_pow2" } else { "cons_not_pow2" });
            l.count(if nv.is_power_of_two() { "vars_pow2" } else { "vars_not_pow2" });
            let inst = match build(l, "new-abort", nc, nv, ni, &m) {
                Some(Ok(i)) => i,
                Some(Err(e)) => {
                    l.violation("new-refuses-valid", &format!("{} refused with {}", s.show(), kind(&e)));
                    continue;
                }
                None => continue,
            };
            judge(l, &s, &inst, &s.vars, &s.inputs, "satisfying");
            // trailing zero variables may be left out, and padding up to the internal size is not read
            let mut cut = s.vars.clone();
            while cut.last().map(|x| x.is_zero()).unwrap_or(false) && r.chance(3, 4) {
                cut.pop();
            }
            if cut.len() < s.vars.len() {
                judge(l, &s, &inst, &cut, &s.inputs, "shortened");
            } else if !cut.is_empty() {
                let k = r.below(cut.len());
                cut.truncate(k);
                judge(l, &s, &inst, &cut, &s.inputs, "truncated");
            }
            // every way of being wrong, each in isolation
            for _ in 0..2 {
                if let Some((t, what)) = falsify(&mut r, &s) {
                    if t.m == s.m {
                        judge(l, &s, &inst, &t.vars, &t.inputs, what);
                    } else if let Some(Ok(i2)) = build(l, "new-abort", nc, nv, ni, &bm(&t)) {
                        judge(l, &t, &i2, &t.vars, &t.inputs, what);
                    }
                }
            }
            // one single row violated, each row in turn for small systems
            if nc > 0 {
                let row = if small { nc - 1 } else { r.below(nc) };
                let mut t = s.clone();
                // by a single bit, each in turn
                let e = (BigUint::one() << (it % 256)) % &p;
                t.m[2].push((row, nv, if r.chance(1, 4) { &p - e } else { e }));
                if let Some(Ok(i2)) = build(l, "new-abort", nc, nv, ni, &bm(&t)) {
                    judge(l, &t, &i2, &t.vars, &t.inputs, "one row violated");
                }
                // a row of constants, right or wrong
                let edge = [BigUint::zero(), BigUint::one(), &p - 1u32, BigUint::from(2u32), &p - 2u32, (&p - 1u32) / 2u32, from_le(&r.arr32()) % &p];
                let mut abc: Vec<BigUint> = (0..3).map(|i| edge[(it / [1usize, 7, 49][i]) % 7].clone()).collect();
                if r.chance(1, 3) {
                    abc[2] = mulm(&abc[0], &abc[1], &p);
                }
                let mut t = s.clone();
                for (k, c) in abc.into_iter().enumerate() {
                    t.m[k].retain(|e| e.0 != row);
                    t.m[k].push((row, nv, c));
                }
                if let Some(Ok(i2)) = build(l, "new-abort", nc, nv, ni, &bm(&t)) {
                    judge(l, &t, &i2, &t.vars, &t.inputs, "a row of constants");
                }
            }
            // rows whose errors would cancel out if they were added up, whatever the weights of the
            // rows (constant, the index and its powers, alternating, doubling) or counted in few bits
            if nc > 1 {
                for _ in 0..2 {
                    let (es, how) = conspiracy(&mut r, nc);
                    let mut t = s.clone();
                    let elsewhere = r.chance(1, 5);
                    for (row, e) in es {
                        // an error in C, or now and then one made by A or B
                        let k = if elsewhere { r.below(3) } else { 2 };
                        t.m[k].push((row, nv, e));
                    }
                    if let Some(Ok(i2)) = build(l, "new-abort", nc, nv, ni, &bm(&t)) {
                        judge(l, &t, &i2, &t.vars, &t.inputs, how);
                        l.count("errors_that_cancel");
                    }
                }
            }
            // assignments of impossible length
            let cap = s.padded_vars();
            for extra in [1usize, 2, cap] {
                let v = assign(&vec![BigUint::zero(); cap + extra]);
                let i = assign(&s.inputs);
                let got = l.must("is-sat-abort", || format!("{} variables for {}", cap + extra, s.show()), || inst.is_sat(&v, &i).map_err(|e| kind(&e).to_string()));
                if let Some(g) = got {
                    l.check(g.is_err(), "length-accepted", || format!("{} variables for {}: {:?}", cap + extra, s.show(), g));
                    l.count("refused:length");
                }
            }
            for n in [ni + 1, ni.wrapping_sub(1), 0, ni + 7] {
                if n == ni || n > ni + 7 {
                    continue;
                }
                let v = assign(&s.vars);
                let i = assign(&vec![BigUint::zero(); n]);
                let got = l.must("is-sat-abort", || format!("{} inputs for {}", n, s.show()), || inst.is_sat(&v, &i).map_err(|e| kind(&e).to_string()));
                if let Some(g) = got {
                    l.check(g.is_err(), "length-accepted", || format!("{} inputs for {}: {:?}", n, s.show(), g));
                    l.count("refused:length");
                }
            }
            // malformed entries
            for k in 0..3 {
                let mut bad = m.clone();
                let (entry, want) = match r.below(6) {
                    0 => ((nc, r.below(nv + 1 + ni), le32(&BigUint::one())), "InvalidIndex"),
                    1 => ((nc + r.range(1, 1 << 20), 0, le32(&BigUint::zero())), "InvalidIndex"),
                    2 if nc > 0 => ((r.below(nc), nv + 1 + ni, le32(&BigUint::one())), "InvalidIndex"),
                    3 if nc > 0 => ((r.below(nc), nv + 1 + ni + r.range(1, 1 << 20), le32(&BigUint::zero())), "InvalidIndex"),
                    4 if nc > 0 => {
                        let v = if r.chance(1, 2) { p.clone() } else { &p + (from_le(&r.arr32()) % (two256() - &p)) };
                        ((r.below(nc), r.below(nv + 1 + ni), le32(&v)), "InvalidScalar")
                    }
                    _ if nc > 0 => ((r.below(nc), r.below(nv + 1 + ni), [255u8; 32]), "InvalidScalar"),
                    _ => ((nc, 0, le32(&BigUint::one())), "InvalidIndex"),
                };
                let at = r.below(bad[k].len() + 1);
                bad[k].insert(at, entry);
                if let Some(res) = build(l, "new-abort", nc, nv, ni, &bad) {
                    match res {
                        Ok(_) => l.violation("malformed-accepted", &format!("{} with entry ({},{},{}) in matrix {}", s.show(), entry.0, entry.1, hex(&entry.2), k)),
                        Err(e) => {
                            l.check(kind(&e) == want, "wrong-error", || format!("{} with entry ({},{},{}) in matrix {}: {} instead of {}", s.show(), entry.0, entry.1, hex(&entry.2), k, kind(&e), want));
                            l.count(&format!("refused:{}", want));
                        }
                    }
                    l.case(&(s.key(), entry, k), true, || format!("{} with entry ({},{}) in matrix {} refused as {}", s.show(), entry.0, entry.1, k, want));
                }
            }
            // the last row and column in range are accepted and mean what they should
            if nc > 0 {
                let mut t = s.clone();
                let v = scalar_like(&mut r, Wit::Random);
                t.m[r.below(3)].push((nc - 1, nv + ni, v));
                if let Some(res) = build(l, "new-abort", nc, nv, ni, &bm(&t)) {
                    match res {
                        Ok(i2) => judge(l, &t, &i2, &t.vars, &t.inputs, "extra entry in the last cell"),
                        Err(e) => l.violation("new-refuses-valid", &format!("{}: entry in the last cell refused with {}", s.show(), kind(&e))),
                    }
                }
            }
        }
        // as many violated rows as a short counter would forget
        for nc in [256usize, 512, 300, 65536, 65540] {
            let bad = if nc % 256 == 0 { nc } else { nc / 256 * 256 };
            let nv = r.range(1, 3);
            let mut s = Sys { nc, nv, ni: 0, m: [vec![], vec![], vec![]], vars: (0..nv).map(|_| from_le(&r.arr32()) % modp()).collect(), inputs: vec![] };
            let from = r.below(nc - bad + 1);
            let e = scalar_like(&mut r, Wit::Random) + 1u32;
            s.m[2] = (from..from + bad).map(|i| (i, nv, &e % modp())).collect();
            if (&e % modp()).is_zero() {
                continue;
            }
            if let Some(Ok(i2)) = build(l, "new-abort", nc, nv, 0, &bm(&s)) {
                let got = l.must("is-sat-abort", || format!("is_sat with {nc} rows"), || i2.is_sat(&assign(&s.vars), &assign(&s.inputs)).map_err(|e| kind(&e).to_string()));
                if let Some(g) = got {
                    l.check(g == Ok(false), "is-sat", || format!("{nc} constraints, {bad} of them violated: is_sat says {g:?}"));
                }
                l.count("many_violated_rows");
            }
        }
        // assignments: canonical values only
        for _ in 0..l.n(60, 500) {
            let n = r.range(1, 9);
            let mut v: Vec<[u8; 32]> = (0..n).map(|_| le32(&scalar_like(&mut r, Wit::Edge))).collect();
            let ok = Assignment::new(&v).is_ok();
            l.check(ok, "assignment-refuses-valid", || format!("{:?}", v.iter().map(|x| hex(x)).collect::<Vec<_>>()));
            let at = r.below(n);
            let big = &p + (from_le(&r.arr32()) % (two256() - &p));
            v[at] = if r.chance(1, 2) { le32(&p) } else { le32(&big) };
            match Assignment::new(&v) {
                Ok(_) => l.violation("assignment-noncanonical", &format!("accepted {}", hex(&v[at]))),
                Err(e) => {
                    l.check(kind(&e) == "InvalidScalar", "wrong-error", || format!("assignment with {}: {}", hex(&v[at]), kind(&e)));
                    l.count("refused:InvalidScalar");
                }
            }
            l.case(&v, true, || format!("assignment with {}", hex(&v[at])));
        }
        // the generator of satisfiable instances
        for lc in 0..l.n(6, 9) {
            for lv in 0..l.n(6, 9) {
                let (nc, nv) = (1usize << lc, 1usize << lv);
                let ni = r.below(nv);
                if let Some((inst, vars, inputs)) = l.must("synthetic-abort", || format!("produce_synthetic_r1cs({},{},{})", nc, nv, ni), || Instance::produce_synthetic_r1cs(nc, nv, ni)) {
                    let ok = attempt(|| inst.is_sat(&vars, &inputs).unwrap_or(false)).unwrap_or(false);
                    l.check(ok, "synthetic-unsatisfied", || format!("produce_synthetic_r1cs({},{},{})", nc, nv, ni));
                    // judged without the oracle: read the instance and the assignment back as data
                    let v = serde_json::to_value(&inst).unwrap();
                    let read = |k: &str| -> Mat {
                        v["inst"][k]["M"].as_array().map(|a| a.iter().map(|e| (e["row"].as_u64().unwrap() as usize, e["col"].as_u64().unwrap() as usize, from_le(&leaf_bytes(&e["val"])))).collect()).unwrap_or_default()
                    };
                    let vals = |a: &Assignment| -> Vec<BigUint> { serde_json::to_value(a).unwrap()["assignment"].as_array().unwrap().iter().map(|x| from_le(&leaf_bytes(x))).collect() };
                    let s = Sys { nc, nv, ni, m: [read("A"), read("B"), read("C")], vars: vals(&vars), inputs: vals(&inputs) };
                    l.check(s.vars.len() == nv && s.inputs.len() == ni, "synthetic-shape", || format!("{} variables, {} inputs for ({},{},{})", s.vars.len(), s.inputs.len(), nc, nv, ni));
                    if s.m.iter().all(|m| !m.is_empty()) {
                        let sat = s.sat(&s.vars, &s.inputs);
                        l.check(sat, "synthetic-unsatisfied", || format!("produce_synthetic_r1cs({},{},{}) by exact arithmetic", nc, nv, ni));
                        l.count("synthetic");
                        if let Some((t, what)) = falsify(&mut r, &s) {
                            if t.m == s.m {
                                judge(l, &s, &inst, &t.vars, &t.inputs, what);
                            }
                        }
                    }
                    l.case(&(nc, nv, ni, "synthetic"), true, || format!("synthetic {} {} {}", nc, nv, ni));
                }
            }
        }
    })
}
