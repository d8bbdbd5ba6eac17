//! C05: from circom file to proving instance.
use gluechk::*;
use libspartan::{Instance, NIZKGens, NIZK};
use merlin::Transcript;
use num_bigint_dig::BigUint;
use num_traits::{One, Zero};
use spartanchk::assign;
use std::process::Command;
use vcommon::*;

fn main() {
    let mut l = Ledger::new("C05");
    l.budget = std::time::Duration::from_secs(if l.thorough { 1200 } else { 240 });
    l.run(|l| {
        l.rule = "one case per (circuit, wire assignment, public inputs) put to the converted instance and to the model of the circuit; non-trivial: the circuit has a constraint".into();
        let p = modp();
        let dir = Scratch::new("c05");
        let mut r = Rng::new(l.seed, "circuit");
        let tool = std::env::current_exe().unwrap().parent().unwrap().join("gen_spartan_inst");
        for n in 0..l.n(160, 4000) {
            if l.out_of_time() {
                break;
            }
            let c = match n {
                // files past the sizes of common buffers
                3 => Circuit::shaped(&mut r, 1, 2, 90, 1500),
                9 => Circuit::shaped(&mut r, 2, 1, 300, 2500),
                15 => Circuit::shaped(&mut r, 1, 12, 500, 25_000),
                _ if n % 16 == 7 => {
                    let (o, i, v) = (r.below(6), r.range(4, 14), r.below(8));
                    Circuit::shaped(&mut r, o, i, v, 9)
                }
                _ if n % 40 == 11 => {
                    let (o, i) = (r.below(40), r.range(10, 60));
                    Circuit::shaped(&mut r, o, i, 5, 20)
                }
                _ => Circuit::gen(&mut r, n % 10 == 9),
            };
            let large = c.cons.len() > 1000;
            l.count(if large { "large" } else if c.outs + c.ins > 8 { "many public wires" } else { "small" });
            let file = dir.put(&format!("c{n}.r1cs"), &c.r1cs());
            let npub = c.outs + c.ins;
            let Some(inst) = l.must("conversion-aborts", || c.dump(), || circuit_reader::load_as_spartan_inst(file.clone(), npub)) else { continue };
            // the assignment circom would make, and changed ones
            let io = c.publics();
            let mut tries: Vec<(String, Vec<BigUint>, Vec<BigUint>)> = vec![("honest".into(), c.wires.clone(), io.clone())];
            let one = BigUint::one();
            for i in (0..c.n()).filter(|i| !large || i % 37 == 0) {
                let mut w = c.wires.clone();
                w[i] = addm(&w[i], &if r.chance(1, 2) { one.clone() } else { from_le(&r.arr32()) % &p }, &p);
                tries.push((format!("wire {i} changed"), w.clone(), io.clone()));
                // the public input follows the wire
                let mut x = io.clone();
                if i >= 1 && i <= npub {
                    x[i - 1] = w[i].clone();
                    tries.push((format!("wire {i} and its public input changed"), w, x.clone()));
                    tries.push((format!("public input {} changed", i - 1), c.wires.clone(), x));
                }
            }
            let k = BigUint::from(r.range(2, 9) as u32);
            tries.push(("all wires scaled".into(), c.wires.iter().map(|w| mulm(w, &k, &p)).collect(), io.iter().map(|w| mulm(w, &k, &p)).collect()));
            tries.push(("all zero".into(), vec![BigUint::zero(); c.n()], io.clone()));
            tries.push(("all zero, inputs too".into(), vec![BigUint::zero(); c.n()], vec![BigUint::zero(); npub]));
            let mut w = vec![BigUint::zero(); c.n()];
            w[0] = one.clone();
            tries.push(("zero but for the constant".into(), w, vec![BigUint::zero(); npub]));
            let mut w = c.wires.clone();
            w[0] = BigUint::zero();
            tries.push(("constant wire zero".into(), w, io.clone()));
            if npub > 1 {
                let mut x = io.clone();
                x.rotate_left(1);
                tries.push(("public inputs rotated".into(), c.wires.clone(), x.clone()));
                let mut w = c.wires.clone();
                w[1..=npub].rotate_left(1);
                tries.push(("public wires and inputs rotated".into(), w, x));
            }
            let random: Vec<BigUint> = (0..c.n()).map(|_| from_le(&r.arr32()) % &p).collect();
            tries.push(("random".into(), random, io.clone()));
            for (what, w, x) in &tries {
                let want = c.sat(w) && w[0] == one && w[1..=npub] == x[..];
                let got = l.must("is-sat-aborts", || format!("{what}: {}", c.dump()), || inst.is_sat(&assign(w), &assign(x)).unwrap());
                if let Some(got) = got {
                    l.check(got == want, if want { "refused" } else { "accepted" }, || format!("{what}: the instance says {got}, the circuit {want}; {}", c.dump()));
                    l.count(if want { "satisfied" } else { "violated" });
                    l.case(&(c.r1cs(), what), !c.cons.is_empty(), || format!("{what}: {want} on {}", c.show()));
                }
            }
            // the command-line converter
            if n % 4 == 0 || large {
                let bytes = bincode::serialize(&inst).unwrap();
                let out = format!("o{n}.circuit");
                // a file of that name may be there already, longer or shorter
                if n % 8 != 4 {
                    let k = if n % 3 == 0 { bytes.len() / 2 } else { bytes.len() + r.below(5000) };
                    dir.put(&out, &r.bytes(k));
                    l.count("output_overwritten");
                }
                let (a, cwd) = match n % 3 {
                    0 => (file.to_str().unwrap().to_string(), dir.0.clone()),
                    _ => (format!("c{n}.r1cs"), dir.0.clone()),
                };
                let run = Command::new(&tool).args([&a, &out, &npub.to_string()]).current_dir(cwd).output();
                match run {
                    Err(e) => println!("note: converter not run: {e}"),
                    Ok(o) => {
                        let got = std::fs::read(dir.0.join(&out)).unwrap_or_default();
                        l.check(o.status.success() && got == bytes, "converter", || format!("the converter ended with {} and wrote {} bytes that are not the {} of the instance; {}", o.status, got.len(), bytes.len(), c.dump()));
                        l.count("converter_runs");
                        // and what it wrote still decides the same
                        if let Some(back) = l.must("read-back-aborts", || c.dump(), || bincode::deserialize::<Instance>(&got).unwrap()) {
                            for (what, w, x) in tries.iter().take(12) {
                                let want = c.sat(w) && w[0] == one && w[1..=npub] == x[..];
                                let got = attempt(|| back.is_sat(&assign(w), &assign(x)).unwrap());
                                l.check(matches!(got, Ok(g) if g == want), "read-back", || format!("{what}: the instance read back says {:?}, the circuit {want}; {}", got.is_ok(), c.dump()));
                            }
                        }
                    }
                }
            }
            // and in an actual proof
            if n % 12 == 0 && !large && !c.cons.is_empty() {
                let gens = NIZKGens::new(c.cons.len() + npub + 1, c.n(), npub);
                for (what, w, x) in tries.iter().filter(|t| t.0 == "honest" || t.0.starts_with("public input 0") || t.0 == "all zero") {
                    let want = c.sat(w) && w[0] == one && w[1..=npub] == x[..];
                    let got = attempt(|| {
                        let pr = NIZK::prove(&inst, assign(w), &assign(x), &gens, &mut Transcript::new(b"c05"));
                        pr.verify(&inst, &assign(x), &mut Transcript::new(b"c05"), &gens).is_ok()
                    })
                    .unwrap_or(false);
                    l.check(got == want, "proof", || format!("{what}: a proof on the converted circuit is {}, the circuit says {want}; {}", if got { "accepted" } else { "not accepted" }, c.dump()));
                    l.count("proofs");
                }
            }
            let _ = std::fs::remove_file(&file);
        }
        l.require("satisfied", 40);
        l.require("violated", 200);
        l.require("converter_runs", 5);
        l.require("output_overwritten", 5);
        l.require("large", 2);
        l.require("many public wires", 5);
    })
}
