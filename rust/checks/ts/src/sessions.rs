// included by main.rs: whole sessions of prover and verifier
struct Circ {
    /// what the prover is told
    witness: String,
    circuit: String,
    levels: usize,
    addr: bool,
}
fn circuits() -> PathBuf {
    std::path::Path::new("/repo/packages/circuits").to_path_buf()
}
fn program(file: &str, template: Option<(&str, usize)>) -> Result<Program, String> {
    let mut p = Program::load(&circuits().join(file), &verif().join("circomlib"))?;
    if let Some((t, n)) = template {
        if !p.has(t) {
            return Err(format!("{file} has no template {t}"));
        }
        p.set_main(t, &[F::u(n as u64)], &["root", "Tx", "Ty", "Ux", "Uy"]);
    }
    Ok(p)
}
/// the instance file the prover and the verifier load, made by the repository's own converter
fn instance(p: &Program, levels: usize, file: &Path) -> Result<(), String> {
    let mut ins: HashMap<String, Vec<F>> = HashMap::new();
    for k in ["s", "root", "Tx", "Ty", "Ux", "Uy"] {
        ins.insert(k.into(), vec![F::u(3)]);
    }
    for k in ["pathIndices", "siblings"] {
        ins.insert(k.into(), vec![F::ONE; levels]);
    }
    let r = p.run(&ins, Opt { sym: true, hints: None })?;
    let l = r1cs::layout(&r);
    let rf = file.with_extension("r1cs");
    std::fs::write(&rf, r1cs::r1cs(&r, &l)).map_err(|e| e.to_string())?;
    let inst = attempt(|| circuit_reader::load_as_spartan_inst(rf.clone(), 5)).map_err(|e| format!("conversion aborts: {} at {}", e.msg, e.loc))?;
    std::fs::write(file, bincode::serialize(&inst).unwrap()).map_err(|e| e.to_string())
}
fn address(q: &Pt) -> BigUint {
    let (x, y) = q.clone().unwrap();
    from_be(&circomi::keccak256(&[be32(&x), be32(&y)].concat())[12..])
}
fn keyhex(q: &Pt) -> String {
    let (x, y) = q.clone().unwrap();
    hex(&[be32(&x), be32(&y)].concat())
}
fn canonical(proof: &[u8]) -> Option<Vec<u8>> {
    attempt(|| bincode::deserialize::<libspartan::NIZK>(proof).ok().and_then(|p| bincode::serialize(&p).ok())).ok().flatten()
}
/// an alteration of the serialised public input: what, and how
fn alter_ser(r: &mut Rng, s: &Sig, other: &Sig) -> (&'static str, Value) {
    let f = tu(&s.r, s.odd, &from_be(&s.m)).unwrap();
    let h = |x: &BigUint| hex(&be32(x));
    let at = |i: usize| 33 + 32 * i;
    let p = modp();
    match r.below(16) {
        0 => ("root plus one", json!([["xor", at(0) + 31, 1]])),
        1 => ("a bit of the root", json!([["xor", at(0) + r.below(32), 1 << r.below(8)]])),
        2 => ("a bit of T or U", json!([["xor", at(1) + r.below(128), 1 << r.below(8)]])),
        3 => ("a bit of r", json!([["xor", r.below(32), 1 << r.below(8)]])),
        4 => ("the other recovery id", json!([["set", 32, format!("{:02x}", s.other_v())]])),
        5 => ("a bit of the message", json!([["xor", at(5) + r.below(32), 1 << r.below(8)]])),
        6 => ("T negated", json!([["set", at(2), h(&negm(&f[1], &p))]])),
        7 => ("T negated with the other recovery id", json!([["set", at(2), h(&negm(&f[1], &p))], ["set", 32, format!("{:02x}", s.other_v())]])),
        8 => {
            // another message with the U that belongs to it
            let m = r.bytes(32);
            let g = tu(&s.r, s.odd, &from_be(&m)).unwrap();
            ("another message with its U", json!([["set", at(5), hex(&m)], ["set", at(3), format!("{}{}", h(&g[2]), h(&g[3]))]]))
        }
        9 => {
            let m = r.bytes(32);
            ("another message with the old U", json!([["set", at(5), hex(&m)]]))
        }
        10 => {
            let g = tu(&other.r, other.odd, &from_be(&other.m)).unwrap();
            let t: String = g.iter().map(&h).collect();
            ("another signature's whole public input", json!([["set", 0, h(&other.r)], ["set", 32, format!("{:02x}", other.v())], ["set", at(1), t], ["set", at(5), hex(&other.m)]]))
        }
        11 => {
            let g = tu(&other.r, other.odd, &from_be(&other.m)).unwrap();
            let t: String = g.iter().map(&h).collect();
            ("another signature's T and U", json!([["set", at(1), t]]))
        }
        12 => ("cut short", json!([["cut", *r.pick(&[1usize, 32, 33, 100, 160, 192, 193, 224, 225])]])),
        13 => ("a longer message", json!([["append", hex(&r.bytes(1))]])),
        14 => ("a value plus the modulus", json!([["set", at(0), "ff".repeat(32)]])),
        _ => ("r, recovery id and message of another signature", json!([["set", 0, h(&other.r)], ["set", 32, format!("{:02x}", other.v())], ["set", at(5), hex(&other.m)]])),
    }
}
/// A file of the same length that differs in its last byte
fn twin(p: &str) -> String {
    let (folder, file) = p.rsplit_once('/').unwrap();
    format!("{folder}-twin/{file}")
}
fn make_twin(p: &str) {
    let mut b = std::fs::read(p).unwrap();
    *b.last_mut().unwrap() ^= 1;
    let t = twin(p);
    std::fs::create_dir_all(Path::new(&t).parent().unwrap()).unwrap();
    std::fs::write(t, b).unwrap();
}
struct Expect {
    what: String,
    fault: bool,
    wrong_circuit: bool,
}
/// What the serialized public input has to be
fn public_input(s: &Sig, root: &BigUint) -> Vec<u8> {
    let f = tu(&s.r, s.odd, &from_be(&s.m)).unwrap();
    let mut ser = be32(&s.r).to_vec();
    ser.push(s.v() as u8);
    ser.extend(be32(root));
    for x in &f {
        ser.extend(be32(x));
    }
    ser.extend(&s.m);
    ser
}
fn c25_session(l_seed: u64, k: usize, c: &Circ, others: &[String], ideal: bool, verifs: usize, native: &Native, dir: &Path, b: &Path, ps: &Params) -> Result<Vec<(String, Verdict)>, String> {
    let mut r = Rng::new(l_seed, &format!("c25-{k}"));
    let depth = c.levels;
    let cap = if depth > 4 { 6 } else { 1 << depth };
    let mut d = vec![];
    for i in 0..r.range(1, cap.min(6)) {
        d.push(match r.below(4) {
            0 => u(i as u64 + 1),
            _ => from_le(&r.arr32()) % (modn() - 1u32) + 1u32,
        });
    }
    let pts: Vec<Pt> = d.iter().map(|x| mul(&g(), x)).collect();
    let leaves: Vec<BigUint> = pts.iter().map(|q| if c.addr { address(q) } else { let (x, y) = q.clone().unwrap(); ps.hash(&x, &y) }).collect();
    let me = r.below(d.len());
    let deleted: Vec<usize> = (0..d.len()).filter(|i| *i != me && r.chance(1, 5)).collect();
    let mut model = Model::new(depth, ps);
    model.leaves = leaves.clone();
    for i in &deleted {
        model.leaves[*i] = BigUint::zero();
    }
    let root = model.root(ps);
    let remote = r.chance(1, 3);
    let kind = r.below(3);
    let url = |p: &str| match (remote, kind) {
        (true, 0) => format!("https://files.test/get?file={p}"),
        (true, 1) => format!("https://files.test{p}"),
        // relative to the page
        (true, _) => format!("/files.test{p}"),
        _ => p.to_string(),
    };
    let mut steps = vec![];
    let mut expect: HashMap<usize, Expect> = HashMap::new();
    let s = sign(&mut r, Some(d[me].clone()));
    let other = sign(&mut r, None);
    let text = |s: &Sig| format!("0x{}{}{:02x}", hex(&be32(&s.r)), hex(&be32(&s.s)), s.v());
    steps.push(json!(["prove", {"sig": text(&s), "m": hex(&s.m), "index": me}]));
    // someone without a leaf: a stranger, a former member, or a member against another root
    let (sig2, idx, rt) = match r.below(3) {
        0 => (sign(&mut r, None), me, None),
        1 if d.len() > 1 => {
            let i = (me + 1) % d.len();
            (sign(&mut r, Some(d[i].clone())), me, None)
        }
        _ => (sign(&mut r, Some(d[me].clone())), me, Some(elem(&mut r))),
    };
    let mut cheat = json!({"sig": text(&sig2), "m": hex(&sig2.m), "index": idx});
    if let Some(x) = &rt {
        cheat["root"] = json!(st(x));
    }
    let honest = json!({"of": 0, "proof": [], "ser": []});
    let mut push = |steps: &mut Vec<Value>, expect: &mut HashMap<usize, Expect>, v: Value, what: String, fault: bool, wrong: bool| {
        expect.insert(steps.len(), Expect { what, fault, wrong_circuit: wrong });
        steps.push(json!(["verify", v]));
    };
    push(&mut steps, &mut expect, honest.clone(), "as proved".into(), false, false);
    for _ in 0..verifs {
        let mut v = honest.clone();
        match r.below(10) {
            0..=3 => {
                let (w, how) = alter_ser(&mut r, &s, &other);
                v["ser"] = how;
                push(&mut steps, &mut expect, v, format!("public input with {w}"), false, false);
            }
            4 | 5 => {
                let how = match r.below(5) {
                    0 => json!([["cut", r.range(1, 40)]]),
                    1 => json!([["swap", 32 * r.below(5), 32 * r.range(5, 9), 32]]),
                    2 => json!([["all", hex(&r.bytes(400))]]),
                    3 => json!([["all", ""]]),
                    _ => json!([["xor", r.below(1 << 20), 1 << r.below(8)]]),
                };
                v["proof"] = how;
                push(&mut steps, &mut expect, v, "altered proof".into(), false, false);
            }
            6 => {
                v["fault"] = json!({"op": "V", "how": *r.pick(&["trap", "err", "false", "oom"])});
                if r.chance(1, 3) {
                    let (_, how) = alter_ser(&mut r, &s, &other);
                    v["ser"] = how;
                }
                push(&mut steps, &mut expect, v, "verifying fails".into(), true, false);
            }
            7 => {
                let w = match r.below(4) {
                    0 => dir.join("no-such-file.circuit").to_string_lossy().into_owned(),
                    1 => twin(&c.circuit),
                    2 => b.to_string_lossy().into_owned(),
                    _ => r.pick(others).clone(),
                };
                v["verifier"] = json!({"circuit": url(&w), "remote": remote});
                push(&mut steps, &mut expect, v, format!("a verifier for {}", w.rsplit('/').take(2).collect::<Vec<_>>().join(" of ")), false, true);
            }
            8 => push(&mut steps, &mut expect, v, "as proved, again".into(), false, false),
            _ => {
                // good and bad ones under way at once
                let (_, h1) = alter_ser(&mut r, &s, &other);
                let (_, h2) = alter_ser(&mut r, &s, &other);
                let mut list = vec![honest.clone(), json!({"of": 0, "proof": [], "ser": h1}), honest.clone(), json!({"of": 0, "proof": [["xor", 50, 1]], "ser": []}), json!({"of": 0, "proof": [], "ser": h2})];
                // and verifiers for another circuit, or for one of the very same length
                for w in [twin(&c.circuit), r.pick(others).clone()] {
                    list.push(json!({"of": 0, "proof": [], "ser": [], "verifier": {"circuit": url(&w), "remote": remote}}));
                }
                list.push(json!({"of": 0, "proof": [], "ser": [], "verifier": {"circuit": url(&c.circuit), "remote": remote}}));
                r.shuffle(&mut list);
                for (j, v) in list.iter().enumerate() {
                    let wrong = v["verifier"]["circuit"].as_str().map(|x| x != url(&c.circuit)).unwrap_or(false);
                    expect.insert(steps.len() * 1000 + j, Expect { what: "several at once".into(), fault: false, wrong_circuit: wrong });
                }
                steps.push(json!(["together", list]));
            }
        }
    }
    let cheat_at = steps.len();
    steps.push(json!(["prove", cheat]));
    push(&mut steps, &mut expect, json!({"of": 1, "proof": [], "ser": []}), "what a non-member made".into(), false, false);
    push(&mut steps, &mut expect, json!({"of": 0, "proof": [], "ser": []}), "as proved, at the end".into(), false, false);
    // several members' proofs under way at once with one prover
    let mut own: HashMap<u64, (Vec<u8>, String)> = HashMap::new();
    if depth <= 3 || (ideal && !c.addr && r.chance(1, 3)) {
        let at = steps.len();
        let live: Vec<usize> = (0..d.len()).filter(|i| !deleted.contains(i)).collect();
        let mut list = vec![];
        for j in 0..r.range(2, 3) {
            let i = *r.pick(&live);
            let s = sign(&mut r, Some(d[i].clone()));
            list.push(json!({"sig": text(&s), "m": hex(&s.m), "index": i}));
            own.insert((at * 1000 + j) as u64, (public_input(&s, &root), format!("member {i}, one of several proofs at once")));
        }
        let many = list.len();
        steps.push(json!(["prove-together", list]));
        for j in (0..many).rev() {
            let (ser, what) = own[&((at * 1000 + j) as u64)].clone();
            own.insert(steps.len() as u64, (ser, what));
            steps.push(json!(["verify", {"by": at * 1000 + j, "proof": [], "ser": []}]));
        }
    }
    let members: Vec<String> = pts.iter().zip(&leaves).map(|(q, x)| if c.addr { st(x) } else { keyhex(q) }).collect();
    let work = json!({"op": "session", "depth": depth, "kind": if c.addr { "address" } else { "pubkey" }, "members": members, "deleted": deleted,
        "circuit": url(&c.circuit), "witness": c.witness, "vcircuit": url(&c.circuit), "profiler": r.chance(1, 3), "remote": remote, "steps": steps});
    let out = node::run(b, dir, &format!("s{k}"), native, &[work.clone()])?;
    let mut res = vec![];
    let mut v0 = Verdict::default();
    let about = format!("{} of depth {depth}, member {me} of {}, {} proof system, r={} v={} m={}", if c.addr { "addresses" } else { "keys" }, d.len(), if ideal { "ideal" } else { "real" }, s.r, s.v(), hex(&s.m));
    // what the honest prover gave
    let evs: Vec<&Value> = out.iter().filter(|x| !x["ev"].is_null()).map(|x| &x["ev"]).collect();
    let Some(p0) = evs.iter().find(|e| e["step"] == 0) else {
        return Err(format!("no event for the proof: {}", out.last().map(|x| x.to_string()).unwrap_or_default()));
    };
    if p0["known"] != 0 {
        v0.bad("honest-prover-fails", format!("{}; {about}", p0["error"]));
        res.push((about, v0));
        return Ok(res);
    }
    let ser = public_input(&s, &root);
    if p0["ser"].as_str() != Some(&hex(&ser)) {
        v0.bad("prover-public-input", format!("the public input should be {}: {}; {about}", hex(&ser), p0["ser"]));
    }
    if p0["after"].as_str() != Some(&hex(&s.m)) {
        v0.bad("message-altered", format!("the message hash became {}; {about}", p0["after"]));
    }
    v0.counts.push("honest_proofs");
    let proof = unhex(p0["proof"].as_str().unwrap());
    let canon = canonical(&proof);
    let cheated = evs.iter().find(|e| e["step"] == cheat_at && e["known"] == 1);
    v0.counts.push(if cheated.is_some() { "non_member_proofs_made" } else { "non_members_cannot_prove" });
    for e in &evs {
        let Some(step) = e["step"].as_u64() else { continue };
        if let Some((want, what)) = own.get(&step) {
            let mut v = Verdict::default();
            let label = format!("{what}: {about}");
            if e["result"].is_null() && e["truthy"].is_null() {
                if e["known"].is_null() {
                    v.bad("honest-prover-fails", format!("{}; {label}", e["error"]));
                } else if e["ser"].as_str() != Some(&hex(want)) {
                    v.bad("prover-public-input", format!("the public input should be {}: {}; {label}", hex(want), e["ser"]));
                }
                v.counts.push("concurrent_proofs");
            } else if e["result"] != json!(true) {
                v.bad("honest-refused", format!("{e}; {label}"));
            }
            res.push((label, v));
            continue;
        }
        let Some(x) = expect.get(&(step as usize)) else { continue };
        if e["skipped"] == json!(true) {
            continue;
        }
        let mut v = Verdict::default();
        let given = unhex(e["ser"].as_str().unwrap());
        let success = e["truthy"] == json!(true);
        let of = e["of"].as_u64().unwrap();
        let same = e["proofSame"] == json!(true);
        let exact = of == 0 && same && given == ser && !x.fault && !x.wrong_circuit;
        let label = format!("{}: {about}", x.what);
        if exact {
            v.counts.push("honest_verifications");
            if e["result"] != json!(true) {
                v.bad("honest-refused", format!("{e}; {label}"));
            }
        } else if success {
            let inputs = given.len() >= 193 && {
                let b = |i: usize| from_be(&given[33 + 32 * i..65 + 32 * i]);
                tu(&from_be(&given[..32]), given[32] % 2 == 0, &from_be(&given[193..])).map(|t| t == [b(1), b(2), b(3), b(4)]).unwrap_or(false)
            };
            let proven = of == 0 && given.len() >= 193 && given[33..193] == ser[33..193] && !x.wrong_circuit && {
                same || (!ideal && canon.is_some() && canonical(&unhex(e["proof"].as_str().unwrap_or(""))) == canon)
            };
            if !inputs || !proven || x.fault {
                let key = if x.fault {
                    "success-though-verifying-failed"
                } else if !inputs {
                    "wrong-public-input-accepted"
                } else {
                    "unproven-accepted"
                };
                v.bad(key, format!("{} reported as verified: {}; public input {}", label, e["result"], hex(&given)));
            } else {
                v.counts.push("other_encodings_accepted");
            }
        } else {
            v.counts.push(if x.fault {
                "faults_refused"
            } else if x.wrong_circuit {
                "other_circuits_refused"
            } else if of == 1 {
                "non_member_proofs_refused"
            } else if !same {
                "altered_proofs_refused"
            } else {
                "altered_inputs_refused"
            });
            if e["error"].is_null() && e["result"] != json!(false) {
                v.counts.push("refused_with_other_falsy_value");
            }
        }
        if x.what == "several at once" {
            v.counts.push("concurrent_verifications");
        }
        if e["untouched"] == json!(false) {
            v.bad("argument-altered", format!("the verifier changed what it was given; {label}"));
        }
        res.push((label, v));
    }
    res.push((about, v0));
    Ok(res)
}
fn c25(l: &mut Ledger, dir: &Path, b: &Path) {
    let ps = k256_params();
    // one file name for all, as they come from the releases: only the folder tells them apart
    let mk = |n: &str| {
        let (folder, kind) = n.rsplit_once('.').unwrap();
        std::fs::create_dir_all(dir.join(folder)).unwrap();
        dir.join(folder).join(format!("membership.{}", if kind == "wasm" { "wasm" } else { "circuit" })).to_string_lossy().into_owned()
    };
    let mut programs = HashMap::new();
    let mut real = vec![];
    let mut ideal = vec![];
    let specs: Vec<(&'static str, &'static str, Option<(&'static str, usize)>, usize, bool)> = vec![
        ("keys2", "eff_ecdsa_membership/pubkey_membership.circom", Some(("PubKeyMembership", 2)), 2, false),
        ("keys3", "eff_ecdsa_membership/pubkey_membership.circom", Some(("PubKeyMembership", 3)), 3, false),
        ("keys20", "instances/pubkey_membership.circom", None, 20, false),
        ("addr20", "instances/addr_membership.circom", None, 20, true),
    ];
    for (n, file, t, levels, addr) in specs {
        let p = program(file, t).unwrap_or_else(|e| panic!("harness: {e}"));
        let w = mk(&format!("{n}.wasm"));
        let id = mk(&format!("ideal-{n}.circuit"));
        std::fs::write(&id, [IDEAL, n.as_bytes()].concat()).unwrap();
        if !addr || (l.thorough && std::env::var("VERIF_ADDR").is_ok()) {
            let f = mk(&format!("{n}.circuit"));
            let t0 = Instant::now();
            match instance(&p, levels, Path::new(&f)) {
                Ok(()) => {}
                Err(e) if e.starts_with("conversion aborts") => {
                    l.violation("conversion-aborts", &e);
                    return;
                }
                Err(e) => panic!("harness: {e}"),
            }
            eprintln!("{n}: instance in {:.1} s", t0.elapsed().as_secs_f64());
            make_twin(&f);
            real.push(Circ { witness: w.clone(), circuit: f, levels, addr });
        }
        make_twin(&id);
        ideal.push(Circ { witness: w.clone(), circuit: id, levels, addr });
        programs.insert(w, Box::new(move || program(file, t)) as Box<dyn Fn() -> Result<Program, String> + Send + Sync>);
    }
    let native = Native { programs, ideal: Ideal::default(), log: Default::default() };
    let seed = l.seed;
    let n = l.n(64, 900);
    let quick = !l.thorough;
    let deadline = Instant::now() + Duration::from_secs(if quick { 240 } else { 2400 });
    let res = par(n, deadline, |k| {
        // a few with addresses, one in four with the real proof system
        let (c, is_ideal, verifs) = if k % 32 == 1 || (!quick && k % 16 == 1) {
            (&ideal[3], true, 12)
        } else if k % 4 == 0 {
            let c = if k % 16 == 0 { &real[2] } else { &real[(k / 4) % 2] };
            (c, false, if quick { 10 } else { 40 })
        } else {
            (&ideal[k % 3], true, 60)
        };
        let others: Vec<String> = if is_ideal { ideal.iter() } else { real.iter() }.map(|x| x.circuit.clone()).filter(|x| *x != c.circuit).collect();
        c25_session(seed, k, c, &others, is_ideal, verifs, &native, dir, b, &ps)
    });
    let mut sessions = 0;
    for x in res.into_iter().flatten() {
        let x = x.unwrap_or_else(|e| panic!("harness: {e}"));
        sessions += 1;
        for (what, v) in x {
            l.case(&what, true, || what.clone());
            for c in v.counts {
                l.count(c);
            }
            for (k, d) in v.bad {
                l.violation(k, &d);
            }
        }
    }
    l.addc("sessions", sessions);
    for (k, v) in native.log.lock().unwrap().iter() {
        l.addc(k, *v);
    }
    for c in ["honest_proofs", "honest_verifications", "altered_inputs_refused", "altered_proofs_refused", "faults_refused", "real_proofs", "real_verifications", "concurrent_verifications"] {
        l.require(c, 5);
    }
}
