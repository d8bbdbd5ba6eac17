//! Runs a workload against the bundled library under node, serving its calls into "WebAssembly" with the
//! real Rust code.
use circomi::{r1cs, Opt, Program, F};
use num_bigint_dig::BigUint;
use serde_json::Value;
use std::collections::HashMap;
use std::fs::File;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use vcommon::*;

pub fn verif() -> PathBuf {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into()).into()
}
/// what a proof system that is sound by fiat remembers: witness file -> (satisfied, public inputs)
#[derive(Default)]
pub struct Ideal {
    witnesses: Mutex<HashMap<u64, Vec<u8>>>,
}
pub struct Native {
    pub programs: HashMap<String, Box<dyn Fn() -> Result<Program, String> + Send + Sync>>,
    pub ideal: Ideal,
    pub log: Mutex<HashMap<&'static str, u64>>,
}
fn key(b: &[u8]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}
pub const IDEAL: &[u8] = b"ideal circuit ";
fn token(c: &[u8], x: &[u8]) -> Vec<u8> {
    let mut t = vec![];
    for i in 0..40u8 {
        t.extend(key(&[&[i], c, x].concat()).to_le_bytes());
    }
    t
}
impl Native {
    fn note(&self, k: &'static str) {
        *self.log.lock().unwrap().entry(k).or_default() += 1;
    }
    fn witness(&self, file: &str, json: &str) -> Result<Vec<u8>, String> {
        let p = self.programs.get(file).ok_or("ENOENT: no such file")?()?;
        let v: Value = serde_json::from_str(json).map_err(|e| e.to_string())?;
        let mut ins = HashMap::new();
        for (k, x) in v.as_object().ok_or("not an object")? {
            let a: Option<Vec<F>> = x
                .as_array()
                .ok_or("not an array")?
                .iter()
                .map(|s| {
                    let t = s.as_str()?;
                    let neg = t.starts_with('-');
                    let b = BigUint::parse_bytes(t.trim_start_matches('-').as_bytes(), 10)? % modp();
                    let f = F::from_big(&b);
                    Some(if neg { f.neg() } else { f })
                })
                .collect();
            ins.insert(k.clone(), a.ok_or("not a number")?);
        }
        let r = p.run(&ins, Opt { sym: false, hints: None })?;
        if let Some(b) = r.broken {
            return Err(format!("Assert Failed: {b}"));
        }
        let l = r1cs::layout(&r);
        let w = r1cs::wtns(&r, &l);
        let mut pubs = vec![];
        for i in r.ins.iter().filter(|i| i.2) {
            for x in &i.1 {
                pubs.extend(be32(&r.wires[*x as usize].big()));
            }
        }
        self.ideal.witnesses.lock().unwrap().insert(key(&w), pubs);
        self.note("witnesses");
        Ok(w)
    }
    fn serve(&self, op: u8, a: &[Vec<u8>]) -> Result<Vec<u8>, String> {
        use spartan_wasm::wasm;
        match op {
            b'W' => self.witness(&String::from_utf8_lossy(&a[0]), &String::from_utf8_lossy(&a[1])),
            b'H' => {
                self.note("hashes");
                attempt(|| wasm::poseidon(&a[0])).map_err(|e| e.msg)?.map_err(|_| "error".into())
            }
            b'P' if a[0].starts_with(IDEAL) => {
                self.note("ideal_proofs");
                match self.ideal.witnesses.lock().unwrap().get(&key(&a[1])) {
                    Some(x) if x == &a[2] => Ok(token(&a[0], x)),
                    _ => Ok(vec![7; 320]),
                }
            }
            b'P' => {
                self.note("real_proofs");
                attempt(|| wasm::prove(&a[0], &a[1], &a[2])).map_err(|e| e.msg)?.map_err(|_| "error".into())
            }
            b'V' if a[0].starts_with(IDEAL) => {
                self.note("ideal_verifications");
                if a[1].len() < 320 || a[2].len() < 160 {
                    return Err("cannot be decoded".into());
                }
                Ok(vec![(a[1] == token(&a[0], &a[2])) as u8])
            }
            b'V' => {
                self.note("real_verifications");
                attempt(|| wasm::verify(&a[0], &a[1], &a[2])).map_err(|e| e.msg)?.map(|b| vec![b as u8]).map_err(|_| "error".into())
            }
            _ => Err("what?".into()),
        }
    }
    fn loop_on(&self, req: &Path, res: &Path) {
        let Ok(mut i) = File::open(req) else { return };
        let Ok(mut o) = std::fs::OpenOptions::new().write(true).open(res) else { return };
        loop {
            let mut h = [0u8; 2];
            if i.read_exact(&mut h).is_err() {
                return;
            }
            let mut lens = vec![0u8; 4 * h[1] as usize];
            if i.read_exact(&mut lens).is_err() {
                return;
            }
            let mut args = vec![];
            for l in lens.chunks(4) {
                let mut b = vec![0u8; u32::from_le_bytes(l.try_into().unwrap()) as usize];
                if i.read_exact(&mut b).is_err() {
                    return;
                }
                args.push(b);
            }
            let (st, b) = match self.serve(h[0], &args) {
                Ok(b) => (0u8, b),
                Err(e) => (1, e.into_bytes()),
            };
            let mut m = vec![st];
            m.extend((b.len() as u32).to_le_bytes());
            m.extend(b);
            if o.write_all(&m).is_err() {
                return;
            }
        }
    }
}
pub fn bundle(dir: &Path) -> Result<PathBuf, String> {
    let out = dir.join("bundle.cjs");
    let r = Command::new("node").arg(verif().join("ts/bundle.mjs")).arg(&out).output().map_err(|e| e.to_string())?;
    if !r.status.success() {
        return Err(format!("the library does not bundle: {}", String::from_utf8_lossy(&r.stderr).chars().take(1500).collect::<String>()));
    }
    Ok(out)
}
/// one node process over one workload; a line of result for each line of work, events for sessions
pub fn run(bundle: &Path, dir: &Path, name: &str, native: &Native, work: &[Value]) -> Result<Vec<Value>, String> {
    let f = |s: &str| dir.join(format!("{name}.{s}"));
    let mut t = String::new();
    for w in work {
        t.push_str(&w.to_string());
        t.push('\n');
    }
    std::fs::write(f("work"), t).map_err(|e| e.to_string())?;
    for x in ["req", "res"] {
        let st = Command::new("mkfifo").arg(f(x)).status().map_err(|e| e.to_string())?;
        if !st.success() {
            return Err("mkfifo failed".into());
        }
    }
    let err = File::create(f("err")).map_err(|e| e.to_string())?;
    let mut child = Command::new("node")
        .arg("--stack-size=2000")
        .arg(bundle)
        .env("VERIF_WORK", f("work"))
        .env("VERIF_OUT", f("out"))
        .env("VERIF_REQ", f("req"))
        .env("VERIF_RES", f("res"))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .map_err(|e| e.to_string())?;
    let (req, res) = (f("req"), f("res"));
    let done = std::sync::atomic::AtomicBool::new(false);
    let status = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || native.loop_on(&req, &res)).unwrap();
        let st = child.wait();
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        // a node that died before it opened the pipes leaves the helper waiting: open them for it
        let _ = std::fs::OpenOptions::new().read(true).write(true).open(&req);
        let _ = std::fs::OpenOptions::new().read(true).write(true).open(&res);
        st
    })
    .map_err(|e| e.to_string())?;
    let errs = std::fs::read_to_string(f("err")).unwrap_or_default();
    let out = std::fs::read_to_string(f("out")).unwrap_or_default();
    let mut v = vec![];
    for l in out.lines() {
        v.push(serde_json::from_str::<Value>(l).map_err(|e| e.to_string())?);
    }
    if !status.success() || v.last().map(|x| x["end"] != true).unwrap_or(true) {
        return Err(format!("node ended with {status}: {}", errs.chars().take(1500).collect::<String>()));
    }
    v.pop();
    Ok(v)
}
