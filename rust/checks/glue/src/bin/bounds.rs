//! C33: bytes from outside cost no more than their length and an honest run. Every allocation and the processor
//! time of each reading, decoding and checking of hostile bytes are metered, and a watcher looks for runs that do
//! not end.
use gluechk::*;
use num_bigint_dig::BigUint;
use serde_json::Value;
use spartan_wasm::wasm::{load_witness_from_bin_reader, F1};
use spartanchk::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vcommon::*;

thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
static FLOOD: AtomicBool = AtomicBool::new(false);
/// the largest single request of the run each worker is at
static HELD: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
const LARGE: usize = 1 << 28;
/// counts what the calling thread holds. Very large requests are given address space only, so that asking for
/// them is seen and does not end the process.
struct Meter;
fn add(n: isize) {
    let _ = NOW.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
thread_local!(static WORKER: Cell<usize> = const { Cell::new(8) });
fn held() {
    let w = WORKER.try_with(|w| w.get()).unwrap_or(8);
    if w < 8 {
        HELD[w].store(NOW.try_with(|c| c.get()).unwrap_or(0).max(0) as usize, SeqCst);
    }
}
fn resident() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) * 4096
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        if l.size() >= LARGE {
            held();
            let p = libc::mmap(std::ptr::null_mut(), l.size(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            return if p == libc::MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 };
        }
        if l.size() >= 1 << 20 {
            held();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        if l.size() >= LARGE {
            held();
            libc::munmap(p as *mut libc::c_void, l.size());
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() >= LARGE {
            return self.alloc(l);
        }
        add(l.size() as isize);
        if l.size() >= 1 << 20 {
            held();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() < LARGE && n < LARGE {
            add(n as isize - l.size() as isize);
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            self.dealloc(p, l);
        }
        q
    }
}
#[global_allocator]
static METER: Meter = Meter;
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
#[derive(Clone, Debug)]
struct Cost {
    peak: usize,
    secs: f64,
    end: &'static str,
}
fn metered(f: impl FnOnce() -> bool) -> Cost {
    let base = NOW.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let t = cpu();
    let r = attempt(f);
    let secs = cpu() - t;
    Cost { peak: (PEAK.with(|p| p.get()) - base).max(0) as usize, secs, end: match r { Ok(true) => "taken", Ok(false) => "refused", Err(_) => "aborted" } }
}
struct Case {
    kind: &'static str,
    what: String,
    len: usize,
    /// allowed: bytes held at once, seconds of processor time
    mem: usize,
    secs: f64,
    run: Box<dyn Fn() -> bool + Send + Sync>,
}
/// all cases on eight threads; None: one of them does not end or floods the memory
fn all(l: &mut Ledger, cases: Vec<Case>) {
    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = l.start + l.budget;
    let slots: Arc<Vec<Mutex<Option<(usize, Instant)>>>> = Arc::new((0..8).map(|_| Mutex::new(None)).collect());
    let done: Arc<Mutex<Vec<(usize, Cost)>>> = Arc::new(Mutex::new(Vec::with_capacity(cases.len())));
    let mut hs = vec![];
    for t in 0..8 {
        let (cases, next, slots, done) = (cases.clone(), next.clone(), slots.clone(), done.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    WORKER.with(|w| w.set(t));
                    let i = next.fetch_add(1, SeqCst);
                    if i >= cases.len() || Instant::now() > stop {
                        break;
                    }
                    *slots[t].lock().unwrap() = Some((i, Instant::now()));
                    let c = metered(&cases[i].run);
                    *slots[t].lock().unwrap() = None;
                    done.lock().unwrap().push((i, c));
                })
                .unwrap(),
        );
    }
    let patience = Duration::from_secs(90);
    let before = resident();
    let mut stuck = None;
    while stuck.is_none() && !hs.iter().all(|h| h.is_finished()) {
        let flood = resident() > before + (8 << 30);
        FLOOD.store(flood, SeqCst);
        let mut most = 0;
        for (t, s) in slots.iter().enumerate() {
            // never wait here: the worker may be in the middle of it
            let Ok(s) = s.try_lock() else { continue };
            if let Some((i, at)) = &*s {
                let h = HELD[t].load(SeqCst);
                if (flood && h > most) || (!flood && at.elapsed() > patience) {
                    most = h;
                    stuck = Some(*i);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    if FLOOD.load(SeqCst) {
        // nothing may be done that takes long: the memory is still being filled
        let k = &cases[stuck.unwrap_or(0)];
        l.violation("memory", &format!("{} {}: {} bytes of input; fills the memory", k.kind, k.what, k.len));
        return;
    }
    let mut d = done.lock().unwrap().clone();
    d.sort_by_key(|x| x.0);
    let mut worst: BTreeMap<&str, (f64, f64)> = BTreeMap::new();
    for (i, c) in d {
        let k = &cases[i];
        l.count(&format!("{}-{}", k.kind, c.end));
        l.case(&(k.kind, &k.what), true, || format!("{} {} ({} bytes): {}, {} bytes held, {:.4} s; allowed {} bytes, {:.2} s", k.kind, k.what, k.len, c.end, c.peak, c.secs, k.mem, k.secs));
        let w = worst.entry(k.kind).or_insert((0.0, 0.0));
        w.0 = w.0.max(c.peak as f64 / k.mem as f64);
        w.1 = w.1.max(c.secs / k.secs);
        l.check(c.peak <= k.mem, "memory", || format!("{} {}: {} bytes of input, {}, held {} bytes at once; allowed {}", k.kind, k.what, k.len, c.end, c.peak, k.mem));
        l.check(c.secs <= k.secs, "time", || format!("{} {}: {} bytes of input, {}, took {:.2} s; allowed {:.2} s", k.kind, k.what, k.len, c.end, c.secs, k.secs));
    }
    for (k, (m, s)) in worst {
        l.addc(&format!("{}-worst-memory-percent-of-allowed", k), (m * 100.0) as u64);
        l.addc(&format!("{}-worst-time-percent-of-allowed", k), (s * 100.0) as u64);
    }
    if let Some(i) = stuck {
        let k = &cases[i];
        l.violation("does-not-end", &format!("{} {}: {} bytes of input, not done after {} s", k.kind, k.what, k.len, patience.as_secs()));
    }
}
const BIG32: [u32; 9] = [0xffff_ffff, 0xffff_fff0, 0x8000_0000, 0x7fff_ffff, 0x1000_0000, 0x0800_0000, 1 << 24, 1 << 20, 1 << 17];
const BIG64: [u64; 10] = [u64::MAX, u64::MAX - 11, u64::MAX - 3, 1 << 63, i64::MAX as u64, 1 << 60, 1 << 40, 1 << 32, 0xffff_ffff, 1 << 24];
fn put(b: &[u8], at: usize, v: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let n = v.len().min(b.len() - at);
    b[at..at + n].copy_from_slice(&v[..n]);
    b
}
/// (what, bytes): one length, count or number made large; some also cut off or continued
fn inflated(r: &mut Rng, b: &[u8], places: &[(usize, usize, String)]) -> Vec<(String, Vec<u8>)> {
    let mut o = vec![];
    for (at, w, name) in places {
        let vs: Vec<Vec<u8>> = if *w == 4 { BIG32.iter().map(|x| x.to_le_bytes().to_vec()).collect() } else { BIG64.iter().map(|x| x.to_le_bytes().to_vec()).collect() };
        for v in vs {
            let x = put(b, *at, &v);
            let what = format!("{} = {}", name, hex(&v));
            if r.chance(1, 4) {
                let n = r.range(*at + *w, x.len());
                o.push((format!("{}, cut at {}", what, n), x[..n].to_vec()));
            }
            if r.chance(1, 4) {
                let mut y = x.clone();
                y.extend(vec![0u8; 3000]);
                o.push((format!("{}, zeros after", what), y));
            }
            o.push((what, x));
        }
    }
    o
}
fn constraint_files(l: &mut Ledger, r: &mut Rng, dir: &Arc<Scratch>, out: &mut Vec<Case>) {
    let mut bases: Vec<Circuit> = (0..l.n(3, 20)).map(|_| Circuit::gen(r, false)).collect();
    bases.push(Circuit::shaped(r, 1, 3, 20, 60));
    let mut files: Vec<(String, Vec<u8>, usize)> = vec![];
    for c in &bases {
        if c.cons.is_empty() {
            continue;
        }
        let b = c.r1cs();
        let n = c.outs + c.ins;
        files.push(("as it should be".into(), b.clone(), n));
        let mut p: Vec<(usize, usize, String)> = vec![(8, 4, "number of sections".into())];
        let mut at = 12;
        while at + 12 <= b.len() {
            let t = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
            let size = u64::from_le_bytes(b[at + 4..at + 12].try_into().unwrap()) as usize;
            p.push((at, 4, format!("type of section {}", t)));
            p.push((at + 4, 8, format!("size of section {}", t)));
            let s = at + 12;
            if t == 1 {
                for (o, w, k) in [(0, 4, "field size"), (36, 4, "wires"), (40, 4, "outputs"), (44, 4, "public inputs"), (48, 4, "private inputs"), (52, 8, "labels"), (60, 4, "constraints")] {
                    p.push((s + o, w, k.into()));
                }
            }
            if t == 2 {
                // the lengths of the first constraint and of some later ones
                let mut q = s;
                let mut k = 0;
                while q + 4 <= s + size {
                    let n = u32::from_le_bytes(b[q..q + 4].try_into().unwrap()) as usize;
                    if k < 4 || r.chance(1, 12) {
                        p.push((q, 4, format!("length of combination {}", k)));
                        if n > 0 {
                            p.push((q + 4, 4, format!("wire in combination {}", k)));
                        }
                    }
                    q += 4 + 36 * n;
                    k += 1;
                }
            }
            at = s + size;
        }
        for (w, x) in inflated(r, &b, &p) {
            // more than one at once: sizes that lead back into the file, for ever
            files.push((w, x, n));
        }
        for back in 1..=40u64 {
            let x = put(&put(&b, 16, &back.wrapping_neg().to_le_bytes()), 8, &u32::MAX.to_le_bytes());
            files.push((format!("first section ends {} bytes before it begins, 2^32-1 sections", back), x, n));
        }
        // two fields that would have to agree, both large
        let sec3 = 12 + 12 + 64 + 12 + u64::from_le_bytes(b[92..100].try_into().unwrap()) as usize;
        for v in BIG32 {
            let x = put(&put(&b, 24 + 36, &v.to_le_bytes()), sec3 + 4, &(v as u64 * 8).to_le_bytes());
            files.push((format!("{} wires and a wire map to match", v), x.clone(), n));
            files.push((format!("{} wires, a wire map to match and 2^32-1 constraints", v), put(&x, 24 + 60, &u32::MAX.to_le_bytes()), n));
        }
        for _ in 0..l.n(150, 1500) {
            let at = r.range(4, b.len() - 4);
            let x = put(&b, at, &r.pick(&BIG32).to_le_bytes());
            files.push((format!("four bytes at {}", at), x, n));
        }
    }
    for (i, (what, b, n)) in files.into_iter().enumerate() {
        let dir = dir.clone();
        let len = b.len();
        out.push(Case {
            kind: "constraint-file",
            what,
            len,
            mem: (16 << 20) + 120 * len,
            secs: 3.0 + 0.0005 * len as f64,
            run: Box::new(move || {
                // the file is removed with the folder
                let f = dir.put(&format!("{}.r1cs", i), &b);
                let ok = attempt(|| circuit_reader::load_as_spartan_inst(f.clone(), n)).is_ok();
                let _ = std::fs::remove_file(&f);
                ok
            }),
        });
    }
}
fn witness_files(l: &mut Ledger, r: &mut Rng, out: &mut Vec<Case>) {
    for n in [1usize, 2, 7, 40, 700] {
        let w: Vec<BigUint> = (0..n).map(|_| scalar_like(r, Wit::Random)).collect();
        let b = wtns(&w);
        let p: Vec<(usize, usize, String)> = vec![(4, 4, "version".into()), (8, 4, "number of sections".into()), (12, 4, "first type".into()), (16, 8, "first size".into()), (24, 4, "field size".into()), (60, 4, "values".into()), (64, 4, "second type".into()), (68, 8, "second size".into())];
        let mut files = inflated(r, &b, &p);
        files.push(("as it should be".into(), b.clone()));
        for v in BIG32.iter().chain(&[1 << 27, (1 << 27) + 1, (1 << 27) + n as u32, (1 << 28) + n as u32]) {
            for size in [*v as u64 * 32, v.wrapping_mul(32) as u64] {
                files.push((format!("{} values, size {}", v, size), put(&put(&b, 60, &v.to_le_bytes()), 68, &size.to_le_bytes())));
            }
        }
        for _ in 0..l.n(60, 800) {
            let at = r.range(0, b.len() - 4);
            files.push((format!("four bytes at {}", at), put(&b, at, &r.pick(&BIG32).to_le_bytes())));
        }
        for (what, b) in files {
            let len = b.len();
            out.push(Case { kind: "witness-file", what: format!("({} values) {}", n, what), len, mem: (16 << 20) + 16 * len, secs: 2.0 + 0.0005 * len as f64, run: Box::new(move || load_witness_from_bin_reader::<F1, _>(std::io::Cursor::new(&b)).is_ok()) });
        }
    }
}
fn proofs(l: &mut Ledger, r: &mut Rng, out: &mut Vec<Case>) {
    for (nc, nv, ni, which) in [(6usize, 5usize, 2usize, Which::N), (33, 60, 7, Which::N), (6, 5, 2, Which::S)] {
        let sys = gen_sys(r, nc, nv, ni, 3, Wit::Random);
        let st = Arc::new(St::new(sys, which));
        let good = prove(&st, which, &mut merlin::Transcript::new(b"bounds"));
        let bytes = good.bytes();
        let check = |st: &St, b: &[u8]| match Proof::from_bytes(which, b) {
            None => false,
            Some(p) => verify(st, which, &p, &mut merlin::Transcript::new(b"bounds")) == V::Accept,
        };
        let honest = metered(|| check(&st, &bytes));
        l.check(honest.end == "taken", "honest", || format!("the honest proof is {}", honest.end));
        let mut all: Vec<(String, Vec<u8>)> = vec![("as it should be".into(), bytes.clone())];
        // every place that reads as a small count
        let spots: Vec<usize> = (0..bytes.len() - 8).filter(|i| (1..=64).contains(&u64::from_le_bytes(bytes[*i..*i + 8].try_into().unwrap()))).collect();
        let places: Vec<(usize, usize, String)> = spots.iter().filter(|_| spots.len() < 120 || r.chance(120, spots.len() as u64)).map(|i| (*i, 8, format!("count at {}", i))).collect();
        let mut inf = inflated(r, &bytes, &places);
        r.shuffle(&mut inf);
        inf.truncate(l.n(400, 6000));
        all.extend(inf);
        // every list of the proof made long, once per kind of place
        let v = good.json();
        let lists = tree(&v).vecs;
        let mut seen = BTreeSet::new();
        for p in lists {
            if !seen.insert(path_class(&p)) {
                continue;
            }
            let old = get(&v, &p).as_array().unwrap().clone();
            if old.is_empty() {
                continue;
            }
            for n in [31usize, 32, 33, 40, 63, 64, 65, 127, 1000, l.n(4000, 20_000)] {
                if n > 200 && r.chance(1, 3) {
                    continue;
                }
                let mut w = v.clone();
                *get_mut(&mut w, &p) = Value::Array(old.iter().cycle().take(n).cloned().collect());
                if let Some(q) = Proof::from_json(which, &w) {
                    all.push((format!("{} entries at {}", n, path_str(&p)), q.bytes()));
                }
            }
        }
        // all lists of the inner product argument made long together
        for n in [20usize, 30, 31, 32, 33, 40, 63, 64, 65, 128] {
            let mut w = v.clone();
            for p in tree(&v).vecs {
                let k = path_class(&p);
                if k.ends_with("L_vec") || k.ends_with("R_vec") {
                    let old = get(&v, &p).as_array().unwrap().clone();
                    if !old.is_empty() {
                        *get_mut(&mut w, &p) = Value::Array(old.iter().cycle().take(n).cloned().collect());
                    }
                }
            }
            if let Some(q) = Proof::from_json(which, &w) {
                all.push((format!("{} entries in L_vec and R_vec", n), q.bytes()));
            }
        }
        for _ in 0..l.n(60, 600) {
            let n = r.below(2000);
            all.push((format!("{} random bytes", n), r.bytes(n)));
        }
        for (what, b) in all {
            let st = st.clone();
            let len = b.len();
            out.push(Case {
                kind: if which == Which::N { "nizk-proof" } else { "snark-proof" },
                what: format!("({}) {}", st.sys.show(), what),
                len,
                mem: (16 << 20) + 3 * honest.peak + 64 * len,
                secs: 1.0 + 20.0 * honest.secs + 0.0002 * len as f64,
                run: Box::new(move || match Proof::from_bytes(which, &b) {
                    None => false,
                    Some(p) => verify(&st, which, &p, &mut merlin::Transcript::new(b"bounds")) == V::Accept,
                }),
            });
        }
    }
}
fn instances(l: &mut Ledger, r: &mut Rng, out: &mut Vec<Case>) {
    let b = bincode::serialize(&gen_sys(r, 9, 12, 3, 3, Wit::Random).instance()).unwrap();
    let spots: Vec<(usize, usize, String)> = (0..b.len() - 8).filter(|i| (1..=200).contains(&u64::from_le_bytes(b[*i..*i + 8].try_into().unwrap()))).map(|i| (i, 8, format!("count at {}", i))).collect();
    let mut f = inflated(r, &b, &spots);
    r.shuffle(&mut f);
    f.truncate(l.n(600, 6000));
    f.push(("as it should be".into(), b.clone()));
    for (what, b) in f {
        let len = b.len();
        out.push(Case { kind: "instance", what, len, mem: (16 << 20) + 64 * len, secs: 1.0 + 0.0005 * len as f64, run: Box::new(move || bincode::deserialize::<libspartan::Instance>(&b).is_ok()) });
    }
}
fn main() {
    let l = Ledger::new("C33");
    l.run(|l| {
        l.rule = "for each byte string: reading it ends, and the memory held at once and the processor time stay within a bound made of the honest run and the length".into();
        let mut r = Rng::new(l.seed, "bounds");
        let dir = Arc::new(Scratch::new("c33"));
        let mut cases = vec![];
        constraint_files(l, &mut r, &dir, &mut cases);
        witness_files(l, &mut r, &mut cases);
        proofs(l, &mut r, &mut cases);
        instances(l, &mut r, &mut cases);
        r.shuffle(&mut cases);
        all(l, cases);
        let _ = std::fs::remove_dir_all(&dir.0);
        for (c, n) in [("constraint-file-taken", 5), ("witness-file-taken", 5), ("nizk-proof-taken", 2), ("snark-proof-taken", 1), ("instance-taken", 1), ("witness-file-aborted", 50), ("instance-refused", 50)] {
            l.require(c, n);
        }
    })
}
