//! Operations of the shipped code over bytes in and bytes out, compiled once for this machine and once for wasm32,
//! the platform the package is shipped for. What they return must not depend on which.
//! A refusal is an `Err` or a panic; the caller tells them from an answer.
use ff::PrimeField;
use libspartan::{verif_hooks::scalar::Scalar, Assignment, InputsAssignment, Instance, NIZKGens, SNARKGens, NIZK, SNARK};
use merlin::Transcript;
use secq256k1::field::{field_secp, field_secq, BaseField};
use secq256k1::{affine::Group, AffinePoint, EncodedPoint, Scalar as GScalar};

pub type Answer = Result<Vec<u8>, String>;
pub const NAMES: [&str; 14] = [
    "scalar", "field-secp", "field-secq", "point", "point-decoding", "poseidon", "browser-prove", "browser-verify",
    "browser-poseidon", "witness-file", "instance", "snark-prove", "snark-verify", "nizk-verify",
];
pub fn pack(args: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for a in args {
        o.extend((a.len() as u32).to_le_bytes());
        o.extend(a);
    }
    o
}
pub fn unpack(mut b: &[u8]) -> Vec<Vec<u8>> {
    let mut o = vec![];
    while b.len() >= 4 {
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        o.push(b[4..4 + n].to_vec());
        b = &b[4 + n..];
    }
    o
}
fn a32(b: &[u8]) -> [u8; 32] {
    b[..32].try_into().unwrap()
}
fn words(b: &[u8]) -> [u64; 4] {
    let mut w = [0u64; 4];
    for (i, w) in w.iter_mut().enumerate() {
        *w = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    w
}
/// two values of 64 bytes, an exponent of 32
fn scalar(a: &[Vec<u8>]) -> Answer {
    let mut o = vec![];
    let mut put = |s: Scalar| o.extend(s.to_bytes());
    let x = Scalar::from_bytes_wide(a[0][..64].try_into().unwrap());
    let y = Scalar::from_bytes_wide(a[1][..64].try_into().unwrap());
    for s in [x, y, x + y, x - y, x * y, -x, x.square(), x.double(), x.pow(&words(&a[2])), x.pow_vartime(&words(&a[2])), Scalar::from(words(&a[2])[0])] {
        put(s);
    }
    for (i, e) in [&a[0][..32], &a[0][32..64], &a[2][..32]].into_iter().enumerate() {
        let d = Scalar::from_bytes(&a32(e));
        put(Scalar::from(i as u64 + 2 * u64::from(d.is_some().unwrap_u8())));
        put(d.unwrap_or(Scalar::zero()));
    }
    let i = x.invert();
    if bool::from(i.is_some()) {
        put(i.unwrap());
    }
    Ok(o)
}
/// two encodings of 32 bytes, an exponent of 32
fn field<F: BaseField + PrimeField<Repr = secq256k1::FieldBytes>>(a: &[Vec<u8>]) -> Answer {
    let mut o = vec![];
    let d: Vec<Option<F>> = a[..2].iter().map(|b| Option::from(F::from_repr(*secq256k1::FieldBytes::from_slice(&b[..32])))).collect();
    for v in &d {
        o.push(v.is_some() as u8);
    }
    let (x, y) = (d[0].unwrap_or(F::from(7u64)), d[1].unwrap_or(F::from(11u64)));
    let sel = F::conditional_select(&x, &y, (a[2][0] & 1).into());
    for s in [x, y, x + y, x - y, x * y, -x, x.square(), x.double(), x.pow_vartime(&words(&a[2])), sel] {
        o.extend(s.to_repr().as_slice());
        o.push(u8::from(bool::from(s.is_odd())));
    }
    for s in [Option::<F>::from(x.invert()), Option::<F>::from(x.sqrt()), Option::<F>::from((x * x).sqrt())] {
        o.push(s.is_some() as u8);
        o.extend(s.unwrap_or(F::zero()).to_repr().as_slice());
    }
    Ok(o)
}
fn enc(p: &AffinePoint, o: &mut Vec<u8>) {
    o.extend(p.compress().as_bytes());
}
/// two strings of 128 bytes, a scalar of 32
fn point(a: &[Vec<u8>]) -> Answer {
    let p = AffinePoint::from_uniform_bytes(a[0][..128].try_into().unwrap());
    let q = AffinePoint::from_uniform_bytes(a[1][..128].try_into().unwrap());
    let k = Option::<GScalar>::from(GScalar::from_repr(*secq256k1::FieldBytes::from_slice(&a[2][..32]))).unwrap_or(GScalar::from(5u64));
    let mut o = vec![];
    for x in [p, q, p + q, p - q, p + p, -p, p * k, q * k + p, AffinePoint::identity(), AffinePoint::generator() * k, p.double()] {
        enc(&x, &mut o);
    }
    o.extend(k.to_bytes());
    Ok(o)
}
fn point_decoding(a: &[Vec<u8>]) -> Answer {
    let e = EncodedPoint::from_bytes(&a[0]).map_err(|_| "encoding".to_string())?;
    let p = Option::<AffinePoint>::from(AffinePoint::decompress(e)).ok_or("not a point".to_string())?;
    let mut o = vec![];
    enc(&p, &mut o);
    enc(&(p + AffinePoint::generator()), &mut o);
    Ok(o)
}
fn poseidon_hash(a: &[Vec<u8>]) -> Answer {
    let v: Vec<_> = a.iter().map(|b| poseidon::poseidon_k256::FieldElement::from_bytes(&a32(b)).unwrap()).collect();
    Ok(poseidon::poseidon_k256::hash(&v.try_into().map_err(|_| "two values".to_string())?).to_bytes().to_vec())
}
fn js<T>(r: Result<T, impl Sized>) -> Result<T, String> {
    r.map_err(|_| "refused".to_string())
}
fn entries(b: &[u8]) -> Vec<(usize, usize, [u8; 32])> {
    b.chunks(40).map(|c| (u32::from_le_bytes(c[..4].try_into().unwrap()) as usize, u32::from_le_bytes(c[4..8].try_into().unwrap()) as usize, a32(&c[8..]))).collect()
}
fn assignment(b: &[u8]) -> Result<Assignment, String> {
    Assignment::new(&b.chunks(32).map(a32).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))
}
/// sizes, the three matrices as (row, column, value), the assignment and the inputs
fn system(a: &[Vec<u8>]) -> Result<(Instance, Assignment, InputsAssignment, [usize; 3]), String> {
    let n: Vec<usize> = a[0].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()) as usize).collect();
    let inst = Instance::new(n[0], n[1], n[2], &entries(&a[1]), &entries(&a[2]), &entries(&a[3])).map_err(|e| format!("{e:?}"))?;
    Ok((inst, assignment(&a[4])?, assignment(&a[5])?, [n[0], n[1], n[2]]))
}
fn instance(a: &[Vec<u8>]) -> Answer {
    let (inst, v, x, _) = system(a)?;
    let mut o = bincode::serialize(&inst).map_err(|e| e.to_string())?;
    o.push(match inst.is_sat(&v, &x) {
        Ok(true) => 1,
        Ok(false) => 0,
        Err(_) => 2,
    });
    Ok(o)
}
fn snark_prove(a: &[Vec<u8>]) -> Answer {
    let (inst, v, x, n) = system(a)?;
    let nnz = (a[1].len().max(a[2].len()).max(a[3].len()) / 40).max(1);
    let gens = SNARKGens::new(n[0], n[1], n[2], nnz);
    let (comm, decomm) = SNARK::encode(&inst, &gens);
    let p = SNARK::prove(&inst, &comm, &decomm, v, &x, &gens, &mut Transcript::new(b"platform"));
    bincode::serialize(&p).map_err(|e| e.to_string())
}
fn snark_verify(a: &[Vec<u8>]) -> Answer {
    let (inst, _, x, n) = system(a)?;
    let nnz = (a[1].len().max(a[2].len()).max(a[3].len()) / 40).max(1);
    let gens = SNARKGens::new(n[0], n[1], n[2], nnz);
    let (comm, _) = SNARK::encode(&inst, &gens);
    let p: SNARK = bincode::deserialize(&a[6]).map_err(|e| e.to_string())?;
    p.verify(&comm, &x, &mut Transcript::new(b"platform"), &gens).map_err(|_| "proof refused".to_string())?;
    Ok(vec![1])
}
fn nizk_verify(a: &[Vec<u8>]) -> Answer {
    let inst: Instance = bincode::deserialize(&a[0]).map_err(|e| e.to_string())?;
    let p: NIZK = bincode::deserialize(&a[1]).map_err(|e| e.to_string())?;
    let gens = NIZKGens::new(inst.inst.get_num_cons(), inst.inst.get_num_vars(), inst.inst.get_num_inputs());
    p.verify(&inst, &assignment(&a[2])?, &mut Transcript::new(b"nizk_example"), &gens).map_err(|_| "proof refused".to_string())?;
    Ok(vec![1])
}
pub fn run(op: u8, a: &[Vec<u8>]) -> Answer {
    match op {
        0 => scalar(a),
        1 => field::<field_secp::FieldElement>(a),
        2 => field::<field_secq::FieldElement>(a),
        3 => point(a),
        4 => point_decoding(a),
        5 => poseidon_hash(a),
        6 => js(spartan_wasm::wasm::prove(&a[0], &a[1], &a[2])),
        7 => js(spartan_wasm::wasm::verify(&a[0], &a[1], &a[2])).map(|b| vec![b as u8]),
        8 => js(spartan_wasm::wasm::poseidon(&a[0])),
        9 => {
            let w = js(spartan_wasm::wasm::load_witness_from_bin_reader::<field_secq::FieldElement, _>(&a[0][..]))?;
            Ok(w.iter().flat_map(|x| x.to_repr().to_vec()).collect())
        }
        10 => instance(a),
        11 => snark_prove(a),
        12 => snark_verify(a),
        13 => nizk_verify(a),
        _ => Err("no such operation".into()),
    }
}
#[cfg(target_arch = "wasm32")]
mod door {
    #[link(wasm_import_module = "host")]
    extern "C" {
        fn said(p: *const u8, n: usize);
    }
    #[no_mangle]
    pub extern "C" fn room(n: usize) -> *mut u8 {
        let mut v = vec![0u8; n];
        let p = v.as_mut_ptr();
        std::mem::forget(v);
        p
    }
    /// the answer: one byte, 1 answered and 0 refused, then the bytes; handed over to `answer`
    #[no_mangle]
    pub extern "C" fn ask(op: u32, p: *mut u8, n: usize) {
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            unsafe { said(s.as_ptr(), s.len()) }
        }));
        let b = unsafe { Vec::from_raw_parts(p, n, n) };
        let r = super::run(op as u8, &super::unpack(&b));
        let mut o = vec![r.is_ok() as u8];
        match r {
            Ok(v) => o.extend(v),
            Err(e) => o.extend(e.into_bytes()),
        }
        #[link(wasm_import_module = "host")]
        extern "C" {
            fn answer(p: *const u8, n: usize);
        }
        unsafe { answer(o.as_ptr(), o.len()) }
    }
}
