//! The files circom writes: wires ordered one, outputs, public inputs, private inputs, the rest.
use crate::field::F;
use crate::interp::{Lc, Run};

pub struct Layout {
    /// new position -> wire as allocated
    pub order: Vec<u32>,
    pub outs: usize,
    pub pubs: usize,
    pub prvs: usize,
}
pub fn layout(r: &Run) -> Layout {
    let mut order = vec![0u32];
    let mut seen = vec![false; r.wires.len()];
    seen[0] = true;
    let mut add = |ws: Vec<u32>| {
        for w in &ws {
            seen[*w as usize] = true;
        }
        let n = ws.len();
        order.extend(ws);
        n
    };
    let outs = add(r.out_wires());
    let pubs = add(r.ins.iter().filter(|i| i.2).flat_map(|i| i.1.iter().copied()).collect());
    let prvs = add(r.ins.iter().filter(|i| !i.2).flat_map(|i| i.1.iter().copied()).collect());
    for w in 0..r.wires.len() {
        if !seen[w] {
            order.push(w as u32);
        }
    }
    Layout { order, outs, pubs, prvs }
}
fn le(f: &F) -> Vec<u8> {
    f.0.iter().flat_map(|l| l.to_le_bytes()).collect()
}
fn prime() -> Vec<u8> {
    let mut b = vec![0xff; 32];
    b[..8].copy_from_slice(&0xFFFFFFFEFFFFFC2Fu64.to_le_bytes());
    b
}
fn section(out: &mut Vec<u8>, ty: u32, body: &[u8]) {
    out.extend_from_slice(&ty.to_le_bytes());
    out.extend_from_slice(&(body.len() as u64).to_le_bytes());
    out.extend_from_slice(body);
}
pub fn r1cs(r: &Run, l: &Layout) -> Vec<u8> {
    let mut pos = vec![0u32; r.wires.len()];
    for (j, w) in l.order.iter().enumerate() {
        pos[*w as usize] = j as u32;
    }
    let mut h = 32u32.to_le_bytes().to_vec();
    h.extend(prime());
    for x in [r.wires.len() as u32, l.outs as u32, l.pubs as u32, l.prvs as u32] {
        h.extend_from_slice(&x.to_le_bytes());
    }
    h.extend_from_slice(&(r.wires.len() as u64).to_le_bytes());
    h.extend_from_slice(&(r.cons.len() as u32).to_le_bytes());
    let mut b = vec![];
    let mut put = |lc: &Lc| {
        let mut v: Vec<(u32, F)> = lc.iter().map(|(w, c)| (pos[*w as usize], *c)).collect();
        v.sort_by_key(|e| e.0);
        b.extend_from_slice(&(v.len() as u32).to_le_bytes());
        for (w, c) in v {
            b.extend_from_slice(&w.to_le_bytes());
            b.extend(le(&c));
        }
    };
    for c in &r.cons {
        put(&c.a);
        put(&c.b);
        put(&c.c);
    }
    let mut map = vec![];
    for w in &l.order {
        map.extend_from_slice(&(*w as u64).to_le_bytes());
    }
    let mut f = b"r1cs\x01\0\0\0\x03\0\0\0".to_vec();
    section(&mut f, 1, &h);
    section(&mut f, 2, &b);
    section(&mut f, 3, &map);
    f
}
pub fn wtns(r: &Run, l: &Layout) -> Vec<u8> {
    let mut h = 32u32.to_le_bytes().to_vec();
    h.extend(prime());
    h.extend_from_slice(&(r.wires.len() as u32).to_le_bytes());
    let mut b = vec![];
    for w in &l.order {
        b.extend(le(&r.wires[*w as usize]));
    }
    let mut f = b"wtns\x02\0\0\0\x02\0\0\0".to_vec();
    section(&mut f, 1, &h);
    section(&mut f, 2, &b);
    f
}
