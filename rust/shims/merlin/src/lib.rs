//! Offline stand-in for merlin 3.0 (STROBE-128 transcripts), same wire behaviour, plus a
//! thread-local event tap the monitors read (absent from the real crate, never affects output).
use std::cell::RefCell;
const R: u8 = 166;
const FLAG_I: u8 = 1;
const FLAG_A: u8 = 1 << 1;
const FLAG_C: u8 = 1 << 2;
const FLAG_M: u8 = 1 << 4;
const FLAG_K: u8 = 1 << 5;
#[derive(Clone)]
struct Strobe128 {
    state: [u8; 200],
    pos: u8,
    pos_begin: u8,
    cur_flags: u8,
}
impl Strobe128 {
    fn new(label: &[u8]) -> Self {
        let mut st = [0u8; 200];
        st[0..6].copy_from_slice(&[1, R + 2, 1, 0, 1, 96]);
        st[6..18].copy_from_slice(b"STROBEv1.0.2");
        keccakf::f1600_bytes(&mut st);
        let mut s = Strobe128 { state: st, pos: 0, pos_begin: 0, cur_flags: 0 };
        s.meta_ad(label, false);
        s
    }
    fn meta_ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_M | FLAG_A, more);
        self.absorb(data);
    }
    fn ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_A, more);
        self.absorb(data);
    }
    fn prf(&mut self, data: &mut [u8], more: bool) {
        self.begin_op(FLAG_I | FLAG_A | FLAG_C, more);
        self.squeeze(data);
    }
    fn run_f(&mut self) {
        self.state[self.pos as usize] ^= self.pos_begin;
        self.state[self.pos as usize + 1] ^= 0x04;
        self.state[R as usize + 1] ^= 0x80;
        keccakf::f1600_bytes(&mut self.state);
        self.pos = 0;
        self.pos_begin = 0;
    }
    fn absorb(&mut self, data: &[u8]) {
        for b in data {
            self.state[self.pos as usize] ^= b;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
    }
    fn squeeze(&mut self, data: &mut [u8]) {
        for b in data {
            *b = self.state[self.pos as usize];
            self.state[self.pos as usize] = 0;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
    }
    fn begin_op(&mut self, flags: u8, more: bool) {
        if more {
            assert_eq!(self.cur_flags, flags);
            return;
        }
        let old_begin = self.pos_begin;
        self.pos_begin = self.pos + 1;
        self.cur_flags = flags;
        self.absorb(&[old_begin, flags]);
        let force_f = 0 != (flags & (FLAG_C | FLAG_K));
        if force_f && self.pos != 0 {
            self.run_f();
        }
    }
}

/// One recorded transcript operation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    New(Vec<u8>),
    Append(Vec<u8>, Vec<u8>),
    Challenge(Vec<u8>, Vec<u8>),
}
thread_local! {
    static TAP: RefCell<Option<Vec<(u64, Event)>>> = const { RefCell::new(None) };
    static NEXT: RefCell<u64> = const { RefCell::new(0) };
}
/// Start recording on this thread.
pub fn tap_start() {
    TAP.with(|t| *t.borrow_mut() = Some(vec![]));
}
/// Stop recording and return (transcript id, event) pairs in program order.
pub fn tap_take() -> Vec<(u64, Event)> {
    TAP.with(|t| t.borrow_mut().take().unwrap_or_default())
}
fn rec(id: u64, e: impl FnOnce() -> Event) {
    TAP.with(|t| {
        if let Some(v) = t.borrow_mut().as_mut() {
            v.push((id, e()))
        }
    })
}

#[derive(Clone)]
pub struct Transcript {
    strobe: Strobe128,
    id: u64,
}
impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let id = NEXT.with(|n| {
            *n.borrow_mut() += 1;
            *n.borrow()
        });
        rec(id, || Event::New(label.to_vec()));
        let mut t = Transcript { strobe: Strobe128::new(b"Merlin v1.0"), id };
        t.app(b"dom-sep", label);
        t
    }
    fn app(&mut self, label: &[u8], message: &[u8]) {
        let len = (message.len() as u32).to_le_bytes();
        self.strobe.meta_ad(label, false);
        self.strobe.meta_ad(&len, true);
        self.strobe.ad(message, false);
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        rec(self.id, || Event::Append(label.to_vec(), message.to_vec()));
        self.app(label, message)
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        let len = (dest.len() as u32).to_le_bytes();
        self.strobe.meta_ad(label, false);
        self.strobe.meta_ad(&len, true);
        self.strobe.prf(dest, false);
        rec(self.id, || Event::Challenge(label.to_vec(), dest.to_vec()));
    }
    /// Monitor-only: identity of this transcript in tap records.
    pub fn tap_id(&self) -> u64 {
        self.id
    }
}
#[cfg(test)]
mod t {
    #[test]
    fn vector() {
        let mut t = super::Transcript::new(b"test protocol");
        t.append_message(b"some label", b"some data");
        let mut b = [0u8; 32];
        t.challenge_bytes(b"challenge", &mut b);
        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        assert_eq!(h, "d5a21972d0d5fe320c0d263fac7fffb8145aa640af6e9bca177c03c7efcf0615");
    }
}
