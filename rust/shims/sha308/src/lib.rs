//! Offline stand-in for sha3 0.8: SHAKE256 only.
pub use digest;
use digest::{ExtendableOutput, Input, XofReader};
const RATE: usize = 136;
#[derive(Clone)]
pub struct Shake256 {
    st: [u8; 200],
    pos: usize,
}
impl Default for Shake256 {
    fn default() -> Self {
        Shake256 { st: [0; 200], pos: 0 }
    }
}
impl Input for Shake256 {
    fn input<B: AsRef<[u8]>>(&mut self, data: B) {
        for b in data.as_ref() {
            self.st[self.pos] ^= b;
            self.pos += 1;
            if self.pos == RATE {
                keccakf::f1600_bytes(&mut self.st);
                self.pos = 0;
            }
        }
    }
}
pub struct Sha3XofReader {
    st: [u8; 200],
    pos: usize,
}
impl ExtendableOutput for Shake256 {
    type Reader = Sha3XofReader;
    fn xof_result(mut self) -> Sha3XofReader {
        self.st[self.pos] ^= 0x1f;
        self.st[RATE - 1] ^= 0x80;
        keccakf::f1600_bytes(&mut self.st);
        Sha3XofReader { st: self.st, pos: 0 }
    }
}
impl XofReader for Sha3XofReader {
    fn read(&mut self, buffer: &mut [u8]) {
        for b in buffer {
            if self.pos == RATE {
                keccakf::f1600_bytes(&mut self.st);
                self.pos = 0;
            }
            *b = self.st[self.pos];
            self.pos += 1;
        }
    }
}
impl std::io::Read for Sha3XofReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        XofReader::read(self, buf);
        Ok(buf.len())
    }
}
