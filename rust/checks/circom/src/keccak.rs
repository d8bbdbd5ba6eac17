//! The reference for the address circuits.
pub fn keccak256(m: &[u8]) -> [u8; 32] {
    const RC: [u64; 24] = [
        0x1, 0x8082, 0x800000000000808A, 0x8000000080008000, 0x808B, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8A, 0x88,
        0x80008009, 0x8000000A, 0x8000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002,
        0x8000000000000080, 0x800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
    ];
    let mut s = [0u64; 25];
    let mut msg = m.to_vec();
    msg.push(1);
    while msg.len() % 136 != 0 {
        msg.push(0);
    }
    *msg.last_mut().unwrap() |= 0x80;
    for blk in msg.chunks(136) {
        for i in 0..17 {
            s[i] ^= u64::from_le_bytes(blk[8 * i..8 * i + 8].try_into().unwrap());
        }
        for rc in RC {
            let mut c = [0u64; 5];
            for x in 0..5 {
                c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    s[x + 5 * y] ^= d;
                }
            }
            let mut b = [0u64; 25];
            let (mut x, mut y) = (1, 0);
            b[0] = s[0];
            for t in 0..24 {
                let rot = ((t + 1) * (t + 2) / 2) % 64;
                let v = s[x + 5 * y].rotate_left(rot as u32);
                let (nx, ny) = (y, (2 * x + 3 * y) % 5);
                b[nx + 5 * ny] = v;
                x = nx;
                y = ny;
            }
            for y in 0..5 {
                for x in 0..5 {
                    s[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
                }
            }
            s[0] ^= rc;
        }
    }
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes());
    }
    o
}
