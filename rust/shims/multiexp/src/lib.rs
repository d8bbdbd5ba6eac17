//! Offline stand-in for multiexp 0.2: same contract, sum of scalar * point over the pairs,
//! computed with a fixed 4-bit window from `to_le_bits` (the interface the real crate uses).
use ff::PrimeFieldBits;
use group::Group;
pub fn multiexp<G: Group>(pairs: &[(G::Scalar, G)]) -> G
where
    G::Scalar: PrimeFieldBits,
{
    if pairs.is_empty() {
        return G::identity();
    }
    let digits: Vec<Vec<u8>> = pairs
        .iter()
        .map(|(s, _)| {
            let bits = s.to_le_bits();
            let mut d = vec![0u8; (bits.len() + 3) / 4];
            for (i, b) in bits.iter().enumerate() {
                d[i / 4] |= (*b as u8) << (i % 4);
            }
            d
        })
        .collect();
    let mut res = G::identity();
    let n = digits[0].len();
    for w in (0..n).rev() {
        for _ in 0..4 {
            res = res.double();
        }
        let mut buckets = vec![G::identity(); 16];
        let mut used = false;
        for (d, (_, p)) in digits.iter().zip(pairs) {
            if d[w] != 0 {
                buckets[d[w] as usize] += p;
                used = true;
            }
        }
        if used {
            let mut run = G::identity();
            let mut acc = G::identity();
            for b in buckets[1..].iter().rev() {
                run += b;
                acc += run;
            }
            res += acc;
        }
    }
    res
}
pub fn multiexp_vartime<G: Group>(pairs: &[(G::Scalar, G)]) -> G
where
    G::Scalar: PrimeFieldBits,
{
    multiexp(pairs)
}
