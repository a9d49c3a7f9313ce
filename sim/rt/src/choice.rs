//! Helpers over the choice streams.
use crate::shared::d;

/// true with probability `num/den`; false is simplest.
pub fn chance(num: u64, den: u64) -> bool {
    d(den) >= den - num
}
/// in `lo..=hi`, `lo` simplest
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + d(hi - lo + 1)
}
/// roughly log-uniform in `0..=max`, 0 simplest
pub fn logish(max: u64) -> u64 {
    let bits = 64 - max.leading_zeros() as u64;
    let b = d(bits + 1);
    if b == 0 {
        0
    } else {
        (d(1 << b)).min(max)
    }
}
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[d(xs.len() as u64) as usize]
}
/// index chosen with weights; put the simplest first
pub fn weighted(w: &[u64]) -> usize {
    let t: u64 = w.iter().sum();
    let mut x = d(t);
    for (i, &k) in w.iter().enumerate() {
        if x < k {
            return i;
        }
        x -= k;
    }
    w.len() - 1
}
