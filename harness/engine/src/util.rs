use std::hash::{Hash, Hasher};

/// Deterministic 64-bit FNV-1a based hasher with a final mix.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
        x ^ (x >> 33)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

/// Mixed-radix decoding of a case index: every digit combination is produced exactly once.
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, radix: u64) -> u64 {
        let d = self.0 % radix;
        self.0 /= radix;
        d
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.take(items.len() as u64) as usize;
        &items[i]
    }
}

/// Number of sequences of length 0..=max over an alphabet of `k` symbols.
pub fn seq_count(k: u64, max: u32) -> u64 {
    (0..=max).map(|d| k.pow(d)).sum()
}
/// Decodes a sequence index (shortest sequences first).
pub fn seq_decode(k: u64, mut index: u64) -> Vec<u64> {
    let mut len = 0u32;
    while index >= k.pow(len) {
        index -= k.pow(len);
        len += 1;
    }
    let mut v = Vec::with_capacity(len as usize);
    for _ in 0..len {
        v.push(index % k);
        index /= k;
    }
    v
}
/// Number of compositions (ordered splits) of a length: 2^(n-1).
pub fn composition_count(n: u64) -> u64 {
    if n == 0 {
        1
    } else {
        1 << (n - 1)
    }
}
pub fn composition(n: usize, bits: u64) -> Vec<usize> {
    let mut v = Vec::new();
    if n == 0 {
        return v;
    }
    let mut cur = 1;
    for i in 0..n - 1 {
        if bits >> i & 1 == 1 {
            v.push(cur);
            cur = 1;
        } else {
            cur += 1;
        }
    }
    v.push(cur);
    v
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// Deterministic pattern bytes without small periods.
pub fn pattern(n: usize, salt: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut x = salt.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567;
    for _ in 0..n {
        x = x
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        v.push((x >> 56) as u8);
    }
    v
}
