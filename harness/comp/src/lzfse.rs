//! An LZFSE encoder, written from the description of the format: finite state entropy coding by partition of the state
//! space, headers of version 1 and 2.
use crate::MsbWriter;

/// Bits of the extra value, per symbol.
pub fn l_bits(s: usize) -> u32 {
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 3, 5, 8][s]
}
pub fn m_bits(s: usize) -> u32 {
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 5, 8, 11][s]
}
pub fn d_bits(s: usize) -> u32 {
    s as u32 / 4
}

/// Smallest value of a symbol: the values of the symbols follow on from each other.
pub fn base(bits: fn(usize) -> u32, s: usize) -> u32 {
    (0..s).map(|k| 1 << bits(k)).sum()
}

/// Symbol of a value.
pub fn symbol(bits: fn(usize) -> u32, n: usize, v: u32) -> usize {
    (0..n).rev().find(|s| base(bits, *s) <= v).unwrap()
}

/// A state machine of `n` states: per symbol the ranges (first next state, log2 size) of its states.
pub struct Fse {
    pub n: u32,
    pub first: Vec<u32>,
    pub ranges: Vec<Vec<(u32, u32)>>,
}

impl Fse {
    /// The states of a symbol partition the state space in ranges of two sizes, 2^k and half of that. The states with
    /// the larger ranges come first, but have the upper part of the state space.
    pub fn new(freq: &[u16], n: u32) -> Self {
        let (mut first, mut ranges, mut at) = (vec![], vec![], 0);
        for f in freq {
            let f = *f as u32;
            first.push(at);
            at += f;
            if f == 0 {
                ranges.push(vec![]);
                continue;
            }
            // Largest k such that f ranges of 2^k cover the space.
            let mut k = 0;
            while f << k < n {
                k += 1;
            }
            // x ranges of 2^k and f - x of 2^(k - 1).
            let small = if k == 0 { 0 } else { f - ((n >> (k - 1)) - f) };
            let large = f - small;
            let mut r = vec![];
            let mut pos = if k == 0 { 0 } else { small << (k - 1) };
            for _ in 0..large {
                r.push((pos, k));
                pos += 1 << k;
            }
            assert_eq!(pos, n);
            for j in 0..small {
                r.push((j << (k - 1), k - 1));
            }
            ranges.push(r);
        }
        Fse { n, first, ranges }
    }
    /// The state for a symbol that leads to state `to`, and the bits to write for that.
    pub fn encode(&self, sym: usize, to: u32) -> (u32, u32, u32) {
        let (j, (from, k)) = self.ranges[sym].iter().enumerate().find(|(_, r)| (r.0..r.0 + (1 << r.1)).contains(&to)).expect("symbol without frequency");
        (self.first[sym] + j as u32, to - from, *k)
    }
}

/// Bits in the order they are read: the last byte first, each most significant bit first, zeros at the start.
fn stream(bits: &MsbWriter) -> (Vec<u8>, i32) {
    let pad = (8 - bits.bits.len() % 8) % 8;
    let mut w = MsbWriter { bits: vec![false; pad] };
    w.bits.extend_from_slice(&bits.bits);
    let mut b = w.bytes();
    b.reverse();
    (b, -(pad as i32))
}

/// Frequencies of n states for the symbols used: one each, then the rest over the symbols, by `how`.
pub fn spread(used: &[usize], symbols: usize, n: u32, how: u64) -> Vec<u16> {
    let mut f = vec![0u16; symbols];
    let mut u = used.to_vec();
    u.sort();
    u.dedup();
    if u.is_empty() {
        return f;
    }
    for s in &u {
        f[*s] = 1;
    }
    let mut left = n - u.len() as u32;
    match how {
        0 => f[u[0]] += left as u16,
        1 => f[*u.last().unwrap()] += left as u16,
        2 => {
            // Evenly.
            let k = u.len() as u32;
            for (i, s) in u.iter().enumerate() {
                f[*s] += (left / k + ((i as u32) < left % k) as u32) as u16;
            }
        }
        _ => {
            // Halves.
            for s in u.iter().skip(1) {
                let x = left / 2;
                f[*s] += x as u16;
                left -= x;
            }
            f[u[0]] += left as u16;
        }
    }
    f
}

#[derive(Clone)]
pub struct Block {
    pub lits: Vec<u8>,
    pub lmd: Vec<(u32, u32, u32)>,
    /// Frequencies of L, M, D and literals.
    pub freq: Vec<u16>,
    /// States after the last value of the literals, L, M and D.
    pub last: [u32; 7],
    pub version: u8,
}

impl Block {
    pub fn new(lits: &[u8], lmd: &[(u32, u32, u32)], how: u64, version: u8) -> Self {
        let mut lits = lits.to_vec();
        while lits.len() % 4 != 0 {
            lits.push(*lits.last().unwrap());
        }
        let f = |n, bits: fn(usize) -> u32, states, v: Vec<u32>| spread(&v.iter().map(|x| symbol(bits, n, *x)).collect::<Vec<_>>(), n, states, how);
        let freq = [
            f(20, l_bits, 64, lmd.iter().map(|x| x.0).collect()),
            f(20, m_bits, 64, lmd.iter().map(|x| x.1).collect()),
            f(64, d_bits, 256, lmd.iter().map(|x| x.2).collect()),
            spread(&lits.iter().map(|b| *b as usize).collect::<Vec<_>>(), 256, 1024, how),
        ]
        .concat();
        Block { lits, lmd: lmd.to_vec(), freq, last: [0; 7], version }
    }

    /// The frequencies as in the header.
    pub fn table(&self) -> Vec<u8> {
        if self.version == 1 {
            return self.freq.iter().flat_map(|f| f.to_le_bytes()).collect();
        }
        let mut w = crate::LsbWriter::default();
        for f in &self.freq {
            let f = *f as u32;
            match f {
                0 => w.bits(0, 2),
                1 => w.bits(0b10, 2),
                2 => w.bits(0b001, 3),
                3 => w.bits(0b101, 3),
                4..=7 => w.bits(0b00011 | (f - 4) << 3, 5),
                8..=23 => w.bits(0b0111 | (f - 8) << 4, 8),
                _ => w.bits(0b1111 | (f - 24) << 4, 14),
            }
        }
        w.out
    }

    /// The data of the block, with the size of the data it holds.
    pub fn encode(&self) -> Vec<u8> {
        let fl = Fse::new(&self.freq[..20], 64);
        let fm = Fse::new(&self.freq[20..40], 64);
        let fd = Fse::new(&self.freq[40..104], 256);
        let fx = Fse::new(&self.freq[104..], 1024);
        let mut st = [self.last[0], self.last[1], self.last[2], self.last[3]];
        let mut parts: Vec<(u64, u32)> = vec![];
        for (i, b) in self.lits.iter().enumerate().rev() {
            let (s, v, k) = fx.encode(*b as usize, st[i % 4]);
            parts.push((v as u64, k));
            st[i % 4] = s;
        }
        let mut w = MsbWriter::default();
        parts.iter().rev().for_each(|p| w.bits(p.0, p.1));
        let (lit_data, lit_bits) = stream(&w);

        let mut s3 = [self.last[4], self.last[5], self.last[6]];
        let mut parts: Vec<(u64, u32)> = vec![];
        for (l, m, d) in self.lmd.iter().rev() {
            for (q, v, n, bits, fse) in [(2, *d, 64, d_bits as fn(usize) -> u32, &fd), (1, *m, 20, m_bits, &fm), (0, *l, 20, l_bits, &fl)] {
                let sym = symbol(bits, n, v);
                let (s, x, k) = fse.encode(sym, s3[q]);
                parts.push((((x as u64) << bits(sym)) | (v - base(bits, sym)) as u64, k + bits(sym)));
                s3[q] = s;
            }
        }
        let mut w = MsbWriter::default();
        parts.iter().rev().for_each(|p| w.bits(p.0, p.1));
        let (lmd_data, lmd_bits) = stream(&w);

        let size: u32 = self.lmd.iter().map(|x| x.0 + x.1).sum();
        let mut o = if self.version == 1 { b"bvx1".to_vec() } else { b"bvx2".to_vec() };
        o.extend_from_slice(&size.to_le_bytes());
        if self.version == 1 {
            let p = (lit_data.len() + lmd_data.len()) as u32;
            for v in [p, self.lits.len() as u32, self.lmd.len() as u32, lit_data.len() as u32, lmd_data.len() as u32, lit_bits as u32] {
                o.extend_from_slice(&v.to_le_bytes());
            }
            st.iter().for_each(|s| o.extend_from_slice(&(*s as u16).to_le_bytes()));
            o.extend_from_slice(&lmd_bits.to_le_bytes());
            s3.iter().for_each(|s| o.extend_from_slice(&(*s as u16).to_le_bytes()));
            o.extend_from_slice(&self.table());
        } else {
            let table = self.table();
            let a = self.lits.len() as u64 | (lit_data.len() as u64) << 20 | (self.lmd.len() as u64) << 40 | ((lit_bits + 7) as u64) << 60;
            let b = st.iter().enumerate().map(|(i, s)| (*s as u64) << (10 * i)).sum::<u64>() | (lmd_data.len() as u64) << 40 | ((lmd_bits + 7) as u64) << 60;
            let c = (32 + table.len() as u64) | (s3[0] as u64) << 32 | (s3[1] as u64) << 42 | (s3[2] as u64) << 52;
            [a, b, c].iter().for_each(|v| o.extend_from_slice(&v.to_le_bytes()));
            o.extend_from_slice(&table);
        }
        o.extend_from_slice(&lit_data);
        o.extend_from_slice(&lmd_data);
        o
    }

    /// What the block adds to the data; None when a distance is outside the data.
    pub fn expand(&self, o: &mut Vec<u8>) -> Option<()> {
        let (mut at, mut dist) = (0, 0);
        for (l, m, d) in &self.lmd {
            o.extend_from_slice(self.lits.get(at..at + *l as usize)?);
            at += *l as usize;
            if *d != 0 {
                dist = *d as usize;
            }
            if *m == 0 {
                continue;
            }
            if dist == 0 || dist > o.len() {
                return None;
            }
            for _ in 0..*m {
                o.push(o[o.len() - dist]);
            }
        }
        Some(())
    }
}

pub fn stored(d: &[u8]) -> Vec<u8> {
    [&b"bvx-"[..], &(d.len() as u32).to_le_bytes(), d].concat()
}

pub fn lzvn_block(enc: &[u8], size: usize) -> Vec<u8> {
    [&b"bvxn"[..], &(size as u32).to_le_bytes(), &(enc.len() as u32).to_le_bytes(), enc].concat()
}
