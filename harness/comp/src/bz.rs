//! bzip2 encoder, with every choice the format leaves open as an option.
use crate::{MsbWriter, canonical};

pub fn crc(d: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for b in d {
        c ^= (*b as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { c << 1 ^ 0x04c1_1db7 } else { c << 1 };
        }
    }
    !c
}

/// Initial run-length encoding.
pub fn rle1(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < d.len() {
        let run = d[i..].iter().take(259).take_while(|b| **b == d[i]).count();
        o.extend(std::iter::repeat_n(d[i], run.min(4)));
        if run >= 4 {
            o.push((run - 4) as u8);
        }
        i += run;
    }
    o
}

/// Last column of the sorted rotations and the row of the data itself.
pub fn bwt(d: &[u8]) -> (Vec<u8>, usize) {
    let n = d.len();
    let dd = [d, d].concat();
    let mut rows: Vec<usize> = (0..n).collect();
    rows.sort_by(|a, b| dd[*a..*a + n].cmp(&dd[*b..*b + n]));
    (rows.iter().map(|r| dd[r + n - 1]).collect(), rows.iter().position(|r| *r == 0).unwrap_or(0))
}

/// Symbols (0 and 1: run lengths, n + 1: end of block) of the last column.
pub fn mtf(last: &[u8], used: &[u8]) -> Vec<u16> {
    let mut stack = used.to_vec();
    let mut o = vec![];
    let mut zeros = 0usize;
    let flush = |z: &mut usize, o: &mut Vec<u16>| {
        // Bijective base 2: digits 1 (symbol 0) and 2 (symbol 1), least significant first.
        while *z > 0 {
            if *z % 2 == 1 {
                o.push(0);
                *z = (*z - 1) / 2;
            } else {
                o.push(1);
                *z = (*z - 2) / 2;
            }
        }
    };
    for b in last {
        let p = stack.iter().position(|x| x == b).unwrap();
        if p == 0 {
            zeros += 1;
        } else {
            flush(&mut zeros, &mut o);
            o.push(p as u16 + 1);
            stack.remove(p);
            stack.insert(0, *b);
        }
    }
    flush(&mut zeros, &mut o);
    o.push(used.len() as u16 + 1);
    o
}

#[derive(Clone, Debug)]
pub struct Opts {
    /// Code lengths of every tree; a tree of which the number of lengths is not that of the symbols is replaced by
    /// a balanced one.
    pub trees: Vec<Vec<u8>>,
    /// Tree of the n-th group: (a * n + b) % trees.
    pub a: usize,
    pub b: usize,
    /// Selectors past the last one needed.
    pub more_selectors: usize,
}

impl Opts {
    pub fn plain() -> Self {
        Opts { trees: vec![vec![]; 2], a: 0, b: 0, more_selectors: 0 }
    }
}

/// Writes one block of data that is its own initial run-length encoding's input; returns its checksum.
pub fn block(w: &mut MsbWriter, d: &[u8], o: &Opts) -> u32 {
    let r = rle1(d);
    let (last, origin) = bwt(&r);
    raw_block(w, crc(d), origin as u32, &last, o);
    crc(d)
}

pub fn raw_block(w: &mut MsbWriter, crc: u32, origin: u32, last: &[u8], o: &Opts) {
    w.bits(0x3141_5926_5359, 48);
    w.bits(crc as u64, 32);
    w.bits(0, 1);
    w.bits(origin as u64, 24);
    let mut used = last.to_vec();
    used.sort();
    used.dedup();
    used_map(w, &used);
    let syms = mtf(last, &used);
    coded(w, &syms, used.len() + 2, o);
}

pub fn used_map(w: &mut MsbWriter, used: &[u8]) {
    let row = |i: u32| used.iter().filter(|u| **u as u32 / 16 == i).fold(0u64, |a, u| a | 1 << (15 - *u % 16));
    let mut top = 0;
    for i in 0..16 {
        if row(i) != 0 {
            top |= 1 << (15 - i);
        }
    }
    w.bits(top, 16);
    for i in 0..16 {
        if row(i) != 0 {
            w.bits(row(i), 16);
        }
    }
}

pub fn selectors(w: &mut MsbWriter, sel: &[usize], trees: usize) {
    w.bits(trees as u64, 3);
    w.bits(sel.len() as u64, 15);
    let mut stack: Vec<usize> = (0..8).collect();
    for s in sel {
        let p = stack.iter().position(|x| x == s).unwrap();
        for _ in 0..p {
            w.bits(1, 1);
        }
        w.bits(0, 1);
        stack.remove(p);
        stack.insert(0, *s);
    }
}

pub fn tree(w: &mut MsbWriter, lens: &[u8]) {
    let mut cur = lens[0];
    w.bits(cur as u64, 5);
    for l in lens {
        while cur < *l {
            w.bits(0b10, 2);
            cur += 1;
        }
        while cur > *l {
            w.bits(0b11, 2);
            cur -= 1;
        }
        w.bits(0, 1);
    }
}

pub fn coded(w: &mut MsbWriter, syms: &[u16], n: usize, o: &Opts) {
    let trees: Vec<Vec<u8>> = o.trees.iter().map(|t| if t.len() == n { t.clone() } else { crate::deflate::balanced(n) }).collect();
    let groups = syms.len().div_ceil(50);
    let sel: Vec<usize> = (0..groups + o.more_selectors).map(|i| (o.a * i + o.b) % trees.len()).collect();
    selectors(w, &sel, trees.len());
    for t in &trees {
        tree(w, t);
    }
    let codes: Vec<_> = trees.iter().map(|t| canonical(t)).collect();
    for (i, s) in syms.iter().enumerate() {
        w.code(codes[sel[i / 50]][*s as usize]);
    }
}

pub fn stream(level: u8, blocks: &[&[u8]], o: &Opts) -> Vec<u8> {
    let mut w = start(level);
    let mut c = 0u32;
    for b in blocks {
        c = c.rotate_left(1) ^ block(&mut w, b, o);
    }
    end(&mut w, c)
}

pub fn start(level: u8) -> MsbWriter {
    let mut w = MsbWriter::default();
    w.bits(0x425a68, 24);
    w.bits(0x30 + level as u64, 8);
    w
}

pub fn end(w: &mut MsbWriter, c: u32) -> Vec<u8> {
    w.bits(0x1772_4538_5090, 48);
    w.bits(c as u64, 32);
    w.bytes()
}
