//! An encoder of LZX as in WIM files (32768 byte window), written from the description of the format.
use crate::{MsbWriter, canonical};

#[derive(Clone, Copy, Debug, Hash)]
pub enum Tok {
    Lit(u8),
    /// Length and distance.
    Match(u32, u32),
    /// Length and index of the recent distance.
    Recent(u32, usize),
}

pub fn extra_bits(slot: usize) -> u32 {
    if slot < 4 { 0 } else { (slot as u32 / 2 - 1).min(17) }
}

/// First formatted distance (distance + 2) of a slot.
pub fn slot_base(slot: usize) -> u32 {
    (0..slot).map(|s| 1 << extra_bits(s)).sum()
}

pub fn slot_of(dist: u32) -> usize {
    (3..30).rev().find(|s| slot_base(*s) <= dist + 2).unwrap()
}

/// Lengths of a complete code over the used symbols, at least two.
pub fn lengths(n: usize, used: &[usize], max: u32, how: u64) -> Vec<u8> {
    let mut u = used.to_vec();
    u.sort();
    u.dedup();
    let mut l = vec![0u8; n];
    if u.is_empty() {
        return l;
    }
    let mut k = 0;
    while u.len() < 2 {
        if !u.contains(&k) {
            u.push(k);
        }
        k += 1;
    }
    u.sort();
    let c = u.len();
    let flat = |l: &mut Vec<u8>, syms: &[usize], add: u32| {
        let c = syms.len();
        let mut h = 0;
        while 1usize << h < c {
            h += 1;
        }
        let short = (1usize << h) - c;
        for (i, s) in syms.iter().enumerate() {
            l[*s] = (add + if i < short { h - 1 } else { h }) as u8;
        }
    };
    match how {
        0 => flat(&mut l, &u, 0),
        _ => {
            // One bit for the first, two for the second, as far as the rest still fits.
            let (mut d, mut rest) = (0, if how == 1 { u.clone() } else { u.iter().rev().copied().collect() });
            let need = |c: usize| (c as f64).log2().ceil() as u32;
            while rest.len() > 2 && d + 1 + need(rest.len() - 1) <= max && d < 14 {
                d += 1;
                l[rest.remove(0)] = d as u8;
            }
            flat(&mut l, &rest, d);
        }
    }
    assert!(c > 1);
    l
}

#[derive(Clone)]
pub enum Block {
    /// Tokens, whether aligned, how to make codes, whether to use runs of code lengths.
    Coded(Vec<Tok>, bool, u64, u64),
    Stored(Vec<u8>, [u32; 3]),
}

pub struct Encoder {
    pub w: MsbWriter,
    pub lits: Vec<u8>,
    pub lens: Vec<u8>,
    pub recent: [u32; 3],
    pub out: Vec<u8>,
    pub ok: bool,
}

impl Default for Encoder {
    fn default() -> Self {
        Encoder { w: MsbWriter::default(), lits: vec![0; 496], lens: vec![0; 249], recent: [1; 3], out: vec![], ok: true }
    }
}

impl Encoder {
    fn unit(&mut self, d: &[u8]) {
        // Bytes in the stream of 16-bit little-endian units.
        for p in d.chunks(2) {
            self.w.bits(*p.get(1).unwrap_or(&0) as u64, 8);
            self.w.bits(p[0] as u64, 8);
        }
    }
    pub fn header(&mut self, kind: u64, size: usize) {
        self.w.bits(kind, 3);
        if size == 32768 {
            self.w.bits(1, 1);
        } else {
            self.w.bits(0, 1);
            self.w.bits(size as u64, 16);
        }
    }
    /// Lengths relative to the previous ones.
    fn write_lengths(&mut self, prev: &[u8], new: &[u8], how: u64, runs: u64) {
        let mut ops: Vec<(usize, u64, u32)> = vec![];
        let mut i = 0;
        while i < new.len() {
            let same = new[i..].iter().take_while(|x| **x == new[i]).count();
            let delta = |k: usize| ((prev[k] as usize + 17) - new[k] as usize) % 17;
            if runs > 0 && new[i] == 0 && same >= 20 {
                let n = same.min(51);
                ops.push((18, n as u64 - 20, 5));
                i += n;
            } else if runs > 0 && new[i] == 0 && same >= 4 {
                let n = same.min(19);
                ops.push((17, n as u64 - 4, 4));
                i += n;
            } else if runs > 1 && same >= 4 {
                let n = same.min(5);
                ops.push((19, n as u64 - 4, 1));
                ops.push((delta(i), 0, 0));
                i += n;
            } else {
                ops.push((delta(i), 0, 0));
                i += 1;
            }
        }
        let lens = lengths(20, &ops.iter().map(|o| o.0).collect::<Vec<_>>(), 15, how);
        let codes = canonical(&lens);
        lens.iter().for_each(|l| self.w.bits(*l as u64, 4));
        for (s, v, n) in ops {
            self.w.code(codes[s]);
            self.w.bits(v, n);
        }
    }
    pub fn block(&mut self, b: &Block) {
        match b {
            Block::Stored(d, r) => {
                self.header(3, d.len());
                // 1 to 16 bits.
                self.w.bits(0, 1);
                while self.w.bits.len() % 16 != 0 {
                    self.w.bits(0, 1);
                }
                let mut x: Vec<u8> = r.iter().flat_map(|v| v.to_le_bytes()).collect();
                x.extend_from_slice(d);
                self.unit(&x);
                self.recent = *r;
                self.out.extend_from_slice(d);
            }
            Block::Coded(toks, aligned, how, runs) => {
                let (mut main, mut len, mut al) = (vec![], vec![], vec![]);
                // Symbol, length symbol, extra bits.
                let mut items: Vec<(usize, Option<usize>, u32, u32)> = vec![];
                let before = self.out.len();
                for t in toks {
                    let (l, slot, f) = match *t {
                        Tok::Lit(x) => {
                            main.push(x as usize);
                            items.push((x as usize, None, 0, 0));
                            self.out.push(x);
                            continue;
                        }
                        Tok::Match(l, d) => {
                            self.recent = [d, self.recent[0], self.recent[1]];
                            let s = slot_of(d);
                            (l, s, d + 2 - slot_base(s))
                        }
                        Tok::Recent(l, k) => {
                            self.recent.swap(0, k);
                            (l, k, 0)
                        }
                    };
                    let h = (l - 2).min(7) as usize;
                    let sym = 256 + slot * 8 + h;
                    let ls = if h == 7 { Some(l as usize - 9) } else { None };
                    main.push(sym);
                    len.extend(ls);
                    if slot >= 8 {
                        al.push(f as usize % 8);
                    }
                    items.push((sym, ls, f, extra_bits(slot)));
                    let d = self.recent[0] as usize;
                    if d > self.out.len() || d == 0 {
                        self.ok = false;
                        self.out.resize(self.out.len() + l as usize, 0);
                    } else {
                        for _ in 0..l {
                            self.out.push(self.out[self.out.len() - d]);
                        }
                    }
                }
                self.header(if *aligned { 2 } else { 1 }, self.out.len() - before);
                let lits = lengths(496, &main, 16, *how);
                let lens = lengths(249, &len, 16, *how);
                let mut alen = lengths(8, &al, 7, *how);
                if al.is_empty() {
                    alen = vec![3; 8];
                }
                if *aligned {
                    alen.iter().for_each(|l| self.w.bits(*l as u64, 3));
                }
                let (pl, pn) = (self.lits.clone(), self.lens.clone());
                self.write_lengths(&pl[..256], &lits[..256], *how, *runs);
                self.write_lengths(&pl[256..], &lits[256..], *how, *runs);
                self.write_lengths(&pn, &lens, *how, *runs);
                let (cl, cn, ca) = (canonical(&lits), canonical(&lens), canonical(&alen));
                for (sym, ls, f, n) in items {
                    self.w.code(cl[sym]);
                    if let Some(l) = ls {
                        self.w.code(cn[l]);
                    }
                    if *aligned && n >= 3 {
                        self.w.bits((f >> 3) as u64, n - 3);
                        self.w.code(ca[f as usize % 8]);
                    } else {
                        self.w.bits(f as u64, n);
                    }
                }
                (self.lits, self.lens) = (lits, lens);
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut w = self.w.clone();
        while w.bits.len() % 16 != 0 {
            w.bits(0, 1);
        }
        w.bytes().chunks(2).flat_map(|p| [p[1], p[0]]).collect()
    }
    /// The data with its call instructions adjusted. The descriptions differ on the instructions in the last 10 bytes:
    /// None when that matters.
    pub fn data(&self) -> Option<Vec<u8>> {
        let x = adjust(&self.out, 10);
        if adjust(&self.out, 6) == x { Some(x) } else { None }
    }
}

pub fn adjust(d: &[u8], tail: usize) -> Vec<u8> {
    let mut o = d.to_vec();
    if d.len() <= 10 {
        return o;
    }
    let mut i = 0;
    while i < d.len() - tail {
        if o[i] != 0xe8 {
            i += 1;
            continue;
        }
        let a = i32::from_le_bytes(o[i + 1..i + 5].try_into().unwrap()) as i64;
        let p = i as i64;
        let r = if (0..12_000_000).contains(&a) {
            a - p
        } else if (-p..0).contains(&a) {
            a + 12_000_000
        } else {
            a
        };
        o[i + 1..i + 5].copy_from_slice(&(r as i32).to_le_bytes());
        i += 5;
    }
    o
}
