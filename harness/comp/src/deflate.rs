//! DEFLATE (RFC 1951) encoder.
use crate::{LsbWriter, canonical};

const LEN_BASE: [u16; 29] = {
    // RFC 1951 3.2.5: codes 257..264 have no extra bits, then four codes for every extra bit; 285 is 258.
    let mut t = [0u16; 29];
    let mut i = 0;
    let mut base = 3u16;
    while i < 28 {
        t[i] = base;
        base += 1 << if i < 8 { 0 } else { (i - 4) / 4 };
        i += 1;
    }
    t[28] = 258;
    t
};

pub fn len_extra(i: usize) -> u32 {
    if i < 8 || i == 28 { 0 } else { (i as u32 - 4) / 4 }
}

pub fn dist_extra(i: usize) -> u32 {
    if i < 4 { 0 } else { i as u32 / 2 - 1 }
}

pub fn dist_base(i: usize) -> u32 {
    if i < 2 { i as u32 + 1 } else { (1 << (dist_extra(i) + 1)) + ((i as u32 & 1) << dist_extra(i)) + 1 }
}

/// Length symbol (0..29) and extra value.
pub fn len_symbol(len: usize) -> (usize, u32) {
    if len == 258 {
        return (28, 0);
    }
    let i = (0..28).rev().find(|i| LEN_BASE[*i] as usize <= len).unwrap();
    (i, (len - LEN_BASE[i] as usize) as u32)
}

pub fn len_base(i: usize) -> usize {
    LEN_BASE[i] as usize
}

pub fn dist_symbol(dist: usize) -> (usize, u32) {
    let i = (0..30).rev().find(|i| dist_base(*i) as usize <= dist).unwrap();
    (i, dist as u32 - dist_base(i))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    Lit(u8),
    /// Length, distance.
    Match(usize, usize),
    /// Length symbol, extra, distance symbol, extra.
    Raw(usize, u32, usize, u32),
}

impl Tok {
    pub fn symbols(&self) -> (usize, Option<(u32, usize, u32)>) {
        match *self {
            Tok::Lit(b) => (b as usize, None),
            Tok::Match(l, d) => {
                let ((ls, le), (ds, de)) = (len_symbol(l), dist_symbol(d));
                (257 + ls, Some((le, ds, de)))
            }
            Tok::Raw(ls, le, ds, de) => (257 + ls, Some((le, ds, de))),
        }
    }
    pub fn len_dist(&self) -> Option<(usize, usize)> {
        match *self {
            Tok::Lit(_) => None,
            Tok::Match(l, d) => Some((l, d)),
            Tok::Raw(ls, le, ds, de) => Some((len_base(ls) + le as usize, (dist_base(ds) + de) as usize)),
        }
    }
}

/// Applies tokens to the data so far; false when a distance reaches before the start.
pub fn apply(out: &mut Vec<u8>, toks: &[Tok]) -> bool {
    for t in toks {
        match (t, t.len_dist()) {
            (Tok::Lit(b), _) => out.push(*b),
            (_, Some((l, d))) => {
                if d > out.len() {
                    return false;
                }
                for _ in 0..l {
                    out.push(out[out.len() - d]);
                }
            }
            _ => unreachable!(),
        }
    }
    true
}

pub fn stored(w: &mut LsbWriter, last: bool, d: &[u8]) {
    w.bits(last as u32, 1);
    w.bits(0, 2);
    w.align();
    let n = d.len() as u16;
    w.bytes(&n.to_le_bytes());
    w.bytes(&(!n).to_le_bytes());
    w.bytes(d);
}

pub fn fixed_lens() -> (Vec<u8>, Vec<u8>) {
    ((0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect(), vec![5; 32])
}

pub fn write_tokens(w: &mut LsbWriter, toks: &[Tok], lit: &[u8], dist: &[u8]) {
    let (lc, dc) = (canonical(lit), canonical(dist));
    for t in toks {
        let (s, m) = t.symbols();
        assert!(lc[s].1 > 0, "symbol {s} has no code");
        w.code(lc[s]);
        if let Some((le, ds, de)) = m {
            w.bits(le, len_extra(s - 257));
            assert!(dc[ds].1 > 0);
            w.code(dc[ds]);
            w.bits(de, dist_extra(ds));
        }
    }
    w.code(lc[256]);
}

pub fn fixed(w: &mut LsbWriter, last: bool, toks: &[Tok]) {
    w.bits(last as u32, 1);
    w.bits(1, 2);
    let (l, d) = fixed_lens();
    write_tokens(w, toks, &l, &d);
}

/// How code lengths are written: literally, or with the repeat codes used as early as they can, with at most
/// `cap` repetitions at a time.
#[derive(Clone, Copy, Debug)]
pub struct Rle {
    pub use16: bool,
    pub use17: bool,
    pub use18: bool,
    pub cap: usize,
}

/// Code length symbols (symbol, extra value, extra bits) of a vector of code lengths.
pub fn rle(lens: &[u8], o: Rle) -> Vec<(u8, u32, u32)> {
    let mut out = vec![];
    let mut i = 0;
    while i < lens.len() {
        let run = lens[i..].iter().take_while(|l| **l == lens[i]).count();
        if lens[i] == 0 && o.use18 && run >= 11 {
            let n = run.min(138).min(o.cap.max(11));
            out.push((18, n as u32 - 11, 7));
            i += n;
        } else if lens[i] == 0 && o.use17 && run >= 3 {
            let n = run.min(10).min(o.cap.max(3));
            out.push((17, n as u32 - 3, 3));
            i += n;
        } else if o.use16 && i > 0 && lens[i - 1] == lens[i] && run >= 3 {
            let n = run.min(6).min(o.cap.max(3));
            out.push((16, n as u32 - 3, 2));
            i += n;
        } else {
            out.push((lens[i], 0, 0));
            i += 1;
        }
    }
    out
}

const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

/// Complete code lengths for the symbols in use: as balanced as possible.
pub fn balanced(n: usize) -> Vec<u8> {
    if n == 1 {
        return vec![1];
    }
    let mut k = 0;
    while 1usize << k < n {
        k += 1;
    }
    // 2^k leaves, n needed: 2^k - n codes of length k - 1.
    let short = (1 << k) - n;
    (0..n).map(|i| if i < short { k as u8 - 1 } else { k as u8 }).collect()
}

/// Writes the header of a dynamic block. `all_codes`: write all 19 code length code lengths.
pub fn dynamic_header(w: &mut LsbWriter, last: bool, lit: &[u8], dist: &[u8], o: Rle, all_codes: bool) {
    let mut all = lit.to_vec();
    all.extend_from_slice(dist);
    let syms = rle(&all, o);
    let mut used: Vec<usize> = syms.iter().map(|s| s.0 as usize).collect();
    used.sort();
    used.dedup();
    if used.len() == 1 {
        used.push(if used[0] == 0 { 1 } else { 0 });
        used.sort();
    }
    let mut cl = [0u8; 19];
    for (l, s) in balanced(used.len()).iter().zip(&used) {
        cl[*s] = *l;
    }
    let n = if all_codes { 19 } else { (4..=19).find(|n| (*n..19).all(|i| cl[ORDER[i]] == 0)).unwrap() };
    w.bits(last as u32, 1);
    w.bits(2, 2);
    w.bits(lit.len() as u32 - 257, 5);
    w.bits(dist.len() as u32 - 1, 5);
    w.bits(n as u32 - 4, 4);
    for i in 0..n {
        w.bits(cl[ORDER[i]] as u32, 3);
    }
    let cc = canonical(&cl);
    for (s, e, b) in syms {
        w.code(cc[s as usize]);
        w.bits(e, b);
    }
}

pub fn dynamic(w: &mut LsbWriter, last: bool, toks: &[Tok], lit: &[u8], dist: &[u8], o: Rle, all_codes: bool) {
    dynamic_header(w, last, lit, dist, o, all_codes);
    write_tokens(w, toks, lit, dist);
}

/// Balanced code lengths for what the tokens use.
pub fn lens_for(toks: &[Tok]) -> (Vec<u8>, Vec<u8>) {
    let mut ls = vec![256];
    let mut ds = vec![];
    for t in toks {
        let (s, m) = t.symbols();
        ls.push(s);
        if let Some((_, d, _)) = m {
            ds.push(d);
        }
    }
    (spread(ls, 257), spread(ds, 1))
}

fn spread(mut s: Vec<usize>, min: usize) -> Vec<u8> {
    s.sort();
    s.dedup();
    let mut v = vec![0; s.last().map_or(min, |x| (x + 1).max(min))];
    if !s.is_empty() {
        for (l, x) in balanced(s.len()).iter().zip(&s) {
            v[*x] = *l;
        }
    }
    v
}

pub const PLAIN: Rle = Rle { use16: false, use17: false, use18: false, cap: 999 };
pub const FULL: Rle = Rle { use16: true, use17: true, use18: true, cap: 999 };

pub fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
