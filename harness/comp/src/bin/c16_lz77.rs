//! C16: ADC, LZNT1 and LZVN decompression.
use mc_comp::{Decoder, adc, any_data, expect, expect_error, expect_prefix, expect_short, lznt1, lzvn};
use mc_engine::util::{pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov};

fn copy(out: &mut Vec<u8>, dist: usize, len: usize) -> bool {
    if dist == 0 || dist > out.len() {
        return false;
    }
    for _ in 0..len {
        out.push(out[out.len() - dist]);
    }
    true
}

// ADC: 1nnnnnnn literal of n + 1; 0nnnnndd dddddddd: copy n + 3 from d + 1 back (n: 4 bits); 01nnnnnn d16: n + 4.
fn adc_model(c: &[u8]) -> Option<Vec<u8>> {
    let (mut o, mut i) = (vec![], 0);
    while i < c.len() {
        let op = c[i] as usize;
        if op >= 0x80 {
            let n = op - 0x7f;
            o.extend_from_slice(c.get(i + 1..i + 1 + n)?);
            i += 1 + n;
        } else if op >= 0x40 {
            let d = *c.get(i + 1)? as usize * 256 + *c.get(i + 2)? as usize + 1;
            if !copy(&mut o, d, op - 0x40 + 4) {
                return None;
            }
            i += 3;
        } else {
            let d = op % 4 * 256 + *c.get(i + 1)? as usize + 1;
            if !copy(&mut o, d, op / 4 + 3) {
                return None;
            }
            i += 2;
        }
    }
    Some(o)
}

// LZVN as in Apple's description of the opcodes.
fn lzvn_model(c: &[u8]) -> Option<Vec<u8>> {
    let (mut o, mut i, mut prev) = (vec![], 0usize, 0usize);
    loop {
        let op = *c.get(i)? as usize;
        let at = |k: usize| c.get(i + k).map(|b| *b as usize);
        let (ll, mmm) = (op >> 6, (op >> 3) % 8 + 3);
        let (size, lit, len, dist);
        match op {
            0x06 => {
                // End of stream: the opcode and seven zero bytes.
                return Some(o);
            }
            0x0e | 0x16 => (size, lit, len, dist) = (1, 0, 0, prev),
            0x1e | 0x26 | 0x2e | 0x36 | 0x3e | 0x70..=0x7f | 0xd0..=0xdf => return None,
            0xf0 => (size, lit, len, dist) = (2, 0, at(1)? + 16, prev),
            0xf1..=0xff => (size, lit, len, dist) = (1, 0, op - 0xf0, prev),
            0xe0 => (size, lit, len, dist) = (2, at(1)? + 16, 0, prev),
            0xe1..=0xef => (size, lit, len, dist) = (1, op - 0xe0, 0, prev),
            0xa0..=0xbf => {
                let (b1, b2) = (at(1)?, at(2)?);
                (size, lit, len, dist) = (3, (op >> 3) % 4, (op % 8 * 4 + b1 % 4) + 3, b2 * 64 + b1 / 4);
            }
            _ if op % 8 == 7 => (size, lit, len, dist) = (3, ll, mmm, at(1)? + at(2)? * 256),
            _ if op % 8 == 6 => (size, lit, len, dist) = (1, ll, mmm, prev),
            _ => (size, lit, len, dist) = (2, ll, mmm, op % 8 * 256 + at(1)?),
        }
        i += size;
        o.extend_from_slice(c.get(i..i + lit)?);
        i += lit;
        if len > 0 && !copy(&mut o, dist, len) {
            return None;
        }
        prev = dist;
    }
}

fn judge(dec: Decoder, enc: &[u8], model: Option<Vec<u8>>, cov: &mut Cov) -> CaseResult {
    match model {
        Some(want) => expect(dec, enc, &want, cov),
        None => expect_error(dec, enc, 200_000, "data that breaks the format", cov),
    }
}

#[derive(Clone, Copy, Debug)]
enum Tok {
    Lit(u8),
    Match(usize, usize),
}

/// Bits of the length at a position of the chunk.
fn len_bits(pos: usize) -> u32 {
    let mut d = 4;
    while pos > 1 << d {
        d += 1;
    }
    16 - d
}

/// LZNT1: a compressed chunk of tokens (length, distance) and its data; None when a token does not fit.
fn chunk(toks: &[Tok]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (mut body, mut o): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    for g in toks.chunks(8) {
        let flags = body.len();
        body.push(0);
        for (k, t) in g.iter().enumerate() {
            match *t {
                Tok::Lit(b) => {
                    body.push(b);
                    o.push(b);
                }
                Tok::Match(len, dist) => {
                    let lb = len_bits(o.len());
                    if len - 3 >= 1 << lb || dist > 1 << (16 - lb) {
                        return None;
                    }
                    body[flags] |= 1 << k;
                    body.extend_from_slice(&(((dist - 1) << lb | (len - 3)) as u16).to_le_bytes());
                    if dist > o.len() {
                        return None;
                    }
                    copy(&mut o, dist, len);
                }
            }
        }
    }
    if o.len() > 4096 || body.is_empty() || body.len() > 4096 {
        return None;
    }
    let head = 0xb000u16 | (body.len() as u16 - 1);
    Some(([&head.to_le_bytes()[..], &body].concat(), o))
}

fn plain(d: &[u8]) -> Vec<u8> {
    [&(0x3000u16 | (d.len() as u16 - 1)).to_le_bytes()[..], d].concat()
}

/// Tokens for `p` bytes, literals and now and then a match, then the given ones.
fn at(p: usize, rest: &[Tok]) -> Vec<Tok> {
    let (mut t, mut n) = (vec![], 0);
    while n < p {
        if n >= 1024 && n % 64 == 0 && p - n >= 30 {
            t.push(Tok::Match(30, n / 2));
            n += 30;
        } else {
            t.push(Tok::Lit((n * 7 + n / 256 + 5) as u8));
            n += 1;
        }
    }
    t.extend_from_slice(rest);
    t
}

pub fn main() {
    let mut c = Check::new("C16");
    c.assume("the models in harness/comp/src/bin/c16_lz77.rs follow the descriptions of ADC, LZNT1 ([MS-XCA]) and LZVN");
    c.assume("ADC and LZNT1 data that the formats leave open (chunks that produce more than 4096 bytes, items that cross the end of a chunk) is only required to give an answer");

    // ADC: every opcode with every edge of its distance, at several sizes of the data before it.
    let hist = [1usize, 2, 3, 4, 255, 256, 257, 300, 1023, 1024, 1025, 1500, 65535, 65536, 65537];
    c.family("adc opcodes", 256 * hist.len() as u64, |i, cov| {
        let (op, h) = ((i % 256) as u8, hist[(i / 256) as usize]);
        let mut pre = vec![];
        for d in pattern(h, 1).chunks(128) {
            pre.push(0x7f + d.len() as u8);
            pre.extend_from_slice(d);
        }
        if op >= 0x80 {
            for n in [op as usize - 0x7f, op as usize - 0x80] {
                let enc = [&pre[..], &[op], &pattern(n, 2)].concat();
                judge(adc, &enc, adc_model(&enc), cov)?;
            }
            return Ok(());
        }
        let mut ds: Vec<usize> = vec![0, 1, 2, h - 1, h, h + 1, 0x1ff, 0x3ff, 0xff00, 0xffff];
        ds.dedup();
        for d in ds {
            let enc = if op >= 0x40 { [&pre[..], &[op, (d >> 8) as u8, d as u8], &[0x80, 1]].concat() } else { [&pre[..], &[op & 0x3c | (d >> 8) as u8 & 3, d as u8], &[0x80, 1]].concat() };
            judge(adc, &enc, adc_model(&enc), cov)?;
        }
        for n in 1..if op >= 0x40 { 3 } else { 2 } {
            let enc = [&pre[..], &[op, 0, 0][..n]].concat();
            judge(adc, &enc, adc_model(&enc), cov)?;
        }
        Ok(())
    });
    let ops: [&[u8]; 9] = [&[0x80, 1], &[0x82, 5, 6, 7], &[0x00, 0x00], &[0x04, 0x01], &[0x3c, 0x03], &[0x40, 0, 0], &[0x7f, 0, 2], &[0x01, 0x00], &[0x8f, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]];
    let depth = c.pick(5, 6);
    c.family("adc sequences", seq_count(9, depth), |i, cov| {
        let enc: Vec<u8> = seq_decode(9, i).iter().flat_map(|x| ops[*x as usize].to_vec()).collect();
        judge(adc, &enc, adc_model(&enc), cov)
    });

    // LZVN: every opcode after every kind of history, with edges of its operands.
    let hist = [0usize, 1, 2, 3, 8, 63, 64, 255, 256, 300, 1535, 1536, 1600, 16383, 16384, 16400, 65535, 65536];
    c.family("lzvn opcodes", 256 * hist.len() as u64 * 2, |i, cov| {
        let (op, h, prev) = ((i % 256) as u8, hist[(i / 512) as usize], i / 256 % 2);
        let mut pre = vec![];
        for d in pattern(h, 1).chunks(16) {
            if d.len() < 16 {
                pre.push(0xe0 + d.len() as u8);
            } else {
                pre.extend_from_slice(&[0xe0, 0]);
            }
            pre.extend_from_slice(d);
        }
        if prev == 1 {
            // Sets the previous distance to 2, with a match of 3.
            pre.extend_from_slice(&[0x00, 2]);
        }
        let mut operands: Vec<[u8; 2]> = vec![];
        for v in [0usize, 1, 2, 3, 4, 5, 6, 0x3f, 0x40, 0xfe, 0xff, h, h + 1, h + 3, h + 4, h.wrapping_sub(1)] {
            operands.push([v as u8, (v >> 8) as u8]);
            operands.push([(v << 2) as u8 | 1, (v >> 6) as u8]);
            operands.push([(v << 2) as u8 | 2, (v >> 6) as u8]);
        }
        operands.sort();
        operands.dedup();
        for x in operands {
            // Enough literals to satisfy the opcode, whatever it is, cut to what the model consumes.
            let size = match op {
                0xe0 => 2 + x[0] as usize + 16,
                0xe1..=0xef => 1 + op as usize % 16,
                0xf0 => 2,
                0xf1..=0xff => 1,
                0xa0..=0xbf => 3 + op as usize / 8 % 4,
                _ if op % 8 == 7 => 3 + op as usize / 64,
                _ if op % 8 == 6 => 1 + op as usize / 64,
                _ => 2 + op as usize / 64,
            };
            let mut enc = pre.clone();
            enc.push(op);
            enc.extend_from_slice(&x);
            enc.extend_from_slice(&pattern(300, 4));
            enc.truncate(pre.len() + size);
            enc.extend_from_slice(&[0xe2, 0x11, 0x22]);
            enc.extend_from_slice(&[6, 0, 0, 0, 0, 0, 0, 0]);
            judge(lzvn, &enc, lzvn_model(&enc), cov)?;
        }
        Ok(())
    });
    let ops: [&[u8]; 13] = [
        &[0xe1, 1],
        &[0xe3, 5, 6, 7],
        &[0x00, 0x01],
        &[0x40, 0x01, 9],
        &[0x80, 0x02, 8, 9],
        &[0x46, 3],
        &[0xf1],
        &[0xf0, 0],
        &[0xa1, 0x05, 0],
        &[0xb8, 0x08, 0, 1, 2, 3],
        &[0x0f, 0x03, 0x00],
        &[0x0e],
        &[0xc6, 4, 5, 6],
    ];
    let depth = c.pick(4, 6);
    c.family("lzvn sequences", seq_count(13, depth), |i, cov| {
        let mut enc: Vec<u8> = seq_decode(13, i).iter().flat_map(|x| ops[*x as usize].to_vec()).collect();
        enc.extend_from_slice(&[6, 0, 0, 0, 0, 0, 0, 0]);
        judge(lzvn, &enc, lzvn_model(&enc), cov)
    });

    // LZNT1: a match at every position of a chunk, at the edges of its length and distance.
    let pos: Vec<usize> = if c.thorough() { (1..4094).collect() } else { (1..140).chain((2..=11).flat_map(|k| ((1usize << k) - 3).max(1)..(1 << k) + 4)).chain(4050..4094).collect() };
    c.family("lznt1 match at every position", pos.len() as u64, |i, cov| {
        let p = pos[i as usize];
        let max = (1usize << len_bits(p)) + 2;
        for d in [1, 2, p / 2, p - 1, p] {
            for l in [3, 4, max - 1, max] {
                let l = l.min(4096 - p);
                if d == 0 || d > p || l < 3 {
                    continue;
                }
                for tail in [&[][..], &[Tok::Lit(0x77)], &[Tok::Match(3, 1)]] {
                    let toks = at(p, &[&[Tok::Match(l, d)], tail].concat());
                    if let Some((mut enc, want)) = chunk(&toks) {
                        expect(lznt1, &enc, &want, cov)?;
                        enc.extend_from_slice(&[0, 0]);
                        expect(lznt1, &enc, &want, cov)?;
                    }
                }
            }
        }
        // A distance before the start of the chunk.
        let lb = len_bits(p);
        if p < 1 << (16 - lb) {
            let Some((mut enc, _)) = chunk(&at(p, &[Tok::Match(3, 1)])) else {
                return Ok(());
            };
            let n = enc.len();
            enc[n - 2..].copy_from_slice(&((p << lb) as u16).to_le_bytes());
            expect_error(lznt1, &enc, 8192, "a distance before the start of the chunk", cov)?;
            // The same in a second chunk, where the buffer does hold data before the chunk.
            let enc = [plain(&pattern(4096, 3)), enc].concat();
            expect_error(lznt1, &enc, 16384, "a distance before the start of the chunk", cov)?;
        }
        Ok(())
    });
    let alpha = [Tok::Lit(1), Tok::Lit(2), Tok::Match(3, 1), Tok::Match(4, 2), Tok::Match(9, 3), Tok::Match(40, 1), Tok::Match(3, 17)];
    let depth = c.pick(6, 7);
    c.family("lznt1 token sequences", seq_count(7, depth), |i, cov| {
        let toks: Vec<Tok> = seq_decode(7, i).iter().map(|x| alpha[*x as usize]).collect();
        match chunk(&toks) {
            Some((enc, want)) if !toks.is_empty() => expect(lznt1, &enc, &want, cov),
            _ => Ok(()),
        }
    });
    // Sequences of chunks; every chunk but the last holds 4096 bytes.
    let full: Vec<(Vec<u8>, Vec<u8>)> = vec![
        (plain(&pattern(4096, 7)), pattern(4096, 7)),
        chunk(&[Tok::Lit(9), Tok::Match(4095, 1)]).unwrap(),
        chunk(&at(4090, &[Tok::Match(6, 4090)])).unwrap_or_else(|| chunk(&at(2048, &[Tok::Match(34, 2048), Tok::Match(17, 3)])).unwrap()),
        chunk(&[at(16, &[]), vec![Tok::Match(2000, 16), Tok::Match(30, 2000), Tok::Match(18, 1)]].concat()).unwrap_or_else(|| chunk(&[Tok::Lit(3), Tok::Match(4095, 1)]).unwrap()),
    ];
    let tails: Vec<(Vec<u8>, Vec<u8>)> = vec![
        (vec![], vec![]),
        (vec![0, 0], vec![]),
        (vec![0, 0, 0, 0, 0xff], vec![]),
        (plain(&[5]), vec![5]),
        (plain(&pattern(100, 2)), pattern(100, 2)),
        chunk(&[Tok::Lit(9)]).unwrap(),
        chunk(&[Tok::Lit(9), Tok::Match(10, 1), Tok::Lit(8)]).unwrap(),
        chunk(&at(17, &[Tok::Match(10, 17)])).unwrap(),
    ];
    let fulls: Vec<&(Vec<u8>, Vec<u8>)> = full.iter().filter(|f| f.1.len() == 4096).collect();
    let k = fulls.len() as u64;
    let depth = c.pick(3, 4);
    c.family("lznt1 sequences of chunks", seq_count(k, depth) * 8, |i, cov| {
        let (mut enc, mut want) = (vec![], vec![]);
        for x in seq_decode(k, i / 8) {
            enc.extend_from_slice(&fulls[x as usize].0);
            want.extend_from_slice(&fulls[x as usize].1);
        }
        let t = &tails[(i % 8) as usize];
        enc.extend_from_slice(&t.0);
        want.extend_from_slice(&t.1);
        expect(lznt1, &enc, &want, cov)?;
        if want.len() > 4096 {
            expect_short(lznt1, &enc, &want, 4096, cov)?;
            expect_short(lznt1, &enc, &want, 4095, cov)?;
        }
        Ok(())
    });
    // Truncation at every byte.
    let srcs: Vec<(Decoder, Vec<u8>, Vec<u8>)> = vec![
        (adc, vec![0x83, 1, 2, 3, 4, 0x04, 1, 0x44, 0, 2, 0x81, 7, 8], vec![]),
        (lzvn, vec![0xe3, 5, 6, 7, 0x48, 0x01, 9, 0xa9, 0x05, 0, 3, 0x0f, 3, 0, 0xf3, 6, 0, 0, 0, 0, 0, 0, 0], vec![]),
        (lznt1, tails[7].0.clone(), tails[7].1.clone()),
        (lznt1, [&tails[6].0[..], &plain(&[7; 20])].concat(), [&tails[6].1[..], &[7; 20]].concat()),
    ];
    c.family("truncated data and short buffers", 4 * 64, |i, cov| {
        let (dec, enc, want) = &srcs[(i / 64) as usize];
        let want = match i / 64 {
            0 => adc_model(enc).unwrap(),
            1 => lzvn_model(enc).unwrap(),
            _ => want.clone(),
        };
        let n = (i % 64) as usize;
        if n < enc.len() {
            expect_prefix(*dec, &enc[..n], &want, cov)?;
        }
        if n < want.len() {
            expect_short(*dec, enc, &want, n, cov)?;
        }
        Ok(())
    });
    // Any data.
    let n = seq_count(256, c.pick(2, 3));
    c.family("all short data", n, |i, cov| {
        let d: Vec<u8> = seq_decode(256, i).iter().map(|x| *x as u8).collect();
        cov.state(&d);
        for dec in [adc, lznt1, lzvn] {
            any_data(dec, &d, 70, cov)?;
        }
        // After a chunk header, and after some data.
        any_data(lznt1, &[&[0x02, 0xb0], &d[..]].concat(), 70, cov)?;
        any_data(lznt1, &[&[0x0c, 0xb0, 0x00, 1, 2, 3, 4, 5, 6, 7, 8, 0x03], &d[..]].concat(), 5000, cov)?;
        any_data(adc, &[&[0x82, 1, 2, 3], &d[..]].concat(), 70, cov)?;
        any_data(lzvn, &[&[0xe3, 1, 2, 3, 0, 1], &d[..]].concat(), 70, cov)
    });
    // A chunk that claims to produce as much as possible from its tuples.
    c.family("lznt1 oversized chunks", 64, |i, cov| {
        let mut body = vec![0xfe, 1];
        let v = [0x0fffu16, 0xffff, 0x0000, 0x7fff][(i % 4) as usize];
        for k in 0..(i / 4 + 1) * 16 {
            if k % 8 == 7 {
                body.push(0xff);
            }
            body.extend_from_slice(&(if i % 4 == 1 && k < 6 { 0x0fff } else { v }).to_le_bytes());
        }
        let head = 0xb000u16 | (body.len() as u16 - 1);
        let enc = [&head.to_le_bytes()[..], &body].concat();
        any_data(lznt1, &enc, 300_000, cov)
    });
    c.finish();
}
