//! C17: LZFSE decompression.
use mc_comp::lzfse::{Block, base, d_bits, l_bits, lzvn_block, m_bits, stored};
use mc_comp::{any_data, expect, expect_error, expect_prefix, expect_short, lzfse};
use mc_engine::util::{pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov};

fn run(history: &[u8], blocks: &[Block], cov: &mut Cov) -> CaseResult {
    let mut enc = if history.is_empty() { vec![] } else { stored(history) };
    let mut want = history.to_vec();
    let mut valid = true;
    for b in blocks {
        enc.extend_from_slice(&b.encode());
        valid = valid && b.expand(&mut want).is_some();
    }
    enc.extend_from_slice(b"bvx$");
    if valid { expect(lzfse, &enc, &want, cov) } else { expect_error(lzfse, &enc, 2_000_000, "a distance outside of the data", cov) }
}

/// Sets two symbols' frequencies to f and the rest.
fn two(b: &mut Block, from: usize, states: u16, f: u16, s: usize, t: usize, n: usize) {
    b.freq[from..from + n].fill(0);
    b.freq[from + s] = f;
    b.freq[from + t] = states - f;
}

pub fn main() {
    let mut c = Check::new("C17");
    c.assume("the encoder in harness/comp/src/lzfse.rs follows the description of LZFSE, with a version 1 header of 770 bytes");
    c.assume("data that breaks the format is only required to be refused where a distance or table leaves nothing to decode; otherwise an answer that does not depend on the buffer suffices");

    // Every frequency of a literal symbol, every state as the last one.
    let lits: Vec<u8> = (0..32).map(|i| if (0xa35c_961eu32 >> i) & 1 == 0 { 0x00 } else { 0xff }).collect();
    c.family("literal frequencies", 1023 * 2, |i, cov| {
        let (f, v) = ((i / 2 + 1) as u16, i % 2 + 1);
        let mut b = Block::new(&lits, &[(15, 0, 1), (17, 3, 1)], 2, v as u8);
        two(&mut b, 104, 1024, f, 0x00, 0xff, 256);
        for last in [[0u32, 1, 2, 3], [1023, 1022, 512, 511], [f as u32, f as u32 - 1, 1024 - f as u32, 1023 - f as u32], [85, 341, 682, 170]] {
            for k in 0..4 {
                b.last[k] = last[k];
            }
            run(&[], std::slice::from_ref(&b), cov)?;
        }
        Ok(())
    });
    // Every frequency of L, M and D symbols, every last state.
    c.family("l, m and d frequencies", (63 + 63 + 255) * 2, |i, cov| {
        let (k, v) = (i / 2, i % 2 + 1);
        let lmd: Vec<(u32, u32, u32)> = (0..24).map(|i| (if (0x96a5u32 >> (i % 16)) & 1 == 0 { 1 } else { 17 }, if (0x3ac5u32 >> (i % 16)) & 1 == 0 { 3 } else { 26 }, if (0xc36au32 >> (i % 16)) & 1 == 0 { 0 } else { 15 })).collect();
        let lits = pattern(lmd.iter().map(|x| x.0 as usize).sum(), 3);
        let mut b = Block::new(&lits, &lmd, 2, v as u8);
        match k {
            0..63 => two(&mut b, 0, 64, k as u16 + 1, 1, 16, 20),
            63..126 => two(&mut b, 20, 64, k as u16 - 62, 3, 17, 20),
            _ => two(&mut b, 40, 256, k as u16 - 125, 0, 8, 64),
        }
        for s in 0..if k < 126 { 64 } else { 256 } {
            b.last[4] = s % 64;
            b.last[5] = (s * 5 + 1) % 64;
            b.last[6] = s;
            run(&pattern(40, 1), std::slice::from_ref(&b), cov)?;
        }
        Ok(())
    });
    // Every symbol of L, M and D with the edges of its extra bits, in tables where every symbol has a state.
    c.family("every symbol and extra bits", (20 + 20 + 64) * 4, |i, cov| {
        let (k, how) = ((i / 4) as usize, i % 4);
        let edges = |bits: fn(usize) -> u32, s: usize| {
            let n = bits(s);
            let mut v: Vec<u32> = (0..n).map(|b| base(bits, s) + (1 << b)).collect();
            v.extend([base(bits, s), base(bits, s) + (1 << n) - 1]);
            v.dedup();
            v
        };
        let (vals, at) = match k {
            0..20 => (edges(l_bits, k), 0),
            20..40 => (edges(m_bits, k - 20), 1),
            _ => (edges(d_bits, k - 40), 2),
        };
        let hist = if at == 2 { pattern(*vals.iter().max().unwrap() as usize + 4, 9) } else { pattern(20, 9) };
        for v in vals {
            let mut one = [2, 5, 7];
            one[at] = v;
            let lmd = vec![(1, 3, 2), (one[0], one[1], one[2]), (0, 4, 0), (3, 0, 1)];
            let lits = pattern(lmd.iter().map(|x| x.0 as usize).sum(), 3);
            for version in [1, 2] {
                let mut b = Block::new(&lits, &lmd, how, version);
                run(&hist, std::slice::from_ref(&b), cov)?;
                // Every symbol present.
                for (from, n, states) in [(0, 20, 64), (20, 20, 64), (40, 64, 256), (104, 256, 1024)] {
                    let all: Vec<usize> = (0..n).collect();
                    b.freq[from..from + n].copy_from_slice(&mc_comp::lzfse::spread(&all, n, states, how));
                }
                run(&hist, std::slice::from_ref(&b), cov)?;
            }
        }
        Ok(())
    });
    // Sequences of values.
    let alpha: [(u32, u32, u32); 8] = [(1, 0, 1), (2, 3, 1), (0, 4, 0), (0, 3, 5), (5, 20, 2), (16, 0, 0), (0, 0, 0), (3, 33, 12)];
    let depth = c.pick(4, 6);
    c.family("sequences of values", seq_count(8, depth) * 4, |i, cov| {
        let lmd: Vec<(u32, u32, u32)> = seq_decode(8, i / 4).iter().map(|x| alpha[*x as usize]).collect();
        let n: u32 = lmd.iter().map(|x| x.0 + x.1).sum();
        if n == 0 {
            return Ok(());
        }
        let lits = pattern(lmd.iter().map(|x| x.0 as usize).sum(), 3);
        run(&[], &[Block::new(&lits, &lmd, i % 4, 1 + (i / 2 % 2) as u8)], cov)
    });
    // Sequences of blocks; a match reaches back over the blocks, the distance starts anew in each.
    let vn: (Vec<u8>, Vec<u8>) = (vec![0xe3, 5, 6, 7, 0x48, 0x01, 9, 6, 0, 0, 0, 0, 0, 0, 0], vec![5, 6, 7, 9, 9, 9, 9, 9]);
    let vn = (vn.0, vn.1[..4].iter().copied().chain([9; 4]).collect::<Vec<u8>>());
    let depth = c.pick(4, 5);
    c.family("sequences of blocks", seq_count(7, depth) * 2, |i, cov| {
        let (mut enc, mut want, mut ok) = (vec![], vec![], true);
        for x in seq_decode(7, i / 2) {
            let b = match x {
                0 => {
                    enc.extend_from_slice(&stored(&pattern(5, 8)));
                    want.extend_from_slice(&pattern(5, 8));
                    continue;
                }
                1 => {
                    enc.extend_from_slice(&stored(&[]));
                    continue;
                }
                2 => {
                    let mut d = vec![0; 64];
                    let n = mc_comp::lzvn(&vn.0, &mut d).expect("checked by C16");
                    enc.extend_from_slice(&lzvn_block(&vn.0, n));
                    want.extend_from_slice(&d[..n]);
                    continue;
                }
                3 => Block::new(&[1, 2, 3, 4, 5], &[(5, 7, 3)], 2, 2),
                4 => Block::new(&[0x55], &[(1, 5, 6), (0, 3, 0)], 0, 1),
                5 => Block::new(&[], &[(0, 4, 2)], 1, 2),
                _ => Block::new(&[7, 7, 8, 9], &[(2, 0, 1), (2, 3, 0)], 3, 1),
            };
            enc.extend_from_slice(&b.encode());
            if b.expand(&mut want).is_none() {
                ok = false;
                break;
            }
        }
        if i % 2 == 0 {
            enc.extend_from_slice(b"bvx$");
        }
        if ok { expect(lzfse, &enc, &want, cov) } else { expect_error(lzfse, &enc, 500, "a distance outside of the data", cov) }
    });
    // Blocks at the limit of a block: 10000 triplets, 40000 literals.
    c.family("large blocks", 4, |i, cov| {
        let lmd: Vec<(u32, u32, u32)> = match i {
            0 => vec![(4, 3, 4); 10000],
            1 => (0..9000).map(|k| (k % 5, k % 40, k % 3)).collect(),
            2 => vec![(315, 2359, 1); 127],
            _ => (0..2000).map(|k| (1 + k * 7 % 20, k * 13 % 300, k * 31 % 900)).map(|(l, m, d)| (l, m, d.min(l))).collect(),
        };
        let n: usize = lmd.iter().map(|x| x.0 as usize).sum();
        let lits: Vec<u8> = pattern(n, 3);
        for how in 0..4 {
            for version in [1, 2] {
                run(&[1, 2, 3, 4], &[Block::new(&lits, &lmd, how, version), Block::new(&[1], &[(1, 20, 70)], how, version)], cov)?;
            }
        }
        Ok(())
    });
    // Truncation at every byte, short buffers of every size.
    let b = Block::new(&[1, 2, 3, 4, 5], &[(2, 0, 1), (3, 7, 3), (0, 5, 0)], 2, 2);
    let b1 = Block { version: 1, ..b.clone() };
    let mut src: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for x in [&b, &b1] {
        let (mut enc, mut want) = (stored(&[9, 9, 8]), vec![9, 9, 8]);
        enc.extend_from_slice(&x.encode());
        x.expand(&mut want).unwrap();
        enc.extend_from_slice(b"bvx$");
        src.push((enc, want));
    }
    {
        let mut d = vec![0; 64];
        let n = mc_comp::lzvn(&vn.0, &mut d).expect("checked by C16");
        let enc = [stored(&[9, 9, 8]), lzvn_block(&vn.0, n), b"bvx$".to_vec()].concat();
        src.push((enc, [&[9, 9, 8], &d[..n]].concat()));
    }
    let total: Vec<usize> = src.iter().map(|s| s.0.len()).collect();
    c.family("truncated data", total.iter().sum::<usize>() as u64, |i, cov| {
        let (mut i, mut k) = (i as usize, 0);
        while i >= total[k] {
            i -= total[k];
            k += 1;
        }
        expect_prefix(lzfse, &src[k].0[..i], &src[k].1, cov)?;
        if i < src[k].1.len() {
            expect_short(lzfse, &src[k].0, &src[k].1, i, cov)?;
        }
        Ok(())
    });
    // Every value of every byte.
    c.family("a changed byte", total.iter().map(|n| *n as u64).sum::<u64>() * 256, |i, cov| {
        let (v, mut i, mut k) = ((i % 256) as u8, (i / 256) as usize, 0);
        while i >= total[k] {
            i -= total[k];
            k += 1;
        }
        let mut enc = src[k].0.clone();
        enc[i] = v;
        cov.state(&(k, i, v));
        any_data(lzfse, &enc, src[k].1.len(), cov)?;
        any_data(lzfse, &enc, 400, cov)
    });
    // Frequencies that do not fit.
    c.family("invalid frequencies", 4 * 6 * 2, |i, cov| {
        let (from, n, states) = [(0, 20, 64u32), (20, 20, 64), (40, 64, 256), (104, 256, 1024)][(i / 2 % 4) as usize];
        let version = 1 + (i % 2) as u8;
        let b = Block::new(&[1, 2, 3, 4, 5], &[(2, 0, 1), (3, 7, 3), (0, 5, 0)], 2, version);
        let mut b2 = b.clone();
        let last = from + n - 1;
        let max = if version == 1 { 65535 } else { 1047 };
        match i / 8 {
            0 => b2.freq[last] = 1,
            1 => b2.freq[last] = max,
            2 => b2.freq[last] = states as u16,
            3 => b2.freq[from..from + n].fill(max),
            4 => b2.freq[from] += 1 + states as u16,
            _ => b2.freq[last] = if version == 1 { 0x8000 } else { 1024 },
        }
        // The data is that of the well-formed block; only the table differs.
        let mut w = b.encode();
        let head = Block { lits: vec![], lmd: vec![], last: [0; 7], freq: b2.freq.clone(), version };
        let table = head.table();
        let old = b.table();
        let at = if version == 1 { 50 } else { 32 };
        w.splice(at..at + old.len(), table.iter().copied());
        if version == 2 {
            w[24..28].copy_from_slice(&(32 + table.len() as u32).to_le_bytes());
        }
        w.extend_from_slice(b"bvx$");
        expect_error(lzfse, &w, 400, "a sum of frequencies that exceeds the number of states", cov)
    });
    c.finish();
}
