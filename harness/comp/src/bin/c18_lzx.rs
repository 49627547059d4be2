//! C18: LZX decompression.
use mc_comp::lzx_enc::{Block, Encoder, Tok, extra_bits, slot_base};
use mc_comp::{any_data, expect, expect_error, expect_prefix, expect_short, lzx};
use mc_engine::util::{pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov};

fn run(blocks: &[Block], cov: &mut Cov) -> CaseResult {
    let mut e = Encoder::default();
    blocks.iter().for_each(|b| e.block(b));
    if !e.ok {
        return expect_error(lzx, &e.bytes(), 70_000, "a distance before the start of the data", cov);
    }
    match e.data() {
        Some(d) => expect(lzx, &e.bytes(), &d, cov),
        None => Ok(()),
    }
}

fn stored(d: Vec<u8>) -> Block {
    Block::Stored(d, [1, 1, 1])
}

/// Data without the call instruction.
fn plain(n: usize, salt: u64) -> Vec<u8> {
    pattern(n, salt).into_iter().map(|b| if b == 0xe8 { 0x8e } else { b }).collect()
}

fn lits(n: usize) -> Vec<Tok> {
    plain(n, 2).into_iter().map(Tok::Lit).collect()
}

pub fn main() {
    let mut c = Check::new("C18");
    c.assume("the encoder in harness/comp/src/lzx_enc.rs follows the description of LZX as used in WIM files");
    c.assume("descriptions of LZX differ on whether call instructions that start 6 to 10 bytes before the end are adjusted: data where that matters is left out");

    // Every distance slot, at the edges of its extra bits, with the edges of the match length.
    c.family("distances", 27 * 2 * 3, |i, cov| {
        let (slot, aligned, how) = ((i / 6) as usize + 3, i % 2 == 1, i / 2 % 3);
        let (from, n) = (slot_base(slot), extra_bits(slot));
        let mut ds: Vec<u32> = (0..n).map(|b| from + (1 << b)).collect();
        ds.extend([from, from + (1 << n) - 1, from + ((1 << n) - 1) / 2, from + (5 & ((1 << n) - 1))]);
        for d in ds {
            let d = d - 2;
            if d > 32700 {
                continue;
            }
            for l in [2, 8, 9, 257] {
                for h in [d as usize + 3, d as usize, d as usize - 1] {
                    if h + 12 + l as usize > 32768 || h == 0 {
                        continue;
                    }
                    run(&[stored(plain(h, 1)), Block::Coded(vec![Tok::Match(l, d), Tok::Lit(5), Tok::Recent(3, 0), Tok::Recent(2, 1)], aligned, how, how)], cov)?;
                }
            }
        }
        Ok(())
    });
    c.family("match sizes", 256 * 3, |i, cov| {
        let l = (i / 3) as u32 + 2;
        run(&[stored(plain(50, 1)), Block::Coded(vec![Tok::Match(l, 20), Tok::Match(258 - (l - 1).min(256), 33), Tok::Lit(7)], i % 2 == 0, i % 3, i % 3)], cov)
    });
    // Sequences of tokens with the recent distances.
    let alpha = [Tok::Lit(1), Tok::Lit(0xff), Tok::Match(2, 1), Tok::Match(3, 4), Tok::Match(12, 7), Tok::Recent(2, 0), Tok::Recent(4, 1), Tok::Recent(9, 2)];
    let depth = c.pick(4, 6);
    c.family("sequences of tokens", seq_count(8, depth) * 2, |i, cov| {
        let toks: Vec<Tok> = seq_decode(8, i / 2).iter().map(|x| alpha[*x as usize]).collect();
        if toks.is_empty() {
            return Ok(());
        }
        let k = i / 2;
        if i % 2 == 0 {
            run(&[Block::Coded(toks, k % 2 == 0, k % 3, k / 2 % 3)], cov)
        } else {
            run(&[Block::Stored(plain(9, 1), [2, 9, 5]), Block::Coded(toks, k % 2 == 0, k % 3, k / 2 % 3)], cov)
        }
    });
    // Sequences of blocks: code lengths follow on from the previous block, recent distances go on.
    let all: Vec<Tok> = (0..=255).filter(|b| *b != 0xe8).map(Tok::Lit).collect();
    let blocks: Vec<Block> = vec![
        Block::Stored(plain(6, 3), [1, 2, 3]),
        Block::Stored(plain(7, 4), [7, 1, 4]),
        Block::Coded(lits(5), false, 0, 0),
        Block::Coded([lits(3), vec![Tok::Recent(3, 0), Tok::Recent(11, 2)]].concat(), true, 1, 1),
        Block::Coded([lits(4), vec![Tok::Match(5, 2), Tok::Match(300 - 50, 4)]].concat(), false, 2, 2),
        Block::Coded([all.clone(), vec![Tok::Match(9, 100), Tok::Match(10, 201), Tok::Recent(2, 1)]].concat(), true, 0, 2),
        Block::Coded([all.clone(), vec![Tok::Match(17, 120)]].concat(), false, 2, 1),
        Block::Stored(vec![], [5, 1, 1]),
    ];
    let depth = c.pick(4, 5);
    c.family("sequences of blocks", seq_count(8, depth), |i, cov| {
        let seq: Vec<Block> = seq_decode(8, i).iter().map(|x| blocks[*x as usize].clone()).collect();
        // An empty block at the end is not required to be read.
        if seq.is_empty() { Ok(()) } else { run(&seq, cov) }
    });
    // Stored blocks at every alignment of the bits before them.
    let seen = std::sync::Mutex::new(std::collections::BTreeSet::new());
    c.family("alignment of stored blocks", 64 * 8 * 2, |i, cov| {
        let (n, size, aligned) = ((i / 16) as usize + 1, (i / 2 % 8) as usize, i % 2 == 1);
        let toks: Vec<Tok> = (0..n).map(|k| Tok::Lit(if k % 3 == 2 { 1 } else { (k % 7) as u8 })).collect();
        let mut e = Encoder::default();
        e.block(&Block::Coded(toks.clone(), aligned, 1, 1));
        seen.lock().unwrap().insert((e.w.bits.len() + 4 + 16) % 16);
        let end = Block::Coded([lits(12), vec![Tok::Recent(5, 1)]].concat(), false, 0, 1);
        run(&[Block::Coded(toks.clone(), aligned, 1, 1), Block::Stored(plain(size, 4), [1, 3, 1]), end.clone()], cov)?;
        run(&[Block::Coded(toks.clone(), aligned, 1, 1), Block::Stored(plain(size, 4), [1, 3, 1]), Block::Stored(plain(3, 5), [1, 1, 1]), end], cov)?;
        run(&[Block::Coded(toks, aligned, 1, 1), Block::Stored(plain(size, 4), [1, 3, 1])], cov)
    });
    assert!(!c.whole() || seen.lock().unwrap().len() == 16, "every alignment is covered");
    // The default block size.
    c.family("blocks of 32768 bytes", 6, |i, cov| {
        let mut toks = lits(200);
        let mut n = 200;
        while n < 32768 {
            let l = (32768 - n).min(257);
            if l < 2 {
                toks.push(Tok::Lit(4));
            } else {
                toks.push(if n % 3 == 0 { Tok::Match(l as u32, 150) } else { Tok::Recent(l as u32, n % 2) });
            }
            n += l;
        }
        match i {
            0 | 1 => run(&[Block::Coded(toks, i == 1, i, 2)], cov),
            2 => run(&[stored(plain(32768, 7))], cov),
            3 => run(&[stored(plain(32767, 7)), Block::Coded(vec![Tok::Lit(9)], false, 0, 1)], cov),
            4 => run(&[stored(plain(32766, 7)), Block::Coded(vec![Tok::Match(2, 32760)], true, 0, 1)], cov),
            _ => run(&[Block::Coded(lits(16384), false, 0, 1), Block::Coded(lits(16384), true, 1, 2)], cov),
        }
    });
    // Call instructions: position, size of the data and address.
    let sizes: Vec<usize> = (1..40).chain([100, 300]).collect();
    c.family("call instructions", sizes.len() as u64, |i, cov| {
        let n = sizes[i as usize];
        for p in 0..n {
            if p > 30 && p < n - 12 {
                continue;
            }
            let q = p as i32;
            for a in [0, 1, q - 1, q, q + 1, 255, 11_999_999, 12_000_000, 12_000_001, -1, -q + 1, -q, -q - 1, i32::MIN, i32::MAX, 0x00e8_e8e8, 0xe8, -24] {
                let mut d: Vec<u8> = plain(n, 6).into_iter().map(|b| b & 0x7f).collect();
                d[p] = 0xe8;
                for (k, b) in a.to_le_bytes().iter().enumerate() {
                    if p + 1 + k < n {
                        d[p + 1 + k] = *b;
                    }
                }
                run(&[stored(d.clone())], cov)?;
                // A second one right after it, and one in the address.
                if p + 5 < n {
                    d[p + 5] = 0xe8;
                    run(&[Block::Coded(d.iter().map(|b| Tok::Lit(*b)).collect(), false, 0, 1)], cov)?;
                }
            }
        }
        Ok(())
    });
    c.family("call instructions in sequence", seq_count(4, c.pick(8, 10)), |i, cov| {
        let d: Vec<u8> = seq_decode(4, i).iter().map(|x| [0xe8, 0, 0xff, 5][*x as usize]).chain([1; 12]).collect();
        run(&[stored(d)], cov)
    });
    // Malformed data.
    let head = |f: &dyn Fn(&mut Encoder)| {
        let mut e = Encoder::default();
        e.block(&stored(plain(8, 1)));
        f(&mut e);
        let mut b = e.bytes();
        b.extend_from_slice(&[0xff; 64]);
        b
    };
    let bad: Vec<(&str, Vec<u8>)> = vec![
        ("block type 0", head(&|e| e.header(0, 20))),
        ("block type 4", head(&|e| e.header(4, 20))),
        ("block type 5", head(&|e| e.header(5, 20))),
        ("block type 6", head(&|e| e.header(6, 20))),
        ("block type 7", head(&|e| e.header(7, 20))),
        ("a recent distance of 0", head(&|e| e.block(&Block::Stored(vec![1; 9], [0, 1, 1])))),
        ("a recent distance of 0", head(&|e| e.block(&Block::Stored(vec![1; 9], [1, 0, 1])))),
        ("a recent distance of 0", head(&|e| e.block(&Block::Stored(vec![1; 9], [1, 1, 0])))),
        ("an over-subscribed code", head(&|e| {
            e.header(1, 9);
            (0..20).for_each(|_| e.w.bits(1, 4));
        })),
        ("an over-subscribed code of aligned offsets", head(&|e| {
            e.header(2, 9);
            (0..8).for_each(|_| e.w.bits(2, 3));
        })),
        ("a code without symbols", head(&|e| {
            e.header(1, 9);
            (0..20).for_each(|_| e.w.bits(0, 4));
        })),
        ("a recent distance before the data", head(&|e| {
            e.block(&Block::Stored(vec![1; 9], [18, 1, 1]));
            e.block(&Block::Coded(vec![Tok::Recent(3, 0)], false, 0, 1));
        })),
    ];
    c.family("malformed data", bad.len() as u64, |i, cov| expect_error(lzx, &bad[i as usize].1, 60, bad[i as usize].0, cov));
    // Truncation at every byte and short buffers of every size; every value of every byte.
    let mut src: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for b in [vec![blocks[1].clone(), blocks[4].clone()], vec![blocks[3].clone(), blocks[0].clone(), blocks[2].clone()], vec![blocks[5].clone()]] {
        let mut e = Encoder::default();
        b.iter().for_each(|b| e.block(b));
        assert!(e.ok);
        src.push((e.bytes(), e.data().unwrap()));
    }
    let total: Vec<usize> = src.iter().map(|s| s.0.len().max(s.1.len())).collect();
    c.family("truncated data", total.iter().sum::<usize>() as u64, |i, cov| {
        let (mut i, mut k) = (i as usize, 0);
        while i >= total[k] {
            i -= total[k];
            k += 1;
        }
        if i < src[k].0.len() {
            expect_prefix(lzx, &src[k].0[..i], &src[k].1, cov)?;
        }
        if i < src[k].1.len() {
            expect_short(lzx, &src[k].0, &src[k].1, i, cov)?;
        }
        Ok(())
    });
    c.family("a changed byte", src.iter().map(|s| s.0.len() as u64).sum::<u64>() * 256, |i, cov| {
        let (v, mut i, mut k) = ((i % 256) as u8, (i / 256) as usize, 0);
        while i >= src[k].0.len() {
            i -= src[k].0.len();
            k += 1;
        }
        let mut enc = src[k].0.clone();
        enc[i] = v;
        cov.state(&(k, i, v));
        any_data(lzx, &enc, src[k].1.len(), cov)?;
        any_data(lzx, &enc, src[k].1.len() + 50, cov)
    });
    c.family("all short data", seq_count(256, c.pick(2, 3)), |i, cov| {
        let d: Vec<u8> = seq_decode(256, i).iter().map(|x| *x as u8).collect();
        cov.state(&d);
        any_data(lzx, &d, 40, cov)
    });
    c.finish();
}
