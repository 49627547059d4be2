//! C15: bzip2 decompression.
use mc_comp::bz::*;
use mc_comp::{MsbWriter, any_data, bzip2, complete_lengths, expect, expect_error, expect_prefix, expect_short};
use mc_engine::util::{pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Failure};

fn opts(trees: usize, a: usize, b: usize) -> Opts {
    Opts { trees: vec![vec![]; trees], a, b, more_selectors: 0 }
}

pub fn main() {
    let mut c = Check::new("C15");
    c.assume("the encoder in harness/comp/src/bz.rs (BWT by sorting the rotations) follows the bzip2 format");

    // All short data.
    let (k, depth) = c.pick((3, 7), (3, 9));
    c.family("all short data", seq_count(k, depth), |i, cov| {
        let d: Vec<u8> = seq_decode(k, i).iter().map(|x| [0u8, 0xff, 0x41][*x as usize]).collect();
        let enc = if d.is_empty() { stream(1, &[], &Opts::plain()) } else { stream(1, &[&d], &Opts::plain()) };
        expect(bzip2, &enc, &d, cov)
    });

    // Runs: the initial run-length encoding, and long runs of the last column.
    let max = c.pick(600, 1200);
    c.family("runs", max, |i, cov| {
        let n = i as usize + 1;
        for d in [
            vec![7u8; n],
            [vec![0u8; n], vec![1], vec![0; n]].concat(),
            [vec![9u8; n], vec![8; 5]].concat(),
            [vec![3u8], vec![4; n], vec![3; 4]].concat(),
            (0..n).map(|j| (j / 4 % 2) as u8).collect(),
        ] {
            expect(bzip2, &stream(1, &[&d], &Opts::plain()), &d, cov)?;
        }
        Ok(())
    });

    // Bytes in use: every number of distinct bytes, from three origins.
    c.family("bytes in use", 256 * 3, |i, cov| {
        let (n, o) = (i as usize / 3 + 1, i as usize % 3);
        let d: Vec<u8> = (0..n * 2).map(|j| ((j * [1, 7, 255][o]) % n) as u8).map(|b| b.wrapping_mul([1, 3, 5][o]).wrapping_add([0, 129, 255][o])).collect();
        expect(bzip2, &stream(9, &[&d], &opts(2 + i as usize % 5, 1, 0)), &d, cov)
    });

    // Trees and selectors around every boundary of the groups of 50 symbols.
    let lens: Vec<usize> = c.pick((40..62).chain(92..112).collect(), (1..320).collect());
    c.family("trees and selectors", lens.len() as u64 * 5 * 6, |i, cov| {
        let (n, rest) = (lens[(i / 30) as usize], i % 30);
        let (t, a) = ((rest / 6) as usize + 2, (rest % 6) as usize);
        let d = pattern(n, 3);
        let o = Opts { trees: vec![vec![]; t], a, b: a / 2, more_selectors: (a == 3) as usize * 2 };
        expect(bzip2, &stream(1, &[&d], &o), &d, cov)
    });

    // Code lengths: every complete set of 3 to 5 (6) codes, alone and alternating with its mirror image.
    let mut sets = vec![];
    for n in 3..=c.pick(5, 6) {
        sets.extend(complete_lengths(n, 7));
    }
    c.family("code lengths", sets.len() as u64, |i, cov| {
        let t = &sets[i as usize];
        let m: Vec<u8> = t.iter().rev().copied().collect();
        let d: Vec<u8> = pattern(120, i).iter().map(|b| b % (t.len() as u8 - 2)).collect();
        if (0..t.len() as u8 - 2).any(|b| !d.contains(&b)) {
            return Ok(());
        }
        expect(bzip2, &stream(1, &[&d], &Opts { trees: vec![t.clone(), m], a: 1, b: 0, more_selectors: 0 }), &d, cov)
    });
    // The longest codes: 1, 2, .. n - 1, n - 1 for every n up to 20, each rotation.
    let chains: Vec<(usize, usize)> = (2..=20).flat_map(|n| (0..=n).map(move |r| (n, r))).collect();
    c.family("longest codes", chains.len() as u64, |i, cov| {
        let (n, r) = chains[i as usize];
        let mut t: Vec<u8> = (1..=n as u8).chain([n as u8]).collect();
        t.rotate_left(r);
        let d: Vec<u8> = (0..(n - 1) * 3).map(|j| ((j * 5) % (n - 1)) as u8).collect();
        let mut used = d.clone();
        used.sort();
        used.dedup();
        if used.len() != n - 1 {
            return Ok(());
        }
        expect(bzip2, &stream(1, &[&d], &Opts { trees: vec![t.clone(), t], a: 1, b: 0, more_selectors: 0 }), &d, cov)
    });

    // Blocks: all sequences of up to 3 (4) blocks.
    let kinds: Vec<Vec<u8>> = vec![vec![1], b"ab".to_vec(), vec![0; 4], vec![5; 259], pattern(70, 9), vec![0xff; 3]];
    let depth = c.pick(3, 4);
    c.family("sequences of blocks", seq_count(6, depth), |i, cov| {
        let b: Vec<&[u8]> = seq_decode(6, i).iter().map(|x| &kinds[*x as usize][..]).collect();
        cov.steps(b.len() as u64);
        let enc = stream(1, &b, &opts(3, 1, 0));
        let want = b.concat();
        expect(bzip2, &enc, &want, cov)
    });

    // Block sizes: up to the limit of every level, and beyond it.
    let levels: Vec<(u8, usize)> = c.pick(vec![1, 2, 9], (1..=9).collect()).into_iter().flat_map(|l| [(l, 100_000 * (l as usize - 1) + 1), (l, 100_000 * l as usize)]).collect();
    c.family("block size of each level", levels.len() as u64, |i, cov| {
        let (l, n) = levels[i as usize];
        let mut d = pattern(n, l as u64);
        for j in 3..n {
            if d[j] == d[j - 1] {
                d[j] ^= 1; // no runs: the run-length encoding keeps the size
            }
        }
        let r = rle1(&d);
        assert!(r.len() == n);
        let o = opts(2, 1, 0);
        let enc = stream(l, &[&d], &o);
        expect(bzip2, &enc, &d, cov)?;
        if l > 1 && n > 100_000 {
            let mut low = enc.clone();
            low[3] = 0x31;
            expect_error(bzip2, &low, n, "a block larger than the level allows", cov)?;
        }
        Ok(())
    });

    // Corruption: every change of one bit (thorough: two bits) is an error or leaves the data as it was.
    let one = stream(1, &[b"banana"], &Opts::plain());
    let two = stream(1, &[b"abracadabra", &[0; 40]], &opts(2, 1, 0));
    let n1 = one.len() as u64 * 8;
    let n2 = two.len() as u64 * 8;
    let same = |enc: &[u8], want: &[u8], cov: &mut mc_engine::Cov| -> CaseResult {
        cov.step();
        cov.state(enc);
        let mut buf = vec![0xc3; want.len() + 300];
        match mc_engine::guarded(|| bzip2(enc, &mut buf)) {
            Err(p) => Err(Failure::new(format!("{enc:02x?}"), p)),
            Ok(Err(e)) => {
                cov.outcome(&e);
                Ok(())
            }
            Ok(Ok(n)) if buf[..n] == *want => Ok(()),
            Ok(Ok(n)) => Err(Failure::new(format!("{enc:02x?}"), format!("corrupt data gives {:02x?} instead of {want:02x?} or an error", &buf[..n]))),
        }
    };
    c.family("every change of one bit", n1 + n2, |i, cov| {
        let (src, want, bit) = if i < n1 { (&one, b"banana".to_vec(), i) } else { (&two, [&b"abracadabra"[..], &[0; 40]].concat(), i - n1) };
        let mut d = src.clone();
        d[bit as usize / 8] ^= 1 << (bit % 8);
        same(&d, &want, cov)
    });
    let n = c.pick(n1 * n1, n2 * n2);
    c.family("every change of two bits", n, |i, cov| {
        let (src, want, m) = c_pick(n == n1 * n1, &one, &two, n1, n2);
        let (a, b) = (i / m, i % m);
        if a >= b {
            return Ok(());
        }
        let mut d = src.to_vec();
        d[a as usize / 8] ^= 1 << (a % 8);
        d[b as usize / 8] ^= 1 << (b % 8);
        same(&d, &want, cov)
    });
    let crc_place = one.len() * 8;
    let _ = crc_place;

    // Truncation and short buffers.
    c.family("truncated data and short buffers", (one.len() + two.len()) as u64, |i, cov| {
        let (src, want, n) = if (i as usize) < one.len() { (&one, b"banana".to_vec(), i as usize) } else { (&two, [&b"abracadabra"[..], &[0; 40]].concat(), i as usize - one.len()) };
        expect_prefix(bzip2, &src[..n], &want, cov)?;
        if n < want.len() {
            expect_short(bzip2, src, &want, n, cov)?;
        }
        Ok(())
    });

    // What the format excludes.
    let d = b"banana";
    c.family("invalid streams", 16, |i, cov| {
        let (last, origin) = bwt(d);
        let used = b"abn";
        let syms = mtf(&last, used);
        let mut w = start(1);
        let head = |w: &mut MsbWriter, origin: u32| {
            w.bits(0x3141_5926_5359, 48);
            w.bits(crc(d) as u64, 32);
            w.bits(0, 1);
            w.bits(origin as u64, 24);
            used_map(w, used);
        };
        let tree_of = [2u8, 2, 2, 3, 3];
        let codes = mc_comp::canonical(&tree_of);
        let o = Opts::plain();
        let why = match i {
            0..=2 => {
                let origin = [6, 99_999, 0xff_ffff][i as usize];
                raw_block(&mut w, crc(d), origin, &last, &o);
                "an origin pointer beyond the block"
            }
            3 => {
                head(&mut w, origin as u32);
                selectors(&mut w, &[], 2);
                tree(&mut w, &tree_of);
                tree(&mut w, &tree_of);
                for s in &syms {
                    w.code(codes[*s as usize]);
                }
                "a block without selectors"
            }
            4 => {
                head(&mut w, origin as u32);
                selectors(&mut w, &[0], 0);
                for s in &syms {
                    w.code(codes[*s as usize]);
                }
                "a block without trees"
            }
            5 => {
                head(&mut w, origin as u32);
                selectors(&mut w, &[0, 2], 2);
                tree(&mut w, &tree_of);
                tree(&mut w, &tree_of);
                for s in &syms {
                    w.code(codes[*s as usize]);
                }
                "a selector of a tree that is not there"
            }
            6..=9 => {
                let t: &[u8] = [&[1u8, 1, 1, 1, 1][..], &[2, 2, 2, 2, 2], &[1, 2, 3, 3, 3], &[1, 1, 2, 3, 3]][i as usize - 6];
                head(&mut w, origin as u32);
                selectors(&mut w, &[0], 2);
                tree(&mut w, t);
                tree(&mut w, t);
                w.bits(0, 64);
                "over-subscribed codes"
            }
            10 | 11 => {
                head(&mut w, origin as u32);
                selectors(&mut w, &[0], 2);
                w.bits(if i == 10 { 0 } else { 21 }, 5);
                w.bits(0, 64);
                "a code length of 0 or 21"
            }
            12 => {
                head(&mut w, origin as u32);
                selectors(&mut w, &[0, 0, 0], 2);
                tree(&mut w, &tree_of);
                tree(&mut w, &tree_of);
                for _ in 0..100 {
                    w.code(codes[1]);
                }
                w.code(codes[4]);
                "a run that is larger than any block"
            }
            13 => {
                // 51 symbols, one selector.
                head(&mut w, origin as u32);
                selectors(&mut w, &[0], 2);
                tree(&mut w, &tree_of);
                tree(&mut w, &tree_of);
                for _ in 0..51 {
                    w.code(codes[2]);
                }
                w.code(codes[4]);
                "more symbols than selectors"
            }
            14 => {
                w.bits(0x3141_5926_5358, 48);
                w.bits(0, 64);
                "a block with another signature"
            }
            _ => {
                block(&mut w, d, &o);
                let e = end(&mut w, crc(d) ^ 1);
                return expect_error(bzip2, &e, 100, "a stream that does not match its checksum", cov);
            }
        };
        let e = end(&mut w, crc(d));
        expect_error(bzip2, &e, 120_000, why, cov)
    });
    c.family("stream header", 256 * 4, |i, cov| {
        let mut d = one.clone();
        d[(i % 4) as usize] = (i / 4) as u8;
        match i % 4 {
            0 | 1 if (i / 4) as u8 != b"BZ"[(i % 4) as usize] => expect_error(bzip2, &d, 20, "another signature", cov),
            3 if !(0x31..=0x39).contains(&(i / 4)) => expect_error(bzip2, &d, 20, "a level other than 1 to 9", cov),
            2 if i / 4 != b'h' as u64 => any_data(bzip2, &d, 20, cov),
            _ => expect(bzip2, &d, b"banana", cov),
        }
    });
    c.finish();
}

fn c_pick<'a>(first: bool, one: &'a [u8], two: &'a [u8], n1: u64, n2: u64) -> (&'a [u8], Vec<u8>, u64) {
    if first { (one, b"banana".to_vec(), n1) } else { (two, [&b"abracadabra"[..], &[0; 40]].concat(), n2) }
}
