//! C14: DEFLATE and ZLIB decompression.
use mc_comp::deflate::*;
use mc_comp::{LsbWriter, complete_lengths, deflate, expect, expect_error, expect_prefix, expect_short, zlib};
use mc_engine::util::{pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov};

fn pat(n: usize) -> Vec<u8> {
    pattern(n, 0)
}

/// Blocks of which sequences are enumerated. Every one leaves the bit position at another place.
#[derive(Clone, Debug)]
enum Block {
    Stored(usize),
    Fixed(Vec<Tok>),
    Dynamic(Vec<Tok>),
}

fn blocks() -> Vec<Block> {
    use Tok::*;
    vec![
        Block::Stored(0),
        Block::Stored(1),
        Block::Stored(7),
        Block::Fixed(vec![]),
        Block::Fixed(vec![Lit(b'a')]),
        Block::Fixed(vec![Lit(0xff), Lit(0x90)]),
        Block::Fixed(vec![Lit(0x8f), Match(3, 1)]),
        Block::Fixed(vec![Lit(0), Match(18, 1), Lit(0xc0)]),
        Block::Dynamic(vec![Lit(b'x')]),
        Block::Dynamic(vec![Lit(b'x'), Lit(b'y'), Lit(0)]),
        Block::Dynamic(vec![Lit(b'q'), Match(258, 1)]),
        Block::Dynamic(vec![Lit(b'q'), Lit(b'r'), Match(11, 2), Match(5, 7)]),
    ]
}

fn encode_blocks(seq: &[usize], all: &[Block]) -> (Vec<u8>, Vec<u8>) {
    let (mut w, mut out) = (LsbWriter::default(), vec![]);
    for (k, i) in seq.iter().enumerate() {
        let last = k + 1 == seq.len();
        match &all[*i] {
            Block::Stored(n) => {
                let d = pat(*n);
                stored(&mut w, last, &d);
                out.extend_from_slice(&d);
            }
            Block::Fixed(t) => {
                fixed(&mut w, last, t);
                assert!(apply(&mut out, t));
            }
            Block::Dynamic(t) => {
                let (l, d) = lens_for(t);
                dynamic(&mut w, last, t, &l, if d.is_empty() { &[0] } else { &d }, FULL, false);
                assert!(apply(&mut out, t));
            }
        }
    }
    (w.out, out)
}

fn both(toks: &[Tok], prefix: &[u8], cov: &mut Cov) -> CaseResult {
    let mut want = prefix.to_vec();
    let ok = apply(&mut want, toks);
    for dynamic_trees in [false, true] {
        let mut w = LsbWriter::default();
        if !prefix.is_empty() {
            stored(&mut w, false, prefix);
        }
        if dynamic_trees {
            let (l, d) = lens_for(toks);
            dynamic(&mut w, true, toks, &l, if d.is_empty() { &[0] } else { &d }, FULL, false);
        } else {
            fixed(&mut w, true, toks);
        }
        if ok {
            expect(deflate, &w.out, &want, cov)?;
        } else {
            expect_error(deflate, &w.out, 4096, "a distance before the start of the data", cov)?;
        }
    }
    Ok(())
}

fn zlib_of(d: &[u8], body: &[u8]) -> Vec<u8> {
    let mut z = vec![0x78, 0x9c];
    z.extend_from_slice(body);
    z.extend_from_slice(&adler32(d).to_be_bytes());
    z
}

pub fn main() {
    let mut c = Check::new("C14");
    c.assume("the encoder and token model in harness/comp/src/deflate.rs follow RFC 1951 and RFC 1950");

    // Blocks: every sequence of up to 3 (thorough 4) blocks of 12 kinds.
    let all = blocks();
    let depth = c.pick(3, 4);
    let n = seq_count(all.len() as u64, depth);
    c.family("sequences of blocks", n, |i, cov| {
        let seq: Vec<usize> = seq_decode(all.len() as u64, i).iter().map(|x| *x as usize).collect();
        if seq.is_empty() {
            return Ok(());
        }
        let (enc, want) = encode_blocks(&seq, &all);
        cov.steps(seq.len() as u64);
        expect(deflate, &enc, &want, cov)?;
        let z = zlib_of(&want, &enc);
        expect(zlib, &z, &want, cov)?;
        let mut padded = z.clone();
        padded.extend_from_slice(&[0; 5]);
        expect(zlib, &padded, &want, cov)
    });

    // Stored blocks of every size around the boundaries, after every bit position.
    let sizes: Vec<usize> = (0..300).chain(c.pick(vec![65534, 65535], (65500..65536).chain((1..64).map(|k| k * 1024)).collect())).collect();
    c.family("stored block sizes", sizes.len() as u64 * 9, |i, cov| {
        let (size, lits) = (sizes[(i / 9) as usize], i % 9);
        let toks = vec![Tok::Lit(0xfe); lits as usize];
        let mut w = LsbWriter::default();
        fixed(&mut w, false, &toks);
        let mut want = vec![0xfe; lits as usize];
        let d = pat(size);
        stored(&mut w, true, &d);
        want.extend_from_slice(&d);
        expect(deflate, &w.out, &want, cov)
    });

    // Tokens: all lengths with all distance codes at both ends of their ranges, then all distances.
    let prefix = pat(32768);
    c.family("length and distance codes", 257 * 30, |i, cov| {
        let (l, ds) = ((i / 30) as usize, (i % 30) as usize);
        let far = (1u32 << dist_extra(ds)) - 1;
        for de in [0, far, far & 0x1555] {
            // 256 lengths, then 258 written with symbol 284.
            let (ls, le) = if l == 256 { (27, 31) } else { len_symbol(l + 3) };
            let n = (dist_base(ds) + de) as usize;
            both(&[Tok::Raw(ls, le, ds, de), Tok::Lit(1)], &prefix[..n], cov)?;
        }
        Ok(())
    });
    let dists: Vec<usize> = if c.thorough() { (1..=32768).collect() } else { (1..=768).chain((0..32).flat_map(|k| [k * 1024 + 3, k * 1024 + 1024])).collect() };
    c.family("distances", dists.len() as u64, |i, cov| {
        let d = dists[i as usize];
        both(&[Tok::Match(3, d), Tok::Match(4, d.max(2) - 1)], &prefix[..d], cov)?;
        both(&[Tok::Match(3, d)], &prefix[..d - 1], cov)
    });

    // Token sequences, including ones whose distance reaches before the start.
    use Tok::*;
    let alpha = [Lit(b'a'), Lit(0x90), Lit(0), Match(3, 1), Match(4, 2), Match(3, 3), Match(11, 4), Match(258, 5)];
    let depth = c.pick(5, 6);
    c.family("token sequences", seq_count(8, depth), |i, cov| {
        let toks: Vec<Tok> = seq_decode(8, i).iter().map(|x| alpha[*x as usize]).collect();
        cov.steps(toks.len() as u64);
        both(&toks, &[], cov)
    });

    // Dynamic trees: every complete set of code lengths of up to 5 (thorough 6) symbols, in every way of
    // writing them.
    let mut trees = vec![];
    for n in 2..=c.pick(5, 6) {
        trees.extend(complete_lengths(n, c.pick(6, 7)));
    }
    let rles: Vec<Rle> = (0..8)
        .flat_map(|m| [999usize, 3].map(|cap| Rle { use16: m & 1 != 0, use17: m & 2 != 0, use18: m & 4 != 0, cap }))
        .collect();
    c.family("code lengths", trees.len() as u64 * 16, |i, cov| {
        let (t, o) = (&trees[(i / 16) as usize], rles[(i % 16) as usize]);
        // Symbols: literals, end of block in the middle or at the end, and a match symbol.
        for place in [[0usize, 1, 2, 3, 256, 257], [7, 256, 258, 260, 265, 285], [254, 255, 256, 257, 284, 285], [0, 143, 144, 255, 256, 264]] {
            let used: Vec<usize> = place.into_iter().take(t.len()).collect();
            let used = if used.contains(&256) { used } else { place.into_iter().rev().take(t.len()).collect::<Vec<_>>().into_iter().rev().collect() };
            if !used.contains(&256) {
                continue;
            }
            let mut lit = vec![0u8; (used.last().unwrap() + 1).max(257)];
            for (s, l) in used.iter().zip(t) {
                lit[*s] = *l;
            }
            let mut toks = vec![];
            for s in &used {
                if *s < 256 {
                    toks.push(Lit(*s as u8));
                } else if *s > 256 {
                    toks.push(Raw(s - 257, 0, 0, 0));
                }
            }
            let has_match = used.iter().any(|s| *s > 256);
            let mut want = pat(3);
            assert!(apply(&mut want, &toks));
            for dist in [vec![0u8], vec![1], vec![1, 1], vec![2, 1, 2], [vec![1], vec![0; 28], vec![1]].concat()] {
                if has_match && dist == [0] {
                    continue;
                }
                for all_codes in [false, true] {
                    let mut w = LsbWriter::default();
                    stored(&mut w, false, &pat(3));
                    dynamic(&mut w, true, &toks, &lit, &dist, o, all_codes);
                    expect(deflate, &w.out, &want, cov)?;
                }
            }
        }
        Ok(())
    });
    // The longest codes: lengths 1..15,15 over literals, and over distances.
    c.family("longest codes", 16 * 2, |i, cov| {
        let (k, on_dist) = ((i / 2) as usize, i % 2 == 1);
        let chain: Vec<u8> = (1..=15).chain([15]).collect();
        let mut w = LsbWriter::default();
        let mut want = pat(300);
        stored(&mut w, false, &want);
        let toks;
        if on_dist {
            toks = vec![Raw(0, 0, k, 0), Raw(1, 0, 15 - k, 0), Lit(9)];
            let (lit, _) = lens_for(&toks);
            dynamic(&mut w, true, &toks, &lit, &chain, FULL, false);
        } else {
            let mut lit = vec![0u8; 257];
            for (j, l) in chain.iter().enumerate() {
                lit[if j == k { 256 } else { j + 100 }] = *l;
            }
            toks = (0..16).filter(|j| *j != k).map(|j| Lit(j as u8 + 100)).collect::<Vec<_>>();
            dynamic(&mut w, true, &toks, &lit, &[0], FULL, false);
        }
        assert!(apply(&mut want, &toks));
        expect(deflate, &w.out, &want, cov)
    });

    // What the format excludes.
    c.family("invalid streams", 14, |i, cov| {
        let mut w = LsbWriter::default();
        let why;
        match i {
            0 => {
                why = "block type 3";
                w.bits(7, 3);
                w.bits(0, 13);
            }
            1..=6 => {
                why = "a stored size that does not match its complement";
                w.bits(1, 3);
                w.align();
                w.bytes(&[[1, 0, 0xfe, 0xfe], [1, 0, 0xff, 0xff], [0, 0, 0, 0], [2, 0, 0xfe, 0xff], [1, 1, 0xfe, 0xff], [1, 0, 0xfe, 0x7f]][i as usize - 1]);
                w.bytes(&[0x55; 300]);
            }
            7..=8 => {
                why = "distance code 30 or 31";
                w.bits(3, 3);
                let (l, d) = fixed_lens();
                let (l, d) = (mc_comp::canonical(&l), mc_comp::canonical(&d));
                w.code(l[65]);
                w.code(l[257]);
                w.code(d[23 + i as usize]);
                w.code(l[256]);
                w.bits(0, 24);
            }
            9..=10 => {
                why = "length code 286 or 287";
                w.bits(3, 3);
                let l = mc_comp::canonical(&fixed_lens().0);
                w.code(l[65]);
                w.code(l[277 + i as usize]);
                w.bits(0, 40);
            }
            11 => {
                why = "a dynamic block without an end of block code";
                let mut l = vec![0u8; 257];
                (l[0], l[1]) = (1, 1);
                dynamic_header(&mut w, true, &l, &[1], FULL, false);
                w.bits(0, 40);
            }
            12 => {
                why = "over-subscribed literal codes";
                let mut l = vec![0u8; 257];
                (l[0], l[1], l[256]) = (1, 1, 1);
                dynamic_header(&mut w, true, &l, &[1], FULL, false);
                w.bits(0, 40);
            }
            _ => {
                why = "over-subscribed distance codes";
                let mut l = vec![0u8; 257];
                (l[0], l[256]) = (1, 1);
                dynamic_header(&mut w, true, &l, &[1, 1, 1], FULL, false);
                w.bits(0xffff, 40);
            }
        }
        expect_error(deflate, &w.out, 600, why, cov)?;
        let z = zlib_of(&[], &w.out);
        expect_error(zlib, &z, 600, why, cov)
    });

    // Truncation of every stream of up to 2 blocks at every byte, and of every output buffer.
    let n2 = seq_count(12, 2);
    c.family("truncated streams and short buffers", n2, |i, cov| {
        let seq: Vec<usize> = seq_decode(12, i).iter().map(|x| *x as usize).collect();
        if seq.is_empty() {
            return Ok(());
        }
        let (enc, want) = encode_blocks(&seq, &all);
        for n in 0..enc.len() {
            expect_prefix(deflate, &enc[..n], &want, cov)?;
        }
        let z = zlib_of(&want, &enc);
        for n in 0..z.len() {
            expect_prefix(zlib, &z[..n], &want, cov)?;
        }
        for n in 0..want.len() {
            expect_short(deflate, &enc, &want, n, cov)?;
            expect_short(zlib, &z, &want, n, cov)?;
        }
        Ok(())
    });

    // ZLIB: every single-bit change of the checksum and of stored data is noticed.
    let bodies: Vec<Vec<u8>> = [1usize, 2, 5, 17, 64].iter().map(|n| pat(*n)).collect();
    c.family("zlib corruption", bodies.len() as u64 * 3, |i, cov| {
        let d = &bodies[(i / 3) as usize];
        let mut w = LsbWriter::default();
        stored(&mut w, true, d);
        let mut z = zlib_of(d, &w.out);
        for _ in 0..[0, 1, 4][(i % 3) as usize] {
            z.push(0);
        }
        expect(zlib, &z, d, cov)?;
        // The data follows the 2 byte zlib header and the 5 byte block header; the checksum follows the data.
        for bit in 7 * 8..(7 + d.len() + 4) * 8 {
            let mut bad = z.clone();
            bad[bit / 8] ^= 1 << (bit % 8);
            expect_error(zlib, &bad, d.len(), "data that does not match its checksum", cov)?;
            expect_error(zlib, &bad, d.len() + 3, "data that does not match its checksum", cov)?;
        }
        Ok(())
    });
    c.family("zlib header", 65536, |i, cov| {
        let (cmf, flg) = ((i >> 8) as u8, i as u8);
        let mut w = LsbWriter::default();
        stored(&mut w, true, b"data");
        let mut z = zlib_of(b"data", &w.out);
        (z[0], z[1]) = (cmf, flg);
        let good = (cmf as u32 * 256 + flg as u32) % 31 == 0;
        if cmf & 0x0f != 8 {
            expect_error(zlib, &z, 4, "a compression method other than 8", cov)
        } else if cmf >> 4 > 7 {
            expect_error(zlib, &z, 4, "a window of more than 32 KiB", cov)
        } else if good && flg & 0x20 == 0 {
            expect(zlib, &z, b"data", cov)
        } else {
            mc_comp::any_data(zlib, &z, 4, cov)
        }
    });

    // Any data: all streams of 2 (thorough 3) bytes, and of every byte pair after the start of a dynamic block.
    let n = c.pick(65536 + 256 + 1, (1 << 24) + 65536 + 256 + 1);
    c.family("all short streams", n, |i, cov| {
        let d = seq_decode(256, i).iter().map(|x| *x as u8).collect::<Vec<u8>>();
        mc_comp::any_data(deflate, &d, 16, cov)?;
        let mut z = vec![0x78, 0x9c];
        z.extend_from_slice(&d);
        mc_comp::any_data(zlib, &z, 16, cov)
    });
    let (base, want) = encode_blocks(&[9, 11, 7], &all);
    c.family("every change of two bits", (base.len() * 8 * base.len() * 8) as u64, |i, cov| {
        let n = base.len() as u64 * 8;
        let (a, b) = (i / n, i % n);
        if a > b {
            return Ok(());
        }
        let mut d = base.clone();
        d[a as usize / 8] ^= 1 << (a % 8);
        if a != b {
            d[b as usize / 8] ^= 1 << (b % 8);
        }
        mc_comp::any_data(deflate, &d, want.len() + 20, cov)
    });
    c.finish();
}
