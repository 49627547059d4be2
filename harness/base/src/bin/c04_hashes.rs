// C04: digests equal the standards for every message and every way of feeding it.
use keramics_hashes::{DigestHashContext, Md5Context, Sha1Context, Sha224Context, Sha256Context, Sha512Context};
use mc_engine::util::{Digits, hash64, hex, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure};
use sha2::Digest;

const NAMES: [&str; 5] = ["md5", "sha1", "sha224", "sha256", "sha512"];

fn context(a: u64) -> Box<dyn DigestHashContext> {
    match a {
        0 => Box::new(Md5Context::new()),
        1 => Box::new(Sha1Context::new()),
        2 => Box::new(Sha224Context::new()),
        3 => Box::new(Sha256Context::new()),
        _ => Box::new(Sha512Context::new()),
    }
}

/// MD5 written from RFC 1321; the sine table is computed.
fn md5(parts: &[&[u8]]) -> Vec<u8> {
    let k: Vec<u32> = (0..64).map(|i| (((i + 1) as f64).sin().abs() * 4294967296.0) as u32).collect();
    let s = [[7u32, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut st = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    let block = |st: &mut [u32; 4], b: &[u8]| {
        let m: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let (mut a, mut bb, mut c, mut d) = (st[0], st[1], st[2], st[3]);
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((bb & c) | (!bb & d), i),
                1 => ((d & bb) | (!d & c), (5 * i + 1) % 16),
                2 => (bb ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (bb | !d), (7 * i) % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(m[g]).rotate_left(s[i / 16][i % 4]);
            a = d;
            d = c;
            c = bb;
            bb = bb.wrapping_add(t);
        }
        for (x, y) in st.iter_mut().zip([a, bb, c, d]) {
            *x = x.wrapping_add(y);
        }
    };
    let mut buf: Vec<u8> = vec![];
    let mut total = 0u64;
    for p in parts {
        total += p.len() as u64;
        let mut p = *p;
        if !buf.is_empty() {
            let n = (64 - buf.len()).min(p.len());
            buf.extend_from_slice(&p[..n]);
            p = &p[n..];
            if buf.len() == 64 {
                block(&mut st, &buf);
                buf.clear();
            }
        }
        while p.len() >= 64 {
            block(&mut st, &p[..64]);
            p = &p[64..];
        }
        buf.extend_from_slice(p);
    }
    buf.push(0x80);
    while buf.len() % 64 != 56 {
        buf.push(0);
    }
    buf.extend_from_slice(&(total.wrapping_mul(8)).to_le_bytes());
    for b in buf.chunks(64) {
        block(&mut st, b);
    }
    st.iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn reference(a: u64, parts: &[&[u8]]) -> Vec<u8> {
    fn go<D: Digest>(parts: &[&[u8]]) -> Vec<u8> {
        let mut d = D::new();
        for p in parts {
            d.update(p);
        }
        d.finalize().to_vec()
    }
    match a {
        0 => md5(parts),
        1 => go::<sha1::Sha1>(parts),
        2 => go::<sha2::Sha224>(parts),
        3 => go::<sha2::Sha256>(parts),
        _ => go::<sha2::Sha512>(parts),
    }
}

fn check(a: u64, parts: &[&[u8]], cov: &mut Cov, what: &dyn Fn() -> String) -> CaseResult {
    let mut c = context(a);
    for p in parts {
        c.update(p);
        cov.step();
    }
    let got = c.finalize();
    cov.step();
    cov.trace();
    let want = reference(a, parts);
    cov.outcome(&want);
    if got != want {
        return Err(Failure::new(format!("{} {}", NAMES[a as usize], what()), format!("{}, expected {}", hex(&got), hex(&want))));
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C04");
    assert_eq!(hex(&md5(&[b"abc"])), "900150983cd24fb0d6963f7d28e17f72");
    // Every message length, fed in two parts at every position.
    let n = c.pick(270u64, 520);
    c.family("length-and-split", 5 * (n + 1) * (n + 2) / 2, |i, cov| {
        let a = i % 5;
        let mut r = i / 5;
        let mut len = 0u64;
        while r > len {
            r -= len + 1;
            len += 1;
        }
        let data = pattern(len as usize, 11);
        let (x, y) = data.split_at(r as usize);
        cov.distinct_states(1);
        cov.sample(|| format!("{} of {len} bytes split at {r}", NAMES[a as usize]));
        check(a, &[x, y], cov, &|| format!("length {len} split {r}"))
    });
    // Sequences of boundary-sized updates.
    let sizes: Vec<usize> = vec![0, 1, 3, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 192, 256];
    let k = sizes.len() as u64;
    let depth = c.pick(3, 4);
    c.note("update_sizes", format!("{sizes:?}, all sequences up to {depth}"));
    let big = pattern(2048, 4);
    c.family("update-sequences", 5 * seq_count(k, depth), |i, cov| {
        let a = i % 5;
        let h = seq_decode(k, i / 5);
        let mut o = 0;
        let parts: Vec<&[u8]> = h
            .iter()
            .map(|s| {
                let n = sizes[*s as usize];
                let p = &big[o..o + n];
                o += n;
                p
            })
            .collect();
        cov.state(&(a, hash64(&h)));
        let lens: Vec<usize> = parts.iter().map(|p| p.len()).collect();
        cov.sample(|| format!("{} updates {lens:?}", NAMES[a as usize]));
        check(a, &parts, cov, &|| format!("updates {lens:?}"))
    });
    // Histories over reuse of a context after finalization.
    let sz = [1usize, 55, 64, 65, 112, 128, 200];
    let kk = sz.len() as u64 + 1;
    let dd = c.pick(5, 6);
    c.family("reuse", 5 * kk.pow(dd), |i, cov| {
        let a = i % 5;
        let mut d = Digits(i / 5);
        let h: Vec<u64> = (0..dd).map(|_| d.take(kk)).collect();
        let mut ctx = context(a);
        let mut parts: Vec<&[u8]> = vec![];
        cov.trace();
        cov.state(&(a, hash64(&h)));
        for (n, s) in h.iter().chain([&(kk - 1)]).enumerate() {
            cov.step();
            if *s < kk - 1 {
                let p = &big[n * 256..n * 256 + sz[*s as usize]];
                ctx.update(p);
                parts.push(p);
            } else {
                let got = ctx.finalize();
                // Only compute the reference where a preceding calculation exists.
                let want = reference(a, &parts);
                if got != want {
                    return Err(Failure::new(
                        format!("{} history {h:?}", NAMES[a as usize]),
                        format!("step {n}: {}, expected {}", hex(&got), hex(&want)),
                    ));
                }
                parts.clear();
            }
        }
        Ok(())
    });
    // Message contents.
    c.family("two-byte-messages", 5 * 65536, |i, cov| {
        let data = [(i / 5 >> 8) as u8, (i / 5) as u8];
        cov.distinct_states(1);
        check(i % 5, &[&data], cov, &|| format!("{data:02x?}"))
    });
    c.family("one-bit-messages", 5 * 256 * 8 * 2, |i, cov| {
        let mut d = Digits(i);
        let a = d.take(5);
        let inv = d.take(2) == 1;
        let bit = d.take(8);
        let pos = d.0 as usize;
        let mut data = vec![if inv { 0xff } else { 0 }; 256];
        data[pos] ^= 1 << bit;
        cov.distinct_states(1);
        check(a, &[&data], cov, &|| format!("bit {bit} of byte {pos} inv {inv}"))
    });
    c.family("byte-values", 5 * 256 * 130, |i, cov| {
        let mut d = Digits(i);
        let a = d.take(5);
        let v = d.take(256) as u8;
        let data = vec![v; d.0 as usize];
        cov.distinct_states(1);
        check(a, &[&data], cov, &|| format!("{} x {v:02x}", data.len()))
    });
    // Sizes of which the bit count needs more than 32 bits.
    let chunk = pattern(1 << 20, 1);
    let tails: Vec<usize> = c.pick(vec![1], vec![0, 1, 55, 56, 64, 119, 128]);
    c.family("large-messages", 5 * tails.len() as u64, |i, cov| {
        let a = i % 5;
        let t = tails[(i / 5) as usize];
        let mut parts: Vec<&[u8]> = vec![&chunk; 512];
        parts.push(&chunk[..t]);
        cov.distinct_states(1);
        check(a, &parts, cov, &|| format!("512 MiB + {t}"))
    });
    c.assume("the sha1 and sha2 crates implement FIPS 180; the MD5 reference is written from RFC 1321");
    c.finish();
}
