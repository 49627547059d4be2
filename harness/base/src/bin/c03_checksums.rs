//! C03: checksums equal their mathematical definition for every input and every way of feeding it.
use keramics_checksums::{Adler32Context, Crc32Context, ReversedCrc32Context};
use mc_engine::util::{Digits, composition, composition_count, hash64, pattern, seq_count, seq_decode};
use mc_engine::{Check, CaseResult, Cov, Failure};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Algo {
    Adler(u32),
    Crc(u32, u32),
    RevCrc(u32, u32),
}

enum Ctx {
    A(Adler32Context),
    C(Crc32Context),
    R(ReversedCrc32Context),
}
impl Ctx {
    fn new(a: Algo) -> Self {
        match a {
            Algo::Adler(i) => Ctx::A(Adler32Context::new(i)),
            Algo::Crc(p, i) => Ctx::C(Crc32Context::new(p, i)),
            Algo::RevCrc(p, i) => Ctx::R(ReversedCrc32Context::new(p, i)),
        }
    }
    fn update(&mut self, d: &[u8]) {
        match self {
            Ctx::A(c) => c.update(d),
            Ctx::C(c) => c.update(d),
            Ctx::R(c) => c.update(d),
        }
    }
    fn finalize(&mut self) -> u32 {
        match self {
            Ctx::A(c) => c.finalize(),
            Ctx::C(c) => c.finalize(),
            Ctx::R(c) => c.finalize(),
        }
    }
}

/// Definition of the checksums, one byte (bit) at a time.
fn reference(a: Algo, data: &[u8]) -> u32 {
    match a {
        Algo::Adler(i) => {
            let (mut lo, mut hi) = ((i & 0xffff) % 65521, (i >> 16) % 65521);
            for b in data {
                lo = (lo + *b as u32) % 65521;
                hi = (hi + lo) % 65521;
            }
            hi << 16 | lo
        }
        Algo::Crc(p, i) => {
            let mut c = !i;
            for b in data {
                for bit in (0..8).rev() {
                    let x = (c >> 31) ^ (*b as u32 >> bit & 1);
                    c <<= 1;
                    if x == 1 {
                        c ^= p;
                    }
                }
            }
            !c
        }
        Algo::RevCrc(p, i) => {
            let mut c = !i;
            for b in data {
                for bit in 0..8 {
                    let x = (c & 1) ^ (*b as u32 >> bit & 1);
                    c >>= 1;
                    if x == 1 {
                        c ^= p;
                    }
                }
            }
            !c
        }
    }
}

fn algos() -> Vec<Algo> {
    let mut v = vec![];
    for i in [1u32, 0, 0xfff0fff0, 0x0001fff0, 0x12345678] {
        v.push(Algo::Adler(i));
    }
    for i in [0u32, 0xffffffff, 0x12345678] {
        for p in [0x04c11db7, 0x1edc6f41, 0x814141ab] {
            v.push(Algo::Crc(p, i));
        }
        for p in [0xedb88320, 0x82f63b78, 0xd5828281] {
            v.push(Algo::RevCrc(p, i));
        }
    }
    v
}

fn check(a: Algo, data: &[u8], parts: &[usize], cov: &mut Cov, what: &dyn Fn() -> String) -> CaseResult {
    let mut c = Ctx::new(a);
    let mut o = 0;
    for p in parts {
        c.update(&data[o..o + p]);
        o += p;
        cov.step();
    }
    assert_eq!(o, data.len());
    let got = c.finalize();
    cov.step();
    cov.trace();
    let want = reference(a, data);
    cov.outcome(&want);
    if got != want {
        return Err(Failure::new(format!("{a:x?} {}", what()), format!("{got:08x}, expected {want:08x}")));
    }
    // The context is ready for a new calculation.
    let again = c.finalize();
    let empty = reference_empty(a);
    if again != empty {
        return Err(Failure::new(format!("{a:x?} {}", what()), format!("second finalize gives {again:08x}, expected {empty:08x}")));
    }
    Ok(())
}

fn reference_empty(a: Algo) -> u32 {
    match a {
        Algo::Adler(i) | Algo::Crc(_, i) | Algo::RevCrc(_, i) => i,
    }
}

fn main() {
    let mut c = Check::new("C03");
    let algos = algos();
    let na = algos.len() as u64;
    c.note("algorithms", format!("{na} (kind, polynomial, initial value) configurations"));
    c.family("two-byte-messages", 65536 * na, |i, cov| {
        let mut d = Digits(i);
        let a = *d.pick(&algos);
        let data = [(d.0 >> 8) as u8, d.0 as u8];
        cov.distinct_states(1);
        check(a, &data, &[2], cov, &|| format!("{data:02x?}"))
    });
    // Every composition (ordered split) of short messages.
    let n = c.pick(11u64, 15);
    c.family("all-splits", composition_count(n) * na, |i, cov| {
        let mut d = Digits(i);
        let a = *d.pick(&algos);
        let data = pattern(n as usize, 9);
        let parts = composition(n as usize, d.0);
        cov.state(&(hash64(&parts), i % na));
        cov.sample(|| format!("{a:x?} message of {n} bytes fed as {parts:?}"));
        check(a, &data, &parts, cov, &|| format!("parts {parts:?}"))
    });
    // Adler-32 block boundaries, worst-case sums.
    let adl: Vec<Algo> = algos.iter().copied().filter(|a| matches!(a, Algo::Adler(_))).collect();
    let lens: Vec<usize> = {
        let mut v: Vec<usize> = (0..=40).collect();
        for b in [255usize, 256, 1024, 4096, 5552, 11104, 16656, 22208, 65521, 65536] {
            v.extend(b.saturating_sub(4)..=b + 4);
        }
        v.extend(c.pick(5500..5600, 5300..5900));
        v.sort();
        v.dedup();
        v
    };
    c.family("adler-boundaries", lens.len() as u64 * 3 * adl.len() as u64 * 3, |i, cov| {
        let mut d = Digits(i);
        let a = *d.pick(&adl);
        let kind = d.take(3);
        let pre = [0usize, 1, 5551][d.take(3) as usize];
        let n = lens[d.0 as usize];
        let data = match kind {
            0 => vec![0xff; n],
            1 => vec![0; n],
            _ => pattern(n, 2),
        };
        let parts = if pre >= n { vec![n] } else { vec![pre, n - pre] };
        cov.distinct_states(1);
        check(a, &data, &parts, cov, &|| format!("len {n} kind {kind} parts {parts:?}"))
    });
    // Every Adler-32 state component at the extremes: all low words.
    c.family("adler-all-words", 65521 * 2, |i, cov| {
        let w = (i / 2) as u32;
        let init = if i % 2 == 0 { w } else { w << 16 | 0xfff0 };
        cov.distinct_states(1);
        let data = [0xffu8, 0, 1];
        check(Algo::Adler(init), &data, &[1, 2], cov, &|| "state".to_string())
    });
    // Histories with boundary-sized updates, finalizations and continuation from a checksum.
    let sizes = [0usize, 1, 2, 8, 255, 5552];
    let k = sizes.len() as u64 + 2;
    let depth = c.pick(4, 5);
    let small: Vec<Algo> = vec![Algo::Adler(1), Algo::Crc(0x04c11db7, 0), Algo::RevCrc(0xedb88320, 0), Algo::RevCrc(0xedb88320, 0xffffffff)];
    c.family("histories", seq_count(k, depth) * small.len() as u64, |i, cov| {
        let mut d = Digits(i);
        let a = *d.pick(&small);
        let h = seq_decode(k, d.0);
        cov.trace();
        cov.state(&(i % 4, hash64(&h)));
        cov.sample(|| format!("{a:x?} history {h:?} (6=finalize, 7=continue from the checksum)"));
        let mut init = a;
        let mut ctx = Ctx::new(a);
        let mut msg: Vec<u8> = vec![];
        for (n, s) in h.iter().enumerate() {
            cov.step();
            if (*s as usize) < sizes.len() {
                let part = pattern(sizes[*s as usize], n as u64 + 3);
                ctx.update(&part);
                msg.extend(part);
                continue;
            }
            let got = ctx.finalize();
            let want = if msg.is_empty() { reference_empty(init) } else { reference(init, &msg) };
            if got != want {
                return Err(Failure::new(format!("{a:x?} {h:?}"), format!("step {n}: {got:08x}, expected {want:08x}")));
            }
            msg.clear();
            if *s as usize == sizes.len() + 1 {
                init = match a {
                    Algo::Adler(_) => Algo::Adler(got),
                    Algo::Crc(p, _) => Algo::Crc(p, got),
                    Algo::RevCrc(p, _) => Algo::RevCrc(p, got),
                };
                ctx = Ctx::new(init);
            }
        }
        let got = ctx.finalize();
        let want = if msg.is_empty() { reference_empty(init) } else { reference(init, &msg) };
        if got != want {
            return Err(Failure::new(format!("{a:x?} {h:?}"), format!("end: {got:08x}, expected {want:08x}")));
        }
        Ok(())
    });
    c.assume("Adler-32 initial values have both words below 65521 when the message is empty");
    c.finish();
}
