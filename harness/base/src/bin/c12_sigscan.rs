//! C12: signature scanning finds what a naive search finds, for every set of signatures, data and buffering.
use keramics_sigscan::{PatternType, ScanContext, Scanner, Signature};
use mc_engine::util::{composition, composition_count, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum T {
    Start,
    End,
    Unbound,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Sig {
    t: T,
    off: usize,
    pat: Vec<u8>,
}

impl Sig {
    fn occurrences(&self, data: &[u8]) -> Vec<usize> {
        let at = |p: usize| p + self.pat.len() <= data.len() && data[p..p + self.pat.len()] == self.pat[..];
        match self.t {
            T::Start => (self.off..self.off + 1).filter(|p| at(*p)).collect(),
            T::End => data.len().checked_sub(self.off).into_iter().filter(|p| at(*p)).collect(),
            T::Unbound => (0..data.len()).filter(|p| at(*p)).collect(),
        }
    }
}

fn scanner(sigs: &[Sig]) -> Result<Scanner, String> {
    let mut s = Scanner::new();
    for (i, g) in sigs.iter().enumerate() {
        let t = match g.t {
            T::Start => PatternType::BoundToStart,
            T::End => PatternType::BoundToEnd,
            T::Unbound => PatternType::Unbound,
        };
        s.add_signature(Signature::new(&i.to_string(), t, g.off, &g.pat));
    }
    s.build().map_err(|e| e.to_string())?;
    Ok(s)
}

fn distinct(sigs: &[Sig]) -> bool {
    (0..sigs.len()).all(|i| (0..i).all(|j| sigs[i] != sigs[j]))
}

fn scan(s: &Scanner, sigs: &[Sig], data: &[u8], parts: &[usize], cov: &mut Cov) -> CaseResult {
    let mut ctx = ScanContext::new(s, data.len() as u64);
    let mut o = 0;
    let mut bounds = vec![];
    for p in parts {
        ctx.scan_buffer(&data[o..o + p]);
        bounds.push((o, o + p));
        o += p;
        cov.step();
    }
    cov.trace();
    let mut results: Vec<(usize, usize)> = ctx.results.iter().map(|(k, v)| (*k as usize, v.identifier.parse().unwrap())).collect();
    results.sort();
    cov.outcome(&results);
    let f = |what: &str| {
        Err(Failure::new(
            format!("{what} {sigs:?} in {data:02x?} by {parts:?}"),
            format!("{what}: reported {results:?}, occurrences {:?}", sigs.iter().map(|g| g.occurrences(data)).collect::<Vec<_>>()),
        ))
    };
    for (k, i) in &results {
        if !sigs[*i].occurrences(data).contains(k) {
            return f("a reported signature does not occur at that offset");
        }
    }
    // An occurrence inside one buffer is found; of several bound to the start (end) at least one is.
    let inside = |p: usize, l: usize| bounds.iter().any(|(a, b)| p >= *a && p + l <= *b);
    for t in [T::Start, T::End] {
        let occ: Vec<usize> = sigs.iter().filter(|g| g.t == t).flat_map(|g| g.occurrences(data).into_iter().filter(|p| inside(*p, g.pat.len()))).collect();
        if !occ.is_empty() && !occ.iter().any(|p| results.iter().any(|(k, _)| k == p)) {
            return f("a signature at its offset is not reported");
        }
    }
    for g in sigs.iter().filter(|g| g.t == T::Unbound) {
        for p in g.occurrences(data) {
            if inside(p, g.pat.len()) && !results.iter().any(|(k, i)| *k <= p && k + sigs[*i].pat.len() > p) {
                return f("an unbound occurrence is not reported and overlaps no reported one before it");
            }
        }
    }
    Ok(())
}

fn run(sigs: &[Sig], alpha: &[u8], max: u32, splits: bool, cov: &mut Cov) -> CaseResult {
    if !distinct(sigs) {
        return Ok(());
    }
    cov.state(&sigs);
    let s = match scanner(sigs) {
        Ok(s) => s,
        Err(e) => return Err(Failure::new(format!("build {sigs:?}"), e)),
    };
    for j in 0..seq_count(alpha.len() as u64, max) {
        let data: Vec<u8> = seq_decode(alpha.len() as u64, j).iter().map(|k| alpha[*k as usize]).collect();
        scan(&s, sigs, &data, &[data.len()], cov)?;
        if splits {
            for b in 0..composition_count(data.len() as u64) {
                let parts = composition(data.len(), b);
                if parts.len() > 1 {
                    scan(&s, sigs, &data, &parts, cov)?;
                }
            }
        }
    }
    Ok(())
}

/// All signatures of the kinds with patterns over the alphabet up to a length and offsets up to a bound.
fn universe(kinds: &[T], alpha: &[u8], len: u32, offsets: &[usize]) -> Vec<Sig> {
    let mut v = vec![];
    for t in kinds {
        for i in 1..seq_count(alpha.len() as u64, len) {
            let pat: Vec<u8> = seq_decode(alpha.len() as u64, i).iter().map(|k| alpha[*k as usize]).collect();
            match t {
                T::Start => v.extend(offsets.iter().map(|o| Sig { t: *t, off: *o, pat: pat.clone() })),
                // Patterns that would end after the data are not meaningful.
                T::End => v.extend(offsets.iter().map(|o| Sig { t: *t, off: o + pat.len(), pat: pat.clone() })),
                T::Unbound => v.push(Sig { t: *t, off: 0, pat }),
            }
        }
    }
    v
}

pub fn main() {
    let mut c = Check::new("C12");
    c.assume("which of several matching start-bound (end-bound) signatures is reported, and overlapping unbound matches, are not specified; patterns that are split over buffers need not be found");
    // 0x41 counts as a common byte value for the choice of significant offsets, 0x80 and 0x81 do not.
    let alphas: [[u8; 2]; 3] = [[0x41, 0x80], [0x80, 0x81], [0x41, 0x42]];
    let thorough = c.thorough();
    for (name, kinds) in [("start", vec![T::Start]), ("end", vec![T::End]), ("unbound", vec![T::Unbound]), ("mixed", vec![T::Start, T::End, T::Unbound])] {
        let us: Vec<Vec<Sig>> = alphas.iter().map(|a| universe(&kinds, a, if name == "mixed" { 1 } else { 3 }, &[0, 1, 2])).collect();
        let n = us[0].len() as u64;
        c.family(&format!("{name}-1"), 3 * n, |i, cov| {
            let k = (i / n) as usize;
            run(&[us[k][(i % n) as usize].clone()], &alphas[k], 7, true, cov)
        });
        c.family(&format!("{name}-2"), 3 * n * n, |i, cov| {
            let (k, a, b) = ((i / n / n) as usize, (i / n % n) as usize, (i % n) as usize);
            run(&[us[k][a].clone(), us[k][b].clone()], &alphas[k], if thorough { 9 } else { 6 }, true, cov)
        });
        let us: Vec<Vec<Sig>> = alphas.iter().map(|a| universe(&kinds, a, if name == "unbound" { 3 } else if name == "mixed" { 1 } else { 2 }, &[0, 1, 2])).collect();
        let n = us[0].len() as u64;
        // Sets of three and four.
        c.family(&format!("{name}-3"), 3 * n * n * n, |i, cov| {
            let (k, mut r) = ((i / n / n / n) as usize, i);
            let mut p = vec![];
            for _ in 0..3 {
                p.push((r % n) as usize);
                r /= n;
            }
            let s: Vec<Sig> = p.iter().map(|j| us[k][*j].clone()).collect();
            run(&s, &alphas[k], if thorough { 7 } else { 5 }, true, cov)
        });
        let k4 = 3;
        c.family(&format!("{name}-4"), k4 * n * n * n * n, |i, cov| {
            let (k, mut r) = ((i / n / n / n / n) as usize, i);
            let mut p = vec![];
            for _ in 0..4 {
                p.push((r % n) as usize);
                r /= n;
            }
            // As a set: in increasing order (orders are covered by the smaller sets).
            if !p.windows(2).all(|w| w[0] < w[1]) {
                return Ok(());
            }
            let s: Vec<Sig> = p.iter().map(|j| us[k][*j].clone()).collect();
            run(&s, &alphas[k], if thorough { 6 } else { 5 }, thorough, cov)
        });
    }
    // Every subset of size up to 4 of a set modelled on real formats: shared prefixes, equal patterns at
    // different offsets, patterns far from the start.
    let real: Vec<Sig> = [
        (T::Start, 0, &b"QFI\xfb\x00\x00\x00\x01"[..]), (T::Start, 0, b"QFI\xfb\x00\x00\x00\x02"), (T::Start, 0, b"sprs"), (T::Start, 3, b"NTFS    "),
        (T::Start, 54, b"FAT12   "), (T::Start, 54, b"FAT16   "), (T::Start, 82, b"FAT32   "), (T::Start, 64, b"EFI PART"), (T::Start, 128, b"EFI PART"),
        (T::Start, 62, b"\x55\xaa"), (T::Start, 126, b"\x55\xaa"), (T::Start, 135, b"\x53\xef"), (T::Start, 70, b"Apple_partition_map\0\0\0\0"),
        (T::End, 64, b"koly"), (T::End, 64, b"conectix"), (T::End, 16, b"tail"),
    ]
    .iter()
    .map(|(t, o, p)| Sig { t: *t, off: *o, pat: p.to_vec() })
    .collect();
    let n = real.len() as u64;
    let m = 1u64 << n;
    let sizes = [0usize, 1, 3, 8, 15, 16, 17, 20, 60, 63, 64, 65, 72, 90, 128, 136, 137, 200, 300];
    let limit = c.pick(6, 16);
    c.family("formats", m, |i, cov| {
        if i.count_ones() > limit {
            return Ok(());
        }
        let sigs: Vec<Sig> = (0..n).filter(|b| i >> b & 1 == 1).map(|b| real[b as usize].clone()).collect();
        cov.state(&i);
        let s = scanner(&sigs).map_err(|e| Failure::new(format!("build {sigs:?}"), e))?;
        for size in sizes {
            // No signature, each one, and (for small sets) each pair written to the data.
            let k = sigs.len();
            for a in 0..=k {
                for b in 0..=if k <= 3 { k } else { 0 } {
                    let mut d = vec![0x20u8; size];
                    for j in [a, b] {
                        if j < k {
                            let g = &sigs[j];
                            let at = if g.t == T::Start { Some(g.off) } else { size.checked_sub(g.off) };
                            if let Some(p) = at {
                                for (q, x) in g.pat.iter().enumerate() {
                                    if p + q < size {
                                        d[p + q] = *x;
                                    }
                                }
                            }
                        }
                    }
                    scan(&s, &sigs, &d, &[size], cov)?;
                    for cut in [1, 60, 64, 100] {
                        if cut < size && k <= 2 {
                            scan(&s, &sigs, &d, &[cut, size - cut], cov)?;
                        }
                    }
                }
            }
        }
        Ok(())
    });
    c.finish();
}
