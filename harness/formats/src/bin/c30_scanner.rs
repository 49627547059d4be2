//! C30: the format scanner recognises exactly the formats whose signature lies inside the stream, for every set of
//! formats it is asked to look for.
use keramics_core::DataStreamReference;
use keramics_formats::{FormatIdentifier, FormatScanner};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::{mem, mem_fuse};
use std::collections::BTreeSet;
use std::sync::atomic::AtomicI64;
use std::sync::Arc;

const APM: usize = 0;
const EXT: usize = 1;
const EWF: usize = 2;
const FAT: usize = 3;
const GPT: usize = 4;
const MBR: usize = 5;
const NTFS: usize = 6;
const QCOW: usize = 7;
const SPARSEIMAGE: usize = 8;
const UDIF: usize = 9;
const VHD: usize = 10;
const VHDX: usize = 11;
const GROUPS: usize = 12;

/// What the formats look like: the format, whether the offset counts from the end, the offset and the bytes.
struct Sig {
    group: usize,
    end: bool,
    off: usize,
    pat: Vec<u8>,
}

fn signatures() -> Vec<Sig> {
    let mut v = vec![];
    let mut put = |group: usize, end: bool, off: usize, pat: &[u8]| v.push(Sig { group, end, off, pat: pat.to_vec() });
    let mut apm = b"Apple_partition_map".to_vec();
    apm.resize(32, 0);
    put(APM, false, 512 + 48, &apm);
    put(EXT, false, 1024 + 56, &[0x53, 0xef]);
    put(EWF, false, 0, b"EVF\x09\x0d\x0a\xff\x00");
    put(FAT, false, 54, b"FAT12   ");
    put(FAT, false, 54, b"FAT16   ");
    put(FAT, false, 82, b"FAT32   ");
    for s in [512, 1024, 2048, 4096] {
        put(GPT, false, s, b"EFI PART");
    }
    for s in [512, 1024, 2048, 4096] {
        put(MBR, false, s - 2, &[0x55, 0xaa]);
    }
    put(NTFS, false, 3, b"NTFS    ");
    for n in 1..=3u8 {
        put(QCOW, false, 0, &[b'Q', b'F', b'I', 0xfb, 0, 0, 0, n]);
    }
    put(SPARSEIMAGE, false, 0, b"sprs");
    put(UDIF, true, 512, b"koly");
    put(VHD, true, 512, b"conectix");
    put(VHDX, false, 0, b"vhdxfile");
    v
}

fn group_of(f: &FormatIdentifier) -> usize {
    match f {
        FormatIdentifier::Apm => APM,
        FormatIdentifier::Ext => EXT,
        FormatIdentifier::Ewf => EWF,
        FormatIdentifier::Fat => FAT,
        FormatIdentifier::Gpt => GPT,
        FormatIdentifier::Mbr => MBR,
        FormatIdentifier::Ntfs => NTFS,
        FormatIdentifier::Qcow => QCOW,
        FormatIdentifier::SparseImage => SPARSEIMAGE,
        FormatIdentifier::Udif => UDIF,
        FormatIdentifier::Vhd => VHD,
        FormatIdentifier::Vhdx => VHDX,
        _ => 99,
    }
}

fn names(g: &BTreeSet<usize>) -> String {
    const N: [&str; GROUPS] = ["apm", "ext", "ewf", "fat", "gpt", "mbr", "ntfs", "qcow", "sparseimage", "udif", "vhd", "vhdx"];
    g.iter().map(|x| *N.get(*x).unwrap_or(&"unknown")).collect::<Vec<_>>().join(",")
}

fn scanner(mask: u64, reverse: bool) -> Result<FormatScanner, Failure> {
    let mut s = FormatScanner::new();
    let mut order: Vec<usize> = (0..GROUPS).filter(|g| mask >> g & 1 == 1).collect();
    if reverse {
        order.reverse();
    }
    for g in order {
        match g {
            APM => s.add_apm_signatures(),
            EXT => s.add_ext_signatures(),
            EWF => s.add_ewf_signatures(),
            FAT => s.add_fat_signatures(),
            GPT => s.add_gpt_signatures(),
            MBR => s.add_mbr_signatures(),
            NTFS => s.add_ntfs_signatures(),
            QCOW => s.add_qcow_signatures(),
            SPARSEIMAGE => s.add_sparseimage_signatures(),
            UDIF => s.add_udif_signatures(),
            VHD => s.add_vhd_signatures(),
            _ => s.add_vhdx_signatures(),
        }
    }
    match guarded(|| s.build()) {
        Ok(Ok(())) => Ok(s),
        Ok(Err(e)) => Err(Failure::new(format!("groups {mask:03x}: build"), format!("cannot build a scanner for formats {mask:012b}: {e}"))),
        Err(p) => Err(Failure::new(format!("groups {mask:03x}: build"), format!("building a scanner for formats {mask:012b} panics: {p}"))),
    }
}

/// Formats looked for, split by where they are bound, that have a signature wholly inside the stream.
fn expected(sigs: &[Sig], mask: u64, data: &[u8]) -> (BTreeSet<usize>, BTreeSet<usize>) {
    let mut r = (BTreeSet::new(), BTreeSet::new());
    for s in sigs {
        if mask >> s.group & 1 == 0 {
            continue;
        }
        let at = if s.end { data.len().checked_sub(s.off) } else { Some(s.off) };
        if at.is_some_and(|p| p + s.pat.len() <= data.len() && data[p..p + s.pat.len()] == s.pat[..]) {
            if s.end { r.1.insert(s.group) } else { r.0.insert(s.group) };
        }
    }
    r
}

fn place(data: &mut [u8], s: &Sig) {
    let Some(at) = (if s.end { data.len().checked_sub(s.off) } else { Some(s.off) }) else { return };
    for (i, b) in s.pat.iter().enumerate() {
        if at + i < data.len() {
            data[at + i] = *b;
        }
    }
}

fn fill(kind: u64, n: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![0x20; n],
        _ => mc_engine::util::pattern(n, 77),
    }
}

fn scan(s: &FormatScanner, stream: &DataStreamReference) -> Result<Result<BTreeSet<usize>, String>, String> {
    guarded(|| match s.scan_data_stream(stream) {
        Ok(r) => Ok(r.iter().map(group_of).collect()),
        Err(e) => Err(e.to_string()),
    })
}

fn judge(sigs: &[Sig], s: &FormatScanner, mask: u64, data: Vec<u8>, what: &dyn Fn() -> String, cov: &mut Cov) -> CaseResult {
    let (start, end) = expected(sigs, mask, &data);
    let size = data.len();
    let r = scan(s, &mem(&Arc::new(data)));
    verdict(&start, &end, r, size, mask, what, cov)
}

fn verdict(
    start: &BTreeSet<usize>,
    end: &BTreeSet<usize>,
    r: Result<Result<BTreeSet<usize>, String>, String>,
    size: usize,
    mask: u64,
    what: &dyn Fn() -> String,
    cov: &mut Cov,
) -> CaseResult {
    cov.step();
    let f = |d: String| {
        Err(Failure::new(
            format!("{} in {size} bytes, formats {mask:012b}", what()),
            format!("stream of {size} bytes with {} scanned for formats {mask:012b} (bit 0 apm … bit 11 vhdx): {d}", what()),
        ))
    };
    let got = match r {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return f(format!("fails with {e}")),
        Err(p) => return f(format!("panics: {p}")),
    };
    cov.outcome(&got);
    let all: BTreeSet<usize> = start.union(end).copied().collect();
    if let Some(x) = got.iter().find(|g| !all.contains(g)) {
        return f(format!("reports {} whose signature is not there (reported {}, there {})", names(&BTreeSet::from([*x])), names(&got), names(&all)));
    }
    for (side, set) in [("start", start), ("end", end)] {
        if !set.is_empty() && set.is_disjoint(&got) {
            return f(format!("reports none of the formats with a signature bound to the {side} ({}); reported {}", names(set), names(&got)));
        }
    }
    Ok(())
}

fn sizes(s: &Sig) -> Vec<usize> {
    let mut v = if s.end {
        vec![0, 3, s.pat.len(), 511, 512, 513, 1023, 1024, 1025, 2500, 4103, 4104, 4105, 5000]
    } else {
        let e = s.off + s.pat.len();
        let mut v: Vec<usize> = (s.off..e + 2).collect();
        v.extend([e + 500, 4096, 4104, 5000]);
        v.retain(|n| *n >= s.off);
        v
    };
    v.sort();
    v.dedup();
    v
}

pub fn main() {
    let mut c = Check::new("C30");
    c.assume("signatures and their places are those of the format documentation; where several formats bound to the same end of the stream are present the scanner has to report at least one");
    let full: u64 = (1 << GROUPS) - 1;
    let sigs = Arc::new(signatures());
    let masks: Vec<u64> = (0..=full).collect();

    let s1 = sigs.clone();
    let m1 = masks.clone();
    c.family("every set of formats × every signature × where the stream ends", masks.len() as u64, move |i, cov| {
        let mask = m1[i as usize];
        let s = scanner(mask, i % 2 == 1)?;
        cov.state(&mask);
        for fk in 0..2 {
            for n in [0, 1, 511, 512, 513, 4095, 4096, 4200, 6000] {
                judge(&s1, &s, mask, fill(fk, n), &|| format!("no signature (filler {fk})"), cov)?;
            }
        }
        for (k, g) in s1.iter().enumerate() {
            for n in sizes(g) {
                for fk in if mask.count_ones() <= 1 || mask == full { 0..4 } else { i % 4..i % 4 + 1 } {
                    let mut d = fill(fk, n);
                    place(&mut d, g);
                    judge(&s1, &s, mask, d, &|| format!("signature {k} of {} (filler {fk})", names(&BTreeSet::from([g.group]))), cov)?;
                }
            }
        }
        cov.trace();
        Ok(())
    });

    let s2 = sigs.clone();
    let deep = c.thorough();
    let m2: Vec<u64> = masks.iter().copied().filter(|m| deep || m.count_ones() <= 3 || m.count_ones() >= 9).collect();
    c.family("every set of formats × every two signatures", m2.len() as u64, move |i, cov| {
        let mask = m2[i as usize];
        let s = scanner(mask, false)?;
        let r = scanner(mask, true)?;
        for a in 0..s2.len() {
            for b in a + 1..s2.len() {
                for n in [600, 5000] {
                    for order in [(a, b), (b, a)] {
                        let mut d = fill(0, n);
                        place(&mut d, &s2[order.0]);
                        place(&mut d, &s2[order.1]);
                        let what = || format!("signatures {} and {}", order.0, order.1);
                        let (start, end) = expected(&s2, mask, &d);
                        let d = Arc::new(d);
                        let x = scan(&s, &mem(&d));
                        if mask.count_ones() > 1 {
                            let y = scan(&r, &mem(&d));
                            verdict(&start, &end, y.clone(), n, mask, &what, cov)?;
                            if x != y {
                                return Err(Failure::new(
                                    format!("{} in {n} bytes, formats {mask:012b}: order", what()),
                                    format!("{} in {n} bytes: the formats reported depend on the order in which they were added: {x:?} and {y:?}", what()),
                                ));
                            }
                        }
                        verdict(&start, &end, x, n, mask, &what, cov)?;
                    }
                }
            }
        }
        cov.trace();
        Ok(())
    });

    let s3 = sigs.clone();
    let near: Vec<(usize, usize)> = sigs.iter().enumerate().flat_map(|(k, s)| (0..s.pat.len()).map(move |p| (k, p))).collect();
    c.family("signatures with one byte changed to every other value", near.len() as u64, move |i, cov| {
        let (k, p) = near[i as usize];
        let g = &s3[k];
        for mask in [full, 1 << g.group] {
            let s = scanner(mask, false)?;
            for x in 1..=255u8 {
                let changed = Sig { group: g.group, end: g.end, off: g.off, pat: g.pat.iter().enumerate().map(|(q, b)| if q == p { b ^ x } else { *b }).collect() };
                for n in [g.off + g.pat.len(), 4500] {
                    let mut d = fill(0, n);
                    place(&mut d, &changed);
                    judge(&s3, &s, mask, d, &|| format!("signature {k} with byte {p} changed by {x:02x}"), cov)?;
                }
            }
        }
        cov.state(&(k, p));
        Ok(())
    });

    let s4 = sigs.clone();
    c.family("signatures moved from their place", (sigs.len() * 42) as u64, move |i, cov| {
        let k = i as usize % s4.len();
        let g = &s4[k];
        for mask in [full, 1 << g.group] {
            let s = scanner(mask, false)?;
            for at in (0..100).map(|a| i as usize / s4.len() * 100 + a) {
                for n in [4300usize, at + g.pat.len()] {
                    let mut d = fill(0, n);
                    place(&mut d, &Sig { group: g.group, end: false, off: at, pat: g.pat.clone() });
                    judge(&s4, &s, mask, d, &|| format!("signature {k} at {at}"), cov)?;
                }
            }
        }
        cov.state(&(k, i));
        Ok(())
    });

    let s5 = sigs.clone();
    c.family("reads that fail", sigs.len() as u64, move |i, cov| {
        let k = i as usize;
        let g = &s5[k];
        for mask in [full, 1 << g.group] {
            let s = scanner(mask, false)?;
            for n in [g.off + g.pat.len(), 4104, 7000] {
                let mut d = fill(0, n);
                place(&mut d, g);
                let (start, end) = expected(&s5, mask, &d);
                let d = Arc::new(d);
                for fail in 0..6 {
                    let fuse = Arc::new(AtomicI64::new(fail));
                    let stream = mem_fuse(&d, &fuse);
                    match scan(&s, &stream) {
                        Err(p) => return Err(Failure::new(format!("signature {k}: failing read {fail}"), format!("read {fail} fails: panics: {p}"))),
                        Ok(Err(_)) if fuse.load(std::sync::atomic::Ordering::Relaxed) < 0 => cov.step(),
                        r => verdict(&start, &end, r, n, mask, &|| format!("signature {k} with read {fail} failing"), cov)?,
                    }
                    // The same scanner afterwards.
                    verdict(&start, &end, scan(&s, &mem(&d)), n, mask, &|| format!("signature {k} after a failed read"), cov)?;
                }
            }
        }
        cov.trace();
        Ok(())
    });
    c.finish();
}
