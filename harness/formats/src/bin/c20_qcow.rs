// C20: QCOW images.
use keramics_core::DataStreamReference;
use keramics_formats::PathComponent;
use keramics_formats::qcow::QcowImage;
use mc_engine::util::{Digits, hash64, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::AtomicI64;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Cl {
    /// Not allocated: the backing file, or zeros.
    None,
    /// In the file, at the next position.
    Data,
    /// In the file, allocated from the end (descending order).
    Late,
    /// Zero flag (version 3) without data.
    Zero,
    /// Zero flag (version 3) with data allocated that is not to be used.
    ZeroData,
    /// Compressed.
    Comp,
}

#[derive(Clone, Debug, Hash)]
struct Spec {
    version: u32,
    cluster_bits: u32,
    l2_bits: u32,
    size: u64,
    /// Clusters; level 2 tables of which all clusters are None are left out when `sparse_l1`.
    clusters: Vec<Cl>,
    sparse_l1: bool,
    backing: Option<String>,
    /// Header size of version 3: 104 or 112.
    header: u32,
    l1_late: bool,
    /// Of the clusters, instead of a pattern.
    content: Option<Vec<u8>>,
}

/// Stores data as DEFLATE: mixture of a stored and a fixed block would add nothing, runs use matches.
fn deflate(d: &[u8], style: u64) -> Vec<u8> {
    let mut o = Vec::new();
    if style % 2 == 0 {
        // Stored blocks of at most 300 bytes.
        let n = d.chunks(300).count();
        for (i, c) in d.chunks(300).enumerate() {
            o.push((i + 1 == n) as u8);
            o.extend((c.len() as u16).to_le_bytes());
            o.extend((!(c.len() as u16)).to_le_bytes());
            o.extend(c);
        }
        return o;
    }
    // Fixed codes: literals, and matches of distance 1 for runs.
    let mut acc = 0u64;
    let mut n = 0;
    let mut put = |o: &mut Vec<u8>, v: u64, k: u32| {
        acc |= v << n;
        n += k;
        while n >= 8 {
            o.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    };
    let rev = |v: u64, k: u32| (0..k).fold(0u64, |r, b| r | ((v >> b) & 1) << (k - 1 - b));
    put(&mut o, 1, 1);
    put(&mut o, 1, 2);
    let mut i = 0;
    while i < d.len() {
        let run = if i > 0 { d[i..].iter().take_while(|x| **x == d[i - 1]).count() } else { 0 };
        if run >= 3 {
            // Length 3 .. 10: symbols 257 .. 264, no extra bits; distance 1: code 0.
            let l = run.min(10);
            put(&mut o, rev((254 + l - 256) as u64, 7), 7);
            put(&mut o, 0, 5);
            i += l;
        } else {
            let b = d[i] as u64;
            if b < 144 { put(&mut o, rev(0x30 + b, 8), 8) } else { put(&mut o, rev(0x190 + b - 144, 9), 9) }
            i += 1;
        }
    }
    put(&mut o, 0, 7);
    put(&mut o, 0, 7);
    o
}

/// Builds the image; gives the file and the content of the media.
fn build(s: &Spec, below: &[u8], salt: u64) -> (Vec<u8>, Vec<u8>) {
    let cs = 1usize << s.cluster_bits;
    let per = 1usize << s.l2_bits;
    let n = s.size.div_ceil(cs as u64) as usize;
    assert_eq!(n, s.clusters.len());
    let n1 = n.div_ceil(per);
    let align = |v: usize| v.div_ceil(cs) * cs;
    let mut media = vec![0u8; n * cs];
    let keep = below.len().min(s.size as usize);
    media[..keep].copy_from_slice(&below[..keep]);
    let mut f = vec![0u8; align(1024)];
    let name = s.backing.clone().unwrap_or_default();
    let l1_size = align(n1 * 8);
    let mut l1_at = f.len();
    if !s.l1_late {
        f.resize(f.len() + l1_size, 0);
    }
    // Level 2 tables.
    let mut l1 = vec![0u64; n1];
    let copied = if s.version == 1 { 0 } else { 1u64 << 63 };
    for (t, r) in l1.iter_mut().enumerate() {
        let cl = &s.clusters[t * per..n.min(t * per + per)];
        if s.sparse_l1 && cl.iter().all(|c| *c == Cl::None) {
            continue;
        }
        *r = f.len() as u64 | copied;
        f.resize(f.len() + align(per * 8), 0);
    }
    // Clusters, those that are late last.
    let mut order: Vec<usize> = (0..n).filter(|i| s.clusters[*i] != Cl::Late).collect();
    order.extend((0..n).rev().filter(|i| s.clusters[*i] == Cl::Late));
    for i in order {
        let mut d = match &s.content {
            Some(c) => part(c, i * cs, cs),
            None => pattern(cs, salt + i as u64),
        };
        let mut r = 0u64;
        match s.clusters[i] {
            Cl::None => {}
            Cl::Data | Cl::Late => {
                f.resize(align(f.len()), 0);
                r = f.len() as u64 | copied;
                f.extend(&d);
                media[i * cs..i * cs + cs].copy_from_slice(&d);
            }
            Cl::Zero => {
                r = 1;
                media[i * cs..i * cs + cs].fill(0);
            }
            Cl::ZeroData => {
                f.resize(align(f.len()), 0);
                r = f.len() as u64 | copied | 1;
                f.extend(&d);
                media[i * cs..i * cs + cs].fill(0);
            }
            Cl::Comp => {
                // Half of the data is a run, so that the compressed data is smaller than the cluster.
                let v = d[cs / 2];
                d[cs / 4..].fill(v);
                let c = deflate(&d, 1);
                assert!(c.len() < cs);
                let at = f.len() as u64;
                if s.version == 1 {
                    r = 1 << 63 | (c.len() as u64) << (63 - s.cluster_bits) | at;
                } else {
                    let sectors = (at % 512 + c.len() as u64).div_ceil(512) - 1;
                    r = 1 << 62 | sectors << (70 - s.cluster_bits) | at;
                }
                f.extend(&c);
                media[i * cs..i * cs + cs].copy_from_slice(&d);
            }
        }
        if r != 0 {
            let t = (l1[i / per] & !copied) as usize;
            p64b(&mut f, t + (i % per) * 8, r);
        }
    }
    if s.l1_late {
        f.resize(align(f.len()), 0);
        l1_at = f.len();
        f.resize(f.len() + l1_size, 0);
    }
    for (t, r) in l1.iter().enumerate() {
        p64b(&mut f, l1_at + t * 8, *r);
    }
    // Header.
    f[..4].copy_from_slice(b"QFI\xfb");
    p32b(&mut f, 4, s.version);
    let name_at = if s.version == 1 { 48 } else if s.version == 2 { 72 } else { s.header as u64 + 8 };
    if !name.is_empty() {
        p64b(&mut f, 8, name_at);
        p32b(&mut f, 16, name.len() as u32);
    }
    match s.version {
        1 => {
            p32b(&mut f, 20, 0x5e5e5e5e);
            p64b(&mut f, 24, s.size);
            f[32] = s.cluster_bits as u8;
            f[33] = s.l2_bits as u8;
            p64b(&mut f, 40, l1_at as u64);
        }
        _ => {
            p32b(&mut f, 20, s.cluster_bits);
            p64b(&mut f, 24, s.size);
            p32b(&mut f, 36, n1 as u32);
            p64b(&mut f, 40, l1_at as u64);
            p64b(&mut f, 48, 0x10000);
            p32b(&mut f, 56, 1);
            if s.version == 3 {
                p32b(&mut f, 96, 4);
                p32b(&mut f, 100, s.header);
            }
        }
    }
    f[name_at as usize..name_at as usize + name.len()].copy_from_slice(name.as_bytes());
    media.truncate(s.size as usize);
    (f, media)
}

type FileMap = BTreeMap<String, Arc<Vec<u8>>>;

fn open(files: &FileMap, name: &str, layer: usize, layers: usize, fuse: Option<Arc<AtomicI64>>) -> Result<DataStreamReference, String> {
    let r = resolver_map(files, fuse);
    let mut i = QcowImage::new();
    i.open(&r, &PathComponent::from(name)).map_err(|e| format!("open: {}", err(e)))?;
    if i.get_number_of_layers() != layers {
        return Err(format!("{} layers, expected {layers}", i.get_number_of_layers()));
    }
    Ok(i.get_layer_by_index(layer).map_err(|e| format!("layer: {}", err(e)))?)
}

/// Chain of images, the base first.
fn chain(specs: &[Spec], b: &Bounds, salt: u64, faulty: bool, cov: &mut Cov) -> CaseResult {
    let fail = |m: String| Failure::new(format!("{specs:?}"), m);
    let mut files = FileMap::new();
    let mut below = Vec::new();
    let mut all = Vec::new();
    for (k, s) in specs.iter().enumerate() {
        let (f, m) = build(s, &below, salt + 1000 * k as u64);
        files.insert(format!("{k}"), Arc::new(f));
        all.push(m.clone());
        below = m;
    }
    let top = format!("{}", specs.len() - 1);
    for (layer, content) in all.iter().enumerate() {
        let s = &specs[layer];
        let cs = 1u64 << s.cluster_bits;
        let mut edges: Vec<u64> = (0..s.clusters.len() as u64).map(|i| i * cs).collect();
        edges.extend(all.iter().map(|m| m.len() as u64).filter(|n| *n < content.len() as u64));
        media(&|| open(&files, &top, layer, specs.len(), None), content, &edges, b, cov).map_err(|e| fail(format!("layer {layer}: {e}")))?;
        if faulty {
            let reads: Vec<(u64, usize)> = edges.iter().map(|e| (*e, cs as usize)).collect();
            faults(&|f| open(&files, &top, layer, specs.len(), f), content, &reads, 40, cov).map_err(|e| fail(format!("layer {layer}: {e}")))?;
        }
    }
    cov.state(&hash64(&specs));
    Ok(())
}

fn kinds(version: u32) -> &'static [Cl] {
    if version == 3 { &[Cl::None, Cl::Data, Cl::Zero, Cl::Comp, Cl::Late, Cl::ZeroData] } else { &[Cl::None, Cl::Data, Cl::Comp, Cl::Late] }
}

fn spec(version: u32, cluster_bits: u32, l2_bits: u32, size: u64, clusters: Vec<Cl>) -> Spec {
    Spec { version, cluster_bits, l2_bits: if version == 1 { l2_bits } else { cluster_bits - 3 }, size, clusters, sparse_l1: true, backing: None, header: if version == 3 { 104 } else { 0 }, l1_late: false, content: None }
}

pub fn main() {
    let mut c = Check::new("C20");
    c.assume("images are written by the builder in this harness from the published descriptions of the format");
    let quick = Bounds { chunks: vec![512, 700, 1 << 20], lens: vec![1, 513, 1100], depth: 0 };
    // Every allocation of up to n clusters, every version, last cluster full or not.
    let depth = c.pick(3, 4);
    for version in [1u32, 2, 3] {
        let k = kinds(version);
        let tails = [0u64, 1, 511, 100];
        let n = seq_count(k.len() as u64, depth);
        c.family(&format!("allocations, version {version}"), n * 4 * 2, |i, cov| {
            let mut d = Digits(i);
            let tail = *d.pick(&tails);
            let sparse = d.take(2) == 0;
            let cl: Vec<Cl> = seq_decode(k.len() as u64, d.0).into_iter().map(|x| k[x as usize]).collect();
            if cl.is_empty() {
                return Ok(());
            }
            let mut s = spec(version, 9, 1, cl.len() as u64 * 512 - tail, cl);
            s.sparse_l1 = sparse;
            s.l1_late = i % 2 == 1;
            s.header = if version == 3 && i % 3 == 0 { 112 } else { s.header };
            chain(&[s], &quick, i, i % 8 == 0, cov)
        });
    }
    // Histories of reads over a fixed image, with sizes of clusters and tables.
    let hist = Bounds { chunks: vec![333, 4096], lens: vec![2, 600], depth: c.pick(2, 3) };
    let cases: Vec<(u32, u32, u32)> = vec![(1, 9, 0), (1, 9, 1), (1, 9, 2), (1, 10, 3), (1, 9, 6), (2, 9, 0), (2, 10, 0), (2, 12, 0), (3, 9, 0), (3, 11, 0)];
    c.family("histories", cases.len() as u64, |i, cov| {
        let (v, cb, l2) = cases[i as usize];
        let k = kinds(v);
        let cl: Vec<Cl> = [1usize, 0, 2, 3, 1].iter().map(|x| k[*x]).collect();
        let cs = 1u64 << cb;
        chain(&[spec(v, cb, l2, 5 * cs - 77, cl)], &hist, i, true, cov)
    });
    c.family("protocol", 3, |i, cov| {
        let v = i as u32 + 1;
        let cl = vec![Cl::Data, Cl::None, Cl::Comp];
        let s = spec(v, 9, 1, 1500, cl);
        let (f, m) = build(&s, &[], i);
        let files: FileMap = [("0".to_string(), Arc::new(f))].into_iter().collect();
        protocol(&|| open(&files, "0", 0, 1, None), &m, &[511, 512, 1024], 2, cov).map_err(|e| Failure::new(format!("protocol {s:?}"), e))
    });
    // Several level 2 tables, each range allocated, or left out in the level 1 table.
    for version in [1u32, 2, 3] {
        let l2 = if version == 1 { 2 } else { 6 };
        let per = 1u64 << l2;
        let tails = [0u64, 1, 512, 513, per * 512 / 2, per * 512 - 1];
        c.family(&format!("level 1 ranges, version {version}"), 27 * 6, |i, cov| {
            let mut d = Digits(i);
            let tail = *d.pick(&tails);
            let mut cl = Vec::new();
            for _ in 0..3 {
                let t = d.take(3);
                for j in 0..per {
                    cl.push(match t {
                        0 => Cl::None,
                        1 => Cl::Data,
                        _ => if j == per - 1 { Cl::Comp } else { Cl::None },
                    });
                }
            }
            let size = 3 * per * 512 - tail;
            cl.truncate(size.div_ceil(512) as usize);
            let s = spec(version, 9, l2 as u32, size, cl);
            let fail = |m: String| Failure::new(format!("{version} ranges {i}: {s:?}"), m);
            let (f, m) = build(&s, &[], i);
            let files: FileMap = [("0".to_string(), Arc::new(f))].into_iter().collect();
            let edges: Vec<u64> = (1..3).flat_map(|t| [t * per * 512, t * per * 512 - 512, t * per * 512 + 512]).collect();
            media(&|| open(&files, "0", 0, 1, None), &m, &edges, &Bounds { chunks: vec![3000, 1 << 20], lens: vec![2, 1024], depth: 2 }, cov).map_err(fail)
        });
    }
    // Backing files: every pair (thorough: triple) of allocations, sizes that differ.
    let pair = c.pick(2usize, 3);
    for version in [1u32, 2, 3] {
        let k = kinds(version);
        let per_image = (k.len() as u64).pow(3);
        let sizes = [1536u64, 1024, 1100, 512, 1];
        c.family(&format!("backing files, version {version}"), 5 * 5 * per_image * if pair == 3 { 5 } else { 1 } * 3, |i, cov| {
            let mut d = Digits(i);
            let s0 = *d.pick(&sizes);
            let s1 = *d.pick(&sizes);
            let mut specs = Vec::new();
            let base_version = d.take(3) as u32 + 1;
            let base: Vec<Cl> = [Cl::Data, Cl::Comp, Cl::Data][..s0.div_ceil(512) as usize].to_vec();
            specs.push(spec(base_version, 9, 1, s0, base));
            if pair == 3 {
                let s2 = *d.pick(&sizes);
                let mid: Vec<Cl> = [Cl::None, Cl::Late, Cl::None][..s2.div_ceil(512) as usize].to_vec();
                specs.push(spec(version, 9, 1, s2, mid));
            }
            let top: Vec<Cl> = (0..3).map(|_| *d.pick(k)).collect();
            let mut s = spec(version, 9, 1, s1, top[..s1.div_ceil(512) as usize].to_vec());
            s.sparse_l1 = i % 2 == 0;
            specs.push(s);
            for j in 1..specs.len() {
                specs[j].backing = Some(format!("{}", j - 1));
            }
            chain(&specs, &quick, i, i % 16 == 0, cov)
        });
    }
    // Larger cluster, and clusters whose compressed data ends or starts at every offset of a sector.
    c.family("compressed data at every offset of a sector", 512 * 3, |i, cov| {
        let v = (i % 3) as u32 + 1;
        let shift = (i / 3) as usize;
        let s = spec(v, 10, 1, 2048, vec![Cl::Comp, Cl::Comp]);
        let (f, m) = build(&s, &[], i);
        // Move what follows the tables by `shift` bytes, and adapt the references.
        let mut refs = Vec::new();
        let cs = 1024usize;
        for at in (0..f.len() - 8).step_by(8) {
            let r = u64::from_be_bytes(f[at..at + 8].try_into().unwrap());
            if at >= 2048 && ((v == 1 && r >> 63 == 1) || (v != 1 && r >> 62 == 1)) && refs.len() < 2 {
                refs.push((at, r));
            }
        }
        let mask = if v == 1 { (1u64 << (63 - 10)) - 1 } else { (1u64 << 60) - 1 };
        let first = (refs[0].1 & mask) as usize;
        let mut g = f[..first].to_vec();
        g.resize(first + shift, 0xee);
        g.extend(&f[first..]);
        for (k, (at, r)) in refs.iter().enumerate() {
            let o = (r & mask) + shift as u64;
            let end = if k == 0 { (refs[1].1 & mask) as usize + shift } else { g.len() };
            let len = (end - o as usize) as u64;
            let size = if v == 1 { r >> 53 << 53 } else { 1 << 62 | ((o % 512 + len).div_ceil(512) - 1) << 60 };
            p64b(&mut g, *at, size | o);
        }
        let _ = cs;
        let files: FileMap = [("0".to_string(), Arc::new(g))].into_iter().collect();
        media(&|| open(&files, "0", 0, 1, None), &m, &[1024], &Bounds { chunks: vec![4096], lens: vec![3], depth: 0 }, cov).map_err(|e| Failure::new(format!("version {v} shift {shift}"), e))
    });
    // What is malformed or not supported is refused; nothing crashes.
    let base: Vec<(Vec<u8>, Vec<u8>)> = (1..=3).map(|v| build(&Spec { backing: Some("1".into()), ..spec(v, 9, 1, 1500, vec![Cl::Data, Cl::None, Cl::Comp]) }, &[], 1)).collect();
    let below = build(&spec(1, 9, 1, 1500, vec![Cl::Data; 3]), &[], 2).0;
    let values: &[u8] = if c.thorough() { &[0, 1, 2, 3, 8, 9, 0x10, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xfe, 0xff] } else { &[0, 1, 9, 0x20, 0x40, 0x80, 0xff] };
    let single = 3 * 120 * 256u64;
    let malformed = |name: String, f: Vec<u8>, cov: &mut Cov| -> CaseResult {
        // The tables of clusters of more than 2 MiB take more memory than there is.
        let l2 = if f.len() < 34 { 0 } else if f[4..8] == [0, 0, 0, 1] { f[33] as u32 } else { u32::from_be_bytes(f[20..24].try_into().unwrap()) };
        // So does a map of blocks with one block per table.
        if (l2 > 21 && l2 < 50) || (l2 == 0 && f.len() >= 34 && f[24..28] != [0; 4]) {
            return Ok(());
        }
        let files: FileMap = [("0".to_string(), Arc::new(f)), ("1".to_string(), Arc::new(below.clone()))].into_iter().collect();
        cov.trace();
        let r = guarded(|| {
            let r = resolver_map(&files, None);
            let mut i = QcowImage::new();
            if i.open(&r, &PathComponent::from("0")).is_err() {
                return 0;
            }
            let mut ok = 1;
            for l in 0..i.get_number_of_layers() {
                let s = i.get_layer_by_index(l).unwrap();
                let mut b = [0; 700];
                for at in [0u64, 500, 1024, 1400] {
                    ok += s.write().unwrap().read_at_position_any(&mut b, at) as u64;
                }
            }
            ok
        });
        match r {
            Ok(n) => {
                cov.outcome(&n);
                Ok(())
            }
            Err(p) => Err(Failure::new(name, p)),
        }
    };
    c.family("headers with one byte changed", single, |i, cov| {
        let mut d = Digits(i);
        let v = d.take(3) as usize;
        let at = d.take(120) as usize;
        let x = d.take(256) as u8;
        let mut f = base[v].0.clone();
        f[at] = x;
        malformed(format!("version {} byte {at} is {x}", v + 1), f, cov)
    });
    let m = values.len() as u64;
    c.family("headers with two bytes changed", 3 * 104 * 104 * m * m, |i, cov| {
        let mut d = Digits(i);
        let v = d.take(3) as usize;
        let at = d.take(104) as usize;
        let at2 = d.take(104) as usize;
        let (x, y) = (*d.pick(values), *d.pick(values));
        if at2 <= at {
            return Ok(());
        }
        let mut f = base[v].0.clone();
        f[at] = x;
        f[at2] = y;
        malformed(format!("version {} bytes {at} {at2} are {x} {y}", v + 1), f, cov)
    });
    c.family("files that end early", 3 * 4096, |i, cov| {
        let v = (i % 3) as usize;
        let mut f = base[v].0.clone();
        f.truncate((i / 3) as usize);
        malformed(format!("version {} ends at {}", v + 1, i / 3), f, cov)
    });
    let must: Vec<(&str, usize, u32, bool)> = vec![
        ("signature", 0, 0x514649fa, false),
        ("version 0", 4, 0, false),
        ("version 4", 4, 4, false),
        ("encryption", 32, 1, true),
        ("encryption 2", 32, 2, true),
    ];
    c.family("refused", must.len() as u64, |i, cov| {
        let (n, at, x, later) = must[i as usize];
        for v in if later { 1..3usize } else { 0..3 } {
            let mut f = base[v].0.clone();
            p32b(&mut f, at, x);
            cov.trace();
            let files: FileMap = [("0".to_string(), Arc::new(f)), ("1".to_string(), Arc::new(below.clone()))].into_iter().collect();
            match guarded(|| open(&files, "0", 1, 2, None)) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => return Err(Failure::new(format!("{n}, version {}", v + 1), "was accepted")),
                Err(p) => return Err(Failure::new(format!("{n}, version {}", v + 1), p)),
            }
        }
        Ok(())
    });
    // Backing files that are missing or lead back to the image.
    c.family("missing and circular backing files", 3 * 3, |i, cov| {
        let v = (i % 3) as u32 + 1;
        let mk = |b: &str| Arc::new(build(&Spec { backing: Some(b.into()), ..spec(v, 9, 1, 1500, vec![Cl::Data, Cl::None, Cl::Comp]) }, &[], 1).0);
        let files: FileMap = match i / 3 {
            0 => [("0".to_string(), mk("other"))].into_iter().collect(),
            1 => [("0".to_string(), mk("0"))].into_iter().collect(),
            _ => [("0".to_string(), mk("1")), ("1".to_string(), mk("2")), ("2".to_string(), mk("1"))].into_iter().collect(),
        };
        cov.trace();
        match guarded(|| open(&files, "0", 0, 1, None)) {
            Ok(Err(e)) if e.starts_with("open") => Ok(()),
            Ok(_) => Err(Failure::new(format!("backing case {i}"), "was accepted")),
            Err(p) => Err(Failure::new(format!("backing case {i}"), p)),
        }
    });
    c.finish()
}
