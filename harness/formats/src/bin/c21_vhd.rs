// C21: VHD images.
use keramics_core::DataStreamReference;
use keramics_formats::PathComponent;
use keramics_formats::vhd::VhdImage;
use mc_engine::util::{Digits, hash64, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::AtomicI64;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Bl {
    Absent,
    /// Sectors in the block: the bits, the first sector in the highest bit, repeated.
    Bits(u8),
    /// As Bits(0xff), but stored behind all others.
    Late,
    /// Only the last sector of the block.
    Last,
    /// Only the first sector of the block.
    First,
    /// Every sector but the last.
    NotLast,
}

impl Bl {
    fn has(&self, k: usize, n: usize) -> bool {
        match self {
            Bl::Absent => false,
            Bl::Bits(b) => b >> (7 - k % 8) & 1 == 1,
            Bl::Late => true,
            Bl::Last => k + 1 == n,
            Bl::First => k == 0,
            Bl::NotLast => k + 1 != n,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Kind {
    Fixed,
    Dynamic,
    Differential,
}

#[derive(Clone, Debug, Hash)]
struct Spec {
    kind: Kind,
    block: usize,
    size: u64,
    blocks: Vec<Bl>,
    /// Bits of the bitmap beyond the block.
    padding: u8,
    /// Blocks in the table beyond those of the media.
    extra: u32,
    /// Size at creation.
    original: u64,
    /// Path of the parent.
    parent: String,
    table_late: bool,
    /// Of the blocks, instead of a pattern.
    content: Option<Vec<u8>>,
}

fn id(n: u8) -> [u8; 16] {
    let mut b = [0x11 + n; 16];
    b[0] = 0xa0;
    b[15] = n;
    b
}

fn checksum(b: &[u8]) -> u32 {
    !b.iter().map(|x| *x as u32).sum::<u32>()
}

fn footer(s: &Spec, n: u8) -> Vec<u8> {
    let mut f = vec![0u8; 512];
    f[..8].copy_from_slice(b"conectix");
    p32b(&mut f, 8, 2);
    p32b(&mut f, 12, 0x10000);
    p64b(&mut f, 16, if s.kind == Kind::Fixed { u64::MAX } else { 512 });
    f[28..32].copy_from_slice(b"vpc ");
    p32b(&mut f, 32, 0x50003);
    f[36..40].copy_from_slice(b"Wi2k");
    p64b(&mut f, 40, s.original);
    p64b(&mut f, 48, s.size);
    p32b(&mut f, 56, 0x007c0411);
    p32b(&mut f, 60, match s.kind { Kind::Fixed => 2, Kind::Dynamic => 3, Kind::Differential => 4 });
    f[68..84].copy_from_slice(&id(n));
    let c = checksum(&f);
    p32b(&mut f, 64, c);
    f
}

fn build(s: &Spec, below: &[u8], n: u8, salt: u64) -> (Vec<u8>, Vec<u8>) {
    let foot = footer(s, n);
    if s.kind == Kind::Fixed {
        let m = match &s.content {
            Some(c) => part(c, 0, s.size as usize),
            None => pattern(s.size as usize, salt),
        };
        let mut f = m.clone();
        f.extend(&foot);
        return (f, m);
    }
    let nb = s.size.div_ceil(s.block as u64) as usize;
    assert_eq!(nb, s.blocks.len());
    let mut media = vec![0u8; nb * s.block];
    if s.kind == Kind::Differential {
        let k = below.len().min(s.size as usize);
        media[..k].copy_from_slice(&below[..k]);
    }
    let entries = nb + s.extra as usize;
    let mut f = foot.clone();
    f.resize(512 + 1024, 0);
    let table_size = (entries * 4).div_ceil(512) * 512;
    let mut table_at = f.len();
    if !s.table_late {
        f.resize(f.len() + table_size, 0xff);
    }
    let sectors = s.block / 512;
    let bitmap = sectors.div_ceil(8).div_ceil(512) * 512;
    let mut table = vec![u32::MAX; entries];
    let mut order: Vec<usize> = (0..nb).filter(|i| s.blocks[*i] != Bl::Late).collect();
    order.extend((0..nb).rev().filter(|i| s.blocks[*i] == Bl::Late));
    for i in order {
        if s.blocks[i] == Bl::Absent {
            continue;
        }
        table[i] = (f.len() / 512) as u32;
        let mut map = vec![s.padding; bitmap];
        let data = match &s.content {
            Some(c) => part(c, i * s.block, s.block),
            None => pattern(s.block, salt + 7 * i as u64 + 1),
        };
        for k in 0..sectors {
            let on = s.blocks[i].has(k, sectors);
            let bit = 0x80u8 >> (k % 8);
            map[k / 8] = map[k / 8] & !bit | if on { bit } else { 0 };
            if on {
                media[i * s.block + k * 512..][..512].copy_from_slice(&data[k * 512..][..512]);
            }
        }
        f.extend(&map);
        f.extend(&data);
    }
    if s.table_late {
        table_at = f.len();
        f.resize(f.len() + table_size, 0xff);
    }
    for (i, t) in table.iter().enumerate() {
        p32b(&mut f, table_at + i * 4, *t);
    }
    let mut h = vec![0u8; 1024];
    h[..8].copy_from_slice(b"cxsparse");
    p64b(&mut h, 8, u64::MAX);
    p64b(&mut h, 16, table_at as u64);
    p32b(&mut h, 24, 0x10000);
    p32b(&mut h, 28, entries as u32);
    p32b(&mut h, 32, s.block as u32);
    if s.kind == Kind::Differential {
        h[40..56].copy_from_slice(&id(n - 1));
        for (k, u) in s.parent.encode_utf16().enumerate() {
            p16b(&mut h, 64 + 2 * k, u);
        }
    }
    let c = checksum(&h);
    p32b(&mut h, 36, c);
    f[512..1536].copy_from_slice(&h);
    f.extend(&foot);
    media.truncate(s.size as usize);
    (f, media)
}

type FileMap = BTreeMap<String, Arc<Vec<u8>>>;

fn open(files: &FileMap, name: &str, layer: usize, layers: usize, fuse: Option<Arc<AtomicI64>>) -> Result<DataStreamReference, String> {
    let r = resolver_map(files, fuse);
    let mut i = VhdImage::new();
    i.open(&r, &PathComponent::from(name)).map_err(|e| format!("open: {}", err(e)))?;
    if i.get_number_of_layers() != layers {
        return Err(format!("{} layers, expected {layers}", i.get_number_of_layers()));
    }
    Ok(i.get_layer_by_index(layer).map_err(|e| format!("layer: {}", err(e)))?)
}

fn name(n: usize) -> String {
    format!("disk{n}.vhd")
}

fn chain(specs: &[Spec], b: &Bounds, salt: u64, faulty: bool, cov: &mut Cov) -> CaseResult {
    let fail = |m: String| Failure::new(format!("{specs:?}"), m);
    let mut files = FileMap::new();
    let mut below = Vec::new();
    let mut all = Vec::new();
    for (k, s) in specs.iter().enumerate() {
        let (f, m) = build(s, &below, k as u8 + 1, salt + 1000 * k as u64);
        files.insert(name(k), Arc::new(f));
        all.push(m.clone());
        below = m;
    }
    let top = name(specs.len() - 1);
    for (layer, content) in all.iter().enumerate() {
        let s = &specs[layer];
        let mut edges: Vec<u64> = if s.kind == Kind::Fixed { vec![512] } else { (0..s.blocks.len()).map(|i| (i * s.block) as u64).collect() };
        if s.block <= 8192 && s.kind != Kind::Fixed {
            edges.extend((1..8).map(|k| k * 512).filter(|e| *e < s.size));
        } else {
            edges.extend([(s.block as u64).saturating_sub(512), 512, 4096, 4608]);
        }
        edges.extend(all.iter().map(|m| m.len() as u64).filter(|n| *n < content.len() as u64));
        edges.sort();
        edges.dedup();
        media(&|| open(&files, &top, layer, specs.len(), None), content, &edges, b, cov).map_err(|e| fail(format!("layer {layer}: {e}")))?;
        if faulty {
            let reads: Vec<(u64, usize)> = edges.iter().map(|e| (*e, 600)).collect();
            faults(&|f| open(&files, &top, layer, specs.len(), f), content, &reads, 40, cov).map_err(|e| fail(format!("layer {layer}: {e}")))?;
        }
    }
    cov.state(&hash64(&specs));
    Ok(())
}

fn spec(kind: Kind, block: usize, size: u64, blocks: Vec<Bl>) -> Spec {
    Spec { kind, block, size, blocks, padding: 0, extra: 0, original: size, parent: String::new(), table_late: false, content: None }
}

pub fn main() {
    let mut c = Check::new("C21");
    c.assume("images are written by the builder in this harness from the description of the format in docs/formats/src/vhd.md");
    let quick = Bounds { chunks: vec![512, 700, 1 << 22], lens: vec![1, 513, 1100], depth: 0 };
    let hist = Bounds { chunks: vec![700, 1 << 22], lens: vec![2, 1100], depth: 2 };
    let kinds = [Bl::Absent, Bl::Bits(0xff), Bl::Bits(0), Bl::Bits(0xb0), Bl::First, Bl::Last, Bl::NotLast, Bl::Late];
    let k = kinds.len() as u64;
    let depth = c.pick(3, 4);
    let blocks = [512usize, 1024, 2048, 4096, 8192];
    // Every sequence of kinds of blocks.
    c.family("allocations of dynamic images", seq_count(k, depth) * 5 * 3, |i, cov| {
        let mut d = Digits(i);
        let block = *d.pick(&blocks);
        let tail = *d.pick(&[0u64, 512, 100]);
        let bl: Vec<Bl> = seq_decode(k, d.0).into_iter().map(|x| kinds[x as usize]).collect();
        if bl.is_empty() || tail as usize >= block {
            return Ok(());
        }
        let mut s = spec(Kind::Dynamic, block, (bl.len() * block) as u64 - tail, bl);
        s.padding = if i % 2 == 0 { 0 } else { 0xff };
        s.extra = (i % 3) as u32;
        s.table_late = i % 5 == 0;
        chain(&[s], &quick, i, i % 8 == 0, cov)
    });
    // Every bitmap of a block of eight sectors, every pair of a set of them, in an image with and without parent.
    c.family("sector bitmaps", 256 * 3, |i, cov| {
        let mut d = Digits(i);
        let bits = d.take(256) as u8;
        let other = *d.pick(&[0xffu8, 0x00, 0x5a]);
        let base = spec(Kind::Dynamic, 4096, 3 * 4096, vec![Bl::Bits(0xff), Bl::Bits(0xf7), Bl::Bits(0xff)]);
        let mut top = spec(Kind::Differential, 4096, 3 * 4096, vec![Bl::Bits(bits), Bl::Bits(other), Bl::Bits(bits.reverse_bits())]);
        top.parent = name(0);
        chain(&[base, top], &quick, i, false, cov)
    });
    let patterns: Vec<u8> = if c.thorough() { (0..=255).collect() } else { vec![0, 0xff, 0x80, 0x01, 0xf0, 0x0f, 0xaa, 0x55, 0xc3, 0x3c, 0x7f, 0xfe] };
    c.family("pairs of sector bitmaps", (patterns.len() * patterns.len()) as u64, |i, cov| {
        let mut d = Digits(i);
        let (a, b) = (*d.pick(&patterns), *d.pick(&patterns));
        chain(&[spec(Kind::Dynamic, 4096, 2 * 4096 - 100, vec![Bl::Bits(a), Bl::Bits(b)])], &quick, i, false, cov)
    });
    // Chains: every pair of allocations of parent and child, with different sizes of blocks and media.
    let few = [Bl::Absent, Bl::Bits(0xff), Bl::Bits(0xb1), Bl::Last];
    c.family("differential images", 64 * 16 * 3 * 3, |i, cov| {
        let mut d = Digits(i);
        let shape = d.take(3);
        let sizes = d.take(3);
        let base: Vec<Bl> = (0..2).map(|_| *d.pick(&few)).collect();
        let top: Vec<Bl> = (0..3).map(|_| *d.pick(&few)).collect();
        let (b0, b1) = [(4096, 4096), (8192, 2048), (2048, 8192)][shape as usize];
        let s1 = (3 * b1) as u64 - 100;
        let s0 = match sizes {
            0 => s1,
            1 => s1.min(2 * b0 as u64 - 512),
            _ => s1.min(b0 as u64 + 1),
        };
        let nb0 = s0.div_ceil(b0 as u64) as usize;
        let mut base_blocks = base.clone();
        base_blocks.resize(nb0, Bl::Bits(0x9f));
        let fixed = i % 4 == 0;
        let base = if fixed { spec(Kind::Fixed, 0, s0, vec![]) } else { spec(Kind::Dynamic, b0, s0, base_blocks) };
        let mut t = spec(Kind::Differential, b1, s1, top);
        t.parent = if i % 2 == 0 { name(0) } else { format!("C:\\images\\{}", name(0)) };
        chain(&[base, t], &quick, i, i % 32 == 0, cov)
    });
    c.family("three layers", 4 * 4 * 4 * 4, |i, cov| {
        let mut d = Digits(i);
        let base = spec(Kind::Dynamic, 2048, 4000, vec![Bl::Bits(0xff), *d.pick(&few)]);
        let mut mid = spec(Kind::Differential, 4096, 4000, vec![*d.pick(&few)]);
        mid.parent = name(0);
        let mut top = spec(Kind::Differential, 2048, 4000, vec![*d.pick(&few), *d.pick(&few)]);
        top.parent = name(1);
        chain(&[base, mid, top], &quick, i, false, cov)
    });
    // Histories of reads.
    let cases = c.pick(6u64, 6);
    let deep = Bounds { depth: c.pick(2, 3), lens: c.pick(vec![2, 1100], vec![1100]), ..hist.clone() };
    c.family("histories", cases, |i, cov| {
        let bl = vec![Bl::Bits(0x5c), Bl::Absent, Bl::Bits(0xff), Bl::Last];
        let block = [1024usize, 2048, 4096][(i % 3) as usize];
        let size = 4 * block as u64 - 77;
        if i < 3 {
            chain(&[spec(Kind::Dynamic, block, size, bl)], &deep, i, true, cov)
        } else {
            let mut t = spec(Kind::Differential, block, size, bl);
            t.parent = name(0);
            chain(&[spec(Kind::Fixed, 0, size, vec![]), t], &deep, i, true, cov)
        }
    });
    c.family("protocol", 3, |i, cov| {
        let s = match i {
            0 => spec(Kind::Fixed, 0, 1300, vec![]),
            1 => spec(Kind::Dynamic, 1024, 1300, vec![Bl::Bits(0x80), Bl::Bits(0xff)]),
            _ => spec(Kind::Dynamic, 512, 1300, vec![Bl::Bits(0xff), Bl::Absent, Bl::Late]),
        };
        let (f, m) = build(&s, &[], 1, i);
        let files: FileMap = [(name(0), Arc::new(f))].into_iter().collect();
        protocol(&|| open(&files, &name(0), 0, 1, None), &m, &[511, 512, 1024], 2, cov).map_err(|e| Failure::new(format!("protocol {s:?}"), e))
    });
    // Blocks around the sizes where the bitmap is one sector and more.
    c.family("large blocks", 4 * 3, |i, cov| {
        let block = [64usize << 10, 1 << 20, 2 << 20, 4 << 20][(i % 4) as usize];
        let (a, b) = [(Bl::Bits(0xff), Bl::Last), (Bl::NotLast, Bl::Absent), (Bl::First, Bl::Bits(0x7f))][(i / 4) as usize];
        let mut s = spec(Kind::Dynamic, block, 2 * block as u64 - 512, vec![a, b]);
        s.padding = 0xff;
        let b = Bounds { chunks: vec![1 << 20, 9 << 20], lens: vec![1, 1100], depth: 0 };
        chain(&[s], &b, i, false, cov)
    });
    // The media is as large as the disk is now, whatever it was at creation.
    c.family("disks that were resized", 3 * 3, |i, cov| {
        let kind = [Kind::Fixed, Kind::Dynamic][(i % 2) as usize];
        let mut s = spec(kind, 2048, 4096, if kind == Kind::Fixed { vec![] } else { vec![Bl::Bits(0xff), Bl::Bits(0x70)] });
        s.original = [2048u64, 4096, 8192][(i / 3) as usize];
        chain(&[s], &quick, i, false, cov)
    });
    // Malformed files.
    let mut top = spec(Kind::Differential, 2048, 4000, vec![Bl::Bits(0x90), Bl::Absent]);
    top.parent = name(0);
    let child = build(&top, &vec![1; 4000], 2, 5).0;
    let below = build(&spec(Kind::Dynamic, 2048, 4000, vec![Bl::Bits(0xe0), Bl::Late]), &[], 1, 6).0;
    let malformed = |key: String, f: Vec<u8>, cov: &mut Cov| -> CaseResult {
        // Tables of gigabytes take as much memory as the file says.
        if f.len() > 544 && f[540..542] != [0, 0] {
            return Ok(());
        }
        cov.trace();
        let files: FileMap = [("top".to_string(), Arc::new(f)), (name(0), Arc::new(below.clone()))].into_iter().collect();
        let r = guarded(|| {
            let r = resolver_map(&files, None);
            let mut i = VhdImage::new();
            if i.open(&r, &PathComponent::from("top")).is_err() {
                return 0;
            }
            let mut ok = 1;
            for l in 0..i.get_number_of_layers() {
                let s = i.get_layer_by_index(l).unwrap();
                let mut b = [0; 900];
                for at in [0u64, 2000, 1800, 3500] {
                    ok += s.write().unwrap().read_at_position_any(&mut b, at) as u64;
                }
            }
            ok
        });
        match r {
            Ok(n) => {
                cov.outcome(&n);
                Ok(())
            }
            Err(p) => Err(Failure::new(key, p)),
        }
    };
    // The bytes of the header, the start of the table, a bitmap and the footer.
    let places: Vec<usize> = (512..512 + 120).chain(1536..1544).chain(2048..2052).chain(child.len() - 512..child.len() - 400).collect();
    c.family("one byte changed", places.len() as u64 * 256, |i, cov| {
        let mut d = Digits(i);
        let at = *d.pick(&places);
        let x = d.take(256) as u8;
        // Block sizes of gigabytes take as much memory as the file says.
        if (544..546).contains(&at) && x != 0 {
            return Ok(());
        }
        let mut f = child.clone();
        f[at] = x;
        malformed(format!("byte {at} is {x}"), f, cov)
    });
    let vals: Vec<u8> = c.pick(vec![0, 1, 2, 0x7f, 0x80, 0xff], vec![0, 1, 2, 3, 4, 7, 8, 0x10, 0x20, 0x40, 0x7f, 0x80, 0xc0, 0xfe, 0xff]);
    let few_places: Vec<usize> = (528..550).chain(1536..1540).chain(2048..2050).chain(child.len() - 512 + 16..child.len() - 512 + 64).collect();
    let (np, nv) = (few_places.len() as u64, vals.len() as u64);
    c.family("two bytes changed", np * np * nv * nv, |i, cov| {
        let mut d = Digits(i);
        let (a, b) = (*d.pick(&few_places), *d.pick(&few_places));
        let (x, y) = (*d.pick(&vals), *d.pick(&vals));
        if a >= b || [(a, x), (b, y)].iter().any(|(p, v)| (544..546).contains(p) && *v != 0) {
            return Ok(());
        }
        let mut f = child.clone();
        f[a] = x;
        f[b] = y;
        malformed(format!("bytes {a} {b} are {x} {y}"), f, cov)
    });
    c.family("files that end early", child.len() as u64, |i, cov| {
        let mut f = child.clone();
        f.truncate(i as usize);
        malformed(format!("ends at {i}"), f.clone(), cov)?;
        // With the footer kept.
        f.extend(&child[child.len() - 512..]);
        malformed(format!("data ends at {i}"), f, cov)
    });
    c.family("missing, wrong and circular parents", 5, |i, cov| {
        cov.trace();
        let mk = |n: u8, p: &str| {
            let mut s = spec(Kind::Differential, 2048, 4000, vec![Bl::Bits(0x90), Bl::Absent]);
            s.parent = p.into();
            Arc::new(build(&s, &[], n, 1).0)
        };
        let base = Arc::new(build(&spec(Kind::Fixed, 0, 4000, vec![]), &[], 7, 1).0);
        let files: FileMap = match i {
            0 => [("a".to_string(), mk(2, "other"))].into_iter().collect(),
            // The identifier of the parent is another.
            1 => [("a".to_string(), mk(2, "b")), ("b".to_string(), base)].into_iter().collect(),
            2 => [("a".to_string(), mk(1, "a"))].into_iter().collect(),
            3 => [("a".to_string(), mk(3, "b")), ("b".to_string(), mk(2, "c")), ("c".to_string(), mk(3, "b"))].into_iter().collect(),
            _ => [("a".to_string(), mk(2, ""))].into_iter().collect(),
        };
        match guarded(|| open(&files, "a", 0, 2, None)) {
            Ok(Err(e)) if e.starts_with("open") => Ok(()),
            Ok(_) => Err(Failure::new(format!("parent case {i}"), "was accepted")),
            Err(p) => Err(Failure::new(format!("parent case {i}"), p)),
        }
    });
    c.finish()
}
