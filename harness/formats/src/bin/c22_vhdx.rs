// C22: VHDX images.
use keramics_core::DataStreamReference;
use keramics_formats::PathComponent;
use keramics_formats::vhdx::VhdxImage;
use mc_engine::util::{Digits, hash64, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::AtomicI64;

const M: u64 = 1 << 20;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Bl {
    /// Not present: the parent or zeros.
    None,
    Zero,
    Unmapped,
    Full,
    /// In the file behind all others.
    Late,
    /// Partially present: sectors by the bits, the first sector in the lowest bit, repeated.
    Bits(u8),
    /// Partially present: only the first or last sector.
    First,
    Last,
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Kind {
    Fixed,
    Dynamic,
    Differential,
}

#[derive(Clone, Debug, Hash)]
struct Spec {
    kind: Kind,
    block: u64,
    sector: u64,
    size: u64,
    blocks: BTreeMap<u64, Bl>,
    others: Bl,
    /// What is wrong with the image headers: 0 nothing, 1 the first, 2 the second is damaged; 3: the second is newer.
    headers: u8,
    /// Keys of the parent locator.
    locator: u8,
    salt: u64,
    n: u8,
    /// Of the blocks, instead of a pattern.
    content: Option<Vec<u8>>,
}

impl Spec {
    fn kind_of(&self, b: u64) -> Bl {
        *self.blocks.get(&b).unwrap_or(&self.others)
    }
    fn stored(&self, b: u64) -> bool {
        !matches!(self.kind_of(b), Bl::None | Bl::Zero | Bl::Unmapped)
    }
    fn has(&self, b: u64, k: u64) -> bool {
        match self.kind_of(b) {
            Bl::None | Bl::Zero | Bl::Unmapped => false,
            Bl::Full | Bl::Late => true,
            Bl::Bits(x) => x >> (k % 8) & 1 == 1,
            Bl::First => k == 0,
            Bl::Last => k + 1 == self.block / self.sector,
        }
    }
    /// Data of a block in the file: segments at the start, in the middle and at the end when the block is large.
    fn data(&self, b: u64) -> Vec<(u64, Vec<u8>)> {
        let salt = self.salt * 1009 + b * 13 + self.n as u64;
        let e = 16384u64;
        if let Some(c) = &self.content {
            return vec![(0, part(c, (b * self.block) as usize, self.block as usize))];
        }
        if self.block <= M {
            vec![(0, pattern(self.block as usize, salt))]
        } else {
            vec![(0, pattern(e as usize, salt)), (self.block / 2 - e / 2, pattern(e as usize, salt + 1)), (self.block - e, pattern(e as usize, salt + 2))]
        }
    }
}

fn guid(n: u8) -> [u8; 16] {
    let mut b = [0x31 + n; 16];
    b[3] = 0xa7;
    b[5] = 0xb8;
    b[15] = n;
    b
}

fn guid_string(b: &[u8; 16]) -> String {
    let h = |r: &[u8]| r.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let rev = |r: &[u8]| h(&r.iter().rev().copied().collect::<Vec<_>>());
    format!("{{{}-{}-{}-{}-{}}}", rev(&b[0..4]), rev(&b[4..6]), rev(&b[6..8]), h(&b[8..10]), h(&b[10..16]))
}

/// GUID as stored, from its text.
fn g(s: &str) -> Vec<u8> {
    let x: Vec<u8> = s.replace('-', "").as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    let mut o = x.clone();
    o[0..4].reverse();
    o[4..6].reverse();
    o[6..8].reverse();
    o
}

/// CRC-32C.
fn crc32c(d: &[u8]) -> u32 {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<u32>> = OnceLock::new();
    let t = T.get_or_init(|| (0..256u32).map(|i| (0..8).fold(i, |c, _| if c & 1 == 1 { c >> 1 ^ 0x82f63b78 } else { c >> 1 })).collect());
    !d.iter().fold(!0u32, |c, x| t[((c ^ *x as u32) & 0xff) as usize] ^ c >> 8)
}

fn build(s: &Spec) -> Segs {
    let mut f = Segs::default();
    let mut h = b"vhdxfile".to_vec();
    h.resize(65536, 0);
    f.put(0, h);
    for i in 0..2u8 {
        let mut h = vec![0u8; 4096];
        h[..4].copy_from_slice(b"head");
        let newer = if s.headers == 3 { 1 } else { 0 };
        p64l(&mut h, 8, if i == newer { 8 } else { 7 });
        h[16..32].copy_from_slice(&guid(90));
        // The older header has another identifier.
        let current = match s.headers {
            1 => i == 1,
            2 => i == 0,
            _ => i == newer,
        };
        h[32..48].copy_from_slice(&guid(if current { s.n } else { 60 }));
        p16l(&mut h, 66, 1);
        p32l(&mut h, 68, M as u32);
        p64l(&mut h, 72, M);
        let c = crc32c(&h);
        p32l(&mut h, 4, c);
        if s.headers == i + 1 {
            // A write that was torn.
            h[40..].fill(0xee);
        }
        h.resize(65536, 0);
        f.put(65536 * (1 + i as u64), h);
    }
    let (meta_at, bat_at) = (2 * M, 3 * M);
    let ratio = (1u64 << 23) * s.sector / s.block;
    let n = s.size.div_ceil(s.block);
    let entries = if s.kind == Kind::Differential { n.div_ceil(ratio) * (ratio + 1) } else { n + (n - 1) / ratio };
    let bat_size = (entries * 8).div_ceil(M) * M;
    let mut t = vec![0u8; 65536];
    t[..4].copy_from_slice(b"regi");
    p32l(&mut t, 8, 2);
    t[16..32].copy_from_slice(&g("2dc27766-f623-4200-9d64-115e9bfd4a08"));
    p64l(&mut t, 32, bat_at);
    p32l(&mut t, 40, bat_size as u32);
    p32l(&mut t, 44, 1);
    t[48..64].copy_from_slice(&g("8b7ca206-4790-4b9a-b8fe-575f050f886e"));
    p64l(&mut t, 64, meta_at);
    p32l(&mut t, 72, M as u32);
    p32l(&mut t, 76, 1);
    let c = crc32c(&t);
    p32l(&mut t, 4, c);
    f.put(3 * 65536, t.clone());
    f.put(4 * 65536, t);
    // Metadata.
    let mut items: Vec<(&str, Vec<u8>)> = Vec::new();
    let mut v = (s.block as u32).to_le_bytes().to_vec();
    v.extend(match s.kind { Kind::Fixed => 1u32, Kind::Dynamic => 0, Kind::Differential => 2 }.to_le_bytes());
    items.push(("caa16737-fa36-4d43-b3b6-33f0aa44e76b", v));
    items.push(("2fa54224-cd1b-4876-b211-5dbed83bf4b8", s.size.to_le_bytes().to_vec()));
    items.push(("beca12ab-b2e6-4523-93ef-c309e000c746", guid(50).to_vec()));
    items.push(("8141bf1d-a96f-4709-ba47-f233a8faab5f", (s.sector as u32).to_le_bytes().to_vec()));
    items.push(("cda348c7-445d-4471-9cc9-e9885251c556", 4096u32.to_le_bytes().to_vec()));
    if s.kind == Kind::Differential {
        let name = format!("disk{}.vhdx", s.n - 1);
        let mut kv: Vec<(&str, String)> = vec![("parent_linkage", guid_string(&guid(s.n - 1)))];
        if s.locator & 1 != 0 {
            kv.push(("relative_path", format!("..\\{name}")));
        }
        if s.locator & 2 != 0 {
            kv.push(("absolute_win32_path", format!("\\\\?\\c:\\images\\{name}")));
        }
        if s.locator & 4 != 0 {
            kv.insert(0, ("volume_path", format!("\\\\?\\Volume{{12345678-1234-1234-1234-123456789abc}}\\{name}")));
        }
        let mut l = g("b04aefb7-d19e-4a81-b789-25b8e9445913");
        l.extend([0, 0]);
        l.extend((kv.len() as u16).to_le_bytes());
        let mut at = 20 + 12 * kv.len();
        let mut strings = Vec::new();
        for (k, v) in &kv {
            let k: Vec<u8> = k.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
            let v: Vec<u8> = v.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
            l.extend((at as u32).to_le_bytes());
            l.extend(((at + k.len()) as u32).to_le_bytes());
            l.extend((k.len() as u16).to_le_bytes());
            l.extend((v.len() as u16).to_le_bytes());
            at += k.len() + v.len();
            strings.extend(k);
            strings.extend(v);
        }
        l.extend(strings);
        items.push(("a8d35f2d-b30b-454d-abf7-d3d84834ab0c", l));
    }
    let mut m = vec![0u8; 65536];
    m[..8].copy_from_slice(b"metadata");
    p16l(&mut m, 10, items.len() as u16);
    let mut data: Vec<u8> = Vec::new();
    for (i, (id, v)) in items.iter().enumerate() {
        let e = 32 + 32 * i;
        m[e..e + 16].copy_from_slice(&g(id));
        p32l(&mut m, e + 16, (65536 + data.len()) as u32);
        p32l(&mut m, e + 20, v.len() as u32);
        p32l(&mut m, e + 24, 6);
        data.extend(v);
    }
    m.extend(data);
    f.put(meta_at, m);
    // Blocks.
    let mut at = bat_at + bat_size;
    let mut bat = vec![0u8; (entries * 8) as usize];
    let mut order: Vec<u64> = s.blocks.keys().copied().filter(|b| s.kind_of(*b) != Bl::Late).collect();
    if s.stored(u64::MAX) {
        order = (0..n).filter(|b| s.kind_of(*b) != Bl::Late).collect();
    }
    order.extend(s.blocks.keys().rev().copied().filter(|b| s.kind_of(*b) == Bl::Late));
    let index = |b: u64| (b / ratio * (ratio + 1) + b % ratio) as usize;
    let mut maps: BTreeMap<u64, BTreeMap<u64, Vec<u8>>> = BTreeMap::new();
    for b in order {
        let state = match s.kind_of(b) {
            Bl::None => 0u64,
            Bl::Zero => 2,
            Bl::Unmapped => 3,
            Bl::Full | Bl::Late => 6,
            _ => 7,
        };
        let mut e = state;
        if s.stored(b) {
            e |= at;
            for (o, d) in s.data(b) {
                f.put(at + o, d);
            }
            at += s.block;
            f.size = f.size.max(at);
        }
        p64l(&mut bat, index(b) * 8, e);
        if s.kind == Kind::Differential {
            let sectors = s.block / s.sector;
            let mut bits = vec![0u8; (sectors / 8) as usize];
            for k in 0..sectors {
                if s.has(b, k) {
                    bits[(k / 8) as usize] |= 1 << (k % 8);
                }
            }
            // The bits of a block that is not partially present are not to be used.
            if state != 7 {
                bits.fill(0x96);
            }
            maps.entry(b / ratio).or_default().insert(b % ratio * sectors / 8, bits);
        }
    }
    for (chunk, parts) in maps {
        if !(0..ratio).any(|k| matches!(s.kind_of(chunk * ratio + k), Bl::Bits(_) | Bl::First | Bl::Last)) {
            continue;
        }
        p64l(&mut bat, ((chunk + 1) * (ratio + 1) - 1) as usize * 8, at | 6);
        for (o, d) in parts {
            f.put(at + o, d);
        }
        at += M;
        f.size = f.size.max(at);
    }
    f.put(bat_at, bat);
    f
}

/// What the media holds.
fn fill(specs: &[Spec], layer: usize, at: u64, buf: &mut [u8]) {
    let s = &specs[layer];
    let mut i = 0;
    while i < buf.len() {
        let p = at + i as u64;
        let n = ((s.sector - p % s.sector) as usize).min(buf.len() - i);
        let part = &mut buf[i..i + n];
        part.fill(0);
        let b = p / s.block;
        if p >= s.size {
        } else if s.has(b, p % s.block / s.sector) {
            let mut t = Segs::default();
            for (o, d) in s.data(b) {
                t.put(o, d);
            }
            t.fill(p % s.block, part);
        } else if s.kind == Kind::Differential && !matches!(s.kind_of(b), Bl::Zero) {
            fill(specs, layer - 1, p, part);
        }
        i += n;
    }
}

type FileMap = BTreeMap<String, Arc<Segs>>;

fn open(files: &FileMap, name: &str, layer: usize, layers: usize, fuse: Option<Arc<AtomicI64>>) -> Result<DataStreamReference, String> {
    let r = sparse_resolver(files, fuse);
    let mut i = VhdxImage::new();
    i.open(&r, &PathComponent::from(name)).map_err(|e| format!("open: {}", err(e)))?;
    if i.get_number_of_layers() != layers {
        return Err(format!("{} layers, expected {layers}", i.get_number_of_layers()));
    }
    Ok(i.get_layer_by_index(layer).map_err(|e| format!("layer: {}", err(e)))?)
}

fn chain(specs: &[Spec], b: &Bounds, edges: &[u64], fresh: bool, faulty: bool, cov: &mut Cov) -> CaseResult {
    let mut specs = specs.to_vec();
    for (k, s) in specs.iter_mut().enumerate() {
        s.n = k as u8 + 1;
    }
    let specs = &specs[..];
    let fail = |m: String| Failure::new(format!("{specs:?}"), m);
    let files: FileMap = specs.iter().map(|s| (format!("disk{}.vhdx", s.n), Arc::new(build(s)))).collect();
    let top = format!("disk{}.vhdx", specs.len());
    // The content, where it is read.
    for layer in 0..specs.len() {
        let s = &specs[layer];
        let f = |at: u64, buf: &mut [u8]| fill(specs, layer, at, buf);
        let cache;
        let fill_fn: Fill = if s.size <= 64 * M {
            let mut v = vec![0u8; s.size as usize];
            // Block data is made once.
            fill_all(specs, layer, &mut v);
            cache = move |at: u64, buf: &mut [u8]| if !buf.is_empty() { buf.copy_from_slice(&v[at as usize..at as usize + buf.len()]) };
            &cache
        } else {
            &f
        };
        let edges: Vec<u64> = edges.iter().copied().filter(|e| *e < s.size).collect();
        media_f(&|| open(&files, &top, layer, specs.len(), None), s.size, fill_fn, &edges, b, fresh, cov).map_err(|e| fail(format!("layer {layer}: {e}")))?;
        if faulty {
            let reads: Vec<(u64, usize)> = edges.iter().map(|e| (*e, 600)).collect();
            for n in 0..60 {
                let fuse = Arc::new(AtomicI64::new(n));
                cov.trace();
                let st = match guarded(|| open(&files, &top, layer, specs.len(), Some(fuse.clone()))).map_err(&fail)? {
                    Ok(st) => st,
                    Err(_) => continue,
                };
                for pass in 0..2 {
                    for (at, len) in &reads {
                        let before = fuse.load(std::sync::atomic::Ordering::Relaxed);
                        let r = guarded(|| window_f(&st, s.size, fill_fn, *at, *len, cov)).unwrap_or_else(Err);
                        let after = fuse.load(std::sync::atomic::Ordering::Relaxed);
                        if let Err(e) = r {
                            if before >= 0 && after < 0 && !e.contains("data at") {
                                continue;
                            }
                            return Err(fail(format!("fault in read {n}, pass {pass}: {e}")));
                        }
                    }
                }
            }
        }
    }
    cov.state(&hash64(&specs));
    Ok(())
}

fn fill_all(specs: &[Spec], layer: usize, v: &mut [u8]) {
    let s = &specs[layer];
    if layer > 0 && s.kind == Kind::Differential {
        let n = (specs[layer - 1].size as usize).min(v.len());
        fill_all(specs, layer - 1, &mut v[..n]);
        v[n..].fill(0);
    } else {
        v.fill(0);
    }
    for b in 0..(v.len() as u64).div_ceil(s.block) {
        if s.kind_of(b) == Bl::Zero {
            let (x, y) = ((b * s.block) as usize, (((b + 1) * s.block) as usize).min(v.len()));
            v[x..y].fill(0);
        }
        if !s.stored(b) {
            continue;
        }
        let mut t = vec![0u8; s.block as usize];
        for (o, d) in s.data(b) {
            t[o as usize..o as usize + d.len()].copy_from_slice(&d);
        }
        for k in 0..s.block / s.sector {
            let at = b * s.block + k * s.sector;
            if s.has(b, k) && at < v.len() as u64 {
                let e = (at + s.sector).min(v.len() as u64);
                let o = (k * s.sector) as usize;
                v[at as usize..e as usize].copy_from_slice(&t[o..o + (e - at) as usize]);
            }
        }
    }
}

fn spec(kind: Kind, block: u64, size: u64, blocks: &[Bl]) -> Spec {
    Spec { kind, block, sector: 512, size, blocks: blocks.iter().enumerate().map(|(i, b)| (i as u64, *b)).collect(), others: Bl::None, headers: 0, locator: 7, salt: 1, n: 1, content: None }
}

pub fn main() {
    let mut c = Check::new("C22");
    c.assume("images are written by the builder in this harness from the description of the format in docs/formats/src/vhdx.md");
    c.assume("blocks of a differential image whose state is undefined or unmapped are not specified; logs are not replayed");
    let quick = Bounds { chunks: vec![(1 << 20) + 100], lens: vec![1, 5000], depth: 0 };
    let edges = |block: u64, n: u64| -> Vec<u64> { (0..n).flat_map(|b| [b * block, b * block + 512, b * block + 4096, (b + 1) * block - 512]).collect() };
    let plain = [Bl::None, Bl::Full, Bl::Zero, Bl::Late, Bl::Unmapped];
    let depth = c.pick(3, 4);
    c.family("allocations of fixed and dynamic images", seq_count(5, depth) * 4, |i, cov| {
        let mut d = Digits(i);
        let kind = *d.pick(&[Kind::Fixed, Kind::Dynamic]);
        let tail = *d.pick(&[0u64, 512 * 9]);
        let bl: Vec<Bl> = seq_decode(5, d.0).into_iter().map(|x| plain[x as usize]).collect();
        if bl.is_empty() {
            return Ok(());
        }
        let mut s = spec(kind, M, bl.len() as u64 * M - tail, &bl);
        s.headers = (i % 4) as u8;
        chain(&[s], &quick, &edges(M, bl.len() as u64), i % 16 == 0, i % 50 == 0, cov)
    });
    let diff = [Bl::None, Bl::Full, Bl::Zero, Bl::Bits(0xff), Bl::Bits(0x35), Bl::First, Bl::Last];
    let n = diff.len() as u64;
    let depth = c.pick(2, 3);
    c.family("differential images", seq_count(n, depth) * 3, |i, cov| {
        let mut d = Digits(i);
        let shape = d.take(3);
        let bl: Vec<Bl> = seq_decode(n, d.0).into_iter().map(|x| diff[x as usize]).collect();
        if bl.is_empty() {
            return Ok(());
        }
        let size = bl.len() as u64 * M - 512;
        let base = match shape {
            0 => spec(Kind::Dynamic, M, size, &[Bl::Full, Bl::None, Bl::Full, Bl::Full][..bl.len()]),
            1 => spec(Kind::Fixed, 2 * M, size, &[Bl::Full, Bl::Full, Bl::Full][..size.div_ceil(2 * M) as usize]),
            // The parent is smaller.
            _ => spec(Kind::Dynamic, M, size - 4096, &[Bl::Full, Bl::Full, Bl::Full, Bl::Full][..bl.len()]),
        };
        let mut t = spec(Kind::Differential, M, size, &bl);
        t.locator = (i % 7) as u8 + 1;
        t.headers = (i % 4) as u8;
        t.salt = 2;
        chain(&[base, t], &quick, &edges(M, bl.len() as u64), i % 16 == 0, i % 20 == 0, cov)
    });
    c.family("sector bitmaps", 256, |i, cov| {
        let bits = i as u8;
        let base = spec(Kind::Dynamic, M, 2 * M, &[Bl::Full, Bl::Full]);
        let mut t = spec(Kind::Differential, M, 2 * M, &[Bl::Bits(bits), Bl::Bits(bits.reverse_bits())]);
        t.salt = 3;
        if i % 2 == 1 {
            t.sector = 4096;
        }
        chain(&[base, t], &Bounds { chunks: vec![], lens: vec![40000], depth: 0 }, &[M], false, false, cov)
    });
    let few = [Bl::None, Bl::Full, Bl::Bits(0x35), Bl::Zero];
    c.family("three layers", 4 * 4 * 16, |i, cov| {
        let mut d = Digits(i);
        let base = spec(Kind::Dynamic, 2 * M, 2 * M, &[Bl::Full]);
        let mut mid = spec(Kind::Differential, 2 * M, 2 * M, &[*d.pick(&few)]);
        mid.salt = 4;
        let mut top = spec(Kind::Differential, M, 2 * M, &[*d.pick(&few), *d.pick(&few)]);
        top.salt = 5;
        top.sector = if d.take(4) % 2 == 0 { 512 } else { 4096 };
        chain(&[base, mid, top], &Bounds { chunks: vec![], lens: vec![9000], depth: 0 }, &[M], false, false, cov)
    });
    // Histories.
    let hist = c.pick(2, 3);
    c.family("histories", 3, |i, cov| {
        let b = Bounds { chunks: vec![3 << 19], lens: vec![1100], depth: hist };
        let bl = [Bl::Bits(0x4e), Bl::None, Bl::Full];
        let base = spec(Kind::Fixed, M, 3 * M - 512, &[Bl::Full; 3]);
        let top = spec(Kind::Differential, M, 3 * M - 512, &bl);
        let e = [512u64, M, 2 * M];
        match i {
            0 => chain(&[spec(Kind::Dynamic, M, 3 * M - 512, &[Bl::Full, Bl::None, Bl::Late])], &b, &e, true, true, cov),
            1 => chain(&[base, top], &b, &e, true, true, cov),
            _ => chain(&[base, Spec { sector: 4096, size: 3 * M - 4096, ..top }], &b, &e, true, true, cov),
        }
    });
    // More than one chunk of the block allocation table.
    let shapes: Vec<(u64, u64)> = vec![(256 * M, 512), (64 * M, 512), (256 * M, 4096), (32 * M, 512)];
    c.family("several chunks", shapes.len() as u64 * 2 * 4, |i, cov| {
        let mut d = Digits(i);
        let (block, sector) = *d.pick(&shapes);
        let ratio = (1u64 << 23) * sector / block;
        let n = 2 * ratio + 2;
        let diff = d.take(2) == 1;
        let v = d.take(4);
        let mut s = spec(if diff { Kind::Differential } else { Kind::Dynamic }, block, n * block - 4096, &[]);
        s.sector = sector;
        let picks = [0, ratio - 1, ratio, ratio + 1, 2 * ratio - 1, 2 * ratio, 2 * ratio + 1];
        for (k, b) in picks.iter().enumerate() {
            let kind = match (k as u64 + v) % 4 {
                0 => Bl::Full,
                1 => Bl::None,
                2 => if diff { Bl::First } else { Bl::Full },
                _ => if diff { Bl::Bits(0x6a) } else { Bl::Zero },
            };
            s.blocks.insert(*b, kind);
        }
        let e: Vec<u64> = picks.iter().flat_map(|b| [b * block, b * block + sector, (b + 1) * block - sector]).collect();
        let b = Bounds { chunks: vec![], lens: vec![1, 9000], depth: 0 };
        if diff {
            let mut base = spec(Kind::Dynamic, 128 * M, n * block - 4096, &[]);
            for p in picks {
                base.blocks.insert(p * block / (128 * M), Bl::Full);
            }
            base.salt = 9;
            chain(&[base, s], &b, &e, false, false, cov)
        } else {
            chain(&[s], &b, &e, false, false, cov)
        }
    });
    // Malformed files.
    let mut t = spec(Kind::Differential, M, 2 * M, &[Bl::Bits(0x35), Bl::Full]);
    t.n = 2;
    let child = build(&t);
    let below = Arc::new(build(&spec(Kind::Dynamic, M, 2 * M, &[Bl::Full, Bl::None])));
    let run = |files: &FileMap| {
        guarded(|| {
            let r = sparse_resolver(files, None);
            let mut i = VhdxImage::new();
            if i.open(&r, &PathComponent::from("top")).is_err() {
                return 0;
            }
            let mut ok = 1;
            for l in 0..i.get_number_of_layers() {
                let s = i.get_layer_by_index(l).unwrap();
                let mut b = [0; 900];
                for at in [0u64, M - 300, M, 2 * M - 300] {
                    ok += s.write().unwrap().read_at_position_any(&mut b, at) as u64;
                }
            }
            ok
        })
    };
    // The parts of the file, with what they hold: changed bytes, with the checksums made to fit.
    let places: Vec<(u64, std::ops::Range<usize>)> = vec![(0, 0..16), (65536, 0..80), (3 * 65536, 0..80), (2 * M, 0..32 + 6 * 32), (2 * M, 65536..65536 + 200), (3 * M, 0..24)];
    let flat: Vec<(u64, usize)> = places.iter().flat_map(|(s, r)| r.clone().map(move |k| (*s, k))).collect();
    let vals: Vec<u8> = c.pick(vec![0, 1, 2, 4, 0x10, 0x7f, 0x80, 0xfe, 0xff], (0..=255).collect());
    let change = |f: &mut Segs, at: u64, k: usize, x: u8| {
        let mut d = f.segs[&at].as_ref().clone();
        d[k] = x;
        if (k < 4 || k >= 8) && (at == 65536 || at == 3 * 65536) {
            let n = if at == 65536 { 4096 } else { 65536 };
            d[4..8].fill(0);
            let c = crc32c(&d[..n]);
            p32l(&mut d, 4, c);
        }
        f.segs.insert(at, Arc::new(d));
    };
    c.family("one byte changed", flat.len() as u64 * vals.len() as u64, |i, cov| {
        let mut d = Digits(i);
        let (at, k) = *d.pick(&flat);
        let x = *d.pick(&vals);
        let mut f = child.clone();
        change(&mut f, at, k, x);
        let files: FileMap = [("top".to_string(), Arc::new(f)), ("disk1.vhdx".to_string(), below.clone())].into_iter().collect();
        cov.trace();
        match run(&files) {
            Ok(n) => {
                cov.outcome(&n);
                Ok(())
            }
            Err(p) => Err(Failure::new(format!("byte {k} at {at} is {x}"), p)),
        }
    });
    c.family("files that end early", 7 * 64, |i, cov| {
        let mut f = child.clone();
        let base = [65536u64, 2 * 65536, 3 * 65536, 4 * 65536, 2 * M, 3 * M, 4 * M][(i / 64) as usize];
        f.size = base + (i % 64) * 1000;
        let files: FileMap = [("top".to_string(), Arc::new(f)), ("disk1.vhdx".to_string(), below.clone())].into_iter().collect();
        cov.trace();
        run(&files).map(|_| ()).map_err(|p| Failure::new(format!("ends at {base} + {}", i % 64 * 1000), p))
    });
    // Checksums that do not match, missing parents.
    c.family("refused", 8, |i, cov| {
        let mut f = child.clone();
        let mut files: FileMap = [("disk1.vhdx".to_string(), below.clone())].into_iter().collect();
        let flip = |f: &mut Segs, at: u64, k: usize| {
            let mut d = f.segs[&at].as_ref().clone();
            d[k] ^= 0x40;
            f.segs.insert(at, Arc::new(d));
        };
        match i {
            0 => flip(&mut f, 0, 2),
            // Both image headers are damaged.
            1 => {
                flip(&mut f, 65536, 3000);
                flip(&mut f, 2 * 65536, 3000);
            }
            2 => {
                flip(&mut f, 3 * 65536, 60000);
                flip(&mut f, 4 * 65536, 60000);
            }
            3 => flip(&mut f, 2 * M, 1),
            4 => {
                files.clear();
            }
            // The parent has another identifier.
            5 => {
                files.insert("disk1.vhdx".into(), Arc::new(build(&Spec { n: 33, ..spec(Kind::Dynamic, M, 2 * M, &[Bl::Full, Bl::None]) })));
            }
            // The parent is the image itself.
            6 => {
                let mut t = t.clone();
                t.n = 2;
                f = build(&t);
                files.insert("disk1.vhdx".into(), Arc::new(f.clone()));
            }
            _ => {
                // Two images that are each other's parent.
                files.insert("disk1.vhdx".into(), Arc::new(build(&Spec { n: 2, ..t.clone() })));
            }
        }
        files.insert("top".into(), Arc::new(f));
        cov.trace();
        match guarded(|| open(&files, "top", 0, 2, None)) {
            Ok(Err(e)) if e.starts_with("open") => Ok(()),
            Ok(_) => Err(Failure::new(format!("case {i}"), "was accepted")),
            Err(p) => Err(Failure::new(format!("case {i}"), p)),
        }
    });
    c.finish()
}
