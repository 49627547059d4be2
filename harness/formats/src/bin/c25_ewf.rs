// C25: EWF images.
use keramics_core::DataStreamReference;
use keramics_formats::PathComponent;
use keramics_formats::ewf::{EwfHeaderValueType, EwfImage, EwfMediaType};
use mc_comp::{LsbWriter, deflate};
use mc_engine::util::{Digits, composition, hash64, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::collections::BTreeMap;
use std::sync::atomic::AtomicI64;
use std::sync::{Arc, RwLock};

/// How a chunk is stored.
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum C {
    /// As is, with a checksum behind it.
    Raw,
    /// Zlib data of stored blocks.
    Stored,
    /// Zlib data of literals.
    Lits,
    /// A chunk of one byte value, as zlib data of matches.
    Run,
}
const CHUNKS: [C; 4] = [C::Raw, C::Stored, C::Lits, C::Run];

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Kind {
    /// Chunks in a sectors section, then table and table2.
    E01,
    /// The same, without a table2 section and with base offsets.
    Linen,
    /// Chunks in the table section behind the footer.
    EnCase1,
    /// Chunks in the table section, no footer, every chunk compressed.
    Smart,
}
const KINDS: [Kind; 4] = [Kind::E01, Kind::Linen, Kind::EnCase1, Kind::Smart];

#[derive(Clone, Debug, Hash)]
struct Image {
    kind: Kind,
    spc: u32,
    bps: u32,
    sectors: u32,
    /// Segments of tables of chunks.
    segs: Vec<Vec<Vec<C>>>,
    /// The last chunk is stored with only the data of the media.
    partial: bool,
    /// Bytes between the section header (or table) and the first chunk.
    gap: usize,
    /// Sections that end a segment have a size.
    sized: bool,
    lower: bool,
}

fn zlib(d: &[u8], how: C) -> Vec<u8> {
    let mut w = LsbWriter::default();
    match how {
        C::Stored => {
            let n = d.chunks(65535).count();
            for (k, c) in d.chunks(65535).enumerate() {
                deflate::stored(&mut w, k + 1 == n, c);
            }
        }
        C::Run => {
            let mut t = vec![];
            let mut left = d.len();
            if left > 0 {
                t.push(deflate::Tok::Lit(d[0]));
                left -= 1;
            }
            while left > 0 {
                let n = if left < 3 { 1 } else if left - left.min(258) > 0 && left - left.min(258) < 3 { left.min(258) - 3 } else { left.min(258) };
                if n < 3 {
                    t.push(deflate::Tok::Lit(d[0]));
                    left -= 1;
                } else {
                    t.push(deflate::Tok::Match(n, 1));
                    left -= n;
                }
            }
            deflate::fixed(&mut w, true, &t);
        }
        _ => {
            let t: Vec<deflate::Tok> = d.iter().map(|b| deflate::Tok::Lit(*b)).collect();
            deflate::fixed(&mut w, true, &t);
        }
    }
    w.align();
    [&[0x78, 0x9c], &w.out[..], &deflate::adler32(d).to_be_bytes()].concat()
}

/// A section: name, contents; its offsets are set when it is placed.
type Section = (&'static str, Vec<u8>);

fn section_header(name: &str, at: u64, size: u64, last: Option<bool>) -> Vec<u8> {
    let mut h = vec![0u8; 76];
    h[..name.len()].copy_from_slice(name.as_bytes());
    match last {
        Some(sized) => {
            p64l(&mut h, 16, at);
            p64l(&mut h, 24, if sized { 76 } else { 0 });
        }
        None => {
            p64l(&mut h, 16, at + size);
            p64l(&mut h, 24, size);
        }
    }
    let a = deflate::adler32(&h[..72]);
    p32l(&mut h, 72, a);
    h
}

fn summed(mut d: Vec<u8>) -> Vec<u8> {
    let a = deflate::adler32(&d);
    d.extend(a.to_le_bytes());
    d
}

fn place(f: &mut Vec<u8>, s: &Section) {
    let h = section_header(s.0, f.len() as u64, 76 + s.1.len() as u64, None);
    f.extend(h);
    f.extend(&s.1);
}

const SET: [u8; 16] = [0x10, 0x32, 0x54, 0x76, 0x98, 0xba, 0xdc, 0xfe, 1, 2, 3, 4, 5, 6, 7, 8];

fn volume(kind: Kind, media_type: u8, chunks: u32, spc: u32, bps: u32, sectors: u64) -> Vec<u8> {
    let smart = kind == Kind::Smart;
    let mut v = vec![0u8; if smart { 90 } else { 1048 }];
    if smart {
        p32l(&mut v, 0, 1);
        v[85..90].copy_from_slice(b"SMART");
        p32l(&mut v, 16, sectors as u32);
    } else {
        v[0] = media_type;
        v[36] = 3;
        v[52] = 1;
        p64l(&mut v, 16, sectors);
        p32l(&mut v, 56, 64);
        v[64..80].copy_from_slice(&SET);
    }
    p32l(&mut v, 4, chunks);
    p32l(&mut v, 8, spc);
    p32l(&mut v, 12, bps);
    summed(v)
}

const HEADER: &[u8] = b"1\nmain\nc\tn\ta\te\tt\tav\tov\tm\tu\tp\tr\ncase\tevidence\tdescription\texaminer\tnotes\t1.2\tplatform\t2002 3 4 10 19 59\t2002 3 4 10 19 58\t0\tf\n\n";

fn name(segment: u32, smart: bool, lower: bool) -> String {
    let first = if smart { b'S' } else { b'E' };
    let e = if segment < 100 {
        format!("{}{segment:02}", first as char)
    } else {
        let k = segment - 100;
        let l = |x: u32| (b'A' + x as u8) as char;
        format!("{}{}{}", (first + (k / 676) as u8) as char, l(k / 26 % 26), l(k % 26))
    };
    format!("image.{}", if lower { e.to_lowercase() } else { e })
}

type FileMap = BTreeMap<String, Arc<Vec<u8>>>;

/// Extra sections of the first and of the last segment.
#[derive(Clone, Debug, Default)]
struct Extra {
    first: Vec<Section>,
    last: Vec<Section>,
    media_type: u8,
}

/// Where the bytes of chunks stored as they are lie: segment, offset, media offset, size.
type Raws = Vec<(usize, usize, usize, usize)>;

fn table(kind: Kind, base: u64, entries: &[u32]) -> Vec<u8> {
    let mut t = vec![0u8; 20];
    p32l(&mut t, 0, entries.len() as u32);
    p64l(&mut t, 8, base);
    let mut t = summed(t);
    let e: Vec<u8> = entries.iter().flat_map(|x| x.to_le_bytes()).collect();
    if kind == Kind::Smart {
        t.extend(e);
    } else {
        t.extend(summed(e));
    }
    t
}

fn build(s: &Image, x: &Extra, salt: u64) -> (FileMap, Vec<u8>, Raws) {
    let block = (s.spc * s.bps) as usize;
    let total: usize = s.segs.iter().flatten().map(|t| t.len()).sum();
    let size = s.sectors as usize * s.bps as usize;
    let mut media = vec![];
    let mut raws = vec![];
    let mut files = FileMap::new();
    for (sn, tables) in s.segs.iter().enumerate() {
        let mut f = b"EVF\x09\x0d\x0a\xff\x00\x01".to_vec();
        f.extend((sn as u16 + 1).to_le_bytes());
        f.extend([0, 0]);
        if sn == 0 {
            let h: Section = ("header", zlib(HEADER, C::Lits));
            let v = volume(s.kind, x.media_type, total as u32, s.spc, s.bps, s.sectors as u64);
            if x.first.is_empty() {
                place(&mut f, &h);
            }
            for e in &x.first {
                place(&mut f, e);
            }
            place(&mut f, &(if s.kind == Kind::Linen { "disk" } else { "volume" }, v));
        } else if s.kind == Kind::E01 {
            place(&mut f, &("data", volume(s.kind, x.media_type, total as u32, s.spc, s.bps, s.sectors as u64)));
        }
        for chunks in tables {
            let section = f.len() as u64;
            let inside = matches!(s.kind, Kind::EnCase1 | Kind::Smart);
            let head = if inside { 24 + 4 * chunks.len() + if s.kind == Kind::Smart { 0 } else { 4 } } else { 0 } + s.gap;
            let base = if s.kind == Kind::Linen { section + 60 } else { 0 };
            let mut data = vec![0xeeu8; head];
            let mut entries = vec![];
            for c in chunks {
                let k = media.len() / block;
                let d = if *c == C::Run { vec![(salt + k as u64) as u8; block] } else { pattern(block, salt * 1000 + k as u64) };
                let have = if s.partial && k + 1 == total { size - media.len() } else { block };
                let at = section + 76 + data.len() as u64;
                let compressed = *c != C::Raw || s.kind == Kind::Smart;
                entries.push((at - base) as u32 | if compressed { 1 << 31 } else { 0 });
                if compressed {
                    data.extend(zlib(&d[..have], if *c == C::Raw { C::Stored } else { *c }));
                } else {
                    raws.push((sn, at as usize, media.len(), have));
                    data.extend(summed(d[..have].to_vec()));
                }
                media.extend(d);
            }
            let t = table(s.kind, base, &entries);
            if inside {
                data[..t.len()].copy_from_slice(&t);
                place(&mut f, &("table", data));
            } else {
                place(&mut f, &("sectors", data));
                place(&mut f, &("table", t.clone()));
                if s.kind == Kind::E01 {
                    place(&mut f, &("table2", t));
                }
            }
        }
        let last = sn + 1 == s.segs.len();
        if last {
            for e in &x.last {
                place(&mut f, e);
            }
        }
        let h = section_header(if last { "done" } else { "next" }, f.len() as u64, 76, Some(s.sized));
        f.extend(h);
        files.insert(name(sn as u32 + 1, s.kind == Kind::Smart, s.lower), Arc::new(f));
    }
    media.truncate(size);
    (files, media, raws)
}

fn first(s: &Image) -> PathComponent {
    PathComponent::from(&name(1, s.kind == Kind::Smart, s.lower))
}

fn open_image(f: &FileMap, first: &PathComponent, fuse: Option<Arc<AtomicI64>>) -> Result<EwfImage, String> {
    let r = resolver_map(f, fuse);
    let mut u = EwfImage::new();
    u.open(&r, first).map_err(|e| format!("open: {}", err(e)))?;
    Ok(u)
}

fn open(f: &FileMap, first: &PathComponent, fuse: Option<Arc<AtomicI64>>) -> Result<DataStreamReference, String> {
    Ok(Arc::new(RwLock::new(open_image(f, first, fuse)?)))
}

fn image(s: &Image, b: &Bounds, salt: u64, faulty: bool, cov: &mut Cov) -> CaseResult {
    let fail = |m: String| Failure::new(format!("{s:?}"), m);
    let (f, m, _) = build(s, &Extra { media_type: 1, ..Extra::default() }, salt);
    let p = first(s);
    let block = s.spc as u64 * s.bps as u64;
    let mut edges: Vec<u64> = (0..m.len() as u64).step_by(block as usize).collect();
    if edges.len() > 12 {
        edges = edges.iter().copied().step_by(edges.len() / 12).chain(edges.last().copied()).collect();
    }
    edges.push(s.bps as u64);
    media(&|| open(&f, &p, None), &m, &edges, b, cov).map_err(fail)?;
    if faulty {
        let reads: Vec<(u64, usize)> = edges.iter().take(6).map(|e| (*e, 600)).collect();
        faults(&|u| open(&f, &p, u), &m, &reads, 40, cov).map_err(fail)?;
    }
    cov.state(&hash64(&s));
    Ok(())
}

/// One table per part of the composition, cut into segments at the bits of `cuts`.
fn split(chunks: &[C], parts: &[usize], cuts: u64) -> Vec<Vec<Vec<C>>> {
    let mut at = 0;
    let mut segs = vec![vec![]];
    for (k, p) in parts.iter().enumerate() {
        if k > 0 && cuts >> (k - 1) & 1 == 1 {
            segs.push(vec![]);
        }
        segs.last_mut().unwrap().push(chunks[at..at + *p].to_vec());
        at += *p;
    }
    segs
}

fn utf16(s: &str, order: u64) -> Vec<u8> {
    let mut o: Vec<u8> = match order {
        0 => vec![0xff, 0xfe],
        1 => vec![0xfe, 0xff],
        _ => vec![],
    };
    for u in s.encode_utf16() {
        o.extend(if order == 1 { u.to_be_bytes() } else { u.to_le_bytes() });
    }
    o
}

const VALUES: [(&str, EwfHeaderValueType); 15] = [
    ("c", EwfHeaderValueType::CaseNumber),
    ("n", EwfHeaderValueType::EvidenceNumber),
    ("a", EwfHeaderValueType::Description),
    ("e", EwfHeaderValueType::ExaminerName),
    ("t", EwfHeaderValueType::Notes),
    ("md", EwfHeaderValueType::Model),
    ("sn", EwfHeaderValueType::SerialNumber),
    ("l", EwfHeaderValueType::DeviceLabel),
    ("av", EwfHeaderValueType::Version),
    ("ov", EwfHeaderValueType::Platform),
    ("m", EwfHeaderValueType::AcquisitionDate),
    ("u", EwfHeaderValueType::SystemDate),
    ("p", EwfHeaderValueType::PasswordHash),
    ("pid", EwfHeaderValueType::ProcessIdentifier),
    ("r", EwfHeaderValueType::CompressionLevel),
];

pub fn main() {
    let mut c = Check::new("C25");
    c.assume("images are written by the builder in this harness from the description in docs/formats/src/ewf.md; the checksums of chunks that are stored as they are are not verified by the code (a TODO there), so damage to those bytes shows in the data");
    let quick = Bounds { chunks: vec![512, 700, 1 << 22], lens: vec![1, 513, 1100], depth: 0 };
    let one = |kind, chunks: &[C], partial, i: u64| Image { kind, spc: 2, bps: 512, sectors: chunks.len() as u32 * 2 - partial as u32, segs: vec![vec![chunks.to_vec()]], partial: i % 2 == 0 && partial, gap: (i % 3) as usize * 4, sized: i % 5 < 2, lower: i % 7 == 0 };
    let most = c.pick(5u32, 6);
    c.family("sequences of chunks", seq_count(4, most) * 4 * 2, |i, cov| {
        let mut d = Digits(i);
        let kind = *d.pick(&KINDS);
        let partial = d.take(2) == 1;
        let chunks: Vec<C> = seq_decode(4, d.0).iter().map(|k| CHUNKS[*k as usize]).collect();
        if chunks.is_empty() {
            return Ok(());
        }
        image(&one(kind, &chunks, partial, i), &quick, i, i % 16 == 0, cov)
    });
    let n = c.pick(6u32, 7);
    c.family("tables and segments", 4 << (2 * (n - 1)), |i, cov| {
        let mut d = Digits(i);
        let kind = *d.pick(&KINDS);
        let parts = composition(n as usize, d.take(1 << (n - 1)));
        let cuts = d.0;
        if cuts >> (parts.len() - 1) != 0 {
            return Ok(());
        }
        let chunks: Vec<C> = (0..n as u64).map(|k| CHUNKS[((i + k * 3) % 4) as usize]).collect();
        image(&Image { kind, spc: 1, bps: 512, sectors: n, segs: split(&chunks, &parts, cuts), partial: false, gap: 0, sized: i % 3 == 0, lower: i % 2 == 0 }, &quick, i, i % 8 == 0, cov)
    });
    // Names of segments, more segments than are kept open.
    let counts = c.pick(vec![15u32, 16, 17, 18, 33, 99, 100, 101, 125, 126, 127, 775, 776, 777, 1500], vec![15, 16, 17, 18, 31, 32, 33, 34, 65, 98, 99, 100, 101, 125, 126, 127, 150, 775, 776, 777, 800, 1451, 1452, 1500, 5507, 14295, 14971]);
    c.family("numbers of segments", counts.len() as u64 * 4, |i, cov| {
        let mut d = Digits(i);
        let kind = *d.pick(&[Kind::E01, Kind::Smart]);
        let lower = d.take(2) == 1;
        let n = *d.pick(&counts);
        if kind == Kind::Smart && n > 5507 {
            return Ok(());
        }
        let segs = (0..n).map(|k| vec![vec![CHUNKS[(k % 4) as usize]]]).collect();
        let b = if n < 200 { Bounds { chunks: vec![512, 1 << 22], lens: vec![1, 1100], depth: 0 } } else { Bounds { chunks: vec![4096], lens: vec![1100], depth: 0 } };
        if n > 2000 {
            let s = Image { kind, spc: 1, bps: 512, sectors: n, segs, partial: false, gap: 0, sized: true, lower };
            let (f, m, _) = build(&s, &Extra { media_type: 1, ..Extra::default() }, i);
            let st = open(&f, &first(&s), None).map_err(|e| Failure::new(format!("{n} segments"), e))?;
            for at in (0..m.len() as u64).step_by(512 * 97).chain([0, m.len() as u64 - 100]) {
                window(&st, &m, at, 600, cov).map_err(|e| Failure::new(format!("{n} segments"), e))?;
            }
            return Ok(());
        }
        image(&Image { kind, spc: 1, bps: 512, sectors: n, segs, partial: false, gap: 0, sized: true, lower }, &b, i, false, cov)
    });
    // Sizes of sectors and chunks.
    let spcs: Vec<u32> = c.pick(vec![1, 2, 3, 7, 64], vec![1, 2, 3, 4, 5, 7, 16, 63, 64, 65, 128]);
    let bpss: Vec<u32> = c.pick(vec![1, 16, 512, 2048], vec![1, 3, 16, 511, 512, 1024, 2048, 4096]);
    c.family("sizes of sectors and chunks", (spcs.len() * bpss.len() * 4 * 3) as u64, |i, cov| {
        let mut d = Digits(i);
        let spc = *d.pick(&spcs);
        let bps = *d.pick(&bpss);
        let kind = *d.pick(&KINDS);
        let chunks = [1u32, 3, 5][d.take(3) as usize];
        if spc as u64 * bps as u64 > 70000 && kind != Kind::E01 {
            return Ok(());
        }
        for tail in [0, 1, spc - 1] {
            let ch: Vec<C> = (0..chunks as u64).map(|k| CHUNKS[((i / 5 + k) % 4) as usize]).collect();
            let big = spc * bps > 4096;
            let b = Bounds { chunks: vec![if big { 40000 } else { 700 }], lens: vec![1, if big { 70000 } else { 1100 }], depth: 0 };
            image(&Image { kind, spc, bps, sectors: chunks * spc - tail.min(spc - 1), segs: vec![vec![ch]], partial: i % 2 == 0, gap: 0, sized: true, lower: false }, &b, i, false, cov)?;
        }
        Ok(())
    });
    // Many chunks: more than are kept unpacked, more than a node of the block tree.
    let many = c.pick(vec![63u32, 64, 65, 66, 130, 300], vec![63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300, 1000, 4097]);
    c.family("numbers of chunks", many.len() as u64 * 4 * 2, |i, cov| {
        let mut d = Digits(i);
        let kind = *d.pick(&KINDS);
        let spc = *d.pick(&[1u32, 4]);
        let n = *d.pick(&many);
        let ch: Vec<C> = (0..n as u64).map(|k| CHUNKS[((i / 3 + k * k) % 4) as usize]).collect();
        image(&Image { kind, spc, bps: 64, sectors: n * spc, segs: vec![vec![ch]], partial: false, gap: 0, sized: true, lower: false }, &Bounds { chunks: vec![4096, 100], lens: vec![1, 400], depth: 0 }, i, false, cov)
    });
    let deep = Bounds { chunks: vec![700], lens: vec![2, 1100], depth: c.pick(2, 3) };
    c.family("histories", 4, |i, cov| {
        let segs = [vec![vec![vec![C::Raw, C::Lits], vec![C::Stored]]], vec![vec![vec![C::Lits]], vec![vec![C::Lits, C::Raw]]], vec![vec![vec![C::Raw]], vec![vec![C::Raw]], vec![vec![C::Lits]]], vec![vec![vec![C::Stored], vec![C::Run], vec![C::Stored]]]][i as usize].clone();
        image(&Image { kind: KINDS[i as usize], spc: 2, bps: 512, sectors: 5, segs, partial: true, gap: 0, sized: false, lower: false }, &deep, i, true, cov)
    });
    c.family("protocol", 2, |i, cov| {
        let s = Image { kind: KINDS[i as usize], spc: 1, bps: 512, sectors: 3, segs: vec![vec![vec![C::Raw, C::Lits]], vec![vec![C::Stored]]], partial: false, gap: 0, sized: true, lower: false };
        let (f, m, _) = build(&s, &Extra { media_type: 1, ..Extra::default() }, i);
        let p = first(&s);
        protocol(&|| open(&f, &p, None), &m, &[512], 2, cov).map_err(|e| Failure::new(format!("protocol {i}"), e))
    });
    // Segment files above 2 GiB: offsets relative to the base, and offsets that use all bits.
    c.family("large segment files", 4 * 2, |i, cov| {
        let mut d = Digits(i);
        let how = d.take(4);
        let table2 = d.take(2) == 1;
        let block: u64 = 1 << 20;
        let chunks: u64 = 2100 + i;
        let mut f = Segs::default();
        let mut h = b"EVF\x09\x0d\x0a\xff\x00\x01\x01\x00\x00\x00".to_vec();
        place(&mut h, &("header", zlib(HEADER, C::Lits)));
        place(&mut h, &("volume", volume(Kind::E01, 1, chunks as u32, 2048, 512, chunks * 2048)));
        let start = h.len() as u64;
        // The chunks: stored ones of the block size, or (for base offsets) compressed ones where the end is known.
        let mut media = Segs { size: chunks * block, ..Default::default() };
        let base: u64 = match how {
            0 => 0,
            1 => start,
            2 => start,
            _ => 0,
        };
        let mut at = start + 76;
        if how == 2 {
            // A sectors section that starts above 4 GiB.
            let skip = 5u64 << 30;
            let s = section_header("other", start, skip, None);
            f.put(start, s);
            at += skip;
        }
        let sectors = at - 76;
        let base = if how == 2 { sectors } else { base };
        let mut entries = vec![];
        let mut edges = vec![];
        for k in 0..chunks {
            let x = pattern(1024, k);
            let offset = at - base;
            let compressed = (k % 5 == 1 || how >= 1) && offset < (1 << 31) && (how == 3 || k % 2 == 1);
            let keep = k < 3 || k + 3 > chunks || (offset as i64 - (1i64 << 31)).abs() < 3 << 20;
            if compressed {
                let mut data = pattern(1024, k);
                data.resize(block as usize, 7);
                let z = if keep { zlib(&data, C::Stored) } else { vec![0u8; 100] };
                entries.push(offset as u32 | 1 << 31);
                if keep {
                    media.put(k * block, data);
                    f.put(at, z.clone());
                }
                at += z.len().max(block as usize) as u64;
            } else {
                entries.push(offset as u32);
                f.put(at, x.clone());
                media.put(k * block, x);
                at += block + 4;
            }
            if keep {
                edges.push(k * block);
            }
        }
        f.put(sectors, section_header("sectors", sectors, at - sectors, None));
        let mut t = vec![];
        let tb = table(Kind::E01, base, &entries);
        t.extend(section_header("table", at, 76 + tb.len() as u64, None));
        t.extend(&tb);
        if table2 {
            t.extend(section_header("table2", at + t.len() as u64, 76 + tb.len() as u64, None));
            t.extend(&tb);
        }
        t.extend(section_header("done", at + t.len() as u64, 76, Some(true)));
        f.put(0, h);
        f.size = at + t.len() as u64;
        f.put(at, t);
        let files: BTreeMap<String, Arc<Segs>> = [("image.E01".to_string(), Arc::new(f))].into();
        let open = || -> Result<DataStreamReference, String> {
            let mut u = EwfImage::new();
            u.open(&sparse_resolver(&files, None), &PathComponent::from("image.E01")).map_err(|e| format!("open: {}", err(e)))?;
            Ok(Arc::new(RwLock::new(u)))
        };
        let b = Bounds { chunks: vec![], lens: vec![1, 1100], depth: 0 };
        let st = open().map_err(|e| Failure::new(format!("large {how}"), e))?;
        let size = st.write().unwrap().get_size().map_err(|e| Failure::new("large".to_string(), err(e)))?;
        if size != media.size {
            return Err(Failure::new(format!("large {how}"), format!("media size {size}")));
        }
        for e in edges {
            for l in &b.lens {
                window_f(&st, media.size, &|at, b| media.fill(at, b), e, *l, cov).map_err(|m| Failure::new(format!("large {how}"), m))?;
                // The end of the chunk, but not of one whose neighbour has no data.
                if e + block < media.size && media_has(&media, e + block) {
                    window_f(&st, media.size, &|at, b| media.fill(at, b), e + block - 1, *l, cov).map_err(|m| Failure::new(format!("large {how}"), m))?;
                }
            }
        }
        Ok(())
    });
    // More sectors than 32 bits count: chunks without data but for the last ones.
    c.family("large media", 3, |i, cov| {
        let (spc, bps) = [(32768u32, 512u32), (32768, 512), (32768, 64)][i as usize];
        let sectors: u64 = [(1u64 << 32) - 3, (1 << 32) + 5, (1 << 33) + 1][i as usize];
        let block = spc as u64 * bps as u64;
        let chunks = sectors.div_ceil(spc as u64);
        let mut f = b"EVF\x09\x0d\x0a\xff\x00\x01\x01\x00\x00\x00".to_vec();
        place(&mut f, &("volume", volume(Kind::E01, 1, chunks as u32, spc, bps, sectors)));
        let mut done = 0;
        while done < chunks {
            let n = (chunks - done).min(60000);
            let section = f.len() as u64;
            let mut data = vec![];
            let mut e = vec![];
            for k in 0..n {
                e.push((section + 76 + data.len() as u64) as u32 | 1 << 31);
                if done + k == 0 || done + k + 1 == chunks {
                    data.extend(zlib(&vec![(k % 251) as u8; block as usize], C::Run));
                } else {
                    data.push(0);
                }
            }
            place(&mut f, &("sectors", data));
            place(&mut f, &("table", table(Kind::E01, 0, &e)));
            done += n;
        }
        let last = ((chunks - 1) % 60000 % 251) as u8;
        let at = f.len() as u64;
        f.extend(section_header("done", at, 76, Some(true)));
        let files: FileMap = [("image.E01".to_string(), Arc::new(f))].into();
        let size = sectors * bps as u64;
        let fail = |m: String| Failure::new(format!("{sectors} sectors of {bps}"), m);
        let st = open(&files, &PathComponent::from("image.E01"), None).map_err(fail)?;
        let got = st.write().unwrap().get_size().map_err(|e| fail(err(e)))?;
        if got != size {
            return Err(fail(format!("media size {got}")));
        }
        let fill = |at: u64, b: &mut [u8]| for (k, x) in b.iter_mut().enumerate() {
            *x = if at + k as u64 >= (chunks - 1) * block { last } else { 0 };
        };
        for (at, n) in [(0u64, 60usize), (size - 1, 10), (size - 60, 60), ((chunks - 1) * block, 100), (size, 5)] {
            window_f(&st, size, &fill, at, n, cov).map_err(fail)?;
        }
        Ok(())
    });
    // What the image says about itself.
    let texts = ["", "x", "some text", "\u{e9}\u{20ac}\u{1f600}", "x x  x"];
    c.family("header values", 15 * 15 * 3 * 2 * 5 * 2, |i, cov| {
        let mut d = Digits(i);
        let (a, b) = (d.take(15) as usize, d.take(15) as usize);
        let order = d.take(3);
        let eol = *d.pick(&["\n", "\r\n"]);
        let text = *d.pick(&texts);
        let wide = d.take(2) == 1;
        if a == b || !wide && (order != 2 || !text.is_ascii()) {
            return Ok(());
        }
        let value = |k: usize, w: bool| -> String {
            if matches!(VALUES[k].0, "m" | "u") { if w { "1142163845".into() } else { "2006 3 12 11 44 5".into() } } else { format!("{text}{k}") }
        };
        let shown = |k: usize, w: bool| -> String { if matches!(VALUES[k].0, "m" | "u") && w { "2006-03-12T11:44:05".into() } else { value(k, w) } };
        let make = |ks: &[usize], w: bool, tail: &str| {
            let ids: Vec<&str> = ks.iter().map(|k| VALUES[*k].0).chain(["zz"]).collect();
            let vs: Vec<String> = ks.iter().map(|k| value(*k, w)).chain(["other".to_string()]).collect();
            format!("{}{eol}main{eol}{}{eol}{}{tail}", 1 + 2 * (i % 2), ids.join("\t"), vs.join("\t"))
        };
        let tail = match i % 3 {
            0 => format!("{eol}{eol}"),
            1 => eol.to_string(),
            _ => String::new(),
        };
        // Two values, in the header2 section or in the header section; the first section that has a value counts.
        let t = make(&[a, b], wide, &tail);
        let mut sections: Vec<Section> = vec![if wide { ("header2", zlib(&utf16(&t, order), C::Lits)) } else { ("header", zlib(t.as_bytes(), C::Lits)) }];
        let third = (a + b + 1) % 15;
        let other = format!("1{eol}main{eol}{}{eol}second{tail}", VALUES[third].0);
        sections.push(("header", zlib(other.as_bytes(), C::Stored)));
        let s = one(Kind::E01, &[C::Raw], false, i);
        let (f, _, _) = build(&s, &Extra { first: sections, ..Default::default() }, i);
        let fail = |m: String| Failure::new(format!("values {} {} {t:?}", VALUES[a].0, VALUES[b].0), m);
        cov.trace();
        cov.state(&hash64(&t));
        let u = guarded(|| open_image(&f, &first(&s), None)).unwrap_or_else(Err).map_err(fail)?;
        let mut no_notes = false;
        for (k, (id, ty)) in VALUES.iter().enumerate() {
            let got = u.get_header_value(ty).map(|v| v.to_string());
            let want = if k == a || k == b { Some(shown(k, wide)) } else if k == third { Some("second".to_string()) } else { None };
            let want = if k == third && k != a && k != b && matches!(*id, "m" | "u") { got.clone() } else { want };
            if got != want {
                if *id == "t" && wide && (got.is_none() || k == third && got.as_deref() == Some("second")) {
                    no_notes = true;
                    continue;
                }
                return Err(fail(format!("value {id}: {got:?}, expected {want:?}")));
            }
        }
        cov.outcome(&(a, b, text));
        if no_notes {
            return Err(Failure::new("notes of header2 are not read", "the value t of a header2 section is missing"));
        }
        Ok(())
    });
    // Long values pack well.
    let sizes = c.pick(vec![1usize, 40, 300, 3000, 20000, 200000], vec![1, 2, 40, 100, 300, 1000, 3000, 10000, 20000, 65536, 200000, 1 << 20]);
    c.family("long header values", sizes.len() as u64 * 2 * 2, |i, cov| {
        let mut d = Digits(i);
        let n = *d.pick(&sizes);
        let wide = d.take(2) == 1;
        let runs = d.take(2) == 1;
        let v: String = if runs { "n".repeat(n) } else { (0..n).map(|k| (b'a' + (k % 23) as u8) as char).collect() };
        let t = format!("1\nmain\na\n{v}\n\n");
        let raw = if wide { utf16(&t, 0) } else { t.into_bytes() };
        // Literals up to the value, then matches with the distance the value repeats at.
        let dist = if runs { 1 } else { 23 } * if wide { 2 } else { 1 };
        let mut toks = vec![];
        let mut k = 0;
        while k < raw.len() {
            let mut l = 0;
            while k >= dist && l < 258 && k + l < raw.len() && raw[k + l] == raw[k + l - dist] {
                l += 1;
            }
            if l >= 3 {
                toks.push(deflate::Tok::Match(l, dist));
                k += l;
            } else {
                toks.push(deflate::Tok::Lit(raw[k]));
                k += 1;
            }
        }
        let mut w = LsbWriter::default();
        deflate::fixed(&mut w, true, &toks);
        w.align();
        let z = [&[0x78, 0x9c], &w.out[..], &deflate::adler32(&raw).to_be_bytes()].concat();
        let s = one(Kind::E01, &[C::Raw], false, i);
        let (f, _, _) = build(&s, &Extra { first: vec![(if wide { "header2" } else { "header" }, z)], ..Default::default() }, i);
        cov.trace();
        let u = guarded(|| open_image(&f, &first(&s), None)).unwrap_or_else(Err).map_err(|e| Failure::new(format!("description of {n}, {wide} {runs}"), e))?;
        let got = u.get_header_value(&EwfHeaderValueType::Description).map(|v| v.to_string());
        cov.outcome(&(n, wide, runs));
        if got.as_deref() != Some(v.as_str()) {
            return Err(Failure::new(format!("description of {n}, {wide} {runs}"), format!("value of {:?} bytes", got.map(|x| x.len()))));
        }
        Ok(())
    });
    let stamps = ["0", "1", "2147483647", "2147483648", "4294967295", "99999999999", "12a", "", "-1", "000000000000000000001"];
    c.family("header2 times", stamps.len() as u64, |i, cov| {
        cov.trace();
        let t = format!("3\nmain\nm\tc\n{}\tcase\n\n", stamps[i as usize]);
        let s = one(Kind::E01, &[C::Raw], false, i);
        let (f, _, _) = build(&s, &Extra { first: vec![("header2", zlib(&utf16(&t, 0), C::Lits))], ..Default::default() }, i);
        let fail = |m: String| Failure::new(format!("time {}", stamps[i as usize]), m);
        let u = guarded(|| open_image(&f, &first(&s), None)).unwrap_or_else(Err).map_err(fail)?;
        let got = u.get_header_value(&EwfHeaderValueType::AcquisitionDate).map(|v| v.to_string());
        let want = match i {
            0 => Some("1970-01-01T00:00:00"),
            1 => Some("1970-01-01T00:00:01"),
            2 => Some("2038-01-19T03:14:07"),
            _ => None,
        };
        if i < 3 && got.as_deref() != want || u.get_header_value(&EwfHeaderValueType::CaseNumber).map(|v| v.to_string()) != Some("case".into()) {
            return Err(fail(format!("{got:?}")));
        }
        Ok(())
    });
    c.family("hashes and kinds of media", 6 * 4 * 4, |i, cov| {
        let mut d = Digits(i);
        let mt = *d.pick(&[0u8, 1, 3, 0x0e, 0x10, 0x77]);
        let hash = d.take(2) == 1;
        let digest = d.take(2) == 1;
        let errors = d.take(4);
        let md5: Vec<u8> = pattern(16, i + 1);
        let sha1: Vec<u8> = pattern(20, i + 2);
        let mut last: Vec<Section> = vec![];
        if digest {
            last.push(("digest", summed([&md5[..], &sha1, &[0; 40]].concat())));
        }
        if hash {
            last.push(("hash", summed([&md5[..], &[9; 16]].concat())));
        }
        if errors > 0 {
            let n = errors as u32 - 1;
            let mut e = vec![0u8; 516];
            p32l(&mut e, 0, n);
            let mut e = summed(e);
            let entries: Vec<u8> = (0..n * 2).flat_map(|k| k.to_le_bytes()).collect();
            e.extend(summed(entries));
            last.push(("errors2", e));
            last.push(("error2", vec![1, 2, 3]));
        }
        let s = one(Kind::E01, &[C::Raw, C::Lits], false, i);
        let (f, m, _) = build(&s, &Extra { last, media_type: mt, ..Default::default() }, i);
        let fail = |m: String| Failure::new(format!("{mt} hash {hash} digest {digest} errors {errors}"), m);
        cov.trace();
        let u = guarded(|| open_image(&f, &first(&s), None)).unwrap_or_else(Err).map_err(fail)?;
        let want = match mt {
            0 => EwfMediaType::RemoveableDisk,
            1 => EwfMediaType::FixedDisk,
            3 => EwfMediaType::OpticalDisk,
            0x0e => EwfMediaType::LogicalEvidence,
            0x10 => EwfMediaType::Memory,
            _ => EwfMediaType::Unknown,
        };
        let wm = if hash || digest { md5 } else { vec![0; 16] };
        let ws = if digest { sha1 } else { vec![0; 20] };
        if u.media_type != want || u.md5_hash[..] != wm || u.sha1_hash[..] != ws {
            return Err(fail("media type or hashes".into()));
        }
        if u.media_size != m.len() as u64 || u.sectors_per_chunk != 2 || u.bytes_per_sector != 512 || u.number_of_sectors as u64 != 4 || u.error_granularity != 64 {
            return Err(fail("sizes".into()));
        }
        if u.set_identifier.to_string() != "76543210-ba98-fedc-0102-030405060708" {
            return Err(fail(format!("set identifier {}", u.set_identifier.to_string())));
        }
        cov.outcome(&(mt, hash, digest));
        Ok(())
    });

    // Damage. Every byte of the files, changed: what is read is right, or there is an error; only the data of chunks
    // stored as they are may differ, in that byte.
    let bases: Vec<Image> = KINDS
        .iter()
        .map(|k| Image { kind: *k, spc: 1, bps: 64, sectors: 5, segs: vec![vec![vec![C::Raw, C::Lits]], vec![vec![C::Stored], vec![C::Run, C::Raw]]], partial: false, gap: 0, sized: true, lower: false })
        .collect();
    let built: Vec<(FileMap, Vec<u8>, Raws)> = bases.iter().map(|s| build(s, &Extra { media_type: 1, ..Default::default() }, 5)).collect();
    let longest = built.iter().flat_map(|b| b.0.values().map(|f| f.len())).max().unwrap() as u64;
    let check = |files: &FileMap, p: &PathComponent, m: &[u8], cov: &mut Cov| -> Result<(), String> {
        cov.trace();
        guarded(|| {
            if let Ok(s) = open(files, p, None) {
                let size = s.write().unwrap().get_size().unwrap_or(0);
                if size != m.len() as u64 {
                    return Err(format!("media size {size}"));
                }
                for at in (0..m.len() as u64).step_by(64) {
                    right_or_less(&s, m, at, 64, cov)?;
                }
                right_or_less(&s, m, 0, m.len(), cov)?;
                right_or_less(&s, m, 100, 150, cov)?;
            }
            Ok(())
        })
        .unwrap_or_else(|p| Err(p))
    };
    let flips: Vec<u8> = c.pick(vec![0x01, 0x80, 0xff], vec![0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff, 0x55]);
    c.family("bytes that changed", 4 * 2 * flips.len() as u64 * longest, |i, cov| {
        let mut d = Digits(i);
        let k = d.take(4) as usize;
        let sn = d.take(2) as usize;
        let x = *d.pick(&flips);
        let at = d.0 as usize;
        let (f, m, raws) = &built[k];
        let n = name(sn as u32 + 1, bases[k].kind == Kind::Smart, false);
        let mut data = f[&n].as_ref().clone();
        if at >= data.len() {
            return Ok(());
        }
        if bases[k].kind == Kind::Smart && is_entry(&data, at) {
            return Ok(());
        }
        data[at] ^= x;
        let mut m = m.clone();
        for (rs, ro, rm, rl) in raws {
            if *rs == sn && at >= *ro && at < ro + rl {
                m[rm + at - ro] ^= x;
            }
        }
        let mut f = f.clone();
        f.insert(n, Arc::new(data));
        // A last segment that says it is not, and the other way around, have fewer or other segments.
        check(&f, &first(&bases[k]), &m, cov).map_err(|e| Failure::new(format!("{:?} segment {sn} byte {at} ^ {x:#x}", bases[k].kind), e))
    });
    c.family("segments that end early", 4 * 2 * longest, |i, cov| {
        let mut d = Digits(i);
        let k = d.take(4) as usize;
        let sn = d.take(2) as usize;
        let (f, m, _) = &built[k];
        let n = name(sn as u32 + 1, bases[k].kind == Kind::Smart, false);
        let mut data = f[&n].as_ref().clone();
        if d.0 as usize >= data.len() {
            return Ok(());
        }
        data.truncate(d.0 as usize);
        let mut f = f.clone();
        f.insert(n, Arc::new(data));
        check(&f, &first(&bases[k]), m, cov).map_err(|e| Failure::new(format!("{:?} segment {sn} ends at {}", bases[k].kind, d.0), e))
    });
    // Values of fields, with the checksums made right.
    let values: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 7, 13, 24, 63, 64, 65, 76, 100, 512, 1000, 65534, 65536, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 31) + 100, u32::MAX - 63, u32::MAX - 1, u32::MAX];
    let nv = values.len() as u64;
    let free = |files: &FileMap, p: &PathComponent, cov: &mut Cov| -> Result<(), String> {
        cov.trace();
        guarded(|| {
            let mut n = 0u64;
            if let Ok(s) = open(files, p, None) {
                let size = s.write().unwrap().get_size().unwrap_or(0);
                let mut b = [0; 300];
                for at in [0u64, 50, 64, 200, 300, size.saturating_sub(1), size, u64::MAX] {
                    n += 1 + s.write().unwrap().read_at_position_any(&mut b, at) as u64;
                }
            }
            n
        })
        .map(|n| cov.outcome(&n))
    };
    c.family("fields of the volume", 4 * 5 * 5 * nv * nv, |i, cov| {
        let mut d = Digits(i);
        let kind = *d.pick(&KINDS);
        let (a, b) = (d.take(5) as usize, d.take(5) as usize);
        let (v, w) = (*d.pick(&values), *d.pick(&values));
        if a >= b && !(a == b && v == w) {
            return Ok(());
        }
        let mut s = bases[KINDS.iter().position(|k| *k == kind).unwrap()].clone();
        s.segs.truncate(1);
        let smart = kind == Kind::Smart;
        let (f, _, _) = build(&Image { segs: vec![vec![vec![C::Raw, C::Lits, C::Stored, C::Run, C::Raw]]], ..s.clone() }, &Extra { media_type: 1, ..Default::default() }, 5);
        let n = name(1, smart, false);
        let mut data = f[&n].as_ref().clone();
        let at = 13 + 76 + zlib(HEADER, C::Lits).len() + 76;
        let end = at + if smart { 90 } else { 1048 };
        p32l(&mut data, at + 4 + 4 * a, v);
        p32l(&mut data, at + 4 + 4 * b, w);
        let sum = deflate::adler32(&data[at..end]);
        p32l(&mut data, end, sum);
        let f: FileMap = [(n, Arc::new(data))].into();
        free(&f, &first(&s), cov).map_err(|e| Failure::new(format!("{kind:?} volume fields {a} {b} are {v} {w}"), e))
    });
    // Tables: every pair of entries and fields.
    c.family("fields of tables", 4 * 7 * 7 * nv * nv, |i, cov| {
        let mut d = Digits(i);
        let k = d.take(4) as usize;
        let (a, b) = (d.take(7), d.take(7));
        let (v, w) = (*d.pick(&values), *d.pick(&values));
        if a >= b && !(a == b && v == w) {
            return Ok(());
        }
        let s = Image { segs: vec![vec![vec![C::Raw, C::Lits, C::Stored, C::Run]]], sectors: 4, ..bases[k].clone() };
        let (f, _, _) = build(&s, &Extra { media_type: 1, ..Default::default() }, 5);
        let n = name(1, s.kind == Kind::Smart, false);
        let mut data = f[&n].as_ref().clone();
        let at = (0..data.len() - 16).find(|p| data[*p..].starts_with(b"table\0\0\0\0\0\0\0\0\0\0\0")).unwrap() + 76;
        for (field, v) in [(a, v), (b, w)] {
            let o = match field {
                0 => 0,
                1 => 8,
                2 => 12,
                e => 24 + 4 * (e as usize - 3),
            };
            p32l(&mut data, at + o, v);
        }
        let sum = deflate::adler32(&data[at..at + 20]);
        p32l(&mut data, at + 20, sum);
        if s.kind != Kind::Smart {
            let sum = deflate::adler32(&data[at + 24..at + 40]);
            p32l(&mut data, at + 40, sum);
        }
        let f: FileMap = [(n, Arc::new(data))].into();
        free(&f, &first(&s), cov).map_err(|e| Failure::new(format!("{:?} table fields {a} {b} are {v} {w}", s.kind), e))
    });
    // Section headers: every section, next offset and size.
    c.family("fields of section headers", 4 * 16 * nv * nv, |i, cov| {
        let mut d = Digits(i);
        let k = d.take(4) as usize;
        let which = d.take(16) as usize;
        let (v, w) = (*d.pick(&values), *d.pick(&values));
        let (f, _, _) = &built[k];
        let n = name(1 + which as u32 / 8, bases[k].kind == Kind::Smart, false);
        let mut data = f[&n].as_ref().clone();
        let mut at = 13usize;
        for _ in 0..which % 8 {
            let next = u64::from_le_bytes(data[at + 16..at + 24].try_into().unwrap()) as usize;
            if next <= at || next >= data.len() {
                return Ok(());
            }
            at = next;
        }
        let old = u64::from_le_bytes(data[at + 16..at + 24].try_into().unwrap());
        let wide = |v: u32| if v > 1 << 31 { (v as i32) as i64 as u64 } else { v as u64 };
        p64l(&mut data, at + 16, if v == 512 { old } else { wide(v) });
        p64l(&mut data, at + 24, wide(w));
        let sum = deflate::adler32(&data[at..at + 72]);
        p32l(&mut data, at + 72, sum);
        let mut f = f.clone();
        f.insert(n, Arc::new(data));
        free(&f, &first(&bases[k]), cov).map_err(|e| Failure::new(format!("{:?} section {which} next {v} size {w}", bases[k].kind), e))
    });
    // Contents of sections cut or replaced, with right offsets and checksums of the headers.
    let kinds = ["header", "header2", "volume", "disk", "data", "table", "table2", "hash", "digest", "error2", "errors2", "sectors", "next", "done", "xhash"];
    let fills = c.pick(600u64, 1200);
    c.family("contents of sections", kinds.len() as u64 * fills * 2, |i, cov| {
        let mut d = Digits(i);
        let kind = *d.pick(&kinds);
        let n = d.take(fills) as usize;
        let full = match kind {
            "header" => zlib(HEADER, C::Lits),
            "header2" => zlib(&utf16(std::str::from_utf8(HEADER).unwrap(), 0), C::Lits),
            "volume" | "disk" | "data" => volume(Kind::E01, 1, 1, 1, 64, 1),
            "errors2" => {
                let mut e = vec![0u8; 516];
                p32l(&mut e, 0, 3);
                [summed(e), summed(vec![7; 24])].concat()
            }
            "table" | "table2" => table(Kind::E01, 0, &[100, 200, 300]),
            _ => vec![0; 2000],
        };
        let mut data = full[..n.min(full.len())].to_vec();
        if d.0 == 1 {
            data.resize(n, 0);
        }
        let s = one(Kind::E01, &[C::Raw], false, i);
        let (f, _, _) = build(&s, &Extra { last: vec![(kind, data)], ..Default::default() }, i);
        free(&f, &first(&s), cov).map_err(|e| Failure::new(format!("a section {kind} of {n}, {}", d.0), e))
    });
    c.family("counts of errors", nv * 6, |i, cov| {
        let mut d = Digits(i);
        let v = *d.pick(&values);
        let size = [0usize, 4, 12, 516, 520, 528][d.take(6) as usize];
        let mut e = vec![0u8; 516];
        p32l(&mut e, 0, v);
        let mut e = summed(e);
        e.resize(size + 8, 0);
        let s = one(Kind::E01, &[C::Raw], false, i);
        let (f, _, _) = build(&s, &Extra { last: vec![("errors2", e)], ..Default::default() }, i);
        free(&f, &first(&s), cov).map_err(|e| Failure::new(format!("{v} errors in {size}"), e))
    });
    // Chunks whose data is short.
    c.family("chunks that are short", 4 * 64, |i, cov| {
        let mut d = Digits(i);
        let how = CHUNKS[d.take(4) as usize];
        let n = d.0 as usize;
        if how == C::Raw && n >= 60 {
            // Its checksum, which is not verified, makes it long enough.
            return Ok(());
        }
        let m = pattern(128, 3);
        let mut f = b"EVF\x09\x0d\x0a\xff\x00\x01\x01\x00\x00\x00".to_vec();
        place(&mut f, &("volume", volume(Kind::E01, 1, 2, 1, 64, 2)));
        let at = f.len() as u32 + 76;
        let run = vec![m[0]; n];
        let m = if how == C::Run { vec![m[0]; 128] } else { m };
        let a = if how == C::Raw { summed(m[..n].to_vec()) } else if how == C::Run { zlib(&run, how) } else { zlib(&m[..n], how) };
        let z = zlib(&m[64..128], C::Lits);
        let bit = if how == C::Raw { 0 } else { 1 << 31 };
        place(&mut f, &("sectors", [&a[..], &z].concat()));
        place(&mut f, &("table", table(Kind::E01, 0, &[at | bit, (at + a.len() as u32) | 1 << 31])));
        let end = f.len() as u64;
        f.extend(section_header("done", end, 76, Some(true)));
        let f: FileMap = [("image.E01".to_string(), Arc::new(f))].into();
        check(&f, &PathComponent::from("image.E01"), &m, cov).map_err(|e| Failure::new(format!("{how:?} chunk of {n}"), e))
    });
    // What is refused, or named.
    c.family("sets of files", 12, |i, cov| {
        cov.trace();
        let s = Image { kind: Kind::E01, spc: 1, bps: 512, sectors: 3, segs: vec![vec![vec![C::Raw]], vec![vec![C::Lits]], vec![vec![C::Raw]]], partial: false, gap: 0, sized: true, lower: false };
        let (mut f, _, _) = build(&s, &Extra::default(), i);
        let mut p = first(&s);
        let n = |k: u32| name(k, false, false);
        let mut what = "";
        match i {
            0 => {
                f.remove(&n(2));
                what = "a missing segment";
            }
            1 => {
                let x = f[&n(3)].clone();
                f.insert(n(2), x);
                what = "a segment in the place of another";
            }
            2 => {
                let mut x = f[&n(3)].as_ref().clone();
                x[9] = 2;
                f.insert(n(3), Arc::new(x));
                what = "a wrong segment number";
            }
            3 => {
                p = PathComponent::from("image.E02");
                what = "the second segment";
            }
            4 => {
                p = PathComponent::from("image.raw");
                what = "another extension";
            }
            5 => {
                p = PathComponent::from("image");
                what = "no extension";
            }
            6 => {
                p = PathComponent::from("image.e01");
                what = "other case";
            }
            7 => {
                f.remove(&n(3));
                what = "a missing last segment";
            }
            8 => {
                let other = Image { sectors: 6, segs: vec![vec![vec![C::Raw]]; 6], ..s.clone() };
                let (g, _, _) = build(&other, &Extra { media_type: 1, ..Default::default() }, i);
                let mut x = g[&n(2)].as_ref().clone();
                // Another set identifier in its data section.
                let at = 13 + 76;
                x[at + 64] ^= 1;
                let sum = deflate::adler32(&x[at..at + 1048]);
                p32l(&mut x, at + 1048, sum);
                f.insert(n(2), Arc::new(x));
                what = "a segment of another set";
            }
            // Names with more dots, and no name, are fine.
            9 | 10 => {
                let stem = if i == 9 { "a.b..c" } else { "E01" };
                let g: FileMap = f.iter().map(|(k, v)| (k.replace("image", stem), v.clone())).collect();
                let st = guarded(|| open(&g, &PathComponent::from(format!("{stem}.E01").as_str()), None)).unwrap_or_else(Err);
                return st.map(|_| ()).map_err(|e| Failure::new(format!("name {stem}"), e));
            }
            _ => {
                let mut x = f[&n(3)].as_ref().clone();
                x.push(0);
                f.insert(n(3), Arc::new(x));
                what = "trailing data";
            }
        }
        match guarded(|| open(&f, &p, None)) {
            Err(p) => Err(Failure::new(what.to_string(), p)),
            Ok(Ok(_)) => Err(Failure::new(what.to_string(), "is accepted".to_string())),
            Ok(Err(_)) => Ok(()),
        }
    });
    c.finish()
}

/// Whether a byte is one of a table entry.
fn is_entry(data: &[u8], at: usize) -> bool {
    let tables = (0..data.len() - 16).filter(|p| data[*p..].starts_with(b"table\0\0\0\0\0\0\0\0\0\0\0")).map(|p| p + 76);
    tables.into_iter().any(|t| at >= t + 24 && at < t + 24 + 4 * u32::from_le_bytes(data[t..t + 4].try_into().unwrap()) as usize)
}

fn media_has(m: &Segs, at: u64) -> bool {
    let mut b = [0u8; 4];
    m.fill(at, &mut b);
    b != [0; 4]
}
