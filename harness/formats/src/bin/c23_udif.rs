// C23: UDIF images.
use keramics_core::{DataStream, DataStreamReference};
use keramics_formats::udif::UdifFile;
use mc_comp::{LsbWriter, bz, deflate, lzfse};
use mc_engine::util::{Digits, hash64, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::sync::atomic::AtomicI64;
use std::sync::{Arc, RwLock};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Method {
    Adc,
    Zlib,
    Bzip2,
    Lzfse,
}
const METHODS: [Method; 4] = [Method::Adc, Method::Zlib, Method::Bzip2, Method::Lzfse];

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Kind {
    /// Entry type 0.
    Zero,
    /// Entry type 2.
    Free,
    Raw,
    Comp,
    /// Compressed, stored behind all others.
    Late,
    /// The same data in the file as the last compressed entry of that size.
    Again,
}

#[derive(Clone, Debug, Hash)]
struct Spec {
    method: Method,
    /// Entries of the tables: kind and number of sectors.
    tables: Vec<Vec<(Kind, u64)>>,
    /// Offset of the data fork.
    fork: u64,
    /// Data offset of sparse entries: 0 the start of the fork, 1 where data was last written, 2 the end of the fork.
    sparse_at: u8,
    /// Comments before entries; entries behind the terminator.
    extras: bool,
    /// Width of the lines of base64, with or without white space.
    wrap: usize,
    /// The plist comes before the data fork.
    plist_first: bool,
}

fn base64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            s.push(if k <= c.len() { A[(v >> (18 - 6 * k)) as usize & 63] as char } else { '=' });
        }
    }
    s
}

fn compress(m: Method, d: &[u8], how: u64) -> Vec<u8> {
    match m {
        Method::Adc => {
            let mut o = vec![];
            for c in d.chunks(128) {
                o.push(0x80 | (c.len() - 1) as u8);
                o.extend(c);
            }
            o
        }
        Method::Zlib => {
            let mut w = LsbWriter::default();
            if how % 2 == 0 {
                let n = d.chunks(60000).count();
                for (k, c) in d.chunks(60000).enumerate() {
                    deflate::stored(&mut w, k + 1 == n, c);
                }
            } else {
                let t: Vec<deflate::Tok> = d.iter().map(|b| deflate::Tok::Lit(*b)).collect();
                deflate::fixed(&mut w, true, &t);
            }
            w.align();
            [&[0x78, 0x9c], &w.out[..], &deflate::adler32(d).to_be_bytes()].concat()
        }
        Method::Bzip2 => {
            let b: Vec<&[u8]> = d.chunks(if how % 2 == 0 { 90000 } else { 300 }).collect();
            bz::stream(1 + (how % 9) as u8, &b, &bz::Opts::plain())
        }
        Method::Lzfse => {
            let parts: Vec<&[u8]> = d.chunks(if how % 2 == 0 { 1 << 20 } else { 300 }).collect();
            [parts.iter().map(|p| lzfse::stored(p)).collect::<Vec<_>>().concat(), b"bvx$".to_vec()].concat()
        }
    }
}

fn entry(t: u32, start: u64, n: u64, at: u64, size: u64) -> Vec<u8> {
    let mut e = vec![0u8; 40];
    p32b(&mut e, 0, t);
    p64b(&mut e, 8, start);
    p64b(&mut e, 16, n);
    p64b(&mut e, 24, at);
    p64b(&mut e, 32, size);
    e
}

fn table(start: u64, sectors: u64, entries: &[Vec<u8>]) -> Vec<u8> {
    let mut t = vec![0u8; 204];
    t[..4].copy_from_slice(b"mish");
    p32b(&mut t, 4, 1);
    p64b(&mut t, 8, start);
    p64b(&mut t, 16, sectors);
    p32b(&mut t, 32, 520);
    p32b(&mut t, 36, entries.len() as u32);
    p32b(&mut t, 64, 2);
    p32b(&mut t, 68, 32);
    p32b(&mut t, 200, entries.len() as u32);
    for e in entries {
        t.extend(e);
    }
    t
}

fn plist(tables: &[Vec<u8>], wrap: usize) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\">\n<plist version=\"1.0\">\n<dict>\n\t<key>resource-fork</key>\n\t<dict>\n\t\t<key>blkx</key>\n\t\t<array>\n");
    for (k, t) in tables.iter().enumerate() {
        let b = base64(t);
        let data = if wrap == 0 {
            b
        } else {
            let l: Vec<String> = b.as_bytes().chunks(wrap).map(|c| format!("\t\t\t\t{}\n", String::from_utf8_lossy(c))).collect();
            format!("\n{}\t\t\t\t", l.concat())
        };
        s += &format!("\t\t\t<dict>\n\t\t\t\t<key>Attributes</key>\n\t\t\t\t<string>0x0050</string>\n\t\t\t\t<key>CFName</key>\n\t\t\t\t<string>part {k}</string>\n\t\t\t\t<key>Data</key>\n\t\t\t\t<data>{data}</data>\n\t\t\t\t<key>ID</key>\n\t\t\t\t<string>{}</string>\n\t\t\t\t<key>Name</key>\n\t\t\t\t<string>part {k}</string>\n\t\t\t</dict>\n", k as i64 - 1);
    }
    s + "\t\t</array>\n\t\t<key>plst</key>\n\t\t<array>\n\t\t</array>\n\t</dict>\n</dict>\n</plist>\n"
}

fn footer(fork: (u64, u64), plist: (u64, u64), sectors: u64) -> Vec<u8> {
    let mut f = vec![0u8; 512];
    f[..4].copy_from_slice(b"koly");
    p32b(&mut f, 4, 4);
    p32b(&mut f, 8, 512);
    p32b(&mut f, 12, 1);
    p64b(&mut f, 24, fork.0);
    p64b(&mut f, 32, fork.1);
    p32b(&mut f, 56, 1);
    p32b(&mut f, 60, 1);
    p64b(&mut f, 216, plist.0);
    p64b(&mut f, 224, plist.1);
    p32b(&mut f, 488, 1);
    p64b(&mut f, 492, sectors);
    f
}

struct Built {
    file: Vec<u8>,
    media: Vec<u8>,
    edges: Vec<u64>,
    /// Where the tables are, and the footer.
    tables: Vec<Vec<u8>>,
    fork: (u64, u64),
}

fn build(s: &Spec, salt: u64) -> Built {
    let mut media = vec![];
    let mut edges = vec![];
    let mut f = vec![0xeeu8; s.fork as usize];
    let all: Vec<(Kind, u64)> = s.tables.concat();
    let mut stored: Vec<(u64, u64)> = vec![(0, 0); all.len()];
    let mut contents: Vec<Vec<u8>> = vec![];
    for (k, (kind, n)) in all.iter().enumerate() {
        let size = (*n * 512) as usize;
        contents.push(match kind {
            Kind::Zero | Kind::Free => vec![0; size],
            Kind::Again => (0..k).rev().find(|j| matches!(all[*j].0, Kind::Comp | Kind::Late) && all[*j].1 == *n).map(|j| contents[j].clone()).unwrap_or_else(|| pattern(size, salt + k as u64)),
            _ => pattern(size, salt + k as u64),
        });
    }
    let mut order: Vec<usize> = (0..all.len()).filter(|k| all[*k].0 != Kind::Late).collect();
    order.extend((0..all.len()).rev().filter(|k| all[*k].0 == Kind::Late));
    let mut put = |k: usize, f: &mut Vec<u8>| {
        if stored[k].1 != 0 {
            return stored[k];
        }
        let enc = if all[k].0 == Kind::Raw { contents[k].clone() } else { compress(s.method, &contents[k], salt + k as u64) };
        stored[k] = (f.len() as u64, enc.len() as u64);
        f.extend(&enc);
        stored[k]
    };
    let mut at_of = vec![(0u64, 0u64); all.len()];
    for k in order {
        at_of[k] = match all[k].0 {
            Kind::Zero | Kind::Free => (f.len() as u64, 0),
            Kind::Again => match (0..k).rev().find(|j| matches!(all[*j].0, Kind::Comp | Kind::Late) && all[*j].1 == all[k].1) {
                Some(j) => put(j, &mut f),
                None => put(k, &mut f),
            },
            _ => put(k, &mut f),
        };
    }
    let end = f.len() as u64;
    let mut tables = vec![];
    let (mut sector, mut k) = (0u64, 0usize);
    for t in &s.tables {
        let start = sector;
        let mut e = vec![];
        for (j, (kind, n)) in t.iter().enumerate() {
            if s.extras && j % 2 == 1 {
                e.push(entry(0x7ffffffe, 0x1234, 0, 0, 0));
            }
            edges.push(sector * 512);
            let (at, size) = at_of[k];
            let ty = match kind {
                Kind::Zero => 0,
                Kind::Free => 2,
                Kind::Raw => 1,
                _ => 0x80000004 + s.method as u32,
            };
            let at = if size == 0 { [s.fork, at, end][s.sparse_at as usize] } else { at };
            e.push(entry(ty, sector - start, *n, at, size));
            media.extend(&contents[k]);
            sector += n;
            k += 1;
        }
        e.push(entry(0xffffffff, sector - start, 0, end, 0));
        if s.extras {
            e.push(entry(7, 99, 99, 99, 99));
        }
        tables.push(table(start, sector - start, &e));
    }
    let b = finish(f, s.fork, &tables, s.wrap, s.plist_first, sector);
    Built { file: b, media, edges, tables, fork: (s.fork, end - s.fork) }
}

fn finish(mut f: Vec<u8>, fork: u64, tables: &[Vec<u8>], wrap: usize, first: bool, sectors: u64) -> Vec<u8> {
    let end = f.len() as u64;
    let p = plist(tables, wrap);
    let at = if first && (p.len() as u64) <= fork {
        f[..p.len()].copy_from_slice(p.as_bytes());
        0
    } else {
        f.extend(p.as_bytes());
        end
    };
    f.extend(footer((fork, end - fork), (at, p.len() as u64), sectors));
    f
}

fn open(f: &Arc<Vec<u8>>, fuse: Option<Arc<AtomicI64>>) -> Result<DataStreamReference, String> {
    let mut u = UdifFile::new();
    let s = match &fuse {
        Some(x) => mem_fuse(f, x),
        None => mem(f),
    };
    u.read_data_stream(&s).map_err(|e| format!("open: {}", err(e)))?;
    Ok(Arc::new(RwLock::new(u)))
}

fn image(s: &Spec, b: &Bounds, salt: u64, faulty: bool, cov: &mut Cov) -> CaseResult {
    let fail = |m: String| Failure::new(format!("{s:?}"), m);
    let x = build(s, salt);
    let f = Arc::new(x.file);
    media(&|| open(&f, None), &x.media, &x.edges, b, cov).map_err(fail)?;
    if faulty {
        let reads: Vec<(u64, usize)> = x.edges.iter().map(|e| (*e, 600)).collect();
        faults(&|u| open(&f, u), &x.media, &reads, 40, cov).map_err(fail)?;
    }
    cov.state(&hash64(&s));
    Ok(())
}

fn spec(method: Method, tables: Vec<Vec<(Kind, u64)>>) -> Spec {
    Spec { method, tables, fork: 0, sparse_at: 1, extras: false, wrap: 52, plist_first: false }
}

pub fn main() {
    let mut c = Check::new("C23");
    c.assume("images are written by the builder in this harness from the description of the format in docs/formats/src/udif.md; property lists of more than 64 KiB, which the code refuses, are left out");
    let quick = Bounds { chunks: vec![512, 700, 1 << 22], lens: vec![1, 513, 1100], depth: 0 };
    let kinds = [Kind::Zero, Kind::Free, Kind::Raw, Kind::Comp, Kind::Late, Kind::Again];
    let depth = c.pick(3, 5);
    // Every sequence of kinds of entries, in one table or each in its own.
    c.family("sequences of entries", seq_count(6, depth) * 4 * 3, |i, cov| {
        let mut d = Digits(i);
        let m = *d.pick(&METHODS);
        let split = d.take(3);
        let e: Vec<(Kind, u64)> = seq_decode(6, d.0).into_iter().enumerate().map(|(k, x)| (kinds[x as usize], [1u64, 2, 1, 3, 1][(k + i as usize / 7) % 5])).collect();
        let tables = match split {
            0 => vec![e],
            1 => e.into_iter().map(|x| vec![x]).collect(),
            _ => {
                let (a, b) = e.split_at(e.len() / 2);
                vec![vec![], a.to_vec(), vec![], b.to_vec()]
            }
        };
        let mut s = spec(m, tables);
        s.sparse_at = (i % 3) as u8;
        s.extras = i % 2 == 1;
        s.fork = [0u64, 512, 77][(i / 3 % 3) as usize];
        s.wrap = [52usize, 0, 1, 76][(i % 4) as usize];
        image(&s, &quick, i, i % 8 == 0, cov)
    });
    // Sizes of entries and tables: pairs of ranges with the number of sectors around powers of two and of the map's node.
    let sizes: Vec<u64> = c.pick(vec![1, 2, 5, 16, 33, 255, 2047, 2048], vec![1, 2, 3, 5, 16, 33, 64, 127, 255, 256, 512, 1023, 2047, 2048]);
    let n = sizes.len() as u64;
    c.family("sizes of entries", n * n * 4 * 4, |i, cov| {
        let mut d = Digits(i);
        let m = *d.pick(&METHODS);
        let k = *d.pick(&[(Kind::Comp, Kind::Comp), (Kind::Raw, Kind::Comp), (Kind::Comp, Kind::Free), (Kind::Zero, Kind::Raw)]);
        let (a, b) = (*d.pick(&sizes), *d.pick(&sizes));
        if m == Method::Bzip2 && a + b > 600 || m != Method::Adc && a + b > 2100 {
            return Ok(());
        }
        image(&spec(m, vec![vec![(k.0, a), (k.1, b)]]), &Bounds { chunks: vec![4096, 1 << 22], ..quick.clone() }, i, false, cov)
    });
    // Large sparse and raw ranges: not limited to 2048 sectors.
    let big: Vec<u64> = vec![2049, 4096, 16383, 16384, 16385, 20000, 32768, 40000];
    c.family("large ranges", 8 * 3 * 3, |i, cov| {
        let mut d = Digits(i);
        let n = *d.pick(&big);
        let k = *d.pick(&[Kind::Free, Kind::Raw, Kind::Zero]);
        let before = *d.pick(&[0u64, 1, 500]);
        let mut e = vec![(k, n), (Kind::Comp, 3), (Kind::Free, 16384), (Kind::Raw, 1)];
        if before > 0 {
            e.insert(0, (Kind::Comp, before));
        }
        image(&spec(Method::Zlib, vec![e]), &Bounds { chunks: vec![1 << 20], lens: vec![1, 1100], depth: 0 }, i, false, cov)
    });
    // The cache of decompressed ranges holds 64.
    c.family("more ranges than the cache holds", 4 * 4, |i, cov| {
        let mut d = Digits(i);
        let m = *d.pick(&METHODS);
        let count = *d.pick(&[63usize, 64, 65, 130]);
        let e: Vec<(Kind, u64)> = (0..count).map(|k| (if k % 9 == 8 { Kind::Again } else { Kind::Comp }, 1 + (k % 3) as u64 / 2)).collect();
        image(&spec(m, vec![e]), &Bounds { chunks: vec![512, 1 << 20], lens: vec![1, 1100], depth: 0 }, i, false, cov)
    });
    // Histories of reads, and the protocol of the stream.
    let deep = Bounds { chunks: vec![700], lens: vec![2, 1100], depth: c.pick(2, 3) };
    c.family("histories", 8, |i, cov| {
        let m = METHODS[(i % 4) as usize];
        let t = if i < 4 { vec![vec![(Kind::Comp, 2), (Kind::Raw, 1), (Kind::Late, 2)]] } else { vec![vec![(Kind::Late, 1), (Kind::Again, 1)], vec![(Kind::Free, 1), (Kind::Comp, 1)]] };
        image(&spec(m, t), &deep, i, true, cov)
    });
    c.family("protocol", 2, |i, cov| {
        let t = if i == 0 { vec![vec![(Kind::Comp, 1), (Kind::Raw, 1)]] } else { vec![vec![(Kind::Free, 1), (Kind::Comp, 2)]] };
        let x = build(&spec(Method::Zlib, t), i);
        let f = Arc::new(x.file);
        protocol(&|| open(&f, None), &x.media, &[511, 512], 2, cov).map_err(|e| Failure::new(format!("protocol {i}"), e))
    });
    // Images without property list: the data fork is the media.
    c.family("uncompressed images", 7 * 4, |i, cov| {
        let mut d = Digits(i);
        let size = *d.pick(&[0usize, 1, 511, 512, 513, 1300, 70000]);
        let fork = *d.pick(&[0u64, 1, 512, 700]);
        let m = pattern(size, i);
        let mut f = vec![0xee; fork as usize];
        f.extend(&m);
        f.extend(footer((fork, size as u64), (0, 0), size as u64 / 512));
        let f = Arc::new(f);
        media(&|| open(&f, None), &m, &[512, 65536], &Bounds { depth: 2, ..quick.clone() }, cov).map_err(|e| Failure::new(format!("uncompressed {i}"), e))?;
        if size == 1300 {
            protocol(&|| open(&f, None), &m, &[512], 2, cov).map_err(|e| Failure::new(format!("uncompressed {i}"), e))?;
            faults(&|u| open(&f, u), &m, &[(0, 600), (600, 700)], 10, cov).map_err(|e| Failure::new(format!("uncompressed {i}"), e))?;
        }
        Ok(())
    });
    // Malformed files: an answer, never a panic; and never data where none was stored.
    let base = spec(Method::Zlib, vec![vec![(Kind::Comp, 2), (Kind::Free, 1)], vec![(Kind::Raw, 1), (Kind::Comp, 1)]]);
    let x = build(&base, 5);
    let answer = |f: Vec<u8>, cov: &mut Cov| -> Result<u64, String> {
        cov.trace();
        let f = Arc::new(f);
        guarded(|| {
            let mut u = UdifFile::new();
            if u.read_data_stream(&mem(&f)).is_err() {
                return 0;
            }
            let mut ok = 1;
            let size = u.get_size().unwrap_or(0);
            let mut b = [0; 900];
            for at in [0u64, 512, 1000, 1200, 1800, 2300, size.saturating_sub(1), size, u64::MAX] {
                ok += u.read_at_position_any(&mut b, at) as u64;
            }
            ok
        })
    };
    let nt: Vec<usize> = x.tables.iter().map(|t| t.len()).collect();
    let values: Vec<u64> = vec![0, 1, 2, 3, 4, 5, 6, 511, 512, 1024, 2048, 2049, 0x7ffffffe, 0x7fffffff, 0x80000003, 0x80000004, 0x80000005, 0x80000008, 0x80000009, 0xffffffff, 1 << 32, 1 << 40, u64::MAX / 512, u64::MAX / 512 + 1, i64::MAX as u64, 1 << 63, u64::MAX - 512, u64::MAX];
    let nv = values.len() as u64;
    // Every field of the tables, and every pair of the fields of an entry, at the edges.
    let places: Vec<(usize, usize, usize)> = (0..2).flat_map(|t| {
        let mut v = vec![(t, 4usize, 4usize), (t, 8, 8), (t, 16, 8), (t, 24, 8), (t, 36, 4), (t, 200, 4)];
        for e in 0..(nt[t] - 204) / 40 {
            let o = 204 + 40 * e;
            v.extend([(t, o, 4), (t, o + 8, 8), (t, o + 16, 8), (t, o + 24, 8), (t, o + 32, 8)]);
        }
        v
    }).collect();
    let np = places.len() as u64;
    let data_end = (x.fork.0 + x.fork.1) as usize;
    let file = x.file.clone();
    let tables = x.tables.clone();
    let set = |t: &mut Vec<Vec<u8>>, p: (usize, usize, usize), v: u64| {
        if p.2 == 4 { p32b(&mut t[p.0], p.1, v as u32) } else { p64b(&mut t[p.0], p.1, v) }
    };
    c.family("fields of the tables", np * nv * np * nv, |i, cov| {
        let mut d = Digits(i);
        let (a, v) = (*d.pick(&places), *d.pick(&values));
        let (b, w) = (*d.pick(&places), *d.pick(&values));
        let thin = !(v > 1 << 40 || [0, 1, 0x80000005].contains(&v)) || !(w > 1 << 40 || [0, 1, 2, 0x80000005].contains(&w));
        if a > b || a == b && v != w || (a != b && thin) {
            return Ok(());
        }
        let mut t = tables.clone();
        set(&mut t, a, v);
        set(&mut t, b, w);
        let f = finish(file[..data_end].to_vec(), 0, &t, 0, false, 5);
        let n = answer(f, cov).map_err(|p| Failure::new(format!("table {a:?} is {v}, {b:?} is {w}"), p))?;
        cov.outcome(&n);
        Ok(())
    });
    let foot: Vec<(usize, usize)> = vec![(4, 4), (8, 4), (24, 8), (32, 8), (40, 8), (48, 8), (216, 8), (224, 8), (492, 8)];
    c.family("fields of the footer", 9 * nv * 9 * nv, |i, cov| {
        let mut d = Digits(i);
        let (a, v) = (*d.pick(&foot), *d.pick(&values));
        let (b, w) = (*d.pick(&foot), *d.pick(&values));
        let mut f = file.clone();
        let o = f.len() - 512;
        for (p, v) in [(a, v), (b, w)] {
            if p.1 == 4 { p32b(&mut f, o + p.0, v as u32) } else { p64b(&mut f, o + p.0, v) }
        }
        let n = answer(f, cov).map_err(|p| Failure::new(format!("footer {a:?} is {v}, {b:?} is {w}"), p))?;
        cov.outcome(&n);
        Ok(())
    });
    c.family("files that end early", file.len() as u64, |i, cov| {
        let mut f = file[..i as usize].to_vec();
        answer(f.clone(), cov).map_err(|p| Failure::new(format!("ends at {i}"), p))?;
        // With the footer kept.
        f.extend(&file[file.len() - 512..]);
        answer(f, cov).map_err(|p| Failure::new(format!("data ends at {i}"), p))?;
        Ok(())
    });
    // Ranges that do not hold what they should: an error, and no made up data.
    c.family("compressed ranges that end early", 4 * 64, |i, cov| {
        cov.trace();
        let mut d = Digits(i);
        let m = *d.pick(&METHODS);
        let x = build(&spec(m, vec![vec![(Kind::Comp, 1), (Kind::Raw, 1)]]), i);
        let mut t = x.tables.clone();
        let (how, k) = (d.take(2), d.take(32));
        if how == 0 {
            // Compressed data cut.
            let n = u64::from_be_bytes(t[0][204 + 32..][..8].try_into().unwrap());
            if m == Method::Lzfse && k < 4 || m == Method::Zlib && k < 5 || m == Method::Bzip2 && k < 10 {
                return Ok(());
            }
            p64b(&mut t[0], 204 + 32, n * k / 32);
        } else {
            // More sectors than the data holds.
            p64b(&mut t[0], 204 + 16, 2 + k);
            p64b(&mut t[0], 204 + 40 + 8, 2 + k);
        }
        let n = x.fork.1 as usize;
        let f = Arc::new(finish(x.file[..n].to_vec(), 0, &t, 0, false, 5));
        let key = format!("{m:?} {how} {k}");
        let r = guarded(|| -> Result<(), String> {
            let s = open(&f, None)?;
            let mut b = vec![0u8; if how == 0 { 512 } else { 1024 }];
            match s.write().unwrap().read_at_position(&mut b, std::io::SeekFrom::Start(0)) {
                Ok(n) if n > 0 => Err(format!("a range that is incomplete was read as {n} bytes")),
                _ => Ok(()),
            }
        });
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) if e.starts_with("open") => Ok(()),
            Ok(Err(e)) => Err(Failure::new(key, e)),
            Err(p) => Err(Failure::new(key, p)),
        }
    });
    // Two ranges of different sizes that name the same data: only the one it belongs to can be read.
    c.family("ranges that share data", 4 * 2 * 2, |i, cov| {
        cov.trace();
        let mut d = Digits(i);
        let m = *d.pick(&METHODS);
        let (first, order) = (d.take(2), d.take(2));
        let x = build(&spec(m, vec![vec![(Kind::Comp, 1 + first), (Kind::Comp, 2 - first)]]), i);
        let mut t = x.tables.clone();
        let own = t[0][204 + 24..204 + 40].to_vec();
        t[0][204 + 64..204 + 80].copy_from_slice(&own);
        let f = Arc::new(finish(x.file[..x.fork.1 as usize].to_vec(), 0, &t, 0, false, 3));
        let key = format!("{m:?} {first} {order}");
        let r = guarded(|| -> Result<(), String> {
            let s = open(&f, None)?;
            for k in 0..3 {
                if (k + order) % 2 == 0 {
                    window(&s, &x.media[..512 * (1 + first) as usize], 0, 512, cov)?;
                } else {
                    let mut b = vec![0u8; 512];
                    if let Ok(n @ 1..) = s.write().unwrap().read_at_position(&mut b, std::io::SeekFrom::Start(512 * (1 + first))) {
                        // Data that is longer than the range may be cut.
                        if first == 0 || b[..n] != x.media[..n] {
                            return Err(format!("a range that has no data of its size was read as {n} bytes"));
                        }
                    }
                }
            }
            Ok(())
        });
        r.unwrap_or_else(|p| Err(p)).map_err(|e| Failure::new(key, e))
    });
    // Refused: ranges that leave gaps or overlap, mixed methods, unknown types, more compressed sectors than allowed.
    c.family("refused", 8, |i, cov| {
        cov.trace();
        let mut t = tables.clone();
        match i {
            0 => p64b(&mut t[1], 8, 4),
            1 => p64b(&mut t[1], 8, 2),
            2 => p64b(&mut t[0], 204 + 40 + 8, 1),
            3 => p64b(&mut t[0], 204 + 40 + 8, 3),
            4 => p32b(&mut t[1], 204 + 40, 0x80000006),
            5 => p32b(&mut t[1], 204 + 40, 0x80000009),
            6 => p32b(&mut t[0], 204 + 40, 3),
            _ => t[0][0] = b'x',
        }
        let f = finish(file[..data_end].to_vec(), 0, &t, 52, false, 5);
        match answer(f, cov) {
            Ok(0) => Ok(()),
            Ok(_) => Err(Failure::new(format!("refused {i}"), "was accepted")),
            Err(p) => Err(Failure::new(format!("refused {i}"), p)),
        }
    });
    c.finish()
}
