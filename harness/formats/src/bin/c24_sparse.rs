// C24: sparse images and sparse bundles.
use keramics_core::DataStreamReference;
use keramics_formats::sparsebundle::SparseBundleImage;
use keramics_formats::sparseimage::SparseImageFile;
use mc_engine::util::{Digits, hash64, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::collections::BTreeMap;
use std::sync::atomic::AtomicI64;
use std::sync::{Arc, RwLock};

/// A sparse image: the bands in the order they are stored, 0 for none.
#[derive(Clone, Debug, Hash)]
struct Image {
    per_band: u32,
    sectors: u32,
    slots: Vec<u32>,
    /// The file ends where the media does when the last band of the media is stored last.
    cut: bool,
    /// Bytes behind the array.
    fill: u8,
}

fn header(per_band: u32, sectors: u32) -> Vec<u8> {
    let mut h = vec![0u8; 4096];
    h[..4].copy_from_slice(b"sprs");
    p32b(&mut h, 4, 3);
    p32b(&mut h, 8, per_band);
    p32b(&mut h, 12, 1);
    p32b(&mut h, 16, sectors);
    h
}

fn build(s: &Image, salt: u64) -> (Vec<u8>, Vec<u8>) {
    let band = s.per_band as usize * 512;
    let n = s.sectors.div_ceil(s.per_band) as usize;
    let mut media = vec![0u8; n * band];
    let mut f = header(s.per_band, s.sectors);
    f[64 + 4 * n..4096].fill(s.fill);
    let used = s.slots.iter().rposition(|x| *x != 0).map(|k| k + 1).unwrap_or(0);
    for (k, b) in s.slots.iter().take(n).enumerate() {
        p32b(&mut f, 64 + 4 * k, *b);
        if k >= used {
            continue;
        }
        let d = pattern(band, salt + *b as u64);
        f.extend(&d);
        if *b != 0 {
            media[(*b - 1) as usize * band..][..band].copy_from_slice(&d);
        }
    }
    let size = s.sectors as usize * 512;
    if s.cut && used > 0 && s.slots[used - 1] as usize == n {
        f.truncate(f.len() - (n * band - size));
    }
    media.truncate(size);
    (f, media)
}

fn open_image(f: &Arc<Vec<u8>>, fuse: Option<Arc<AtomicI64>>) -> Result<DataStreamReference, String> {
    let mut u = SparseImageFile::new();
    let s = match &fuse {
        Some(x) => mem_fuse(f, x),
        None => mem(f),
    };
    u.read_data_stream(&s).map_err(|e| format!("open: {}", err(e)))?;
    Ok(Arc::new(RwLock::new(u)))
}

fn image(s: &Image, b: &Bounds, salt: u64, faulty: bool, cov: &mut Cov) -> CaseResult {
    let fail = |m: String| Failure::new(format!("{s:?}"), m);
    let (f, m) = build(s, salt);
    let f = Arc::new(f);
    let band = s.per_band as u64 * 512;
    let mut edges: Vec<u64> = (0..m.len() as u64).step_by(band as usize).collect();
    if edges.len() > 12 {
        edges = edges.iter().copied().step_by(edges.len() / 12).chain(edges.last().copied()).collect();
    }
    edges.push(512);
    media(&|| open_image(&f, None), &m, &edges, b, cov).map_err(fail)?;
    if faulty {
        let reads: Vec<(u64, usize)> = edges.iter().map(|e| (*e, 600)).collect();
        faults(&|u| open_image(&f, u), &m, &reads, 20, cov).map_err(fail)?;
    }
    cov.state(&hash64(&s));
    Ok(())
}

/// All ways to store the bands: every permutation of every selection, with and without gaps.
fn arrangements(n: usize) -> Vec<Vec<u32>> {
    fn go(n: usize, cur: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for b in 0..=n as u32 {
            if b != 0 && cur.contains(&b) {
                continue;
            }
            cur.push(b);
            go(n, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}

#[derive(Clone, Debug, Hash)]
struct Bundle {
    band: u64,
    size: u64,
    /// Sizes of the band files, None for one that does not exist.
    bands: Vec<Option<u64>>,
}

fn info(band: &str, size: &str, version: &str, kind: &str, order: u64) -> String {
    let mut keys = vec![
        format!("\t<key>CFBundleInfoDictionaryVersion</key>\n\t<string>{version}</string>\n"),
        format!("\t<key>band-size</key>\n\t<integer>{band}</integer>\n"),
        "\t<key>bundle-backingstore-version</key>\n\t<integer>1</integer>\n".to_string(),
        format!("\t<key>diskimage-bundle-type</key>\n\t<string>{kind}</string>\n"),
        format!("\t<key>size</key>\n\t<integer>{size}</integer>\n"),
    ];
    keys.rotate_left((order % 5) as usize);
    if order / 5 % 2 == 1 {
        keys.reverse();
    }
    format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\">\n<plist version=\"1.0\">\n<dict>\n{}</dict>\n</plist>\n", keys.concat())
}

const KIND: &str = "com.apple.diskimage.sparsebundle";
type FileMap = BTreeMap<String, Arc<Vec<u8>>>;

fn bundle_files(s: &Bundle, salt: u64) -> (FileMap, Vec<u8>) {
    let mut files = FileMap::new();
    files.insert("Info.plist".into(), Arc::new(info(&s.band.to_string(), &s.size.to_string(), "6.0", KIND, salt).into_bytes()));
    files.insert("token".into(), Arc::new(vec![]));
    let mut m = vec![0u8; s.bands.len() * s.band as usize];
    for (k, b) in s.bands.iter().enumerate() {
        if let Some(n) = b {
            let d = pattern(*n as usize, salt + k as u64);
            let c = d.len().min(s.band as usize);
            m[k * s.band as usize..][..c].copy_from_slice(&d[..c]);
            files.insert(format!("bands/{k:x}"), Arc::new(d));
        }
    }
    // Names that are not those of bands.
    files.insert("bands/A".into(), Arc::new(vec![0xee; s.band as usize]));
    files.insert("bands/00".into(), Arc::new(vec![0xee; s.band as usize]));
    m.truncate(s.size as usize);
    (files, m)
}

fn open_bundle(f: &FileMap, fuse: Option<Arc<AtomicI64>>) -> Result<DataStreamReference, String> {
    let r = resolver_map(f, fuse);
    let mut u = SparseBundleImage::new();
    u.open(&r).map_err(|e| format!("open: {}", err(e)))?;
    Ok(Arc::new(RwLock::new(u)))
}

fn bundle(s: &Bundle, b: &Bounds, salt: u64, faulty: bool, cov: &mut Cov) -> CaseResult {
    let fail = |m: String| Failure::new(format!("{s:?}"), m);
    let (f, m) = bundle_files(s, salt);
    let mut edges: Vec<u64> = (0..s.bands.len() as u64).map(|k| k * s.band).collect();
    if edges.len() > 12 {
        edges = edges.iter().copied().step_by(edges.len() / 12).chain(edges.last().copied()).collect();
    }
    for (k, x) in s.bands.iter().enumerate().take(4) {
        edges.extend(x.map(|x| k as u64 * s.band + x).filter(|e| *e < s.size));
    }
    edges.sort();
    edges.dedup();
    media(&|| open_bundle(&f, None), &m, &edges, b, cov).map_err(fail)?;
    if faulty {
        let reads: Vec<(u64, usize)> = edges.iter().map(|e| (*e, 600)).collect();
        faults(&|u| open_bundle(&f, u), &m, &reads, 20, cov).map_err(fail)?;
    }
    cov.state(&hash64(&s));
    Ok(())
}

pub fn main() {
    let mut c = Check::new("C24");
    c.assume("images are written by the builder in this harness from the descriptions in docs/formats/src/sparseimage.md and sparsebundle.md; a band file that does not exist or is shorter than a band holds zeros there");
    let quick = Bounds { chunks: vec![512, 700, 1 << 22], lens: vec![1, 513, 1100], depth: 0 };
    // Every arrangement of bands.
    let most = c.pick(4usize, 5);
    for n in 0..=most {
        let all = arrangements(n);
        c.family(&format!("arrangements of {n} bands"), all.len() as u64 * 3 * 2, |i, cov| {
            let mut d = Digits(i);
            let per_band = *d.pick(&[1u32, 2, 3]);
            let tail = d.take(2) as u32;
            if tail >= per_band || tail > 0 && n == 0 {
                return Ok(());
            }
            let slots = all[d.0 as usize].clone();
            image(&Image { per_band, sectors: n as u32 * per_band - tail, slots, cut: i % 2 == 0, fill: if i % 3 == 0 { 0 } else { 0xff } }, &quick, i, i % 16 == 0, cov)
        });
    }
    // Sizes of bands and numbers of bands, up to the array being full.
    let per: Vec<u32> = c.pick(vec![1, 2, 3, 7, 16, 100], vec![1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 64, 100, 255, 256]);
    let counts = [1u32, 2, 3, 4, 5, 9, 17, 100, 255, 256, 257, 1007, 1008];
    c.family("sizes and numbers of bands", (per.len() * counts.len() * 4) as u64, |i, cov| {
        let mut d = Digits(i);
        let per_band = *d.pick(&per);
        let n = *d.pick(&counts);
        let how = d.take(4);
        if per_band as u64 * n as u64 > 40000 {
            return Ok(());
        }
        let slots: Vec<u32> = match how {
            0 => (1..=n).collect(),
            1 => (1..=n).rev().collect(),
            2 => (0..n).map(|k| if k % 3 == 1 { 0 } else { n - k }).collect(),
            _ => (0..n).map(|k| if k == 0 { n } else { 0 }).collect(),
        };
        image(&Image { per_band, sectors: n * per_band - (per_band - 1) * (i % 2) as u32, slots, cut: true, fill: 0 }, &Bounds { chunks: vec![8192], lens: vec![1, 1100], depth: 0 }, i, false, cov)
    });
    // Large bands, over sparse data.
    c.family("large bands", 5 * 3, |i, cov| {
        let mut d = Digits(i);
        let per_band = *d.pick(&[2048u32, 16384, 65536, 1 << 20, 8388607]);
        let n = *d.pick(&[1u32, 3, 500]);
        let band = per_band as u64 * 512;
        let sectors = match per_band.checked_mul(n) {
            Some(x) => x - 1,
            None => return Ok(()),
        };
        let mut f = Segs::default();
        let mut h = header(per_band, sectors);
        let mut media = Segs { size: sectors as u64 * 512, ..Default::default() };
        let mut edges = vec![];
        for k in 0..n {
            let b = n - k;
            p32b(&mut h, 64 + 4 * k as usize, b);
            for (o, s) in [(0u64, 1u64), (band - 1024, 2)] {
                let x = pattern(1024, b as u64 * 3 + s);
                f.put(4096 + k as u64 * band + o, x.clone());
                if b < n || o == 0 {
                    media.put((b as u64 - 1) * band + o, x);
                } else {
                    media.put((b as u64 - 1) * band + o, x[..512].to_vec());
                }
            }
            if k < 2 || k + 2 > n {
                edges.extend([(b as u64 - 1) * band, (b as u64 - 1) * band + 1024, b as u64 * band - 1024]);
            }
        }
        f.put(0, h);
        let f = Arc::new(f);
        let open = || -> Result<DataStreamReference, String> {
            let mut u = SparseImageFile::new();
            u.read_data_stream(&sparse(&f)).map_err(|e| format!("open: {}", err(e)))?;
            Ok(Arc::new(RwLock::new(u)))
        };
        media_f(&open, media.size, &|at, b| media.fill(at, b), &edges, &Bounds { chunks: vec![], lens: vec![1, 513, 1100], depth: 0 }, true, cov).map_err(|e| Failure::new(format!("large bands {per_band} {n}"), e))
    });
    let deep = Bounds { chunks: vec![700], lens: vec![2, 1100], depth: c.pick(2, 3) };
    c.family("histories of images", 3, |i, cov| {
        let slots = [vec![2, 0, 1], vec![3, 1], vec![1, 3, 0]][i as usize].clone();
        image(&Image { per_band: 2, sectors: 5, slots, cut: true, fill: 0 }, &deep, i, true, cov)
    });
    c.family("protocol of images", 2, |i, cov| {
        let (f, m) = build(&Image { per_band: 1 + i as u32, sectors: 3, slots: vec![2, 0, 1], cut: true, fill: 0 }, i);
        let f = Arc::new(f);
        protocol(&|| open_image(&f, None), &m, &[512], 2, cov).map_err(|e| Failure::new(format!("protocol {i}"), e))
    });
    // Malformed images: an answer, never a panic, and never data that is not that of the media.
    let base = Image { per_band: 2, sectors: 7, slots: vec![4, 1, 0, 2], cut: true, fill: 0 };
    let (file, content) = build(&base, 9);
    c.family("images that end early", file.len() as u64, |i, cov| {
        cov.trace();
        let f = Arc::new(file[..i as usize].to_vec());
        let r = guarded(|| match open_image(&f, None) {
            Err(_) => Ok(()),
            Ok(s) => {
                for (at, len) in [(0u64, 512usize), (0, 3584), (300, 1000), (1024, 1024), (2048, 1536), (3072, 512), (1500, 700)] {
                    right_or_less(&s, &content, at, len, cov)?;
                }
                Ok(())
            }
        });
        r.unwrap_or_else(|p| Err(p)).map_err(|e| Failure::new(format!("ends at {i}"), e))
    });
    let values = [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 1008, 1009, 2016, 2017, 4032, 65535, 8388607, 8388608, 1 << 31, (1 << 31) - 1, u32::MAX - 1, u32::MAX];
    let nv = values.len() as u64;
    let fields = [0usize, 4, 8, 16, 64, 68, 72, 76];
    c.family("fields of images", 64 * nv * nv, |i, cov| {
        let mut d = Digits(i);
        let (a, b) = (*d.pick(&fields), *d.pick(&fields));
        let (v, w) = (*d.pick(&values), *d.pick(&values));
        if a > b {
            return Ok(());
        }
        let mut f = file.clone();
        p32b(&mut f, a, v);
        p32b(&mut f, b, w);
        cov.trace();
        let r = guarded(|| {
            let mut n = 0u64;
            if let Ok(s) = open_image(&Arc::new(f), None) {
                let size = s.write().unwrap().get_size().unwrap_or(0);
                let mut b = [0; 900];
                for at in [0u64, 500, 1024, 3000, size.saturating_sub(1), size, u64::MAX] {
                    n += 1 + s.write().unwrap().read_at_position_any(&mut b, at) as u64;
                }
            }
            n
        });
        match r {
            Ok(n) => {
                cov.outcome(&n);
                Ok(())
            }
            Err(p) => Err(Failure::new(format!("fields {a} {b} are {v} {w}"), p)),
        }
    });
    c.family("bands that do not fit", 5, |i, cov| {
        cov.trace();
        let mut f = file.clone();
        match i {
            0 => p32b(&mut f, 64, 5),
            1 => p32b(&mut f, 64, 1),
            2 => p32b(&mut f, 72, u32::MAX),
            3 => p32b(&mut f, 8, 0),
            _ => f[0] = b'S',
        }
        match guarded(|| open_image(&Arc::new(f), None).is_ok()) {
            Ok(false) => Ok(()),
            Ok(true) => Err(Failure::new(format!("unfit {i}"), "was accepted")),
            Err(p) => Err(Failure::new(format!("unfit {i}"), p)),
        }
    });

    // Bundles: every sequence of bands that are there, are not, are short, empty or long.
    let depth = c.pick(4, 6);
    c.family("bands of bundles", seq_count(6, depth) * 3 * 3, |i, cov| {
        let mut d = Digits(i);
        let band = *d.pick(&[512u64, 1000, 4096]);
        let tail = *d.pick(&[0u64, 1, 511]);
        let bands: Vec<Option<u64>> = seq_decode(6, d.0).into_iter().map(|x| [None, Some(band), Some(band / 2), Some(0), Some(band + 700), Some(band - 1)][x as usize]).collect();
        if bands.is_empty() {
            return Ok(());
        }
        let size = bands.len() as u64 * band - tail;
        bundle(&Bundle { band, size, bands }, &quick, i, i % 16 == 0, cov)
    });
    c.family("numbers of bands of bundles", 9 * 3, |i, cov| {
        let mut d = Digits(i);
        let n = *d.pick(&[1u64, 9, 10, 11, 15, 16, 17, 40, 300]);
        let how = d.take(3);
        let band = 512 + 3 * how;
        let bands = (0..n).map(|k| if how == 1 && k % 5 == 3 { None } else { Some(band) }).collect();
        bundle(&Bundle { band, size: n * band - how, bands }, &Bounds { chunks: vec![512, 1 << 20], lens: vec![1, 2000], depth: 0 }, i, false, cov)
    });
    c.family("histories of bundles", 2, |i, cov| {
        let bands = [vec![Some(1000), None, Some(300), Some(1000)], vec![None, Some(1000), Some(0), Some(999)]][i as usize].clone();
        bundle(&Bundle { band: 1000, size: 3900, bands }, &deep, i, true, cov)
    });
    c.family("protocol of bundles", 1, |i, cov| {
        let (f, m) = bundle_files(&Bundle { band: 700, size: 1300, bands: vec![Some(700), Some(600)] }, i);
        protocol(&|| open_bundle(&f, None), &m, &[700], 2, cov).map_err(|e| Failure::new("protocol of bundles", e))
    });
    // Values of the property list.
    let numbers = ["1", "511", "512", "1000", "4096", "8388608", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "0", "-1", "-9223372036854775808", "", " 5", "x", "1e3"];
    c.family("values of the property list", 17 * 17, |i, cov| {
        cov.trace();
        let mut d = Digits(i);
        let (band, size) = (*d.pick(&numbers), *d.pick(&numbers));
        let (mut f, _) = bundle_files(&Bundle { band: 4096, size: 4096, bands: vec![Some(4096)] }, i);
        f.insert("Info.plist".into(), Arc::new(info(band, size, "6.0", KIND, i).into_bytes()));
        let number = |s: &str| s.parse::<i64>().ok().filter(|x| *x > 0);
        let good = number(band).filter(|x| *x <= u32::MAX as i64).is_some() && number(size).is_some();
        let key = format!("band-size {band:?} size {size:?}");
        let r = guarded(|| -> Result<bool, String> {
            let s = match open_bundle(&f, None) {
                Ok(s) => s,
                Err(_) => return Ok(false),
            };
            let n = s.write().unwrap().get_size().map_err(err)?;
            if Some(n as i64) != number(size) {
                return Err(format!("size is {n}"));
            }
            let mut b = [0; 900];
            for at in [0u64, 4000, n - 1, n, u64::MAX] {
                s.write().unwrap().read_at_position_any(&mut b, at);
            }
            Ok(true)
        });
        match r {
            Ok(Ok(x)) if x == good => Ok(()),
            Ok(Ok(x)) => Err(Failure::new(key, if x { "was accepted" } else { "was refused" })),
            Ok(Err(e)) | Err(e) => Err(Failure::new(key, e)),
        }
    });
    c.family("other property lists", 8, |i, cov| {
        cov.trace();
        let mut f = bundle_files(&Bundle { band: 4096, size: 4096, bands: vec![Some(4096)] }, i).0;
        let good = info("4096", "4096", "6.0", KIND, i);
        let text = match i {
            0 => info("4096", "4096", "5.0", KIND, i),
            1 => info("4096", "4096", "6.0", "com.apple.diskimage", i),
            2 => good.replace("band-size", "bandsize"),
            3 => good.replace("<key>size</key>", "<key>siz</key>"),
            4 => String::new(),
            5 => good.replace("<integer>", "<string>").replace("</integer>", "</string>"),
            6 => good.replace("dict>", "array>"),
            _ => {
                f.remove("Info.plist");
                String::new()
            }
        };
        if i != 7 {
            f.insert("Info.plist".into(), Arc::new(text.into_bytes()));
        }
        match guarded(|| open_bundle(&f, None).is_ok()) {
            Ok(false) => Ok(()),
            Ok(true) => Err(Failure::new(format!("list {i}"), "was accepted")),
            Err(p) => Err(Failure::new(format!("list {i}"), p)),
        }
    });
    c.finish()
}
