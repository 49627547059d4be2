// C27: FAT file systems.
use keramics_core::DataStreamReference;
use keramics_datetime::{DateTime, FatDate, FatTimeDate, FatTimeDate10Ms};
use keramics_formats::fat::{FatFileEntry, FatFileSystem, FatFormat, FatPath, FatString};
use keramics_types::{ByteString, Ucs2String};
use mc_engine::util::{Digits, hash64, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, RwLock};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum F {
    F12,
    F16,
    F32,
}
use F::*;

#[derive(Clone, Debug, PartialEq)]
enum Name {
    Short(Vec<u8>),
    Long(Vec<u16>),
}

impl Name {
    fn fat(&self) -> FatString {
        match self {
            Name::Short(b) => FatString::ByteString(ByteString { encoding: keramics_encodings::CharacterEncoding::Ascii, elements: b.clone() }),
            Name::Long(u) => FatString::Ucs2String(Ucs2String { elements: u.clone() }),
        }
    }
    /// The name as text, when it is ASCII.
    fn ascii(&self) -> Option<String> {
        match self {
            Name::Short(b) if b.is_ascii() => Some(b.iter().map(|x| *x as char).collect()),
            Name::Long(u) if u.iter().all(|x| *x < 0x80) => Some(u.iter().map(|x| *x as u8 as char).collect()),
            _ => None,
        }
    }
}

/// What is known of a file or directory.
#[derive(Clone, Debug)]
struct Want {
    name: Name,
    /// Offset of the short entry.
    at: u64,
    raw: [u8; 32],
    /// Content of a file; nothing when it may not be readable.
    content: Option<Vec<u8>>,
    sub: Vec<Want>,
    /// The long name starts in another cluster.
    split: bool,
}

impl Want {
    fn dir(&self) -> bool {
        self.raw[11] & 0x58 == 0x10
    }
}

#[derive(Clone)]
struct Vol {
    f: F,
    bps: u64,
    spc: u64,
    reserved: u64,
    fats: u64,
    fat_sectors: u64,
    roots: u64,
    clusters: u64,
    /// Sectors after the last cluster.
    slack: u64,
    root_cluster: u32,
    label: [u8; 11],
    extended: u8,
    serial: u32,
    wide: bool,
    table: BTreeMap<u32, u32>,
    data: BTreeMap<u32, Vec<u8>>,
    root: Vec<u8>,
}

impl Vol {
    fn new(f: F, clusters: u64) -> Vol {
        let mut v = Vol {
            f,
            bps: 512,
            spc: 1,
            reserved: if f == F32 { 3 } else { 1 },
            fats: 2,
            fat_sectors: 0,
            roots: if f == F32 { 0 } else { 32 },
            clusters,
            slack: 0,
            root_cluster: if f == F32 { 2 } else { 0 },
            label: *b"LABEL      ",
            extended: 0x29,
            serial: 0x1234abcd,
            wide: f == F32 || clusters > 60000,
            table: BTreeMap::new(),
            data: BTreeMap::new(),
            root: vec![],
        };
        v.size_table();
        if f == F32 {
            v.table.insert(2, 0x0fffffff);
        }
        v
    }
    fn size_table(&mut self) {
        let bits = match self.f {
            F12 => 12,
            F16 => 16,
            F32 => 32,
        };
        self.fat_sectors = ((self.clusters + 2) * bits).div_ceil(8).div_ceil(self.bps);
    }
    fn cluster_size(&self) -> u64 {
        self.bps * self.spc
    }
    fn root_at(&self) -> u64 {
        (self.reserved + self.fats * self.fat_sectors) * self.bps
    }
    fn first(&self) -> u64 {
        self.root_at() + self.roots * 32
    }
    fn at(&self, cluster: u32) -> u64 {
        self.first() + (cluster as u64 - 2) * self.cluster_size()
    }
    fn sectors(&self) -> u64 {
        self.reserved + self.fats * self.fat_sectors + (self.roots * 32).div_ceil(self.bps) + self.clusters * self.spc + self.slack
    }
    fn end(&self) -> u32 {
        match self.f {
            F12 => 0xfff,
            F16 => 0xffff,
            F32 => 0x0fffffff,
        }
    }
    /// A chain of clusters, the entry of the last given.
    fn chain(&mut self, clusters: &[u32], last: u32) {
        for (i, c) in clusters.iter().enumerate() {
            self.table.insert(*c, *clusters.get(i + 1).unwrap_or(&last));
        }
    }
    /// Stores data in a chain of clusters.
    fn store(&mut self, clusters: &[u32], data: &[u8]) {
        let n = self.cluster_size() as usize;
        for (i, c) in clusters.iter().enumerate() {
            let mut d = data[(i * n).min(data.len())..((i + 1) * n).min(data.len())].to_vec();
            // What lies behind the end of the data.
            while d.len() < n {
                d.push(0xbb);
            }
            self.data.insert(*c, d);
        }
    }
    fn store_dir(&mut self, clusters: &[u32], data: &[u8]) {
        let n = self.cluster_size() as usize;
        let mut d = data.to_vec();
        d.resize(n * clusters.len(), 0);
        self.store(clusters, &d);
    }
    fn boot(&self) -> Vec<u8> {
        let mut b = vec![0u8; 512];
        b[0..3].copy_from_slice(&[0xeb, 0x3c, 0x90]);
        b[3..11].copy_from_slice(b"mkfs.fat");
        p16l(&mut b, 11, self.bps as u16);
        b[13] = self.spc as u8;
        p16l(&mut b, 14, self.reserved as u16);
        b[16] = self.fats as u8;
        p16l(&mut b, 17, self.roots as u16);
        if self.wide {
            p32l(&mut b, 32, self.sectors() as u32);
        } else {
            p16l(&mut b, 19, self.sectors() as u16);
        }
        b[21] = 0xf8;
        if self.f == F32 {
            p32l(&mut b, 36, self.fat_sectors as u32);
            p32l(&mut b, 44, self.root_cluster);
            b[66] = self.extended;
            p32l(&mut b, 67, self.serial);
            b[71..82].copy_from_slice(&self.label);
            b[82..90].copy_from_slice(b"FAT32   ");
        } else {
            p16l(&mut b, 22, self.fat_sectors as u16);
            b[38] = self.extended;
            p32l(&mut b, 39, self.serial);
            b[43..54].copy_from_slice(&self.label);
            // The hint is not to be relied on.
            b[54..62].copy_from_slice(b"FAT     ");
        }
        b[510] = 0x55;
        b[511] = 0xaa;
        b
    }
    fn build(&self) -> Segs {
        let mut s = Segs::default();
        s.put(0, self.boot());
        let t = self.reserved * self.bps;
        for k in 0..self.fats.min(1) {
            let t = t + k * self.fat_sectors * self.bps;
            match self.f {
                F12 => {
                    let mut d = vec![0u8; (self.fat_sectors * self.bps) as usize];
                    d[0..3].copy_from_slice(&[0xf8, 0xff, 0xff]);
                    for (c, v) in &self.table {
                        let at = (*c as usize / 2) * 3;
                        if c % 2 == 0 {
                            d[at] = *v as u8;
                            d[at + 1] = d[at + 1] & 0xf0 | (*v >> 8) as u8 & 0xf;
                        } else {
                            d[at + 1] = d[at + 1] & 0x0f | ((*v & 0xf) << 4) as u8;
                            d[at + 2] = (*v >> 4) as u8;
                        }
                    }
                    s.put(t, d);
                }
                F16 => {
                    for (c, v) in &self.table {
                        s.put(t + *c as u64 * 2, (*v as u16).to_le_bytes().to_vec());
                    }
                }
                F32 => {
                    for (c, v) in &self.table {
                        s.put(t + *c as u64 * 4, v.to_le_bytes().to_vec());
                    }
                }
            }
        }
        if self.roots > 0 {
            let mut r = self.root.clone();
            r.resize((self.roots * 32) as usize, 0);
            s.put(self.root_at(), r);
        }
        for (c, d) in &self.data {
            s.put(self.at(*c), d.clone());
        }
        s.size = s.size.max(self.sectors() * self.bps);
        s
    }
}

fn sum(short: &[u8; 11]) -> u8 {
    short.iter().fold(0u8, |s, b| s.rotate_right(1).wrapping_add(*b))
}

/// A directory entry; the times follow from the seed.
fn entry(short: &[u8; 11], attributes: u8, flags: u8, cluster: u32, size: u32, seed: u64) -> [u8; 32] {
    let mut e = [0u8; 32];
    e[..11].copy_from_slice(short);
    e[11] = attributes;
    e[12] = flags;
    let h = hash64(&seed);
    e[13] = (h % 200) as u8;
    p16l(&mut e, 14, 0x8f95 ^ (h >> 8) as u16 & 0x3f);
    p16l(&mut e, 16, 0x5b53 ^ (h >> 16) as u16 & 3);
    p16l(&mut e, 18, 0x5b51 + (h >> 20) as u16 % 8);
    p16l(&mut e, 20, (cluster >> 16) as u16);
    p16l(&mut e, 22, 0x7c21 ^ (h >> 24) as u16 & 0x3f);
    p16l(&mut e, 24, 0x5a61 + (h >> 32) as u16 % 8);
    p16l(&mut e, 26, cluster as u16);
    p32l(&mut e, 28, size);
    e
}

/// The entries of a long name, the last part first.
fn long(name: &[u16], check: u8) -> Vec<[u8; 32]> {
    let n = name.len().div_ceil(13);
    (0..n)
        .rev()
        .map(|k| {
            let mut e = [0u8; 32];
            e[0] = (k + 1) as u8 | if k + 1 == n { 0x40 } else { 0 };
            e[11] = 0x0f;
            e[13] = check;
            for j in 0..13 {
                let i = 13 * k + j;
                let c = if i < name.len() { name[i] } else if i == name.len() { 0 } else { 0xffff };
                let at = if j < 5 { 1 + 2 * j } else if j < 11 { 14 + 2 * (j - 5) } else { 28 + 2 * (j - 11) };
                p16l(&mut e, at, c);
            }
            e
        })
        .collect()
}

fn units(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}

/// The name of a short entry as it is to be shown.
fn shown(short: &[u8; 11], flags: u8, label: bool) -> Vec<u8> {
    if label {
        return short[..short.iter().rposition(|x| *x != b' ').map_or(0, |k| k + 1)].to_vec();
    }
    let cut = |b: &[u8], low: bool| -> Vec<u8> {
        let n = b.iter().rposition(|x| *x != b' ').map_or(0, |k| k + 1);
        b[..n].iter().map(|x| if low { x.to_ascii_lowercase() } else { *x }).collect()
    };
    let mut r = cut(&short[..8], flags & 8 != 0);
    let e = cut(&short[8..], flags & 16 != 0);
    if !e.is_empty() {
        r.push(b'.');
        r.extend(e);
    }
    r
}

fn open(s: &DataStreamReference) -> Result<FatFileSystem, String> {
    let mut v = FatFileSystem::new();
    v.read_data_stream(s).map_err(err)?;
    Ok(v)
}

fn name_of(n: &Option<FatString>) -> Option<Name> {
    match n {
        None => None,
        Some(FatString::ByteString(b)) => Some(Name::Short(b.elements.clone())),
        Some(FatString::Ucs2String(u)) => Some(Name::Long(u.elements.clone())),
    }
}

/// Checks what an entry tells of itself.
fn entry_is(e: &FatFileEntry, w: &Want, named: bool, cov: &mut Cov) -> Result<(), String> {
    cov.step();
    let what = format!("entry {:#x}", w.at);
    if e.identifier as u64 != w.at {
        return Err(format!("{what}: identifier {:#x}", e.identifier));
    }
    let n = name_of(&e.get_name());
    if named && n.as_ref() != Some(&w.name) {
        return Err(format!("{what}: name {n:?}, expected {:?}", w.name));
    }
    let size = u32::from_le_bytes(w.raw[28..32].try_into().unwrap());
    if e.get_size() != size as u64 {
        return Err(format!("{what}: size {}, expected {size}", e.get_size()));
    }
    if e.get_file_attribute_flags() != w.raw[11] {
        return Err(format!("{what}: attributes {:#x}, expected {:#x}", e.get_file_attribute_flags(), w.raw[11]));
    }
    if e.is_directory() != w.dir() || e.is_root_directory() {
        return Err(format!("{what}: directory {}, root {}", e.is_directory(), e.is_root_directory()));
    }
    let r = &w.raw;
    let times = [
        (e.get_creation_time(), DateTime::FatTimeDate10Ms(FatTimeDate10Ms::from_bytes(&r[13..18])), "creation"),
        (e.get_access_time(), DateTime::FatDate(FatDate::from_bytes(&r[18..20])), "access"),
        (e.get_modification_time(), DateTime::FatTimeDate(FatTimeDate::from_bytes(&r[22..26])), "modification"),
    ];
    for (got, want, t) in &times {
        if *got != Some(want) {
            return Err(format!("{what}: {t} time {got:?}, expected {want:?}"));
        }
    }
    if w.dir() {
        if e.get_data_stream().map_err(err)?.is_some() {
            return Err(format!("{what}: a directory with a data stream"));
        }
    } else if let Some(c) = &w.content {
        let s = e.get_data_stream().map_err(err)?.ok_or("no data stream")?;
        if s.write().unwrap().get_size().map_err(err)? != c.len() as u64 {
            return Err(format!("{what}: the size of the data stream"));
        }
        window(&s, c, 0, c.len() + 3, cov).map_err(|m| format!("{what}: {m}"))?;
        window(&s, c, c.len() as u64 / 2, 9, cov).map_err(|m| format!("{what}: {m}"))?;
    }
    Ok(())
}

/// Checks a directory and what is below it.
fn dir_is(fs: &FatFileSystem, e: &mut FatFileEntry, want: &[Want], path: &FatPath, cov: &mut Cov) -> Result<(), String> {
    let n = e.get_number_of_sub_file_entries().map_err(err)?;
    if n != want.len() {
        let mut names = vec![];
        for i in 0..n {
            names.push(name_of(&e.get_sub_file_entry_by_index(i).map_err(err)?.get_name()));
        }
        return Err(format!("{n} entries {names:?}, expected {} {:?}", want.len(), want.iter().map(|w| &w.name).collect::<Vec<_>>()));
    }
    if e.get_sub_file_entry_by_index(n).is_ok() {
        return Err(format!("there is an entry {n}"));
    }
    let mut seen = vec![false; n];
    for i in 0..n {
        let s = e.get_sub_file_entry_by_index(i).map_err(err)?;
        let k = want.iter().position(|w| w.at == s.identifier as u64).ok_or(format!("an entry at {:#x}: {:?}", s.identifier, name_of(&s.get_name())))?;
        if std::mem::replace(&mut seen[k], true) {
            return Err(format!("entry {:#x} appears twice", s.identifier));
        }
        entry_is(&s, &want[k], true, cov)?;
    }
    for w in want {
        let mut names = vec![w.name.fat()];
        if let Some(t) = w.name.ascii() {
            names.extend([FatString::from(&t), FatString::from(&t.to_ascii_lowercase()), FatString::from(&t.to_ascii_uppercase())]);
            for x in [t.to_ascii_lowercase(), t.to_ascii_uppercase()] {
                names.push(Name::Short(x.into_bytes()).fat());
            }
        }
        for nm in &names {
            let s = e.get_sub_file_entry_by_name(nm).map_err(err)?.ok_or(format!("no entry by the name {nm:?}"))?;
            entry_is(&s, w, true, cov).map_err(|m| format!("by name {nm:?}: {m}"))?;
            let p = path.new_with_join(&[nm.clone()]);
            let s = fs.get_file_entry_by_path(&p).map_err(err)?.ok_or(format!("no entry at the path {p:?}"))?;
            entry_is(&s, w, true, cov).map_err(|m| format!("by path {p:?}: {m}"))?;
        }
        if w.at != fs.root_directory_offset {
            let s = fs.get_file_entry_by_identifier(w.at as u32).map_err(err)?;
            entry_is(&s, w, !w.split, cov).map_err(|m| format!("by identifier: {m}"))?;
        }
        let mut s = e.get_sub_file_entry_by_name(&w.name.fat()).map_err(err)?.ok_or("no entry by name")?;
        let p = path.new_with_join(&[w.name.fat()]);
        if w.dir() {
            dir_is(fs, &mut s, &w.sub, &p, cov).map_err(|m| format!("below {:#x}: {m}", w.at))?;
        } else {
            if s.get_number_of_sub_file_entries().map_err(err)? != 0 {
                return Err("a file with entries".into());
            }
            let p = p.new_with_join(&[FatString::from("x")]);
            if fs.get_file_entry_by_path(&p).map_err(err)?.is_some() {
                return Err("an entry below a file".into());
            }
        }
    }
    for other in ["missing", "", "MISSING.TXT", "?"] {
        if e.get_sub_file_entry_by_name(&FatString::from(other)).map_err(err)?.is_some() {
            return Err(format!("there is an entry {other:?}"));
        }
    }
    Ok(())
}

fn fs_is(s: &DataStreamReference, f: F, want: &[Want], cov: &mut Cov) -> Result<(), String> {
    cov.trace();
    guarded(|| {
        let fs = open(s)?;
        let g = match fs.format {
            FatFormat::Fat12 => F12,
            FatFormat::Fat16 => F16,
            FatFormat::Fat32 => F32,
        };
        if g != f {
            return Err(format!("format {g:?}, expected {f:?}"));
        }
        let mut r = fs.get_root_directory().map_err(err)?;
        if !r.is_root_directory() || !r.is_directory() || r.get_name().is_some() || r.get_size() != 0 {
            return Err("the root directory".into());
        }
        dir_is(&fs, &mut r, want, &FatPath::from("/"), cov)?;
        let r = fs.get_file_entry_by_path(&FatPath::from("/")).map_err(err)?.ok_or("no root directory by path")?;
        if !r.is_root_directory() {
            return Err("the root directory by path".into());
        }
        cov.state(&(f, want.len(), format!("{want:?}")));
        Ok(())
    })
    .unwrap_or_else(|p| Err(p))
}

/// A volume with the entries in its root directory.
fn with_root(v: &mut Vol, slots: &[[u8; 32]]) {
    let d: Vec<u8> = slots.concat();
    if v.f == F32 {
        let c = [v.root_cluster];
        v.store_dir(&c, &d);
    } else {
        v.root = d;
    }
}

fn root_at(v: &Vol) -> u64 {
    if v.f == F32 { v.at(v.root_cluster) } else { v.root_at() }
}

fn small(f: F) -> Vol {
    Vol::new(f, match f {
        F12 => 40,
        F16 => 4100,
        F32 => 70000,
    })
}

fn chains(check: &mut Check) {
    let depth = check.pick(3, 4);
    let places = |f: F| -> Vec<u32> {
        match f {
            F12 => vec![2, 3, 4, 17, 40, 41],
            F16 => vec![2, 3, 0x101, 0x1000, 4100, 4101],
            F32 => vec![3, 4, 0x1234, 65535, 65536, 70001],
        }
    };
    // Where the clusters are, in every order; the size of the last; how the chain ends; clusters after the end.
    let n = seq_count(6, depth);
    check.family("cluster chains", n * 3 * 3 * 4 * 3, |i, cov| {
        let mut g = Digits(i);
        let f = *g.pick(&[F12, F16, F32]);
        let tail = *g.pick(&[1usize, 511, 512]);
        let end = g.take(4);
        let more = g.take(3) as usize;
        let seq = seq_decode(6, g.0);
        let p = places(f);
        let c: Vec<u32> = seq.iter().map(|x| p[*x as usize]).collect();
        let mut u = c.clone();
        u.sort();
        u.dedup();
        if u.len() != c.len() || c.len() < more {
            return Ok(());
        }
        let key = format!("{f:?} {c:?} {tail} {end} {more}");
        let used = c.len() - more;
        let size = if used == 0 { 0 } else { (used - 1) * 512 + tail };
        let mut v = small(f);
        let last = match (end, f) {
            (0, _) => v.end(),
            (1, _) => v.end() - 7,
            (2, F32) => 0xffffffff,
            (3, F32) => 0x1ffffff8,
            (2, _) => v.end() - 3,
            _ => v.end() - 1,
        };
        v.chain(&c, last);
        if f == F32 && end >= 2 {
            // The upper four bits have no meaning.
            for (_, x) in v.table.iter_mut() {
                *x |= 0xa0000000;
            }
        }
        let content = pattern(size, hash64(&c));
        v.store(&c, &content);
        let name = b"CHAIN   BIN";
        let e = entry(name, 0x20, 0, c.first().copied().unwrap_or(0), size as u32, i);
        with_root(&mut v, &[e]);
        let w = Want { name: Name::Short(b"CHAIN.BIN".to_vec()), at: root_at(&v), raw: e, content: Some(content.clone()), sub: vec![], split: false };
        let s = Arc::new(v.build());
        fs_is(&sparse(&s), f, &[w], cov).map_err(|m| Failure::new(key.clone(), m))?;
        let fs = open(&sparse(&s)).map_err(|m| Failure::new(key.clone(), m))?;
        let of = || -> Result<DataStreamReference, String> { fs.get_file_entry_by_path(&FatPath::from("/chain.bin")).map_err(err)?.ok_or("no entry")?.get_data_stream().map_err(err)?.ok_or("no data stream".into()) };
        if tail == 511 || size == 0 {
            let b = Bounds { chunks: vec![1, 300, 512, 2000], lens: vec![1, 2, 511, 1025], depth: 1 };
            media(&of, &content, &[512, 1024], &b, cov).map_err(|m| Failure::new(key.clone(), m))?;
        }
        Ok(())
    });
    // The 12-bit entries: every cluster leads to every other.
    let m = check.pick(24u64, 64);
    check.family("12-bit entries", m * m, |i, cov| {
        let (a, b) = ((i / m) as u32 + 2, (i % m) as u32 + 2);
        if a == b {
            return Ok(());
        }
        let mut v = Vol::new(F12, m);
        // The neighbours hold other bits.
        for c in 2..m as u32 + 2 {
            v.table.insert(c, 0x5a5 ^ (c & 1) * 0xfff);
        }
        v.chain(&[a, b], 0xff8);
        let content = pattern(1000, i);
        v.store(&[a, b], &content);
        let e = entry(b"A          ", 0x20, 0, a, 1000, i);
        with_root(&mut v, &[e]);
        let w = Want { name: Name::Short(b"A".to_vec()), at: root_at(&v), raw: e, content: Some(content), sub: vec![], split: false };
        fs_is(&sparse(&Arc::new(v.build())), F12, &[w], cov).map_err(|m| Failure::new(format!("{a} {b}"), m))
    });
    // Histories of reads and seeks.
    check.family("stream protocol", 3, |i, cov| {
        let f = [F12, F16, F32][i as usize];
        let mut v = small(f);
        let c = [5u32, 3, 9];
        v.chain(&c, v.end());
        let content = pattern(1300, i);
        v.store(&c, &content);
        let e = entry(b"A          ", 0x20, 0, 5, 1300, i);
        with_root(&mut v, &[e]);
        let fs = open(&sparse(&Arc::new(v.build()))).map_err(|m| Failure::new("open", m))?;
        let of = || -> Result<DataStreamReference, String> { fs.get_file_entry_by_path(&FatPath::from("/A")).map_err(err)?.ok_or("no entry")?.get_data_stream().map_err(err)?.ok_or("no data stream".into()) };
        protocol(&of, &content, &[512, 1024], check_depth(), cov).map_err(|m| Failure::new(format!("{f:?}"), m))
    });
    // Chains that are damaged: whatever can be read is right.
    check.family("damaged chains", 3 * 10 * 3 * 3, |i, cov| {
        let mut g = Digits(i);
        let f = *g.pick(&[F12, F16, F32]);
        let what = g.take(10);
        let at = g.take(3) as usize;
        let dir = g.take(3);
        let mut v = small(f);
        let c = [5u32, 3, 9];
        v.chain(&c, v.end());
        let top = v.clusters as u32 + 2;
        let bad = match what {
            0 => 0,
            1 => 1,
            2 => v.end() - 8,
            3 => v.end() - 15,
            4 => v.end() - 16,
            5 => top,
            6 => top + 1,
            7 => c[at],
            8 => c[0],
            _ => c[1],
        };
        v.table.insert(c[at], bad);
        let content = pattern(1536, i);
        v.store(&c, &content);
        let slots: Vec<[u8; 32]> = (0..48).map(|k| entry(format!("F{k:<10}").as_bytes().try_into().unwrap(), 0x20, 0, 0, 0, k)).collect();
        if dir > 0 {
            v.store_dir(&c, &slots.concat());
        }
        if dir == 2 && f != F32 {
            return Ok(());
        }
        let e = entry(b"A          ", if dir == 0 { 0x20 } else { 0x10 }, 0, 5, if dir == 0 { 1536 } else { 0 }, i);
        if dir == 2 {
            v.root_cluster = 5;
        } else {
            with_root(&mut v, &[e]);
        }
        let key = format!("{f:?} {what} {at} {dir}");
        let s = sparse(&Arc::new(v.build()));
        cov.step();
        let r = guarded(|| -> Result<(), String> {
            let Ok(fs) = open(&s) else { return if dir == 2 { Ok(()) } else { Err("not opened".into()) } };
            if dir == 0 {
                let e = fs.get_file_entry_by_path(&FatPath::from("/A")).map_err(err)?.ok_or("no entry")?;
                let Ok(Some(s)) = e.get_data_stream() else { return Ok(()) };
                for (at, len) in windows(1536, &[512, 1024], &[1, 600, 2000]) {
                    right_or_less(&s, &content, at, len, cov)?;
                }
                // A chain that ends before the file does is no file of fewer bytes.
                if at < 2 && !(what == 8 || what == 9) {
                    let mut b = vec![0u8; 1536];
                    if s.write().unwrap().read_exact_at_position(&mut b, std::io::SeekFrom::Start(0)).is_ok() {
                        return Err("a file is read whose chain is cut".into());
                    }
                }
                return Ok(());
            }
            let mut d = if dir == 1 { fs.get_file_entry_by_path(&FatPath::from("/A")).map_err(err)?.ok_or("no entry")? } else { fs.get_root_directory().map_err(err)? };
            let Ok(n) = d.get_number_of_sub_file_entries() else { return Ok(()) };
            for k in 0..n {
                let x = name_of(&d.get_sub_file_entry_by_index(k).map_err(err)?.get_name());
                let Some(Name::Short(x)) = x else { return Err(format!("{x:?}")) };
                let x = String::from_utf8_lossy(&x).into_owned();
                if !x.starts_with('F') || x[1..].parse::<u32>().map_or(true, |k| k >= 48) {
                    return Err(format!("an entry {x}"));
                }
            }
            Ok(())
        });
        r.unwrap_or_else(Err).map_err(|m| Failure::new(key, m))
    });
}

fn check_depth() -> u32 {
    2
}

fn formats(check: &mut Check) {
    // Which format: the number of clusters decides, and only the whole clusters of the data area count.
    let counts: [u64; 14] = [1, 2, 100, 4083, 4084, 4085, 4086, 4087, 4095, 4096, 65000, 65523, 65524, 70000];
    check.family("numbers of clusters", 14 * 4 * 4 * 3 * 2, |i, cov| {
        let mut g = Digits(i);
        let n = *g.pick(&counts);
        let (bps, spc) = *g.pick(&[(512u64, 1u64), (512, 2), (1024, 8), (4096, 1)]);
        let roots = *g.pick(&[16u64, 512, 2048, 128]) * bps / 512;
        let slack = *g.pick(&[0, 1, spc - 1]);
        let f32_too = g.take(2) == 1;
        let f = if f32_too { F32 } else if n < 4085 { F12 } else { F16 };
        if !f32_too && n >= 65525 || slack >= spc && slack != 0 {
            return Ok(());
        }
        let mut v = Vol::new(f, n);
        (v.bps, v.spc, v.slack) = (bps, spc, slack);
        if f != F32 {
            v.roots = roots;
        }
        v.size_table();
        v.wide = f == F32 || v.sectors() > 65535;
        // The numbers from ff0 have another meaning.
        let last = (n as u32 + 1).min(v.end() - 16);
        if f == F32 && n < 2 {
            return Ok(());
        }
        let mut c = vec![];
        if n > 3 {
            c.push(last - 1);
        }
        c.push(last);
        v.chain(&c, v.end());
        let content = pattern(c.len() * (bps * spc) as usize - 5, i);
        v.store(&c, &content);
        let e = entry(b"LAST    BIN", 0x20, 0, c[0], content.len() as u32, i);
        with_root(&mut v, &[e]);
        let w = Want { name: Name::Short(b"LAST.BIN".to_vec()), at: root_at(&v), raw: e, content: Some(content), sub: vec![], split: false };
        fs_is(&sparse(&Arc::new(v.build())), f, &[w], cov).map_err(|m| Failure::new(format!("{f:?} {n} {bps} {spc} {roots} {slack}"), m))
    });
    // Shapes of the reserved area, the tables and the root directory.
    check.family("layouts", 3 * 4 * 8 * 4 * 3 * 3, |i, cov| {
        let mut g = Digits(i);
        let f = *g.pick(&[F12, F16, F32]);
        let bps = *g.pick(&[512u64, 1024, 2048, 4096]);
        let spc = *g.pick(&[1u64, 2, 4, 8, 16, 32, 64, 128]);
        let reserved = *g.pick(&[1u64, 2, 32, 33]);
        let fats = *g.pick(&[1u64, 2, 3]);
        let extra = *g.pick(&[0u64, 1, 7]);
        let mut v = small(f);
        (v.bps, v.spc, v.reserved, v.fats) = (bps, spc, reserved, fats);
        if f != F32 {
            v.roots = bps / 32 * (1 + extra);
        }
        v.size_table();
        v.fat_sectors += extra;
        v.wide = v.sectors() > 65535 || f == F32;
        if f == F32 {
            v.table.remove(&2);
            v.root_cluster = 7;
            v.table.insert(7, v.end());
        }
        let c = [3u32, 12, 5];
        v.chain(&c, v.end());
        let n = (bps * spc) as usize;
        let content = pattern(2 * n + 77, i);
        v.store(&c, &content);
        // A directory of two clusters.
        let d = [20u32, 19];
        v.chain(&d, v.end());
        let e = entry(b"DIR        ", 0x10, 0, 20, 0, i);
        let x = entry(b"FILE    BIN", 0x20, 0, 3, content.len() as u32, i);
        let gone = { let mut y = x; y[0] = 0xe5; y };
        let mut slots = vec![gone; n / 32];
        slots.push(x);
        v.store_dir(&d, &slots.concat());
        with_root(&mut v, &[e]);
        let file = Want { name: Name::Short(b"FILE.BIN".to_vec()), at: v.at(19), raw: x, content: Some(content), sub: vec![], split: false };
        let w = Want { name: Name::Short(b"DIR".to_vec()), at: root_at(&v), raw: e, content: None, sub: vec![file], split: false };
        let s = Arc::new(v.build());
        let key = format!("{f:?} {bps} {spc} {reserved} {fats} {extra}");
        fs_is(&sparse(&s), f, &[w], cov).map_err(|m| Failure::new(key.clone(), m))?;
        let fs = open(&sparse(&s)).map_err(|m| Failure::new(key.clone(), m))?;
        if fs.bytes_per_sector as u64 != bps || fs.volume_serial_number != v.serial || fs.first_cluster_offset != v.first() {
            return Err(Failure::new(key, format!("{} bytes per sector, serial number {:#x}, first cluster at {}", fs.bytes_per_sector, fs.volume_serial_number, fs.first_cluster_offset)));
        }
        Ok(())
    });
    // Labels.
    let labels: [&[u8; 11]; 7] = [b"NO NAME    ", b"LABEL      ", b"A          ", b"ELEVEN CHAR", b" LEAD      ", b"           ", b"A B C D E F"];
    check.family("labels", 3 * 7 * 8 * 2 * 3, |i, cov| {
        let mut g = Digits(i);
        let f = *g.pick(&[F12, F16, F32]);
        let boot = *g.pick(&labels);
        let root = g.take(8) as usize;
        let extended = *g.pick(&[0x29u8, 0x28]);
        let place = g.take(3) as usize;
        let mut v = small(f);
        v.label = *boot;
        v.extended = extended;
        let file = entry(b"FILE       ", 0x20, 0, 0, 0, 1);
        let mut slots = vec![file; 0];
        let mut gone = entry(b"GONE       ", 0x08, 0, 0, 0, 3);
        gone[0] = 0xe5;
        slots.push(gone);
        if place > 0 {
            slots.push(file);
        }
        let mut want = None;
        if root < 7 {
            slots.push(entry(labels[root], if place == 2 { 0x28 } else { 0x08 }, 0, 0, 0, 2));
            want = Some(shown(labels[root], 0, true)).filter(|x| !x.is_empty());
        }
        if want.is_none() && root == 7 && extended == 0x29 && boot != labels[0] {
            want = Some(shown(boot, 0, true)).filter(|x| !x.is_empty());
        }
        if root < 7 && want.is_none() {
            // A label of spaces: not for the model to say.
            return Ok(());
        }
        with_root(&mut v, &slots);
        let key = format!("{f:?} {:?} {root} {extended} {place}", String::from_utf8_lossy(boot));
        let fs = open(&sparse(&Arc::new(v.build()))).map_err(|m| Failure::new(key.clone(), m))?;
        cov.step();
        let got = fs.get_volume_label().map(|b| b.elements.clone());
        if got != want || fs.volume_serial_number != if extended == 0x29 { v.serial } else { 0 } {
            let show = |x: &Option<Vec<u8>>| x.as_ref().map(|x| String::from_utf8_lossy(x).into_owned());
            return Err(Failure::new(key, format!("label {:?}, expected {:?}", show(&got), show(&want))));
        }
        cov.outcome(&got);
        Ok(())
    });
    // Every field of the boot record at its edges: refused, or read without a fault.
    check.family("boot record values", 3 * 14 * 16, |i, cov| {
        let mut g = Digits(i);
        let f = *g.pick(&[F12, F16, F32]);
        let field = g.take(14) as usize;
        let k = g.take(16) as usize;
        let v = {
            let mut v = small(f);
            let e = entry(b"A          ", 0x20, 0, 5, 700, i);
            v.chain(&[5, 6], v.end());
            with_root(&mut v, &[e]);
            v
        };
        let mut s = v.build();
        let mut b = v.boot();
        let e16 = [0u16, 1, 2, 3, 15, 16, 31, 32, 511, 512, 513, 4095, 4096, 32768, 65534, 65535][k];
        let e32 = [0u32, 1, 2, 3, 7, 16, 100, 1000, 65535, 65536, 0x0fffffef, 0x0ffffff0, 0x10000000, 0x7fffffff, 0x80000000, u32::MAX][k];
        match field {
            0 => p16l(&mut b, 11, e16),
            1 => b[13] = [0u8, 1, 2, 3, 4, 5, 8, 16, 32, 64, 127, 128, 129, 192, 254, 255][k],
            2 => p16l(&mut b, 14, e16),
            3 => b[16] = [0u8, 1, 2, 3, 4, 5, 8, 16, 32, 64, 127, 128, 129, 192, 254, 255][k],
            4 => p16l(&mut b, 17, e16),
            5 => p16l(&mut b, 19, e16),
            6 => p16l(&mut b, 22, e16),
            7 => p32l(&mut b, 32, e32),
            8 => p32l(&mut b, 36, e32),
            9 => p32l(&mut b, 44, e32),
            10 => b[510] = k as u8,
            11 => b[511] = k as u8,
            12 => b[21] = k as u8 * 17,
            _ => {
                p32l(&mut b, 36, u32::MAX);
                p16l(&mut b, 22, 0);
                p16l(&mut b, 11, 4096);
                b[13] = 128;
                b[16] = [1u8, 2, 255][k % 3];
                p32l(&mut b, 32, e32);
            }
        }
        s.put(0, b.clone());
        cov.step();
        let must_refuse = match field {
            0 => ![512, 1024, 2048, 4096].contains(&e16),
            1 => !b[13].is_power_of_two(),
            10 => b[510] != 0x55,
            11 => b[511] != 0xaa,
            _ => false,
        };
        let key = format!("{f:?} {field} {k}");
        let s = sparse(&Arc::new(s));
        let r = guarded(|| -> Result<bool, String> {
            let Ok(fs) = open(&s) else { return Ok(false) };
            if let Ok(mut r) = fs.get_root_directory() {
                for k in 0..r.get_number_of_sub_file_entries().unwrap_or(0) {
                    if let Ok(e) = r.get_sub_file_entry_by_index(k) {
                        if let Ok(Some(s)) = e.get_data_stream() {
                            let mut b = [0u8; 700];
                            let _ = s.write().unwrap().read_at_position_any(&mut b, 0);
                        }
                    }
                }
            }
            Ok(true)
        });
        match r {
            Err(p) => Err(Failure::new(key, p)),
            Ok(Ok(true)) if must_refuse => Err(Failure::new(key, "not refused")),
            Ok(r) => {
                cov.outcome(&r);
                Ok(())
            }
        }
    });
}

/// Pieces of a directory.
const PIECES: [&str; 13] = ["short", "long of 1", "long of 2", "deleted", "stray long of 1", "stray part 2 of 2", "label", "dot", "deleted long, short", "end", "end, not cleared", "long, deleted", "dot dot"];

/// Lays out a directory of pieces: its slots and what it must show.
fn pieces(seq: &[u64], pad: usize, per_cluster: usize, at: &dyn Fn(usize) -> u64) -> (Vec<[u8; 32]>, Vec<Want>) {
    let mut slots: Vec<[u8; 32]> = vec![];
    let mut want = vec![];
    let mut ended = false;
    let mut gone = entry(b"?ADDING TXT", 0x20, 0, 0, 0, 99);
    gone[0] = 0xe5;
    slots.resize(pad, gone);
    for (k, p) in seq.iter().enumerate() {
        let mut short = *b"FILE0   TXT";
        short[4] = b'0' + k as u8;
        let mut raw = entry(&short, 0x20, 0, 0, 0, k as u64 + 10);
        let name1 = units(&format!("long name{k}"));
        let name2 = units(&format!("quite a Long Name {k}"));
        let mut add = |slots: &mut Vec<[u8; 32]>, longs: Vec<[u8; 32]>, raw: [u8; 32], name: Option<Name>| {
            let n = longs.len();
            slots.extend(longs);
            if let Some(name) = name {
                if !ended {
                    let split = n > 0 && slots.len() / per_cluster != (slots.len() - n) / per_cluster;
                    want.push(Want { name, at: at(slots.len()), raw, content: Some(vec![]), sub: vec![], split });
                }
            }
            slots.push(raw);
        };
        let short_name = Name::Short(shown(&short, 0, false));
        match p {
            0 => add(&mut slots, vec![], raw, Some(short_name)),
            1 => add(&mut slots, long(&name1, sum(&short)), raw, Some(Name::Long(name1))),
            2 => add(&mut slots, long(&name2, sum(&short)), raw, Some(Name::Long(name2))),
            3 => {
                raw[0] = 0xe5;
                add(&mut slots, vec![], raw, None);
            }
            4 => slots.extend(long(&name1, sum(&short).wrapping_add(7))),
            5 => slots.push(long(&name2, sum(&short))[0]),
            6 => add(&mut slots, vec![], entry(b"VOLUME     ", 8, 0, 0, 0, 5), None),
            7 => add(&mut slots, vec![], entry(b".          ", 0x10, 0, 0, 0, 5), None),
            8 => {
                let mut l = long(&name2, sum(&short));
                l.iter_mut().for_each(|x| x[0] = 0xe5);
                add(&mut slots, l, raw, Some(short_name));
            }
            9 => {
                slots.push([0; 32]);
                ended = true;
            }
            10 => {
                raw[0] = 0;
                slots.push(raw);
                ended = true;
            }
            11 => {
                raw[0] = 0xe5;
                add(&mut slots, long(&name1, sum(&short)), raw, None);
            }
            _ => add(&mut slots, vec![], entry(b"..         ", 0x10, 0, 0, 0, 5), None),
        }
    }
    (slots, want)
}

fn directories(check: &mut Check) {
    let depth = check.pick(3, 4);
    let k = PIECES.len() as u64;
    // In a fixed root directory, a root directory of clusters and a directory of clusters; across the end of a cluster.
    check.family("directories of pieces", seq_count(k, depth) * 5 * 4, |i, cov| {
        let mut g = Digits(i);
        let (f, sub) = *g.pick(&[(F12, false), (F16, true), (F32, false), (F32, true), (F12, true)]);
        let pad = *g.pick(&[0usize, 13, 14, 15]);
        let seq = seq_decode(k, g.0);
        let names: Vec<&str> = seq.iter().map(|x| PIECES[*x as usize]).collect();
        let key = format!("{f:?} {sub} {pad} {names:?}");
        let mut v = small(f);
        let c: Vec<u32> = if sub { vec![9, 5, 30] } else if f == F32 { vec![2, 7, 6] } else { vec![] };
        v.chain(&c, v.end());
        let at = |slot: usize| -> u64 { if c.is_empty() { v.root_at() + 32 * slot as u64 } else { v.at(c[slot / 16]) + 32 * (slot as u64 % 16) } };
        let (slots, want) = pieces(&seq, pad, if c.is_empty() { 1 << 30 } else { 16 }, &at);
        // Behind the end of a directory of clusters lie entries that are not to be seen.
        let mut d = slots.concat();
        let ghost = entry(b"GHOST   TXT", 0x20, 0, 0, 0, 1);
        if !c.is_empty() {
            if slots.len() % 16 != 0 || slots.is_empty() {
                d.extend([0; 32]);
            }
            let ended = seq.iter().any(|x| *x == 9 || *x == 10);
            if d.len() % 512 != 0 || ended {
                while d.len() < 1536 {
                    d.extend(ghost);
                }
            }
        } else {
            d.extend([0; 32]);
            d.extend(ghost);
        }
        let want = if sub {
            v.store_dir(&c, &d);
            let e = entry(b"DIR        ", 0x10, 0, 9, 0, i);
            with_root(&mut v, &[e]);
            vec![Want { name: Name::Short(b"DIR".to_vec()), at: root_at(&v), raw: e, content: None, sub: want, split: false }]
        } else if f == F32 {
            v.store_dir(&c, &d);
            want
        } else {
            v.root = d;
            want
        };
        let s = Arc::new(v.build());
        fs_is(&sparse(&s), f, &want, cov).map_err(|m| Failure::new(key, m))
    });
    check.family("first entry of a root directory", 2, |i, cov| {
        let mut v = small([F12, F16][i as usize]);
        let raw = entry(b"FIRST      ", 0x20, 0, 0, 0, i);
        with_root(&mut v, &[raw]);
        let fs = open(&sparse(&Arc::new(v.build()))).map_err(|m| Failure::new("open", m))?;
        cov.step();
        let x = fs.get_file_entry_by_identifier(v.root_at() as u32).map_err(|e| Failure::new("not found", err(e)))?;
        let y = fs.get_file_entry_by_path(&FatPath::from("/first")).map_err(|e| Failure::new("path", err(e)))?.ok_or(Failure::new("path", "no entry"))?;
        if y.identifier == x.identifier && x.is_root_directory() {
            return Err(Failure::new("shares the identifier of the directory", format!("identifier {:#x}", x.identifier)));
        }
        Ok(())
    });
    check.family("directories, long names by identifier", 20, |i, cov| {
        // The long name lies in the cluster before that of the short entry.
        let n = i as usize + 1;
        let mut v = small(F12);
        let c = [9u32, 5, 30];
        v.chain(&c, v.end());
        let name: Vec<u16> = (0..13 * n - 3).map(|k| b'a' as u16 + (k % 26) as u16).collect();
        let short = *b"LONG~1     ";
        let mut gone = entry(b"?ADDING TXT", 0x20, 0, 0, 0, 99);
        gone[0] = 0xe5;
        let mut slots = vec![gone; 32 - n];
        slots.extend(long(&name, sum(&short)));
        let raw = entry(&short, 0x20, 0, 0, 0, i);
        slots.push(raw);
        v.store_dir(&c, &slots.concat());
        let e = entry(b"DIR        ", 0x10, 0, 9, 0, i);
        with_root(&mut v, &[e]);
        let w = Want { name: Name::Long(name), at: v.at(30), raw, content: Some(vec![]), sub: vec![], split: false };
        let fs = open(&sparse(&Arc::new(v.build()))).map_err(|m| Failure::new("open", m))?;
        let x = fs.get_file_entry_by_identifier(w.at as u32).map_err(|e| Failure::new("not found", err(e)))?;
        entry_is(&x, &w, false, cov).map_err(|m| Failure::new("wrong entry", m))?;
        entry_is(&x, &w, true, cov).map_err(|m| Failure::new("the long name ends in the cluster before", m))
    });
    // Trees: every directory below every other.
    check.family("trees", 3 * 2 * 256, |i, cov| {
        let mut g = Digits(i);
        let f = *g.pick(&[F12, F16, F32]);
        let longs = g.take(2) == 1;
        let mask = g.take(256);
        let mut v = small(f);
        fn make(v: &mut Vol, next: &mut u32, level: u32, mask: u64, node: u64, longs: bool, parent: u32) -> (u32, Vec<[u8; 32]>, Vec<Want>) {
            // A node of a binary tree; the mask says which nodes are directories.
            let me = if level == 0 { 0 } else { let c = *next; *next += 3; c };
            let mut slots: Vec<[u8; 32]> = vec![];
            let mut want = vec![];
            if level > 0 {
                slots.push(entry(b".          ", 0x10, 0, me, 0, 1));
                slots.push(entry(b"..         ", 0x10, 0, parent, 0, 1));
            }
            for k in 0..2u64 {
                let child = node * 2 + k + 1;
                let isdir = level < 4 && child < 64 && mask >> (child % 8) & 1 == 1;
                let short: [u8; 11] = format!("N{child:<7}{}", ["AAA", "   "][k as usize]).as_bytes().try_into().unwrap();
                let name = if longs { Name::Long(units(&format!("Node number {child} with a name"))) } else { Name::Short(shown(&short, 0, false)) };
                let (raw, content, sub) = if isdir {
                    let (c, s, w) = make(v, next, level + 1, mask, child, longs, me);
                    v.chain(&[c], v.end());
                    v.store_dir(&[c], &s.concat());
                    (entry(&short, 0x10, 0, c, 0, child), None, w)
                } else {
                    let c = *next;
                    *next += 1;
                    let d = pattern(100 + child as usize, child);
                    v.chain(&[c], v.end());
                    v.store(&[c], &d);
                    (entry(&short, 0x21, 0, c, d.len() as u32, child), Some(d), vec![])
                };
                if longs {
                    slots.extend(long(&units(&format!("Node number {child} with a name")), sum(&short)));
                }
                let slot = slots.len() as u64;
                slots.push(raw);
                let at = if level == 0 { root_at(v) } else { v.at(me) } + 32 * slot;
                want.push(Want { name, at, raw, content, sub, split: false });
            }
            (me, slots, want)
        }
        v = Vol::new(f, if f == F12 { 400 } else { v.clusters });
        let mut next = 3;
        let (_, slots, want) = make(&mut v, &mut next, 0, mask, 0, longs, 0);
        with_root(&mut v, &slots);
        fs_is(&sparse(&Arc::new(v.build())), f, &want, cov).map_err(|m| Failure::new(format!("{f:?} {longs} {mask:x}"), m))
    });
}

fn names(check: &mut Check) {
    // Long names of every length over several repertoires.
    check.family("long names", 255 * 4, |i, cov| {
        let (n, kind) = (i as usize / 4 + 1, i % 4);
        let name: Vec<u16> = (0..n)
            .map(|k| match kind {
                0 => b'a' as u16 + ((k * 7 + n) % 26) as u16,
                1 => [0x20ac, 0xd800, 0xdc00, 0xe9, 0x3b1, 0xfffd, 0x100, 0x1][(k + n) % 8],
                2 => [b'.' as u16, b' ' as u16, b'A' as u16, 0x4e2d][(k * k + n) % 4],
                _ => 0xff00 + (k % 250) as u16,
            })
            .collect();
        let f = [F12, F16, F32][n % 3];
        let mut v = small(f);
        if f == F32 {
            let c = [2, 9];
            v.chain(&c, v.end());
        }
        let short = *b"LONG~1  TXT";
        let raw = entry(&short, 0x20, 0, 0, 0, i);
        let mut slots = long(&name, sum(&short));
        let split = f == F32 && slots.len() > 15;
        slots.push(raw);
        let at = if f == F32 && slots.len() > 16 { v.at(9) + (slots.len() as u64 - 17) * 32 } else { root_at(&v) + 32 * (slots.len() as u64 - 1) };
        if f == F32 {
            v.store_dir(&[2, 9], &slots.concat());
        } else {
            with_root(&mut v, &slots);
        }
        let w = Want { name: Name::Long(name), at, raw, content: Some(vec![]), sub: vec![], split };
        fs_is(&sparse(&Arc::new(v.build())), f, &[w], cov).map_err(|m| Failure::new(format!("{n} {kind}"), m))
    });
    // Short names of every shape.
    let chars: [u8; 8] = [b'A', b'Z', b'0', b'~', b'-', b' ', b'_', b'\''];
    check.family("short names", 9 * 4 * 4 * 8 * 4, |i, cov| {
        let mut g = Digits(i);
        let (n, m) = (g.take(9) as usize, g.take(4) as usize);
        let flags = *g.pick(&[0u8, 8, 16, 24]);
        let salt = g.take(8) as usize;
        let extra = *g.pick(&[0u8, 1, 3, 0xe0]);
        if n == 0 {
            return Ok(());
        }
        let mut short = [b' '; 11];
        for k in 0..n {
            short[k] = chars[(k * 3 + salt) % 8];
        }
        for k in 0..m {
            short[8 + k] = chars[(k * 5 + salt + 1) % 8];
        }
        // No leading space and no space before the end of a part.
        if short[0] == b' ' || m > 0 && short[8] == b' ' {
            return Ok(());
        }
        let f = [F12, F16, F32][(n + m) % 3];
        let mut v = small(f);
        let e = entry(&short, 0x20, flags | extra, 0, 0, i);
        let other = entry(b"OTHER   ONE", 0x20, 0, 0, 0, i);
        with_root(&mut v, &[other, e]);
        let w = Want { name: Name::Short(shown(&short, flags, false)), at: root_at(&v) + 32, raw: e, content: Some(vec![]), sub: vec![], split: false };
        let o = Want { name: Name::Short(b"OTHER.ONE".to_vec()), at: root_at(&v), raw: other, content: Some(vec![]), sub: vec![], split: false };
        fs_is(&sparse(&Arc::new(v.build())), f, &[w, o], cov).map_err(|m| Failure::new(format!("{:?} {flags:#x} {extra:#x}", String::from_utf8_lossy(&short)), m))
    });
    // Every byte in a short name, every value of the attributes, and of the flags.
    check.family("bytes of an entry", 3 * 256, |i, cov| {
        let (what, b) = (i / 256, (i % 256) as u8);
        let mut short = *b"NAME    EXT";
        let (mut attributes, mut flags) = (0x20, 0);
        match what {
            0 => short[2] = b,
            1 => attributes = b,
            _ => flags = b,
        }
        if what == 0 && (b == 0 || b.is_ascii_lowercase()) {
            return Ok(());
        }
        let f = [F12, F16, F32][(b % 3) as usize];
        let mut v = small(f);
        v.chain(&[5], v.end());
        let d = pattern(200, i);
        let dir = attributes & 0x58 == 0x10;
        if dir {
            v.store_dir(&[5], &[]);
        } else {
            v.store(&[5], &d);
        }
        let e = entry(&short, attributes, flags, 5, 200, i);
        with_root(&mut v, &[e]);
        let label = attributes & 0x58 == 8;
        let w = Want { name: Name::Short(shown(&short, flags, false)), at: root_at(&v), raw: e, content: Some(d).filter(|_| !dir), sub: vec![], split: false };
        fs_is(&sparse(&Arc::new(v.build())), f, if label { &[] } else { std::slice::from_ref(&w) }, cov).map_err(|m| Failure::new(format!("{what} {b:#x}"), m))
    });
    // Times: every bit.
    check.family("times of an entry", 9 * 256, |i, cov| {
        let (at, b) = ([13, 14, 15, 16, 17, 18, 19, 22, 24][(i / 256) as usize], (i % 256) as u8);
        let mut e = entry(b"TIME       ", 0x20, 0, 0, 0, 7);
        e[at] = b;
        let mut v = small(F16);
        with_root(&mut v, &[e]);
        let w = Want { name: Name::Short(b"TIME".to_vec()), at: root_at(&v), raw: e, content: Some(vec![]), sub: vec![], split: false };
        fs_is(&sparse(&Arc::new(v.build())), F16, &[w], cov).map_err(|m| Failure::new(format!("{at} {b:#x}"), m))
    });
}

fn environment(check: &mut Check) {
    let sample = |f: F| -> (Vol, Vec<u8>) {
        let mut v = small(f);
        let c = [12u32, 5, 9];
        v.chain(&c, v.end());
        let content = pattern(1300, 3);
        v.store(&c, &content);
        v.chain(&[4, 3], v.end());
        let mut slots = vec![entry(b".          ", 0x10, 0, 4, 0, 1), entry(b"..         ", 0x10, 0, 0, 0, 1)];
        let mut gone = slots[0];
        gone[0] = 0xe5;
        slots.resize(14, gone);
        slots.extend(long(&units("A long file name"), sum(b"ALONGF~1   ")));
        slots.push(entry(b"ALONGF~1   ", 0x20, 0, 12, 1300, 1));
        v.store_dir(&[4, 3], &slots.concat());
        with_root(&mut v, &[entry(b"DIR        ", 0x10, 0, 4, 0, 1)]);
        (v, content)
    };
    let path = "/dir/a long file name";
    let get = move |fs: &FatFileSystem| -> Result<DataStreamReference, String> { fs.get_file_entry_by_path(&FatPath::from(path)).map_err(err)?.ok_or("no entry")?.get_data_stream().map_err(err)?.ok_or("no data stream".into()) };
    // Every read fails once.
    check.family("faults", 3 * 64, |i, cov| {
        let f = [F12, F16, F32][(i / 64) as usize];
        let (v, content) = sample(f);
        let s = Arc::new(v.build());
        let n = (i % 64) as i64;
        let key = format!("{f:?} {n}");
        let fuse = Arc::new(AtomicI64::new(n));
        let stream: DataStreamReference = Arc::new(RwLock::new(Sparse::with_fuse(&s, &fuse)));
        cov.trace();
        let r = guarded(|| -> Result<(), String> {
            for pass in 0..2 {
                let before = fuse.load(Ordering::Relaxed);
                let r = open(&stream).and_then(|fs| {
                    let mut d = get(&fs);
                    if d.is_err() && before >= 0 && fuse.load(Ordering::Relaxed) < 0 {
                        // The failure is not remembered.
                        d = get(&fs);
                    }
                    let d = d?;
                    let mut g = window(&d, &content, 0, 1300, cov);
                    if g.is_err() && before >= 0 && fuse.load(Ordering::Relaxed) < 0 {
                        g = window(&d, &content, 0, 1300, cov);
                    }
                    g
                });
                let hit = before >= 0 && fuse.load(Ordering::Relaxed) < 0;
                match r {
                    Ok(()) => {}
                    Err(_) if hit => {}
                    Err(m) => return Err(format!("pass {pass}: {m}")),
                }
            }
            Ok(())
        });
        r.unwrap_or_else(Err).map_err(|m| Failure::new(key, m))
    });
    // The volume is cut at every offset.
    let step = check.pick(7u64, 1);
    check.family("truncation", 3 * 30000 / step, |i, cov| {
        let f = [F12, F16, F32][(i % 3) as usize];
        let (v, content) = sample(f);
        let mut s = v.build();
        // The offsets around what is stored.
        let mut ranges: Vec<(u64, u64)> = s.segs.iter().map(|(a, d)| (*a, *a + d.len() as u64)).collect();
        ranges.push((s.size - 2, s.size));
        let mut k = i / 3 * step;
        let Some(cut) = ranges.iter().find_map(|(a, b)| {
            if k < b - a {
                Some(a + k)
            } else {
                k -= b - a;
                None
            }
        }) else {
            return Ok(());
        };
        let old = std::mem::take(&mut s.segs);
        for (a, d) in old {
            if a < cut {
                s.segs.insert(a, Arc::new(d[..((cut - a) as usize).min(d.len())].to_vec()));
            }
        }
        s.size = cut;
        let stream = sparse(&Arc::new(s));
        cov.step();
        let r = guarded(|| -> Result<(), String> {
            let Ok(fs) = open(&stream) else { return Ok(()) };
            let Ok(e) = fs.get_file_entry_by_path(&FatPath::from(path)) else { return Ok(()) };
            let e = e.ok_or("the entry is missing")?;
            let Ok(Some(d)) = e.get_data_stream() else { return Ok(()) };
            for (at, len) in [(0, 1300), (0, 512), (500, 100), (1024, 276), (1299, 1)] {
                right_or_less(&d, &content, at, len, cov)?;
            }
            Ok(())
        });
        r.unwrap_or_else(Err).map_err(|m| Failure::new(format!("{f:?} {cut}"), m))
    });
    // Every identifier, in and out of bounds.
    check.family("identifiers", 3 * 4000, |i, cov| {
        let f = [F12, F16, F32][(i % 3) as usize];
        let k = i / 3;
        let (v, _) = sample(f);
        let id = match k {
            0..100 => k as u32,
            100..130 => (v.first() - 115 + k) as u32,
            130..160 => (v.sectors() * v.bps - 145 + k) as u32,
            160..200 => u32::MAX - (k as u32 - 160),
            _ => (v.root_at() - 64 + (k - 200) * 16) as u32,
        };
        let fs = open(&sparse(&Arc::new(v.build()))).map_err(|m| Failure::new("open", m))?;
        cov.step();
        let r = guarded(|| {
            if let Ok(mut e) = fs.get_file_entry_by_identifier(id) {
                let _ = e.get_name();
                let n = e.get_number_of_sub_file_entries().unwrap_or(0);
                for k in 0..n.min(3) {
                    let _ = e.get_sub_file_entry_by_index(k);
                }
                if let Ok(Some(s)) = e.get_data_stream() {
                    let _ = s.write().unwrap().read_at_position_any(&mut [0; 99], 0);
                }
                cov.outcome(&n);
            }
        });
        r.map_err(|m| Failure::new(format!("{f:?} {id}"), m))
    });
    // Each byte of the directory and the table takes every value of a set.
    let values: [u8; 6] = [0, 1, 0x0f, 0x42, 0xe5, 0xff];
    check.family("damaged entries", 3 * 32 * 10 * 6, |i, cov| {
        let mut g = Digits(i);
        let f = *g.pick(&[F12, F16, F32]);
        let b = *g.pick(&values);
        let at = g.take(320) as usize;
        let (mut v, _) = sample(f);
        let (which, off) = match at {
            0..32 => (if f == F32 { 2 } else { 0 }, at),
            32..96 => (4, at - 32),
            96..160 => (4, 512 - 64 + at - 96),
            160..224 => (3, at - 160),
            _ => return Ok(()),
        };
        if which == 0 {
            v.root[off] = b;
        } else {
            v.data.get_mut(&which).unwrap()[off] = b;
        }
        let fs = match open(&sparse(&Arc::new(v.build()))) {
            Ok(fs) => fs,
            Err(_) if which < 3 => return Ok(()),
            Err(m) => return Err(Failure::new("open", m)),
        };
        cov.step();
        fn walk(e: &mut FatFileEntry, depth: u32, cov: &mut Cov) {
            let n = e.get_number_of_sub_file_entries().unwrap_or(0);
            cov.outcome(&(depth, n));
            for k in 0..n {
                if let Ok(mut s) = e.get_sub_file_entry_by_index(k) {
                    if let Some(n) = s.get_name() {
                        let _ = e.get_sub_file_entry_by_name(&n);
                    }
                    if let Ok(Some(d)) = s.get_data_stream() {
                        let _ = d.write().unwrap().read_at_position_any(&mut [0; 2000], 0);
                    }
                    if depth < 3 {
                        walk(&mut s, depth + 1, cov);
                    }
                }
            }
        }
        let r = guarded(|| {
            if let Ok(mut r) = fs.get_root_directory() {
                walk(&mut r, 0, cov);
            }
        });
        r.map_err(|m| Failure::new(format!("{f:?} {which} {off} {b:#x}"), m))
    });
    // Volumes beyond 4 GiB.
    check.family("large volumes", 12, |i, cov| {
        let spc = [1u64, 8, 64, 128][(i % 4) as usize];
        let place = i / 4;
        let n = (9u64 << 30) / (512 * spc);
        let mut v = Vol::new(F32, n);
        v.spc = spc;
        v.size_table();
        let top = n as u32 + 1;
        let mid = ((4u64 << 30) / (512 * spc)) as u32 + 1;
        let c = [[top, 5, top - 1], [mid, mid - 1, mid + 7], [65536, 65535, 131072]][place as usize];
        let c: Vec<u32> = c.iter().copied().filter(|x| *x <= top).collect();
        v.chain(&c, v.end());
        let content = pattern(c.len() * (512 * spc) as usize - 100, i);
        v.store(&c, &content);
        let e = entry(b"BIG     BIN", 0x20, 0, c[0], content.len() as u32, i);
        with_root(&mut v, &[e]);
        let w = Want { name: Name::Short(b"BIG.BIN".to_vec()), at: root_at(&v), raw: e, content: Some(content), sub: vec![], split: false };
        fs_is(&sparse(&Arc::new(v.build())), F32, &[w], cov).map_err(|m| Failure::new(format!("{spc} {place}"), m))
    });
    check.family("directories beyond 4 GiB", 3, |i, cov| {
        let spc = [8u64, 64, 128][i as usize];
        let n = (9u64 << 30) / (512 * spc);
        let mut v = Vol::new(F32, n);
        v.spc = spc;
        v.size_table();
        let (d, c) = (n as u32 - 3, n as u32 - 9);
        v.chain(&[d], v.end());
        v.chain(&[c], v.end());
        let content = pattern(1000, i);
        v.store(&[c], &content);
        let x = entry(b"FAR     BIN", 0x20, 0, c, 1000, i);
        v.store_dir(&[d], &x);
        let e = entry(b"DIR        ", 0x10, 0, d, 0, i);
        with_root(&mut v, &[e]);
        let far = v.at(d);
        let fs = open(&sparse(&Arc::new(v.build()))).map_err(|m| Failure::new("open", m))?;
        let get = |p: &str| -> Result<FatFileEntry, String> { fs.get_file_entry_by_path(&FatPath::from(p)).map_err(err)?.ok_or("no entry".into()) };
        let s = get("/dir/far.bin").and_then(|e| e.get_data_stream().map_err(err)?.ok_or("no data stream".into())).map_err(|m| Failure::new("open file", m))?;
        window(&s, &content, 0, 2000, cov).map_err(|m| Failure::new("content", m))?;
        let id = get("/dir/far.bin").map_err(|m| Failure::new("entry", m))?.identifier;
        if id as u64 != far {
            return Err(Failure::new("identifiers have 32 bits", format!("identifier {id:#x} of the entry at {far:#x}")));
        }
        Ok(())
    });
}

fn paths(check: &mut Check) {
    // Paths as text: what is joined is split again; parent, name, stem and extension agree.
    let parts = ["", "a", "b.c", ".h", "x.", "d.e.f", "A B"];
    let depth = check.pick(4, 5);
    check.family("paths", seq_count(7, depth), |i, cov| {
        let seq = seq_decode(7, i);
        let c: Vec<&str> = seq.iter().map(|x| parts[*x as usize]).collect();
        let key = format!("{c:?}");
        let fail = |m: String| -> CaseResult { Err(Failure::new(key.clone(), m)) };
        cov.step();
        let text = c.join("/");
        let p = FatPath::from(&text);
        let q = FatPath::from(&c);
        if c.len() > 1 && c != ["", ""] {
            if p != q {
                return fail(format!("from text {p:?}, from components {q:?}"));
            }
            if p.to_string() != text {
                return fail(format!("as text {:?}", p.to_string()));
            }
            let last = FatString::from(*c.last().unwrap());
            if p.file_name() != Some(&last) {
                return fail(format!("file name {:?}", p.file_name()));
            }
            let parent = p.new_with_parent_directory();
            if parent.components != q.components[..c.len() - 1] {
                return fail(format!("parent {parent:?}"));
            }
            if parent.new_with_join(&[last.clone()]) != p {
                return fail("parent joined with the file name".into());
            }
            let std = std::path::PathBuf::from(c.last().unwrap());
            if !c.last().unwrap().is_empty() {
                let ext = std.extension().map(|x| FatString::from(x.to_str().unwrap()));
                let stem = std.file_stem().map(|x| FatString::from(x.to_str().unwrap()));
                if p.extension() != ext || p.file_stem() != stem {
                    return fail(format!("extension {:?}, stem {:?}", p.extension(), p.file_stem()));
                }
            }
            let mut r = parent.clone();
            r.push(last);
            if r != p {
                return fail("parent with the file name appended".into());
            }
        }
        if p.is_empty() != text.is_empty() {
            return fail("is empty".into());
        }
        cov.outcome(&p.to_string());
        Ok(())
    });
}

pub fn main() {
    let mut check = Check::new("C27");
    check.assume("names are looked up by the name they are shown with (a long name hides the short one), letters in either case where they are ASCII");
    check.assume("a part of a long name without its first entry may make the directory unreadable");
    chains(&mut check);
    formats(&mut check);
    directories(&mut check);
    names(&mut check);
    environment(&mut check);
    paths(&mut check);
    check.finish();
}
