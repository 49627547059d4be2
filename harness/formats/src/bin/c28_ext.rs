// C28: extended file systems (ext2, ext3, ext4).
use keramics_core::DataStreamReference;
use keramics_datetime::DateTime;
use keramics_encodings::CharacterEncoding;
use keramics_formats::ext::{ExtFileEntry, ExtFileSystem, ExtPath};
use keramics_types::ByteString;
use mc_engine::util::{Digits, composition, hash64, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, RwLock};

const FIFO: u16 = 0x1000;
const CHAR: u16 = 0x2000;
const DIR: u16 = 0x4000;
const BLOCK: u16 = 0x6000;
const FILE: u16 = 0x8000;
const LINK: u16 = 0xa000;
const SOCK: u16 = 0xc000;

/// CRC-32C without the final inversion.
fn crc(mut c: u32, data: &[u8]) -> u32 {
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0x82f63b78 } else { c >> 1 };
        }
    }
    c
}

#[derive(Clone, Debug)]
struct Ino {
    mode: u16,
    uid: u32,
    gid: u32,
    size: u64,
    /// Access, change, modification, deletion.
    times: [i32; 4],
    links: u16,
    sectors: u64,
    flags: u32,
    refs: [u8; 60],
    generation: u32,
    /// Size of the part after the first 128 bytes.
    extra: u16,
    /// Change, modification, access: extra precision; creation: time and extra precision.
    precise: [u32; 5],
    /// What follows the extension.
    tail: Vec<u8>,
    /// Attributes in the tail.
    attributes: usize,
}

impl Ino {
    fn new(mode: u16, number: u32) -> Ino {
        let h = hash64(&number);
        Ino {
            mode: mode | (h & 0xfff) as u16,
            uid: (h >> 12) as u32,
            gid: (h >> 24) as u32,
            size: 0,
            times: [1_600_000_000 + (h >> 40) as i32 % 1000, 1_600_001_000 + (h >> 41) as i32 % 1000, 1_600_002_000 + (h >> 42) as i32 % 1000, 0],
            links: 1 + (h >> 50) as u16 % 5,
            sectors: 0,
            flags: 0,
            refs: [0; 60],
            generation: (h >> 7) as u32,
            extra: 32,
            precise: [0; 5],
            tail: vec![],
            attributes: 0,
        }
    }
    fn kind(&self) -> u16 {
        self.mode & 0xf000
    }
    fn refs_at(&self, k: usize) -> u32 {
        u32::from_le_bytes(self.refs[4 * k..4 * k + 4].try_into().unwrap())
    }
    fn set_ref(&mut self, k: usize, v: u32) {
        self.refs[4 * k..4 * k + 4].copy_from_slice(&v.to_le_bytes());
    }
    fn bytes(&self, v: &Vol, number: u32) -> Vec<u8> {
        let mut b = vec![0u8; v.inode_size as usize];
        p16l(&mut b, 0, self.mode);
        p16l(&mut b, 2, self.uid as u16);
        p16l(&mut b, 120, (self.uid >> 16) as u16);
        p16l(&mut b, 24, self.gid as u16);
        p16l(&mut b, 122, (self.gid >> 16) as u16);
        p32l(&mut b, 4, self.size as u32);
        p32l(&mut b, 108, (self.size >> 32) as u32);
        for k in 0..4 {
            p32l(&mut b, 8 + 4 * k, self.times[k] as u32);
        }
        p16l(&mut b, 26, self.links);
        p32l(&mut b, 28, self.sectors as u32);
        if v.version() == 4 {
            p16l(&mut b, 116, (self.sectors >> 32) as u16);
        }
        p32l(&mut b, 32, self.flags);
        b[40..100].copy_from_slice(&self.refs);
        p32l(&mut b, 100, self.generation);
        let n = b.len();
        if n > 128 {
            p16l(&mut b, 128, self.extra);
            let mut x = vec![0u8; 28];
            p32l(&mut x, 0, self.precise[0]);
            p32l(&mut x, 4, self.precise[1]);
            p32l(&mut x, 8, self.precise[2]);
            p32l(&mut x, 12, self.precise[3]);
            p32l(&mut x, 16, self.precise[4]);
            x[20..24].copy_from_slice(&[0x11, 0x22, 0x33, 0x44]);
            let e = (self.extra as usize).clamp(4, 32) - 4;
            let e = e.min(n - 132);
            b[132..132 + e].copy_from_slice(&x[..e]);
            let at = 128 + self.extra as usize;
            let t = self.tail.len().min(n.saturating_sub(at));
            b[at.min(n)..at.min(n) + t].copy_from_slice(&self.tail[..t]);
        }
        if v.ro & 0x400 != 0 {
            let mut c = crc(v.seed(), &number.to_le_bytes());
            c = crc(c, &self.generation.to_le_bytes());
            c = crc(c, &b);
            p16l(&mut b, 124, c as u16);
            if n > 128 && self.extra >= 4 {
                p16l(&mut b, 130, (c >> 16) as u16);
            }
        }
        b
    }
}

#[derive(Clone)]
struct Want {
    name: Vec<u8>,
    number: u32,
    ino: Ino,
    content: Option<Arc<Segs>>,
    target: Option<Vec<u8>>,
    sub: Vec<Want>,
}

impl Want {
    fn new(name: &str, number: u32, ino: Ino) -> Want {
        Want { name: name.as_bytes().to_vec(), number, ino, content: None, target: None, sub: vec![] }
    }
    fn sum(&self) -> u64 {
        let sub: Vec<u64> = self.sub.iter().map(|w| w.sum()).collect();
        hash64(&(&self.name, format!("{:?}", self.ino), sub))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Backup {
    Right,
    Zero,
    Garbage,
    Stale,
}

#[derive(Clone)]
struct Vol {
    bs: u64,
    rev: u32,
    inode_size: u64,
    compat: u32,
    incompat: u32,
    ro: u32,
    bpg: u64,
    ipg: u64,
    blocks: u64,
    stored_seed: Option<u32>,
    label: [u8; 16],
    mount: [u8; 64],
    times: [i32; 2],
    uuid: [u8; 16],
    tables: Vec<u64>,
    inodes: BTreeMap<u32, Ino>,
    data: BTreeMap<u64, Vec<u8>>,
    next: u64,
    step: u64,
    backup: Backup,
}

impl Vol {
    /// A volume of one block group.
    fn new(version: u8, bs: u64) -> Vol {
        Vol {
            bs,
            rev: 1,
            inode_size: if version == 4 { 256 } else { 128 },
            compat: if version == 3 { 0x24 } else { 0x20 },
            incompat: if version == 4 { 0x42 } else { 0x02 },
            ro: 3,
            bpg: 8 * bs,
            ipg: 64,
            blocks: 4096,
            stored_seed: None,
            label: *b"volume\0\0\0\0\0\0\0\0\0\0",
            mount: [0; 64],
            times: [0, 0],
            uuid: *b"\x75\x12abcdefgh\xf0\xe1ijkl",
            tables: vec![10],
            inodes: BTreeMap::new(),
            data: BTreeMap::new(),
            next: 60,
            step: 1,
            backup: Backup::Right,
        }
    }
    fn version(&self) -> u8 {
        if self.compat & 0x200 != 0 || self.incompat & 0x3f7c0 != 0 || self.ro & 0x778 != 0 {
            4
        } else if self.compat & 4 != 0 || self.incompat & 0xc != 0 {
            3
        } else {
            2
        }
    }
    fn seed(&self) -> u32 {
        self.stored_seed.unwrap_or(crc(!0, &self.uuid))
    }
    fn first(&self) -> u64 {
        (self.bs == 1024) as u64
    }
    fn groups(&self) -> u64 {
        (self.blocks - self.first()).div_ceil(self.bpg)
    }
    fn desc(&self) -> u64 {
        if self.incompat & 0x80 != 0 { 64 } else { 32 }
    }
    fn has_super(&self, g: u64) -> bool {
        let power = |mut n: u64, p: u64| {
            while n % p == 0 {
                n /= p;
            }
            n == 1
        };
        g == 0 || if self.compat & 0x200 != 0 { false } else { self.ro & 1 == 0 || g == 1 || power(g, 3) || power(g, 5) || power(g, 7) }
    }
    fn alloc(&mut self) -> u64 {
        let b = self.next;
        self.next += self.step;
        b
    }
    fn superblock(&self, group: u64) -> Vec<u8> {
        let mut b = vec![0u8; 1024];
        p32l(&mut b, 0, (self.groups() * self.ipg) as u32);
        p32l(&mut b, 4, self.blocks as u32);
        p32l(&mut b, 20, self.first() as u32);
        p32l(&mut b, 24, (self.bs / 1024).trailing_zeros());
        p32l(&mut b, 28, (self.bs / 1024).trailing_zeros());
        p32l(&mut b, 32, self.bpg as u32);
        p32l(&mut b, 36, self.bpg as u32);
        p32l(&mut b, 40, self.ipg as u32);
        p32l(&mut b, 44, self.times[0] as u32);
        p32l(&mut b, 48, self.times[1] as u32);
        b[56] = 0x53;
        b[57] = 0xef;
        b[58] = 1;
        p32l(&mut b, 76, self.rev);
        if self.rev > 0 {
            p32l(&mut b, 84, 11);
            p16l(&mut b, 88, self.inode_size as u16);
        }
        p16l(&mut b, 90, group as u16);
        p32l(&mut b, 92, self.compat);
        p32l(&mut b, 96, self.incompat);
        p32l(&mut b, 100, self.ro);
        b[104..120].copy_from_slice(&self.uuid);
        b[120..136].copy_from_slice(&self.label);
        b[136..200].copy_from_slice(&self.mount);
        if self.incompat & 0x80 != 0 {
            p16l(&mut b, 254, 64);
            p32l(&mut b, 336, (self.blocks >> 32) as u32);
        } else {
            // Not to be used.
            p32l(&mut b, 336, 0x55);
        }
        b[372] = 4;
        if let Some(s) = self.stored_seed {
            p32l(&mut b, 624, s);
        }
        if self.ro & 0x400 != 0 {
            b[373] = 1;
            let c = crc(!0, &b[..1020]);
            p32l(&mut b, 1020, c);
        }
        b
    }
    fn descriptors(&self) -> Vec<u8> {
        let n = self.desc() as usize;
        let mut t = vec![];
        for (g, at) in self.tables.iter().enumerate() {
            let mut d = vec![0u8; n];
            p32l(&mut d, 0, 3);
            p32l(&mut d, 4, 4);
            p32l(&mut d, 8, *at as u32);
            p16l(&mut d, 12, 77);
            p16l(&mut d, 16, 1);
            if n > 32 {
                p32l(&mut d, 40, (*at >> 32) as u32);
                p32l(&mut d, 60, 0x12345678);
            }
            if self.ro & 0x400 != 0 {
                let c = crc(crc(self.seed(), &(g as u32).to_le_bytes()), &d);
                p16l(&mut d, 30, c as u16);
            }
            t.extend(d);
        }
        t
    }
    fn table_at(&self, number: u32) -> u64 {
        let g = (number as u64 - 1) / self.ipg;
        self.tables[g as usize] * self.bs + (number as u64 - 1) % self.ipg * self.inode_size
    }
    fn build(&self) -> Segs {
        let mut s = Segs::default();
        for g in 0..self.groups() {
            if !self.has_super(g) {
                continue;
            }
            let at = (self.first() + g * self.bpg) * self.bs;
            let sb = if g == 0 { 1024 } else { at };
            let mut b = self.superblock(g);
            let mut d = self.descriptors();
            if g > 0 {
                match self.backup {
                    Backup::Right => {}
                    Backup::Zero => {
                        b.fill(0);
                        d.fill(0);
                    }
                    Backup::Garbage => {
                        b.iter_mut().enumerate().for_each(|(i, x)| *x = (i * 7 + 3) as u8);
                        d.iter_mut().enumerate().for_each(|(i, x)| *x = (i * 11 + 5) as u8);
                    }
                    Backup::Stale => {
                        for x in d.chunks_mut(self.desc() as usize) {
                            p32l(x, 8, 0x777);
                        }
                    }
                }
            }
            s.put(sb, b);
            s.put(at + self.bs, d);
        }
        for (n, ino) in &self.inodes {
            s.put(self.table_at(*n), ino.bytes(self, *n));
        }
        for (b, d) in &self.data {
            s.put(b * self.bs, d.clone());
        }
        s.size = s.size.max(self.blocks * self.bs);
        s
    }
    /// Stores blocks by number and gives the numbers of the blocks they are in.
    fn store(&mut self, blocks: &[(u64, Vec<u8>)]) -> Vec<(u64, u64)> {
        blocks
            .iter()
            .map(|(l, d)| {
                let p = self.alloc();
                self.data.insert(p, d.clone());
                (*l, p)
            })
            .collect()
    }
    /// The block numbers of an inode.
    fn map_blocks(&mut self, ino: &mut Ino, at: &[(u64, u64)]) {
        let n = self.bs / 4;
        for (l, p) in at {
            let mut l = *l;
            if l < 12 {
                ino.set_ref(l as usize, *p as u32);
                continue;
            }
            l -= 12;
            let mut depth = 1;
            while l >= n.pow(depth) {
                l -= n.pow(depth);
                depth += 1;
            }
            let k = 11 + depth as usize;
            if ino.refs_at(k) == 0 {
                let b = self.alloc();
                self.data.insert(b, vec![0; self.bs as usize]);
                ino.set_ref(k, b as u32);
            }
            let mut node = ino.refs_at(k) as u64;
            for level in (0..depth).rev() {
                let i = (l / n.pow(level)) as usize;
                l %= n.pow(level);
                if level == 0 {
                    p32l(self.data.get_mut(&node).unwrap(), 4 * i, *p as u32);
                } else {
                    let d = &self.data[&node];
                    let mut sub = u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap()) as u64;
                    if sub == 0 {
                        sub = self.alloc();
                        self.data.insert(sub, vec![0; self.bs as usize]);
                        p32l(self.data.get_mut(&node).unwrap(), 4 * i, sub as u32);
                    }
                    node = sub;
                }
            }
        }
    }
    /// An extents tree of an inode: extents are (logical, length, physical); nodes hold `fan` of them.
    fn map_extents(&mut self, ino: &mut Ino, extents: &[(u64, u16, u64)], fan: usize, levels: u16) {
        ino.flags |= 0x80000;
        let mut entries: Vec<[u8; 12]> = extents
            .iter()
            .map(|(l, n, p)| {
                let mut e = [0u8; 12];
                p32l(&mut e, 0, *l as u32);
                p16l(&mut e, 4, *n);
                p16l(&mut e, 6, (*p >> 32) as u16);
                p32l(&mut e, 8, *p as u32);
                e
            })
            .collect();
        for depth in 0..levels {
            let mut up = vec![];
            for c in entries.chunks(fan.max(1)) {
                let b = self.alloc();
                let mut d = vec![0u8; self.bs as usize];
                d[..12].copy_from_slice(&node_header(c.len() as u16, ((self.bs - 12) / 12) as u16, depth));
                for (i, e) in c.iter().enumerate() {
                    d[12 + 12 * i..24 + 12 * i].copy_from_slice(e);
                }
                self.data.insert(b, d);
                let mut e = [0u8; 12];
                e[..4].copy_from_slice(&c[0][..4]);
                p32l(&mut e, 4, b as u32);
                p16l(&mut e, 8, (b >> 32) as u16);
                up.push(e);
            }
            entries = up;
        }
        assert!(entries.len() <= 4);
        ino.refs = [0; 60];
        ino.refs[..12].copy_from_slice(&node_header(entries.len() as u16, 4, levels));
        for (i, e) in entries.iter().enumerate() {
            ino.refs[12 + 12 * i..24 + 12 * i].copy_from_slice(e);
        }
    }
    /// Stores the content of an inode, one run of blocks without holes.
    fn fill(&mut self, ino: &mut Ino, content: &[u8]) {
        let bs = self.bs as usize;
        let blocks: Vec<(u64, Vec<u8>)> = content
            .chunks(bs)
            .enumerate()
            .map(|(i, c)| {
                let mut d = c.to_vec();
                // What lies behind the end of the data.
                d.resize(bs, 0xbb);
                (i as u64, d)
            })
            .collect();
        let at = self.store(&blocks);
        ino.size = content.len() as u64;
        ino.sectors = at.len() as u64 * self.bs / 512;
        if self.version() == 4 {
            let mut x: Vec<(u64, u16, u64)> = vec![];
            for (l, p) in at {
                match x.last_mut() {
                    Some(e) if e.2 + e.1 as u64 == p => e.1 += 1,
                    _ => x.push((l, 1, p)),
                }
            }
            let levels = (x.len() > 4) as u16;
            let fan = if levels == 0 { 4 } else { ((self.bs - 12) / 12) as usize };
            self.map_extents(ino, &x, fan, levels);
        } else {
            self.map_blocks(ino, &at);
        }
    }
    fn file(&mut self, name: &str, number: u32, content: &[u8]) -> Want {
        let mut ino = Ino::new(FILE, number);
        self.fill(&mut ino, content);
        self.inodes.insert(number, ino.clone());
        let mut w = Want::new(name, number, ino);
        w.content = Some(segs(content));
        w
    }
    fn dir(&mut self, name: &str, number: u32, parent: u32, sub: Vec<Want>) -> Want {
        let mut ino = Ino::new(DIR, number);
        let mut e = vec![dirent(number, b".", 2), dirent(parent, b"..", 2)];
        e.extend(sub.iter().map(|w| dirent(w.number, &w.name, 0)));
        let d = dir_blocks(&e, self.bs as usize);
        self.fill(&mut ino, &d);
        self.inodes.insert(number, ino.clone());
        let mut w = Want::new(name, number, ino);
        w.sub = sub;
        w
    }
    fn root(&mut self, sub: Vec<Want>) -> Want {
        self.dir("", 2, 2, sub)
    }
    fn other(&mut self, name: &str, number: u32, ino: Ino) -> Want {
        self.inodes.insert(number, ino.clone());
        Want::new(name, number, ino)
    }
    fn link(&mut self, name: &str, number: u32, target: &[u8]) -> Want {
        let mut ino = Ino::new(LINK, number);
        if target.len() < 60 {
            ino.size = target.len() as u64;
            ino.refs[..target.len()].copy_from_slice(target);
        } else {
            self.fill(&mut ino, target);
        }
        let mut w = self.other(name, number, ino);
        w.target = Some(target.to_vec());
        w
    }
}

fn node_header(n: u16, max: u16, depth: u16) -> [u8; 12] {
    let mut h = [0u8; 12];
    h[0] = 0x0a;
    h[1] = 0xf3;
    p16l(&mut h, 2, n);
    p16l(&mut h, 4, max);
    p16l(&mut h, 6, depth);
    h
}

fn segs(content: &[u8]) -> Arc<Segs> {
    let mut s = Segs::default();
    s.put(0, content.to_vec());
    s.size = content.len() as u64;
    Arc::new(s)
}

/// A directory entry of the least size.
fn dirent(number: u32, name: &[u8], kind: u8) -> Vec<u8> {
    let n = (8 + name.len()).div_ceil(4) * 4;
    let mut e = vec![0u8; n];
    p32l(&mut e, 0, number);
    p16l(&mut e, 4, n as u16);
    e[6] = name.len() as u8;
    e[7] = kind;
    e[8..8 + name.len()].copy_from_slice(name);
    e
}

/// Packs entries into blocks; the last one of a block takes what is left of it.
fn dir_blocks(entries: &[Vec<u8>], bs: usize) -> Vec<u8> {
    let mut d: Vec<u8> = vec![];
    let mut last = 0;
    let close = |d: &mut Vec<u8>, last: usize| {
        let end = d.len().div_ceil(bs) * bs;
        let n = end - last;
        d.resize(end, 0);
        // A whole block of 64 KiB has a size of its own.
        p16l(d, last + 4, if n > 65535 { 65535 } else { n as u16 });
    };
    for e in entries {
        if d.len() % bs + e.len() > bs || (!d.is_empty() && d.len() % bs == 0) {
            close(&mut d, last);
        }
        last = d.len();
        d.extend(e);
    }
    if !d.is_empty() {
        close(&mut d, last);
    }
    d
}

/// Bytes that tell which block they are of.
fn block(tag: u64, bs: u64) -> Vec<u8> {
    let mut d = vec![];
    for i in 0..bs / 16 {
        d.extend((tag << 32 | 0x80000000 | i).to_le_bytes());
        d.extend(hash64(&(tag, i)).to_le_bytes());
    }
    d
}

fn text(n: usize, salt: u64) -> Vec<u8> {
    let mut d: Vec<u8> = (0..n.div_ceil(1024) as u64).flat_map(|k| block(salt * 4096 + k, 1024)).collect();
    d.truncate(n);
    d
}

fn open(s: &DataStreamReference) -> Result<ExtFileSystem, String> {
    let mut v = ExtFileSystem::new();
    v.read_data_stream(s).map_err(err)?;
    Ok(v)
}

fn when(d: Option<&DateTime>) -> Result<Option<(i64, u32)>, String> {
    Ok(match d {
        None | Some(DateTime::NotSet) => None,
        Some(DateTime::PosixTime32(t)) => Some((t.timestamp as i64, 0)),
        Some(DateTime::PosixTime64Ns(t)) => Some((t.timestamp, t.fraction)),
        Some(d) => return Err(format!("time {d:?}")),
    })
}

/// The times an inode tells: access, change, modification, deletion, creation.
fn times_of(i: &Ino, inode_size: u64) -> [Option<(i64, u32)>; 5] {
    let precise = |t: i32, x: u32| if t == 0 && x == 0 { None } else { Some((t as i64 + ((x as i64 & 3) << 32), x >> 2)) };
    let has = |end: u16| inode_size > 128 && i.extra >= end;
    let p = i.precise;
    let mut r = [
        precise(i.times[0], if has(16) { p[2] } else { 0 }),
        precise(i.times[1], if has(8) { p[0] } else { 0 }),
        precise(i.times[2], if has(12) { p[1] } else { 0 }),
        precise(i.times[3], 0),
        if has(24) { precise(p[3] as i32, p[4]) } else { None },
    ];
    if i.flags & 0x200000 != 0 {
        r[0] = None;
        r[1] = None;
        r[2] = None;
        r[3] = None;
    }
    r
}

fn entry_is(e: &mut ExtFileEntry, w: &Want, named: bool, inode_size: u64, cov: &mut Cov) -> Result<(), String> {
    cov.step();
    let what = format!("inode {}", w.number);
    let i = &w.ino;
    if e.inode_number != w.number {
        return Err(format!("{what}: number {}", e.inode_number));
    }
    let n = e.get_name().map(|n| n.elements.clone());
    let want = if named { Some(w.name.clone()) } else { None };
    if n != want {
        return Err(format!("{what}: name {n:?}, expected {want:?}"));
    }
    let got = (e.get_file_mode(), e.get_owner_identifier(), e.get_group_identifier(), e.get_number_of_links());
    let want = (i.mode, i.uid, i.gid, i.links);
    if got != want {
        return Err(format!("{what}: mode, owner, group, links {got:x?}, expected {want:x?}"));
    }
    let size = if i.kind() == FILE || i.kind() == LINK { i.size } else { 0 };
    if e.get_size() != size {
        return Err(format!("{what}: size {}, expected {size}", e.get_size()));
    }
    let got = [
        when(e.get_access_time())?,
        when(e.get_change_time())?,
        when(e.get_modification_time())?,
        when(Some(e.get_deletion_time()))?,
        when(e.get_creation_time())?,
    ];
    let want = times_of(i, inode_size);
    if got != want {
        return Err(format!("{what}: times {got:?}, expected {want:?}"));
    }
    if e.is_directory() != (i.kind() == DIR) || e.is_root_directory() != (w.number == 2) {
        return Err(format!("{what}: directory {}, root {}", e.is_directory(), e.is_root_directory()));
    }
    let device = e.get_device_identifier().map_err(err)?;
    let want = if i.kind() == CHAR || i.kind() == BLOCK { Some(u16::from_le_bytes([i.refs[0], i.refs[1]])) } else { None };
    if device != want {
        return Err(format!("{what}: device {device:?}, expected {want:?}"));
    }
    if i.kind() != LINK || w.target.is_some() {
        for _ in 0..2 {
            let t = e.get_symbolic_link_target().map_err(err)?.map(|t| t.elements.clone());
            if t != w.target {
                return Err(format!("{what}: target {t:?}, expected {:?}", w.target));
            }
        }
    }
    if e.get_number_of_attributes().map_err(err)? != i.attributes {
        return Err(format!("{what}: {} attributes, expected {}", e.get_number_of_attributes().map_err(err)?, i.attributes));
    }
    match (e.get_data_stream().map_err(err)?, &w.content) {
        (Some(_), None) if i.kind() != FILE => return Err(format!("{what}: a data stream")),
        (None, _) if i.kind() == FILE => return Err(format!("{what}: no data stream")),
        (Some(s), Some(c)) => {
            if s.write().unwrap().get_size().map_err(err)? != c.size {
                return Err(format!("{what}: the size of the data stream"));
            }
            let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
            let n = c.size.min(1 << 20);
            window_f(&s, c.size, &fill, 0, n as usize + 3, cov).map_err(|m| format!("{what}: {m}"))?;
            window_f(&s, c.size, &fill, c.size / 2, 9, cov).map_err(|m| format!("{what}: {m}"))?;
        }
        _ => {}
    }
    Ok(())
}

fn dir_is(fs: &ExtFileSystem, e: &mut ExtFileEntry, want: &[Want], path: &ExtPath, isz: u64, cov: &mut Cov) -> Result<(), String> {
    let n = e.get_number_of_sub_file_entries().map_err(err)?;
    if n != want.len() {
        let mut names = vec![];
        for i in 0..n {
            match e.get_sub_file_entry_by_index(i) {
                Ok(x) => names.push(x.get_name().map(|n| n.to_string())),
                Err(x) => names.push(Some(err(x))),
            }
        }
        return Err(format!("{n} entries {names:?}, expected {} {:?}", want.len(), want.iter().map(|w| String::from_utf8_lossy(&w.name).to_string()).collect::<Vec<_>>()));
    }
    if e.get_sub_file_entry_by_index(n).is_ok() {
        return Err(format!("there is an entry {n}"));
    }
    let mut seen = vec![false; n];
    for i in 0..n {
        let mut s = e.get_sub_file_entry_by_index(i).map_err(err)?;
        let name = s.get_name().ok_or("an entry without a name")?.elements.clone();
        let k = want.iter().position(|w| w.name == name).ok_or(format!("an entry {name:?}"))?;
        if std::mem::replace(&mut seen[k], true) {
            return Err(format!("entry {name:?} appears twice"));
        }
        entry_is(&mut s, &want[k], true, isz, cov)?;
    }
    if e.get_number_of_sub_file_entries().map_err(err)? != n {
        return Err("the number of entries changes".into());
    }
    for w in want {
        let name = ByteString { encoding: CharacterEncoding::Utf8, elements: w.name.clone() };
        let mut s = e.get_sub_file_entry_by_name(&name).map_err(err)?.ok_or(format!("no entry by the name {name:?}"))?;
        entry_is(&mut s, w, true, isz, cov).map_err(|m| format!("by name {name:?}: {m}"))?;
        let p = path.new_with_join(&[name.clone()]);
        let mut s = fs.get_file_entry_by_path(&p).map_err(err)?.ok_or(format!("no entry at the path {p:?}"))?;
        entry_is(&mut s, w, true, isz, cov).map_err(|m| format!("by path {p:?}: {m}"))?;
        if w.ino.kind() == DIR {
            dir_is(fs, &mut s, &w.sub, &p, isz, cov).map_err(|m| format!("below {}: {m}", w.number))?;
        } else {
            if s.get_number_of_sub_file_entries().map_err(err)? != 0 {
                return Err("a file with entries".into());
            }
            if fs.get_file_entry_by_path(&p.new_with_join(&[ByteString::from("x")])).map_err(err)?.is_some() {
                return Err("an entry below a file".into());
            }
        }
        let mut s = fs.get_file_entry_by_identifier(w.number).map_err(err)?;
        entry_is(&mut s, w, false, isz, cov).map_err(|m| format!("by identifier: {m}"))?;
    }
    for other in ["missing", "", ".", "..", "FILE"] {
        if e.get_sub_file_entry_by_name(&ByteString::from(other)).map_err(err)?.is_some() {
            return Err(format!("there is an entry {other:?}"));
        }
    }
    Ok(())
}

fn fs_is(s: &DataStreamReference, v: &Vol, root: &Want, cov: &mut Cov) -> Result<(), String> {
    cov.trace();
    guarded(|| {
        let fs = open(s)?;
        if fs.get_format_version() != v.version() {
            return Err(format!("format version {}", fs.get_format_version()));
        }
        let got = (fs.get_compatible_feature_flags(), fs.get_incompatible_feature_flags(), fs.get_read_only_compatible_feature_flags());
        if got != (v.compat, v.incompat, v.ro) {
            return Err(format!("features {got:x?}"));
        }
        if fs.number_of_inodes as u64 != v.ipg * v.groups() {
            return Err(format!("{} inodes", fs.number_of_inodes));
        }
        let mut r = fs.get_root_directory().map_err(err)?.ok_or("no root directory")?;
        entry_is(&mut r, root, false, v.inode_size, cov)?;
        dir_is(&fs, &mut r, &root.sub, &ExtPath::from("/"), v.inode_size, cov)?;
        let mut r = fs.get_file_entry_by_path(&ExtPath::from("/")).map_err(err)?.ok_or("no root directory by path")?;
        entry_is(&mut r, root, false, v.inode_size, cov)?;
        cov.state(&(v.compat, v.incompat, v.ro, v.bs, root.sum()));
        Ok(())
    })
    .unwrap_or_else(Err)
}

fn of(v: &Vol) -> DataStreamReference {
    sparse(&Arc::new(v.build()))
}

/// A volume with one file, and the file.
fn one_file(v: &mut Vol, ino: Ino, content: Segs) -> Want {
    v.inodes.insert(12, ino.clone());
    let mut w = Want::new("file", 12, ino);
    w.content = Some(Arc::new(content));
    v.root(vec![w])
}

fn stream(s: &DataStreamReference, name: &str) -> Result<DataStreamReference, String> {
    let fs = open(s)?;
    let e = fs.get_file_entry_by_path(&ExtPath::from(format!("/{name}").as_str())).map_err(err)?.ok_or("no entry")?;
    e.get_data_stream().map_err(err)?.ok_or("no data stream".into())
}

/// Reads a sparse file at the edges of its blocks.
fn edges_are(s: &DataStreamReference, c: &Segs, bs: u64, at: &[u64], cov: &mut Cov) -> Result<(), String> {
    let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
    let mut edges: Vec<u64> = at.iter().flat_map(|l| [l * bs, (l + 1) * bs]).collect();
    edges.push(c.size);
    edges.sort();
    edges.dedup();
    for e in edges {
        for d in [3u64, 0] {
            if e >= d {
                for n in [1usize, 7, bs as usize + 5] {
                    window_f(s, c.size, &fill, e - d, n, cov)?;
                }
            }
        }
    }
    Ok(())
}

fn block_numbers(check: &mut Check) {
    // Blocks of a file at the edges of the levels, in every combination.
    let at: [u64; 9] = [0, 1, 11, 12, 267, 268, 523, 65803, 65804];
    check.family("block numbers", 512 * 3 * 3 * 3, |i, cov| {
        let mut g = Digits(i);
        let version = *g.pick(&[2u8, 3, 4]);
        let mode = g.take(3);
        let size = g.take(3);
        let set = g.0;
        let l: Vec<u64> = (0..9).filter(|k| set >> k & 1 == 1).map(|k| at[k]).collect();
        let key = format!("{version} {mode} {size} {l:?}");
        let mut v = Vol::new(version, 1024);
        v.blocks = 8000;
        let mut ino = Ino::new(FILE, 12);
        let mut c = Segs::default();
        let mut b: Vec<(u64, Vec<u8>)> = l.iter().map(|x| (*x, block(*x + 1, 1024))).collect();
        for (x, d) in &b {
            c.put(x * 1024, d.clone());
        }
        match mode {
            // In order, next to each other.
            0 => {}
            // In the other order.
            1 => b.reverse(),
            // Apart.
            _ => v.step = 3,
        }
        let m = v.store(&b);
        v.map_blocks(&mut ino, &m);
        let end = l.last().map_or(0, |x| x + 1);
        c.size = match size {
            0 => end * 1024,
            1 => (end * 1024).saturating_sub(1000),
            _ => (end + 300) * 1024 + 5,
        };
        ino.size = c.size;
        ino.sectors = [0, 2 * l.len() as u64, 2 * (l.len() as u64 + 7)][(set % 3) as usize];
        let c2 = c.clone();
        let root = one_file(&mut v, ino, c);
        let s = of(&v);
        fs_is(&s, &v, &root, cov).map_err(|m| Failure::new(key.clone(), m))?;
        let f = stream(&s, "file").map_err(|m| Failure::new(key.clone(), m))?;
        guarded(|| edges_are(&f, &c2, 1024, &l, cov)).unwrap_or_else(Err).map_err(|m| Failure::new(key, m))
    });
    // What the last direct and first indirect blocks hold, one after the other.
    let depth = check.pick(5, 6);
    check.family("runs of block numbers", seq_count(4, depth) * 3, |i, cov| {
        let mut g = Digits(i);
        let start = *g.pick(&[0u64, 9, 265]);
        let seq = seq_decode(4, g.0);
        let key = format!("{start} {seq:?}");
        let mut v = Vol::new(2, 1024);
        let mut ino = Ino::new(FILE, 12);
        let mut c = Segs::default();
        let (mut p, mut far) = (500u64, 1000u64);
        let mut m = vec![];
        for (k, s) in seq.iter().enumerate() {
            match s {
                0 => continue,
                1 => p += 1,
                2 => p -= 1,
                _ => {
                    far += 100;
                    p = far;
                }
            }
            let l = start + k as u64;
            // A block may be used more than once.
            let d = v.data.entry(p).or_insert(block(p, 1024)).clone();
            c.put(l * 1024, d);
            m.push((l, p));
        }
        v.map_blocks(&mut ino, &m);
        c.size = (start + seq.len() as u64) * 1024;
        ino.size = c.size;
        ino.sectors = 2 * m.len() as u64;
        let root = one_file(&mut v, ino, c);
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
}

fn extents(check: &mut Check) {
    // Every sequence of extents: the gap before it, its length, its kind and place.
    let kinds: Vec<(u64, u16, u8)> = vec![(0, 1, 0), (0, 3, 1), (0, 2, 2), (1, 1, 0), (2, 2, 1), (0, 1, 3), (1, 2, 3), (0, 2, 4)];
    let depth = check.pick(4, 5);
    let n = seq_count(8, depth);
    check.family("extents", n * 4 * 3, |i, cov| {
        let mut g = Digits(i);
        let size = g.take(4);
        let levels = g.take(3) as u16;
        let seq = seq_decode(8, g.0);
        let key = format!("{size} {levels} {seq:?}");
        let mut v = Vol::new(4, 1024);
        let mut ino = Ino::new(FILE, 12);
        let mut c = Segs::default();
        let (mut l, mut p) = (0u64, 1000u64);
        let mut x = vec![];
        let mut edges = vec![];
        for k in &seq {
            let (gap, len, place) = kinds[*k as usize];
            l += gap;
            match place {
                // Right after the last one.
                0 => {}
                1 => p += 50,
                2 => p -= 20,
                _ => {}
            }
            edges.push(l);
            match place {
                // Not initialized.
                3 => x.push((l, len | 0x8000, p)),
                // No blocks at all.
                4 => {
                    x.push((l, len, 0));
                }
                _ => {
                    for q in 0..len as u64 {
                        let d = v.data.entry(p + q).or_insert(block(p + q, 1024)).clone();
                        c.put((l + q) * 1024, d);
                    }
                    x.push((l, len, p));
                }
            }
            // Blocks of what is not initialized hold something.
            if place == 3 {
                for q in 0..len as u64 {
                    v.data.entry(p + q).or_insert(block(p + q, 1024));
                }
            }
            l += len as u64;
            p += len as u64;
        }
        if levels == 0 && x.len() > 4 {
            return Ok(());
        }
        let fan = if levels < 2 { x.len().div_ceil(4).max(1) } else { 2 };
        v.next = 60;
        v.map_extents(&mut ino, &x, fan, levels);
        c.size = match size {
            0 => l * 1024,
            1 => (l * 1024).saturating_sub(1),
            2 => l * 1024 + 2049,
            // What is allocated beyond the end.
            _ => (l * 1024).saturating_sub(1500),
        };
        ino.size = c.size;
        ino.sectors = if size == 3 { 2 } else { 2 * l };
        let root = one_file(&mut v, ino, c.clone());
        let s = of(&v);
        fs_is(&s, &v, &root, cov).map_err(|m| Failure::new(key.clone(), m))?;
        let f = stream(&s, "file").map_err(|m| Failure::new(key.clone(), m))?;
        guarded(|| edges_are(&f, &c, 1024, &edges, cov)).unwrap_or_else(Err).map_err(|m| Failure::new(key, m))
    });
    // Trees: how extents are spread over nodes, and how many levels there are.
    let most = check.pick(10, 14) as u32;
    let mut cases: Vec<(u64, u16, usize, u64)> = vec![];
    for n in 1..=most as u64 {
        for levels in 0..=5u16 {
            for fan in 1..=4usize {
                let mut left = n as usize;
                for _ in 0..levels {
                    left = left.div_ceil(fan);
                }
                if left <= 4 {
                    for gap in 0..2 {
                        cases.push((n, levels, fan, gap));
                    }
                }
            }
        }
    }
    check.family("trees of extents", cases.len() as u64 * 2, |i, cov| {
        let (n, levels, fan, gap) = cases[i as usize / 2];
        let bs = [1024u64, 4096][i as usize % 2];
        let key = format!("{n} {levels} {fan} {gap} {bs}");
        let mut v = Vol::new(4, bs);
        let mut ino = Ino::new(FILE, 12);
        let mut c = Segs::default();
        let x: Vec<(u64, u16, u64)> = (0..n)
            .map(|k| {
                let p = 3000 - 3 * k;
                v.data.insert(p, block(p, bs));
                (k * (1 + gap), 1, p)
            })
            .collect();
        for (l, _, p) in &x {
            c.put(l * bs, block(*p, bs));
        }
        v.map_extents(&mut ino, &x, fan, levels);
        c.size = n * (1 + gap) * bs;
        ino.size = c.size;
        ino.sectors = n * bs / 512;
        let root = one_file(&mut v, ino, c);
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
    // Lengths around the mark of what is not initialized.
    check.family("lengths of extents", 8 * 2, |i, cov| {
        let mut g = Digits(i);
        let n = *g.pick(&[1u16, 2, 32767, 32768, 32769, 32770, 65534, 65535]);
        let up = g.take(2);
        let (len, raw) = if n > 32768 { (n as u64 - 32768, true) } else { (n as u64, false) };
        let mut v = Vol::new(4, 1024);
        let mut ino = Ino::new(FILE, 12);
        let mut c = Segs::default();
        let p = 1000 + up * 0x123400000000;
        for q in [0, 1, len / 2, len - 1] {
            v.data.insert(p + q, block(q + 9, 1024));
            if !raw {
                c.put(q * 1024, block(q + 9, 1024));
            }
        }
        v.data.insert(77, block(5, 1024));
        c.put(len * 1024, block(5, 1024));
        v.map_extents(&mut ino, &[(0, n, p), (len, 1, 77)], 4, 0);
        c.size = (len + 1) * 1024;
        ino.size = c.size;
        ino.sectors = 2 * (len + 1);
        let root = one_file(&mut v, ino, c.clone());
        let s = of(&v);
        let key = format!("{n} {up}");
        fs_is(&s, &v, &root, cov).map_err(|m| Failure::new(key.clone(), m))?;
        let f = stream(&s, "file").map_err(|m| Failure::new(key.clone(), m))?;
        guarded(|| edges_are(&f, &c, 1024, &[0, 1, len / 2, len - 1, len], cov)).unwrap_or_else(Err).map_err(|m| Failure::new(key, m))
    });
    // Files with far apart blocks.
    check.family("large files", 8 * 4 * 2, |i, cov| {
        let mut g = Digits(i);
        let far = *g.pick(&[1u64 << 10, 1 << 20, 1 << 22, (1 << 22) + 5, 1 << 26, 1 << 30, (1 << 32) - 20, (1 << 32) - 2]);
        let bs = *g.pick(&[1024u64, 2048, 4096, 65536]);
        let more = g.take(2);
        let key = format!("{far} {bs} {more}");
        let mut v = Vol::new(4, bs);
        let mut ino = Ino::new(FILE, 12);
        let mut c = Segs::default();
        v.data.insert(900, block(1, bs));
        v.data.insert(901, block(2, bs));
        c.put(0, block(1, bs));
        c.put(far * bs, block(2, bs));
        v.map_extents(&mut ino, &[(0, 1, 900), (far, 1, 901)], 4, 0);
        c.size = (far + 1) * bs + more * (5 << 20);
        ino.size = c.size;
        ino.sectors = 2 * bs / 512;
        let root = one_file(&mut v, ino, c.clone());
        let s = of(&v);
        fs_is(&s, &v, &root, cov).map_err(|m| Failure::new(key.clone(), m))?;
        let f = stream(&s, "file").map_err(|m| Failure::new(key.clone(), m))?;
        guarded(|| edges_are(&f, &c, bs, &[0, far / 2, far], cov)).unwrap_or_else(Err).map_err(|m| Failure::new(key, m))
    });
    // Files of more than 4 GiB without extents.
    check.family("large files without extents", 3 * 3 * 2, |i, cov| {
        let mut g = Digits(i);
        let version = *g.pick(&[2u8, 3, 4]);
        let far = *g.pick(&[(1u64 << 20) - 1, 1 << 20, (1 << 20) + 3000]);
        let hole = g.take(2) == 1;
        let key = format!("{version} {far} {hole}");
        let mut v = Vol::new(version, 4096);
        let mut ino = Ino::new(FILE, 12);
        let mut c = Segs::default();
        let mut b = vec![(3, block(1, 4096))];
        if !hole {
            b.push((far, block(2, 4096)));
        }
        for (l, d) in &b {
            c.put(l * 4096, d.clone());
        }
        let m = v.store(&b);
        v.map_blocks(&mut ino, &m);
        c.size = (far + 1) * 4096 - 9;
        ino.size = c.size;
        ino.sectors = 64;
        let root = one_file(&mut v, ino, c.clone());
        let s = of(&v);
        fs_is(&s, &v, &root, cov).map_err(|m| Failure::new(key.clone(), m))?;
        let f = stream(&s, "file").map_err(|m| Failure::new(key.clone(), m))?;
        guarded(|| edges_are(&f, &c, 4096, &[0, 3, far / 2, far], cov)).unwrap_or_else(Err).map_err(|m| Failure::new(key, m))
    });
}

fn protocols(check: &mut Check) {
    let depth = check.pick(3, 4) as u32;
    let bounds = Bounds { chunks: vec![1, 300, 1024, 2000], lens: vec![1, 2, 1023, 2049], depth: check.pick(1, 2) };
    check.family("stream protocol", 4, |i, cov| {
        let kind = i as usize;
        let mut v = Vol::new(if kind == 0 { 2 } else { 4 }, 1024);
        let mut ino = Ino::new(FILE, 12);
        let mut content = vec![0u8; 4 * 1024 + 100];
        let size = content.len();
        if kind == 3 {
            content = text(40, 3);
            ino.flags = 0x10000000;
            ino.refs[..40].copy_from_slice(&content);
            ino.size = 40;
            v.incompat |= 0x8000;
        } else {
            let m: Vec<(u64, u64)> = [(0, 700), (1, 701), (3, 900), (4, 300)].to_vec();
            for (l, p) in &m {
                v.data.insert(*p, block(*p, 1024));
                let a = *l as usize * 1024;
                let e = (a + 1024).min(size);
                content[a..e].copy_from_slice(&block(*p, 1024)[..e - a]);
            }
            ino.size = size as u64;
            ino.sectors = 8;
            match kind {
                0 => v.map_blocks(&mut ino, &m),
                1 => v.map_extents(&mut ino, &[(0, 2, 700), (3, 1, 900), (4, 1, 300)], 4, 0),
                _ => v.map_extents(&mut ino, &[(0, 2, 700), (2, 0x8001, 800), (3, 1, 900), (4, 1, 300)], 2, 1),
            }
        }
        let root = one_file(&mut v, ino, (*segs(&content)).clone());
        let s = of(&v);
        let key = format!("{kind}");
        fs_is(&s, &v, &root, cov).map_err(|m| Failure::new(key.clone(), m))?;
        let fs = open(&s).map_err(|m| Failure::new(key.clone(), m))?;
        let e = fs.get_file_entry_by_path(&ExtPath::from("/file")).map_err(err).and_then(|e| e.ok_or("no entry".into())).map_err(|m| Failure::new(key.clone(), m))?;
        let of = || e.get_data_stream().map_err(err)?.ok_or("no data stream".to_string());
        let edges: Vec<u64> = if kind == 3 { vec![20] } else { vec![1024, 2048, 3072, 4096] };
        media(&of, &content, &edges, &bounds, cov).map_err(|m| Failure::new(key.clone(), m))?;
        protocol(&of, &content, &edges, depth, cov).map_err(|m| Failure::new(key, m))
    });
}

fn directories(check: &mut Check) {
    // What a directory holds, in every order.
    let depth = check.pick(4, 5);
    let kinds = 8;
    check.family("directories of pieces", seq_count(kinds, depth) * 4, |i, cov| {
        let mut g = Digits(i);
        let how = g.take(4);
        let seq = seq_decode(kinds, g.0);
        let key = format!("{how} {seq:?}");
        let inline = how == 3;
        let mut v = Vol::new(if how == 0 { 2 } else { 4 }, 1024);
        v.step = if how == 1 { 2 } else { 1 };
        let mut e: Vec<Vec<u8>> = vec![];
        if !inline {
            e.push(dirent(2, b".", 2));
            e.push(dirent(2, b"..", 2));
        }
        let mut want = vec![];
        for (k, s) in seq.iter().enumerate() {
            let k = k as u8;
            let name: Vec<u8> = match s {
                0 => vec![b'a' + k],
                1 => vec![b'b', b'0' + k, 0xc3, 0xa9],
                2 => (0..255).map(|j| if j == 0 { b'c' + k } else { b'x' }).collect(),
                3 => vec![b'.', b'.', b'a' + k],
                4 => vec![b'd'; 3],
                5 => vec![b'.', b'A' + k, b'\\', b' '],
                6 => vec![],
                _ => vec![b'z'],
            };
            match s {
                // Removed.
                4 => e.push(dirent(0, &name, 1)),
                // The checksum at the end of a block.
                6 => {
                    let mut t = dirent(0, b"", 0xde);
                    t.resize(12, 0x55);
                    p16l(&mut t, 4, 12);
                    e.push(t);
                }
                // With room behind the name.
                7 => {
                    let n = format!("z{k}");
                    let mut t = dirent(30 + k as u32, n.as_bytes(), 1);
                    t.extend([0x41; 20]);
                    let m = t.len() as u16;
                    p16l(&mut t, 4, m);
                    e.push(t);
                    want.push(v.file(&n, 30 + k as u32, &text(10 + k as usize, k as u64)));
                }
                _ => {
                    e.push(dirent(30 + k as u32, &name, 1));
                    let mut w = v.file("", 30 + k as u32, &text(10 + k as usize, k as u64));
                    w.name = name;
                    want.push(w);
                }
            }
        }
        let mut ino = Ino::new(DIR, 2);
        if inline {
            let d: Vec<u8> = e.concat();
            if d.len() > 56 {
                return Ok(());
            }
            v.incompat |= 0x8000;
            ino.flags = 0x10000000;
            ino.size = 60;
            p32l(&mut ino.refs, 0, 2);
            if e.is_empty() {
                p16l(&mut ino.refs, 8, 56);
            } else {
                let last = 4 + d.len() - e.last().unwrap().len();
                ino.refs[4..4 + d.len()].copy_from_slice(&d);
                p16l(&mut ino.refs, last + 4, (60 - last) as u16);
            }
        } else {
            let d = dir_blocks(&e, 1024);
            v.fill(&mut ino, &d);
            // Blocks that are kept for more entries hold old ones.
            if how == 2 {
                let old = dir_blocks(&[dirent(30, b"old", 1)], 1024);
                let n = d.len() as u64 / 1024;
                let p = v.next + 5;
                let x: Vec<(u64, u16, u64)> = (0..n).map(|k| (k, 1, ino_block(&ino, k))).chain([(n, 1, p)]).collect();
                v.data.insert(p, old);
                if x.len() <= 4 {
                    v.map_extents(&mut ino, &x, 4, 0);
                    ino.sectors = 2 * (n + 1);
                }
            }
        }
        v.inodes.insert(2, ino.clone());
        let mut root = Want::new("", 2, ino);
        root.sub = want;
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
    // Directories with holes, and with an index.
    check.family("blocks of a directory", 3u64.pow(5) * 2 * 3, |i, cov| {
        let mut g = Digits(i);
        let version = *g.pick(&[2u8, 4]);
        let bs = *g.pick(&[1024u64, 4096, 65536]);
        let kinds: Vec<u64> = (0..5).map(|_| g.take(3)).collect();
        let key = format!("{version} {bs} {kinds:?}");
        let mut v = Vol::new(version, bs);
        let mut ino = Ino::new(DIR, 2);
        let mut want = vec![];
        let mut m = vec![];
        for (k, kind) in kinds.iter().enumerate() {
            let mut e = vec![];
            if k == 0 {
                e.push(dirent(2, b".", 2));
                e.push(dirent(2, b"..", 2));
            }
            match kind {
                // A hole.
                0 if k > 0 => continue,
                0 => {}
                1 => {
                    let n = 30 + k as u32;
                    let name = format!("n{k}");
                    e.push(dirent(n, name.as_bytes(), 1));
                    want.push(v.file(&name, n, &text(20, k as u64)));
                }
                // A block of the index: one entry that is not used.
                _ => {
                    if k == 0 {
                        let mut t = dirent(0, b"", 0);
                        t.extend([8, 0, 0x20, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0]);
                        let n = t.len() as u16;
                        p16l(&mut t, 4, n);
                        e.push(t);
                    } else {
                        e.push(dirent(0, b"", 0));
                    }
                }
            }
            let d = dir_blocks(&e, bs as usize);
            m.push((k as u64, d));
        }
        let at = v.store(&m);
        if version == 4 {
            let x: Vec<(u64, u16, u64)> = at.iter().map(|(l, p)| (*l, 1, *p)).collect();
            let levels = (x.len() > 4) as u16;
            v.map_extents(&mut ino, &x, 5, levels);
        } else {
            v.map_blocks(&mut ino, &at);
        }
        ino.size = 5 * bs;
        ino.sectors = at.len() as u64 * bs / 512;
        ino.flags |= 0x1000;
        v.inodes.insert(2, ino.clone());
        let mut root = Want::new("", 2, ino);
        root.sub = want;
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
    // Trees of directories: the parent and kind of every entry.
    let n = check.pick(5, 6);
    let total: u64 = (1..=n).product::<u64>() * 3u64.pow(n as u32);
    check.family("trees", total, |i, cov| {
        let mut g = Digits(i);
        let parents: Vec<usize> = (0..n).map(|k| g.take(k + 1) as usize).collect();
        let kinds: Vec<u64> = (0..n).map(|_| g.take(3)).collect();
        // Entry 0 is the root directory.
        if parents.iter().any(|p| *p > 0 && kinds[*p - 1] != 0) {
            return Ok(());
        }
        let key = format!("{parents:?} {kinds:?}");
        let mut v = Vol::new(2 + (i % 3) as u8, 1024);
        let mut made: Vec<Vec<Want>> = vec![vec![]; n as usize + 1];
        for k in (1..=n as usize).rev() {
            let sub = std::mem::take(&mut made[k]);
            let parent = parents[k - 1];
            let number = 30 - k as u32;
            let pn = if parent == 0 { 2 } else { 30 - parent as u32 };
            // The same names in every directory.
            let name = format!("n{}", made[parent].len());
            let w = match kinds[k - 1] {
                0 => v.dir(&name, number, pn, sub),
                1 => v.file(&name, number, &text(100 * k, k as u64)),
                _ => v.link(&name, number, &text(100, k as u64).iter().map(|x| x % 26 + 97).collect::<Vec<u8>>()),
            };
            made[parent].push(w);
        }
        let top = std::mem::take(&mut made[0]);
        let root = v.root(top);
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
}

/// The block of a small file.
fn ino_block(i: &Ino, l: u64) -> u64 {
    if i.flags & 0x80000 == 0 {
        return i.refs_at(l as usize) as u64;
    }
    let n = u16::from_le_bytes([i.refs[2], i.refs[3]]) as usize;
    for k in 0..n {
        let (a, c, p) = (i.refs_at(3 + 3 * k) as u64, i.refs_at(4 + 3 * k) as u64 & 0xffff, i.refs_at(5 + 3 * k) as u64);
        if l >= a && l < a + c {
            return p + l - a;
        }
    }
    0
}

fn inodes(check: &mut Check) {
    // Times and their extra precision.
    let base = [0i32, 1, -1, i32::MAX, i32::MIN, 1_600_000_000, -100_000];
    let extra = [0u32, 1, 2, 3, 4, 999_999_999 << 2, 999_999_999 << 2 | 3, 5 << 2 | 1];
    check.family("times", 7 * 8 * 5 * 7 * 2, |i, cov| {
        let mut g = Digits(i);
        let b = *g.pick(&base);
        let x = *g.pick(&extra);
        let which = g.take(5) as usize;
        let size = *g.pick(&[0u16, 4, 8, 12, 16, 24, 28]);
        let wide = g.take(2) == 1;
        if b == 0 && x & 3 == 0 && x != 0 {
            return Ok(());
        }
        let key = format!("{b} {x:#x} {which} {size} {wide}");
        let mut v = Vol::new(if wide { 4 } else { 2 }, 1024);
        v.inode_size = 256;
        let mut ino = Ino::new(FILE, 12);
        ino.extra = size;
        match which {
            0 => (ino.times[0], ino.precise[2]) = (b, x),
            1 => (ino.times[1], ino.precise[0]) = (b, x),
            2 => (ino.times[2], ino.precise[1]) = (b, x),
            3 => ino.times[3] = b,
            _ => (ino.precise[3], ino.precise[4]) = (b as u32, x),
        }
        let root = one_file(&mut v, ino, Segs::default());
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
    // Every kind of file and permissions, in inodes of every size.
    check.family("modes", 16 * 13 * 3 * 4, |i, cov| {
        let mut g = Digits(i);
        let kind = g.take(16) as u16;
        let bits = g.take(13);
        let version = *g.pick(&[2u8, 3, 4]);
        let isz = *g.pick(&[128u64, 256, 512, 1024]);
        let mode = kind << 12 | if bits == 12 { 0xfff } else { 1 << bits };
        let key = format!("{mode:#x} {version} {isz}");
        let mut v = Vol::new(version, 1024);
        v.inode_size = isz;
        let mut ino = Ino::new(0, 12);
        ino.mode = mode;
        let mut w = match kind << 12 {
            DIR => {
                let d = dir_blocks(&[dirent(12, b".", 2), dirent(2, b"..", 2)], 1024);
                v.fill(&mut ino, &d);
                Want::new("x", 12, ino)
            }
            FILE => {
                v.fill(&mut ino, &text(1500, 1));
                let mut w = Want::new("x", 12, ino);
                w.content = Some(segs(&text(1500, 1)));
                w
            }
            LINK => {
                ino.size = 3;
                ino.refs[..3].copy_from_slice(b"abc");
                let mut w = Want::new("x", 12, ino);
                w.target = Some(b"abc".to_vec());
                w
            }
            CHAR | BLOCK => {
                ino.refs[0] = 0x12;
                ino.refs[1] = 0x34;
                ino.refs[4] = 0x56;
                Want::new("x", 12, ino)
            }
            FIFO | SOCK => Want::new("x", 12, ino),
            _ => Want::new("x", 12, ino),
        };
        w.ino.mode = mode;
        v.inodes.insert(12, w.ino.clone());
        let root = v.root(vec![w]);
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
    // Every value of identifiers, links and others.
    check.family("owners", 4 * 6 * 6 * 5, |i, cov| {
        let mut g = Digits(i);
        let version = *g.pick(&[2u8, 3, 4, 4]);
        let u = *g.pick(&[0u32, 1, 0xffff, 0x10000, 0x12345678, 0xffffffff]);
        let q = *g.pick(&[0u32, 1, 0xffff, 0x10000, 0x87654321, 0xffffffff]);
        let n = *g.pick(&[0u16, 1, 255, 256, 65535]);
        let mut v = Vol::new(version, 1024);
        let mut ino = Ino::new(FILE, 12);
        (ino.uid, ino.gid, ino.links) = (u, q, n);
        ino.flags = if i % 4 == 3 { 0x200000 } else { 0 };
        let root = one_file(&mut v, ino, Segs::default());
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(format!("{version} {u:#x} {q:#x} {n}"), m))
    });
    // Targets of symbolic links.
    let lens: Vec<usize> = (1..=130).chain([1000, 1022, 1023, 1024]).collect();
    check.family("symbolic links", lens.len() as u64 * 3 * 5, |i, cov| {
        let mut g = Digits(i);
        let n = lens[g.take(lens.len() as u64) as usize];
        let version = *g.pick(&[2u8, 3, 4]);
        let how = g.take(5);
        let bs = if how == 3 { 65536 } else { 1024 };
        let key = format!("{n} {version} {how}");
        let mut v = Vol::new(version, bs);
        let target: Vec<u8> = text(n, 7).iter().map(|x| x % 94 + 33).collect();
        let mut w = v.link("link", 12, &target);
        match how {
            0 => {}
            // What lies behind the target.
            1 if n < 60 => w.ino.refs[n..].fill(b'#'),
            // Blocks of attributes.
            2 => w.ino.sectors += 2,
            3 => w.ino.sectors += 128,
            _ => {
                w.ino.sectors += 26;
            }
        }
        v.inodes.insert(12, w.ino.clone());
        let root = v.root(vec![w]);
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
    // Content in the inode.
    check.family("inline data", 71 * 3, |i, cov| {
        let mut g = Digits(i);
        let n = g.take(71) as usize;
        let how = g.take(3);
        let mut v = Vol::new(4, 1024);
        v.incompat |= 0x8000;
        let mut ino = Ino::new(FILE, 12);
        ino.flags = 0x10000000;
        let mut d = text(n.min(60), 5);
        ino.refs[..d.len()].copy_from_slice(&d);
        if how == 1 {
            ino.refs[d.len()..].fill(0xee);
        }
        // A block of attributes.
        ino.sectors = if how == 2 { 32 } else { 0 };
        d.resize(n, 0);
        ino.size = n as u64;
        let root = one_file(&mut v, ino, (*segs(&d)).clone());
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(format!("{n} {how}"), m))
    });
    // Attributes after the inode.
    let depth = check.pick(4, 5);
    check.family("attributes", seq_count(6, depth) * 3 * 2, |i, cov| {
        let mut g = Digits(i);
        let extra = *g.pick(&[4u16, 28, 32]);
        let isz = *g.pick(&[256u64, 512]);
        let seq = seq_decode(6, g.0);
        let key = format!("{extra} {isz} {seq:?}");
        let mut v = Vol::new(4, 1024);
        v.inode_size = isz;
        let mut ino = Ino::new(FILE, 12);
        ino.extra = extra;
        let mut t = vec![0, 0, 2, 0xea];
        for s in &seq {
            let (index, name): (u8, &[u8]) = [(1u8, &b"a"[..]), (6, b"selinux"), (2, b""), (7, b"data"), (0, b"name"), (8, b"")][*s as usize];
            let mut e = vec![0u8; (16 + name.len()).div_ceil(4) * 4];
            e[0] = name.len() as u8;
            e[1] = index;
            p16l(&mut e, 2, 100);
            p32l(&mut e, 8, 3);
            p32l(&mut e, 12, 0x11223344);
            e[16..16 + name.len()].copy_from_slice(name);
            t.extend(e);
        }
        t.extend([0; 8]);
        if t.len() + extra as usize + 128 > isz as usize {
            return Ok(());
        }
        ino.tail = t;
        ino.attributes = seq.len();
        let root = one_file(&mut v, ino, Segs::default());
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
}

/// A volume with a directory, files of each kind and a symbolic link.
fn sample(version: u8, csum: bool) -> (Vol, Want) {
    let mut v = Vol::new(version, 1024);
    v.ipg = 32;
    v.blocks = 600;
    if csum {
        v.ro |= 0x400;
        v.incompat |= 0x80;
    }
    let small = v.file("small", 20, &text(1500, 1));
    // A file with a block of block numbers, or a node of extents.
    let mut ino = Ino::new(FILE, 21);
    let content = text(15 * 1024 - 100, 2);
    let blocks: Vec<(u64, Vec<u8>)> = content
        .chunks(1024)
        .enumerate()
        .map(|(k, c)| {
            let mut d = c.to_vec();
            d.resize(1024, 0xcc);
            (k as u64, d)
        })
        .collect();
    v.next = 200;
    v.step = 2;
    let m = v.store(&blocks);
    if version == 4 {
        let x: Vec<(u64, u16, u64)> = m.iter().map(|(l, p)| (*l, 1, *p)).collect();
        v.map_extents(&mut ino, &x, 8, 1);
    } else {
        v.map_blocks(&mut ino, &m);
    }
    ino.size = content.len() as u64;
    ino.sectors = 30;
    v.inodes.insert(21, ino.clone());
    let mut large = Want::new("large", 21, ino);
    large.content = Some(segs(&content));
    let link = v.link("link", 22, b"dir/small");
    let far = v.link("far", 23, &vec![b'f'; 100]);
    let dir = v.dir("dir", 24, 2, vec![small]);
    let root = v.root(vec![dir, large, link, far]);
    (v, root)
}

/// Looks at everything, whatever it is.
fn explore(fs: &ExtFileSystem, cov: &mut Cov) {
    fn walk(e: &mut ExtFileEntry, depth: u32, cov: &mut Cov) {
        let _ = e.get_symbolic_link_target().map(|t| t.map(|t| t.to_string()));
        let _ = e.get_device_identifier();
        let _ = e.get_number_of_attributes();
        if let Ok(Some(d)) = e.get_data_stream() {
            let mut g = d.write().unwrap();
            let n = g.get_size().unwrap_or(0);
            for at in [0, 1023, 12 * 1024, n / 2, n.saturating_sub(3)] {
                let _ = g.read_at_position_any(&mut [0; 2000], at);
            }
        }
        let n = e.get_number_of_sub_file_entries().unwrap_or(0);
        cov.outcome(&(depth, n));
        for k in 0..n.min(20) {
            if let Ok(mut s) = e.get_sub_file_entry_by_index(k) {
                if let Some(n) = s.get_name().cloned() {
                    let _ = e.get_sub_file_entry_by_name(&n);
                }
                if depth < 2 {
                    walk(&mut s, depth + 1, cov);
                }
            }
        }
    }
    let _ = fs.get_volume_label().map(|l| l.to_string());
    if let Ok(Some(mut r)) = fs.get_root_directory() {
        walk(&mut r, 0, cov);
    }
    for n in [1, 2, 11, 20, 21, 22, 23, 24, 32, 33, fs.number_of_inodes] {
        if let Ok(mut e) = fs.get_file_entry_by_identifier(n) {
            walk(&mut e, 2, cov);
        }
    }
}

fn layouts(check: &mut Check) {
    // Where groups, their superblocks, descriptors and inode tables are.
    let most = check.pick(10, 28);
    check.family("layouts", 4 * most * 3 * 4 * 3 * 2 * 2, |i, cov| {
        let mut g = Digits(i);
        let bs = *g.pick(&[1024u64, 2048, 4096, 65536]);
        let groups = 1 + g.take(most);
        let sparse = g.take(3);
        let sums = g.take(4);
        let last = g.take(3);
        let flex = g.take(2) == 1;
        let small = g.take(2) == 1;
        let key = format!("{bs} {groups} {sparse} {sums} {last} {flex} {small}");
        let mut v = Vol::new(if sums == 0 { 3 } else { 4 }, bs);
        v.bpg = 512;
        v.ipg = if small { 8 } else { 32 };
        v.blocks = v.first() + groups * 512 - [0, 1, 400][last as usize];
        v.ro = match sparse {
            0 => 2,
            1 => 3,
            _ => {
                v.compat |= 0x200;
                3
            }
        };
        if sums > 0 {
            v.incompat |= 0x80;
        }
        if sums > 1 {
            v.ro |= 0x400;
        }
        if sums > 2 {
            v.incompat |= 0x2000;
            v.stored_seed = Some(0x8765_4321);
        }
        let per = 1 + (v.ipg * v.inode_size).div_ceil(bs);
        v.tables = (0..groups)
            .map(|k| if flex { 10 + (groups - 1 - k) * per } else { v.first() + k * 512 + 20 })
            .collect();
        v.next = if flex { 10 + groups * per + 5 } else { 100 };
        let mut sub = vec![];
        for k in 0..groups {
            for n in [k * v.ipg + 1, (k + 1) * v.ipg] {
                if n > 2 {
                    sub.push(v.file(&format!("n{n}"), n as u32, &text(30, n)));
                }
            }
        }
        if !flex && v.next > 512 {
            return Ok(());
        }
        let root = v.root(sub);
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
    // Sizes of inodes, and volumes of the size of a group and around it.
    check.family("sizes", 4 * 5 * 2 * 7, |i, cov| {
        let mut g = Digits(i);
        let bs = *g.pick(&[1024u64, 2048, 4096, 65536]);
        let isz = *g.pick(&[128u64, 256, 512, 1024, 0]);
        let csum = g.take(2) == 1;
        let d = g.take(7);
        let mut v = Vol::new(if isz == 256 || csum { 4 } else { 2 }, bs);
        if csum {
            v.ro |= 0x400;
        }
        let key = format!("{bs} {isz} {csum} {d}");
        v.inode_size = isz;
        if isz == 0 {
            // The first revision: the size of inodes is not told.
            if csum {
                return Ok(());
            }
            v.rev = 0;
            v.inode_size = 128;
        }
        let full = v.first() + 8 * bs;
        v.blocks = [full - 1, full, full + 1, full + 8, 2 * full, 2 * full - v.first() + 1, 3000][d as usize];
        v.tables = (0..v.groups()).map(|k| 100 + 500 * k).collect();
        let mut sub = vec![v.file("a", 12, &text(3000, 1)), v.file("b", 64, &text(1, 2)), v.link("l", 13, b"target")];
        if v.groups() > 1 {
            sub.push(v.file("c", 65, &text(77, 3)));
        }
        let root = v.root(sub);
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
    // Volumes of many groups.
    check.family("many groups", 2 * 3 * 2, |i, cov| {
        let mut g = Digits(i);
        let wide = g.take(2) == 1;
        let n = *g.pick(&[64u64, 1000, 8195]);
        let csum = g.take(2) == 1;
        let key = format!("{wide} {n} {csum}");
        let mut v = Vol::new(4, 65536);
        v.incompat |= 0x80;
        if csum {
            v.ro |= 0x400;
        }
        v.ipg = 16;
        v.bpg = if wide { 524288 } else { 1024 };
        v.blocks = (n - 1) * v.bpg + 70;
        v.tables = (0..n).map(|k| k * v.bpg + 30).collect();
        v.next = 200;
        let mut sub = vec![];
        for k in [0, 1, n / 2, n - 2, n - 1] {
            let m = k as u32 * 16 + 7;
            sub.push(v.file(&format!("n{k}"), m, &text(70000, k)));
        }
        let root = v.root(sub);
        fs_is(&of(&v), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
    // What the backups hold, or that they are missing.
    check.family("backups", 2 * 10 * 4 * 2 * 5, |i, cov| {
        let mut g = Digits(i);
        let bs = *g.pick(&[1024u64, 4096]);
        let groups = 1 + g.take(10);
        let backup = *g.pick(&[Backup::Right, Backup::Zero, Backup::Garbage, Backup::Stale]);
        let csum = g.take(2) == 1;
        let cut = g.take(5);
        let key = format!("{bs} {groups} {backup:?} {csum} {cut}");
        let mut v = Vol::new(4, bs);
        v.bpg = 512;
        v.ipg = 32;
        v.blocks = v.first() + groups * 512;
        if csum {
            v.ro |= 0x400;
        }
        v.backup = backup;
        let per = 1 + (v.ipg * v.inode_size).div_ceil(bs);
        v.tables = (0..groups).map(|k| 10 + k * per).collect();
        v.next = 10 + groups * per;
        let sub = vec![v.file("a", 12, &text(3000, 1)), v.file("b", 32 * groups as u32, &text(1, 2))];
        if v.next > 500 {
            return Ok(());
        }
        let root = v.root(sub);
        let mut s = v.build();
        if cut > 0 {
            // The volume ends in the first backup.
            let at = (v.first() + 512) * bs;
            let end = at + [0, 0, 100, 1024, bs + 10][cut as usize];
            s.size = end;
            let old = std::mem::take(&mut s.segs);
            for (a, d) in old {
                if a < end {
                    s.segs.insert(a, Arc::new(d[..((end - a) as usize).min(d.len())].to_vec()));
                }
            }
        }
        fs_is(&sparse(&Arc::new(s)), &v, &root, cov).map_err(|m| Failure::new(key, m))
    });
}

fn superblocks(check: &mut Check) {
    // A change of any byte that is under a checksum is noticed.
    check.family("checksums", 2 * (1024 + 64 + 3 * 256) * 2, |i, cov| {
        let mut g = Digits(i);
        let how = g.take(2);
        let bit = [0x01u8, 0x80][g.take(2) as usize];
        let at = g.0 as usize;
        let (mut v, _) = sample(4, true);
        if how == 1 {
            v.inode_size = 128;
            v.incompat &= !0x80;
        }
        let (what, base, size) = match at {
            0..1024 => ("superblock", 1024u64, 1024),
            1024..1088 => ("descriptor", 2048, v.desc() as usize),
            _ => ("inode", v.table_at([2u32, 20, 24][(at - 1088) / 256]), v.inode_size as usize),
        };
        let off = match at {
            0..1024 => at,
            1024..1088 => at - 1024,
            _ => (at - 1088) % 256,
        };
        // The flag of the checksums themselves.
        if off >= size || (what == "superblock" && off == 101 && bit == 4) {
            return Ok(());
        }
        let number = if at < 1088 { 0 } else { [2u32, 20, 24][(at - 1088) / 256] };
        let mut s = v.build();
        let mut hit = false;
        for (a, d) in s.segs.iter_mut() {
            if *a <= base + off as u64 && base + (off as u64) < *a + d.len() as u64 {
                let mut n = d.to_vec();
                n[(base + off as u64 - a) as usize] ^= bit;
                *d = Arc::new(n);
                hit = true;
            }
        }
        assert!(hit);
        cov.step();
        let key = format!("{what} {number} {off} {bit:#x} {how}");
        let r = guarded(|| {
            let r = open(&sparse(&Arc::new(s)));
            match r {
                Err(_) => Ok(()),
                Ok(_) if number == 0 => Err("is read".to_string()),
                Ok(fs) => match fs.get_file_entry_by_identifier(number) {
                    Ok(_) => Err("is read".to_string()),
                    Err(_) => Ok(()),
                },
            }
        });
        r.unwrap_or_else(Err).map_err(|m| Failure::new(key, m))
    });
    // Values of every field of the superblock that tells how the volume is laid out, and of those that do not.
    let values: [u32; 20] = [0, 1, 2, 3, 5, 6, 7, 8, 16, 21, 22, 23, 64, 127, 128, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff];
    let idle: [u64; 34] = [8, 12, 16, 28, 36, 44, 48, 52, 58, 60, 64, 68, 72, 80, 84, 90, 104, 108, 120, 136, 200, 208, 224, 228, 232, 236, 248, 256, 264, 268, 340, 344, 360, 376];
    check.family("superblock values", 20 * 128 * 2 * 3, |i, cov| {
        let mut g = Digits(i);
        let x = *g.pick(&values);
        let wide = g.take(2) == 1;
        let kind = g.take(3);
        // Every two bytes, or every four.
        let at = if wide { g.0 * 4 } else { g.0 * 2 };
        let (mut v, root) = sample(if kind == 0 { 2 } else { 4 }, false);
        if kind == 2 {
            v.incompat |= 0x90;
        }
        let mut s = v.build();
        let mut b = s.segs[&1024].to_vec();
        if wide {
            p32l(&mut b, at as usize, x);
        } else {
            p16l(&mut b, at as usize, x as u16);
        }
        // The fields of four bytes are as good as the sum of what they hold.
        s.put(1024, b);
        let stream = sparse(&Arc::new(s));
        let key = format!("{at} {x:#x} {wide} {kind}");
        cov.step();
        if wide && kind < 2 && idle.contains(&at) {
            return fs_is(&stream, &v, &root, cov).map_err(|m| Failure::new(key, m));
        }
        guarded(|| {
            if let Ok(fs) = open(&stream) {
                explore(&fs, cov);
            }
        })
        .map_err(|m| Failure::new(key, m))
    });
    // Values of the group descriptor.
    check.family("descriptor values", 20 * 16 * 2, |i, cov| {
        let mut g = Digits(i);
        let x = *g.pick(&values);
        let at = g.take(16) as usize * 4;
        let kind = g.take(2);
        let (mut v, root) = sample(4, false);
        if kind == 1 {
            v.incompat |= 0x80;
        } else if at >= 32 {
            return Ok(());
        }
        let mut s = v.build();
        let mut b = s.segs[&2048].to_vec();
        p32l(&mut b, at, x);
        s.put(2048, b);
        let stream = sparse(&Arc::new(s));
        let key = format!("{at} {x:#x} {kind}");
        cov.step();
        // All but where the inode table is.
        if at != 8 && at != 40 {
            return fs_is(&stream, &v, &root, cov).map_err(|m| Failure::new(key, m));
        }
        guarded(|| {
            if let Ok(fs) = open(&stream) {
                explore(&fs, cov);
            }
        })
        .map_err(|m| Failure::new(key, m))
    });
    // Pairs of fields that tell how much there is.
    let fields: [(usize, &[u32]); 7] = [
        (0, &[0, 1, 2, 31, 32, 33, 64, 0xffffffff]),
        (4, &[1, 599, 600, 8193, 0x7fffffff, 0xffffffff]),
        (24, &[0, 1, 2, 6, 7, 21, 22]),
        (32, &[1, 8, 599, 8192, 0xffffffff]),
        (40, &[1, 31, 32, 8192, 8193, 0xffffffff]),
        (260, &[0, 1, 0x10000000, 0xffffffff]),
        (336, &[0, 1, 0xffffffff]),
    ];
    let lens: Vec<u64> = fields.iter().map(|f| f.1.len() as u64).collect();
    let pairs: Vec<(usize, usize)> = (0..7).flat_map(|a| (a + 1..7).map(move |b| (a, b))).collect();
    let cases: Vec<(usize, usize, u64, u64)> = pairs.iter().flat_map(|(a, b)| (0..lens[*a]).flat_map({
        let lens = &lens;
        move |x| (0..lens[*b]).map(move |y| (*a, *b, x, y))
    })).collect();
    check.family("pairs of superblock values", cases.len() as u64 * 6, |i, cov| {
        let (a, b, x, y) = cases[i as usize / 6];
        let (mut v, _) = sample(4, false);
        v.incompat |= [0, 0x80, 0x10, 0x90, 0, 0x80][(i % 6) as usize];
        if i % 6 > 3 {
            v.ro &= !1;
        }
        let mut s = v.build();
        let mut d = s.segs[&1024].to_vec();
        p32l(&mut d, fields[a].0, fields[a].1[x as usize]);
        p32l(&mut d, fields[b].0, fields[b].1[y as usize]);
        s.put(1024, d);
        let stream = sparse(&Arc::new(s));
        let key = format!("{} {:#x} {} {:#x} {}", fields[a].0, fields[a].1[x as usize], fields[b].0, fields[b].1[y as usize], i % 6);
        cov.step();
        guarded(|| {
            if let Ok(fs) = open(&stream) {
                explore(&fs, cov);
            }
        })
        .map_err(|m| Failure::new(key, m))
    });
    // Every feature on its own: what is not supported is refused, the others change nothing.
    check.family("features", 3 * 32 * 2, |i, cov| {
        let mut g = Digits(i);
        let which = g.take(3);
        let bit = 1u32 << g.take(32);
        let version = *g.pick(&[2u8, 4]);
        let (mut v, root) = sample(version, false);
        let key = format!("{which} {bit:#x} {version}");
        match which {
            0 => v.compat |= bit,
            1 => v.incompat |= bit,
            _ => v.ro |= bit,
        }
        let s = of(&v);
        let fine = [0xffffffffu32, 0x3a6ce, 0xffffffff][which as usize];
        if bit & fine == 0 {
            cov.step();
            return guarded(|| match open(&s).and_then(|fs| fs.get_root_directory().map_err(err)) {
                Ok(_) => Err("is read".to_string()),
                Err(_) => Ok(()),
            })
            .unwrap_or_else(Err)
            .map_err(|m| Failure::new(key, m));
        }
        // The inodes of an ext4 volume are not those of ext2: what is stored is the same.
        let mut r = root.clone();
        if version == 2 && v.version() == 4 && bit == 0x400 && which == 2 {
            return Ok(());
        }
        let bits = v.clone();
        let s = if which == 1 && bit == 0x80 { of(&bits) } else { s };
        r.number = 2;
        fs_is(&s, &v, &r, cov).map_err(|m| Failure::new(key, m))
    });
    // The label, the path and times of the last mount.
    check.family("labels", 18 * 4 * 5 * 3, |i, cov| {
        let mut g = Digits(i);
        let n = g.take(17 + 1) as usize;
        let encoding = *g.pick(&[0u8, 1, 2, 3]);
        let t = *g.pick(&[0i32, 1, -1, i32::MAX, i32::MIN]);
        let m = *g.pick(&[0usize, 1, 64]);
        let key = format!("{n} {encoding} {t} {m}");
        let (mut v, _) = sample(2, false);
        let letters: &[u8] = if encoding == 0 { b"Volume \xc3\xa9\xe2\x82\xac name" } else { b"Volume \xe9\xf3 names." };
        let n = n.min(16);
        v.label = [0; 16];
        v.label[..n].copy_from_slice(&letters[..n]);
        v.mount[..m].fill(b'/');
        v.times = [t, t.wrapping_add(5)];
        let e = [CharacterEncoding::Utf8, CharacterEncoding::Iso8859_1, CharacterEncoding::Windows1252, CharacterEncoding::Iso8859_15][encoding as usize].clone();
        let s = of(&v);
        cov.step();
        guarded(|| {
            let mut fs = ExtFileSystem::new();
            fs.set_character_encoding(&e).map_err(err)?;
            fs.read_data_stream(&s).map_err(err)?;
            let l = fs.get_volume_label();
            let want = if n == 0 { None } else { Some((e.clone(), letters[..n].to_vec())) };
            let got = l.map(|l| (l.encoding.clone(), l.elements.clone()));
            if got != want {
                return Err(format!("label {:?}, expected {want:?}", got));
            }
            if fs.last_mount_path.elements != v.mount[..m] {
                return Err(format!("mount path {:?}", fs.last_mount_path));
            }
            let want = [v.times[0], v.times[1]].map(|t| if t == 0 { None } else { Some((t as i64, 0)) });
            let got = [when(Some(&fs.last_mount_time))?, when(Some(&fs.last_written_time))?];
            if got != want {
                return Err(format!("times {got:?}, expected {want:?}"));
            }
            let mut f = fs.get_file_entry_by_path(&ExtPath::from("/link")).map_err(err)?.ok_or("no link")?;
            let t = f.get_symbolic_link_target().map_err(err)?.ok_or("no target")?;
            if t.encoding != e {
                return Err(format!("the encoding of the target {:?}", t.encoding));
            }
            if f.get_name().map(|n| n.encoding.clone()) != Some(e.clone()) {
                return Err("the encoding of the name".into());
            }
            Ok(())
        })
        .unwrap_or_else(Err)
        .map_err(|m| Failure::new(key, m))
    });
}

fn environment(check: &mut Check) {
    // Every inode number, in and out of bounds.
    check.family("identifiers", 200 * 3, |i, cov| {
        let k = i % 200;
        let (mut v, root) = sample([2u8, 3, 4][(i / 200) as usize], false);
        v.blocks = 1 + 512 * 3;
        v.bpg = 512;
        v.tables = vec![10, 600, 1100];
        let n = match k {
            0..140 => k as u32,
            140..170 => u32::MAX - (k as u32 - 140),
            _ => 1u32 << (k - 170 + 2),
        };
        let key = format!("{n} {}", i / 200);
        let s = of(&v);
        cov.step();
        guarded(|| {
            let fs = open(&s)?;
            fn find(w: &Want, n: u32) -> Option<&Want> {
                if w.number == n { Some(w) } else { w.sub.iter().find_map(|w| find(w, n)) }
            }
            match (fs.get_file_entry_by_identifier(n), find(&root, n)) {
                (Ok(mut e), Some(w)) => entry_is(&mut e, w, false, v.inode_size, cov),
                (Err(m), Some(_)) => Err(err(m)),
                (Ok(_), None) if n == 0 || n > 96 => Err("there is an inode".into()),
                (Ok(mut e), None) => {
                    cov.outcome(&e.get_number_of_sub_file_entries().is_ok());
                    Ok(())
                }
                (Err(_), None) => Ok(()),
            }
        })
        .unwrap_or_else(Err)
        .map_err(|m| Failure::new(key, m))
    });
    // Every read fails once.
    check.family("faults", 3 * 64, |i, cov| {
        let version = [2u8, 3, 4][(i / 64) as usize];
        let (v, root) = sample(version, version == 4);
        let content = {
            let c = root.sub[1].content.as_ref().unwrap();
            let mut d = vec![0; c.size as usize];
            c.fill(0, &mut d);
            d
        };
        let s = Arc::new(v.build());
        let n = (i % 64) as i64;
        let key = format!("{version} {n}");
        let fuse = Arc::new(AtomicI64::new(n));
        let stream: DataStreamReference = Arc::new(RwLock::new(Sparse::with_fuse(&s, &fuse)));
        cov.trace();
        let r = guarded(|| -> Result<(), String> {
            for pass in 0..2 {
                let before = fuse.load(Ordering::Relaxed);
                let blown = || before >= 0 && fuse.load(Ordering::Relaxed) < 0;
                let r = open(&stream).and_then(|fs| {
                    let mut r = fs.get_root_directory();
                    if r.is_err() && blown() {
                        r = fs.get_root_directory();
                    }
                    let mut r = r.map_err(err)?.ok_or("no root")?;
                    // The failure is not remembered.
                    let mut k = r.get_number_of_sub_file_entries();
                    if k.is_err() && blown() {
                        k = r.get_number_of_sub_file_entries();
                    }
                    if k.map_err(err)? != 4 {
                        return Err("the number of entries".to_string());
                    }
                    let mut l = r.get_sub_file_entry_by_name(&ByteString::from("far"));
                    if l.is_err() && blown() {
                        l = r.get_sub_file_entry_by_name(&ByteString::from("far"));
                    }
                    let mut l = l.map_err(err)?.ok_or("no link")?;
                    let mut t = l.get_symbolic_link_target().map(|t| t.cloned());
                    if t.is_err() && blown() {
                        t = l.get_symbolic_link_target().map(|t| t.cloned());
                    }
                    if t.map_err(err)?.map(|t| t.elements) != root.sub[3].target {
                        return Err("the target".into());
                    }
                    let mut d = stream_of(&fs);
                    if d.is_err() && blown() {
                        d = stream_of(&fs);
                    }
                    let d = d?;
                    let mut g = window(&d, &content, 0, content.len() + 1, cov);
                    if g.is_err() && blown() {
                        g = window(&d, &content, 0, content.len() + 1, cov);
                    }
                    g
                });
                match r {
                    Ok(()) => {}
                    Err(_) if blown() => {}
                    Err(m) => return Err(format!("pass {pass}: {m}")),
                }
            }
            Ok(())
        });
        r.unwrap_or_else(Err).map_err(|m| Failure::new(key, m))
    });
    // The volume is cut at every offset.
    let step = check.pick(5u64, 1);
    check.family("truncation", 2 * 40000 / step, |i, cov| {
        let version = [2u8, 4][(i % 2) as usize];
        let (v, root) = sample(version, version == 4);
        let content = {
            let c = root.sub[1].content.as_ref().unwrap();
            let mut d = vec![0; c.size as usize];
            c.fill(0, &mut d);
            d
        };
        let mut s = v.build();
        let mut ranges: Vec<(u64, u64)> = s.segs.iter().map(|(a, d)| (*a, *a + d.len() as u64)).collect();
        ranges.push((s.size - 2, s.size));
        let mut k = i / 2 * step;
        let Some(cut) = ranges.iter().find_map(|(a, b)| {
            if k < b - a {
                Some(a + k)
            } else {
                k -= b - a;
                None
            }
        }) else {
            return Ok(());
        };
        let old = std::mem::take(&mut s.segs);
        for (a, d) in old {
            if a < cut {
                s.segs.insert(a, Arc::new(d[..((cut - a) as usize).min(d.len())].to_vec()));
            }
        }
        s.size = cut;
        let stream = sparse(&Arc::new(s));
        cov.step();
        let r = guarded(|| -> Result<(), String> {
            let Ok(fs) = open(&stream) else { return Ok(()) };
            if let Ok(e) = fs.get_file_entry_by_path(&ExtPath::from("/far")) {
                if let Ok(t) = e.ok_or("the link is missing")?.get_symbolic_link_target() {
                    if t.map(|t| t.elements.clone()) != root.sub[3].target {
                        return Err("the target".into());
                    }
                }
            }
            let Ok(e) = fs.get_file_entry_by_path(&ExtPath::from("/large")) else { return Ok(()) };
            let e = e.ok_or("the entry is missing")?;
            let Ok(Some(d)) = e.get_data_stream() else { return Ok(()) };
            for (at, len) in [(0, content.len()), (0, 1024), (500, 100), (2048, 1024), (12 * 1024 - 2, 1200), (content.len() as u64 - 1, 1)] {
                right_or_less(&d, &content, at, len, cov)?;
            }
            Ok(())
        });
        r.unwrap_or_else(Err).map_err(|m| Failure::new(format!("{version} {cut}"), m))
    });
    // Each byte of an inode, a directory, block numbers or extents takes every value of a set.
    let values: [u8; 7] = [0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x12];
    check.family("damaged structures", 3 * 4000 * 7, |i, cov| {
        let mut g = Digits(i);
        let b = *g.pick(&values);
        let kind = g.take(3);
        let at = g.0;
        let (mut v, root) = sample(if kind == 2 { 4 } else { 2 }, false);
        if kind == 1 {
            v.inode_size = 256;
        }
        // What is looked at: inodes, and what lies in blocks of pointers and directories.
        let mut spots: Vec<(u64, u64)> = root.sub.iter().chain([&root]).chain(&root.sub[0].sub).map(|w| (v.table_at(w.number), v.inode_size)).collect();
        for (n, d) in &v.data {
            let pointers = d.len() == 1024 && d[12..].chunks(4).filter(|c| c[2..] == [0, 0]).count() > 150;
            if pointers {
                spots.push((n * 1024, if kind == 2 { 120 } else { 100 }));
            }
        }
        let mut k = at;
        let Some(pos) = spots.iter().find_map(|(a, n)| {
            if k < *n {
                Some(a + k)
            } else {
                k -= n;
                None
            }
        }) else {
            return Ok(());
        };
        let mut s = v.build();
        for (a, d) in s.segs.iter_mut() {
            if *a <= pos && pos < *a + d.len() as u64 {
                let mut n = d.to_vec();
                n[(pos - a) as usize] = b;
                *d = Arc::new(n);
            }
        }
        let stream = sparse(&Arc::new(s));
        cov.step();
        guarded(|| {
            if let Ok(fs) = open(&stream) {
                explore(&fs, cov);
            }
        })
        .map_err(|m| Failure::new(format!("{kind} {pos} {b:#x}"), m))
    });
    // Sizes out of all bounds, of every kind of file.
    check.family("sizes out of bounds", 3 * 12 * 5 * 4 * 3, |i, cov| {
        let mut g = Digits(i);
        let version = *g.pick(&[2u8, 3, 4]);
        let size = *g.pick(&[1u64, 59, 60, 61, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 1 << 43, 1 << 62, 1 << 63, u64::MAX]);
        let kind = *g.pick(&[FILE, DIR, LINK, CHAR, FIFO]);
        let how = g.take(4);
        let sectors = *g.pick(&[0u64, 8, 0xffffffffffff]);
        let mut v = Vol::new(version, 1024);
        let mut ino = Ino::new(kind, 12);
        ino.size = size;
        ino.sectors = sectors;
        match how {
            0 => {}
            1 => ino.refs = [0xff; 60],
            2 => v.map_blocks(&mut ino, &[(0, 70), (12, 71), (300, 72)]),
            _ => v.map_extents(&mut ino, &[(0, 1, 70), (9, 0xffff, 71), (0xffffffff, 0xffff, u64::MAX >> 16)], 4, 0),
        }
        v.inodes.insert(12, ino.clone());
        let _ = v.root(vec![Want::new("x", 12, ino)]);
        let s = of(&v);
        cov.step();
        guarded(|| {
            let fs = open(&s)?;
            if let Ok(Some(mut e)) = fs.get_file_entry_by_path(&ExtPath::from("/x")) {
                let _ = e.get_symbolic_link_target().is_ok();
                let _ = e.get_device_identifier();
                let n = e.get_number_of_sub_file_entries().unwrap_or(0);
                cov.outcome(&n);
                if let Ok(Some(d)) = e.get_data_stream() {
                    let mut g = d.write().unwrap();
                    let n = g.get_size().unwrap_or(0);
                    for at in [0, 1023, 12 * 1024, n / 2, n.saturating_sub(3)] {
                        let _ = g.read_at_position_any(&mut [0; 2000], at);
                    }
                }
            }
            Ok(())
        })
        .unwrap_or_else(Err)
        .map_err(|m| Failure::new(format!("{version} {size:#x} {kind:#x} {how} {sectors}"), m))
    });
    // Nodes that lead back to nodes.
    check.family("nodes in a circle", 3 * 3 * 6, |i, cov| {
        let mut g = Digits(i);
        let version = *g.pick(&[2u8, 3, 4]);
        let n = 1 + g.take(3);
        let depth = g.take(6) as u16;
        let mut v = Vol::new(version, 1024);
        let mut ino = Ino::new(FILE, 12);
        ino.size = 1 << 31;
        ino.sectors = 16;
        if version == 4 {
            ino.flags |= 0x80000;
            ino.refs[..12].copy_from_slice(&node_header(1, 4, depth + 1));
            p32l(&mut ino.refs, 16, 800);
            for k in 0..n {
                let mut d = vec![0u8; 1024];
                d[..12].copy_from_slice(&node_header(3, 84, depth.saturating_sub(k as u16)));
                for e in 0..3 {
                    p32l(&mut d, 12 + 12 * e + 4, 800 + ((k + 1) % n) as u32);
                }
                v.data.insert(800 + k, d);
            }
        } else {
            for k in 0..3 {
                ino.set_ref(12 + k, 800);
            }
            for k in 0..n {
                let mut d = vec![0u8; 1024];
                for e in 0..=depth as usize {
                    p32l(&mut d, 4 * e * 40, 800 + ((k + 1) % n) as u32);
                }
                v.data.insert(800 + k, d);
            }
        }
        v.inodes.insert(12, ino.clone());
        let _ = v.root(vec![Want::new("x", 12, ino)]);
        let s = of(&v);
        cov.step();
        guarded(|| {
            let fs = open(&s)?;
            explore(&fs, cov);
            let _ = fs.get_file_entry_by_path(&ExtPath::from("/x")).is_ok();
            Ok(())
        })
        .unwrap_or_else(Err)
        .map_err(|m| Failure::new(format!("{version} {n} {depth}"), m))
    });
}

fn stream_of(fs: &ExtFileSystem) -> Result<DataStreamReference, String> {
    fs.get_file_entry_by_path(&ExtPath::from("/large")).map_err(err)?.ok_or("no entry")?.get_data_stream().map_err(err)?.ok_or("no data stream".into())
}

fn paths(check: &mut Check) {
    // Paths as text: what is joined is split again; parent, name, stem and extension agree.
    let parts = ["", "a", "b.c", ".h", "x.", "d.e.f", "A B"];
    let depth = check.pick(4, 5);
    check.family("paths", seq_count(7, depth), |i, cov| {
        let seq = seq_decode(7, i);
        let c: Vec<&str> = seq.iter().map(|x| parts[*x as usize]).collect();
        let key = format!("{c:?}");
        let fail = |m: String| -> CaseResult { Err(Failure::new(key.clone(), m)) };
        cov.step();
        let text = c.join("/");
        let p = ExtPath::from(&text);
        let q = ExtPath::from(&c);
        let strings: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        let bytes: Vec<ByteString> = c.iter().map(|x| ByteString::from(*x)).collect();
        if q != ExtPath::from(&strings) || q != ExtPath::from(&bytes) || q != ExtPath::from(c.as_slice()) || q != ExtPath::from(bytes.as_slice()) || p != ExtPath::from(text.as_str()) {
            return fail("ways to make the same path".into());
        }
        if c.len() > 1 && c != ["", ""] {
            if p != q {
                return fail(format!("from text {p:?}, from components {q:?}"));
            }
            if p.to_string() != text {
                return fail(format!("as text {:?}", p.to_string()));
            }
            let last = ByteString::from(*c.last().unwrap());
            if p.file_name() != Some(&last) {
                return fail(format!("file name {:?}", p.file_name()));
            }
            let parent = p.new_with_parent_directory();
            if parent.components != q.components[..c.len() - 1] {
                return fail(format!("parent {parent:?}"));
            }
            if parent.new_with_join(&[last.clone()]) != p {
                return fail("parent joined with the file name".into());
            }
            let std = std::path::PathBuf::from(c.last().unwrap());
            if !c.last().unwrap().is_empty() {
                let ext = std.extension().map(|x| ByteString::from(x.to_str().unwrap()));
                let stem = std.file_stem().map(|x| ByteString::from(x.to_str().unwrap()));
                if p.extension() != ext || p.file_stem() != stem {
                    return fail(format!("extension {:?}, stem {:?}", p.extension(), p.file_stem()));
                }
            }
            let mut r = parent.clone();
            r.push(last);
            if r != p {
                return fail("parent with the file name appended".into());
            }
        }
        if p.is_empty() != text.is_empty() {
            return fail("is empty".into());
        }
        cov.outcome(&p.to_string());
        Ok(())
    });
}

pub fn main() {
    let mut check = Check::new("C28");
    check.assume("backups of the superblock and of the group descriptors are not used");
    check.assume("a stored checksum of 0 is one that is not set");
    block_numbers(&mut check);
    extents(&mut check);
    protocols(&mut check);
    directories(&mut check);
    inodes(&mut check);
    layouts(&mut check);
    superblocks(&mut check);
    environment(&mut check);
    paths(&mut check);
    check.finish();
}
