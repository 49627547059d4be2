//! Shared parts of the checks of the virtual file system: file systems, volume systems and images around them, with what
//! they hold. The builders are those of the checks of the formats.
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::ext::ExtPath;
use keramics_formats::fat::{FatPath, FatString};
use keramics_formats::ntfs::NtfsPath;
use keramics_types::{ByteString, Ucs2String};
use keramics_vfs::{VfsFileEntry, VfsFileSystem, VfsFileType, VfsFinder, VfsLocation, VfsPath, VfsString, VfsType};
use mc_engine::Cov;
use mc_engine::util::{seq_count, seq_decode};
use mc_formats::Segs;
use std::collections::BTreeMap;
use std::io::{Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, OnceLock};

#[allow(dead_code, unused_imports, unused_variables)]
mod qcow {
    include!("../../formats/src/bin/c20_qcow.rs");
    /// Layers of which each holds the clusters (of 512 << bits bytes) that are its own, the first one all others too.
    pub fn wrap(version: u32, bits: u32, media: &[u8], own: Option<&dyn Fn(usize) -> bool>, names: [&str; 2]) -> Vec<(String, Vec<u8>)> {
        let n = media.len().div_ceil(1 << bits);
        let mut top = spec(version, bits, 6, media.len() as u64, vec![Cl::Data; n]);
        top.content = Some(media.to_vec());
        let Some(own) = own else { return vec![(names[0].into(), build(&top, &[], 0).0)] };
        let mut base = top.clone();
        base.content = Some(super::hidden(media, 1 << bits, own));
        for (k, c) in top.clusters.iter_mut().enumerate() {
            *c = if own(k) { Cl::Late } else { Cl::None };
        }
        top.backing = Some(names[1].into());
        vec![(names[0].into(), build(&top, &[], 0).0), (names[1].into(), build(&base, &[], 0).0)]
    }
}

#[allow(dead_code, unused_imports, unused_variables)]
mod vhd {
    include!("../../formats/src/bin/c21_vhd.rs");
    pub fn fixed(media: &[u8]) -> Vec<u8> {
        let mut s = spec(Kind::Fixed, 0, media.len() as u64, vec![]);
        s.content = Some(media.to_vec());
        build(&s, &[], 1, 0).0
    }
    pub fn wrap(block: usize, media: &[u8], own: Option<&dyn Fn(usize) -> bool>) -> Vec<(String, Vec<u8>)> {
        let n = media.len().div_ceil(block);
        let mut base = spec(Kind::Dynamic, block, media.len() as u64, vec![Bl::Bits(0xff); n]);
        base.content = Some(media.to_vec());
        let Some(own) = own else { return vec![("disk1.vhd".into(), build(&base, &[], 1, 0).0)] };
        let mut top = base.clone();
        base.content = Some(super::hidden(media, block, own));
        top.kind = Kind::Differential;
        top.parent = "..\\disk1.vhd".into();
        for (k, c) in top.blocks.iter_mut().enumerate() {
            *c = if own(k) { Bl::Late } else { Bl::Absent };
        }
        vec![("disk2.vhd".into(), build(&top, &[], 2, 0).0), ("disk1.vhd".into(), build(&base, &[], 1, 0).0)]
    }
}

#[allow(dead_code, unused_imports, unused_variables)]
mod vhdx {
    include!("../../formats/src/bin/c22_vhdx.rs");
    /// Layers; the sectors of which the index modulo 8 is odd are those of the differential layer.
    pub fn wrap(media: &[u8], differential: bool) -> Vec<(String, Segs)> {
        let n = media.len().div_ceil(M as usize);
        let mut base = spec(Kind::Dynamic, M, media.len() as u64, &vec![Bl::Full; n]);
        base.content = Some(media.to_vec());
        if !differential {
            return vec![("disk1.vhdx".into(), build(&base))];
        }
        let mut top = spec(Kind::Differential, M, media.len() as u64, &vec![Bl::Bits(0xaa); n]);
        top.n = 2;
        top.content = base.content.clone();
        base.content = Some(super::hidden(media, 512, &|k| k % 2 == 1));
        vec![("disk2.vhdx".into(), build(&top)), ("disk1.vhdx".into(), build(&base))]
    }
}

#[allow(dead_code, unused_imports, unused_variables)]
mod udif {
    include!("../../formats/src/bin/c23_udif.rs");
    pub fn wrap(media: &[u8]) -> Vec<u8> {
        let n = media.len() as u64 / 512;
        let half = n / 2;
        let e = vec![entry(1, 0, half, 0, half * 512), entry(1, half, n - half, half * 512, (n - half) * 512), entry(0xffffffff, n, 0, n * 512, 0)];
        finish(media.to_vec(), 0, &[table(0, n, &e)], 0, false, n)
    }
}

#[allow(dead_code, unused_imports, unused_variables)]
mod sparse {
    include!("../../formats/src/bin/c24_sparse.rs");
    /// The bands are stored in descending order.
    pub fn wrap(media: &[u8]) -> Vec<u8> {
        let sectors = (media.len() / 512) as u32;
        // The header has room for 1008 bands.
        let per = 128 * sectors.div_ceil(128 * 1008).max(1);
        let n = sectors.div_ceil(per);
        let mut f = header(per, sectors);
        for k in 0..n {
            p32b(&mut f, 64 + 4 * k as usize, n - k);
            f.extend(part(media, ((n - k - 1) * per) as usize * 512, per as usize * 512));
        }
        f
    }
}

#[allow(dead_code, unused_imports, unused_variables)]
mod ewf {
    include!("../../formats/src/bin/c25_ewf.rs");
    pub fn wrap(media: &[u8], segments: usize) -> Vec<(String, Vec<u8>)> {
        stored(media, segments, None, None)
    }
    /// With a "hash" section of an MD5 and a "digest" section of an MD5 and SHA1.
    pub fn stored(media: &[u8], segments: usize, hash: Option<&[u8; 16]>, digest: Option<&([u8; 16], [u8; 20])>) -> Vec<(String, Vec<u8>)> {
        let mut last: Vec<Section> = vec![];
        if let Some((m, h)) = digest {
            last.push(("digest", summed([&m[..], h, &[0; 40]].concat())));
        }
        if let Some(m) = hash {
            last.push(("hash", summed([&m[..], &[9; 16]].concat())));
        }
        let sectors = (media.len() / 512) as u32;
        let chunks = sectors.div_ceil(64) as usize;
        let per = chunks.div_ceil(segments);
        let segs: Vec<Vec<Vec<C>>> = vec![C::Raw; chunks].chunks(per).map(|c| c.chunks(10).map(|t| t.to_vec()).collect()).collect();
        let s = Image { kind: Kind::E01, spc: 64, bps: 512, sectors, segs, partial: false, gap: 0, sized: false, lower: false };
        let (files, _, raws) = build(&s, &Extra { last, ..Default::default() }, 0);
        let mut files: Vec<(String, Vec<u8>)> = files.into_iter().map(|(n, d)| (n, d.as_ref().clone())).collect();
        for (sn, at, from, n) in raws {
            let d = summed(part(media, from, n));
            files[sn].1[at..at + n + 4].copy_from_slice(&d);
        }
        files
    }
}

#[allow(dead_code, unused_imports, unused_variables)]
mod partitions {
    include!("../../formats/src/bin/c26_partitions.rs");
    pub fn volume(kind: &super::VfsType, sectors: usize, parts: &[(usize, usize)]) -> Vec<u8> {
        match kind {
            super::VfsType::Apm => {
                let count = parts.len() as u32 + 1;
                let mut e = vec![apm_map(count)];
                e.extend(parts.iter().map(|(a, n)| ApmEntry { count, start: *a as u32, sectors: *n as u32, name: b"disk image".to_vec(), kind: b"Apple_HFS".to_vec(), flags: 0x33 }));
                apm_disk(sectors, &e)
            }
            super::VfsType::Gpt => {
                // The slots are not used in order.
                let mut slots = vec![None; 8];
                for (k, (a, n)) in parts.iter().enumerate() {
                    slots[k * 2] = Some((*a as u64, (*a + *n - 1) as u64));
                }
                let mut g = Gpt::new(512, &slots);
                g.sectors = sectors as u64;
                g.backup_at = g.sectors - 1;
                g.last = g.sectors - 2;
                g.backups = vec![g.backup_at];
                g.build()
            }
            _ => {
                let mut d = blank(512, sectors);
                let slots: Vec<Slot> = parts.iter().map(|(a, n)| (0x83, *a as u32, *n as u32, 0)).collect();
                boot_record(&mut d[..512], &slots);
                d
            }
        }
    }
    /// The identifier of the partition in slot 2n.
    pub fn identifier(n: usize) -> String {
        String::from_utf8(guid_text(&pattern(112, 40 + 2 * n as u64)[..16])).unwrap()
    }
    /// A disk on which nothing is found.
    pub fn nothing(sectors: usize) -> Vec<u8> {
        blank(512, sectors)
    }
}

#[allow(dead_code, unused_imports, unused_variables)]
mod fat {
    include!("../../formats/src/bin/c27_fat.rs");
    pub fn sample(n: u8) -> (Segs, super::Node) {
        let f = match n {
            12 => F12,
            16 => F16,
            _ => F32,
        };
        let mut v = small(f);
        let long_name = "A long file name";
        let c = [12u32, 5, 9];
        v.chain(&c, v.end());
        let content = pattern(1300, 3);
        v.store(&c, &content);
        v.chain(&[15], v.end());
        let second = pattern(7, 4);
        v.store(&[15], &second);
        v.chain(&[4, 3], v.end());
        v.chain(&[16], v.end());
        let mut slots = vec![entry(b".          ", 0x10, 0, 4, 0, 1), entry(b"..         ", 0x10, 0, 0, 0, 1)];
        let mut gone = slots[0];
        gone[0] = 0xe5;
        slots.resize(14, gone);
        slots.extend(long(&units(long_name), sum(b"ALONGF~1   ")));
        slots.push(entry(b"ALONGF~1   ", 0x20, 0, 12, 1300, 1));
        v.store_dir(&[4, 3], &slots.concat());
        v.store_dir(&[16], &[entry(b".          ", 0x10, 0, 16, 0, 1), entry(b"..         ", 0x10, 0, 0, 0, 1)].concat());
        with_root(&mut v, &[entry(b"DIR        ", 0x10, 0, 4, 0, 1), entry(b"FILE    TXT", 0x20, 0, 15, 7, 2), entry(b"NONE       ", 0x10, 0, 16, 0, 3), entry(b"EMPTY      ", 0x20, 0, 0, 0, 3)]);
        let root = super::Node::dir("", vec![super::Node::dir("DIR", vec![super::Node::file(long_name, &content)]), super::Node::file("FILE.TXT", &second), super::Node::dir("NONE", vec![]), super::Node::file("EMPTY", &[])]);
        let mut s = v.build();
        if n != 32 {
            // Scanners go by the hint.
            let b = super::Arc::make_mut(s.segs.get_mut(&0).unwrap());
            b[54..62].copy_from_slice(format!("FAT{n}   ").as_bytes());
        }
        (s, root)
    }
    fn finish(v: &Vol) -> Segs {
        let mut s = v.build();
        let b = super::Arc::make_mut(s.segs.get_mut(&0).unwrap());
        b[54..62].copy_from_slice(b"FAT12   ");
        s
    }
    /// Files with long names.
    pub fn named(names: &[Vec<u16>]) -> Segs {
        let mut v = small(F12);
        v.chain(&[5], v.end());
        v.store(&[5], &pattern(30, 4));
        let mut slots = vec![];
        for (k, n) in names.iter().enumerate() {
            let mut short = *b"NAME   ~1  ";
            short[4..7].copy_from_slice(format!("{k:03}").as_bytes());
            slots.extend(long(n, sum(&short)));
            slots.push(entry(&short, 0x20, 0, 5, 1 + k as u32, k as u64));
        }
        with_root(&mut v, &slots);
        finish(&v)
    }
    /// Files with attributes, and what is in their entries from byte 13 to 19 and 22 to 26.
    pub fn flagged(items: &[(u8, [u8; 7], [u8; 4])]) -> Segs {
        let mut v = small(F12);
        let slots: Vec<[u8; 32]> = items.iter().enumerate().map(|(k, (a, x, y))| {
            let mut short = *b"NAME    ~1 ";
            short[4..8].copy_from_slice(format!("{k:04}").as_bytes());
            let mut e = entry(&short, *a, 0, 0, 0, k as u64);
            e[13..20].copy_from_slice(x);
            e[22..26].copy_from_slice(y);
            e
        }).collect();
        with_root(&mut v, &slots);
        finish(&v)
    }
}

#[allow(dead_code, unused_imports, unused_variables)]
mod ext {
    include!("../../formats/src/bin/c28_ext.rs");
    fn node(w: &Want) -> super::Node {
        let name = String::from_utf8_lossy(&w.name).to_string();
        let sub = w.sub.iter().map(node).collect();
        let kind = match w.ino.mode & 0xf000 {
            FIFO => super::NodeKind::Fifo,
            CHAR => super::NodeKind::Char,
            BLOCK => super::NodeKind::Block,
            SOCK => super::NodeKind::Socket,
            DIR => super::NodeKind::Dir,
            LINK => super::NodeKind::Link(String::from_utf8_lossy(w.target.as_ref().unwrap()).split('/').map(|x| x.to_string()).collect()),
            _ => super::NodeKind::File,
        };
        super::Node { name, kind, content: w.content.clone(), streams: vec![], sub }
    }
    pub fn sample_of(version: u8) -> (Segs, super::Node) {
        let (mut v, root) = sample(version, false);
        let mut sub = root.sub.clone();
        sub.push(v.link("abs", 25, b"/dir/small"));
        for (k, m) in [FIFO, CHAR, BLOCK, SOCK].into_iter().enumerate() {
            sub.push(v.other(&format!("other{k}"), 26 + k as u32, Ino::new(m | 0o644, 26 + k as u32)));
        }
        let root = v.root(sub);
        (v.build(), node(&root))
    }
    /// Files with names, in a directory with a name.
    pub fn named(dir: &[u8], names: &[Vec<u8>]) -> Segs {
        let mut v = Vol::new(2, 1024);
        v.blocks = 600;
        let sub = names.iter().enumerate().map(|(k, n)| {
            let mut w = v.file("x", 20 + k as u32, &text(20 + k, k as u64));
            w.name = n.clone();
            w
        }).collect();
        let mut d = v.dir("x", 12, 2, sub);
        d.name = dir.to_vec();
        v.root(vec![d]);
        v.build()
    }
    /// Inodes with modes, owners and times: mode, owner, group; access, change, modification time; extra precision.
    pub fn modes(items: &[(u16, [i32; 4], [u32; 5])]) -> Segs {
        let mut v = Vol::new(4, 1024);
        v.inode_size = 256;
        v.ipg = 1024;
        v.blocks = 4000;
        v.next = 600;
        let sub = items.iter().enumerate().map(|(k, (mode, times, precise))| {
            let n = 20 + k as u32;
            let mut ino = Ino::new(*mode, n);
            ino.mode = *mode;
            ino.times = *times;
            ino.precise = *precise;
            if mode & 0xf000 == LINK {
                ino.size = 1;
                ino.refs[0] = b'x';
            }
            if mode & 0xf000 == DIR {
                let mut w = v.dir(&format!("n{k}"), n, 2, vec![]);
                (ino.size, ino.sectors, ino.flags, ino.refs) = (w.ino.size, w.ino.sectors, w.ino.flags, w.ino.refs);
                v.inodes.insert(n, ino.clone());
                w.ino = ino;
                w
            } else {
                v.other(&format!("n{k}"), n, ino)
            }
        }).collect();
        v.root(sub);
        v.build()
    }
}

#[allow(dead_code, unused_imports, unused_variables)]
mod ntfs {
    include!("../../formats/src/bin/c29_ntfs.rs");
    fn node(w: &Want) -> super::Node {
        let sub = w.sub.iter().map(node).collect();
        let kind = match &w.target {
            Some(t) => super::NodeKind::Link(text(t).split('\\').map(|x| x.to_string()).collect()),
            None if w.dir => super::NodeKind::Dir,
            None => super::NodeKind::File,
        };
        let streams = w.streams.iter().map(|(n, s)| (text(n), s.clone())).collect();
        super::Node { name: text(&w.name), kind, content: w.content.clone(), streams, sub }
    }
    pub fn sample_of() -> (Segs, super::Node) {
        let mut v = Vol::small();
        let mut root = rich(&mut v);
        for (k, (name, target, flags)) in [("m-abs", "\\??\\C:\\dir", 0u32), ("n-rel", "..\\dir\\Inner", 1), ("o-one", "dir", 1)].into_iter().enumerate() {
            let mut x = v.want(40 + k as u64, &u(name));
            x.target = Some(u(target));
            v.put(&mut x, vec![res(REPARSE, &[], 0, &reparse(0xa000000c, &link(&u(target), &u("d"), flags, 0)))]);
            root.sub.push(x);
        }
        let mut r = v.want(5, &[]);
        r.dir = true;
        root.sub.sort_by_key(key);
        let t = Node::leaf(&root.sub);
        let at = v.index(&t, None);
        v.put(&mut r, at);
        r.sub = root.sub;
        (v.build(), node(&r))
    }
    /// Files with names and streams with names, in a directory with a name.
    pub fn named(dir: &[u16], names: &[(Vec<u16>, Option<Vec<u16>>)]) -> Segs {
        let mut v = Vol::small();
        let mut d = v.want(30, dir);
        d.dir = true;
        let mut sub: Vec<Want> = names.iter().enumerate().map(|(k, (n, s))| {
            let mut f = v.want(40 + k as u64, n);
            f.parent = d.reference();
            let data = pattern(9 + k, k as u64);
            f.size = data.len() as u64;
            let mut a = vec![res(DATA, &[], 0, &data)];
            if let Some(s) = s {
                a.push(res(DATA, s, 0, &pattern(5 + k, 70 + k as u64)));
            }
            v.put(&mut f, a);
            f
        }).collect();
        sub.sort_by_key(|s| fold(&s.name));
        let a = spread(&mut v, &sub);
        v.put(&mut d, a);
        d.sub = sub;
        v.root(vec![d]);
        v.build()
    }
    /// Files with attribute flags and times.
    pub fn flagged(items: &[(u32, [u64; 4])]) -> Segs {
        let mut v = Vol::small();
        let mut sub: Vec<Want> = items.iter().enumerate().map(|(k, (flags, times))| {
            let mut f = v.want(40 + k as u64, &u(&format!("n{k}")));
            let info = f.info.as_mut().unwrap();
            info.flags = *flags;
            info.times = *times;
            v.put(&mut f, vec![res(DATA, &[], 0, &[1, 2])]);
            f
        }).collect();
        let mut r = v.want(5, &[]);
        r.dir = true;
        sub.sort_by_key(|s| fold(&s.name));
        let a = spread(&mut v, &sub);
        v.put(&mut r, a);
        v.build()
    }
    /// An index of more than one node.
    fn spread(v: &mut Vol, sub: &[Want]) -> Vec<Vec<u8>> {
        let keys: Vec<Key> = sub.iter().map(key).collect();
        let t = tree(&keys, &|k| k % 10 == 9, None, false, 0);
        v.index(&t, None)
    }
}

pub mod made {
    /// An EWF image that stores digests.
    pub fn ewf_stored(media: &[u8], segments: usize, hash: Option<&[u8; 16]>, digest: Option<&([u8; 16], [u8; 20])>) -> super::Files {
        super::segs(super::ewf::stored(media, segments, hash, digest))
    }
    pub use super::ext::{modes as ext_modes, named as ext_named};
    pub use super::fat::{flagged as fat_flagged, named as fat_named};
    pub use super::ntfs::{flagged as ntfs_flagged, named as ntfs_named};
}

/// The identifier of a partition of a GUID partition table.
pub fn gpt_identifier(n: usize) -> String {
    partitions::identifier(n)
}

/// Content with what lies in some blocks turned into something else.
fn hidden(media: &[u8], block: usize, which: &dyn Fn(usize) -> bool) -> Vec<u8> {
    media.iter().enumerate().map(|(k, x)| if which(k / block) { !*x } else { *x }).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum NodeKind {
    File,
    Dir,
    Link(Vec<String>),
    Fifo,
    Char,
    Block,
    Socket,
}

/// What is known of a file entry.
#[derive(Clone)]
pub struct Node {
    pub name: String,
    pub kind: NodeKind,
    pub content: Option<Arc<Segs>>,
    pub streams: Vec<(String, Arc<Segs>)>,
    pub sub: Vec<Node>,
}

impl Node {
    pub fn dir(name: &str, sub: Vec<Node>) -> Node {
        Node { name: name.into(), kind: NodeKind::Dir, content: None, streams: vec![], sub }
    }
    pub fn file(name: &str, content: &[u8]) -> Node {
        let mut s = Segs::default();
        s.put(0, content.to_vec());
        Node { name: name.into(), kind: NodeKind::File, content: Some(Arc::new(s)), streams: vec![], sub: vec![] }
    }
    /// All nodes with their paths.
    pub fn all<'a>(&'a self, path: &[&'a str], to: &mut Vec<(Vec<&'a str>, &'a Node)>) {
        let mut p = path.to_vec();
        p.push(&self.name);
        for s in &self.sub {
            s.all(&p, to);
        }
        to.push((p, self));
    }
}

/// A file system and what it holds.
pub struct Fs {
    pub name: &'static str,
    pub kind: Option<VfsType>,
    pub media: Arc<Segs>,
    pub root: Node,
}

impl Fs {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; self.media.size.div_ceil(512) as usize * 512];
        self.media.fill(0, &mut b);
        b
    }
}

/// Nothing, FAT-12, ext2, NTFS, ext4, FAT-16 and FAT-32.
pub fn file_systems() -> &'static [Fs] {
    static F: OnceLock<Vec<Fs>> = OnceLock::new();
    F.get_or_init(|| {
        let mut blank = Segs::default();
        blank.put(0, partitions::nothing(40));
        let mut v = vec![Fs { name: "nothing", kind: None, media: Arc::new(blank), root: Node::dir("", vec![]) }];
        let mut add = |name, kind, (media, root): (Segs, Node)| v.push(Fs { name, kind: Some(kind), media: Arc::new(media), root });
        add("FAT-12", VfsType::Fat, fat::sample(12));
        add("ext2", VfsType::Ext, ext::sample_of(2));
        add("NTFS", VfsType::Ntfs, ntfs::sample_of());
        add("ext4", VfsType::Ext, ext::sample_of(4));
        add("FAT-16", VfsType::Fat, fat::sample(16));
        add("FAT-32", VfsType::Fat, fat::sample(32));
        v
    })
}

/// A volume system with file systems in its partitions.
pub fn volume(kind: &VfsType, parts: &[&Fs]) -> Vec<u8> {
    let mut at = 64usize;
    let mut ranges = vec![];
    for f in parts {
        let n = f.media.size.div_ceil(512) as usize;
        ranges.push((at, n));
        at += n + 3;
    }
    let mut d = partitions::volume(kind, at + 40, &ranges);
    for (f, (a, n)) in parts.iter().zip(&ranges) {
        f.media.fill(0, &mut d[a * 512..(a + n) * 512]);
    }
    d
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Wrap {
    Raw,
    Ewf,
    EwfSplit,
    Qcow1,
    Qcow2,
    Qcow3,
    QcowChain,
    Sparse,
    Udif,
    VhdFixed,
    Vhd,
    VhdChain,
    Vhdx,
    VhdxChain,
}
pub use Wrap::*;
pub const WRAPS: [Wrap; 14] = [Raw, Ewf, EwfSplit, Qcow1, Qcow2, Qcow3, QcowChain, Sparse, Udif, VhdFixed, Vhd, VhdChain, Vhdx, VhdxChain];

/// The files of an image, the one to open first.
pub type Files = Vec<(String, Segs)>;

fn segs(v: Vec<(String, Vec<u8>)>) -> Files {
    v.into_iter()
        .map(|(n, d)| {
            let mut s = Segs::default();
            s.put(0, d);
            (n, s)
        })
        .collect()
}

impl Wrap {
    pub fn kind(&self) -> Option<VfsType> {
        match self {
            Raw => None,
            Ewf | EwfSplit => Some(VfsType::Ewf),
            Qcow1 | Qcow2 | Qcow3 | QcowChain => Some(VfsType::Qcow),
            Sparse => Some(VfsType::SparseImage),
            Udif => Some(VfsType::Udif),
            VhdFixed | Vhd | VhdChain => Some(VfsType::Vhd),
            Vhdx | VhdxChain => Some(VfsType::Vhdx),
        }
    }
    /// The contents of the layers, the first one that of the base.
    pub fn layers(&self, media: &[u8]) -> Vec<Vec<u8>> {
        let b = match self {
            QcowChain => Some((4096, 0)),
            VhdChain => Some((8192, 0)),
            VhdxChain => Some((512, 1)),
            _ => None,
        };
        match b {
            Some((n, odd)) => vec![hidden(media, n, &|k| k % 2 == odd), media.to_vec()],
            None => vec![media.to_vec()],
        }
    }
    pub fn prefix(&self) -> &'static str {
        prefix(&self.kind().unwrap())
    }
    pub fn files(&self, media: &[u8]) -> Files {
        assert!(media.len() % 512 == 0);
        let even = |k: usize| k % 2 == 0;
        match self {
            Raw => segs(vec![("image.raw".into(), media.to_vec())]),
            Ewf => segs(ewf::wrap(media, 1)),
            EwfSplit => segs(ewf::wrap(media, 3)),
            Qcow1 => segs(qcow::wrap(1, 9, media, None, ["image.qcow", ""])),
            Qcow2 => segs(qcow::wrap(2, 12, media, None, ["image.qcow2", ""])),
            Qcow3 => segs(qcow::wrap(3, 16, media, None, ["image.qcow2", ""])),
            QcowChain => segs(qcow::wrap(2, 12, media, Some(&even), ["top.qcow2", "base.qcow2"])),
            Sparse => segs(vec![("image.sparseimage".into(), sparse::wrap(media))]),
            Udif => segs(vec![("image.dmg".into(), udif::wrap(media))]),
            VhdFixed => segs(vec![("image.vhd".into(), vhd::fixed(media))]),
            Vhd => segs(vhd::wrap(8192, media, None)),
            VhdChain => segs(vhd::wrap(8192, media, Some(&even))),
            Vhdx => vhdx::wrap(media, false),
            VhdxChain => vhdx::wrap(media, true),
        }
    }
}

/// The names of the layers and partitions of a type start with this.
pub fn prefix(t: &VfsType) -> &'static str {
    match t {
        VfsType::Apm => "apm",
        VfsType::Ewf => "ewf",
        VfsType::Gpt => "gpt",
        VfsType::Mbr => "mbr",
        VfsType::Qcow => "qcow",
        VfsType::SparseImage => "sparseimage",
        VfsType::Udif => "udif",
        VfsType::Vhd => "vhd",
        VfsType::Vhdx => "vhdx",
        _ => unreachable!(),
    }
}

/// What is expected of a scan.
pub struct Want {
    pub location: VfsLocation,
    /// The file system that the location is the root of.
    pub fs: Option<usize>,
    pub sub: Vec<Want>,
}

/// A disk: the file system on it or the volume system and what is in its partitions.
#[derive(Clone, Debug)]
pub enum Disk {
    Bare(usize),
    Parts(VfsType, Vec<usize>),
}
pub use Disk::*;

impl Disk {
    pub fn media(&self) -> Vec<u8> {
        let fs = file_systems();
        match self {
            Bare(k) => fs[*k].bytes(),
            Parts(t, p) => volume(t, &p.iter().map(|k| &fs[*k]).collect::<Vec<_>>()),
        }
    }
    /// The node below a location, if there is one.
    fn want(&self, at: &VfsLocation) -> Option<Want> {
        let leaf = |at: &VfsLocation, k: usize| -> Option<Want> {
            let t = file_systems()[k].kind.clone()?;
            let root = VfsPath::from_path(&t, if t == VfsType::Ntfs { "\\" } else { "/" });
            Some(Want { location: at.new_with_layer(&t, root), fs: Some(k), sub: vec![] })
        };
        match self {
            Bare(k) => leaf(at, *k),
            Parts(t, p) => {
                let mut sub = vec![];
                let mut one = |n: usize, k: usize| {
                    let location = at.new_with_layer(t, VfsPath::from_path(t, &format!("/{}{n}", prefix(t))));
                    let inner = leaf(&location, k);
                    sub.push(Want { location, fs: None, sub: inner.into_iter().collect() });
                };
                for (n, k) in p.iter().enumerate() {
                    one(n + 1, *k);
                }
                Some(Want { location: at.new_with_layer(t, VfsPath::from_path(t, "/")), fs: None, sub })
            }
        }
    }
}

/// What a scan of an image of a disk gives.
pub fn want(w: Wrap, d: &Disk, os: &VfsLocation) -> Want {
    let sub = match w.kind() {
        None => d.want(os),
        Some(t) => {
            let layers = match w {
                QcowChain | VhdChain | VhdxChain => 2,
                _ => 1,
            };
            // The last layer is the one that is scanned.
            let top = os.new_with_layer(&t, VfsPath::from_path(&t, &format!("/{}{layers}", prefix(&t))));
            Some(Want { location: os.new_with_layer(&t, VfsPath::from_path(&t, "/")), fs: None, sub: d.want(&top).into_iter().collect() })
        }
    };
    Want { location: os.clone(), fs: None, sub: sub.into_iter().collect() }
}

pub fn disks(n: u64) -> Vec<Disk> {
    let mut v: Vec<Disk> = (0..n as usize).map(Bare).collect();
    for t in [VfsType::Mbr, VfsType::Gpt, VfsType::Apm] {
        for k in 0..seq_count(n, 2) {
            let p: Vec<usize> = seq_decode(n, k).iter().map(|x| *x as usize).collect();
            // Without partitions there are other rules.
            if !p.is_empty() {
                v.push(Parts(t.clone(), p));
            }
        }
        v.push(Parts(t.clone(), vec![1, 0, 2]));
        v.push(Parts(t.clone(), vec![3, 2, 1]));
        v.push(Parts(t, vec![0, 0, 3]));
    }
    v
}

/// A directory that is removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(name: &str) -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("mc-vfs-{}-{}-{}", std::process::id(), name, n));
        std::fs::create_dir_all(&p).unwrap();
        // Names with symbolic links would be other paths.
        Scratch(p.canonicalize().unwrap())
    }
    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
    /// Writes the files; gives the path of the first.
    pub fn put(&self, files: &Files) -> String {
        for (n, s) in files {
            write(&self.0.join(n), s);
        }
        self.path(&files[0].0)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Removes what runs of which the process is gone have left behind.
pub fn sweep() {
    let Ok(d) = std::fs::read_dir(std::env::temp_dir()) else { return };
    for e in d.flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if let Some(pid) = n.strip_prefix("mc-vfs-").and_then(|r| r.split('-').next()).and_then(|p| p.parse::<u32>().ok()) {
            if !Path::new(&format!("/proc/{pid}")).exists() {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}

fn write(p: &Path, s: &Segs) {
    let mut f = std::fs::File::create(p).unwrap();
    f.set_len(s.size).unwrap();
    for (at, d) in &s.segs {
        f.seek(SeekFrom::Start(*at)).unwrap();
        f.write_all(d).unwrap();
    }
}

pub fn err(e: ErrorTrace) -> String {
    mc_formats::err(e)
}

/// The whole of a stream, read at positions.
pub fn content_is(s: &DataStreamReference, c: &Segs, cov: &mut Cov) -> Result<(), String> {
    let mut b = vec![0u8; c.size as usize];
    c.fill(0, &mut b);
    bytes_are(s, &b, cov)
}

pub fn bytes_are(s: &DataStreamReference, want: &[u8], cov: &mut Cov) -> Result<(), String> {
    cov.step();
    let n = want.len();
    let mut g = s.write().map_err(|_| "the lock is poisoned".to_string())?;
    let size = g.get_size().map_err(err)?;
    if size != n as u64 {
        return Err(format!("the size of the data stream is {size}, not {n}"));
    }
    let mut b = vec![0u8; n];
    let mut at = 0;
    while at < n {
        let k = (n - at).min(1 << 17);
        let got = g.read_at_position(&mut b[at..at + k], SeekFrom::Start(at as u64)).map_err(|e| format!("read at {at}: {}", err(e)))?;
        if got != k {
            return Err(format!("read at {at} gives {got} bytes, not {k}"));
        }
        at += k;
    }
    mc_formats::compare(&b, want, 0)
}

/// A path in a file system from the names of the entries, the first one empty.
pub fn vfs_path(t: &VfsType, names: &[&str]) -> VfsPath {
    VfsPath::from_path_components(t, names)
}

/// The same path, from the names as they are stored.
pub fn path_of(t: &VfsType, names: &[VfsString]) -> Result<VfsPath, String> {
    Ok(match t {
        VfsType::Ext => {
            let mut c = vec![];
            for n in names {
                c.push(match n {
                    VfsString::Byte(b) => b.clone(),
                    VfsString::Empty => ByteString::from(""),
                    x => return Err(format!("a name of another kind: {x:?}")),
                });
            }
            VfsPath::Ext(ExtPath { components: c })
        }
        VfsType::Fat => {
            let mut c = vec![];
            for n in names {
                c.push(match n {
                    VfsString::Byte(b) => FatString::ByteString(b.clone()),
                    VfsString::Ucs2(b) => FatString::Ucs2String(b.clone()),
                    VfsString::Empty => FatString::from(""),
                    x => return Err(format!("a name of another kind: {x:?}")),
                });
            }
            VfsPath::Fat(FatPath { components: c })
        }
        VfsType::Ntfs => {
            let mut c = vec![];
            for n in names {
                c.push(match n {
                    VfsString::Ucs2(b) => b.clone(),
                    VfsString::Empty => Ucs2String::from(""),
                    x => return Err(format!("a name of another kind: {x:?}")),
                });
            }
            VfsPath::Ntfs(NtfsPath { components: c })
        }
        _ => {
            let c: Vec<String> = names.iter().map(|n| n.to_string()).collect();
            let c: Vec<&str> = c.iter().map(|n| n.as_str()).collect();
            VfsPath::from_path_components(t, &c)
        }
    })
}

fn is_type(t: &VfsFileType, k: &NodeKind) -> bool {
    match k {
        NodeKind::File => *t == VfsFileType::File,
        NodeKind::Dir => *t == VfsFileType::Directory,
        NodeKind::Link(_) => *t == VfsFileType::SymbolicLink,
        NodeKind::Fifo => *t == VfsFileType::NamedPipe,
        NodeKind::Char => *t == VfsFileType::CharacterDevice,
        NodeKind::Block => *t == VfsFileType::BlockDevice,
        NodeKind::Socket => *t == VfsFileType::Socket,
    }
}

/// File systems of which the entries are layers or partitions.
pub fn is_layers(t: &VfsType) -> bool {
    !matches!(t, VfsType::Ext | VfsType::Fat | VfsType::Ntfs)
}

/// The root of a file system of layers or partitions.
pub fn layer_node(t: &VfsType, contents: &[Vec<u8>]) -> Node {
    Node::dir("", contents.iter().enumerate().map(|(k, c)| Node::file(&format!("{}{}", prefix(t), k + 1), c)).collect())
}

/// A file entry has what is known of it.
pub fn entry_is(t: &VfsType, e: &mut VfsFileEntry, n: &Node, cov: &mut Cov) -> Result<(), String> {
    cov.step();
    if !is_type(&e.get_file_type(), &n.kind) {
        return Err(format!("the type is not {:?}", n.kind));
    }
    let name = e.get_name().map(|x| x.to_string()).unwrap_or_default();
    if name != n.name {
        return Err(format!("the name is {name:?}"));
    }
    let link = e.get_symbolic_link_target().map_err(err)?;
    match &n.kind {
        NodeKind::Link(to) => {
            // The prefix of a path of the object manager is not part of the path.
            let to: Vec<&str> = if *t == VfsType::Ntfs && to.len() > 2 && to[0].is_empty() && to[1] == "??" { to[2..].iter().map(|x| x.as_str()).collect() } else { to.iter().map(|x| x.as_str()).collect() };
            let want = vfs_path(t, &to);
            if link.as_ref() != Some(&want) {
                return Err(format!("the target of the link is {:?}, not {:?}", link.map(|x| x.to_string()), want.to_string()));
            }
        }
        _ => {
            if let Some(x) = link {
                return Err(format!("the target of a link: {:?}", x.to_string()));
            }
        }
    }
    let forks = e.get_number_of_data_forks().map_err(err)?;
    let mut want: Vec<(Option<&str>, Arc<Segs>)> = n.streams.iter().map(|(a, b)| (Some(a.as_str()), b.clone())).collect();
    match &n.kind {
        NodeKind::File => {
            let c = n.content.clone().unwrap_or_default();
            // Layers and partitions have no size of their own.
            if !is_layers(t) && e.get_size() != c.size {
                return Err(format!("the size is {}, not {}", e.get_size(), c.size));
            }
            want.push((None, c));
        }
        _ => {}
    }
    if forks != want.len() {
        return Err(format!("{forks} data forks, not {}", want.len()));
    }
    let mut seen = vec![];
    // The data forks of layers and partitions are not there yet.
    for k in 0..if is_layers(t) { 0 } else { forks } {
        let f = e.get_data_fork_by_index(k).map_err(|x| format!("data fork {k}: {}", err(x)))?;
        let name = f.get_name().map(|x| x.to_string());
        let Some((_, c)) = want.iter().find(|(a, _)| a.map(|x| x.to_string()) == name) else { return Err(format!("data fork {k} has the name {name:?}")) };
        if seen.contains(&name) {
            return Err(format!("two data forks with the name {name:?}"));
        }
        content_is(&f.get_data_stream().map_err(err)?, c, cov).map_err(|m| format!("data fork {name:?}: {m}"))?;
        seen.push(name);
    }
    if !is_layers(t) && e.get_data_fork_by_index(forks).is_ok() {
        return Err(format!("data fork {forks} of {forks}"));
    }
    for (name, c) in &want {
        let s = e.get_data_stream_by_name(*name).map_err(err)?.ok_or(format!("no data stream {name:?}"))?;
        content_is(&s, c, cov).map_err(|m| format!("data stream {name:?}: {m}"))?;
    }
    if e.get_data_stream_by_name(Some("nope")).map_err(err)?.is_some() {
        return Err("a data stream with another name".into());
    }
    let s = e.get_data_stream().map_err(err)?;
    match (&s, want.iter().find(|w| w.0.is_none())) {
        (Some(s), Some((_, c))) => content_is(s, c, cov)?,
        (None, None) => {}
        (None, Some(_)) => return Err("no data stream".into()),
        (Some(_), None) if n.kind != NodeKind::File => return Err("a data stream".into()),
        _ => {}
    }
    // The sub entries, by their index and with the iterator.
    let subs = e.get_number_of_sub_file_entries().map_err(err)?;
    if subs != n.sub.len() {
        return Err(format!("{subs} sub entries, not {}", n.sub.len()));
    }
    let mut by_index = vec![];
    for k in (0..subs).rev() {
        by_index.push(e.get_sub_file_entry_by_index(k).map_err(err)?.get_name().map(|x| x.to_string()).unwrap_or_default());
    }
    by_index.reverse();
    let mut listed = vec![];
    for x in e.sub_file_entries().map_err(err)? {
        listed.push(x.map_err(err)?.get_name().map(|x| x.to_string()).unwrap_or_default());
    }
    if listed != by_index {
        return Err(format!("the iterator gives {listed:?}, the indexes {by_index:?}"));
    }
    let mut a: Vec<&str> = listed.iter().map(|x| x.as_str()).collect();
    let mut b: Vec<&str> = n.sub.iter().map(|x| x.name.as_str()).collect();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("the sub entries are {a:?}, not {b:?}"));
    }
    if e.get_sub_file_entry_by_index(subs).is_ok() {
        return Err(format!("sub entry {subs} of {subs}"));
    }
    Ok(())
}

/// Everything that the finder gives, and lookups by path agree with it.
pub fn tree_is(fs: &VfsFileSystem, t: &VfsType, root: &Node, cov: &mut Cov) -> Result<(), String> {
    let mut want = vec![];
    root.all(&[], &mut want);
    let mut left: BTreeMap<Vec<String>, &Node> = want.iter().map(|(p, n)| (p.iter().map(|x| x.to_string()).collect(), *n)).collect();
    let mut done: Vec<Vec<String>> = vec![];
    for x in VfsFinder::new(fs) {
        let (mut e, path) = x.map_err(err)?;
        let names: Vec<String> = path.iter().map(|n| n.to_string()).collect();
        let at = format!("{:?}", names.join("/"));
        let key: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
        let n = left.remove(&names).ok_or(format!("{at} is not in the file system or was found before"))?;
        // What is below an entry comes before it.
        if done.iter().any(|d| d.len() < names.len() && names.starts_with(d)) {
            return Err(format!("{at} is found after what it lies in"));
        }
        entry_is(t, &mut e, n, cov).map_err(|m| format!("{at}: {m}"))?;
        for p in [path_of(t, &path)?, vfs_path(t, &key)] {
            if !fs.file_entry_exists(&p).map_err(err)? {
                return Err(format!("{at} does not exist"));
            }
            let mut o = fs.get_file_entry_by_path(&p).map_err(err)?.ok_or(format!("no entry at {at}"))?;
            entry_is(t, &mut o, n, cov).map_err(|m| format!("by path, {at}: {m}"))?;
            let s = fs.get_data_stream_by_path_and_name(&p, None).map_err(err)?;
            match (&s, &n.content) {
                (Some(s), Some(c)) if n.kind == NodeKind::File => content_is(s, c, cov).map_err(|m| format!("by path, {at}: {m}"))?,
                (None, Some(_)) if n.kind == NodeKind::File => return Err(format!("{at} has no data stream by its path")),
                _ => {}
            }
        }
        // Other paths.
        if key.len() > 1 {
            for other in ["missing".to_string(), format!("{}x", n.name), format!("x{}", n.name), format!("{} ", n.name), n.name[..n.name.len() - 1].to_string()] {
                let mut o: Vec<&str> = key[..key.len() - 1].to_vec();
                o.push(&other);
                let p = vfs_path(t, &o);
                if other.is_empty() || want.iter().any(|w| w.0.iter().map(|x| x.to_lowercase()).eq(o.iter().map(|x| x.to_lowercase()))) {
                    continue;
                }
                if fs.file_entry_exists(&p).map_err(err)? || fs.get_file_entry_by_path(&p).map_err(err)?.is_some() {
                    return Err(format!("{:?} exists", o.join("/")));
                }
            }
        }
        if n.kind == NodeKind::File {
            let mut o = key.clone();
            o.push("below");
            let p = vfs_path(t, &o);
            // An error is an answer too.
            if matches!(fs.file_entry_exists(&p), Ok(true)) || matches!(fs.get_file_entry_by_path(&p), Ok(Some(_))) {
                return Err(format!("{:?} exists", o.join("/")));
            }
        }
        done.push(names.clone());
    }
    if let Some((p, _)) = left.into_iter().next() {
        return Err(format!("{:?} is not found", p.join("/")));
    }
    cov.distinct_states(done.len() as u64);
    Ok(())
}

