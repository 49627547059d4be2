// C29: New Technologies File System (NTFS).
use keramics_core::DataStreamReference;
use keramics_datetime::DateTime;
use keramics_formats::ntfs::{NtfsAttribute, NtfsFileEntry, NtfsFileSystem, NtfsPath};
use keramics_types::Ucs2String;
use mc_comp::lzx_enc::{Block, Encoder, Tok};
use mc_engine::util::{Digits, composition, hash64, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, OnceLock, RwLock};

const SI: u32 = 0x10;
const LIST: u32 = 0x20;
const NAME: u32 = 0x30;
const LABEL: u32 = 0x60;
const INFO: u32 = 0x70;
const DATA: u32 = 0x80;
const ROOT: u32 = 0x90;
const ALLOC: u32 = 0xa0;
const BITMAP: u32 = 0xb0;
const REPARSE: u32 = 0xc0;

fn align8(n: usize) -> usize {
    n.div_ceil(8) * 8
}

fn u(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}

fn ucs(n: &[u16]) -> Ucs2String {
    Ucs2String { elements: n.to_vec() }
}

fn name_bytes(n: &[u16]) -> Vec<u8> {
    n.iter().flat_map(|c| c.to_le_bytes()).collect()
}

fn text(n: &[u16]) -> String {
    String::from_utf16_lossy(n)
}

/// A run of clusters: number, first cluster or none for a sparse run.
type Run = (u64, Option<u64>);

/// Runs as stored, with at least `wide` bytes for the number of clusters and for the distance.
fn runs_bytes(runs: &[Run], wide: (usize, usize)) -> Vec<u8> {
    let need_u = |v: u64| (1..8).find(|n| v >> (8 * n - 1) == 0).unwrap_or(8);
    let need_s = |v: i64| (1..8).find(|n| v >> (8 * n - 1) == 0 || v >> (8 * n - 1) == -1).unwrap_or(8);
    let mut b = vec![];
    let mut last = 0i64;
    for (n, lcn) in runs {
        let a = need_u(*n).max(wide.0);
        let d = match lcn {
            Some(l) => {
                let d = (*l as i64).wrapping_sub(last);
                last = *l as i64;
                Some(d)
            }
            None => None,
        };
        let s = d.map_or(0, |d| need_s(d).max(wide.1));
        b.push((s << 4 | a) as u8);
        b.extend(&n.to_le_bytes()[..a]);
        if let Some(d) = d {
            b.extend(&d.to_le_bytes()[..s]);
        }
    }
    b.push(0);
    b
}

/// A resident attribute.
fn res(ty: u32, name: &[u16], flags: u16, data: &[u8]) -> Vec<u8> {
    let at = align8(24 + 2 * name.len());
    let mut b = vec![0u8; align8(at + data.len())];
    let n = b.len();
    p32l(&mut b, 0, ty);
    p32l(&mut b, 4, n as u32);
    b[9] = name.len() as u8;
    p16l(&mut b, 10, 24);
    p16l(&mut b, 12, flags);
    p32l(&mut b, 16, data.len() as u32);
    p16l(&mut b, 20, at as u16);
    b[24..24 + 2 * name.len()].copy_from_slice(&name_bytes(name));
    b[at..at + data.len()].copy_from_slice(data);
    b
}

/// A non-resident attribute, or a piece of one.
#[derive(Clone)]
struct Nr {
    ty: u32,
    name: Vec<u16>,
    flags: u16,
    first: u64,
    alloc: u64,
    size: u64,
    valid: u64,
    unit: u16,
    runs: Vec<Run>,
    wide: (usize, usize),
    /// The last cluster, when not what the runs say.
    last: Option<u64>,
}

impl Nr {
    fn new(ty: u32, name: &[u16], cs: u64, size: u64, valid: u64, runs: &[Run]) -> Nr {
        let n = runs.iter().fold(0u64, |n, r| n.wrapping_add(r.0));
        Nr { ty, name: name.to_vec(), flags: 0, first: 0, alloc: n.wrapping_mul(cs), size, valid, unit: 0, runs: runs.to_vec(), wide: (1, 1), last: None }
    }
    fn bytes(&self) -> Vec<u8> {
        let head = if self.unit > 0 { 72 } else { 64 };
        let at = align8(head + 2 * self.name.len());
        let r = runs_bytes(&self.runs, self.wide);
        let mut b = vec![0u8; align8(at + r.len())];
        let n = b.len();
        p32l(&mut b, 0, self.ty);
        p32l(&mut b, 4, n as u32);
        b[8] = 1;
        b[9] = self.name.len() as u8;
        p16l(&mut b, 10, head as u16);
        p16l(&mut b, 12, self.flags);
        p64l(&mut b, 16, self.first);
        let clusters = self.runs.iter().fold(0u64, |n, r| n.wrapping_add(r.0));
        p64l(&mut b, 24, self.last.unwrap_or(self.first.wrapping_add(clusters).wrapping_sub(1)));
        p16l(&mut b, 32, at as u16);
        p16l(&mut b, 34, self.unit);
        p64l(&mut b, 40, self.alloc);
        p64l(&mut b, 48, self.size);
        p64l(&mut b, 56, self.valid);
        if self.unit > 0 {
            p64l(&mut b, 64, self.runs.iter().filter(|r| r.1.is_some()).count() as u64 * 7);
        }
        b[head..head + 2 * self.name.len()].copy_from_slice(&name_bytes(&self.name));
        b[at..at + r.len()].copy_from_slice(&r);
        b
    }
}

/// An entry of an attribute list.
fn list_entry(ty: u32, name: &[u16], first: u64, reference: u64, id: u16) -> Vec<u8> {
    let mut b = vec![0u8; align8(26 + 2 * name.len())];
    let n = b.len();
    p32l(&mut b, 0, ty);
    p16l(&mut b, 4, n as u16);
    b[6] = name.len() as u8;
    b[7] = 26;
    p64l(&mut b, 8, first);
    p64l(&mut b, 16, reference);
    p16l(&mut b, 24, id);
    b[26..26 + 2 * name.len()].copy_from_slice(&name_bytes(name));
    b
}

#[derive(Clone, Debug, PartialEq, Hash)]
struct Info {
    /// Creation, modification, entry modification, access.
    times: [u64; 4],
    flags: u32,
    max_versions: u32,
    version: u32,
    /// Version 3 of the structure.
    long: bool,
}

impl Info {
    fn new(n: u64) -> Info {
        let h = hash64(&n) >> 8;
        Info { times: [130_000_000_000_000_000 + h, 131_000_000_000_000_000 + h, 132_000_000_000_000_000 + h, 133_000_000_000_000_000 + h], flags: 0x20, max_versions: 0, version: 0, long: true }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; if self.long { 72 } else { 48 }];
        for k in 0..4 {
            p64l(&mut b, 8 * k, self.times[k]);
        }
        p32l(&mut b, 32, self.flags);
        p32l(&mut b, 36, self.max_versions);
        p32l(&mut b, 40, self.version);
        p32l(&mut b, 44, 0x99);
        if self.long {
            p32l(&mut b, 48, 0x1234);
            p32l(&mut b, 52, 0x101);
        }
        b
    }
}

/// The data of a file name attribute.
fn file_name(parent: u64, name: &[u16], space: u8, size: u64, flags: u32) -> Vec<u8> {
    let mut b = vec![0u8; 66];
    p64l(&mut b, 0, parent);
    for k in 0..4 {
        p64l(&mut b, 8 + 8 * k, 120_000_000_000_000_000 + 1000 * k as u64);
    }
    p64l(&mut b, 40, size.div_ceil(4096) * 4096);
    p64l(&mut b, 48, size);
    p32l(&mut b, 56, flags);
    b[64] = name.len() as u8;
    b[65] = space;
    b.extend(name_bytes(name));
    b
}

#[derive(Clone)]
struct Rec {
    seq: u16,
    flags: u16,
    base: u64,
    jsn: u64,
    attrs: Vec<Vec<u8>>,
    /// Where the fix-up values are.
    fix_at: u16,
    mark: u16,
    /// Stored as is.
    raw: Option<Vec<u8>>,
}

impl Rec {
    fn new(n: u64) -> Rec {
        let seq = 1 + (hash64(&(n, 1)) % 5) as u16;
        Rec { seq, flags: 1, base: 0, jsn: hash64(&(n, 2)), attrs: vec![], fix_at: 48, mark: 3 + n as u16, raw: None }
    }
    fn used(&self, es: u64) -> usize {
        self.attrs_at(es) + self.attrs.iter().map(|a| a.len()).sum::<usize>() + 8
    }
    fn attrs_at(&self, es: u64) -> usize {
        align8(self.fix_at as usize + 2 * (es as usize / 512 + 1))
    }
    fn bytes(&self, n: u64, es: u64) -> Vec<u8> {
        if let Some(r) = &self.raw {
            let mut r = r.clone();
            r.resize(es as usize, 0);
            return r;
        }
        let mut b = vec![0u8; es as usize];
        b[..4].copy_from_slice(b"FILE");
        p16l(&mut b, 4, self.fix_at);
        p16l(&mut b, 6, (es / 512 + 1) as u16);
        p64l(&mut b, 8, self.jsn);
        p16l(&mut b, 16, self.seq);
        p16l(&mut b, 18, 1);
        let at = self.attrs_at(es);
        p16l(&mut b, 20, at as u16);
        p16l(&mut b, 22, self.flags);
        p32l(&mut b, 24, self.used(es) as u32);
        p32l(&mut b, 28, es as u32);
        p64l(&mut b, 32, self.base);
        p16l(&mut b, 40, self.attrs.len() as u16);
        if self.fix_at >= 48 {
            p32l(&mut b, 44, n as u32);
        }
        let mut o = at;
        for (k, a) in self.attrs.iter().enumerate() {
            assert!(o + a.len() + 4 <= es as usize, "entry {n} is full: {} of {es}", self.used(es));
            b[o..o + a.len()].copy_from_slice(a);
            p16l(&mut b, o + 14, k as u16);
            o += a.len();
        }
        b[o..o + 4].fill(0xff);
        fixup(&mut b, self.fix_at as usize, self.mark);
        b
    }
}

/// Replaces the ends of the sectors and keeps what was there.
fn fixup(b: &mut [u8], at: usize, mark: u16) {
    p16l(b, at, mark);
    for k in 0..b.len() / 512 {
        let e = 512 * k + 510;
        let v = [b[e], b[e + 1]];
        b[at + 2 + 2 * k..at + 4 + 2 * k].copy_from_slice(&v);
        p16l(b, e, mark);
    }
}

#[derive(Clone)]
struct Want {
    name: Vec<u16>,
    number: u64,
    seq: u16,
    parent: u64,
    space: u8,
    info: Option<Info>,
    size: u64,
    content: Option<Arc<Segs>>,
    /// Named data streams, and where the default one is among them.
    streams: Vec<(Vec<u16>, Arc<Segs>)>,
    target: Option<Vec<u16>>,
    junction: bool,
    dir: bool,
    allocated: bool,
    jsn: u64,
    base: u64,
    attributes: usize,
    sub: Vec<Want>,
}

impl Want {
    fn sum(&self) -> u64 {
        let sub: Vec<u64> = self.sub.iter().map(|w| w.sum()).collect();
        let s: Vec<&Vec<u16>> = self.streams.iter().map(|s| &s.0).collect();
        hash64(&(&self.name, self.number, self.space, &self.info, self.size, s, &self.target, sub))
    }
    fn reference(&self) -> u64 {
        self.number | (self.seq as u64) << 48
    }
}

/// The standard mapping to upper case, and two pairs that are not in Unicode.
fn upcase() -> &'static Arc<Vec<u8>> {
    static T: OnceLock<Arc<Vec<u8>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = vec![0u8; 131072];
        for c in 0..65536usize {
            p16l(&mut t, 2 * c, fold_one(c as u16));
        }
        Arc::new(t)
    })
}

fn fold_one(c: u16) -> u16 {
    match c {
        0x61..=0x7a => c - 0x20,
        0xe0..=0xf6 | 0xf8..=0xfe => c - 0x20,
        0xff => 0x178,
        0x3b1..=0x3c1 | 0x3c3..=0x3c9 => c - 0x20,
        0x430..=0x44f => c - 0x20,
        0xe123 => 0xe456,
        0xffff => 0xfffe,
        _ => c,
    }
}

fn fold(n: &[u16]) -> Vec<u16> {
    n.iter().map(|c| fold_one(*c)).collect()
}

#[derive(Clone)]
struct Vol {
    bps: u64,
    cs: u64,
    es: u64,
    is: u64,
    serial: u64,
    /// Values of the boot record when not the default ones: cluster size, entry size, index entry size.
    values: [Option<u8>; 3],
    mft: Vec<(u64, u64)>,
    recs: BTreeMap<u64, Rec>,
    disk: Segs,
    next: u64,
    version: (u8, u8),
    vol_flags: u16,
    label: Option<Vec<u16>>,
}

impl Vol {
    /// A volume with 64 entries from cluster 16 on.
    fn new(cs: u64, es: u64, is: u64) -> Vol {
        let n = (64 * es).div_ceil(cs);
        let mut v = Vol {
            bps: 512,
            cs,
            es,
            is,
            serial: 0x1122334455667788,
            values: [None; 3],
            mft: vec![(16, n)],
            recs: BTreeMap::new(),
            disk: Segs::default(),
            next: 16 + n + 4,
            version: (3, 1),
            vol_flags: 0,
            label: Some(u("Volume")),
        };
        let up = v.take(131072u64.div_ceil(cs));
        v.disk.segs.insert(up * cs, upcase().clone());
        let mut r = Rec::new(10);
        r.attrs.push(res(SI, &[], 0, &Info::new(10).bytes()));
        r.attrs.push(Nr::new(DATA, &[], cs, 131072, 131072, &[(131072u64.div_ceil(cs), Some(up))]).bytes());
        v.recs.insert(10, r);
        v
    }
    fn small() -> Vol {
        Vol::new(512, 1024, 4096)
    }
    /// Clusters that nothing else uses.
    fn take(&mut self, n: u64) -> u64 {
        let l = self.next;
        self.next += n;
        l
    }
    fn power(size: u64) -> u8 {
        (256 - size.trailing_zeros() as u64) as u8
    }
    fn entry_at(&self, n: u64) -> u64 {
        let mut at = n * self.es;
        for (l, c) in &self.mft {
            if at < c * self.cs {
                return l * self.cs + at;
            }
            at -= c * self.cs;
        }
        panic!("no entry {n}");
    }
    fn boot(&self) -> Vec<u8> {
        let mut b = vec![0u8; 512];
        b[..3].copy_from_slice(&[0xeb, 0x52, 0x90]);
        b[3..11].copy_from_slice(b"NTFS    ");
        p16l(&mut b, 11, self.bps as u16);
        let spc = self.cs / self.bps;
        b[13] = self.values[0].unwrap_or(if spc <= 128 { spc as u8 } else { Vol::power(spc) });
        b[21] = 0xf8;
        p64l(&mut b, 40, 1 << 24);
        p64l(&mut b, 48, self.mft[0].0);
        p64l(&mut b, 56, 2);
        let size = |s: u64| if s >= self.cs && s / self.cs < 128 { (s / self.cs) as u8 } else { Vol::power(s) };
        b[64] = self.values[1].unwrap_or(size(self.es));
        b[68] = self.values[2].unwrap_or(size(self.is));
        p64l(&mut b, 72, self.serial);
        b[510] = 0x55;
        b[511] = 0xaa;
        b
    }
    fn build(&self) -> Segs {
        let mut s = self.disk.clone();
        s.put(0, self.boot());
        let mut recs = self.recs.clone();
        recs.entry(0).or_insert_with(|| {
            let mut r = Rec::new(0);
            let runs: Vec<Run> = self.mft.iter().map(|(l, n)| (*n, Some(*l))).collect();
            let n: u64 = self.mft.iter().map(|m| m.1).sum::<u64>() * self.cs;
            r.attrs.push(res(SI, &[], 0, &Info::new(0).bytes()));
            r.attrs.push(Nr::new(DATA, &[], self.cs, n, n, &runs).bytes());
            r
        });
        recs.entry(3).or_insert_with(|| {
            let mut r = Rec::new(3);
            r.attrs.push(res(SI, &[], 0, &Info::new(3).bytes()));
            if let Some(l) = &self.label {
                r.attrs.push(res(LABEL, &[], 0, &name_bytes(l)));
            }
            let mut i = vec![0u8; 12];
            i[8] = self.version.0;
            i[9] = self.version.1;
            p16l(&mut i, 10, self.vol_flags);
            r.attrs.push(res(INFO, &[], 0, &i));
            r
        });
        for (n, r) in &recs {
            s.put(self.entry_at(*n), r.bytes(*n, self.es));
        }
        s.size = s.size.max(self.next * self.cs).max(1 << 20);
        s
    }
    /// What is expected of an entry.
    fn want(&self, number: u64, name: &[u16]) -> Want {
        let r = Rec::new(number);
        Want {
            name: name.to_vec(),
            number,
            seq: r.seq,
            parent: 5 | 5 << 48,
            space: 1,
            info: Some(Info::new(number)),
            size: 0,
            content: None,
            streams: vec![],
            target: None,
            junction: false,
            dir: false,
            allocated: true,
            jsn: r.jsn,
            base: 0,
            attributes: 0,
            sub: vec![],
        }
    }
    /// Stores the entry of a file: its attributes after the standard information.
    fn put(&mut self, w: &mut Want, attrs: Vec<Vec<u8>>) {
        let mut r = Rec::new(w.number);
        if w.dir {
            r.flags |= 2;
        }
        if let Some(i) = &w.info {
            r.attrs.push(res(SI, &[], 0, &i.bytes()));
        }
        if w.number != 5 {
            r.attrs.push(res(NAME, &[], 0, &file_name(w.parent, &w.name, w.space, w.size, 0)));
        }
        r.attrs.extend(attrs);
        w.attributes = r.attrs.len();
        self.recs.insert(w.number, r);
    }
    /// A file with resident data.
    fn file(&mut self, number: u64, name: &[u16], data: &[u8]) -> Want {
        let mut w = self.want(number, name);
        w.content = Some(Arc::new(bytes_segs(data)));
        w.size = data.len() as u64;
        self.put(&mut w, vec![res(DATA, &[], 0, data)]);
        w
    }
    /// The root directory, with its entries in one node.
    fn root(&mut self, sub: Vec<Want>) -> Want {
        let mut w = self.want(5, &[]);
        w.dir = true;
        w.info.as_mut().unwrap().flags = 0x10000006;
        let mut sub = sub;
        sub.sort_by_key(|s| fold(&s.name));
        let a = self.index(&Node::leaf(&sub), None);
        self.put(&mut w, a);
        w.sub = sub;
        w
    }
    /// The attributes of a directory: nodes are stored in the order of `order`, by number.
    fn index(&mut self, tree: &Node, layout: Option<&Layout>) -> Vec<Vec<u8>> {
        let name = u("$I30");
        let plain = Layout::default();
        let layout = layout.unwrap_or(&plain);
        let mut nodes: Vec<&Node> = vec![];
        tree.collect(&mut nodes);
        // The first is the root.
        let n = nodes.len() as u64 - 1;
        let per = (self.is / self.cs).max(1);
        // Slots of the nodes in the allocation.
        let slot = |k: u64| if layout.reverse { n - 1 - k } else { k };
        let vcn = |t: &Node| (0..n).find(|k| std::ptr::eq(nodes[*k as usize + 1], t)).map(|k| slot(k) * per).unwrap();
        let mut root = vec![0u8; 16];
        p32l(&mut root, 0, NAME);
        p32l(&mut root, 4, 1);
        p32l(&mut root, 8, self.is as u32);
        root[12] = if self.is >= self.cs { (self.is / self.cs) as u8 } else { Vol::power(self.is) };
        let values = tree.values(&vcn, layout.pad);
        let mut head = vec![0u8; 16];
        p32l(&mut head, 0, 16);
        p32l(&mut head, 4, 16 + values.len() as u32);
        p32l(&mut head, 8, 16 + values.len() as u32);
        p32l(&mut head, 12, (n > 0) as u32);
        root.extend(head);
        root.extend(values);
        let mut attrs = vec![res(ROOT, &name, 0, &root)];
        if n > 0 || layout.always {
            let n = n.max(1);
            let mut runs: Vec<Run> = vec![];
            let mut at = vec![0; n as usize];
            if layout.scatter {
                // Every node in its own run, against the order.
                let base = self.take(n * (per + 1));
                for k in 0..n {
                    let l = base + (n - 1 - k) * (per + 1);
                    at[k as usize] = l;
                    runs.push((per, Some(l)));
                }
            } else {
                let l = self.take(n * per);
                runs.push((n * per, Some(l)));
                (0..n).for_each(|k| at[k as usize] = l + k * per);
            }
            for k in 0..nodes.len() as u64 - 1 {
                let s = slot(k);
                let b = nodes[k as usize + 1].record(self.is, s * per, &vcn, layout);
                self.disk.put(at[s as usize] * self.cs, b);
            }
            let size = n * per * self.cs;
            attrs.push(Nr::new(ALLOC, &name, self.cs, size, size, &runs).bytes());
            attrs.push(res(BITMAP, &name, 0, &[0xff; 8]));
        }
        attrs
    }
}

fn bytes_segs(d: &[u8]) -> Segs {
    let mut s = Segs::default();
    if !d.is_empty() {
        s.put(0, d.to_vec());
    }
    s
}

#[derive(Clone)]
struct Layout {
    reverse: bool,
    scatter: bool,
    /// Bytes between a key and the number of the sub node, in steps of 8.
    pad: usize,
    /// An allocation although the root holds everything.
    always: bool,
    fix_at: u16,
    mark: u16,
}

impl Default for Layout {
    fn default() -> Layout {
        Layout { reverse: false, scatter: false, pad: 0, always: false, fix_at: 40, mark: 0x0102 }
    }
}

/// A key: file reference and file name attribute.
type Key = (u64, Vec<u8>);

/// A node of a directory: keys with the sub nodes before them and after the last.
#[derive(Clone, Default)]
struct Node {
    keys: Vec<Key>,
    subs: Vec<Option<Box<Node>>>,
}

fn key(w: &Want) -> Key {
    (w.reference(), file_name(w.parent, &w.name, w.space, w.size, 0))
}

impl Node {
    fn leaf(sub: &[Want]) -> Node {
        Node { keys: sub.iter().map(key).collect(), subs: vec![None; sub.len() + 1] }
    }
    fn collect<'a>(&'a self, to: &mut Vec<&'a Node>) {
        to.push(self);
        for s in self.subs.iter().flatten() {
            s.collect(to);
        }
    }
    fn values(&self, vcn: &dyn Fn(&Node) -> u64, pad: usize) -> Vec<u8> {
        let mut b = vec![];
        for k in 0..=self.keys.len() {
            let mut e = vec![0u8; 16];
            let mut flags = 0;
            if let Some((r, f)) = self.keys.get(k) {
                p64l(&mut e, 0, *r);
                p16l(&mut e, 10, f.len() as u16);
                e.extend(f);
            } else {
                flags |= 2;
            }
            e.resize(align8(e.len()), 0);
            if let Some(s) = &self.subs[k] {
                flags |= 1;
                e.resize(e.len() + pad, 0xa5);
                e.extend(vcn(s).to_le_bytes());
            }
            let n = e.len();
            p16l(&mut e, 8, n as u16);
            p32l(&mut e, 12, flags);
            b.extend(e);
        }
        b
    }
    fn record(&self, is: u64, at: u64, vcn: &dyn Fn(&Node) -> u64, l: &Layout) -> Vec<u8> {
        let mut b = vec![0u8; is as usize];
        b[..4].copy_from_slice(b"INDX");
        p16l(&mut b, 4, l.fix_at);
        p16l(&mut b, 6, (is / 512 + 1) as u16);
        p64l(&mut b, 8, 0x77);
        p64l(&mut b, 16, at);
        let values = self.values(vcn, l.pad);
        let o = align8(l.fix_at as usize + 2 * (is as usize / 512 + 1));
        p32l(&mut b, 24, o as u32 - 24);
        p32l(&mut b, 28, (o - 24 + values.len()) as u32);
        p32l(&mut b, 32, is as u32 - 24);
        p32l(&mut b, 36, self.subs.iter().any(|s| s.is_some()) as u32);
        assert!(o + values.len() <= is as usize, "the node is full");
        b[o..o + values.len()].copy_from_slice(&values);
        // What is after the values is not to be used.
        b[o + values.len()..].iter_mut().enumerate().for_each(|(i, x)| *x = (i * 5 + 1) as u8);
        fixup(&mut b, l.fix_at as usize, l.mark);
        b
    }
}

fn open(s: &DataStreamReference) -> Result<NtfsFileSystem, String> {
    let mut fs = NtfsFileSystem::new();
    fs.read_data_stream(s).map_err(err)?;
    Ok(fs)
}

fn of(v: &Vol) -> DataStreamReference {
    sparse(&Arc::new(v.build()))
}

fn when(d: Option<&DateTime>) -> Result<Option<u64>, String> {
    Ok(match d {
        None => None,
        Some(DateTime::NotSet) => Some(0),
        Some(DateTime::Filetime(f)) => Some(f.timestamp),
        Some(d) => return Err(format!("time {d:?}")),
    })
}

fn content_is(s: &DataStreamReference, c: &Segs, cov: &mut Cov) -> Result<(), String> {
    let size = s.write().unwrap().get_size().map_err(err)?;
    if size != c.size {
        return Err(format!("size {size} of the data stream, expected {}", c.size));
    }
    let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
    let n = c.size.min(1 << 20);
    window_f(s, c.size, &fill, 0, n as usize + 3, cov)?;
    window_f(s, c.size, &fill, c.size / 2, 9, cov)
}

fn entry_is(e: &mut NtfsFileEntry, w: &Want, named: bool, cov: &mut Cov) -> Result<(), String> {
    cov.step();
    let what = format!("entry {} {:?}", w.number, text(&w.name));
    let n = e.get_name().map(|n| n.elements.clone());
    let want = if named { Some(w.name.clone()) } else { None };
    if n != want {
        return Err(format!("{what}: name {n:?}, expected {want:?}"));
    }
    let got = (e.mft_entry_number, e.sequence_number, e.get_file_reference(), e.get_base_record_file_reference(), e.get_journal_sequence_number());
    let want = (w.number, w.seq, w.reference(), w.base, w.jsn);
    if got != want {
        return Err(format!("{what}: number, sequence, reference, base, journal {got:x?}, expected {want:x?}"));
    }
    let want = if named { Some(w.parent) } else { None };
    if e.get_parent_file_reference() != want {
        return Err(format!("{what}: parent {:x?}, expected {want:x?}", e.get_parent_file_reference()));
    }
    let got = [when(e.get_creation_time())?, when(e.get_modification_time())?, when(e.get_change_time())?, when(e.get_access_time())?];
    let want = match &w.info {
        Some(i) => i.times.map(Some),
        None => [None; 4],
    };
    if got != want || e.get_file_attribute_flags() != w.info.as_ref().map_or(0, |i| i.flags) {
        return Err(format!("{what}: times {got:?}, expected {want:?}, flags {:x}", e.get_file_attribute_flags()));
    }
    if e.get_size() != w.size {
        return Err(format!("{what}: size {}, expected {}", e.get_size(), w.size));
    }
    let got = (e.is_allocated(), e.is_bad(), e.is_empty(), e.is_directory(), e.is_junction(), e.is_symbolic_link(), e.is_root_directory());
    let want = (w.allocated, false, false, w.dir, w.junction, w.target.is_some(), w.number == 5);
    if got != want {
        return Err(format!("{what}: allocated, bad, empty, directory, junction, link, root {got:?}, expected {want:?}"));
    }
    for _ in 0..2 {
        let t = e.get_symbolic_link_target().map_err(err)?.map(|t| t.elements.clone());
        if t != w.target {
            return Err(format!("{what}: target {t:?}, expected {:?}", w.target));
        }
    }
    if e.get_number_of_attributes() != w.attributes {
        return Err(format!("{what}: {} attributes, expected {}", e.get_number_of_attributes(), w.attributes));
    }
    match (e.get_data_stream().map_err(err)?, &w.content) {
        (Some(_), None) => return Err(format!("{what}: a data stream")),
        (None, Some(_)) => return Err(format!("{what}: no data stream")),
        (Some(s), Some(c)) => content_is(&s, c, cov).map_err(|m| format!("{what}: {m}"))?,
        _ => {}
    }
    let forks = e.get_number_of_data_forks().map_err(err)?;
    if forks != w.streams.len() + w.content.is_some() as usize {
        return Err(format!("{what}: {forks} data forks"));
    }
    let mut seen = vec![];
    for k in 0..forks {
        let f = e.get_data_fork_by_index(k).map_err(err)?;
        let name = f.get_name().map_or(vec![], |n| n.elements.clone());
        let c = match w.streams.iter().find(|s| s.0 == name) {
            Some((_, c)) => c,
            None if name.is_empty() => w.content.as_ref().ok_or(format!("{what}: a fork without a name"))?,
            None => return Err(format!("{what}: a fork {name:?}")),
        };
        if seen.contains(&name) {
            return Err(format!("{what}: fork {name:?} twice"));
        }
        content_is(&f.get_data_stream().map_err(err)?, c, cov).map_err(|m| format!("{what}: fork {name:?}: {m}"))?;
        seen.push(name);
    }
    if e.get_data_fork_by_index(forks).is_ok() {
        return Err(format!("{what}: there is a fork {forks}"));
    }
    for (n, c) in &w.streams {
        let s = e.get_data_stream_by_name(&Some(ucs(n))).map_err(err)?.ok_or(format!("{what}: no stream {n:?}"))?;
        content_is(&s, c, cov).map_err(|m| format!("{what}: stream {n:?}: {m}"))?;
    }
    if e.get_data_stream_by_name(&Some(ucs(&u("absent")))).map_err(err)?.is_some() {
        return Err(format!("{what}: a stream that is not there"));
    }
    Ok(())
}

/// Whether names are told apart by case.
fn sensitive(w: &Want) -> bool {
    w.info.as_ref().is_some_and(|i| i.max_versions == 0 && i.version == 1)
}

fn dir_is(fs: &NtfsFileSystem, e: &mut NtfsFileEntry, w: &Want, path: &[Ucs2String], cov: &mut Cov) -> Result<(), String> {
    // Names of the DOS name space are found by name only.
    let listed: Vec<&Want> = w.sub.iter().filter(|s| s.space != 2 && s.name != u(".")).collect();
    let n = e.get_number_of_sub_file_entries().map_err(err)?;
    if n != listed.len() {
        return Err(format!("{n} entries, expected {} {:?}", listed.len(), listed.iter().map(|w| text(&w.name)).collect::<Vec<_>>()));
    }
    if e.get_sub_file_entry_by_index(n).is_ok() {
        return Err(format!("there is an entry {n}"));
    }
    for (i, s) in listed.iter().enumerate() {
        let mut x = e.get_sub_file_entry_by_index(i).map_err(err)?;
        entry_is(&mut x, s, true, cov).map_err(|m| format!("number {i}: {m}"))?;
    }
    if e.get_number_of_sub_file_entries().map_err(err)? != n {
        return Err("the number of entries changes".into());
    }
    for s in &w.sub {
        let mut names = vec![s.name.clone()];
        if !sensitive(w) {
            names.push(fold(&s.name));
            // Another spelling.
            let low: Vec<u16> = s.name.iter().map(|c| (0..=0x7f).chain([0x3b1, 0xe123, 0xffff, 0xff]).find(|x| *x != *c && fold_one(*x) == fold_one(*c)).unwrap_or(*c)).collect();
            names.push(low);
        }
        for n in names {
            let mut x = e.get_sub_file_entry_by_name(&ucs(&n)).map_err(err)?.ok_or(format!("no entry by the name {:?}", text(&n)))?;
            entry_is(&mut x, s, true, cov).map_err(|m| format!("by name {:?}: {m}", text(&n)))?;
        }
        if s.name == u(".") {
            continue;
        }
        let mut p = path.to_vec();
        p.push(ucs(&s.name));
        let at = NtfsPath::from(&p);
        let mut x = fs.get_file_entry_by_path(&at).map_err(err)?.ok_or(format!("no entry at the path {at:?}"))?;
        entry_is(&mut x, s, true, cov).map_err(|m| format!("by path {at:?}: {m}"))?;
        if s.dir {
            dir_is(fs, &mut x, s, &p, cov).map_err(|m| format!("below {}: {m}", s.number))?;
        } else {
            if x.get_number_of_sub_file_entries().map_err(err)? != 0 {
                return Err("a file with entries".into());
            }
            p.push(ucs(&u("x")));
            if fs.get_file_entry_by_path(&NtfsPath::from(&p)).map_err(err)?.is_some() {
                return Err("an entry below a file".into());
            }
        }
        let mut x = fs.get_file_entry_by_identifier(s.number).map_err(err)?;
        entry_is(&mut x, s, false, cov).map_err(|m| format!("by identifier: {m}"))?;
    }
    // Names that are not there: before, between and after those that are.
    for s in w.sub.iter() {
        for d in [-1i32, 1] {
            let mut n = s.name.clone();
            if let Some(l) = n.last_mut() {
                *l = (*l as i32 + d) as u16;
            }
            let there = |m: &Want| if sensitive(w) { m.name == n } else { fold(&m.name) == fold(&n) };
            if !w.sub.iter().any(there) && e.get_sub_file_entry_by_name(&ucs(&n)).map_err(err)?.is_some() {
                return Err(format!("there is an entry {:?}", text(&n)));
            }
        }
    }
    for other in ["missing", "", "..", "\u{1}"] {
        if e.get_sub_file_entry_by_name(&Ucs2String::from(other)).map_err(err)?.is_some() {
            return Err(format!("there is an entry {other:?}"));
        }
    }
    Ok(())
}

fn fs_is(s: &DataStreamReference, v: &Vol, root: &Want, cov: &mut Cov) -> Result<(), String> {
    cov.trace();
    guarded(|| {
        let fs = open(s)?;
        let got = (fs.bytes_per_sector as u64, fs.cluster_block_size as u64, fs.mft_entry_size as u64, fs.index_entry_size as u64, fs.volume_serial_number);
        if got != (v.bps, v.cs, v.es, v.is, v.serial) {
            return Err(format!("sizes {got:?}"));
        }
        let got = (fs.get_format_version(), fs.get_volume_flags(), fs.get_volume_label().map(|l| l.elements.clone()));
        if got != (Some(v.version), Some(v.vol_flags), v.label.clone()) {
            return Err(format!("version, flags, label {got:?}"));
        }
        let mut r = fs.get_root_directory().map_err(err)?;
        entry_is(&mut r, root, false, cov)?;
        dir_is(&fs, &mut r, root, &[Ucs2String::new()], cov)?;
        let mut r = fs.get_file_entry_by_path(&NtfsPath::from("\\")).map_err(err)?.ok_or("no root directory by path")?;
        entry_is(&mut r, root, false, cov)?;
        let n = v.mft.iter().map(|m| m.1).sum::<u64>() * v.cs / v.es;
        if fs.get_file_entry_by_identifier(n).is_ok() || fs.get_file_entry_by_identifier(u64::MAX).is_ok() {
            return Err(format!("there is an entry {n}"));
        }
        cov.state(&(v.bps, v.cs, v.es, v.is, root.sum()));
        Ok(())
    })
    .unwrap_or_else(Err)
}

/// Stores clusters with content of their own for the runs; gives the data they make up.
fn fill_runs(v: &mut Vol, runs: &[Run], size: u64, valid: u64) -> Segs {
    let mut c = Segs::default();
    let mut at = 0;
    for (n, l) in runs {
        let len = n * v.cs;
        if let Some(l) = l {
            let d = pattern(len as usize, *l);
            v.disk.put(l * v.cs, d.clone());
            let end = (at + len).min(valid).min(size);
            if at < end {
                c.put(at, d[..(end - at) as usize].to_vec());
            }
        }
        at += len;
    }
    c.size = size;
    c
}

/// A file with the given data attribute and the root directory that holds it.
fn one(v: &mut Vol, attrs: Vec<Vec<u8>>, content: Segs) -> Want {
    let mut w = v.want(24, &u("file"));
    w.size = content.size;
    w.content = Some(Arc::new(content));
    v.put(&mut w, attrs);
    v.root(vec![w])
}

fn stream(s: &DataStreamReference) -> Result<DataStreamReference, String> {
    let fs = open(s)?;
    let e = fs.get_file_entry_by_path(&NtfsPath::from("\\file")).map_err(err)?.ok_or("no entry")?;
    e.get_data_stream().map_err(err)?.ok_or("no data stream".into())
}

fn ok(key: impl Into<String>, r: Result<(), String>) -> CaseResult {
    r.map_err(|m| Failure::new(key, m))
}

/// Two files, a directory with a file, in the root directory.
fn ordinary(v: &mut Vol) -> Want {
    let mut d = v.want(26, &u("sub"));
    d.dir = true;
    let mut f = v.file(27, &u("Inner"), b"inner file");
    f.parent = d.reference();
    let at = v.recs.get_mut(&27).unwrap();
    at.attrs[1] = res(NAME, &[], 0, &file_name(f.parent, &f.name, 1, f.size, 0));
    let a = v.index(&Node::leaf(std::slice::from_ref(&f)), None);
    v.put(&mut d, a);
    d.sub = vec![f];
    let l = v.take(3);
    let runs = [(3, Some(l))];
    let cs = v.cs;
    let c = fill_runs(v, &runs, 2 * cs + 17, 2 * cs + 17);
    let mut w = v.want(24, &u("file"));
    w.size = c.size;
    w.content = Some(Arc::new(c));
    v.put(&mut w, vec![Nr::new(DATA, &[], cs, 2 * cs + 17, 2 * cs + 17, &runs).bytes()]);
    if v.es < 1024 {
        return v.root(vec![w, d]);
    }
    let e = v.file(25, &u("empty"), b"");
    v.root(vec![w, d, e])
}

fn boot_records(check: &mut Check) {
    // Sizes of sectors and clusters: every value.
    check.family("cluster sizes", 7 * 256, |i, cov| {
        let bps = [128u64, 256, 512, 1024, 2048, 4096, 8192][(i / 256) as usize];
        let b = i % 256;
        let n = match b {
            0..=128 => b,
            244..=255 => 1 << (256 - b),
            _ => 0,
        };
        let cs = n * bps;
        let supported = (256..=4096).contains(&bps) && cs.is_power_of_two() && (256..=2097152).contains(&cs);
        let mut v = Vol::new(if supported { cs } else { 4096 }, 1024, if supported { cs.max(4096) } else { 4096 });
        v.bps = bps;
        v.values[0] = Some(b as u8);
        let root = ordinary(&mut v);
        let s = of(&v);
        let key = format!("{bps} {b}");
        if !supported {
            return ok(key, guarded(|| if open(&s).is_ok() { Err("opened".into()) } else { Ok(()) }).unwrap_or_else(Err));
        }
        ok(key, fs_is(&s, &v, &root, cov))
    });
    // Sizes of entries and index entries: every value.
    check.family("entry sizes", 3 * 256, |i, cov| {
        let cs = [512u64, 1024, 8192][(i / 256) as usize];
        let b = i % 256;
        let es = if b < 128 { b * cs } else { 1u64.checked_shl(256 - b as u32).unwrap_or(0) };
        let supported = (512..=65535).contains(&es) && es % 512 == 0;
        let mut v = Vol::new(cs, if supported { es } else { 1024 }, 8192);
        if supported {
            // Runs hold whole entries.
            let mut n = (64 * es).div_ceil(cs);
            while n * cs % es != 0 {
                n += 1;
            }
            v.mft = vec![(1 << 20, n)];
        }
        v.values[1] = Some(b as u8);
        let root = ordinary(&mut v);
        let s = of(&v);
        let key = format!("{cs} {b}");
        if !supported {
            // Smaller ones than a sector are not decided.
            return ok(key, guarded(|| if open(&s).is_ok() && es > 65535 { Err("opened".into()) } else { Ok(()) }).unwrap_or_else(Err));
        }
        ok(key, fs_is(&s, &v, &root, cov))
    });
    check.family("index entry sizes", 3 * 256, |i, cov| {
        let cs = [512u64, 1024, 8192][(i / 256) as usize];
        let b = i % 256;
        let is = if b < 128 { b * cs } else { 1u64.checked_shl(256 - b as u32).unwrap_or(0) };
        let supported = (32..=16777216).contains(&is);
        if supported && is > 65535 {
            // Accepted by the boot record, but not by directories: not decided.
            return Ok(());
        }
        let mut v = Vol::new(cs, 1024, if supported { is } else { 4096 });
        v.values[2] = Some(b as u8);
        let key = format!("{cs} {b}");
        let mut root = ordinary(&mut v);
        if supported && is >= cs && is <= 65535 && is % 512 == 0 {
            // With sub nodes.
            let mut sub: Vec<Want> = (0..9u64).map(|k| v.file(40 + k, &u(&format!("n{k}")), &[k as u8])).collect();
            let t = Node {
                keys: vec![key_of(&sub[4])],
                subs: vec![Some(Box::new(Node::leaf(&sub[..4]))), Some(Box::new(Node::leaf(&sub[5..])))],
            };
            // The name of the root directory is not kept with these.
            let a = v.index(&t, None);
            let mut w = v.want(5, &[]);
            w.dir = true;
            v.put(&mut w, a);
            w.sub = std::mem::take(&mut sub);
            root = w;
        }
        let s = of(&v);
        if !supported {
            return ok(key, guarded(|| if open(&s).is_ok() { Err("opened".into()) } else { Ok(()) }).unwrap_or_else(Err));
        }
        ok(key, fs_is(&s, &v, &root, cov))
    });
    // What the volume says of itself.
    check.family("volumes", 4 * 3 * 6 * 3, |i, cov| {
        let mut g = Digits(i);
        let mut v = Vol::small();
        v.version = *g.pick(&[(3u8, 1u8), (1, 2), (3, 0), (255, 7)]);
        v.vol_flags = *g.pick(&[0u16, 1, 0xc081]);
        v.label = match g.take(6) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(u("A")),
            3 => Some(u("Ünïcödé \u{4e00}")),
            4 => Some(vec![0xd800, 0x41, 0xdc00]),
            _ => Some((0..128).map(|k| 0x100 + k).collect()),
        };
        v.serial = *g.pick(&[0u64, u64::MAX, 0x0102030405060708]);
        let root = ordinary(&mut v);
        ok(format!("{:?} {} {:?}", v.version, v.vol_flags, v.label), fs_is(&of(&v), &v, &root, cov))
    });
}

fn key_of(w: &Want) -> Key {
    key(w)
}

fn data_runs(check: &mut Check) {
    // Sequences of runs: near, before, far, sparse; stored in few or many bytes.
    let depth = check.pick(3, 4);
    check.family("data runs", seq_count(8, depth) * 3, |i, cov| {
        let seq = seq_decode(8, i / 3);
        let wide = [(1, 1), (2, 3), (8, 8)][(i % 3) as usize];
        let mut v = Vol::small();
        let mut runs: Vec<Run> = vec![];
        for (k, x) in seq.iter().enumerate() {
            let n = if x % 2 == 0 { 1 } else { 3 };
            let near = v.take(4);
            let l = match x / 2 {
                0 => Some(near),
                1 => None,
                2 => Some((1 << 33) + 100 * k as u64),
                _ => Some((1 << 40) - 1000 * k as u64),
            };
            runs.push((n, l));
        }
        let n: u64 = runs.iter().map(|r| r.0).sum();
        let size = (n * 512).saturating_sub(7);
        let c = fill_runs(&mut v, &runs, size, size);
        let mut a = Nr::new(DATA, &[], 512, size, size, &runs);
        a.wide = wide;
        let edges: Vec<u64> = runs.iter().scan(0, |s, r| { *s += r.0 * 512; Some(*s) }).filter(|e| *e < size).collect();
        let root = one(&mut v, vec![a.bytes()], c.clone());
        let s = of(&v);
        let key = format!("{seq:?} {wide:?}");
        ok(key.clone(), fs_is(&s, &v, &root, cov))?;
        let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
        let b = Bounds { chunks: vec![511], lens: vec![2, 513], depth: if seq.len() <= 2 { 2 } else { 0 } };
        ok(key, media_f(&|| stream(&s), size, &fill, &edges, &b, seq.len() <= 2, cov))
    });
    // Data, valid and allocated sizes.
    let cs = 512u64;
    let sizes: Vec<u64> = vec![0, 1, 7, 8, cs - 1, cs, cs + 1, 2 * cs, 3 * cs + 5, 4 * cs - 1, 4 * cs];
    check.family("sizes", sizes.len() as u64 * (sizes.len() as u64 + 1) * 6, |i, cov| {
        let mut g = Digits(i);
        let size = *g.pick(&sizes);
        let k = g.take(sizes.len() as u64 + 1) as usize;
        let valid = if k == sizes.len() { size } else { sizes[k].min(size) };
        let how = g.take(6);
        let mut v = Vol::small();
        let l = v.take(12);
        let runs: Vec<Run> = match how {
            0 => vec![(4, Some(l))],
            1 => vec![(1, Some(l + 5)), (3, Some(l))],
            2 => vec![(2, None), (2, Some(l))],
            3 => vec![(1, Some(l)), (2, None), (1, Some(l + 1))],
            // Only what is needed.
            4 => if size == 0 { vec![] } else { vec![(size.div_ceil(cs), Some(l))] },
            // More than is needed.
            _ => vec![(12, Some(l))],
        };
        let c = fill_runs(&mut v, &runs, size, valid);
        let a = Nr::new(DATA, &[], cs, size, valid, &runs);
        let root = one(&mut v, vec![a.bytes()], c.clone());
        let s = of(&v);
        let key = format!("{size} {valid} {how}");
        ok(key.clone(), fs_is(&s, &v, &root, cov))?;
        let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
        let edges = [valid, cs, 3 * cs].map(|e| e.min(size));
        ok(key, media_f(&|| stream(&s), size, &fill, &edges, &Bounds { chunks: vec![100], lens: vec![1, 513, 2100], depth: 0 }, true, cov))
    });
    check.family("resident data", 701, |i, cov| {
        let mut v = Vol::small();
        let w = v.file(24, &u("file"), &pattern(i as usize, i));
        let root = v.root(vec![w]);
        ok(format!("{i}"), fs_is(&of(&v), &v, &root, cov))
    });
    // A file of 2^44 bytes, with data here and there.
    check.family("large files", 2 * 4, |i, cov| {
        let mut g = Digits(i);
        let cs = *g.pick(&[4096u64, 65536]);
        let how = g.take(4);
        let mut v = Vol::new(cs, 1024, cs);
        let total = (1u64 << 44) / cs;
        let l = v.take(8);
        let runs: Vec<Run> = match how {
            0 => vec![(total - 1, None), (1, Some(l))],
            1 => vec![(1, Some(l)), (total / 2 - 2, None), (2, Some(l + 1)), (total / 2 - 1, None)],
            2 => vec![(total, None)],
            _ => vec![(1, Some(l + 3)), (total - 3, None), (1, Some(l)), (1, Some(l + 5))],
        };
        let size = (1 << 44) - 3;
        let c = fill_runs(&mut v, &runs, size, size);
        let a = Nr::new(DATA, &[], cs, size, size, &runs);
        let root = one(&mut v, vec![a.bytes()], c.clone());
        let s = of(&v);
        ok(format!("{cs} {how}"), fs_is(&s, &v, &root, cov))?;
        let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
        let edges: Vec<u64> = runs.iter().scan(0, |s, r| { *s += r.0 * cs; Some(*s) }).filter(|e| *e < size).collect();
        ok(format!("{cs} {how}"), media_f(&|| stream(&s), size, &fill, &edges, &Bounds { chunks: vec![], lens: vec![2, 9000], depth: 2 }, true, cov))
    });
}

/// Splits data into pieces and spreads them over entries: piece k goes to entry `to[k]` (24 is the base entry).
/// The list is stored as `list`: 0 in the entry, 1 in a run of clusters, 2 in scattered clusters.
fn chained(v: &mut Vol, w: &mut Want, pieces: &[(u64, Vec<u8>, u64)], list: u64, first: Vec<Vec<u8>>) {
    let mut r = Rec::new(w.number);
    let si = res(SI, &[], 0, &w.info.as_ref().unwrap().bytes());
    let mut entries = list_entry(SI, &[], 0, w.reference(), 0);
    let fname = res(NAME, &[], 0, &file_name(w.parent, &w.name, w.space, w.size, 0));
    entries.extend(list_entry(NAME, &[], 0, w.reference(), 2));
    let mut extra: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
    let mut mine = first;
    let mut named: Vec<(u32, Vec<u8>)> = vec![];
    for (to, a, vcn) in pieces {
        let ty = u32::from_le_bytes(a[..4].try_into().unwrap());
        let n = a[9] as usize;
        let at = u16::from_le_bytes([a[10], a[11]]) as usize;
        let name: Vec<u16> = a[at..at + 2 * n].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        let seq = Rec::new(*to).seq as u64;
        entries.extend(list_entry(ty, &name, *vcn, *to | seq << 48, 0));
        if *to == w.number {
            mine.push(a.clone());
        } else {
            extra.entry(*to).or_default().push(a.clone());
        }
        let id = (ty, a[at..at + 2 * n].to_vec());
        if ty == NAME || !named.contains(&id) {
            named.push(id);
        }
    }
    let l = if list == 0 {
        res(LIST, &[], 0, &entries)
    } else {
        let n = (entries.len() as u64).div_ceil(v.cs);
        let at = v.take(2 * n + 2);
        let runs: Vec<Run> = if list == 1 { vec![(n, Some(at))] } else { (0..n).rev().map(|k| (1, Some(at + 2 * k))).collect() };
        let mut o = 0;
        for (c, l) in &runs {
            let mut d = vec![0x5au8; (c * v.cs) as usize];
            let e = (d.len()).min(entries.len() - o);
            d[..e].copy_from_slice(&entries[o..o + e]);
            v.disk.put(l.unwrap() * v.cs, d);
            o += e;
        }
        Nr::new(LIST, &[], v.cs, entries.len() as u64, entries.len() as u64, &runs).bytes()
    };
    r.attrs = vec![si, l, fname];
    r.attrs.extend(mine);
    if w.dir {
        r.flags |= 2;
    }
    w.attributes = 3 + (r.attrs.len() - 3 - pieces.iter().filter(|p| p.0 == w.number).count()) + named.len();
    v.recs.insert(w.number, r);
    for (n, a) in extra {
        let mut r = Rec::new(n);
        r.base = w.reference();
        r.attrs = a;
        v.recs.insert(n, r);
    }
}

fn chains(check: &mut Check) {
    // Data in 1 to 5 pieces over the base entry and three others, in every assignment.
    let most = check.pick(4, 5);
    let counts: Vec<u64> = (1..=most).map(|k| 4u64.pow(k)).collect();
    let total: u64 = counts.iter().sum();
    check.family("pieces", total * 3 * 3, |i, cov| {
        let mut g = Digits(i);
        let list = g.take(3);
        let sizes = g.take(3);
        let mut x = g.0;
        let mut k = 1;
        while x >= 4u64.pow(k) {
            x -= 4u64.pow(k);
            k += 1;
        }
        let mut v = Vol::small();
        let mut all: Vec<Run> = vec![];
        let mut pieces: Vec<(u64, Nr)> = vec![];
        let mut first = 0;
        for p in 0..k as u64 {
            let l = v.take(8);
            let runs: Vec<Run> = match p % 3 {
                0 => vec![(2, Some(l)), (1, Some(l + 4))],
                1 => vec![(1, None), (1, Some(l))],
                _ => vec![(1, Some(l + 6))],
            };
            all.extend(&runs);
            let to = [24, 30, 29, 31][(x % 4) as usize];
            x /= 4;
            let mut a = Nr::new(DATA, &[], 512, 0, 0, &runs);
            a.first = first;
            first += runs.iter().map(|r| r.0).sum::<u64>();
            pieces.push((to, a));
        }
        let size = first * 512 - 5;
        for (n, p) in pieces.iter_mut().enumerate() {
            (p.1.alloc, p.1.size, p.1.valid) = match (n, sizes) {
                (0, _) => (first * 512, size, size - 3),
                (_, 0) => (0, 0, 0),
                (_, 1) => (first * 512, size, size - 3),
                _ => (7 << 40, 3 << 40, 1),
            };
        }
        let c = fill_runs(&mut v, &all, size, size - 3);
        let mut w = v.want(24, &u("file"));
        w.size = size;
        w.content = Some(Arc::new(c.clone()));
        let list_of: Vec<(u64, Vec<u8>, u64)> = pieces.iter().map(|p| (p.0, p.1.bytes(), p.1.first)).collect();
        let key = format!("{} {list} {sizes}", pieces.iter().map(|p| p.0.to_string()).collect::<Vec<_>>().join(" "));
        chained(&mut v, &mut w, &list_of, list, vec![]);
        let root = v.root(vec![w]);
        let s = of(&v);
        ok(key.clone(), fs_is(&s, &v, &root, cov))?;
        let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
        let edges: Vec<u64> = pieces.iter().map(|p| p.1.first * 512).collect();
        ok(key, media_f(&|| stream(&s), size, &fill, &edges, &Bounds { chunks: vec![700], lens: vec![2, 1025], depth: 0 }, false, cov))
    });
    // Other attributes in other entries: names, streams, an index, a reparse point.
    check.family("attributes in other entries", 4 * 4 * 4 * 4 * 2, |i, cov| {
        let mut g = Digits(i);
        let to = |g: &mut Digits| *g.pick(&[24u64, 33, 29, 47]);
        let (a, b, c, d) = (to(&mut g), to(&mut g), to(&mut g), to(&mut g));
        let list = g.take(2) * 2;
        let mut v = Vol::new(512, 2048, 4096);
        let mut f = v.file(40, &u("in"), b"data");
        let mut w = v.want(24, &u("file"));
        f.parent = w.reference();
        v.recs.get_mut(&40).unwrap().attrs[1] = res(NAME, &[], 0, &file_name(f.parent, &f.name, 1, f.size, 0));
        w.dir = true;
        w.junction = true;
        w.size = 3;
        w.content = Some(Arc::new(bytes_segs(b"abc")));
        let at = v.take(2);
        let runs = [(2, Some(at))];
        let sc = fill_runs(&mut v, &runs, 800, 700);
        w.streams = vec![(u("stream"), Arc::new(sc))];
        let index = v.index(&Node { keys: vec![], subs: vec![Some(Box::new(Node::leaf(std::slice::from_ref(&f))))] }, None);
        let point = reparse(0xa0000003, &junction(&u("\\??\\C:\\x"), &u("C:\\x"), 0));
        let pieces = vec![
            (a, res(NAME, &[], 0, &file_name(w.parent, &u("FILE~1"), 2, 0, 0)), 0),
            (d, res(DATA, &[], 0, b"abc"), 0),
            (b, Nr::new(DATA, &u("stream"), 512, 800, 700, &runs).bytes(), 0),
            (c, index[0].clone(), 0),
            (d, index[1].clone(), 0),
            (c, index[2].clone(), 0),
            (b, res(REPARSE, &[], 0, &point), 0),
        ];
        chained(&mut v, &mut w, &pieces, list, vec![]);
        w.sub = vec![f];
        let root = v.root(vec![w]);
        ok(format!("{a} {b} {c} {d} {list}"), fs_is(&of(&v), &v, &root, cov))
    });
    // Flags and compression of a chain come from its first piece.
    check.family("compressed pieces", 4 * 4 * 4 * 2, |i, cov| {
        let mut g = Digits(i);
        let to: Vec<u64> = (0..3).map(|_| *g.pick(&[24u64, 30, 29, 31])).collect();
        let rest = g.take(2) == 1;
        let mut v = Vol::small();
        let mut a = compressed_data(&mut v, &[Unit::Chunk, Unit::Raw, Unit::Full, Unit::Chunk], Lay::Near, 4);
        let c = a.1.clone();
        let mut pieces = vec![];
        let mut first = 0;
        // Of the runs of 1+15, 16, 9+7, 1+15 clusters.
        let mut left = a.0.runs.clone();
        for (k, n) in [16u64, 32, 16].iter().enumerate() {
            let mut p = a.0.clone();
            p.runs = vec![];
            let mut m = 0;
            while m < *n {
                let mut r = left.remove(0);
                if m + r.0 > *n {
                    let cut = *n - m;
                    left.insert(0, (r.0 - cut, r.1.map(|l| l + cut)));
                    r.0 = cut;
                }
                m += r.0;
                p.runs.push(r);
            }
            p.first = first;
            first += n;
            if k > 0 {
                p.alloc = 0;
                p.size = 0;
                p.valid = 0;
                if !rest {
                    p.flags = 0;
                    p.unit = 0;
                }
            }
            pieces.push((to[k], p.bytes(), p.first));
        }
        a.0.runs.clear();
        let mut w = v.want(24, &u("file"));
        w.size = c.size;
        w.content = Some(Arc::new(c));
        chained(&mut v, &mut w, &pieces, 0, vec![]);
        let root = v.root(vec![w]);
        ok(format!("{to:?} {rest}"), fs_is(&of(&v), &v, &root, cov))
    });
    // The master file table in pieces, over its own entries.
    check.family("fragmented master file table", 6 * 3 * 4 * 2, |i, cov| {
        let mut g = Digits(i);
        let split = g.take(6);
        let list = g.take(3);
        let to = *g.pick(&[[1u64, 2], [2, 1], [15, 12], [1, 1]]);
        let cs = *g.pick(&[512u64, 2048]);
        let mut v = Vol::new(cs, 1024, 4096);
        // Clusters of 16 entries.
        let n = 16 * 1024 / cs;
        let base = v.take(40 * n);
        v.mft = match split {
            0 => vec![(16, n), (base, n), (base + 2 * n, 2 * n)],
            1 => vec![(16, n), (base + 9 * n, n), (base + 2 * n, 2 * n)],
            2 => vec![(16, n), (base + 8 * n, n), (base + 6 * n, n), (base + 3 * n, n)],
            3 => vec![(16, 2 * n), (base, n), (base + n, n)],
            4 => vec![(base, n), (base + 4 * n, 3 * n)],
            _ => vec![(base + 20 * n, n), (base + 10 * n, n), (base + 15 * n, n), (base + 5 * n, n)],
        };
        let root = ordinary(&mut v);
        let total: u64 = v.mft.iter().map(|m| m.1).sum();
        // The first run is in entry 0, the others in those given.
        let mut w = v.want(0, &u("$MFT"));
        let mut first = 0;
        let mut pieces = vec![];
        for (k, (l, c)) in v.mft.clone().iter().enumerate() {
            let mut a = Nr::new(DATA, &[], cs, 0, 0, &[(*c, Some(*l))]);
            a.first = first;
            first += c;
            (a.alloc, a.size, a.valid) = if k == 0 { (total * cs, total * cs, total * cs) } else { (0, 0, 0) };
            let at = if k == 0 { 0 } else { to[(k - 1) % 2] };
            // Runs of the same entry make one attribute when they follow.
            pieces.push((at, a.bytes(), a.first));
        }
        if to == [1, 1] || v.mft.len() > 3 {
            // One attribute with the runs that are left.
            pieces.truncate(1);
            let mut a = Nr::new(DATA, &[], cs, 0, 0, &v.mft[1..].iter().map(|m| (m.1, Some(m.0))).collect::<Vec<_>>());
            a.first = v.mft[0].1;
            a.alloc = 0;
            pieces.push((to[0], a.bytes(), a.first));
        }
        chained(&mut v, &mut w, &pieces, list, vec![]);
        ok(format!("{split} {list} {to:?} {cs}"), fs_is(&of(&v), &v, &root, cov))
    });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Unit {
    Sparse,
    Raw,
    /// All chunks compressed, to one cluster.
    Chunk,
    /// The first chunk compressed, the others stored.
    Full,
    /// No chunks.
    Empty,
    /// One chunk only.
    Partial,
}

const UNITS: [Unit; 6] = [Unit::Sparse, Unit::Raw, Unit::Chunk, Unit::Full, Unit::Empty, Unit::Partial];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lay {
    /// Clusters follow each other and runs are as long as can be.
    Near,
    /// Every unit elsewhere.
    Apart,
    /// Every cluster in a run of its own, against the order.
    Single,
    /// As near, with a run for every unit of sparse clusters.
    Split,
}

/// Compressed data: the attribute and the data it holds.
fn compressed_data(v: &mut Vol, units: &[Unit], lay: Lay, exp: u16) -> (Nr, Segs) {
    let per = 1u64 << exp;
    let size = (per * v.cs) as usize;
    let mut runs: Vec<Run> = vec![];
    let mut data = vec![];
    let region = v.take(units.len() as u64 * (per + 1) * 3);
    let mut near = region;
    for (k, x) in units.iter().enumerate() {
        // A chunk of one byte value: a literal and a match.
        let rle = |b: u8| vec![0x03, 0xb0, 2, b, 0xfc, 0x0f];
        let chunks = size / 4096;
        let mut plain = vec![];
        let mut stored: Vec<u8> = vec![];
        match x {
            Unit::Sparse => plain = vec![0; size],
            Unit::Raw => {
                plain = pattern(size, 77 + k as u64);
                stored = plain.clone();
            }
            Unit::Chunk => {
                for c in 0..chunks {
                    let b = (k * 16 + c + 1) as u8;
                    plain.extend(vec![b; 4096]);
                    stored.extend(rle(b));
                }
            }
            Unit::Full => {
                for c in 0..chunks {
                    let b = (k * 16 + c + 100) as u8;
                    if c == 0 {
                        plain.extend(vec![b; 4096]);
                        stored.extend(rle(b));
                    } else {
                        let p = pattern(4096, k as u64 * 9 + c as u64);
                        stored.extend(0x3fffu16.to_le_bytes());
                        stored.extend(&p);
                        plain.extend(p);
                    }
                }
            }
            Unit::Empty => {
                plain = vec![0; size];
                stored = vec![0; 2];
            }
            Unit::Partial => {
                plain = vec![0; size];
                plain[..4096].fill(k as u8 + 50);
                stored = rle(k as u8 + 50);
            }
        }
        let n = (stored.len() as u64).div_ceil(v.cs);
        assert!(n < per || *x == Unit::Raw);
        stored.resize((n * v.cs) as usize, 0);
        let at = match lay {
            Lay::Near | Lay::Split => near,
            Lay::Apart => region + (units.len() - 1 - k) as u64 * (per + 1) * 2,
            Lay::Single => region + k as u64 * (per + 1) * 2,
        };
        near += n;
        for c in 0..n {
            let l = if lay == Lay::Single { at + 2 * (n - 1 - c) } else { at + c };
            v.disk.put(l * v.cs, stored[(c * v.cs) as usize..((c + 1) * v.cs) as usize].to_vec());
            match runs.last_mut() {
                Some((m, Some(f))) if *f + *m == l && lay != Lay::Single => *m += 1,
                _ => runs.push((1, Some(l))),
            }
        }
        if n < per {
            match runs.last_mut() {
                Some((m, None)) if lay != Lay::Split => *m += per - n,
                _ => runs.push((per - n, None)),
            }
        }
        data.extend(plain);
    }
    let mut a = Nr::new(DATA, &[], v.cs, data.len() as u64, data.len() as u64, &runs);
    a.flags = 1;
    a.unit = exp;
    (a, bytes_segs(&data))
}

/// Data cut to a size, with zeros after the valid size.
fn cut(c: &Segs, size: u64, valid: u64) -> Segs {
    let mut d = vec![0u8; size as usize];
    c.fill(0, &mut d);
    d[valid.min(size) as usize..].fill(0);
    let mut s = bytes_segs(&d);
    s.size = size;
    s
}

fn compression(check: &mut Check) {
    // Sequences of units of 16 clusters.
    let depth = check.pick(3, 4);
    check.family("compression units", (seq_count(6, depth) - 1) * 4 * 4, |i, cov| {
        let mut g = Digits(i);
        let lay = *g.pick(&[Lay::Near, Lay::Apart, Lay::Single, Lay::Split]);
        let (cs, exp) = *g.pick(&[(512u64, 4u16), (1024, 3), (4096, 1), (512, 3)]);
        let units: Vec<Unit> = seq_decode(6, g.0 + 1).iter().map(|x| UNITS[*x as usize]).collect();
        if (cs << exp == 4096 || cs == 4096) && units.contains(&Unit::Full) {
            return Ok(());
        }
        let mut v = Vol::new(cs, if lay == Lay::Single { 4096 } else { 1024 }, 4096);
        let (a, c) = compressed_data(&mut v, &units, lay, exp);
        let unit = cs << exp;
        let root = one(&mut v, vec![a.bytes()], c.clone());
        let s = of(&v);
        let key = format!("{units:?} {lay:?} {cs} {exp}");
        ok(key.clone(), fs_is(&s, &v, &root, cov))?;
        let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
        let edges: Vec<u64> = (1..units.len() as u64).map(|k| k * unit).chain([4096]).collect();
        ok(key, media_f(&|| stream(&s), c.size, &fill, &edges, &Bounds { chunks: vec![3000], lens: vec![2, 4097], depth: if units.len() <= 2 { 2 } else { 0 } }, units.len() <= 2, cov))
    });
    // Data and valid sizes.
    let sizes = [0u64, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12289, 16384];
    check.family("sizes of compressed data", 10 * 10 * 36, |i, cov| {
        let mut g = Digits(i);
        let (size, valid) = (*g.pick(&sizes), *g.pick(&sizes));
        let units = [UNITS[g.take(6) as usize], UNITS[g.take(6) as usize]];
        let valid = valid.min(size);
        let mut v = Vol::small();
        let (mut a, c) = compressed_data(&mut v, &units, Lay::Near, 4);
        let c = cut(&c, size, valid);
        a.size = size;
        a.valid = valid;
        let root = one(&mut v, vec![a.bytes()], c.clone());
        let s = of(&v);
        let key = format!("{units:?} {size} {valid}");
        ok(key.clone(), fs_is(&s, &v, &root, cov))?;
        let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
        let edges = [valid, 4096, 8192].map(|e| e.min(size));
        ok(key, media_f(&|| stream(&s), size, &fill, &edges, &Bounds { chunks: vec![5000], lens: vec![2, 9000], depth: 0 }, false, cov))
    });
    // A directory marks files as to be compressed: resident data is stored as is.
    check.family("resident data of compressed files", 4 * 2, |i, cov| {
        let mut v = Vol::small();
        let d = pattern([0, 1, 5, 300][i as usize % 4], 4);
        let a = res(DATA, &[], if i < 4 { 1 } else { 0x8000 }, &d);
        let root = one(&mut v, vec![a], bytes_segs(&d));
        ok(format!("{i}"), fs_is(&of(&v), &v, &root, cov))
    });
    // Data of the Windows Overlay Filter.
    let most = check.pick(3u32, 4);
    check.family("overlay data", (seq_count(3, most) - 1) * 4 * 5 * 3, |i, cov| {
        let mut g = Digits(i);
        let method = g.take(4) as u32;
        let last = *g.pick(&[0u64, 1, 2, 4000, 4095]);
        let lay = g.take(3);
        let kinds = seq_decode(3, g.0 + 1);
        let unit = [4096u64, 32768, 8192, 16384][method as usize];
        if method != 1 && kinds.iter().any(|k| *k != 0) {
            return Ok(());
        }
        let mut blocks = vec![];
        let mut data = vec![];
        for (k, x) in kinds.iter().enumerate() {
            let mut n = unit;
            if k + 1 == kinds.len() {
                n -= last;
            }
            let (p, b) = match x {
                0 => (pattern(n as usize, k as u64), pattern(n as usize, k as u64)),
                _ => {
                    let mut e = Encoder::default();
                    // A few literals and matches that fill the unit.
                    let mut toks = vec![Tok::Lit(65 + k as u8), Tok::Lit(97 + k as u8)];
                    let mut m = 2;
                    while m < n {
                        let l = (n - m).min(257);
                        if l < 2 {
                            toks.push(Tok::Lit(10));
                            m += 1;
                        } else {
                            toks.push(Tok::Match(l as u32, if *x == 1 { 2 } else { 1 }));
                            m += l;
                        }
                    }
                    e.block(&Block::Coded(toks, false, 0, 1));
                    let d = e.data().unwrap();
                    (d, e.bytes())
                }
            };
            assert_eq!(p.len() as u64, n);
            data.extend(p);
            blocks.push(b);
        }
        if blocks.iter().any(|b| b.is_empty()) {
            return Ok(());
        }
        let table = 4 * (blocks.len() - 1);
        let mut stored = vec![0u8; table];
        let mut at = 0;
        for (k, b) in blocks.iter().enumerate() {
            if k > 0 {
                p32l(&mut stored, 4 * (k - 1), at);
            }
            stored.extend(b);
            at += b.len() as u32;
        }
        let mut v = Vol::new(4096, 1024, 4096);
        let n = (stored.len() as u64).div_ceil(4096);
        let l = v.take(2 * n + 1);
        let runs: Vec<Run> = match lay {
            0 => vec![(n, Some(l))],
            1 => (0..n).rev().map(|k| (1, Some(l + 2 * k))).collect(),
            _ => vec![(n + 1, Some(l))],
        };
        let mut o = 0usize;
        for (c, l) in &runs {
            let mut d = vec![0xeeu8; (*c * 4096) as usize];
            let e = d.len().min(stored.len() - o);
            d[..e].copy_from_slice(&stored[o..o + e]);
            o += e;
            v.disk.put(l.unwrap() * 4096, d);
        }
        let mut w = v.want(24, &u("file"));
        w.size = data.len() as u64;
        let c = bytes_segs(&data);
        w.content = Some(Arc::new(c.clone()));
        w.streams = vec![(u("WofCompressedData"), Arc::new(bytes_segs(&stored))), (u("other"), Arc::new(bytes_segs(b"other stream")))];
        let mut plain = Nr::new(DATA, &[], 4096, w.size, w.size, &[(w.size.div_ceil(4096), None)]);
        plain.flags = 0x8000;
        let mut tag = vec![0u8; 16];
        p32l(&mut tag, 0, 1);
        p32l(&mut tag, 4, 2);
        p32l(&mut tag, 8, 1);
        p32l(&mut tag, 12, method);
        let a = vec![
            plain.bytes(),
            Nr::new(DATA, &u("WofCompressedData"), 4096, stored.len() as u64, stored.len() as u64, &runs).bytes(),
            res(DATA, &u("other"), 0, b"other stream"),
            res(REPARSE, &[], 0, &reparse(0x80000017, &tag)),
        ];
        v.put(&mut w, a);
        let root = v.root(vec![w]);
        let s = of(&v);
        let key = format!("{method} {kinds:?} {last} {lay}");
        ok(key.clone(), fs_is(&s, &v, &root, cov))?;
        let fill = |at: u64, b: &mut [u8]| c.fill(at, b);
        let edges: Vec<u64> = (1..kinds.len() as u64).map(|k| k * unit).collect();
        ok(key, media_f(&|| stream(&s), c.size, &fill, &edges, &Bounds { chunks: vec![5000], lens: vec![2, 9000], depth: if kinds.len() <= 2 { 2 } else { 0 } }, kinds.len() <= 2, cov))
    });
}

fn reparse(tag: u32, data: &[u8]) -> Vec<u8> {
    let mut b = vec![0u8; 8];
    p32l(&mut b, 0, tag);
    p16l(&mut b, 4, data.len() as u16);
    b.extend(data);
    b
}

/// The names of a junction: the display name first when `swap` is 1; with terminators when 2.
fn junction(target: &[u16], display: &[u16], how: u64) -> Vec<u8> {
    let mut b = vec![0u8; 8];
    names(&mut b, target, display, how);
    b
}

fn link(target: &[u16], display: &[u16], flags: u32, how: u64) -> Vec<u8> {
    let mut b = vec![0u8; 12];
    p32l(&mut b, 8, flags);
    names(&mut b, target, display, how);
    b
}

fn names(b: &mut Vec<u8>, target: &[u16], display: &[u16], how: u64) {
    let (t, d) = (name_bytes(target), name_bytes(display));
    let z = if how == 2 { 2 } else { 0 };
    let (ta, da) = if how == 1 { (d.len(), 0) } else { (0, t.len() + z) };
    p16l(b, 0, ta as u16);
    p16l(b, 2, t.len() as u16);
    p16l(b, 4, da as u16);
    p16l(b, 6, d.len() as u16);
    let head = b.len();
    b.resize(head + t.len() + d.len() + 2 * z, 0);
    b[head + ta..head + ta + t.len()].copy_from_slice(&t);
    b[head + da..head + da + d.len()].copy_from_slice(&d);
}

/// A tree over keys: those marked in `top` are in the root; what lies between goes to sub nodes, which are split the
/// same way with `mid`. Empty gaps have no sub node unless `hollow`.
fn tree(keys: &[Key], top: &dyn Fn(usize) -> bool, mid: Option<&dyn Fn(usize) -> bool>, hollow: bool, from: usize) -> Node {
    let mut n = Node::default();
    let mut gap: Vec<Key> = vec![];
    let mut start = from;
    let sub = |gap: Vec<Key>, start: usize| -> Option<Box<Node>> {
        if gap.is_empty() && !hollow {
            return None;
        }
        Some(Box::new(match mid {
            Some(m) if gap.len() > 1 => tree(&gap, m, None, hollow, start),
            _ => Node { subs: vec![None; gap.len() + 1], keys: gap },
        }))
    };
    for (k, x) in keys.iter().enumerate() {
        if top(from + k) {
            n.subs.push(sub(std::mem::take(&mut gap), start));
            n.keys.push(x.clone());
            start = from + k + 1;
        } else {
            gap.push(x.clone());
        }
    }
    n.subs.push(sub(gap, start));
    n
}

fn directories(check: &mut Check) {
    // Every tree of two levels over up to 6 or 8 names, and of three levels.
    let most = check.pick(6u64, 8);
    let pool = ["alpha", "B", "beta", "Gamma", "delta.txt", "zz", "Ünder", "ab"];
    let sorted = |n: u64| -> Vec<Vec<u16>> {
        let mut names: Vec<Vec<u16>> = pool[..n as usize].iter().map(|s| u(s)).collect();
        names.sort_by_key(|s| fold(s));
        names
    };
    let layouts = 6u64;
    let layout = |k: u64| Layout {
        reverse: k & 1 != 0,
        scatter: k >= 2,
        pad: if k == 3 { 8 } else { 0 },
        always: k == 4,
        fix_at: if k == 5 { 48 } else { 40 },
        mark: 0xff00 + k as u16,
    };
    let total: u64 = (0..=most).map(|n| 1u64 << n).sum();
    check.family("trees of two levels", total * 2 * layouts, |i, cov| {
        let mut g = Digits(i);
        let l = layout(g.take(layouts));
        let hollow = g.take(2) == 1;
        let mut x = g.0;
        let mut n = 0;
        while x >= 1 << n {
            x -= 1 << n;
            n += 1;
        }
        let mut v = Vol::new(512, if l.pad > 0 || n > 5 { 2048 } else { 1024 }, 4096);
        let mut w = v.want(26, &u("dir"));
        w.dir = true;
        let sub: Vec<Want> = sorted(n).iter().enumerate().map(|(k, s)| {
            let mut f = v.want(30 + (k as u64 * 5) % 11, s);
            f.parent = w.reference();
            v.put(&mut f, vec![]);
            f
        }).collect();
        let keys: Vec<Key> = sub.iter().map(key).collect();
        let t = tree(&keys, &|k| x >> k & 1 != 0, None, hollow, 0);
        let a = v.index(&t, Some(&l));
        v.put(&mut w, a);
        w.sub = sub;
        let root = v.root(vec![w]);
        ok(format!("{n} {x:b} {hollow} {} {} {} {}", l.reverse, l.scatter, l.pad, l.always), fs_is(&of(&v), &v, &root, cov))
    });
    let n3 = check.pick(5u64, 7);
    check.family("trees of three levels", (1 << n3) * (1 << n3) * 2 * 2, |i, cov| {
        let mut g = Digits(i);
        let hollow = g.take(2) == 1;
        let l = layout(g.take(2) * 3);
        let (a, b) = (g.take(1 << n3), g.take(1 << n3));
        let mut v = Vol::new(512, if n3 > 5 { 2048 } else { 1024 }, 4096);
        let sub: Vec<Want> = sorted(n3).iter().enumerate().map(|(k, s)| {
            let mut f = v.want(30 + k as u64, s);
            v.put(&mut f, vec![]);
            f
        }).collect();
        let keys: Vec<Key> = sub.iter().map(key).collect();
        let m = |k: usize| b >> k & 1 != 0;
        let t = tree(&keys, &|k| a >> k & 1 != 0, Some(&m), hollow, 0);
        let mut w = v.want(5, &[]);
        w.dir = true;
        let at = v.index(&t, Some(&l));
        v.put(&mut w, at);
        w.sub = sub;
        ok(format!("{a:b} {b:b} {hollow} {}", l.reverse), fs_is(&of(&v), &v, &w, cov))
    });
    // Deep trees: every level has one key and one sub node.
    check.family("deep trees", 40 * 2, |i, cov| {
        let (depth, left) = (i / 2, i % 2 == 0);
        let mut v = Vol::small();
        let sub: Vec<Want> = (0..=depth).map(|k| {
            let mut f = v.want(11 + k, &u(&format!("f{k:03}")));
            v.put(&mut f, vec![]);
            f
        }).collect();
        let mut t = Node::leaf(&sub[if left { 0 } else { depth as usize }..][..1]);
        for k in 1..=depth as usize {
            let at = if left { k } else { depth as usize - k };
            t = Node { keys: vec![key(&sub[at])], subs: if left { vec![Some(Box::new(t)), None] } else { vec![None, Some(Box::new(t))] } };
        }
        let mut w = v.want(5, &[]);
        w.dir = true;
        let at = v.index(&t, Some(&Layout { scatter: false, reverse: left, ..Layout::default() }));
        v.put(&mut w, at);
        w.sub = sub;
        ok(format!("{depth} {left}"), fs_is(&of(&v), &v, &w, cov))
    });
    // Sizes of index entries and clusters, with the fix-up values on whatever lies there.
    let widths = [(512u64, 512u64), (512, 1024), (512, 4096), (1024, 1024), (1024, 8192), (4096, 4096), (4096, 32768), (8192, 8192)];
    check.family("many entries", 8 * 3 * 3 * 3, |i, cov| {
        let mut g = Digits(i);
        let (cs, is) = *g.pick(&widths);
        let fan = *g.pick(&[2usize, 3, 1000]);
        let n = *g.pick(&[17u64, 60, 200]);
        let long = g.take(3);
        let mut v = Vol::new(cs, 1024, is);
        let need = ((n + 64) * 1024).div_ceil(cs);
        let at = v.take(need);
        v.mft = vec![(at, need)];
        let sub: Vec<Want> = (0..n).map(|k| {
            let name = match long {
                0 => format!("{k:04}"),
                1 => format!("Name {k:05} of a file.ext"),
                _ => format!("{:0w$}", k, w = 5 + (k as usize * 3) % 40),
            };
            let mut f = v.want(30 + k, &u(&name));
            v.put(&mut f, vec![]);
            f
        }).collect();
        let mut sub = sub;
        sub.sort_by_key(|s| fold(&s.name));
        // As many keys to a node as there is room for, up to `fan`; the root has few.
        let room = is as usize - 24 - 16 - 80 - is as usize / 256;
        let len = |k: &Key| align8(16 + k.1.len()) + 8;
        fn grow(keys: &[Key], fan: usize, room: usize, len: &dyn Fn(&Key) -> usize, top: bool) -> Node {
            let space = if top { 300 } else { room };
            let fits = keys.len() <= fan && keys.iter().map(len).sum::<usize>() + 24 <= space;
            if fits {
                return Node { keys: keys.to_vec(), subs: vec![None; keys.len() + 1] };
            }
            let mut n = Node::default();
            let parts = fan.min(3) + 1;
            let mut at = 0;
            let mut used = 24;
            for p in 0..parts {
                let end = keys.len() * (p + 1) / parts;
                if p + 1 < parts && end < keys.len() && end >= at && used + len(&keys[end]) <= space {
                    used += len(&keys[end]);
                    n.subs.push((end > at).then(|| Box::new(grow(&keys[at..end], fan, room, len, false))));
                    n.keys.push(keys[end].clone());
                    at = end + 1;
                }
            }
            n.subs.push((at < keys.len()).then(|| Box::new(grow(&keys[at..], fan, room, len, false))));
            n
        }
        let keys: Vec<Key> = sub.iter().map(key).collect();
        let t = grow(&keys, fan, room, &len, true);
        let mut w = v.want(5, &[]);
        w.dir = true;
        let at = v.index(&t, Some(&Layout { reverse: i % 2 == 0, ..Layout::default() }));
        v.put(&mut w, at);
        w.sub = sub;
        ok(format!("{cs} {is} {fan} {n} {long}"), fs_is(&of(&v), &v, &w, cov))
    });
    // Names: case, lengths, name spaces, characters outside Unicode.
    let odd: Vec<Vec<u16>> = vec![
        u("a"),
        u("A.B"),
        u("ß"),
        u("ÿ"),
        u("αβγ"),
        u("Жук"),
        vec![0xe123],
        vec![0xd800],
        vec![0xdfff, 0x61],
        vec![0xffff],
        u("\u{1f600}"),
        u("a b"),
        u("back\\slash"),
        u("~"),
        u("["),
        (0..255).map(|k| 0x61 + k % 26).collect(),
        (0..255).map(|k| 0x4e00 + k).collect(),
    ];
    check.family("names", (odd.len() * odd.len()) as u64 * 2, |i, cov| {
        let mut g = Digits(i);
        let cased = g.take(2) == 1;
        let (a, b) = (g.pick(&odd).clone(), g.pick(&odd).clone());
        let mut v = Vol::new(512, 4096, 4096);
        let mut w = v.want(5, &[]);
        w.dir = true;
        if cased {
            w.info.as_mut().unwrap().version = 1;
        }
        let mut names = vec![a, b];
        names.sort_by_key(|n| (fold(n), n.clone()));
        names.dedup();
        if !cased {
            names.dedup_by_key(|n| fold(n));
        }
        let sub: Vec<Want> = names.iter().enumerate().map(|(k, n)| v.file(30 + k as u64, n, &[k as u8])).collect();
        let at = v.index(&Node::leaf(&sub), None);
        v.put(&mut w, at);
        w.sub = sub;
        ok(format!("{names:?} {cased}"), fs_is(&of(&v), &v, &w, cov))
    });
    // Directories that tell names apart by case: every subset of spellings, in one node or two.
    let forms = ["AB", "Ab", "aB", "ab", "AC", "a"];
    check.family("case-sensitive directories", 64 * 7 * 4, |i, cov| {
        let mut g = Digits(i);
        let (set, top, how) = (g.take(64), g.take(7), g.take(4));
        let mut v = Vol::small();
        let mut w = v.want(5, &[]);
        w.dir = true;
        let info = w.info.as_mut().unwrap();
        (info.max_versions, info.version) = [(0, 1), (0, 1), (1, 1), (0, 0)][how as usize];
        info.long = how != 1;
        let cased = how < 2;
        let mut names: Vec<Vec<u16>> = (0..6).filter(|k| set >> k & 1 != 0).map(|k| u(forms[k])).collect();
        names.sort_by_key(|n| (fold(n), n.clone()));
        if !cased {
            names.dedup_by_key(|n| fold(n));
        }
        let sub: Vec<Want> = names.iter().enumerate().map(|(k, n)| v.file(30 + k as u64, n, &[k as u8; 3])).collect();
        let keys: Vec<Key> = sub.iter().map(key).collect();
        let t = if top == 6 { Node::leaf(&sub) } else { tree(&keys, &|k| k as u64 == top, None, false, 0) };
        let at = v.index(&t, None);
        v.put(&mut w, at);
        w.sub = sub;
        ok(format!("{set:b} {top} {how}"), fs_is(&of(&v), &v, &w, cov))
    });
    // Name spaces: names of the DOS name space are not entries of their own.
    check.family("name spaces", 5 * 5 * 5 * 2, |i, cov| {
        let mut g = Digits(i);
        let spaces = [g.take(5) as u8, g.take(5) as u8, g.take(5) as u8];
        let dot = g.take(2) == 1;
        let mut v = Vol::small();
        let mut w = v.want(5, &[]);
        w.dir = true;
        let mut sub = vec![];
        for (k, n) in ["Long name", "LONGNA~1", "other"].iter().enumerate() {
            if spaces[k] == 4 {
                continue;
            }
            let mut f = v.want(30 + k as u64, &u(n));
            f.space = spaces[k];
            v.put(&mut f, vec![]);
            sub.push(f);
        }
        if dot {
            // The root directory holds itself.
            let mut d = v.want(5, &u("."));
            d.space = 3;
            sub.push(d);
        }
        sub.sort_by_key(|s| fold(&s.name));
        let at = v.index(&Node::leaf(&sub), None);
        v.put(&mut w, at);
        sub.retain(|s| s.name != u("."));
        w.sub = sub;
        ok(format!("{spaces:?} {dot}"), fs_is(&of(&v), &v, &w, cov))
    });
    // Both names of a file refer to one entry.
    check.family("short names", 16 * 4, |i, cov| {
        let mut g = Digits(i);
        let set = g.take(16);
        let top = g.take(4);
        let mut v = Vol::new(512, 2048, 4096);
        let mut sub = vec![];
        for k in 0..4u64 {
            let both = set >> k & 1 != 0;
            let mut f = v.want(30 + k, &u(&format!("long name {k}")));
            f.space = if both { 1 } else { 3 };
            v.put(&mut f, if both { vec![res(NAME, &[], 0, &file_name(5 | 5 << 48, &u(&format!("LONG~{k}")), 2, 0, 0))] } else { vec![] });
            if both {
                let mut d = f.clone();
                d.name = u(&format!("LONG~{k}"));
                d.space = 2;
                sub.push(d);
            }
            sub.push(f);
        }
        sub.sort_by_key(|s| fold(&s.name));
        let keys: Vec<Key> = sub.iter().map(key).collect();
        let t = if top == 3 { Node::leaf(&sub) } else { tree(&keys, &|k| k as u64 % 3 == top, None, false, 0) };
        let mut w = v.want(5, &[]);
        w.dir = true;
        let at = v.index(&t, None);
        v.put(&mut w, at);
        w.sub = sub;
        ok(format!("{set:b} {top}"), fs_is(&of(&v), &v, &w, cov))
    });
}

fn entries(check: &mut Check) {
    // Times, flags and versions of the standard information.
    let times = [0u64, 1, 116_444_736_000_000_000, 133_000_000_000_000_001, u64::MAX];
    check.family("standard information", 5 * 5 * 4 * 2 * 4, |i, cov| {
        let mut g = Digits(i);
        let (a, b) = (*g.pick(&times), *g.pick(&times));
        let at = g.take(4) as usize;
        let long = g.take(2) == 1;
        let flags = *g.pick(&[0u32, 0x20, 0x2027, u32::MAX]);
        let mut v = Vol::small();
        let mut w = v.want(24, &u("file"));
        let info = w.info.as_mut().unwrap();
        info.times[at] = a;
        info.times[(at + 1) % 4] = b;
        info.flags = flags;
        info.long = long;
        v.put(&mut w, vec![]);
        let mut none = v.want(25, &u("none"));
        none.info = None;
        v.put(&mut none, vec![]);
        let root = v.root(vec![w, none]);
        ok(format!("{a} {b} {at} {long} {flags:x}"), fs_is(&of(&v), &v, &root, cov))
    });
    // Named data streams, with or without an unnamed one.
    check.family("data streams", 16 * 24 * 3, |i, cov| {
        let mut g = Digits(i);
        let set = g.take(16);
        let mut order: Vec<usize> = vec![];
        let mut left = vec![0, 1, 2, 3];
        for k in (1..=4).rev() {
            order.push(left.remove(g.take(k) as usize));
        }
        let how = g.take(3);
        let mut v = Vol::small();
        let mut w = v.want(24, &u("file"));
        let mut attrs = vec![];
        let names = [u(""), u("Zone.Identifier"), u("s"), vec![0xd800, 0x3b1]];
        for k in order {
            if set >> k & 1 == 0 {
                continue;
            }
            let size = 100 * k as u64 + 3;
            let (a, c) = match how {
                0 => {
                    let d = pattern(if k == 2 { 0 } else { 20 + k }, k as u64);
                    (res(DATA, &names[k], 0, &d), bytes_segs(&d))
                }
                1 => {
                    let l = v.take(2);
                    let runs = [(1, Some(l))];
                    let c = fill_runs(&mut v, &runs, size, size);
                    (Nr::new(DATA, &names[k], 512, size, size, &runs).bytes(), c)
                }
                _ => {
                    let (a, c) = compressed_data(&mut v, &[UNITS[k]], Lay::Near, 4);
                    let mut a = a;
                    a.name = names[k].clone();
                    (a.bytes(), c)
                }
            };
            attrs.push(a);
            if k == 0 {
                w.size = c.size;
                w.content = Some(Arc::new(c));
            } else {
                w.streams.push((names[k].clone(), Arc::new(c)));
            }
        }
        v.put(&mut w, attrs);
        let root = v.root(vec![w]);
        ok(format!("{set:b} {how} {i}"), fs_is(&of(&v), &v, &root, cov))
    });
    // Reparse points.
    let targets: Vec<Vec<u16>> = vec![u(""), u("x"), u("\\??\\C:\\Users\\x"), u("..\\y"), vec![0xdc00, 0x100], (0..180).map(|k| 0x41 + k % 50).collect()];
    check.family("reparse points", 6 * 6 * 3 * 2 * 2, |i, cov| {
        let mut g = Digits(i);
        let (t, d) = (g.pick(&targets).clone(), g.pick(&targets).clone());
        let how = g.take(3);
        let junc = g.take(2) == 1;
        let dir = g.take(2) == 1;
        let mut v = Vol::new(512, 2048, 4096);
        let mut w = v.want(24, &u("file"));
        w.dir = dir;
        w.info.as_mut().unwrap().flags |= 0x400;
        let mut a = if dir { v.index(&Node::leaf(&[]), None) } else { vec![] };
        if junc {
            w.junction = true;
            a.push(res(REPARSE, &[], 0, &reparse(0xa0000003, &junction(&t, &d, how))));
        } else {
            w.target = Some(t.clone());
            a.push(res(REPARSE, &[], 0, &reparse(0xa000000c, &link(&t, &d, (t.len() < 5) as u32, how))));
        }
        v.put(&mut w, a);
        let root = v.root(vec![w]);
        ok(format!("{} {} {how} {junc} {dir}", text(&t), text(&d)), fs_is(&of(&v), &v, &root, cov))
    });
    check.family("other reparse points", 12 * 3, |i, cov| {
        let mut g = Digits(i);
        let tag = *g.pick(&[0u32, 1, 0x80000013, 0x9000001a, 0xa0000019, 0x80000014, 0xa000001d, 0x80000023, 0xffffffff, 0xa0000002, 0xa000000d, 0x80000018]);
        let n = *g.pick(&[0usize, 3, 200]);
        let mut v = Vol::small();
        let mut w = v.want(24, &u("file"));
        w.content = Some(Arc::new(bytes_segs(b"content")));
        w.size = 7;
        v.put(&mut w, vec![res(DATA, &[], 0, b"content"), res(REPARSE, &[], 0, &reparse(tag, &pattern(n, 3)))]);
        let root = v.root(vec![w]);
        ok(format!("{tag:x} {n}"), fs_is(&of(&v), &v, &root, cov))
    });
    // Attributes by index: each of these, in every order of three.
    check.family("attributes", 8 * 8 * 8, |i, cov| {
        let mut g = Digits(i);
        let kinds = [g.take(8), g.take(8), g.take(8)];
        let mut v = Vol::small();
        let mut attrs = vec![];
        let mut types = vec![SI, NAME];
        for (k, x) in kinds.iter().enumerate() {
            if kinds[..k].contains(x) && *x != 0 {
                continue;
            }
            let (ty, a) = match x {
                0 => (NAME, res(NAME, &[], 0, &file_name(77, &u(&format!("other{k}")), 2, 9, 0x400))),
                1 => (0x40, res(0x40, &[], 0, &[9; 16])),
                2 => (0x50, res(0x50, &[], 0, &[8; 33])),
                3 => (LABEL, res(LABEL, &[], 0, &name_bytes(&u("label")))),
                4 => {
                    let mut d = vec![0u8; 12];
                    d[8..12].copy_from_slice(&[3, 1, 0x34, 0x12]);
                    (INFO, res(INFO, &[], 0, &d))
                }
                5 => (REPARSE, res(REPARSE, &[], 0, &reparse(0xa000000c, &link(&u("t"), &u("d"), 0, 0)))),
                6 => (0x100, res(0x100, &u("$TXF_DATA"), 0, &[7; 40])),
                _ => (BITMAP, res(BITMAP, &u("x"), 0, &[1; 8])),
            };
            types.push(ty);
            attrs.push(a);
        }
        let mut w = v.want(24, &u("file"));
        v.put(&mut w, attrs.clone());
        if kinds.contains(&5) {
            w.target = Some(u("t"));
        }
        let want = w.clone();
        let root = v.root(vec![w]);
        let s = of(&v);
        let key = format!("{kinds:?}");
        ok(key.clone(), fs_is(&s, &v, &root, cov))?;
        ok(key, guarded(|| {
            let fs = open(&s)?;
            let e = fs.get_file_entry_by_identifier(24).map_err(err)?;
            for (k, ty) in types.iter().enumerate() {
                let a = e.get_attribute_by_index(k).map_err(err)?;
                if a.get_attribute_type() != *ty {
                    return Err(format!("attribute {k} has type {:x}", a.get_attribute_type()));
                }
                let stored: &[u8] = match k {
                    0 => &[],
                    1 => &[],
                    _ => &attrs[k - 2],
                };
                let right = match a {
                    NtfsAttribute::StandardInformation { standard_information: i } => {
                        let w = want.info.as_ref().unwrap();
                        when(Some(&i.access_time))? == Some(w.times[3]) && i.owner_identifier == Some(0x1234) && i.maximum_number_of_versions == 0
                    }
                    NtfsAttribute::FileName { file_name: f } if k == 1 => f.name.elements == want.name && f.parent_file_reference == want.parent && f.name_space == 1 && f.reparse_point_tag.is_none(),
                    NtfsAttribute::FileName { file_name: f } => {
                        let t: Vec<Option<u64>> = [&f.creation_time, &f.modification_time, &f.entry_modification_time, &f.access_time].iter().map(|t| when(Some(*t))).collect::<Result<_, _>>()?;
                        f.name.to_string() == format!("other{}", kinds.iter().enumerate().filter(|x| *x.1 == 0).map(|x| x.0).nth(types[2..k].iter().filter(|t| **t == NAME).count()).unwrap_or(9))
                            && f.parent_file_reference == 77
                            && f.name_space == 2
                            && f.data_size == 9
                            && f.file_attribute_flags == 0x400
                            && f.reparse_point_tag == Some(0)
                            && t == (0..4).map(|k| Some(120_000_000_000_000_000 + 1000 * k)).collect::<Vec<_>>()
                    }
                    NtfsAttribute::VolumeName { volume_name } => volume_name.to_string() == "label",
                    NtfsAttribute::VolumeInformation { volume_information: i } => (i.major_format_version, i.minor_format_version, i.volume_flags) == (3, 1, 0x1234),
                    NtfsAttribute::ReparsePoint { reparse_point } => reparse_point.get_reparse_tag() == 0xa000000c,
                    NtfsAttribute::Generic { mft_attribute: m } => {
                        let n = stored[9] as usize;
                        let name = (n > 0).then(|| Ucs2String::from_le_bytes(&stored[24..24 + 2 * n]));
                        let at = u16::from_le_bytes([stored[20], stored[21]]) as usize;
                        m.name == name && m.is_resident() && m.resident_data == stored[at..at + m.data_size as usize]
                    }
                    NtfsAttribute::AttributeList { .. } => false,
                };
                if !right {
                    return Err(format!("attribute {k} of type {ty:x}"));
                }
            }
            if e.get_attribute_by_index(types.len()).is_ok() {
                return Err("an attribute after the last".into());
            }
            cov.outcome(&types);
            Ok(())
        })
        .unwrap_or_else(Err))
    });
    // What entries say of their state.
    check.family("states", 8 * 4 * 3, |i, cov| {
        let mut g = Digits(i);
        let state = g.take(8);
        let number = *g.pick(&[24u64, 63, 1, 40]);
        let fix_at = *g.pick(&[48u16, 42, 56]);
        let mut v = Vol::small();
        let mut w = v.want(number, &u("x"));
        v.put(&mut w, vec![res(DATA, &[], 0, b"still here")]);
        w.content = Some(Arc::new(bytes_segs(b"still here")));
        w.size = 10;
        let r = v.recs.get_mut(&number).unwrap();
        r.fix_at = fix_at;
        match state {
            // Deleted.
            0 => r.flags = 0,
            1 => r.flags = 1,
            2 => r.flags = 3,
            3 => r.flags = 2,
            4 => r.raw = Some(vec![0; 1024]),
            5 => r.raw = Some([b"BAAD".to_vec(), vec![0x11; 1020]].concat()),
            6 => {
                // In use by another entry.
                r.base = 24 | 7 << 48;
                w.base = r.base;
            }
            _ => {
                r.seq = 0;
                w.seq = 0;
            }
        }
        w.allocated = r.flags & 1 != 0;
        let root = v.root(vec![]);
        let s = of(&v);
        let key = format!("{state} {number} {fix_at}");
        ok(key.clone(), fs_is(&s, &v, &root, cov))?;
        ok(key, guarded(|| {
            let fs = open(&s)?;
            let mut e = fs.get_file_entry_by_identifier(number).map_err(err)?;
            if state != 4 && state != 5 {
                return entry_is(&mut e, &w, false, cov);
            }
            let got = (e.is_allocated(), e.is_bad(), e.is_empty(), e.is_directory(), e.get_number_of_attributes(), e.get_size());
            let stream = e.get_data_stream().map_err(err)?.is_some();
            if got != (false, state == 5, state == 4, false, 0, 0) || stream || e.get_number_of_sub_file_entries().map_err(err)? != 0 {
                return Err(format!("allocated, bad, empty, directory, attributes, size {got:?}, data {stream}"));
            }
            cov.outcome(&got);
            Ok(())
        })
        .unwrap_or_else(Err))
    });
    // Fix-up values: at every place of the header, with every kind of difference.
    check.family("fix-up values", 4 * 5 * 4 * 9, |i, cov| {
        let mut g = Digits(i);
        let es = *g.pick(&[512u64, 1024, 2048, 4096]);
        let mark = *g.pick(&[0u16, 1, 0x4146, 0xffff, 0x0100]);
        let fix_at = *g.pick(&[42u16, 48, 50, 64]);
        // No difference, or one at the end of a sector.
        let bad = g.take(9);
        if bad > es / 512 {
            return Ok(());
        }
        let mut v = Vol::new(512, es, 4096);
        let n = es as usize - 220 - fix_at as usize - es as usize / 256;
        let d = pattern(n.min(es as usize - 250), es);
        let mut w = v.want(24, &u("f"));
        w.info.as_mut().unwrap().long = false;
        w.size = d.len() as u64;
        w.content = Some(Arc::new(bytes_segs(&d)));
        let mut r = Rec::new(24);
        r.fix_at = fix_at;
        r.mark = mark;
        let mut room = es as usize - r.attrs_at(es) - 8;
        let si = res(SI, &[], 0, &w.info.as_ref().unwrap().bytes());
        room -= si.len() + 24;
        let d = pattern(room / 8 * 8, es);
        w.size = d.len() as u64;
        w.content = Some(Arc::new(bytes_segs(&d)));
        r.attrs = vec![si, res(DATA, &[], 0, &d)];
        w.attributes = 2;
        if bad > 0 {
            let mut b = r.bytes(24, es);
            b[(bad * 512 - 1) as usize] ^= 1;
            r.raw = Some(b);
        }
        v.recs.insert(24, r);
        let root = v.root(vec![]);
        let s = of(&v);
        let key = format!("{es} {mark:x} {fix_at} {bad}");
        ok(key.clone(), fs_is(&s, &v, &root, cov))?;
        ok(key, guarded(|| {
            let fs = open(&s)?;
            match (fs.get_file_entry_by_identifier(24), bad) {
                (Ok(mut e), 0) => entry_is(&mut e, &w, false, cov),
                (Err(e), 0) => Err(err(e)),
                (Ok(_), _) => Err("an entry that was not written as a whole".into()),
                (Err(_), _) => Ok(()),
            }
        })
        .unwrap_or_else(Err))
    });
    check.family("fix-up values of index entries", 4 * 5 * 4 * 9, |i, cov| {
        let mut g = Digits(i);
        let is = *g.pick(&[512u64, 1024, 2048, 4096]);
        let mark = *g.pick(&[0u16, 1, 0x6161, 0xffff, 0x0100]);
        let fix_at = *g.pick(&[40u16, 42, 48, 64]);
        let bad = g.take(9);
        if bad > is / 512 {
            return Ok(());
        }
        let mut v = Vol::new(512, 1024, is);
        // Names that cover the ends of the sectors.
        let count = is / 512;
        let sub: Vec<Want> = (0..count).map(|k| {
            let name: Vec<u16> = (0..140).map(|c| 0x61 + ((k + c) % 26) as u16).collect();
            let mut f = v.want(30 + k, &name);
            v.put(&mut f, vec![]);
            f
        }).collect();
        let l = Layout { fix_at, mark, ..Layout::default() };
        let t = Node { keys: vec![], subs: vec![Some(Box::new(Node::leaf(&sub)))] };
        let mut w = v.want(5, &[]);
        w.dir = true;
        let at = v.index(&t, Some(&l));
        v.put(&mut w, at);
        w.sub = sub;
        let key = format!("{is} {mark:x} {fix_at} {bad}");
        if bad > 0 {
            let (o, d) = v.disk.segs.iter().find(|x| x.1.starts_with(b"INDX")).map(|x| (*x.0, x.1.to_vec())).unwrap();
            let mut d = d;
            d[(bad * 512 - 2) as usize] ^= 0x80;
            v.disk.put(o, d);
            let s = of(&v);
            return ok(key, guarded(|| {
                let fs = open(&s)?;
                let mut r = fs.get_root_directory().map_err(err)?;
                let name = ucs(&w.sub[0].name);
                if r.get_number_of_sub_file_entries().is_ok() || r.get_sub_file_entry_by_name(&name).is_ok() || r.get_sub_file_entry_by_index(0).is_ok() {
                    return Err("entries of a node that was not written as a whole".into());
                }
                cov.step();
                Ok(())
            })
            .unwrap_or_else(Err));
        }
        ok(key, fs_is(&of(&v), &v, &w, cov))
    });
}

/// Walks whatever is there, with limits.
fn explore(fs: &NtfsFileSystem, cov: &mut Cov) {
    fn look(e: &mut NtfsFileEntry, left: &mut u32, cov: &mut Cov) {
        if *left == 0 {
            return;
        }
        *left -= 1;
        let _ = e.get_symbolic_link_target().is_ok();
        let _ = (e.get_size(), e.get_file_reference(), e.get_parent_file_reference(), e.is_directory());
        for k in 0..e.get_number_of_attributes().min(12) {
            let _ = e.get_attribute_by_index(k).is_ok();
        }
        for k in 0..e.get_number_of_data_forks().unwrap_or(0).min(4) {
            if let Ok(Ok(d)) = e.get_data_fork_by_index(k).map(|f| f.get_data_stream()) {
                let mut g = d.write().unwrap();
                let n = g.get_size().unwrap_or(0);
                for at in [0, 511, 4096, n / 2, n.saturating_sub(3)] {
                    let _ = g.read_at_position_any(&mut [0; 2000], at);
                }
            }
        }
        let n = e.get_number_of_sub_file_entries().unwrap_or(0);
        cov.outcome(&n);
        for k in 0..n.min(4) {
            if let Ok(mut s) = e.get_sub_file_entry_by_index(k) {
                look(&mut s, left, cov);
            }
        }
        for n in ["file", "Inner", "zz", ""] {
            let _ = e.get_sub_file_entry_by_name(&Ucs2String::from(n)).is_ok();
        }
    }
    let mut left = 12;
    if let Ok(mut r) = fs.get_root_directory() {
        look(&mut r, &mut left, cov);
    }
    for n in [0u64, 3, 24, 30] {
        if let Ok(mut e) = fs.get_file_entry_by_identifier(n) {
            look(&mut e, &mut left, cov);
        }
    }
}

/// A volume with something of everything.
fn rich(v: &mut Vol) -> Want {
    let mut sub: Vec<Want> = vec![];
    let (a, c) = compressed_data(v, &[Unit::Chunk, Unit::Full], Lay::Near, 4);
    let mut w = v.want(24, &u("file"));
    w.size = c.size;
    w.content = Some(Arc::new(c));
    let l = v.take(4);
    let runs = [(1, Some(l)), (1, None), (2, Some(l + 1))];
    let sc = fill_runs(v, &runs, 1900, 1700);
    let s = Nr::new(DATA, &u("s"), 512, 1900, 1700, &runs);
    w.streams = vec![(u("s"), Arc::new(sc))];
    let pieces = vec![(24, a.bytes(), 0), (30, s.bytes(), 0)];
    chained(v, &mut w, &pieces, 1, vec![]);
    sub.push(w);
    let mut d = v.want(26, &u("dir"));
    d.dir = true;
    let inner: Vec<Want> = (0..3u64).map(|k| {
        let mut f = v.want(33 + k, &u(["Inner", "more", "zz"][k as usize]));
        f.parent = d.reference();
        let data = [k as u8; 9];
        f.size = 9;
        f.content = Some(Arc::new(bytes_segs(&data)));
        v.put(&mut f, vec![res(DATA, &[], 0, &data)]);
        f
    }).collect();
    let keys: Vec<Key> = inner.iter().map(key).collect();
    let t = tree(&keys, &|k| k == 1, None, false, 0);
    let at = v.index(&t, None);
    v.put(&mut d, at);
    d.sub = inner;
    sub.insert(0, d);
    let mut x = v.want(27, &u("link"));
    x.target = Some(u("a\\b"));
    v.put(&mut x, vec![res(REPARSE, &[], 0, &reparse(0xa000000c, &link(&u("a\\b"), &u("d"), 1, 0)))]);
    sub.push(x);
    let mut r = v.want(5, &[]);
    r.dir = true;
    let keys: Vec<Key> = sub.iter().map(key).collect();
    let t = tree(&keys, &|k| k == 1, None, false, 0);
    let at = v.index(&t, None);
    v.put(&mut r, at);
    r.sub = sub;
    r
}

fn environment(check: &mut Check) {
    // The stream protocol on every kind of data.
    check.family("streams", 5, |i, cov| {
        let mut v = Vol::small();
        let root = match i {
            0 => {
                let d = pattern(40, 9);
                let f = v.file(24, &u("file"), &d);
                v.root(vec![f])
            }
            1 | 2 => {
                let l = v.take(9);
                let runs = [(1, Some(l + 4)), (1, None), (1, Some(l))];
                let size = if i == 1 { 1400 } else { 1536 };
                let c = fill_runs(&mut v, &runs, size, 1100);
                let a = Nr::new(DATA, &[], 512, size, 1100, &runs);
                one(&mut v, vec![a.bytes()], c)
            }
            _ => {
                let (mut a, c) = compressed_data(&mut v, &[Unit::Chunk, Unit::Raw], if i == 3 { Lay::Near } else { Lay::Single }, 3);
                a.size = 6000;
                a.valid = 5000;
                let c = cut(&c, 6000, 5000);
                one(&mut v, vec![a.bytes()], c)
            }
        };
        let s = of(&v);
        let c = root.sub[0].content.as_ref().unwrap();
        let mut d = vec![0u8; c.size as usize];
        c.fill(0, &mut d);
        let key = format!("{i}");
        ok(key, protocol(&|| stream(&s), &d, &[c.size / 2], 3, cov))
    });
    // Every read of the volume fails once.
    check.family_serial("faults", 2, |i, cov| {
        let mut v = Vol::small();
        let root = if i == 0 { rich(&mut v) } else { ordinary(&mut v) };
        let data = Arc::new(v.build());
        for n in 0..400 {
            let fuse = Arc::new(AtomicI64::new(n));
            let s: DataStreamReference = Arc::new(RwLock::new(Sparse::with_fuse(&data, &fuse)));
            cov.trace();
            let r = guarded(|| -> Result<bool, String> {
                let fs = match open(&s) {
                    Ok(fs) => fs,
                    Err(_) if fuse.load(Ordering::Relaxed) < 0 => open(&s)?,
                    Err(m) => return Err(m),
                };
                let mut r = match fs.get_root_directory() {
                    Ok(r) => r,
                    Err(_) if fuse.load(Ordering::Relaxed) < 0 => fs.get_root_directory().map_err(err)?,
                    Err(m) => return Err(err(m)),
                };
                // Each operation fails or is right; the second time it is right.
                for pass in 0..2 {
                    let before = fuse.load(Ordering::Relaxed);
                    let q = dir_is(&fs, &mut r, &root, &[Ucs2String::new()], cov);
                    let hit = before >= 0 && fuse.load(Ordering::Relaxed) < 0;
                    match q {
                        Err(m) if hit && (m.contains("injected fault") || m.contains("bytes, expected")) => {}
                        Err(m) => return Err(format!("pass {pass}: {m}")),
                        Ok(()) => {}
                    }
                }
                Ok(fuse.load(Ordering::Relaxed) >= 0)
            })
            .unwrap_or_else(Err);
            match r {
                Ok(true) => return Ok(()),
                Ok(false) => {}
                Err(m) => return Err(Failure::new(format!("{i} {n}"), format!("fault in read {n}: {m}"))),
            }
        }
        Ok(())
    });
    // The streams after a fault.
    check.family("faults of streams", 3, |i, cov| {
        let mut v = Vol::small();
        let root = match i {
            0 => {
                let l = v.take(9);
                let runs = [(2, Some(l + 4)), (1, None), (3, Some(l))];
                let c = fill_runs(&mut v, &runs, 3000, 2900);
                let a = Nr::new(DATA, &[], 512, 3000, 2900, &runs);
                one(&mut v, vec![a.bytes()], c)
            }
            1 => {
                let (a, c) = compressed_data(&mut v, &[Unit::Full, Unit::Raw, Unit::Chunk], Lay::Single, 4);
                v.es = 1024;
                one(&mut v, vec![a.bytes()], c)
            }
            _ => {
                let (a, c) = compressed_data(&mut v, &[Unit::Raw, Unit::Full], Lay::Apart, 4);
                one(&mut v, vec![a.bytes()], c)
            }
        };
        let c = root.sub[0].content.as_ref().unwrap();
        let mut d = vec![0u8; c.size as usize];
        c.fill(0, &mut d);
        let data = Arc::new(v.build());
        let open_it = |f: Option<Arc<AtomicI64>>| -> Result<DataStreamReference, String> {
            let s: DataStreamReference = match f {
                Some(f) => Arc::new(RwLock::new(Sparse::with_fuse(&data, &f))),
                None => sparse(&data),
            };
            stream(&s)
        };
        let n = c.size;
        ok(format!("{i}"), faults(&open_it, &d, &[(0, 3), (n / 2, 700), (0, n as usize), (n - 5, 9)], 300, cov))
    });
    // The volume ends early: an error, or what is right.
    let mut v = Vol::small();
    let root = rich(&mut v);
    let segs = v.build();
    let mut ends: Vec<u64> = segs.segs.iter().flat_map(|(o, d)| [*o, *o + 1, *o + d.len() as u64 / 2, *o + d.len() as u64 - 1, *o + d.len() as u64]).collect();
    ends.extend((0..v.next).map(|c| c * 512 + 100));
    ends.sort();
    ends.dedup();
    check.family("truncation", ends.len() as u64, |i, cov| {
        let end = ends[i as usize];
        let mut t = Segs { size: end, segs: BTreeMap::new() };
        for (o, d) in segs.segs.range(..end) {
            let n = d.len().min((end - o) as usize);
            t.segs.insert(*o, Arc::new(d[..n].to_vec()));
        }
        let s = sparse(&Arc::new(t));
        let r = guarded(|| -> Result<(), String> {
            let fs = match open(&s) {
                Ok(fs) => fs,
                Err(_) => return Ok(()),
            };
            explore(&fs, cov);
            let p = NtfsPath::from("\\file");
            if let Ok(Some(e)) = fs.get_file_entry_by_path(&p) {
                let c = root.sub.iter().find(|w| w.number == 24).unwrap().content.as_ref().unwrap();
                let mut d = vec![0u8; c.size as usize];
                c.fill(0, &mut d);
                if let Ok(Some(s)) = e.get_data_stream() {
                    for (at, len) in [(0u64, 100usize), (0, c.size as usize), (9000, 100), (c.size / 2, 5)] {
                        right_or_less(&s, &d, at, len, cov)?;
                    }
                }
            }
            Ok(())
        })
        .unwrap_or_else(Err);
        ok(format!("{end}"), r)
    });
    // Damaged structures: values at every byte of the entries and nodes.
    let mut spots: Vec<(u64, u64)> = vec![(0, 90)];
    for n in [0u64, 3, 5, 10, 24, 26, 27, 30, 33] {
        let used = v.recs.get(&n).map_or(300, |r| r.used(1024)) as u64;
        spots.push((v.entry_at(n), used.min(1024)));
    }
    for (o, d) in &segs.segs {
        if d.starts_with(b"INDX") {
            spots.push((*o, 320));
        }
        if d.len() >= 64 && d[..4] == [0x10, 0, 0, 0] {
            spots.push((*o, 200));
        }
    }
    let bytes: Vec<u64> = spots.iter().flat_map(|(o, n)| *o..*o + *n).collect();
    let few: Vec<u8> = vec![0, 1, 2, 7, 8, 0x10, 0x30, 0x7f, 0x80, 0xa0, 0xfe, 0xff];
    let all = check.thorough();
    let per = if all { 256 } else { few.len() as u64 };
    check.family("damaged structures", bytes.len() as u64, |i, cov| {
        let at = bytes[i as usize];
        let (o, d) = segs.segs.range(..=at).next_back().map(|x| (*x.0, x.1.clone())).unwrap();
        for k in 0..per {
            let b = if all { k as u8 } else { few[k as usize] };
            let x = (at - o) as usize;
            if x >= d.len() || d[x] == b {
                continue;
            }
            let mut t = segs.clone();
            let mut e = d.to_vec();
            e[x] = b;
            t.segs.insert(o, Arc::new(e));
            let s = sparse(&Arc::new(t));
            cov.step();
            guarded(|| {
                if let Ok(fs) = open(&s) {
                    explore(&fs, cov);
                }
            })
            .map_err(|m| Failure::new(format!("byte {at} is {b}"), m))?;
        }
        Ok(())
    });
    // Sizes and numbers at the edges of what fits.
    let big: Vec<u64> = vec![0, 1, 0x7f, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 1 << 40, 1 << 44, (1 << 55) - 1, 1 << 55, i64::MAX as u64, 1 << 63, u64::MAX - 511, u64::MAX];
    check.family("sizes out of bounds", 19 * 5 * 19 * 3, |i, cov| {
        let mut g = Digits(i);
        let x = *g.pick(&big);
        let field = g.take(5);
        let y = *g.pick(&big);
        let what = g.take(3);
        let mut v = Vol::small();
        let l = v.take(4);
        let mut a = Nr::new(DATA, &[], 512, 1000, 1000, &[(2, Some(l)), (2, Some(l + 2))]);
        if what == 1 {
            a = compressed_data(&mut v, &[Unit::Chunk], Lay::Near, 4).0;
        }
        match field {
            0 => (a.alloc, a.size) = (x, y),
            1 => (a.valid, a.size) = (x, y),
            2 => (a.first, a.last) = (x, Some(y)),
            3 => a.runs[0] = (x, Some(y)),
            _ => (a.runs[0], a.alloc) = ((x, None), y),
        }
        let mut w = v.want(24, &u("file"));
        match what {
            2 => {
                w.dir = true;
                let f = v.file(30, &u("zz"), b"");
                let t = Node { keys: vec![], subs: vec![Some(Box::new(Node::leaf(&[f])))] };
                let mut n = v.index(&t, None);
                a.ty = ALLOC;
                a.name = u("$I30");
                n[1] = a.bytes();
                v.put(&mut w, n);
            }
            _ => v.put(&mut w, vec![a.bytes()]),
        }
        let _ = v.root(vec![w]);
        let s = of(&v);
        cov.step();
        guarded(|| {
            if let Ok(fs) = open(&s) {
                explore(&fs, cov);
            }
        })
        .map_err(|m| Failure::new(format!("{x:#x} {y:#x} {field} {what}"), m))
    });
    check.family("master file tables out of bounds", 19 * 19 * 4, |i, cov| {
        let mut g = Digits(i);
        let (x, y) = (*g.pick(&big), *g.pick(&big));
        let field = g.take(4);
        let mut v = Vol::small();
        let _ = ordinary(&mut v);
        let n = v.mft[0].1;
        let mut a = Nr::new(DATA, &[], 512, n * 512, n * 512, &[(n, Some(16))]);
        match field {
            0 => (a.alloc, a.size) = (x, y),
            1 => a.runs = vec![(x, Some(16)), (2, Some(y))],
            2 => (a.first, a.last) = (x, Some(y)),
            _ => (a.runs, a.alloc) = (vec![(x, Some(16))], y),
        }
        let mut r = Rec::new(0);
        r.attrs.push(a.bytes());
        v.recs.insert(0, r);
        let s = of(&v);
        cov.step();
        guarded(|| {
            if let Ok(fs) = open(&s) {
                explore(&fs, cov);
                for n in [63, 64, 65, 1 << 32, x, y] {
                    let _ = fs.get_file_entry_by_identifier(n).is_ok();
                }
            }
        })
        .map_err(|m| Failure::new(format!("{x:#x} {y:#x} {field}"), m))
    });
    // Nodes that lead back to nodes, lists that name their own entries.
    check.family("circles", 3 * 3 * 4, |i, cov| {
        let mut g = Digits(i);
        let n = 1 + g.take(3);
        let keys = g.take(3) as usize;
        let how = g.take(4);
        let mut v = Vol::small();
        let sub: Vec<Want> = (0..3u64).map(|k| v.file(30 + k, &u(["b", "n", "y"][k as usize]), b"")).collect();
        let leaf = || Some(Box::new(Node::leaf(&[])));
        let t = Node { keys: vec![], subs: vec![Some(Box::new(Node { keys: vec![key(&sub[0])], subs: vec![leaf(), leaf()] }))] };
        let _ = t;
        // A chain of nodes, each with `keys` keys and sub nodes everywhere.
        let node = |keys: usize, subs: Vec<Option<Box<Node>>>| Node { keys: sub[..keys].iter().map(key).collect(), subs };
        let mut t = node(keys, (0..=keys).map(|_| leaf()).collect());
        for _ in 1..n {
            let mut s: Vec<Option<Box<Node>>> = (0..=keys).map(|_| leaf()).collect();
            s[0] = Some(Box::new(t));
            t = node(keys, s);
        }
        let mut w = v.want(26, &u("dir"));
        w.dir = true;
        let a = v.index(&Node { keys: vec![], subs: vec![Some(Box::new(t))] }, None);
        v.put(&mut w, a);
        // Every number of a sub node is that of a node near the top.
        let target = [0u64, 8, 16, 1 << 40][how as usize];
        for d in v.disk.segs.values_mut() {
            if !d.starts_with(b"INDX") {
                continue;
            }
            let mut b = d.to_vec();
            let mut at = 24 + u32::from_le_bytes(b[24..28].try_into().unwrap()) as usize;
            loop {
                let (size, flags) = (u16::from_le_bytes([b[at + 8], b[at + 9]]) as usize, b[at + 12]);
                if flags & 1 != 0 {
                    p64l(&mut b, at + size - 8, target);
                }
                at += size;
                if flags & 2 != 0 {
                    break;
                }
            }
            *d = Arc::new(b);
        }
        let _ = v.root(vec![w]);
        let s = of(&v);
        guarded(|| -> Result<(), String> {
            let fs = open(&s)?;
            explore(&fs, cov);
            let mut d = fs.get_file_entry_by_path(&NtfsPath::from("\\dir")).map_err(err)?.ok_or("no directory")?;
            // The number of entries is not without end.
            if d.get_number_of_sub_file_entries().is_ok_and(|n| n > 64) {
                return Err("more entries than are stored".into());
            }
            for n in ["a", "b", "c", "n", "o", "z"] {
                let _ = d.get_sub_file_entry_by_name(&Ucs2String::from(n)).is_ok();
            }
            Ok(())
        })
        .unwrap_or_else(Err)
        .map_err(|m| Failure::new(format!("{n} {keys} {how}"), m))
    });
}

fn paths(check: &mut Check) {
    // Paths as text: what is joined is split again; parent, name, stem and extension agree.
    let parts = ["", "a", "b.c", ".h", "x.", "d.e.f", "A B"];
    let depth = check.pick(4, 5);
    check.family("paths", seq_count(7, depth), |i, cov| {
        let seq = seq_decode(7, i);
        let c: Vec<&str> = seq.iter().map(|x| parts[*x as usize]).collect();
        let key = format!("{c:?}");
        let fail = |m: String| -> CaseResult { Err(Failure::new(key.clone(), m)) };
        cov.step();
        let t = c.join("\\");
        let p = NtfsPath::from(&t);
        let q = NtfsPath::from(&c);
        let strings: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        let ucs2: Vec<Ucs2String> = c.iter().map(|x| Ucs2String::from(*x)).collect();
        if q != NtfsPath::from(&strings) || q != NtfsPath::from(&ucs2) || q != NtfsPath::from(c.as_slice()) || q != NtfsPath::from(ucs2.as_slice()) || p != NtfsPath::from(t.as_str()) {
            return fail("ways to make the same path".into());
        }
        if c.len() > 1 && c != ["", ""] {
            if p != q {
                return fail(format!("from text {p:?}, from components {q:?}"));
            }
            if p.to_string() != t {
                return fail(format!("as text {:?}", p.to_string()));
            }
            let last = Ucs2String::from(*c.last().unwrap());
            if p.file_name() != Some(&last) {
                return fail(format!("file name {:?}", p.file_name()));
            }
            let parent = p.new_with_parent_directory();
            if parent.components != q.components[..c.len() - 1] {
                return fail(format!("parent {parent:?}"));
            }
            if parent.new_with_join(&[last.clone()]) != p {
                return fail("parent joined with the file name".into());
            }
            let std = std::path::PathBuf::from(c.last().unwrap());
            if !c.last().unwrap().is_empty() {
                let ext = std.extension().map(|x| Ucs2String::from(x.to_str().unwrap()));
                let stem = std.file_stem().map(|x| Ucs2String::from(x.to_str().unwrap()));
                if p.extension() != ext || p.file_stem() != stem {
                    return fail(format!("extension {:?}, stem {:?}", p.extension(), p.file_stem()));
                }
            }
            let mut r = parent.clone();
            r.push(last);
            if r != p {
                return fail("parent with the file name appended".into());
            }
        }
        if p.is_empty() != t.is_empty() {
            return fail("is empty".into());
        }
        cov.outcome(&p.to_string());
        Ok(())
    });
}

pub fn main() {
    let mut check = Check::new("C29");
    check.assume("reparse points are resident; data of the overlay filter lies in the volume, not in a WIM file");
    check.assume("the LZNT1 and LZX data is made by an encoder of this harness");
    boot_records(&mut check);
    data_runs(&mut check);
    chains(&mut check);
    compression(&mut check);
    directories(&mut check);
    entries(&mut check);
    environment(&mut check);
    paths(&mut check);
    check.finish();
}
