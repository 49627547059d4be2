//! Shared parts of the checks of the storage formats: data streams in memory, file resolvers and the media check.
use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
use keramics_formats::{FileResolver, FileResolverReference, PathComponent};
use mc_engine::{Cov, guarded};
use std::collections::BTreeMap;
use std::io::SeekFrom;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, RwLock};

#[path = "../../base/src/streams.rs"]
pub mod streams;
pub use streams::{Op, alphabet, run_history};

/// Data stream over memory. Can fail its n-th read.
pub struct Mem {
    data: Arc<Vec<u8>>,
    pos: u64,
    fuse: Option<Arc<AtomicI64>>,
}

impl DataStream for Mem {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        Ok(self.data.len() as u64)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        if let Some(f) = &self.fuse {
            if f.fetch_sub(1, Ordering::Relaxed) == 0 {
                return Err(keramics_core::error_trace_new!("injected fault"));
            }
        }
        let n = self.data.len() as u64;
        if self.pos >= n {
            return Ok(0);
        }
        let c = buf.len().min((n - self.pos) as usize);
        buf[..c].copy_from_slice(&self.data[self.pos as usize..self.pos as usize + c]);
        self.pos += c as u64;
        Ok(c)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        let t = match pos {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if t < 0 || t > u64::MAX as i128 {
            return Err(keramics_core::error_trace_new!("invalid offset"));
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}

pub fn mem(data: &Arc<Vec<u8>>) -> DataStreamReference {
    Arc::new(RwLock::new(Mem { data: data.clone(), pos: 0, fuse: None }))
}

pub fn mem_of(data: &[u8]) -> DataStreamReference {
    mem(&Arc::new(data.to_vec()))
}

/// A stream whose read number `fuse` (counting down through 0) fails once.
pub fn mem_fuse(data: &Arc<Vec<u8>>, fuse: &Arc<AtomicI64>) -> DataStreamReference {
    Arc::new(RwLock::new(Mem { data: data.clone(), pos: 0, fuse: Some(fuse.clone()) }))
}

/// File resolver over a map of path (components joined with "/") to contents.
pub struct Files {
    pub files: BTreeMap<String, Arc<Vec<u8>>>,
    pub fuse: Option<Arc<AtomicI64>>,
}

impl FileResolver for Files {
    fn get_data_stream(&self, path_components: &[PathComponent]) -> Result<Option<DataStreamReference>, ErrorTrace> {
        let p: Vec<String> = path_components.iter().map(|c| c.to_string()).collect();
        Ok(self.files.get(&p.join("/")).map(|d| match &self.fuse {
            Some(f) => mem_fuse(d, f),
            None => mem(d),
        }))
    }
}

pub fn resolver(files: &[(&str, &[u8])]) -> FileResolverReference {
    Arc::new(Box::new(Files { files: files.iter().map(|(n, d)| (n.to_string(), Arc::new(d.to_vec()))).collect(), fuse: None }))
}

pub fn resolver_map(files: &BTreeMap<String, Arc<Vec<u8>>>, fuse: Option<Arc<AtomicI64>>) -> FileResolverReference {
    Arc::new(Box::new(Files { files: files.clone(), fuse }))
}

/// A part of the content, with zeros behind it.
pub fn part(content: &[u8], at: usize, n: usize) -> Vec<u8> {
    let mut d = vec![0u8; n];
    if at < content.len() {
        let k = n.min(content.len() - at);
        d[..k].copy_from_slice(&content[at..at + k]);
    }
    d
}

/// Little and big endian writes.
pub fn p16l(b: &mut [u8], at: usize, v: u16) {
    b[at..at + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn p32l(b: &mut [u8], at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn p64l(b: &mut [u8], at: usize, v: u64) {
    b[at..at + 8].copy_from_slice(&v.to_le_bytes());
}
pub fn p16b(b: &mut [u8], at: usize, v: u16) {
    b[at..at + 2].copy_from_slice(&v.to_be_bytes());
}
pub fn p32b(b: &mut [u8], at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_be_bytes());
}
pub fn p64b(b: &mut [u8], at: usize, v: u64) {
    b[at..at + 8].copy_from_slice(&v.to_be_bytes());
}

/// Bounds of a media check.
#[derive(Clone)]
pub struct Bounds {
    /// Sizes of the reads of the sequential passes.
    pub chunks: Vec<usize>,
    /// Sizes of reads around the edges.
    pub lens: Vec<usize>,
    /// Depth of the histories of reads on one stream.
    pub depth: u32,
}

pub type Open<'a> = &'a (dyn Fn() -> Result<DataStreamReference, String> + Sync);

pub fn err(e: ErrorTrace) -> String {
    let s = e.to_string();
    let mut it = s.lines();
    it.next().unwrap_or("").chars().take(200).collect()
}

/// Reads from a position; the answer has to be what the model holds there.
pub fn window(s: &DataStreamReference, content: &[u8], at: u64, len: usize, cov: &mut Cov) -> Result<(), String> {
    cov.step();
    let size = content.len() as u64;
    let avail = if at >= size { 0 } else { (size - at).min(len as u64) as usize };
    let mut b = vec![0xa5u8; len];
    let got = match s.write() {
        Ok(mut g) => g.read_at_position(&mut b, SeekFrom::Start(at)),
        Err(_) => return Err("stream is poisoned".into()),
    };
    match got {
        Ok(n) if n == avail => {}
        Ok(n) => return Err(format!("read of {len} at {at} gives {n} bytes, expected {avail}")),
        Err(e) => return Err(format!("read of {len} at {at} failed: {}", err(e))),
    }
    compare(&b[..avail], content, at)?;
    if b[avail..].iter().any(|x| *x != 0xa5) {
        return Err(format!("read of {len} at {at} wrote beyond the {avail} bytes it gave"));
    }
    cov.outcome(&(at, len, avail));
    Ok(())
}

pub fn compare(b: &[u8], content: &[u8], at: u64) -> Result<(), String> {
    if b.is_empty() {
        return Ok(());
    }
    let want = &content[at as usize..at as usize + b.len()];
    if b != want {
        let k = b.iter().zip(want).position(|(x, y)| x != y).unwrap();
        let e = b.len().min(k + 8);
        return Err(format!("data at {}: {}, expected {}", at + k as u64, mc_engine::util::hex(&b[k..e]), mc_engine::util::hex(&want[k..e])));
    }
    Ok(())
}

/// Checks that a stream has exactly the given content: its size, sequential reads with every chunk size, reads around
/// every edge on a fresh stream, all of them in either order on one stream, and every history of reads up to a depth.
pub fn media(open: Open, content: &[u8], edges: &[u64], b: &Bounds, cov: &mut Cov) -> Result<(), String> {
    guarded(|| media_inner(open, content, edges, b, cov)).unwrap_or_else(|p| Err(p))
}

/// Offsets and sizes of the reads around the edges.
pub fn windows(size: u64, edges: &[u64], lens: &[usize]) -> Vec<(u64, usize)> {
    let mut at: Vec<u64> = vec![0, size.saturating_sub(1), size, size + 1];
    for e in edges {
        at.extend([e.saturating_sub(1), *e, e + 1]);
    }
    at.sort();
    at.dedup();
    at.iter().flat_map(|a| lens.iter().map(move |l| (*a, *l))).collect()
}

fn media_inner(open: Open, content: &[u8], edges: &[u64], b: &Bounds, cov: &mut Cov) -> Result<(), String> {
    let size = content.len() as u64;
    let s = open()?;
    match s.write().unwrap().get_size() {
        Ok(n) if n == size => {}
        Ok(n) => return Err(format!("size is {n}, expected {size}")),
        Err(e) => return Err(format!("size: {}", err(e))),
    }
    drop(s);
    for chunk in &b.chunks {
        let s = open()?;
        cov.trace();
        let mut g = s.write().unwrap();
        let mut at = 0u64;
        let mut buf = vec![0u8; *chunk];
        loop {
            cov.step();
            let n = g.read(&mut buf).map_err(|e| format!("sequential read of {chunk} at {at} failed: {}", err(e)))?;
            let want = (size - at).min(*chunk as u64) as usize;
            if n != want {
                return Err(format!("sequential read of {chunk} at {at} gives {n} bytes, expected {want}"));
            }
            compare(&buf[..n], content, at).map_err(|e| format!("sequential reads of {chunk}: {e}"))?;
            at += n as u64;
            if n == 0 {
                break;
            }
        }
    }
    let w = windows(size, edges, &b.lens);
    for (at, len) in &w {
        let s = open()?;
        cov.trace();
        window(&s, content, *at, *len, cov).map_err(|e| format!("first {e}"))?;
    }
    for rev in [false, true] {
        let s = open()?;
        cov.trace();
        for k in 0..w.len() {
            let (at, len) = w[if rev { w.len() - 1 - k } else { k }];
            window(&s, content, at, len, cov).map_err(|e| format!("in {} order: {e}", if rev { "descending" } else { "ascending" }))?;
        }
        cov.state(&(size, rev, mc_engine::util::hash64(&content)));
    }
    if b.depth > 0 {
        let k = w.len() as u64;
        let mut idx = vec![0usize; b.depth as usize];
        let total = k.pow(b.depth);
        for i in 0..total {
            let mut x = i;
            for d in idx.iter_mut() {
                *d = (x % k) as usize;
                x /= k;
            }
            let s = open()?;
            cov.trace();
            for d in &idx {
                let (at, len) = w[*d];
                window(&s, content, at, len, cov).map_err(|e| format!("history {:?}: {e}", idx.iter().map(|d| w[*d]).collect::<Vec<_>>()))?;
            }
        }
    }
    Ok(())
}

/// The stream protocol on an image: every history over seeks and reads up to a depth.
pub fn protocol(open: Open, content: &[u8], edges: &[u64], depth: u32, cov: &mut Cov) -> Result<(), String> {
    let size = content.len() as u64;
    let mut starts: Vec<u64> = edges.to_vec();
    starts.extend([0, size, size + 7]);
    starts.sort();
    starts.dedup();
    let ops = alphabet(&[0, 1, 3, 513], &starts, &[-1, 0, 5], &[-2, 0, 3]);
    let k = ops.len() as u64;
    for i in 0..mc_engine::util::seq_count(k, depth) {
        let h: Vec<Op> = mc_engine::util::seq_decode(k, i).into_iter().map(|d| ops[d as usize]).collect();
        let s = open()?;
        let mut g = s.write().unwrap();
        guarded(|| run_history(&mut *g, content, &h, cov)).unwrap_or_else(|p| Err(p)).map_err(|e| format!("{h:?}: {e}"))?;
    }
    Ok(())
}

/// Every read of the underlying data fails once, in turn: the operation that needed it fails (or was not affected), and
/// afterwards every read gives the right data.
pub fn faults(open: &dyn Fn(Option<Arc<AtomicI64>>) -> Result<DataStreamReference, String>, content: &[u8], reads: &[(u64, usize)], max: i64, cov: &mut Cov) -> Result<(), String> {
    for n in 0..max {
        let fuse = Arc::new(AtomicI64::new(n));
        cov.trace();
        let s = match guarded(|| open(Some(fuse.clone()))).map_err(|p| format!("fault in read {n} of open: {p}"))? {
            Ok(s) => s,
            Err(_) if fuse.load(Ordering::Relaxed) < 0 => continue,
            Err(e) => return Err(e),
        };
        for pass in 0..2 {
            for (at, len) in reads {
                let before = fuse.load(Ordering::Relaxed);
                let r = guarded(|| window(&s, content, *at, *len, cov)).unwrap_or_else(|p| Err(p));
                let after = fuse.load(Ordering::Relaxed);
                let hit = before >= 0 && after < 0;
                if let Err(e) = r {
                    if hit && (e.contains("failed") || e.contains("bytes, expected")) {
                        continue;
                    }
                    return Err(format!("fault in read {n}, pass {pass}: {e}"));
                }
            }
        }
        if fuse.load(Ordering::Relaxed) >= 0 {
            // The fault was not reached: neither will later ones.
            return Ok(());
        }
    }
    Ok(())
}

/// Reads without caring for the answer: whether it succeeded.
pub trait ReadAny {
    fn read_at_position_any(&mut self, b: &mut [u8], at: u64) -> bool;
}
impl<T: DataStream + ?Sized> ReadAny for T {
    fn read_at_position_any(&mut self, b: &mut [u8], at: u64) -> bool {
        self.read_at_position(b, SeekFrom::Start(at)).is_ok()
    }
}

/// Sparse data: segments, zeros elsewhere.
#[derive(Clone, Default)]
pub struct Segs {
    pub size: u64,
    pub segs: BTreeMap<u64, Arc<Vec<u8>>>,
}

impl Segs {
    pub fn put(&mut self, at: u64, d: Vec<u8>) {
        self.size = self.size.max(at + d.len() as u64);
        self.segs.insert(at, Arc::new(d));
    }
    /// Fills a buffer with what lies at an offset; segments must not overlap.
    pub fn fill(&self, at: u64, buf: &mut [u8]) {
        buf.fill(0);
        let end = at + buf.len() as u64;
        for (o, d) in self.segs.range(..end).rev() {
            let e = o + d.len() as u64;
            if e <= at {
                break;
            }
            let (s, t) = (at.max(*o), end.min(e));
            buf[(s - at) as usize..(t - at) as usize].copy_from_slice(&d[(s - o) as usize..(t - o) as usize]);
        }
    }
}

pub struct Sparse {
    data: Arc<Segs>,
    pos: u64,
    fuse: Option<Arc<AtomicI64>>,
}

impl Sparse {
    pub fn with_fuse(data: &Arc<Segs>, fuse: &Arc<AtomicI64>) -> Sparse {
        Sparse { data: data.clone(), pos: 0, fuse: Some(fuse.clone()) }
    }
}

impl DataStream for Sparse {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        Ok(self.data.size)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        if let Some(f) = &self.fuse {
            if f.fetch_sub(1, Ordering::Relaxed) == 0 {
                return Err(keramics_core::error_trace_new!("injected fault"));
            }
        }
        if self.pos >= self.data.size {
            return Ok(0);
        }
        let c = buf.len().min((self.data.size - self.pos) as usize);
        self.data.fill(self.pos, &mut buf[..c]);
        self.pos += c as u64;
        Ok(c)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        let t = match pos {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.size as i128 + d as i128,
        };
        if t < 0 || t > u64::MAX as i128 {
            return Err(keramics_core::error_trace_new!("invalid offset"));
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}

pub fn sparse(data: &Arc<Segs>) -> DataStreamReference {
    Arc::new(RwLock::new(Sparse { data: data.clone(), pos: 0, fuse: None }))
}

pub struct SparseFiles {
    pub files: BTreeMap<String, Arc<Segs>>,
    pub fuse: Option<Arc<AtomicI64>>,
}

impl FileResolver for SparseFiles {
    fn get_data_stream(&self, path_components: &[PathComponent]) -> Result<Option<DataStreamReference>, ErrorTrace> {
        let p: Vec<String> = path_components.iter().map(|c| c.to_string()).collect();
        Ok(self.files.get(&p.join("/")).map(|d| -> DataStreamReference { Arc::new(RwLock::new(Sparse { data: d.clone(), pos: 0, fuse: self.fuse.clone() })) }))
    }
}

pub fn sparse_resolver(files: &BTreeMap<String, Arc<Segs>>, fuse: Option<Arc<AtomicI64>>) -> FileResolverReference {
    Arc::new(Box::new(SparseFiles { files: files.clone(), fuse }))
}

pub type Fill<'a> = &'a (dyn Fn(u64, &mut [u8]) + Sync);

/// As `window`, the content given by a function.
pub fn window_f(s: &DataStreamReference, size: u64, fill: Fill, at: u64, len: usize, cov: &mut Cov) -> Result<(), String> {
    cov.step();
    let avail = if at >= size { 0 } else { (size - at).min(len as u64) as usize };
    let mut b = vec![0xa5u8; len];
    let got = match s.write() {
        Ok(mut g) => g.read_at_position(&mut b, SeekFrom::Start(at)),
        Err(_) => return Err("stream is poisoned".into()),
    };
    match got {
        Ok(n) if n == avail => {}
        Ok(n) => return Err(format!("read of {len} at {at} gives {n} bytes, expected {avail}")),
        Err(e) => return Err(format!("read of {len} at {at} failed: {}", err(e))),
    }
    let mut want = vec![0u8; avail];
    fill(at, &mut want);
    if b[..avail] != want[..] {
        let k = b.iter().zip(&want).position(|(x, y)| x != y).unwrap();
        let e = avail.min(k + 8);
        return Err(format!("data at {}: {}, expected {}", at + k as u64, mc_engine::util::hex(&b[k..e]), mc_engine::util::hex(&want[k..e])));
    }
    if b[avail..].iter().any(|x| *x != 0xa5) {
        return Err(format!("read of {len} at {at} wrote beyond the {avail} bytes it gave"));
    }
    cov.outcome(&(at, len, avail));
    Ok(())
}

/// As `media`, for content that is too large to hold: the windows, first on a fresh stream (when `fresh`), then on one
/// stream in either order, and histories up to the depth.
pub fn media_f(open: Open, size: u64, fill: Fill, edges: &[u64], b: &Bounds, fresh: bool, cov: &mut Cov) -> Result<(), String> {
    guarded(|| media_f_inner(open, size, fill, edges, b, fresh, cov)).unwrap_or_else(|p| Err(p))
}

fn media_f_inner(open: Open, size: u64, fill: Fill, edges: &[u64], b: &Bounds, fresh: bool, cov: &mut Cov) -> Result<(), String> {
    let s = open()?;
    match s.write().unwrap().get_size() {
        Ok(n) if n == size => {}
        Ok(n) => return Err(format!("size is {n}, expected {size}")),
        Err(e) => return Err(format!("size: {}", err(e))),
    }
    for chunk in &b.chunks {
        let s = open()?;
        cov.trace();
        let mut at = 0;
        while at < size {
            window_f(&s, size, fill, at, *chunk, cov).map_err(|e| format!("sequential {e}"))?;
            at += *chunk as u64;
        }
    }
    let w = windows(size, edges, &b.lens);
    if fresh {
        for (at, len) in &w {
            let s = open()?;
            cov.trace();
            window_f(&s, size, fill, *at, *len, cov).map_err(|e| format!("first {e}"))?;
        }
    }
    for rev in [false, true] {
        let s = open()?;
        cov.trace();
        for k in 0..w.len() {
            let (at, len) = w[if rev { w.len() - 1 - k } else { k }];
            window_f(&s, size, fill, at, len, cov).map_err(|e| format!("in {} order: {e}", if rev { "descending" } else { "ascending" }))?;
        }
    }
    if b.depth > 0 {
        let k = w.len() as u64;
        let mut idx = vec![0usize; b.depth as usize];
        for i in 0..k.pow(b.depth) {
            let mut x = i;
            for d in idx.iter_mut() {
                *d = (x % k) as usize;
                x /= k;
            }
            let s = open()?;
            cov.trace();
            for d in &idx {
                let (at, len) = w[*d];
                window_f(&s, size, fill, at, len, cov).map_err(|e| format!("history {:?}: {e}", idx.iter().map(|d| w[*d]).collect::<Vec<_>>()))?;
            }
        }
    }
    Ok(())
}

/// Reads from a position of data that is damaged: an error, or bytes that are right, possibly fewer.
pub fn right_or_less(s: &DataStreamReference, content: &[u8], at: u64, len: usize, cov: &mut Cov) -> Result<(), String> {
    cov.step();
    let mut b = vec![0xa5u8; len];
    let got = match s.write() {
        Ok(mut g) => g.read_at_position(&mut b, SeekFrom::Start(at)),
        Err(_) => return Err("stream is poisoned".into()),
    };
    match got {
        Err(_) => Ok(()),
        Ok(n) if n <= len && at + n as u64 <= content.len() as u64 => {
            cov.outcome(&(at, len, n));
            compare(&b[..n], content, at)
        }
        Ok(n) if n == 0 => Ok(()),
        Ok(n) => Err(format!("read of {len} at {at} gives {n} bytes")),
    }
}
