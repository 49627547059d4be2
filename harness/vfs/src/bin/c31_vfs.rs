//! C31: the virtual file system gives what the layers under it hold.
use keramics_core::DataStreamReference;
use keramics_datetime::{DateTime, PosixTime32, PosixTime64Ns};
use keramics_formats::ext::{ExtFileSystem, ExtPath};
use keramics_formats::fat::{FatFileSystem, FatPath};
use keramics_formats::ntfs::{NtfsFileSystem, NtfsPath};
use keramics_formats::{FileResolver, PathComponent};
use keramics_types::{ByteString, Ucs2String};
use keramics_vfs::*;
use mc_engine::util::{seq_count, seq_decode};
use mc_engine::{Check, Cov, Failure, guarded};
use mc_vfs::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;

type Res = Result<(), String>;

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn run(key: impl Into<String>, f: impl FnOnce() -> Res) -> Result<(), Failure> {
    guarded(f).unwrap_or_else(Err).map_err(|m| Failure::new(&key.into(), m))
}

fn open(p: &str, t: &VfsType) -> Result<VfsFileSystemReference, String> {
    let l = new_os_vfs_location(p).new_with_layer(t, VfsPath::from_path(t, "/"));
    VfsContext::new().open_file_system(&l).map_err(err)
}

type Times = [Option<DateTime>; 4];

fn times(e: &VfsFileEntry) -> Times {
    [e.get_access_time().cloned(), e.get_change_time().cloned(), e.get_creation_time().cloned(), e.get_modification_time().cloned()]
}

/// Times and being the root directory are those of the file system itself.
fn times_are(f: &Fs, fs: &VfsFileSystem, cov: &mut Cov) -> Res {
    let t = f.kind.clone().unwrap();
    let s = mc_formats::sparse(&f.media);
    let mut all = vec![];
    f.root.all(&[], &mut all);
    let mut seen = 0u32;
    macro_rules! compare {
        ($fs:ty, $path:ty, $change:expr) => {{
            let mut inner = <$fs>::new();
            inner.read_data_stream(&s).map_err(err)?;
            for (p, _) in &all {
                cov.step();
                let o = inner.get_file_entry_by_path(&<$path>::from(p)).map_err(err)?.ok_or(format!("no entry at {p:?}"))?;
                let want: Times = [o.get_access_time().cloned(), $change(&o), o.get_creation_time().cloned(), o.get_modification_time().cloned()];
                let e = fs.get_file_entry_by_path(&vfs_path(&t, p)).map_err(err)?.ok_or(format!("no entry at {p:?} in the virtual file system"))?;
                if times(&e) != want {
                    return Err(format!("{p:?} has other times"));
                }
                if e.is_root_directory() != (p.len() == 1) {
                    return Err(format!("{p:?}: being the root directory"));
                }
                for a in 0..4 {
                    for b in 0..a {
                        if want[a].is_some() && want[a] != want[b] {
                            seen |= 1 << (a * 4 + b);
                        }
                    }
                }
            }
        }};
    }
    match t {
        VfsType::Ext => compare!(ExtFileSystem, ExtPath, |o: &keramics_formats::ext::ExtFileEntry| o.get_change_time().cloned()),
        VfsType::Fat => compare!(FatFileSystem, FatPath, |_: &keramics_formats::fat::FatFileEntry| None),
        _ => compare!(NtfsFileSystem, NtfsPath, |o: &keramics_formats::ntfs::NtfsFileEntry| o.get_change_time().cloned()),
    }
    cov.outcome(&format!("{t:?} times that differ {seen:04x}"));
    Ok(())
}

/// What is opened in the family of the names.
fn layered(i: usize) -> (String, VfsType, Files, Vec<Vec<u8>>) {
    let fs = file_systems();
    if i < WRAPS.len() - 1 {
        let w = WRAPS[i + 1];
        let media = fs[1].bytes();
        (format!("{w:?}"), w.kind().unwrap(), w.files(&media), w.layers(&media))
    } else {
        let k = i - (WRAPS.len() - 1);
        let t = [VfsType::Mbr, VfsType::Gpt, VfsType::Apm][k / 3].clone();
        let parts: Vec<&Fs> = (0..k % 3 + 1).map(|n| &fs[n]).collect();
        let d = volume(&t, &parts);
        let contents: Vec<Vec<u8>> = parts.iter().map(|p| p.bytes()).collect();
        let mut s = mc_formats::Segs::default();
        s.put(0, d);
        (format!("{t:?} {}", parts.len()), t, vec![("image.raw".to_string(), s)], contents)
    }
}

fn names_of(i: usize, cov: &mut Cov) -> Res {
    let (_, t, files, contents) = layered(i);
    let s = Scratch::new("names");
    let p = s.put(&files);
    let fs = open(&p, &t)?;
    let mut root = fs.get_root_file_entry().map_err(err)?.ok_or("no root")?;
    let n = root.get_number_of_sub_file_entries().map_err(err)?;
    if n != contents.len() {
        return Err(format!("{n} entries"));
    }
    let node = layer_node(&t, &contents);
    tree_is(&fs, &t, &node, cov)?;
    entry_is(&t, &mut root, &node, cov).map_err(|m| format!("the root: {m}"))?;
    // Names like those of the entries.
    let pre = prefix(&t);
    let mut stems: Vec<String> = ["", "x", "/", " ", "ewf", "qcow", "vhd", "vhdx", "gpt", "apm", "mbr", "udif", "sparseimage", "sparse"].iter().map(|x| x.to_string()).collect();
    stems.extend([pre.to_string(), pre.to_uppercase(), pre[..pre.len() - 1].to_string(), format!("x{pre}"), format!("{pre}{pre}"), format!(" {pre}")]);
    stems.sort();
    stems.dedup();
    let alphabet = ["0", "1", "2", "3", "9", "+", "-", " ", "x", "\u{661}", "."];
    let mut tails: Vec<String> = (0..seq_count(alphabet.len() as u64, 3)).map(|k| seq_decode(alphabet.len() as u64, k).iter().map(|d| alphabet[*d as usize]).collect()).collect();
    for x in [u32::MAX as u128, u64::MAX as u128, 1 << 32, 1 << 64, 1 << 65] {
        for d in 0..4u128 {
            tails.push((x + d).to_string());
        }
    }
    let is = |c: &[String]| -> bool {
        match c {
            [a] => a.is_empty(),
            [a, b] => a.is_empty() && (1..=n).any(|k| *b == format!("{pre}{k}")),
            _ => false,
        }
    };
    let check = |c: &[String], cov: &mut Cov| -> Res {
        cov.step();
        let path = VfsPath::from_path_components(&t, &c.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        let want = is(c);
        let exists = fs.file_entry_exists(&path).map_err(err)?;
        let e = fs.get_file_entry_by_path(&path).map_err(err)?;
        if exists != want || e.is_some() != want {
            return Err(format!("{c:?}: exists {exists}, entry {}", e.is_some()));
        }
        if let Some(e) = e {
            let name = e.get_name().map(|x| x.to_string()).unwrap_or_default();
            if name != c[c.len() - 1] {
                return Err(format!("{c:?} has the name {name:?}"));
            }
        }
        let d = fs.get_data_stream_by_path_and_name(&path, None).map_err(err)?;
        if d.is_some() != (want && c.len() == 2) {
            return Err(format!("{c:?} has a data stream: {}", d.is_some()));
        }
        Ok(())
    };
    for a in &stems {
        for b in &tails {
            check(&["".into(), format!("{a}{b}")], cov)?;
        }
    }
    // Shapes of paths.
    let words = ["", "x", "1", &format!("{pre}1"), &format!("{pre}{n}"), &format!("{pre}{}", n + 1)];
    for k in 0..seq_count(words.len() as u64, 4) {
        let c: Vec<String> = seq_decode(words.len() as u64, k).iter().map(|d| words[*d as usize].to_string()).collect();
        check(&c, cov)?;
    }
    for o in [VfsType::Ext, VfsType::Fat, VfsType::Ntfs, VfsType::Os] {
        for c in [vec![""], vec!["", words[3]]] {
            let path = VfsPath::from_path_components(&o, &c);
            if fs.file_entry_exists(&path).is_ok() || fs.get_file_entry_by_path(&path).is_ok() {
                return Err(format!("a path of the type {o:?} is accepted"));
            }
        }
    }
    Ok(())
}

/// Components of each kind that a path takes.
fn components(t: &VfsType, s: &str) -> Vec<(PathComponent, bool)> {
    let string = PathComponent::String(s.into());
    let bytes = PathComponent::ByteString(ByteString::from(s));
    let ucs2 = PathComponent::Ucs2String(Ucs2String::from(s));
    match t {
        VfsType::Ext => vec![(string, true), (bytes, true), (ucs2, false)],
        VfsType::Fat => vec![(string, true), (bytes, true), (ucs2, true)],
        VfsType::Ntfs => vec![(string, true), (ucs2, true), (bytes, false)],
        _ => vec![(string, true), (bytes, false), (ucs2, false)],
    }
}

const PATH_TYPES: [VfsType; 14] = [VfsType::Apm, VfsType::Ext, VfsType::Ewf, VfsType::Fake, VfsType::Fat, VfsType::Gpt, VfsType::Mbr, VfsType::Ntfs, VfsType::Os, VfsType::Qcow, VfsType::SparseImage, VfsType::Udif, VfsType::Vhd, VfsType::Vhdx];

/// One path and all others with it.
fn paths(t: &VfsType, max: u32, cov: &mut Cov) -> Res {
    let os = *t == VfsType::Os;
    let sep = if *t == VfsType::Ntfs { "\\" } else { "/" };
    let words = ["a", "b.c", ".d", "A", "x y"];
    let make = |c: &[&str]| -> VfsPath {
        let mut v = vec![if os { "/" } else { "" }];
        v.extend(c);
        VfsPath::from_path_components(t, &v)
    };
    let mut all: Vec<(Vec<&str>, VfsPath)> = vec![];
    for k in 0..seq_count(words.len() as u64, max) {
        let c: Vec<&str> = seq_decode(words.len() as u64, k).iter().map(|d| words[*d as usize]).collect();
        all.push((c.clone(), make(&c)));
    }
    cov.distinct_states(all.len() as u64);
    for (c, p) in &all {
        cov.step();
        let text = format!("{sep}{}", c.join(sep));
        if p.to_string() != text {
            return Err(format!("{c:?} is written {:?}", p.to_string()));
        }
        if VfsPath::from_path(t, &text) != *p {
            return Err(format!("{text:?} is read as {:?}", VfsPath::from_path(t, &text)));
        }
        if VfsPath::from_path(t, &p.to_string()) != *p || hash_of(&VfsPath::from_path(t, &text)) != hash_of(p) {
            return Err(format!("{text:?} is not the same when written and read"));
        }
        // Joins of any two parts.
        for at in 0..=c.len() {
            let head = make(&c[..at]);
            let kinds = components(t, "").len();
            for k in 0..kinds {
                let parts: Vec<(PathComponent, bool)> = c[at..].iter().map(|x| components(t, x)[k].clone()).collect();
                let ok = parts.iter().all(|x| x.1);
                let parts: Vec<PathComponent> = parts.into_iter().map(|x| x.0).collect();
                match head.new_with_join(&parts) {
                    Ok(j) if !ok => return Err(format!("{:?} takes {parts:?}: {j:?}", head)),
                    // The kind of a string of a FAT path stays what it is.
                    Ok(j) if j.to_string() != text => return Err(format!("{at} of {c:?}: joined {j:?}")),
                    Ok(j) if j != *p && *t != VfsType::Fat => return Err(format!("{at} of {c:?}: joined {j:?} is another path")),
                    Err(e) if ok => return Err(format!("{at} of {c:?}: {}", err(e))),
                    _ => {}
                }
            }
        }
        // The parent and the file name.
        let parent = p.new_with_parent_directory();
        let n = c.len().saturating_sub(1);
        if parent != make(&c[..n]) {
            return Err(format!("the parent of {text:?} is {:?}", parent.to_string()));
        }
        let name = p.get_file_name();
        match (&name, c.last()) {
            (None, None) => {}
            (Some(x), Some(w)) if x.to_string() == *w => {
                let back = parent.new_with_join(&[x.clone()]).map_err(err)?;
                if back != *p {
                    return Err(format!("the parent and the name of {text:?} make {back:?}"));
                }
            }
            _ => return Err(format!("the name of {text:?} is {:?}", name.map(|x| x.to_string()))),
        }
        for (o, q) in &all {
            if (p == q) != (c == o) || (c == o && hash_of(p) != hash_of(q)) {
                return Err(format!("{c:?} and {o:?}: equality"));
            }
        }
    }
    if !os {
        if VfsPath::from_path(t, sep) != make(&[]) {
            return Err(format!("{sep:?} is {:?}", VfsPath::from_path(t, sep)));
        }
    }
    Ok(())
}

/// Extension and stem of a name.
fn extension(s: &str) -> (Option<String>, Option<String>) {
    let c: Vec<char> = s.chars().collect();
    match (1..c.len()).rev().find(|k| c[*k] == '.') {
        Some(k) => (Some(c[k + 1..].iter().collect()), Some(c[..k].iter().collect())),
        None if c.is_empty() => (None, None),
        None => (None, Some(s.to_string())),
    }
}

fn names(s: &str, cov: &mut Cov) -> Res {
    cov.step();
    let want = extension(s);
    let ascii = s.is_ascii();
    let mut kinds = vec![PathComponent::String(s.into()), PathComponent::Ucs2String(Ucs2String::from(s)), PathComponent::from(s), PathComponent::from(&s.to_string())];
    if ascii {
        kinds.push(PathComponent::ByteString(ByteString::from(s)));
    }
    for p in kinds {
        let got = (p.extension().map(|x| x.to_string()), p.file_stem().map(|x| x.to_string()));
        if got != want {
            return Err(format!("{p:?}: {got:?}, not {want:?}"));
        }
        if p.to_string() != s {
            return Err(format!("{p:?} is {:?}", p.to_string()));
        }
    }
    if s.is_empty() {
        return Ok(());
    }
    let n = NtfsPath::from(&vec!["", s]);
    let f = FatPath::from(&vec!["", s]);
    let mut got = vec![(n.extension().map(|x| x.to_string()), n.file_stem().map(|x| x.to_string())), (f.extension().map(|x| x.to_string()), f.file_stem().map(|x| x.to_string()))];
    if ascii {
        let e = ExtPath::from(&vec!["", s]);
        got.push((e.extension().map(|x| x.to_string()), e.file_stem().map(|x| x.to_string())));
    }
    for g in got {
        if g != want {
            return Err(format!("the path of {s:?}: {g:?}, not {want:?}"));
        }
    }
    Ok(())
}

/// A location as a list.
type Model = Vec<(VfsType, String)>;

fn locations(max: u32, cov: &mut Cov) -> Res {
    let types = [VfsType::Os, VfsType::Qcow, VfsType::Mbr, VfsType::Ntfs];
    let words = ["/", "/a", "/a/b"];
    let text = |t: &VfsType, w: &str| if *t == VfsType::Ntfs { w.replace('/', "\\") } else { w.to_string() };
    let mut all: Vec<(Model, VfsLocation)> = vec![];
    for t in &types {
        for w in words {
            all.push((vec![(t.clone(), text(t, w))], VfsLocation::new_base(t, VfsPath::from_path(t, &text(t, w)))));
        }
    }
    all.push((vec![(VfsType::Os, "/a".into())], new_os_vfs_location("/a")));
    let mut from = 0;
    for _ in 1..max {
        let to = all.len();
        for k in from..to {
            let (m, l) = all[k].clone();
            for t in &types[1..] {
                for w in words {
                    let mut n = m.clone();
                    n.push((t.clone(), text(t, w)));
                    all.push((n, l.new_with_layer(t, VfsPath::from_path(t, &text(t, w)))));
                }
            }
        }
        // The same with another path.
        for k in from..to {
            let (m, l) = all[k].clone();
            for w in words {
                let mut n = m.clone();
                let x = n.last_mut().unwrap();
                x.1 = text(&x.0, w);
                let p = VfsPath::from_path(&x.0, &x.1);
                all.push((n, l.new_with_parent(p)));
            }
        }
        from = to;
    }
    cov.distinct_states(all.len() as u64);
    for (m, l) in &all {
        cov.step();
        let (t, w) = m.last().unwrap();
        if l.get_type() != t || *l.get_path() != VfsPath::from_path(t, w) {
            return Err(format!("{m:?} has the type {:?} and the path {:?}", l.get_type(), l.get_path()));
        }
        // The parents, one by one.
        let mut x = l;
        for (t, w) in m[..m.len() - 1].iter().rev() {
            x = x.get_parent().ok_or(format!("{m:?} has too few parents"))?;
            if x.get_type() != t || *x.get_path() != VfsPath::from_path(t, w) {
                return Err(format!("{m:?} has another parent: {x:?}"));
            }
        }
        if x.get_parent().is_some() {
            return Err(format!("{m:?} has one parent more"));
        }
        // All layers are written, from the base on.
        let lines: Vec<String> = l.to_string().lines().filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let want: Vec<String> = m.iter().map(|(t, w)| format!("type: {}: path: {w}", t.as_str())).collect();
        if lines != want {
            return Err(format!("{m:?} is written {lines:?}"));
        }
    }
    for (m, l) in &all {
        for (n, o) in &all {
            cov.step();
            if (m == n) != (l == o) || (m == n && hash_of(l) != hash_of(o)) {
                return Err(format!("{m:?} and {n:?}: equality"));
            }
        }
    }
    Ok(())
}

/// What a location gives.
#[derive(Clone, PartialEq, Debug)]
enum Answer {
    Fails,
    Nothing,
    /// The name, the type, the number of sub entries (of entries that have them) and the content.
    Entry(String, u8, usize, Option<u64>),
}

fn content_of(d: &DataStreamReference) -> Result<u64, String> {
    let mut g = d.write().map_err(|_| "poisoned")?;
    let n = g.get_size().map_err(err)?;
    let mut b = vec![0u8; n.min(4096) as usize];
    g.read_at_position(&mut b, std::io::SeekFrom::Start(n.saturating_sub(4096))).map_err(err)?;
    let last = hash_of(&b);
    b.fill(0);
    g.read_at_position(&mut b, std::io::SeekFrom::Start(0)).map_err(err)?;
    Ok(hash_of(&(n, last, b)))
}

fn kind(t: &VfsFileType) -> u8 {
    match t {
        VfsFileType::File => 1,
        VfsFileType::Directory => 2,
        _ => 3,
    }
}

fn answer(c: &mut VfsContext, l: &VfsLocation) -> Result<(Answer, Option<VfsFileEntry>, Option<DataStreamReference>), String> {
    let Ok(e) = c.get_file_entry_by_location(l) else {
        if c.get_data_stream_by_path_and_name(l, None).is_ok() {
            return Err("a data stream, but no file entry".into());
        }
        return Ok((Answer::Fails, None, None));
    };
    let Some(mut e) = e else { return Ok((Answer::Nothing, None, None)) };
    let d = c.get_data_stream_by_path_and_name(l, None).map_err(err)?;
    let h = d.as_ref().map(content_of).transpose()?;
    let n = if *l.get_type() == VfsType::Os { 0 } else { e.get_number_of_sub_file_entries().map_err(err)? };
    let a = Answer::Entry(e.get_name().map(|x| x.to_string()).unwrap_or_default(), kind(&e.get_file_type()), n, h);
    Ok((a, Some(e), d))
}

/// Media that is both an ext file system and a disk with partitions, one of them with another file system.
fn twofold() -> Vec<u8> {
    let fs = file_systems();
    let mut d = fs[2].bytes();
    let at = d.len() / 512;
    let fat = fs[1].bytes();
    let second = at + fat.len() / 512;
    let ntfs = fs[3].bytes();
    let mbr = volume(&VfsType::Mbr, &[]);
    d[..512].copy_from_slice(&mbr[..512]);
    for (k, (a, n)) in [(at, fat.len() / 512), (second, ntfs.len() / 512)].into_iter().enumerate() {
        let e = &mut d[446 + 16 * k..446 + 16 * (k + 1)];
        e[4] = 0x83;
        e[8..12].copy_from_slice(&(a as u32).to_le_bytes());
        e[12..16].copy_from_slice(&(n as u32).to_le_bytes());
    }
    d.extend(fat);
    d.extend(ntfs);
    d
}

struct World {
    _scratch: Scratch,
    places: Vec<VfsLocation>,
    answers: Vec<Answer>,
}

/// Places in the file and in an image of it.
fn world() -> World {
    let s = Scratch::new("world");
    let media = twofold();
    let mut v = Raw.files(&media);
    let raw = s.put(&v);
    v = QcowChain.files(&media);
    let qcow = s.put(&v);
    let os = new_os_vfs_location(&raw);
    let layer = |l: &VfsLocation, t: VfsType, p: &str| {
        let p = VfsPath::from_path(&t, p);
        l.new_with_layer(&t, p)
    };
    let mbr1 = layer(&os, VfsType::Mbr, "/mbr1");
    let q = new_os_vfs_location(&qcow);
    let q1 = layer(&q, VfsType::Qcow, "/qcow1");
    let q2 = layer(&q, VfsType::Qcow, "/qcow2");
    let places = vec![
        layer(&os, VfsType::Ext, "/"),
        layer(&os, VfsType::Mbr, "/"),
        layer(&mbr1, VfsType::Fat, "/FILE.TXT"),
        layer(&layer(&os, VfsType::Mbr, "/mbr2"), VfsType::Ntfs, "\\"),
        layer(&os, VfsType::Ext, "/dir"),
        layer(&os, VfsType::Ntfs, "\\"),
        layer(&mbr1, VfsType::Ext, "/"),
        q1.clone(),
        q2.clone(),
        layer(&q2, VfsType::Ext, "/"),
        layer(&q1, VfsType::Ext, "/"),
        layer(&layer(&q2, VfsType::Mbr, "/mbr1"), VfsType::Fat, "/"),
        layer(&os, VfsType::Mbr, "/mbr9"),
        os.new_with_parent(VfsPath::from_path(&VfsType::Os, &s.path("missing"))),
        q.clone(),
    ];
    let answers = places.iter().map(|l| guarded(|| answer(&mut VfsContext::new(), l).map(|x| x.0)).unwrap_or_else(Err).unwrap_or_else(|m| panic!("{l:?}: {m}"))).collect();
    World { _scratch: s, places, answers }
}

/// A history: look at a place and keep or drop what it gives, drop all that is kept, take another context.
fn history(w: &World, ops: &[u64], cov: &mut Cov) -> Res {
    let n = w.places.len() as u64;
    let mut c = VfsContext::new();
    let mut kept: Vec<(usize, Option<VfsFileSystemReference>, Option<VfsFileEntry>, Option<DataStreamReference>)> = vec![];
    let still = |kept: &mut Vec<(usize, Option<VfsFileSystemReference>, Option<VfsFileEntry>, Option<DataStreamReference>)>| -> Res {
        for (k, fs, e, d) in kept.iter_mut() {
            let at = format!("what place {k} gave before");
            if let (Some(d), Answer::Entry(_, _, _, Some(h))) = (&d, &w.answers[*k]) {
                if content_of(d).map_err(|m| format!("{at}: {m}"))? != *h {
                    return Err(format!("{at} is another content"));
                }
            }
            if let (Some(e), Answer::Entry(name, t, _, _)) = (e.as_mut(), &w.answers[*k]) {
                if e.get_name().map(|x| x.to_string()).unwrap_or_default() != *name || kind(&e.get_file_type()) != *t {
                    return Err(format!("{at} is another entry"));
                }
            }
            if let (Some(fs), a) = (fs, &w.answers[*k]) {
                let x = fs.file_entry_exists(w.places[*k].get_path()).map_err(err)?;
                if x != matches!(a, Answer::Entry(..)) {
                    return Err(format!("{at} is another file system"));
                }
            }
        }
        Ok(())
    };
    for (at, op) in ops.iter().enumerate() {
        cov.step();
        if *op == 2 * n {
            still(&mut kept)?;
            kept.clear();
            continue;
        }
        if *op == 2 * n + 1 {
            c = VfsContext::new();
            still(&mut kept)?;
            continue;
        }
        let k = (*op % n) as usize;
        let keep = *op >= n;
        let fs = match c.open_file_system(&w.places[k]) {
            Ok(fs) => Some(fs),
            Err(e) if w.answers[k] != Answer::Fails => return Err(format!("operation {at}: place {k} cannot be opened: {}", err(e))),
            Err(_) => None,
        };
        let fs = if keep { fs } else { None };
        let (a, e, d) = answer(&mut c, &w.places[k]).map_err(|m| format!("operation {at}: place {k}: {m}"))?;
        if a != w.answers[k] {
            return Err(format!("operation {at}: place {k} gives {a:?}, not {:?}", w.answers[k]));
        }
        if keep {
            kept.push((k, fs, e, d));
        }
    }
    drop(c);
    still(&mut kept)
}

/// Files found by their path from a base in a file system.
fn resolve(f: &Fs, cov: &mut Cov) -> Res {
    let t = f.kind.clone().unwrap();
    let s = Scratch::new("resolve");
    let p = s.put(&vec![("image.raw".to_string(), f.media.as_ref().clone())]);
    let fs = open(&p, &t)?;
    let mut all = vec![];
    f.root.all(&[], &mut all);
    for (path, n) in &all {
        for at in 1..=path.len() {
            let base = vfs_path(&t, &path[..at]);
            for r in [Box::new(VfsFileResolver::new(&fs, base.clone())) as Box<dyn FileResolver>] {
                for k in 0..3 {
                    cov.step();
                    let parts: Vec<(PathComponent, bool)> = path[at..].iter().map(|x| components(&t, x)[k].clone()).collect();
                    let ok = parts.iter().all(|x| x.1);
                    let parts: Vec<PathComponent> = parts.into_iter().map(|x| x.0).collect();
                    // Names of bytes are short names in a FAT file system.
                    if t == VfsType::Fat && parts.iter().any(|x| matches!(x, PathComponent::ByteString(_)) && x.to_string().contains(' ')) {
                        continue;
                    }
                    let got = r.get_data_stream(&parts);
                    match got {
                        Ok(_) if !ok => return Err(format!("{parts:?} are accepted")),
                        Err(e) if ok => return Err(format!("{path:?} from {at}: {}", err(e))),
                        Err(_) => {}
                        Ok(Some(d)) if n.kind == NodeKind::File => content_is(&d, n.content.as_ref().unwrap(), cov).map_err(|m| format!("{path:?} from {at}: {m}"))?,
                        Ok(Some(_)) if n.kind == NodeKind::Dir => return Err(format!("{path:?} has a data stream")),
                        Ok(None) if n.kind == NodeKind::File => return Err(format!("{path:?} from {at} is not found")),
                        Ok(_) => {}
                    }
                }
            }
        }
        if n.kind == NodeKind::Dir {
            let r = new_vfs_file_resolver(&fs, vfs_path(&t, path)).map_err(err)?;
            if r.get_data_stream(&[PathComponent::from("missing")]).map_err(err)?.is_some() {
                return Err(format!("something missing in {path:?}"));
            }
        }
    }
    Ok(())
}

mod os {
    //! System calls that the standard library has no functions for.
    unsafe extern "C" {
        fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    }
    pub fn fifo(path: &std::path::Path) {
        use std::os::unix::ffi::OsStrExt;
        let p = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
        assert_eq!(unsafe { mkfifo(p.as_ptr(), 0o600) }, 0);
    }
}

fn os_entries(cov: &mut Cov) -> Res {
    let s = Scratch::new("os");
    let at = |n: &str| s.0.join(n);
    std::fs::write(at("file"), b"content").unwrap();
    std::fs::write(at("empty"), b"").unwrap();
    std::fs::create_dir(at("dir")).unwrap();
    std::fs::write(at("dir/in.side"), b"inside").unwrap();
    os::fifo(&at("fifo"));
    let _listener = std::os::unix::net::UnixListener::bind(at("socket")).unwrap();
    std::os::unix::fs::symlink("file", at("link")).unwrap();
    std::os::unix::fs::symlink("dir", at("link to dir")).unwrap();
    std::os::unix::fs::symlink("missing", at("dangling")).unwrap();
    let odd = std::ffi::OsStr::from_bytes(b"odd\xff\xfe");
    std::fs::write(s.0.join(odd), b"odd").unwrap();
    let cases: Vec<(PathBuf, Option<(VfsFileType, Option<&[u8]>)>)> = vec![
        (at("file"), Some((VfsFileType::File, Some(b"content")))),
        (at("empty"), Some((VfsFileType::File, Some(b"")))),
        (at("dir"), Some((VfsFileType::Directory, None))),
        (at("dir/in.side"), Some((VfsFileType::File, Some(b"inside")))),
        (at("fifo"), Some((VfsFileType::NamedPipe, None))),
        (at("socket"), Some((VfsFileType::Socket, None))),
        (at("link"), Some((VfsFileType::File, Some(b"content")))),
        (at("link to dir"), Some((VfsFileType::Directory, None))),
        (at("link to dir/in.side"), Some((VfsFileType::File, Some(b"inside")))),
        (at("dangling"), None),
        (at("missing"), None),
        (at("dir/missing"), None),
        (s.0.join(odd), Some((VfsFileType::File, Some(b"odd")))),
        (PathBuf::from("/dev/null"), Some((VfsFileType::CharacterDevice, None))),
    ];
    let mut c = VfsContext::new();
    for (p, want) in cases {
        cov.step();
        let path = VfsPath::Os(p.clone());
        let l = VfsLocation::new_base(&VfsType::Os, path.clone());
        let fs = c.open_file_system(&l).map_err(err)?;
        let e = c.get_file_entry_by_location(&l).map_err(|e| format!("{p:?}: {}", err(e)))?;
        if fs.file_entry_exists(&path).map_err(err)? != want.is_some() || e.is_some() != want.is_some() {
            return Err(format!("{p:?} exists or not"));
        }
        let (Some(e), Some((t, content))) = (e, want) else { continue };
        if e.get_file_type() != t {
            return Err(format!("{p:?} has another type"));
        }
        if e.get_name() != Some(VfsString::OsString(p.file_name().unwrap().to_os_string())) {
            return Err(format!("{p:?} has the name {:?}", e.get_name()));
        }
        let name = path.get_file_name().map(|x| x.to_string());
        if name.as_deref() != p.file_name().unwrap().to_str() {
            return Err(format!("the file name of {p:?} is {name:?}"));
        }
        for d in [e.get_data_stream().map_err(err)?, e.get_data_stream_by_name(None).map_err(err)?, c.get_data_stream_by_path_and_name(&l, None).map_err(err)?] {
            match (d, content) {
                (Some(d), Some(b)) => bytes_are(&d, b, cov).map_err(|m| format!("{p:?}: {m}"))?,
                (None, None) => {}
                (d, _) => return Err(format!("{p:?} has a data stream: {}", d.is_some())),
            }
        }
    }
    Ok(())
}

const SECONDS: [i64; 9] = [-(1 << 31), -1, 0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 33) + 5];
const NANOS: [u32; 4] = [0, 1, 999_999_999, 500_000_000];

/// Times of files of the operating system.
fn os_times(cov: &mut Cov) -> Res {
    let s = Scratch::new("times");
    let p = s.0.join("file");
    std::fs::write(&p, b"x").unwrap();
    let f = std::fs::OpenOptions::new().write(true).open(&p).unwrap();
    let of = |sec: i64, ns: u32| {
        let base = std::time::UNIX_EPOCH;
        let t = if sec < 0 { base - std::time::Duration::from_secs((-sec) as u64) } else { base + std::time::Duration::from_secs(sec as u64) };
        t + std::time::Duration::from_nanos(ns as u64)
    };
    let is = |d: Option<&DateTime>, sec: i64, ns: u32| -> bool {
        match d {
            Some(DateTime::PosixTime32(PosixTime32 { timestamp })) => *timestamp as i64 == sec && ns == 0,
            Some(DateTime::PosixTime64Ns(PosixTime64Ns { timestamp, fraction })) => *timestamp == sec && *fraction == ns,
            // Zero is taken for a time that is not set.
            Some(DateTime::NotSet) => sec == 0 && ns == 0,
            _ => false,
        }
    };
    for m in SECONDS {
        for mn in NANOS {
            for a in SECONDS {
                for an in NANOS {
                    cov.step();
                    f.set_times(std::fs::FileTimes::new().set_modified(of(m, mn)).set_accessed(of(a, an))).map_err(|e| e.to_string())?;
                    use std::os::unix::fs::MetadataExt;
                    let meta = std::fs::metadata(&p).map_err(|e| e.to_string())?;
                    // What the file system under the scratch directory can hold.
                    let (m, mn, a, an) = (meta.mtime(), meta.mtime_nsec() as u32, meta.atime(), meta.atime_nsec() as u32);
                    cov.outcome(&format!("seconds {m}"));
                    let l = new_os_vfs_location(p.to_str().unwrap());
                    let e = VfsContext::new().get_file_entry_by_location(&l).map_err(err)?.ok_or("no entry")?;
                    if !is(e.get_modification_time(), m, mn) {
                        return Err(format!("the modification time {m}.{mn:09} is {:?}", e.get_modification_time()));
                    }
                    if !is(e.get_access_time(), a, an) {
                        return Err(format!("the access time {a}.{an:09} is {:?}", e.get_access_time()));
                    }
                    if !is(e.get_change_time(), meta.ctime(), meta.ctime_nsec() as u32) {
                        return Err("the change time".into());
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn main() {
    let mut c = Check::new("C31");
    sweep();
    c.family("file systems", 6, |i, cov| {
        let f = &file_systems()[i as usize + 1];
        cov.trace();
        run(f.name, || {
            let s = Scratch::new("fs");
            let p = s.put(&vec![("image.raw".to_string(), f.media.as_ref().clone())]);
            let t = f.kind.clone().unwrap();
            let fs = open(&p, &t)?;
            tree_is(&fs, &t, &f.root, cov)?;
            let mut root = fs.get_root_file_entry().map_err(err)?.ok_or("no root")?;
            entry_is(&t, &mut root, &f.root, cov).map_err(|m| format!("the root: {m}"))?;
            times_are(f, &fs, cov)?;
            // Paths of other kinds.
            for o in [VfsType::Ext, VfsType::Fat, VfsType::Ntfs, VfsType::Os, VfsType::Qcow] {
                let p = VfsPath::from_path_components(&o, &[""]);
                if o != t && (fs.file_entry_exists(&p).is_ok() || fs.get_file_entry_by_path(&p).is_ok()) {
                    return Err(format!("a path of the type {o:?} is accepted"));
                }
            }
            Ok(())
        })
    });
    c.family("names of layers and partitions", WRAPS.len() as u64 - 1 + 9, |i, cov| {
        cov.trace();
        run(layered(i as usize).0, || names_of(i as usize, cov))
    });
    let max = c.pick(3, 4) as u32;
    c.family("paths", PATH_TYPES.len() as u64, |i, cov| {
        cov.trace();
        let t = &PATH_TYPES[i as usize];
        run(format!("{t:?}"), || paths(t, max, cov))
    });
    let chars = ['.', 'a', 'B', '\u{e9}', '\u{4e16}', ' '];
    let max = c.pick(6, 7) as u32;
    c.family("extensions", seq_count(6, max), |i, cov| {
        let s: String = seq_decode(6, i).iter().map(|d| chars[*d as usize]).collect();
        run(format!("{s:?}"), || names(&s, cov))
    });
    c.family("locations", 1, |_, cov| {
        cov.trace();
        run("locations", || locations(3, cov))
    });
    c.family("files from a base", 6, |i, cov| {
        let f = &file_systems()[i as usize + 1];
        cov.trace();
        run(f.name, || resolve(f, cov))
    });
    c.family("entries of the operating system", 1, |_, cov| run("entries", || os_entries(cov)));
    c.family("times of the operating system", 1, |_, cov| run("times", || os_times(cov)));
    let w = world();
    c.note("places", &format!("{:?}", w.answers));
    let n = 2 * w.places.len() as u64 + 2;
    let depth = c.pick(3, 4) as u32;
    c.family("contexts", seq_count(n, depth), |i, cov| {
        let ops = seq_decode(n, i);
        cov.trace();
        cov.distinct_states(1);
        run(format!("{ops:?}"), || history(&w, &ops, cov))
    });
    drop(w);
    c.finish()
}
