//! C36: keramicsinfo tells what a format holds, wherever in a file it starts.
use keramics_core::DataStream;
use keramics_core::mediator::Mediator;
use keramics_datetime::DateTime;
use keramics_encodings::CharacterEncoding;
use keramics_formats::ntfs::{NtfsAttribute, NtfsFileEntry};
use keramics_types::ByteString;
use keramics_vfs::*;
use mc_engine::util::{pattern, seq_count, seq_decode};
use mc_engine::{Check, Cov, Failure, guarded};
use mc_formats::Segs;
use mc_tools::*;
use mc_vfs::*;
use std::collections::HashMap;
use std::io::SeekFrom;

#[path = "/repo/keramics-tools/src/formatters.rs"]
#[allow(dead_code)]
mod formatters;
#[path = "/repo/keramics-tools/src/range_stream.rs"]
#[allow(dead_code)]
mod range_stream;
use formatters::format_as_bytesize;
use range_stream::FileRangeDataStream;

type Res = Result<(), String>;

fn run(key: String, f: impl FnOnce() -> Res) -> Result<(), Failure> {
    guarded(f).unwrap_or_else(Err).map_err(|m| Failure::new(&key, m))
}

fn one(media: Vec<u8>) -> Files {
    let mut s = Segs::default();
    s.size = media.len() as u64;
    s.put(0, media);
    vec![("image".into(), s)]
}

/// What is told, without what it looks like: "key: value" and lines of flags.
fn told(text: &str) -> Vec<String> {
    text.lines()
        .map(|l| match l.split_once("\t: ").or_else(|| l.trim_end().strip_suffix("\t:").map(|k| (k, ""))) {
            Some((k, v)) => format!("{}: {v}", k.trim()),
            None => l.trim().to_string(),
        })
        .filter(|l| !l.is_empty())
        .collect()
}

fn same(got: &[String], want: &[String]) -> Res {
    for i in 0..got.len().max(want.len()) {
        // Flags have a number and a text.
        let (g, w) = (got.get(i), want.get(i));
        let ok = match (g, w) {
            (Some(g), Some(w)) => match w.strip_prefix("flag ") {
                Some(f) => {
                    let (n, t) = f.split_once(' ').unwrap();
                    g.starts_with(n) && g.contains(t)
                }
                None => g == w,
            },
            _ => false,
        };
        if !ok {
            return Err(format!("line {i} is {g:?}, not {w:?}"));
        }
    }
    Ok(())
}

fn when(t: &DateTime) -> String {
    match t {
        DateTime::NotSet => "Not set (0)".into(),
        DateTime::FatDate(t) => t.to_iso8601_string(),
        DateTime::FatTimeDate(t) => t.to_iso8601_string(),
        DateTime::FatTimeDate10Ms(t) => t.to_iso8601_string(),
        DateTime::Filetime(t) => t.to_iso8601_string(),
        DateTime::PosixTime32(t) => t.to_iso8601_string(),
        DateTime::PosixTime64Ns(t) => t.to_iso8601_string(),
        _ => unreachable!(),
    }
}

/// A size as it is shown: in units from 1024 on.
fn sized(n: u64) -> String {
    if n < 1024 { format!("{n} bytes") } else { format!("{} ({n} bytes)", format_as_bytesize(n, 1024)) }
}

const ATTRIBUTES: [(u32, &str); 16] = [
    (0x1, "READ_ONLY"),
    (0x2, "HIDDEN"),
    (0x4, "SYSTEM"),
    (0x10, "DIRECTORY"),
    (0x20, "ARCHIVE"),
    (0x40, "DEVICE"),
    (0x80, "NORMAL"),
    (0x100, "TEMPORARY"),
    (0x200, "SPARSE"),
    (0x400, "REPARSE_POINT"),
    (0x800, "COMPRESSED"),
    (0x1000, "OFFLINE"),
    (0x2000, "NOT_CONTENT_INDEXED"),
    (0x4000, "ENCRYPTED"),
    (0x10000, "VIRTUAL"),
    (0x20000000, "UNKNOWN"),
];

fn attributes(flags: u32, digits: usize) -> impl Iterator<Item = String> {
    ATTRIBUTES.into_iter().filter(move |(m, _)| flags & m != 0 && (digits == 8 || *m < 0x100)).map(move |(m, t)| format!("flag 0x{m:0digits$x}: {t}"))
}

const COMPAT: [(u32, &str); 10] = [
    (0x1, "PREALLOC"),
    (0x2, "IMAGIC_INODES"),
    (0x4, "HAS_JOURNAL"),
    (0x8, "EXT_ATTR"),
    (0x10, "RESIZE_INO"),
    (0x20, "DIR_INDEX"),
    (0x200, "SPARSE_SUPER2"),
    (0x400, "FAST_COMMIT"),
    (0x800, "STABLE_INODES"),
    (0x1000, "ORPHAN_FILE"),
];
const INCOMPAT: [(u32, &str); 16] = [
    (0x1, "COMPRESSION"),
    (0x2, "FILETYPE"),
    (0x4, "RECOVER"),
    (0x8, "JOURNAL_DEV"),
    (0x10, "META_BG"),
    (0x40, "EXTENTS"),
    (0x80, "64BIT"),
    (0x100, "MMP"),
    (0x200, "FLEX_BG"),
    (0x400, "EA_INODE"),
    (0x1000, "DIRDATA"),
    (0x2000, "CSUM_SEED"),
    (0x4000, "LARGEDIR"),
    (0x8000, "INLINE_DATA"),
    (0x10000, "ENCRYPT"),
    (0x20000, "CASEFOLD"),
];
const RO_COMPAT: [(u32, &str); 17] = [
    (0x1, "SPARSE_SUPER"),
    (0x2, "LARGE_FILE"),
    (0x4, "BTREE_DIR"),
    (0x8, "HUGE_FILE"),
    (0x10, "GDT_CSUM"),
    (0x20, "DIR_NLINK"),
    (0x40, "EXTRA_ISIZE"),
    (0x80, "HAS_SNAPSHOT"),
    (0x100, "QUOTA"),
    (0x200, "BIGALLOC"),
    (0x400, "METADATA_CSUM"),
    (0x800, "REPLICA"),
    (0x1000, "READONLY"),
    (0x2000, "PROJECT"),
    (0x4000, "SHARED_BLOCKS"),
    (0x8000, "VERITY"),
    (0x10000, "ORPHAN_PRESENT"),
];

fn features(flags: u32, of: &[(u32, &str)]) -> Vec<String> {
    of.iter().filter(|(m, _)| flags & m != 0).map(|(m, t)| format!("flag 0x{m:08x}: {t}")).collect()
}

/// What should be told of an entry.
fn entry_lines(e: &mut VfsFileEntry, named: bool) -> Result<Vec<String>, String> {
    let mut v = vec![];
    let opt = |v: &mut Vec<String>, k: &str, t: Option<&DateTime>| v.extend(t.map(|t| format!("{k}: {}", when(t))));
    match e {
        VfsFileEntry::Fat(x) => {
            v.push("File Allocation Table (FAT) file entry information:".into());
            v.push(format!("Identifier: 0x{:08x}", x.identifier));
            v.extend(x.get_name().map(|n| format!("Name: {}", n.to_string())));
            v.push(format!("Size: {}", x.get_size()));
            opt(&mut v, "Modification time", x.get_modification_time());
            opt(&mut v, "Access time", x.get_access_time());
            opt(&mut v, "Creation time", x.get_creation_time());
            let f = x.get_file_attribute_flags() as u32;
            v.push(format!("File attribute flags: 0x{f:02x}"));
            v.extend(attributes(f, 4));
        }
        VfsFileEntry::Ext(x) => {
            v.push("Extended File System (ext) file entry information:".into());
            v.push(format!("Inode number: {}", x.inode_number));
            v.extend(x.get_name().filter(|_| named).map(|n| format!("Name: {}", n.to_string())));
            v.push(format!("Size: {}", x.get_size()));
            opt(&mut v, "Modification time", x.get_modification_time());
            opt(&mut v, "Access time", x.get_access_time());
            opt(&mut v, "Inode change time", x.get_change_time());
            opt(&mut v, "Creation time", x.get_creation_time());
            opt(&mut v, "Deletion time", Some(x.get_deletion_time()));
            v.push(format!("Number of links: {}", x.get_number_of_links()));
            v.push(format!("Owner identifier: {}", x.get_owner_identifier()));
            v.push(format!("Group identifier: {}", x.get_group_identifier()));
            let m = x.get_file_mode();
            let kind = match m >> 12 {
                1 => 'p',
                2 => 'c',
                4 => 'd',
                6 => 'b',
                10 => 'l',
                12 => 's',
                _ => '-',
            };
            let bits: String = (0..9).map(|k| if m & 0x100 >> k != 0 { ['r', 'w', 'x'][k % 3] } else { '-' }).collect();
            v.push(format!("File mode: {kind}{bits} (0o{m:o})"));
            v.extend(x.get_device_identifier().map_err(err)?.map(|d| format!("Device number: {},{}", d >> 8, d % 256)));
            v.extend(x.get_symbolic_link_target().map_err(err)?.map(|t| format!("Symbolic link target: {}", t.to_string())));
            if x.get_number_of_attributes().map_err(err)? > 0 {
                v.push("Extended attributes:".into());
            }
        }
        VfsFileEntry::Ntfs(x) => {
            v.push("New Technologies File System (NTFS) file entry information:".into());
            let r = x.get_file_reference();
            v.push(format!("File reference: {}-{}", r % (1 << 48), r >> 48));
            v.extend(x.get_name().map(|n| format!("Name: {}", n.to_string())));
            v.push(format!("Size: {} bytes", x.get_size()));
            opt(&mut v, "Creation time", x.get_creation_time());
            opt(&mut v, "Modification time", x.get_modification_time());
            opt(&mut v, "Access time", x.get_access_time());
            opt(&mut v, "Entry modification time", x.get_change_time());
            let f = x.get_file_attribute_flags();
            v.push(format!("File attribute flags: 0x{f:08x}"));
            v.extend(attributes(f, 8));
        }
        _ => return Err("another kind of file system".into()),
    }
    Ok(v)
}

const TYPES: [(u32, &str); 16] = [
    (0x10, "$STANDARD_INFORMATION"),
    (0x20, "$ATTRIBUTE_LIST"),
    (0x30, "$FILE_NAME"),
    (0x40, "$OBJECT_ID"),
    (0x50, "$SECURITY_DESCRIPTOR"),
    (0x60, "$VOLUME_NAME"),
    (0x70, "$VOLUME_INFORMATION"),
    (0x80, "$DATA"),
    (0x90, "$INDEX_ROOT"),
    (0xa0, "$INDEX_ALLOCATION"),
    (0xb0, "$BITMAP"),
    (0xc0, "$REPARSE_POINT"),
    (0xd0, "$EA_INFORMATION"),
    (0xe0, "$EA"),
    (0xf0, "$PROPERTY_SET"),
    (0x100, "$LOGGED_UTILITY_STREAM"),
];

fn attribute_type(t: u32) -> String {
    TYPES.iter().find(|x| x.0 == t).map_or(format!("0x{t:08x}"), |x| format!("{} (0x{t:08x})", x.1))
}

fn reference(r: u64) -> String {
    if r == 0 { "Not set (0)".into() } else { format!("{}-{}", r % (1 << 48), r >> 48) }
}

/// What should be told of an entry of the MFT.
fn mft_lines(n: u64, x: &NtfsFileEntry) -> Result<Vec<String>, String> {
    let mut v = vec![format!("New Technologies File System (NTFS) MFT entry: {n} information:")];
    if x.is_empty() {
        v.push("Is empty".into());
        return Ok(v);
    }
    v.push(format!("Is allocated: {}", x.is_allocated()));
    v.push(format!("File reference: {}-{}", x.mft_entry_number, x.sequence_number));
    v.push(format!("Base record file reference: {}", reference(x.get_base_record_file_reference())));
    v.push(format!("Journal sequence number: {}", x.get_journal_sequence_number()));
    let times = |v: &mut Vec<String>, t: [&DateTime; 4], f: u32| {
        for (k, t) in ["Creation", "Modification", "Access", "Entry modification"].iter().zip(t) {
            v.push(format!("{k} time: {}", when(t)));
        }
        v.push(format!("File attribute flags: 0x{f:08x}"));
        v.extend(attributes(f, 8));
    };
    for k in 0..x.get_number_of_attributes() {
        let a = x.get_attribute_by_index(k).map_err(err)?;
        let t = a.get_attribute_type();
        v.push(format!("Attribute: {}", attribute_type(t)));
        match &a {
            NtfsAttribute::AttributeList { attribute_list: l } => {
                v.push(format!("Number of entries: {}", l.entries.len()));
                for (k, e) in l.entries.iter().enumerate() {
                    v.push(format!("Entry: {}: {} with file reference: {}-{}", k + 1, attribute_type(e.attribute_type), e.file_reference % (1 << 48), e.file_reference >> 48));
                }
            }
            NtfsAttribute::FileName { file_name: f } => {
                let s = ["POSIX", "Windows", "DOS", "DOS and Windows"].get(f.name_space as usize).map_or(format!("{}", f.name_space), |s| format!("{s} ({})", f.name_space));
                v.push(format!("Name space: {s}"));
                v.push(format!("Name: {}", f.name.to_string()));
                v.push(format!("Parent file reference: {}", reference(f.parent_file_reference)));
                times(&mut v, [&f.creation_time, &f.modification_time, &f.access_time, &f.entry_modification_time], f.file_attribute_flags);
            }
            NtfsAttribute::Generic { mft_attribute: m } => {
                v.extend(m.name.as_ref().map(|n| format!("Attribute name: {}", n.to_string())));
                v.push(format!("Data size: {}", sized(m.data_size)));
                if t == 0x80 {
                    v.push(format!("Data flags: 0x{:04x}", m.data_flags));
                }
                if !m.data_cluster_groups.is_empty() {
                    v.push(format!("VCNs: [{}]", m.data_cluster_groups.iter().map(|g| format!("{}-{}", g.first_vcn, g.last_vcn)).collect::<Vec<_>>().join(", ")));
                }
            }
            NtfsAttribute::ReparsePoint { reparse_point: r } => v.push(format!("Reparse tag: 0x{:08x}", r.get_reparse_tag())),
            NtfsAttribute::StandardInformation { standard_information: s } => times(&mut v, [&s.creation_time, &s.modification_time, &s.access_time, &s.entry_modification_time], s.file_attribute_flags),
            NtfsAttribute::VolumeInformation { volume_information: i } => {
                v.push(format!("Format version: {}.{}", i.major_format_version, i.minor_format_version));
                v.push(format!("Volume flags: 0x{:04x}", i.volume_flags));
            }
            NtfsAttribute::VolumeName { volume_name } => v.push(format!("Volume name: {}", volume_name.to_string())),
        }
    }
    Ok(v)
}

/// Everything about a file system: the hierarchy, each entry by its path and by its identifier.
fn file_system(media: Segs, root: Option<&Node>, every: usize, cov: &mut Cov) -> Res {
    let s = Scratch::new("info");
    let size = media.size;
    let p = s.put(&vec![("image".into(), media)]);
    let l = leaves(&p)?.1;
    if l.len() != 1 {
        return Err(format!("{} file systems", l.len()));
    }
    let fs = VfsResolver::current().open_file_system(&l[0]).map_err(err)?;
    let mut lines: Vec<String> = vec![];
    let mut known = HashMap::new();
    let mut n = 0;
    for x in VfsFinder::new(&fs) {
        let (mut e, path) = x.map_err(err)?;
        let names: Vec<String> = path.iter().map(|n| n.to_string()).collect();
        let at = if names.len() == 1 { "/".into() } else { names.join("/") };
        match &e {
            VfsFileEntry::Ntfs(x) => {
                for k in 0..x.get_number_of_data_forks().map_err(err)? {
                    let f = x.get_data_fork_by_index(k).map_err(err)?;
                    lines.push(f.get_name().map_or(at.clone(), |n| format!("{at}:{}", n.to_string())));
                }
            }
            _ => lines.push(at.clone()),
        }
        let id = match &e {
            VfsFileEntry::Ext(x) => x.inode_number as u64,
            VfsFileEntry::Fat(x) => x.identifier as u64,
            VfsFileEntry::Ntfs(x) => x.mft_entry_number,
            _ => unreachable!(),
        };
        let bare = entry_lines(&mut e, false)?;
        known.insert(id, bare);
        n += 1;
        if n % every != 0 && !at.is_empty() {
            continue;
        }
        // Names that are shown other than they are can not be given.
        if names[1..].iter().any(|x| x.is_empty() || x.contains(['/', '\\', '\u{fffd}', '\0', '\n', '\r', '\t'])) {
            continue;
        }
        let o = run_tool("keramicsinfo", &[&p, "path", "--", &at], &[])?.text().map_err(|m| format!("path {at:?}: {m}"))?;
        same(&told(&o), &entry_lines(&mut e, true)?).map_err(|m| format!("path {at:?}: {m}"))?;
        cov.step();
    }
    // What the image was made of.
    if let Some(root) = root {
        let mut all = vec![];
        root.all(&[], &mut all);
        let ntfs = matches!(&*fs, VfsFileSystem::Ntfs(_));
        let mut want = vec![];
        for (path, node) in all {
            let at = if path.len() == 1 { "/".to_string() } else { path.join("/") };
            if !ntfs || node.content.is_some() {
                want.push(at.clone());
            }
            want.extend(node.streams.iter().map(|s| format!("{at}:{}", s.0)));
        }
        same_lines(&lines.join("\n"), &want).map_err(|m| format!("library: {m}"))?;
    }
    let o = run_tool("keramicsinfo", &[&p, "hierarchy"], &[])?.text()?;
    let (title, rest) = o.split_once('\n').unwrap_or((&o, ""));
    let want = match &*fs {
        VfsFileSystem::Ext(_) => "Extended File System (ext) hierarchy:",
        VfsFileSystem::Fat(_) => "File Allocation Table (FAT) hierarchy:",
        _ => "New Technologies File System (NTFS) hierarchy:",
    };
    if title != want {
        return Err(format!("{title:?}, not {want:?}"));
    }
    let shown: Vec<String> = lines.clone();
    if rest.split_terminator('\n').count() == shown.len() || shown.iter().all(|l| !l.contains(['\n', '\r'])) {
        same_lines(rest, &shown)?;
    }
    cov.steps(lines.len() as u64);
    // Entries by identifier.
    let mut ids: Vec<u64> = known.keys().copied().collect();
    ids.sort();
    let top = ids.last().copied().unwrap_or(0);
    match &*fs {
        VfsFileSystem::Fat(_) => ids.extend([0, 1, 31, 511, size - 32, size - 1, size, size + 1, u32::MAX as u64, 1 << 32, u64::MAX]),
        _ => ids.extend((0..(top + 40).min(100)).chain([u32::MAX as u64 - 1, u32::MAX as u64, 1 << 32, (1 << 32) + top, u64::MAX])),
    }
    ids.sort();
    ids.dedup();
    for id in ids.iter().step_by(every) {
        let text = if id % 2 == 0 { format!("{id}") } else { format!("0x{id:x}") };
        let o = run_tool("keramicsinfo", &[&p, "entry", &text], &[])?;
        cov.step();
        let e = |m: String| format!("entry {id}: {m}");
        let again = match &*fs {
            VfsFileSystem::Ntfs(x) if *id < 1 << 32 => Some(x.get_file_entry_by_identifier(*id).map_err(err).and_then(|x| mft_lines(*id, &x))),
            VfsFileSystem::Ntfs(_) => Some(Err("out of bounds".into())),
            VfsFileSystem::Ext(_) => known.get(id).map(|x| Ok(x.clone())),
            VfsFileSystem::Fat(_) => known.get(id).map(|x| Ok(x.iter().filter(|l| !l.starts_with("Name: ")).cloned().collect())),
            _ => unreachable!(),
        };
        cov.outcome(&(o.code, again.is_some()));
        let lines: Vec<String> = told(&o.out).into_iter().filter(|l| !(l.starts_with("Name: ") && matches!(&*fs, VfsFileSystem::Fat(_)))).collect();
        match again {
            Some(Ok(want)) if o.code == 0 => same(&lines, &want).map_err(e)?,
            Some(Ok(_)) => return Err(e(format!("exit code {}: {}", o.code, short(&o.out)))),
            Some(Err(_)) | None if o.code == 1 && o.out.contains("Unable to provide information about") => {}
            Some(Err(m)) => return Err(e(format!("exit code {}, while the library says {m}", o.code))),
            // Not one that is listed.
            None if o.code == 0 && *id < 1 << 32 => {}
            None => return Err(e(format!("exit code {}: {} {}", o.code, short(&o.out), short(&o.err)))),
        }
    }
    // What is not there.
    for at in ["", "nope", "/nope", "//", "/nope/x", "/."] {
        let o = run_tool("keramicsinfo", &[&p, "path", "--", at], &[])?;
        cov.step();
        if o.code != 1 && !(at == "/." && o.code == 0) {
            return Err(format!("path {at:?}: exit code {}: {}", o.code, short(&o.out)));
        }
    }
    Ok(())
}

/// What a format tells of itself.
fn format_lines(w: Wrap, d: &Disk, p: &str) -> Result<Vec<String>, String> {
    let media = d.media();
    let n = media.len() as u64;
    let stream = || keramics_core::open_os_data_stream(&p.into()).map_err(err);
    let size = format!("Media size: {}", sized(n));
    let chain = matches!(w, VhdChain | VhdxChain);
    Ok(match w {
        Ewf | EwfSplit => vec!["Expert Witness Compression Format (EWF) information:".into(), "Sectors per chunk: 64".into(), format!("Number of sectors: {}", n / 512), "Bytes per sector: 512".into(), size],
        Qcow1 | Qcow2 | Qcow3 | QcowChain => {
            let v = match w {
                Qcow1 => 1,
                Qcow3 => 3,
                _ => 2,
            };
            let mut l = vec!["QEMU Copy-On-Write (QCOW) information:".into(), format!("Format version: {v}"), size, "Compression method: zlib".into(), "Encryption method: None".into()];
            if w == QcowChain {
                l.push("Backing file name: base.qcow2".into());
            }
            l
        }
        Sparse => vec!["Sparse image (.sparseimage) information:".into(), size, "Bytes per sector: 512 bytes".into()],
        Udif => vec!["Universal Disk Image Format (UDIF) information:".into(), size, "Bytes per sector: 512 bytes".into()],
        VhdFixed | Vhd | VhdChain => {
            let t = ["Fixed", "Dynamic", "Differential"][if w == VhdFixed { 0 } else { 1 + chain as usize }];
            let mut f = keramics_formats::vhd::VhdFile::new();
            f.read_data_stream(&stream()?).map_err(err)?;
            let mut l = vec!["Virtual Hard Disk (VHD) information:".into(), "Format version: 1.0".into(), format!("Disk type: {t}"), size, "Bytes per sector: 512 bytes".into(), format!("Identifier: {}", f.identifier.to_string())];
            if chain {
                l.push(format!("Parent identifier: {}", f.parent_identifier.as_ref().unwrap().to_string()));
                l.push(format!("Parent name: {}", f.parent_name.as_ref().unwrap().to_string()));
            }
            l
        }
        Vhdx | VhdxChain => {
            let mut f = keramics_formats::vhdx::VhdxFile::new();
            f.read_data_stream(&stream()?).map_err(err)?;
            let mut l = vec!["Virtual Hard Disk (VHDX) information:".into(), "Format version: 2.1".into(), format!("Disk type: {}", ["Dynamic", "Differential"][chain as usize]), size, format!("Identifier: {}", f.identifier.to_string())];
            if chain {
                l.push(format!("Parent identifier: {}", f.parent_identifier.as_ref().unwrap().to_string()));
                l.push(format!("Parent name: {}", f.parent_name.as_ref().unwrap().to_string()));
            }
            l
        }
        Raw => match d {
            Parts(t, k) => {
                let title = match t {
                    VfsType::Mbr => "Master Boot Record (MBR) information:",
                    VfsType::Gpt => "GUID Partition Table (GPT) information:",
                    _ => "Apple Partition Map (APM) information:",
                };
                let mut l = vec![title.to_string(), "Bytes per sector: 512 bytes".into(), format!("Number of partitions: {}", k.len())];
                for (i, k) in k.iter().enumerate() {
                    let b = file_systems()[*k].bytes();
                    let at = media.windows(b.len()).step_by(512).position(|x| x == b);
                    l.push(format!("Partition: {}", i + 1));
                    // Offsets of contents that are there once.
                    if let Some(at) = at.map(|x| x * 512).filter(|at| media[at + 512..].windows(b.len()).step_by(512).all(|x| x != b)) {
                        l.push(format!("Offset: {at} (0x{at:08x})"));
                    }
                    l.push(format!("Size: {}", sized(b.len() as u64)));
                    if *t == VfsType::Gpt {
                        l.push(format!("Identifier: {}", gpt_identifier(i)));
                    }
                }
                l
            }
            Bare(k) => match &file_systems()[*k].kind {
                Some(VfsType::Fat { .. }) => vec!["File Allocation Table (FAT) information:".into()],
                Some(VfsType::Ntfs) => vec!["New Technologies File System (NTFS) information:".into(), "Bytes per sector: 512 bytes".into()],
                Some(VfsType::Ext { .. }) => {
                    let g = |at: usize| u32::from_le_bytes(media[at..at + 4].try_into().unwrap());
                    vec!["Extended File System (ext) information:".into(), format!("Compatible features: 0x{:08x}", g(1116)), format!("Incompatible features: 0x{:08x}", g(1120)), format!("Read-only compatible features: 0x{:08x}", g(1124)), format!("Number of inodes: {}", g(1024))]
                }
                _ => vec![],
            },
        },
    })
}

/// What is told of an image, from everywhere in a file.
fn format(w: Wrap, d: &Disk, offsets: &[usize], cov: &mut Cov) -> Res {
    let s = Scratch::new("format");
    let f = w.files(&d.media());
    let p = s.put(&f);
    // What has a signature of its own at the start of a fixed VHD image is told of instead, and is too much for UDIF.
    let plain = !matches!(d, Bare(k) if file_systems()[*k].kind.is_none()) && !matches!(d, Parts(VfsType::Mbr, _));
    let want = if w == VhdFixed && plain { format_lines(Raw, d, &p)? } else { format_lines(w, d, &p)? };
    let w = if w == VhdFixed && plain { Raw } else { w };
    let o = run_tool("keramicsinfo", &[&p], &[])?;
    cov.step();
    // A partition table that happens to be where that of a disk of larger sectors is.
    if matches!(w, Vhd | VhdChain) && [512, 1024, 2048, 4096].iter().any(|at| bytes_of(&f[0].1)[*at..].starts_with(b"EFI PART")) {
        return Ok(());
    }
    if w == Udif && o.code == 1 && o.out.contains("multiple known format signatures") && plain {
        return Ok(());
    }
    if want.is_empty() {
        return if o.code == 1 && o.out == "No known format signatures found\n" { Ok(()) } else { Err(format!("exit code {}: {}", o.code, short(&o.out))) };
    }
    let out = o.text()?;
    let l = told(&out);
    // In the order in which they are told.
    let mut rest = &l[..];
    if l[0] != want[0] {
        return Err(format!("{:?}, not {:?}", l[0], want[0]));
    }
    let partitions = want.iter().filter(|x| x.starts_with("Partition: ")).count();
    for x in &want {
        if matches!(w, Raw) && partitions > 0 {
            if let Some(at) = rest.iter().position(|y| y == x || y.replace(" bytes", "") == x.replace(" bytes", "")) {
                // Identifiers are before offsets.
                if !x.starts_with("Identifier") && !x.starts_with("Size") && !x.starts_with("Offset") {
                    rest = &rest[at + 1..];
                }
                continue;
            }
        } else if l.contains(x) {
            continue;
        }
        return Err(format!("{x:?} is not in {l:?}"));
    }
    let shown = l.iter().filter(|x| x.starts_with("Partition: ")).count();
    if shown != partitions {
        return Err(format!("{shown} partitions, not {partitions}"));
    }
    if l.iter().any(|x| x.starts_with("Backing file name") || x.starts_with("Parent ")) != matches!(w, QcowChain | VhdChain | VhdxChain) {
        return Err(format!("a parent in {l:?}"));
    }
    if matches!(w, Ewf | EwfSplit) {
        // These are found by their names.
        return Ok(());
    }
    for at in offsets {
        let mut b = vec![0xaa; *at];
        b.extend(bytes_of(&f[0].1));
        let p = s.put(&vec![("inside".into(), one(b).pop().unwrap().1)]);
        for text in [format!("{at}"), format!("0x{at:x}")] {
            let o = run_tool("keramicsinfo", &["--offset", &text, &p], &[])?.text().map_err(|m| format!("offset {text}: {m}"))?;
            cov.step();
            if o != out {
                return Err(format!("offset {text}: {} instead of {}", short(&o), short(&out)));
            }
        }
    }
    cov.distinct_states(1 + offsets.len() as u64);
    Ok(())
}

/// Damaged: whatever is told, it ends.
fn ends(p: &str, args: &[&str], cov: &mut Cov) -> Result<Out, String> {
    let mut a = vec![p];
    a.extend(args);
    let o = run_tool("keramicsinfo", &a, &[])?;
    cov.step();
    cov.outcome(&(o.code, o.out.contains("Unable to")));
    if o.code > 1 || o.code < 0 {
        return Err(format!("{args:?}: exit code {}: {} {}", o.code, short(&o.out), short(&o.err)));
    }
    if o.code == 1 && !o.out.contains("Unable to ") && !o.out.contains("No known format") {
        return Err(format!("{args:?}: no reason is told: {}", short(&o.out)));
    }
    Ok(o)
}

/// Operations of a range of a file.
fn range(size: usize, offset: u64, ops: &[u64], path: &str, cov: &mut Cov) -> Res {
    let data = pattern(size, 3);
    let mut s = FileRangeDataStream::new(offset);
    let r = s.open(path);
    if offset >= size as u64 {
        return if r.is_err() { Ok(()) } else { Err("a range outside of the file".into()) };
    }
    r.map_err(err)?;
    let d = &data[offset as usize..];
    let n = d.len() as i64;
    let mut at = 0i64;
    for op in ops {
        cov.step();
        let seek = |from: SeekFrom, to: i64, at: &mut i64, s: &mut FileRangeDataStream| -> Res {
            match s.seek(from) {
                // Nothing is read before the start.
                Ok(x) if x == to as u64 => *at = to,
                Err(_) if to < 0 => {}
                x => return Err(format!("{from:?} at {at}: {:?}, not {to}", x.map_err(err))),
            }
            Ok(())
        };
        match op {
            0..5 => {
                let mut b = vec![0x55u8; [0, 1, 2, 3, 100][*op as usize]];
                let k = s.read(&mut b).map_err(err)?;
                let have = if at < 0 { 0 } else { (n - at).clamp(0, b.len() as i64) as usize };
                if k > have || (k == 0 && have > 0) || (have > 0 && b[..k] != d[at as usize..at as usize + k]) || b[k..].iter().any(|x| *x != 0x55) {
                    return Err(format!("read of {} at {at}: {k} bytes {:?}", b.len(), &b[..k.min(8)]));
                }
                at += k as i64;
            }
            5..9 => {
                let to = [0, 1, n, n + 1][*op as usize - 5];
                seek(SeekFrom::Start(to as u64), to, &mut at, &mut s)?
            }
            9..12 => {
                let by = [-1, 0, 2][*op as usize - 9];
                let to = at + by;
                seek(SeekFrom::Current(by), to, &mut at, &mut s)?
            }
            12..16 => {
                let by = [-n - 1, -n, -1, 1][*op as usize - 12];
                seek(SeekFrom::End(by), n + by, &mut at, &mut s)?
            }
            _ => {
                let x = s.get_size().map_err(err)?;
                if x != n as u64 {
                    return Err(format!("a size of {x}, not {n}"));
                }
            }
        }
    }
    Ok(())
}

pub fn main() {
    let mut c = Check::new("C36");
    sweep();
    Mediator { debug_output: false }.make_current();
    let d = disks(c.pick(5, 6));
    let n = d.len() as u64;
    let offsets: &[usize] = c.pick(&[512, 4096], &[1, 511, 512, 513, 1024, 4096, 32768, 65536, 65537]);
    c.family("formats", n * WRAPS.len() as u64, |i, cov| {
        let (w, d) = (WRAPS[(i / n) as usize], &d[(i % n) as usize]);
        cov.trace();
        let few = [offsets[i as usize % offsets.len()]];
        run(format!("{w:?} {d:?}"), || format(w, d, if matches!(d, Bare(_)) { offsets } else { &few }, cov))
    });
    c.family("file systems", file_systems().len() as u64, |i, cov| {
        let f = &file_systems()[i as usize];
        cov.trace();
        if f.kind.is_none() {
            return Ok(());
        }
        run(f.name.to_string(), || file_system(f.media.as_ref().clone(), Some(&f.root), 1, cov))
    });
    // Flags.
    c.family("attributes of FAT", 16, |i, cov| {
        cov.trace();
        cov.distinct_states(16);
        run(format!("{i}"), || {
            // Not that of labels.
            let items: Vec<_> = (0..16).map(|k| ((i * 16 + k) as u8 & !0x18, [1, 2, 3, 4, 5, 6, 7], [0; 4])).collect();
            file_system(made::fat_flagged(&items), None, 1, cov)
        })
    });
    let bits: Vec<u32> = (0..32).map(|k| 1 << k).chain([0, 3, 0x21, 0xffff_ffff, 0x8000_0001, 0x2000_0020]).collect();
    c.family("attributes of NTFS", bits.len() as u64, |i, cov| {
        cov.trace();
        let b = bits[i as usize];
        run(format!("{b:x}"), || {
            let e = 116444736000000000u64;
            // Compressed and encrypted ones are others.
            let items: Vec<_> = [0u32, 1].iter().map(|k| (b ^ k, [e, e + 1, 0, u64::MAX])).collect();
            file_system(made::ntfs_flagged(&items), None, 1, cov)
        })
    });
    let modes: Vec<u16> = c.pick((0..512).step_by(7).chain([511]).collect(), (0..512).chain((512..4096).step_by(73)).chain([4095]).collect());
    let per = 8;
    let groups = modes.len().div_ceil(per) as u64;
    c.family("modes of ext", 16 * groups, |i, cov| {
        let (kind, b) = ((i / groups) as u16, &modes[(i % groups) as usize * per..][..per.min(modes.len() - (i % groups) as usize * per)]);
        cov.trace();
        cov.distinct_states(per as u64);
        if ![1, 2, 4, 6, 8, 10, 12].contains(&kind) {
            return Ok(());
        }
        run(format!("{kind} {}", b[0]), || {
            let items: Vec<_> = b.iter().map(|b| (kind << 12 | b, [(*b as i32).wrapping_mul(1_000_003), -(*b as i32), 3, 0], [4u32, 0xffff_ffff, 0, 0, 1])).collect();
            file_system(made::ext_modes(&items), None, 1, cov)
        })
    });
    // Features: each bit of the three sets.
    let ext: Vec<usize> = (0..file_systems().len()).filter(|k| matches!(file_systems()[*k].kind, Some(VfsType::Ext { .. }))).collect();
    c.family("features of ext", ext.len() as u64 * 96, |i, cov| {
        let (k, set, bit) = (ext[i as usize / 96], i as usize % 96 / 32, i as usize % 32);
        cov.trace();
        cov.distinct_states(1);
        run(format!("{} {set} {bit}", file_systems()[k].name), || {
            let mut b = file_systems()[k].bytes();
            let at = 1116 + 4 * set;
            b[at + bit / 8] ^= 1 << (bit % 8);
            let g = |at: usize| u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
            let f = [g(1116), g(1120), g(1124)];
            let s = Scratch::new("features");
            let p = s.put(&one(b));
            let o = ends(&p, &[], cov)?;
            if o.code == 1 {
                return Ok(());
            }
            let l = told(&o.out);
            let mut want = vec![];
            for (f, (n, t)) in f.iter().zip([("Compatible features", &COMPAT[..]), ("Incompatible features", &INCOMPAT), ("Read-only compatible features", &RO_COMPAT)]) {
                want.push(format!("{n}: 0x{f:08x}"));
                want.extend(features(*f, t));
            }
            let at = l.iter().position(|x| *x == want[0]).ok_or_else(|| format!("no {:?} in {l:?}", want[0]))?;
            let end = l.iter().position(|x| x.starts_with("Number of inodes")).ok_or("no number of inodes")?;
            same(&l[at..end], &want)
        })
    });
    // Names, in each encoding.
    let encodings = [
        ("ascii", CharacterEncoding::Ascii),
        ("iso8859-1", CharacterEncoding::Iso8859_1),
        ("iso8859-5", CharacterEncoding::Iso8859_5),
        ("iso8859-15", CharacterEncoding::Iso8859_15),
        ("utf8", CharacterEncoding::Utf8),
    ];
    let names: Vec<Vec<u8>> = (1..=255u8).filter(|b| !b"/\\.\n\r\t".contains(b)).map(|b| vec![b'a', b]).chain([vec![0xc3, 0xa9], vec![0xe2, 0x82, 0xac], vec![0xed, 0xa0, 0x80], vec![0xff; 3]]).collect();
    c.family("names of ext", encodings.len() as u64 + 1, |i, cov| {
        cov.trace();
        let e = encodings.get(i as usize);
        run(format!("{:?}", e.map(|e| e.0)), || {
            for names in names.chunks(24) {
                let s = Scratch::new("names");
                let p = s.put(&vec![("image".into(), made::ext_named(b"dir", names))]);
                let mut args: Vec<&str> = e.map_or(vec![], |e| vec!["--encoding", e.0]);
                args.extend([p.as_str(), "hierarchy"]);
                let o = run_tool("keramicsinfo", &args, &[])?.text()?;
                cov.steps(names.len() as u64);
                for n in names {
                    let mut b = ByteString::new();
                    b.encoding = e.map_or(CharacterEncoding::Utf8, |e| e.1.clone());
                    b.elements = n.clone();
                    let t = b.to_string();
                    if !o.split('\n').any(|l| l.strip_suffix(t.as_str()).is_some_and(|x| x.ends_with('/'))) {
                        return Err(format!("{t:?} ({n:x?}) is not in {}", short(&o)));
                    }
                }
            }
            Ok(())
        })
    });
    // Damage.
    let step = c.pick(4096, 1024);
    let kinds: Vec<usize> = (0..5).filter(|k| file_systems()[*k].kind.is_some()).collect();
    let counts: Vec<u64> = kinds.iter().map(|k| file_systems()[*k].bytes().len() as u64 / step as u64).collect();
    c.family("cut", counts.iter().sum(), |i, cov| {
        let (mut k, mut at) = (0, i);
        while at >= counts[k] {
            at -= counts[k];
            k += 1;
        }
        cov.trace();
        cov.distinct_states(1);
        run(format!("{} {}", file_systems()[kinds[k]].name, at * step as u64), || {
            let mut b = file_systems()[kinds[k]].bytes();
            b.truncate(at as usize * step);
            let s = Scratch::new("cut");
            let p = s.put(&one(b));
            ends(&p, &[], cov)?;
            let o = ends(&p, &["hierarchy"], cov)?;
            let root = &file_systems()[kinds[k]].root;
            let mut all = vec![];
            root.all(&[], &mut all);
            let known: Vec<String> = all.iter().flat_map(|(p, n)| {
                let at = if p.len() == 1 { "/".to_string() } else { p.join("/") };
                n.streams.iter().map(|s| format!("{at}:{}", s.0)).chain([at.clone()]).collect::<Vec<_>>()
            }).collect();
            let (title, rest) = o.out.split_once('\n').unwrap_or(("", ""));
            for l in rest.lines().filter(|_| title.ends_with("hierarchy:")).take_while(|l| !l.starts_with("Unable to ")) {
                if !known.iter().any(|k| k == l) {
                    return Err(format!("an entry {l:?}"));
                }
            }
            for id in [0, 2, 5, 12, 24, 64] {
                ends(&p, &["entry", &format!("{id}")], cov)?;
            }
            ends(&p, &["path", &all[0].0.join("/")], cov)?;
            Ok(())
        })
    });
    let values: &[u8] = c.pick(&[0xff], &[0, 0x80, 0xff]);
    let places = c.pick(1024, 2048);
    c.family("bytes", (WRAPS.len() as u64 + 6) * places, |i, cov| {
        let (k, at) = ((i / places) as usize, i % places);
        cov.trace();
        if values.len() == 1 && at % 3 != k as u64 % 3 {
            return Ok(());
        }
        run(format!("{k} {at}"), || {
            let (w, d) = match k.checked_sub(WRAPS.len()) {
                None => (WRAPS[k], Bare(1)),
                Some(j @ 0..3) => (Raw, Bare(j + 1)),
                Some(j) => (Raw, Parts([VfsType::Mbr, VfsType::Gpt, VfsType::Apm][j - 3].clone(), vec![1, 2])),
            };
            let s = Scratch::new("byte");
            let mut f = w.files(&d.media());
            let n = f[0].1.size;
            // From the start, the superblock on, and at the end.
            let at = match at {
                x if x < places * 3 / 4 => x,
                x => n.saturating_sub(1 + x - places * 3 / 4),
            };
            let mut b = [0];
            f[0].1.fill(at, &mut b);
            let old = b[0];
            for v in values.iter().filter(|v| **v != old) {
                f[0].1.put(at, vec![*v]);
                let p = s.put(&f);
                cov.distinct_states(1);
                ends(&p, &[], cov)?;
                if w == Raw && matches!(d, Bare(_)) {
                    ends(&p, &["hierarchy"], cov)?;
                }
            }
            Ok(())
        })
    });
    // The part of a file that is looked at.
    let depth = c.pick(3, 4);
    let total = seq_count(17, depth);
    let root = Scratch::new("range");
    for size in 0..5usize {
        let mut s = Segs::default();
        s.size = size as u64;
        s.put(0, pattern(size, 3));
        root.put(&vec![(format!("{size}"), s)]);
    }
    c.family("ranges", total, |i, cov| {
        let ops = seq_decode(17, i);
        cov.trace();
        for size in 0..5usize {
            for offset in (0..6u64).chain([1 << 32, i64::MAX as u64, u64::MAX]) {
                if offset > 0 && offset >= size as u64 && ops.len() > 1 {
                    continue;
                }
                cov.distinct_states(1);
                run(format!("{size} {offset} {ops:?}"), || range(size, offset, &ops, &root.path(&format!("{size}")), cov))?;
            }
        }
        Ok(())
    });
    drop(root);
    c.finish()
}
