//! Shared parts of the checks of the command line tools: running them, and what they should say of an image.
use keramics_vfs::VfsType;
use mc_formats::Segs;
use mc_vfs::{Disk, Node, file_systems};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

#[allow(dead_code, unused_imports, unused_variables)]
mod digests {
    include!("../../base/src/bin/c04_hashes.rs");
    pub fn digest(a: usize, parts: &[&[u8]]) -> String {
        hex_of(&reference(a as u64, parts))
    }
    fn hex_of(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
}
pub use digests::digest;

pub const DIGESTS: [&str; 5] = ["md5", "sha1", "sha224", "sha256", "sha512"];

/// What a tool did.
#[derive(Debug)]
pub struct Out {
    pub code: i32,
    pub out: String,
    pub err: String,
}

impl Out {
    /// The output of a tool that ended well.
    pub fn text(self) -> Result<String, String> {
        if self.code != 0 {
            return Err(format!("exit code {}: {} {}", self.code, short(&self.out), short(&self.err)));
        }
        Ok(self.out)
    }
}

pub fn short(s: &str) -> String {
    let t: String = s.chars().take(600).collect();
    if t.len() < s.len() { format!("{t}...") } else { t }
}

fn tool(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}

/// Runs a tool: what comes on standard input comes in pieces.
pub fn run_tool(name: &str, args: &[&str], input: &[&[u8]]) -> Result<Out, String> {
    let mut c = Command::new("timeout");
    c.args(["-s", "KILL", "120"]).arg(tool(name)).args(args);
    c.stdin(if input.is_empty() { Stdio::null() } else { Stdio::piped() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = c.spawn().map_err(|e| format!("{name}: {e}"))?;
    let mut stderr = p.stderr.take().unwrap();
    let errs = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = stderr.read_to_end(&mut v);
        v
    });
    if let Some(mut i) = p.stdin.take() {
        for x in input {
            if i.write_all(x).and_then(|_| i.flush()).is_err() {
                break;
            }
        }
    }
    let mut out = vec![];
    p.stdout.take().unwrap().read_to_end(&mut out).map_err(|e| e.to_string())?;
    let s = p.wait().map_err(|e| e.to_string())?;
    let err = String::from_utf8_lossy(&errs.join().unwrap_or_default()).to_string();
    let code = match s.code() {
        Some(137) | None => return Err(format!("{name} {args:?} did not end")),
        Some(c) => c,
    };
    let out = String::from_utf8(out).map_err(|_| format!("{name} {args:?}: the output is no UTF-8"))?;
    Ok(Out { code, out, err })
}

/// How a character of a name is shown.
pub fn shown(c: u32, bar: bool) -> String {
    let Some(x) = char::from_u32(c) else { return format!("\\U{c:08x}") };
    match c {
        0..0x20 | 0x7f..0xa0 => format!("\\x{c:02x}"),
        0x2f | 0x3a | 0x5c => format!("\\{x}"),
        0x7c if bar => "\\|".into(),
        0xfdd0..=0xfddf | 0x2028 | 0x2029 | 0xe000 | 0xf8ff | 0xf0000 | 0xffffd | 0x100000 | 0x10fffd => format!("\\U{c:08x}"),
        _ if c & 0xfffe == 0xfffe => format!("\\U{c:08x}"),
        _ => x.to_string(),
    }
}

pub fn shown_text(s: &str, bar: bool) -> String {
    s.chars().map(|c| shown(c as u32, bar)).collect()
}

pub fn shown_path(path: &[&str], bar: bool) -> String {
    if path.len() == 1 { "/".into() } else { path.iter().map(|n| shown_text(n, bar)).collect::<Vec<_>>().join("/") }
}

pub fn bytes_of(s: &Segs) -> Vec<u8> {
    let mut b = vec![0u8; s.size as usize];
    s.fill(0, &mut b);
    b
}

/// A data fork of a file: path, name, digests.
pub struct Fork {
    pub path: Vec<String>,
    pub name: Option<String>,
    pub size: u64,
    pub digests: [String; 5],
}

pub fn forks_of(root: &Node) -> Vec<Fork> {
    let mut all = vec![];
    root.all(&[], &mut all);
    let mut v = vec![];
    for (path, n) in all {
        let mut add = |name: Option<&str>, s: &Segs| {
            let b = bytes_of(s);
            v.push(Fork { path: path.iter().map(|x| x.to_string()).collect(), name: name.map(|x| x.to_string()), size: s.size, digests: std::array::from_fn(|a| digest(a, &[&b])) });
        };
        if n.kind == mc_vfs::NodeKind::File {
            add(None, &n.content.clone().unwrap_or_default());
        }
        for (name, s) in &n.streams {
            add(Some(name), s);
        }
    }
    v
}

/// The data forks of the sample file systems.
pub fn forks(k: usize) -> &'static [Fork] {
    static F: OnceLock<Vec<OnceLock<Vec<Fork>>>> = OnceLock::new();
    let f = F.get_or_init(|| (0..file_systems().len()).map(|_| OnceLock::new()).collect());
    f[k].get_or_init(|| forks_of(&file_systems()[k].root))
}

/// The file systems on a disk and how the tools call the volume they are on.
pub fn volumes(d: &Disk, identifier: bool) -> Vec<(String, usize)> {
    let has = |k: &usize| file_systems()[*k].kind.is_some();
    match d {
        Disk::Bare(k) if has(k) => vec![(String::new(), *k)],
        Disk::Bare(_) => vec![],
        Disk::Parts(t, p) => {
            let name = |n: usize| if identifier && *t == VfsType::Gpt { format!("/gpt{{{}}}", mc_vfs::gpt_identifier(n)) } else { format!("/p{}", n + 1) };
            p.iter().enumerate().filter(|x| has(x.1)).map(|(n, k)| (name(n), *k)).collect()
        }
    }
}

/// The same lines, in any order.
pub fn same_lines(got: &str, want: &[String]) -> Result<(), String> {
    let mut g: Vec<&str> = got.lines().collect();
    let mut w: Vec<&str> = want.iter().map(|x| x.as_str()).collect();
    g.sort();
    w.sort();
    if g == w {
        return Ok(());
    }
    let extra: Vec<&&str> = g.iter().filter(|x| !w.contains(x)).collect();
    let gone: Vec<&&str> = w.iter().filter(|x| !g.contains(x)).collect();
    Err(short(&format!("{} lines, not {}; not expected: {:?}; not there: {:?}", g.len(), w.len(), &extra[..extra.len().min(3)], &gone[..gone.len().min(3)])))
}

/// How a name is shown.
pub fn shown_name(s: &keramics_vfs::VfsString, bar: bool) -> String {
    use keramics_vfs::VfsString::*;
    match s {
        Empty => std::string::String::new(),
        String(x) => shown_text(x, bar),
        Ucs2(x) => x.elements.iter().map(|c| shown(*c as u32, bar)).collect(),
        Byte(x) => {
            // The names of files in the samples are UTF-8.
            let mut r = std::string::String::new();
            let mut b = &x.elements[..];
            while !b.is_empty() {
                let n = (1..=b.len().min(4)).find(|n| std::str::from_utf8(&b[..*n]).is_ok());
                r += &match n {
                    Some(n) => shown_text(std::str::from_utf8(&b[..n]).unwrap(), bar),
                    None => "\u{fffd}".into(),
                };
                b = &b[n.unwrap_or(1)..];
            }
            r
        }
        OsString(x) => shown_text(&x.to_string_lossy(), bar),
    }
}

pub fn shown_names(p: &[keramics_vfs::VfsString], bar: bool) -> String {
    if p.len() == 1 && p[0].is_empty() { "/".into() } else { p.iter().map(|n| shown_name(n, bar)).collect::<Vec<_>>().join("/") }
}

/// The file systems that are found in a file.
pub fn leaves(path: &str) -> Result<(bool, Vec<keramics_vfs::VfsLocation>), String> {
    use keramics_vfs::*;
    let mut s = VfsScanner::new();
    s.build().map_err(|e| e.to_string())?;
    let mut c = VfsScanContext::new();
    let l = new_os_vfs_location(path);
    s.scan(&mut c, &l).map_err(mc_vfs::err)?;
    let root = c.root_node.ok_or("no root node")?;
    fn walk(n: &VfsScanNode, to: &mut Vec<VfsLocation>) {
        if n.is_empty() && n.is_file_system() {
            to.push(n.location.clone());
        }
        n.sub_nodes.iter().for_each(|x| walk(x, to));
    }
    let mut v = vec![];
    walk(&root, &mut v);
    Ok((root.is_empty(), v))
}

/// All of a stream.
pub fn read_all(s: &keramics_core::DataStreamReference) -> Result<Vec<u8>, String> {
    let mut g = s.write().map_err(|_| "the lock is poisoned".to_string())?;
    let mut v = vec![];
    let mut b = vec![0u8; 1 << 16];
    g.seek(std::io::SeekFrom::Start(0)).map_err(mc_vfs::err)?;
    loop {
        let n = g.read(&mut b).map_err(mc_vfs::err)?;
        if n == 0 {
            return Ok(v);
        }
        v.extend_from_slice(&b[..n]);
    }
}
