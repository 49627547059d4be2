//! C34: keramicshash tells the digest of every data stream there is, by its path.
use keramics_core::mediator::Mediator;
use keramics_types::{ByteString, Ucs2String};
use keramics_vfs::*;
use mc_engine::util::{pattern, seq_count, seq_decode};
use mc_engine::{Check, Cov, Failure, guarded};
use mc_formats::Segs;
use mc_tools::*;
use mc_vfs::*;
use std::collections::{HashMap, HashSet};

#[path = "/repo/keramics-tools/src/display_path.rs"]
#[allow(dead_code, unused_variables)]
mod display_path;
#[path = "/repo/keramics-tools/src/enums.rs"]
#[allow(dead_code)]
mod enums;
#[path = "/repo/keramics-tools/src/hasher.rs"]
#[allow(dead_code)]
mod hasher;
use display_path::DisplayPath;
use enums::{DigestHashType, DisplayPathType};
use hasher::DigestHasher;

type Res = Result<(), String>;

fn run(key: String, f: impl FnOnce() -> Res) -> Result<(), Failure> {
    guarded(f).unwrap_or_else(Err).map_err(|m| Failure::new(&key, m))
}

/// Every image of every disk.
fn image(w: Wrap, d: &Disk, a: &[usize], cov: &mut Cov) -> Res {
    let s = Scratch::new("hash");
    let p = s.put(&w.files(&d.media()));
    for &a in a {
        for identifier in [false, true] {
            if identifier && !matches!(d, Parts(VfsType::Gpt, _)) && a != 0 {
                continue;
            }
            let out = run_tool("keramicshash", &["-d", DIGESTS[a], "--volume-path-type", if identifier { "identifier" } else { "index" }, &p], &[])?.text()?;
            cov.steps(out.lines().count() as u64);
            let mut want: Vec<String> = vec![];
            for (v, k) in volumes(d, identifier) {
                for f in forks(k) {
                    let path: Vec<&str> = f.path.iter().map(|x| x.as_str()).collect();
                    let name = f.name.as_ref().map_or(String::new(), |n| format!(":{}", shown_text(n, false)));
                    want.push(format!("{}\t{v}{}{name}", f.digests[a], shown_path(&path, false)));
                }
            }
            if want.is_empty() && w == Raw && matches!(d, Bare(_)) {
                want.push(format!("{}  {p}", digest(a, &[&d.media()])));
            }
            same_lines(&out, &want).map_err(|m| format!("{} identifier {identifier}: {m}", DIGESTS[a]))?;
            cov.distinct_states(1);
        }
    }
    Ok(())
}

const SIZES: [usize; 24] = [0, 1, 3, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 196609];

/// What no file system is found in is data itself.
fn plain(size: usize, a: usize, cov: &mut Cov) -> Res {
    let d = pattern(size, 21);
    let want = digest(a, &[&d]);
    let s = Scratch::new("plain");
    for name in ["data", "with space", "ümlaut", "-d"] {
        let mut c = Segs::default();
        c.put(0, d.clone());
        c.size = size as u64;
        let p = s.put(&vec![(name.to_string(), c)]);
        let out = run_tool("keramicshash", &["--digest-hash-type", DIGESTS[a], &p], &[])?.text()?;
        cov.step();
        let line = format!("{want}  {p}\n");
        if out != line {
            return Err(format!("{} bytes {}: {:?}, not {line:?}", size, DIGESTS[a], short(&out)));
        }
    }
    // MD5 is used unless told otherwise.
    if a == 0 {
        let p = s.path("data");
        let out = run_tool("keramicshash", &[&p], &[])?.text()?;
        if out != format!("{want}  {p}\n") {
            return Err(format!("without a type: {:?}", short(&out)));
        }
    }
    Ok(())
}

const PIECES: [usize; 6] = [1, 63, 64, 4096, 8193, 65537];

fn stdin(a: usize, seq: &[u64], cov: &mut Cov) -> Res {
    let parts: Vec<Vec<u8>> = seq.iter().enumerate().map(|(k, s)| pattern(PIECES[*s as usize], 5 + k as u64)).collect();
    let mut p: Vec<&[u8]> = parts.iter().map(|x| &x[..]).collect();
    let want = format!("{}  -\n", digest(a, &p));
    if p.is_empty() {
        p.push(&[]);
    }
    let out = run_tool("keramicshash", &["-d", DIGESTS[a]], &p)?.text()?;
    cov.step();
    if out != want {
        return Err(format!("{:?}, not {want:?}", short(&out)));
    }
    Ok(())
}

/// A reader that gives what it has in pieces.
struct Pieces(Vec<Vec<u8>>);
impl std::io::Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            return Ok(0);
        }
        let n = self.0[0].len().min(b.len());
        b[..n].copy_from_slice(&self.0[0][..n]);
        self.0[0].drain(..n);
        if self.0[0].is_empty() {
            self.0.remove(0);
        }
        Ok(n)
    }
}

fn reader(a: usize, seq: &[u64], cov: &mut Cov) -> Res {
    let parts: Vec<Vec<u8>> = seq.iter().enumerate().map(|(k, s)| pattern(PIECES[*s as usize], 5 + k as u64)).collect();
    let p: Vec<&[u8]> = parts.iter().map(|x| &x[..]).collect();
    let t = [DigestHashType::Md5, DigestHashType::Sha1, DigestHashType::Sha224, DigestHashType::Sha256, DigestHashType::Sha512];
    let want = digest(a, &p);
    let h = DigestHasher::new(&t[a]);
    for _ in 0..2 {
        let got = h.calculate_hash_from_reader(&mut Pieces(parts.clone())).map_err(err)?;
        cov.step();
        if got != want {
            return Err(format!("{got}, not {want}"));
        }
    }
    Ok(())
}

/// The name that is shown, read back.
fn unshown(s: &str) -> Option<Vec<u32>> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut at = 0;
    while at < c.len() {
        if c[at] != '\\' {
            v.push(c[at] as u32);
            at += 1;
            continue;
        }
        let digits = match c.get(at + 1)? {
            'x' => 2,
            'U' => 8,
            x => {
                v.push(*x as u32);
                at += 2;
                continue;
            }
        };
        let t: String = c.get(at + 2..at + 2 + digits)?.iter().collect();
        v.push(u32::from_str_radix(&t, 16).ok()?);
        at += 2 + digits;
    }
    Some(v)
}

fn escape(d: &DisplayPath, name: &VfsString, units: &[u32], cov: &mut Cov) -> Res {
    let got = d.escape_string(name);
    cov.step();
    let want: String = units.iter().map(|c| shown(*c, false)).collect();
    if got != want {
        return Err(format!("{units:x?} is shown as {got:?}, not {want:?}"));
    }
    if unshown(&got).as_deref() != Some(units) {
        return Err(format!("{units:x?} is shown as {got:?}, which is read as {:x?}", unshown(&got)));
    }
    if got.chars().any(|c| (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32))) {
        return Err(format!("{units:x?} is shown with a control character: {got:?}"));
    }
    Ok(())
}

/// What the tool prints of an image and how it ends, from what the library says of it.
fn told(p: &str, stop: bool) -> (Vec<String>, bool) {
    let mut v = vec![];
    let mut go = || -> Res {
        let (plain, l) = leaves(p)?;
        if plain {
            let d = std::fs::read(p).map_err(|e| e.to_string())?;
            v.push(format!("{}  {p}", digest(0, &[&d])));
            return Ok(());
        }
        for at in l {
            let fs = VfsResolver::current().open_file_system(&at).map_err(err)?;
            for x in VfsFinder::new(&fs) {
                let (e, path) = x.map_err(err)?;
                for k in 0..e.get_number_of_data_forks().map_err(err)? {
                    let f = e.get_data_fork_by_index(k).map_err(err)?;
                    let name = f.get_name();
                    let text = name.as_ref().map_or(String::new(), |n| format!(":{}", shown_name(n, false)));
                    let skip = path.len() > 1 && path[1].to_string() == "$BadClus" && name.is_some_and(|n| n.to_string() == "$Bad");
                    let d = if skip {
                        "N/A (skipped)".to_string()
                    } else {
                        match f.get_data_stream().map_err(err).and_then(|s| read_all(&s)) {
                            Ok(b) => digest(0, &[&b]),
                            Err(m) if stop => return Err(m),
                            Err(_) => "N/A (error)".to_string(),
                        }
                    };
                    v.push(format!("{d}\t{}{text}", shown_names(&path, false)));
                }
            }
        }
        Ok(())
    };
    let ok = go().is_ok();
    (v, ok)
}

fn as_told(p: &str, cov: &mut Cov) -> Res {
    for stop in [false, true] {
        let mut args = vec![p];
        if stop {
            args.push("--stop-on-error");
        }
        let o = run_tool("keramicshash", &args, &[])?;
        let (want, ok) = told(p, stop);
        cov.steps(want.len() as u64);
        cov.outcome(&(ok, want.iter().any(|x| x.starts_with("N/A (error)"))));
        if o.code != if ok { 0 } else { 1 } {
            return Err(format!("exit code {}, stop {stop}: {} {}", o.code, short(&o.out), short(&o.err)));
        }
        // What went wrong is told at the end.
        let lines: Vec<&str> = o.out.lines().collect();
        if lines.len() < want.len() || (ok && lines.len() != want.len()) {
            return Err(format!("{} lines, not {}", lines.len(), want.len()));
        }
        if !ok && !lines.get(want.len()).is_some_and(|l| l.starts_with("Unable to ")) {
            return Err(format!("no reason is told: {:?}", lines.get(want.len())));
        }
        same_lines(&lines[..want.len()].join("\n"), &want)?;
    }
    Ok(())
}

pub fn main() {
    let mut c = Check::new("C34");
    sweep();
    Mediator { debug_output: false }.make_current();
    let all: Vec<usize> = (0..5).collect();
    let d = disks(c.pick(5, 7));
    let n = d.len() as u64;
    let deep = c.thorough();
    c.family("images", n * WRAPS.len() as u64, |i, cov| {
        let (w, d) = (WRAPS[(i / n) as usize], &d[(i % n) as usize]);
        cov.trace();
        let one = [i as usize % 5];
        run(format!("{w:?} {d:?}"), || image(w, d, if deep || matches!(d, Bare(_)) { &all } else { &one }, cov))
    });
    c.family("large file systems", 2 * WRAPS.len() as u64, |i, cov| {
        let (w, d) = (WRAPS[i as usize / 2], Bare(5 + i as usize % 2));
        cov.trace();
        run(format!("{w:?} {d:?}"), || image(w, &d, &[i as usize % 5], cov))
    });
    c.family("plain files", SIZES.len() as u64 * 5, |i, cov| {
        let (s, a) = (SIZES[i as usize / 5], i as usize % 5);
        cov.trace();
        cov.distinct_states(1);
        run(format!("{s} {}", DIGESTS[a]), || plain(s, a, cov))
    });
    let depth = c.pick(3, 4);
    let n = seq_count(PIECES.len() as u64, depth);
    c.family("standard input", n * 5, |i, cov| {
        let (seq, a) = (seq_decode(PIECES.len() as u64, i / 5), i as usize % 5);
        cov.trace();
        cov.distinct_states(1);
        run(format!("{seq:?} {}", DIGESTS[a]), || stdin(a, &seq, cov))
    });
    let n = seq_count(PIECES.len() as u64, depth + 1);
    c.family("readers", n * 5, |i, cov| {
        let (seq, a) = (seq_decode(PIECES.len() as u64, i / 5), i as usize % 5);
        cov.trace();
        cov.distinct_states(1);
        run(format!("{seq:?} {}", DIGESTS[a]), || reader(a, &seq, cov))
    });
    let show = DisplayPath::new(&DisplayPathType::Index);
    // Every character, alone and between others.
    c.family("characters", 0x110000 / 256, |i, cov| {
        cov.trace();
        run(format!("{:x}", i * 256), || {
            for k in 0..256 {
                let x = i as u32 * 256 + k;
                cov.distinct_states(1);
                if x < 0x10000 {
                    for u in [vec![x], vec![0x61, x, 0x5c], vec![x, x]] {
                        let s = Ucs2String { elements: u.iter().map(|x| *x as u16).collect() };
                        escape(&show, &VfsString::Ucs2(s), &u, cov)?;
                    }
                }
                let Some(ch) = char::from_u32(x) else { continue };
                for u in [vec![ch], vec!['a', ch, '\\'], vec![ch, ch]] {
                    let t: String = u.iter().collect();
                    let u: Vec<u32> = u.iter().map(|c| *c as u32).collect();
                    escape(&show, &VfsString::String(t.clone()), &u, cov)?;
                    if x > 0 {
                        escape(&show, &VfsString::Byte(ByteString { elements: t.into_bytes(), ..ByteString::new() }), &u, cov)?;
                    }
                }
            }
            Ok(())
        })
    });
    // No two names are shown the same.
    let few = ['\\', '/', ':', 'x', 'U', '0', '1', 'f', '\u{1}', '\u{1f}', '\u{80}', '\u{fffe}', '|'];
    let depth = c.pick(4, 5);
    c.family("pairs of names", 1, |_, cov| {
        cov.trace();
        let n = seq_count(few.len() as u64, depth);
        run("names".into(), || {
            let mut seen: HashMap<String, u64> = HashMap::new();
            for i in 0..n {
                let t: String = seq_decode(few.len() as u64, i).iter().map(|x| few[*x as usize]).collect();
                let s = show.escape_string(&VfsString::String(t.clone()));
                cov.step();
                if let Some(j) = seen.insert(s.clone(), i) {
                    return Err(format!("{t:?} and sequence {j} are both shown as {s:?}"));
                }
            }
            cov.distinct_states(n);
            Ok(())
        })
    });
    // Bytes that are no UTF-8.
    let bytes = [0x41u8, 0x2f, 0x80, 0xbf, 0xc2, 0xc0, 0xe2, 0xed, 0xa0, 0xf0, 0x9f, 0xf5, 0xff];
    let n = seq_count(bytes.len() as u64, c.pick(4, 5));
    c.family("bytes", n, |i, cov| {
        let b: Vec<u8> = seq_decode(bytes.len() as u64, i).iter().map(|x| bytes[*x as usize]).collect();
        cov.trace();
        cov.distinct_states(1);
        run(format!("{b:x?}"), || {
            let name = VfsString::Byte(ByteString { elements: b.clone(), ..ByteString::new() });
            cov.step();
            let (got, want) = (show.escape_string(&name), shown_name(&name, false));
            if got != want { Err(format!("shown as {got:?}, not {want:?}")) } else { Ok(()) }
        })
    });
    // Names in file systems.
    let special: Vec<char> = (1..0x100u32).chain([0x2028, 0xe000, 0xfdd0, 0xfdef, 0xfffd, 0xfffe, 0x1f600]).filter_map(char::from_u32).collect();
    let per = 12;
    let n = special.len().div_ceil(per) as u64;
    c.family("names in file systems", n * 3, |i, cov| {
        let chars = &special[(i / 3) as usize * per..special.len().min(((i / 3) as usize + 1) * per)];
        cov.trace();
        cov.distinct_states(1);
        run(format!("{chars:?} {}", i % 3), || {
            let utf16 = |s: &str| s.encode_utf16().collect::<Vec<u16>>();
            let media = match i % 3 {
                0 => made::ext_named(&[b'd', 0xff, 0xc3], &chars.iter().filter(|c| **c != '/').map(|c| format!("a{c}b").into_bytes()).chain([vec![0x80, 0x41], vec![0xe2, 0x82]]).collect::<Vec<_>>()),
                1 => made::fat_named(&chars.iter().filter(|c| **c as u32 >= 0x20).map(|c| utf16(&format!("a{c}b"))).collect::<Vec<_>>()),
                _ => {
                    let mut used = HashSet::new();
                    let keep = |c: &&char| used.insert(c.to_uppercase().collect::<String>());
                    let v: Vec<(Vec<u16>, Option<Vec<u16>>)> = chars.iter().filter(keep).map(|c| (utf16(&format!("a{c}b")), Some(utf16(&format!("s{c}"))))).collect();
                    made::ntfs_named(&[0x64, 0xd800], &v)
                }
            };
            let s = Scratch::new("names");
            let p = s.put(&vec![("image".into(), media)]);
            as_told(&p, cov)?;
            let (want, ok) = told(&p, true);
            if !ok || want.len() * 2 < chars.iter().filter(|c| **c as u32 >= 0x20).count() {
                return Err(format!("{} files in the file system: {want:?}", want.len()));
            }
            Ok(())
        })
    });
    c.family("bad clusters", 8, |i, cov| {
        cov.trace();
        run(format!("{i}"), || {
            let u = |s: &str| s.encode_utf16().collect::<Vec<u16>>();
            let (d, f, t) = ([u("$BadClus"), u("other")][i as usize % 2].clone(), [u("$BadClus"), u("file")][i as usize / 2 % 2].clone(), [u("$Bad"), u("$BadX")][i as usize / 4].clone());
            let s = Scratch::new("bad");
            let p = s.put(&vec![("image".into(), made::ntfs_named(&d, &[(f, Some(t))]))]);
            as_told(&p, cov)
        })
    });
    // Images of which the end is gone.
    let step = c.pick(4096, 1024);
    let kinds = [1usize, 2, 3, 4];
    let counts: Vec<u64> = kinds.iter().map(|k| file_systems()[*k].bytes().len() as u64 / step as u64).collect();
    c.family("cut", counts.iter().sum(), |i, cov| {
        let (mut k, mut at) = (0, i);
        while at >= counts[k] {
            at -= counts[k];
            k += 1;
        }
        cov.trace();
        cov.distinct_states(1);
        run(format!("{} {}", file_systems()[kinds[k]].name, at * step as u64), || {
            let mut b = file_systems()[kinds[k]].bytes();
            b.truncate(at as usize * step);
            let mut c = Segs::default();
            c.size = b.len() as u64;
            c.put(0, b);
            let s = Scratch::new("cut");
            let p = s.put(&vec![("image".into(), c)]);
            as_told(&p, cov)
        })
    });
    c.family("no file", 3, |i, cov| {
        cov.trace();
        run(format!("{i}"), || {
            let s = Scratch::new("none");
            let p = s.path("nope");
            let args = [vec![p.as_str()], vec!["-d", "nope", "x"], vec!["--volume-path-type", "nope", "x"]];
            let o = run_tool("keramicshash", &args[i as usize], &[])?;
            cov.step();
            if o.code == 0 || o.code == 101 { Err(format!("exit code {}: {}", o.code, short(&o.out))) } else { Ok(()) }
        })
    });
    c.finish()
}
