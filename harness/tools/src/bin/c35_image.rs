//! C35: keramicsimage tells what is on an image: bodyfile, hierarchy, digest.
use keramics_core::mediator::Mediator;
use keramics_datetime::{DateTime, FatDate, FatTimeDate, FatTimeDate10Ms, Filetime, PosixTime32, PosixTime64Ns};
use keramics_formats::ntfs::NtfsAttribute;
use keramics_vfs::*;
use mc_engine::util::pattern;
use mc_engine::{Check, Cov, Failure, guarded};
use mc_formats::Segs;
use mc_tools::*;
use mc_vfs::*;
use std::collections::HashSet;

#[path = "/repo/keramics-tools/src/bodyfile.rs"]
#[allow(dead_code)]
mod bodyfile;
#[path = "/repo/keramics-tools/src/formatters.rs"]
#[allow(dead_code)]
mod formatters;
use bodyfile::Bodyfile;

type Res = Result<(), String>;

fn run(key: String, f: impl FnOnce() -> Res) -> Result<(), Failure> {
    guarded(f).unwrap_or_else(Err).map_err(|m| Failure::new(&key, m))
}

/// A number of parts of a second since 1970.
fn decimal(t: i128, digits: usize) -> String {
    let one = 10i128.pow(digits as u32);
    let (s, t) = (if t < 0 { "-" } else { "" }, t.abs());
    format!("{s}{}.{:0digits$}", t / one, t % one)
}

fn fat(date: u16, time: u16) -> Option<i64> {
    let (y, m, d) = (1980 + (date >> 9) as i64, date >> 5 & 15, (date & 31) as i64);
    let (h, n, s) = ((time >> 11) as i64, (time >> 5 & 63) as i64, 2 * (time & 31) as i64);
    let leap = |y: i64| y % 4 == 0 && y % 100 != 0 || y % 400 == 0;
    let month = |y: i64, m: u16| match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        1..=12 => 31,
        _ => 0,
    };
    if d == 0 || d > month(y, m) || h > 23 || n > 59 || s > 59 {
        return None;
    }
    let days: i64 = (1970..y).map(|y| 365 + leap(y) as i64).sum::<i64>() + (1..m).map(|m| month(y, m)).sum::<i64>() + d - 1;
    Some(((days * 24 + h) * 60 + n) * 60 + s)
}

/// A time as seconds since 1970.
fn stamp(t: Option<&DateTime>) -> String {
    match t {
        None | Some(DateTime::NotSet) => String::new(),
        Some(DateTime::Filetime(t)) => decimal(t.timestamp as i128 - 116444736000000000, 7),
        Some(DateTime::PosixTime32(t)) => t.timestamp.to_string(),
        Some(DateTime::PosixTime64Ns(t)) => decimal(t.timestamp as i128 * 1000000000 + t.fraction as i128, 9),
        Some(DateTime::FatDate(t)) => fat(t.date, 0).map_or(String::new(), |s| s.to_string()),
        Some(DateTime::FatTimeDate(t)) => fat(t.date, t.time).map_or(String::new(), |s| s.to_string()),
        Some(DateTime::FatTimeDate10Ms(t)) => fat(t.date, t.time).map_or(String::new(), |s| decimal(s as i128 * 100 + t.fraction as i128, 2)),
        Some(DateTime::HfsTime) => unreachable!(),
    }
}

fn mode(kind: char, bits: u16) -> String {
    let r: String = (0..9).map(|k| if bits & 0x100 >> k != 0 { ['r', 'w', 'x'][k % 3] } else { '-' }).collect();
    format!("{kind}{r}")
}

/// The lines of a file system.
fn body(at: &VfsLocation, prefix: &str, md5: bool, v: &mut Vec<String>) -> Res {
    let fs = VfsResolver::current().open_file_system(at).map_err(err)?;
    for x in VfsFinder::new(&fs) {
        let (mut e, path) = x.map_err(err)?;
        let sum = |s: &keramics_core::DataStreamReference| -> Result<String, String> { if md5 { read_all(s).map(|b| digest(0, &[&b])) } else { Ok("0".into()) } };
        let main = match e.get_data_stream().map_err(err)? {
            Some(s) => sum(&s)?,
            None if md5 => "0".repeat(32),
            None => "0".into(),
        };
        let to = e.get_symbolic_link_target().map_err(err)?.map_or(String::new(), |t| format!(" -> {}", t.to_string()));
        let name = format!("{prefix}{}", shown_names(&path, true));
        let kind = match e.get_file_type() {
            VfsFileType::Directory => 'd',
            VfsFileType::SymbolicLink => 'l',
            _ => '-',
        };
        let plain = |flags: u32| mode(kind, if flags & 5 != 0 { 0o555 } else { 0o777 });
        let (id, mode, owner, group) = match &e {
            VfsFileEntry::Ext(x) => {
                let m = x.get_file_mode();
                let kind = match m >> 12 {
                    1 => 'p',
                    2 => 'c',
                    4 => 'd',
                    6 => 'b',
                    10 => 'l',
                    12 => 's',
                    _ => '-',
                };
                (x.inode_number.to_string(), mode(kind, m), x.get_owner_identifier().to_string(), x.get_group_identifier().to_string())
            }
            VfsFileEntry::Fat(x) => (format!("0x{:08x}", x.identifier), plain(x.get_file_attribute_flags() as u32), String::new(), String::new()),
            VfsFileEntry::Ntfs(x) => {
                let r = x.get_file_reference();
                (format!("{}-{}", r % (1 << 48), r >> 48), plain(x.get_file_attribute_flags()), String::new(), String::new())
            }
            _ => return Err("another kind of file system".into()),
        };
        let times = [e.get_access_time(), e.get_modification_time(), e.get_change_time(), e.get_creation_time()].map(stamp).join("|");
        let who = format!("{id}|{mode}|{owner}|{group}");
        v.push(format!("{main}|{name}{to}|{who}|{}|{times}", e.get_size()));
        for k in 0..e.get_number_of_data_forks().map_err(err)? {
            let f = e.get_data_fork_by_index(k).map_err(err)?;
            let Some(n) = f.get_name() else { continue };
            let s = f.get_data_stream().map_err(err)?;
            let sum = sum(&s)?;
            let size = s.write().unwrap().get_size().map_err(err)?;
            v.push(format!("{sum}|{name}:{}{to}|{who}|{size}|{times}", shown_name(&n, true)));
        }
        if let VfsFileEntry::Ntfs(x) = &e {
            for k in 0..x.get_number_of_attributes() {
                let NtfsAttribute::FileName { file_name: f } = x.get_attribute_by_index(k).map_err(err)? else { continue };
                if x.get_parent_file_reference() == Some(f.parent_file_reference) && Some(&f.name) == x.get_name() && f.name_space != 2 {
                    let times = [&f.access_time, &f.modification_time, &f.entry_modification_time, &f.creation_time].map(|t| stamp(Some(t))).join("|");
                    v.push(format!("{main}|{name} ($FILE_NAME)|{who}|{}|{times}", e.get_size()));
                }
            }
        }
    }
    Ok(())
}

/// The fields of a line.
fn fields(l: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut c = l.chars();
    while let Some(x) = c.next() {
        match x {
            '\\' => {
                v.last_mut().unwrap().push(x);
                v.last_mut().unwrap().extend(c.next());
            }
            '|' => v.push(String::new()),
            _ => v.last_mut().unwrap().push(x),
        }
    }
    v
}

/// The bodyfile of an image, compared with what the library says of it; gives what the library says.
fn body_as_told(p: &str, prefixes: Option<&[String]>, identifier: bool, md5: bool, cov: &mut Cov) -> Result<(Vec<String>, bool), String> {
    let mut args = vec![p, "bodyfile"];
    if md5 {
        args.push("--calculate-md5");
    }
    if identifier {
        args.extend(["--volume-path-type", "identifier"]);
    }
    let o = run_tool("keramicsimage", &args, &[])?;
    let mut want = vec!["# extended bodyfile 3 format".to_string()];
    let mut go = || -> Res {
        let l = leaves(p).inspect_err(|_| want.clear())?.1;
        if prefixes.is_some_and(|x| x.len() != l.len()) {
            return Err("other file systems are found".into());
        }
        for (k, at) in l.iter().enumerate() {
            body(at, prefixes.map_or("", |x| &x[k]), md5, &mut want)?;
        }
        Ok(())
    };
    let ok = go().is_ok();
    cov.steps(want.len() as u64);
    cov.outcome(&ok);
    if o.code != if ok { 0 } else { 1 } {
        return Err(format!("exit code {}: {} {}", o.code, short(&o.out), short(&o.err)));
    }
    let lines: Vec<&str> = o.out.lines().collect();
    let n = want.len();
    if lines.len() < n || (ok && lines.len() != n) {
        return Err(format!("{} lines, not {n}", lines.len()));
    }
    if !ok && !lines.get(n).is_some_and(|l| l.starts_with("Unable to ")) {
        return Err(format!("no reason is told: {:?}", lines.get(n)));
    }
    if n > 0 && lines[0] != want[0] {
        return Err(format!("the first line is {:?}", lines[0]));
    }
    same_lines(&lines[..n].join("\n"), &want)?;
    for l in &lines[1.min(n)..n] {
        let f = fields(l);
        if f.len() != 11 {
            return Err(format!("{} fields in {l:?}", f.len()));
        }
    }
    Ok((want, ok))
}

fn image(w: Wrap, d: &Disk, cov: &mut Cov) -> Res {
    let s = Scratch::new("body");
    let p = s.put(&w.files(&d.media()));
    for identifier in [false, true] {
        if identifier && !matches!(d, Parts(VfsType::Gpt, _)) {
            continue;
        }
        let v = volumes(d, identifier);
        let prefixes: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
        for md5 in [false, true] {
            let (lines, ok) = body_as_told(&p, Some(&prefixes), identifier, md5, cov).map_err(|m| format!("identifier {identifier}, MD5 {md5}: {m}"))?;
            cov.distinct_states(1);
            if !ok {
                return Err(format!("the library does not read it all: {:?}", lines.last()));
            }
            // What is in the file systems is there, with its digest and size.
            let have: HashSet<(String, String, String)> = lines[1..].iter().map(|l| fields(l)).map(|f| (f[0].clone(), f[1].clone(), f[6].clone())).collect();
            for (x, k) in &v {
                for f in forks(*k) {
                    let path: Vec<&str> = f.path.iter().map(|x| x.as_str()).collect();
                    let name = f.name.as_ref().map_or(String::new(), |n| format!(":{}", shown_text(n, true)));
                    let line = (if md5 { f.digests[0].clone() } else { "0".into() }, format!("{x}{}{name}", shown_path(&path, true)), f.size.to_string());
                    cov.step();
                    if !have.contains(&line) {
                        return Err(format!("identifier {identifier}: {line:?} is not there"));
                    }
                }
                let mut all = vec![];
                file_systems()[*k].root.all(&[], &mut all);
                for (path, n) in all {
                    let path = format!("{x}{}", shown_path(&path, true));
                    let link = format!("{path} -> ");
                    let linked = matches!(n.kind, NodeKind::Link(_));
                    if !have.iter().any(|h| if linked { h.1.starts_with(&link) } else { h.1 == path }) {
                        return Err(format!("identifier {identifier}: {path} is not there"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn tree(w: &Want, d: &Disk, depth: usize, to: &mut Vec<String>) {
    let path = w.location.get_path().to_string();
    let alias = match (w.location.get_type(), path.strip_prefix("/gpt"), d) {
        (VfsType::Gpt, Some(n), _) => format!(" (alias: /gpt{{{}}})", gpt_identifier(n.parse::<usize>().unwrap() - 1)),
        _ => String::new(),
    };
    to.push(format!("{}{}: path: {path}{alias}", "    ".repeat(depth), w.location.get_type().as_str()));
    w.sub.iter().for_each(|x| tree(x, d, depth + 1, to));
}

fn hierarchy(w: Wrap, d: &Disk, cov: &mut Cov) -> Res {
    let s = Scratch::new("tree");
    let p = s.put(&w.files(&d.media()));
    let mut lines = vec![];
    tree(&want(w, d, &new_os_vfs_location(&p)), d, 0, &mut lines);
    for args in [&[p.as_str()][..], &[p.as_str(), "hierarchy"]] {
        let out = run_tool("keramicsimage", args, &[])?.text()?;
        cov.steps(lines.len() as u64);
        cov.distinct_states(1);
        if out.lines().collect::<Vec<_>>() != lines {
            return Err(format!("{args:?}: {}, not {lines:?}", short(&out)));
        }
    }
    Ok(())
}

fn hash(w: Wrap, media: &[u8], hash: Option<&[u8; 16]>, both: Option<&([u8; 16], [u8; 20])>, cov: &mut Cov) -> Res {
    let s = Scratch::new("sum");
    let p = s.put(&match w {
        Ewf | EwfSplit => made::ewf_stored(media, if w == Ewf { 1 } else { 3 }, hash, both),
        _ => w.files(media),
    });
    let o = run_tool("keramicsimage", &[&p, "hash"], &[])?;
    cov.step();
    cov.distinct_states(1);
    if w == Raw {
        // There is no format to look into.
        return if o.code == 1 && o.out == "No known storage media image format signatures found\n" { Ok(()) } else { Err(format!("exit code {}: {}", o.code, short(&o.out))) };
    }
    let mut lines = vec![String::new(), format!("Calculated MD5 hash\t: {}", digest(0, &[media]))];
    if matches!(w, Ewf | EwfSplit) {
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        // Nothing but zeros is the same as nothing stored.
        let md5 = hash.or(both.map(|b| &b.0)).filter(|m| **m != [0; 16]);
        lines.extend(md5.map(|m| format!("Stored MD5 hash\t\t: {}", hex(m))));
        let sha1 = both.map(|b| b.1).filter(|h| *h != [0; 20]);
        lines.extend(sha1.map(|h| format!("Stored SHA1 hash\t: {}", hex(&h))));
        cov.outcome(&lines.len());
    }
    let out = o.text()?;
    if out.lines().collect::<Vec<_>>() != lines {
        return Err(format!("{:?}, not {lines:?}", short(&out)));
    }
    Ok(())
}

/// A bodyfile of an image of one file system that must be whole.
fn whole(media: Segs, entries: usize, cov: &mut Cov) -> Res {
    let s = Scratch::new("one");
    let p = s.put(&vec![("image".into(), media)]);
    let (lines, ok) = body_as_told(&p, None, false, true, cov)?;
    if !ok || lines.len() < entries + 2 {
        return Err(format!("{} lines, {ok}: {:?}", lines.len(), lines.last()));
    }
    Ok(())
}

fn time_is(t: DateTime, cov: &mut Cov) -> Res {
    cov.step();
    let got = Bodyfile::format_as_timestamp(Some(&t)).map_err(|e| format!("{t:?}: {}", err(e)))?;
    let want = stamp(Some(&t));
    if got != want { Err(format!("{t:?} is {got:?}, not {want:?}")) } else { Ok(()) }
}

fn around(b: &[u64], by: u64) -> Vec<u64> {
    let mut v: Vec<u64> = b.iter().flat_map(|x| (0..=2 * by).map(|k| x.wrapping_sub(by).wrapping_add(k))).collect();
    v.sort();
    v.dedup();
    v
}

pub fn main() {
    let mut c = Check::new("C35");
    sweep();
    Mediator { debug_output: false }.make_current();
    let d = disks(c.pick(5, 7));
    let n = d.len() as u64;
    c.family("bodyfiles", n * WRAPS.len() as u64, |i, cov| {
        let (w, d) = (WRAPS[(i / n) as usize], &d[(i % n) as usize]);
        cov.trace();
        run(format!("{w:?} {d:?}"), || image(w, d, cov))
    });
    c.family("bodyfiles of large file systems", 2 * WRAPS.len() as u64, |i, cov| {
        let (w, d) = (WRAPS[i as usize / 2], Bare(5 + i as usize % 2));
        cov.trace();
        run(format!("{w:?} {d:?}"), || image(w, &d, cov))
    });
    c.family("hierarchies", n * WRAPS.len() as u64, |i, cov| {
        let (w, d) = (WRAPS[(i / n) as usize], &d[(i % n) as usize]);
        cov.trace();
        run(format!("{w:?} {d:?}"), || hierarchy(w, d, cov))
    });
    // The formats of which the digest is calculated.
    let kinds = [Raw, Ewf, EwfSplit, Sparse, Udif];
    let sizes: Vec<usize> = vec![512, 1024, 32768, 65024, 65536, 66048, 131072, 200704];
    c.family("digests", (6 * kinds.len() * sizes.len()) as u64, |i, cov| {
        let (told, i) = (i % 6, i / 6);
        let (w, n) = (kinds[i as usize % kinds.len()], sizes[i as usize / kinds.len()]);
        cov.trace();
        if w == Udif && n < 1024 || told > 0 && !matches!(w, Ewf | EwfSplit) {
            // Nothing is made of one sector, and only EWF has stored digests.
            return Ok(());
        }
        run(format!("{w:?} {n} {told}"), || {
            // Nothing that is a format of its own.
            let mut m = pattern(n, 77);
            m[n - 512..].fill(1);
            let md5: [u8; 16] = std::array::from_fn(|k| (k * 37 + told as usize) as u8);
            let both = match told {
                3 => ([0; 16], [0xa0; 20]),
                4 => (md5, [0; 20]),
                _ => (md5, std::array::from_fn(|k| (255 - k * 11) as u8)),
            };
            hash(w, &m, Some(&md5).filter(|_| told == 1 || told == 5), Some(&both).filter(|_| told > 1), cov)
        })
    });
    // Modes of ext.
    let bits: Vec<u16> = c.pick((0..512).collect(), (0..4096).collect());
    let per = 256;
    let groups = bits.len() / per;
    c.family("modes", 16 * groups as u64, |i, cov| {
        let kind = (i / groups as u64) as u16;
        let b = &bits[i as usize % groups * per..][..per];
        cov.trace();
        cov.distinct_states(per as u64);
        run(format!("{kind} {}", b[0]), || {
            let items: Vec<_> = b.iter().map(|b| (kind << 12 | b | if *b & 1 == 0 { 0 } else { 0x800 }, [1, 2, 3, 0], [0u32; 5])).collect();
            let s = Scratch::new("modes");
            let p = s.put(&vec![("image".into(), made::ext_modes(&items))]);
            let (lines, ok) = body_as_told(&p, None, false, false, cov)?;
            cov.outcome(&(kind, ok));
            if [1, 2, 4, 6, 8, 10, 12].contains(&kind) && (!ok || lines.len() < per) { Err(format!("{} lines, {ok}", lines.len())) } else { Ok(()) }
        })
    });
    let secs = [0i32, 1, -1, 2, i32::MAX, i32::MIN, 86399, -86400, 1_600_000_000];
    let extra = [0u32, 1, 2, 3, 4, 5, 999_999_999 << 2, 999_999_999 << 2 | 3, 500_000_000 << 2, 1 << 2];
    c.family("times of ext", secs.len() as u64, |i, cov| {
        cov.trace();
        run(format!("{}", secs[i as usize]), || {
            let mut items = vec![];
            for x in extra {
                for y in extra {
                    let s = |k: u64| secs[(i + k) as usize % secs.len()];
                    items.push((0x81a4u16, [s(0), s(1), s(2), 0], [x, y, x ^ 4, s(3) as u32, y]));
                }
            }
            cov.distinct_states(items.len() as u64);
            whole(made::ext_modes(&items), items.len(), cov)
        })
    });
    let e = 116444736000000000u64;
    let times = [0u64, 1, e, e - 1, e + 1, e - 10000000, e - 9999999, e - 10000001, e + 9999999, e + 10000000, 0x01cb3a623d0a17ce, u64::MAX, 1 << 63];
    c.family("times of NTFS", times.len() as u64, |i, cov| {
        cov.trace();
        run(format!("{}", times[i as usize]), || {
            let mut items = vec![];
            for j in 0..times.len() as u64 {
                let t = |k: u64| times[(k % times.len() as u64) as usize];
                items.push((0x20u32 << (j % 4), [t(i), t(j), t(i + j), t(i + 2 * j + 1)]));
            }
            cov.distinct_states(items.len() as u64);
            whole(made::ntfs_flagged(&items), items.len(), cov)
        })
    });
    let days = [0u16, 0x21, 0x3d0c, 0xff9f, 0x28ff, 0x2a5d, 0x285d, 0x9f, 0x1a0, 0x20];
    let clock = [0u16, 1, 29, 30, 0xa8d0, 0xbf7d, 0xc000, 0x780];
    c.family("times of FAT", (days.len() * clock.len()) as u64, |i, cov| {
        let (d, t) = (days[i as usize / clock.len()], clock[i as usize % clock.len()]);
        cov.trace();
        run(format!("{d:x} {t:x}"), || {
            let mut items = vec![];
            for (k, x) in days.iter().enumerate() {
                let y = clock[(k + 3) % clock.len()];
                let b = |x: u16| x.to_le_bytes();
                let tenth = [0u8, 1, 99, 100, 199, 200, 255][k % 7];
                items.push((0x20u8, [tenth, b(t)[0], b(t)[1], b(d)[0], b(d)[1], b(*x)[0], b(*x)[1]], [b(y)[0], b(y)[1], b(d)[0], b(d)[1]]));
            }
            cov.distinct_states(items.len() as u64);
            whole(made::fat_flagged(&items), items.len(), cov)
        })
    });
    c.family("flags", 1, |_, cov| {
        cov.trace();
        run("flags".into(), || {
            let t = e + 12345678901234567;
            let items: Vec<(u32, [u64; 4])> = (0..8u32).chain((3..32).map(|b| 1 << b)).filter(|f| f & 0x400 == 0).map(|f| (f, [t, t + 1, t + 2, t + 3])).collect();
            cov.distinct_states(items.len() as u64);
            for x in items.chunks(20) {
                whole(made::ntfs_flagged(x), x.len(), cov)?;
            }
            // Neither labels nor directories.
            let items: Vec<(u8, [u8; 7], [u8; 4])> = (0..=255u8).filter(|a| a & 0x18 == 0).map(|a| (a, [0, 0, 0, 0x21, 0x3d, 0x21, 0x3d], [0, 0, 0x21, 0x3d])).collect();
            cov.distinct_states(items.len() as u64);
            for x in items.chunks(12) {
                whole(made::fat_flagged(x), x.len(), cov)?;
            }
            Ok(())
        })
    });
    // Times by themselves.
    let bounds = around(&[0, e, 1 << 63, u64::MAX, 0x01cb3a623d0a17ce, e - 10000000, e + 10000000, e + (1 << 31) * 10000000, e - (1 << 31) * 10000000, e + (1 << 32) * 10000000], c.pick(300, 3000));
    c.family("file times", bounds.len() as u64, |i, cov| {
        cov.trace();
        cov.distinct_states(1);
        run(format!("{}", bounds[i as usize]), || time_is(DateTime::Filetime(Filetime::new(bounds[i as usize])), cov))
    });
    c.family("dates", 65536, |i, cov| {
        cov.trace();
        cov.distinct_states(1);
        run(format!("{i:x}"), || {
            let d = i as u16;
            time_is(DateTime::FatDate(FatDate::new(d)), cov)?;
            for t in clock {
                time_is(DateTime::FatTimeDate(FatTimeDate::new(d, t)), cov)?;
                for f in [0, 1, 99, 100, 199] {
                    time_is(DateTime::FatTimeDate10Ms(FatTimeDate10Ms::new(d, t, f)), cov)?;
                }
            }
            // As a time.
            for x in [0x21u16, 0x285d, 0xff9f] {
                time_is(DateTime::FatTimeDate(FatTimeDate::new(x, d)), cov)?;
            }
            Ok(())
        })
    });
    let nanos = [0u32, 1, 9, 10, 499_999_999, 500_000_000, 999_999_999];
    let at: Vec<i64> = around(&[0, i32::MAX as u64, i32::MIN as i64 as u64, u32::MAX as u64, 1 << 34], c.pick(50, 500)).into_iter().map(|x| x as i64).collect();
    c.family("POSIX times", at.len() as u64, |i, cov| {
        cov.trace();
        cov.distinct_states(nanos.len() as u64);
        run(format!("{}", at[i as usize]), || {
            for n in nanos {
                time_is(DateTime::PosixTime64Ns(PosixTime64Ns::new(at[i as usize], n)), cov)?;
            }
            time_is(DateTime::PosixTime32(PosixTime32::new(at[i as usize] as i32)), cov)
        })
    });
    // Sizes for people: the unit is the largest there is not less than one of.
    let sizes: Vec<u64> = (0..7).flat_map(|k| [1000u64.checked_pow(k), 1024u64.checked_pow(k)]).flatten().flat_map(|x| [1, 2, 9, 10, 18].map(|m| x.saturating_mul(m))).flat_map(|x| [x.saturating_sub(1), x, x.saturating_add(1), x.saturating_add(x / 20)]).chain([u64::MAX]).collect();
    c.family("sizes", sizes.len() as u64, |i, cov| {
        cov.trace();
        cov.distinct_states(2);
        run(format!("{}", sizes[i as usize]), || {
            for base in [1000u64, 1024] {
                let v = sizes[i as usize];
                cov.step();
                let got = formatters::format_as_bytesize(v, base);
                let k = (1..7).rev().find(|k| (v as u128) >= (base as u128).pow(*k));
                let want = match k {
                    None => format!("{v} B"),
                    Some(k) => format!("{:.1} {}{}", v as f64 / (base as f64).powi(k as i32), ["", "K", "M", "G", "T", "P", "E"][k as usize], if base == 1024 { "iB" } else { "B" }),
                };
                if got != want {
                    return Err(format!("{v} to base {base} is {got}, not {want}"));
                }
            }
            Ok(())
        })
    });
    // Names in file systems.
    let special: Vec<char> = (1..0x100u32).chain([0x2028, 0xe000, 0xfdd0, 0xfdef, 0xfffd, 0xfffe, 0x1f600]).filter_map(char::from_u32).collect();
    let per = 12;
    let n = special.len().div_ceil(per) as u64;
    c.family("names in file systems", n * 3, |i, cov| {
        let chars = &special[(i / 3) as usize * per..special.len().min(((i / 3) as usize + 1) * per)];
        cov.trace();
        cov.distinct_states(1);
        run(format!("{chars:?} {}", i % 3), || {
            let utf16 = |s: &str| s.encode_utf16().collect::<Vec<u16>>();
            let media = match i % 3 {
                0 => made::ext_named(&[b'd', 0xff, 0xc3], &chars.iter().filter(|c| **c != '/').map(|c| format!("a{c}b").into_bytes()).chain([vec![0x80, 0x41], vec![0xe2, 0x82]]).collect::<Vec<_>>()),
                1 => made::fat_named(&chars.iter().filter(|c| **c as u32 >= 0x20).map(|c| utf16(&format!("a{c}b"))).collect::<Vec<_>>()),
                _ => {
                    let mut used = HashSet::new();
                    let keep = |c: &&char| used.insert(c.to_uppercase().collect::<String>());
                    let v: Vec<(Vec<u16>, Option<Vec<u16>>)> = chars.iter().filter(keep).map(|c| (utf16(&format!("a{c}b")), Some(utf16(&format!("s{c}"))))).collect();
                    made::ntfs_named(&[0x64, 0xd800], &v)
                }
            };
            whole(media, 0, cov)
        })
    });
    // Images of which the end is gone.
    let step = c.pick(4096, 1024);
    let kinds = [1usize, 2, 3, 4];
    let counts: Vec<u64> = kinds.iter().map(|k| file_systems()[*k].bytes().len() as u64 / step as u64).collect();
    c.family("cut", counts.iter().sum(), |i, cov| {
        let (mut k, mut at) = (0, i);
        while at >= counts[k] {
            at -= counts[k];
            k += 1;
        }
        cov.trace();
        cov.distinct_states(1);
        run(format!("{} {}", file_systems()[kinds[k]].name, at * step as u64), || {
            let mut b = file_systems()[kinds[k]].bytes();
            b.truncate(at as usize * step);
            let mut c = Segs::default();
            c.size = b.len() as u64;
            c.put(0, b);
            let s = Scratch::new("cut");
            let p = s.put(&vec![("image".into(), c)]);
            body_as_told(&p, None, false, false, cov)?;
            body_as_told(&p, None, false, true, cov).map(|_| ())
        })
    });
    c.finish()
}
