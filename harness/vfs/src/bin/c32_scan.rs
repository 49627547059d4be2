//! C32: the scanner finds the layers that are in a file, and nothing else.
use keramics_vfs::*;
use mc_engine::util::{seq_count, seq_decode};
use mc_engine::{Check, Cov, Failure, guarded};
use mc_vfs::*;

type Res = Result<(), String>;

fn scan(s: &VfsScanner, l: &VfsLocation) -> Result<VfsScanNode, String> {
    let mut c = VfsScanContext::new();
    s.scan(&mut c, l).map_err(err)?;
    c.root_node.ok_or("no root node".into())
}

fn scanner() -> Result<VfsScanner, String> {
    let mut s = VfsScanner::new();
    s.build().map_err(|e| e.to_string())?;
    Ok(s)
}

fn same(n: &VfsScanNode, w: &Want, cov: &mut Cov) -> Res {
    cov.step();
    if n.location != w.location {
        return Err(format!("found {}, not {}", n.location.to_string(), w.location.to_string()));
    }
    if n.get_type() != w.location.get_type() || n.is_file_system() != w.fs.is_some() || n.is_empty() != w.sub.is_empty() {
        return Err(format!("{} is said to be something else", n.location.to_string()));
    }
    if n.sub_nodes.len() != w.sub.len() {
        return Err(format!("{} nodes below {}, not {}: {:?}", n.sub_nodes.len(), n.location.to_string(), w.sub.len(), n.sub_nodes.iter().map(|x| x.location.to_string()).collect::<Vec<_>>()));
    }
    for (a, b) in n.sub_nodes.iter().zip(&w.sub) {
        same(a, b, cov)?;
    }
    Ok(())
}

/// The file systems that were found hold what they should.
fn open(w: &Want, deep: bool, cov: &mut Cov) -> Res {
    let r = VfsResolver::current();
    if let Some(k) = w.fs {
        let f = &file_systems()[k];
        let fs = r.open_file_system(&w.location).map_err(|e| format!("{}: {}", w.location.to_string(), err(e)))?;
        if deep {
            tree_is(&fs, w.location.get_type(), &f.root, cov).map_err(|m| format!("{}: {m}", w.location.to_string()))?;
        }
        let e = r.get_file_entry_by_location(&w.location).map_err(err)?;
        let mut e = e.ok_or(format!("{} is not found", w.location.to_string()))?;
        entry_is(w.location.get_type(), &mut e, &f.root, cov).map_err(|m| format!("{}: {m}", w.location.to_string()))?;
    } else if w.location.get_parent().is_none() || w.sub.is_empty() {
        let d = r.get_data_stream_by_path_and_name(&w.location, None).map_err(err)?;
        if d.is_none() && w.location.get_path().to_string() != "/" {
            return Err(format!("{} has no data stream", w.location.to_string()));
        }
    }
    for x in &w.sub {
        open(x, deep, cov)?;
    }
    Ok(())
}

fn run(key: String, f: impl FnOnce() -> Res) -> Result<(), Failure> {
    guarded(f).unwrap_or_else(Err).map_err(|m| Failure::new(&key, m))
}

fn image(w: Wrap, d: &Disk, deep: bool, cov: &mut Cov) -> Res {
    let s = Scratch::new("scan");
    let p = s.put(&w.files(&d.media()));
    let os = new_os_vfs_location(&p);
    let x = want(w, d, &os);
    let n = scan(&scanner()?, &os)?;
    same(&n, &x, cov)?;
    cov.distinct_states(1);
    open(&x, deep, cov)
}

/// Files that no node is found in, and what is no file.
fn others(cov: &mut Cov) -> Res {
    let s = Scratch::new("others");
    let sc = scanner()?;
    for n in [0usize, 1, 2, 511, 512, 513, 1024, 4096, 65536, 65537] {
        for fill in [0u8, 0x20, 0x55, 0xff] {
            cov.step();
            let p = s.path(&format!("file{n}-{fill}"));
            std::fs::write(&p, vec![fill; n]).unwrap();
            let os = new_os_vfs_location(&p);
            let node = scan(&sc, &os).map_err(|m| format!("{n} bytes {fill:#x}: {m}"))?;
            if node.location != os || !node.sub_nodes.is_empty() {
                return Err(format!("{n} bytes {fill:#x}: {node:?}"));
            }
        }
    }
    std::fs::create_dir(s.path("dir")).unwrap();
    for p in [s.path("missing"), s.path("dir"), "/dev/null".to_string(), s.path("file0-0/below")] {
        cov.step();
        let os = new_os_vfs_location(&p);
        let mut c = VfsScanContext::new();
        if sc.scan(&mut c, &os).is_ok() || c.root_node.is_some() {
            return Err(format!("{p:?} is scanned"));
        }
    }
    Ok(())
}

struct Library {
    _scratch: Vec<Scratch>,
    items: Vec<(VfsLocation, Option<Want>)>,
}

fn library() -> Library {
    let list = [(Raw, Bare(1)), (Raw, Parts(VfsType::Mbr, vec![2, 1])), (QcowChain, Bare(3)), (Ewf, Parts(VfsType::Gpt, vec![1])), (VhdxChain, Parts(VfsType::Apm, vec![0, 2])), (Udif, Bare(2)), (Raw, Bare(0))];
    let mut l = Library { _scratch: vec![], items: vec![] };
    for (w, d) in list {
        let s = Scratch::new("library");
        let p = s.put(&w.files(&d.media()));
        let os = new_os_vfs_location(&p);
        let x = want(w, &d, &os);
        l.items.push((os, Some(x)));
        l._scratch.push(s);
    }
    // An image that is not one, and none at all.
    let s = Scratch::new("library");
    let mut f = Qcow2.files(&file_systems()[1].bytes());
    let mut head = vec![0u8; 64];
    f[0].1.fill(0, &mut head);
    f[0].1 = mc_formats::Segs::default();
    f[0].1.put(0, head);
    let p = s.put(&f);
    l.items.push((new_os_vfs_location(&p), None));
    l.items.push((new_os_vfs_location(&s.path("missing")), None));
    l._scratch.push(s);
    l
}

/// Scans one after the other with one scanner and one resolver, of which what was found stays open or not.
fn history(l: &Library, ops: &[u64], cov: &mut Cov) -> Res {
    let n = l.items.len() as u64;
    let sc = scanner()?;
    let mut kept = vec![];
    let mut c = VfsScanContext::new();
    for (at, op) in ops.iter().enumerate() {
        let (os, w) = &l.items[(op % n) as usize];
        let got = sc.scan(&mut c, os);
        match w {
            None if got.is_ok() => return Err(format!("scan {at} does not fail")),
            None => continue,
            Some(w) => {
                got.map_err(|e| format!("scan {at}: {}", err(e)))?;
                same(c.root_node.as_ref().ok_or("no root node")?, w, cov).map_err(|m| format!("scan {at}: {m}"))?;
                open(w, false, cov).map_err(|m| format!("scan {at}: {m}"))?;
                if *op >= n {
                    // The innermost location.
                    let mut x = w;
                    while let Some(s) = x.sub.first() {
                        x = s;
                    }
                    kept.push(VfsResolver::current().open_file_system(&x.location).map_err(err)?);
                }
            }
        }
    }
    Ok(())
}

pub fn main() {
    let mut c = Check::new("C32");
    sweep();
    for f in file_systems() {
        c.note(f.name, f.media.size);
    }
    // The last two are large.
    let d = disks(c.pick(5, 7));
    let n = d.len() as u64;
    let deep = c.thorough();
    c.family("images", n * WRAPS.len() as u64, |i, cov| {
        let (w, d) = (WRAPS[(i / n) as usize], &d[(i % n) as usize]);
        cov.trace();
        cov.outcome(&format!("{:?}", w.kind()));
        run(format!("{w:?} {d:?}"), || image(w, d, deep || matches!(d, Bare(_)) || w == Raw, cov))
    });
    c.family("large file systems", 2 * WRAPS.len() as u64, |i, cov| {
        let (w, d) = (WRAPS[i as usize / 2], Bare(5 + i as usize % 2));
        cov.trace();
        run(format!("{w:?} {d:?}"), || image(w, &d, true, cov))
    });
    c.family("other files", 1, |_, cov| run("other files".into(), || others(cov)));
    let l = library();
    let n = 2 * l.items.len() as u64;
    let depth = c.pick(3, 4) as u32;
    c.family("scans", seq_count(n, depth), |i, cov| {
        let ops = seq_decode(n, i);
        cov.trace();
        cov.distinct_states(1);
        run(format!("{ops:?}"), || history(&l, &ops, cov))
    });
    drop(l);
    c.finish()
}
