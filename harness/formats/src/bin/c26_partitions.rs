// C26: partitions of APM, GPT and MBR volume systems.
use keramics_checksums::ReversedCrc32Context;
use keramics_core::DataStreamReference;
use keramics_formats::apm::ApmVolumeSystem;
use keramics_formats::gpt::GptVolumeSystem;
use keramics_formats::mbr::MbrVolumeSystem;
use mc_engine::util::{Digits, hash64, pattern, seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};
use mc_formats::*;
use std::sync::atomic::AtomicI64;
use std::sync::{Arc, RwLock};

/// What is known of a partition: offset, size, table entry, two identifiers and flags, as far as the format has them.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Part {
    at: u64,
    size: u64,
    entry: usize,
    kind: Vec<u8>,
    name: Vec<u8>,
    flags: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Apm,
    Gpt,
    Mbr,
}

enum Volume {
    A(ApmVolumeSystem),
    G(GptVolumeSystem),
    M(MbrVolumeSystem),
}

impl Volume {
    fn open(kind: Kind, set: u16, s: &DataStreamReference) -> Result<Volume, String> {
        match kind {
            Kind::Apm => {
                let mut v = ApmVolumeSystem::new();
                v.read_data_stream(s).map_err(err)?;
                Ok(Volume::A(v))
            }
            Kind::Gpt => {
                let mut v = GptVolumeSystem::new();
                if set != 0 {
                    v.set_bytes_per_sector(set).map_err(err)?;
                }
                v.read_data_stream(s).map_err(err)?;
                Ok(Volume::G(v))
            }
            Kind::Mbr => {
                let mut v = MbrVolumeSystem::new();
                if set != 0 {
                    v.set_bytes_per_sector(set).map_err(err)?;
                }
                v.read_data_stream(s).map_err(err)?;
                Ok(Volume::M(v))
            }
        }
    }
    fn count(&self) -> usize {
        match self {
            Volume::A(v) => v.get_number_of_partitions(),
            Volume::G(v) => v.get_number_of_partitions(),
            Volume::M(v) => v.get_number_of_partitions(),
        }
    }
    fn sector(&self) -> u16 {
        match self {
            Volume::A(v) => v.bytes_per_sector,
            Volume::G(v) => v.bytes_per_sector,
            Volume::M(v) => v.bytes_per_sector,
        }
    }
    fn part(&self, i: usize) -> Result<(Part, DataStreamReference), String> {
        Ok(match self {
            Volume::A(v) => {
                let p = v.get_partition_by_index(i).map_err(err)?;
                (Part { at: p.offset, size: p.size, entry: i, kind: p.type_identifier.elements.clone(), name: p.name.elements.clone(), flags: p.status_flags as u64 }, Arc::new(RwLock::new(p)))
            }
            Volume::G(v) => {
                let p = v.get_partition_by_index(i).map_err(err)?;
                (Part { at: p.offset, size: p.size, entry: p.entry_index, kind: p.type_identifier.to_string().into_bytes(), name: p.identifier.to_string().into_bytes(), flags: 0 }, Arc::new(RwLock::new(p)))
            }
            Volume::M(v) => {
                let p = v.get_partition_by_index(i).map_err(err)?;
                (Part { at: p.offset, size: p.size, entry: p.entry_index, kind: vec![p.partition_type], name: vec![], flags: p.flags as u64 }, Arc::new(RwLock::new(p)))
            }
        })
    }
}

/// The part of the disk that a partition has.
fn content<'a>(disk: &'a [u8], p: &Part) -> &'a [u8] {
    let n = disk.len() as u64;
    let a = p.at.min(n);
    let e = p.at.saturating_add(p.size).min(n);
    &disk[a as usize..e as usize]
}

/// Opens a disk and compares its partitions, the values and the data of each, with the expected ones.
fn disk(kind: Kind, set: u16, d: &Arc<Vec<u8>>, want: Option<&[Part]>, cov: &mut Cov) -> Result<(), String> {
    guarded(|| disk_inner(kind, set, d, want, cov)).unwrap_or_else(|p| Err(p))
}

fn disk_inner(kind: Kind, set: u16, d: &Arc<Vec<u8>>, want: Option<&[Part]>, cov: &mut Cov) -> Result<(), String> {
    cov.trace();
    cov.step();
    cov.state(&(kind as u8, set, hash64(&**d)));
    let v = match (Volume::open(kind, set, &mem(d)), want) {
        (Ok(v), Some(_)) => v,
        (Err(_), None) => {
            cov.outcome(&"refused");
            return Ok(());
        }
        (Ok(v), None) => return Err(format!("{} partitions of what has to be refused", v.count())),
        (Err(e), Some(_)) => return Err(format!("refused: {e}")),
    };
    let want = want.unwrap();
    cov.outcome(&want.len());
    if v.count() != want.len() {
        return Err(format!("{} partitions, expected {}", v.count(), want.len()));
    }
    let mut all = vec![];
    for (i, w) in want.iter().enumerate() {
        cov.step();
        let (p, s) = v.part(i).map_err(|e| format!("partition {i}: {e}"))?;
        if p != *w {
            return Err(format!("partition {i}: {p:?}, expected {w:?}"));
        }
        let n = s.write().unwrap().get_size().map_err(err)?;
        if n != w.size {
            return Err(format!("partition {i}: size {n}, expected {}", w.size));
        }
        all.push((s, content(d, w)));
    }
    if v.part(want.len()).is_ok() {
        return Err("a partition past the last one".into());
    }
    // In turns, each partition with its own position on the shared disk.
    for len in [1usize, 511, 512, 513, 2000] {
        for (s, _) in &all {
            s.write().unwrap().seek(std::io::SeekFrom::Start(0)).map_err(err)?;
        }
        for turn in 0..3usize {
            for (i, (s, c)) in all.iter().enumerate() {
                let a = (turn * len).min(c.len());
                let e = (a + len).min(c.len());
                let mut b = vec![0u8; len];
                cov.step();
                let n = s.write().unwrap().read(&mut b).map_err(err)?;
                if n != e - a || b[..n] != c[a..e] {
                    return Err(format!("partition {i}: read {turn} of {len} gives {n} bytes, expected those at {a}..{e}"));
                }
            }
        }
        for (i, (s, c)) in all.iter().enumerate() {
            let n = c.len() as u64;
            for at in [0, 1, 511, n.saturating_sub(1), n, n + 1, want[i].size, want[i].size.saturating_add(1), u64::MAX] {
                window(s, c, at, len, cov).map_err(|e| format!("partition {i}: {e}"))?;
            }
        }
    }
    Ok(())
}

// Apple partition map.

#[derive(Clone, Debug, Default)]
struct ApmEntry {
    count: u32,
    start: u32,
    sectors: u32,
    name: Vec<u8>,
    kind: Vec<u8>,
    flags: u32,
}

fn apm_entry(e: &ApmEntry) -> Vec<u8> {
    let mut b = vec![0u8; 512];
    b[..2].copy_from_slice(b"PM");
    p32b(&mut b, 4, e.count);
    p32b(&mut b, 8, e.start);
    p32b(&mut b, 12, e.sectors);
    b[16..16 + e.name.len()].copy_from_slice(&e.name);
    b[48..48 + e.kind.len()].copy_from_slice(&e.kind);
    p32b(&mut b, 80, 7);
    p32b(&mut b, 84, e.sectors.wrapping_sub(1));
    p32b(&mut b, 88, e.flags);
    b[136..].copy_from_slice(&pattern(376, 5));
    b
}

fn apm_disk(sectors: usize, entries: &[ApmEntry]) -> Vec<u8> {
    let mut d = pattern(sectors * 512, 1);
    d[..2].copy_from_slice(b"ER");
    p16b(&mut d, 2, 512);
    for (k, e) in entries.iter().enumerate() {
        d[512 * (k + 1)..512 * (k + 2)].copy_from_slice(&apm_entry(e));
    }
    d
}

fn until_zero(b: &[u8]) -> Vec<u8> {
    b[..b.iter().position(|x| *x == 0).unwrap_or(b.len())].to_vec()
}

fn apm_parts(entries: &[ApmEntry]) -> Vec<Part> {
    entries[1..]
        .iter()
        .enumerate()
        .map(|(i, e)| Part { at: e.start as u64 * 512, size: e.sectors as u64 * 512, entry: i, kind: until_zero(&e.kind), name: until_zero(&e.name), flags: e.flags as u64 })
        .collect()
}

fn apm_map(count: u32) -> ApmEntry {
    ApmEntry { count, start: 1, sectors: 63, name: b"Apple".to_vec(), kind: b"Apple_partition_map".to_vec(), flags: 3 }
}

/// Ranges on a disk of some sectors: inside, overlapping, up to the end, past it, empty and far away.
fn ranges(first: u32, n: u32) -> Vec<(u32, u32)> {
    vec![(first, 1), (first + 1, 3), (first, n - first), (n - 1, 1), (n - 2, 4), (n, 2), (0, n), (first + 2, 0), (u32::MAX, 1), (first + 3, u32::MAX)]
}

fn apm(check: &mut Check) {
    let depth = check.pick(3, 4);
    let r = ranges(7, 24);
    let k = r.len() as u64;
    check.family("apm, sequences of entries", seq_count(k, depth), |i, cov| {
        let s = seq_decode(k, i);
        let n = s.len() as u32 + 1;
        let mut e = vec![apm_map(n)];
        for (x, c) in s.iter().enumerate() {
            let (start, sectors) = r[*c as usize];
            e.push(ApmEntry { count: n, start, sectors, name: format!("disk{x}").into_bytes(), kind: b"Apple_HFS".to_vec(), flags: 1 << x });
        }
        disk(Kind::Apm, 0, &Arc::new(apm_disk(24, &e)), Some(&apm_parts(&e)), cov).map_err(|m| Failure::new(format!("{s:?}"), m))
    });
    check.family("apm, names and types", 33 * 33 * 2, |i, cov| {
        let mut g = Digits(i);
        let (a, b, rest) = (g.take(33) as usize, g.take(33) as usize, g.take(2));
        let field = |n: usize, salt: u64| {
            let mut x: Vec<u8> = pattern(n, salt).iter().map(|c| c % 94 + 33).collect();
            if n < 31 && rest == 1 {
                x.push(0);
                x.extend(vec![b'Z'; 31 - n]);
            }
            x
        };
        let e = vec![apm_map(2), ApmEntry { count: 2, start: 5, sectors: 2, name: field(a, 2), kind: field(b, 3), flags: 0 }];
        disk(Kind::Apm, 0, &Arc::new(apm_disk(8, &e)), Some(&apm_parts(&e)), cov).map_err(|m| Failure::new(format!("{a} {b} {rest}"), m))
    });
    let counts = [0u32, 1, 2, 3, 4, 5, 6, 7, 255, 256, u32::MAX];
    let n = counts.len() as u64;
    check.family("apm, numbers of entries", n * 6 * n * 7, |i, cov| {
        let mut g = Digits(i);
        let (first, stored, other, at) = (*g.pick(&counts), g.take(6) as usize, *g.pick(&counts), g.take(7) as usize);
        let mut e = vec![apm_map(first)];
        for x in 0..stored {
            e.push(ApmEntry { count: if x == at { other } else { first }, start: 9, sectors: 1 + x as u32, name: vec![b'a' + x as u8], kind: b"Apple_Free".to_vec(), flags: 0 });
        }
        let d = apm_disk(12, &e);
        let used = (first.max(1) as usize) - 1;
        let want = if used > stored || e[1..=used.min(stored)].iter().any(|x| x.count != first) { None } else { Some(apm_parts(&e[..=used])) };
        disk(Kind::Apm, 0, &Arc::new(d), want.as_deref(), cov).map_err(|m| Failure::new(format!("{first} {stored} {other} {at}"), m))
    });
    check.family("apm, flags, signatures and the type of the map", 32 + 2 * 512 + 20, |i, cov| {
        let mut e = vec![apm_map(3)];
        for x in 0..2u32 {
            e.push(ApmEntry { count: 3, start: 5 + x, sectors: 1, name: vec![], kind: vec![], flags: if i < 32 { 1 << i } else { 0 } });
        }
        let mut d = apm_disk(8, &e);
        let mut want = Some(apm_parts(&e));
        if (32..32 + 1024).contains(&i) {
            let j = i - 32;
            let at = [512usize, 513, 1024, 1025][(j / 256) as usize];
            if d[at] != j as u8 {
                want = None;
            }
            d[at] = j as u8;
        } else if i >= 32 {
            // The whole type has to be there, and nothing after it.
            let j = (i - 32 - 1024) as usize;
            d[512 + 48 + j] = b'x';
            want = None;
        }
        disk(Kind::Apm, 0, &Arc::new(d), want.as_deref(), cov).map_err(|m| Failure::new(format!("{i}"), m))
    });
}

// GUID partition table.

fn crc(b: &[u8]) -> u32 {
    let mut c = ReversedCrc32Context::new(0xedb88320, 0);
    c.update(b);
    c.finalize()
}

fn guid(salt: u64) -> Vec<u8> {
    pattern(16, salt)
}

fn guid_text(b: &[u8]) -> Vec<u8> {
    let h = |x: &[u8]| x.iter().map(|c| format!("{c:02x}")).collect::<String>();
    let r = |x: &[u8]| h(&x.iter().rev().copied().collect::<Vec<u8>>());
    format!("{}-{}-{}-{}-{}", r(&b[..4]), r(&b[4..6]), r(&b[6..8]), h(&b[8..10]), h(&b[10..])).into_bytes()
}

#[derive(Clone, Debug)]
struct Gpt {
    sector: u64,
    sectors: u64,
    /// Slots of the table: unused, or the first and the last block.
    slots: Vec<Option<(u64, u64)>>,
    number: u32,
    entry_size: u32,
    entries_at: u64,
    backup_at: u64,
    first: u64,
    last: u64,
    version: u32,
    header_size: u32,
    /// Of the header, the backup header and the entries: 0 right, 1 zero, 2 wrong.
    sums: [u8; 3],
    /// Where a backup header lies, and a second one.
    backups: Vec<u64>,
}

impl Gpt {
    fn new(sector: u64, slots: &[Option<(u64, u64)>]) -> Gpt {
        let n = slots.len() as u32;
        let table = (n as u64 * 128).div_ceil(sector).max(1);
        let sectors = 2 + table + 12 + 1;
        Gpt {
            sector,
            sectors,
            slots: slots.to_vec(),
            number: n,
            entry_size: 128,
            entries_at: 2,
            backup_at: sectors - 1,
            first: 2 + table,
            last: sectors - 2,
            version: 0x10000,
            header_size: 92,
            sums: [0; 3],
            backups: vec![sectors - 1],
        }
    }

    fn header(&self, own: u64, other: u64, entries: u32, sum: u8) -> Vec<u8> {
        let mut h = vec![0u8; 92];
        h[..8].copy_from_slice(b"EFI PART");
        p32l(&mut h, 8, self.version);
        p32l(&mut h, 12, self.header_size);
        p64l(&mut h, 24, own);
        p64l(&mut h, 32, other);
        p64l(&mut h, 40, self.first);
        p64l(&mut h, 48, self.last);
        h[56..72].copy_from_slice(&guid(77));
        p64l(&mut h, 72, self.entries_at);
        p32l(&mut h, 80, self.number);
        p32l(&mut h, 84, self.entry_size);
        p32l(&mut h, 88, entries);
        let c = match sum {
            0 => crc(&h),
            1 => 0,
            _ => crc(&h) ^ 0x100,
        };
        p32l(&mut h, 16, c);
        h
    }

    fn slot(&self, k: usize) -> Vec<u8> {
        let mut e = vec![0u8; 128];
        e[16..].copy_from_slice(&pattern(112, 40 + k as u64));
        if let Some((a, b)) = self.slots[k] {
            e[..16].copy_from_slice(&guid(200 + k as u64));
            p64l(&mut e, 32, a);
            p64l(&mut e, 40, b);
        }
        e
    }

    fn build(&self) -> Vec<u8> {
        let b = self.sector as usize;
        let mut d = pattern(self.sectors as usize * b, 3);
        d[..512].fill(0);
        p16l(&mut d, 510, 0xaa55);
        d[512..(2 * b).max(512)].fill(0);
        let mut table: Vec<u8> = (0..self.slots.len()).flat_map(|k| self.slot(k)).collect();
        let at = 2 * b;
        d[at..at + table.len()].copy_from_slice(&table);
        table.truncate(self.number as usize * 128);
        let sum = match self.sums[2] {
            0 => crc(&table),
            1 => 0,
            _ => crc(&table) ^ 1,
        };
        d[b..b + 92].copy_from_slice(&self.header(1, self.backup_at, sum, self.sums[0]));
        for x in &self.backups {
            let at = *x as usize * b;
            d[at..at + 92].copy_from_slice(&self.header(*x, 1, sum, self.sums[1]));
        }
        d
    }

    /// The partitions, nothing when the disk has to be refused, or may be.
    fn want(&self) -> Option<Vec<Part>> {
        let bad_entries = self.sums[2] == 2;
        let backup = self.backup_at == 0 || self.sums[1] != 2 && (self.backups.contains(&self.backup_at) || self.backups.contains(&(self.sectors - 1)));
        if self.sums[0] == 2 || bad_entries || !backup || self.version != 0x10000 || self.header_size != 92 || self.entry_size != 128 || self.entries_at != 2 {
            return None;
        }
        if self.number as u64 > 32 * self.sector / 128 || self.number as usize > self.slots.len() {
            return None;
        }
        let mut r = vec![];
        for k in 0..self.number as usize {
            let Some((a, b)) = self.slots[k] else { continue };
            if a < self.first || b < a {
                return None;
            }
            let size = (b - a).checked_add(1)?.checked_mul(self.sector)?;
            let at = a.checked_mul(self.sector)?;
            let e = self.slot(k);
            r.push(Part { at, size, entry: k, kind: guid_text(&e[..16]), name: guid_text(&e[16..32]), flags: 0 });
        }
        Some(r)
    }
}

fn gpt_disk(g: &Gpt, set: bool, cov: &mut Cov) -> Result<(), String> {
    let d = Arc::new(g.build());
    let want = g.want();
    disk(Kind::Gpt, if set { g.sector as u16 } else { 0 }, &d, want.as_deref(), cov)?;
    if want.is_some() {
        let v = Volume::open(Kind::Gpt, 0, &mem(&d))?;
        if v.sector() as u64 != g.sector {
            return Err(format!("sectors of {} bytes, expected {}", v.sector(), g.sector));
        }
        let Volume::G(v) = v else { unreachable!() };
        if v.disk_identifier.to_string().into_bytes() != guid_text(&guid(77)) {
            return Err(format!("disk identifier {}", v.disk_identifier.to_string()));
        }
    }
    Ok(())
}

fn gpt(check: &mut Check) {
    let depth = check.pick(3, 4);
    // First block of the partitions 3 for tables of one block: up to four slots of 128 bytes in 512.
    let kinds: [Option<(u64, u64)>; 9] = [None, Some((3, 3)), Some((3, 5)), Some((4, 13)), Some((13, 14)), Some((12, 30)), Some((40, 50)), Some((2, 3)), Some((6, 5))];
    let k = kinds.len() as u64;
    check.family("gpt, sequences of entries", seq_count(k, depth) * 4, |i, cov| {
        let (set, sector, j) = (i % 2 == 1, [512u64, 4096][(i / 2 % 2) as usize], i / 4);
        let s: Vec<Option<(u64, u64)>> = seq_decode(k, j).iter().map(|x| kinds[*x as usize]).collect();
        let g = Gpt::new(sector, &s);
        gpt_disk(&g, set, cov).map_err(|m| Failure::new(format!("{sector} {set} {s:?}"), m))
    });
    check.family("gpt, numbers of entries", 2 * 6 * 9, |i, cov| {
        let mut g = Digits(i);
        let sector = *g.pick(&[512u64, 4096]);
        let full = 32 * sector / 128;
        let slots = *g.pick(&[1u64, 2, 5, 33, full, full + 1]) as usize;
        let number = *g.pick(&[0u64, 1, 2, 5, 32, slots as u64, full, full + 1, u32::MAX as u64]);
        let table = (slots as u64 * 128).div_ceil(sector);
        let s: Vec<Option<(u64, u64)>> = (0..slots).map(|x| if x % 3 == 1 { None } else { Some((2 + table + x as u64 % 7, 2 + table + x as u64 % 7 + x as u64 % 4)) }).collect();
        let mut v = Gpt::new(sector, &s);
        v.number = number as u32;
        if number as usize > slots && number <= full {
            // What lies behind the table is not for the model to say.
            return Ok(());
        }
        gpt_disk(&v, false, cov).map_err(|m| Failure::new(format!("{sector} {slots} {number}"), m))
    });
    check.family("gpt, checksums and places of the backup", 27 * 2 * 2 * 8, |i, cov| {
        let mut g = Digits(i);
        let sums = [g.take(3) as u8, g.take(3) as u8, g.take(3) as u8];
        let sector = *g.pick(&[512u64, 4096]);
        let set = g.take(2) == 1;
        let place = g.take(8);
        let mut v = Gpt::new(sector, &[Some((5, 6)), None, Some((3, 9))]);
        v.sums = sums;
        let end = v.sectors - 1;
        match place {
            0 => {}
            1 => (v.backups, v.backup_at) = (vec![end - 1], end - 1),
            2 => v.backup_at = end - 1,
            3 => v.backup_at = end + 9,
            4 => v.backup_at = 0,
            5 => (v.backups, v.backup_at) = (vec![], 0),
            6 => v.backups = vec![],
            _ => (v.backups, v.backup_at) = (vec![end], u64::MAX / v.sector),
        }
        gpt_disk(&v, set, cov).map_err(|m| Failure::new(format!("{sums:?} {sector} {place}"), m))
    });
    let edges = |w: u64| vec![0u64, 1, 2, 3, 4, w - 1, w, w + 1, u64::MAX / 4096, u64::MAX / 4096 + 1, u64::MAX / 512, u64::MAX / 512 + 1, 1 << 55, 1 << 63, u64::MAX - 1, u64::MAX];
    check.family("gpt, values at the edges", 2 * 8 * 16 * 16, |i, cov| {
        let mut g = Digits(i);
        let sector = *g.pick(&[512u64, 4096]);
        let field = g.take(8);
        let mut v = Gpt::new(sector, &[Some((5, 6)), Some((3, 9))]);
        let e = edges(v.sectors);
        let (x, y) = (*g.pick(&e), *g.pick(&e));
        match field {
            0 => v.backup_at = x,
            1 => (v.first, v.last) = (x, y),
            2 => v.entries_at = x,
            3 => v.number = x as u32,
            4 => v.entry_size = [0, 1, 64, 127, 128, 129, 256, 512, 1 << 31, u32::MAX][x as usize % 10],
            5 => v.slots[0] = Some((x, y)),
            6 => v.slots[1] = Some((x, y)),
            _ => (v.version, v.header_size) = ([0x10000, 0x10001, 0, 0x20000, 1, u32::MAX][x as usize % 6], [92, 91, 93, 0, 512, u32::MAX][y as usize % 6]),
        }
        if field == 2 && x != 2 && x < v.sectors || field == 3 && (2..=32 * sector / 128).contains(&(v.number as u64)) {
            v.sums[2] = 2;
        }
        let d = Arc::new(v.build());
        let key = format!("{sector} {field} {x} {y}");
        let want = v.want();
        let out = |p: &Part| p.at.checked_add(p.size).is_none();
        if want.as_ref().is_some_and(|w| !w.iter().any(out)) {
            return gpt_disk(&v, false, cov).map_err(|m| Failure::new(key, m));
        }
        // Refused as a whole, or the partitions that have no place.
        cov.step();
        let r = guarded(|| {
            let v = Volume::open(Kind::Gpt, 0, &mem(&d))?;
            for i in 0..v.count() {
                let (p, s) = v.part(i)?;
                if p.at.checked_add(p.size).is_none() {
                    return Ok(Some(format!("{p:?}")));
                }
                let _ = s.write().unwrap().read(&mut [0u8; 9]);
            }
            Ok::<Option<String>, String>(if field == 5 || field == 6 { Some(format!("{} partitions", v.count())) } else { None })
        });
        match r {
            Err(p) => Err(Failure::new(key, p)),
            Ok(Err(_)) | Ok(Ok(None)) => Ok(()),
            Ok(Ok(Some(m))) => Err(Failure::new(key, format!("not refused: {m}"))),
        }
    });
}

// Master boot record.

/// A slot: type, start and number of sectors, flags.
type Slot = (u8, u32, u32, u8);

fn boot_record(d: &mut [u8], slots: &[Slot]) {
    d[446..510].fill(0);
    for (k, (kind, start, sectors, flags)) in slots.iter().enumerate() {
        let e = 446 + 16 * k;
        d[e] = *flags;
        d[e + 4] = *kind;
        if *kind != 0 {
            d[e + 1..e + 4].copy_from_slice(&[0xfe, 0xff, 0xff]);
            d[e + 5..e + 8].copy_from_slice(&[0xfe, 0xff, 0xff]);
        }
        p32l(d, e + 8, *start);
        p32l(d, e + 12, *sectors);
    }
    d[510] = 0x55;
    d[511] = 0xaa;
}

/// A disk without boot signatures in its sectors.
fn blank(sector: usize, sectors: usize) -> Vec<u8> {
    let mut d = pattern(sector * sectors, 9);
    for x in d.chunks_mut(512) {
        x[510] = 0x11;
    }
    d
}

fn mbr_part(sector: u64, base: u64, entry: usize, s: &Slot) -> Part {
    Part { at: base + s.1 as u64 * sector, size: s.2 as u64 * sector, entry, kind: vec![s.0], name: vec![], flags: s.3 as u64 }
}

/// A chain of extended boot records. The slots of one: 0 partition then link, 1 link then partition, 2 nothing then
/// link, 3 partition and a link of type 15, 4 two partitions and a link, 5 partition in the last slot and a link in the
/// third, 6 nothing then partition and link.
const CHAIN: u64 = 7;

fn mbr_chain(sector: usize, at: usize, mbr_kind: u8, kinds: &[u64], down: bool) -> (Vec<u8>, Vec<Part>) {
    let n = kinds.len();
    // The extended partition starts at sector 4, each of its records takes 5 sectors.
    let first = 4usize;
    let sectors = first + 5 * (n + 1);
    let mut d = blank(sector, sectors);
    let mut slots: Vec<Slot> = vec![(0, 0, 0, 0); 4];
    slots[at] = (mbr_kind, first as u32, (sectors - first) as u32, 0);
    let others = [(0x83u8, 1u32, 1u32, 0x80u8), (7, 2, 2, 0)];
    let mut o = others.iter();
    for k in 0..4 {
        if k != at && k % 2 == 0 {
            if let Some(x) = o.next() {
                slots[k] = *x;
            }
        }
    }
    let b = sector as u64;
    let mut parts: Vec<Part> = vec![];
    for (k, s) in slots.iter().enumerate() {
        if k != at && s.0 != 0 {
            parts.push(mbr_part(b, 0, k, s));
        }
    }
    boot_record(&mut d, &slots);
    // The first record is at the start; the others follow in either direction.
    let place = |j: usize| if j == 0 || !down { 5 * j } else { 5 * (n - j) };
    for (j, kind) in kinds.iter().enumerate() {
        let own = first + place(j);
        let p: Slot = (0x83 + (j % 3) as u8 * 2, 1, 1 + j as u32 % 4, if j % 2 == 0 { 0 } else { 0x80 });
        let q: Slot = (0x0b, 2, 1, 0);
        let link: Slot = if j + 1 < n { (if *kind == 3 { 15 } else { 5 }, place(j + 1) as u32, 5, 0) } else { (0, 0, 0, 0) };
        let none: Slot = (0, 0, 0, 0);
        let s = match kind {
            0 | 3 => vec![p, link],
            1 => vec![link, p],
            2 => vec![none, link],
            4 => vec![p, q, link],
            5 => vec![none, none, link, p],
            _ => vec![none, p, link],
        };
        let base = (own * sector) as u64;
        for (k, x) in s.iter().enumerate() {
            if x.0 != 0 && x.0 != 5 && x.0 != 15 {
                parts.push(mbr_part(b, base, 4 * (j + 1) + k, x));
            }
        }
        boot_record(&mut d[own * sector..own * sector + 512], &s);
    }
    (d, parts)
}

fn mbr(check: &mut Check) {
    let sectors = [512usize, 1024, 2048, 4096];
    let r = ranges(2, 16);
    let k = r.len() as u64 + 1;
    check.family("mbr, primary partitions", k.pow(4) * check.pick(1, 4), |i, cov| {
        let mut g = Digits(i);
        let s: Vec<u64> = (0..4).map(|_| g.take(k)).collect();
        let sector = sectors[((i / k.pow(4) + i) % 4) as usize];
        let slots: Vec<Slot> = s.iter().enumerate().map(|(x, c)| if *c == 0 { (0, 0, 0, 0) } else { (7 + x as u8, r[*c as usize - 1].0, r[*c as usize - 1].1, if x % 2 == 0 { 0x80 } else { 0 }) }).collect();
        let mut d = blank(sector, 16);
        boot_record(&mut d, &slots);
        p32l(&mut d, 440, 0x12345678);
        let want: Vec<Part> = slots.iter().enumerate().filter(|(_, x)| x.0 != 0).map(|(n, x)| mbr_part(sector as u64, 0, n, x)).collect();
        let d = Arc::new(d);
        disk(Kind::Mbr, sector as u16, &d, Some(&want), cov).map_err(|m| Failure::new(format!("{sector} {s:?}"), m))?;
        match Volume::open(Kind::Mbr, sector as u16, &mem(&d)) {
            Ok(Volume::M(v)) if v.disk_identity == 0x12345678 => Ok(()),
            _ => Err(Failure::new(format!("{sector} {s:?}"), "disk identity")),
        }
    });
    check.family("mbr, types and flags", 512, |i, cov| {
        let (kind, flags) = if i < 256 { (i as u8, 0x80) } else { (7, i as u8) };
        if kind == 5 || kind == 15 {
            return Ok(());
        }
        let mut d = blank(512, 8);
        let s: Vec<Slot> = vec![(kind, 1, 2, flags), (0xee, 3, 4, 1)];
        boot_record(&mut d, &s);
        let want: Vec<Part> = s.iter().enumerate().filter(|(_, x)| x.0 != 0).map(|(n, x)| mbr_part(512, 0, n, x)).collect();
        disk(Kind::Mbr, 512, &Arc::new(d), Some(&want), cov).map_err(|m| Failure::new(format!("{kind} {flags}"), m))
    });
    let depth = check.pick(4, 5);
    check.family("mbr, chains of extended boot records", seq_count(CHAIN, depth) * 2 * 2 * 2 * 16, |i, cov| {
        let mut g = Digits(i);
        let (sector, at, kind, set, down) = (*g.pick(&sectors), g.take(4) as usize, *g.pick(&[5u8, 15]), g.take(2) == 1, g.take(2) == 1);
        let s = seq_decode(CHAIN, g.0);
        if s.is_empty() || (s.len() > 2 && at > 0) {
            return Ok(());
        }
        let (d, want) = mbr_chain(sector, at, kind, &s, down);
        disk(Kind::Mbr, if set { sector as u16 } else { 0 }, &Arc::new(d), Some(&want), cov).map_err(|m| Failure::new(format!("{sector} {at} {kind} {set} {down} {s:?}"), m))
    });
    check.family("mbr, lengths of chains", 40 * 2, |i, cov| {
        let n = [1usize, 2, 3, 10, 50, 100, 200, 250, 253, 254][(i / 8) as usize] + (i / 2 % 4) as usize;
        if n > 254 {
            return Ok(());
        }
        let (d, want) = mbr_chain(512, 1, 5, &vec![0; n], i % 2 == 1);
        disk(Kind::Mbr, 0, &Arc::new(d), Some(&want), cov).map_err(|m| Failure::new(format!("{n}"), m))
    });
    check.family("mbr, chains that do not end", 64 * 4, |i, cov| {
        // Record j links to record t[j] of the four: every such map that never leaves.
        let mut g = Digits(i);
        let t: Vec<usize> = (0..4).map(|_| g.take(4) as usize).collect();
        let first = 4usize;
        let mut d = blank(512, 40);
        boot_record(&mut d, &[(5, first as u32, 36, 0)]);
        for (j, x) in t.iter().enumerate() {
            let own = (first + 5 * j) * 512;
            boot_record(&mut d[own..own + 512], &[(7, 1, 1, 0), (5, 5 * *x as u32, 5, 0)]);
        }
        disk(Kind::Mbr, 0, &Arc::new(d), None, cov).map_err(|m| Failure::new(format!("{t:?}"), m))
    });
    check.family("mbr, records that are refused", 5 * 3 * 3, |i, cov| {
        let mut g = Digits(i);
        let (what, n, j) = (g.take(5), 1 + g.take(3) as usize, g.take(3) as usize);
        if j >= n {
            return Ok(());
        }
        let (mut d, _) = mbr_chain(512, 1, 5, &vec![0; n], false);
        let own = (4 + 5 * j) * 512;
        match what {
            0 => d[510] = 0x54,
            1 => d[511] = 0xab,
            2 => d[own + 510] = 0,
            3 => d[own + 511] = 0x55,
            // A second link, or a second extended partition.
            _ => {
                let e = if j == 0 { 446 + 48 } else { own - 5 * 512 + 446 + 48 };
                d[e + 4] = 5;
                p32l(&mut d, e + 8, 9);
                p32l(&mut d, e + 12, 1);
                if j > 0 && n == j {
                    return Ok(());
                }
            }
        }
        disk(Kind::Mbr, 512, &Arc::new(d), None, cov).map_err(|m| Failure::new(format!("{what} {n} {j}"), m))
    });
    // Without an extended partition the sector size is not stored. Disks whose partitions reach past the middle.
    let max = check.pick(24u64, 48);
    check.family("mbr, sector size from the end of the partitions", 4 * max * max, |i, cov| {
        let mut g = Digits(i);
        let (sector, n, end) = (*g.pick(&sectors), 1 + g.take(max), 1 + g.take(max));
        if end > n || end < 2 {
            return Ok(());
        }
        let mut d = blank(sector, n as usize);
        let s: Vec<Slot> = if end > 3 { vec![(7, end as u32 / 2, (end - end / 2) as u32, 0), (6, 1, end as u32 / 2 - 1, 0)] } else { vec![(7, 1, end as u32 - 1, 0)] };
        boot_record(&mut d, &s);
        let want: Vec<Part> = s.iter().enumerate().map(|(n, x)| mbr_part(sector as u64, 0, n, x)).collect();
        let half = end * sector as u64 * 2 <= n * sector as u64 && sector < 4096;
        let key = if half { "the partitions end in the first half of the disk".to_string() } else { format!("{sector} {n} {end}") };
        disk(Kind::Mbr, 0, &Arc::new(d), Some(&want), cov).map_err(|m| Failure::new(key, m))
    });
}

/// One disk of each kind, with two partitions.
fn examples() -> Vec<(Kind, u16, Vec<u8>, Vec<Part>)> {
    let e = vec![
        apm_map(3),
        ApmEntry { count: 3, start: 5, sectors: 4, name: b"one".to_vec(), kind: b"Apple_HFS".to_vec(), flags: 1 },
        ApmEntry { count: 3, start: 9, sectors: 3, name: b"two".to_vec(), kind: b"Apple_UFS".to_vec(), flags: 2 },
    ];
    let mut g = Gpt::new(512, &[Some((4, 6)), None, Some((8, 10))]);
    g.sums = [1, 1, 1];
    let (m, mp) = mbr_chain(512, 1, 5, &[0, 0], false);
    vec![
        (Kind::Apm, 0, apm_disk(12, &e), apm_parts(&e)),
        (Kind::Gpt, 0, g.build(), g.want().unwrap()),
        (Kind::Gpt, 512, Gpt::new(512, &[Some((4, 6)), None, Some((8, 10))]).build(), g.want().unwrap()),
        (Kind::Mbr, 0, m.clone(), mp.clone()),
        (Kind::Mbr, 512, m, mp),
    ]
}

pub fn main() {
    let mut check = Check::new("C26");
    apm(&mut check);
    gpt(&mut check);
    mbr(&mut check);
    let ex = examples();
    let n = ex.len() as u64;
    let depth = check.pick(3, 4);
    check.family("histories of reads of two partitions", n * 2, |i, cov| {
        let (kind, set, d, parts) = &ex[(i / 2) as usize];
        let d = Arc::new(d.clone());
        let p = (i % 2) as usize;
        let open = || Ok(Volume::open(*kind, *set, &mem(&d))?.part(p)?.1);
        let c = content(&d, &parts[p]);
        protocol(&open, c, &[0, 512, c.len() as u64], depth, cov).map_err(|m| Failure::new(format!("{kind:?} {set} {p}"), m))
    });
    check.family("interleaved reads of two partitions", n, |i, cov| {
        let (kind, set, d, parts) = &ex[i as usize];
        let d = Arc::new(d.clone());
        // Reads of either partition, by seek and read or by read alone, and of the disk itself.
        let k = 7u64;
        for j in 0..seq_count(k, check_depth(depth)) {
            let v = Volume::open(*kind, *set, &mem(&d)).map_err(|e| Failure::new("open", e))?;
            let s = [v.part(0).unwrap().1, v.part(1).unwrap().1];
            let mut pos = [0usize; 2];
            cov.trace();
            for op in seq_decode(k, j) {
                cov.step();
                let w = (op % 2) as usize;
                let c = content(&d, &parts[w]);
                let len = [3usize, 3, 700, 700, 0, 0, 0][op as usize];
                if op == 4 || op == 5 {
                    s[w].write().unwrap().seek(std::io::SeekFrom::Start(511)).map_err(|e| Failure::new("seek", err(e)))?;
                    pos[w] = 511;
                    continue;
                }
                if op == 6 {
                    continue;
                }
                let mut b = vec![0u8; len];
                let n = s[w].write().unwrap().read(&mut b).map_err(|e| Failure::new("read", err(e)))?;
                let e = (pos[w] + len).min(c.len());
                if n != e - pos[w] || b[..n] != c[pos[w]..e] {
                    return Err(Failure::new(format!("{kind:?} {set} {:?}", seq_decode(k, j)), format!("read of {len} at {} gives {n} bytes", pos[w])));
                }
                pos[w] = e;
            }
            cov.state(&(i, pos));
        }
        Ok(())
    });
    check.family("failing reads", n * 2, |i, cov| {
        let (kind, set, d, parts) = &ex[(i / 2) as usize];
        let d = Arc::new(d.clone());
        let p = (i % 2) as usize;
        let open = |f: Option<Arc<AtomicI64>>| {
            let s = match &f {
                Some(x) => mem_fuse(&d, x),
                None => mem(&d),
            };
            Ok(Volume::open(*kind, *set, &s)?.part(p)?.1)
        };
        let c = content(&d, &parts[p]);
        faults(&open, c, &[(0, 512), (511, 2), (c.len() as u64 - 1, 9), (100, 1000)], 200, cov).map_err(|m| Failure::new(format!("{kind:?} {set} {p}"), m))
    });
    let longest = ex.iter().map(|e| e.2.len()).max().unwrap() as u64;
    check.family("disks that are cut", n * longest, |i, cov| {
        let (kind, set, d, parts) = &ex[(i % n) as usize];
        let at = (i / n) as usize;
        if at >= d.len() {
            return Ok(());
        }
        let cut = Arc::new(d[..at].to_vec());
        guarded(|| -> Result<(), String> {
            cov.step();
            let Ok(v) = Volume::open(*kind, *set, &mem(&cut)) else { return Ok(()) };
            cov.trace();
            if v.count() != parts.len() {
                return Err(format!("{} partitions", v.count()));
            }
            for (k, w) in parts.iter().enumerate() {
                let (p, s) = v.part(k)?;
                if p != *w {
                    return Err(format!("{p:?}, expected {w:?}"));
                }
                for (a, l) in [(0u64, 3usize), (0, 4000), (511, 513), (1024, 9)] {
                    window(&s, content(&cut, w), a, l, cov)?;
                }
            }
            Ok(())
        })
        .unwrap_or_else(|p| Err(p))
        .map_err(|m| Failure::new(format!("{kind:?} {set} at {at}"), m))
    });
    // Every byte of the tables with other values: nothing panics, and what can be read lies on the disk.
    let values = check.pick(8u64, 255);
    let places: Vec<(usize, usize)> = ex.iter().enumerate().flat_map(|(k, e)| (0..e.2.len().min(512 * 15)).filter(move |a| *a >= 440).map(move |a| (k, a))).collect();
    check.family("bytes that are changed", places.len() as u64 * values, |i, cov| {
        let (k, at) = places[(i / values) as usize];
        let (kind, set, d, _) = &ex[k];
        let v = i % values;
        let mut d = d.clone();
        d[at] = if values == 255 { d[at].wrapping_add(1 + v as u8) } else { [0, 1, 0x7f, 0x80, 0xff, d[at] ^ 1, d[at] ^ 0x10, 5][v as usize] };
        let d = Arc::new(d);
        guarded(|| -> Result<(), String> {
            cov.step();
            let Ok(v) = Volume::open(*kind, *set, &mem(&d)) else { return Ok(()) };
            for k in 0..v.count() {
                let Ok((p, s)) = v.part(k) else { continue };
                window(&s, content(&d, &p), 0, 600, cov)?;
                window(&s, content(&d, &p), p.size.saturating_sub(1), 600, cov)?;
            }
            Ok(())
        })
        .unwrap_or_else(|p| Err(p))
        .map_err(|m| Failure::new(format!("{kind:?} {set} at {at} {v}"), m))
    });
    check.assume("APM: sectors of 512 bytes; MBR: a disk without an extended partition does not say its sector size");
    check.finish();
}

fn check_depth(d: u32) -> u32 {
    d + 1
}
