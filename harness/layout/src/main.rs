//! C13: readers generated from a layout decode every member at its place, in its byte order and size.
use keramics_layout_map::LayoutMap;
use mc_engine::{CaseResult, Check, Cov, Failure};
use std::io::SeekFrom;

#[derive(Clone, Copy, Debug)]
pub enum F {
    Dec,
    Hex,
    Char,
}

/// Kind of a member.
#[derive(Debug)]
pub enum K {
    Int(usize, bool, F),
    Shift(usize, u32),
    /// Width of the group, offset, number of bits, hexadecimal.
    Bits(usize, u32, u32, bool),
    FatDate,
    FatTimeDate,
    FatTimeDate10Ms,
    Filetime,
    Posix32,
    Uuid,
    Bytes(usize),
    Ucs2(usize),
    Utf16(usize),
    Seq(&'static K, usize),
    /// InnerBe or InnerLe.
    Struct(bool),
}

#[derive(Debug)]
pub struct Spec {
    pub name: &'static str,
    pub big: bool,
    pub kind: K,
    /// Smallest size of the data for which the member is present.
    pub when: usize,
}

pub struct Layout {
    pub name: &'static str,
    pub big: bool,
    pub size: usize,
    pub spec: &'static [Spec],
    pub read: fn(&[u8]) -> String,
    pub at: fn(&keramics_core::DataStreamReference, SeekFrom) -> Result<Vec<u8>, String>,
}

mod generated {
    use super::*;

    #[derive(LayoutMap)]
    #[layout_map(
        structure(byte_order = "big", field(name = "a", data_type = "u16"), field(name = "b", data_type = "[u8; 3]", format = "hex")),
        method(name = "debug_read_data")
    )]
    pub struct InnerBe {}

    #[derive(LayoutMap)]
    #[layout_map(
        structure(byte_order = "little", field(name = "a", data_type = "u32"), field(name = "b", data_type = "u8", format = "hex")),
        method(name = "debug_read_data")
    )]
    pub struct InnerLe {}

    include!(concat!(env!("OUT_DIR"), "/layouts.rs"));
}

fn uint(d: &[u8], big: bool) -> u64 {
    if big { d.iter().fold(0, |v, b| v << 8 | *b as u64) } else { d.iter().rev().fold(0, |v, b| v << 8 | *b as u64) }
}

fn sint(d: &[u8], big: bool) -> i64 {
    let s = 64 - 8 * d.len() as u32;
    ((uint(d, big) << s) as i64) >> s
}

fn size(k: &K) -> usize {
    match k {
        K::Int(n, ..) | K::Shift(n, _) | K::Bytes(n) => *n,
        K::Bits(w, o, n, _) => if (o + n) as usize == *w { w / 8 } else { 0 },
        K::FatDate => 2,
        K::FatTimeDate | K::Posix32 => 4,
        K::FatTimeDate10Ms | K::Struct(_) => 5,
        K::Filetime => 8,
        K::Uuid => 16,
        K::Ucs2(n) | K::Utf16(n) => 2 * n,
        K::Seq(k, n) => n * size(k),
    }
}

fn array(v: &[String]) -> String {
    if v.iter().all(|x| *x == v[0]) {
        return format!("[{}; {}]", v[0], v.len());
    }
    if v.len() <= 16 {
        return format!("[{}]", v.join(", "));
    }
    let lines: Vec<String> = v.chunks(16).map(|c| c.join(", ")).collect();
    format!("[\n        {}\n    ]", lines.join(",\n        "))
}

fn units(d: &[u8], big: bool) -> Vec<u16> {
    d.chunks(2).map(|c| uint(c, big) as u16).take_while(|u| *u != 0).collect()
}

fn inner(d: &[u8], big: bool) -> Vec<String> {
    if big {
        let b: Vec<String> = d[2..5].iter().map(|x| format!("0x{x:02x}")).collect();
        vec!["InnerBe {".into(), format!("    a: {},", uint(&d[..2], true)), format!("    b: {},", array(&b)), "}".into(), "".into()]
    } else {
        vec!["InnerLe {".into(), format!("    a: {},", uint(&d[..4], false)), format!("    b: 0x{:02x},", d[4]), "}".into(), "".into()]
    }
}

/// The text of a value.
fn value(k: &K, d: &[u8], big: bool) -> String {
    match k {
        K::Int(n, signed, f) => match (f, signed) {
            (F::Dec, false) => uint(d, big).to_string(),
            (F::Dec, true) => sint(d, big).to_string(),
            (F::Hex, _) => format!("0x{:01$x}", uint(d, big), n * 2),
            (F::Char, _) => (d[0] as char).to_string(),
        },
        K::Shift(_, s) => (uint(d, big) >> s).to_string(),
        K::FatDate => keramics_datetime::FatDate::new(uint(d, false) as u16).to_string(),
        K::FatTimeDate => keramics_datetime::FatTimeDate::new(uint(&d[2..], false) as u16, uint(&d[..2], false) as u16).to_string(),
        K::FatTimeDate10Ms => keramics_datetime::FatTimeDate10Ms::new(uint(&d[3..], false) as u16, uint(&d[1..3], false) as u16, d[0]).to_string(),
        K::Filetime => keramics_datetime::Filetime::new(uint(d, false)).to_string(),
        K::Posix32 => keramics_datetime::PosixTime32::new(sint(d, big) as i32).to_string(),
        K::Uuid => format!(
            "{:08x}-{:04x}-{:04x}-{:04x}-{:012x}",
            uint(&d[..4], big),
            uint(&d[4..6], big),
            uint(&d[6..8], big),
            uint(&d[8..10], true),
            uint(&d[10..], true)
        ),
        K::Bytes(_) => {
            let e: Vec<u8> = d.iter().copied().take_while(|b| *b != 0).collect();
            format!("\"{}\"", keramics_types::ByteString::from(&e[..]).to_string())
        }
        K::Ucs2(_) => format!("\"{}\"", keramics_types::Ucs2String { elements: units(d, big) }.to_string()),
        K::Utf16(_) => format!("\"{}\"", keramics_types::Utf16String { elements: units(d, big) }.to_string()),
        K::Seq(k, n) => {
            let s = size(k);
            array(&(0..*n).map(|i| value(k, &d[i * s..(i + 1) * s], big)).collect::<Vec<_>>())
        }
        K::Bits(..) | K::Struct(_) => unreachable!(),
    }
}

/// Interpretation of a layout: name and value of every member in order, white space aside.
fn reference(l: &Layout, d: &[u8]) -> String {
    let mut s = format!("{} {{\n", l.name);
    let mut o = 0;
    for m in l.spec {
        if d.len() < m.when {
            continue;
        }
        match &m.kind {
            K::Bits(w, at, n, hex) => {
                let v = (uint(&d[o..o + w / 8], m.big) >> at) & (u64::MAX >> (64 - n));
                match hex {
                    true => s.push_str(&format!("    {}: 0x{:02$x},\n", m.name, v, n.div_ceil(4) as usize)),
                    false => s.push_str(&format!("    {}: {},\n", m.name, v)),
                }
            }
            K::Struct(big) => {
                s.push_str(&format!("    {}: ", m.name));
                inner(&d[o..o + 5], *big).iter().for_each(|l| s.push_str(&format!("    {l}\n")));
            }
            K::Seq(K::Struct(big), n) => {
                s.push_str(&format!("    {}: [\n", m.name));
                for i in 0..*n {
                    inner(&d[o + 5 * i..o + 5 * i + 5], *big).iter().for_each(|l| s.push_str(&format!("        {l}\n")));
                }
                s.push_str("    ],\n");
            }
            k => s.push_str(&format!("    {}: {},\n", m.name, value(k, &d[o..o + size(k)], m.big))),
        }
        o += size(&m.kind);
    }
    s + "}\n\n"
}

fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| c.is_ascii_whitespace()).filter(|w| !w.is_empty()).collect()
}

fn compare(l: &Layout, d: &[u8], cov: &mut Cov) -> CaseResult {
    let got = (l.read)(d);
    let want = reference(l, d);
    cov.trace();
    cov.outcome(&got);
    cov.steps(l.spec.len() as u64);
    if words(&got) != words(&want) {
        return Err(Failure::new(format!("{:?} of {d:02x?}", l.spec), format!("read as\n{got}\nexpected\n{want}")));
    }
    Ok(())
}

fn check(l: &Layout, cov: &mut Cov) -> CaseResult {
    cov.state(&l.name);
    let n = l.size;
    compare(l, &vec![0; n], cov)?;
    compare(l, &vec![0xff; n], cov)?;
    for base in [0u8, 0x21, 0x41, 0x61, 0x80, 0xb0] {
        compare(l, &(0..n).map(|i| base.wrapping_add((i * 3) as u8)).collect::<Vec<u8>>(), cov)?;
    }
    // Every single bit set, and cleared: each reaches exactly one member.
    for b in 0..n * 8 {
        let mut d = vec![0u8; n];
        d[b / 8] = 1 << (b % 8);
        compare(l, &d, cov)?;
        let mut d = vec![0xffu8; n];
        d[b / 8] ^= 1 << (b % 8);
        compare(l, &d, cov)?;
    }
    // Every byte printable in turn (strings end at the first zero).
    for i in 0..=n {
        let d: Vec<u8> = (0..n).map(|j| if j < i { 0x30 + (j % 60) as u8 } else { 0 }).collect();
        compare(l, &d, cov)?;
    }
    // More data than the layout covers is ignored; data that ends before a group leaves it out.
    let d: Vec<u8> = (0..n + 3).map(|i| 0x35 ^ i as u8).collect();
    compare(l, &d, cov)?;
    if let Some(w) = l.spec.iter().map(|s| s.when).find(|w| *w > 0) {
        compare(l, &d[..w - 1], cov)?;
    }
    // Reading at every position of a stream takes exactly the bytes of the layout from there.
    let stream = keramics_core::open_fake_data_stream(&d);
    for p in 0..d.len() + 2 {
        let got = (l.at)(&stream, SeekFrom::Start(p as u64));
        cov.step();
        let want = if p + n <= d.len() { Some(d[p..p + n].to_vec()) } else { None };
        if got.clone().ok() != want {
            return Err(Failure::new(format!("{:?} at {p}", l.spec), format!("read {got:02x?}, expected {want:02x?}")));
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C13");
    c.assume("white space in the printed form is not specified; groups are optional in the data but part of the size that is read");
    let ls = generated::LAYOUTS;
    c.note("layouts", ls.len().to_string());
    c.family("layouts", ls.len() as u64, |i, cov| check(&ls[i as usize], cov));
    c.finish();
}
