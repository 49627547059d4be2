//! Generates the layouts that are checked: every member kind alone, every ordered pair of member kinds in
//! both byte orders, and divisions of bit fields. For each one the specification (`Spec`) is written next to
//! the derived structure, so that main.rs can compare the generated reader with an interpretation.
use std::fmt::Write;

#[derive(Clone)]
struct M {
    ty: &'static str,    // data_type option
    order: &'static str, // byte_order option
    extra: &'static str, // other options
    spec: &'static str,  // K:: expression
    size: usize,
}

fn members() -> Vec<M> {
    let m = |ty, order, extra, spec, size| M { ty, order, extra, spec, size };
    vec![
        m("u8", "", "", "K::Int(1, false, F::Dec)", 1),
        m("u8", "", "format = \"hex\"", "K::Int(1, false, F::Hex)", 1),
        m("u8", "", "format = \"char\"", "K::Int(1, false, F::Char)", 1),
        m("i8", "", "", "K::Int(1, true, F::Dec)", 1),
        m("u16", "", "", "K::Int(2, false, F::Dec)", 2),
        m("u16", "big", "format = \"hex\"", "K::Int(2, false, F::Hex)", 2),
        m("u16", "little", "", "K::Int(2, false, F::Dec)", 2),
        m("i16", "", "", "K::Int(2, true, F::Dec)", 2),
        m("u32", "", "", "K::Int(4, false, F::Dec)", 4),
        m("u32", "big", "", "K::Int(4, false, F::Dec)", 4),
        m("u32", "little", "format = \"hex\"", "K::Int(4, false, F::Hex)", 4),
        m("i32", "", "", "K::Int(4, true, F::Dec)", 4),
        m("u64", "", "format = \"hex\"", "K::Int(8, false, F::Hex)", 8),
        m("u64", "big", "", "K::Int(8, false, F::Dec)", 8),
        m("i64", "", "", "K::Int(8, true, F::Dec)", 8),
        m("i64", "little", "", "K::Int(8, true, F::Dec)", 8),
        m("u16", "", "modifier = \">> 4\"", "K::Shift(2, 4)", 2),
        m("FatDate", "", "", "K::FatDate", 2),
        m("FatTimeDate", "", "", "K::FatTimeDate", 4),
        m("FatTimeDate10Ms", "", "", "K::FatTimeDate10Ms", 5),
        m("Filetime", "", "", "K::Filetime", 8),
        m("PosixTime32", "", "", "K::Posix32", 4),
        m("PosixTime32", "big", "", "K::Posix32", 4),
        m("Uuid", "", "", "K::Uuid", 16),
        m("uuid", "big", "", "K::Uuid", 16),
        m("ByteString<1>", "", "", "K::Bytes(1)", 1),
        m("ByteString<5>", "", "", "K::Bytes(5)", 5),
        m("Utf16String<3>", "", "", "K::Utf16(3)", 6),
        m("Utf16String<2>", "big", "", "K::Utf16(2)", 4),
        m("Ucs2String<3>", "little", "", "K::Ucs2(3)", 6),
        m("[u8; 3]", "", "", "K::Seq(&K::Int(1, false, F::Dec), 3)", 3),
        m("[u8; 17]", "", "format = \"hex\"", "K::Seq(&K::Int(1, false, F::Hex), 17)", 17),
        m("[u8; 2]", "", "format = \"char\"", "K::Seq(&K::Int(1, false, F::Char), 2)", 2),
        m("[u16; 2]", "big", "", "K::Seq(&K::Int(2, false, F::Dec), 2)", 4),
        m("[i32; 2]", "", "", "K::Seq(&K::Int(4, true, F::Dec), 2)", 8),
        m("[u64; 2]", "", "format = \"hex\"", "K::Seq(&K::Int(8, false, F::Hex), 2)", 16),
        m("[Uuid; 2]", "", "", "K::Seq(&K::Uuid, 2)", 32),
        m("[FatTimeDate10Ms; 2]", "", "", "K::Seq(&K::FatTimeDate10Ms, 2)", 10),
        m("Struct<InnerBe; 5>", "", "", "K::Struct(true)", 5),
        m("[Struct<InnerLe; 5>; 2]", "", "", "K::Seq(&K::Struct(false), 2)", 10),
    ]
}

struct Out {
    code: String,
    table: String,
    n: usize,
}

impl Out {
    fn add(&mut self, big: bool, members: &[(String, String, usize)]) {
        let n = self.n;
        self.n += 1;
        let size: usize = members.iter().map(|m| m.2).sum();
        let order = if big { "big" } else { "little" };
        let mut attrs = String::new();
        let mut spec = String::new();
        for m in members {
            write!(attrs, "{},", m.0).unwrap();
            write!(spec, "{},", m.1).unwrap();
        }
        writeln!(
            self.code,
            "#[derive(LayoutMap)]\n#[layout_map(structure(byte_order = \"{order}\", {attrs}), method(name = \"debug_read_data\"), method(name = \"read_at_position\"))]\npub struct S{n} {{ pub got: Vec<u8> }}\nimpl S{n} {{ pub fn read_data(&mut self, data: &[u8]) -> Result<(), keramics_core::ErrorTrace> {{ self.got = data.to_vec(); Ok(()) }}\nfn at(s: &keramics_core::DataStreamReference, p: std::io::SeekFrom) -> Result<Vec<u8>, String> {{ let mut x = S{n} {{ got: vec![] }}; x.read_at_position(s, p).map_err(|e| e.to_string())?; Ok(x.got) }} }}"
        )
        .unwrap();
        writeln!(self.table, "Layout {{ name: \"S{n}\", big: {big}, size: {size}, spec: &[{spec}], read: S{n}::debug_read_data, at: S{n}::at }},").unwrap();
    }
}

/// A member as an option and a specification: name f<index>.
fn field(m: &M, index: usize, big: bool, member: bool) -> (String, String, usize) {
    let b = match m.order {
        "big" => true,
        "little" => false,
        _ => big,
    };
    let mut o = format!("field(name = \"f{index}\", data_type = \"{}\"", m.ty);
    if !m.order.is_empty() {
        write!(o, ", byte_order = \"{}\"", m.order).unwrap();
    }
    if !m.extra.is_empty() {
        write!(o, ", {}", m.extra).unwrap();
    }
    o.push(')');
    if member {
        o = format!("member({o})");
    }
    (o, format!("Spec {{ name: \"f{index}\", big: {b}, kind: {}, when: 0 }}", m.spec), m.size)
}

fn bits(width: usize, parts: &[usize], order: &str, big: bool) -> (String, String, usize) {
    let mut o = vec![];
    let mut s = vec![];
    let mut at = 0;
    let b = match order {
        "big" => true,
        "little" => false,
        _ => big,
    };
    for (i, p) in parts.iter().enumerate() {
        let hex = (i + p) % 2 == 1;
        let order = if order.is_empty() { String::new() } else { format!(", byte_order = \"{order}\"") };
        o.push(format!("field(name = \"b{i}\", data_type = \"BitField{width}<{p}>\"{order}{})", if hex { ", format = \"hex\"" } else { "" }));
        s.push(format!("Spec {{ name: \"b{i}\", big: {b}, kind: K::Bits({width}, {at}, {p}, {hex}), when: 0 }}"));
        at += p;
    }
    (o.join(","), s.join(","), width / 8)
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let ms = members();
    let mut o = Out { code: String::new(), table: String::new(), n: 0 };
    for (i, m) in ms.iter().enumerate() {
        o.add(true, &[field(m, 0, true, false)]);
        o.add(false, &[field(m, 0, false, true)]);
        for (j, n) in ms.iter().enumerate() {
            // Byte order of the structure and the form of the member option vary with the pair.
            let (big, member) = ((i + j) % 2 == 0, (i / 2 + j) % 2 == 0);
            o.add(big, &[field(m, 0, big, member), field(n, 1, big, member)]);
        }
    }
    // Bit fields: every division of 8 bits, every division of wider ones into up to two (three) parts.
    for b in 0u32..128 {
        let mut parts = vec![1];
        for k in 0..7 {
            if b >> k & 1 == 1 {
                parts.push(1);
            } else {
                *parts.last_mut().unwrap() += 1;
            }
        }
        let big = b % 2 == 0;
        o.add(big, &[bits(8, &parts, "", big), field(&ms[8], 9, big, false)]);
    }
    for width in [16, 32, 64] {
        for a in 1..=width {
            let big = a % 2 == 0;
            let parts: Vec<usize> = if a == width { vec![a] } else { vec![a, width - a] };
            o.add(big, &[field(&ms[0], 9, big, false), bits(width, &parts, ["", "big", "little"][a % 3], big), field(&ms[5], 10, big, false)]);
        }
        for (a, b) in [(1, 1), (1, width - 2), (width / 2, 1), (3, 17 % (width - 3)), (width / 2 - 1, 2)] {
            if a + b < width && b > 0 {
                o.add(b % 2 == 0, &[bits(width, &[a, b, width - a - b], "", b % 2 == 0)]);
            }
        }
    }
    // Two groups of bit fields after each other.
    for (w, x) in [(8, 8), (8, 16), (16, 8), (32, 64), (64, 32)] {
        let second = bits(x, &[x / 2, x / 2], "", false);
        let second = (second.0.replace("\"b", "\"c"), second.1.replace("\"b", "\"c"), second.2);
        o.add(false, &[bits(w, &[3, w - 3], "", false), second]);
    }
    // Groups that depend on the size of the data, after and before other members.
    for (i, m) in ms.iter().enumerate() {
        if m.ty.starts_with('[') || m.ty.contains("String") {
            continue;
        }
        for first in [0, 8, 23] {
            let big = i % 2 == 0;
            let head = field(&ms[first], 0, big, true);
            let g0 = field(m, 1, big, false);
            let g1 = field(&ms[4], 2, big, false);
            let need = head.2;
            let opt = format!("member(group(size_condition = \"> {need}\", {}, {}))", g0.0, g1.0);
            let spec = format!("{},{}", g0.1, g1.1).replace("when: 0", &format!("when: {}", need + 1));
            o.add(big, &[head, (opt, spec, g0.2 + g1.2)]);
        }
    }
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/layouts.rs"), format!("{}\npub static LAYOUTS: &[Layout] = &[\n{}];\n", o.code, o.table)).unwrap();
}
