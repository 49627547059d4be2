//! C07: the double-byte Windows 932 encoding maps as code page 932 defines and recovers from ill-formed input.
use keramics_encodings::{CharacterEncoding as E, new_character_decoder, new_character_encoder};
use mc_engine::{CaseResult, Check, Failure};
use std::collections::HashMap;

fn is_lead(b: u8) -> bool {
    matches!(b, 0x81..=0x9f | 0xe0..=0xfc)
}
fn decode(bytes: &[u8]) -> Vec<Option<u32>> {
    new_character_decoder(&E::Windows932, bytes).take(bytes.len() + 2).map(|r| r.ok()).collect()
}

fn main() {
    let mut c = Check::new("C07");
    c.assume("reference: Python 3.12 codec cp932, without the user-defined rows 0xf0-0xf9 and the Microsoft best-fit bytes 0x80, 0xa0 and 0xfd-0xff, which code page 932 does not assign");
    let text = std::fs::read_to_string(format!("{}/tables/encodings.txt", std::env::var("VERIF_DIR").unwrap())).expect("tables");
    let mut map: HashMap<(u8, u8), u32> = HashMap::new();
    let mut one: HashMap<u8, u32> = HashMap::new();
    let mut enc: HashMap<u32, Vec<u8>> = HashMap::new();
    for l in text.lines().filter(|l| l.starts_with("Windows932")) {
        let mut it = l.split(' ');
        let k = it.next().unwrap();
        if k == "Windows932" {
            for (b, v) in it.enumerate() {
                if let Ok(v) = u32::from_str_radix(v, 16) {
                    if !matches!(b, 0x80 | 0xa0 | 0xfd..=0xff) {
                        one.insert(b as u8, v);
                    }
                }
            }
        } else if k == "Windows932:enc" {
            for v in it {
                let (a, b) = v.split_once('=').unwrap();
                let bytes: Vec<u8> = (0..b.len() / 2).map(|i| u8::from_str_radix(&b[2 * i..2 * i + 2], 16).unwrap()).collect();
                let x = u32::from_str_radix(a, 16).unwrap();
                if x == 0x80 || (0xe000..0xf900).contains(&x) {
                    continue;
                }
                enc.insert(x, bytes);
            }
        } else {
            let lead = u8::from_str_radix(&k[11..], 16).unwrap();
            if (0xf0..=0xf9).contains(&lead) {
                continue;
            }
            for (b, v) in it.enumerate() {
                if let Ok(v) = u32::from_str_radix(v, 16) {
                    map.insert((lead, b as u8), v);
                }
            }
        }
    }
    // Best-fit mappings of characters that no byte sequence decodes to are not part of the code page.
    enc.retain(|x, b| if b.len() == 1 { one.get(&b[0]) == Some(x) } else { map.get(&(b[0], b[1])) == Some(x) });
    // Items of the longest well-formed prefix, and whether that is everything.
    let reference = |bytes: &[u8]| -> (Vec<u32>, bool) {
        let mut o = vec![];
        let mut i = 0;
        while i < bytes.len() {
            if let Some(v) = one.get(&bytes[i]) {
                o.push(*v);
                i += 1;
            } else if i + 1 < bytes.len() && map.contains_key(&(bytes[i], bytes[i + 1])) {
                o.push(map[&(bytes[i], bytes[i + 1])]);
                i += 2;
            } else {
                return (o, false);
            }
        }
        (o, true)
    };
    let compare = |bytes: &[u8]| -> CaseResult {
        let got = decode(bytes);
        let (prefix, all) = reference(bytes);
        let f = |d: &str| Err(Failure::new(format!("{bytes:02x?}"), format!("{d}: decodes to {got:x?}, expected {prefix:x?}{}", if all { "" } else { " and an error" })));
        if got.len() > bytes.len() {
            return f("does not end");
        }
        if all {
            if got.len() != prefix.len() || !got.iter().zip(&prefix).all(|(a, b)| *a == Some(*b)) {
                return f("well-formed");
            }
        } else if got.len() <= prefix.len() || !got.iter().zip(&prefix).all(|(a, b)| *a == Some(*b)) || got[prefix.len()].is_some() {
            return f("ill-formed");
        }
        Ok(())
    };

    c.family("decode-1", 257, |i, cov| -> CaseResult {
        cov.state(&i);
        cov.step();
        cov.trace();
        if i == 256 { compare(&[]) } else { compare(&[i as u8]) }
    });
    c.family("decode-2", 65536, |i, cov| -> CaseResult {
        let b = [(i >> 8) as u8, i as u8];
        cov.state(&b);
        cov.steps(2);
        cov.trace();
        compare(&b)
    });
    // Two characters after each other, each drawn from all one- and two-byte units with the second
    // unit reduced to the classes of bytes that the code distinguishes (thorough: every byte).
    let last: Vec<u8> = if c.thorough() {
        (0..=255).collect()
    } else {
        vec![0x00, 0x3f, 0x40, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0x88, 0x9f, 0xa0, 0xa1, 0xdf, 0xe0, 0xea, 0xed, 0xfa, 0xfc, 0xfd, 0xff]
    };
    c.family("decode-3", 65536, |i, cov| -> CaseResult {
        for l in &last {
            let b = [(i >> 8) as u8, i as u8, *l];
            cov.state(&b);
            cov.steps(3);
            cov.trace();
            compare(&b)?;
        }
        Ok(())
    });
    let leads: Vec<u8> = (0..=255u8).filter(|b| is_lead(*b)).collect();
    c.family("decode-4", (leads.len() * 256) as u64, |i, cov| -> CaseResult {
        let (a, b) = (leads[i as usize / 256], i as u8);
        for l in [0x81u8, 0x88, 0x9f, 0xe0, 0xea, 0xee, 0xfc] {
            for m in [0x3fu8, 0x40, 0x98, 0x9e, 0x9f, 0xa2, 0xfc, 0xff] {
                let s = [a, b, l, m];
                cov.state(&s);
                cov.steps(4);
                cov.trace();
                compare(&s)?;
            }
        }
        Ok(())
    });
    let planes = c.pick(0x11u64, 0x100);
    c.family("encode-all", planes * 16, |i, cov| -> CaseResult {
        for x in i as u32 * 0x1000..(i as u32 + 1) * 0x1000 {
            let cps = [x, 0x3042, x];
            let got: Vec<Option<Vec<u8>>> = new_character_encoder(&E::Windows932, &cps).take(6).map(|r| r.ok()).collect();
            cov.state(&x);
            cov.steps(3);
            let want = enc.get(&x).cloned();
            if want.is_some() {
                cov.trace();
            }
            if got != [want.clone(), Some(vec![0x82, 0xa0]), want.clone()] {
                return Err(Failure::new(format!("U+{x:04x}"), format!("U+{x:04x} U+3042 U+{x:04x} encodes to {got:02x?}, expected {want:02x?} between 82 a0")));
            }
        }
        Ok(())
    });
    c.finish();
}
