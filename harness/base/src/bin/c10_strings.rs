//! C10: strings read from storage hold the stored elements and always have a text form.
use keramics_encodings::{CharacterEncoding as E, new_character_decoder, new_character_encoder};
use keramics_types::constants::UCS2_CASE_MAPPINGS;
use keramics_types::{ByteString, Ucs2String, Utf16String};
use mc_engine::util::{seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Failure};
use std::cmp::Ordering;
use std::collections::HashMap;

const ENCODINGS: [E; 38] = [
    E::Utf8, E::Ascii, E::Iso8859_1, E::Iso8859_2, E::Iso8859_3, E::Iso8859_4, E::Iso8859_5, E::Iso8859_6, E::Iso8859_7, E::Iso8859_8,
    E::Iso8859_9, E::Iso8859_10, E::Iso8859_11, E::Iso8859_13, E::Iso8859_14, E::Iso8859_15, E::Iso8859_16, E::Koi8R, E::Koi8U,
    E::MacArabic, E::MacCeltic, E::MacCentralEurRoman, E::MacCroatian, E::MacCyrillic, E::MacDingbats, E::MacFarsi, E::MacGaelic,
    E::Windows874, E::Windows932, E::Windows1250, E::Windows1251, E::Windows1252, E::Windows1253, E::Windows1254, E::Windows1255,
    E::Windows1256, E::Windows1257, E::Windows1258,
];

fn elements(data: &[u8], be: bool) -> Vec<u16> {
    data.chunks_exact(2).map(|c| if be { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) }).take_while(|v| *v != 0).collect()
}

/// Text form of a UCS-2 string: escapes make it reversible.
fn ucs2_text(e: &[u16]) -> String {
    e.iter()
        .map(|v| match char::from_u32(*v as u32) {
            Some('\\') => "\\\\".to_string(),
            Some(c) => c.to_string(),
            None => format!("\\{{{v:04x}}}"),
        })
        .collect()
}

fn main() {
    let mut c = Check::new("C10");
    c.assume("undecodable bytes are shown as U+FFFD, unpaired surrogates of UTF-16 too; UCS-2 escapes a backslash and surrogates");
    if !Ucs2String::new().is_empty() || !ByteString::new().is_empty() || Utf16String::new().to_string() != "" {
        c.family("empty", 1, |_, _| Err("a new string is not empty".into()));
    }
    let alpha = [0u8, 0x41, 0x5c, 0xd8, 0xdc, 0xff];
    let max = c.pick(6, 8);
    c.family("16-bit-from-bytes", seq_count(6, max), |i, cov| -> CaseResult {
        let data: Vec<u8> = seq_decode(6, i).iter().map(|k| alpha[*k as usize]).collect();
        cov.state(&data);
        cov.trace();
        let (be, le) = (elements(&data, true), elements(&data, false));
        let f = |w: &str, g: &[u16], e: &[u16]| -> CaseResult {
            if g == e { Ok(()) } else { Err(Failure::new(format!("{w} {data:02x?}"), format!("elements {g:04x?}, expected {e:04x?}"))) }
        };
        f("ucs2 be", &Ucs2String::from_be_bytes(&data).elements, &be)?;
        f("ucs2 le", &Ucs2String::from_le_bytes(&data).elements, &le)?;
        f("utf16 be", &Utf16String::from_be_bytes(&data).elements, &be)?;
        f("utf16 le", &Utf16String::from_le_bytes(&data).elements, &le)?;
        let mut s = Ucs2String::from(&vec![0x31u16, 0x32][..]);
        s.read_data_le(&data);
        f("ucs2 read", &s.elements, &[&[0x31, 0x32][..], &le].concat())?;
        let u = Ucs2String { elements: be.clone() };
        f("ucs2 from elements", &Ucs2String::from(&[&be[..], &[0, 7]].concat()).elements, &be)?;
        if u.len() != be.len() || u.is_empty() != be.is_empty() {
            return Err(Failure::new(format!("ucs2 length {be:04x?}"), format!("{}", u.len())));
        }
        cov.steps(7);
        let (t, w) = (u.to_string(), ucs2_text(&be));
        if t != w {
            return Err(Failure::new(format!("ucs2 text {be:04x?}"), format!("{t:?}, expected {w:?}")));
        }
        let (t, w) = (Utf16String { elements: be.clone() }.to_string(), String::from_utf16_lossy(&be));
        cov.outcome(&w);
        if t != w {
            return Err(Failure::new(format!("utf16 text {be:04x?}"), format!("{t:?}, expected {w:?}")));
        }
        Ok(())
    });
    c.family("16-bit-text", 65536, |i, cov| -> CaseResult {
        for e in [vec![i as u16], vec![i as u16, 0x41], vec![0xd83d, i as u16], vec![i as u16, 0xdc00]] {
            cov.state(&e);
            cov.trace();
            cov.steps(2);
            let (t, w) = (Ucs2String { elements: e.clone() }.to_string(), ucs2_text(&e));
            if t != w {
                return Err(Failure::new(format!("ucs2 text {e:04x?}"), format!("{t:?}, expected {w:?}")));
            }
            let (t, w) = (Utf16String { elements: e.clone() }.to_string(), String::from_utf16_lossy(&e));
            if t != w {
                return Err(Failure::new(format!("utf16 text {e:04x?}"), format!("{t:?}, expected {w:?}")));
            }
        }
        Ok(())
    });
    // From text: every character.
    c.family("16-bit-from-text", 0x110, |i, cov| -> CaseResult {
        for x in i as u32 * 0x1000..(i as u32 + 1) * 0x1000 {
            let Some(ch) = char::from_u32(x) else { continue };
            let s = format!("a{ch}b");
            let g = Ucs2String::from(&s).elements;
            let w: Vec<u16> = s.encode_utf16().collect();
            cov.distinct_states(1);
            cov.step();
            if g != w {
                return Err(Failure::new(format!("ucs2 from text U+{x:04x}"), format!("{g:04x?}, expected {w:04x?}")));
            }
        }
        cov.trace();
        Ok(())
    });
    let ca = [1u16, 0x41, 0x61, 0x100, 0xd800, 0xffff];
    let n = seq_count(6, 3);
    let dec = |i: u64| -> Vec<u16> { seq_decode(6, i).iter().map(|k| ca[*k as usize]).collect() };
    c.family("compare", n, |i, cov| -> CaseResult {
        let a = dec(i);
        let ua = Ucs2String { elements: a.clone() };
        for j in 0..n {
            let b = dec(j);
            let ub = Ucs2String { elements: b.clone() };
            cov.state(&(&a, &b));
            cov.step();
            let (g, w) = (ua.compare(&ub), a.cmp(&b));
            if g != w || (g == Ordering::Equal) != (ua == ub) {
                return Err(Failure::new(format!("compare {a:04x?} {b:04x?}"), format!("{g:?}, expected {w:?}")));
            }
        }
        cov.trace();
        Ok(())
    });
    // Case folding: each character on its own, to the upper (or title) case that Unicode assigns.
    let mappings: HashMap<u16, u16> = UCS2_CASE_MAPPINGS.into_iter().collect();
    c.family("case-folding", 65536, |i, cov| -> CaseResult {
        let v = i as u16;
        let g = Ucs2String::new_with_case_folding(&Ucs2String { elements: vec![0x7a, v, v, 0x5a] }, &mappings).elements;
        cov.state(&v);
        cov.steps(2);
        cov.trace();
        let f = |d: String| Err(Failure::new(format!("fold {v:04x}"), d));
        if g.len() != 4 || g[0] != 0x5a || g[3] != 0x5a || g[1] != g[2] {
            return f(format!("folds to {g:04x?}"));
        }
        let twice = Ucs2String::new_with_case_folding(&Ucs2String { elements: g.clone() }, &mappings).elements;
        if twice != g {
            return f(format!("folding again gives {twice:04x?}"));
        }
        let ch = char::from_u32(i as u32);
        let up: Vec<u32> = ch.map(|c| c.to_uppercase().map(|c| c as u32).collect()).unwrap_or(vec![i as u32]);
        if g[1] != v {
            let low: Vec<u32> = char::from_u32(g[1] as u32).map(|c| c.to_lowercase().map(|c| c as u32).collect()).unwrap_or_default();
            if up != [g[1] as u32] && low != [i as u32] {
                return f(format!("folds to {:04x}, which is no case of it", g[1]));
            }
        } else if up.len() == 1 && up[0] != i as u32 && (up[0] < 0x600 || i >= 0xff00) {
            // Complete where the file systems that use it agree: letters of these scripts.
            let complete = match i {
                0xb5 | 0x131 | 0x17f | 0x3c2 | 0x1c5 | 0x1c8 | 0x1cb | 0x1f2 => false,
                0..=0x233 | 0x3ac..=0x3ce | 0x430..=0x523 | 0x561..=0x586 | 0xff00..=0xffff => true,
                _ => false,
            };
            if complete {
                return f(format!("does not fold to its upper case {:04x}", up[0]));
            }
        }
        Ok(())
    });

    let bytes = [0u8, 0x41, 0x5c, 0x80, 0xc3, 0xa9, 0xff];
    let max = c.pick(6, 7);
    c.family("8-bit-from-bytes", seq_count(7, max), |i, cov| -> CaseResult {
        let data: Vec<u8> = seq_decode(7, i).iter().map(|k| bytes[*k as usize]).collect();
        let w: Vec<u8> = data.iter().copied().take_while(|b| *b != 0).collect();
        cov.state(&data);
        cov.trace();
        let s = ByteString::from(&data);
        let mut r = ByteString::new();
        r.read_data(&data);
        let mut r2 = ByteString::from("x");
        r2.read_data(&data);
        let mut r3 = ByteString::from("x");
        let ok = r3.extend(&s).is_ok();
        let xw = [b"x", &w[..]].concat();
        cov.steps(5);
        if s.elements != w || r.elements != w || r2.elements != xw || !ok || r3.elements != xw || s.len() != w.len() || s.is_empty() != w.is_empty() {
            return Err(Failure::new(format!("bytes {data:02x?}"), format!("{:02x?} {:02x?} {:02x?} {:02x?}, expected {w:02x?}", s.elements, r.elements, r2.elements, r3.elements)));
        }
        if s != &w[..] || s == &[&w[..], &[7]].concat()[..] || ByteString::from(&data[..]) != s {
            return Err(Failure::new(format!("equality {data:02x?}"), "differs from what it was made of, or equals something else"));
        }
        let t = s.to_string();
        let want: String = new_character_decoder(&E::Utf8, &w).map(|x| x.ok().and_then(char::from_u32).unwrap_or('\u{fffd}').to_string()).map(|x| if x == "\\" { "\\\\".into() } else { x }).collect();
        if t != want {
            return Err(Failure::new(format!("text {data:02x?}"), format!("{t:?}, expected {want:?}")));
        }
        if let Ok(u) = std::str::from_utf8(&w) {
            let other = format!("{u}x");
            if s == other.as_str() || ByteString::from(&other) == s || ByteString::from(&u.to_string()) != s {
                return Err(Failure::new(format!("equality {data:02x?}"), "differs from what it was made of, or equals something else"));
            }
            if t != u.replace('\\', "\\\\") || s != u || ByteString::from(u).elements != w {
                return Err(Failure::new(format!("text {data:02x?}"), format!("{t:?}, expected {u:?}")));
            }
        }
        Ok(())
    });
    // Every byte (and lead/trail pair) in every encoding has a text form; conversion between encodings keeps the characters.
    c.family("8-bit-text", ENCODINGS.len() as u64 * 256, |i, cov| -> CaseResult {
        let e = &ENCODINGS[i as usize / 256];
        let a = i as u8;
        for b in 1..=255u8 {
            let s = ByteString { encoding: e.clone(), elements: vec![a, b] };
            let t = s.to_string();
            cov.distinct_states(1);
            cov.step();
            let want: String = new_character_decoder(e, &s.elements)
                .map(|x| match x {
                    Ok(0x5c) => "\\\\".to_string(),
                    Ok(x) => char::from_u32(x).map(|c| c.to_string()).unwrap_or(format!("\\{{{x:04x}}}")),
                    Err(_) => "\u{fffd}".into(),
                })
                .collect();
            if t != want {
                return Err(Failure::new(format!("{e:?} {a:02x} {b:02x}"), format!("{t:?}, expected {want:?}")));
            }
        }
        cov.trace();
        Ok(())
    });
    let m = ENCODINGS.len() as u64;
    c.family("8-bit-convert", m * m, |i, cov| -> CaseResult {
        let (from, to) = (&ENCODINGS[(i / m) as usize], &ENCODINGS[(i % m) as usize]);
        if from == to {
            return Ok(());
        }
        if *to == E::Utf8 {
            let s = ByteString { encoding: from.clone(), elements: vec![0x41] };
            let mut d = ByteString::new();
            let r = mc_engine::guarded(move || d.extend(&s).map(|_| d.elements).ok());
            return match r {
                Ok(Some(e)) if e == [0x41] => Ok(()),
                Ok(r) => Err(Failure::new(format!("to UTF-8 from {from:?}"), format!("{r:02x?}, expected [41]"))),
                Err(p) => Err(Failure::new("extend to UTF-8 panics", p)),
            };
        }
        for a in 1..=255u8 {
            let s = ByteString { encoding: from.clone(), elements: vec![0x41, a] };
            let mut d = ByteString::new_with_encoding(to);
            let r = d.extend(&s).is_ok();
            cov.distinct_states(1);
            cov.step();
            let cps: Option<Vec<u32>> = new_character_decoder(from, &s.elements).map(|x| x.ok()).collect();
            let want: Option<Vec<u8>> = cps.and_then(|v| new_character_encoder(to, &v).map(|x| x.ok()).collect::<Option<Vec<_>>>()).map(|v| v.concat());
            if r != want.is_some() || (r && Some(&d.elements) != want.as_ref()) {
                return Err(Failure::new(format!("convert {from:?} {a:02x} to {to:?}"), format!("ok={r} {:02x?}, expected {want:02x?}", d.elements)));
            }
        }
        cov.trace();
        Ok(())
    });
    c.finish();
}
