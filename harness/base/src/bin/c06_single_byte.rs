//! C06: single-byte character encodings map as their standards define, reversibly and without getting stuck.
use keramics_encodings::{CharacterEncoding as E, new_character_decoder, new_character_encoder};
use mc_engine::{CaseResult, Check, Failure};
use std::collections::HashMap;

const LIST: [E; 36] = [
    E::Ascii, E::Iso8859_1, E::Iso8859_2, E::Iso8859_3, E::Iso8859_4, E::Iso8859_5, E::Iso8859_6, E::Iso8859_7, E::Iso8859_8,
    E::Iso8859_9, E::Iso8859_10, E::Iso8859_11, E::Iso8859_13, E::Iso8859_14, E::Iso8859_15, E::Iso8859_16, E::Koi8R, E::Koi8U,
    E::MacArabic, E::MacCeltic, E::MacCentralEurRoman, E::MacCroatian, E::MacCyrillic, E::MacDingbats, E::MacFarsi, E::MacGaelic,
    E::Windows874, E::Windows1250, E::Windows1251, E::Windows1252, E::Windows1253, E::Windows1254, E::Windows1255, E::Windows1256,
    E::Windows1257, E::Windows1258,
];

/// Decodes at most `max` items: Some = code point, None = error.
fn decode(e: &E, bytes: &[u8], max: usize) -> Vec<Option<u32>> {
    new_character_decoder(e, bytes).take(max).map(|r| r.ok()).collect()
}
fn encode(e: &E, cps: &[u32], max: usize) -> Vec<Option<Vec<u8>>> {
    new_character_encoder(e, cps).take(max).map(|r| r.ok()).collect()
}

fn main() {
    let mut c = Check::new("C06");
    c.assume("reference mappings come from the Python 3.12 codecs (tables/gen.py); Mac Celtic, Dingbats and Gaelic have no Python codec and are checked for reversibility, totality and independence of context only");
    let text = std::fs::read_to_string(format!("{}/tables/encodings.txt", std::env::var("VERIF_DIR").unwrap())).expect("tables");
    let mut tables: HashMap<String, Vec<Option<u32>>> = HashMap::new();
    for l in text.lines() {
        let mut it = l.split(' ');
        let k = it.next().unwrap();
        if k.contains(':') {
            continue;
        }
        tables.insert(k.to_string(), it.map(|s| u32::from_str_radix(s, 16).ok()).collect());
    }
    let single: Vec<Vec<Vec<Option<u32>>>> = LIST.iter().map(|e| (0..256).map(|b| decode(e, &[b as u8], 3)).collect()).collect();

    c.family("decode-one", (LIST.len() * 256) as u64, |i, cov| -> CaseResult {
        let (e, b) = (&LIST[i as usize / 256], i as usize % 256);
        let name = format!("{e:?}");
        let got = &single[i as usize / 256][b];
        cov.state(&(i, 0u8));
        cov.step();
        cov.trace();
        if got.len() != 1 {
            return Err(Failure::new(format!("{name} {b:02x}"), format!("one byte decodes to {} items: {got:?}", got.len())));
        }
        cov.outcome(&got[0]);
        if let Some(t) = tables.get(&name) {
            if got[0] != t[b] {
                return Err(Failure::new(
                    if name == "Ascii" && b >= 0x80 && got[0] == Some(b as u32) { "Ascii 80..ff".to_string() } else { format!("{name} {b:02x}") },
                    format!("byte 0x{b:02x} decodes to {:x?}, the standard says {:x?}", got[0], t[b]),
                ));
            }
        }
        Ok(())
    });

    // Every pair of bytes: the mapping does not depend on what came before, and an error does not stop the decoder.
    c.family("decode-pairs", (LIST.len() * 256) as u64, |i, cov| -> CaseResult {
        let (n, a) = (i as usize / 256, i as usize % 256);
        cov.distinct_states(256);
        for b in 0..256usize {
            let got = decode(&LIST[n], &[a as u8, b as u8], 4);
            let want = [single[n][a][0], single[n][b][0]];
            cov.steps(2);
            cov.trace();
            if got != want {
                return Err(Failure::new(format!("{:?} {a:02x} {b:02x}", LIST[n]), format!("decodes to {got:x?}, expected {want:x?}")));
            }
        }
        Ok(())
    });

    let planes = c.pick(0x11, 0x100);
    c.family("encode-all", (LIST.len() * planes * 16) as u64, |i, cov| -> CaseResult {
        let n = i as usize / (planes * 16);
        let block = (i as usize % (planes * 16)) as u32;
        let e = &LIST[n];
        let back: HashMap<u32, u8> = (0..256).rev().filter_map(|b| single[n][b][0].map(|x| (x, b as u8))).collect();
        cov.distinct_states(0x1000);
        for x in block * 0x1000..(block + 1) * 0x1000 {
            let cps = [x, 0x41];
            let got = encode(e, &cps, 4);
            cov.step();
            let f = |d: String| Err(Failure::new(format!("{e:?} U+{x:04x}"), d));
            let second = single[n][0x41][0] == Some(0x41);
            if got.len() != 2 || (second && got[1].as_deref() != Some(&[0x41])) {
                return f(format!("encoding U+{x:04x} U+0041 gives {got:x?}"));
            }
            match &got[0] {
                Some(bytes) => {
                    cov.trace();
                    let d = decode(e, bytes, 4);
                    if d != [Some(x)] {
                        return f(format!("encodes to {bytes:02x?}, which decodes to {d:x?}"));
                    }
                }
                None => {
                    if let Some(b) = back.get(&x) {
                        if !(format!("{e:?}") == "Ascii" && x >= 0x80) {
                            return f(format!("not encodable although byte 0x{b:02x} decodes to it"));
                        }
                    }
                }
            }
        }
        Ok(())
    });

    // Pairs of characters of the repertoire and of unsupported ones: the encoder is stateless and does not get stuck.
    c.family("encode-pairs", (LIST.len() * 257) as u64, |i, cov| -> CaseResult {
        let (n, a) = (i as usize / 257, i as usize % 257);
        let e = &LIST[n];
        let cp = |k: usize| if k == 256 { Some(0x10fffe) } else { single[n][k][0] };
        let Some(x) = cp(a) else { return Ok(()) };
        let ex = encode(e, &[x], 3);
        for b in 0..257 {
            let Some(y) = cp(b) else { continue };
            let got = encode(e, &[x, y], 4);
            let ey = encode(e, &[y], 3);
            cov.state(&(n, a, b));
            cov.steps(2);
            cov.trace();
            if ex.len() != 1 || ey.len() != 1 || got != [ex[0].clone(), ey[0].clone()] {
                return Err(Failure::new(format!("{e:?} U+{x:04x} U+{y:04x}"), format!("encodes to {got:x?}, expected {ex:x?} {ey:x?}")));
            }
        }
        Ok(())
    });
    c.note("space", "36 encodings: all 256 bytes, all byte pairs, all Unicode code points (thorough: all values below 2^24) and all pairs of characters of each repertoire");
    c.finish();
}
