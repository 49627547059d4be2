//! C11: UUIDs and integers read from bytes and text are exact.
use keramics_types::*;
use mc_engine::util::hex;
use mc_engine::{CaseResult, Check, Failure};

fn reference(text: &str) -> Option<[u8; 16]> {
    let s = text.strip_prefix('{').and_then(|x| x.strip_suffix('}')).unwrap_or(text);
    let p: Vec<&str> = s.split('-').collect();
    if p.len() != 5 || p.iter().map(|x| x.len()).ne([8, 4, 4, 4, 12]) || !p.iter().all(|x| x.bytes().all(|b| b.is_ascii_hexdigit())) {
        return None;
    }
    let h = p.concat();
    let mut o = [0u8; 16];
    for (i, b) in o.iter_mut().enumerate() {
        *b = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap();
    }
    Some(o)
}

fn canonical(b: &[u8; 16]) -> String {
    let h = hex(b);
    format!("{}-{}-{}-{}-{}", &h[0..8], &h[8..12], &h[12..16], &h[16..20], &h[20..32])
}

fn parse(text: &str) -> CaseResult {
    let mut u = Uuid::new();
    let r = u.from_string(text);
    let w = reference(text);
    if r.is_ok() != w.is_some() {
        return Err(Failure::new(format!("parse {text:?}"), format!("accepted={}, expected {}", r.is_ok(), w.is_some())));
    }
    if let Some(w) = w {
        if u != Uuid::from_be_bytes(&w) || u.to_string() != canonical(&w) {
            return Err(Failure::new(format!("parse {text:?}"), format!("{u}, expected {}", canonical(&w))));
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C11");
    let bases: Vec<[u8; 16]> = vec![[0; 16], [0xff; 16], core::array::from_fn(|i| (i * 15 + 7) as u8), core::array::from_fn(|i| 0x80 >> (i % 8))];
    c.family("bytes", bases.len() as u64 * 16 * 256, |i, cov| -> CaseResult {
        let mut b = bases[i as usize / 4096];
        b[i as usize / 256 % 16] = i as u8;
        cov.state(&b);
        cov.trace();
        cov.steps(6);
        let u = Uuid::from_be_bytes(&b);
        let want = canonical(&b);
        let f = |d: String| Err(Failure::new(format!("bytes {}", hex(&b)), d));
        if u.to_string() != want || format!("{u}") != want {
            return f(format!("shown as {u}, expected {want}"));
        }
        let mut l = b;
        l[0..4].reverse();
        l[4..6].reverse();
        l[6..8].reverse();
        if Uuid::from_le_bytes(&l) != u {
            return f(format!("little-endian form read as {}", Uuid::from_le_bytes(&l)));
        }
        if u.is_nil() != (b == [0; 16]) || u.is_max() != (b == [0xff; 16]) {
            return f(format!("nil={} max={}", u.is_nil(), u.is_max()));
        }
        // A longer buffer gives the same.
        if Uuid::from_be_bytes(&[&b[..], &[9, 9]].concat()) != u {
            return f("depends on the bytes after it".into());
        }
        parse(&want)?;
        parse(&want.to_uppercase())?;
        parse(&format!("{{{want}}}"))
    });
    // Two bytes at once: equality distinguishes all of them.
    c.family("byte-pairs", 120, |i, cov| -> CaseResult {
        let (mut p, mut q, mut k) = (0usize, 1usize, i);
        while k > 0 {
            q += 1;
            if q == 16 {
                p += 1;
                q = p + 1;
            }
            k -= 1;
        }
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                let mut b = bases[2];
                b[p] = x;
                b[q] = y;
                cov.distinct_states(1);
                cov.step();
                let u = Uuid::from_be_bytes(&b);
                if u.to_string() != canonical(&b) || u.is_nil() || u.is_max() {
                    return Err(Failure::new(format!("bytes {}", hex(&b)), format!("shown as {u}")));
                }
            }
        }
        cov.trace();
        Ok(())
    });
    // Text: every position replaced by, and every position given in addition, characters of every kind.
    let base = "0123aBcd-4567-89AB-cdef-0123456789ab";
    let subs: Vec<char> = (1u8..0x80).map(|b| b as char).chain(['\u{e9}', '\u{ff10}', '\u{661}', '\u{1d7ce}', '\u{2011}']).collect();
    c.family("text-one-edit", 37 * subs.len() as u64 * 2, |i, cov| -> CaseResult {
        let ch = subs[i as usize % subs.len()];
        let pos = i as usize / subs.len() % 37;
        let insert = i as usize / subs.len() / 37 == 1;
        let mut s: Vec<char> = base.chars().collect();
        if insert { s.insert(pos, ch) } else if pos < 36 { s[pos] = ch } else { s.push(ch) }
        let s: String = s.into_iter().collect();
        cov.state(&s);
        cov.trace();
        cov.step();
        parse(&s)?;
        parse(&format!("{{{s}}}"))?;
        parse(&format!("{{{s}"))?;
        parse(&format!("{s}}}"))
    });
    // Multi-byte characters at every pair of positions, compensated so that the length in bytes is 36.
    c.family("text-multi-byte", 36 * 37, |i, cov| -> CaseResult {
        let (from, to) = (i as usize / 37, i as usize % 37);
        for (ch, n) in [('\u{e9}', 2), ('\u{20ac}', 3), ('\u{1f600}', 4)] {
            if from >= to || to - from < n {
                continue;
            }
            let s = format!("{}{ch}{}", &base[..from], &base[from + n..]);
            cov.state(&s);
            cov.trace();
            cov.step();
            parse(&s)?;
            let t = format!("{}{ch}{}", &base[..from], &base[(from + n - (to - from - n) % n).min(36)..]);
            parse(&t)?;
        }
        Ok(())
    });
    // Two edits: signs, spaces, underscores, hyphens and prefixes that number parsers tolerate.
    let odd = ['+', '-', '_', ' ', 'x', 'g', '0', '\t', '{', '}'];
    c.family("text-two-edits", 36 * 36 * 100, |i, cov| -> CaseResult {
        let (a, b) = (i as usize / 100 / 36, i as usize / 100 % 36);
        let mut s: Vec<char> = base.chars().collect();
        s[a] = odd[i as usize % 10];
        s[b] = odd[i as usize / 10 % 10];
        let s: String = s.into_iter().collect();
        cov.state(&s);
        cov.trace();
        cov.step();
        parse(&s)
    });
    c.family("text-lengths", 80, |i, cov| -> CaseResult {
        let n = i as usize / 2;
        let t: String = base.chars().cycle().take(n).collect();
        cov.state(&t);
        cov.trace();
        cov.step();
        if i % 2 == 0 { parse(&t) } else { parse(&format!("{{{t}}}")) }
    });
    // Integers: every byte at every position for every width, order and alignment.
    c.family("integers", 12 * 256, |i, cov| -> CaseResult {
        let (p, v) = (i as usize / 256, i as u8);
        for fill in [0u8, 0x7f, 0x80, 0xff] {
            let mut d = [fill; 12];
            d[p] = v;
            for o in 0..=4usize {
                let (a, b, e) = (&d[o..o + 2], &d[o..o + 4], &d[o..o + 8]);
                let (x, y, z): ([u8; 2], [u8; 4], [u8; 8]) = (a.try_into().unwrap(), b.try_into().unwrap(), e.try_into().unwrap());
                cov.steps(12);
                let num = |s: &[u8]| s.iter().fold(0u64, |n, b| n << 8 | *b as u64);
                let rev = |s: &[u8]| s.iter().rev().fold(0u64, |n, b| n << 8 | *b as u64);
                let ok = bytes_to_u16_be!(d, o) as u64 == num(&x)
                    && bytes_to_u16_le!(d, o) as u64 == rev(&x)
                    && bytes_to_i16_be!(d, o) as u16 as u64 == num(&x)
                    && bytes_to_i16_le!(d, o) as u16 as u64 == rev(&x)
                    && bytes_to_u32_be!(d, o) as u64 == num(&y)
                    && bytes_to_u32_le!(d, o) as u64 == rev(&y)
                    && bytes_to_i32_be!(d, o) as u32 as u64 == num(&y)
                    && bytes_to_i32_le!(d, o) as u32 as u64 == rev(&y)
                    && bytes_to_u64_be!(d, o) == num(&z)
                    && bytes_to_u64_le!(d, o) == rev(&z)
                    && bytes_to_i64_be!(d, o) as u64 == num(&z)
                    && bytes_to_i64_le!(d, o) as u64 == rev(&z);
                if !ok {
                    return Err(Failure::new(format!("integers {d:02x?} at {o}"), "an integer is not the value of its bytes"));
                }
            }
        }
        cov.state(&(p, v));
        cov.trace();
        Ok(())
    });
    c.finish();
}
