//! C08: UTF-8 decoding accepts exactly the well-formed sequences of RFC 3629.
use keramics_encodings::{CharacterEncoding as E, new_character_decoder};
use mc_engine::{CaseResult, Check, Failure};

fn compare(bytes: &[u8]) -> CaseResult {
    let got: Vec<Option<u32>> = new_character_decoder(&E::Utf8, bytes).take(bytes.len() + 2).map(|r| r.ok()).collect();
    let (valid, all) = match std::str::from_utf8(bytes) {
        Ok(s) => (s, true),
        Err(e) => (std::str::from_utf8(&bytes[..e.valid_up_to()]).unwrap(), false),
    };
    let prefix: Vec<Option<u32>> = valid.chars().map(|c| Some(c as u32)).collect();
    let bad = if got.len() > bytes.len() {
        true
    } else if all {
        got != prefix
    } else {
        got.len() <= prefix.len() || got[..prefix.len()] != prefix[..] || got[prefix.len()].is_some()
    };
    if bad {
        return Err(Failure::new(
            format!("{bytes:02x?}"),
            format!("decodes to {got:x?}, expected {prefix:x?}{}", if all { "" } else { " then an error" }),
        ));
    }
    // Every later item that is a character is a Unicode scalar value.
    if got.iter().flatten().any(|x| char::from_u32(*x).is_none()) {
        return Err(Failure::new(format!("{bytes:02x?}"), format!("decodes to {got:x?}: not a Unicode character")));
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C08");
    c.assume("oracle: the validation of the Rust standard library, which implements RFC 3629 / Unicode table 3-7");
    c.family("len-0-2", 65536 + 256 + 1, |i, cov| {
        cov.state(&i);
        cov.trace();
        cov.step();
        match i {
            0..65536 => compare(&[(i >> 8) as u8, i as u8]),
            65536..65792 => compare(&[(i - 65536) as u8]),
            _ => compare(&[]),
        }
    });
    // The last bytes range over the boundaries of the byte classes of the grammar (thorough: every byte).
    let edge: Vec<u8> = vec![0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xff];
    let all: Vec<u8> = (0..=255).collect();
    let third = if c.thorough() { all.clone() } else { edge.clone() };
    c.family("len-3", 65536, |i, cov| {
        for t in &third {
            let b = [(i >> 8) as u8, i as u8, *t];
            cov.state(&b);
            cov.trace();
            cov.steps(3);
            compare(&b)?;
        }
        Ok(())
    });
    // Every three-byte sequence that begins with a lead byte of three bytes.
    c.family("len-3-lead", 16 * 256, |i, cov| {
        for t in &all {
            let b = [0xe0 + (i >> 8) as u8, i as u8, *t];
            cov.state(&b);
            cov.trace();
            cov.steps(3);
            compare(&b)?;
        }
        Ok(())
    });
    c.family("len-4", 65536, |i, cov| {
        for t in &edge {
            for u in &edge {
                let b = [(i >> 8) as u8, i as u8, *t, *u];
                cov.distinct_states(1);
                cov.trace();
                cov.steps(4);
                compare(&b)?;
            }
        }
        Ok(())
    });
    c.family("len-4-all-characters", 0x110, |i, cov| {
        for x in i as u32 * 0x1000..(i as u32 + 1) * 0x1000 {
            if let Some(ch) = char::from_u32(x) {
                let mut buf = [0u8; 4];
                let n = ch.encode_utf8(&mut buf).len();
                cov.state(&buf);
                cov.trace();
                cov.steps(n as u64);
                compare(&buf[..n])?;
            }
        }
        Ok(())
    });
    if c.thorough() {
        c.family("len-4-lead", 16 * 256, |i, cov| {
            for t in &all {
                for u in &all {
                    let b = [0xf0 + (i >> 8) as u8, i as u8, *t, *u];
                    cov.distinct_states(1);
                    cov.trace();
                    cov.steps(4);
                    compare(&b)?;
                }
            }
            Ok(())
        });
    }
    // Longer strings over one representative of each byte class: recovery and resynchronisation.
    let rep = [0x41u8, 0x80, 0xa0, 0xc3, 0xe0, 0xe3, 0xed, 0xf0, 0xf4, 0xff];
    let len = c.pick(5u32, 7);
    c.family("class-strings", (rep.len() as u64).pow(len), |i, cov| {
        let mut k = i;
        let b: Vec<u8> = (0..len)
            .map(|_| {
                let d = rep[(k % rep.len() as u64) as usize];
                k /= rep.len() as u64;
                d
            })
            .collect();
        cov.state(&b);
        cov.trace();
        cov.steps(len as u64);
        compare(&b)
    });
    c.finish();
}
