//! C09: Base64 decoding inverts RFC 4648 encoding, rejects foreign characters and stays within the output.
use keramics_encodings::{Base64Context, Base64Stream};
use mc_engine::util::{seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure};

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn rfc_encode(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for ch in d.chunks(3) {
        let v = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            o.push(if k <= ch.len() { ALPHABET[(v >> (18 - 6 * k) & 63) as usize] } else { b'=' });
        }
    }
    o
}

/// Decodes with the streaming interface: bytes before the end or the error, and whether there was an error.
fn stream(enc: &[u8], ws: bool) -> (Vec<u8>, bool) {
    let mut s = Base64Stream::new(enc, 0, ws);
    let mut o = vec![];
    loop {
        match s.get_value() {
            Ok(Some(b)) => o.push(b),
            Ok(None) => return (o, false),
            Err(_) => return (o, true),
        }
        if o.len() > enc.len() {
            return (o, true);
        }
    }
}

/// Reference for arbitrary input: bytes of the sextets before the first '=' or foreign character, and
/// whether a foreign character comes first.
fn reference(enc: &[u8], ws: bool) -> (Vec<u8>, bool) {
    let (mut o, mut v, mut n, mut bad) = (vec![], 0u32, 0, false);
    for b in enc {
        if *b == b'=' {
            break;
        }
        if ws && matches!(*b, 9 | 10 | 11 | 13 | 32) {
            continue;
        }
        match ALPHABET.iter().position(|x| x == b) {
            Some(p) => {
                v = (v << 6 | p as u32) & 0xfff_ffff;
                n += 6;
                if n >= 8 {
                    n -= 8;
                    o.push((v >> n) as u8);
                    v &= (1 << n) - 1;
                }
            }
            None => {
                bad = true;
                break;
            }
        }
    }
    (o, bad)
}

fn check_stream(enc: &[u8], ws: bool, cov: &mut Cov) -> CaseResult {
    let got = stream(enc, ws);
    let want = reference(enc, ws);
    cov.state(&(enc, ws));
    cov.steps(got.0.len() as u64 + 1);
    cov.trace();
    cov.outcome(&got);
    if got != want {
        return Err(Failure::new(format!("{:?} ws={ws}", String::from_utf8_lossy(enc)), format!("stream gives {got:02x?}, expected {want:02x?}")));
    }
    Ok(())
}

fn round_trip(d: &[u8], cov: &mut Cov) -> CaseResult {
    let enc = rfc_encode(d);
    check_stream(&enc, false, cov)?;
    check_stream(&enc, true, cov)?;
    for extra in [0usize, 1] {
        let mut out = vec![0xa5u8; d.len() + extra];
        let mut ctx = Base64Context::new();
        let r = ctx.decode(&enc, &mut out);
        cov.step();
        if r.is_err() || ctx.data_size != d.len() || out[..d.len()] != *d || out[d.len()..].iter().any(|b| *b != 0xa5) {
            return Err(Failure::new(format!("round trip {d:02x?}"), format!("{:?} decodes to {:?} size {} data {out:02x?}", String::from_utf8_lossy(&enc), r.is_ok(), ctx.data_size)));
        }
    }
    if !d.is_empty() {
        let mut out = vec![0xa5u8; d.len() - 1];
        if Base64Context::new().decode(&enc, &mut out).is_ok() {
            return Err(Failure::new(format!("short output {d:02x?}"), "no error although the output does not fit"));
        }
        cov.step();
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C09");
    c.assume("not specified, accepted either way: missing padding, non-zero discarded bits, data after the padding");
    c.family("round-trip-1-2", 65536 + 256 + 1, |i, cov| match i {
        0..65536 => round_trip(&[(i >> 8) as u8, i as u8], cov),
        65536..65792 => round_trip(&[(i - 65536) as u8], cov),
        _ => round_trip(&[], cov),
    });
    // All quads of alphabet characters = all groups of three bytes (quick: the last two characters from a third of the alphabet).
    let tail: Vec<u8> = if c.thorough() { ALPHABET.to_vec() } else { ALPHABET.iter().copied().step_by(5).chain(*b"Z/+9z").collect() };
    c.family("quads", 4096, |i, cov| {
        for a in &tail {
            for b in &tail {
                check_stream(&[ALPHABET[(i / 64) as usize], ALPHABET[(i % 64) as usize], *a, *b], false, cov)?;
            }
        }
        Ok(())
    });
    c.family("round-trip-long", 4 * 200, |i, cov| {
        let (k, n) = (i % 4, (i / 4) as usize);
        let d: Vec<u8> = (0..n).map(|j| match k { 0 => 0, 1 => 0xff, 2 => (j * 37 + 11) as u8, _ => (j as u32).wrapping_mul(2654435761).to_le_bytes()[3] }).collect();
        round_trip(&d, cov)
    });
    // Every byte value at every position of a group, for both treatments of white space.
    c.family("every-byte", 256 * 9 * 2, |i, cov| {
        let (b, pos, ws) = (i as u8, (i / 256 % 9) as usize, i / 2304 == 1);
        let mut enc = b"QUJDREVGR0g".to_vec();
        enc.insert(pos, b);
        check_stream(&enc, ws, cov)
    });
    let sym: &[u8] = b"QzA/=\n \x00-";
    let max = c.pick(6u32, 7);
    let n = seq_count(sym.len() as u64, max);
    c.family("class-strings", n * 2, |i, cov| {
        let idx = seq_decode(sym.len() as u64, i / 2);
        let enc: Vec<u8> = idx.iter().map(|k| sym[*k as usize]).collect();
        let ws = i % 2 == 1;
        check_stream(&enc, ws, cov)?;
        if !ws {
            // The one-shot interface: a foreign character before the padding is refused; what is
            // accepted is the reference; never a panic.
            let (want, bad) = reference(&enc, false);
            let mut out = vec![0u8; want.len()];
            let mut ctx = Base64Context::new();
            let r = ctx.decode(&enc, &mut out).is_ok();
            cov.step();
            let pad = enc.iter().position(|b| *b == b'=');
            let canonical = !bad && pad.is_none_or(|p| enc[p..].iter().all(|b| *b == b'=') && enc.len() % 4 == 0 && enc.len() - p <= 2) && enc.len() % 4 == 0;
            if (bad && r) || (canonical && !r) || (r && (ctx.data_size != want.len() || out != want)) {
                return Err(Failure::new(format!("decode {:?}", String::from_utf8_lossy(&enc)), format!("ok={r} data {out:02x?} size {}, expected {want:02x?}, foreign={bad}", ctx.data_size)));
            }
            // Incomplete padding is refused.
            if let (false, Some(p)) = (bad, pad) {
                let missing = (4 - p % 4) % 4;
                if missing > 0 && (enc.len() < p + missing || enc[p..p + missing].iter().any(|b| *b != b'=')) && r {
                    return Err(Failure::new(format!("decode {:?}", String::from_utf8_lossy(&enc)), "incomplete padding accepted"));
                }
            }
        }
        Ok(())
    });
    c.finish();
}
