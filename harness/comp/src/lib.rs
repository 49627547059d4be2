//! Shared parts of the compression checks: bit writers, canonical codes, and the comparison of the
//! decompressors with the data that the encoders (written here, from the format descriptions) encoded.
use mc_engine::{CaseResult, Cov, Failure};

pub mod bz;
pub mod deflate;
pub mod lzfse;
pub mod lzx_enc;

/// Runs a decompressor: compressed data, output buffer -> reported size, or the error text.
pub type Decoder = fn(&[u8], &mut [u8]) -> Result<usize, String>;

macro_rules! decoder {
    ($name:ident, $ctx:ty) => {
        pub fn $name(c: &[u8], u: &mut [u8]) -> Result<usize, String> {
            let mut x = <$ctx>::new();
            x.decompress(c, u).map_err(|e| e.to_string())?;
            Ok(x.uncompressed_data_size)
        }
    };
}
decoder!(adc, keramics_compression::AdcContext);
decoder!(bzip2, keramics_compression::Bzip2Context);
decoder!(deflate, keramics_compression::DeflateContext);
decoder!(lzfse, keramics_compression::LzfseContext);
decoder!(lznt1, keramics_compression::Lznt1Context);
decoder!(lzvn, keramics_compression::LzvnContext);
decoder!(lzx, keramics_compression::LzxContext);
decoder!(zlib, keramics_compression::ZlibContext);

fn brief(d: &[u8]) -> String {
    if d.len() <= 48 { format!("{d:02x?}") } else { format!("{:02x?}.. ({} bytes)", &d[..48], d.len()) }
}

/// The encoded data is well formed and encodes `want`: it must decode to exactly that, whatever the buffer held
/// before, reporting its size and leaving the rest of the buffer alone; a buffer that is too small gives an error
/// or a prefix.
pub fn expect(dec: Decoder, enc: &[u8], want: &[u8], cov: &mut Cov) -> CaseResult {
    cov.state(enc);
    cov.trace();
    for (extra, fill) in [(0usize, 0u8), (0, 0xa5), (7, 0x5a)] {
        let mut buf = vec![fill; want.len() + extra];
        cov.step();
        match mc_engine::guarded(|| dec(enc, &mut buf)) {
            Err(p) => return Err(Failure::new(brief(enc), p)),
            Ok(Err(e)) => return Err(Failure::new(brief(enc), format!("well-formed data of {} bytes (buffer +{extra}) is refused: {e}", want.len()))),
            Ok(Ok(n)) => {
                cov.outcome(&(n, &buf[..n.min(buf.len())]));
                if n != want.len() || buf[..n] != *want {
                    let at = (0..want.len().min(n)).find(|i| buf[*i] != want[*i]);
                    return Err(Failure::new(
                        brief(enc),
                        format!("buffer +{extra} of 0x{fill:02x}: size {n}, data {}, first difference {at:?}; expected size {}, data {}", brief(&buf[..n.min(buf.len())]), want.len(), brief(want)),
                    ));
                }
                if let Some(i) = buf[n..].iter().position(|b| *b != fill) {
                    return Err(Failure::new(brief(enc), format!("wrote past the reported size {n} at {}", n + i)));
                }
            }
        }
    }
    if !want.is_empty() {
        expect_short(dec, enc, want, want.len() - 1, cov)?;
    }
    Ok(())
}

/// A buffer that is too small gives an error or a prefix.
pub fn expect_short(dec: Decoder, enc: &[u8], want: &[u8], size: usize, cov: &mut Cov) -> CaseResult {
    let mut buf = vec![0xc3; size];
    cov.step();
    match mc_engine::guarded(|| dec(enc, &mut buf)) {
        Err(p) => Err(Failure::new(brief(enc), format!("buffer of {size}: {p}"))),
        Ok(Ok(n)) if n > size || buf[..n] != want[..n] => {
            Err(Failure::new(brief(enc), format!("buffer of {size}: size {n}, data {} is no prefix of {}", brief(&buf[..n.min(size)]), brief(want))))
        }
        _ => Ok(()),
    }
}

/// Truncated data gives an error or a prefix of the data, never something else.
pub fn expect_prefix(dec: Decoder, enc: &[u8], want: &[u8], cov: &mut Cov) -> CaseResult {
    cov.state(enc);
    cov.step();
    let mut buf = vec![0xc3; want.len()];
    match mc_engine::guarded(|| dec(enc, &mut buf)) {
        Err(p) => Err(Failure::new(brief(enc), format!("truncated: {p}"))),
        Ok(Ok(n)) => {
            cov.outcome(&n);
            if n > want.len() || buf[..n] != want[..n] {
                return Err(Failure::new(brief(enc), format!("truncated data gives {} which is no prefix of {}", brief(&buf[..n.min(buf.len())]), brief(want))));
            }
            Ok(())
        }
        Ok(Err(_)) => Ok(()),
    }
}

/// The encoded data breaks the format: an error is the only right answer.
pub fn expect_error(dec: Decoder, enc: &[u8], size: usize, why: &str, cov: &mut Cov) -> CaseResult {
    cov.state(enc);
    cov.step();
    cov.trace();
    let mut buf = vec![0xc3; size];
    match mc_engine::guarded(|| dec(enc, &mut buf)) {
        Err(p) => Err(Failure::new(brief(enc), format!("{why}: {p}"))),
        Ok(Ok(n)) => Err(Failure::new(brief(enc), format!("{why} is accepted: {}", brief(&buf[..n.min(size)])))),
        Ok(Err(e)) => {
            cov.outcome(&e);
            Ok(())
        }
    }
}

/// Any data: an answer, a size within the buffer, and the same answer whatever the buffer held before.
pub fn any_data(dec: Decoder, enc: &[u8], size: usize, cov: &mut Cov) -> CaseResult {
    let mut res: Vec<(Result<usize, ()>, Vec<u8>)> = vec![];
    for fill in [0u8, 0xff] {
        let mut buf = vec![fill; size];
        cov.step();
        let r = match mc_engine::guarded(|| dec(enc, &mut buf)) {
            Err(p) => return Err(Failure::new(brief(enc), p)),
            Ok(r) => r.map_err(|_| ()),
        };
        if let Ok(n) = r {
            if n > size {
                return Err(Failure::new(brief(enc), format!("reports {n} bytes in a buffer of {size}")));
            }
            buf.truncate(n);
        } else {
            buf.clear();
        }
        res.push((r, buf));
    }
    cov.outcome(&res[0]);
    if res[0] != res[1] {
        return Err(Failure::new(brief(enc), format!("the answer depends on what the buffer held: {} or {}", brief(&res[0].1), brief(&res[1].1))));
    }
    Ok(())
}

/// Bit writer, least significant bit first (DEFLATE).
#[derive(Clone, Default)]
pub struct LsbWriter {
    pub out: Vec<u8>,
    pub n: usize,
}

impl LsbWriter {
    pub fn bit(&mut self, b: u32) {
        if self.n % 8 == 0 {
            self.out.push(0);
        }
        *self.out.last_mut().unwrap() |= ((b & 1) as u8) << (self.n % 8);
        self.n += 1;
    }
    pub fn bits(&mut self, v: u32, n: u32) {
        for i in 0..n {
            self.bit(if i < 32 { v >> i } else { 0 });
        }
    }
    pub fn code(&mut self, c: (u32, u32)) {
        for i in (0..c.1).rev() {
            self.bit(c.0 >> i);
        }
    }
    pub fn align(&mut self) {
        self.n = self.out.len() * 8;
    }
    pub fn bytes(&mut self, d: &[u8]) {
        assert!(self.n % 8 == 0);
        self.out.extend_from_slice(d);
        self.n = self.out.len() * 8;
    }
}

/// Bit writer, most significant bit first; `bits` is the sequence of bits.
#[derive(Clone, Default)]
pub struct MsbWriter {
    pub bits: Vec<bool>,
}

impl MsbWriter {
    pub fn bits(&mut self, v: u64, n: u32) {
        for i in (0..n).rev() {
            self.bits.push(v >> i & 1 != 0);
        }
    }
    pub fn code(&mut self, c: (u32, u32)) {
        self.bits(c.0 as u64, c.1);
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << (7 - i))).collect()
    }
}

/// Canonical codes (code, length) of code lengths: shorter codes first, then by symbol.
pub fn canonical(lens: &[u8]) -> Vec<(u32, u32)> {
    let mut order: Vec<usize> = (0..lens.len()).filter(|i| lens[*i] > 0).collect();
    order.sort_by_key(|i| (lens[*i], *i));
    let mut codes = vec![(0, 0); lens.len()];
    let (mut code, mut len) = (0u32, 0u32);
    for i in order {
        let l = lens[i] as u32;
        code <<= l - len;
        len = l;
        codes[i] = (code, l);
        code += 1;
    }
    codes
}

/// All vectors of n code lengths between 1 and max that use the code space exactly.
pub fn complete_lengths(n: usize, max: u32) -> Vec<Vec<u8>> {
    fn rec(left: usize, room: u64, max: u32, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left == 0 {
            if room == 0 {
                out.push(cur.clone());
            }
            return;
        }
        for l in 1..=max {
            let w = 1u64 << (max - l);
            if w <= room {
                cur.push(l as u8);
                rec(left - 1, room - w, max, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(n, 1 << max, max, &mut vec![], &mut out);
    out
}
