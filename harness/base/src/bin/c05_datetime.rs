//! C05: timestamps render as the calendar date and time they denote.
use keramics_datetime::{FatDate, FatTimeDate, FatTimeDate10Ms, Filetime, PosixTime32, PosixTime64Ns};
use mc_engine::util::Digits;
use mc_engine::{CaseResult, Check, Cov, Failure};

/// Proleptic Gregorian calendar date of a number of days since 1970-01-01, by 400-year eras.
fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = (if mp < 10 { mp + 3 } else { mp - 9 }) as u32;
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

fn text(seconds: i64) -> String {
    let (y, m, d) = civil(seconds.div_euclid(86400));
    let s = seconds.rem_euclid(86400);
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", y, m, d, s / 3600, s / 60 % 60, s % 60)
}

fn same(got: &str, want: &str, key: &str, cov: &mut Cov) -> CaseResult {
    cov.step();
    if got == want {
        Ok(())
    } else {
        Err(Failure::new(key, format!("rendered as {got}, expected {want}")))
    }
}

const FILETIME_TO_POSIX: i64 = 11644473600;

fn main() {
    let mut c = Check::new("C05");
    // The reference is checked against itself by walking the calendar one day at a time.
    {
        let (mut y, mut m, mut d) = (1601i64, 1u32, 1u32);
        for n in -134774i64..=3_000_000 {
            assert_eq!(civil(n), (y, m, d));
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
            d += 1;
            if d > dim {
                d = 1;
                m += 1;
            }
            if m > 12 {
                m = 1;
                y += 1;
            }
        }
    }
    let secs = [0i64, 1, 59, 60, 3599, 3600, 43199, 43200, 86399];
    // POSIX 32-bit: every day, boundary seconds.
    let lo = (i32::MIN as i64).div_euclid(86400);
    let hi = (i32::MAX as i64).div_euclid(86400);
    c.family("posix32-days", (hi - lo + 1) as u64, |i, cov| {
        let day = lo + i as i64;
        cov.trace();
        cov.distinct_states(1);
        cov.sample(|| format!("day {day}: {}", text(day * 86400)));
        for s in secs {
            let t = day * 86400 + s;
            if t < i32::MIN as i64 || t > i32::MAX as i64 {
                continue;
            }
            let p = PosixTime32::new(t as i32);
            let want = text(t);
            same(&p.to_iso8601_string(), &want, &format!("posix32 {t}"), cov)?;
            if s == 0 {
                same(&format!("{p}"), &format!("{want} ({t})"), &format!("posix32 display {t}"), cov)?;
                let b = PosixTime32::from_be_bytes(&(t as i32).to_be_bytes());
                let l = PosixTime32::from_le_bytes(&(t as i32).to_le_bytes());
                if b.timestamp != t as i32 || l.timestamp != t as i32 {
                    return Err(Failure::new(format!("posix32 bytes {t}"), format!("read as {} and {}", b.timestamp, l.timestamp)));
                }
            }
        }
        Ok(())
    });
    c.family("posix32-seconds", 4, |i, cov| {
        let day = [-1i64, 0, 11016, -24855][i as usize];
        cov.trace();
        for s in 0..86400 {
            let t = day * 86400 + s;
            if t < i32::MIN as i64 {
                continue;
            }
            cov.distinct_states(1);
            same(&PosixTime32::new(t as i32).to_iso8601_string(), &text(t), &format!("posix32 {t}"), cov)?;
        }
        Ok(())
    });
    if c.thorough() {
        c.family("posix32-all", 65536, |i, cov| {
            cov.trace();
            cov.distinct_states(65536);
            for l in 0..65536u64 {
                let t = (i << 16 | l) as u32 as i32;
                same(&PosixTime32::new(t).to_iso8601_string(), &text(t as i64), &format!("posix32 {t}"), cov)?;
            }
            Ok(())
        });
    }
    // FILETIME: every day.
    let days = u64::MAX / 10_000_000 / 86400 + 1;
    let last = c.pick(4_000_000u64, days);
    c.note("filetime_bound", format!("every day 0..{last} of {days}, and boundaries of the remainder"));
    let filetime = |v: u64, cov: &mut Cov| -> CaseResult {
        let want = format!("{}.{:07}", text((v / 10_000_000) as i64 - FILETIME_TO_POSIX), v % 10_000_000);
        let f = Filetime::from_bytes(&v.to_le_bytes());
        if f != Filetime::new(v) || f.timestamp != v {
            return Err(Failure::new(format!("filetime bytes {v}"), format!("read as {}", f.timestamp)));
        }
        same(&f.to_iso8601_string(), &want, &format!("filetime {v}"), cov)?;
        same(
            &format!("{f}"),
            &format!("{want} (0x{:08x}:0x{:08x})", v >> 32, v & 0xffffffff),
            &format!("filetime display {v}"),
            cov,
        )
    };
    c.family("filetime-days", last, |i, cov| {
        cov.trace();
        cov.distinct_states(1);
        let base = i * 86400 * 10_000_000;
        filetime(base, cov)?;
        match base.checked_add(86400 * 10_000_000 - 1) {
            Some(v) => filetime(v, cov),
            None => filetime(u64::MAX, cov),
        }
    });
    c.family("filetime-bits", 64 * 64 + 200_000, |i, cov| {
        cov.trace();
        cov.distinct_states(1);
        let v = if i < 4096 {
            (1u64 << (i / 64)).wrapping_sub(1u64 << (i % 64))
        } else {
            u64::MAX - (i - 4096) * 86400 * 10_000_000
        };
        filetime(v, cov)
    });
    // POSIX 64-bit with nanoseconds: every day of years -9999..9999 around the epoch, fractions.
    let (l64, h64) = c.pick((-800_000i64, 3_000_000i64), (-4_371_000, 11_000_000));
    let fr = [0u32, 1, 999_999_999];
    let posix64 = |t: i64, f: u32, cov: &mut Cov| -> CaseResult {
        let p = PosixTime64Ns::new(t, f);
        let want = format!("{}.{:09}", text(t), f);
        same(&p.to_iso8601_string(), &want, &format!("posix64 {t}.{f}"), cov)?;
        same(&format!("{p}"), &format!("{want} ({t}.{f})"), &format!("posix64 display {t}.{f}"), cov)
    };
    c.family("posix64-days", (h64 - l64) as u64, |i, cov| {
        cov.trace();
        cov.distinct_states(1);
        let day = l64 + i as i64;
        posix64(day * 86400, fr[(i % 3) as usize], cov)?;
        posix64(day * 86400 + 86399, fr[((i + 1) % 3) as usize], cov)
    });
    c.family("posix64-extremes", 4 * 64, |i, cov| {
        cov.trace();
        cov.distinct_states(1);
        let v = 1i64.checked_shl((i / 4) as u32).unwrap_or(0);
        let t = match i % 4 {
            0 => v,
            1 => v.wrapping_neg(),
            2 => v.wrapping_sub(1),
            _ => v.wrapping_neg().wrapping_sub(1),
        };
        posix64(t, 5, cov)
    });
    // FAT: every date, every time, every fraction.
    c.family("fat-date", 65536, |i, cov| {
        let d = i as u16;
        cov.trace();
        cov.distinct_states(1);
        let want = format!("{:04}-{:02}-{:02}", 1980 + (d >> 9), d >> 5 & 15, d & 31);
        let f = FatDate::from_bytes(&d.to_le_bytes());
        if f != FatDate::new(d) {
            return Err(Failure::new(format!("fat bytes {d}"), format!("read as {}", f.date)));
        }
        same(&f.to_iso8601_string(), &want, &format!("fat date {d:04x}"), cov)?;
        same(&format!("{f}"), &format!("{want} (0x{d:04x})"), &format!("fat date display {d:04x}"), cov)
    });
    let dates = [0x0021u16, 0x5b5d, 0xff9f, 0];
    c.family("fat-time-date", 65536 * 4, |i, cov| {
        let mut x = Digits(i);
        let d = *x.pick(&dates);
        let t = x.0 as u16;
        cov.trace();
        cov.distinct_states(1);
        let want = format!(
            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
            1980 + (d >> 9), d >> 5 & 15, d & 31, t >> 11, t >> 5 & 63, (t & 31) * 2
        );
        let mut b = t.to_le_bytes().to_vec();
        b.extend(d.to_le_bytes());
        let f = FatTimeDate::from_bytes(&b);
        if f != FatTimeDate::new(d, t) {
            return Err(Failure::new(format!("fat bytes {d:04x} {t:04x}"), format!("{f}")));
        }
        same(&f.to_iso8601_string(), &want, &format!("fat {d:04x} {t:04x}"), cov)?;
        same(&format!("{f}"), &format!("{want} (0x{d:04x}:0x{t:04x})"), &format!("fat display {d:04x} {t:04x}"), cov)
    });
    c.family("fat-10ms", 256 * 32 * 4 * 4, |i, cov| {
        let mut x = Digits(i);
        let d = *x.pick(&dates);
        let hm = [0u16, 0x7fe0, 0xbf60, 0xffe0][x.take(4) as usize];
        let t = hm | x.take(32) as u16;
        let f = x.0 as u8;
        cov.trace();
        cov.distinct_states(1);
        let ms = (t & 31) as u32 * 2000 + f as u32 * 10;
        let want = format!(
            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:02}",
            1980 + (d >> 9), d >> 5 & 15, d & 31, t >> 11, t >> 5 & 63, ms / 1000, ms % 1000 / 10
        );
        let mut b = vec![f];
        b.extend(t.to_le_bytes());
        b.extend(d.to_le_bytes());
        let v = FatTimeDate10Ms::from_bytes(&b);
        if v != FatTimeDate10Ms::new(d, t, f) {
            return Err(Failure::new(format!("fat bytes {d:04x} {t:04x} {f:02x}"), format!("{v}")));
        }
        same(&v.to_iso8601_string(), &want, &format!("fat {d:04x} {t:04x} {f:02x}"), cov)?;
        same(&format!("{v}"), &format!("{want} (0x{d:04x}:0x{t:04x}:0x{f:02x})"), &format!("fat display {d:04x} {t:04x} {f:02x}"), cov)
    });
    c.finish();
}
