//! C02: diagnostic renderings of data are complete and faithful.
use keramics_core::ErrorTrace;
use keramics_core::formatters::{debug_format_array, format_as_hexdump, format_as_string};
use mc_engine::util::{Digits, hex, seq_count, seq_decode};
use mc_engine::{Check, Cov, Failure};

/// Renders the expected dump: 16 bytes per line, two groups of 8, character column.
fn expected_dump(data: &[u8], group: bool) -> String {
    let mut out = String::new();
    let full = data.len() / 16;
    let mut shown: Option<&[u8]> = None;
    let mut eliding = false;
    for (n, row) in data.chunks(16).enumerate() {
        // With grouping, repetitions of the line shown last are elided, except the last full line.
        if group && row.len() == 16 && shown == Some(row) && n + 1 < full {
            if !eliding {
                out.push_str("...\n");
            }
            eliding = true;
            continue;
        }
        eliding = false;
        shown = Some(row);
        let mut hexpart = String::new();
        for i in 0..16 {
            match row.get(i) {
                Some(b) => hexpart.push_str(&format!("{b:02x} ")),
                None => hexpart.push_str("   "),
            }
            if i == 7 {
                hexpart.push(' ');
            }
        }
        let chars: String = row.iter().map(|b| if (32..127).contains(b) { *b as char } else { '.' }).collect();
        out.push_str(&format!("{:08x}  {hexpart} {chars}\n", n * 16));
    }
    out.push('\n');
    out
}

/// Recovers the data from a dump; elided lines repeat the line shown before.
fn recover(dump: &str) -> Result<Vec<u8>, String> {
    let mut out: Vec<u8> = Vec::new();
    let mut last: Vec<u8> = Vec::new();
    let mut elided = false;
    for l in dump.lines() {
        if l.is_empty() {
            continue;
        }
        if l == "..." {
            elided = true;
            continue;
        }
        let off = usize::from_str_radix(l.get(0..8).ok_or("short line")?, 16).map_err(|e| e.to_string())?;
        while elided && out.len() < off {
            out.extend_from_slice(&last);
        }
        elided = false;
        if out.len() != off {
            return Err(format!("line offset {off:#x} but {:#x} bytes recovered", out.len()));
        }
        let hexs: String = l.chars().skip(10).take(49).collect();
        let row: Result<Vec<u8>, _> = hexs.split_whitespace().map(|h| u8::from_str_radix(h, 16)).collect();
        last = row.map_err(|e| e.to_string())?;
        out.extend_from_slice(&last);
    }
    Ok(out)
}

fn check_dump(data: &[u8], group: bool, cov: &mut Cov) -> Result<(), Failure> {
    cov.step();
    cov.trace();
    let got = format_as_hexdump(data, group);
    cov.outcome(&got);
    let key = || format!("len={} group={group} data={}", data.len(), hex(&data[..data.len().min(40)]));
    match recover(&got) {
        Ok(r) if r == data => {}
        Ok(r) => return Err(Failure::new(key(), format!("dump shows {} instead of {}", hex(&r), hex(data)))),
        Err(e) => return Err(Failure::new(key(), format!("dump cannot be read back: {e}\n{got}"))),
    }
    let want = expected_dump(data, group);
    if got != want {
        return Err(Failure::new(key(), format!("dump is\n{got}expected\n{want}")));
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C02");
    let maxlen = c.pick(200u64, 2000);
    c.family("hexdump-lengths", (maxlen + 1) * 2 * 5, |i, cov| {
        let mut d = Digits(i);
        let group = d.take(2) == 1;
        let kind = d.take(5);
        let n = d.take(maxlen + 1) as usize;
        let data: Vec<u8> = (0..n)
            .map(|x| match kind {
                0 => x as u8,
                1 => 0,
                2 => b'A' + (x % 26) as u8,
                3 => [31u8, 32, 126, 127, 128, 255, 0][x % 7],
                _ => (x / 16) as u8,
            })
            .collect();
        cov.distinct_states(1);
        cov.sample(|| format!("{n} bytes, kind {kind}, group {group}"));
        check_dump(&data, group, cov)
    });
    c.family("hexdump-bytes", 256 * 34, |i, cov| {
        let v = (i % 256) as u8;
        let p = (i / 256) as usize;
        let mut data = vec![0x41u8; 34];
        data[p] = v;
        data.truncate(p + 1);
        cov.distinct_states(1);
        check_dump(&data, p % 2 == 0, cov)
    });
    // Every sequence of lines over three line values, with every tail length.
    let rows = c.pick(6, 9);
    let tails: [usize; 7] = [0, 1, 2, 7, 8, 9, 15];
    c.family("hexdump-grouping", seq_count(3, rows) * 7 * 2 * 2, |i, cov| {
        let mut d = Digits(i);
        let group = d.take(2) == 1;
        let tail_kind = d.take(2);
        let tail = *d.pick(&tails);
        let seq = seq_decode(3, d.0);
        let mut data = Vec::new();
        for s in &seq {
            let mut row = [0u8; 16];
            match s {
                1 => row[15] = 1,
                2 => row[0] = 1,
                _ => {}
            }
            data.extend_from_slice(&row);
        }
        data.extend(std::iter::repeat_n(if tail_kind == 0 { 0 } else { 1 }, tail));
        cov.distinct_states(1);
        cov.sample(|| format!("lines {seq:?} tail {tail} group {group}"));
        check_dump(&data, group, cov)
    });
    // Arrays.
    let check_array = |values: &Vec<String>, cov: &mut Cov| -> Result<(), Failure> {
        cov.step();
        cov.trace();
        let got = debug_format_array(values);
        cov.outcome(&got);
        let body = got.trim_start_matches('[').trim_end_matches(']').trim();
        let all_equal = values.windows(2).all(|w| w[0] == w[1]);
        let shown: Vec<String> = if values.is_empty() {
            if body.is_empty() { vec![] } else { vec![body.to_string()] }
        } else if all_equal {
            match body.split_once("; ") {
                Some((v, n)) => vec![v.to_string(); n.parse().unwrap_or(usize::MAX / 2).min(100000)],
                None => vec![],
            }
        } else {
            body.split(',').map(|s| s.trim().to_string()).collect()
        };
        if &shown != values {
            return Err(Failure::new(format!("array {values:?}"), format!("rendered as {got}")));
        }
        let want = if values.is_empty() {
            "[]".to_string()
        } else if all_equal {
            format!("[{}; {}]", values[0], values.len())
        } else if values.len() <= 16 {
            format!("[{}]", values.join(", "))
        } else {
            let l: Vec<String> = values.chunks(16).map(|c| c.join(", ")).collect();
            format!("[\n        {}\n    ]", l.join(",\n        "))
        };
        if got != want {
            return Err(Failure::new(format!("array {values:?}"), format!("rendered as {got} expected {want}")));
        }
        Ok(())
    };
    let maxarr = c.pick(100u64, 400);
    c.family("array-lengths", (maxarr + 1) * 3, |i, cov| {
        let n = i / 3;
        let v: Vec<String> = (0..n)
            .map(|x| match i % 3 {
                0 => x.to_string(),
                1 => "0x00".to_string(),
                _ => (x / 16).to_string(),
            })
            .collect();
        cov.distinct_states(1);
        check_array(&v, cov)
    });
    c.family("array-one-different", 40 * 40, |i, cov| {
        let (n, p) = (i / 40 + 1, i % 40);
        let v: Vec<String> = (0..n).map(|x| if x == p { "7".to_string() } else { "0".to_string() }).collect();
        cov.distinct_states(1);
        check_array(&v, cov)
    });
    let al = c.pick(10, 14);
    c.family("array-values", seq_count(2, al), |i, cov| {
        let v: Vec<String> = seq_decode(2, i).iter().map(|x| ["a", "bb"][*x as usize].to_string()).collect();
        cov.distinct_states(1);
        check_array(&v, cov)
    });
    // Byte strings.
    c.family("hex-string", 65536 + 257, |i, cov| {
        cov.step();
        cov.trace();
        cov.distinct_states(1);
        let data: Vec<u8> = if i < 65536 {
            vec![(i >> 8) as u8, i as u8]
        } else {
            (0..(i - 65536)).map(|x| (x * 7) as u8).collect()
        };
        let got = format_as_string(&data);
        if got != hex(&data) {
            return Err(Failure::new(hex(&data), format!("rendered as {got}")));
        }
        Ok(())
    });
    // Error traces: every frame is kept, in order.
    c.family("error-trace", seq_count(3, 6) * 3, |i, cov| {
        cov.trace();
        let msgs = ["a", "second message", ""];
        let first = msgs[(i % 3) as usize];
        let frames = seq_decode(3, i / 3);
        let mut e = ErrorTrace::new(first.to_string());
        let mut all = vec![first];
        for f in &frames {
            cov.step();
            e.add_frame(msgs[*f as usize].to_string());
            all.push(msgs[*f as usize]);
        }
        cov.state(&all);
        let text = ErrorTrace::to_string(&e);
        if text != all.join("\n") {
            return Err(Failure::new(format!("{all:?}"), format!("text {text:?}")));
        }
        let want: Vec<String> = all.iter().enumerate().map(|(n, m)| format!("#{n} {m}")).collect();
        if format!("{e}") != want.join("\n") {
            return Err(Failure::new(format!("{all:?}"), format!("display {e}")));
        }
        Ok(())
    });
    c.finish();
}
