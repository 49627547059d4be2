//! Reference model of a seekable byte stream and the history runner.
use keramics_core::DataStream;
use mc_engine::Cov;
use std::io::SeekFrom;

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Size,
    Read(usize),
    ReadExact(usize),
    Seek(SeekFrom),
    ReadAt(usize, SeekFrom),
    ReadExactAt(usize, SeekFrom),
}

/// Builds the operation alphabet (simplest first).
pub fn alphabet(reads: &[usize], starts: &[u64], currents: &[i64], ends: &[i64]) -> Vec<Op> {
    let mut v = vec![Op::Size];
    for r in reads {
        v.push(Op::Read(*r));
    }
    let mut pos: Vec<SeekFrom> = Vec::new();
    pos.extend(starts.iter().map(|x| SeekFrom::Start(*x)));
    pos.extend(currents.iter().map(|x| SeekFrom::Current(*x)));
    pos.extend(ends.iter().map(|x| SeekFrom::End(*x)));
    for p in &pos {
        v.push(Op::Seek(*p));
    }
    for r in reads.iter().skip(1).step_by(2) {
        v.push(Op::ReadExact(*r));
    }
    for r in reads.iter().skip(1).step_by(3) {
        for p in &pos {
            v.push(Op::ReadAt(*r, *p));
            v.push(Op::ReadExactAt(*r + 1, *p));
        }
    }
    v
}

fn target(pos: u64, size: u64, s: SeekFrom) -> Option<u64> {
    let t = match s {
        SeekFrom::Start(o) => o as i128,
        SeekFrom::Current(d) => pos as i128 + d as i128,
        SeekFrom::End(d) => size as i128 + d as i128,
    };
    if t < 0 { None } else { Some(t as u64) }
}

/// Outcome of a seek in the model: where the stream is now.
enum Place {
    At(u64),
    /// A seek to before the start was accepted: nothing may be read here.
    Nowhere,
}

/// Runs a history and compares every answer with the model.
pub fn run_history(stream: &mut dyn DataStream, content: &[u8], history: &[Op], cov: &mut Cov) -> Result<(), String> {
    let size = content.len() as u64;
    let mut place = Place::At(0);
    cov.trace();
    for (n, op) in history.iter().enumerate() {
        cov.step();
        let fail = |m: String| Err(format!("step {n} {op:?}: {m}"));
        let (seek, read, exact) = match *op {
            Op::Size => {
                match stream.get_size() {
                    Ok(s) if s == size => {}
                    other => return fail(format!("size {other:?}, expected {size}")),
                }
                continue;
            }
            Op::Read(r) => (None, Some(r), false),
            Op::ReadExact(r) => (None, Some(r), true),
            Op::Seek(s) => (Some(s), None, false),
            Op::ReadAt(r, s) => (Some(s), Some(r), false),
            Op::ReadExactAt(r, s) => (Some(s), Some(r), true),
        };
        // Model of the seek.
        if let Some(s) = seek {
            match place {
                Place::Nowhere if matches!(s, SeekFrom::Current(_)) => return Ok(()),
                Place::Nowhere => match target(0, size, s) {
                    Some(t) => place = Place::At(t),
                    None => return before_start(stream, op),
                },
                Place::At(p) => match target(p, size, s) {
                    Some(t) => place = Place::At(t),
                    None => {
                        if !matches!(op, Op::Seek(_)) {
                            return before_start(stream, op);
                        }
                        match stream.seek(s) {
                            // Refused: the position must be unchanged.
                            Err(_) => continue,
                            Ok(_) => {
                                place = Place::Nowhere;
                                continue;
                            }
                        }
                    }
                },
            }
        }
        let pos = match place {
            Place::At(p) => p,
            Place::Nowhere => {
                if let Some(r) = read {
                    let mut b = vec![0xa5; r];
                    if let Ok(c) = stream.read(&mut b) {
                        if c != 0 {
                            return fail(format!("read {c} bytes before the start of the stream"));
                        }
                    }
                }
                continue;
            }
        };
        let Some(r) = read else {
            let Some(s) = seek else { unreachable!() };
            match stream.seek(s) {
                Ok(p) if p == pos => {}
                other => return fail(format!("seek gives {other:?}, expected {pos}")),
            }
            cov.state(&(size, pos));
            continue;
        };
        let avail = if pos >= size { 0 } else { (size - pos).min(r as u64) } as usize;
        let expect: &[u8] = if avail == 0 { &[] } else { &content[pos as usize..pos as usize + avail] };
        let guard = 0xa5u8;
        let mut b = vec![guard; r];
        let got: Result<Option<usize>, ()> = match (*op, exact) {
            (Op::ReadAt(_, s), _) => stream.read_at_position(&mut b, s).map(Some).map_err(|_| ()),
            (Op::ReadExactAt(_, s), _) => match stream.read_exact_at_position(&mut b, s) {
                Ok(o) if o == pos => Ok(None),
                Ok(o) => return fail(format!("reported offset {o}, expected {pos}")),
                Err(_) => Err(()),
            },
            (_, true) => stream.read_exact(&mut b).map(|_| None).map_err(|_| ()),
            (_, false) => stream.read(&mut b).map(Some).map_err(|_| ()),
        };
        match got {
            Ok(Some(c)) => {
                if c != avail {
                    return fail(format!("read {c} bytes at {pos}, expected {avail}"));
                }
            }
            Ok(None) => {
                if avail != r {
                    return fail(format!("exact read of {r} bytes succeeded with {avail} available at {pos}"));
                }
            }
            Err(()) => {
                if !exact || avail == r {
                    return fail(format!("read of {r} bytes at {pos} failed"));
                }
                // A failed exact read: the position is wherever the stream says it is.
                match stream.seek(SeekFrom::Current(0)) {
                    Ok(p) if p >= pos && p <= pos.max(size) => place = Place::At(p),
                    other => return fail(format!("position after failed exact read {other:?}")),
                }
                continue;
            }
        }
        if &b[..avail] != expect {
            return fail(format!("read {} at {pos}, expected {}", mc_engine::util::hex(&b[..avail]), mc_engine::util::hex(expect)));
        }
        if b[avail..].iter().any(|x| *x != guard) {
            return fail("bytes beyond the reported count were written".to_string());
        }
        place = Place::At(pos + avail as u64);
        cov.state(&(size, pos + avail as u64));
        cov.outcome(&(size, avail, pos));
    }
    // Final probe: the position is where the model says.
    if let Place::At(p) = place {
        cov.step();
        match stream.seek(SeekFrom::Current(0)) {
            Ok(q) if q == p => {}
            other => return Err(format!("final position {other:?}, expected {p}")),
        }
    }
    Ok(())
}

/// A positional read to before the start must not deliver data.
fn before_start(stream: &mut dyn DataStream, op: &Op) -> Result<(), String> {
    match *op {
        Op::ReadAt(r, s) => {
            let mut b = vec![0; r];
            match stream.read_at_position(&mut b, s) {
                Ok(0) | Err(_) => Ok(()),
                Ok(c) => Err(format!("{op:?} read {c} bytes before the start")),
            }
        }
        Op::ReadExactAt(r, s) => {
            let mut b = vec![0; r];
            match stream.read_exact_at_position(&mut b, s) {
                Err(_) => Ok(()),
                Ok(_) if r == 0 => Ok(()),
                Ok(_) => Err(format!("{op:?} read {r} bytes before the start")),
            }
        }
        Op::Seek(s) => {
            let _ = stream.seek(s);
            Ok(())
        }
        _ => Ok(()),
    }
}
