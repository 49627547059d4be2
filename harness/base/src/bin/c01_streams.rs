//! C01: every seekable data stream behaves like a file over its content, for every operation history.
use keramics_core::{DataStream, FakeDataStream, open_fake_data_stream, open_os_data_stream};
use mc_base::streams::*;
use mc_engine::util::{pattern, seq_count, seq_decode};
use mc_engine::{Check, Failure};

fn main() {
    let mut c = Check::new("C01");
    let ops = alphabet(&[0, 1, 2, 3, 5, 9], &[0, 1, 2, 4, 7], &[-3, -1, 0, 1, 2], &[-5, -2, -1, 0, 1]);
    let k = ops.len() as u64;
    c.note("operations", format!("{k} operations: {:?}", ops));

    // In-memory stream: all (initialised size, stream size) shapes x all histories.
    let shapes: Vec<(usize, u64)> = (0..=4usize)
        .flat_map(|d| (0..=6u64).map(move |s| (d, s)))
        .collect();
    let depth = c.pick(2, 3);
    let hist = seq_count(k, depth);
    c.note("in_memory_bound", format!("{} shapes, all histories up to {depth} operations", shapes.len()));
    c.family("in-memory", hist * shapes.len() as u64, |i, cov| {
        let (d, s) = shapes[(i % shapes.len() as u64) as usize];
        let h: Vec<Op> = seq_decode(k, i / shapes.len() as u64).iter().map(|x| ops[*x as usize]).collect();
        let mut content = pattern(d, 7).iter().map(|b| b | 1).collect::<Vec<u8>>();
        let mut stream = FakeDataStream::new(&content, s);
        content.resize(s as usize, 0);
        cov.sample(|| format!("initialised={d} size={s} history={h:?}"));
        run_history(&mut stream, &content, &h, cov)
            .map_err(|e| Failure::new(format!("data={d} size={s} {h:?}"), e))
    });
    // Longer histories on a reduced alphabet.
    let ops2 = alphabet(&[1, 2, 4], &[0, 2], &[-1, 1], &[-1, 0]);
    let k2 = ops2.len() as u64;
    let depth2 = c.pick(4, 5);
    c.note("in_memory_deep_bound", format!("{k2} operations, all histories up to {depth2} operations, content of 3 of 5 bytes"));
    c.family("in-memory-deep", seq_count(k2, depth2), |i, cov| {
        let h: Vec<Op> = seq_decode(k2, i).iter().map(|x| ops2[*x as usize]).collect();
        let mut content = vec![0x11, 0x22, 0x33];
        let mut stream = FakeDataStream::new(&content, 5);
        content.resize(5, 0);
        run_history(&mut stream, &content, &h, cov).map_err(|e| Failure::new(format!("{h:?}"), e))
    });
    // Through the shared reference type.
    let shared_depth = 2;
    c.family("in-memory-shared", seq_count(k, shared_depth) * 4, |i, cov| {
        let n = [0usize, 1, 3, 6][(i % 4) as usize];
        let h: Vec<Op> = seq_decode(k, i / 4).iter().map(|x| ops[*x as usize]).collect();
        let content = pattern(n, 3);
        let r = open_fake_data_stream(&content);
        let mut g = r.write().unwrap();
        run_history(&mut *g as &mut dyn DataStream, &content, &h, cov)
            .map_err(|e| Failure::new(format!("n={n} {h:?}"), e))
    });
    // Operating system file.
    let dir = std::env::temp_dir().join(format!("mc-c01-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let sizes = [0usize, 1, 3, 6];
    let paths: Vec<std::path::PathBuf> = sizes
        .iter()
        .map(|n| {
            let p = dir.join(format!("f{n}"));
            std::fs::write(&p, pattern(*n, 5)).unwrap();
            p
        })
        .collect();
    let d3 = c.pick(2, 3);
    c.note("os_file_bound", format!("files of {sizes:?} bytes, all histories up to {d3} operations"));
    c.family("os-file", seq_count(k, d3) * 4, |i, cov| {
        let n = (i % 4) as usize;
        let h: Vec<Op> = seq_decode(k, i / 4).iter().map(|x| ops[*x as usize]).collect();
        let content = pattern(sizes[n], 5);
        let r = open_os_data_stream(&paths[n]).map_err(|e| Failure::new("open", e.to_string()))?;
        let mut g = r.write().unwrap();
        run_history(&mut *g as &mut dyn DataStream, &content, &h, cov)
            .map_err(|e| Failure::new(format!("n={} {h:?}", sizes[n]), e))
    });
    // A directory and a file that does not exist: errors, not data.
    c.family("os-not-a-file", 4 * 4, |i, cov| {
        let (how, n) = (i / 4, (i % 4) as usize);
        cov.trace();
        cov.step();
        let missing = open_os_data_stream(&dir.join(format!("none{n}"))).is_err() && open_os_data_stream(&paths[n].join("x")).is_err();
        let mut buf = vec![7u8; n + 1];
        let failed = match open_os_data_stream(&dir) {
            Err(_) => true,
            Ok(r) => {
                let mut g = r.write().unwrap();
                let pos = std::io::SeekFrom::Start(n as u64);
                match how {
                    0 => DataStream::read(&mut *g, &mut buf).is_err(),
                    1 => g.read_exact(&mut buf).is_err(),
                    2 => g.read_at_position(&mut buf, pos).is_err(),
                    _ => g.read_exact_at_position(&mut buf, pos).is_err(),
                }
            }
        };
        cov.state(&i);
        if !missing || !failed || buf != vec![7u8; n + 1] {
            return Err(Failure::new(format!("not a file {i}"), format!("missing refused={missing}, directory refused={failed}")));
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    c.assume("a seek to before the start may be refused or accepted; if accepted, nothing may be read there");
    c.assume("positions above 2^62 are outside the bound");
    c.finish();
}
