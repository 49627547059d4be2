//! C19: the block map and the cache of the image formats.
use keramics_formats::block_tree::BlockTree;
use keramics_formats::lru_cache::LruCache;
use mc_engine::util::{seq_count, seq_decode};
use mc_engine::{CaseResult, Check, Cov, Failure, guarded};

/// Inserts ranges (in leaf units) one after the other; after each step every offset is looked up.
fn run(units: u64, per_node: u64, leaf: u64, ranges: &[(u64, u64)], probes: &[u64], cov: &mut Cov) -> CaseResult {
    let key = || format!("{units} x {leaf}, {per_node} per node, {ranges:?}");
    let mut tree: BlockTree<usize> = BlockTree::new(units * leaf, per_node, leaf);
    let mut model: Vec<Option<usize>> = vec![None; units as usize];
    cov.trace();
    for (n, (from, count)) in ranges.iter().enumerate() {
        cov.step();
        let free = from + count <= units && (*from..from + count).all(|u| model[u as usize].is_none());
        let r = guarded(|| tree.insert_value(from * leaf, count * leaf, n).is_ok());
        match r {
            Err(p) => return Err(Failure::new(key(), format!("insert {n}: {p}"))),
            Ok(ok) if ok != free => {
                return Err(Failure::new(key(), format!("insert {n} of a range that is {} is {}", if free { "free" } else { "taken or outside" }, if ok { "accepted" } else { "refused" })));
            }
            Ok(true) => (*from..from + count).for_each(|u| model[u as usize] = Some(n)),
            // What a refused insert leaves behind is not specified.
            Ok(false) => return Ok(()),
        }
        cov.state(&(units, per_node, &model));
        for p in probes {
            let want = model.get((p / leaf) as usize).copied().flatten();
            match guarded(|| tree.get_value(*p).copied()) {
                Err(e) => return Err(Failure::new(key(), format!("lookup at {p}: {e}"))),
                Ok(got) if got != want => return Err(Failure::new(key(), format!("after insert {n} the value at {p} is {got:?}, expected {want:?}"))),
                _ => {}
            }
        }
    }
    Ok(())
}

pub fn main() {
    let mut c = Check::new("C19");
    // Small maps: all ranges, all sequences of inserts.
    let depth = c.pick(3, 4);
    let shapes: Vec<(u64, u64)> = [1, 2, 3, 4, 5, 7, 8, 9].iter().flat_map(|u| [1, 2, 3, 4, 16].map(|e| (*u, e))).collect();
    for (units, per) in shapes {
        let ranges: Vec<(u64, u64)> = (0..units).flat_map(|f| (1..=units + 1 - f).map(move |n| (f, n))).collect();
        let k = ranges.len() as u64;
        let d = if k > 30 { depth.min(3) } else { depth };
        let leaf = 512;
        let probes: Vec<u64> = (0..units * 2 + 4).map(|h| h * leaf / 2 + h % 2 * 255).collect();
        c.family(&format!("{units} units, {per} per node"), seq_count(k, d), |i, cov| {
            let r: Vec<(u64, u64)> = seq_decode(k, i).iter().map(|x| ranges[*x as usize]).collect();
            cov.sample(|| format!("{r:?}"));
            run(units, per, leaf, &r, &probes, cov)
        });
    }
    // Maps of three levels: ranges at the boundaries of nodes, of the sizes that formats insert.
    for (units, per) in [(64u64, 4u64), (65, 4), (70, 4), (63, 4), (27, 3), (30, 3), (256, 16), (300, 16), (16384 * 3 + 7, 16384)] {
        let mut cuts: Vec<u64> = vec![0, 1, per - 1, per, per + 1, 2 * per, per * per - 1, per * per, per * per + per, units - 1];
        cuts.retain(|x| *x < units);
        cuts.sort();
        cuts.dedup();
        let mut ranges: Vec<(u64, u64)> = vec![];
        for f in &cuts {
            for n in [1, 2, per, per * 2, per * per, units - f] {
                if n > 0 && f + n <= units && n <= 70000 {
                    ranges.push((*f, n));
                }
            }
        }
        ranges.sort();
        ranges.dedup();
        let probes: Vec<u64> = cuts.iter().flat_map(|x| [x * 8, x * 8 + 7, (x + 2) * 8, (x + per) * 8]).chain([units * 8 - 1, units * 8, units * 8 + 8 * per, units * 8 * 40]).collect();
        let k = ranges.len() as u64;
        let d = if units > 1000 { 2 } else { 3 };
        c.family(&format!("boundaries of {units} units, {per} per node"), seq_count(k, d), |i, cov| {
            let r: Vec<(u64, u64)> = seq_decode(k, i).iter().map(|x| ranges[*x as usize]).collect();
            run(units, per, 8, &r, &probes, cov)
        });
    }
    // Offsets and sizes that are no multiple of the leaf size are refused.
    c.family("unaligned ranges", 40 * 40, |i, cov| {
        let (o, s) = (i / 40, i % 40 + 1);
        let mut t: BlockTree<u32> = BlockTree::new(40, 2, 5);
        cov.state(&(o, s));
        let ok = guarded(|| t.insert_value(o, s, 1).is_ok()).map_err(|e| Failure::new(format!("{o} {s}"), e))?;
        if ok != (o % 5 == 0 && s % 5 == 0 && o + s <= 40) {
            return Err(Failure::new(format!("{o} {s}"), format!("accepted: {ok}")));
        }
        Ok(())
    });
    // The cache, as it is used: look up, insert when absent.
    for n in 1..=4usize {
        let depth = c.pick(8, 10);
        c.family(&format!("cache of {n}"), seq_count(5, depth), |i, cov| {
            let h = seq_decode(5, i);
            let mut cache: LruCache<u64, (u64, usize)> = LruCache::new(n);
            let mut stamp = [None; 5];
            cov.trace();
            for (step, k) in h.iter().enumerate() {
                cov.step();
                let key = || format!("{n} {h:?} step {step}");
                let have = cache.contains(k);
                let got = guarded(|| (cache.get(k).copied(), cache.get_mut(k).copied())).map_err(|e| Failure::new(key(), e))?;
                if got.0.is_some() != have || got.1 != got.0 {
                    return Err(Failure::new(key(), format!("contains {have}, get {:?}, get_mut {:?}", got.0, got.1)));
                }
                if let Some(v) = got.0 {
                    if Some(v.1) != stamp[*k as usize] || v.0 != *k {
                        return Err(Failure::new(key(), format!("holds {v:?}, last stored {:?}", stamp[*k as usize])));
                    }
                } else {
                    guarded(|| cache.insert(*k, (*k, step))).map_err(|e| Failure::new(key(), e))?;
                    stamp[*k as usize] = Some(step);
                    if cache.get(k).copied() != Some((*k, step)) {
                        return Err(Failure::new(key(), "what was stored last is not there"));
                    }
                }
                let held: Vec<u64> = (0..5).filter(|x| cache.contains(x)).collect();
                cov.state(&(n, &held));
                if held.len() > n {
                    return Err(Failure::new(key(), format!("holds {held:?}")));
                }
            }
            Ok(())
        });
    }
    c.finish();
}
