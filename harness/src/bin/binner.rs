//! Histories of the binner (C18).
use bbharness::*;
use bitboost::binner::Binner;

fn rank(b: &mut Binner<Vec<u32>>, r: &mut Rng) -> J {
    let how = r.pick(&[0u32, 0, 2, 3, 5]);
    let mult = r.pick(&[1u32, 1, 1, 1000, 40000]); // large weights
    let weight = move |bin: &Vec<u32>| -> u32 { mult * if how == 0 { bin.len() as u32 } else { bin.iter().map(|id| id % how).sum() } };
    let total: u32 = b.bins_mut().iter().map(|x| weight(x)).sum();
    let mut ranks: Vec<u32> = (0..r.range(0, 6)).map(|_| r.below(total as u64 + 1) as u32).collect();
    ranks.sort();
    if r.chance(1, 4) && mult == 1 { ranks = (0..=total).collect(); }
    if r.chance(1, 6) { ranks = vec![total]; }
    let mut got = vec![];
    let mut accum = vec![];
    let mut single = vec![];
    if r.chance(1, 2) {
        let mut it = b.rank_iter(ranks.iter().cloned(), weight);
        while let Some(k) = it.next() { got.push(i(k)); let a = it.accum(); accum.push(arr(vec![i(a.0), i(a.1)])); }
        for &k in &ranks { single.push(i(b.bin_with_rank(k, weight))); }
    } else { // numbers that are not integers in the code, as for weighted quantiles
        let mut it = b.rank_iter(ranks.iter().map(|&x| x as f32), |bin| weight(bin) as f32);
        while let Some(k) = it.next() { got.push(i(k)); let a = it.accum(); accum.push(arr(vec![J::I(as_int(a.0)), J::I(as_int(a.1))])); }
    }
    obj! { "op" => s("rank"), "how" => i(how), "mult" => i(mult), "ranks" => ints(&ranks), "got" => arr(got), "accum" => arr(accum), "single" => arr(single) }
}

fn bins(v: &[Vec<u32>]) -> J { arr(v.iter().map(|x| ints(x))) }

fn history(r: &mut Rng) -> J {
    let k = match r.below(5) { 0 => r.range(1, 3), 1 => r.pick(&[4, 8, 16, 64]), 2 => r.range(30, 128), _ => r.range(2, 20) } as usize;
    let wide = r.chance(1, 40);
    let k = if wide { r.pick(&[255, 256, 257, 512, 1023, 1024, 1025, 1500]) } else { k };
    let lo = r.range(-2000, 2000);
    let hi = lo + match r.below(4) { 0 => r.range(1, 8), 1 => (k as i64) * r.range(1, if wide { 8 } else { 12 }), 2 => r.range(1, 4000), _ => 64 * r.range(1, 20) };
    // everything in a unit that is a power of two: exact, so nothing else changes
    let unit = if r.chance(1, 3) { 2.0f32.powi(r.pick(&[-100, -60, -30, -24, -10, 10, 30, 60])) } else { 1.0 };
    let f = |x: i64| x as f32 / 64.0 * unit;
    let mut store: Vec<Vec<u32>> = vec![vec![]; k];
    let mut counts: Vec<u32> = vec![0; k];
    let mut id = 0;
    if r.chance(1, 5) { let b = r.below(k as u64) as usize; store[b].push(99); counts[b] += 1; } // the bins are used as they are
    let start = bins(&store);
    let mut ops = vec![];
    let mut reps = vec![];
    {
        let mut b = Binner::new(&mut store, (f(lo), f(hi)));
        let mut c = Binner::new(&mut counts, (f(lo), f(hi)));
        for j in 0..k + 3 { reps.push(b.bin_representative(j)); }
        for _ in 0..if wide { 5 } else { r.range(1, 40) } {
            if r.chance(1, 6) { let o = rank(&mut b, r); ops.push(o); continue; }
            let w = (hi - lo).max(1);
            let x = match r.below(8) {
                0 => lo, 1 => hi,
                2 => r.pick(&[-1_000_000_000, 1_000_000_000, lo - 1, hi + 1, hi - 1]),
                3 => r.range(lo - w, hi + w),
                4 | 5 => lo + w * r.range(0, k as i64) / k as i64, // at a boundary, or just below
                _ => r.range(lo, hi),
            };
            id += 1;
            let v = if x == 1_000_000_000 { r.pick(&[1e30, 3e38, 2e7 * unit]) } else if x == -1_000_000_000 { r.pick(&[-1e30, -2e7 * unit]) } else { f(x) };
            let got = b.get_bin(v);
            b.insert(v, id, |bin, d| bin.push(d));
            c.insert(v, (), |bin, _| *bin += 1);
            ops.push(obj! { "op" => s("insert"), "x" => i(x), "id" => i(id), "got" => i(got), "bins" => bins(b.bins_mut()) });
        }
        let o = rank(&mut b, r);
        ops.push(o);
        let values: Vec<u32> = (0..k).map(|j| c.bin_value(j)).collect();
        counts = values;
    }
    let fx = |x: f32| { let y = (x as f64 / unit as f64 * 65536.0).round(); J::I(if y.abs() < 2e9 { y as i64 } else { 2000000011 }) };
    obj! { "kind" => s("binner"), "lo" => i(lo), "hi" => i(hi), "k" => i(k), "start" => start, "ops" => J::A(ops),
           "reps" => arr(reps.iter().map(|&x| fx(x))), "final" => bins(&store), "values" => ints(&counts) }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out);
    for t in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, t * 37 + 5);
        let res = guard(move || history(&mut r));
        let mut j = match res { Ok(j) => j, Err(m) => obj! { "kind" => s("panic"), "msg" => s(m) } };
        j.push("tr", i(t));
        out.emit(&j);
    }
}
