//! Driver for QuantileTrace.tla: split candidates and super-categories of Dataset, with the sampled
//! rows summarised per value (per mean gradient).
//!
//! mode=x      few rows
//! mode=many   more rows than fit 16 bits
//! mode=wide   more candidates than fit 8 bits
use bbharness::*;
use bitboost::config::Config;
use bitboost::data::FeatType;
use bitboost::dataset::Dataset;

/// Does rounding decide in which of the 512 (or so) bins the value is?
fn fuzzy(x: f64, lo: f64, hi: f64) -> bool {
    let exact = ((hi - lo).log2()).fract() == 0.0;
    let p = (x - lo) / (hi - lo) * 512.0;
    !exact && p != 0.0 && p < 511.9 && (p - p.round()).abs() < 1e-3
}

fn run(tr: u64, r: &mut Rng, many: bool, wide: bool) -> J {
    let n = if wide { r.range(300, 1500) as usize } else if many { r.pick(&[65600usize, 70000, 131200]) } else { r.range(2, 400) as usize };
    let mut c = Config::new();
    c.max_nbins = r.pick(&[1usize, 2, 3, 4, 7, 8, 15, 16]);
    if wide { c.max_nbins = r.pick(&[100usize, 200, 255, 256, 257, 300, 400, 500, 511, 512, 600]); }
    c.example_fraction = r.pick(&[1.0, 1.0, 0.9, 0.5, 0.34]);
    if (n as f32 * c.example_fraction).round() < 1.0 { c.example_fraction = 1.0; }
    c.random_seed = r.below(100000);
    let hi_card = |r: &mut Rng| { // skewed, uniform, or in order
        let card = c.max_nbins as i64 + r.range(1, 20);
        let mode = r.below(4);
        let mut vals: Vec<f32> = (0..n).map(|i| match mode {
            0 => r.below(card as u64) as f32,
            1 => { let x = r.below(card as u64); r.below(x + 1) as f32 },
            2 => if r.chance(15, 16) { (card / 2) as f32 } else { r.below(card as u64) as f32 },
            _ => (i as i64 % card) as f32,
        }).collect();
        vals[n - 1] = (card - 1) as f32;
        vals[0] = 0.0;
        Col { cat: true, vals }
    };
    let num = |r: &mut Rng| {
        let span = if wide { r.pick(&[64i64, 256, 500]) } else { r.pick(&[1i64, 2, 5, 8, 16, 64, 100]) };
        let (off, step) = r.pick(&[(0.0f32, 1.0f32), (-3.0, 0.5), (1000.0, 1.0), (-100.0, 0.25), (0.0, 1024.0), (0.0, 2.0f32.powi(-40)), (-2.0f32.powi(-20), 2.0f32.powi(-21)), (0.0, 2.0f32.powi(50))]);
        let mode = r.below(3);
        let mut vals: Vec<f32> = (0..n).map(|i| off + step * (match mode {
            0 => r.range(0, span),
            1 => if r.chance(9, 10) { span / 2 } else { r.range(0, span) },
            _ => i as i64 * span / n as i64,
        }) as f32).collect();
        vals[n - 1] = off + step * span as f32;
        vals[0] = off;
        Col { cat: false, vals }
    };
    let cols = vec![hi_card(r), num(r), num(r), hi_card(r)];
    c.categorical_features = vec![0, 3];
    let data = mk_data(&c, &cols, &vec![0.0; n]);
    let (lo, hi) = r.pick(&[(-1.0f32, 1.0f32), (-4.0, 4.0), (-3.0, 4.0), (0.0, 8.0), (-8.0, 0.0), (-5.0, 5.0)]);
    let (lo, hi) = if wide { (-256.5, 255.5) } else { (lo, hi) }; // integers are in the middle of a bin
    let amp = if wide { 255 } else if many { 7 } else { 8 };
    let mut ds = Dataset::new(&c, &data);
    let mut feats = Vec::new();
    for update in 1..=r.range(1, 3) {
        let mode = if wide { 4 + r.below(3) } else { r.below(6) };
        let noise = 1 + r.below(3) as i64;
        let (src, mult) = (r.below(4) as usize, r.pick(&[1i64, 3, 5]));
        let grads: Vec<f32> = (0..n).map(|i| {
            let x = match mode {
                0 => 0,
                1 => r.range(-amp, amp),
                2 => if r.chance(1, 10) { r.range(-amp, amp) } else { 0 },
                3 => if i * 2 < n { 1 } else { -noise },
                _ => if wide { (cols[src].vals[i] as i64 * mult).rem_euclid(511) - 255 } else { (cols[src].vals[i] as i64 * mult).rem_euclid(17) - 8 }, // the same for all rows of a category
            } as f32;
            x.max(lo).min(hi)
        }).collect();
        // gradients in a unit that is a power of two
        let unit = [1.0f32, 0.0625, 1.0, 256.0][(tr % 4) as usize];
        ds.update(&c, &grads.iter().map(|x| x * unit).collect::<Vec<f32>>(), (lo * unit, hi * unit));
        let mut bag = Vec::new();
        ds.active_examples_iter(|_, j| bag.push(j));
        for &f in &ds.active_features().to_vec() {
            let ncand = ds.get_nbins(f);
            let pop: Vec<i64> = (0..ncand).map(|k| ds.get_bitvec(f, k).cast::<u64>().iter().map(|x| x.count_ones() as i64).sum()).collect();
            let v = &cols[f].vals;
            let mut rec = obj! { "f" => i(f), "update" => i(update), "rows" => i(bag.len()), "m" => i(c.max_nbins) };
            if data.feat_type(f) == FeatType::Numerical {
                let mut ds_vals = v.clone();
                ds_vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
                ds_vals.dedup();
                let (vl, vh) = (ds_vals[0] as f64, ds_vals[ds_vals.len() - 1] as f64);
                if ds_vals.iter().any(|&x| fuzzy(x as f64, vl, vh)) { continue; }
                let zero = bag.iter().all(|&j| grads[j] == 0.0);
                let (mut w, mut cnt) = (vec![0i64; ds_vals.len()], vec![0i64; ds_vals.len()]);
                for &j in &bag {
                    let p = ds_vals.iter().position(|&x| x == v[j]).unwrap();
                    w[p] += if zero { 1 } else { grads[j].abs() as i64 };
                    cnt[p] += 1;
                }
                let width = (vh - vl) / 512.0;
                let cand = arr((0..ncand).map(|k| {
                    let sv = ds.get_split_value(f, k);
                    let floor = ds_vals.iter().filter(|&&x| x < sv).count();
                    let near = (floor > 0 && sv as f64 <= ds_vals[floor - 1] as f64 + 1.01 * width) || sv as f64 >= vh - 1.01 * width;
                    obj! { "floor" => i(floor), "near" => b(near), "pop" => i(pop[k]) }
                }));
                rec.push("type", s("num")); rec.push("w", ints(&w)); rec.push("c", ints(&cnt)); rec.push("cand", cand);
            } else {
                // categories by mean gradient
                let card = data.feat_card(f);
                let mut st = vec![(0i64, 0i64); card];
                for &j in &bag { let k = v[j] as usize; st[k].0 += grads[j] as i64; st[k].1 += 1; }
                let mut seen: Vec<usize> = (0..card).filter(|&k| st[k].1 > 0).collect();
                let less = |a: usize, b: usize| st[a].0 * st[b].1 < st[b].0 * st[a].1;
                seen.sort_by(|&a, &b| (st[a].0 * st[b].1).cmp(&(st[b].0 * st[a].1)).then(a.cmp(&b)));
                let mut groups: Vec<Vec<usize>> = Vec::new();
                for &k in &seen {
                    match groups.last_mut() { Some(g) if !less(g[0], k) => g.push(k), _ => groups.push(vec![k]) }
                }
                let means: Vec<f64> = groups.iter().map(|g| st[g[0]].0 as f64 / st[g[0]].1 as f64).collect();
                let (l, h) = (lo as f64, hi as f64);
                let width = (h - l) / 512.0;
                let at = |x: f64| (x - l) / width; // position in bins
                let middle = wide && means.iter().all(|&x| (at(x) - at(x).floor() - 0.5).abs() < 0.4) && means.windows(2).all(|p| at(p[0]).floor() < at(p[1]).floor());
                let apart = middle || means.windows(2).all(|p| p[1] - p[0] > 1.02 * width);
                if !apart || means.iter().any(|&x| fuzzy(x, l, h)) { continue; }
                let last = means[means.len() - 1];
                let last = if last > h - 0.99 * width { "yes" } else if last < h - 1.01 * width { "no" } else { "maybe" };
                let cnt: Vec<i64> = groups.iter().map(|g| g.iter().map(|&k| st[k].1).sum()).collect();
                let sc = &ds.get_supercats()[f];
                rec.push("type", s("hi")); rec.push("last", s(last)); rec.push("c", ints(&cnt)); rec.push("ncand", i(ncand)); rec.push("pop", ints(&pop));
                rec.push("sup", arr(groups.iter().map(|g| arr(g.iter().map(|&k| i(sc[k]))))));
            }
            feats.push(rec);
        }
    }
    obj! { "kind" => s("quant"), "tr" => i(tr), "feats" => J::A(feats) }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out);
    for tr in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, tr.wrapping_mul(131).wrapping_add(a.mode.len() as u64));
        let many = a.mode == "many";
        match guard(|| run(tr, &mut r, many, a.mode == "wide")) {
            Ok(j) => out.emit(&j),
            Err(msg) => out.emit(&obj! { "kind" => s("panic"), "tr" => i(tr), "msg" => s(msg) }),
        }
    }
}
