//! Generated data sets and configurations.
use crate::*;

#[derive(Debug)]
pub struct Env { pub config: Config, pub cols: Vec<Col>, pub target: Vec<f32>, pub probe: Vec<Col>, pub grads: Vec<Vec<f32>>, pub bounds: (f32, f32), pub bias: f32 }


pub fn gen_col(r: &mut Rng, n: usize, max_nbins: usize, size: &str, kind: u64) -> Col {
    let clustered = size != "small" && r.chance(2, 3);
    let stride = 32 << r.below(3);
    match kind {
        0 => { // low-cardinality categorical
            let most = if max_nbins > 16 && r.chance(1, 2) { max_nbins } else { max_nbins.min(9) };
            let card = r.range(2, most.max(2) as i64);
            let mut vals: Vec<f32> = (0..n).map(|i| if clustered { ((i / stride) as i64 % card) as f32 } else { r.range(0, card - 1) as f32 }).collect();
            if r.chance(1, 8) { for v in vals.iter_mut() { if *v == 0.0 && r.chance(1, 2) { *v = -0.0; } } } // the same category
            Col { cat: true, vals }
        },
        1 => { // high-cardinality categorical
            let card = max_nbins as i64 + if r.chance(1, 12) { r.range(15, 900) } else { r.range(1, 14) };
            let mut vals: Vec<f32> = (0..n).map(|i| if clustered { ((i / stride) as i64 % card) as f32 } else { r.range(0, card - 1) as f32 }).collect();
            if r.chance(1, 2) { vals[n - 1] = (card - 1) as f32; }
            if r.chance(1, 8) { for v in vals.iter_mut() { if *v == 0.0 && r.chance(1, 2) { *v = -0.0; } } } // the same category
            Col { cat: true, vals }
        },
        2 => { // integers
            let m = r.pick(&[1, 2, 5, 30, 600]);
            let off = r.pick(&[0, -3, 100, -1000]);
            let vals = (0..n).map(|i| (off + if clustered { (i / stride) as i64 % (m + 1) } else { r.range(0, m) }) as f32).collect();
            Col { cat: false, vals }
        },
        3 => { // arbitrary floats, also around zero and of very different magnitude
            let e = r.pick(&[1.0f32, 1e-6, 1e6, 0.1]);
            let vals = (0..n).map(|_| match r.below(12) {
                0 => 0.0, 1 => -e, 2 => e,
                _ => ((r.below(2000001) as f32) / 1000000.0 - 1.0) * e,
            }).collect();
            Col { cat: false, vals }
        },
        _ => { // sorted floats
            let step = r.pick(&[0.1f32, 1.0, 0.3333333]);
            let vals = (0..n).map(|i| (i as f32) * step).collect();
            Col { cat: false, vals }
        },
    }
}

pub fn gen(r: &mut Rng, size: &str) -> Env {
    let n = match size {
        "small" => r.range(2, 70),
        "mid" => r.range(257, 900),
        _ => r.range(4097, 5200),
    } as usize;
    gen_n(r, size, n)
}

pub fn gen_n(r: &mut Rng, size: &str, n: usize) -> Env {
    let mut c = Config::new();
    c.csv_has_header = false;
    c.discr_nbits = r.pick(&[1, 2, 4, 8]);
    c.reg_lambda = r.pick(&[0.0, 0.0, 0.5, 1.0, 4.0]);
    c.min_gain = r.pick(&[1e-6, 1e-6, 0.0, 0.5, 2.0, 10.0]);
    c.min_examples_leaf = r.pick(&[1, 1, 0, 2, 3, 8]);
    c.max_tree_depth = if size == "small" { r.range(1, 6) } else { r.range(2, 5) } as usize;
    c.example_fraction = r.pick(&[1.0, 1.0, 0.75, 0.5, 0.3]);
    if c.example_fraction == 0.75 && (size != "small" || r.chance(1, 3)) && r.chance(2, 3) { c.example_fraction = r.pick(&[0.97, 0.98, 0.99]); } // long runs of sampled rows
    c.feature_fraction = r.pick(&[1.0, 1.0, 0.5, 0.67, 0.34, 0.9]);
    c.sample_freq = r.pick(&[1, 1, 1, 2, 2, 3, 0]);
    c.compression_threshold = if size == "small" { 0.5 } else { r.pick(&[0.0, 0.0, 0.3, 0.5, 1.0]) };
    c.max_nbins = if size == "big" { r.pick(&[2, 4]) } else { r.pick(&[1, 2, 3, 4, 8, 16]) };
    if r.chance(1, 12) { c.reg_lambda = r.pick(&[16.0, 100.0, 300.0, 1000.0]); c.min_gain = 1e-6; }
    if c.min_examples_leaf == 0 { c.reg_lambda = 0.0; c.min_gain = r.pick(&[1e-6, 0.0]); }
    if r.chance(1, 40) { c.min_examples_leaf = r.pick(&[n as u32 / 2, n as u32, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX]); }
    c.niterations = if size == "small" { r.range(1, 4) } else if size == "mid" { r.range(1, 2) } else { 1 } as usize;
    c.random_seed = match r.below(8) { 0 => 0, 1 => u64::MAX, 2 => 1 << r.below(64), 3 => r.next(), _ => r.below(1000) };
    // now and then something out of the ordinary: deep trees, many features, many bins, many trees
    let odd = if r.chance(1, 5) { r.range(1, 5) } else { 0 };
    let n = if size == "small" && odd >= 2 { n.min(20) } else { n };
    if size == "small" && odd == 1 { c.max_tree_depth = r.range(7, 11) as usize; c.min_gain = 1e-6; c.min_examples_leaf = 1; }
    if odd == 3 && size == "mid" || odd == 2 && size == "small" { c.max_nbins = r.pick(&[32, 64, 256, 300]); }
    if size == "small" && odd == 4 { c.niterations = r.range(5, 12) as usize; }
    let nf = if size == "small" && odd == 3 { r.pick(&[30, 64, 257, 300]) } else if size == "mid" && odd == 3 { r.range(1, 2) } else if size == "big" { r.range(2, 3) } else { r.range(1, 5) } as usize;
    let mut cols: Vec<Col> = (0..nf).map(|_| { let k = r.below(5); gen_col(r, n, c.max_nbins, size, k) }).collect();
    if !cols.iter().any(|c| c.vals.iter().any(|&v| v != c.vals[0])) { // training needs a split candidate
        cols[0] = Col { cat: false, vals: (0..n).map(|i| i as f32).collect() };
    }
    let deep = size == "small" && odd == 5 && r.chance(1, 2);
    if deep { // a very deep tree: every split takes one category away
        let card = r.range(19, 22) as usize;
        c.max_tree_depth = r.pick(&[16, 17, 17, 18, 18]);
        c.min_gain = 1e-6;
        c.min_examples_leaf = 1;
        c.max_nbins = 32;
        c.example_fraction = 1.0;
        c.niterations = 1;
        c.reg_lambda = 0.0;
        c.discr_nbits = 8;
        cols = vec![Col { cat: true, vals: (0..n.max(card)).map(|i| (i % card) as f32).collect() }];
    } else if size == "small" && odd == 5 && r.chance(1, 3) { // many trees
        c.niterations = r.range(250, 300) as usize;
        c.max_tree_depth = r.range(1, 2) as usize;
        for x in cols.iter_mut() { x.vals.truncate(8); }
        if cols.iter().all(|x| x.vals.iter().all(|&v| v == x.vals[0])) { cols[0] = Col { cat: false, vals: (0..8.min(n)).map(|i| i as f32).collect() }; }
        cols.truncate(2);
        if cols.iter().all(|x| x.vals.iter().all(|&v| v == x.vals[0])) { cols[0] = Col { cat: false, vals: (0..8.min(n)).map(|i| i as f32).collect() }; }
    }
    if size != "big" && !deep && n >= 8 && cols[0].vals.len() == n && r.chance(1, 10) { // parts that are just as large as required
        let k = r.pick(&[2usize, 2, 3]);
        let part = n / k;
        let mut v: Vec<f32> = (0..n).map(|i| (i / part).min(k - 1) as f32).collect();
        if r.chance(2, 3) { for i in (1..n).rev() { v.swap(i, r.below(i as u64 + 1) as usize); } }
        let used = r.below(cols.len() as u64) as usize;
        cols[used] = Col { cat: r.chance(1, 2), vals: v };
        c.min_examples_leaf = part as u32;
        c.example_fraction = 1.0;
        c.feature_fraction = 1.0;
        c.min_gain = 1e-6;
        c.reg_lambda = r.pick(&[0.0, 0.5]);
    }
    let (n, nf) = (cols[0].vals.len(), cols.len());
    // categories far apart
    if c.niterations <= 4 && r.chance(1, 5) { for x in cols.iter_mut() {
        let card = x.vals.iter().fold(0.0f32, |a, &b| a.max(b)) as i64 + 1;
        if x.cat && card > c.max_nbins as i64 && card <= 2000 {
            let gap = if card < 46 { r.pick(&[65536.0f32, 65537.0, 1000.0, 255.0]) } else { r.pick(&[255.0, 1000.0]) };
            for v in x.vals.iter_mut() { *v *= gap; }
        }
    } }
    c.categorical_features = (0..nf).filter(|&f| cols[f].cat).collect();
    let maxval = ((1u32 << c.discr_nbits) - 1) as f32;
    let lo = r.range(-(maxval as i64), 0) as f32;
    let amp = maxval as i64 + 2; // some gradients are clamped
    // the sums of the gradients stay small enough for the squares to fit TLC's integers
    let dens = (if size == "big" { r.pick(&[8, 20]) } else { 1 }).max(1 + (n as f32 * maxval / 30000.0) as u64);
    let grads = (0..c.niterations).map(|_| {
        let f = r.below(nf as u64) as usize;
        let mode = r.below(3);
        let cut = cols[f].vals[r.below(n as u64) as usize];
        (0..n).map(|i| {
            if dens > 1 && !r.chance(1, dens) { return if lo <= 0.0 && 0.0 <= lo + maxval { 0.0 } else { lo }; }
            if deep { return lo + r.range(0, maxval as i64) as f32; }
            let noise = r.range(-amp, amp);
            (match mode {
                0 => noise,
                1 => if cols[f].vals[i] < cut { lo as i64 + r.below(2) as i64 } else { (lo + maxval) as i64 - r.below(2) as i64 },
                _ => if cols[f].vals[i] < cut { noise / 4 - amp / 2 } else { noise },
            }) as f32
        }).collect()
    }).collect();
    // rows that are not in the training set: also unseen categories and values outside the limits
    let np = if size == "big" { 40 } else { r.range(1, 40) } as usize;
    let probe = cols.iter().map(|c| {
        let vals = (0..np).map(|_| {
            let v = c.vals[r.below(n as u64) as usize];
            match r.below(6) {
                0 if c.cat => v + if r.chance(1, 3) { r.pick(&[256, 65536, 512, 1 << 16 | 1, 1 << 20]) as f32 } else { r.below(50) as f32 },
                0 if r.chance(1, 4) => r.pick(&[std::f32::INFINITY, std::f32::NEG_INFINITY, std::f32::NAN, std::f32::MAX, std::f32::MIN, -0.0]),
                0 => v + 1000.0, 1 if !c.cat => v - 1000.0,
                2 if !c.cat => { let w = c.vals[r.below(n as u64) as usize]; (v + w) / 2.0 },
                _ => v,
            }
        }).collect();
        Col { cat: c.cat, vals }
    }).collect();
    let target = (0..n).map(|i| (i % 7) as f32).collect();
    Env { config: c, cols, target, probe, grads, bounds: (lo, lo + maxval), bias: r.range(-5, 5) as f32 }
}

pub fn leaves_oob(log: &[Ev]) -> (Vec<(Vec<usize>, i64)>, Vec<(usize, i64)>) {
    let mut lv = Vec::new();
    let mut oob = Vec::new();
    for e in log {
        match e {
            Ev::Leaf(rows, v) => lv.push((rows.clone(), as_int(*v))),
            Ev::Oob(r, v) => oob.push((*r, as_int(*v))),
            _ => {},
        }
    }
    (lv, oob)
}

/// Rows that are the same, and what they have in common. Without: every row is on its own.
pub struct Classes { pub of: Vec<usize>, pub w: Vec<usize>, pub first: Vec<usize>, pub mixed: std::cell::RefCell<Vec<&'static str>> }
impl Classes {
    pub fn single(n: usize) -> Classes { Classes { of: (0..n).collect(), w: vec![1; n], first: (0..n).collect(), mixed: Default::default() } }
    pub fn new(of: Vec<usize>, k: usize) -> Classes {
        let (mut w, mut first) = (vec![0; k], vec![usize::max_value(); k]);
        for (i, &c) in of.iter().enumerate() { w[c] += 1; first[c] = first[c].min(i); }
        assert!(w.iter().all(|&x| x > 0));
        Classes { of, w, first, mixed: Default::default() }
    }
    pub fn note(&self, what: &'static str) { let mut m = self.mixed.borrow_mut(); if !m.contains(&what) { m.push(what); } }
    /// the classes of a list of rows; in the order of the list when every row is on its own
    pub fn rows(&self, what: &'static str, rows: &[usize]) -> Vec<usize> {
        if self.w.len() == self.of.len() { return rows.to_vec(); }
        let mut n = vec![0; self.w.len()];
        for &r in rows { n[self.of[r]] += 1; }
        if n.iter().zip(&self.w).any(|(&a, &b)| a != 0 && a != b) { self.note(what); }
        (0..n.len()).filter(|&k| n[k] > 0).collect()
    }
    pub fn each<T: PartialEq + Clone>(&self, what: &'static str, v: &[T]) -> Vec<T> {
        if v.iter().zip(&self.of).any(|(x, &c)| x != &v[self.first[c]]) { self.note(what); }
        self.first.iter().map(|&r| v[r].clone()).collect()
    }
}
/// a number of rows that counters of 16 bits cannot hold, or just
pub fn many_rows(r: &mut Rng) -> usize {
    (match r.below(4) { 0 => 65536 + r.range(-2, 3), 1 => r.range(65537, 80000), 2 => r.range(33000, 65535), _ => r.range(131072, 140000) }) as usize
}
/// n rows of k kinds
pub fn kinds_of_rows(r: &mut Rng, n: usize, k: usize) -> Classes {
    let of: Vec<usize> = match r.below(3) {
        0 => (0..n).map(|i| i % k).collect(),
        1 => (0..n).map(|i| i * k / n).collect(),
        _ => { let big = r.below(k as u64) as usize; (0..n).map(|i| if i < k { i } else if r.chance(1, 2) { big } else { r.below(k as u64) as usize }).collect() },
    };
    Classes::new(of, k)
}
