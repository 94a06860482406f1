//! Loads, trains and predicts on valid but awkward input (C19).
//! mode=x       generated
//! mode=hinge   hinge with the default learning rate on fixed, ordinary data
use bbharness::*;
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::metrics_from_names;
use bitboost::objective::objective_from_name;
use std::cell::RefCell;

thread_local! { static STAGE: RefCell<&'static str> = RefCell::new(""); }
fn stage(x: &'static str) { STAGE.with(|y| *y.borrow_mut() = x); }

struct Case { config: Config, cols: Vec<Col>, target: Vec<f32>, probe: Vec<Col>, obj: &'static str, csv: bool, fr: i64, ffr: i64, what: String }

fn next_up(x: f32) -> f32 { if x == 0.0 { f32::from_bits(1) } else if x > 0.0 { f32::from_bits(x.to_bits() + 1) } else { f32::from_bits(x.to_bits() - 1) } }

fn column(r: &mut Rng, n: usize, nbins: usize, what: &mut String) -> Col {
    let k = r.below(13);
    what.push_str(&format!("{} ", k));
    let mut vals = vec![0.0f32; n];
    let mut cat = false;
    match k {
        0 => { let c = r.pick(&[0.0f32, 1.0, -2.5, 1e20]); vals = vec![c; n]; }               // constant
        1 => { let c = r.below(3) as f32; vals = vec![c; n]; cat = true; }                    // a single category
        2 => { let c = r.range(2, nbins.max(2) as i64) as u64; for v in vals.iter_mut() { *v = r.below(c) as f32; } cat = true; }
        3 => { let c = nbins as u64 + r.range(1, 40) as u64; for v in vals.iter_mut() { *v = r.below(c) as f32; } cat = true; }
        4 => { let c = if r.chance(1, 4) { r.pick(&[65535, 65536, 70000, 1000000]) } else { r.range(1, 2000) } as u64; vals[r.below(n as u64) as usize] = c as f32; cat = true; } // one row in a far category
        5 => { for (j, v) in vals.iter_mut().enumerate() { *v = j as f32; } cat = true; }     // each row a category
        6 => { for v in vals.iter_mut() { *v = r.range(-3, 3) as f32; } }
        7 => { let b = r.pick(&[0.0f32, 1.0, -1.0, 1e-30, 16777216.0, 1e30]);                  // neighbouring floats
               let m = r.range(1, 3); for v in vals.iter_mut() { *v = b; for _ in 0..r.below(m as u64 + 1) { *v = next_up(*v); } } }
        8 => { let e = r.pick(&[1e-38f32, 1e-20, 1e10, 1e30, 1e38, 3.4e38]); for v in vals.iter_mut() { *v = (r.range(-1000, 1000) as f32 / 1000.0) * e; } }
        9 => { let e = r.pick(&[1e6f32, 1e12, 1e38, 3e38]); vals[r.below(n as u64) as usize] = e; if r.chance(1, 2) { vals[0] = -e; } } // outliers
        10 => { for (j, v) in vals.iter_mut().enumerate() { *v = j as f32 * 0.1; } }
        11 => { for v in vals.iter_mut() { *v = f32::from_bits(r.below(1 << 23) as u32 + 1); } } // subnormal numbers
        _ => { for v in vals.iter_mut() { *v = r.range(-100000, 100000) as f32 / 1000.0; } },
    }
    Col { cat, vals }
}

fn target(r: &mut Rng, n: usize, obj: &str, cols: &[Col], what: &mut String) -> Vec<f32> {
    if obj == "binary" || obj == "hinge" {
        let (k, c) = (r.below(4), r.below(2) as f32);
        what.push_str(&format!("target {}", k));
        let mut t: Vec<f32> = (0..n).map(|j| match k { 0 => r.below(2) as f32, 3 => c, 1 => (j == n / 2) as u8 as f32, _ => (j < n / 2) as u8 as f32 }).collect();
        if t.iter().all(|&x| x == t[0]) && (obj == "binary" || k == 0) { t[0] = 1.0 - t[0]; }
        return t;
    }
    let k = r.below(8);
    what.push_str(&format!("target {}", k));
    let c = r.pick(&[0.0f32, 1.0, -3.3, 1e6, 1e12]);
    (0..n).map(|j| match k {
        0 => c,
        1 => if j == n / 2 { c + 1.0 } else { 0.0 },
        2 => if j % 2 == 0 { c } else { next_up(c) },
        3 => r.range(-1000, 1000) as f32 * 1e-30,
        4 => r.range(-1000, 1000) as f32 * 1e8,
        5 => { let v = cols[0].vals[j]; if v.abs() < 1e6 { v + c } else { c } },
        6 => r.below(2) as f32 - 0.5,
        _ => r.range(-1000, 1000) as f32 / 100.0 + c,
    }).collect()
}

fn case(r: &mut Rng) -> Case {
    let mut c = Config::new();
    let mut what = String::new();
    let obj = r.pick(&["l2", "l1", "huber", "binary", "hinge"]);
    let n = match r.below(8) { 0 => r.range(2, 4), 1 => r.range(4, 12), 2 => r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129]), 3 => r.pick(&[255, 256, 257, 511, 512, 513, 1025]),
                                4 => r.range(300, 1500), _ => r.range(10, 200) } as usize;
    c.max_nbins = r.pick(&[1, 2, 3, 4, 8, 16, 64, 255, 511, 512, 600]);
    let (n, nf) = if r.chance(1, 40) { (n.min(70), r.pick(&[64, 65, 128, 257, 300])) } else { (n, r.range(1, 5)) };
    let nf = nf as usize;
    let mut cols: Vec<Col> = (0..nf).map(|_| column(r, n, c.max_nbins, &mut what)).collect();
    if r.chance(1, 5) { let d = cols[0].clone(); cols.push(d); }
    if !cols.iter().any(|x| x.vals.iter().any(|v| *v != x.vals[0])) { cols.push(Col { cat: false, vals: (0..n).map(|j| j as f32).collect() }); }
    let target = target(r, n, obj, &cols, &mut what);
    c.objective = obj.into();
    c.categorical_features = (0..cols.len()).filter(|&f| cols[f].cat).collect();
    c.csv_has_header = r.chance(1, 2);
    c.discr_nbits = if obj == "hinge" { 2 } else { r.pick(&[1, 2, 4, 8]) };
    c.max_tree_depth = r.pick(&[1, 1, 2, 3, 4, 6, 9, 12]);
    c.min_examples_leaf = r.pick(&[1, 1, 0, 2, 5, 20, 100, 5000]);
    c.niterations = r.pick(&[0, 1, 1, 2, 3, 5, 8, 15]);
    c.learning_rate = if obj == "hinge" { r.pick(&[0.01, 0.05, 0.1]) } else { r.pick(&[1.0, 1.0, 0.5, 0.1, 0.01, 0.0]) };
    c.reg_lambda = r.pick(&[0.0, 0.0, 0.1, 1.0, 100.0, 1e9]);
    c.min_gain = r.pick(&[1e-6, 0.0, 1e-3, 1.0, 1e6]);
    if c.min_examples_leaf == 0 && obj != "hinge" && r.chance(2, 3) { c.reg_lambda = 0.0; c.min_gain = r.pick(&[1e-6, 0.0]); c.max_tree_depth = r.pick(&[3, 4, 6]); c.discr_nbits = r.pick(&[4, 8]); c.niterations = 8; }
    c.huber_alpha = r.pick(&[0.95, 0.5, 0.01, 0.999]);
    c.binary_gradient_bound = r.pick(&[1.25, 2.0, 0.1]);
    c.compression_threshold = r.pick(&[0.5, 0.0, 0.0, -1.0, 0.1, 1.0, 2.0]);
    c.random_seed = r.next() >> 1;
    c.sample_freq = r.pick(&[1, 1, 2, 3, 7, 0]);
    c.metrics = r.pick(&["", "l2", "rmse,l2", "binary_loss", "binary_error,l2"]).split(',').filter(|x| !x.is_empty()).map(String::from).collect();
    if obj != "binary" && obj != "hinge" { c.metrics.retain(|x| !x.starts_with("binary")); }
    c.metric_frequency = r.pick(&[1, 1, 2, 5, 0]);
    let nu = cols.iter().filter(|x| x.vals.iter().any(|v| *v != x.vals[0])).count() as i64;
    let (mut fr, mut ffr) = (r.pick(&[1000, 1000, 1000, 750, 500, 300, 100, 20]), r.pick(&[1000, 1000, 700, 500, 250, 110]));
    while 2 * fr * n as i64 <= 1000 { fr += 50; }
    while 2 * ffr * nu <= 1000 { ffr += 50; }
    c.example_fraction = fr as f32 / 1000.0;
    c.feature_fraction = ffr as f32 / 1000.0;
    let np = r.range(1, 30) as usize;
    let probe = cols.iter().map(|x| Col { cat: x.cat, vals: (0..np).map(|_| {
        let v = x.vals[r.below(n as u64) as usize];
        match r.below(6) {
            0 if x.cat => r.pick(&[0.0f32, 1.0, 5000.0, 70000.0]),
            0 => r.pick(&[-3e38f32, 3e38, 0.0, 1e-40]),
            1 if !x.cat => next_up(v),
            2 if !x.cat => v / 2.0,
            _ => v,
        } }).collect() }).collect();
    Case { config: c, cols, target, probe, obj, csv: r.chance(1, 2), fr, ffr, what }
}

fn ordinary() -> Case {
    let mut r = Rng::new(1, 1);
    let mut c = Config::new();
    let n = 200;
    let mut cols = vec![Col { cat: false, vals: vec![] }, Col { cat: false, vals: vec![] }];
    let mut target = vec![];
    for _ in 0..n {
        let (x, z, u) = (r.below(1000) as f32 / 1000.0, r.below(1000) as f32 / 1000.0, r.below(1000) as f32 / 1000.0);
        cols[0].vals.push(x);
        cols[1].vals.push(z);
        target.push((x + 0.5 * u > 0.7) as u8 as f32);
    }
    c.objective = "hinge".into();
    c.discr_nbits = 2;
    c.max_tree_depth = 3;
    let probe = cols.clone();
    Case { config: c, cols, target, probe, obj: "hinge", csv: false, fr: 1000, ffr: 1000, what: "hinge-default-learning-rate".into() }
}

fn load(c: &Case, cols: &[Col], target: &[f32]) -> Data {
    if !c.csv { return mk_data(&c.config, cols, target); }
    let mut t = String::new();
    if c.config.csv_has_header { for f in 0..cols.len() { t.push_str(&format!("f{},", f)); } t.push_str("y\n"); }
    t.push_str(&mk_csv(cols, target));
    Data::from_csv(&c.config, &t).unwrap()
}

fn bad(v: &[f32]) -> usize { v.iter().filter(|x| !x.is_finite()).count() }

fn run(c: &Case) -> (usize, usize, usize, usize) {
    stage("load");
    let train = load(c, &c.cols, &c.target);
    let ptarget = vec![0.0; c.probe[0].vals.len()];
    let test = load(c, &c.probe, &ptarget);
    stage("train");
    let mut o = objective_from_name(c.obj).unwrap();
    let ms = metrics_from_names(&c.config.metrics).unwrap();
    let m = Booster::new(&c.config, &train, o.as_mut(), &ms).train();
    stage("predict");
    let (p, q) = (m.predict(&train), m.predict(&test));
    stage("done");
    (p.len(), q.len(), bad(&p), bad(&q))
}

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out);
    for t in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, t * 131 + 29);
        let c = if a.mode == "hinge" { ordinary() } else { case(&mut r) };
        stage("");
        let (res, msg) = match guard(|| run(&c)) { Ok(x) => (x, String::new()), Err(m) => ((0, 0, 0, 0), m) };
        let feats = c.cols.iter().map(|x| {
            let mut v: Vec<u32> = x.vals.iter().map(|y| (y + 0.0).to_bits()).collect();
            v.sort(); v.dedup();
            obj! { "cat" => b(x.cat), "distinct" => i(v.len()) }
        });
        let mut tv: Vec<u32> = c.target.iter().map(|y| (y + 0.0).to_bits()).collect();
        tv.sort(); tv.dedup();
        out.emit(&obj! {
            "kind" => s("total"), "tr" => i(t), "objective" => s(c.obj), "what" => s(c.what.clone()), "n" => i(c.target.len()), "np" => i(c.probe[0].vals.len()),
            "feats" => arr(feats), "classes" => i(tv.len()), "finite" => b(bad(&c.target) == 0 && c.cols.iter().all(|x| bad(&x.vals) == 0)),
            "maxtarget" => i(c.target.iter().fold(0.0f32, |x, y| x.max(y.abs())).log10().ceil().max(-99.0) as i64),
            "fr" => i(c.fr), "ffr" => i(c.ffr), "bins" => i(c.config.max_nbins), "bits" => i(c.config.discr_nbits), "depth" => i(c.config.max_tree_depth),
            "minleaf" => i(c.config.min_examples_leaf), "freq" => i(c.config.sample_freq), "lr" => i((c.config.learning_rate * 1000.0).round() as i64), "lambda" => i(c.config.reg_lambda as i64),
            "alpha" => i((c.config.huber_alpha * 1000.0).round() as i64), "niter" => i(c.config.niterations), "csv" => b(c.csv),
            "config" => s(format!("{:?}", c.config)),
            "stage" => s(STAGE.with(|x| *x.borrow())), "msg" => s(msg), "npred" => i(res.0), "ntest" => i(res.1), "badtrain" => i(res.2), "badtest" => i(res.3),
        });
    }
}
