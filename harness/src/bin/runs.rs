//! Driver for RunsTrace.tla: the same training run in several ways.
//!
//! mode=compr    several compression thresholds
//! mode=det      number of threads, repetitions, another process, CSV or memory, metrics, more iterations
//! mode=bigsample samples of many rows
//! mode=sampled  how often rows and features are sampled
use bbharness::gen::*;
use bbharness::*;
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::metric::metrics_from_names;
use bitboost::objective::objective_from_name;
use rayon::prelude::*;

fn clone_config(c: &Config) -> Config {
    let mut d = Config::new();
    d.objective = c.objective.clone(); d.metrics = c.metrics.clone(); d.metric_frequency = c.metric_frequency;
    d.csv_has_header = c.csv_has_header; d.csv_delimiter = c.csv_delimiter; d.categorical_features = c.categorical_features.clone();
    d.niterations = c.niterations; d.learning_rate = c.learning_rate; d.reg_lambda = c.reg_lambda; d.min_gain = c.min_gain;
    d.min_examples_leaf = c.min_examples_leaf; d.max_tree_depth = c.max_tree_depth; d.discr_nbits = c.discr_nbits; d.max_nbins = c.max_nbins;
    d.example_fraction = c.example_fraction; d.feature_fraction = c.feature_fraction; d.sample_freq = c.sample_freq;
    d.random_seed = c.random_seed; d.compression_threshold = c.compression_threshold; d.huber_alpha = c.huber_alpha;
    d.binary_gradient_bound = c.binary_gradient_bound;
    d
}

/// Of long lists, the length, a hash, and some elements.
fn brief(v: Vec<i64>) -> J {
    if v.len() <= 6000 { return ints(&v); }
    let mut h = 14695981039346656037u64;
    for &x in &v { h = (h ^ x as u64).wrapping_mul(1099511628211); h ^= h >> 29; }
    let mut o = vec![v.len() as i64, (h >> 40) as i64, (h & 0xffffff) as i64];
    o.extend((0..20).map(|k| v[k * (v.len() - 1) / 19]));
    ints(&o)
}

/// One run; with the recording objective, or with the objective named in the configuration.
fn run(label: &str, env: &Env, c: &Config, data: &Data, synth: bool) -> J {
    let probe = mk_data(c, &env.probe, &vec![0.0; env.probe[0].vals.len()]);
    let metrics = metrics_from_names(&c.metrics).unwrap();
    if synth {
        let mut obj = Synth::new(env.bias, env.grads.clone(), env.bounds);
        let model = Booster::new(c, data, &mut obj, &metrics).train();
        let mut groups: Vec<Vec<Ev>> = Vec::new();
        for e in &obj.log {
            match e {
                Ev::Init => {},
                Ev::Update => groups.push(Vec::new()),
                e => if let Some(g) = groups.last_mut() { g.push(e.clone()) },
            }
        }
        let groups = groups.iter().map(|g| {
            let (leaves, oob) = leaves_oob(g);
            obj! {
                "leaves" => arr(leaves.iter().map(|(r, v)| obj! { "rows" => brief(r.iter().map(|&x| x as i64).collect()), "val" => i(*v) })),
                "oob" => brief(oob.iter().flat_map(|(r, v)| vec![*r as i64, *v]).collect()),
            }
        }).collect();
        obj! { "label" => s(label), "niter" => i(c.niterations), "groups" => J::A(groups), "preds" => brief(model.predict(data).iter().map(|&x| key(x)).collect()), "probe" => keys(&model.predict(&probe)) }
    } else {
        let mut obj = objective_from_name(&c.objective).unwrap();
        let model = Booster::new(c, data, obj.as_mut(), &metrics).train();
        obj! { "label" => s(label), "niter" => i(c.niterations), "groups" => J::A(Vec::new()), "preds" => brief(model.predict(data).iter().map(|&x| key(x)).collect()), "probe" => keys(&model.predict(&probe)) }
    }
}

fn in_pool<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(f)
}

/// More rows than fit 16 bits.
fn huge(r: &mut Rng) -> Env {
    let n = many_rows(r);
    let mut env = gen_n(r, "big", n);
    env.config.niterations = 2;
    env.grads.resize(2, env.grads[0].clone());
    env
}

fn compr(tr: u64, r: &mut Rng) -> J {
    let size = r.pick(&["mid", "mid", "mid", "big"]);
    let mut env = if r.chance(1, 30) { huge(r) } else { gen(r, size) };
    env.config.max_tree_depth = r.range(2, 7) as usize;
    env.config.min_examples_leaf = r.pick(&[1, 1, 2, 5]);
    env.config.min_gain = 1e-6;
    let data = mk_data(&env.config, &env.cols, &env.target);
    let mut runs = Vec::new();
    for &t in &[2.0f32, 0.0, 0.2, 0.5, 0.9] {
        let mut c = clone_config(&env.config);
        c.compression_threshold = t;
        runs.push(run(&format!("compression_threshold={}", t), &env, &c, &data, true));
    }
    obj! { "kind" => s("same"), "prop" => s("C04"), "tr" => i(tr), "runs" => J::A(runs) }
}

/// mode=giant: so many rows that the blocks do not fit 16 bits either
fn giant(tr: u64, r: &mut Rng) -> J {
    let mut env = gen(r, "mid");
    let n = (65536 * 32 + r.pick(&[-5000i64, -1, 1, 3000, 70000, 300000])) as usize;
    let k = r.range(6, 40) as usize;
    let cat = r.chance(1, 2);
    let cols = vec![
        Col { cat, vals: (0..n).map(|i| (i * k / n) as f32).collect() },
        Col { cat: true, vals: (0..n).map(|i| (i % 3) as f32).collect() },
        Col { cat: false, vals: (0..n).map(|i| ((i / 97) % 11) as f32).collect() },
    ];
    let c = &mut env.config;
    c.categorical_features = if cat { vec![0, 1] } else { vec![1] };
    c.example_fraction = r.pick(&[1.0, 1.0, 0.98]);
    c.feature_fraction = 1.0;
    c.max_nbins = 4;
    c.min_gain = 1e-6;
    c.min_examples_leaf = 1;
    c.max_tree_depth = r.range(3, 6) as usize;
    c.niterations = 1;
    let (lo, hi) = env.bounds;
    let w = hi - lo;
    let part: Vec<f32> = (0..k).map(|_| r.below(4) as f32 / 4.0).collect();
    env.grads = vec![(0..n).map(|i| lo + (w * (part[i * k / n] + 0.25 * (i % 3 == 1) as u8 as f32)).floor().min(w)).collect()];
    env.probe = cols.iter().map(|x| Col { cat: x.cat, vals: (0..20).map(|j| x.vals[j * (n - 1) / 19]).collect() }).collect();
    env.cols = cols;
    env.target = vec![0.0; n];
    let data = mk_data(&env.config, &env.cols, &env.target);
    let runs: Vec<J> = [2.0f32, 0.0, 0.5].iter().map(|&t| {
        let mut c = clone_config(&env.config);
        c.compression_threshold = t;
        run(&format!("compression_threshold={}", t), &env, &c, &data, true)
    }).collect();
    obj! { "kind" => s("same"), "prop" => s("C04"), "tr" => i(tr), "runs" => J::A(runs) }
}

fn det_env(r: &mut Rng) -> (Env, bool) {
    let size = r.pick(&["small", "small", "mid"]);
    let mut env = if r.chance(1, 60) { huge(r) } else { gen(r, size) };
    let n = env.target.len();
    env.config.niterations = r.range(2, 5) as usize;
    env.config.metrics = Vec::new();
    if r.chance(2, 3) { // copies of the columns: splits of equal gain, told apart by the rows of the probe
        let np = r.range(10, 40) as usize;
        for f in 0..env.cols.len() {
            for _ in 0..r.range(1, 3) {
                let c = env.cols[f].clone();
                env.cols.push(c);
            }
        }
        for k in (1..env.cols.len()).rev() { env.cols.swap(k, r.below(k as u64 + 1) as usize); }
        env.config.categorical_features = (0..env.cols.len()).filter(|&f| env.cols[f].cat).collect();
        env.probe = env.cols.iter().map(|c| Col { cat: c.cat, vals: (0..np).map(|_| c.vals[r.below(n as u64) as usize]).collect() }).collect();
        env.config.niterations = 5;
        env.config.max_tree_depth = r.range(2, 5) as usize;
        env.config.min_examples_leaf = r.range(1, 2) as u32;
        env.config.min_gain = 1e-6;
        let last = env.grads.last().unwrap().clone();
        env.grads.resize(5, last);
    }
    let synth = r.chance(1, 2);
    if !synth {
        let o = r.pick(&["l2", "l1", "huber", "binary", "hinge"]);
        env.config.objective = o.into();
        env.config.learning_rate = r.pick(&[1.0, 0.5, 0.1]);
        if o == "hinge" { env.config.discr_nbits = 2; }
        if o == "binary" || o == "hinge" {
            for t in env.target.iter_mut() { *t = r.below(2) as f32; }
            env.target[0] = 0.0; env.target[n - 1] = 1.0;
        } else {
            for k in 0..n { env.target[k] = env.cols[0].vals[k] * 0.37 + r.below(100) as f32 * 0.01; }
        }
    }
    (env, synth)
}

fn det(tr: u64, seed: u64, r: &mut Rng, child: bool) -> J {
    let (env, synth) = det_env(r);
    let c = &env.config;
    let data = mk_data(c, &env.cols, &env.target);
    if child { return run("another process", &env, c, &data, synth); }
    let mut runs = vec![run("first", &env, c, &data, synth), run("again", &env, c, &data, synth)];
    for &t in &[1, 2, 5, 8] {
        runs.push(in_pool(t, || run(&format!("{} threads", t), &env, c, &data, synth)));
    }
    let data_len = env.target.len();
    // many at once, so that threads leave one training for another; of those with the same result, one is recorded
    let many = in_pool(8, || (0..if data_len > 6000 { 8 } else { 48 }).into_par_iter().with_max_len(1).map(|_| run("8 threads, with others", &env, c, &data, synth).text()).collect::<Vec<_>>());
    let mut many: Vec<String> = many;
    many.sort();
    many.dedup();
    runs.extend(many.into_iter().map(J::Raw));
    { // the data from a CSV; the text of a float is parsed to the same float
        let csv = mk_csv(&env.cols, &env.target);
        let d = Data::from_csv(c, &csv).unwrap();
        runs.push(run("from CSV", &env, c, &d, synth));
    }
    {
        let mut m = clone_config(c);
        m.metrics = vec!["l2".into(), "rmse".into(), "binary_error".into()];
        m.metric_frequency = r.pick(&[1, 2, 3]);
        runs.push(run("with metrics", &env, &m, &data, synth));
    }
    if synth {
        let mut m = clone_config(c);
        m.niterations = c.niterations - 1;
        runs.push(run("fewer iterations", &env, &m, &data, synth));
    }
    {
        let out = format!("{}/child{}.json", std::env::var("BB_SCRATCH").unwrap_or("/tmp".into()), std::process::id());
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&[format!("out={}", out), format!("seed={}", seed), "mode=child".into(), format!("from={}", tr), "count=1".into()])
            .stdout(std::process::Stdio::null()).status().unwrap();
        assert!(st.success(), "the run in another process failed");
        runs.push(J::Raw(std::fs::read_to_string(&out).unwrap().trim().to_string()));
        std::fs::remove_file(&out).unwrap();
    }
    obj! { "kind" => s("same"), "prop" => s("C16"), "tr" => i(tr), "runs" => J::A(runs) }
}

/// pair: how often two are selected together; of many, only for some of them
struct Src { some: Vec<usize>, what: &'static str, n: usize, k: usize, m: i64, count: Vec<i64>, pair: Vec<i64>, last: Vec<usize>, repeats: i64 }
impl Src {
    fn new(what: &'static str, n: usize) -> Src { let some: Vec<usize> = if n <= 16 { (0..n).collect() } else { (0..12).map(|j| j * (n - 1) / 11).collect() };
        let np = some.len() * (some.len() - 1) / 2;
        Src { some, what, n, k: 0, m: 0, count: vec![0; n], pair: vec![0; np], last: Vec::new(), repeats: 0 } }
    fn add(&mut self, v: &[usize]) {
        self.m += 1;
        self.k = v.len();
        if v == &self.last[..] { self.repeats += 1; }
        self.last = v.to_vec();
        for &a in v { self.count[a] += 1; }
        let has: Vec<bool> = self.some.iter().map(|x| v.contains(x)).collect();
        for b in 0..has.len() { for a in 0..b { if has[a] && has[b] { self.pair[b * (b - 1) / 2 + a] += 1; } } }
    }
    fn json(&self) -> J {
        obj! { "what" => s(self.what), "n" => i(self.n), "k" => i(self.k), "m" => i(self.m), "count" => ints(&self.count),
               "pair" => if self.k >= 2 { ints(&self.pair) } else { ints::<i64>(&[]) }, "repeats" => i(self.repeats) }
    }
}

/// mode=sampled: over iterations of one training (a) and over seeds (b)
fn sampled(tr: u64, r: &mut Rng) -> J {
    let many = r.chance(1, 4);
    let n = if many { r.range(65, 480) } else { r.range(4, 16) } as usize;
    let nf = if many && r.chance(1, 3) { r.range(70, 150) } else { r.range(2, 8) } as usize;
    let m = if many { 1500 } else { 4000 };
    let mut c = Config::new();
    c.max_nbins = 2;
    c.example_fraction = r.pick(&[0.25, 0.5, 0.75, 0.34, 0.9, 1.0, 1.0]);
    c.feature_fraction = r.pick(&[0.25, 0.5, 0.75, 0.67, 1.0]);
    if (nf as f32 * c.feature_fraction).round() < 1.0 { c.feature_fraction = 0.5; }
    c.random_seed = r.below(100000);
    let kinds = r.below(3); // numbers, few categories, both
    let cols: Vec<Col> = (0..nf).map(|f| {
        let cat = kinds == 1 || kinds == 2 && f % 2 == 0;
        Col { cat, vals: (0..n).map(|i| if cat { (i % 2) as f32 } else { i as f32 }).collect() }
    }).collect();
    c.categorical_features = (0..nf).filter(|&f| cols[f].cat).collect();
    let data = mk_data(&c, &cols, &vec![0.0; n]);
    let grad = vec![1.0; n];
    let mut sources = Vec::new();
    for by_seed in 0..2 {
        let (mut rows, mut feats) = (Src::new(if by_seed == 1 { "rows, seeds" } else { "rows, iterations" }, n),
                                     Src::new(if by_seed == 1 { "features, seeds" } else { "features, iterations" }, nf));
        let mut ds = Dataset::new(&c, &data);
        for _ in 0..m {
            if by_seed == 1 { c.random_seed += 1; ds = Dataset::new(&c, &data); }
            ds.update(&c, &grad, (0.0, 2.0));
            let mut v = Vec::new();
            ds.active_examples_iter(|_, j| v.push(j));
            rows.add(&v);
            feats.add(ds.active_features());
        }
        sources.push(rows.json());
        sources.push(feats.json());
    }
    obj! { "kind" => s("sampled"), "tr" => i(tr), "sources" => J::A(sources) }
}

/// samples of many rows: their sizes and how the rows are spread
fn bigsample(tr: u64, r: &mut Rng) -> J {
    let n = many_rows(r);
    let mut c = Config::new();
    c.max_nbins = 2;
    let efn = r.pick(&[25, 50, 75, 34, 90, 10, 1, 99]);
    c.example_fraction = efn as f32 / 100.0;
    c.sample_freq = r.range(0, 3) as usize;
    c.random_seed = r.below(100000);
    let cols = vec![Col { cat: false, vals: (0..n).map(|i| (i % 3) as f32).collect() }];
    let data = mk_data(&c, &cols, &vec![0.0; n]);
    let grad = vec![1.0; n];
    let mut ds = Dataset::new(&c, &data);
    let mut samples: Vec<Vec<usize>> = Vec::new();
    for _ in 0..6 {
        ds.update(&c, &grad, (0.0, 2.0));
        let mut v = Vec::new();
        ds.active_examples_iter(|_, j| v.push(j));
        samples.push(v);
    }
    let part = |v: &Vec<usize>, f: &dyn Fn(usize) -> usize, k: usize| { let mut p = vec![0i64; k]; for &x in v { p[f(x).min(k - 1)] += 1; } ints(&p) };
    let all: Vec<usize> = (0..n).collect();
    obj! { "kind" => s("bigsample"), "tr" => i(tr), "n" => i(n), "efn" => i(efn), "freq" => i(c.sample_freq),
        "tenths" => part(&all, &|x| x * 10 / n, 10), "words" => part(&all, &|x| x % 32, 32),
        "samples" => arr(samples.iter().enumerate().map(|(u, v)| obj! {
            "size" => i(v.len()), "ascending" => J::B(v.windows(2).all(|w| w[0] < w[1]) && v.iter().all(|&x| x < n)),
            "same" => J::B(u > 0 && samples[u - 1] == *v), "common" => i(if u == 0 { 0 } else { let h: std::collections::HashSet<_> = samples[u - 1].iter().collect(); v.iter().filter(|x| h.contains(x)).count() }),
            "tenths" => part(v, &|x| x * 10 / n, 10), "words" => part(v, &|x| x % 32, 32) })) }
}

/// mode=longsample: at which of many updates the samples of rows and features change
fn longsample(tr: u64, r: &mut Rng) -> J {
    let (n, nf) = (r.range(60, 100) as usize, r.range(40, 60) as usize);
    let mut c = Config::new();
    c.max_nbins = 2;
    c.example_fraction = r.pick(&[1.0, 0.5, 0.5, 0.5]);
    c.feature_fraction = r.pick(&[1.0, 0.5, 0.5, 0.5]);
    let far = r.chance(1, 8);
    c.sample_freq = if far { r.pick(&[1000, 3000, 65535, 65536, 20000]) } else { r.pick(&[0, 1, 2, 3, 5, 7, 10, 50, 64, 100, 255, 256, 257]) };
    let m = if far { 70000 } else { r.range(520, 1200) } as usize;
    c.random_seed = r.below(100000);
    let cols: Vec<Col> = (0..nf).map(|_| Col { cat: true, vals: (0..n).map(|i| (i % 2) as f32).collect() }).collect();
    c.categorical_features = (0..nf).collect();
    let data = mk_data(&c, &cols, &vec![0.0; n]);
    let grad = vec![1.0; n];
    let mut ds = Dataset::new(&c, &data);
    let (mut rows, mut feats) = (vec![], vec![]);
    let (mut last, mut lastf): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let mut odd = 0;
    for u in 1..=m {
        ds.update(&c, &grad, (0.0, 2.0));
        let mut v = Vec::new();
        ds.active_examples_iter(|_, j| v.push(j));
        let mut f = ds.active_features().to_vec();
        f.sort();
        if v.windows(2).any(|w| w[0] >= w[1]) || v.len() != (n as f64 * c.example_fraction as f64).round() as usize || f.windows(2).any(|w| w[0] >= w[1]) || f.len() != (nf as f64 * c.feature_fraction as f64).round() as usize { odd += 1; }
        if u > 1 && v != last { rows.push(u); }
        if u > 1 && f != lastf { feats.push(u); }
        last = v; lastf = f;
    }
    obj! { "kind" => s("longsample"), "tr" => i(tr), "m" => i(m), "freq" => i(c.sample_freq), "rows" => ints(&rows), "feats" => ints(&feats), "odd" => i(odd),
           "bag" => b(c.example_fraction < 1.0), "ffs" => b(c.feature_fraction < 1.0) }
}

fn main() {
    quiet_panics();
    let a = args();
    if let Ok(d) = std::env::var("BB_SCRATCH") { let _ = std::fs::create_dir_all(d); }
    let mut out = Out::new(&a.out);
    for tr in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, tr.wrapping_mul(7919).wrapping_add(if a.mode == "compr" { 1 } else { 2 }));
        let res = guard(|| match a.mode.as_str() {
            "compr" => compr(tr, &mut r),
            "bigsample" => bigsample(tr, &mut r),
            "sampled" => sampled(tr, &mut r),
            "giant" => giant(tr, &mut r),
            "longsample" => longsample(tr, &mut r),
            m => det(tr, a.seed, &mut r, m == "child"),
        });
        match res {
            Ok(j) => out.emit(&j),
            Err(msg) => {
                out.emit(&obj! { "kind" => s("panic"), "tr" => i(tr), "msg" => s(msg) });
                if a.mode == "child" { std::process::exit(3); }
            },
        }
    }
}
