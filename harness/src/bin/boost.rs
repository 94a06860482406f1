//! Driver for Boost.tla: runs the real learner on generated data sets, with an objective whose
//! gradients are prescribed integers and whose leaf values are distinct tags, and writes down for
//! every tree what was sampled, which splits were offered, what came out and what it predicts.
//!
//! mode=small|mid|big  run sizes (big: SIMD main loop and compressed blocks)
//! mode=huge           many rows, of few kinds
//! mode=duel           two features of almost the same gain
//! mode=bulk           Booster::train with many rows
//! mode=train          Booster::train with the recording objective
//! mode=real           Booster::train with the objectives of the crate
use bbharness::gen::*;
use bbharness::*;
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};
use bitboost::dataset::Dataset;
use bitboost::objective::{objective_from_name, Objective};
use bitboost::tree::{AdditiveTree, TreeLearner, TreeLearnerContext};

fn ftype(d: &Data, f: usize) -> &'static str {
    match d.feat_type(f) { FeatType::LoCardCat => "lo", FeatType::HiCardCat => "hi", FeatType::Numerical => "num" }
}
fn val(c: &Col, v: f32) -> J { if c.cat { i(as_int(v)) } else { J::I(key(v)) } }

/// Categories that are far apart: all that occur, in order.
fn ranks(env: &Env, f: usize) -> Option<Vec<u32>> {
    if !env.cols[f].cat { return None; }
    let mut v: Vec<u32> = env.cols[f].vals.iter().chain(&env.probe[f].vals).map(|&x| x as u32).collect();
    v.sort(); v.dedup();
    let high = env.cols[f].vals.iter().any(|&x| x as usize >= env.config.max_nbins);
    if high && *v.last().unwrap() > 2000 { Some(v) } else { None }
}
/// the values of column f of env; categories that are far apart are numbered
fn shown(env: &Env, f: usize, vals: &mut dyn Iterator<Item = f32>) -> J {
    match ranks(env, f) {
        Some(all) => arr(vals.map(|v| i(all.binary_search(&(v as u32)).unwrap()))),
        None => arr(vals.map(|v| val(&env.cols[f], v))),
    }
}

/// Scaling of the gains to integers, and the rounding error that 32-bit floats may make in them.
fn scaling(env: &Env) -> (i64, i64, i64) {
    let c = &env.config;
    let (lo, hi) = env.bounds;
    let mut gmax: f64 = 1.0;
    for g in &env.grads {
        let (mut p, mut m) = (0.0, 0.0);
        for &x in g { let q = x.max(lo).min(hi) as f64; if q > 0.0 { p += q } else { m -= q } }
        gmax = gmax.max(p).max(m);
    }
    let k2 = (2147483647.0 / (gmax * gmax)).floor();
    assert!(k2 >= 2.0, "gradients too large for the specification");
    ((k2 as i64).max(0), (k2 * c.min_gain as f64).min(2.0e9).floor() as i64, 4)
}

fn env_json(tr: u64, size: &str, env: &Env, data: &Data, cls: &Classes) -> J {
    let c = &env.config;
    let (k2, mgk, tol) = scaling(env);
    let nf = env.cols.len();
    obj! {
        "kind" => s("boost"), "tr" => i(tr), "size" => s(size),
        "n" => i(cls.w.len()), "w" => if cls.w.len() == cls.of.len() { ints::<i64>(&[]) } else { ints(&cls.w) }, "nf" => i(nf), "depth" => i(c.max_tree_depth), "niter" => i(c.niterations),
        "minex" => i(c.min_examples_leaf.min(1_000_000_000)), "lam2" => i((c.reg_lambda * 2.0) as i64), "nbits" => i(c.discr_nbits),
        "lo" => i(env.bounds.0 as i64), "hi" => i(env.bounds.1 as i64), "bias" => i(env.bias as i64),
        "k2" => i(k2), "mgk" => i(mgk), "tol" => i(tol), "freq" => i(c.sample_freq),
        "maxbins" => i(c.max_nbins),
        "efn" => i((c.example_fraction * 100.0).round() as i64), "efd" => i(100),
        "ffn" => i((c.feature_fraction * 100.0).round() as i64), "ffd" => i(100),
        "ftype" => arr((0..nf).map(|f| s(ftype(data, f)))),
        "vals" => arr((0..nf).map(|f| shown(env, f, &mut cls.first.iter().map(|&r| env.cols[f].vals[r])))),
        "probe" => arr((0..nf).map(|f| shown(env, f, &mut env.probe[f].vals.iter().cloned()))),
        "np" => i(env.probe[0].vals.len()),
    }
}

fn largest(vs: &[&[f32]]) -> f32 { vs.iter().flat_map(|v| v.iter()).fold(1e-30, |a: f32, x| a.max(x.abs())) }
/// in millionths of u
fn in_units(v: &[f32], u: f32) -> J { ints(&v.iter().map(|&x| { let y = x as f64 / u as f64 * 1e6; if y.is_finite() { y.round() as i64 } else { 2000000011 } }).collect::<Vec<_>>()) }

/// Many rows, of few kinds.
fn huge(r: &mut Rng) -> (Env, Classes) {
    let mut env = gen(r, "small");
    let n = many_rows(r);
    let k = r.range(4, 28) as usize;
    let c = &mut env.config;
    c.discr_nbits = r.pick(&[1, 1, 2, 4]);
    c.example_fraction = 1.0;
    c.niterations = r.range(1, 2) as usize;
    c.max_tree_depth = r.range(2, 6) as usize;
    c.compression_threshold = r.pick(&[0.0, 0.2, 0.5, 1.0]);
    c.max_nbins = r.pick(&[4, 8, 16]);
    c.min_gain = 1e-6;
    c.min_examples_leaf = r.pick(&[1, 1, 5000, 20000, 65535, 65536, 65537, n as u32 / 2, n as u32 / 2 + 1, n as u32]);
    let classes = kinds_of_rows(r, n, k);
    let nf = r.range(1, 4) as usize;
    let kinds: Vec<Col> = (0..nf).map(|_| { let kind = r.pick(&[0, 2, 2, 4]); gen_col(r, k, c.max_nbins, "small", kind) }).collect();
    let kinds: Vec<Col> = kinds.into_iter().map(|x| if x.vals.iter().all(|&v| v == x.vals[0]) { Col { cat: false, vals: (0..k).map(|j| (j / 2) as f32).collect() } } else { x }).collect();
    c.categorical_features = (0..nf).filter(|&f| kinds[f].cat).collect();
    let maxval = ((1u32 << c.discr_nbits) - 1) as f32;
    let lo = r.pick(&[0.0f32, 0.0, -maxval]);
    // the sum of the absolute gradients of all rows stays below 30000
    let g: Vec<Vec<f32>> = (0..c.niterations).map(|_| {
        let mut left = 30000i64;
        let mut order: Vec<usize> = (0..k).collect();
        for j in (1..k).rev() { let o = r.below(j as u64 + 1) as usize; order.swap(j, o); }
        let mut v = vec![0.0; k];
        for j in order {
            let x = r.range(1, maxval as i64);
            if x * classes.w[j] as i64 <= left && r.chance(3, 4) { left -= x * classes.w[j] as i64; v[j] = if lo < 0.0 { -x } else { x } as f32; }
        }
        v
    }).collect();
    env.cols = kinds.iter().map(|x| Col { cat: x.cat, vals: classes.of.iter().map(|&j| x.vals[j]).collect() }).collect();
    env.probe = kinds.iter().map(|x| Col { cat: x.cat, vals: (0..20).map(|_| { let v = x.vals[r.below(k as u64) as usize]; if r.chance(1, 5) { v + r.below(9) as f32 } else { v } }).collect() }).collect();
    env.target = vec![0.0; n];
    env.grads = g.iter().map(|v| classes.of.iter().map(|&j| v[j]).collect()).collect();
    env.bounds = (lo, lo + maxval);
    if r.chance(1, 2) { return (env, classes); }
    // with bagging, from one sample: then what is in the bag is another kind than what is not
    env.config.sample_freq = 0;
    env.config.example_fraction = r.pick(&[0.3, 0.5, 0.75, 0.9, 0.98]);
    let data = mk_data(&env.config, &env.cols, &env.target);
    let mut dataset = Dataset::new(&env.config, &data);
    dataset.update(&env.config, &env.grads[0], env.bounds);
    let mut id: Vec<usize> = classes.of.iter().map(|&c| 2 * c).collect();
    dataset.active_examples_iter(|_, j| id[j] |= 1);
    let mut ids = id.clone();
    ids.sort(); ids.dedup();
    let of = id.iter().map(|x| ids.binary_search(x).unwrap()).collect();
    (env, Classes::new(of, ids.len()))
}
/// a list of updates of single rows: one per kind
fn per_kind(cls: &Classes, oob: Vec<(usize, i64)>) -> Vec<(usize, i64)> {
    if cls.w.len() == cls.of.len() { return oob; }
    let mut n = vec![0; cls.w.len()];
    let mut v = vec![None; cls.w.len()];
    let mut seen = vec![false; cls.of.len()];
    for (r, x) in oob {
        let c = cls.of[r];
        n[c] += 1;
        if seen[r] || *v[c].get_or_insert(x) != x { cls.note("oob"); }
        seen[r] = true;
    }
    if n.iter().zip(&cls.w).any(|(&a, &b)| a != 0 && a != b) { cls.note("oob"); }
    v.iter().enumerate().filter_map(|(c, x)| x.map(|x| (c, x))).collect()
}

fn stepped(tr: u64, size: &str, env: &mut Env, cls: &Classes) -> J {
    let data = mk_data(&env.config, &env.cols, &env.target);
    let np = env.probe[0].vals.len();
    let pdata = mk_data(&env.config, &env.probe, &vec![0.0; np]);
    // some rows of the probe, in another order
    let back: Vec<usize> = (0..np).rev().filter(|p| np < 3 || p % 3 != 1).collect();
    let bcols: Vec<Col> = env.probe.iter().map(|c| Col { cat: c.cat, vals: back.iter().map(|&p| c.vals[p]).collect() }).collect();
    let bdata = mk_data(&env.config, &bcols, &vec![0.0; back.len()]);
    let (scales, tbias) = ([[2.0, 1.0], [1.0, -1.0], [2.0, 3.0], [0.0, 1.0], [-1.0, -2.0]][tr as usize % 5], (tr % 7) as f32 - 3.0);
    let mut rec = env_json(tr, size, &env, &data, cls);

    // gradients in a unit that is a power of two: then gains are in its square, and nothing else changes
    let unit = [1.0f32, 1.0, 0.125, 1.0, 16.0, 0.015625, 1024.0][(tr / 5) as usize % 7];
    env.config.min_gain *= unit * unit;
    let (env, c) = (&*env, &env.config);
    let mut obj = Synth::new(env.bias, env.grads.iter().map(|g| g.iter().map(|x| x * unit).collect()).collect(), (env.bounds.0 * unit, env.bounds.1 * unit));
    obj.initialize(c, data.get_target());
    let mut ctx = TreeLearnerContext::new(c, &data);
    let mut dataset = Dataset::new(c, &data);
    let mut model = AdditiveTree::new();
    model.set_bias(obj.bias());
    let none = { let mut dirty: Vec<f32> = (0..np).map(|p| 1000.0 + p as f32).collect(); model.predict_buf(&pdata, &mut dirty); dirty.iter().map(|&x| as_int(x)).collect::<Vec<i64>>() };
    let mut iters = Vec::new();
    for _ in 0..c.niterations {
        obj.update(data.get_target());
        obj.log.clear();
        dataset.update(c, obj.gradients(), obj.bounds());
        let mut bag = Vec::new();
        dataset.active_examples_iter(|i, j| { assert_eq!(i, bag.len()); bag.push(j); });
        let mut cand = Vec::new();
        for &f in dataset.active_features() {
            for k in 0..dataset.get_nbins(f) {
                let v = dataset.get_bitvec(f, k);
                let mask: Vec<usize> = (0..bag.len()).filter(|&i| v.get_bit(i)).map(|i| bag[i]).collect();
                let mask = cls.rows("cand", &mask);
                let sv = dataset.get_split_value(f, k);
                cand.push(obj! { "f" => i(f), "k" => i(k), "sv" => val(&env.cols[f], sv), "mask" => ints(&mask) });
            }
        }
        let supercats = dataset.get_supercats().clone();
        let bag = cls.rows("bag", &bag);
        let sup = arr((0..env.cols.len()).map(|f| {
            let sup = supercats.get(f).map(|v| &v[..]).unwrap_or(&[]);
            match ranks(env, f) {
                Some(all) => arr(all.iter().filter_map(|&v| sup.get(v as usize)).map(|&x| i(x))),
                None => arr(sup.iter().map(|&x| i(x))),
            }
        }));
        let active = ints(dataset.active_features());
        let tree = TreeLearner::new(&mut ctx, &dataset, supercats, &mut obj).train();
        let (leaves, oob) = leaves_oob(&obj.log);
        let leaves: Vec<(Vec<usize>, i64)> = leaves.iter().map(|(r, v)| (cls.rows("leaves", r), *v)).collect();
        let oob = per_kind(cls, oob);
        let max_nodes = tree.max_nnodes();
        let tagged: Vec<(usize, i64)> = (0..max_nodes).filter(|&k| tree.node_value(k) != 0.0).map(|k| (k, as_int(tree.node_value(k)))).collect();
        let tp: Vec<i64> = tree.predict(&data).iter().map(|&x| as_int(x)).collect();
        let tp = cls.each("tp", &tp);
        let pp: Vec<i64> = tree.predict(&pdata).iter().map(|&x| as_int(x)).collect();
        model.push_tree(tree.clone());
        let mp: Vec<i64> = model.predict(&data).iter().map(|&x| as_int(x)).collect();
        let mp = cls.each("mp", &mp);
        let mpp: Vec<i64> = model.predict(&pdata).iter().map(|&x| as_int(x)).collect();
        let mut dirty: Vec<f32> = (0..np).map(|p| 1000.0 + p as f32).collect();
        let pb = { tree.predict_buf(&pdata, &mut dirty); dirty.iter().map(|&x| as_int(x)).collect::<Vec<i64>>() };
        let mpb = { model.predict_buf(&pdata, &mut dirty); dirty.iter().map(|&x| as_int(x)).collect::<Vec<i64>>() };
        let back = model.predict(&bdata).iter().map(|&x| as_int(x)).collect::<Vec<i64>>();
        // the tree scaled, and a model of it without bias
        let mut scaled = tree.clone();
        for &x in &scales { scaled.set_shrinkage(x); }
        scaled.set_bias(tbias);
        let sp: Vec<i64> = scaled.predict(&pdata).iter().map(|&x| as_int(x)).collect();
        let mut unbiased = model.clone();
        unbiased.set_bias(0.0);
        unbiased.push_tree(scaled);
        let ub = { unbiased.predict_buf(&pdata, &mut dirty); dirty.iter().map(|&x| as_int(x)).collect::<Vec<i64>>() };
        let ap: Vec<i64> = obj.predictions().iter().map(|&x| as_int(x)).collect();
        let ap = cls.each("ap", &ap);
        let grad = &obj.grads[(obj.iter - 1) % obj.grads.len()];
        let grad: Vec<f32> = cls.first.iter().map(|&r| grad[r] / unit).collect();
        iters.push(obj! {
            "grad" => ints(&grad.iter().map(|&g| g as i64).collect::<Vec<_>>()),
            "active" => active, "bag" => ints(&bag), "cand" => J::A(cand), "sup" => sup,
            "leaves" => arr(leaves.iter().map(|(r, v)| obj! { "rows" => ints(r), "val" => i(*v) })),
            "oob" => arr(oob.iter().map(|(r, v)| obj! { "r" => i(*r), "val" => i(*v) })),
            "nodes" => arr(tagged.iter().map(|(k, v)| obj! { "id" => i(*k), "val" => i(*v) })),
            "ni" => i(tree.ninternal()), "nl" => i(tree.nleafs()), "nn" => i(tree.nnodes()), "maxdepth" => i(tree.max_depth()),
            "tp" => ints(&tp), "pp" => ints(&pp), "mp" => ints(&mp), "mpp" => ints(&mpp),
            "mixed" => arr(cls.mixed.borrow().iter().map(|x| s(*x))),
            "pb" => ints(&pb), "mpb" => ints(&mpb), "back" => ints(&back), "sp" => ints(&sp), "ub" => ints(&ub), "ap" => ints(&ap),
        });
    }
    rec.push("scale", i((scales[0] * scales[1]) as i64));
    rec.push("none", ints(&none)); // predictions without a tree
    rec.push("tbias", i(tbias as i64));
    rec.push("back", ints(&back.iter().map(|x| x + 1).collect::<Vec<_>>()));
    rec.push("iters", J::A(iters));
    rec
}

fn train(tr: u64, size: &str, env: &Env) -> J {
    let c = &env.config;
    let data = mk_data(c, &env.cols, &env.target);
    let mut obj = Synth::new(env.bias, env.grads.clone(), env.bounds);
    obj.silent = match env.config.random_seed % 8 { 0 => 1, 1 => 2, 2 => 3, _ => 0 };
    let metrics = Vec::new();
    let model = Booster::new(c, &data, &mut obj, &metrics).train();
    let mut inits = 0;
    let mut early = 0;
    let mut groups: Vec<Vec<Ev>> = Vec::new();
    for e in &obj.log {
        match e {
            Ev::Init => { inits += 1; if !groups.is_empty() { early += 1; } },
            Ev::Update => groups.push(Vec::new()),
            e => match groups.last_mut() { Some(g) => g.push(e.clone()), None => early += 1 },
        }
    }
    let iters = groups.iter().map(|g| {
        let (leaves, oob) = leaves_oob(g);
        obj! {
            "leaves" => arr(leaves.iter().map(|(r, v)| obj! { "rows" => ints(r), "val" => i(*v) })),
            "oob" => arr(oob.iter().map(|(r, v)| obj! { "r" => i(*r), "val" => i(*v) })),
        }
    }).collect();
    obj! {
        "kind" => s("train"), "tr" => i(tr), "size" => s(size), "n" => i(env.target.len()),
        "niter" => i(c.niterations), "bias" => i(env.bias as i64), "inits" => i(inits), "early" => i(early),
        "minex" => i(c.min_examples_leaf.min(1_000_000_000)), "depth" => i(c.max_tree_depth),
        "bagging" => b(c.example_fraction < 1.0),
        "iters" => J::A(iters),
        "ap" => ints(&obj.predictions().iter().map(|&x| as_int(x)).collect::<Vec<_>>()),
        "mp" => ints(&model.predict(&data).iter().map(|&x| as_int(x)).collect::<Vec<_>>()),
    }
}

fn real(tr: u64, r: &mut Rng, mut env: Env) -> J {
    let n = env.target.len();
    let o = r.pick(&["l2", "l1", "huber", "binary", "hinge"]);
    env.config.objective = o.into();
    env.config.learning_rate = r.pick(&[1.0, 0.5, 0.1, 0.3]);
    env.config.niterations = r.range(1, 6) as usize;
    if o == "hinge" { env.config.discr_nbits = 2; }
    if o == "binary" || o == "hinge" {
        for t in env.target.iter_mut() { *t = r.below(2) as f32; }
        env.target[0] = 0.0; env.target[n - 1] = 1.0;
    } else {
        let f = r.below(env.cols.len() as u64) as usize;
        for k in 0..n { env.target[k] = env.cols[f].vals[k] + r.pick(&[0.0, 0.0, 0.5, 0.123, -3.7]); }
    }
    let data = mk_data(&env.config, &env.cols, &env.target);
    let mut obj = objective_from_name(o).unwrap();
    let metrics = Vec::new();
    let model = Booster::new(&env.config, &data, obj.as_mut(), &metrics).train();
    let mp = model.predict(&data);
    let u = largest(&[&env.target, &mp, obj.predictions()]);
    obj! {
        "kind" => s("real"), "tr" => i(tr), "size" => s(o), "n" => i(n), "niter" => i(env.config.niterations),
        "ap" => in_units(obj.predictions(), u), "mp" => in_units(&mp, u),
    }
}

/// Many rows and several samples of them; only how often every row is updated, and whether the predictions agree.
fn bulk(tr: u64, r: &mut Rng) -> J {
    let n = many_rows(r);
    let mut env = gen_n(r, "big", n);
    let c = &mut env.config;
    c.example_fraction = r.pick(&[1.0, 0.25, 0.5, 0.9, 0.97]);
    c.sample_freq = r.pick(&[1, 1, 2]);
    c.niterations = r.range(1, 3) as usize;
    c.min_examples_leaf = r.pick(&[1, 1, 1, 20, 20, 33000]);
    c.min_gain = 1e-6;
    c.max_tree_depth = r.range(1, 8) as usize;
    c.compression_threshold = r.pick(&[0.0, 0.2, 0.5, 1.0]);
    let (lo, hi) = env.bounds;
    env.grads = (0..2).map(|_| {
        let f = r.below(env.cols.len() as u64) as usize;
        let cut = env.cols[f].vals[r.below(n as u64) as usize];
        (0..n).map(|k| if r.chance(1, 3) { r.range(lo as i64, hi as i64) as f32 } else if env.cols[f].vals[k] < cut { lo } else { hi }).collect()
    }).collect();
    let data = mk_data(&env.config, &env.cols, &env.target);
    let c = &env.config;
    let differ = |ap: &[f32], mp: &[f32]| -> J { let u = largest(&[ap, mp]); ints(&(0..n).filter(|&k| !((ap[k] - mp[k]).abs() <= 1e-5 * u)).take(20).collect::<Vec<_>>()) };
    let mut obj = Synth::new(env.bias, env.grads.clone(), env.bounds);
    let model = Booster::new(c, &data, &mut obj, &Vec::new()).train();
    let diff = differ(obj.predictions(), &model.predict(&data));
    let mut groups: Vec<Vec<Ev>> = Vec::new();
    for e in &obj.log { match e { Ev::Init => {}, Ev::Update => groups.push(Vec::new()), e => groups.last_mut().unwrap().push(e.clone()) } }
    let mut want = vec![env.bias; n];
    let iters: Vec<J> = groups.iter().map(|g| {
        let (leaves, oob) = leaves_oob(g);
        let mut times = vec![0usize; n];
        for (rows, v) in &leaves { for &k in rows { times[k] += 1; want[k] += *v as f32; } }
        let bag = times.iter().filter(|&&t| t > 0).count();
        for &(k, v) in &oob { times[k] += 1; want[k] += v as f32; }
        obj! { "leaves" => arr(leaves.iter().map(|x| i(x.0.len()))), "oob" => i(oob.len()), "bag" => i(bag),
               "odd" => ints(&(0..n).filter(|&k| times[k] != 1).take(20).collect::<Vec<_>>()) }
    }).collect();
    let sum = differ(&want, &model.predict(&data));
    // an objective of the crate
    let mut real = objective_from_name(r.pick(&["l2", "l1", "huber", "binary"])).unwrap();
    let binary = real.name() == "Binary";
    let f = r.below(env.cols.len() as u64) as usize;
    let cut = env.cols[f].vals[r.below(n as u64) as usize];
    let mut target: Vec<f32> = (0..n).map(|k| { let x = env.cols[f].vals[k]; if binary { (x < cut) as i32 as f32 } else { x + (k % 3) as f32 } }).collect();
    target[0] = 0.0; target[n - 1] = 1.0;
    let data = mk_data(c, &env.cols, &target);
    let model = Booster::new(c, &data, real.as_mut(), &Vec::new()).train();
    let rdiff = differ(real.predictions(), &model.predict(&data));
    obj! { "kind" => s("bulk"), "tr" => i(tr), "size" => s(real.name()), "n" => i(n), "niter" => i(c.niterations), "depth" => i(c.max_tree_depth), "minex" => i(c.min_examples_leaf.min(1_000_000_000)),
           "efn" => i((c.example_fraction * 100.0).round() as i64), "efd" => i(100),
           "iters" => J::A(iters), "differ" => diff, "sum" => sum, "rdiffer" => rdiff }
}

/// Two features whose splits at the root have gains that almost agree.
fn duel(r: &mut Rng) -> Env {
    let mut env = gen(r, "small");
    let c = &mut env.config;
    c.discr_nbits = r.pick(&[4, 8]);
    let n = if c.discr_nbits == 8 { r.range(60, 125) } else { r.range(60, 400) } as usize;
    let maxval = (1i64 << c.discr_nbits) - 1;
    c.example_fraction = 1.0; c.feature_fraction = 1.0; c.sample_freq = 1; c.niterations = 1;
    c.max_nbins = 4; c.min_examples_leaf = 1; c.min_gain = 1e-6; c.max_tree_depth = r.range(1, 3) as usize;
    let a: Vec<f32> = (0..n).map(|k| if k < 2 { k as f32 } else { r.below(2) as f32 }).collect();
    let lo = r.range(-maxval, 0);
    let width = r.pick(&[1, 2, 4]);
    let mut g: Vec<i64> = a.iter().map(|&x| {
        let up = r.range(0, maxval / width);
        if x == 0.0 { lo + up } else { lo + maxval - up }
    }).collect();
    let lam = c.reg_lambda as f64;
    let gain = |v: &[f32], g: &[i64]| -> f64 {
        let sc = |s: f64, k: f64| s * s / (k + lam);
        let (mut s, mut k, mut t) = (0.0, 0.0, 0.0);
        for j in 0..n { t += g[j] as f64; if v[j] == 0.0 { s += g[j] as f64; k += 1.0; } }
        sc(s, k) + sc(t - s, n as f64 - k) - sc(t, n as f64)
    };
    let mut b = a.clone();
    for _ in 0..r.range(2, 6) { let (j, k) = (r.below(n as u64) as usize, r.below(n as u64) as usize); b.swap(j, k); }
    for _ in 0..20000 { // change gradients until the gains are close
        let d = (gain(&b, &g) / gain(&a, &g) - 1.0).abs();
        if 0.00002 < d && d < 0.0009 { break; }
        let (j, by) = (r.below(n as u64) as usize, r.pick(&[-9, -3, -1, 1, 3, 9]));
        if g[j] + by < lo || g[j] + by > lo + maxval { continue; }
        g[j] += by;
        if (gain(&b, &g) / gain(&a, &g) - 1.0).abs() > d && d > 0.0 { g[j] -= by; }
    }
    let g: Vec<f32> = g.into_iter().map(|x| x as f32).collect();
    let noise: Vec<f32> = (0..n).map(|_| r.below(5) as f32).collect();
    let mut vals = vec![a, b, noise];
    for k in (1..3).rev() { vals.swap(k, r.below(k as u64 + 1) as usize); }
    env.cols = vals.into_iter().map(|vals| Col { cat: r.chance(1, 2), vals }).collect();
    c.categorical_features = (0..3).filter(|&f| env.cols[f].cat).collect();
    env.probe = env.cols.iter().map(|c| Col { cat: c.cat, vals: c.vals[0..10].to_vec() }).collect();
    env.target = vec![0.0; n];
    env.grads = vec![g];
    env.bounds = (lo as f32, (lo + maxval) as f32);
    env
}

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out);
    for tr in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, tr.wrapping_mul(7919).wrapping_add(a.mode.bytes().map(|b| b as u64).sum()));
        let size = match a.mode.as_str() {
            "train" | "real" => r.pick(&["small", "small", "small", "mid"]),
            "mixed" => r.pick(&["small", "small", "small", "mid"]),
            "small" | "duel" | "bulk" => "small", "huge" => "huge", "mid" => "mid", _ => "big",
        };
        let (mut env, cls) = if a.mode == "huge" { huge(&mut r) } else {
            let mut env = if a.mode == "duel" { duel(&mut r) } else { gen(&mut r, size) };
            let n = env.target.len();
            if a.mode == "train" && env.config.random_seed % 16 == 9 { env.config.niterations = 0; } // a model of just the bias
            (env, Classes::single(n))
        };
        let desc = format!("{} {} {:?}", a.mode, size, env.config);
        let res = guard(|| match a.mode.as_str() {
            "train" => train(tr, size, &env),
            "real" => real(tr, &mut r, env),
            "bulk" => bulk(tr, &mut r),
            _ => stepped(tr, size, &mut env, &cls),
        });
        match res {
            Ok(j) => out.emit(&j),
            Err(msg) => out.emit(&obj! { "kind" => s("panic"), "tr" => i(tr), "msg" => s(msg), "env" => s(desc) }),
        }
    }
}
