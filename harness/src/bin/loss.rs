//! Calls of the objectives (C14) and metrics (C15). Modes: obj, huge, metric, hugemetric, names.
use bbharness::gen::*;
use bbharness::*;
use bitboost::config::Config;
use bitboost::metric::{metric_for_objective, metric_from_name, metrics_from_names, Metric};
use bitboost::objective::{objective_from_name, Objective};

/// fixed point; what does not fit is a value no specification expects
fn fx(x: f32) -> J { let y = (x as f64 * 65536.0).round(); J::I(if y.is_finite() && y.abs() < 2.0e9 { y as i64 } else { 2000000011 }) }
fn fxs(v: &[f32]) -> J { arr(v.iter().map(|&x| fx(x))) }
/// A unit for targets and predictions. A power of two: everything that is proportional to them is so exactly.
fn unit(r: &mut Rng, far: bool) -> f32 { if r.chance(2, 3) { 1.0 } else { 2.0f32.powi(if far { r.pick(&[-100, -60, -30, -20, -10, 10, 30, 60, 100]) } else { r.pick(&[-40, -20, -10, 10, 30]) }) } }
fn scaled(v: &[f32], by: f32) -> Vec<f32> { v.iter().map(|x| x * by).collect() }

fn regression(r: &mut Rng, n: usize) -> Vec<f32> {
    let off = r.range(-20, 20) as f32;
    match r.below(7) {
        0 => vec![off; n],
        1 => (0..n).map(|_| r.range(0, 1) as f32).collect(),
        2 => (0..n).map(|_| off + r.range(-3, 3) as f32).collect(),
        3 => { let mut v: Vec<f32> = (0..n).map(|_| off + r.range(-16, 16) as f32 / 16.0).collect(); v[0] = 60.0; v },
        4 => (0..n).map(|_| r.range(1, 600) as f32 / 16.0).collect(),
        _ => (0..n).map(|_| r.range(-600, 600) as f32 / 16.0).collect(),
    }
}

fn obj(r: &mut Rng) -> J {
    let name = r.pick(&["L2", "L1", "Huber", "Binary", "Hinge"]);
    let mut ob = objective_from_name(name).unwrap();
    let n = match r.below(4) { 0 => r.range(1, 3), 1 => r.range(2, 8), _ => r.range(4, 40) } as usize;
    let long = r.chance(1, 15);
    let n = if long { r.range(41, 300) as usize } else { n };
    let bin = name == "Binary" || name == "Hinge";
    let n = if bin { n.max(2) } else { n };
    let targets: Vec<f32> = if bin {
        let k = r.range(1, n as i64 - 1) as usize;
        let mut v: Vec<f32> = (0..n).map(|i| if i < k { 1.0 } else { 0.0 }).collect();
        if name == "Hinge" && r.chance(1, 6) { v = vec![r.pick(&[0.0, 1.0]); n]; }
        for i in (1..n).rev() { let j = r.below(i as u64 + 1) as usize; v.swap(i, j); }
        v
    } else if long { (0..n).map(|_| r.range(-64, 64) as f32 / 16.0).collect() } else { regression(r, n) };
    let u = if bin { 1.0 } else { unit(r, true) };
    let targets = scaled(&targets, u);
    let fx = |x: f32| fx(x / u);
    let fg = |x: f32| if name == "L1" { self::fx(x) } else { fx(x) };
    let fxs = |v: &[f32]| fxs(&scaled(v, 1.0 / u));
    let (num, den) = r.pick(&[(1i64, 1i64), (1, 2), (1, 4), (1, 10), (3, 10)]);
    let (num, den) = if name != "Hinge" && name != "Binary" && r.chance(1, 6) { r.pick(&[(3i64, 2i64), (2, 1)]) } else { (num, den) };
    let pct = r.pick(&[50i64, 25, 75, 90, 95, 99, 10]);
    let bgb = r.pick(&[1.25f32, 1.0, 2.0, 0.5]);
    let mut config = Config::new();
    config.learning_rate = num as f32 / den as f32;
    config.huber_alpha = pct as f32 / 100.0;
    config.binary_gradient_bound = bgb;
    config.discr_nbits = if name == "Hinge" { 2 } else { r.pick(&[1, 2, 4, 8]) };
    let mut calls = vec![];
    // an objective can be used again, with other data
    if r.chance(1, 4) {
        let m = r.range(2, 9) as usize;
        let other: Vec<f32> = (0..m).map(|i| (i % 2) as f32).collect();
        ob.initialize(&config, &other);
        ob.update(&other);
        ob.predict_leaf_value(&other, &[0, 1]);
    }
    ob.initialize(&config, &targets);
    calls.push(obj! { "op" => s("init"), "bias" => fx(ob.bias()), "preds" => fxs(ob.predictions()), "same" => b(ob.name() == name) });
    'iters: for _ in 0..r.range(1, 4) {
        ob.update(&targets);
        let (lo, hi) = ob.bounds();
        calls.push(obj! { "op" => s("update"), "lo" => fg(lo), "hi" => fg(hi), "grads" => arr(ob.gradients().iter().map(|&g| fg(g))), "preds" => fxs(ob.predictions()) });
        // leaves of random sizes, the remaining rows are out of bag
        let mut rows: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { let j = r.below(i as u64 + 1) as usize; rows.swap(i, j); }
        while !rows.is_empty() {
            if r.chance(1, 5) {
                let k = rows.pop().unwrap();
                let v = r.range(-40, 40) as f32 / 16.0 * u;
                ob.update_out_of_bag_prediction(k, v);
                calls.push(obj! { "op" => s("oob"), "i" => i(k), "v" => fx(v), "preds" => fxs(ob.predictions()) });
            } else {
                let c = r.range(1, rows.len() as i64) as usize;
                let mut ex = rows.split_off(rows.len() - c);
                ex.sort();
                let v = ob.predict_leaf_value(&targets, &ex);
                // too large a value of Binary (whose gradients are all saturated) to tell in fixed point
                if name == "Binary" && v.abs() > 100.0 { break 'iters; }
                calls.push(obj! { "op" => s("leaf"), "ex" => ints(&ex), "v" => fx(v), "preds" => fxs(ob.predictions()) });
            }
            if ob.predictions().iter().any(|p| p.abs() > 150.0 * u) {
                // large leaf values: do not go on
                break 'iters;
            }
        }
    }
    obj! { "kind" => s("obj"), "name" => s(name), "w" => ints::<i64>(&[]), "mixed" => arr(vec![]), "targets" => fxs(&targets), "num" => i(num), "den" => i(den), "pct" => i(pct), "bgb" => self::fx(bgb), "calls" => J::A(calls) }
}

/// Many rows, of few kinds: what is recorded is per kind.
fn huge(r: &mut Rng) -> J {
    let name = r.pick(&["L2", "L1", "Huber", "Binary", "Hinge"]);
    let mut ob = objective_from_name(name).unwrap();
    let n = many_rows(r);
    let k = r.range(2, 10) as usize;
    let bin = name == "Binary" || name == "Hinge";
    // hardly any rows of one of the classes
    let rare = bin && r.chance(1, 3);
    let common = r.below(2) as usize;
    let cls = if rare { let more = r.below(20) as usize; Classes::new((0..n).map(|i| if i < k { i } else if i < k + more { 1 - common } else { common }).collect(), k) } else { kinds_of_rows(r, n, k) };
    let of_kind: Vec<f32> = if rare { (0..k).map(|j| if j == common { j } else { 1 - common } as f32).collect() } else if bin { (0..k).map(|j| if j < 2 { j as f32 } else { r.below(2) as f32 }).collect() } else { regression(r, k) };
    let u = if bin { 1.0 } else { unit(r, true) };
    let of_kind = scaled(&of_kind, u);
    let fx = |x: f32| fx(x / u);
    let fg = |x: f32| if name == "L1" { self::fx(x) } else { fx(x) };
    let fxs = |v: &[f32]| fxs(&scaled(v, 1.0 / u));
    let targets: Vec<f32> = cls.of.iter().map(|&j| of_kind[j]).collect();
    let (num, den) = r.pick(&[(1i64, 1i64), (1, 2), (1, 4), (1, 10)]);
    let (num, den) = if name != "Hinge" && name != "Binary" && r.chance(1, 6) { r.pick(&[(3i64, 2i64), (2, 1)]) } else { (num, den) };
    let pct = r.pick(&[50i64, 25, 75, 90, 95, 10]);
    let mut config = Config::new();
    config.learning_rate = num as f32 / den as f32;
    config.huber_alpha = pct as f32 / 100.0;
    config.discr_nbits = if name == "Hinge" { 2 } else { 4 };
    let mut calls = vec![];
    let per = |what, v: &[f32]| fxs(&cls.each(what, v));
    ob.initialize(&config, &targets);
    calls.push(obj! { "op" => s("init"), "bias" => fx(ob.bias()), "preds" => per("preds", ob.predictions()), "same" => b(ob.name() == name) });
    'iters: for _ in 0..r.range(1, 3) {
        ob.update(&targets);
        let (lo, hi) = ob.bounds();
        calls.push(obj! { "op" => s("update"), "lo" => fg(lo), "hi" => fg(hi), "grads" => arr(cls.each("grads", ob.gradients()).iter().map(|&g| fg(g))), "preds" => per("preds", ob.predictions()) });
        let mut order: Vec<usize> = (0..k).collect();
        for i in (1..k).rev() { let j = r.below(i as u64 + 1) as usize; order.swap(i, j); }
        while !order.is_empty() {
            let oob = r.chance(1, 6);
            let c = if oob { 1 } else { r.range(1, order.len() as i64) as usize };
            let ex = order.split_off(order.len() - c);
            let rows = (0..n).filter(|&i| ex.contains(&cls.of[i]));
            if oob {
                let v = r.range(-40, 40) as f32 / 16.0 * u;
                for i in rows { ob.update_out_of_bag_prediction(i, v); }
                calls.push(obj! { "op" => s("oob"), "i" => i(ex[0]), "v" => fx(v), "preds" => per("preds", ob.predictions()) });
            } else {
                let rows: Vec<usize> = rows.collect();
                let v = ob.predict_leaf_value(&targets, &rows);
                // too large a value of Binary (whose gradients are all saturated) to tell in fixed point
                if name == "Binary" && v.abs() > 100.0 { break 'iters; }
                calls.push(obj! { "op" => s("leaf"), "ex" => ints(&ex), "v" => fx(v), "preds" => per("preds", ob.predictions()) });
            }
            if ob.predictions().iter().any(|p| p.abs() > 150.0 * u) { break 'iters; }
        }
    }
    let mixed = arr(cls.mixed.borrow().iter().map(|x| s(*x)));
    obj! { "kind" => s("obj"), "name" => s(name), "w" => ints(&cls.w), "mixed" => mixed, "targets" => fxs(&of_kind), "num" => i(num), "den" => i(den), "pct" => i(pct), "bgb" => self::fx(config.binary_gradient_bound), "calls" => J::A(calls) }
}

fn hugemetric(r: &mut Rng) -> J {
    let n = many_rows(r);
    let k = r.range(2, 10) as usize;
    let cls = kinds_of_rows(r, n, k);
    let binary = r.chance(2, 3);
    let ts: Vec<f32> = if binary { (0..k).map(|_| r.below(2) as f32).collect() } else { (0..k).map(|_| r.range(-64, 64) as f32 / 16.0).collect() };
    let ps: Vec<f32> = (0..k).map(|j| match r.below(4) { 0 => r.pick(&[0.0, -0.0, 0.5, 1.0, -1.0]), 1 => ts[j], _ => r.range(-64, 64) as f32 / 16.0 }).collect();
    let u = if binary { 1.0 } else { unit(r, false) };
    let which: Vec<&str> = if binary { METRICS.to_vec() } else { vec!["L2", "Rmse"] };
    let all = |v: &[f32]| cls.of.iter().map(|&j| v[j]).collect::<Vec<f32>>();
    let values = which.iter().map(|m| obj! { "m" => s(*m), "x" => fx(metric_from_name(m).unwrap().eval(&scaled(&all(&ts), u), &scaled(&all(&ps), u)) / u / if *m == "L2" { u } else { 1.0 }) });
    obj! { "kind" => s("metric"), "values" => arr(values), "w" => ints(&cls.w), "targets" => fxs(&ts), "preds" => fxs(&ps) }
}

const METRICS: [&str; 5] = ["L2", "Rmse", "BinaryLoss", "BinaryError", "BinaryError01"];

fn metric(r: &mut Rng) -> J {
    let n = match r.below(4) { 0 => 1, 1 => r.range(2, 5), _ => r.range(4, 60) } as usize;
    let binary = r.chance(2, 3);
    let long = r.chance(1, 12);
    let n = if long { (if r.chance(1, 3) { r.range(1001, 4200) } else { r.range(61, 1000) }) as usize } else { n };
    let ts: Vec<f32> = if binary { (0..n).map(|_| r.below(2) as f32).collect() } else { regression(r, n) };
    let ts = if long && !binary { (0..n).map(|_| r.range(-16, 16) as f32 / 16.0).collect() } else { ts };
    let big = r.chance(1, 6) && !long;
    let ps: Vec<f32> = (0..n).map(|k| match r.below(5) {
        0 => r.pick(&[0.0, -0.0, 0.5, 1.0, -1.0, -0.0625, 0.4375]),
        1 => ts[k],
        2 => if long { ts[k] } else { r.range(-64, 64) as f32 / 16.0 },
        3 => if big { r.range(-100, 100) as f32 } else { r.range(-16, 16) as f32 / 16.0 },
        _ => ts[k] + r.range(-8, 8) as f32 / 16.0,
    }).collect();
    let u = if binary { 1.0 } else { unit(r, false) };
    let which: Vec<&str> = if binary { METRICS.to_vec() } else { vec!["L2", "Rmse"] };
    let values = which.iter().map(|m| obj! { "m" => s(*m), "x" => fx(metric_from_name(m).unwrap().eval(&scaled(&ts, u), &scaled(&ps, u)) / u / if *m == "L2" { u } else { 1.0 }) });
    obj! { "kind" => s("metric"), "values" => arr(values), "w" => ints::<i64>(&[]), "targets" => fxs(&ts), "preds" => fxs(&ps) }
}

fn casing(r: &mut Rng, x: &str) -> String { x.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }

fn names(r: &mut Rng) -> J {
    let pool = ["l2", "rmse", "binaryloss", "binary_loss", "binaryerror", "binary_error", "binaryerror01", "binary_error01"];
    let bad = ["", "l1", "mse", "binary", "binaryloss01", "binary_error1", "l22", "rms", " l2"];
    let asked: Vec<String> = (0..r.range(0, 5)).map(|_| { let x = if r.chance(1, 8) { r.pick(&bad) } else { r.pick(&pool) }; casing(r, x) }).collect();
    let got = match metrics_from_names(&asked) { None => arr(vec![s("none")]), Some(v) => arr(v.iter().map(|m| s(m.name()))) };
    let one = arr(asked.iter().map(|a| s(metric_from_name(a).map(|m: Box<dyn Metric>| m.name()).unwrap_or(""))));
    let objs = ["l2", "l1", "huber", "binary", "hinge", "", "l3", "logistic", "binaryloss"];
    let obj = arr((0..3).map(|_| {
        let low = r.pick(&objs);
        let a = casing(r, low);
        obj! { "asked" => s(a.clone()), "lower" => s(low), "got" => s(objective_from_name(&a).map(|o: Box<dyn Objective>| o.name()).unwrap_or("")),
               "metric" => s(metric_for_objective(&a).map(|m| m.name()).unwrap_or("")) }
    }));
    obj! { "kind" => s("names"), "asked" => arr(asked.iter().map(|a| s(a.clone()))), "lower" => arr(asked.iter().map(|a| s(a.to_lowercase()))), "got" => got, "one" => one, "obj" => obj }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out);
    for t in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, t * 31 + a.mode.bytes().map(|x| x as u64).sum::<u64>());
        let mode = a.mode.clone();
        let res = guard(move || match mode.as_str() {
            "obj" => obj(&mut r),
            "metric" => metric(&mut r),
            "huge" => huge(&mut r),
            "hugemetric" => hugemetric(&mut r),
            "names" => names(&mut r),
            m => { eprintln!("unknown mode {}", m); std::process::exit(2) },
        });
        let mut j = match res { Ok(j) => j, Err(m) => obj! { "kind" => s("panic"), "msg" => s(m) } };
        j.push("tr", i(t));
        out.emit(&j);
    }
}
