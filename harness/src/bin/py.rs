//! Replays behaviours of Py.tla with the Python classes, in a scratch copy of them (C22).
//! BB_LIB: libbitboost.so; BB_TABLE: the program that writes the table of settings; BB_PY: harness/py.
use bbharness::native::*;
use bbharness::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use std::process::{Command, Stdio};

const NAMES: [&str; 23] = ["train", "test", "objective", "metrics", "metric_frequency", "csv_has_header", "csv_delimiter",
    "categorical_features", "niterations", "learning_rate", "reg_lambda", "min_examples_leaf", "min_gain", "huber_alpha", "max_nbins",
    "discr_nbits", "max_tree_depth", "compression_threshold", "binary_gradient_bound", "random_seed", "feature_fraction",
    "example_fraction", "sample_freq"];

fn bytes(v: &[u8]) -> J { arr(v.iter().map(|&x| i(x))) }
fn cell(x: &str) -> J { codes(x) }

fn defaults() -> J {
    let c = bitboost::config::Config::new();
    let d = |x: u64| codes(&x.to_string());
    let v = vec![
        codes(&c.train), codes(&c.test), codes(&c.objective), arr(c.metrics.iter().map(|x| codes(x))), d(c.metric_frequency as u64),
        codes(&c.csv_has_header.to_string()), d(c.csv_delimiter as u64), arr(c.categorical_features.iter().map(|&x| d(x as u64))),
        d(c.niterations as u64), exact(c.learning_rate), exact(c.reg_lambda), d(c.min_examples_leaf as u64), exact(c.min_gain),
        exact(c.huber_alpha), d(c.max_nbins as u64), d(c.discr_nbits as u64), d(c.max_tree_depth as u64), exact(c.compression_threshold),
        exact(c.binary_gradient_bound), d(c.random_seed), exact(c.feature_fraction), exact(c.example_fraction), d(c.sample_freq as u64)];
    arr(v.into_iter().map(|x| obj! { "v" => x }))
}

fn table(written: &[u8], shipped: &[u8]) -> J {
    obj! { "kind" => s("table"), "tr" => i(0), "written" => bytes(written), "shipped" => bytes(shipped),
        "names" => arr(NAMES.iter().map(|n| obj! { "name" => s(*n), "codes" => codes(n) })),
        "header" => arr(["name", "default", "type", "description"].iter().map(|x| cell(x))),
        "clionly" => codes("cli only"), "defaults" => defaults() }
}

/// a few with many rows or columns
fn scale(t: usize) -> Scale { Scale { rows: match t % 500 { 1 => 1640, 2 | 102 | 202 | 302 => 100, _ => 1 }, cols: match t % 50 { 3 => 256, 13 => 257, 23 => 130, 33 => 7, _ => 1 } } }
/// the same operation on more rows and columns
fn scaled(o: &J, sc: Scale) -> J {
    let mut o = o.clone();
    o.push("cols", i(sc.cols));
    if let J::O(v) = &o { J::O(v.iter().map(|(k, x)| (k.clone(), if k == "n" || k == "m" { i(sc.n(x.int())) } else { x.clone() })).collect()) } else { o }
}

fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "2"); // many small trainings
    quiet_panics();
    let a = args();
    let env = |n: &str| std::env::var(n).unwrap_or_else(|_| panic!("{} is not set", n));
    let repo = std::env::var("BB_REPO").unwrap_or("/repo".into());
    let dir = env("BB_SCRATCH");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(format!("{}/bitboost", dir)).unwrap();
    for f in fs::read_dir(format!("{}/python/bitboost", repo)).unwrap() {
        let p = f.unwrap().path();
        if p.extension().map_or(false, |e| e == "py") { fs::copy(&p, Path::new(&dir).join("bitboost").join(p.file_name().unwrap())).unwrap(); }
    }
    fs::copy(env("BB_LIB"), format!("{}/bitboost/libbitboost.so", dir)).unwrap();
    let csv = format!("{}/bitboost/bitboost_config.gen.csv", dir);
    let ok = Command::new(env("BB_TABLE")).arg(&csv).stdout(Stdio::null()).status().unwrap().success();
    let written = if ok { fs::read(&csv).unwrap_or_default() } else { vec![] };
    let mut out = Out::new(&a.out);
    out.emit(&table(&written, &fs::read(format!("{}/python/bitboost_config.gen.csv", repo)).unwrap_or_default()));

    // the settings by number
    let gen = behaviours(&a.gen);
    let mut settings: BTreeMap<i64, (String, String)> = BTreeMap::new();
    let mut py: BTreeMap<i64, String> = BTreeMap::new();
    for (k, x) in gen[0].get("settings").list().iter().enumerate() {
        settings.insert(k as i64 + 1, (x.get("name").str().into(), x.get("value").str().into()));
        py.insert(k as i64 + 1, x.get("py").str().into());
    }
    let n = (gen.len() - 1).min(if a.count > 0 { a.count as usize } else { usize::MAX });
    let runs: Vec<Vec<J>> = gen[1..=n].iter().map(|g| g.list().iter().map(|o| {
        let mut o = o.clone();
        if o.has("ks") {
            let v = arr(o.get("ks").list().iter().map(|k| arr(vec![s(settings[&k.int()].0.as_str()), s(py[&k.int()].as_str())])));
            o.push("vals", v);
        }
        o
    }).collect()).collect();
    let (fi, fo) = (format!("{}/in", dir), format!("{}/out", dir));
    fs::write(&fi, runs.iter().enumerate().map(|(t, r)| arr(r.iter().map(|o| scaled(o, scale(t)))).text() + "\n").collect::<String>()).unwrap();
    let log = fs::File::create(format!("{}/log", dir)).unwrap();
    let st = Command::new("python3-vt").arg("-B").arg(format!("{}/drive.py", env("BB_PY"))).arg(&fi).arg(&fo)
        .env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", "2").env("PYTHONPATH", format!("{}:{}/stub", dir, env("BB_PY"))).stdin(Stdio::null())
        .stdout(Stdio::null()).stderr(log).status().unwrap();
    let res: Vec<J> = fs::read_to_string(&fo).unwrap_or_default().lines().map(J::parse).collect();
    for (t, r) in runs.iter().enumerate() {
        if t >= res.len() { break; }
        let ops = r.iter().zip(res[t].list()).map(|(o, x)| {
            let mut o = o.clone();
            let x = x.list();
            o.push("ok", x[0].clone());
            o.push("err", x[1].clone());
            if o.has("term") {
                let nat = native(o.get("term"), &settings, scale(t));
                let p: Vec<f32> = x[2].list().iter().map(|v| f32::from_bits(v.int() as u32)).collect();
                o.push("preds", brief_keys(&p));
                o.push("nativeerr", s(nat.as_ref().err().cloned().unwrap_or_default()));
                let nat = nat.unwrap_or_default();
                let rows = if nat.len() > 1 && nat.len() % scale(t).rows == 0 { nat.len() / scale(t).rows } else { nat.len() };
                o.push("nativerows", i(rows));
                o.push("native", brief_keys(&nat));
            }
            o
        });
        out.emit(&obj! { "kind" => s("py"), "tr" => i(t + 1), "ops" => arr(ops) });
    }
    if res.len() < runs.len() || !st.success() {
        let text = fs::read_to_string(format!("{}/log", dir)).unwrap_or_default();
        let tail: String = text.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
        out.emit(&obj! { "kind" => s("panic"), "tr" => i(res.len() + 1), "msg" => s(format!("python ends with {:?} after {} runs: {}", st.code(), res.len(), tail)) });
    }
    let _ = fs::remove_dir_all(&dir);
}
