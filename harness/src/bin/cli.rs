//! Runs the command line tool on invocations generated from Cli.tla (C20). BB_CLI: the tool.
use bbharness::native::brief_keys;
use bbharness::*;
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::metrics_from_names;
use bitboost::objective::objective_from_name;
use std::process::Command;

/// five digits and an exponent
fn sci(x: f64) -> J {
    if !x.is_finite() { return arr(vec![i(-1), i(999)]); }
    let t = format!("{:.4e}", x);
    let (m, e) = t.split_once('e').unwrap();
    arr(vec![J::I(m.replace('.', "").parse().unwrap()), J::I(e.parse().unwrap())])
}
fn number(t: &str) -> J { sci(t.trim().parse::<f64>().unwrap_or(f64::NAN)) }

fn write(r: &mut Rng, path: &str, kind: &str, n: usize, header: bool, delim: char, binary: bool, big: f32, test: bool) {
    let _ = std::fs::remove_file(path);
    let _ = std::fs::remove_dir(path);
    if kind == "folder" { std::fs::create_dir(path).unwrap(); return; }
    if kind == "missing" || kind == "none" { return; }
    let mut t = String::new();
    if header { t.push_str(&["a", "b", "c", "y"].join(&delim.to_string())); t.push('\n'); }
    if kind == "empty" { if r.chance(1, 2) { t.clear(); } std::fs::write(path, t).unwrap(); return; }
    let bad = r.below(n as u64) as usize;
    for k in 0..n {
        let (mut a, mut b, mut c) = (r.range(-20, 20) as f32 / 4.0, r.below(3), r.below(30));
        if test { match r.below(6) { 0 => a *= 100.0, 1 => b = r.range(2, 6) as u64, 2 => c = r.range(25, 90) as u64, _ => {} } } // not in the training file
        let y = if binary { ((k % 2 == 0) ^ r.chance(1, 5)) as u8 as f32 } else { a + b as f32 + r.range(-4, 4) as f32 / 4.0 };
        let y = if binary && k < 2 { k as f32 } else { y };
        let y = if binary { y } else { y * big };
        let mut cells = vec![a.to_string(), b.to_string(), c.to_string(), y.to_string()];
        if k == bad && kind == "ragged" { if k == 0 && !header && n < 2 { cells.push("1".into()); } else if r.chance(1, 2) { cells.push("1".into()); } else { cells.pop(); } }
        if k == bad && kind == "text" { let j = r.below(4) as usize; cells[j] = "x".into(); }
        t.push_str(&cells.join(&delim.to_string()));
        t.push('\n');
    }
    let mut v = t.into_bytes();
    if kind == "binary" { let at = v.iter().rposition(|&x| x.is_ascii_digit()).unwrap(); v[at] = 0xff; }
    std::fs::write(path, v).unwrap();
}

fn library(args: &[String], sub: &str, niter: usize) -> Result<J, String> {
    guard(|| {
        let mut config = Config::parse(args.iter().map(|x| x.as_str())).unwrap();
        let train = Data::from_csv_path(&config, &config.train).unwrap();
        let test = if config.test.is_empty() { None } else { Some(Data::from_csv_path(&config, &config.test).unwrap()) };
        let ms = metrics_from_names(&config.metrics).unwrap();
        // the model, and the predictions training itself ended with
        let model = |config: &Config| {
            let mut o = objective_from_name(&config.objective).unwrap();
            let m = Booster::new(config, &train, o.as_mut(), &[]).train();
            let p = o.predictions().to_vec();
            (m, p)
        };
        let mut progress = vec![];
        let n = config.niterations;
        assert_eq!(n, niter);
        for k in 1..=n {
            config.niterations = k;
            let p = if sub == "tree" { vec![] } else { model(&config).1 };
            progress.push(arr(ms.iter().map(|m| if p.is_empty() { sci(0.0) } else { sci(m.eval(train.get_target(), &p) as f64) })));
        }
        config.niterations = if sub == "tree" { 1 } else { n };
        let m = model(&config).0;
        let p = m.predict(&train);
        let q = test.as_ref().map(|t| m.predict(t)).unwrap_or_default();
        obj! { "ok" => b(true), "train" => brief_keys(&p), "test" => brief_keys(&q),
               "mtrain" => arr(ms.iter().map(|m| sci(m.eval(train.get_target(), &p) as f64))),
               "mtest" => arr(ms.iter().map(|m| match &test { Some(t) => sci(m.eval(t.get_target(), &q) as f64), None => sci(0.0) })),
               "mprogress" => arr(progress) }
    })
}

fn run(g: &J, r: &mut Rng, scratch: &str, cli: &str) -> J {
    let texts: Vec<String> = g.get("texts").list().iter().map(|x| x.str().to_string()).collect();
    let ext = r.pick(&[".csv", ".csv", "", ".data", " 1=2.csv"]);
    let (tr, te) = (format!("{}/train{}", scratch, ext), format!("{}/test{}", scratch, ext));
    let (header, delim, binary) = (g.get("header").bool(), g.get("delimiter").str().chars().next().unwrap(), g.get("binary").bool());
    let n = match r.below(200) { 0 => r.range(65537, 70000), 1..=3 => r.range(1000, 6000), _ => r.range(8, 60) } as usize;
    let big = if r.chance(1, 8) { r.pick(&[1e-5f32, 1e-3, 1e4, 1e7]) } else { 1.0 };
    write(r, &tr, g.get("train").str(), n, header, delim, binary, big, false);
    let m = match r.below(200) { 0 => r.range(65537, 70000), 1..=3 => r.range(1000, 6000), _ => r.range(1, 20) } as usize;
    write(r, &te, g.get("test").str(), m, header, delim, binary, big, true);
    // the same file for both
    let same = g.get("train").str() == "good" && g.get("test").str() == "good" && r.chance(1, 20);
    let te = if same { tr.clone() } else { te };
    let mut args: Vec<String> = vec!["niterations=3".into()];
    args.extend(texts);
    let at = r.below(args.len() as u64 + 1) as usize;
    if g.get("train").str() != "none" { args.insert(at, format!("train={}", tr)); }
    if g.get("test").str() != "none" { args.push(format!("test={}", te)); }
    let sub = g.get("sub").str();
    let mut c = Command::new(cli);
    if !sub.is_empty() { c.arg(sub); c.args(&args); }
    c.current_dir(scratch).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
    let o = c.output().expect("the tool");
    let (stdout, stderr) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
    let mut predictions = vec![];
    let mut metrics = vec![];
    let mut progress = vec![];
    let mut it = 0;
    for l in stdout.lines() {
        for (mark, set) in [("__PREDICTIONS_TRAIN__", "train"), ("__PREDICTIONS_TEST__", "test")] {
            if let Some(x) = l.strip_prefix(mark) {
                predictions.push(obj! { "set" => s(set), "v" => brief_keys(&x.trim().split(',').map(|y| y.trim().parse().unwrap_or(f32::NAN)).collect::<Vec<f32>>()) });
            }
        }
        if l.contains("timings:") { it += 1; }
        if let Some(x) = l.strip_prefix("[   ] eval ") {
            let w: Vec<&str> = x.split_whitespace().map(|y| y.trim_end_matches(',')).collect();
            if w.len() == 2 { progress.push(obj! { "it" => i(it), "name" => s(w[0]), "x" => number(w[1]) }); }
            else {
                let v = w[1..].chunks(2).map(|y| obj! { "set" => s(y[0]), "x" => number(y.get(1).unwrap_or(&"?")) });
                metrics.push(obj! { "name" => s(w[0]), "v" => arr(v) });
            }
        }
    }
    let lib = if o.status.success() { library(&args, sub, g.get("iterations").int() as usize) } else { Err("".into()) };
    obj! { "kind" => s("cli"), "inv" => g.clone(), "exit" => i(o.status.code().unwrap_or(-9)), "error" => b(!stderr.trim().is_empty()), "stderr" => s(stderr.chars().take(300).collect::<String>()),
           "predictions" => J::A(predictions), "metrics" => J::A(metrics), "progress" => J::A(progress),
           "lib" => match lib { Ok(j) => j, Err(m) => obj! { "ok" => b(false), "msg" => s(m) } } }
}

fn main() {
    quiet_panics();
    let a = args();
    let scratch = std::env::var("BB_SCRATCH").unwrap_or("/tmp/bb_scratch".into());
    std::fs::create_dir_all(&scratch).unwrap();
    let cli = std::env::var("BB_CLI").expect("BB_CLI");
    let gen = behaviours(&a.gen);
    let mut out = Out::new(&a.out);
    for t in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, t * 47 + a.mode.len() as u64 + 2);
        let k = r.below(gen.len() as u64) as usize;
        let (g, sc, cl) = (gen[k].clone(), scratch.clone(), cli.clone());
        let res = guard(move || run(&g, &mut r, &sc, &cl));
        let mut j = match res { Ok(j) => j, Err(m) => obj! { "kind" => s("panic"), "msg" => s(m) } };
        j.push("tr", i(t));
        out.emit(&j);
    }
}
