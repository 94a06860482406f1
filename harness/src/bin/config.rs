//! Settings (C10). Modes: record, parse.
use bbharness::*;
use bitboost::config::Config;

const NAMES: [&str; 23] = ["train", "test", "objective", "metrics", "metric_frequency", "csv_has_header", "csv_delimiter",
    "categorical_features", "niterations", "learning_rate", "reg_lambda", "min_examples_leaf", "min_gain", "huber_alpha", "max_nbins",
    "discr_nbits", "max_tree_depth", "compression_threshold", "binary_gradient_bound", "random_seed", "feature_fraction",
    "example_fraction", "sample_freq"];

fn show(c: &Config) -> J {
    let t = |n: &str, x: J| obj! { "name" => s(n), "v" => x };
    let d = |x: u64| codes(&x.to_string());
    arr(vec![
        t("train", codes(&c.train)), t("test", codes(&c.test)), t("objective", codes(&c.objective)),
        t("metrics", arr(c.metrics.iter().map(|x| codes(x)))), t("metric_frequency", d(c.metric_frequency as u64)),
        t("csv_has_header", codes(&c.csv_has_header.to_string())), t("csv_delimiter", d(c.csv_delimiter as u64)),
        t("categorical_features", arr(c.categorical_features.iter().map(|&x| d(x as u64)))), t("niterations", d(c.niterations as u64)),
        t("learning_rate", exact(c.learning_rate)), t("reg_lambda", exact(c.reg_lambda)), t("min_examples_leaf", d(c.min_examples_leaf as u64)),
        t("min_gain", exact(c.min_gain)), t("huber_alpha", exact(c.huber_alpha)), t("max_nbins", d(c.max_nbins as u64)),
        t("discr_nbits", d(c.discr_nbits as u64)), t("max_tree_depth", d(c.max_tree_depth as u64)),
        t("compression_threshold", exact(c.compression_threshold)), t("binary_gradient_bound", exact(c.binary_gradient_bound)),
        t("random_seed", d(c.random_seed)), t("feature_fraction", exact(c.feature_fraction)), t("example_fraction", exact(c.example_fraction)),
        t("sample_freq", d(c.sample_freq as u64)),
    ])
}

/// names that are no fields, too; the field as text is "?" for those
fn name(r: &mut Rng) -> String {
    let n = r.pick(&NAMES).to_string();
    match r.below(18) {
        0 => r.pick(&["", "nope", "seed", "niteration", "train_file", "min_gain_", "#objective", "learning rate"]).to_string(),
        1 => n.to_uppercase(),
        2 => n[..n.len() - 1].to_string(),
        3 => match r.below(7) {
            0 => n.replace('_', "-"), 1 => format!("--{}", n), 2 => n.replace('_', " "), 3 => format!("\"{}\"", n),
            4 => format!("config.{}", n), 5 => n.replace('_', ""), _ => format!("{}s", n),
        },
        _ => n,
    }
}
fn field(n: &str) -> &str { if NAMES.contains(&n) { n } else { "?" } }

fn value(r: &mut Rng, n: &str) -> String {
    let any = r.chance(1, 6);
    let kind = if any { r.below(6) } else {
        match n {
            "train" | "test" | "objective" => 0,
            "metrics" => 1,
            "csv_has_header" => 2,
            "categorical_features" => 4,
            "learning_rate" | "reg_lambda" | "min_gain" | "huber_alpha" | "compression_threshold" | "binary_gradient_bound" | "feature_fraction" | "example_fraction" => 5,
            _ => 3,
        }
    };
    match kind {
        0 => r.pick(&["", "L2", "huber", "a b", "/tmp/x=y.csv", "Binary", "data.csv", "a,b", "é", "=", "x=", "1", "\"a b\"", "\"\"", "'q'", "a#b", "# c", "a;b", "a-b", "C:\\x\\n", "$HOME", "a\tb", "~/x"]).to_string(),
        1 => (0..r.range(0, 4)).map(|_| r.pick(&["l2", "rmse", " binary_loss", "x y ", "", "l2=", "BinaryError\t"])).collect::<Vec<_>>().join(","),
        2 => r.pick(&["true", "false", "true", "false", "True", "1", "0", "", "yes", "FALSE", "true1"]).to_string(),
        3 => match r.below(10) {
            0 => r.pick(&["", "-1", "+3", "1.0", "1e3", "x", "0x10", "1 0", "--1", "+", "3u8", "٣"]).to_string(),
            1 => r.pick(&["255", "256", "300", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0000000000000000000000007"]).to_string(),
            2 => format!("{}{}", r.pick(&["+", "0", "00", "+0"]), r.below(300)),
            _ => r.below(260).to_string(),
        },
        4 => (0..r.range(0, 5)).map(|_| if r.chance(1, 10) { r.pick(&["", "x", "-1", "1.5", "99999999999999999999999"]).to_string() }
            else { format!("{}{}{}", r.pick(&["", " ", "  "]), r.below(40), r.pick(&["", "", " ", "\t"])) }).collect::<Vec<_>>().join(","),
        _ => match r.below(8) {
            0 => r.pick(&["", "-", "+", ".", "e", "1e", "1.2.3", "x", "0.5f", "1,5", "1e+", "e5", ".e1", "0x1", "1_0", "infin", "in f"]).to_string(),
            1 if r.chance(1, 2) => r.pick(&["65535", "65536", "70000", "123456.789", "16777217", "2147483648", "4294967296", "1.00000005960464477539063", "0.00000005960464477539063", "1e-9", "3e-7", "1.5e-40", "340282356779733661637539395458142568447", "340282356779733661637539395458142568448", "0.1000000014901161193847656250000001", "8388609.5", "-8388608.5"]).to_string(),
            1 => r.pick(&["inf", "-inf", "nan", "NaN", "Infinity", "+inf", "1e30", "-1e30", "1e-30", "1e38", "99999e5"]).to_string(),
            2 => format!("{}{}.{}", r.pick(&["", "-", "+"]), r.below(500), r.below(1000)),
            3 => format!("{}.{}", r.below(3), r.below(100000)),
            4 => format!("{}{}{}", r.below(9), r.pick(&["e-", "e", "E+", "e-0", ".5e-", "E"]), r.below(3)),
            5 => r.pick(&[".5", "5.", "-.25", "+1", "00.5", "-0", "0.0000001", "1e-6", "0.000002", "1e-7", "12e-7", "0.95"]).to_string(),
            _ => format!("{}", r.below(200) as f32 / 64.0),
        },
    }
}

fn records(r: &mut Rng) -> J {
    let mut c = Config::new();
    let initial = show(&c);
    let mut ops = vec![];
    for _ in 0..r.range(1, 10) {
        let n = name(r);
        let v = value(r, &n);
        let v = if r.chance(1, 15) { format!(" {}", v) } else { v };
        let res = c.parse_record(&n, &v);
        ops.push(obj! { "field" => s(field(&n)), "name" => codes(&n), "value" => codes(&v), "ok" => b(res.is_ok()),
                        "err" => codes(&res.err().unwrap_or_default()), "shown" => show(&c) });
    }
    obj! { "kind" => s("record"), "initial" => initial, "ops" => J::A(ops) }
}

fn blanks(r: &mut Rng) -> &'static str { r.pick(&["", "", "", " ", "  ", "\t", " \t", "\n"]) }

fn lines(r: &mut Rng) -> J {
    let mut text = vec![];
    for _ in 0..r.range(0, 7) {
        let mut n = name(r);
        while field(&n) == "?" && r.chance(3, 4) { n = name(r); }
        let mut v = value(r, &n);
        // mostly valid lines
        for _ in 0..4 { if Config::new().parse_record(&n, v.trim()).is_err() { v = value(r, &n); } }
        let l = format!("{}{}{}={}{}{}", blanks(r), n, blanks(r), blanks(r), v, blanks(r));
        let l = if r.chance(1, 40) { r.pick(&["", "   ", "niterations", "niterations 5", "objective: L2", "#"]).to_string() } else { l };
        text.push(l);
    }
    let js = arr(text.iter().map(|l| {
        let n = l.splitn(2, '=').next().unwrap_or("").trim();
        obj! { "text" => codes(l), "field" => s(field(n)), "fcodes" => codes(n) }
    }));
    match Config::parse(text.iter().map(|x| x.as_str())) {
        Ok(c) => obj! { "kind" => s("parse"), "lines" => js, "ok" => b(true), "err" => J::A(vec![]), "shown" => show(&c) },
        Err(e) => obj! { "kind" => s("parse"), "lines" => js, "ok" => b(false), "err" => codes(&e), "shown" => J::A(vec![]) },
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out);
    for t in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, t * 41 + a.mode.len() as u64);
        let mode = a.mode.clone();
        let res = guard(move || if mode == "record" { records(&mut r) } else { lines(&mut r) });
        let mut j = match res { Ok(j) => j, Err(m) => obj! { "kind" => s("panic"), "msg" => s(m) } };
        j.push("tr", i(t));
        out.emit(&j);
    }
}
