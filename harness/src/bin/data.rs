//! Loading of data (C09). Modes: csv, rows, cols, mem.
use bbharness::gen::*;
use bbharness::*;
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};

fn show(d: &Data) -> J { show_kinds(d, &Classes::single(d.nexamples()), false) }
/// of rows of the same kind, one
fn show_kinds(d: &Data, cls: &Classes, deep: bool) -> J {
    let len = |n: usize| n == cls.of.len();
    if !len(d.nexamples()) || !len(d.get_target().len()) || (0..=d.nfeatures()).any(|f| !len(d.get_feature(f).len())) { cls.note("rows"); }
    let per = |v: &[f32]| if len(v.len()) { cls.each("values", &v.iter().map(|x| x.to_bits()).collect::<Vec<u32>>()).into_iter().map(f32::from_bits).collect() } else { vec![] };
    let cols = (0..=d.nfeatures()).map(|f| {
        let (lo, hi) = d.feat_limits(f);
        obj! { "name" => codes(d.feat_name(f)), "lo" => J::I(key(lo)), "hi" => J::I(key(hi)), "card" => i(d.feat_card(f)),
               "type" => s(match d.feat_type(f) { FeatType::LoCardCat => "low", FeatType::HiCardCat => "high", FeatType::Numerical => "num" }),
               "vals" => arr(per(d.get_feature(f)).iter().map(|&x| val(x, deep))) }
    });
    let cols = arr(cols);
    let _ = per(d.get_target());
    let cols_mixed = cls.mixed.borrow().iter().map(|x| s(*x)).collect::<Vec<_>>();
    obj! { "nfeatures" => i(d.nfeatures()), "nexamples" => i(d.nexamples()), "target" => i(d.target_id()), "cols" => cols, "targets" => keys(&per(d.get_target())), "mixed" => arr(cols_mixed) }
}
fn val(x: f32, deep: bool) -> J {
    let mut j = obj! { "v" => real(x), "k" => J::I(key(x)) };
    if deep { j.push("near", near(x)); }
    j
}
/// next to the middle of two floats
fn hard(r: &mut Rng) -> String {
    let e = r.pick(&[1.0f32, 1.0, 1.0, 1e6, 1e8, 1e-4, 1e30, 1e-38, 1e-44, 0.0]);
    let x = (r.range(1, 2000000) as f32 / 1000.0) * e;
    let mut t = exactly(middle(if x.is_finite() { x } else { 1.0 }));
    let whole = !t.contains('.');
    match r.below(4) {
        0 => {},
        1 => { if whole { t.push('.'); } for _ in 0..r.below(20) { t.push('0'); } t.push('1'); }
        2 => if whole { let k = t.parse::<f64>().unwrap(); if k < 9e15 { t = format!("{}.999999999999999999", k - 1.0); } }
             else { let l = t.pop().unwrap() as u8 - 1; t.push(l as char); t.push_str("99999999999"); },
        _ => { t = format!("{:e}", x as f64 * 1.00000003); }
    }
    if r.chance(1, 2) { t.insert(0, '-'); }
    t
}

fn number(r: &mut Rng) -> String {
    match r.below(12) {
        0 if r.chance(1, 2) => hard(r),
        0 => format!("{}{}", r.pick(&["+", "-", "0", "-0"]), r.below(40)),
        1 => format!("{}e{}", r.range(-20, 20), r.pick(&["0", "1", "-1", "+1", "-3", "02"])),
        2 => r.pick(&[".5", "5.", "-.5", "0.1", "-0", "0.30000001", "1E2", "123456789", "1e9", "-1e20", "16777217", "3.4e38", "1e-20"]).to_string(),
        3 | 4 => format!("{}.{}", r.range(-30, 30), r.below(1000)),
        5 => format!("{}", r.range(-64, 64) as f32 / 64.0),
        _ => format!("{}", r.range(-9, 9)),
    }
}
fn category(r: &mut Rng, card: i64, bad: bool) -> String {
    if bad && r.chance(1, 12) { return r.pick(&["-1", "0.5", "1.5", "inf", "-2", "nan", "1e-3", "5000000000", "1e12", "-inf"]).to_string(); }
    let c = r.range(0, card - 1);
    // far away: as integers only, the limits of smaller integers included
    if r.chance(1, 40) { return r.pick(&["254", "255", "256", "257", "32767", "32768", "65534", "65535", "65536", "65537", "70000", "131072", "1000000", "16777215", "16777216", "100000000"]).to_string(); }
    match r.below(12) {
        0 => format!("{}.0", c), 1 => format!("+{}", c), 2 => format!("0{}", c), 3 => format!("{}.", c), 4 => format!("{}e0", c),
        _ => c.to_string(),
    }
}

fn quote(r: &mut Rng, x: &str, delim: char) -> String {
    if x.contains(delim) || x.contains('"') || x.contains('\n') || x.contains('\r') || x.is_empty() && r.chance(1, 2) || r.chance(1, 12) {
        format!("\"{}\"", x.replace('"', "\"\""))
    } else { x.to_string() }
}

/// size: small; rows: many rows of few kinds; cols: many columns
fn csv(r: &mut Rng, scratch: &str, size: &str) -> J {
    let ncols = if size == "cols" { r.pick(&[64, 255, 256, 257, 400]) } else { r.range(1, 6) } as usize;
    let n = if size == "cols" { r.range(1, 3) } else if size == "rows" { r.range(1, 6) } else if r.chance(1, 20) { 0 } else if r.chance(1, 8) { r.range(20, 60) } else { r.range(1, 8) } as usize;
    let has_header = r.chance(1, 2);
    let delim = r.pick(&[b',', b',', b';', b'\t', b'|', b' ']);
    let max_nbins = r.pick(&[1usize, 2, 3, 5, 8, 16]);
    let mut cats: Vec<usize> = (0..ncols).filter(|_| r.chance(1, 3)).collect();
    if r.chance(1, 6) { cats.push(ncols + r.below(3) as usize); }
    if r.chance(1, 8) && !cats.is_empty() { let c = cats[0]; cats.push(c); }
    let cards: Vec<i64> = (0..ncols).map(|_| r.pick(&[1, 2, 3, max_nbins as i64, max_nbins as i64 + 1, 30])).collect();
    let bad = r.chance(1, 4);
    let mut rows: Vec<Vec<String>> = (0..n).map(|_| (0..ncols).map(|c| if cats.contains(&c) { category(r, cards[c], bad) } else { number(r) }).collect()).collect();
    let mut header: Vec<String> = (0..ncols).map(|_| r.pick(&["a", "name", "x,y", "sé", "q\"q", "", "a b", " z ", "1.5", "l;m", "tab\tbed", "#a", "#", "%", "//", "a=b", "-1", "'x'", "\"", "1e3", "nan", "日本", "?", "@rel"]).to_string()).collect();
    if ncols == 1 && header[0].is_empty() { header[0] = "t".into(); }
    if n > 0 && r.chance(1, if size == "small" { 6 } else { 3 }) { // something is wrong
        let k = r.below(n as u64) as usize;
        match r.below(4) {
            0 => { rows[k].push(number(r)); },
            1 if ncols > 1 => { rows[k].pop(); },
            2 if has_header => { header.push("more".into()); },
            _ => { let c = r.below(ncols as u64) as usize;
                   rows[k][c] = r.pick(&["", "x", "1.5.2", " 1", "1 ", "--1", "1,2", "0x3", "e", "1e", "?", "1;2", "NA", "\"", "1\n"]).to_string(); },
        }
    }
    let cls = if size != "rows" { Classes::single(n) } else {
        let total = many_rows(r);
        let last = if r.chance(1, 2) { n - 1 } else { n }; // a kind with one row
        let at = r.below(total as u64 - 10) as usize + 10;
        Classes::new((0..total).map(|i| if i < n { i } else if last < n && last > 0 { if i == at { last } else { i % last } } else { i % n }).collect(), n)
    };
    // text
    let eol = r.pick(&["\n", "\n", "\r\n"]);
    let mut text = String::new();
    let mut line = |r: &mut Rng, cells: &Vec<String>| {
        let cs: Vec<String> = cells.iter().map(|x| quote(r, x, delim as char)).collect();
        let mut l = cs.join(&(delim as char).to_string());
        if l.is_empty() { l = "\"\"".into(); }
        l
    };
    if has_header { text.push_str(&line(r, &header)); text.push_str(eol); }
    let total = cls.of.len();
    for (k, &of) in cls.of.iter().enumerate() {
        text.push_str(&line(r, &rows[of]));
        if k + 1 < total || r.chance(3, 4) { text.push_str(eol); }
        if r.chance(1, 10) && k + 1 < total { text.push_str(eol); }
    }
    if !text.is_empty() && text.ends_with('\n') && r.chance(1, 5) { text.push_str(eol); }
    let mut bytes = text.into_bytes();

    let mut config = Config::new();
    config.csv_has_header = has_header;
    config.csv_delimiter = delim;
    config.categorical_features = cats.clone();
    config.max_nbins = max_nbins;
    let mut readable = true;
    let res = match r.below(4) {
        0 => Data::from_csv_reader(&config, &bytes[..]),
        1 => {
            let p = format!("{}/data.csv", scratch);
            if r.chance(1, 8) { readable = false; let _ = std::fs::remove_file(&p); }
            else if r.chance(1, 8) { readable = false; bytes.push(0xff); bytes.push(0xfe); std::fs::write(&p, &bytes).unwrap(); }
            else { std::fs::write(&p, &bytes).unwrap(); }
            Data::from_csv_path(&config, &p)
        },
        _ => Data::from_csv(&config, std::str::from_utf8(&bytes).unwrap()),
    };
    let table = arr(rows.iter().map(|x| arr(x.iter().map(|c| codes(c)))));
    obj! { "kind" => s("csv"), "has_header" => b(has_header), "header" => arr(header.iter().map(|x| codes(x))), "rows" => table, "n" => i(total), "cats" => ints(&cats),
           "max_nbins" => i(max_nbins), "readable" => b(readable), "ok" => b(res.is_ok()),
           "got" => match &res { Ok(d) => show_kinds(d, &cls, true), Err(_) => J::A(vec![]) }, "err" => s(res.err().unwrap_or_default()) }
}

fn mem(r: &mut Rng) -> J {
    let wide = r.chance(1, 60);
    let nf = if wide { r.pick(&[64, 65, 255, 256, 257]) } else { r.range(1, 4) } as usize;
    let n = r.range(1, if wide { 3 } else { 9 }) as usize;
    let max_nbins = r.pick(&[1usize, 2, 3, 5, 16]);
    let mut config = Config::new();
    config.max_nbins = max_nbins;
    let mut d = Data::empty(&config, nf, n);
    let initial = show(&d);
    let mut ops = vec![];
    for _ in 0..r.range(1, 10) {
        let f = if wide && r.chance(1, 2) { nf - r.below(3) as usize } else { r.below(nf as u64 + 1) as usize };
        let cat = r.chance(1, 2);
        let card = r.pick(&[1, 2, 3, max_nbins as i64, max_nbins as i64 + 1, 20]);
        let (constant, bad) = (r.chance(1, 5), r.chance(1, 2));
        let mut texts: Vec<String> = (0..n).map(|_| if cat && !r.chance(1, 60) || r.chance(1, 3) { category(r, card, bad && cat) } else if cat { format!("{}", r.range(-64, 64) as f32 / 64.0) } else { number(r) }).collect();
        if constant { let x = texts[0].clone(); texts = vec![x; n]; }
        let vals: Vec<f32> = texts.iter().map(|x| x.parse().unwrap()).collect();
        let ok = d.set_feature_data(f, &vals, cat).is_ok();
        ops.push(obj! { "f" => i(f), "cat" => b(cat), "texts" => arr(texts.iter().map(|x| codes(x))), "vals" => arr(vals.iter().map(|&x| val(x, false))), "ok" => b(ok), "got" => show(&d) });
    }
    obj! { "kind" => s("mem"), "nfeatures" => i(nf), "n" => i(n), "max_nbins" => i(max_nbins), "initial" => initial, "ops" => J::A(ops) }
}

fn main() {
    quiet_panics();
    let a = args();
    let scratch = std::env::var("BB_SCRATCH").unwrap_or("/tmp/bb_scratch".into());
    std::fs::create_dir_all(&scratch).unwrap();
    let mut out = Out::new(&a.out);
    for t in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, t * 43 + a.mode.len() as u64);
        let (mode, sc) = (a.mode.clone(), scratch.clone());
        let res = guard(move || if mode == "csv" { csv(&mut r, &sc, "small") } else if mode == "rows" || mode == "cols" { csv(&mut r, &sc, &mode) } else { mem(&mut r) });
        let mut j = match res { Ok(j) => j, Err(m) => obj! { "kind" => s("panic"), "msg" => s(m) } };
        j.push("tr", i(t));
        out.emit(&j);
    }
}
