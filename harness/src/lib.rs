//! Shared parts of the drivers: deterministic random numbers, JSON output, the projection of
//! the real objects onto the abstract state of the specification, and a recording objective.
pub mod gen;
pub mod native;

use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::objective::Objective;

// - random numbers -------------------------------------------------------------------------------

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, index: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ index.wrapping_mul(0xD1342543DE82EF95) ^ 0x5851F42D4C957F2D);
        for _ in 0..8 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 { // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
}

// - JSON -----------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum J { I(i64), B(bool), S(String), A(Vec<J>), O(Vec<(String, J)>), Raw(String) }

impl J {
    pub fn write(&self, s: &mut String) {
        match self {
            J::I(i) => { assert!(*i >= -2147483648 && *i <= 2147483647, "does not fit TLC: {}", i); s.push_str(&i.to_string()) },
            J::Raw(x) => s.push_str(x),
            J::B(b) => s.push_str(if *b { "true" } else { "false" }),
            J::S(x) => {
                s.push('"');
                for c in x.chars() {
                    match c {
                        '"' => s.push_str("\\\""), '\\' => s.push_str("\\\\"),
                        c if (c as u32) < 32 => s.push(' '),
                        c => s.push(c),
                    }
                }
                s.push('"');
            },
            J::A(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { s.push(','); } x.write(s); }
                s.push(']');
            },
            J::O(v) => {
                s.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { s.push(','); }
                    s.push('"'); s.push_str(k); s.push_str("\":"); x.write(s);
                }
                s.push('}');
            },
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
    pub fn push(&mut self, k: &str, v: J) { if let J::O(o) = self { o.push((k.to_string(), v)); } }
}

pub fn i<T: ToI>(x: T) -> J { J::I(x.to_i()) }
pub trait ToI { fn to_i(self) -> i64; }
macro_rules! toi { ($($t:ty),*) => { $( impl ToI for $t { fn to_i(self) -> i64 { self as i64 } } )* } }
toi!(i64, i32, u32, u64, usize, u8);
pub fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
pub fn b(x: bool) -> J { J::B(x) }
pub fn ints<T: ToI + Copy>(v: &[T]) -> J { J::A(v.iter().map(|&x| i(x)).collect()) }
pub fn arr<I: IntoIterator<Item = J>>(v: I) -> J { J::A(v.into_iter().collect()) }
#[macro_export]
macro_rules! obj { ($($k:expr => $v:expr),* $(,)?) => { $crate::J::O(vec![$(($k.to_string(), $v)),*]) } }

/// Order-preserving, injective image of a (finite) float in the 32-bit integers of TLC; -0 = 0.
/// NaN is mapped to 2^31-1, which is not the image of anything else.
pub fn key(x: f32) -> i64 {
    if x.is_nan() { return 2147483647; }
    if x == 0.0 { return 0; }
    let bits = x.to_bits();
    if bits >> 31 == 0 { bits as i64 } else { -((bits & 0x7fffffff) as i64) }
}
pub fn keys(v: &[f32]) -> J { J::A(v.iter().map(|&x| J::I(key(x))).collect()) }

/// A float that should be a small integer, or a value that is far from every expected one.
pub fn as_int(x: f32) -> i64 { if x.fract() == 0.0 && x.abs() < 1e9 { x as i64 } else { 2000000011 } }

// - JSON input: what TLC writes -------------------------------------------------------------------

impl J {
    pub fn parse(text: &str) -> J {
        let c: Vec<char> = text.chars().collect();
        let mut p = 0;
        let j = Self::value(&c, &mut p);
        j
    }
    fn skip(c: &[char], p: &mut usize) { while *p < c.len() && c[*p].is_whitespace() { *p += 1; } }
    fn value(c: &[char], p: &mut usize) -> J {
        Self::skip(c, p);
        match c[*p] {
            '{' => {
                let mut o = vec![];
                *p += 1;
                loop {
                    Self::skip(c, p);
                    if c[*p] == '}' { *p += 1; break; }
                    if c[*p] == ',' { *p += 1; continue; }
                    let k = if let J::S(k) = Self::value(c, p) { k } else { panic!("key") };
                    Self::skip(c, p);
                    assert_eq!(c[*p], ':'); *p += 1;
                    o.push((k, Self::value(c, p)));
                }
                J::O(o)
            },
            '[' => {
                let mut o = vec![];
                *p += 1;
                loop {
                    Self::skip(c, p);
                    if c[*p] == ']' { *p += 1; break; }
                    if c[*p] == ',' { *p += 1; continue; }
                    o.push(Self::value(c, p));
                }
                J::A(o)
            },
            '"' => {
                let mut x = String::new();
                *p += 1;
                while c[*p] != '"' { if c[*p] == '\\' { *p += 1; } x.push(c[*p]); *p += 1; }
                *p += 1;
                J::S(x)
            },
            't' => { *p += 4; J::B(true) },
            'f' => { *p += 5; J::B(false) },
            _ => {
                let st = *p;
                while *p < c.len() && (c[*p] == '-' || c[*p].is_ascii_digit()) { *p += 1; }
                J::I(c[st..*p].iter().collect::<String>().parse().unwrap())
            },
        }
    }
    pub fn get(&self, k: &str) -> &J { if let J::O(o) = self { &o.iter().find(|x| x.0 == k).unwrap_or_else(|| panic!("no {}", k)).1 } else { panic!("not an object") } }
    pub fn has(&self, k: &str) -> bool { if let J::O(o) = self { o.iter().any(|x| x.0 == k) } else { false } }
    pub fn int(&self) -> i64 { if let J::I(i) = self { *i } else { panic!("not a number") } }
    pub fn str(&self) -> &str { if let J::S(x) = self { x } else { panic!("not a string") } }
    pub fn bool(&self) -> bool { if let J::B(x) = self { *x } else { panic!("not a boolean") } }
    pub fn list(&self) -> &[J] { if let J::A(v) = self { v } else { panic!("not a list") } }
}
/// The behaviours generated by TLC, one per line.
pub fn behaviours(path: &str) -> Vec<J> {
    std::fs::read_to_string(path).expect("behaviours").lines().map(J::parse).collect()
}

// - trace output ---------------------------------------------------------------------------------

pub struct Out { w: BufWriter<File>, pub n: usize }
impl Out {
    pub fn new(path: &str) -> Out { Out { w: BufWriter::new(File::create(path).unwrap()), n: 0 } }
    pub fn emit(&mut self, j: &J) { self.n += 1; self.w.write_all(j.text().as_bytes()).unwrap(); self.w.write_all(b"\n").unwrap(); self.w.flush().unwrap(); }
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or("panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Run code under test; a panic in it is data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Args { pub out: String, pub seed: u64, pub mode: String, pub from: u64, pub count: u64, pub gen: String }
pub fn args() -> Args {
    let mut a = Args { out: "/dev/null".into(), seed: 1, mode: "".into(), from: 0, count: 10, gen: "".into() };
    for x in std::env::args().skip(1) {
        if let Some((k, v)) = x.split_once('=') {
            match k {
                "out" => a.out = v.into(), "gen" => a.gen = v.into(), "seed" => a.seed = v.parse().unwrap(), "mode" => a.mode = v.into(),
                "from" => a.from = v.parse().unwrap(), "count" => a.count = v.parse().unwrap(),
                _ => panic!("unknown argument {}", x),
            }
        }
    }
    a
}

// - datasets -------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Col { pub cat: bool, pub vals: Vec<f32> }

/// Columns -> Data, through the API used by the Python interface. The target is the last column.
pub fn mk_data(config: &Config, cols: &[Col], target: &[f32]) -> Data {
    let mut d = Data::empty(config, cols.len(), target.len());
    for (f, c) in cols.iter().enumerate() { d.set_feature_data(f, &c.vals, c.cat).unwrap(); }
    d.set_feature_data(cols.len(), target, false).unwrap();
    d
}

/// Columns -> CSV text (no header).
pub fn mk_csv(cols: &[Col], target: &[f32]) -> String {
    let mut t = String::new();
    for r in 0..target.len() {
        for c in cols { t.push_str(&format!("{},", c.vals[r])); }
        t.push_str(&format!("{}\n", target[r]));
    }
    t
}

// - recording objective --------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Ev { Init, Update, Leaf(Vec<usize>, f32), Oob(usize, f32) }

/// An objective whose gradients are prescribed and whose leaf values are distinct tags, so that
/// everything that the learner does can be read off exactly. It records every call it receives.
pub struct Synth {
    pub bias: f32,
    pub preds: Vec<f32>,
    pub grads: Vec<Vec<f32>>,
    pub bounds: (f32, f32),
    pub iter: usize,
    pub next_tag: i64,
    pub log: Vec<Ev>,
    /// in every so many iterations all leaf values are zero
    pub silent: usize,
    zero: Vec<f32>,
}
impl Synth {
    pub fn new(bias: f32, grads: Vec<Vec<f32>>, bounds: (f32, f32)) -> Synth {
        let n = grads[0].len();
        Synth { bias, preds: Vec::new(), grads, bounds, iter: 0, next_tag: 1, log: Vec::new(), silent: 0, zero: vec![0.0; n] }
    }
    fn tag(&mut self) -> f32 {
        let t = self.next_tag; self.next_tag += 1;
        if self.silent > 0 && self.iter % self.silent == 0 { return 0.0; }
        if t % 3 == 0 { -t as f32 } else { t as f32 }
    }
}
impl Objective for Synth {
    fn name(&self) -> &'static str { "synth" }
    fn gradients(&self) -> &[f32] { if self.iter == 0 { &self.zero } else { &self.grads[(self.iter - 1) % self.grads.len()] } }
    fn predictions(&self) -> &[f32] { &self.preds }
    fn bounds(&self) -> (f32, f32) { self.bounds }
    fn bias(&self) -> f32 { self.bias }
    fn initialize(&mut self, _: &Config, targets: &[f32]) {
        self.preds = vec![self.bias; targets.len()];
        self.log.push(Ev::Init);
    }
    fn update(&mut self, _: &[f32]) { self.iter += 1; self.log.push(Ev::Update); }
    fn predict_leaf_value(&mut self, _: &[f32], examples: &[usize]) -> f32 {
        let v = self.tag();
        for &e in examples { self.preds[e] += v; }
        self.log.push(Ev::Leaf(examples.to_vec(), v));
        v
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, value: f32) {
        self.preds[i] += value;
        self.log.push(Ev::Oob(i, value));
    }
}

// - text and real numbers, as in Text.tla ----------------------------------------------------------

pub fn codes(x: &str) -> J { arr(x.chars().map(|c| i(c as u32))) }
pub fn real(x: f32) -> J {
    let sign = i(if x < 0.0 { -1 } else { 1 });
    if x.is_nan() { return arr(vec![s("nan")]); }
    if x.is_infinite() { return arr(vec![s("inf"), sign]); }
    let m = (x as f64 * 1e6).round();
    if m.abs() > 2.0e9 { arr(vec![s("big"), sign]) } else { arr(vec![s("micro"), i(m as i64)]) }
}
/// the value in the middle of a float and the next larger one, or of the last float and what would be next
pub fn middle(x: f32) -> f64 {
    let next = f32::from_bits(x.to_bits() + 1);
    let next = if next.is_infinite() { 2f64.powi(128) } else { next as f64 };
    (x as f64 + next) / 2.0
}
/// all digits
pub fn exactly(x: f64) -> String {
    let t = format!("{:.160}", x);
    t.trim_end_matches('0').trim_end_matches('.').to_string()
}
pub fn near(x: f32) -> J {
    let (bits, neg) = (x.to_bits() & 0x7fffffff, x.to_bits() >> 31 == 1);
    let dec = |m: f64| {
        let t = exactly(m);
        let frac = t.find('.').map(|p| t.len() - p - 1).unwrap_or(0);
        let digits: String = t.chars().filter(|c| *c != '.').collect();
        let digits = digits.trim_start_matches('0');
        let short = digits.trim_end_matches('0');
        arr(vec![codes(short), J::I((digits.len() - short.len()) as i64 - frac as i64)])
    };
    let none = || J::A(vec![]);
    obj! { "lo" => if bits == 0 || x.is_nan() { none() } else { dec(middle(f32::from_bits(bits - 1))) },
           "hi" => if bits >= 0x7f800000 { none() } else { dec(middle(f32::from_bits(bits))) },
           "even" => b(bits % 2 == 0), "neg" => b(neg) }
}
/// with what is needed to say whether it is the float nearest to a decimal
pub fn exact(x: f32) -> J { obj! { "v" => real(x), "near" => near(x) } }
