//! The predictions of the library for a term of CApi.tla.
use crate::*;
use bitboost::boost::Booster;
use bitboost::metric::metrics_from_names;
use bitboost::objective::objective_from_name;
use bitboost::tree::AdditiveTree;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

thread_local! { static LAST: RefCell<Option<(String, Rc<AdditiveTree>)>> = RefCell::new(None); }

/// content of the columns in CApi.tla
pub fn column(id: i64, n: usize) -> Vec<f32> {
    (0..n).map(|j| { let j = j as i64; match id {
        0 => 0.0,
        1 => ((j * 7 + 3) % 11) as f32,
        2 => ((j * 5) % 9) as f32 / 2.0 - 1.0,
        3 => (j % 2) as f32 * 3.5 - 1.0,
        4 => (j * j % 13) as f32 * 0.25,
        5 => (j * 3 % 4) as f32,
        6 => (j * 2 % 7) as f32,
        7 => 2.0,
        8 => (j % 5) as f32 + 0.5,
        10 => if j % 3 == 1 { f32::NAN } else { j as f32 },
        _ => (j % 3) as f32 - 1.0,
    } }).collect()
}

/// A behaviour of the specification on small data stands for many: the content of columns does not depend on the number of rows,
/// and columns of zeros do not matter. rows: how often there are as many; cols: feature f stands for feature f * cols, those between are zeros.
#[derive(Clone, Copy)]
pub struct Scale { pub rows: usize, pub cols: i64 }
impl Scale {
    pub fn one() -> Scale { Scale { rows: 1, cols: 1 } }
    pub fn n(&self, n: i64) -> i64 { if n > 1 { n * self.rows as i64 } else { n } }
}
/// Of long lists, the length, a hash, and some elements.
pub fn brief_keys(v: &[f32]) -> J {
    if v.len() <= 300 { return keys(v); }
    let mut h = 14695981039346656037u64;
    for &x in v { h = (h ^ key(x) as u64).wrapping_mul(1099511628211); h ^= h >> 29; }
    let mut o = vec![v.len() as i64, (h >> 40) as i64, (h & 0xffffff) as i64];
    o.extend((0..20).map(|k| key(v[k * (v.len() - 1) / 19])));
    ints(&o)
}

/// settings: number -> name and value
pub fn native(term: &J, settings: &BTreeMap<i64, (String, String)>, sc: Scale) -> Result<Vec<f32>, String> {
    guard(|| {
        let mut config = Config::new();
        for k in term.get("cfg").list() { let (n, v) = &settings[&k.int()]; config.parse_record(n, v).unwrap(); }
        let load = |d: &J| {
            let (n, cols) = (sc.n(d.get("n").int()) as usize, d.get("cols").list());
            let mut data = Data::empty(&config, (cols.len() - 1) * sc.cols as usize, n);
            for (f, c) in cols.iter().enumerate() {
                if c.get("id").int() > 0 { data.set_feature_data(f * sc.cols as usize, &column(c.get("id").int(), n), c.get("cat").bool()).unwrap(); }
            }
            // columns of zeros that have been set as such
            for (f, c) in cols.iter().enumerate() {
                if c.get("id").int() == 0 && c.get("cat").bool() { data.set_feature_data(f * sc.cols as usize, &column(0, n), true).unwrap(); }
            }
            data
        };
        // several predictions with the same model
        let id = format!("{} {} {} {}", term.get("cfg").text(), term.get("train").text(), sc.rows, sc.cols);
        let known = LAST.with(|l| l.borrow().as_ref().filter(|x| x.0 == id).map(|x| x.1.clone()));
        let model = known.unwrap_or_else(|| {
            let train = load(term.get("train"));
            let mut objective = objective_from_name(&config.objective).unwrap();
            let metrics = metrics_from_names(&config.metrics).unwrap();
            let model = Rc::new(Booster::new(&config, &train, objective.as_mut(), &metrics).train());
            LAST.with(|l| *l.borrow_mut() = Some((id, model.clone())));
            model
        });
        model.predict(&load(term.get("data")))
    })
}
