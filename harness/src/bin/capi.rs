//! Replays behaviours of CApi.tla through the C interface (C11).
use bbharness::*;
use bbharness::native::*;
use bitboost::c_api::*;
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::raw::c_void;

struct Runner { ctx: BTreeMap<i64, (*mut c_void, usize)>, n: BTreeMap<i64, usize>, sc: Scale }
impl Runner {
    fn new(sc: Scale) -> Runner { Runner { ctx: BTreeMap::new(), n: BTreeMap::new(), sc } }
    /// -> return value, predictions, buffer untouched
    fn call(&mut self, o: &J) -> (i64, Vec<f32>, bool) {
        let c = if o.has("c") { o.get("c").int() } else { 0 };
        let p = self.ctx.get(&c).map(|x| x.0).unwrap_or(std::ptr::null_mut());
        let none = (vec![], true);
        match o.get("op").str() {
            "alloc" => {
                let nf = o.get("nf").int() * self.sc.cols;
                let p = bb_alloc(nf as i32);
                if p.is_null() { return (-1, none.0, none.1); }
                self.ctx.insert(c, (p, nf as usize));
                self.n.remove(&c);
                (0, none.0, none.1)
            },
            "dealloc" => { self.ctx.remove(&c); (bb_dealloc(p) as i64, none.0, none.1) },
            "config" => {
                let (k, v) = (CString::new(o.get("name").str()).unwrap(), CString::new(o.get("value").str()).unwrap());
                (bb_set_config_field(p, k.as_ptr(), v.as_ptr()) as i64, none.0, none.1)
            },
            "refresh" => {
                let n = self.sc.n(o.get("n").int());
                let r = bb_refresh_data(p, n as i32);
                if r == 0 { self.n.insert(c, n as usize); }
                (r as i64, none.0, none.1)
            },
            "set" => {
                let v = column(o.get("id").int(), *self.n.get(&c).unwrap_or(&64).max(&64));
                (bb_set_feature_data(p, (o.get("f").int() * self.sc.cols) as i32, v.as_ptr(), o.get("cat").bool() as i32) as i64, none.0, none.1)
            },
            "train" => (bb_train(p) as i64, none.0, none.1),
            "predict" => {
                let n = *self.n.get(&c).unwrap_or(&0);
                let mut buf = vec![77.25f32; n + 8];
                let r = bb_predict(p, buf.as_mut_ptr()) as i64;
                let tail = buf.split_off(n);
                let ok = tail.iter().all(|&x| x == 77.25);
                let untouched = buf.iter().all(|&x| x == 77.25);
                (if ok { r } else { 2 }, if r == 0 { buf } else { vec![] }, untouched)
            },
            _ => {
                let z = std::ptr::null_mut();
                let (k, v) = (CString::new("niterations").unwrap(), CString::new("5").unwrap());
                let mut buf = vec![0.0f32; 64];
                let r = match o.get("f").str() {
                    "dealloc" => bb_dealloc(z),
                    "refresh" => bb_refresh_data(z, 4),
                    "set" => bb_set_feature_data(z, 0, buf.as_ptr(), 0),
                    "config" => bb_set_config_field(z, k.as_ptr(), v.as_ptr()),
                    "train" => bb_train(z),
                    _ => bb_predict(z, buf.as_mut_ptr()),
                };
                (r as i64, none.0, buf.iter().all(|&x| x == 0.0))
            },
        }
    }
    fn finish(&mut self) { for (_, x) in &self.ctx { bb_dealloc(x.0); } self.ctx.clear(); }
}

fn replay(ops: &J, parallel: bool, sc: Scale) -> J {
    let mut settings = BTreeMap::new();
    for o in ops.list() { if o.get("op").str() == "config" { settings.insert(o.get("k").int(), (o.get("name").str().to_string(), o.get("value").str().to_string())); } }
    let mut run = Runner::new(sc);
    let mut res = vec![];
    let mut log = vec![];
    for o in ops.list() {
        let (ret, preds, untouched) = run.call(o);
        let mut j = o.clone();
        j.push("ret", i(ret));
        if o.get("op").str() == "predict" {
            let nat = if let J::O(_) = o.get("term") { native(o.get("term"), &settings, sc) } else { Ok(vec![]) };
            j.push("preds", brief_keys(&preds));
            j.push("untouched", b(untouched));
            j.push("nativeerr", s(nat.as_ref().err().cloned().unwrap_or_default()));
            let nat = nat.unwrap_or_default();
            let rows = if nat.len() > 1 && nat.len() % sc.rows == 0 { nat.len() / sc.rows } else { nat.len() };
            j.push("nativerows", i(rows));
            j.push("native", brief_keys(&nat));
        }
        log.push((ret, preds));
        res.push(j);
    }
    run.finish();
    // the calls of each context in a thread of its own
    let mut same = true;
    if parallel {
        let text: Vec<(usize, String)> = ops.list().iter().enumerate().map(|(k, o)| (k, o.text())).collect();
        let mut by: BTreeMap<i64, Vec<(usize, String)>> = BTreeMap::new();
        for (k, o) in ops.list().iter().enumerate() { let c = if o.has("c") { o.get("c").int() } else { 0 }; by.entry(c).or_default().push(text[k].clone()); }
        let hs: Vec<_> = by.into_iter().map(|(_, v)| std::thread::spawn(move || {
            let mut run = Runner::new(sc);
            let out: Vec<(usize, i64, Vec<f32>)> = v.iter().map(|(k, t)| { let (r, p, _) = run.call(&J::parse(t)); (*k, r, p) }).collect();
            run.finish();
            out
        })).collect();
        for h in hs {
            match h.join() {
                Ok(v) => for (k, r, p) in v { if log[k].0 != r || log[k].1.iter().map(|x| x.to_bits()).ne(p.iter().map(|x| x.to_bits())) { same = false; } },
                Err(_) => same = false,
            }
        }
    }
    obj! { "kind" => s("capi"), "ops" => J::A(res), "nbytes" => i(bb_get_numt_nbytes()), "parallel" => b(same) }
}

fn main() {
    quiet_panics();
    let a = args();
    let gen = behaviours(&a.gen);
    let mut out = Out::new(&a.out);
    for (t, g) in gen.iter().enumerate() {
        // a few with many rows or many columns
        let sc = match t % 100 { 1 => Scale { rows: 1640, cols: 1 }, 2 => Scale { rows: 50, cols: 7 }, 3 => Scale { rows: 10, cols: 130 }, 4 => Scale { rows: 1, cols: 300 }, _ => Scale::one() };
        let res = guard(|| replay(g, t % 4 == 0, sc));
        let mut j = match res { Ok(j) => j, Err(m) => obj! { "kind" => s("panic"), "msg" => s(m) } };
        j.push("tr", i(t));
        out.emit(&j);
    }
}
