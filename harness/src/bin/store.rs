//! Histories of the stores (C12). Modes: gen (replays behaviours of Store.tla), slice, hist, bits, huge.
use bbharness::*;
use bitboost::slice_store::{BitBlockStore, BitSliceLayout4, HistStore, SliceRange, SliceStore};
use std::collections::BTreeMap;

fn rng(r: SliceRange) -> J { arr(vec![i(r.0), i(r.1)]) }

struct Slices { st: SliceStore<u32>, live: BTreeMap<i64, SliceRange>, ops: Vec<J> }
impl Slices {
    fn new(cap: usize, align: usize) -> Slices {
        let st = if align == 0 { SliceStore::new(cap) } else { SliceStore::aligned(cap, align) };
        Slices { st, live: BTreeMap::new(), ops: vec![] }
    }
    fn log(&mut self, mut o: J) {
        let l = arr(self.live.iter().map(|(id, &r)| obj! { "id" => i(*id), "v" => ints(self.st.get_slice(r)) }));
        o.push("live", l);
        self.ops.push(o);
    }
    fn alloc(&mut self, id: i64, n: u32, v: u32) {
        let r = if v == 0 { self.st.alloc_slice_default(n) } else { self.st.alloc_slice(n, v) };
        self.live.insert(id, r);
        self.log(obj! { "op" => s("alloc"), "id" => i(id), "n" => i(n), "v" => i(v), "r" => rng(r) });
    }
    fn write(&mut self, id: i64, k: usize, v: u32) {
        let r = self.live[&id];
        self.st.get_slice_mut(r)[k] = v;
        self.log(obj! { "op" => s("write"), "w" => arr(vec![arr(vec![i(id), i(k), i(v)])]) });
    }
    fn write2(&mut self, a: (i64, usize, u32), b: (i64, usize, u32)) {
        let (ra, rb) = (self.live[&a.0], self.live[&b.0]);
        { let (x, y) = self.st.get_two_slices_mut(ra, rb); x[a.1] = a.2; y[b.1] = b.2;
          assert!(x.len() == (ra.1 - ra.0) as usize && y.len() == (rb.1 - rb.0) as usize, "lengths of two slices"); }
        self.log(obj! { "op" => s("write"), "w" => arr(vec![arr(vec![i(a.0), i(a.1), i(a.2)]), arr(vec![i(b.0), i(b.1), i(b.2)])]) });
    }
    fn free(&mut self, id: i64) {
        let r = self.live.remove(&id).unwrap();
        self.st.free_slice(r);
        self.log(obj! { "op" => s("free"), "id" => i(id) });
    }
    fn reset(&mut self) { self.st.reset(); self.live.clear(); self.log(obj! { "op" => s("reset") }); }
}

/// `scale` stretches the lengths of the behaviour
fn replay(g: &J, cap: usize, scale: u32, align: usize) -> J {
    let mut z = Slices::new(cap, align);
    for o in g.list() {
        match o.get("op").str() {
            "alloc" => z.alloc(o.get("id").int(), o.get("n").int() as u32 * scale, 0),
            "write" => z.write(o.get("id").int(), o.get("k").int() as usize * scale as usize, o.get("v").int() as u32),
            "free" => z.free(o.get("id").int()),
            _ => z.reset(),
        }
    }
    obj! { "kind" => s("store"), "cap" => i(cap), "align" => i(align), "ops" => J::A(z.ops) }
}

fn slices(r: &mut Rng) -> J {
    let cap = r.pick(&[1, 2, 5, 64]);
    let align = r.pick(&[0, 0, 4, 16, 64]);
    let maxlen = r.pick(&[3, 8, 40]);
    let mut z = Slices::new(cap, align);
    let mut next = 1;
    for t in 0..r.range(3, 60) {
        let ids: Vec<i64> = z.live.keys().cloned().collect();
        let v = 1000 + t as u32;
        let (z0, c) = (ids.len(), r.below(20));
        if z0 == 0 || (c < 7 && z0 < 12) { let n = r.range(1, maxlen) as u32; let v = r.pick(&[0, v]); z.alloc(next, n, v); next += 1; }
        else if c < 12 { let id = r.pick(&ids); let x = z.live[&id]; let k = r.below((x.1 - x.0) as u64) as usize; z.write(id, k, v); }
        else if c < 14 && z0 > 1 {
            let a = r.pick(&ids); let mut b = r.pick(&ids); while b == a { b = r.pick(&ids); }
            let (ra, rb) = (z.live[&a], z.live[&b]);
            let (ka, kb) = (r.below((ra.1 - ra.0) as u64) as usize, r.below((rb.1 - rb.0) as u64) as usize);
            z.write2((a, ka, v), (b, kb, v + 500));
        }
        else if c < 19 { let id = r.pick(&ids); z.free(id); }
        else if r.chance(1, 4) { z.reset(); }
    }
    obj! { "kind" => s("store"), "cap" => i(cap), "align" => i(align), "ops" => J::A(z.ops) }
}

fn hists(r: &mut Rng) -> J {
    let bins: Vec<u32> = (0..r.range(1, 5)).map(|_| r.range(0, 5) as u32).collect();
    let mut bins = bins;
    if bins.iter().sum::<u32>() == 0 { bins[0] = 1; }
    let big = r.chance(1, 8); // beyond the initial capacity of 8192
    if big { bins[0] += 1500; }
    let mut st: HistStore<f32> = HistStore::new(bins.iter().cloned());
    let mut live: BTreeMap<i64, SliceRange> = BTreeMap::new();
    let mut ops = vec![];
    let mut next = 1;
    let nf = bins.len();
    for t in 0..if big { 14 } else { r.range(3, 40) } {
        let ids: Vec<i64> = live.keys().cloned().collect();
        let c = r.below(20);
        let mut o;
        if ids.is_empty() || (c < 6 && ids.len() < 9) {
            let x = st.alloc_hists(); live.insert(next, x);
            o = obj! { "op" => s("alloc"), "id" => i(next), "r" => rng(x) }; next += 1;
        } else if c < 11 {
            let (id, f) = (r.pick(&ids), r.below(nf as u64) as usize);
            if bins[f] == 0 { continue; }
            let k = if r.chance(1, 2) { bins[f] as usize - 1 } else { r.below(bins[f] as u64) as usize };
            let v = t * 3 + 7;
            st.get_hist_mut(live[&id], f)[k] = v as f32;
            o = obj! { "op" => s("write"), "id" => i(id), "f" => i(f), "k" => i(k), "v" => i(v) };
        } else if c < 15 && ids.len() > 2 {
            let mut p = ids.clone();
            for k in 0..3 { let j = k + r.below((p.len() - k) as u64) as usize; p.swap(k, j); }
            st.hists_subtract(live[&p[0]], live[&p[1]], live[&p[2]]);
            o = obj! { "op" => s("subtract"), "p" => i(p[0]), "l" => i(p[1]), "d" => i(p[2]) };
        } else if c < 19 {
            let id = r.pick(&ids); st.free_hists(live.remove(&id).unwrap());
            o = obj! { "op" => s("free"), "id" => i(id) };
        } else if r.chance(1, 4) { st.reset(); live.clear(); o = obj! { "op" => s("reset") }; }
        else { continue }
        // big histograms: the record holds their last few bins only
        let cut = |h: &[f32]| -> Vec<i64> { let v: Vec<i64> = h.iter().map(|&x| as_int(x)).collect(); if v.len() > 1000 { v[v.len() - 3..].to_vec() } else { v } };
        o.push("live", arr(live.iter().map(|(id, &x)| obj! { "id" => i(*id), "h" => arr((0..nf).map(|f| ints(&cut(st.get_hist(x, f))))) })));
        ops.push(o);
    }
    obj! { "kind" => s("hist"), "bins" => ints(&bins), "ops" => J::A(ops) }
}

fn bits(r: &mut Rng) -> J {
    let cap = r.pick(&[1, 2, 8]);
    let mut st = BitBlockStore::new(cap);
    let mut live: BTreeMap<i64, SliceRange> = BTreeMap::new();
    let mut ops = vec![];
    let mut next = 1;
    for _ in 0..r.range(3, 30) {
        let ids: Vec<i64> = live.keys().cloned().collect();
        let c = r.below(20);
        let mut o;
        if ids.is_empty() || (c < 8 && ids.len() < 8) {
            let n = r.pick(&[1usize, 63, 64, 65, 192, 255, 256, 257, 300, 512, 700]);
            let how = r.below(6);
            let (x, name, init): (SliceRange, &str, Vec<usize>) = match how {
                0 => (st.alloc_zero_bits(n), "zero_bits", vec![]),
                1 => (st.alloc_one_bits(n), "one_bits", vec![]),
                2 => { let m = (n + 255) / 256; (st.alloc_one_blocks(m), "one_blocks", vec![]) },
                3 => { let k = (0..n).filter(|_| r.chance(1, 5)).collect::<Vec<_>>(); (st.alloc_from_bits_iter(n, (0..n).map(|j| k.contains(&j))), "bits_iter", k) },
                4 => { let w: Vec<u8> = (0..(n + 7) / 8).map(|_| r.below(256) as u8).collect();
                       let k = (0..w.len() * 8).filter(|&j| w[j / 8] >> (j % 8) & 1 == 1).collect();
                       (st.alloc_from_iter::<u8, _>(w.len(), w.iter().cloned()), "iter", k) },
                _ => (st.alloc_zero_bitslice::<BitSliceLayout4>(n), "bitslice", vec![]),
            };
            live.insert(next, x);
            o = obj! { "op" => s("alloc"), "id" => i(next), "n" => i(n), "how" => s(name), "init" => ints(&init), "r" => rng(x) };
            next += 1;
        } else if c < 14 {
            let id = r.pick(&ids);
            let x = live[&id];
            let k = r.below((x.1 - x.0) as u64 * 256) as usize;
            let on = r.chance(1, 2);
            st.get_bitvec_mut(x).set_bit(k, on);
            o = obj! { "op" => s("write"), "id" => i(id), "k" => i(k), "on" => b(on) };
        } else if c < 19 {
            let id = r.pick(&ids); st.free_blocks(live.remove(&id).unwrap());
            o = obj! { "op" => s("free"), "id" => i(id) };
        } else if r.chance(1, 4) { st.reset(); live.clear(); o = obj! { "op" => s("reset") }; }
        else { continue }
        // the contents of one of the live ranges, and a summary of all
        let mut look = vec![];
        for (id, &x) in live.iter() {
            let bv = st.get_bitvec(x);
            let ones: Vec<usize> = (0..bv.len() * 256).filter(|&k| bv.get_bit(k)).collect();
            look.push(obj! { "id" => i(*id), "size" => i(ones.len()), "sum" => i(ones.iter().sum::<usize>()), "len" => i(bv.len()) });
        }
        o.push("live", J::A(look));
        ops.push(o);
    }
    let fin = arr(live.iter().map(|(id, &x)| { let bv = st.get_bitvec(x); obj! { "id" => i(*id), "ones" => arr((0..bv.len() * 256).filter(|&k| bv.get_bit(k)).map(i)) } }));
    obj! { "kind" => s("bits"), "cap" => i(cap), "ops" => J::A(ops), "final" => fin }
}

/// Long ranges: contents are recorded as runs of equal numbers [from, how many, number].
fn runs_of(v: &[i64]) -> J {
    let mut out: Vec<J> = vec![];
    let mut k = 0;
    while k < v.len() {
        let e = (k..v.len()).find(|&j| v[j] != v[k]).unwrap_or(v.len());
        out.push(ints(&[k as i64, (e - k) as i64, v[k]]));
        k = e;
    }
    J::A(out)
}

enum Any { S(SliceStore<u32>), H(HistStore<f32>), B(BitBlockStore) }

fn huge(r: &mut Rng) -> J {
    let what = r.below(3);
    let lens = r.pick(&[&[1usize, 60, 70, 100, 129, 200, 201][..], &[1, 2, 3, 64, 128, 500, 1000, 1001], &[5, 300, 1000, 4096, 4097, 8192, 9000], &[10, 65535, 65536, 65537, 70000]]);
    let maxlive = if lens.contains(&65536) { 5 } else { 8 };
    let cap = r.pick(&[1usize, 64, 1000]);
    let bins: Vec<u32> = (0..r.range(1, 4)).map(|_| r.pick(&lens) as u32).collect();
    let nbins: u32 = bins.iter().sum();
    let mut st = match what {
        0 => Any::S(SliceStore::aligned(cap, r.pick(&[4, 16, 64]))),
        1 => Any::H(HistStore::new(bins.iter().cloned())),
        _ => Any::B(BitBlockStore::new(cap)),
    };
    let per = if what == 2 { 8 } else { 1 }; // numbers per element
    let mut live: BTreeMap<i64, SliceRange> = BTreeMap::new();
    let mut ops = vec![];
    let mut next = 1;
    for t in 0..r.range(8, if lens.contains(&65536) { 20 } else { 40 }) {
        let ids: Vec<i64> = live.keys().cloned().collect();
        let c = r.below(20);
        let mut o;
        if ids.is_empty() || (c < 8 && ids.len() < maxlive) {
            let n = r.pick(&lens) + r.below(3) as usize;
            let v = r.pick(&[0, 1000 + t]);
            // how many elements, the first numbers and how many they are, the numbers behind
            let (x, elems, first, base, rest): (SliceRange, usize, usize, i64, i64) = match st {
                Any::S(ref mut s) => (s.alloc_slice(n as u32, v as u32), n, n, v, 0),
                Any::H(ref mut h) => (h.alloc_hists(), nbins as usize, nbins as usize, 0, 0),
                Any::B(ref mut s) => match r.below(5) {
                    0 => (s.alloc_zero_blocks(n), n, 8 * n, 0, 0),
                    1 => (s.alloc_one_blocks(n), n, 8 * n, -1, 0),
                    2 => { let k = 8 * (n - 1) + r.range(1, 8) as usize; (s.alloc_one_bits(32 * k), n, k, -1, 0) },
                    3 => { let k = 8 * (n - 1) + r.range(1, 8) as usize; (s.alloc_from_iter::<u32, _>(k, (0..k).map(|_| v as u32)), n, k, v, 0) },
                    _ => { let m = n / 4 + 1; (s.alloc_zero_bitslice::<BitSliceLayout4>(256 * m), 4 * m, 32 * m, 0, 0) },
                },
            };
            live.insert(next, x);
            o = obj! { "op" => s("alloc"), "id" => i(next), "n" => i(elems), "first" => i(first), "base" => i(base), "rest" => i(rest), "r" => rng(x) };
            next += 1;
        } else if c < 13 {
            let id = r.pick(&ids);
            let x = live[&id];
            let n = (x.1 - x.0) as usize * per;
            let k = match r.below(4) { 0 => n - 1, 1 => 0, _ => r.below(n as u64) as usize };
            let v = 5000 + t;
            match st {
                Any::S(ref mut s) => s.get_slice_mut(x)[k] = v as u32,
                Any::H(ref mut h) => {
                    let (mut f, mut k) = (0, k);
                    while k >= bins[f] as usize { k -= bins[f] as usize; f += 1; }
                    h.get_hist_mut(x, f)[k] = v as f32;
                },
                Any::B(ref mut s) => s.get_bitvec_mut(x).set::<u32>(k, v as u32),
            }
            o = obj! { "op" => s("write"), "id" => i(id), "k" => i(k), "v" => i(v) };
        } else if what == 1 && c < 16 && ids.len() > 2 {
            let mut p = ids.clone();
            for k in 0..3 { let j = k + r.below((p.len() - k) as u64) as usize; p.swap(k, j); }
            if let Any::H(ref mut h) = st { h.hists_subtract(live[&p[0]], live[&p[1]], live[&p[2]]); }
            o = obj! { "op" => s("subtract"), "p" => i(p[0]), "l" => i(p[1]), "d" => i(p[2]) };
        } else if c < 19 {
            let id = r.pick(&ids);
            let x = live.remove(&id).unwrap();
            match st { Any::S(ref mut s) => s.free_slice(x), Any::H(ref mut h) => h.free_hists(x), Any::B(ref mut s) => s.free_blocks(x) }
            o = obj! { "op" => s("free"), "id" => i(id) };
        } else if r.chance(1, 4) {
            match st { Any::S(ref mut s) => s.reset(), Any::H(ref mut h) => h.reset(), Any::B(ref mut s) => s.reset() }
            live.clear(); o = obj! { "op" => s("reset") };
        } else { continue }
        o.push("live", arr(live.iter().map(|(id, &x)| {
            let v: Vec<i64> = match st {
                Any::S(ref s) => s.get_slice(x).iter().map(|&y| y as i64).collect(),
                Any::H(ref h) => (0..bins.len()).flat_map(|f| h.get_hist(x, f).iter().map(|&y| as_int(y)).collect::<Vec<_>>()).collect(),
                Any::B(ref s) => s.get_bitvec(x).cast::<u32>().iter().map(|&y| y as i32 as i64).collect(),
            };
            obj! { "id" => i(*id), "n" => i(v.len()), "runs" => runs_of(&v) }
        })));
        ops.push(o);
    }
    obj! { "kind" => s("huge"), "per" => i(per), "ops" => J::A(ops) }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out);
    let gen = if a.mode == "gen" { behaviours(&a.gen) } else { vec![] };
    let count = if a.mode == "gen" { gen.len() as u64 } else { a.count };
    for t in a.from..a.from + count {
        let mut r = Rng::new(a.seed, t * 31 + a.mode.bytes().map(|x| x as u64).sum::<u64>());
        let mode = a.mode.clone();
        let g = gen.get(t as usize);
        let res = guard(move || match mode.as_str() {
            "gen" => { let (c, k, l) = (r.pick(&[1, 2, 16]), r.pick(&[1, 1, 5]), r.pick(&[0, 8, 16])); replay(g.unwrap(), c, k, l) },
            "slice" => slices(&mut r),
            "hist" => hists(&mut r),
            "bits" => bits(&mut r),
            "huge" => huge(&mut r),
            m => { eprintln!("unknown mode {}", m); std::process::exit(2) },
        });
        let mut j = match res { Ok(j) => j, Err(m) => obj! { "kind" => s("panic"), "msg" => s(m) } };
        j.push("tr", i(t));
        out.emit(&j);
    }
}
