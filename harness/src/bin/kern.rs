//! Kernels on bit sets and bit slices. Modes: pair, compr, slice, slicec, long (C13), setbits, setvals (C13, C21).
use bbharness::*;
use bitboost::bitblock::{BitBlock, BitBlocks};
use bitboost::bitset::Bitset;
use bitboost::bitslice as bs;
use bitboost::count_and_sum as cs;
use bitboost::simd;
use bitboost::slice_store as ss;
use bitboost::slice_store::{BitBlockStore, BitSliceLayout};

fn pick_n(r: &mut Rng, large: bool) -> usize {
    match r.below(6) {
        0 => r.range(1, 40) as usize,
        1 => r.range(41, 300) as usize,
        2 => (r.pick(&[63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 768]) ) as usize,
        3 => r.range(300, 1500) as usize,
        4 => 256 * r.range(1, 6) as usize,
        _ => if large { r.range(14 * 256, 36 * 256) as usize } else { r.range(1, 2000) as usize },
    }
}

fn pattern(r: &mut Rng, n: usize) -> Vec<bool> {
    match r.below(9) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => (0..n).map(|i| i % 2 == 1).collect(),
        3 => (0..n).map(|i| i == n - 1).collect(),
        4 => (0..n).map(|_| r.chance(1, 50)).collect(),
        5 => (0..n).map(|_| r.chance(49, 50)).collect(),
        6 => { let (a, b) = (r.below(n as u64 + 1), r.below(n as u64 + 1)); (0..n as u64).map(|i| i >= a.min(b) && i < a.max(b)).collect() },
        _ => (0..n).map(|_| r.chance(1, 2)).collect(),
    }
}

/// sets that are full, or almost
fn dense(r: &mut Rng, n: usize) -> Vec<bool> { if r.chance(1, 2) { vec![true; n] } else { (0..n).map(|_| r.chance(299, 300)).collect() } }
fn two(r: &mut Rng, n: usize, m: usize) -> (Vec<bool>, Vec<bool>) { if r.chance(1, 4) { (dense(r, n), dense(r, m)) } else { (pattern(r, n), pattern(r, m)) } }

fn pos(v: &[bool]) -> J { arr(v.iter().enumerate().filter(|x| *x.1).map(|x| i(x.0))) }
fn us(v: &[usize]) -> J { ints(v) }

fn words(v: &[bool]) -> Vec<u32> {
    v.chunks(32).map(|c| c.iter().enumerate().fold(0u32, |a, (k, &x)| a | ((x as u32) << k))).collect()
}

/// Build the same set in one of several ways; `how` goes in the record.
fn build_store(r: &mut Rng, st: &mut BitBlockStore, v: &[bool]) -> (ss::SliceRange, &'static str) {
    let n = v.len();
    match r.below(4) {
        0 => (st.alloc_from_bits_iter(n, v.iter().cloned()), "alloc_from_bits_iter"),
        1 => { let w = words(v); (st.alloc_from_iter::<u32, _>(w.len(), w.iter().cloned()), "alloc_from_iter") },
        2 => {
            let x = st.alloc_zero_bits(n);
            { let mut bv = st.get_bitvec_mut(x); for k in 0..n { if v[k] { bv.enable_bit(k); } } }
            (x, "alloc_zero_bits, enable_bit")
        },
        _ => {
            let x = st.alloc_one_bits(n);
            { let mut bv = st.get_bitvec_mut(x); for k in 0..n { if !v[k] { bv.set_bit(k, false); } } }
            (x, "alloc_one_bits, set_bit")
        },
    }
}
fn build_blocks(r: &mut Rng, v: &[bool]) -> (BitBlocks, &'static str) {
    let n = v.len();
    match r.below(4) {
        0 => (BitBlocks::from_bool_iter(n, v.iter().cloned()), "from_bool_iter"),
        1 => { let w = words(v); (BitBlocks::from_iter::<u32, _>(w.len(), w.iter().cloned()), "from_iter") },
        2 => {
            let mut b = Bitset::zeros(n);
            for k in 0..n { if v[k] { b.enable_bit(k) } }
            (BitBlocks::from_iter::<u64, _>(b.block_len::<u64>(), b.cast::<u64>().to_vec().into_iter()), "Bitset::zeros")
        },
        _ => {
            let mut b = Bitset::ones(n);
            for k in 0..n { if !v[k] { b.disable_bit(k) } }
            (BitBlocks::from_iter::<u64, _>(b.block_len::<u64>(), b.cast::<u64>().to_vec().into_iter()), "Bitset::ones")
        },
    }
}

fn read(bv: &ss::BitVecRef) -> Vec<usize> { (0..bv.len() * 256).filter(|&k| bv.get_bit(k)).collect() }
fn collect_each(f: impl FnOnce(&mut dyn FnMut(usize) -> bool)) -> Vec<usize> {
    let mut v = Vec::new();
    f(&mut |k| { v.push(k); false });
    v
}

fn results() -> J { J::O(vec![]) }

/// two sets, the queries on them
fn pair(r: &mut Rng) -> J {
    let n = pick_n(r, true);
    let (a, b) = two(r, n, n);
    let mut st = BitBlockStore::new(r.pick(&[1, 4, 1000]));
    let (ra, ha) = build_store(r, &mut st, &a);
    let (rb, hb) = build_store(r, &mut st, &b);
    let (ba, ha2) = build_blocks(r, &a);
    let (bb, hb2) = build_blocks(r, &b);
    let big = n > 2200;
    let stop = r.range(1, 5) as usize;
    let res;
    {
        let (va, vb) = (st.get_bitvec(ra), st.get_bitvec(rb));
        let mut o = results();
        o.push("nblocks", arr(vec![i(va.len()), i(vb.len()), i(ba.len()), i(bb.len())]));
        o.push("count_and", arr(vec![i(va.count_ones_and(&vb)), i(vb.count_ones_and(&va)), i(cs::count_and2_c00(&ba, &bb)), i(cs::count_and2_c00(&bb, &ba)),
            i(unsafe { simd::bitvec_count_and_uc(&ba, &vb) })]));
        o.push("count", arr(vec![i(va.iter().map(|x| x.count_ones() as u64).sum::<u64>()), i(ba.iter().map(|x| x.count_ones() as u64).sum::<u64>()),
            i(va.count_ones_and(&va))]));
        o.push("zero", arr(vec![b_(va.iter().all(|x| x.is_zero())), b_(ba.iter().all(|x| x.is_zero()))]));
        let mut all: Vec<(&str, Vec<usize>)> = vec![];
        let mut and: Vec<(&str, Vec<usize>)> = vec![];
        let mut andnot: Vec<(&str, Vec<usize>)> = vec![];
        let which = r.below(4);
        let take = |k: u64| !big || which == k;
        if take(0) { all.push(("get_bit", read(&va))); }
        if take(1) { all.push(("for_each_index", collect_each(|f| va.for_each_index(f)))); }
        if take(2) { all.push(("index_iter", va.index_iter().collect())); }
        if take(3) { all.push(("BitBlocks", (0..ba.len() * 256).filter(|&k| ba[k / 256].get_bit(k % 256)).collect())); }
        if take(0) || take(1) { and.push(("for_each_index_and", collect_each(|f| va.for_each_index_and(&vb, f)))); }
        if take(2) || take(3) { and.push(("index_iter_and", va.index_iter_and(&vb).collect())); }
        andnot.push(("index_iter_andnot", va.index_iter_andnot(&vb).collect()));
        let w = |x: Vec<(&str, Vec<usize>)>| arr(x.iter().map(|(h, v)| obj! { "how" => s(*h), "v" => us(v) }));
        o.push("all", w(all)); o.push("and", w(and)); o.push("andnot", w(andnot));
        // a callback that returns true stops the enumeration
        let mut first = vec![];
        va.for_each_index(|k| { first.push(k); first.len() == stop });
        let mut firstand = vec![];
        va.for_each_index_and(&vb, |k| { firstand.push(k); firstand.len() == stop });
        o.push("first", us(&first)); o.push("firstand", us(&firstand));
        res = o;
    }
    let mut res = res;
    {
        let (mut va, vb) = st.get_two_bitvecs_mut(ra, rb);
        unsafe { simd::or_assign(&mut va, &vb); }
    }
    res.push("or", us(&read(&st.get_bitvec(ra))));
    res.push("b", us(&read(&st.get_bitvec(rb))));
    obj! { "kind" => s("pair"), "n" => i(n), "a" => pos(&a), "b" => pos(&b), "stop" => i(stop),
           "how" => arr(vec![s(ha), s(hb), s(ha2), s(hb2)]), "r" => res }
}
fn b_(x: bool) -> J { J::B(x) }

/// slots of a compressed set: indices of 32-bit words, padded with empty words to a whole number of blocks
fn slots(r: &mut Rng, nfull: usize, sorted: bool, large: bool) -> Vec<usize> {
    let mut n = match r.below(4) { 0 => r.range(1, 8), 1 => r.range(8, 40), 2 => 8 * r.range(1, 6), _ => if large { r.range(128, 300) } else { r.range(1, 60) } } as usize;
    if sorted {
        n = n.min(nfull);
        let mut p: Vec<usize> = (0..nfull).collect();
        for k in 0..n { let j = k + r.below((nfull - k) as u64) as usize; p.swap(k, j); }
        p.truncate(n);
        p.sort();
        p
    } else {
        (0..n).map(|_| r.below(nfull as u64) as usize).collect()
    }
}
fn padded(v: &[usize]) -> Vec<u32> { let mut w: Vec<u32> = v.iter().map(|&x| x as u32).collect(); while w.len() % 8 != 0 { w.push(0); } w }

fn compr(r: &mut Rng) -> J {
    let nfull_words = match r.below(3) { 0 => r.range(1, 8), 1 => r.range(8, 60), _ => r.range(60, 320) } as usize;
    let nfull = nfull_words * 32 - r.below(31) as usize;
    let sorted = r.chance(1, 2);
    let idx = slots(r, nfull_words, sorted, true);
    let idxp = padded(&idx);
    // the pad slots are empty
    let (mut a, m) = two(r, idx.len() * 32, nfull);
    a.resize(idxp.len() * 32, false);
    let mut st = BitBlockStore::new(r.pick(&[1, 4, 1000]));
    let (ra, ha) = build_store(r, &mut st, &a);
    let (rm, hm) = build_store(r, &mut st, &m);
    let ri = st.alloc_from_iter::<u32, _>(idxp.len(), idxp.iter().cloned());
    let (ba, _) = build_blocks(r, &a);
    let (bm, _) = build_blocks(r, &m);
    let bi = BitBlocks::from_iter::<u32, _>(idxp.len(), idxp.iter().cloned());
    let (va, vm, vi) = (st.get_bitvec(ra), st.get_bitvec(rm), st.get_bitvec(ri));
    let mut o = results();
    o.push("count_and", arr(vec![i(va.count_ones_and_compr(&vi, &vm)), i(cs::count_and2_c10(&bi, &ba, &bm)),
        i(unsafe { simd::bitvec_count_and_c(&ba, &bi, &bm) })]));
    let w = |x: Vec<(&str, Vec<usize>)>| arr(x.iter().map(|(h, v)| obj! { "how" => s(*h), "v" => us(v) }));
    o.push("all", w(vec![("for_each_index_compr", collect_each(|f| va.for_each_index_compr(&vi, f))), ("index_iter_compr", va.index_iter_compr(&vi).collect())]));
    // these require the compressed set not to be longer than the full one
    let fits = va.len() <= vm.len();
    o.push("fits", b_(fits));
    if fits {
        o.push("and", w(vec![("for_each_index_and_compr", collect_each(|f| va.for_each_index_and_compr(&vm, &vi, f))), ("index_iter_and_compr", va.index_iter_and_compr(&vm, &vi).collect())]));
        o.push("andnot", w(vec![("index_iter_andnot_compr", va.index_iter_andnot_compr(&vm, &vi).collect())]));
    } else {
        o.push("and", arr(vec![])); o.push("andnot", arr(vec![]));
    }
    let stop = r.range(1, 5) as usize;
    let mut first = vec![];
    va.for_each_index_compr(&vi, |k| { first.push(k); first.len() == stop });
    o.push("first", us(&first));
    // a second compressed set
    let idx2 = slots(r, nfull_words, true, true);
    let idx2p = padded(&idx2);
    let mut a2 = pattern(r, idx2.len() * 32);
    a2.resize(idx2p.len() * 32, false);
    let (b2, _) = build_blocks(r, &a2);
    let bi2 = BitBlocks::from_iter::<u32, _>(idx2p.len(), idx2p.iter().cloned());
    o.push("count_c11", arr(if sorted { vec![i(cs::count_and2_c11(&bi, &ba, &bi2, &b2)), i(cs::count_and2_c11(&bi2, &b2, &bi, &ba))] } else { vec![] }));
    obj! { "kind" => s("compr"), "nfull" => i(nfull), "idx" => ints(&idxp), "a" => pos(&a), "m" => pos(&m), "idx2" => ints(&idx2p), "a2" => pos(&a2),
           "stop" => i(stop), "how" => arr(vec![s(ha), s(hm)]), "r" => o }
}

trait Lay: BitSliceLayout { type O: bs::BitsliceLayout; const W: usize;
    fn sum00(a: &BitBlocks, b: &BitBlocks, c: &BitBlocks) -> u64;
    fn sum10(a: &BitBlocks, i: &BitBlocks, b: &BitBlocks, c: &BitBlocks) -> u64;
    fn sum11(a: &BitBlocks, i: &BitBlocks, b: &BitBlocks, j: &BitBlocks, c: &BitBlocks) -> u64;
}
macro_rules! lay { ($l:ident, $o:ident, $w:expr, $s0:ident, $s1:ident, $s2:ident) => {
    impl Lay for ss::$l { type O = bs::$o; const W: usize = $w;
        fn sum00(a: &BitBlocks, b: &BitBlocks, c: &BitBlocks) -> u64 { cs::$s0(a, b, c) }
        fn sum10(a: &BitBlocks, i: &BitBlocks, b: &BitBlocks, c: &BitBlocks) -> u64 { cs::$s1(a, i, b, c) }
        fn sum11(a: &BitBlocks, i: &BitBlocks, b: &BitBlocks, j: &BitBlocks, c: &BitBlocks) -> u64 { cs::$s2(a, i, b, j, c) }
    } } }
lay!(BitSliceLayout1, BitsliceLayout1, 1, sum_and3_w1_c00, sum_and3_w1_c10, sum_and3_w1_c11);
lay!(BitSliceLayout2, BitsliceLayout2, 2, sum_and3_w2_c00, sum_and3_w2_c10, sum_and3_w2_c11);
lay!(BitSliceLayout4, BitsliceLayout4, 4, sum_and3_w4_c00, sum_and3_w4_c10, sum_and3_w4_c11);
lay!(BitSliceLayout8, BitsliceLayout8, 8, sum_and3_w8_c00, sum_and3_w8_c10, sum_and3_w8_c11);

fn values(r: &mut Rng, n: usize, w: usize) -> Vec<u8> {
    let m = (1u64 << w) - 1;
    match r.below(5) {
        0 => vec![m as u8; n],
        1 => { let k = r.below(w as u64); vec![1u8 << k; n] },
        2 => (0..n).map(|_| (if r.chance(1, 60) { r.below(m + 1) } else { m }) as u8).collect(),
        _ => (0..n).map(|_| r.below(m + 1) as u8).collect(),
    }
}

fn width<T>(r: &mut Rng, f: [fn(&mut Rng) -> T; 4]) -> T { let k = r.below(4) as usize; f[k](r) }

fn fill_both<L: Lay>(st: &mut BitBlockStore, vals: &[u8]) -> (ss::SliceRange, bs::Bitslice) {
    let rs = st.alloc_zero_bitslice::<L>(vals.len());
    { let mut v = st.get_bitslice_mut::<L>(rs); for (k, &x) in vals.iter().enumerate() { v.set_value(k, x); } }
    let mut b2 = bs::Bitslice::new();
    { let mut v = b2.with_layout_mut::<L::O>(); v.resize(vals.len()); for (k, &x) in vals.iter().enumerate() { v.set_value(k, x); } }
    (rs, b2)
}

fn slice<L: Lay>(r: &mut Rng) -> J {
    let n = match r.below(4) { 0 => r.range(1, 60) as usize, 1 => r.range(60, 700) as usize, 2 => 256 * r.range(1, 3) as usize, _ => (if r.chance(1, 3) { r.range(1, 5000) } else { r.range(1, 9000 / L::W as i64) }) as usize };
    let vals = values(r, n, L::W);
    let (a, m) = two(r, n, n);
    let mut st = BitBlockStore::new(r.pick(&[1, 64]));
    let (ra, _) = build_store(r, &mut st, &a);
    let (rm, _) = build_store(r, &mut st, &m);
    let (ba, _) = build_blocks(r, &a);
    let (bm, _) = build_blocks(r, &m);
    let (rs, b2) = fill_both::<L>(&mut st, &vals);
    let v = st.get_bitslice::<L>(rs);
    let (va, vm) = (st.get_bitvec(ra), st.get_bitvec(rm));
    let mut o = results();
    o.push("sum_and", arr(vec![i(v.sum_all_masked2(&va, &vm)), i(L::sum00(b2.as_bitblocks(), &ba, &bm)),
        i(v.sum_all_masked2(&vm, &va)), i(L::sum00(b2.as_bitblocks(), &bm, &ba))]));
    // sums of single words
    let nw = (n + 31) / 32;
    let wa = words(&a);
    let (lo, hi) = (r.range(-16, 16), r.range(1, 16));
    let bounds = (lo as f32, (lo + hi) as f32);
    let mut ws = vec![];
    for _ in 0..6 {
        let k = r.below(nw as u64) as usize;
        let (x, c) = v.sum_scaled_masked(k, wa[k], bounds);
        ws.push(obj! { "w" => i(k), "sum" => i(v.sum_masked(k, wa[k])), "count" => i(c), "fx" => i((x as f64 * 64.0).round() as i64) });
    }
    o.push("words", arr(ws)); o.push("lo", i(lo)); o.push("range", i(hi));
    o.push("values", arr(vec![arr((0..n).map(|k| i(v.get_value(k)))), arr((0..n).map(|k| i(b2.with_layout::<L::O>().get_value(k))))]));
    obj! { "kind" => s("slice"), "w" => i(L::W), "n" => i(n), "vals" => ints(&vals), "a" => pos(&a), "m" => pos(&m), "r" => o }
}

fn slicec<L: Lay>(r: &mut Rng) -> J {
    let nfull_words = match r.below(3) { 0 => r.range(1, 8), 1 => r.range(8, 60), _ => r.range(60, 200) } as usize;
    let nfull = nfull_words * 32 - r.below(31) as usize;
    let sorted = r.chance(1, 2);
    let idx = slots(r, nfull_words, sorted, false);
    let idxp = padded(&idx);
    let (mut a, m) = two(r, idx.len() * 32, nfull);
    a.resize(idxp.len() * 32, false);
    let vals = values(r, a.len(), L::W);
    let mut st = BitBlockStore::new(r.pick(&[1, 64]));
    let (ra, _) = build_store(r, &mut st, &a);
    let (rm, _) = build_store(r, &mut st, &m);
    let ri = st.alloc_from_iter::<u32, _>(idxp.len(), idxp.iter().cloned());
    let (ba, _) = build_blocks(r, &a);
    let (bm, _) = build_blocks(r, &m);
    let bi = BitBlocks::from_iter::<u32, _>(idxp.len(), idxp.iter().cloned());
    let (rs, b2) = fill_both::<L>(&mut st, &vals);
    let v = st.get_bitslice::<L>(rs);
    let (va, vm, vi) = (st.get_bitvec(ra), st.get_bitvec(rm), st.get_bitvec(ri));
    let idx2 = slots(r, nfull_words, true, false);
    let idx2p = padded(&idx2);
    let mut a2 = pattern(r, idx2.len() * 32);
    a2.resize(idx2p.len() * 32, false);
    let (ba2, _) = build_blocks(r, &a2);
    let bi2 = BitBlocks::from_iter::<u32, _>(idx2p.len(), idx2p.iter().cloned());
    let mut o = results();
    o.push("sum_and", arr(vec![i(v.sum_all_masked2_compr(&vi, &va, &vm)), i(L::sum10(b2.as_bitblocks(), &bi, &ba, &bm))]));
    o.push("sum_c11", arr(if sorted { vec![i(L::sum11(b2.as_bitblocks(), &bi, &ba, &bi2, &ba2))] } else { vec![] }));
    obj! { "kind" => s("slicec"), "w" => i(L::W), "nfull" => i(nfull), "vals" => ints(&vals), "idx" => ints(&idxp), "a" => pos(&a), "m" => pos(&m),
           "idx2" => ints(&idx2p), "a2" => pos(&a2), "r" => o }
}

// - long sets, as ascending runs [from, to) --------------------------------------------------------

type Runs = Vec<(usize, usize)>;
fn runs_json(v: &Runs) -> J { arr(v.iter().map(|&(a, b)| arr(vec![i(a), i(b)]))) }
/// at most `most` runs in [0, n), with gaps between them
fn gen_runs(r: &mut Rng, n: usize, most: u64) -> Runs {
    if r.chance(1, 4) { return vec![(0, n)]; }
    let mut cuts: Vec<usize> = (0..2 * (1 + r.below(most))).map(|_| match r.below(4) { 0 => 0, 1 => n, 2 => 256 * r.below(n as u64 / 256 + 1) as usize, _ => r.below(n as u64 + 1) as usize }).collect();
    cuts.sort();
    cuts.dedup();
    cuts.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect()
}
fn member(v: &Runs, n: usize) -> Vec<bool> { let mut m = vec![false; n]; for &(a, b) in v { for k in a..b { m[k] = true; } } m }
/// what an enumeration gives, as runs of consecutive numbers
struct Listing(Runs);
impl Listing {
    fn add(&mut self, k: usize) { match self.0.last_mut() { Some(x) if x.1 == k => x.1 = k + 1, _ => if self.0.len() < 60 { self.0.push((k, k + 1)) } } }
    fn of(it: impl Iterator<Item = usize>) -> J { let mut l = Listing(vec![]); for k in it { l.add(k); } runs_json(&l.0) }
    fn each(f: impl FnOnce(&mut dyn FnMut(usize) -> bool)) -> J { let mut l = Listing(vec![]); f(&mut |k| { l.add(k); false }); runs_json(&l.0) }
}

fn long<L: Lay>(r: &mut Rng) -> J {
    let n = match r.below(11) { 0 => r.pick(&[65535usize, 65536, 65537, 131071, 131072, 131073, 65536 - 256, 65536 + 256, 262144]), 1 => r.range(20000, 66000) as usize, 2 => r.range(66000, 140000) as usize,
                           3 | 4 => 256 * r.range(100, 2000) as usize, 5 => r.range(2097000, 4300000) as usize, 6 | 7 => 131072 * r.range(1, 6) as usize, _ => r.range(140000, 1200000) as usize };
    let nw = (n + 31) / 32;
    let (a, m) = (gen_runs(r, n, 5), gen_runs(r, n, 5));
    // a compressed set: some runs of words, and some of their bits
    let slots = loop { let x = gen_runs(r, nw, 4); if !x.is_empty() { break x; } };
    let idx: Vec<u32> = slots.iter().flat_map(|&(a, b)| a as u32..b as u32).collect();
    let nc = idx.len() * 32;
    let ca = gen_runs(r, nc, 5);
    let slots2 = loop { let x = gen_runs(r, nw, 4); if !x.is_empty() { break x; } };
    let idx2: Vec<u32> = slots2.iter().flat_map(|&(a, b)| a as u32..b as u32).collect();
    let ca2 = gen_runs(r, idx2.len() * 32, 5);
    // values, in steps; the same for the full and the compressed set
    let maxv = (1u64 << L::W) - 1;
    let mut ends: Vec<usize> = (0..r.below(6)).map(|_| r.below(n as u64) as usize).collect();
    ends.push(n.max(nc));
    ends.sort();
    let steps: Vec<(usize, u8)> = ends.iter().map(|&e| (e, if r.chance(1, 2) { maxv as u8 } else { r.below(maxv + 1) as u8 })).collect();
    let mut vals = vec![0u8; n.max(nc)];
    { let mut from = 0; for &(e, v) in &steps { for k in from..e { vals[k] = v; } from = from.max(e); } }

    let mut st = BitBlockStore::new(r.pick(&[1, 1000]));
    let (ra, _) = build_store(r, &mut st, &member(&a, n));
    let (rm, _) = build_store(r, &mut st, &member(&m, n));
    let (ba, _) = build_blocks(r, &member(&a, n));
    let (bm, _) = build_blocks(r, &member(&m, n));
    let pad = |v: &Vec<u32>| { let mut w = v.clone(); while w.len() % 8 != 0 { w.push(0); } w };
    let (ip, ip2) = (pad(&idx), pad(&idx2));
    let (rc, _) = build_store(r, &mut st, &member(&ca, ip.len() * 32));
    let ri = st.alloc_from_iter::<u32, _>(ip.len(), ip.iter().cloned());
    let (bc, _) = build_blocks(r, &member(&ca, ip.len() * 32));
    let bi = BitBlocks::from_iter::<u32, _>(ip.len(), ip.iter().cloned());
    let (bc2, _) = build_blocks(r, &member(&ca2, ip2.len() * 32));
    let bi2 = BitBlocks::from_iter::<u32, _>(ip2.len(), ip2.iter().cloned());
    let (rs, b2) = fill_both::<L>(&mut st, &vals[..n]);
    let (rsc, b2c) = fill_both::<L>(&mut st, &{ let mut v = vals[..nc].to_vec(); v.resize(ip.len() * 32, 0); v });
    let mut o = results();
    {
        let (va, vm, vc, vi) = (st.get_bitvec(ra), st.get_bitvec(rm), st.get_bitvec(rc), st.get_bitvec(ri));
        let (v, vcs) = (st.get_bitslice::<L>(rs), st.get_bitslice::<L>(rsc));
        o.push("count", arr(vec![i(va.iter().map(|x| x.count_ones() as u64).sum::<u64>()), i(ba.iter().map(|x| x.count_ones() as u64).sum::<u64>()), i(va.count_ones_and(&va))]));
        o.push("count_and", arr(vec![i(va.count_ones_and(&vm)), i(vm.count_ones_and(&va)), i(cs::count_and2_c00(&ba, &bm)), i(unsafe { simd::bitvec_count_and_uc(&ba, &vm) })]));
        o.push("count_c", arr(vec![i(vc.count_ones_and_compr(&vi, &vm)), i(cs::count_and2_c10(&bi, &bc, &bm)), i(unsafe { simd::bitvec_count_and_c(&bc, &bi, &bm) })]));
        o.push("count_cc", arr(vec![i(cs::count_and2_c11(&bi, &bc, &bi2, &bc2)), i(cs::count_and2_c11(&bi2, &bc2, &bi, &bc))]));
        o.push("sum_and", arr(vec![i(v.sum_all_masked2(&va, &vm)), i(v.sum_all_masked2(&vm, &va)), i(L::sum00(b2.as_bitblocks(), &ba, &bm))]));
        o.push("sum_c", arr(vec![i(vcs.sum_all_masked2_compr(&vi, &vc, &vm)), i(L::sum10(b2c.as_bitblocks(), &bi, &bc, &bm))]));
        o.push("sum_cc", arr(vec![i(L::sum11(b2c.as_bitblocks(), &bi, &bc, &bi2, &bc2))]));
        o.push("all", arr(vec![Listing::each(|f| va.for_each_index(f)), Listing::of(va.index_iter()), Listing::of((0..n).filter(|&k| va.get_bit(k)))]));
        o.push("and", arr(vec![Listing::each(|f| va.for_each_index_and(&vm, f)), Listing::of(va.index_iter_and(&vm))]));
        o.push("andnot", arr(vec![Listing::of(va.index_iter_andnot(&vm))]));
        o.push("all_c", arr(vec![Listing::each(|f| vc.for_each_index_compr(&vi, f)), Listing::of(vc.index_iter_compr(&vi))]));
        o.push("and_c", arr(vec![Listing::each(|f| vc.for_each_index_and_compr(&vm, &vi, f)), Listing::of(vc.index_iter_and_compr(&vm, &vi))]));
        o.push("andnot_c", arr(vec![Listing::of(vc.index_iter_andnot_compr(&vm, &vi))]));
    }
    { let (mut va, vm) = st.get_two_bitvecs_mut(ra, rm); unsafe { simd::or_assign(&mut va, &vm); } }
    o.push("or", arr(vec![Listing::each(|f| st.get_bitvec(ra).for_each_index(f))]));
    obj! { "kind" => s("long"), "w" => i(L::W), "n" => i(n), "a" => runs_json(&a), "m" => runs_json(&m), "slots" => runs_json(&slots), "ca" => runs_json(&ca),
           "slots2" => runs_json(&slots2), "ca2" => runs_json(&ca2), "steps" => arr(steps.iter().map(|&(e, v)| arr(vec![i(e), i(v)]))), "r" => o }
}

/// a sequence of changes of single bits
fn setbits(r: &mut Rng) -> J {
    let n = pick_n(r, false);
    let ones = r.chance(1, 2);
    let what = r.below(3);
    let mut st = BitBlockStore::new(2);
    let range = if ones { st.alloc_one_bits(n) } else { st.alloc_zero_bits(n) };
    let guard = st.alloc_zero_bits(256); // a neighbour
    let mut bset = if ones { Bitset::ones(n) } else { Bitset::zeros(n) };
    let mut blocks = if ones { BitBlocks::one_bits(n) } else { BitBlocks::zero_bits(n) };
    let mut ops = vec![];
    let hot: Vec<usize> = (0..4).map(|_| r.below(n as u64) as usize).collect();
    for _ in 0..r.range(1, 25) {
        let k = if r.chance(1, 2) { r.pick(&hot) } else { r.below(n as u64) as usize };
        let op = r.pick(&["on", "off", "set1", "set0"]);
        match what {
            0 => { let mut bv = st.get_bitvec_mut(range); match op { "on" => bv.enable_bit(k), "set1" => bv.set_bit(k, true), _ => bv.set_bit(k, false) } },
            1 => match op { "on" => bset.enable_bit(k), "off" => bset.disable_bit(k), "set1" => bset.set_bit(k, true), _ => bset.set_bit(k, false) },
            _ => { let bl: &mut BitBlock = &mut blocks[k / 256]; let k = k % 256;
                   match op { "on" => bl.enable_bit(k), "off" => bl.disable_bit(k), "set1" => bl.set_bit(k, true), _ => bl.set_bit(k, false) } },
        }
        let after = match what {
            0 => read(&st.get_bitvec(range)),
            1 => (0..bset.len() * 256).filter(|&j| bset.get_bit(j)).collect(),
            _ => (0..blocks.len() * 256).filter(|&j| blocks[j / 256].get_bit(j % 256)).collect(),
        };
        let nb = n.min(1);
        let _ = nb;
        // the record holds a summary of the set: its size, its membership of k and a weighted sum
        ops.push(obj! { "op" => s(op), "k" => i(k), "size" => i(after.len()), "has" => b_(after.contains(&k)), "sum" => i(after.iter().sum::<usize>()), "max" => i(after.last().map(|&x| x as i64).unwrap_or(-1)) });
    }
    let fin = match what {
        0 => read(&st.get_bitvec(range)),
        1 => (0..bset.len() * 256).filter(|&j| bset.get_bit(j)).collect(),
        _ => (0..blocks.len() * 256).filter(|&j| blocks[j / 256].get_bit(j % 256)).collect(),
    };
    obj! { "kind" => s("setbits"), "n" => i(n), "ones" => b_(ones), "how" => s(["BitVec", "Bitset", "BitBlock"][what as usize]), "ops" => arr(ops),
           "final" => us(&fin), "neighbour" => us(&read(&st.get_bitvec(guard))) }
}

/// a sequence of stores in a bit slice
fn setvals<L: Lay>(r: &mut Rng) -> J {
    let n = r.pick(&[1usize, 31, 32, 33, 64, 100, 256, 257, 300, 600]);
    let maxv = (1i64 << L::W) - 1;
    let old = r.chance(1, 2);
    let mut st = BitBlockStore::new(2);
    let before = st.alloc_one_bits(256);
    let range = st.alloc_zero_bitslice::<L>(n);
    let after = st.alloc_one_bits(256);
    let other = st.alloc_zero_bitslice::<L>(n);
    let mut b2 = bs::Bitslice::new();
    b2.with_layout_mut::<L::O>().resize(n);
    let ov: Vec<u8> = (0..n).map(|_| r.below(maxv as u64 + 1) as u8).collect();
    { let mut v = st.get_bitslice_mut::<L>(other); for k in 0..n { v.set_value(k, ov[k]); } }
    // bounds in units of 1/256, values too
    let sharp = L::W == 1 && r.chance(1, 3);
    let fine = r.chance(1, 2);
    let unit = if fine { 1 } else { 16 };
    let (lo, hi) = if sharp { (0, r.pick(&[2i64, 4, 64, 256, 1024, 4096])) } else {
        let lo = r.range(-4096, 3200) / unit * unit;
        (lo, lo + r.pick(&[16, 17, 32, 48, 100, 255, 256, 300]) * 16 + if fine { r.range(-200, 0) } else { 0 })
    };
    let bounds = (lo as f32 / 256.0, hi as f32 / 256.0);
    let mut ops = vec![];
    for _ in 0..r.range(1, 40) {
        let k = r.below(n as u64) as usize;
        match r.below(6) {
            0 | 1 => {
                let v = r.range(0, maxv);
                if old { b2.with_layout_mut::<L::O>().set_value(k, v as u8); } else { st.get_bitslice_mut::<L>(range).set_value(k, v as u8); }
                ops.push(obj! { "op" => s("set"), "k" => i(k), "v" => i(v) });
            },
            2 | 3 | 4 => {
                let x = match r.below(4) { 0 => lo, 1 => hi, 2 => r.range(lo, hi), _ => r.range(lo - 50 * unit, hi + 50 * unit) };
                let y = x as f32 / 256.0;
                // the floats next to the middle of the only two levels (then everything is exact)
                let (y, side) = if !sharp { (y, 0) } else { let side = r.range(-1, 1); (f32::from_bits(((bounds.1 / 2.0).to_bits() as i64 + side * r.pick(&[1i64, 1, 2, 100])) as u32), side) };
                let x = if sharp { hi * (side + 1) / 2 } else { x };
                let (v, got) = if old {
                    let mut w = b2.with_layout_mut::<L::O>(); let v = w.set_scaled_value(k, y, bounds); (v, w.get_scaled_value(k, bounds))
                } else {
                    let mut w = st.get_bitslice_mut::<L>(range); let v = w.set_scaled_value(k, y, bounds); (v, w.get_scaled_value(k, bounds))
                };
                ops.push(obj! { "op" => s("scaled"), "k" => i(k), "x" => i(x), "v" => i(v), "side" => i(side), "fx" => i((got as f64 * 4096.0).round() as i64),
                                "key" => J::I(key(got)) });
            },
            _ => if !old {
                let nw = (n + 31) / 32;
                let (from, to) = (r.below(nw as u64) as usize, r.below(nw as u64) as usize);
                let (o, mut t) = st.get_two_bitslices_mut::<L>(other, range);
                t.copy_block_from::<u32, _>(&o, from, to);
                ops.push(obj! { "op" => s("copy"), "from" => i(from), "to" => i(to) });
            },
        }
    }
    let m = ((n + 255) / 256) * 256;
    let fin: Vec<u8> = (0..m).map(|k| if old { b2.with_layout::<L::O>().get_value(k) } else { st.get_bitslice::<L>(range).get_value(k) }).collect();
    let oth: Vec<u8> = { let v = st.get_bitslice::<L>(other); (0..n).map(|k| v.get_value(k)).collect() };
    // cross sums over a pair of counts
    let (s_, c_) = (r.range(0, maxv * 40), r.range(40, 200));
    let lp = <L as BitSliceLayout>::linproj(s_ as f32, c_ as f32, bounds);
    let lp2 = <L::O as bs::BitsliceLayout>::linproj(s_ as f32, c_ as f32, bounds);
    obj! { "kind" => s("setvals"), "w" => i(L::W), "how" => s(if old { "Bitslice" } else { "BitSlice" }), "n" => i(n), "lo" => i(lo), "hi" => i(hi),
           "klo" => J::I(key(bounds.0)), "khi" => J::I(key(bounds.1)), "other" => ints(&ov), "ops" => arr(ops), "final" => ints(&fin), "otherafter" => ints(&oth),
           "neighbours" => arr(vec![i(read(&st.get_bitvec(before)).len()), i(read(&st.get_bitvec(after)).len())]),
           "lin" => obj! { "s" => i(s_), "c" => i(c_), "fx" => arr(vec![i((lp as f64 * 16.0).round() as i64), i((lp2 as f64 * 16.0).round() as i64)]) } }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out);
    for t in a.from..a.from + a.count {
        let mut r = Rng::new(a.seed, t * 31 + a.mode.bytes().map(|x| x as u64).sum::<u64>());
        let mode = a.mode.clone();
        let res = guard(move || match mode.as_str() {
            "pair" => pair(&mut r),
            "compr" => compr(&mut r),
            "slice" => width(&mut r, [slice::<ss::BitSliceLayout1>, slice::<ss::BitSliceLayout2>, slice::<ss::BitSliceLayout4>, slice::<ss::BitSliceLayout8>]),
            "slicec" => width(&mut r, [slicec::<ss::BitSliceLayout1>, slicec::<ss::BitSliceLayout2>, slicec::<ss::BitSliceLayout4>, slicec::<ss::BitSliceLayout8>]),
            "long" => width(&mut r, [long::<ss::BitSliceLayout1>, long::<ss::BitSliceLayout2>, long::<ss::BitSliceLayout4>, long::<ss::BitSliceLayout8>]),
            "setbits" => setbits(&mut r),
            "setvals" => width(&mut r, [setvals::<ss::BitSliceLayout1>, setvals::<ss::BitSliceLayout2>, setvals::<ss::BitSliceLayout4>, setvals::<ss::BitSliceLayout8>]),
            m => { eprintln!("unknown mode {}", m); std::process::exit(2) },
        });
        let mut j = match res { Ok(j) => j, Err(m) => obj! { "kind" => s("panic"), "msg" => s(m) } };
        j.push("tr", i(t));
        out.emit(&j);
    }
}
