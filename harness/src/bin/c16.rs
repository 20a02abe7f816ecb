//! C16: repeated planning shares instances, and nothing leaks.
use dctmon::alloc::{self, heap};
use dctmon::algos;
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::{by_t, ensure};
use dctmon::mocks::*;
use rustdct::algorithm::*;
use rustdct::mdct::{window_fn, MdctNaive, MdctViaDct4};
use rustdct::rustfft::algorithm::Dft;
use rustdct::rustfft::{Fft, FftDirection, FftPlanner};
use rustdct::{TransformType2And3, TransformType4};
use std::sync::Arc;
use rustdct::{DctNum, DctPlanner};

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;


fn exec(c: &Case, obs: &mut Obs) -> Res {
    match c.s("op") {
        "share" => by_t!(c.s("t"), T => share::<T>(c, obs)),
        "family" => by_t!(c.s("t"), T => family::<T>(c, obs)),
        "crowd" => by_t!(c.s("t"), T => crowd::<T>(c, obs)),
        "ctor" => by_t!(c.s("t"), T => ctor::<T>(c, obs)),
        "inject" => inject(c, obs),
        "leak" => by_t!(c.s("t"), T => leak::<T>(c, obs)),
        _ => by_t!(c.s("t"), T => hist::<T>(c, obs)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Req {
    K(Kind, usize),
    /// window number, length, wrapped in a closure or passed as a function
    M(usize, usize, bool),
}
fn window<T: Real>(w: usize, len: usize) -> Vec<T> {
    match w {
        0 => window_fn::one(len),
        1 => window_fn::mp3(len),
        2 => window_fn::mp3_invertible(len),
        3 => window_fn::vorbis(len),
        4 => window_fn::vorbis_invertible(len),
        5 => window_fn::invertible(len),
        w => inputs::gen("white", len, None, &mut Rng::new(w as u64 * 77 + len as u64)),
    }
}
fn ask<T: Real>(p: &mut DctPlanner<T>, q: Req) -> Any<T> {
    match q {
        Req::K(k, n) => Any::D(plan_kind(p, k, n), String::new()),
        Req::M(w, n, closure) => Any::M(
            match (w, closure) {
                (1, false) => p.plan_mdct(n, window_fn::mp3),
                (3, false) => p.plan_mdct(n, window_fn::vorbis),
                (0, false) => p.plan_mdct(n, window_fn::one),
                _ => p.plan_mdct(n, |l| window(w, l)),
            },
            String::new(),
        ),
    }
}
fn sibling(q: Req, r: &mut Rng) -> Req {
    match q {
        Req::K(k, n) => Req::K(*r.pick(k.family().kinds()), n),
        Req::M(w, n, _) => Req::M(w, n, r.chance(1, 2)),
    }
}
fn random_req(r: &mut Rng, hi: usize) -> Req {
    if r.chance(1, 5) {
        let w = if r.chance(1, 4) { r.below(60) } else { r.below(9) };
        Req::M(w, 2 * r.logrange(1, hi / 2), r.chance(1, 2))
    } else {
        let k = *r.pick(&ALL);
        let mut n = r.logrange(2, if k.family().fast() { hi } else { hi.min(200) });
        if r.chance(1, 4) {
            n = n.next_power_of_two()
        }
        Req::K(k, n)
    }
}
fn use_it<T: DctNum>(a: &Any<T>) {
    for op in a.ops() {
        let x = vec![T::one(); a.in_len(op)];
        a.fresh(op, &x);
    }
}
/// allocate whatever the process allocates once (outside the measured window)
fn warm<T: Real>() {
    let mut p = DctPlanner::<T>::new();
    for q in [Req::K(Kind::Dct2, 30), Req::M(1, 12, false), Req::K(Kind::Dst6, 60)] {
        use_it(&ask(&mut p, q));
    }
    let _ = caught(|| p.plan_dct1(1));
    clear_last_panic();
}

/// the same requests over and over, every returned instance kept
fn share<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("share"));
    warm::<T>();
    let hi = c.u("hi");
    let reqs: Vec<Req> = (0..c.u("reqs")).map(|_| random_req(&mut r, hi)).collect();
    let rounds = c.u("rounds");
    let mut p = DctPlanner::<T>::new();
    let mut kept: Vec<Any<T>> = Vec::with_capacity(reqs.len() * (rounds + 2));
    for q in &reqs {
        kept.push(ask(&mut p, *q));
    }
    let mut order = reqs.clone();
    // every sibling form once more before the measurement starts
    let before_sib = heap();
    for q in &reqs {
        kept.push(ask(&mut p, sibling(*q, &mut r)));
    }
    let h0 = heap();
    let distinct = reqs.len() as i64;
    ensure!(h0.live_bytes - before_sib.live_bytes <= 64 * distinct,
        "asking again for {} planned transforms ({}) took {} bytes more", reqs.len(), T::NAME, h0.live_bytes - before_sib.live_bytes);
    let mut grown = 0;
    for round in 0..rounds {
        r.shuffle(&mut order);
        for q in &order {
            let q = if r.chance(1, 2) { sibling(*q, &mut r) } else { *q };
            let h1 = heap();
            let a = ask(&mut p, q);
            let h2 = heap();
            grown += h2.live_bytes - h1.live_bytes;
            ensure!(h2.live_bytes <= h1.live_bytes && h2.live_blocks <= h1.live_blocks,
                "{q:?} ({}) planned before; asking again (round {round}) took {} bytes in {} blocks more", T::NAME, h2.live_bytes - h1.live_bytes, h2.live_blocks - h1.live_blocks);
            kept.push(a);
            obs.eval(hash_str(&format!("{c}{q:?}{round}")), true);
            obs.count("repeat_requests", 1);
            obs.set("repeated_transforms", format_args!("{q:?}/{}", T::NAME));
        }
    }
    ensure!(grown <= 0, "{rounds} rounds of repeated requests ({}) took {grown} bytes", T::NAME);
    Ok(())
}

/// thousands of transforms of one family (or windows of one length) in one planner: all of them stay shared
fn crowd<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("crowd"));
    warm::<T>();
    let m = c.u("reqs");
    let mut reqs: Vec<Req> = match c.s("fam") {
        "mdct" => (0..m).map(|i| Req::M(i, 2 + 2 * (c.u("n") / 2), true)).collect(),
        "mdct-lengths" => (0..m).map(|i| Req::M(3, 2 + 2 * i, i % 2 == 0)).collect(),
        f => (0..m).map(|i| Req::K(*r.pick(Fam::parse(f).kinds()), i + 2)).collect(),
    };
    if r.chance(1, 2) {
        r.shuffle(&mut reqs);
    }
    let mut p = DctPlanner::<T>::new();
    let keep = r.chance(1, 2);
    let mut kept: Vec<Any<T>> = Vec::with_capacity(2 * m);
    for q in &reqs {
        let a = ask(&mut p, *q);
        if keep {
            kept.push(a);
        }
    }
    for (i, q) in reqs.iter().enumerate() {
        let h1 = heap();
        let a = ask(&mut p, *q);
        let h2 = heap();
        ensure!(h2.live_bytes <= h1.live_bytes && h2.live_blocks <= h1.live_blocks,
            "{q:?} ({}) is planned in a planner of {m} transforms; asking again took {} bytes in {} blocks more", T::NAME, h2.live_bytes - h1.live_bytes, h2.live_blocks - h1.live_blocks);
        if keep {
            kept.push(a);
        }
        if i % 16 == 0 {
            obs.eval(hash_str(&format!("{c}{q:?}")), true);
        }
        obs.count("crowd_requests", 1);
    }
    Ok(())
}

/// one request (or composition): plan, use, drop; and plan the same on a planner whose instances are dropped each time
fn leak<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("leak"));
    warm::<T>();
    let n = c.u("n");
    let what = format!("{} {n} {} ({})", c.s("fam"), c.s("alg"), T::NAME);
    let h0 = heap();
    {
        let a: Any<T> = make(c.s("fam"), n, c.s("alg"), &mut r, opts_for(n));
        use_it(&a);
        let h1 = heap();
        use_it(&a);
        let h2 = heap();
        ensure!(h1.live_bytes == h2.live_bytes && h1.live_blocks == h2.live_blocks, "{what}: using the instance took {} bytes", h2.live_bytes - h1.live_bytes);
    }
    let h3 = heap();
    ensure!(h3.live_bytes == h0.live_bytes && h3.live_blocks == h0.live_blocks,
        "{what}: after planning, processing and dropping everything {} bytes in {} blocks remain", h3.live_bytes - h0.live_bytes, h3.live_blocks - h0.live_blocks);
    obs.eval(hash_str(&what), true);
    obs.set("leak_checked", &what);
    Ok(())
}

/// random plan / process / panic / drop history, ending with everything dropped in random order
fn hist<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("hist16"));
    warm::<T>();
    let hi = c.u("hi");
    let steps = c.u("steps");
    // counted on the stack: the observations themselves must not disturb the heap
    let (mut plans, mut bad_calls, mut bad_plans, mut uses, mut dropped) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let h0 = heap();
    {
        let mut planners: Vec<DctPlanner<T>> = vec![DctPlanner::new()];
        let mut pool: Vec<Any<T>> = Vec::new();
        for _ in 0..steps {
            let pi = r.below(planners.len());
            match r.below(12) {
                0 if planners.len() < 3 => planners.push(DctPlanner::new()),
                1 if planners.len() > 1 => {
                    planners.swap_remove(pi);
                    dropped += 1;
                }
                2 | 3 if !pool.is_empty() => {
                    let i = r.below(pool.len());
                    pool.swap_remove(i);
                    dropped += 1;
                }
                4 | 5 if !pool.is_empty() => {
                    use_it(r.pick(&pool));
                    uses += 1;
                }
                6 if !pool.is_empty() => {
                    // a call with a buffer one too short
                    let a = r.pick(&pool).clone();
                    let op = *r.pick(&a.ops());
                    let x = vec![T::one(); a.in_len(op)];
                    let mut out = vec![T::one(); a.out_len(op)];
                    let mut s = vec![T::one(); a.scratch_len()];
                    let n = a.len();
                    let res = match (&a, op) {
                        (Any::D(i, _), Op::K(k)) if r.chance(1, 2) => caught(|| i.run_alloc(k, &mut out[1..])),
                        (Any::D(i, _), Op::K(k)) => caught(|| i.run(k, &mut out[1..], &mut s)),
                        (Any::M(m, _), Op::Fwd) => caught(|| m.process_mdct_with_scratch(&x[..n], &x[n..], &mut out[1..], &mut s)),
                        (Any::M(m, _), _) => caught(|| {
                            let (p, q) = out.split_at_mut(n);
                            m.process_imdct_with_scratch(&x[1..], p, q, &mut s)
                        }),
                        _ => panic!("HARNESS: op"),
                    };
                    bad_calls += res.is_err() as u64;
                }
                7 => {
                    let n = 2 * r.logrange(1, hi / 2);
                    let p = &mut planners[pi];
                    let res = match r.below(4) {
                        0 => caught(|| drop(p.plan_dct1(1))),
                        1 => caught(|| drop(p.plan_mdct(n + 1, window_fn::one))),
                        2 => caught(|| drop(p.plan_mdct(n, |l| vec![T::one(); l + 1]))),
                        _ => caught(|| drop(p.plan_mdct(n, |_| -> Vec<T> { panic!("window") }))),
                    };
                    bad_plans += res.is_err() as u64;
                }
                8 => {
                    // a direct composition, user-written parts included
                    let (fam, n, alg) = random_request(&mut r, 2, hi.min(200));
                    let a: Any<T> = make(fam, n, alg, &mut r, opts_for(n));
                    use_it(&a);
                    pool.push(a);
                }
                _ => {
                    let q = random_req(&mut r, hi);
                    let a = ask(&mut planners[pi], q);
                    pool.push(a);
                    plans += 1;
                }
            }
        }
        let mut all: Vec<Result<Any<T>, DctPlanner<T>>> = pool.into_iter().map(Ok).chain(planners.into_iter().map(Err)).collect();
        r.shuffle(&mut all);
        while let Some(x) = all.pop() {
            if let (Ok(a), true) = (&x, r.chance(1, 5)) {
                use_it(a); // instances outlive planners
            }
            drop(x);
        }
    }
    clear_last_panic();
    let h1 = heap();
    ensure!(h1.live_bytes == h0.live_bytes && h1.live_blocks == h0.live_blocks,
        "after a history of {steps} steps ({}: {plans} plans, {uses} uses, {bad_calls} rejected calls, {bad_plans} rejected plans, {dropped} drops) and dropping everything, {} bytes in {} blocks remain",
        T::NAME, h1.live_bytes - h0.live_bytes, h1.live_blocks - h0.live_blocks);
    obs.eval(hash_str(&c.to_string()), plans > 0);
    for (k, v) in [("plans", plans), ("panicked_calls", bad_calls), ("panicked_plans", bad_plans), ("uses", uses), ("drops_midway", dropped), ("histories", 1), ("allocations_observed", h1.allocs - h0.allocs)] {
        obs.count(k, v);
    }
    Ok(())
}

/// constructors and plans that are refused: nothing stays behind
fn ctor<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("ctor16"));
    warm::<T>();
    let (fwd, inv) = (FftDirection::Forward, FftDirection::Inverse);
    let (even, odd) = (2 * n, 2 * n - 1);
    type Try = Box<dyn Fn(&mut Rng)>;
    let mut tries: Vec<(String, Try)> = vec![];
    fn fft<T: Real>(n: usize, d: FftDirection, r: &mut Rng) -> Arc<dyn Fft<T>> {
        match r.below(3) {
            0 => FftPlanner::new().plan_fft(n, d),
            1 => Arc::new(Dft::new(n, d)),
            _ => Arc::new(MockFft::new(n, d, r.below(2 * n))),
        }
    }
    fn d23<T: Real>(l: usize, r: &mut Rng) -> Arc<dyn TransformType2And3<T>> {
        match r.below(3) {
            0 => Arc::new(Type2And3Naive::new(l)),
            1 => Arc::new(MockDct::type23(l, r.below(3 * l + 1))),
            _ => DctPlanner::new().plan_dct2(l),
        }
    }
    fn d4<T: Real>(l: usize, r: &mut Rng) -> Arc<dyn TransformType4<T>> {
        match r.below(3) {
            0 => Arc::new(Type4Naive::new(l)),
            1 => Arc::new(MockDct::type4(l, r.below(3 * l + 1))),
            _ => DctPlanner::new().plan_dct4(l),
        }
    }
    macro_rules! t {
        ($n:expr, $f:expr) => { tries.push(($n, Box::new($f))) };
    }
    for (m, d) in [(even, inv), (odd, inv), (odd, fwd)] {
        t!(format!("Dct1ConvertToFft over an fft {m} {d:?}"), move |r| drop(Dct1ConvertToFft::<T>::new(fft(m, d, r))));
        t!(format!("Dst1ConvertToFft over an fft {m} {d:?}"), move |r| drop(Dst1ConvertToFft::<T>::new(fft(m, d, r))));
    }
    for (m, d) in [(even, inv), (odd, inv), (even, fwd)] {
        t!(format!("Type4ConvertToFftOdd over an fft {m} {d:?}"), move |r| drop(Type4ConvertToFftOdd::<T>::new(fft(m, d, r))));
        t!(format!("Dst6And7ConvertToFft over an fft {m} {d:?}"), move |r| drop(Dst6And7ConvertToFft::<T>::new(fft(m, d, r))));
    }
    for m in [even, odd] {
        t!(format!("Type2And3ConvertToFft over an inverse fft {m}"), move |r| drop(Type2And3ConvertToFft::<T>::new(fft(m, inv, r))));
    }
    t!("Dct1Naive of length 1".into(), |_| drop(Dct1Naive::<T>::new(1)));
    t!("plan_dct1 of length 1".into(), |_| drop(DctPlanner::<T>::new().plan_dct1(1)));
    let p = n.next_power_of_two().max(4);
    for (h, q) in [(p, p), (p, p / 4), (p / 2, p), (p + 1, p / 2), (p, p / 2 + 1), (3 * p, 3 * p / 2), (1, 1)] {
        t!(format!("Type2And3SplitRadix over inner DCTs of {h} and {q}"), move |r| drop(Type2And3SplitRadix::<T>::new(d23(h, r), d23(q, r))));
    }
    t!(format!("MdctNaive of odd length {odd}"), move |_| drop(MdctNaive::<T>::new(odd, window_fn::mp3)));
    t!(format!("MdctViaDct4 of odd length {odd}"), move |r| drop(MdctViaDct4::<T>::new(d4(odd, r), window_fn::mp3)));
    t!(format!("plan_mdct of odd length {odd}"), move |_| drop(DctPlanner::<T>::new().plan_mdct(odd, window_fn::mp3)));
    for l in [0, 1, even, 2 * even - 1, 2 * even + 1, 4 * even] {
        t!(format!("MdctNaive {even} with a window of {l}"), move |_| drop(MdctNaive::<T>::new(even, |_| vec![T::one(); l])));
        t!(format!("MdctViaDct4 {even} with a window of {l}"), move |r| drop(MdctViaDct4::<T>::new(d4(even, r), |_| vec![T::one(); l])));
        t!(format!("plan_mdct {even} with a window of {l}"), move |_| {
            let mut p = DctPlanner::<T>::new();
            let _ = caught(|| drop(p.plan_mdct(even, |_| vec![T::one(); l])));
            drop(p.plan_mdct(even, |_| vec![T::one(); l]))
        });
    }
    t!(format!("MdctNaive {even} with a panicking window function"), move |_| drop(MdctNaive::<T>::new(even, |_| panic!("window"))));
    t!(format!("MdctViaDct4 {even} with a panicking window function"), move |r| drop(MdctViaDct4::<T>::new(d4(even, r), |_| panic!("window"))));
    t!(format!("plan_mdct {even} with a panicking window function"), move |_| drop(DctPlanner::<T>::new().plan_mdct(even, |_| -> Vec<T> { panic!("window") })));
    for (what, f) in tries {
        let h0 = heap();
        let res = caught(|| f(&mut r));
        clear_last_panic();
        let refused = res.is_err();
        drop(res);
        let h1 = heap();
        ensure!(h1.live_bytes == h0.live_bytes && h1.live_blocks == h0.live_blocks,
            "{what} ({}): {} bytes in {} blocks remain after the request was refused", T::NAME, h1.live_bytes - h0.live_bytes, h1.live_blocks - h0.live_blocks);
        obs.eval(hash_str(&format!("{what}{}", T::NAME)), refused);
        obs.count("refused_requests", refused as u64);
    }
    Ok(())
}

/// a number type whose k-th conversion or operation panics, in the middle of planning or of a call
fn inject(c: &Case, obs: &mut Obs) -> Res {
    use dctmon::numtypes::*;
    let (fam, n, alg) = (c.s("fam"), c.u("n"), c.s("alg"));
    let seed = c.seed() ^ hash_str("inject16");
    set_hook(Hook::Off);
    let session = |calls: bool| {
        let mut r = Rng::new(seed);
        let a: Any<Hooked> = make(fam, n, alg, &mut r, opts_for(n));
        if calls {
            for op in a.ops() {
                let mut x = vec![Hooked(1.0); a.in_len(op)];
                a.fresh(op, &x);
                if let (Any::D(i, _), Op::K(k)) = (&a, op) {
                    i.run_alloc(k, &mut x);
                }
            }
        }
    };
    session(true);
    set_hook(Hook::CountAll);
    session(true);
    let total = hook_count();
    set_hook(Hook::CountAll);
    session(false);
    let planning = hook_count();
    set_hook(Hook::Off);
    let _ = caught(|| panic!("warm"));
    clear_last_panic();
    let mut r = Rng::new(seed ^ 1);
    let points = c.u("points") as u64;
    let mut at: Vec<u64> = if total <= points { (0..total).collect() } else {
        (0..points).map(|i| if i % 2 == 0 && planning > 0 { r.u64() % planning } else { r.u64() % total }).collect()
    };
    at.sort();
    let mut fired = 0;
    for at in at {
        let h0 = heap();
        set_hook(Hook::PanicAll { at });
        let ok = caught(|| session(true)).is_ok();
        set_hook(Hook::Off);
        clear_last_panic();
        let h1 = heap();
        ensure!(h1.live_bytes == h0.live_bytes && h1.live_blocks == h0.live_blocks,
            "{fam} {n} {alg} over a number type that panics at its operation {at} of {total} ({} of them in planning): after dropping everything {} bytes in {} blocks remain",
            planning, h1.live_bytes - h0.live_bytes, h1.live_blocks - h0.live_blocks);
        fired += !ok as u64;
    }
    obs.eval(hash_str(&format!("{c}")), fired > 0);
    obs.count("injected_panics", fired);
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    alloc::self_test();
    let mut r = Rng::new(seed ^ 0xc16);
    let mut v = vec![];
    // every family at every small length, alone in its planner
    for fam in FAMS {
        for n in fam.min_len()..=tier.q(2100, 4500) {
            if !fam.fast() && n > 120 {
                continue;
            }
            let t = if r.chance(1, 2) { "f32" } else { "f64" };
            v.push(Case::new().with("op", "leak").with("fam", fam.name()).with("n", n).with("alg", "plan").with("t", t).with("s", r.u64() >> 16));
            for top in algos::tops(fam, n) {
                if n <= tier.q(300, 600) {
                    v.push(Case::new().with("op", "leak").with("fam", fam.name()).with("n", n).with("alg", top).with("t", t).with("s", r.u64() >> 16));
                }
            }
            v.push(Case::new().with("op", "family").with("fam", fam.name()).with("n", n).with("t", t).with("s", r.u64() >> 16));
        }
        if fam.fast() {
            for _ in 0..tier.q(150, 800) {
                let n = r.logrange(300, tier.q(20_000, 200_000));
                let n = if r.chance(1, 3) { n.next_power_of_two() } else { n };
                v.push(Case::new().with("op", "family").with("fam", fam.name()).with("n", n).with("t", "f32").with("s", r.u64() >> 16));
            }
        }
    }
    // long transforms are shared too (nothing is processed here, so the slow families can join)
    for fam in FAMS.iter().map(|f| f.name()).chain(["mdct"]) {
        for i in 0..tier.q(10, 40) {
            let n = match i {
                0 => 65_538,
                1 => 1 << r.range(15, 20),
                2 => r.logrange(1 << 19, 1 << 21) & !1,
                _ => r.logrange(10_000, 1 << 20) & !1,
            } + (fam != "mdct" && r.chance(1, 2)) as usize;
            let t = if r.chance(1, 2) { "f32" } else { "f64" };
            v.push(Case::new().with("op", "family").with("fam", fam).with("n", n).with("t", t).with("s", r.u64() >> 16));
        }
    }
    for n in 1..=tier.q(160, 500) {
        for t in ["f32", "f64"] {
            v.push(Case::new().with("op", "ctor").with("n", n).with("t", t).with("s", r.u64() >> 16));
        }
    }
    for n in 1..=tier.q(140, 300) {
        for fam in FAMS {
            if n < fam.min_len() {
                continue;
            }
            for alg in algos::tops(fam, n).into_iter().chain(["plan"]) {
                v.push(Case::new().with("op", "inject").with("fam", fam.name()).with("n", n).with("alg", alg).with("points", tier.q(80, 400)).with("s", r.u64() >> 16));
            }
        }
        for alg in ["plan", "dct4", "naive"] {
            v.push(Case::new().with("op", "inject").with("fam", "mdct").with("n", 2 * n).with("alg", alg).with("points", tier.q(80, 400)).with("s", r.u64() >> 16));
        }
    }
    for n in (2..=tier.q(600, 1500)).step_by(2) {
        for alg in ["plan", "dct4", "naive"] {
            v.push(Case::new().with("op", "leak").with("fam", "mdct").with("n", n).with("alg", alg).with("t", "f32").with("s", r.u64() >> 16));
        }
        for t in ["f64", "f32"] {
            v.push(Case::new().with("op", "family").with("fam", "mdct").with("n", n).with("t", t).with("s", r.u64() >> 16));
        }
    }
    for _ in 0..tier.q(3000, 12_000) {
        v.push(Case::new().with("op", "share").with("reqs", r.range(1, 60)).with("rounds", r.range(2, 12)).with("hi", r.logrange(8, tier.q(600, 5000))).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
    }
    for _ in 0..tier.q(15_000, 80_000) {
        v.push(Case::new().with("op", "hist").with("steps", r.logrange(5, tier.q(300, 1500))).with("hi", r.logrange(8, tier.q(300, 2000))).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
    }
    for _ in 0..tier.q(25, 300) {
        v.push(Case::new().with("op", "share").with("reqs", r.logrange(60, 2500)).with("rounds", r.range(1, 3)).with("hi", r.logrange(50, 1500)).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
    }
    // more transforms than a bounded table would hold
    for fam in FAMS.iter().map(|f| f.name()).chain(["mdct", "mdct-lengths"]) {
        v.push(Case::new().with("op", "crowd").with("fam", fam).with("reqs", tier.q(4200, 9000)).with("n", r.below(12)).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
    }
    r.shuffle(&mut v);
    v
}

/// one transform alone in its planner, asked for in every form many times, with other lengths in between
fn family<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("family"));
    warm::<T>();
    let n = c.u("n");
    let forms: Vec<Req> = match c.s("fam") {
        "mdct" => {
            let w = r.below(9);
            vec![Req::M(w, n, true), Req::M(w, n, false)]
        }
        f => Fam::parse(f).kinds().iter().map(|k| Req::K(*k, n)).collect(),
    };
    let mut p = DctPlanner::<T>::new();
    let mut kept: Vec<Any<T>> = Vec::with_capacity(64);
    kept.push(ask(&mut p, *r.pick(&forms)));
    for round in 0..6 {
        for q in &forms {
            let h1 = heap();
            let a = ask(&mut p, *q);
            let h2 = heap();
            let by = h2.live_bytes - h1.live_bytes;
            // an alias entry may be made once per form; nothing after that
            ensure!(by <= if round == 0 { 64 } else { 0 }, "{q:?} ({}): {} {n} is planned already, asking again (round {round}) took {by} bytes more", T::NAME, c.s("fam"));
            if round < 3 {
                kept.push(a);
            }
            obs.eval(hash_str(&format!("{c}{q:?}{round}")), true);
            obs.count("repeat_requests", 1);
        }
        if round == 3 {
            // with no instance alive outside the planner the data is still there
            kept.clear();
        }
    }
    obs.set("repeated_transforms", format_args!("{}/{n}/{}", c.s("fam"), T::NAME));
    Ok(())
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C16",
        rule: "family: one transform is planned and asked for again in every form of its family (MDCT: same window through a function or an equal closure), all instances kept; share: 1-60 transforms of all types re-requested in shuffled order for several rounds; crowd: 4200 (9000) transforms of one family, or windows of one length, in one planner; each repeat must leave the thread's live heap bytes and blocks where they were. leak: plan or compose, process, drop: heap returns to its level. hist: random histories over up to three planners with rejected calls and rejected plans, everything dropped in random order: live bytes and blocks return exactly. ctor: every request a constructor or the planner refuses (wrong direction, parity, pair, window length, panicking window), alone: nothing remains. inject: a number type whose k-th conversion or operation panics in planning or in a call: nothing remains after the unwinding. Non-trivial = a repeated request, or a history with at least one plan",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 30000), ("repeat_requests", 30000), ("crowd_requests", 50000), ("histories", 300), ("panicked_calls", 300), ("panicked_plans", 300), ("leak_checked", 1000), ("refused_requests", 8000), ("injected_panics", 40000), ("repeated_transforms", 3000)],
    })
}
