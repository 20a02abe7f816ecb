//! C08: invalid sizes are rejected by panic before any caller data changes.
use dctmon::algos::{self, Opts};
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::mocks::*;
use dctmon::real::*;
use dctmon::refer;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::tol::{self, Class};
use dctmon::{by_t, ensure};
use rustdct::algorithm::*;
use rustdct::mdct::{window_fn, MdctNaive, MdctViaDct4};
use rustdct::rustfft::algorithm::Dft;
use rustdct::rustfft::{Fft, FftDirection, FftPlanner, FftPlannerScalar};
use rustdct::{DctPlanner, TransformType2And3, TransformType4};
use std::sync::Arc;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

fn exec(c: &Case, obs: &mut Obs) -> Res {
    match c.s("op") {
        "size" => by_t!(c.s("t"), T => size::<T>(c, obs)),
        "ctor" => by_t!(c.s("t"), T => ctor::<T>(c, obs)),
        "sizeless" => sizeless(c, obs),
        _ => by_t!(c.s("t"), T => hist::<T>(c, obs)),
    }
}

/// lengths near to and far from the right one
fn wrong_lens(n: usize, r: &mut Rng) -> Vec<usize> {
    let mut v = vec![
        0, 1, 2, 3, n.wrapping_sub(1), n + 1, n.wrapping_sub(2), n + 2, n / 2, n / 4, 3 * n / 4, 2 * n, 2 * n + 1, 2 * n - 1, 3 * n, 4 * n, n + n / 2,
        8 * n, n + 16, n.wrapping_sub(16), r.below(2 * n + 2), r.below(n + 1), n.next_power_of_two(), (n + 1).next_power_of_two(), n + 4, n + 8,
    ];
    v.retain(|x| *x != n && *x <= 8 * n + 64);
    // lengths equal in their low bits, or differing in one bit
    v.push(n ^ (1 << r.below(13)));
    v.push(n + 256);
    if r.chance(1, 12) {
        v.push(n + 65_536);
    }
    v.sort();
    v.dedup();
    v
}
fn short_scratch(need: usize, n: usize, r: &mut Rng) -> Vec<usize> {
    let mut v = vec![0, 1, 2, need.wrapping_sub(1), need.wrapping_sub(2), need.wrapping_sub(3), need / 2, need / 4, n, n.wrapping_sub(1), n + 1, 2 * n, n / 2, need - need / 4, need & 0xff, need & 0xffff, need.wrapping_sub(256), need.wrapping_sub(65_536)];
    if need > 0 {
        v.push(r.below(need));
        v.push(r.below(need));
    }
    v.retain(|x| *x < need);
    v.sort();
    v.dedup();
    v
}

/// a caller buffer inside a larger block whose surroundings are watched
struct Guarded<T> {
    mem: Vec<T>,
    copy: Vec<T>,
    at: usize,
    len: usize,
}
impl<T: Real> Guarded<T> {
    fn new(len: usize, r: &mut Rng) -> Self {
        let at = 5 + r.below(4);
        let mem: Vec<T> = (0..len + at + 9).map(|_| T::of(r.sym())).collect();
        Guarded { copy: mem.clone(), mem, at, len }
    }
    fn s(&mut self) -> &mut [T] {
        &mut self.mem[self.at..self.at + self.len]
    }
    fn unchanged(&self) -> Result<(), String> {
        for (i, (a, b)) in self.mem.iter().zip(&self.copy).enumerate() {
            if a.bits() != b.bits() {
                return Err(format!("element {} of {} changed from {:e} to {:e}", i as i64 - self.at as i64, self.len, b.f(), a.f()));
            }
        }
        Ok(())
    }
}

fn size<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("size"));
    let a: Any<T> = make(c.s("fam"), n, c.s("alg"), &mut r, opts_for(n));
    let need = a.scratch_len();
    let what = format!("{} ({})", a.desc(), T::NAME);
    for op in a.ops() {
        let x: Vec<T> = inputs::gen("white", a.in_len(op), None, &mut r);
        let base = a.fresh(op, &x);
        match (&a, op) {
            (Any::D(inst, _), Op::K(k)) => {
                let mut tries: Vec<(usize, usize, &str)> = vec![];
                for l in wrong_lens(n, &mut r) {
                    tries.push((l, need + *r.pick(&[0usize, 0, 1, l, n, 4 * n]), "buffer"));
                    if need > 0 && r.chance(1, 3) {
                        tries.push((l, r.below(need), "both"));
                    }
                    tries.push((l, usize::MAX, "alloc"));
                }
                for s in short_scratch(need, n, &mut r) {
                    tries.push((n, s, "scratch"));
                }
                for (l, s, kind) in tries {
                    let mut d: Guarded<T> = Guarded::new(l, &mut r);
                    let res = if kind == "alloc" {
                        caught(|| inst.run_alloc(k, d.s()))
                    } else {
                        let mut scratch = vec![T::of(0.5); s];
                        caught(|| inst.run(k, d.s(), &mut scratch))
                    };
                    let how = if kind == "alloc" { "allocating call".to_string() } else { format!("scratch of {s} (advertised {need})") };
                    ensure!(res.is_err(), "{what} {op:?} of length {n}: a buffer of {l} with {how} was accepted");
                    d.unchanged().map_err(|m| format!("{what} {op:?} of length {n}: rejected a buffer of {l} with {how}, but after changing caller data: {m}"))?;
                    obs.eval(hash_str(&format!("{what}{op:?}{l}/{s}{kind}")), true);
                    obs.count(&format!("rejected.{kind}"), 1);
                }
            }
            (Any::M(m, _), _) => {
                let w = wrong_lens(n, &mut r);
                let mut combos: Vec<[usize; 3]> = vec![];
                for l in &w {
                    combos.push([*l, n, n]);
                    combos.push([n, *l, n]);
                    combos.push([n, n, *l]);
                    combos.push([*l, *l, *l]);
                    combos.push([n, *l, *l]);
                    combos.push([*l, n, *l]);
                    combos.push([*l, *l, n]);
                    if *l <= 2 * n {
                        // errors that compensate each other
                        combos.push([*l, 2 * n - *l, n]);
                        combos.push([n, *l, 2 * n - *l]);
                        combos.push([*l, n, 2 * n - *l]);
                    }
                }
                combos.retain(|c| *c != [n, n, n]);
                let mut tries: Vec<([usize; 3], usize)> = combos.into_iter().map(|c| (c, need + *r.pick(&[0usize, 0, 1, n, 4 * n]))).collect();
                for s in short_scratch(need, n, &mut r) {
                    tries.push(([n, n, n], s));
                    tries.push(([n, n, n + 1], s));
                }
                for ([la, lb, lc], s) in tries {
                    let (mut da, mut db, mut dc) = (Guarded::<T>::new(la, &mut r), Guarded::<T>::new(lb, &mut r), Guarded::<T>::new(lc, &mut r));
                    let mut scratch = vec![T::of(0.5); s];
                    let res = if op == Op::Fwd {
                        caught(|| m.process_mdct_with_scratch(da.s(), db.s(), dc.s(), &mut scratch))
                    } else {
                        caught(|| m.process_imdct_with_scratch(da.s(), db.s(), dc.s(), &mut scratch))
                    };
                    ensure!(res.is_err(), "{what} {op:?} of length {n}: buffers of ({la}, {lb}, {lc}) with scratch of {s} (advertised {need}) were accepted");
                    for d in [&da, &db, &dc] {
                        d.unchanged().map_err(|m| format!("{what} {op:?} of length {n}: rejected ({la}, {lb}, {lc}), scratch {s}, but after changing caller data: {m}"))?;
                    }
                    obs.eval(hash_str(&format!("{what}{op:?}{la}/{lb}/{lc}/{s}")), true);
                    obs.count(if [la, lb, lc] == [n, n, n] { "rejected.mdct_scratch" } else { "rejected.mdct_buffers" }, 1);
                }
            }
            _ => panic!("HARNESS: op"),
        }
        ensure!(a.len() == n && a.scratch_len() == need, "{what}: length or advertised scratch changed after rejected calls");
        let again = a.fresh(op, &x);
        ensure!(same_bits(&again, &base), "{what} {op:?}: result changed after rejected calls: {}", first_diff(&again, &base));
        obs.count("valid_calls_after_rejections", 1);
        obs.set("op_algorithm_length", format_args!("{op:?}/{}/{n}", c.s("alg")));
    }
    Ok(())
}

/// numbers without size: slices of any length cost nothing, so even lengths equal modulo 2^32 can be tried
fn sizeless(c: &Case, obs: &mut Obs) -> Res {
    use dctmon::numtypes::Unit;
    fn slice(n: usize) -> &'static mut [Unit] {
        // sound for a type of size zero and alignment one
        unsafe { std::slice::from_raw_parts_mut(std::ptr::NonNull::dangling().as_ptr(), n) }
    }
    let n = c.u("n");
    let mut p = rustdct::DctPlanner::<Unit>::new();
    let wrong = |r: &mut Rng| {
        let mut v: Vec<usize> = [8, 16, 24, 31, 32, 33, 40, 48, 62, 63].iter().map(|b| n.wrapping_add(1usize << b)).collect();
        v.extend([n + (3 << 32), n + (r.below(1 << 20) << 32), usize::MAX, usize::MAX - n, 0usize.wrapping_sub(n), isize::MAX as usize]);
        v
    };
    let mut r = Rng::new(c.seed() ^ hash_str("sizeless"));
    if c.s("fam") == "mdct" {
        let m = p.plan_mdct(n, |l| vec![Unit; l]);
        let need = m.get_scratch_len();
        for l in wrong(&mut r) {
            for (la, lb, lc) in [(l, n, n), (n, l, n), (n, n, l), (l, l, l)] {
                for inv in [false, true] {
                    let res = caught(|| if inv {
                        m.process_imdct_with_scratch(slice(la), slice(lb), slice(lc), slice(need))
                    } else {
                        m.process_mdct_with_scratch(slice(la), slice(lb), slice(lc), slice(need))
                    });
                    ensure!(res.is_err(), "mdct of length {n} over a zero-sized type: buffers of ({la}, {lb}, {lc}) were accepted");
                    obs.eval(hash_str(&format!("{c}{la}/{lb}/{lc}{inv}")), true);
                    obs.count("rejected.sizeless", 1);
                }
            }
        }
        return Ok(());
    }
    for &k in Fam::parse(c.s("fam")).kinds() {
        let i = plan_kind(&mut p, k, n);
        for l in wrong(&mut r) {
            for alloc in [false, true] {
                let res = caught(|| if alloc { i.run_alloc(k, slice(l)) } else { i.run(k, slice(l), slice(i.scratch_len())) });
                ensure!(res.is_err(), "{} of length {n} over a zero-sized type: a buffer of {l} was accepted", k.name());
                obs.eval(hash_str(&format!("{c}{k:?}{l}{alloc}")), true);
                obs.count("rejected.sizeless", 1);
            }
        }
    }
    Ok(())
}

fn ffts<T: Real>(n: usize, dir: FftDirection, r: &mut Rng) -> Vec<(String, Arc<dyn Fft<T>>)> {
    let mut v: Vec<(String, Arc<dyn Fft<T>>)> = vec![
        (format!("planned fft {n} {dir:?}"), FftPlanner::new().plan_fft(n, dir)),
        (format!("scalar fft {n} {dir:?}"), FftPlannerScalar::new().plan_fft(n, dir)),
        (format!("dft {n} {dir:?}"), Arc::new(Dft::new(n, dir))),
    ];
    if n > 0 {
        v.push((format!("user fft {n} {dir:?}"), Arc::new(MockFft::new(n, dir, r.below(2 * n)))));
    }
    v
}

fn must_reject<X>(obs: &mut Obs, what: &str, f: impl FnOnce() -> X) -> Res {
    ensure!(caught(f).is_err(), "{what} was accepted");
    obs.eval(hash_str(what), true);
    obs.count("constructors_rejected", 1);
    Ok(())
}

fn ctor<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("ctor"));
    let t = T::NAME;
    let (fwd, inv) = (FftDirection::Forward, FftDirection::Inverse);
    // inverse direction, right parity; and forward, wrong parity
    let even = 2 * n;
    let odd = 2 * n - 1;
    for (d, f) in ffts::<T>(even, inv, &mut r) {
        must_reject(obs, &format!("Dct1ConvertToFft over {d} ({t})"), || Dct1ConvertToFft::new(f.clone()))?;
        if even >= 4 {
            must_reject(obs, &format!("Dst1ConvertToFft over {d} ({t})"), || Dst1ConvertToFft::new(f.clone()))?;
        }
        must_reject(obs, &format!("Type2And3ConvertToFft over {d} ({t})"), || Type2And3ConvertToFft::new(f.clone()))?;
        must_reject(obs, &format!("Type4ConvertToFftOdd over {d} ({t})"), || Type4ConvertToFftOdd::new(f.clone()))?;
        must_reject(obs, &format!("Dst6And7ConvertToFft over {d} ({t})"), || Dst6And7ConvertToFft::new(f.clone()))?;
    }
    for (d, f) in ffts::<T>(odd, inv, &mut r) {
        must_reject(obs, &format!("Dct1ConvertToFft over {d} ({t})"), || Dct1ConvertToFft::new(f.clone()))?;
        must_reject(obs, &format!("Dst1ConvertToFft over {d} ({t})"), || Dst1ConvertToFft::new(f.clone()))?;
        must_reject(obs, &format!("Type2And3ConvertToFft over {d} ({t})"), || Type2And3ConvertToFft::new(f.clone()))?;
        must_reject(obs, &format!("Type4ConvertToFftOdd over {d} ({t})"), || Type4ConvertToFftOdd::new(f.clone()))?;
        must_reject(obs, &format!("Dst6And7ConvertToFft over {d} ({t})"), || Dst6And7ConvertToFft::new(f.clone()))?;
    }
    for (d, f) in ffts::<T>(odd, fwd, &mut r) {
        must_reject(obs, &format!("Dct1ConvertToFft over {d} ({t})"), || Dct1ConvertToFft::new(f.clone()))?;
        must_reject(obs, &format!("Dst1ConvertToFft over {d} ({t})"), || Dst1ConvertToFft::new(f.clone()))?;
    }
    for (d, f) in ffts::<T>(even, fwd, &mut r) {
        must_reject(obs, &format!("Type4ConvertToFftOdd over {d} ({t})"), || Type4ConvertToFftOdd::new(f.clone()))?;
        must_reject(obs, &format!("Dst6And7ConvertToFft over {d} ({t})"), || Dst6And7ConvertToFft::new(f.clone()))?;
    }
    must_reject(obs, &format!("Dct1Naive of length 1 ({t})"), || Dct1Naive::<T>::new(1))?;
    // split radix: every wrong pair
    let inner = |l: usize, r: &mut Rng| -> Arc<dyn TransformType2And3<T>> {
        match r.below(4) {
            0 => Arc::new(Type2And3Naive::new(l)),
            1 => Arc::new(MockDct::type23(l, r.below(3 * l + 1))),
            2 => Arc::new(Type2And3ConvertToFft::new(FftPlanner::new().plan_fft_forward(l))),
            _ => DctPlanner::new().plan_dct2(l),
        }
    };
    let p = n.next_power_of_two().max(2);
    let mut pairs = vec![
        (p, p), (p, p / 4), (p / 2, p), (p, 2 * p), (1, 1), (n, n / 2), (p, p / 2 + 1), (p + 1, p / 2), (2 * n, n), (3 * p, 3 * p / 2), (p, 1), (p + 2, p / 2 + 1), (1, n),
        (p - 1, p / 2), (p, p / 2 - 1), (n, n), (n + 1, n / 2),
    ];
    pairs.retain(|(h, q)| {
        let ok = (2 * *h).is_power_of_two() && 2 * *h > 2 && *h == 2 * *q;
        !ok && *h > 0 && *q > 0
    });
    for (h, q) in pairs {
        let (hd, qd) = (inner(h, &mut r), inner(q, &mut r));
        must_reject(obs, &format!("Type2And3SplitRadix over inner DCTs of {h} and {q} ({t})"), || Type2And3SplitRadix::new(hd, qd))?;
    }
    // MDCT: odd length, wrong window, over naive / planned / user-written inner DCT4s
    let inner4 = |l: usize, r: &mut Rng| -> Arc<dyn TransformType4<T>> {
        match r.below(3) {
            0 => Arc::new(Type4Naive::new(l)),
            1 => Arc::new(MockDct::type4(l, r.below(3 * l + 1))),
            _ => DctPlanner::new().plan_dct4(l),
        }
    };
    must_reject(obs, &format!("MdctNaive of odd length {odd} ({t})"), || MdctNaive::<T>::new(odd, window_fn::mp3))?;
    let i4 = inner4(odd, &mut r);
    must_reject(obs, &format!("MdctViaDct4 of odd length {odd} ({t})"), || MdctViaDct4::<T>::new(i4, window_fn::one))?;
    let mut planner = DctPlanner::<T>::new();
    if r.chance(1, 2) {
        planner.plan_dct4(odd);
    }
    must_reject(obs, &format!("plan_mdct of odd length {odd} ({t})"), || planner.plan_mdct(odd, window_fn::vorbis))?;
    must_reject(obs, &format!("plan_mdct of odd length {odd}, asked again ({t})"), || planner.plan_mdct(odd, window_fn::vorbis))?;
    must_reject(obs, &format!("plan_dct1 of length 1 ({t})"), || planner.plan_dct1(1))?;
    must_reject(obs, &format!("plan_dct1 of length 1, asked again ({t})"), || planner.plan_dct1(1))?;
    let mut wl = vec![0, 1, even, 2 * even - 1, 2 * even + 1, 4 * even, even + 1, 2 * even + 2, 2 * even - 2, 3 * even];
    wl.retain(|l| *l != 2 * even);
    for l in wl {
        must_reject(obs, &format!("MdctNaive {even} with a window of {l} ({t})"), || MdctNaive::<T>::new(even, |_| vec![T::one(); l]))?;
        let i4 = inner4(even, &mut r);
        must_reject(obs, &format!("MdctViaDct4 {even} with a window of {l} ({t})"), || MdctViaDct4::<T>::new(i4, |_| vec![T::one(); l]))?;
        if r.chance(1, 2) {
            planner.plan_mdct(even, window_fn::one); // a good instance of that length exists already
        }
        must_reject(obs, &format!("plan_mdct {even} with a window of {l} ({t})"), || planner.plan_mdct(even, |_| vec![T::one(); l]))?;
        must_reject(obs, &format!("plan_mdct {even} with a window of {l}, asked again ({t})"), || planner.plan_mdct(even, |_| vec![T::one(); l]))?;
    }
    must_reject(obs, &format!("plan_mdct {even} with a panicking window function ({t})"), || planner.plan_mdct(even, |_| -> Vec<T> { panic!("window function") }))?;
    // the planner still works, for the lengths that were refused and others
    for k in ALL {
        for m in [odd, even, even + 1] {
            let m = m.max(k.min_len());
            usable(obs, &mut planner, k, m, &mut r)?;
        }
    }
    usable_mdct(obs, &mut planner, even, &mut r)?;
    obs.set("constructor_lengths", n);
    Ok(())
}

fn usable<T: Real>(obs: &mut Obs, p: &mut DctPlanner<T>, k: Kind, n: usize, r: &mut Rng) -> Res {
    let i = plan_kind(p, k, n);
    let x: Vec<T> = inputs::gen("white", n, None, r);
    let label = format!("{} {n} ({}) planned after rejected requests", k.name(), T::NAME);
    ensure!(i.len() == n, "{label}: reports length {}", i.len());
    let out = i.apply(k, &x);
    let xf = to_f64(&x);
    let class = if k.family().fast() && n > 64 { Class::Fast } else { Class::Naive };
    tol::check::<T>(obs, &label, class, &xf, &out, &refer::reference(k, &xf), true, 3.0)?;
    obs.count("plans_after_rejections", 1);
    Ok(())
}
fn usable_mdct<T: Real>(obs: &mut Obs, p: &mut DctPlanner<T>, n: usize, r: &mut Rng) -> Res {
    let w: Vec<T> = inputs::gen("white", 2 * n, None, r);
    let wc = w.clone();
    let m = p.plan_mdct(n, move |_| wc);
    let x: Vec<T> = inputs::gen("white", 2 * n, None, r);
    let label = format!("mdct {n} ({}) planned after rejected requests", T::NAME);
    ensure!(m.len() == n, "{label}: reports length {}", m.len());
    let out = run_mdct(&*m, &x[..n], &x[n..], None);
    let (wf, xf) = (to_f64(&w), to_f64(&x));
    let wx: Vec<f64> = xf.iter().zip(&wf).map(|(a, b)| a * b).collect();
    tol::check::<T>(obs, &label, Class::Naive, &wx, &out, &refer::mdct(&wf, &xf, n), false, 8.0)?;
    obs.count("plans_after_rejections", 1);
    Ok(())
}

/// one planner, one pool of instances, valid and invalid requests and calls interleaved
fn hist<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("hist8"));
    let mut p = DctPlanner::<T>::new();
    let mut pool: Vec<(Any<T>, Op, Vec<T>, Vec<T>)> = vec![];
    for step in 0..c.u("steps") {
        match r.below(7) {
            0 => {
                let k = *r.pick(&ALL);
                let n = r.logrange(2, 200);
                usable(obs, &mut p, k, n, &mut r)?;
                let a = Any::D(plan_kind(&mut p, k, n), format!("planned {} {n}", k.name()));
                let x: Vec<T> = inputs::gen("white", n, None, &mut r);
                let b = a.fresh(Op::K(k), &x);
                pool.push((a, Op::K(k), x, b));
            }
            1 => {
                let n = 2 * r.logrange(1, 80);
                usable_mdct(obs, &mut p, n, &mut r)?;
                let a = Any::M(p.plan_mdct(n, window_fn::mp3), format!("planned mdct {n}"));
                let op = if r.chance(1, 2) { Op::Fwd } else { Op::Inv };
                let x: Vec<T> = inputs::gen("white", a.in_len(op), None, &mut r);
                let b = a.fresh(op, &x);
                pool.push((a, op, x, b));
            }
            2 => {
                let n = 2 * r.logrange(1, 80) - 1;
                must_reject(obs, &format!("step {step}: plan_mdct of odd length {n} ({})", T::NAME), || p.plan_mdct(n, window_fn::one))?;
            }
            3 => {
                let n = 2 * r.logrange(1, 80);
                let l = 2 * n + 1 + r.below(4);
                must_reject(obs, &format!("step {step}: plan_mdct {n} with a window of {l} ({})", T::NAME), || p.plan_mdct(n, |_| vec![T::one(); l]))?;
            }
            4 => must_reject(obs, &format!("step {step}: plan_dct1(1) ({})", T::NAME), || p.plan_dct1(1))?,
            _ if pool.is_empty() => {}
            5 => {
                // a bad call on some instance
                let (a, op, ..) = r.pick(&pool).clone();
                let n = a.len();
                let mut d: Guarded<T> = Guarded::new(if r.chance(1, 2) { n + 1 } else { n - 1 }, &mut r);
                let (need, what) = (a.scratch_len(), a.desc().to_string());
                let mut s = vec![T::nan(); need];
                let (y, z) = (vec![T::of(1.0); n], vec![T::of(1.0); n]);
                let mut y2 = y.clone();
                let res = match (&a, op) {
                    (Any::D(i, _), Op::K(k)) => caught(|| i.run(k, d.s(), &mut s)),
                    (Any::M(m, _), Op::Fwd) => caught(|| m.process_mdct_with_scratch(&y, &z, d.s(), &mut s)),
                    (Any::M(m, _), _) => caught(|| m.process_imdct_with_scratch(&z, &mut y2, d.s(), &mut s)),
                    _ => panic!("HARNESS"),
                };
                ensure!(res.is_err(), "step {step}: {what} {op:?} accepted a buffer of {} instead of {n}", d.len);
                d.unchanged().map_err(|m| format!("step {step}: {what} {op:?} ({}): {m}", T::NAME))?;
                ensure!(same_bits(&y, &y2), "step {step}: {what} {op:?}: rejected call changed its first output buffer");
                obs.eval(hash_str(&format!("{c}{step}")), true);
            }
            _ => {
                let (a, op, x, b) = r.pick(&pool).clone();
                let out = a.fresh(op, &x);
                ensure!(same_bits(&out, &b), "step {step}: {} {op:?} gives another result than before the rejected calls: {}", a.desc(), first_diff(&out, &b));
                obs.count("valid_calls_after_rejections", 1);
            }
        }
    }
    obs.count("histories", 1);
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    refer::self_test();
    let mut r = Rng::new(seed ^ 0xc08);
    let mut v = vec![];
    let mut push = |fam: &str, n: usize, alg: &str, t: &str, s: u64| {
        v.push(Case::new().with("op", "size").with("fam", fam).with("n", n).with("alg", alg).with("t", t).with("s", s >> 16));
    };
    for fam in FAMS {
        for n in fam.min_len()..=tier.q(400, 1200) {
            if !fam.fast() && n > 130 {
                continue;
            }
            push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
            for top in algos::tops(fam, n) {
                for _ in 0..if n <= tier.q(150, 300) { 2 } else { 0 } {
                    push(fam.name(), n, top, if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
                }
            }
        }
        for e in 1..=tier.q(11, 15) {
            if fam.fast() {
                push(fam.name(), 1 << e, "plan", "f64", r.u64());
                push(fam.name(), (1 << e) + 1, "plan", "f32", r.u64());
            }
            if fam == Fam::T23 && e >= 2 {
                for _ in 0..4 {
                    push("t23", 1 << e, "sr", "f32", r.u64());
                }
            }
        }
    }
    for n in (2..=tier.q(300, 800)).step_by(2) {
        for alg in ["plan", "dct4", "naive"] {
            if n <= 200 || alg != "naive" {
                push("mdct", n, alg, if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
            }
        }
    }
    for _ in 0..tier.q(150, 2000) {
        let fam = *r.pick(&FAMS);
        let n = r.logrange(160, if fam.fast() { tier.q(20_000, 150_000) } else { tier.q(900, 3000) });
        push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
    }
    for _ in 0..tier.q(30, 400) {
        push("mdct", 2 * r.logrange(60, tier.q(6_000, 50_000)), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
    }
    let _ = Opts::small();
    for n in 1..=tier.q(120, 300) {
        for t in ["f64", "f32"] {
            v.push(Case::new().with("op", "ctor").with("n", n).with("t", t).with("s", r.u64() >> 16));
        }
    }
    for _ in 0..tier.q(1500, 20_000) {
        v.push(Case::new().with("op", "hist").with("steps", r.range(20, 200)).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
    }
    for fam in FAMS.iter().map(|f| f.name()).chain(["mdct"]) {
        for n in (2..=tier.q(70, 200)).chain([128, 256, 1000, 1024]) {
            if fam != "mdct" || n % 2 == 0 {
                v.push(Case::new().with("op", "sizeless").with("fam", fam).with("n", n).with("t", "unit").with("s", r.u64() >> 16));
            }
        }
    }
    r.shuffle(&mut v);
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C08",
        rule: "size: an instance (planned or random composition) is called with about 25 wrong buffer lengths, short scratch lengths and both, in the scratch and allocating forms (MDCT: single, double and mutually compensating length errors over the three buffers); each call must panic, every caller buffer and its surroundings must be bit-identical afterwards, and a valid call must give the same bits as before. ctor: every constructor and planner request with an unsuitable part must panic, also when repeated or when a good instance is cached, and the planner must still produce correct instances. hist: random interleavings. sizeless: over a zero-sized number type, buffer lengths n + 2^8 .. n + 2^63. Every evaluation is a rejected call, so all are non-trivial",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 60000), ("rejected.buffer", 10000), ("rejected.scratch", 2000), ("rejected.alloc", 10000), ("rejected.mdct_buffers", 5000), ("rejected.mdct_scratch", 300), ("rejected.sizeless", 10000), ("constructors_rejected", 4000), ("plans_after_rejections", 3000), ("valid_calls_after_rejections", 1500), ("op_algorithm_length", 2000)],
    })
}
