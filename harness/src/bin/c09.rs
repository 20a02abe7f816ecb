//! C09: no memory error or undefined behaviour. The verdict comes from the sanitizer, the interpreter, the guard
//! pages and the canaries; results are other properties' business, and so are panics.
use dctmon::algos::{self, Opts};
use dctmon::any::*;
use dctmon::ensure;
use dctmon::kinds::*;
use dctmon::mocks::*;
use dctmon::numtypes::*;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use rustdct::algorithm::*;
use rustdct::mdct::{window_fn, MdctNaive, MdctViaDct4};
use rustdct::rustfft::{Fft, FftDirection, FftPlanner};
use rustdct::{DctNum, DctPlanner};
use std::sync::Arc;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

trait Val: DctNum {
    fn v(x: f64) -> Self;
    fn same(&self, o: &Self) -> bool;
}
impl Val for f32 {
    fn v(x: f64) -> f32 { x as f32 }
    fn same(&self, o: &f32) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
}
impl Val for f64 {
    fn v(x: f64) -> f64 { x }
    fn same(&self, o: &f64) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
}
impl Val for Aligned64 {
    fn v(x: f64) -> Self { Aligned64(x) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
}
impl Val for Hooked {
    fn v(x: f64) -> Self { Hooked(x) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
}
impl Val for Unit {
    fn v(_: f64) -> Self { Unit }
    fn same(&self, _: &Self) -> bool { true }
}

// ---- guard pages --------------------------------------------------------------------------------------------------
extern "C" {
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, l: usize) -> i32;
}
const PAGE: usize = 4096;
/// a slice flush against an inaccessible page, at its end or at its start
struct Fenced<T> {
    base: *mut u8,
    total: usize,
    p: *mut T,
    len: usize,
}
impl<T: Val> Fenced<T> {
    fn new(x: &[T], at_end: bool) -> Self {
        let bytes = std::mem::size_of_val(x);
        let body = (bytes + PAGE - 1) / PAGE * PAGE;
        let total = body + 2 * PAGE;
        // SAFETY: a fresh anonymous mapping; the body between the two fences holds x
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 0, 0x22, -1, 0);
            assert!(base as isize != -1, "HARNESS: mmap");
            assert!(body == 0 || mprotect(base.add(PAGE), body, 3) == 0, "HARNESS: mprotect");
            let p = base.add(if at_end { PAGE + body - bytes } else { PAGE }) as *mut T;
            std::ptr::copy_nonoverlapping(x.as_ptr(), p, x.len());
            Fenced { base, total, p, len: x.len() }
        }
    }
    fn s(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.len) }
    }
}
impl<T> Drop for Fenced<T> {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.total);
        }
    }
}

macro_rules! by_val {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            "f32" => { type $T = f32; $e }
            "f64" => { type $T = f64; $e }
            "aligned" => { type $T = Aligned64; $e }
            "hooked" => { type $T = Hooked; $e }
            "unit" => { type $T = Unit; $e }
            o => panic!("HARNESS: type {o}"),
        }
    };
}

fn exec(c: &Case, obs: &mut Obs) -> Res {
    set_hook(Hook::Off);
    by_val!(c.s("t"), T => match c.s("op") {
        "call" => call::<T>(c, obs),
        "fence" => fence::<T>(c, obs),
        "fresh" => fresh::<T>(c, obs),
        "ctor" => ctor::<T>(c, obs),
        "bf" => bf::<T>(c, obs),
        "history" => history::<T>(c, obs),
        o => panic!("HARNESS: op {o}"),
    })
}

fn val<T: Val>(r: &mut Rng) -> T {
    T::v(match r.below(24) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => 1e300,
        3 => 1e-310,
        4 => 0.0,
        _ => r.sym(),
    })
}
fn vals<T: Val>(n: usize, r: &mut Rng) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    v.extend((0..n).map(|_| val::<T>(r)));
    v
}
/// an exactly sized heap block
fn boxed<T: Val>(n: usize, r: &mut Rng) -> Box<[T]> {
    vals(n, r).into_boxed_slice()
}

/// library code: a panic is none of this property's business
fn run(obs: &mut Obs, what: &str, f: impl FnOnce()) -> Result<bool, String> {
    match caught(f) {
        Ok(()) => {
            obs.count(&format!("{what}.returned"), 1);
            Ok(true)
        }
        Err(m) if m.contains("HARNESS") => Err(m),
        Err(m) => {
            if std::env::var_os("C09_DEBUG").is_some() && what != "misuse" && what != "unwound" && what!="odd_parts" {
                eprintln!("{what}: {m}");
            }
            obs.count(&format!("{what}.panicked"), 1);
            Ok(false)
        }
    }
}

fn exercise<T: Val>(a: &Any<T>, r: &mut Rng, obs: &mut Obs, tag: &str, key: &str, heavy: bool) -> Res {
    let need = a.scratch_len();
    if need > 1 << 26 || a.len() > 1 << 24 {
        return Ok(());
    }
    for op in a.ops() {
        let (ni, no) = (a.in_len(op), a.out_len(op));
        // exactly sized heap blocks
        let x = boxed::<T>(ni, r);
        let mut out = boxed::<T>(no, r);
        let mut scratch = boxed::<T>(need, r);
        run(obs, tag, || a.call_into(op, &x, &mut out, &mut scratch))?;
        obs.eval(hash_str(&format!("{key}{op:?}")), ni >= 2);
        if let (Any::D(i, _), Op::K(k)) = (a, op) {
            let mut b = boxed::<T>(ni, r);
            run(obs, tag, || i.run_alloc(k, &mut b))?;
        }
        if !heavy {
            continue;
        }
        // the same inside larger blocks: surroundings stay unchanged and have no influence
        let mut results: Vec<Vec<T>> = vec![];
        let (o0, s0) = (vals::<T>(no, r), vals::<T>(need, r));
        let (go, gs) = (r.range(1, 9), r.range(1, 9));
        for turn in 0..2 {
            let frame = |n: usize, g: usize, body: &[T], r: &mut Rng| -> Vec<T> {
                let mut v: Vec<T> = (0..n + 2 * g).map(|_| if turn == 0 { T::v(f64::NAN) } else { T::v(r.sym() * 1e9) }).collect();
                v[g..g + n].copy_from_slice(body);
                v
            };
            let xi = frame(ni, 4, &x, r);
            let mut oo = frame(no, go, &o0, r);
            let mut ss = frame(need, gs, &s0, r);
            let (xi0, oo0, ss0) = (xi.clone(), oo.clone(), ss.clone());
            if !run(obs, tag, || a.call_into(op, &xi[4..4 + ni], &mut oo[go..go + no], &mut ss[gs..gs + need]))? {
                break;
            }
            let same = |name: &str, v: &[T], v0: &[T], n: usize, g: usize| -> Res {
                for i in (0..g).chain(g + n..n + 2 * g) {
                    ensure!(v[i].same(&v0[i]), "{} {op:?}: wrote {:?} at element {} of a {name} of {n}", a.desc(), v[i], i as i64 - g as i64);
                }
                Ok(())
            };
            same("output", &oo, &oo0, no, go)?;
            same("scratch", &ss, &ss0, need, gs)?;
            same("input", &xi, &xi0, ni, 4)?;
            for i in 0..ni {
                ensure!(xi[4 + i].same(&xi0[4 + i]), "{} {op:?}: wrote to its read-only input {i}", a.desc());
            }
            results.push(oo[go..go + no].to_vec());
            obs.count("canaried_calls", 1);
        }
        if let [p, q] = &results[..] {
            for i in 0..no {
                ensure!(p[i].same(&q[i]), "{} {op:?}: output {i} depends on memory outside the slices it was given: {:?} / {:?}", a.desc(), p[i], q[i]);
            }
        }
        obs.eval(hash_str(&format!("{key}{op:?}c")), ni >= 2);
        // misuse: anything but silent corruption
        for _ in 0..3 {
            let wild = |n: usize, r: &mut Rng| match r.below(10) {
                0 => 0,
                1 => n + 1,
                2 => n.saturating_sub(1),
                3 => r.below(2 * n + 3),
                4 => 2 * n,
                5 => n / 2,
                _ => n,
            };
            let (wo, ws) = (wild(no, r), wild(need, r));
            let mut out = boxed::<T>(wo, r);
            let mut scratch = boxed::<T>(ws, r);
            match (a, op) {
                (Any::D(i, _), Op::K(k)) => {
                    run(obs, "misuse", || i.run(k, &mut out, &mut scratch))?;
                    run(obs, "misuse", || i.run_alloc(k, &mut out))?;
                }
                (Any::M(m, _), Op::Fwd) => {
                    let (p, q) = (boxed::<T>(wild(a.len(), r), r), boxed::<T>(wild(a.len(), r), r));
                    run(obs, "misuse", || m.process_mdct_with_scratch(&p, &q, &mut out, &mut scratch))?;
                }
                (Any::M(m, _), _) => {
                    let (p, mut q) = (boxed::<T>(wild(a.len(), r), r), boxed::<T>(wild(a.len(), r), r));
                    let mut o2 = boxed::<T>(wild(a.len(), r), r);
                    run(obs, "misuse", || m.process_imdct_with_scratch(&p, &mut q, &mut o2, &mut scratch))?;
                }
                _ => {}
            }
            obs.eval(hash_str(&format!("{key}{op:?}{wo}/{ws}")), true);
        }
        // unwinding out of the middle of a call, and going on
        if std::any::TypeId::of::<T>() == std::any::TypeId::of::<Hooked>() {
            for _ in 0..4 {
                set_hook(Hook::Panic { at: r.below(ni * 12 + 4) as u64 });
                let mut out = boxed::<T>(no, r);
                let mut scratch = boxed::<T>(need, r);
                run(obs, "unwound", || a.call_into(op, &x, &mut out, &mut scratch))?;
                set_hook(Hook::Off);
                obs.eval(hash_str(&format!("{key}{op:?}u{}", r.u64())), true);
            }
        }
    }
    Ok(())
}

fn call<T: Val>(c: &Case, obs: &mut Obs) -> Res {
    let (fam, n, alg) = (c.s("fam"), c.u("n"), c.s("alg"));
    let mut r = Rng::new(c.seed() ^ hash_str("mem"));
    let mut inst: Option<Any<T>> = None;
    run(obs, "construction", || inst = Some(make(fam, n, alg, &mut r, opts_for(n))))?;
    if let Some(a) = inst {
        exercise(&a, &mut r, obs, "call", &c.to_string(), c.opt("heavy") != Some("0"))?;
        obs.set("instances", format_args!("{fam}/{alg}/{n}/{}", c.s("t")));
    }
    Ok(())
}

/// slices flush against inaccessible pages
fn fence<T: Val>(c: &Case, obs: &mut Obs) -> Res {
    let (fam, n, alg) = (c.s("fam"), c.u("n"), c.s("alg"));
    let mut r = Rng::new(c.seed() ^ hash_str("fence"));
    let mut inst: Option<Any<T>> = None;
    run(obs, "construction", || inst = Some(make(fam, n, alg, &mut r, opts_for(n))))?;
    let Some(a) = inst else { return Ok(()) };
    for op in a.ops() {
        for at_end in [true, false] {
            let x = Fenced::new(&vals::<T>(a.in_len(op), &mut r), at_end);
            let x: &[T] = unsafe { std::slice::from_raw_parts(x.p, x.len) };
            let _keep = &x;
            let xs = Fenced::new(x, at_end);
            let mut out = Fenced::new(&vals::<T>(a.out_len(op), &mut r), at_end);
            let mut scratch = Fenced::new(&vals::<T>(a.scratch_len(), &mut r), at_end);
            run(obs, "fenced", || a.call_into(op, unsafe { std::slice::from_raw_parts(xs.p, xs.len) }, out.s(), scratch.s()))?;
            if let (Any::D(i, _), Op::K(k)) = (&a, op) {
                run(obs, "fenced", || i.run_alloc(k, out.s()))?;
            }
            obs.eval(hash_str(&format!("{c}{op:?}{at_end}")), n >= 2);
        }
    }
    obs.set("instances", format_args!("{fam}/{alg}/{n}/{}", c.s("t")));
    Ok(())
}

/// nothing depends on what freshly allocated memory holds (it is uninitialized)
fn fresh<T: Val>(c: &Case, obs: &mut Obs) -> Res {
    use dctmon::alloc::{filling, set_pattern, NANS};
    if !filling() {
        return Ok(());
    }
    let (fam, n, alg) = (c.s("fam"), c.u("n"), c.s("alg"));
    let mut first: Option<Vec<Vec<T>>> = None;
    for pattern in [NANS, 0, 0x7ff0_0000_ff80_0000, 0x4015_7a3c_40ab_1357, 0x0000_0000_0000_0001, u64::MAX] {
        let mut r = Rng::new(c.seed() ^ hash_str("fresh"));
        set_pattern(pattern);
        let mut results: Vec<Vec<T>> = vec![];
        let done = caught(|| {
            let a: Any<T> = make(fam, n, alg, &mut r, opts_for(n));
            for op in a.ops() {
                let x: Vec<T> = (0..a.in_len(op)).map(|_| T::v(r.sym())).collect();
                results.push(a.fresh(op, &x));
                if let (Any::D(i, _), Op::K(k)) = (&a, op) {
                    let mut y = x.clone();
                    i.run_alloc(k, &mut y);
                    results.push(y);
                }
            }
        });
        set_pattern(NANS);
        if done.is_err() {
            obs.count("fresh.panicked", 1);
            return Ok(());
        }
        match &first {
            None => first = Some(results),
            Some(f) => {
                for (i, (a, b)) in f.iter().zip(&results).enumerate() {
                    if let Some(k) = a.iter().zip(b).position(|(x, y)| !x.same(y)) {
                        return Err(format!("{fam} {n} {alg} ({}): output {k} of call {i} depends on uninitialized memory: {:?} or {:?}, as fresh heap memory holds {NANS:x} or {pattern:x}", c.s("t"), a[k], b[k]));
                    }
                }
                obs.eval(hash_str(&format!("{c}{pattern:x}")), n >= 2);
            }
        }
    }
    obs.count("fresh_memory_instances", 1);
    Ok(())
}

/// the unsafe in-place butterflies: exact buffers, and longer ones
fn bf<T: Val>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("bf"));
    for k in Fam::T23.kinds() {
        for _ in 0..6 {
            let mut b = boxed::<T>(n, &mut r);
            algos::butterfly_unsafe(*k, &mut b);
            let mut big = boxed::<T>(n + r.range(1, 40), &mut r);
            let big0 = big.clone();
            algos::butterfly_unsafe_long(*k, n, &mut big);
            for i in n..big.len() {
                ensure!(big[i].same(&big0[i]), "butterfly {n} {k:?} (unsafe, in place) wrote at element {i}");
            }
            if !cfg!(miri) {
                let mut f = Fenced::new(&b, r.chance(1, 2));
                algos::butterfly_unsafe(*k, f.s());
            }
            obs.eval(hash_str(&format!("{c}{k:?}{}", r.u64())), true);
            obs.count("unsafe_butterfly_calls", 2);
        }
    }
    Ok(())
}

/// parts that do not fit, or that lie
fn ctor<T: Val>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("ctor"));
    let big = c.u("n");
    let o = Opts { naive_max: 40, mock_max: 40, user: None };
    let dir = |r: &mut Rng| if r.chance(1, 6) { FftDirection::Inverse } else { FftDirection::Forward };
    let lens = |r: &mut Rng| -> Vec<usize> {
        match r.below(6) {
            0 => vec![r.below(big)],
            1 => (0..r.range(2, 6)).map(|_| r.below(big)).collect(),
            2 => { let n = 1 << r.below(big.ilog2() as usize + 1); vec![n, n, n / 2, n * 2] }
            3 => { let n = 1 << r.below(big.ilog2() as usize + 1); let mut v = vec![n; r.range(1, 9)]; v.push(r.below(big)); v }
            // (for the zero-sized type this would be a table without end)
            4 if std::mem::size_of::<T>() > 0 => vec![usize::MAX / 2 + 1, 4, 8],
            _ => vec![2 * r.below(big / 2), r.below(big)],
        }
    };
    let scratches = |r: &mut Rng| -> Vec<usize> { (0..r.range(1, 4)).map(|_| match r.below(5) { 0 => 0, 1 if std::mem::size_of::<T>() > 0 => usize::MAX / 4, 2 => usize::MAX, _ => r.below(3 * big) }).collect() };
    let mut inst: Option<Any<T>> = None;
    let mut what = String::new();
    let r = &mut r;
    run(obs, "construction", || {
        let fft = |r: &mut Rng, w: &mut String| -> Arc<dyn Fft<T>> {
            match r.below(4) {
                0 => { let n = r.below(big); *w += &format!("rustfft {n}"); let d = dir(r); FftPlanner::new().plan_fft(n, d) }
                1 => { let n = r.range(1, big.min(40)); let d = r.below(2 * n + 2); *w += &format!("userfft {n} scratch {d}"); Arc::new(MockFft::new(n, dir(r), d)) }
                _ => { let l = lens(r); let s = scratches(r); *w += &format!("lying fft {l:?} {s:?}"); Arc::new(Liar::new(l, s, dir(r))) }
            }
        };
        let t23 = |r: &mut Rng, w: &mut String| -> Arc<dyn rustdct::TransformType2And3<T>> {
            match r.below(4) {
                0 => { let n = r.range(1, big); *w += &format!("planned23 {n}"); DctPlanner::new().plan_dct2(n) }
                1 => { let n = 1 << r.below(6); *w += &format!("composed23 {n}"); algos::t23(n, r, o, None).inst }
                _ => { let l = lens(r); let s = scratches(r); *w += &format!("lying23 {l:?} {s:?}"); Arc::new(Liar::new(l, s, FftDirection::Forward)) }
            }
        };
        let w = &mut what;
        let (ctor, i): (&str, Any<T>) = match r.below(9) {
            0 => ("dct1fft", Any::D(Inst::D1(Arc::new(Dct1ConvertToFft::new(fft(r, w)))), String::new())),
            1 => ("dst1fft", Any::D(Inst::S1(Arc::new(Dst1ConvertToFft::new(fft(r, w)))), String::new())),
            2 => ("fft23", Any::D(Inst::T23(Arc::new(Type2And3ConvertToFft::new(fft(r, w)))), String::new())),
            3 => ("odd4", Any::D(Inst::T4(Arc::new(Type4ConvertToFftOdd::new(fft(r, w)))), String::new())),
            4 => ("dst67fft", Any::D(Inst::S67(Arc::new(Dst6And7ConvertToFft::new(fft(r, w)))), String::new())),
            5 => ("even4", Any::D(Inst::T4(Arc::new(Type4ConvertToType3Even::new(t23(r, w)))), String::new())),
            6 => ("splitradix", Any::D(Inst::T23(Arc::new(Type2And3SplitRadix::new(t23(r, w), t23(r, w)))), String::new())),
            7 => {
                let n = r.below(big);
                let l = *r.pick(&[2 * n, 2 * n, 2 * n + 1, n, 0]);
                *w += &format!("n {n} window {l}");
                ("mdct", Any::M(Arc::new(MdctNaive::new(n, |_| vec![T::v(0.5); l])), String::new()))
            }
            _ => {
                let ls = lens(r);
                let s = scratches(r);
                *w += &format!("lying4 {ls:?} {s:?}");
                let q: Arc<dyn rustdct::TransformType4<T>> = if r.chance(1, 3) { DctPlanner::new().plan_dct4(r.below(big)) } else { Arc::new(Liar::new(ls, s, FftDirection::Forward)) };
                let l = r.below(9);
                ("mdctvia4", Any::M(Arc::new(MdctViaDct4::new(q, |n| vec![T::v(0.5); if l < 7 { n.min(1 << 20) } else { l }])), String::new()))
            }
        };
        inst = Some(match i {
            Any::D(i, _) => Any::D(i, format!("{ctor} on {w}")),
            Any::M(m, _) => Any::M(m, format!("{ctor} on {w}")),
        });
    })?;
    obs.eval(hash_str(&c.to_string()), true);
    if let Some(a) = inst {
        let mut ok = true;
        // a lying part makes the reported sizes unreliable: asked once, used as answered
        let mut sizes = (0, 0);
        run(obs, "odd_parts", || sizes = (a.len(), a.scratch_len()))?;
        if sizes.0 > 1 << 16 || sizes.1 > 1 << 18 {
            ok = false;
        }
        if ok {
            for _ in 0..3 {
                for op in a.ops() {
                    let n = sizes.0;
                    let (ni, no) = match op { Op::Fwd => (2 * n, n), Op::Inv => (n, 2 * n), _ => (n, n) };
                    let x = boxed::<T>(ni, r);
                    let mut out = boxed::<T>(no, r);
                    let mut scratch = boxed::<T>(sizes.1, r);
                    match (&a, op) {
                        (Any::D(i, _), Op::K(k)) => {
                            run(obs, "odd_parts", || i.run(k, &mut out, &mut scratch))?;
                            if sizes.1 < 1 << 16 {
                                run(obs, "odd_parts", || i.run_alloc(k, &mut out))?;
                            }
                        }
                        (Any::M(m, _), Op::Fwd) => { run(obs, "odd_parts", || m.process_mdct_with_scratch(&x[..n], &x[n..], &mut out, &mut scratch))?; }
                        (Any::M(m, _), _) => {
                            let (p, q) = out.split_at_mut(n);
                            run(obs, "odd_parts", || m.process_imdct_with_scratch(&x, p, q, &mut scratch))?;
                        }
                        _ => {}
                    }
                    obs.eval(hash_str(&format!("{c}{op:?}")), true);
                }
            }
        }
        obs.count("odd_instances", 1);
    }
    Ok(())
}

/// a planner's life: requests of any length (0 included), processing, drops, panicking requests
fn history<T: Val>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("history"));
    let hi = c.u("n");
    let mut p = DctPlanner::<T>::new();
    let mut held: Vec<Any<T>> = vec![];
    for i in 0..c.u("steps") {
        match r.below(8) {
            0 if !held.is_empty() => {
                let k = r.below(held.len());
                held.swap_remove(k);
            }
            1 if !held.is_empty() => {
                let a = r.pick(&held).clone();
                exercise(&a, &mut r, obs, "call", &format!("{c}{i}"), true)?;
            }
            2 => {
                let n = r.below(hi + 1);
                let l = *r.pick(&[2 * n, n, 0, 2 * n + 2]);
                let mut got = None;
                run(obs, "construction", || got = Some(p.plan_mdct(n, |_| vec![T::v(0.5); l])))?;
                held.extend(got.map(|m| Any::M(m, format!("planned mdct {n}"))));
            }
            3 => {
                let n = r.below(hi + 1);
                let mut got = None;
                run(obs, "construction", || got = Some(p.plan_mdct(n, window_fn::mp3)))?;
                held.extend(got.map(|m| Any::M(m, format!("planned mdct {n}"))));
            }
            _ => {
                let k = *r.pick(&ALL);
                let n = if r.chance(1, 6) { r.below(3) } else { r.below(hi + 1) };
                let mut got = None;
                run(obs, "construction", || got = Some(plan_kind(&mut p, k, n)))?;
                if let Some(g) = got {
                    let a = Any::D(g, format!("planned {} {n}", k.name()));
                    exercise(&a, &mut r, obs, "call", &format!("{c}{i}"), n < 200)?;
                    held.push(a);
                }
            }
        }
        if r.chance(1, 15) {
            p = DctPlanner::new();
            obs.count("planners_dropped", 1);
        }
        obs.eval(hash_str(&format!("{c}s{i}")), true);
    }
    drop(p);
    for a in &held {
        exercise(a, &mut r, obs, "call", &format!("{c}end"), false)?;
    }
    obs.count("histories", 1);
    Ok(())
}

const TYPES: [&str; 5] = ["f32", "f64", "aligned", "hooked", "unit"];

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 0xc09);
    let mut v = vec![];
    let fams = ["d1", "s1", "t23", "t4", "d5", "s5", "d67", "s67", "d8", "s8", "mdct"];
    let mut push = |op: &str, fam: &str, n: usize, alg: &str, t: &str, s: u64| {
        v.push(Case::new().with("op", op).with("fam", fam).with("n", n).with("alg", alg).with("t", t).with("s", s >> 16));
    };
    for fam in fams {
        for n in 0..=tier.q(150, 400) {
            let n = if fam == "mdct" { n / 2 * 2 } else { n };
            if fam == "d1" && n < 2 {
                continue;
            }
            let algs: Vec<&str> = if n == 0 { vec!["plan", "naive"] } else if fam == "mdct" { vec!["plan", "dct4", "naive"] } else { algos::tops(Fam::parse(fam), n).into_iter().chain(["plan"]).collect() };
            for alg in algs {
                for (i, t) in TYPES.iter().enumerate() {
                    if n <= 34 || n.is_power_of_two() || (r.below(5) + i) % 5 == 0 {
                        push("call", fam, n, alg, t, r.u64());
                    }
                    if i < 3 && (n <= 34 || r.chance(1, 4)) {
                        push("fence", fam, n, alg, t, r.u64());
                    }
                }
            }
        }
    }
    for _ in 0..tier.q(500, 6000) {
        let (fam, n, alg) = random_request(&mut r, 100, tier.q(2500, 12_000));
        push("call", fam, n, alg, r.pick(&TYPES), r.u64());
        push("fence", fam, n, alg, r.pick(&TYPES[..2]), r.u64());
    }
    // thresholds may lie higher
    for fam in fams {
        let fast = fam == "mdct" || Fam::parse(fam).fast();
        for i in 0..tier.q(if fast { 36 } else { 8 }, 300) {
            let n = if fast { r.logrange(2300, tier.q(140_000, 600_000)) } else { r.logrange(300, 3000) };
            let n = if i % 4 == 0 { n.next_power_of_two() } else { n };
            let n = if fam == "mdct" { n / 2 * 2 } else { n };
            for op in ["call", "fence", "fresh"] {
                push(op, fam, n, "plan", *r.pick(&TYPES[..2]), r.u64());
            }
        }
        for n in 1..=tier.q(700, 1500) {
            let n = if fam == "mdct" { n / 2 * 2 + 2 } else { n };
            if fam == "d1" && n < 2 || !fast && n > 200 {
                continue;
            }
            let algs: Vec<&str> = if n > 140 { vec!["plan"] } else if fam == "mdct" { vec!["plan", "dct4", "naive"] } else { algos::tops(Fam::parse(fam), n).into_iter().chain(["plan"]).collect() };
            for alg in algs {
                push("fresh", fam, n, alg, *r.pick(&TYPES[..3]), r.u64());
            }
            if n > 150 {
                push("fence", fam, n, "plan", *r.pick(&TYPES[..3]), r.u64());
            }
        }
    }
    for t in TYPES {
        for n in [2, 3, 4, 8, 16] {
            for _ in 0..tier.q(10, 100) {
                push("bf", "t23", n, "bf", t, r.u64());
            }
        }
        for _ in 0..tier.q(if t == "unit" { 60 } else { 600 }, 12_000) {
            let n = *r.pick(&[4usize, 8, 16, 32, 64, 128]);
            push("ctor", "any", n, "any", t, r.u64());
        }
        for _ in 0..tier.q(12, 200) {
            let n = *r.pick(&[20usize, 70, 300]);
            v_push_history(&mut push, n, t, r.u64());
        }
    }
    r.shuffle(&mut v);
    for c in v.iter_mut() {
        if c.s("op") == "history" {
            *c = c.clone().with("steps", tier.q(60, 150));
        }
    }
    v
}
fn v_push_history(push: &mut impl FnMut(&str, &str, usize, &str, &str, u64), n: usize, t: &str, s: u64) {
    push("history", "any", n, "any", t, s)
}

/// every code path at small lengths
fn miri_cases(tier: Tier, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 0x9310);
    let mut v = vec![];
    let fams = ["d1", "s1", "t23", "t4", "d5", "s5", "d67", "s67", "d8", "s8", "mdct"];
    let mut push = |op: &str, fam: &str, n: usize, alg: &str, t: &str, s: u64| {
        v.push(Case::new().with("op", op).with("fam", fam).with("n", n).with("alg", alg).with("t", t).with("s", s >> 16));
    };
    for fam in fams {
        let mut ns: Vec<usize> = vec![2, 3, 4, 5, 7, 8, 16];
        ns.extend((0..tier.q(2, 12)).map(|_| r.range(1, 34)));
        if matches!(fam, "t23" | "t4" | "mdct") {
            ns.push(32);
            if tier == Tier::Thorough {
                ns.extend([64, 128]);
            }
        }
        if fam == "s67" {
            ns.push(r.range(45, 47));
        }
        for n in ns {
            let n = if fam == "mdct" { (n + 1) / 2 * 2 } else { n };
            if fam == "d1" && n < 2 {
                continue;
            }
            let algs: Vec<&str> = if fam == "mdct" { vec!["plan", "dct4", "naive"] } else { algos::tops(Fam::parse(fam), n).into_iter().chain(["plan"]).collect() };
            for alg in algs {
                if n > 20 && alg == "naive" && tier == Tier::Quick {
                    continue;
                }
                for _ in 0..tier.q(1, 4) {
                    push("call", fam, n, alg, *r.pick(&TYPES), r.u64());
                }
            }
        }
    }
    for n in [2, 3, 4, 8, 16] {
        for t in ["f32", "f64", "aligned"] {
            push("bf", "t23", n, "bf", t, r.u64());
        }
    }
    for _ in 0..tier.q(60, 800) {
        let n = *r.pick(&[4usize, 8, 16, 32]);
        push("ctor", "any", n, "any", *r.pick(&TYPES), r.u64());
    }
    for _ in 0..tier.q(8, 60) {
        push("history", "any", 12, "any", *r.pick(&TYPES), r.u64());
    }
    r.shuffle(&mut v);
    // one case of everything first
    v.sort_by_key(|c| if c.u("n") <= 8 || c.s("op") == "bf" { 0 } else if c.u("n") <= 16 || c.s("op") != "call" { 1 } else { 2 });
    for c in v.iter_mut() {
        if c.s("op") == "history" {
            *c = c.clone().with("steps", tier.q(10, 30));
        }
    }
    v
}

fn main() {
    dctmon::runner::main_miri(
        Prop {
            id: "C09",
            rule: "every family, algorithm and planner result at lengths 0..150 (thorough 400) and sampled larger ones, over f32, f64, a 64-byte-aligned type, a type whose operations panic, and a zero-sized type: calls on exactly sized heap blocks, inside canaried blocks (unchanged surroundings, no influence of surroundings), flush against inaccessible pages, with fresh heap memory holding six different patterns (same results), with wrong sizes, with parts that do not fit or lie about their sizes, the unsafe butterflies in contract, planner histories; panics are allowed, the verdict is the canary, the page fault, the sanitizer or the interpreter. Non-trivial = n>=2",
            cases,
            exec,
            threads: 0,
            minima: &[("evaluations", 1)],
        },
        miri_cases,
    )
}
