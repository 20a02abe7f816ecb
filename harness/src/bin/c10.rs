//! C10: shared instances are pure: reentrant, thread-safe, independent of history.
use dctmon::algos;
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::numtypes::*;
use dctmon::rng::{hash_str, mix, Rng};
use dctmon::runner::*;
use dctmon::ensure;
use rustdct::mdct::window_fn;
use rustdct::{DctNum, DctPlanner};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Barrier, Mutex};

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

/// moves anything across threads, whatever the library's auto traits say: the verdict on those is op=traits
struct Force<X>(X);
unsafe impl<X> Send for Force<X> {}
unsafe impl<X> Sync for Force<X> {}
impl<X> Force<X> {
    fn get(&self) -> &X {
        &self.0
    }
}

trait Val: DctNum {
    fn v(x: f64) -> Self;
    fn b(self) -> u64;
}
impl Val for f32 {
    fn v(x: f64) -> f32 { x as f32 }
    fn b(self) -> u64 { if self.is_nan() { f32::NAN.to_bits() as u64 } else { self.to_bits() as u64 } }
}
impl Val for f64 {
    fn v(x: f64) -> f64 { x }
    fn b(self) -> u64 { if self.is_nan() { f64::NAN.to_bits() } else { self.to_bits() } }
}
impl Val for Hooked {
    fn v(x: f64) -> Hooked { Hooked(x) }
    fn b(self) -> u64 { self.0.b() }
}
fn diff<T: Val>(a: &[T], b: &[T]) -> Option<String> {
    if a.len() != b.len() {
        return Some("length".into());
    }
    (0..a.len()).find(|&i| a[i].b() != b[i].b()).map(|i| format!("element {i} is {:?}, was {:?}", a[i], b[i]))
}
fn data<T: Val>(f: &str, n: usize, r: &mut Rng) -> Vec<T> {
    match f {
        "nan" => (0..n).map(|_| T::v(if r.chance(1, 4) { f64::NAN } else { r.sym() })).collect(),
        "inf" => (0..n).map(|_| T::v(if r.chance(1, 4) { f64::INFINITY } else { r.sym() })).collect(),
        "big" => (0..n).map(|_| T::v(r.sym() * 3e38)).collect(),
        "sub" => (0..n).map(|_| T::v(r.sym() * 1e-42)).collect(),
        f => inputs::gen::<f32>(f, n, None, r).into_iter().map(|x| T::v(x as f64)).collect(),
    }
}
const DIRT: [&str; 7] = ["nan", "inf", "big", "sub", "white", "zeros", "const"];

fn exec(c: &Case, obs: &mut Obs) -> Res {
    match (c.s("op"), c.opt("t").unwrap_or("")) {
        ("traits", _) => traits(obs),
        ("nest", _) => nest(c, obs),
        ("panic", _) => panics(c, obs),
        ("seq", "f32") => seq::<f32>(c, obs),
        ("seq", "f64") => seq::<f64>(c, obs),
        ("seq", _) => seq::<Hooked>(c, obs),
        ("threads", "f32") => threads::<f32>(c, obs),
        ("threads", "f64") => threads::<f64>(c, obs),
        ("threads", _) => threads::<Hooked>(c, obs),
        o => panic!("HARNESS: op {o:?}"),
    }
}

// ---- auto traits, decided at run time so that a lost one is a verdict, not a failed build ---------------------------
struct Probe<X: ?Sized>(std::marker::PhantomData<X>);
trait NotSend { fn is_send(&self) -> bool { false } }
impl<X: ?Sized> NotSend for &Probe<X> {}
impl<X: ?Sized + Send> Probe<X> { fn is_send(&self) -> bool { true } }
trait NotSync { fn is_sync(&self) -> bool { false } }
impl<X: ?Sized> NotSync for &Probe<X> {}
impl<X: ?Sized + Sync> Probe<X> { fn is_sync(&self) -> bool { true } }

fn traits(obs: &mut Obs) -> Res {
    use rustdct::algorithm::type2and3_butterflies::*;
    use rustdct::algorithm::*;
    use rustdct::mdct::*;
    macro_rules! both {
        ($($x:ty),* $(,)?) => { $(
            let p = &Probe::<$x>(std::marker::PhantomData);
            ensure!(p.is_send(), "{} cannot be sent to another thread", std::any::type_name::<$x>());
            ensure!(p.is_sync(), "{} cannot be shared between threads", std::any::type_name::<$x>());
            obs.eval(hash_str(std::any::type_name::<$x>()), true);
            obs.count("auto_trait_verdicts", 2);
        )* };
    }
    macro_rules! for_t {
        ($t:ty) => {
            both!(
                Arc<dyn rustdct::Dct1<$t>>, Arc<dyn rustdct::Dct2<$t>>, Arc<dyn rustdct::Dct3<$t>>, Arc<dyn rustdct::Dct4<$t>>,
                Arc<dyn rustdct::Dct5<$t>>, Arc<dyn rustdct::Dct6<$t>>, Arc<dyn rustdct::Dct7<$t>>, Arc<dyn rustdct::Dct8<$t>>,
                Arc<dyn rustdct::Dst1<$t>>, Arc<dyn rustdct::Dst2<$t>>, Arc<dyn rustdct::Dst3<$t>>, Arc<dyn rustdct::Dst4<$t>>,
                Arc<dyn rustdct::Dst5<$t>>, Arc<dyn rustdct::Dst6<$t>>, Arc<dyn rustdct::Dst7<$t>>, Arc<dyn rustdct::Dst8<$t>>,
                Arc<dyn rustdct::TransformType2And3<$t>>, Arc<dyn rustdct::TransformType4<$t>>, Arc<dyn rustdct::Dct6And7<$t>>,
                Arc<dyn rustdct::Dst6And7<$t>>, Arc<dyn Mdct<$t>>,
                Dct1Naive<$t>, Dst1Naive<$t>, Dct1ConvertToFft<$t>, Dst1ConvertToFft<$t>, Type2And3Naive<$t>, Type2And3ConvertToFft<$t>,
                Type2And3SplitRadix<$t>, Type4Naive<$t>, Type4ConvertToType3Even<$t>, Type4ConvertToFftOdd<$t>, Dct5Naive<$t>, Dst5Naive<$t>,
                Dct6And7Naive<$t>, Dst6And7Naive<$t>, Dst6And7ConvertToFft<$t>, Dct8Naive<$t>, Dst8Naive<$t>,
                Type2And3Butterfly2<$t>, Type2And3Butterfly3<$t>, Type2And3Butterfly4<$t>, Type2And3Butterfly8<$t>, Type2And3Butterfly16<$t>,
                MdctNaive<$t>, MdctViaDct4<$t>,
            );
            let p = &Probe::<DctPlanner<$t>>(std::marker::PhantomData);
            ensure!(p.is_send(), "DctPlanner<{}> cannot be sent to another thread", stringify!($t));
            obs.count("auto_trait_verdicts", 1);
        };
    }
    for_t!(f32);
    for_t!(f64);
    for_t!(Hooked);
    // the probe itself tells them apart
    let p = &Probe::<std::rc::Rc<u8>>(std::marker::PhantomData);
    assert!(!p.is_send() && !p.is_sync(), "HARNESS: probe");
    Ok(())
}

/// one misuse that must panic; returns what it was
fn misuse<T: Val>(a: &Any<T>, op: Op, r: &mut Rng) -> &'static str {
    let (n, m, o, s) = (a.len(), a.in_len(op), a.out_len(op), a.scratch_len());
    let how = r.below(4);
    let res = caught(|| match (a, op) {
        (Any::D(i, _), Op::K(k)) => match how {
            0 => i.run(k, &mut vec![T::v(1.0); n + 1], &mut vec![T::v(0.0); s + 8]),
            1 if n > 0 => i.run(k, &mut vec![T::v(1.0); n - 1], &mut vec![T::v(0.0); s + 8]),
            2 if s > 0 => i.run(k, &mut vec![T::v(1.0); n], &mut vec![T::v(0.0); s - 1]),
            _ => i.run_alloc(k, &mut vec![T::v(1.0); 2 * n + 2]),
        },
        (Any::M(..), _) => {
            let (dm, dout, ds) = match how {
                0 => (1, 0, 0),
                1 => (0, 1, 0),
                2 if s > 0 => (0, 0, 1),
                _ => (1, 1, 0),
            };
            a.call_into(op, &vec![T::v(1.0); m + dm], &mut vec![T::v(0.5); o + dout], &mut vec![T::v(0.0); s - ds])
        }
        _ => unreachable!(),
    });
    // accepting it would be a matter for C08
    if res.is_ok() { "an accepted misuse" } else { "a misuse that panicked" }
}

fn call_some_way<T: Val>(a: &Any<T>, op: Op, x: &[T], r: &mut Rng, mem: &mut Vec<T>) -> (Vec<T>, &'static str) {
    let s = a.scratch_len();
    if let (Any::D(i, _), Op::K(k), true) = (a, op, r.chance(1, 3)) {
        let mut b = x.to_vec();
        i.run_alloc(k, &mut b);
        return (b, "allocating");
    }
    let off = r.below(4);
    let need = s + off + *r.pick(&[0usize, 0, 1, 5]);
    if r.chance(1, 4) || mem.len() < need {
        *mem = vec![T::v(0.0); need.max(mem.len())];
        if r.chance(1, 2) {
            for x in mem.iter_mut() {
                *x = T::v(r.sym())
            }
        }
    }
    (a.call(op, x, &mut mem[off..need]), "scratch")
}

/// sequential history on one instance
fn seq<T: Val>(c: &Case, obs: &mut Obs) -> Res {
    let (fam, n, alg) = (c.s("fam"), c.u("n"), c.s("alg"));
    let calls = c.u("calls");
    let mk = || make::<T>(fam, n, alg, &mut Rng::new(c.seed() ^ hash_str("hist")), opts_for(n));
    let a = mk();
    let what = format!("{} ({})", a.desc(), std::any::type_name::<T>());
    let mut r = Rng::new(c.seed() ^ hash_str("hist2"));
    let ops = a.ops();
    // probes, answered by an instance that has never done anything else: one fresh twin per probe
    let mut probes = vec![];
    for &op in &ops {
        for f in ["white", "quant", "nan"] {
            let x: Vec<T> = data(f, a.in_len(op), &mut r);
            let want = mk().fresh(op, &x);
            probes.push((op, x, want));
        }
    }
    let mut mem = vec![];
    let mut done = 0usize;
    let mut last = "nothing";
    let fast = calls > 1000;
    let mut scratch = vec![T::v(0.0); a.scratch_len()];
    let mut out = vec![];
    while done < calls {
        if fast {
            // bulk: the same call over and over
            let (op, x, _) = &probes[r.below(probes.len())];
            out.resize(a.out_len(*op), T::v(0.0));
            for _ in 0..200 {
                a.call_into(*op, x, &mut out, &mut scratch);
            }
            done += 200;
            last = "200 repeated calls";
            obs.count("history_calls", 200);
        }
        match r.below(8) {
            0 => {
                last = misuse(&a, *r.pick(&ops), &mut r);
                obs.count("misuse_panics", 1);
            }
            1 => {
                // almost the call of a probe: what remembers its last input must not take it for that
                let (op, x, _) = r.pick(&probes);
                let mut y = x.clone();
                let (i, j) = (r.below(y.len()), r.below(y.len()));
                match r.below(6) {
                    0 => y[i] = -y[i],
                    1 => y.swap(i, j),
                    2 => y[i] = T::v(r.sym()),
                    3 => y.iter_mut().for_each(|v| *v = -*v),
                    4 => y.reverse(),
                    _ => {
                        y[i] = T::v(0.25);
                        y[j] = T::v(f64::NAN)
                    }
                }
                call_some_way(&a, *op, &y, &mut r, &mut mem);
                last = "a call with almost the same data as a probe";
                obs.count("history_calls", 1);
                obs.count("near_duplicate_calls", 1);
            }
            2 | 3 => {
                let op = *r.pick(&ops);
                let x: Vec<T> = data(r.pick(&DIRT), a.in_len(op), &mut r);
                call_some_way(&a, op, &x, &mut r, &mut mem);
                last = "an unrelated call";
                obs.count("history_calls", 1);
            }
            _ => {
                let (op, x, want) = r.pick(&probes);
                let b = if r.chance(1, 4) { a.clone() } else { mk_ref(&a) };
                let (got, how) = call_some_way(&b, *op, x, &mut r, &mut mem);
                if !(how == "allocating" && matches!(b, Any::M(..))) {
                    if let Some(d) = diff(&got, want) {
                        return Err(format!("{what} {op:?} ({how}) after {done} calls, the last being {last}: {d} on a fresh instance"));
                    }
                }
                last = "a probe call";
                obs.eval(hash_str(&format!("{c}{op:?}{done}")), n >= 2);
                obs.count("probe_calls", 1);
            }
        }
        done += 1;
    }
    obs.set("instances", format_args!("{fam}/{alg}/{n}"));
    Ok(())
}
fn mk_ref<T: DctNum>(a: &Any<T>) -> Any<T> {
    a.clone()
}

/// every numeric operation of a call as a preemption point: a complete other call on the same instance runs there
fn nest(c: &Case, obs: &mut Obs) -> Res {
    let (fam, n, alg) = (c.s("fam"), c.u("n"), c.s("alg"));
    let mut r = Rng::new(c.seed() ^ hash_str("nest"));
    set_hook(Hook::Off);
    let a: Any<Hooked> = make(fam, n, alg, &mut r, opts_for(n));
    let ops = a.ops();
    for &outer in &ops {
        let inner = *r.pick(&ops);
        let x: Vec<Hooked> = data("white", a.in_len(outer), &mut r);
        let y: Vec<Hooked> = data(*r.pick(&["white", "nan", "const"]), a.in_len(inner), &mut r);
        let (want, want_in) = (a.fresh(outer, &x), a.fresh(inner, &y));
        set_hook(Hook::Count);
        a.fresh(outer, &x);
        let total = hook_count();
        set_hook(Hook::Off);
        let points: Vec<u64> = if total <= c.u("points") as u64 { (0..total).collect() } else { (0..c.u("points")).map(|_| r.u64() % total).collect() };
        let got_in: Arc<Mutex<Vec<Vec<Hooked>>>> = Default::default();
        let (a2, y2, g2) = (a.clone(), y.clone(), got_in.clone());
        set_action(Some(Box::new(move || {
            let o = a2.fresh(inner, &y2);
            g2.lock().unwrap().push(o);
        })));
        for at in points {
            if r.chance(1, 2) {
                // whatever the instance might remember of the previous call is replaced
                let o = *r.pick(&ops);
                let z: Vec<Hooked> = data("white", a.in_len(o), &mut r);
                a.fresh(o, &z);
            }
            set_hook(Hook::Nest { at });
            let got = caught(|| a.fresh(outer, &x));
            set_hook(Hook::Off);
            let got = got.map_err(|e| format!("{} {outer:?} panicked when another call ({inner:?}) ran at its operation {at} of {total}: {e}", a.desc()));
            if got.is_err() {
                set_action(None);
            }
            let got = got?;
            let mut g = got_in.lock().unwrap();
            let bad = diff(&got, &want).map(|d| format!("outer result: {d}")).or_else(|| match g.len() {
                1 => diff(&g[0], &want_in).map(|d| format!("inner result: {d}")),
                // an implementation may do fewer operations this time: then only the outer result can be judged
                _ => None,
            });
            obs.count("preemption_points", g.len() as u64);
            g.clear();
            drop(g);
            if let Some(d) = bad {
                set_action(None);
                return Err(format!("{} {outer:?} with a complete {inner:?} call at its operation {at} of {total}: {d} when run alone", a.desc()));
            }
            obs.eval(hash_str(&format!("{c}{outer:?}{at}")), true);
        }
        set_action(None);
        obs.set("instances", format_args!("{fam}/{alg}/{n}"));
    }
    Ok(())
}

/// a panic inside any numeric operation of a call leaves the instance pure
fn panics(c: &Case, obs: &mut Obs) -> Res {
    let (fam, n, alg) = (c.s("fam"), c.u("n"), c.s("alg"));
    let mut r = Rng::new(c.seed() ^ hash_str("panics"));
    set_hook(Hook::Off);
    let a: Any<Hooked> = make(fam, n, alg, &mut r, opts_for(n));
    let ops = a.ops();
    let probes: Vec<(Op, Vec<Hooked>, Vec<Hooked>)> = ops
        .iter()
        .map(|&op| {
            let x: Vec<Hooked> = data("white", a.in_len(op), &mut r);
            let want = a.fresh(op, &x);
            (op, x, want)
        })
        .collect();
    let mut scratch = vec![Hooked(0.0); a.scratch_len()];
    for (op, x, _) in &probes {
        set_hook(Hook::Count);
        a.fresh(*op, x);
        let total = hook_count();
        set_hook(Hook::Off);
        let points: Vec<u64> = if total <= c.u("points") as u64 { (0..total).collect() } else { (0..c.u("points")).map(|_| r.u64() % total).collect() };
        for at in points {
            if r.chance(1, 2) {
                let o = *r.pick(&ops);
                let z: Vec<Hooked> = data("white", a.in_len(o), &mut r);
                a.fresh(o, &z);
            }
            set_hook(Hook::Panic { at });
            let res = caught(|| a.call(*op, x, &mut scratch));
            set_hook(Hook::Off);
            match res {
                Err(m) if m.contains("injected") => {}
                Err(m) => return Err(format!("{} {op:?}: another panic than the injected one: {m}", a.desc())),
                // it did fewer operations this time
                Ok(_) => continue,
            }
            let (p, y, want) = r.pick(&probes);
            let got = if r.chance(1, 2) { a.fresh(*p, y) } else { a.call(*p, y, &mut scratch) };
            if let Some(d) = diff(&got, want) {
                return Err(format!("{} {p:?} after a {op:?} call that panicked at its operation {at} of {total}: {d}", a.desc()));
            }
            obs.eval(hash_str(&format!("{c}{op:?}{at}")), true);
            obs.count("injected_panics", 1);
        }
        obs.set("instances", format_args!("{fam}/{alg}/{n}"));
    }
    Ok(())
}

/// threads hammer a set of instances that share inner parts
fn threads<T: Val>(c: &Case, obs: &mut Obs) -> Res {
    let (n, k, calls) = (c.u("n"), c.u("threads"), c.u("calls"));
    let mut r = Rng::new(c.seed() ^ hash_str("thr"));
    set_hook(Hook::Off);
    let mut insts: Vec<Any<T>> = vec![];
    if c.s("alg") == "planner" {
        // one planner, several kinds and lengths over common inner FFTs and DCTs
        let mut p = DctPlanner::<T>::new();
        for _ in 0..r.range(2, 5) {
            let kind = *r.pick(&ALL);
            let m = *r.pick(&[n, n, 2 * n, (n + 1) / 2 + 1]);
            let m = m.max(kind.min_len());
            insts.push(Any::D(plan_kind(&mut p, kind, m), format!("planned {} {m}", kind.name())));
        }
        let m = (n + 1) / 2 * 2;
        insts.push(Any::M(p.plan_mdct(m, window_fn::mp3), format!("planned mdct {m}")));
    } else {
        insts.push(make(c.s("fam"), n, c.s("alg"), &mut r, opts_for(n)));
    }
    // baselines come from a twin set made the same way, so that the shared set is untouched when the threads start
    let mut probes: Vec<(usize, Op, Vec<T>, Vec<T>)> = vec![];
    let warm = r.chance(1, 2);
    let twins: Vec<Any<T>> = if warm || c.s("alg") != "planner" { insts.clone() } else {
        let mut p = DctPlanner::<T>::new();
        insts.iter().map(|a| match a {
            Any::D(i, d) => Any::D(plan_kind(&mut p, i.kinds()[0], i.len()), d.clone()),
            Any::M(m, d) => Any::M(p.plan_mdct(m.len(), window_fn::mp3), d.clone()),
        }).collect()
    };
    for (i, a) in twins.iter().enumerate() {
        for op in a.ops() {
            for f in ["white", "quant"] {
                let x: Vec<T> = data(f, a.in_len(op), &mut r);
                let want = a.fresh(op, &x);
                probes.push((i, op, x, want));
            }
        }
    }
    drop(twins);
    let shared = Force((insts, probes));
    let start = Barrier::new(k);
    let trace = Arc::new(Trace::default());
    let hostile = c.u("hostile") == 1;
    let results: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..k)
            .map(|me| {
                let (shared, start, trace) = (&shared, &start, trace.clone());
                let seed = mix(c.seed() ^ (me as u64 + 1) << 32);
                std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || {
                    let (insts, probes) = shared.get();
                    let mut r = Rng::new(seed);
                    set_trace(me as u32 + 1, Some(trace));
                    let mut mem = vec![];
                    let mut ok = 0;
                    start.wait();
                    set_hook(Hook::Yield { seed });
                    let res = (|| {
                        for j in 0..calls {
                            if hostile && r.chance(1, 5) {
                                let a = r.pick(insts);
                                let op = *r.pick(&a.ops());
                                if r.chance(1, 2) {
                                    misuse(a, op, &mut r);
                                } else {
                                    let x: Vec<T> = data(r.pick(&DIRT), a.in_len(op), &mut r);
                                    call_some_way(a, op, &x, &mut r, &mut mem);
                                }
                            }
                            let (i, op, x, want) = r.pick(probes);
                            let (got, how) = caught(|| call_some_way(&insts[*i], *op, x, &mut r, &mut mem))
                                .map_err(|e| format!("thread {me}, call {j}: {} {op:?} panicked while other threads use it: {e}", insts[*i].desc()))?;
                            if let Some(d) = diff(&got, want) {
                                return Err(format!("thread {me} of {k}, call {j}: {} {op:?} ({how}): {d} when run alone", insts[*i].desc()));
                            }
                            ok += 1;
                            if r.chance(1, 8) {
                                std::thread::yield_now()
                            }
                        }
                        Ok(ok)
                    })();
                    set_hook(Hook::Off);
                    set_trace(0, None);
                    res
                }).expect("HARNESS: spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(last_panic()))).collect()
    });
    let mut total = 0;
    for x in results {
        total += x?;
    }
    for j in 0..total {
        obs.eval(hash_str(&format!("{c}{j}")), true);
    }
    obs.count("concurrent_calls", total);
    if c.s("t") == "hooked" {
        obs.count("switches_inside_calls", trace.switches.load(Relaxed));
        obs.count("operations_traced", trace.ops.load(Relaxed));
        obs.set("interleavings", trace.signature.load(Relaxed));
    }
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    WATCHDOG.store(150, Relaxed);
    let only = std::env::args().position(|a| a == "--only").and_then(|i| std::env::args().nth(i + 1));
    let mut r = Rng::new(seed ^ 0xc10);
    let mut v = vec![Case::new().with("op", "traits")];
    let ts = ["f32", "f64", "hooked"];
    for _ in 0..tier.q(700, 6000) {
        let (fam, n, alg) = random_request(&mut r, 2, tier.q(700, 3000));
        v.push(Case::new().with("op", "seq").with("fam", fam).with("n", n).with("alg", alg).with("t", r.pick(&ts)).with("calls", if n < 100 { 150 } else { 40 }).with("s", r.u64() >> 16));
    }
    // every family at length 2..16: more calls than any 16-bit counter holds
    for fam in FAMS.iter().map(|f| f.name()).chain(["mdct"]) {
        for n in [2usize, 3, 4, 5, 6, 7, 8, 12, 16] {
            let n = if fam == "mdct" { (n + 1) / 2 * 2 } else { n };
            for alg in if fam == "mdct" { vec!["plan", "naive", "dct4"] } else { algos::tops(Fam::parse(fam), n).into_iter().chain(["plan"]).collect() } {
                if alg == "plan" || r.chance(1, 2) {
                    v.push(Case::new().with("op", "seq").with("fam", fam).with("n", n).with("alg", alg).with("t", r.pick(&["f32", "f64"])).with("calls", tier.q(if alg == "plan" { 70_000 } else { 20_000 }, 300_000)).with("s", r.u64() >> 16));
                }
            }
        }
    }
    for fam in FAMS.iter().map(|f| f.name()).chain(["mdct"]) {
        for n in [27usize, 64, 101] {
            let n = if fam == "mdct" { n / 2 * 2 } else { n };
            v.push(Case::new().with("op", "seq").with("fam", fam).with("n", n).with("alg", "plan").with("t", r.pick(&["f32", "f64"])).with("calls", tier.q(67_000, 300_000)).with("s", r.u64() >> 16));
        }
        if tier == Tier::Thorough {
            // more calls than an f32 counts
            for n in [2usize, 4] {
                v.push(Case::new().with("op", "seq").with("fam", fam).with("n", n).with("alg", "plan").with("t", "f32").with("calls", 18_000_000).with("s", r.u64() >> 16));
            }
        }
    }
    for op in ["nest", "panic"] {
        for fam in FAMS.iter().map(|f| f.name()).chain(["mdct"]) {
            let mut ns: Vec<usize> = (2..=tier.q(24, 70)).collect();
            ns.extend((0..tier.q(6, 40)).map(|_| r.range(25, tier.q(150, 600))));
            for n in ns {
                if fam == "mdct" && n % 2 == 1 {
                    continue;
                }
                for alg in if fam == "mdct" { vec!["plan", "naive", "dct4"] } else { algos::tops(Fam::parse(fam), n).into_iter().chain(["plan"]).collect() } {
                    v.push(Case::new().with("op", op).with("fam", fam).with("n", n).with("alg", alg).with("points", tier.q(if n <= 24 { 1200 } else { 60 }, if n <= 24 { 100_000 } else { 600 })).with("s", r.u64() >> 16));
                }
            }
        }
    }
    v.extend(thread_cases(tier, &mut r, tier.q(260, 3000), 1500));
    r.shuffle(&mut v);
    if let Some(o) = only {
        v.retain(|c| c.s("op") == o);
    }
    v
}
fn thread_cases(tier: Tier, r: &mut Rng, count: usize, hi: usize) -> Vec<Case> {
    let mut v = vec![];
    for i in 0..count {
        let (fam, n, alg) = random_request(r, 2, tier.q(hi, 2 * hi));
        let alg = if i % 3 == 0 { "planner" } else { alg };
        let t = ["f32", "f64", "hooked"][i % 7 % 3];
        // every operation of the hooked type is traced
        let n = if t == "hooked" && n > 100 { if fam == "mdct" { 2 * r.range(4, 50) } else { r.range(17, 100) } } else { n };
        let alg = if t == "hooked" && !matches!(alg, "plan" | "planner" | "naive") { "plan" } else { alg };
        v.push(
            Case::new().with("op", "threads").with("fam", fam).with("n", n).with("alg", alg).with("t", t)
                .with("threads", *r.pick(&[2usize, 3, 4, 8])).with("calls", if n > 300 { 12 } else { 60 }).with("hostile", r.below(2)).with("s", r.u64() >> 16),
        );
    }
    v
}
/// small enough for an interpreter; real threads, every access watched for data races
fn miri_cases(tier: Tier, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 0x310);
    let mut v = vec![];
    let fams = ["d1", "s1", "t23", "t4", "d5", "s5", "d67", "s67", "d8", "s8", "mdct"];
    for i in 0..tier.q(72, 400) {
        let fam = fams[i % fams.len()];
        let n = match i / fams.len() {
            0 => *r.pick(&[4usize, 8, 16]),
            1 => r.range(2, 12),
            _ => r.range(2, 26),
        };
        let n = if fam == "mdct" { (n + 1) / 2 * 2 } else { n };
        let alg = match fam {
            "mdct" => *r.pick(&["plan", "dct4", "naive"]),
            _ => *r.pick(&algos::tops(Fam::parse(fam), n).into_iter().chain(["plan"]).collect::<Vec<_>>()),
        };
        // beyond the naive thresholds of the planner
        let (n, alg) = if fam == "s67" && r.chance(1, 2) { (r.range(45, 48), "plan") } else { (n, alg) };
        v.push(
            Case::new().with("op", "threads").with("fam", fam).with("n", n).with("alg", alg).with("t", *r.pick(&["f32", "f64"]))
                .with("threads", r.range(2, 3)).with("calls", 3).with("hostile", r.below(2)).with("s", r.u64() >> 16),
        );
    }
    v
}

fn main() {
    dctmon::runner::main_miri(
        Prop {
            id: "C10",
            rule: "bit-for-bit purity: (a) sequential histories of calls of all kinds and data (NaN, infinities, misuse panics, tens of thousands of repeats) with probe calls compared with a fresh twin instance; (b) a number type whose k-th operation runs a complete second call on the same instance (every k at small lengths), or panics; (c) 2-8 threads hammering instances that share inner parts, with yields injected inside numeric operations and misuse mixed in, against single-threaded answers; interleavings counted by who-ran-when signatures; (d) Send/Sync of every public type observed at run time. Non-trivial = n>=2",
            cases,
            exec,
            threads: 0,
            minima: &[("evaluations", 1)],
        },
        miri_cases,
    )
}
