//! C11: what the planner returns does not depend on what it planned before.
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::numtypes::*;
use dctmon::real::*;
use dctmon::refer;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::tol::{self, Class};
use dctmon::{by_t, ensure};
use rustdct::mdct::window_fn;
use rustdct::DctPlanner;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

fn exec(c: &Case, obs: &mut Obs) -> Res {
    match c.s("op") {
        "hist" => by_t!(c.s("t"), T => hist::<T>(c, obs)),
        "sweep" => by_t!(c.s("t"), T => sweep::<T>(c, obs)),
        "collide" => by_t!(c.s("t"), T => collide::<T>(c, obs)),
        "refused" => by_t!(c.s("t"), T => refused::<T>(c, obs)),
        "inject" => inject(c, obs),
        "wrap" => by_t!(c.s("t"), T => wrap::<T>(c, obs)),
        _ => by_t!(c.s("t"), T => windows::<T>(c, obs)),
    }
}

/// the stateless model: definition of the requested transform
fn judge<T: Real>(obs: &mut Obs, key: &str, ctx: &str, i: &Inst<T>, k: Kind, n: usize, r: &mut Rng) -> Res {
    let label = format!("{} {n} ({}) {ctx}", k.name(), T::NAME);
    ensure!(i.len() == n, "{label}: the instance has length {}", i.len());
    let f = *r.pick(&["white", "white", "pos", "quant", "ends", "step"]);
    let x: Vec<T> = inputs::gen(f, n, None, r);
    let out = i.apply(k, &x);
    let xf = to_f64(&x);
    let class = if k.family().fast() && n > 64 { Class::Fast } else { Class::Naive };
    tol::check::<T>(obs, &label, class, &xf, &out, &refer::reference(k, &xf), false, 2.0)?;
    obs.eval(hash_str(&format!("{key}{label}{}", obs.evals)), n >= 2);
    obs.set("requests", format_args!("{}/{n}/{}", k.name(), T::NAME));
    Ok(())
}

fn judge_mdct<T: Real>(obs: &mut Obs, key: &str, ctx: &str, m: &Any<T>, w: &[T], n: usize, at: Option<usize>, r: &mut Rng) -> Res {
    let label = format!("mdct {n} ({}) {ctx}", T::NAME);
    ensure!(m.len() == n, "{label}: the instance has length {}", m.len());
    let wf = to_f64(w);
    let x: Vec<T> = match at {
        Some(p) => inputs::gen("imp", 2 * n, Some(p), r),
        None => inputs::gen("white", 2 * n, None, r),
    };
    let xf = to_f64(&x);
    let out = m.fresh(Op::Fwd, &x);
    let wx: Vec<f64> = xf.iter().zip(&wf).map(|(a, b)| a * b).collect();
    tol::check::<T>(obs, &label, Class::Naive, &wx, &out, &refer::mdct(&wf, &xf, n), false, 6.0)?;
    let y: Vec<T> = inputs::gen("white", n, None, r);
    let yf = to_f64(&y);
    let mut o = vec![T::zero(); 2 * n];
    m.call_into(Op::Inv, &y, &mut o, &mut vec![T::zero(); m.scratch_len()]);
    let want = refer::imdct(&wf, &yf, n);
    // bin by bin relative to that bin's window value: one wrong window entry is visible
    let y1 = refer::norm1(&yf);
    for k in 0..2 * n {
        let b = 6.0 * (n as f64 + 16.0) * T::EPS * y1 * wf[k].abs() + T::MIN_POS;
        ensure!((o[k].f() - want[k]).abs() <= b, "{label}: imdct output {k} is {:e}, with the requested window (value {:e} there) it is {:e}", o[k].f(), wf[k], want[k]);
    }
    obs.eval(hash_str(&format!("{key}{label}{}", obs.evals)), true);
    obs.count("mdct_judged", 1);
    Ok(())
}

fn window<T: Real>(w: usize, len: usize) -> Vec<T> {
    match w {
        0 => window_fn::one(len),
        1 => window_fn::mp3(len),
        2 => window_fn::mp3_invertible(len),
        3 => window_fn::vorbis(len),
        4 => window_fn::vorbis_invertible(len),
        5 => window_fn::invertible(len),
        w => inputs::gen("pos", len, None, &mut Rng::new(w as u64 * 77 + len as u64)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Req {
    K(Kind, usize),
    M(usize, usize),
}
fn random_req(r: &mut Rng, hi: usize, base: usize) -> Req {
    if r.chance(1, 4) {
        let n = 2 * if r.chance(1, 2) { r.range(1, 6) } else { r.logrange(1, hi / 2) };
        return Req::M(r.below(14), n);
    }
    let k = *r.pick(&ALL);
    let top = if k.family().fast() { hi } else { hi.min(150) };
    let n = match r.below(6) {
        0 => base,
        1 => base / 2,
        2 => 2 * base,
        3 => 1 << r.range(1, top.ilog2() as usize),
        _ => r.logrange(1, top),
    };
    Req::K(k, n.clamp(k.min_len(), top.max(2)))
}

/// lengths of the MDCTs in the pool
fn pool_lens<T: Real>(pool: &[(Req, Any<T>, usize)]) -> Vec<Option<usize>> {
    let mut v: Vec<_> = pool.iter().filter_map(|(q, _, _)| if let Req::M(_, n) = q { Some(Some(*n)) } else { None }).collect();
    v.push(None);
    v
}
const REFUSALS: usize = 10;
/// a request the planner has to refuse (n is even); true if it did
fn refuse<T: Real>(p: &mut DctPlanner<T>, how: usize, n: usize) -> bool {
    let res = caught(|| match how {
        0 => drop(p.plan_dct1(1)),
        1 => drop(p.plan_mdct(n + 1, window_fn::one)),
        2 => drop(p.plan_mdct(n - 1, window_fn::mp3)),
        3 => drop(p.plan_mdct(n, |_| -> Vec<T> { panic!("window") })),
        4 => drop(p.plan_mdct(n, |l| vec![T::one(); l + 1])),
        5 => drop(p.plan_mdct(n, |l| vec![T::one(); l - 1])),
        6 => drop(p.plan_mdct(n, |_| vec![])),
        7 => drop(p.plan_mdct(n, |l| vec![T::one(); l / 2])),
        8 => drop(p.plan_mdct(n, |l| vec![T::one(); 2 * l])),
        _ => drop(p.plan_mdct(n, |l| window(1, l + 2))),
    });
    clear_last_panic();
    res.is_err()
}

/// refused requests, then proper ones of the same and related lengths in the same planner
fn refused<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("refused11"));
    let key = c.to_string();
    let n = 2 * c.u("n");
    for how in 0..REFUSALS {
        let mut p = DctPlanner::<T>::new();
        let before = r.below(3);
        let old = (before == 0).then(|| Any::M(p.plan_mdct(n, |l| window(2, l)), String::new()));
        if before == 1 {
            p.plan_dct4(n);
        }
        let times = r.range(1, 3);
        let mut hits = 0;
        for _ in 0..times {
            hits += refuse(&mut p, how, n) as u64;
        }
        obs.count("panicked_requests", hits);
        let ctx = format!("after {times} refused requests (way {how}, length {n})");
        if r.chance(1, 2) {
            let (k, l) = match r.below(4) {
                0 => (Kind::Dct4, n),
                1 => (Kind::Dst4, n - 1),
                2 => (Kind::Dct1, 2),
                _ => (*r.pick(&ALL), n.min(150)),
            };
            judge(obs, &key, &ctx, &plan_kind(&mut p, k, l), k, l, &mut r)?;
        }
        for w in [r.below(14), r.below(14), 2] {
            let m = Any::M(p.plan_mdct(n, |l| window(w, l)), String::new());
            judge_mdct(obs, &key, &ctx, &m, &window(w, 2 * n), n, None, &mut r)?;
        }
        if let Some(m) = old {
            judge_mdct(obs, &key, &ctx, &m, &window(2, 2 * n), n, None, &mut r)?;
        }
        obs.count("plans_judged", 4);
        obs.count("refusal_sets", 1);
    }
    Ok(())
}

/// planning interrupted at any point by a number type whose conversion panics; the same planner, asked again, must
/// answer like a new one
fn inject(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("inject11"));
    let (fam, n) = (c.s("fam"), c.u("n"));
    let plan = |p: &mut DctPlanner<Hooked>, w: usize| -> Any<Hooked> {
        match fam {
            "mdct" => Any::M(p.plan_mdct(n, |l| (0..l).map(|i| Hooked((i * w + 1) as f64 / l as f64)).collect()), String::new()),
            f => Any::D(plan_kind(p, Fam::parse(f).kinds()[0], n), String::new()),
        }
    };
    let outputs = |a: &Any<Hooked>| -> Vec<Vec<u64>> {
        a.ops().into_iter().map(|op| {
            let x: Vec<Hooked> = (0..a.in_len(op)).map(|i| Hooked(((i * i * 7 + 3) % 19) as f64 / 4.0 - 2.0)).collect();
            a.fresh(op, &x).iter().map(|v| v.0.to_bits()).collect()
        }).collect()
    };
    set_hook(Hook::CountAll);
    let a = plan(&mut DctPlanner::new(), 3);
    let total = hook_count();
    set_hook(Hook::Off);
    let want = outputs(&a);
    let points = c.u("points") as u64;
    let at: Vec<u64> = if total <= points { (0..total).collect() } else { (0..points).map(|_| r.u64() % total).collect() };
    for at in at {
        let mut p = DctPlanner::<Hooked>::new();
        if r.chance(1, 2) && n > 4 {
            p.plan_dct2(n / 2);
        }
        set_hook(Hook::PanicAll { at });
        let w = if r.chance(1, 2) { 3 } else { 5 };
        let broke = caught(|| drop(plan(&mut p, w))).is_err();
        set_hook(Hook::Off);
        clear_last_panic();
        let a = plan(&mut p, 3);
        ensure!(a.len() == n, "{fam} {n}: after planning was interrupted at operation {at} of {total} the planner returns length {}", a.len());
        ensure!(outputs(&a) == want, "{fam} {n}: after planning was interrupted at operation {at} of {total} the instance the same planner returns computes something else than a new planner's");
        obs.eval(hash_str(&format!("{c}{at}")), broke);
        obs.count("interrupted_plans", broke as u64);
    }
    Ok(())
}

fn hist<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("hist11"));
    let key = c.to_string();
    let hi = c.u("hi");
    let base = r.logrange(4, hi);
    let mut planners: Vec<DctPlanner<T>> = vec![DctPlanner::new()];
    let mut pool: Vec<(Req, Any<T>, usize)> = vec![];
    let mut trail: Vec<String> = vec![];
    for step in 0..c.u("steps") {
        let last = |t: &Vec<String>| t.iter().rev().take(5).cloned().collect::<Vec<_>>().join(" <- ");
        match r.below(14) {
            0 if planners.len() < 3 => planners.push(DctPlanner::new()),
            1 if planners.len() > 1 || r.chance(1, 10) => {
                let i = r.below(planners.len());
                planners.swap_remove(i);
                if planners.is_empty() {
                    planners.push(DctPlanner::new())
                }
                trail.push("drop planner".into());
                obs.count("planner_drops", 1);
            }
            2 if !pool.is_empty() => {
                let i = r.below(pool.len());
                pool.swap_remove(i);
                trail.push("drop instance".into());
                obs.count("instance_drops", 1);
            }
            3 | 4 | 5 if !pool.is_empty() => {
                // an older instance, possibly outliving its planner
                let (q, a, born) = r.pick(&pool).clone();
                let ctx = format!("planned at step {born}, used at step {step}; before: {}", last(&trail));
                match (q, &a) {
                    (Req::K(k, n), Any::D(i, _)) => judge(obs, &key, &ctx, i, k, n, &mut r)?,
                    (Req::M(w, n), m) => judge_mdct(obs, &key, &ctx, m, &window(w, 2 * n), n, None, &mut r)?,
                    _ => panic!("HARNESS"),
                }
                obs.count("old_instances_judged", 1);
            }
            6 => {
                let p = r.below(planners.len());
                let n = match r.pick(&pool_lens(&pool)) {
                    Some(n) if r.chance(1, 2) => *n,
                    _ => 2 * r.logrange(1, hi / 2),
                };
                if refuse(&mut planners[p], r.below(REFUSALS), n) {
                    obs.count("panicked_requests", 1);
                }
                trail.push("rejected request".into());
            }
            x => {
                let p = r.below(planners.len());
                let q = if x < 8 && !pool.is_empty() { r.pick(&pool).0 } else { random_req(&mut r, hi, base) };
                let ctx = format!("at step {step} of a history; before: {}", last(&trail));
                let a = match q {
                    Req::K(k, n) => {
                        let i = plan_kind(&mut planners[p], k, n);
                        judge(obs, &key, &ctx, &i, k, n, &mut r)?;
                        trail.push(format!("{} {n}", k.name()));
                        Any::D(i, String::new())
                    }
                    Req::M(w, n) => {
                        let m = Any::M(planners[p].plan_mdct(n, |l| window(w, l)), String::new());
                        judge_mdct(obs, &key, &ctx, &m, &window(w, 2 * n), n, None, &mut r)?;
                        trail.push(format!("mdct {n} window {w}"));
                        m
                    }
                };
                obs.count("plans_judged", 1);
                if pool.len() < 60 {
                    pool.push((q, a, step));
                }
            }
        }
    }
    obs.count("histories", 1);
    Ok(())
}

/// one planner, every type at every length up to n, in some order
fn sweep<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("sweep"));
    let hi = c.u("hi");
    let key = c.to_string();
    let mut reqs = vec![];
    for k in ALL {
        for n in k.min_len()..=if k.family().fast() { hi } else { hi.min(90) } {
            reqs.push(Req::K(k, n));
        }
    }
    for n in (2..=hi.min(200)).step_by(2) {
        reqs.push(Req::M(r.below(14), n));
    }
    match c.s("order") {
        "up" => reqs.sort_by_key(|q| match q { Req::K(_, n) | Req::M(_, n) => *n }),
        "down" => reqs.sort_by_key(|q| std::cmp::Reverse(match q { Req::K(_, n) | Req::M(_, n) => *n })),
        "kinds" => {}
        _ => r.shuffle(&mut reqs),
    }
    let mut p = DctPlanner::<T>::new();
    for (j, q) in reqs.iter().enumerate() {
        let ctx = format!("request {j} of a sweep over lengths 1..{hi}, order {}", c.s("order"));
        match *q {
            Req::K(k, n) => {
                let i = plan_kind(&mut p, k, n);
                judge(obs, &key, &ctx, &i, k, n, &mut r)?
            }
            Req::M(w, n) => {
                let m = Any::M(p.plan_mdct(n, |l| window(w, l)), String::new());
                judge_mdct(obs, &key, &ctx, &m, &window(w, 2 * n), n, None, &mut r)?
            }
        }
        obs.count("plans_judged", 1);
    }
    // and again: everything is cached now
    for _ in 0..300 {
        if let Req::K(k, n) = *r.pick(&reqs) {
            let i = plan_kind(&mut p, k, n);
            judge(obs, &key, "asked again at the end of a sweep", &i, k, n, &mut r)?;
            obs.count("plans_judged", 1);
        }
    }
    obs.count("sweeps", 1);
    Ok(())
}

/// lengths that agree in their low bits, and mirror lengths
fn collide<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("collide"));
    let n = c.u("n");
    let k = c.u("bit");
    let key = c.to_string();
    let mut p = DctPlanner::<T>::new();
    let mut lens = vec![n, n + (1 << k), n + (2 << k), n ^ 1, 2 * n, 2 * n + 1, n + 1];
    if n > 1 {
        lens.push(n - 1);
        lens.push((n + 1) / 2);
    }
    r.shuffle(&mut lens);
    let fam = Fam::parse(c.s("fam"));
    let kinds = fam.kinds();
    for round in 0..2 {
        for l in &lens {
            let kind = *r.pick(kinds);
            let l = (*l).max(kind.min_len());
            if !kind.family().fast() && l > 1100 {
                continue;
            }
            let i = plan_kind(&mut p, kind, l);
            judge(obs, &key, &format!("after lengths {lens:?}, round {round}"), &i, kind, l, &mut r)?;
            obs.count("plans_judged", 1);
        }
        // another family at the same lengths in the same planner
        let k2 = *r.pick(&ALL);
        let l = (*r.pick(&lens)).max(2);
        if k2.family().fast() || l < 500 {
            let i = plan_kind(&mut p, k2, l);
            judge(obs, &key, "other type at the same length", &i, k2, l, &mut r)?;
        }
    }
    obs.count("collision_sets", 1);
    Ok(())
}

/// a small length next to lengths that agree with it in the low 8..22 bits: cheap for any type, because the large ones
/// are only planned and asked for their length
fn wrap<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("wrap"));
    let (n, bit) = (c.u("n"), c.u("bit"));
    let key = c.to_string();
    let fam = Fam::parse(c.s("fam"));
    let n = n.max(fam.min_len());
    let big = n + (1usize << bit);
    let mut p = DctPlanner::<T>::new();
    let mut order = vec![n, big, n, big];
    if r.chance(1, 2) {
        order.reverse()
    }
    for l in order {
        let kind = *r.pick(fam.kinds());
        let i = plan_kind(&mut p, kind, l);
        let ctx = format!("in a planner asked for lengths {n} and {big}");
        ensure!(i.len() == l, "{} {l} ({}) {ctx}: the instance has length {}", kind.name(), T::NAME, i.len());
        if l < 2000 || (fam.fast() && l < 400_000) {
            judge(obs, &key, &ctx, &i, kind, l, &mut r)?;
        }
        obs.count("plans_judged", 1);
    }
    if fam == Fam::T4 && n % 2 == 0 {
        for l in [n, big, n] {
            let m = Any::M(p.plan_mdct(l, window_fn::one), String::new());
            ensure!(m.len() == l, "mdct {l} in a planner asked for {n} and {big}: the instance has length {}", m.len());
            if l < 2000 {
                judge_mdct(obs, &key, "next to a length equal in its low bits", &m, &window(0, 2 * l), l, None, &mut r)?;
            }
        }
    }
    obs.count("low_bit_twins", 1);
    Ok(())
}

/// many windows at few lengths
fn windows<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("windows"));
    let key = c.to_string();
    let n = c.u("n");
    let mut p = DctPlanner::<T>::new();
    let base: Vec<T> = window(r.below(8), 2 * n);
    // (window, position where it differs from the base)
    let mut ws: Vec<(Vec<T>, Option<usize>)> = vec![(base.clone(), None)];
    let tiny = T::EPS * 4096.0;
    for _ in 0..c.u("windows") {
        let mut w = base.clone();
        let at = r.below(2 * n);
        let mut p = Some(at);
        match r.below(9) {
            0 => w[at] = T::of(w[at].f() * (1.0 + tiny)),
            1 => w[at] = T::of(-w[at].f()),
            2 => w[at] = T::of(w[at].f() + 0.5),
            3 => w[2 * n - 1] = T::of(w[2 * n - 1].f() + 0.25),
            4 => w[0] = T::of(w[0].f() + 0.25),
            5 => w.swap(at, 2 * n - 1 - at),
            6 => {
                w.rotate_left(at);
                p = None
            }
            7 => {
                w = window(r.below(14), 2 * n);
                p = None
            }
            _ => {
                w = inputs::gen("white", 2 * n, None, &mut r);
                p = None
            }
        }
        ws.push((w, p));
    }
    for round in 0..2 {
        let mut order: Vec<usize> = (0..ws.len()).collect();
        r.shuffle(&mut order);
        for j in order {
            let (w, at) = &ws[j];
            let len_seen = std::cell::Cell::new(0);
            let m = p.plan_mdct(n, |l| {
                len_seen.set(l);
                w.clone()
            });
            ensure!(len_seen.get() == 0 || len_seen.get() == 2 * n, "plan_mdct({n}) asked the window function for {} values", len_seen.get());
            let m = Any::M(m, String::new());
            let ctx = format!("round {round}, one of {} windows of that length in this planner", ws.len());
            judge_mdct(obs, &key, &ctx, &m, w, n, *at, &mut r)?;
            obs.count("plans_judged", 1);
            if r.chance(1, 6) {
                // another length with a window of the same values where they overlap
                let l2 = n + 2;
                let mut w2 = w.clone();
                w2.extend(inputs::gen::<T>("pos", 4, None, &mut r));
                let w3 = w2.clone();
                let m = Any::M(p.plan_mdct(l2, move |_| w3), String::new());
                judge_mdct(obs, &key, "longer window with a common prefix", &m, &w2, l2, None, &mut r)?;
            }
            if r.chance(1, 6) {
                let i = Inst::T4(p.plan_dct4(n));
                judge(obs, &key, "inner length of planned MDCTs", &i, Kind::Dct4, n, &mut r)?;
            }
        }
    }
    obs.count("window_sets", 1);
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    refer::self_test();
    let mut r = Rng::new(seed ^ 0xc11);
    let mut v = vec![];
    let t = |r: &mut Rng| if r.chance(1, 2) { "f32" } else { "f64" };
    for (i, o) in ["up", "down", "kinds", "any", "any", "any"].iter().enumerate() {
        for k in 0..tier.q(2, 4) {
            v.push(Case::new().with("op", "sweep").with("hi", tier.q(330, 1400) + 7 * k).with("order", o).with("t", if (i + k) % 2 == 0 { "f64" } else { "f32" }).with("s", r.u64() >> 16));
        }
    }
    for _ in 0..tier.q(2500, 30_000) {
        v.push(Case::new().with("op", "hist").with("steps", r.logrange(5, tier.q(400, 1500))).with("hi", r.logrange(8, tier.q(800, 4000))).with("t", t(&mut r)).with("s", r.u64() >> 16));
    }
    for fam in FAMS {
        for bit in 1..=tier.q(16, 17) {
            if !fam.fast() && bit > 9 {
                continue;
            }
            for _ in 0..tier.q(6, 20) {
                let n = r.logrange(1, if fam.fast() { tier.q(1000, 5000) } else { 80 });
                v.push(Case::new().with("op", "collide").with("fam", fam.name()).with("n", n).with("bit", bit).with("t", t(&mut r)).with("s", r.u64() >> 16));
            }
        }
    }
    for n in (2..=tier.q(120, 300)).step_by(2) {
        for _ in 0..tier.q(4, 8) {
            v.push(Case::new().with("op", "windows").with("n", n).with("windows", r.logrange(2, 80)).with("t", t(&mut r)).with("s", r.u64() >> 16));
        }
    }
    for _ in 0..tier.q(80, 1500) {
        let n = 2 * r.logrange(40, tier.q(2000, 20_000));
        v.push(Case::new().with("op", "windows").with("n", n).with("windows", r.logrange(2, 16)).with("t", t(&mut r)).with("s", r.u64() >> 16));
    }
    for n in 1..=tier.q(150, 500) {
        v.push(Case::new().with("op", "refused").with("n", n).with("t", t(&mut r)).with("s", r.u64() >> 16));
    }
    for fam in FAMS.iter().map(|f| f.name()).chain(["mdct"]) {
        for n in 2..=tier.q(90, 200) {
            let n = if fam == "mdct" { 2 * n } else { n };
            v.push(Case::new().with("op", "inject").with("fam", fam).with("n", n).with("points", tier.q(30, 150)).with("s", r.u64() >> 16));
        }
    }
    for fam in FAMS {
        for bit in 8..=tier.q(20, 22) {
            for n in [1, 2 * r.range(1, 40), r.range(2, 100)] {
                v.push(Case::new().with("op", "wrap").with("fam", fam.name()).with("n", n).with("bit", bit).with("t", t(&mut r)).with("s", r.u64() >> 16));
            }
        }
    }
    r.shuffle(&mut v);
    v.sort_by_key(|c| c.s("op") != "sweep");
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C11",
        rule: "hist: up to three planners serve random plan requests (all types, lengths related by halving/doubling, MDCT with 14 windows), rejected requests, drops of instances and planners; every returned instance, and old ones again later, is compared with the definition. sweep: one planner serves every type at every length in four orders. collide: lengths equal in their low k bits (wrap: up to k = 20, for every type). refused: requests refused in ten ways (parity, window size, panicking window function), then proper ones of the same length. inject: planning interrupted at its k-th operation by a panicking number type, then repeated in the same planner. windows: 2-80 windows of one length differing in one value (down to 4096 ulp), sign, rotation or entirely; judged through impulses at the differing place and per-bin relative IMDCT. Non-trivial = length >= 2",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 40000), ("plans_judged", 30000), ("histories", 400), ("mdct_judged", 5000), ("planner_drops", 200), ("old_instances_judged", 5000), ("requests", 6000), ("collision_sets", 150), ("low_bit_twins", 350), ("window_sets", 60), ("sweeps", 5), ("refusal_sets", 1000), ("interrupted_plans", 8000)],
    })
}
