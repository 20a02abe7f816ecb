//! C17: the same sequence of requests and calls gives the same bits on every run, in every process and thread, wherever
//! in memory the buffers lie and whatever fresh memory holds.
use dctmon::alloc;
use dctmon::algos;
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::rng::{hash_str, mix, Rng};
use dctmon::runner::*;
use dctmon::{by_t, ensure};
use rustdct::mdct::window_fn;
use rustdct::DctPlanner;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

#[derive(Clone, PartialEq, Eq, Debug)]
struct Step {
    what: String,
    digest: u64,
    first: u64,
}
fn digest<T: Real>(v: &[T]) -> (u64, u64) {
    let canon = |x: &T| if x.f().is_nan() { u64::MAX } else { x.bits() };
    (v.iter().fold(v.len() as u64, |h, x| mix(h ^ canon(x)).rotate_left(7)), v.first().map_or(0, canon))
}

/// what the caller cannot mean by "the same call": places in memory, fresh memory, other live blocks
struct Env {
    r: Rng,
    litter: Vec<Vec<u8>>,
}
impl Env {
    fn new(seed: u64) -> Env {
        let mut r = Rng::new(seed);
        alloc::set_pattern(match r.below(5) { 0 => 0, 1 => alloc::NANS, 2 => u64::MAX, _ => r.u64() });
        Env { r, litter: vec![] }
    }
    fn stir(&mut self) {
        for _ in 0..self.r.below(4) {
            let n = self.r.logrange(1, 20_000);
            self.litter.push(vec![self.r.below(256) as u8; n]);
        }
        while self.litter.len() > 40 {
            let k = self.r.below(self.litter.len());
            self.litter.swap_remove(k);
        }
        if self.r.chance(1, 4) {
            let p = self.r.u64();
            alloc::set_pattern(p);
        }
    }
    /// x somewhere in a larger block
    fn put<T: Real>(&mut self, x: &[T]) -> (Vec<T>, usize) {
        let o = self.r.below(9);
        let mut v = vec![T::of(self.r.sym()); x.len() + o + self.r.below(9)];
        v[o..o + x.len()].copy_from_slice(x);
        (v, o)
    }
}

/// everything but `env` follows from the case
fn session<T: Real>(c: &Case, env: u64) -> Vec<Step> {
    let mut r = Rng::new(c.seed() ^ hash_str("repro"));
    let mut e = Env::new(env);
    let mut out = vec![];
    let hi = c.u("hi");
    let mut p = DctPlanner::<T>::new();
    let mut held: Vec<Any<T>> = vec![];
    let use_it = |a: &Any<T>, r: &mut Rng, e: &mut Env, out: &mut Vec<Step>| {
        for op in a.ops() {
            let f = *r.pick(&inputs::FAMILIES);
            let x: Vec<T> = inputs::gen(f, a.in_len(op), None, r);
            let alloc = r.chance(1, 3);
            e.stir();
            let (xv, xo) = e.put(&x);
            let (mut ov, oo) = e.put(&(0..a.out_len(op)).map(|i| T::of(0.25 * (i % 7) as f64)).collect::<Vec<T>>());
            let (mut sv, so) = e.put(&vec![T::of(3.5); a.scratch_len()]);
            let (n, no) = (a.scratch_len(), a.out_len(op));
            match (a, op) {
                (Any::D(i, _), Op::K(k)) if alloc => {
                    ov[oo..oo + no].copy_from_slice(&x);
                    i.run_alloc(k, &mut ov[oo..oo + no]);
                }
                _ => a.call_into(op, &xv[xo..xo + x.len()], &mut ov[oo..oo + no], &mut sv[so..so + n]),
            }
            let (d, first) = digest(&ov[oo..oo + no]);
            out.push(Step { what: format!("{} {op:?} of {f} (scratch {n})", a.desc()), digest: d, first });
        }
    };
    for _ in 0..c.u("steps") {
        e.stir();
        match r.below(10) {
            0 if !held.is_empty() => {
                let k = r.below(held.len());
                held.swap_remove(k);
            }
            1 => p = DctPlanner::new(),
            2 => {
                let n = r.logrange(2, hi.min(64));
                let fam = *r.pick(&FAMS);
                let n = n.max(fam.min_len());
                let tops = algos::tops(fam, n);
                let b = algos::compose::<T>(fam, n, *r.pick(&tops), &mut r, opts_for(n));
                held.push(Any::D(b.inst, b.desc));
            }
            3 => {
                let n = 2 * r.logrange(1, hi / 2);
                let m = match r.below(4) {
                    0 => p.plan_mdct(n, window_fn::mp3),
                    1 => p.plan_mdct(n, window_fn::vorbis),
                    2 => p.plan_mdct(n, window_fn::invertible),
                    _ => p.plan_mdct(n, window_fn::one),
                };
                held.push(Any::M(m, format!("planned mdct {n}")));
            }
            _ => {
                let k = *r.pick(&ALL);
                let mut n = r.logrange(2, if k.family().fast() { hi } else { hi.min(150) });
                if r.chance(1, 4) {
                    n = n.next_power_of_two();
                }
                held.push(Any::D(plan_kind(&mut p, k, n), format!("planned {} {n}", k.name())));
            }
        }
        if let Some(a) = held.last() {
            use_it(a, &mut r, &mut e, &mut out);
        }
        if !held.is_empty() && r.chance(1, 3) {
            let a = r.pick(&held).clone();
            use_it(&a, &mut r, &mut e, &mut out);
        }
    }
    alloc::set_pattern(alloc::NANS);
    out
}

fn compare(c: &Case, a: &[Step], b: &[Step], where_: &str, obs: &mut Obs) -> Res {
    ensure!(a.len() == b.len(), "HARNESS: {} steps against {}", a.len(), b.len());
    for (i, (p, q)) in a.iter().zip(b).enumerate() {
        ensure!(p == q, "step {i} of a session ({}): {} gave other bits in {where_}: first value {:x} / {:x}; there: {}", c.s("t"), p.what, p.first, q.first, q.what);
        obs.eval(hash_str(&format!("{c}{i}")), true);
        obs.count("results_compared", 1);
    }
    obs.count(&format!("runs.{}", where_.split(' ').next().unwrap_or("")), 1);
    Ok(())
}

fn exec(c: &Case, obs: &mut Obs) -> Res {
    by_t!(c.s("t"), T => {
        let base = session::<T>(c, 1);
        for s in &base {
            obs.set("instances_and_calls", &s.what);
        }
        compare(c, &base, &session::<T>(c, mix(c.seed() ^ 2)), "the same thread, run again", obs)?;
        let other = std::thread::Builder::new().stack_size((1 << 20) + 4096 * (c.seed() % 7) as usize)
            .spawn({ let c = c.clone(); move || caught(|| session::<T>(&c, mix(c.seed() ^ 3))) }).expect("HARNESS: spawn").join();
        match other {
            Ok(Ok(o)) => compare(c, &base, &o, "another thread", obs)?,
            Ok(Err(m)) => return Err(format!("in another thread: {m}")),
            Err(_) => return Err("HARNESS: thread".into()),
        }
        if c.opt("child") == Some("1") {
            let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?;
            let out = std::process::Command::new(exe).arg("session").args(c.to_string().split(' '))
                .env_clear().env("PADDING", "x".repeat((c.seed() % 5000) as usize)).output().map_err(|e| format!("HARNESS: {e}"))?;
            ensure!(out.status.success(), "in another process: {} {}", out.status, String::from_utf8_lossy(&out.stderr));
            let text = String::from_utf8_lossy(&out.stdout);
            let o: Vec<Step> = text.lines().map(|l| {
                let f: Vec<&str> = l.split('\t').collect();
                Step { digest: f[0].parse().unwrap(), first: f[1].parse().unwrap(), what: f[2].to_string() }
            }).collect();
            compare(c, &base, &o, "another process", obs)?;
        }
        Ok(())
    })
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 0xc17);
    let mut v = vec![];
    for i in 0..tier.q(16_000, 120_000) {
        v.push(Case::new().with("steps", r.range(1, 30)).with("hi", r.logrange(6, tier.q(3000, 40_000))).with("t", if r.chance(1, 2) { "f32" } else { "f64" })
            .with("child", i % 3).with("s", r.u64() >> 16));
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.u("hi") * c.u("steps")));
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("session") {
        quiet_panics();
        alloc::fill_fresh_memory();
        let c = Case::parse(&args[2..].join(" "));
        let steps = by_t!(c.s("t"), T => session::<T>(&c, mix(c.seed() ^ std::process::id() as u64)));
        for s in steps {
            println!("{}\t{}\t{}", s.digest, s.first, s.what);
        }
        return;
    }
    dctmon::runner::main(Prop {
        id: "C17",
        rule: "sessions (plans of every type, MDCTs, random compositions, calls with all data families, dropped planners) run again in the same thread, in another thread with another stack, and (a third of them) in another process with another environment, each with other positions of every buffer, other litter on the heap and other contents of fresh memory; every output bit and every advertised scratch length must be the same. Non-trivial = every compared call",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 400000), ("results_compared", 800000), ("runs.the", 8000), ("runs.another", 12000), ("instances_and_calls", 60000)],
    })
}
