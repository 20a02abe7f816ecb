//! C03: every public algorithm, in every valid composition, equals the definition.
use dctmon::algos::{self, Opts};
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::refer;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::tol::{self, Class};
use dctmon::{by_t, ensure};
use rustdct::mdct::window_fn;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

fn exec(c: &Case, obs: &mut Obs) -> Res {
    by_t!(c.s("t"), T => exec_t::<T>(c, obs))
}

fn exec_t<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("comp"));
    let mut o = if n > 300 { Opts::fast_only() } else { Opts::small() };
    if let Some(d) = c.opt("demand") {
        o.user = Some(d.parse().expect("HARNESS: demand"));
        obs.count("scratch_demands", 1);
    }
    if c.s("fam") == "mdct" {
        return mdct_case::<T>(c, n, o, &mut r, obs);
    }
    let fam = Fam::parse(c.s("fam"));
    let top = c.s("top");
    if top == "bfu" {
        for &kind in fam.kinds() {
            for j in 0..n + 3 {
                let f = if j < n { "imp" } else { ["white", "mixed", "huge"][j - n] };
                let x: Vec<T> = inputs::gen(f, n, Some(j), &mut r);
                let mut b = x.clone();
                algos::butterfly_unsafe(kind, &mut b);
                let xf = to_f64(&x);
                let label = format!("unsafe butterfly {} n={n} {} input={f}", kind.name(), T::NAME);
                tol::check::<T>(obs, &label, Class::Naive, &xf, &b, &refer::direct(kind, &xf), f == "white", 2.0)?;
                obs.eval(hash_str(&format!("{label}{j}{}", c.seed())), true);
            }
            obs.set("algorithms", format_args!("unsafe-butterfly{n}/{}", kind.name()));
        }
        return Ok(());
    }
    let b = algos::compose::<T>(fam, n, top, &mut r, o);
    let what = format!("{} ({})", b.desc, T::NAME);
    ensure!(b.inst.len() == n, "{what}: reports length {} instead of {n}", b.inst.len());
    let s1 = b.inst.scratch_len();
    let (class, gain) = if b.naive || n <= 64 { (Class::Naive, 6.0) } else { (Class::Fast, 2.0) };
    for &kind in fam.kinds() {
        let mut fams = vec!["white"];
        for _ in 0..if n > 60_000 { 0 } else { 2 } {
            fams.push(*r.pick(&inputs::FAMILIES));
        }
        for f in fams {
            let x: Vec<T> = inputs::gen(f, n, None, &mut r);
            let xf = to_f64(&x);
            let mut buf = x.clone();
            if r.chance(1, 2) {
                b.inst.run_alloc(kind, &mut buf);
            } else {
                let mut s = vec![T::zero(); s1];
                b.inst.run(kind, &mut buf, &mut s);
            }
            let label = format!("{} of {what} input={f}", kind.name());
            let want = refer::reference(kind, &xf);
            tol::check::<T>(obs, &label, class, &xf, &buf, &want, f == "white", gain)?;
            obs.eval(hash_str(&format!("{label}{}", c.seed())), n >= 2 && xf.iter().any(|v| *v != 0.0));
        }
        obs.set("algorithms", format_args!("{}/{}", top, kind.name()));
    }
    obs.set("compositions", &b.desc);
    if b.desc.contains("user") {
        obs.count("compositions_with_user_written_inner", 1);
    }
    obs.set("lengths", n);
    Ok(())
}

fn mdct_case<T: Real>(c: &Case, n: usize, o: Opts, r: &mut Rng, obs: &mut Obs) -> Res {
    let w: Vec<T> = match r.below(3) {
        0 => window_fn::vorbis(2 * n),
        1 => window_fn::one(2 * n),
        _ => inputs::gen("white", 2 * n, None, r),
    };
    let wf = to_f64(&w);
    let wc = w.clone();
    let b = algos::mdct::<T, _>(n, c.s("top"), r, o, move |len| {
        assert!(len == wc.len(), "window function asked for {len} values instead of {}", wc.len());
        wc
    });
    let what = format!("{} ({})", b.desc, T::NAME);
    ensure!(b.inst.len() == n, "{what}: reports length {} instead of {n}", b.inst.len());
    let second = *r.pick(&["imp", "const", "mixed", "ramp", "ends", "step"]);
    for f in ["white", second].into_iter().take(if n > 60_000 { 1 } else { 2 }) {
        let x: Vec<T> = inputs::gen(f, 2 * n, None, r);
        let xf = to_f64(&x);
        let out = run_mdct(&*b.inst, &x[..n], &x[n..], None);
        let wx: Vec<f64> = xf.iter().zip(&wf).map(|(a, b)| a * b).collect();
        let label = format!("mdct of {what} input={f}");
        tol::check::<T>(obs, &label, Class::Naive, &wx, &out, &refer::mdct(&wf, &xf, n), false, 8.0)?;
        let y: Vec<T> = inputs::gen(f, n, None, r);
        let (mut oa, mut ob) = (vec![T::zero(); n], vec![T::zero(); n]);
        let mut s = vec![T::zero(); b.inst.get_scratch_len()];
        b.inst.process_imdct_with_scratch(&y, &mut oa, &mut ob, &mut s);
        let yf = to_f64(&y);
        oa.extend(ob);
        let label = format!("imdct of {what} input={f}");
        tol::check::<T>(obs, &label, Class::Naive, &yf, &oa, &refer::imdct(&wf, &yf, n), false, 8.0)?;
        obs.eval(hash_str(&format!("{label}{}", c.seed())), true);
    }
    obs.set("compositions", &b.desc);
    obs.set("algorithms", format_args!("mdct-{}", c.s("top")));
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    refer::self_test();
    let mut r = Rng::new(seed ^ 0xc03);
    let mut v = vec![];
    let reps = tier.q(3, 30);
    let nmax = tier.q(136, 300);
    for fam in FAMS {
        for n in fam.min_len()..=nmax {
            for top in algos::tops(fam, n) {
                let k = if top == "naive" { 1 } else if top == "sr" { reps * 12 } else { reps };
                for _ in 0..k {
                    for t in ["f64", "f32"] {
                        v.push(Case::new().with("fam", fam.name()).with("n", n).with("top", top).with("t", t).with("s", r.u64() >> 16));
                    }
                }
            }
        }
        // larger fast compositions, and naive ones at sizes where index arithmetic wraps
        for _ in 0..tier.q(60, 1500) {
            let n = r.logrange(137, tier.q(6000, 60000));
            for top in algos::tops(fam, n) {
                if top != "naive" {
                    v.push(Case::new().with("fam", fam.name()).with("n", n).with("top", top).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
                } else if n <= tier.q(800, 3000) {
                    v.push(Case::new().with("fam", fam.name()).with("n", n).with("top", top).with("t", "f64").with("s", r.u64() >> 16));
                }
            }
        }
    }
    for e in 8..=tier.q(14, 19) {
        for _ in 0..tier.q(6, 20) {
            for (fam, top) in [("t23", "sr"), ("t4", "even")] {
                v.push(Case::new().with("fam", fam).with("n", 1usize << e).with("top", top).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
            }
        }
    }
    // user-written parts whose need for scratch lies at any point around what the outer transform has
    for (fam, top) in [("d1", "fft"), ("s1", "fft"), ("t23", "fft"), ("t23", "sr"), ("t4", "even"), ("t4", "odd"), ("s67", "fft"), ("mdct", "dct4")] {
        let lens: Vec<usize> = (2..=tier.q(33, 65)).filter(|&n| fam == "mdct" || (n >= Fam::parse(fam).min_len() && algos::tops(Fam::parse(fam), n).contains(&top))).collect();
        for n in lens {
            let all: Vec<usize> = (0..=4 * n + 9).collect();
            for k in 0..if n <= 14 { all.len() } else { tier.q(20, 150) } {
                let m = [n / 4, n / 2, n, 2 * n, 4 * n][r.below(5)];
                let d = match k { _ if n <= 14 => all[k], 0 => 0, 1 => n + 1, 2 => 2 * n + 1, _ if r.chance(2, 3) => (m + r.below(6)).saturating_sub(2), _ => *r.pick(&all) };
                if fam == "mdct" && n % 2 == 1 {
                    continue;
                }
                v.push(Case::new().with("fam", fam).with("n", n).with("top", top).with("demand", d).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
            }
        }
    }
    // beyond 2^16: direct summation (one case each), and fast compositions up to and beyond 2^20
    for fam in [Fam::D1, Fam::S1, Fam::T23, Fam::T4, Fam::S67] {
        v.push(Case::new().with("fam", fam.name()).with("n", 65_600 + r.below(2000)).with("top", "naive").with("t", "f64").with("s", r.u64() >> 16));
        for _ in 0..tier.q(4, 30) {
            let n = r.logrange(60_000, tier.q(1_300_000, 4_000_000));
            for top in algos::tops(fam, n) {
                if top != "naive" {
                    v.push(Case::new().with("fam", fam.name()).with("n", n).with("top", top).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
                }
            }
        }
    }
    for e in [17, 20] {
        v.push(Case::new().with("fam", "t23").with("n", 1usize << e).with("top", "sr").with("t", "f64").with("s", r.u64() >> 16));
    }
    v.push(Case::new().with("fam", "mdct").with("n", 65_600 + 2 * r.below(500)).with("top", "naive").with("t", "f64").with("s", r.u64() >> 16));
    for _ in 0..3 {
        v.push(Case::new().with("fam", "mdct").with("n", 2 * r.logrange(60_000, 400_000)).with("top", "dct4").with("t", "f32").with("s", r.u64() >> 16));
    }
    for n in [2usize, 3, 4, 8, 16] {
        for t in ["f64", "f32"] {
            for _ in 0..tier.q(10, 200) {
                v.push(Case::new().with("fam", "t23").with("n", n).with("top", "bfu").with("t", t).with("s", r.u64() >> 16));
            }
        }
    }
    for n in (2..=tier.q(128, 300)).step_by(2) {
        for top in ["naive", "dct4"] {
            for _ in 0..if top == "naive" { 2 } else { reps * 2 } {
                v.push(Case::new().with("fam", "mdct").with("n", n).with("top", top).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
            }
        }
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.u("n")));
    v
}

fn main() {
    main_(Prop {
        id: "C03",
        rule: "case = (algorithm family, outermost algorithm, length, type, seed): build the algorithm over a random valid tree of inner transforms (rustfft auto/scalar, Dft, Rader, Bluestein, user-written FFTs and DCTs that demand 0..5n+3 scratch and overwrite it, split radix, butterflies, planned instances), run each kind on seeded inputs and compare with the definition; inner mocks assert their own contract; non-trivial = n>=2 and nonzero input",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 10000), ("algorithms", 45), ("compositions", 1000), ("compositions_with_user_written_inner", 500), ("scratch_demands", 3000)],
    })
}
use dctmon::runner::main as main_;
