//! An instance of any kind (transform or MDCT) behind one call shape: data in, data out, scratch.
use crate::algos::{self, Opts};
use crate::kinds::*;
use crate::rng::Rng;
use rustdct::mdct::{window_fn, Mdct};
use rustdct::{DctNum, DctPlanner};
use std::sync::Arc;

pub enum Any<T: DctNum> {
    D(Inst<T>, String),
    M(Arc<dyn Mdct<T>>, String),
}
impl<T: DctNum> Clone for Any<T> {
    fn clone(&self) -> Self {
        match self {
            Any::D(i, d) => Any::D(i.clone(), d.clone()),
            Any::M(m, d) => Any::M(m.clone(), d.clone()),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    K(Kind),
    Fwd,
    Inv,
}
/// output buffers of MDCT and IMDCT hold these before the call
pub fn prefill<T: DctNum>() -> (T, T) {
    (T::from_f64(0.25).unwrap(), T::from_f64(-1.5).unwrap())
}
impl<T: DctNum> Any<T> {
    pub fn desc(&self) -> &str {
        match self {
            Any::D(_, d) | Any::M(_, d) => d,
        }
    }
    pub fn ops(&self) -> Vec<Op> {
        match self {
            Any::D(i, _) => i.kinds().iter().map(|k| Op::K(*k)).collect(),
            Any::M(..) => vec![Op::Fwd, Op::Inv],
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Any::D(i, _) => i.len(),
            Any::M(m, _) => m.len(),
        }
    }
    pub fn scratch_len(&self) -> usize {
        match self {
            Any::D(i, _) => i.scratch_len(),
            Any::M(m, _) => m.get_scratch_len(),
        }
    }
    pub fn in_len(&self, op: Op) -> usize {
        match self {
            Any::D(i, _) => i.len(),
            Any::M(m, _) => if op == Op::Fwd { 2 * m.len() } else { m.len() },
        }
    }
    pub fn out_len(&self, op: Op) -> usize {
        match self {
            Any::D(i, _) => i.len(),
            Any::M(m, _) => if op == Op::Fwd { m.len() } else { 2 * m.len() },
        }
    }
    /// into a caller-provided output of out_len values (transforms: x copied there and processed in place)
    pub fn call_into(&self, op: Op, x: &[T], out: &mut [T], scratch: &mut [T]) {
        match (self, op) {
            (Any::D(i, _), Op::K(k)) => {
                out.copy_from_slice(x);
                i.run(k, out, scratch);
            }
            (Any::M(m, _), Op::Fwd) => {
                let n = m.len();
                m.process_mdct_with_scratch(&x[..n], &x[n..], out, scratch);
            }
            (Any::M(m, _), Op::Inv) => {
                let (a, b) = out.split_at_mut(m.len());
                m.process_imdct_with_scratch(x, a, b, scratch);
            }
            _ => panic!("HARNESS: op"),
        }
    }
    pub fn call(&self, op: Op, x: &[T], scratch: &mut [T]) -> Vec<T> {
        let (pa, pb) = prefill::<T>();
        let n = self.len();
        let mut out: Vec<T> = (0..self.out_len(op)).map(|i| if i < n { pa } else { pb }).collect();
        self.call_into(op, x, &mut out, scratch);
        out
    }
    pub fn fresh(&self, op: Op, x: &[T]) -> Vec<T> {
        self.call(op, x, &mut vec![T::zero(); self.scratch_len()])
    }
}

/// fam: a family name or "mdct"; alg: "plan", or an outermost algorithm
pub fn make<T: DctNum>(fam: &str, n: usize, alg: &str, r: &mut Rng, o: Opts) -> Any<T> {
    if fam == "mdct" {
        if alg == "plan" {
            return Any::M(DctPlanner::new().plan_mdct(n, window_fn::vorbis), format!("planned mdct {n}"));
        }
        let b = algos::mdct(n, alg, r, o, window_fn::mp3);
        return Any::M(b.inst, b.desc);
    }
    let fam = Fam::parse(fam);
    if alg == "plan" {
        let k = *r.pick(fam.kinds());
        return Any::D(plan_kind(&mut DctPlanner::new(), k, n), format!("planned {} {n}", k.name()));
    }
    let b = algos::compose::<T>(fam, n, alg, r, o);
    Any::D(b.inst, b.desc)
}
pub fn opts_for(n: usize) -> Opts {
    if n > 300 { Opts::fast_only() } else { Opts::small() }
}
/// a random (family, length, algorithm) request
pub fn random_request(r: &mut Rng, lo: usize, hi: usize) -> (&'static str, usize, &'static str) {
    let fam = *r.pick(&["d1", "s1", "t23", "t23", "t4", "t4", "d5", "s5", "d67", "s67", "s67", "d8", "s8", "mdct"]);
    let mut n = r.logrange(lo.max(2), hi);
    if r.chance(1, 3) {
        n = 1usize << r.range(1, (hi.ilog2() as usize).max(1))
    }
    let alg = if fam == "mdct" {
        n = (n + 1) / 2 * 2;
        *r.pick(&["plan", "naive", "dct4"])
    } else if r.chance(1, 2) {
        "plan"
    } else {
        *r.pick(&algos::tops(Fam::parse(fam), n))
    };
    (fam, n, alg)
}
