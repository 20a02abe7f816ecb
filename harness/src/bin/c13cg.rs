//! C13 under callgrind: machine instructions of planning and of one call, as seen by valgrind.
//! Arguments: type what n [what n ...]; every measured region is dumped with its label.
use dctmon::any::*;
use dctmon::by_t;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::rng::Rng;
use dctmon::inputs;
use rustdct::mdct::window_fn;
use rustdct::{DctNum, DctPlanner};

const ZERO: u64 = 0x4354_0001;
const DUMP_AT: u64 = 0x4354_0003;

/// valgrind client request (a no-op outside valgrind)
#[cfg(target_arch = "x86_64")]
fn request(code: u64, arg: u64) {
    let a: [u64; 6] = [code, arg, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rax") a.as_ptr() => _, inout("rdx") 0u64 => _, out("rdi") _,
        );
    }
}
fn measured<R>(label: &str, f: impl FnOnce() -> R) -> R {
    let l = format!("{label}\0");
    request(ZERO, 0);
    let r = f();
    request(DUMP_AT, l.as_ptr() as u64);
    r
}
fn plan<T: DctNum>(p: &mut DctPlanner<T>, what: &str, n: usize) -> Any<T> {
    if what == "mdct" {
        Any::M(p.plan_mdct(n, window_fn::mp3), String::new())
    } else {
        Any::D(plan_kind(p, Kind::parse(what), n), String::new())
    }
}
fn go<T: Real>(what: &str, n: usize) {
    let mut p = DctPlanner::<T>::new();
    let a = measured(&format!("{} {what} {n} plan", T::NAME), || plan(&mut p, what, n));
    for op in a.ops() {
        let mut r = Rng::new(n as u64);
        let mut x: Vec<T> = inputs::gen("white", a.in_len(op), None, &mut r);
        let mut out = vec![T::zero(); a.out_len(op)];
        let mut scratch = vec![T::zero(); a.scratch_len()];
        let name = match op {
            Op::K(k) => k.name(),
            Op::Fwd => "mdct",
            Op::Inv => "imdct",
        };
        measured(&format!("{} {what} {n} {name}", T::NAME), || a.call_into(op, &x, &mut out, &mut scratch));
        x.fill(T::nan());
        measured(&format!("{} {what} {n} {name}-nan", T::NAME), || a.call_into(op, &x, &mut out, &mut scratch));
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    for c in a[1..].chunks(3) {
        by_t!(c[0].as_str(), T => go::<T>(&c[1], c[2].parse().unwrap()));
    }
}
