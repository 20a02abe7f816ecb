//! How much stack a call uses: the stack below is painted before it and inspected after.
use std::arch::asm;

pub const SPAN: usize = 1 << 20;
const PAINT: u64 = 0x5ca1_ab1e_0dd5_7a7e;

/// bytes of stack that f reached below this frame (SPAN: at least that many)
#[inline(never)]
pub fn stack_used<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let sp: usize;
    // SAFETY: reads the stack pointer
    unsafe { asm!("mov {}, rsp", out(reg) sp) };
    let top = (sp - 256) / 8 * 8;
    let bottom = top - SPAN;
    let mut at = bottom;
    while at < top {
        // SAFETY: unused stack of this thread (threads of the monitors have at least 16 times as much)
        unsafe { (at as *mut u64).write_volatile(PAINT) };
        at += 8;
    }
    let r = f();
    at = bottom;
    // SAFETY: as above
    while at < top && unsafe { (at as *const u64).read_volatile() } == PAINT {
        at += 8;
    }
    (r, top - at)
}
/// the measurement works
pub fn self_test() {
    #[inline(never)]
    fn eat<const N: usize>() -> u8 {
        let mut a = [1u8; N];
        for (i, x) in a.iter_mut().enumerate() {
            *x = std::hint::black_box(i as u8)
        }
        std::hint::black_box(&a)[N - 1]
    }
    for (want, got) in [(100_000, stack_used(eat::<100_000>).1), (10_000, stack_used(eat::<10_000>).1), (0, stack_used(|| 1).1), (SPAN, stack_used(eat::<2_000_000>).1)] {
        assert!(got + 600 >= want && got <= want + 2500, "HARNESS: stack measurement: {got} instead of {want}");
    }
}
