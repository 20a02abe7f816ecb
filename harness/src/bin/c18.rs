//! C18: planning, processing, refusing and dropping have no effect outside and no hidden inputs. Every call into the
//! library runs under Syscall User Dispatch: the kernel hands each system call of the thread to a handler, which carries
//! out memory management and records everything else.
use dctmon::algos;
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::numtypes::*;
use dctmon::real::*;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::{by_t, ensure};
use rustdct::algorithm::*;
use rustdct::mdct::{window_fn, Mdct, MdctNaive, MdctViaDct4};
use rustdct::rustfft::{Fft, FftPlanner};
use rustdct::*;
use std::arch::{asm, global_asm};
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Once};

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

// ---- the watch ----------------------------------------------------------------------------------------------------------
global_asm!(
    ".global dctmon_restorer",
    ".global dctmon_restorer_end",
    "dctmon_restorer:",
    "mov eax, 15",
    "syscall",
    "ud2",
    "dctmon_restorer_end:",
);
extern "C" {
    fn dctmon_restorer();
    fn dctmon_restorer_end();
    fn syscall(nr: c_long, ...) -> c_long;
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn mallopt(what: c_int, value: c_int) -> c_int;
}

#[derive(Clone, Copy)]
struct Seen {
    /// system calls beyond memory management, in order
    calls: [i32; 8],
    n: usize,
    neutral: u64,
    env: u32,
    setenv: u32,
    clock: u32,
    modes: u32,
}
const NOTHING: Seen = Seen { calls: [0; 8], n: 0, neutral: 0, env: 0, setenv: 0, clock: 0, modes: 0 };
thread_local! {
    /// 1: system calls of this thread go to the handler
    static SELECTOR: Cell<u8> = const { Cell::new(0) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<Seen> = const { Cell::new(NOTHING) };
    static MODES: Cell<(u32, u16)> = const { Cell::new((0, 0)) };
    /// 0 not tried, 1 on, 2 the kernel refuses
    static ARMED: Cell<u8> = const { Cell::new(0) };
    static PANICS: Cell<u64> = const { Cell::new(0) };
}
fn note(f: impl FnOnce(&mut Seen)) {
    SEEN.with(|c| {
        let mut s = c.get();
        f(&mut s);
        c.set(s);
    })
}
const MUNMAP_ETC: [i32; 9] = [9, 10, 11, 12, 25, 28, 202, 24, 318]; // mmap mprotect munmap brk mremap madvise futex sched_yield getrandom

unsafe extern "C" fn on_sigsys(_sig: c_int, info: *mut u8, ctx: *mut u8) {
    SELECTOR.with(|s| s.set(0));
    let nr = *(info.add(24) as *const i32);
    let regs = ctx.add(40) as *mut i64;
    let reg = |i: usize| *regs.add(i);
    // an anonymous mapping is memory, any other a file
    let neutral = MUNMAP_ETC.contains(&nr) && !(nr == 9 && reg(2) & 0x20 == 0);
    note(|s| {
        if neutral {
            s.neutral += 1
        } else {
            s.calls[s.n.min(7)] = nr;
            s.n += 1;
        }
    });
    // threads and processes are made, and ended, by the original instruction, unwatched from here on
    if [56, 57, 58, 435, 60, 231, 59, 15, 13, 14].contains(&nr) {
        *regs.add(16) -= 2;
        *regs.add(13) = nr as i64;
        return;
    }
    let v: i64;
    asm!("syscall", inlateout("rax") nr as i64 => v, in("rdi") reg(8), in("rsi") reg(9), in("rdx") reg(12), in("r10") reg(2), in("r8") reg(0), in("r9") reg(1),
        lateout("rcx") _, lateout("r11") _);
    *regs.add(13) = v;
    SELECTOR.with(|s| s.set(1));
}

fn modes() -> (u32, u16) {
    let (mut m, mut w) = (0u32, 0u16);
    // SAFETY: stores of control registers
    unsafe {
        asm!("stmxcsr [{}]", in(reg) &mut m);
        asm!("fnstcw [{}]", in(reg) &mut w);
    }
    (m & !0x3f, w)
}
fn restore_modes(to: (u32, u16)) {
    // SAFETY: loads of control registers that were read before
    unsafe {
        asm!("ldmxcsr [{}]", in(reg) &to.0);
        asm!("fldcw [{}]", in(reg) &to.1);
    }
}
/// from code of ours that the library calls: are the modes the caller's?
fn check_modes() {
    if INSIDE.with(|i| i.get()) && modes() != MODES.with(|m| m.get()) {
        note(|s| s.modes += 1)
    }
}

fn arm() -> bool {
    static HANDLER: Once = Once::new();
    HANDLER.call_once(|| {
        #[repr(C)]
        struct KSigaction {
            handler: usize,
            flags: u64,
            restorer: usize,
            mask: u64,
        }
        let sa = KSigaction { handler: on_sigsys as *const () as usize, flags: 0x4 | 0x0400_0000, restorer: dctmon_restorer as *const () as usize, mask: 0 };
        // SAFETY: rt_sigaction(SIGSYS) with a handler that lives as long as the process
        let e = unsafe { syscall(13, 31 as c_long, &sa as *const _, 0 as c_long, 8 as c_long) };
        assert!(e == 0, "HARNESS: sigaction");
    });
    ARMED.with(|a| {
        if a.get() == 0 {
            let from = dctmon_restorer as *const () as usize;
            let len = dctmon_restorer_end as *const () as usize - from;
            let sel = SELECTOR.with(|s| s.as_ptr());
            // SAFETY: PR_SET_SYSCALL_USER_DISPATCH with a selector that lives as long as the thread
            let e = unsafe { syscall(157, 59 as c_long, 1 as c_long, from as c_long, len as c_long, sel) };
            a.set(if e == 0 { 1 } else { 2 });
        }
        a.get() == 1
    })
}

/// one call into the library under watch; a panic is handed back
fn watch<R>(what: impl FnOnce() -> String, obs: &mut Obs, f: impl FnOnce() -> R) -> Result<Result<R, String>, String> {
    let on = arm();
    let before = modes();
    SEEN.with(|s| s.set(NOTHING));
    MODES.with(|m| m.set(before));
    INSIDE.with(|i| i.set(true));
    if on {
        SELECTOR.with(|s| s.set(1));
        std::sync::atomic::compiler_fence(Ordering::SeqCst);
    }
    let panics = PANICS.with(|p| p.get());
    let r = caught(f);
    // what was printed but held back comes out now
    let _ = std::io::stdout().flush();
    std::sync::atomic::compiler_fence(Ordering::SeqCst);
    SELECTOR.with(|s| s.set(0));
    INSIDE.with(|i| i.set(false));
    let after = modes();
    restore_modes(before);
    let s = SEEN.with(|s| s.get());
    obs.count("watched_calls", 1);
    obs.count(if on { "watched_calls.syscalls" } else { "watched_calls.without_syscalls" }, 1);
    obs.count("memory_syscalls_seen", s.neutral);
    if s.n > 0 {
        let v: Vec<String> = s.calls[..s.n.min(7)].iter().map(|n| name(*n)).collect();
        return Err(format!("{}: made {} system call(s) that are not memory management: {}", what(), s.n, v.join(", ")));
    }
    ensure!(s.env == 0, "{}: read {} environment variable(s)", what(), s.env);
    ensure!(s.setenv == 0, "{}: changed the environment", what());
    ensure!(s.clock == 0, "{}: read the clock {} time(s)", what(), s.clock);
    ensure!(after == before, "{}: left the floating-point modes at mxcsr {:x}, x87 {:x}; they were {:x}, {:x}", what(), after.0, after.1, before.0, before.1);
    ensure!(s.modes == 0, "{}: ran the caller's own code with other floating-point modes", what());
    ensure!(r.is_ok() || PANICS.with(|p| p.get()) > panics, "{}: a panic did not reach the panic hook of the process", what());
    Ok(r)
}
fn name(n: i32) -> String {
    let k = match n {
        0 => "read", 1 => "write", 2 => "open", 3 => "close", 9 => "mmap of a file", 13 => "rt_sigaction", 14 => "rt_sigprocmask", 35 => "nanosleep", 39 => "getpid",
        41 => "socket", 56 => "clone", 57 => "fork", 60 => "exit", 79 => "getcwd", 96 => "gettimeofday", 186 => "gettid", 203 => "sched_setaffinity", 204 => "sched_getaffinity", 228 => "clock_gettime",
        230 => "clock_nanosleep", 257 => "openat", 262 => "newfstatat", 332 => "statx", 435 => "clone3", _ => "",
    };
    format!("{n} {k}")
}

// ---- what goes by libc without a system call --------------------------------------------------------------------------------
fn real(slot: &AtomicU64, name: &[u8]) -> u64 {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    // SAFETY: RTLD_NEXT and a C string
    let v = unsafe { dlsym(-1isize as *mut c_void, name.as_ptr() as *const c_char) } as u64;
    slot.store(v, Ordering::Relaxed);
    v
}
fn inside() -> bool {
    INSIDE.try_with(|i| i.get()).unwrap_or(false)
}
static R: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
#[no_mangle]
unsafe extern "C" fn getenv(k: *const c_char) -> *mut c_char {
    if inside() {
        note(|s| s.env += 1)
    }
    std::mem::transmute::<u64, extern "C" fn(*const c_char) -> *mut c_char>(real(&R[0], b"getenv\0"))(k)
}
#[no_mangle]
unsafe extern "C" fn setenv(k: *const c_char, v: *const c_char, o: c_int) -> c_int {
    if inside() {
        note(|s| s.setenv += 1)
    }
    std::mem::transmute::<u64, extern "C" fn(*const c_char, *const c_char, c_int) -> c_int>(real(&R[1], b"setenv\0"))(k, v, o)
}
#[no_mangle]
unsafe extern "C" fn unsetenv(k: *const c_char) -> c_int {
    if inside() {
        note(|s| s.setenv += 1)
    }
    std::mem::transmute::<u64, extern "C" fn(*const c_char) -> c_int>(real(&R[2], b"unsetenv\0"))(k)
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(c: c_int, t: *mut c_void) -> c_int {
    if inside() {
        note(|s| s.clock += 1)
    }
    std::mem::transmute::<u64, extern "C" fn(c_int, *mut c_void) -> c_int>(real(&R[3], b"clock_gettime\0"))(c, t)
}

// ---- the panic hook -----------------------------------------------------------------------------------------------------
static HOOK_LOST: AtomicU64 = AtomicU64::new(0);
static HOOK_PROBES: AtomicU64 = AtomicU64::new(0);
fn hook_works() -> bool {
    let before = PANICS.with(|p| p.get());
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(0u8));
    HOOK_PROBES.fetch_add(1, Ordering::Relaxed);
    PANICS.with(|p| p.get()) == before + 1
}
fn count_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let _ = PANICS.try_with(|p| p.set(p.get() + 1));
        check_modes();
        old(i)
    }));
}
/// once per process: the allocator without its per-thread arenas (whose bookkeeping reads files), the hook, and a thread
/// that never stops checking that the hook is in place
fn prepare() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        // SAFETY: M_ARENA_MAX
        unsafe { mallopt(-8, 1) };
        for (s, n) in R.iter().zip([&b"getenv\0"[..], b"setenv\0", b"unsetenv\0", b"clock_gettime\0"]) {
            assert!(real(s, n) != 0, "HARNESS: dlsym");
        }
        count_panics();
        std::thread::spawn(|| loop {
            for _ in 0..50 {
                if !hook_works() {
                    HOOK_LOST.fetch_add(1, Ordering::Relaxed);
                }
            }
            std::thread::sleep(std::time::Duration::from_micros(200));
        });
        self_test();
    });
}
/// the monitor sees what it is there to see
fn self_test() {
    let mut o = Obs::default();
    let mut blind = vec![];
    let mut t = |what: &str, f: &dyn Fn()| {
        if let Ok(_) = watch(|| what.into(), &mut o, f) {
            blind.push(what.to_string())
        }
    };
    t("getenv", &|| drop(std::env::var_os("HOME")));
    t("clock", &|| { std::hint::black_box(std::time::Instant::now()); });
    t("ftz", &|| {
        let m = modes();
        restore_modes((m.0 | 0x8040, m.1))
    });
    t("setenv", &|| std::env::set_var("DCTMON_SELF_TEST", "1"));
    if arm() {
        t("file", &|| drop(std::fs::metadata("/dev/null")));
        t("write", &|| drop(std::io::stderr().write(b"")));
        t("thread", &|| drop(std::thread::spawn(|| 1).join()));
        t("affinity", &|| drop(std::thread::available_parallelism()));
        t("sleep", &|| std::thread::sleep(std::time::Duration::from_nanos(10)));
        t("panic with I/O", &|| {
            drop(std::fs::File::open("/dev/null"));
            panic!("x")
        });
    }
    assert!(blind.is_empty(), "HARNESS: the monitor is blind to {blind:?}");
    let quiet = watch(|| "memory".into(), &mut o, || {
        let v: Vec<Vec<u8>> = (0..50).map(|i| vec![1u8; 10_000 * i]).collect();
        assert!(v[49].len() == 490_000);
        let m: std::collections::HashMap<usize, usize> = (0..10).map(|i| (i, i)).collect();
        assert!(m[&3] == 3);
        panic!("fine")
    });
    assert!(quiet.is_ok(), "HARNESS: the monitor raises an alarm on memory management: {quiet:?}");
}

// ---- user-written parts that look at the modes, and may panic -----------------------------------------------------------
struct Probe<X: ?Sized>(Arc<X>, AtomicU64);
impl<X: ?Sized> Probe<X> {
    fn visit(&self) {
        check_modes();
        if self.1.fetch_sub(1, Ordering::Relaxed) == 1 {
            panic!("user-written part gives up")
        }
    }
}
macro_rules! probe {
    ($X:ident: $($tr:ident $f:ident),*) => {
        impl<T: DctNum> RequiredScratch for Probe<dyn $X<T>> {
            fn get_scratch_len(&self) -> usize { self.0.get_scratch_len() }
        }
        impl<T: DctNum> Length for Probe<dyn $X<T>> {
            fn len(&self) -> usize { self.0.len() }
        }
        $(impl<T: DctNum> $tr<T> for Probe<dyn $X<T>> {
            fn $f(&self, buffer: &mut [T], scratch: &mut [T]) {
                self.visit();
                self.0.$f(buffer, scratch);
                check_modes();
            }
        })*
        impl<T: DctNum> $X<T> for Probe<dyn $X<T>> {}
    };
}
use rustdct::rustfft::Length;
probe!(TransformType2And3: Dct2 process_dct2_with_scratch, Dct3 process_dct3_with_scratch, Dst2 process_dst2_with_scratch, Dst3 process_dst3_with_scratch);
probe!(TransformType4: Dct4 process_dct4_with_scratch, Dst4 process_dst4_with_scratch);
impl<T: DctNum> rustfft::Length for Probe<dyn Fft<T>> {
    fn len(&self) -> usize { self.0.len() }
}
impl<T: DctNum> rustfft::Direction for Probe<dyn Fft<T>> {
    fn fft_direction(&self) -> rustfft::FftDirection { self.0.fft_direction() }
}
type Cx<T> = rustfft::num_complex::Complex<T>;
impl<T: DctNum> Fft<T> for Probe<dyn Fft<T>> {
    fn process_with_scratch(&self, buffer: &mut [Cx<T>], scratch: &mut [Cx<T>]) {
        self.visit();
        self.0.process_with_scratch(buffer, scratch)
    }
    fn process_outofplace_with_scratch(&self, input: &mut [Cx<T>], output: &mut [Cx<T>], scratch: &mut [Cx<T>]) {
        self.visit();
        self.0.process_outofplace_with_scratch(input, output, scratch)
    }
    fn process_immutable_with_scratch(&self, input: &[Cx<T>], output: &mut [Cx<T>], scratch: &mut [Cx<T>]) {
        self.visit();
        self.0.process_immutable_with_scratch(input, output, scratch)
    }
    fn get_inplace_scratch_len(&self) -> usize { self.0.get_inplace_scratch_len() }
    fn get_outofplace_scratch_len(&self) -> usize { self.0.get_outofplace_scratch_len() }
    fn get_immutable_scratch_len(&self) -> usize { self.0.get_immutable_scratch_len() }
}

fn probed<T: DctNum>(n: usize, r: &mut Rng) -> Any<T> {
    let after = AtomicU64::new(if r.chance(1, 2) { r.range(1, 3) as u64 } else { u64::MAX });
    let fft = |n: usize| -> Arc<dyn Fft<T>> { FftPlanner::new().plan_fft_forward(n) };
    let d = |i: Inst<T>, what: &str| Any::D(i, format!("{what} of {n} around a user-written part"));
    macro_rules! p23 { ($n:expr) => { Arc::new(Probe::<dyn TransformType2And3<T>>(DctPlanner::new().plan_dct2($n), after)) } }
    macro_rules! pf { ($n:expr) => { Arc::new(Probe::<dyn Fft<T>>(fft($n), after)) } }
    match r.below(8) {
        0 => d(Inst::T23(Arc::new(Type2And3ConvertToFft::new(pf!(n)))), "dct2"),
        1 => d(Inst::D1(Arc::new(Dct1ConvertToFft::new(pf!(2 * (n - 1))))), "dct1"),
        2 => d(Inst::S1(Arc::new(Dst1ConvertToFft::new(pf!(2 * (n + 1))))), "dst1"),
        3 => d(Inst::S67(Arc::new(Dst6And7ConvertToFft::new(pf!(2 * n + 1)))), "dst6"),
        4 => d(Inst::T4(Arc::new(Type4ConvertToFftOdd::new(pf!(n | 1)))), "dct4"),
        5 => d(Inst::T4(Arc::new(Type4ConvertToType3Even::new(p23!(n)))), "dct4"),
        6 => {
            let n = n.next_power_of_two().max(4);
            let quarter: Arc<dyn TransformType2And3<T>> = DctPlanner::new().plan_dct2(n / 4);
            d(Inst::T23(Arc::new(Type2And3SplitRadix::new(p23!(n / 2), quarter))), "dct2")
        }
        _ => {
            let n = n / 2 * 2;
            let inner = Arc::new(Probe::<dyn TransformType4<T>>(DctPlanner::new().plan_dct4(n), after));
            let m: Arc<dyn Mdct<T>> = Arc::new(MdctViaDct4::new(inner, |l| {
                check_modes();
                window_fn::vorbis(l)
            }));
            Any::M(m, format!("mdct {n} around a user-written part"))
        }
    }
}

// ---- the workload -------------------------------------------------------------------------------------------------------
fn process<T: DctNum>(a: &Any<T>, data: &dyn Fn(usize, &mut Rng) -> Vec<T>, r: &mut Rng, key: &str, obs: &mut Obs) -> Res {
    for op in a.ops() {
        let (n, s) = (a.in_len(op), a.scratch_len());
        let x = data(n, r);
        let (pa, pb) = prefill::<T>();
        let mut out = vec![pa; a.out_len(op)];
        let mut scratch = vec![pb; s + r.below(4)];
        let call = || format!("{} {op:?}", a.desc());
        match (a, op) {
            (Any::D(i, _), Op::K(k)) if r.chance(1, 3) => {
                out.copy_from_slice(&x);
                watch(|| format!("{} (allocating)", call()), obs, || i.run_alloc(k, &mut out))?.ok();
                obs.count("processed.allocating", 1);
            }
            _ => {
                watch(call, obs, || a.call_into(op, &x, &mut out, &mut scratch))?.ok();
                obs.count("processed.with_scratch", 1);
            }
        }
        obs.eval(hash_str(&format!("{key}{}{op:?}{}", a.desc(), obs.evals)), true);
        // and refused: one value too few or too many, somewhere
        if r.chance(1, 3) {
            let wrong = r.below(4);
            let xw = data(if wrong == 0 { n + 1 } else if wrong == 1 { n - 1 } else { n }, r);
            let mut ow = vec![pa; if wrong < 2 && matches!(op, Op::K(_)) { xw.len() } else { a.out_len(op) + (wrong == 2) as usize }];
            let mut sw = vec![pb; if wrong == 3 && s > 0 { s - 1 } else { s }];
            let res = watch(|| format!("{} refused", call()), obs, || match (a, op) {
                (Any::D(i, _), Op::K(k)) => {
                    if sw.len() == s && r.chance(1, 2) { i.run_alloc(k, &mut ow) } else { i.run(k, &mut ow, &mut sw) }
                }
                (Any::M(m, _), Op::Fwd) => {
                    let h = m.len().min(xw.len());
                    m.process_mdct_with_scratch(&xw[..h], &xw[h..], &mut ow, &mut sw)
                }
                (Any::M(m, _), _) => {
                    let (a, b) = ow.split_at_mut(m.len());
                    m.process_imdct_with_scratch(&xw, a, b, &mut sw)
                }
                _ => panic!("HARNESS: op"),
            })?;
            if res.is_err() {
                obs.count("refused_calls", 1);
                obs.eval(hash_str(&format!("{key}{}{op:?}r{}", a.desc(), obs.evals)), true);
            }
        }
    }
    Ok(())
}

fn session<T: DctNum>(c: &Case, data: &dyn Fn(usize, &mut Rng) -> Vec<T>, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed());
    let hi = c.u("hi");
    let key = c.to_string();
    let mut p = watch(|| "DctPlanner::new".into(), obs, DctPlanner::<T>::new)?.map_err(|m| format!("DctPlanner::new panicked: {m}"))?;
    let mut held: Vec<Any<T>> = vec![];
    for _ in 0..c.u("steps") {
        let mut made = None;
        match r.below(12) {
            0 if !held.is_empty() => {
                let k = r.below(held.len());
                let a = held.swap_remove(k);
                let what = format!("dropping {}", a.desc());
                watch(|| what, obs, move || drop(a))?.ok();
                obs.count("drops", 1);
            }
            1 => {
                watch(|| "dropping a planner".into(), obs, || p = DctPlanner::new())?.ok();
                obs.count("drops", 1);
            }
            2 => {
                let n = r.logrange(4, hi.min(4000));
                made = watch(|| format!("building around a user-written part at {n}"), obs, || probed::<T>(n, &mut r))?.ok();
                obs.count("probed_instances", 1);
            }
            3 | 4 => {
                let top = hi.min(if r.chance(1, 8) { hi } else { 300 });
                let (fam, n, alg) = random_request(&mut r, 2, top);
                let n = if fam == "mdct" { n } else { n.max(Fam::parse(fam).min_len()) };
                let alg = if alg == "plan" || n <= 300 || fam == "mdct" && alg == "dct4" { alg } else { "plan" };
                let (fast, slow) = (alg == "plan" && n > 600 && fam != "mdct" && !Fam::parse(fam).fast(), fam != "mdct" && !algos::tops(Fam::parse(fam), n).contains(&alg) && alg != "plan");
                if fast || slow {
                    continue;
                }
                made = watch(|| format!("building {fam} {alg} {n}"), obs, || make::<T>(fam, n, alg, &mut r, opts_for(n)))?.ok();
            }
            5 => {
                // requests and constructions that are refused
                let n = 2 * r.logrange(1, hi.min(3000) / 2 + 1);
                let how = r.below(11);
                let res = watch(|| format!("refusal {how} at {n}"), obs, || match how {
                    0 => drop(p.plan_dct1(1)),
                    1 => drop(p.plan_mdct(n + 1, window_fn::one)),
                    2 => drop(p.plan_mdct(n, |l| vec![T::one(); l + 1])),
                    3 => drop(p.plan_mdct(n, |_| -> Vec<T> { panic!("window") })),
                    4 => drop(Dct1ConvertToFft::<T>::new(FftPlanner::new().plan_fft_forward(n + 1))),
                    5 => drop(Type2And3ConvertToFft::<T>::new(FftPlanner::new().plan_fft_inverse(n))),
                    6 => drop(Type4ConvertToFftOdd::<T>::new(FftPlanner::new().plan_fft_forward(n))),
                    7 => drop(MdctNaive::<T>::new(n + 1, window_fn::one)),
                    8 => drop(MdctNaive::<T>::new(n, |_| -> Vec<T> { panic!("window") })),
                    9 => drop(MdctViaDct4::<T>::new(p.plan_dct4(n), |_| -> Vec<T> { panic!("window") })),
                    _ => drop(Dst6And7ConvertToFft::<T>::new(FftPlanner::new().plan_fft_forward(n))),
                })?;
                if res.is_err() {
                    obs.count("refused_constructions", 1);
                    obs.eval(hash_str(&format!("{key}refuse{how}{n}")), true);
                }
            }
            6 => {
                let n = 2 * r.logrange(1, hi / 2);
                let w = r.below(8);
                let odd = *r.pick(&[0.0, f64::NAN, f64::INFINITY, -1.0, 1e30, 1e-44]);
                let modes_seen = |l: usize, f: &dyn Fn(usize) -> Vec<T>| {
                    check_modes();
                    let v = f(l);
                    check_modes();
                    v
                };
                made = watch(|| format!("planning mdct {n} with window {w}"), obs, || match w {
                    0 => p.plan_mdct(n, |l| modes_seen(l, &window_fn::one)),
                    1 => p.plan_mdct(n, |l| modes_seen(l, &window_fn::mp3)),
                    2 => p.plan_mdct(n, |l| modes_seen(l, &window_fn::mp3_invertible)),
                    3 => p.plan_mdct(n, |l| modes_seen(l, &window_fn::vorbis)),
                    4 => p.plan_mdct(n, |l| modes_seen(l, &window_fn::vorbis_invertible)),
                    5 => p.plan_mdct(n, |l| modes_seen(l, &window_fn::invertible)),
                    6 => p.plan_mdct(n, window_fn::vorbis),
                    _ => p.plan_mdct(n, |l| modes_seen(l, &|l| (0..l).map(|i| T::from_f64(if i % 3 == 0 { odd } else { 0.5 }).unwrap()).collect())),
                })?.ok().map(|m| Any::M(m, format!("planned mdct {n}")));
                ensure!(made.is_some(), "planning mdct {n} panicked: {}", last_panic());
            }
            _ => {
                let k = *r.pick(&ALL);
                let mut n = r.logrange(k.min_len(), if k.family().fast() { hi } else { hi.min(150) });
                if r.chance(1, 4) {
                    n = n.next_power_of_two()
                }
                let n = n.max(k.min_len());
                made = watch(|| format!("planning {} {n}", k.name()), obs, || plan_kind(&mut p, k, n))?.ok().map(|i| Any::D(i, format!("planned {} {n}", k.name())));
                ensure!(made.is_some(), "planning {} {n} panicked: {}", k.name(), last_panic());
                obs.set("planned", format_args!("{} {n}", k.name()));
            }
        }
        if let Some(a) = made {
            obs.count("built", 1);
            obs.eval(hash_str(&format!("{key}{}b{}", a.desc(), obs.evals)), true);
            obs.max("length", a.len() as f64, || a.desc().to_string());
            for _ in 0..r.range(1, 2) {
                process(&a, data, &mut r, &key, obs)?;
            }
            held.push(a);
        }
        if !held.is_empty() && r.chance(1, 4) {
            let a = r.pick(&held).clone();
            process(&a, data, &mut r, &key, obs)?;
        }
    }
    watch(|| "dropping a planner and its instances".into(), obs, move || {
        drop(p);
        drop(held)
    })?.ok();
    Ok(())
}

fn exec(c: &Case, obs: &mut Obs) -> Res {
    prepare();
    if let Some(b) = c.opt("big") {
        return by_t!(c.s("t"), T => {
            let (fam, n) = (b, c.u("n"));
            let mut r = Rng::new(c.seed());
            let a = watch(|| format!("planning {fam} {n}"), obs, || make::<T>(fam, n, "plan", &mut r, opts_for(n)))?.map_err(|m| format!("planning {fam} {n} panicked: {m}"))?;
            obs.max("length", n as f64, || a.desc().to_string());
            process(&a, &|n, r| inputs::gen::<T>("white", n, None, r), &mut r, &c.to_string(), obs)?;
            let what = format!("dropping {}", a.desc());
            watch(|| what, obs, move || drop(a))?.ok();
            Ok(())
        });
    }
    let lost = HOOK_LOST.load(Ordering::Relaxed);
    ensure!(lost == 0, "the panic hook of the process was replaced ({lost} panics of another thread went elsewhere)");
    match c.s("t") {
        "hooked" => session::<Hooked>(c, &|n, r| inputs::gen::<f64>("white", n, None, r).into_iter().map(Hooked).collect(), obs)?,
        t => by_t!(t, T => session::<T>(c, &|n, r| {
            let f = *r.pick(&inputs::FAMILIES);
            let mut x = inputs::gen::<T>(f, n, None, r);
            if n > 0 && r.chance(1, 5) {
                let i = r.below(n);
                x[i] = T::of(*r.pick(&[f64::NAN, f64::INFINITY, 1e-310, 1e-42, -0.0]));
            }
            x
        }, obs))?,
    }
    ensure!(hook_works(), "the panic hook of the process was replaced");
    ensure!(HOOK_LOST.load(Ordering::Relaxed) == lost, "the panic hook of the process was replaced for a while");
    obs.count("hook_probes", HOOK_PROBES.swap(0, Ordering::Relaxed));
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    prepare();
    let mut r = Rng::new(seed ^ 0xc18);
    let mut v = vec![];
    for _ in 0..tier.q(24_000, 250_000) {
        v.push(Case::new().with("steps", r.range(1, 30)).with("hi", r.logrange(6, tier.q(8000, 40_000))).with("t", *r.pick(&["f32", "f64", "f32", "f64", "hooked"])).with("s", r.u64() >> 16));
    }
    for fam in ["d1", "s1", "t23", "t4", "s67", "mdct"] {
        for e in 13..=20 {
            for _ in 0..tier.q(2, 8) {
                let n = (1usize << e) + if r.chance(1, 2) { 0 } else { r.below(1 << e) };
                v.push(Case::new().with("big", fam).with("n", n / 2 * 2 + (fam != "mdct" && r.chance(1, 3)) as usize).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
            }
        }
    }
    for fam in ["d5", "s5", "d67", "d8", "s8"] {
        for n in [1000, 4100, 9000] {
            v.push(Case::new().with("big", fam).with("n", n + r.below(100)).with("t", "f64").with("s", r.u64() >> 16));
        }
    }
    v.sort_by_key(|c| std::cmp::Reverse(if c.opt("big").is_some() { c.u("n") } else { 0 }));
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C18",
        rule: "every call into the library (planner construction, plans, refused requests and constructions, process calls accepted and refused, allocating and not, drops) of random sessions runs with the thread's system calls routed to a recorder (Syscall User Dispatch), getenv/setenv/clock_gettime interposed, stdout flushed, and the floating-point control words compared, also inside user-written parts; another thread keeps checking that the panic hook is in place. Non-trivial = every instance built and every process call",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 200000), ("watched_calls", 300000), ("refused_calls", 20000), ("refused_constructions", 4000), ("probed_instances", 3000), ("hook_probes", 10000)],
    })
}
