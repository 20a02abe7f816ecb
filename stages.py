"""Which monitors decide which property. cap = seconds of workload per tier (a generous watchdog, never a verdict)."""
LIMITS = {"quick": 300, "thorough": 3600}
ORACLE = "the definition-level oracle (exact integer angle reduction, compensated sums; zero-padded rustfft for long inputs) is right; it self-tests against libm at start"
CHECKS = {
    "C01": {"stages": [{"bin": "c01"}], "assumptions": [ORACLE]},
    "C02": {"stages": [{"bin": "c02"}], "assumptions": [ORACLE]},
    "C03": {"stages": [{"bin": "c03"}], "assumptions": [ORACLE]},
    "C04": {"stages": [{"bin": "c04"}], "assumptions": [ORACLE]},
    "C05": {"stages": [{"bin": "c05"}], "assumptions": [ORACLE]},
    "C06": {"stages": [{"bin": "c06"}], "assumptions": []},
    "C07": {"stages": [{"bin": "c07"}], "assumptions": []},

    "C08": {"stages": [{"bin": "c08"}], "assumptions": ["plans made after rejected requests are judged by the definition-level oracle"]},
    "C09": {"stages": [
        {"bin": "c09", "min": {"evaluations": 100000, "canaried_calls": 25000, "fenced.returned": 25000, "misuse.panicked": 40000, "odd_instances": 700, "unsafe_butterfly_calls": 6000, "histories": 40}},
        {"bin": "c09", "flavor": "asan", "name": "asan", "min": {"evaluations": 100000, "canaried_calls": 25000, "misuse.panicked": 40000, "odd_instances": 700, "unsafe_butterfly_calls": 6000, "histories": 40}},
        {"bin": "c09", "run": "miri", "name": "miri", "min": 1000, "miriflags": "-Zmiri-symbolic-alignment-check -Zmiri-strict-provenance"},
    ], "assumptions": ["memory accesses of rustfft are watched as well, but rustfft is not the subject", "a sanitizer sees the executed calls only"]},
    "C10": {"stages": [
        {"bin": "c10", "min": {"evaluations": 400000, "probe_calls": 20000, "history_calls": 1000000, "misuse_panics": 3000, "preemption_points": 100000,
                               "injected_panics": 100000, "concurrent_calls": 15000, "interleavings": 20, "auto_trait_verdicts": 200}},
        {"bin": "c10", "flavor": "tsan", "name": "tsan", "args": ["--only", "threads"], "min": {"concurrent_calls": 8000, "interleavings": 20}},
        {"bin": "c10", "run": "miri", "name": "miri", "min": 200},
    ], "assumptions": ["answers of one-threaded use of the same build are the reference (their correctness is C01-C04)"]},
    "C11": {"stages": [{"bin": "c11"}], "assumptions": [ORACLE]},
    "C12": {"stages": [{"bin": "c12"}], "assumptions": ["heap events are those of the calling thread, seen by a counting global allocator"]},
    "C13": {"stages": [{"bin": "c13"}, {"run": "callgrind", "name": "callgrind"}], "assumptions": ["constants: at least 2.5 times the worst length measured on the clean tree"]},
    "C14": {"stages": [{"bin": "c14"}], "assumptions": []},
    "C15": {"stages": [{"bin": "c15"}], "assumptions": [ORACLE]},
    "C16": {"stages": [{"bin": "c16"}], "assumptions": ["heap events are those of the calling thread, seen by a counting global allocator"]},
    "C17": {"stages": [{"bin": "c17"}], "assumptions": ["one machine: rustfft picks its code by CPU features"]},
    "C18": {"stages": [{"bin": "c18"}], "assumptions": ["Linux on x86-64; without Syscall User Dispatch in the kernel only libc calls, control registers and the hook are watched (the evidence counts which)"]},
    "C19": {"stages": [{"bin": "c19"}], "assumptions": ["x86-64, release build (opt-level 2); stack that is reserved but never written is not seen"]},
}
