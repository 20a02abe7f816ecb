#!/usr/bin/env python3
"""regenerate MANIFEST.json from properties.jsonl and the table below"""
import json, os, sys
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from stages import CHECKS
T = {
 "C01": ("runtime differential monitor: every output of planner-made instances against an independent definition-level oracle", "Every length up to 2300 (thorough: 9000) x f32/f64 x seeded inputs, plus structured and random lengths up to 2^18 (2^21). Trusts the oracle (exact integer angle reduction; rustfft on zero-padded data for long inputs, cross-checked by direct bins) and the rounding-error constants in DESIGN.md."),
 "C02": ("runtime differential monitor: every output of planner-made instances against an independent definition-level oracle", "As C01: lengths up to 1300 for DST6/7 and 400 for the O(n^2) kinds exhaustively, larger ones sampled."),
 "C03": ("runtime differential monitor over random compositions, with contract-asserting user-written inner transforms", "Samples random composition trees over all lengths up to 136 (thorough 300) and sampled larger ones; inner mocks assert what they are handed."),
 "C04": ("runtime differential monitor: MDCT/IMDCT against the definition, accumulation and input immutability checked bit by bit", "Even lengths exhaustively up to the stated bound, random asymmetric windows; trusts the oracle."),
 "C05": ("runtime monitor: window values against formulas, Princen-Bradley sums, and streaming reconstruction", "All even window lengths up to the stated bound and random streams."),
 "C06": ("runtime round-trip monitor (forward, inverse, scale) up to lengths above one million", "Checks the composition only; exactness of each half is C01/C02."),
 "C07": ("runtime metamorphic monitor: bit comparison under poisoned, longer and shared scratch", "Poison includes NaN and infinities so any read of stale scratch that reaches an output is seen; exploration of lengths and compositions."),
 "C08": ("runtime fault-injection monitor: wrong sizes and unsuitable parts, with bitwise before/after comparison", "Enumerates wrong sizes around and far from the right one for every instance family and every constructor assertion; sampled lengths."),
 "C09": ("AddressSanitizer (with unsafe-precondition and overflow checks), Miri, and canaried slices over hostile workloads", "A clean run shows no error on the executed calls; Miri runs small lengths, ASan wide ones. Code outside /repo (rustfft SIMD) is executed but not the subject."),
 "C10": ("ThreadSanitizer, Miri data-race detection, and bitwise purity monitors under injected yields", "Interleavings are those observed (counted in the evidence); determinism judged bit for bit against single-threaded baselines."),
 "C11": ("runtime history monitor: random plan/process/drop/panic histories against a stateless model", "Sampled histories; the model is the definition-level oracle."),
 "C12": ("runtime allocation monitor: counting global allocator around every process call", "Counts every heap event of the calling thread during the call; exact on the executed calls."),
 "C13": ("runtime cost monitor: operation-counting number type, heap accounting and callgrind instruction counts against one n log n bound", "Constants fixed with head-room over the worst length measured on the clean tree; sampled lengths including primes."),
 "C14": ("runtime metamorphic monitor: superposition, scaling, zero and non-finite inputs at all magnitudes", "Sampled inputs; bounds relative to input norm."),
 "C15": ("runtime differential monitor with instrumented number types (dual, lanes, double-double, over-aligned)", "Each type is compared with its own exact model; sampled lengths and compositions."),
 "C17": ("runtime replay monitor: whole sessions repeated in other threads, processes, memory layouts and fresh-memory contents, compared bit for bit", "Sampled sessions; one machine and build."),
 "C18": ("runtime system-call monitor: every library call under Syscall User Dispatch, with interposed libc calls, control-register comparison and a panic-hook watcher", "Every system call of the calling thread is seen on the executed calls; sampled sessions."),
 "C19": ("runtime stack monitor: the stack below each library call painted before and inspected after", "Exact on the executed calls (to 256 bytes); sampled lengths and compositions."),
 "C16": ("runtime heap monitor: live bytes and blocks across repeated planning and drops", "Exact accounting on the executed histories."),
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "its monitor is still being built; runtime monitoring does apply"})
doc = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed: everything is observed through the public API, an instrumented allocator, instrumented number types and inner transforms, and sanitizers. Every check builds its own monitor binary from /repo's working tree."}
json.dump(doc, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
