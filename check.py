#!/usr/bin/env python3
"""Driver of the checks: build the monitors against /repo's working tree, run them, judge, write evidence.

  check.py <ID>            run the check (VERIF_TIER, VERIF_SEED from the environment)
  check.py replay <file>   re-execute a recorded violation

exit 0 held on everything explored / 1 violated (VIOLATION line) / 2 inconclusive (build failure, timeout, ...)
"""
import json, os, re, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
WORK = os.path.join(ROOT, ".work")
REPLAYS = os.path.join(ROOT, "replays")
SLOT = 1024
TARGET = "x86_64-unknown-linux-gnu"



sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
from stages import CHECKS, LIMITS  # noqa: E402


def log(*a):
    print(*a, flush=True)


class Inconclusive(Exception):
    pass


def sh(cmd, env=None, timeout=None, cwd=HARNESS, out=None):
    """run in its own process group; returns (rc or None on timeout, stdout+stderr)"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return None, o.decode("utf8", "replace")


def flavor_cmd(flavor, b):
    """(build command, environment, binary path) of monitor binary b in a build flavor"""
    td = os.path.join(HARNESS, "target", flavor) if flavor != "plain" else os.path.join(HARNESS, "target")
    env = {"CARGO_TARGET_DIR": td, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": ""}
    base = ["--offline", "--bin", b]
    if flavor == "plain":
        return ["cargo", "build", "--release"] + base, env, os.path.join(td, "release", b)
    if flavor == "checked":  # integer-overflow and debug assertions on
        return ["cargo", "build", "--profile", "checked"] + base, env, os.path.join(td, "checked", b)
    if flavor == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address -Cdebug-assertions=on -Zextra-const-ub-checks"
        env["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=0"
    elif flavor == "tsan":
        env["RUSTFLAGS"] = "-Zsanitizer=thread"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:second_deadlock_stack=1"
    elif flavor == "msan":
        env["RUSTFLAGS"] = "-Zsanitizer=memory -Zsanitizer-memory-track-origins"
        env["MSAN_OPTIONS"] = "halt_on_error=1:exitcode=97"
    else:
        raise ValueError(flavor)
    cmd = ["cargo", "+nightly", "build", "--profile", "san", "--target", TARGET] + base
    if flavor in ("tsan", "msan"):
        cmd += ["-Zbuild-std"]
    return cmd, env, os.path.join(td, TARGET, "san", b)


def build(flavor, b):
    cmd, env, path = flavor_cmd(flavor, b)
    t = time.time()
    rc, o = sh(cmd, env, timeout=700)
    if rc != 0:
        raise Inconclusive(f"build of {b} ({flavor}) failed (rc={rc}):\n{o[-3000:]}")
    return path, env, time.time() - t


def san_report(o):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|ERROR: LeakSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|"
                  r"WARNING: MemorySanitizer: [^\n]*|unsafe precondition\(s\) violated[^\n]*|"
                  r"Undefined Behavior: [^\n]*)", o)
    return m.group(1) if m else None


FATAL_SIGNALS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}
SAN_EXITS = {97, 98, 99}


def crashed(rc):
    return rc is not None and (rc in SAN_EXITS or (rc < 0 and signal.Signals(-rc) in FATAL_SIGNALS))


def run_bin(pid, st, tier, seed, cap, viol, ev):
    """run one monitor binary; collect violations and its result record"""
    flavor, b = st.get("flavor", "plain"), st.get("bin", pid.lower())
    path, env, tb = build(flavor, b)
    os.makedirs(WORK, exist_ok=True)
    name = st.get("name", flavor)
    res = os.path.join(WORK, f"{pid}-{name}.json")
    slots = os.path.join(WORK, f"{pid}-{name}.slots")
    for f in (res, slots):
        if os.path.exists(f):
            os.unlink(f)
    args = [path, "run", "--tier", tier, "--seed", str(seed), "--out", res, "--slots", slots, "--cap", str(cap)] + st.get("args", [])
    env = dict(env)
    env.update(st.get("env", {}))
    rc, o = sh(st.get("wrap", []) + args, env, timeout=cap + 150)
    rec = {"stage": name, "build_s": round(tb, 1), "exit": rc}
    ev["stages"].append(rec)
    if rc is None:
        raise Inconclusive(f"{b} ({name}) did not finish within {cap + 150} s")
    if crashed(rc) or san_report(o):
        what = san_report(o) or f"the process died with signal {signal.Signals(-rc).name}"
        cases = []
        if os.path.exists(slots):
            raw = open(slots, "rb").read()
            cases = [raw[i:i + SLOT].decode("utf8", "replace").strip() for i in range(0, len(raw), SLOT)]
            cases = [c for c in cases if c]
        hit = None
        for c in cases:
            rc2, o2 = sh([path, "replay"] + c.split() + st.get("args", []), env, timeout=150)
            if crashed(rc2) or rc2 == 1 or san_report(o2):
                hit = c
                break
        viol.append({"stage": name, "flavor": flavor, "bin": b, "case": hit, "candidates": cases, "message": what,
                     "output": o[-6000:]})
        return
    if not os.path.exists(res):
        raise Inconclusive(f"{b} ({name}) ended with {rc} and no result:\n{o[-2000:]}")
    d = json.load(open(res))
    rec.update({k: d[k] for k in ("cases_planned", "cases_executed", "evaluations", "distinct_nontrivial", "counts", "distinct",
                                  "maxima", "threads", "wall_s")})
    ev["rules"].append(d["rule"])
    ev["samples"] += [f"[{name}] {s}" for s in d["samples"]]
    ev["evaluations"] += d["evaluations"]
    ev["distinct"] += d["distinct_nontrivial"]
    for v in d["violations"]:
        viol.append({"stage": name, "flavor": flavor, "bin": b, "case": v["case"], "message": v["message"]})
    if d["violations"]:
        return
    if d["harness_error"]:
        raise Inconclusive(f"harness error in {b} ({name}): {d['harness_error']}")
    have = {"evaluations": d["evaluations"], **d["counts"], **d["distinct"]}
    d["missing"] += [f"{k}: {have.get(k, 0)} < {m}" for k, m in st.get("min", {}).items() if have.get(k, 0) < m]
    if d["missing"]:
        raise Inconclusive(f"{b} ({name}) observed too little: {d['missing']}")
    if rc != 0:
        raise Inconclusive(f"{b} ({name}) ended with {rc}:\n{o[-2000:]}")


def run_miri(pid, st, tier, seed, cap, viol, ev):
    """the same monitors inside the undefined-behaviour interpreter"""
    b = st["bin"]
    name = st["name"]
    env = {"CARGO_TARGET_DIR": os.path.join(HARNESS, "target", "miri"), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "",
           "MIRIFLAGS": "-Zmiri-disable-isolation " + st.get("miriflags", "")}
    t0 = time.time()
    shards = st.get("shards", 8)
    # one build first, then the shards in parallel
    base = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", b, "--"]
    rc, o = sh(base + ["noop"], env, timeout=500)
    if rc != 0:
        if san_report(o):
            viol.append({"stage": name, "flavor": "miri", "bin": b, "case": "noop", "message": san_report(o), "output": o[-6000:]})
            return
        raise Inconclusive(f"miri build of {b} failed (rc={rc}):\n{o[-3000:]}")
    tb = time.time() - t0
    procs = []
    for i in range(shards):
        e = dict(os.environ)
        e.update(env)
        e["MIRIFLAGS"] += f" -Zmiri-seed={seed * 1000 + i}"
        f = open(os.path.join(WORK, f"{pid}-{name}-{i}.log"), "w+b")
        procs.append((i, f, subprocess.Popen(base + ["miri", "--tier", tier, "--seed", str(seed), "--shard", str(i), "--shards", str(shards), "--budget", str(st.get("budget", {"quick": 110, "thorough": 2400})[tier])],
                                             cwd=HARNESS, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)))
    end = time.time() + cap
    outs, late = [], False
    for i, f, p in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            late = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        f.seek(0)
        outs.append((i, p.returncode, f.read().decode("utf8", "replace")))
        f.close()
    evals, distinct, samples = 0, 0, []
    counts = {}
    for i, rc, o in outs:
        rep = san_report(o)
        last = re.findall(r"^CASE (.*)$", o, re.M)
        if rep or re.search(r"^VIOLATED ", o, re.M):
            m = re.search(r"^VIOLATED .*\n.*$", o, re.M)
            viol.append({"stage": name, "flavor": "miri", "bin": b, "case": last[-1] if last else None,
                         "message": rep or m.group(0), "output": o[-6000:], "miriflags": env["MIRIFLAGS"] + f" -Zmiri-seed={seed * 1000 + i}"})
            continue
        m = re.search(r"^DONE evaluations=(\d+) distinct=(\d+)", o, re.M)
        if m:
            evals += int(m.group(1))
            distinct += int(m.group(2))
            samples += last[:1]
            for k, v in re.findall(r"^COUNT (\S+)=(\d+)", o, re.M):
                counts[k] = counts.get(k, 0) + int(v)
        elif rc != 0 and not late:
            if not viol:
                raise Inconclusive(f"miri shard {i} of {b} ended with {rc}:\n{o[-2000:]}")
    ev["stages"].append({"stage": name, "build_s": round(tb, 1), "evaluations": evals, "distinct_nontrivial": distinct, "counts": counts,
                         "shards": shards, "wall_s": round(time.time() - t0 - tb, 1)})
    ev["evaluations"] += evals
    ev["distinct"] += distinct
    ev["samples"] += [f"[{name}] {s}" for s in samples[:3]]
    ev["rules"].append("miri: the interpreter checks every memory access, borrow and data race of the listed cases")
    if viol:
        return
    if late:
        raise Inconclusive(f"miri run of {b} did not finish within {cap} s")
    if evals < st.get("min", 1):
        raise Inconclusive(f"miri run observed only {evals} evaluations")


def run_callgrind(pid, st, tier, seed, cap, viol, ev):
    import callgrind
    callgrind.run(sys.modules[__name__], pid, st, tier, seed, cap, viol, ev)


RUNNERS = {"bin": run_bin, "miri": run_miri, "callgrind": run_callgrind}


def known_findings(pid):
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) case=<(.*?)> (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1:] == ["prebuild"]:
        return prebuild()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"stages": [], "rules": [], "samples": [], "evaluations": 0, "distinct": 0}
    viol, incon = [], None
    for st in CHECKS[pid]["stages"]:
        if tier == "quick" and st.get("only") == "thorough":
            continue
        cap = st.get("cap", LIMITS)[tier]
        try:
            RUNNERS[st.get("run", "bin")](pid, st, tier, seed, cap, viol, ev)
        except Inconclusive as e:
            incon = str(e)
        if viol or incon:
            break
    known = known_findings(pid)
    fresh, hits = [], []
    for v in viol:
        k = [why for case, why in known if v.get("case") == case]
        (hits if k else fresh).append((v, k))
    for case, why in known:
        log(f"KNOWN-FINDING: property={pid} {why}")
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev["evaluations"], "distinct_nontrivial": ev["distinct"],
            "rule": " || ".join(dict.fromkeys(ev["rules"])) or "none completed",
            "samples": ev["samples"][:24] or ["none"], "stages": ev["stages"],
        },
        "assumptions": CHECKS[pid].get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    if incon:
        doc["inconclusive"] = incon[:4000]
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        for i, (v, _) in enumerate(fresh[:3]):
            rp = os.path.join(REPLAYS, f"{pid}-{seed}-{i}.json")
            v.update(property=pid, tier=tier, seed=seed)
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            log(f"  [{v['stage']}] {v['message']}\n    case: {v['case']}")
            log(f"VIOLATION property={pid} replay={os.path.relpath(rp, ROOT)}")
        return 1
    if incon:
        log(f"INCONCLUSIVE property={pid}: {incon}")
        return 2
    log(f"held: property={pid} tier={tier} seed={seed} evaluations={ev['evaluations']} distinct={ev['distinct']} in {doc['wall_s']} s")
    return 0


def prebuild():
    """build every monitor of every stage of the quick tier"""
    cmd, env, _ = flavor_cmd("plain", "c01")
    rc, o = sh(cmd[:-2] + ["--bins"], env)
    log(o[-400:])
    bad = rc != 0
    for pid in CHECKS:
        for st in CHECKS[pid]["stages"]:
            if st.get("only") == "thorough":
                continue
            b = st.get("bin", pid.lower())
            try:
                if st.get("run") == "miri":
                    e = {"CARGO_TARGET_DIR": os.path.join(HARNESS, "target", "miri"), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "", "MIRIFLAGS": "-Zmiri-disable-isolation " + st.get("miriflags", "")}
                    rc, o = sh(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", b, "--", "noop"], e)
                    bad |= rc != 0
                elif st.get("run", "bin") == "bin":
                    build(st.get("flavor", "plain"), b)
            except Inconclusive as e:
                log(str(e))
                bad = True
    return int(bad)


def replay(path):
    v = json.load(open(path))
    if not v.get("case"):
        log("no single case reproduces this violation; recorded output:\n", v.get("output", v["message"]))
        return 2
    if v["flavor"] == "miri":
        env = {"CARGO_TARGET_DIR": os.path.join(HARNESS, "target", "miri"), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "",
               "MIRIFLAGS": v.get("miriflags", "-Zmiri-disable-isolation")}
        rc, o = sh(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", v["bin"], "--", "replay"] + v["case"].split(), env)
    elif v["flavor"] == "callgrind":
        import callgrind
        return callgrind.replay(sys.modules[__name__], v)
    else:
        p, env, _ = build(v["flavor"], v["bin"])
        rc, o = sh([p, "replay"] + v["case"].split(), env, timeout=600)
    log(o)
    return 0 if rc == 0 else 1


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.path.insert(0, ROOT)
    try:
        sys.exit(main())
    except Inconclusive as e:
        log(f"INCONCLUSIVE: {e}")
        sys.exit(2)
