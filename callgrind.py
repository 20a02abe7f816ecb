"""C13 stage: machine instructions of planning and of single calls, counted by valgrind (callgrind client requests in
the c13cg binary), against fixed multiples of n(1+log2 n)."""
import glob, math, os, random, re, shutil, subprocess, time

WHAT = ["dct1", "dct2", "dct4", "dst1", "dst6", "mdct"]
# about 3 times the worst length of the clean tree
CALL = {"dct1": 160, "dst1": 160, "dst6": 175, "dst7": 175}
CALL_OTHER = 80
PLAN = {"dct1": 450, "dst1": 450, "dst6": 450, "dct2": 300, "dct4": 300, "mdct": 300}


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, math.isqrt(n) + 1))


def prime_from(n):
    while not is_prime(n):
        n += 1
    return n


def lengths(tier, r):
    hi = 30000 if tier == "quick" else 200000
    out = [4096, 8192, 16384, prime_from(4096), prime_from(16000), 2 * prime_from(5000), 3 ** 8, 127 * 128, 10000,
           (prime_from(16000) - 1) // 2, prime_from(20000) - 1, prime_from(16384) + 1, 2 * 3 * 5 * 7 * 11 * 13]
    for i in range(40 if tier == "quick" else 300):
        n = int(math.exp(r.uniform(math.log(2500), math.log(hi))))
        out.append(prime_from(n) if i % 3 == 0 else n)
    return out


def long_lengths(tier, r):
    """few, but so long that even a cheap quadratic part stands out"""
    out = [131072, prime_from(r.randrange(66000, 130000)), r.randrange(66000, 130000)]
    if tier != "quick":
        out += [524288, prime_from(r.randrange(260000, 520000)), r.randrange(260000, 520000), 3 ** 12]
    return out


def bound(label):
    t, what, n, op = label.split()
    n = int(n)
    w = n * (1 + math.log2(n))
    if op == "plan":
        return PLAN[what] * w, w
    return CALL.get(op.split("-")[0], CALL_OTHER) * w, w


def measure(path, items, d):
    """run the binary under callgrind; {label: instructions}"""
    os.makedirs(d, exist_ok=True)
    args = ["valgrind", "--tool=callgrind", f"--callgrind-out-file={d}/o", path]
    for t, what, n in items:
        args += [t, what, str(n)]
    return subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)


def collect(d):
    res = {}
    for f in glob.glob(os.path.join(d, "o*")):
        s = open(f, errors="replace").read()
        m = re.search(r"^desc: Trigger: Client Request: (.*)$", s, re.M)
        t = re.search(r"^totals: (\d+)", s, re.M)
        if m and t:
            res[m.group(1)] = int(t.group(1))
    return res


def run(ck, pid, st, tier, seed, cap, viol, ev):
    path, _, tb = ck.build("plain", "c13cg")
    r = random.Random(seed)
    items = []
    for what in WHAT:
        for n in lengths(tier, r):
            items.append((r.choice(["f32", "f64"]), what, (n + 1) // 2 * 2 if what == "mdct" else n))
        for n in long_lengths(tier, r):
            items.append((r.choice(["f32", "f64"]), what, (n + 1) // 2 * 2 if what == "mdct" else n))
    items = list(dict.fromkeys(items))
    r.shuffle(items)
    items.sort(key=lambda i: -i[2])
    k = 8
    t0 = time.time()
    base = os.path.join(ck.WORK, f"{pid}-callgrind")
    shutil.rmtree(base, ignore_errors=True)
    # short ones first in each process: a quadratic part is on record before the long ones run out of time
    procs = [(measure(path, items[i::k][::-1], os.path.join(base, str(i))), os.path.join(base, str(i))) for i in range(k)]
    res, late, bad = {}, False, []
    for p, d in procs:
        try:
            o, _ = p.communicate(timeout=max(1, t0 + cap - time.time()))
            if p.returncode != 0:
                bad.append((p.returncode, o.decode("utf8", "replace")[-1500:]))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            late = True
        res.update(collect(d))
    shutil.rmtree(base, ignore_errors=True)
    worst = {}
    for label, n in res.items():
        b, w = bound(label)
        op = label.split()[3].split("-")[0]
        op = op if op != "plan" else f"plan {label.split()[1]}"
        if n / w > worst.get(op, (0, ""))[0]:
            worst[op] = (n / w, label)
        if n > b:
            viol.append({"stage": "callgrind", "flavor": "callgrind", "bin": "c13cg", "case": " ".join(label.split()[:3]),
                         "message": f"{label}: {n} machine instructions, the O(n log n) bound is {b:.0f}"})
    ev["stages"].append({"stage": "callgrind", "build_s": round(tb, 1), "measured_regions": len(res), "wall_s": round(time.time() - t0, 1),
                         "worst_instructions_per_nlogn": {k: [round(v, 1), l] for k, (v, l) in sorted(worst.items())}})
    ev["evaluations"] += len(res)
    ev["distinct"] += len(res)
    ev["samples"] += [f"[callgrind] {l}: {n} instructions" for l, n in list(res.items())[:3]]
    ev["rules"].append("callgrind: machine instructions of planning and of one call (noise, NaN) at lengths 2500..131072 (thorough 531441) within fixed multiples of n(1+log2 n)")
    if viol:
        return
    if bad:
        raise ck.Inconclusive(f"c13cg under callgrind failed: {bad[0]}")
    if late:
        raise ck.Inconclusive(f"callgrind did not finish within {cap} s")
    if len(res) < 300:
        raise ck.Inconclusive(f"callgrind measured only {len(res)} regions")


def replay(ck, v):
    path, _, _ = ck.build("plain", "c13cg")
    t, what, n = v["case"].split()
    d = os.path.join(ck.WORK, "callgrind-replay")
    shutil.rmtree(d, ignore_errors=True)
    measure(path, [(t, what, int(n))], d).communicate()
    bad = 0
    for label, c in sorted(collect(d).items()):
        b, _ = bound(label)
        bad |= c > b
        ck.log(f"{label}: {c} instructions, bound {b:.0f}{'  EXCEEDED' if c > b else ''}")
    shutil.rmtree(d, ignore_errors=True)
    return int(bad)
