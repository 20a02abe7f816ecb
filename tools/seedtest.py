#!/usr/bin/env python3
"""Apply planted bugs to /repo one at a time, run checks against them, undo. Usage: seedtest.py [ID ...] [--check Cxx ...]
(a development tool: no check reads /verif/seeded)"""
import json, os, re, subprocess, sys, time
V = "/verif"
args = sys.argv[1:]
checks = args[args.index("--check") + 1:] if "--check" in args else None
ids = (args[:args.index("--check")] if "--check" in args else args) or sorted(os.listdir(V + "/seeded"))
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
for i in ids:
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout, "dirty /repo"
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for c in checks or [prop]:
            t = time.time()
            p = subprocess.run(["python3", V + "/check.py", c], env=env, capture_output=True, text=True)
            hit = p.returncode == 1 and f"VIOLATION property={c}" in p.stdout
            msg = next((l.strip() for l in p.stdout.splitlines() if l.startswith("  [")), p.stdout.strip()[-150:])
            print(f"{'CAUGHT' if hit else 'missed' if p.returncode == 0 else 'rc=%d' % p.returncode} {i} by {c} in {time.time() - t:.0f} s: {msg[:220]}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
