#!/usr/bin/env python3
"""Measure runs per second of every check and rescale sim/budget.json to the given wall-clock targets."""
import json, os, re, subprocess, sys, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
q, t = float(sys.argv[1]), float(sys.argv[2])
only = sys.argv[3:]
bf = here + "/sim/budget.json"
B = json.load(open(bf))
for p in sorted(B):
    if only and p not in only: continue
    n = 400
    while True:
        e = dict(os.environ, SIM_RUNS=str(n), SIM_EVIDENCE="/tmp/calib-ev")
        t0 = time.time(); r = subprocess.run([sys.executable, here + "/check.py", p], env=e, capture_output=True, text=True); w = time.time() - t0
        if r.returncode: print(p, "FAILED", r.stdout[-600:]); break
        if w > 6: break
        n *= 4 if w < 2 else 2
    if r.returncode: continue
    def rnd(x):
        x = int(x); k = 10 ** max(0, len(str(x)) - 2); return max(100, x // k * k)
    B[p]["quick"] = rnd(n / w * q); B[p]["thorough"] = rnd(n / w * t)
    print(p, n, "%.1fs" % w, B[p]["quick"], B[p]["thorough"], flush=True)
json.dump(B, open(bf, "w"), indent=1); open(bf, "a").write("\n")
