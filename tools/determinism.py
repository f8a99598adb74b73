#!/usr/bin/env python3
"""Runs checks twice, with different numbers of workers and hash seeds, and
compares the digests of everything that happened.

tools/determinism.py [property ...]
"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digest(pid, jobs, hashseed):
    env = dict(os.environ, VERIF_JOBS=str(jobs), PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, os.path.join(V, "check.py"), pid],
                       cwd=V, env=env, capture_output=True, text=True)
    with open(os.path.join(V, "evidence", pid + ".json")) as f:
        c = json.load(f)["coverage"]
    return p.returncode, c["run_digest"], c["simulated_runs"], c["counters"]


bad = 0
for pid in sys.argv[1:] or ["C%02d" % i for i in range(1, 13)]:
    a, b = digest(pid, 8, 0), digest(pid, 5, 7)
    same = a == b
    bad += not same
    print(pid, "same" if same else "DIFFERENT", a[:3], b[:3],
          {k: (v, b[3].get(k)) for k, v in a[3].items()
           if v != b[3].get(k)} or "", flush=True)
sys.exit(bad > 0)
