#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules present in sim/checks."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = {
 "C01": "Each assignment of each explored history is repeated with one "
        "failure at sampled, partly all, calls it makes; state is compared "
        "through public attributes and analysis results. Trusts: faults are "
        "delivered at calls made by library code, one per assignment.",
 "C02": "Seeded histories of assignments, refusals, failures and derivations; "
        "after every step the model is compared with a new model made from "
        "its data. Sampled, not exhaustive.",
 "C03": "Every public call with arguments in six memory layouts, bit-exact "
        "argument snapshots, fault free and with failures at sampled calls.",
 "C04": "Seeded interleavings of building, deriving, in-place edits by other "
        "parties and assignments; every model is compared with its state "
        "before each foreign action.",
 "C05": "Seeded schedules at line (some at bytecode) granularity over real "
        "threads, with interrupts, against lone results. Trusts: switches "
        "happen at harold lines/bytecodes, not inside NumPy or SciPy.",
 "C06": "Seeded schedules and failure points; a snapshot of process-wide "
        "settings before and after. Same trust as C05.",
 "C07": "Models with known minimal order and behaviour under many generator "
        "states; bounds compared with singular values on a grid plus descent.",
 "C08": "Seeded histories with refused, failed and interrupted calls; each "
        "call is repeated as first call of a fresh fork.",
 "C09": "For each explored call every kernel invocation and sampled (some "
        "calls: all) allocation points fail once.",
 "C10": "Seeded histories of plot calls, user actions and failures; every "
        "figure fingerprinted after every step, new ones against a fresh "
        "fork.",
 "C11": "Seeded histories with checkpoint, crash and restore in new "
        "processes, against an uninterrupted twin.",
 "C12": "Many generator states per specification; pole kinds judged from "
        "eigenvalues with tolerances.",
}
TECH = {
 "fault_enumeration": "deterministic simulation, failures enumerated over "
                      "call sites",
 "exploration": "deterministic simulation, seeded histories and faults",
}
NA = ("A result as a function of the arguments of one call: no history, "
      "schedule, fault, clock or random draw takes part, so simulation could "
      "only generate inputs. ")
NAX = {
 "C13": "Reference would be plain transfer-matrix arithmetic.",
 "C14": "Reference would be evaluation of both representations.",
 "C15": "Reference would be the defining formulas of each method.",
 "C16": "The time axis is an argument, not a clock; reference would be an "
        "exact solution.",
 "C17": "Reference would be evaluation at the returned frequencies.",
 "C18": "Reference would be the closed-loop formula.",
 "C19": "Reference would be the residual of the equation.",
 "C20": "Reference would be a Riccati residual and the eigenvalues.",
 "C21": "Reference would be the rank of the system pencil.",
 "C22": "Reference would be the similarity identities.",
 "C23": "Reference would be the defining identities.",
 "C24": "Refusal after a history, and what a refusal leaves behind, are in "
        "C01, C03, C06, C08 and C10.",
 "C25": "Reference would be the defining integrals and suprema.",
}

checks = []
for pid in sorted(NOTE):
    fn = os.path.join(V, "sim", "checks", pid.lower() + ".py")
    if not os.path.exists(fn):
        continue
    lvl = re.search(r'^LEVEL = "(\w+)"', open(fn).read(), re.M).group(1)
    checks.append({
        "property": pid, "quick_cmd": "python3 check.py " + pid,
        "thorough_cmd": "python3 check.py " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": TECH[lvl], "level": lvl, "level_note": NOTE[pid]})
have = {c["property"] for c in checks}
na = [{"property": p, "reason": NA + t} for p, t in sorted(NAX.items())]
na += [{"property": p, "reason": "Check not finished."}
       for p in sorted(NOTE) if p not in have]
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, matplotlib'",
     "hooks": {"guard": "none",
               "enable": "no hooks in the source; all seams are installed at "
                         "run time from /verif/sim", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.py <id> [--replay FILE]; tools/determinism.py shows "
              "that runs replay; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
