"""C09: a failure inside a call never turns into a wrong answer."""
import copy
import random
import warnings

from .. import boot, faults, ops
from ..canon import brief, canon, diff
from ..specs import Shared

ID = "C09"
LEVEL = "fault_enumeration"
N = {"quick": 3400, "thorough": 30000}
RULE = ("A case is one to three calls on generated arguments. Each call runs "
        "once without failure and then once for every numerical kernel it "
        "reaches (the kernel does not converge) and for sampled, in some "
        "cases all, calls at which memory can run out or an interrupt can "
        "arrive. Distinct = (call, kind of failure, failing call site); "
        "non-trivial if the failure was delivered.")
REAL = ["harold", "NumPy", "SciPy"]
STUB = ["which call fails and how (profile hook)", "random generator state"]
ASSUME = ["kernels that can fail to converge: svd, eigenvalues, Schur, QZ, "
          "least squares and what is built on them; direct solvers and "
          "factorizations cannot",
          "one failure per call",
          "answers are compared with relative tolerance 1e-6"]
MUST_REACH = ["fired:memory", "fired:kernel", "fired:interrupt",
              "fired:break", "raised"]
NAMES = [n for n in ops.names() if n != "rejected"]
KERN = ["dcgain", "minimal_realization", "transmission_zeros", "new_state",
        "state_to_transfer", "transfer_to_state", "staircase",
        "kalman_decomposition", "cancellation_distance", "lyapunov", "lqr",
        "ackermann", "norm2", "norminf", "undiscretize", "discretize",
        "roundtrip", "frequency_response", "step_response",
        "impulse_response", "svd", "ker", "lcm", "gcd", "feedback", "matmul",
        "add", "mul", "rdiv", "is_ctrb", "is_obsv", "new_transfer",
        "pole_properties", "random_state_model", "ctrb", "obsv",
        "controllability_indices"]


def gen(r, tier, i):
    cx = ops.Cx(r, reuse=.4)
    calls = []
    for j in range(r.choice([1, 1, 2])):
        if j == 0 and i % 2:
            among = [KERN[i // 2 % len(KERN)]]
        else:
            among = NAMES
        c = ops.gen_call(cx, among)
        c["try"] = {"seed": r.getrandbits(30),
                    "per": 0 if r.random() < .05 else 9}
        calls.append(c)
    return {"objs": cx.pool, "calls": calls}


def run(case):
    stats, sigs, viol, trace = {}, set(), [], []

    def inc(k, n=1):
        stats[k] = stats.get(k, 0) + n
    sh = Shared(case["objs"]).build_all()
    warnings.simplefilter("ignore")
    for si, call in enumerate(case["calls"]):
        fn, args, kw = ops.prepare(call, sh)

        def go(kind=None, k=None):
            boot.seed_all(call["seed"])
            ok, v, ij = faults.run(lambda: fn(*args, **kw), kind, k)
            return (canon(v) if ok else ("exc", type(v).__name__)), ok, ij
        base, ok, ij = go("memory")
        if not ok:
            inc("refused")
            continue
        only = call.get("only")
        if only is None:
            r = random.Random(call["try"]["seed"])
            nk = go("kernel")[2].record
            per = call["try"]["per"]
            only = []
            for kind, m, lim in (("kernel", nk, 60),
                                 ("memory", ij.record, per or 250),
                                 ("interrupt", ij.record, per and per // 3
                                  or 60),
                                 ("break", go("break")[2].record,
                                  per and 4 or 60)):
                only += [(kind, k) for k in faults.sample(r, m, lim)]
        for kind, k in only:
            v, ok, ij = go(kind, k)
            if not ij.fired:
                continue
            inc("evals")
            inc("fired:" + kind)
            sigs.add((call["op"], kind, ij.fired))
            if not ok:
                inc("raised")
                continue
            inc("recovered")
            d = diff(base, v, 1e-6, 1e-9)
            if d:
                cs = copy.deepcopy(case["calls"][si])
                cs["only"] = [[kind, k]]
                viol.append({
                    "key": "%s survives %s in %s" % (call["op"], kind,
                                                     ij.fired),
                    "msg": "%s with %s at call %d (%s) returns %s instead "
                    "of %s (%s)" % (call["op"], kind, k, ij.fired,
                                    brief(v, 80), brief(base, 80), d[:120]),
                    "pin": {"calls": [cs]}})
                break
        trace.append((call["op"], len(only)))
        if viol:
            break
    return {"viol": viol, "stats": stats, "sigs": sigs, "trace": trace}


def shrink(case):
    for c in ops.shrink_calls(case, "calls"):
        yield c
