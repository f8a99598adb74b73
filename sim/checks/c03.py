"""C03: no call modifies its arguments, however it ends."""
import copy
import random

from .. import boot, faults, ops, probe
from ..canon import snap, snapdiff
from ..specs import Shared

ID = "C03"
LEVEL = "fault_enumeration"
N = {"quick": 1700, "thorough": 14000}
RULE = ("A case is a pool of models, arrays (six memory layouts, three number "
        "types), lists and dictionaries and a few public calls on them. Each "
        "call runs once without a failure and then with a failure at sampled "
        "calls it makes (some calls: at all), for four kinds of failure "
        "and also at those during which an argument is not what it was. "
        "Distinct = (call, kinds and layouts of the arguments, kind of "
        "failure, failing call, outcome). Non-trivial: the call returned, "
        "refused, or the failure fired.")
REAL = ["harold", "NumPy", "SciPy", "matplotlib with the Agg canvas"]
STUB = ["which call fails and how (profile hook)", "random generator state"]
ASSUME = ["models are compared through their public attributes, arrays bit "
          "for bit including the buffer behind a view",
          "one failure per call"]
MUST_REACH = ["fired:memory", "fired:interrupt", "fired:kernel", "returned",
              "refused", "plots", "fortran"]
NAMES = ops.names(plots=True)


def gen(r, tier, i):
    cx = ops.Cx(r, reuse=.5)
    steps = []
    for _ in range(r.randint(1, 3)):
        c = ops.gen_call(cx, NAMES if steps else [NAMES[i % len(NAMES)]])
        c["try"] = {"seed": r.getrandbits(30),
                    "per": 0 if r.random() < .02 and
                    not ops.OPS[c["op"]]["plot"] else 3}
        steps.append(c)
    ops.vary_types(r, cx.pool)
    return {"objs": cx.pool, "steps": steps}


def _lay(objs, call):
    out = []
    for i in sorted(ops.used_refs(call["args"]) | ops.used_refs(call["kw"])):
        s = objs[i]
        out.append(s["t"] if s["t"] != "arr" else s["lay"] + s["dtype"])
    return tuple(out)


def run(case):
    stats, sigs, viol = {}, set(), []

    def inc(k, n=1):
        stats[k] = stats.get(k, 0) + n
    sh = Shared(case["objs"]).build_all()
    for si, call in enumerate(case["steps"]):
        fn, args, kw = ops.prepare(call, sh)
        before = snap([args, kw, sh.objs])
        lay = _lay(case["objs"], call)
        if "Ff" in lay:
            inc("fortran")
        if ops.OPS[call["op"]]["plot"]:
            inc("plots")

        watch = probe.of([args, kw, sh.objs])

        def once(kind, k):
            boot.seed_all(call["seed"])
            ok, v, inj = faults.run(lambda: fn(*args, **kw), kind, k,
                                    watch=watch if k is None else None)
            inc("evals")
            d = snapdiff(before, snap([args, kw, sh.objs]))
            if k is None:
                inc("returned" if ok else "refused")
                oc = "ok" if ok else type(v).__name__
                sigs.add((call["op"], lay, "none", None, oc))
            elif inj.fired:
                inc("fired:" + kind)
                sigs.add((call["op"], lay, kind, inj.fired,
                          "ok" if ok else type(v).__name__))
            if d:
                how = "" if k is None else " with %s at call %d (%s)" % (
                    kind, k, inj.fired)
                viol.append({
                    "key": "%s changes an argument" % call["op"],
                    "msg": "step %d: %s%s changed its argument: %s" % (
                        si, call["op"], how, d),
                    "pin": {"steps": _pin(case, si, [] if k is None
                                          else [[kind, k]])}})
            return inj
        n = once(None, None)
        if not viol:
            only = call.get("only")
            if only is None:
                r = random.Random(call["try"]["seed"])
                only = []
                for kind in faults.ALL:
                    m = n
                    if kind in ("kernel", "break"):
                        boot.seed_all(call["seed"])
                        m = faults.run(lambda: fn(*args, **kw), kind,
                                       watch=watch)[2]
                    per = call["try"]["per"] or 150
                    at = set(faults.sample(r, m.record, per))
                    # while an argument is not what it was
                    inc("changed_points", len(m.hot))
                    at |= set(faults.hottest(r, m, 40))
                    only += [(kind, k) for k in sorted(at)]
            for kind, k in only:
                once(kind, k)
                if viol:
                    break
        if viol:
            break
    return {"viol": viol, "stats": stats, "sigs": sigs}


def _pin(case, si, only):
    steps = copy.deepcopy(case["steps"][:si + 1])
    for s in steps[:-1]:
        s["only"] = []
    steps[-1]["only"] = only
    return steps


def shrink(case):
    return ops.shrink_calls(case)
