"""C06: process-wide settings are left as they were found."""
import copy
import random

from .. import boot, faults, forked, ops, probe, sched, settings
from ..specs import Shared
from .c05 import hash_where

ID = "C06"
LEVEL = "exploration"
N = {"quick": 1300, "thorough": 12000}
RULE = ("Half of the cases: a few calls (also rejected ones and plots), each "
        "also with a failure at sampled calls it makes. Other half: two or "
        "three threads under several schedules, a third of them with a "
        "failure in one thread. Every case starts from one of nine sets of "
        "unusual settings. Distinct = (call, start settings, kind of failure, "
        "failing call) for the first half and the switch sequence for the "
        "second; non-trivial if a call returned, refused or failed as "
        "planned, or a switch happened.")
REAL = ["harold", "NumPy", "SciPy", "matplotlib with the Agg canvas",
        "the warnings module", "operating system threads"]
STUB = ["thread scheduler", "locks created by harold (cooperative)",
        "which call fails and how (profile hook)", "random generator state"]
ASSUME = ["a switch happens before a line or bytecode of harold code",
          "failures are not delivered while a context manager is entered or "
          "left", "plots run in one thread only"]
MUST_REACH = ["fired:memory", "fired:interrupt", "fired:kernel", "switches",
              "plots", "threaded", "single"]
NAMES = ops.names(plots=True)
TNAMES = ops.names()
HOT = ["dcgain", "transmission_zeros", "discretize", "undiscretize",
       "new_state", "roundtrip", "frequency_response", "step_response",
       "minimal_realization", "state_to_transfer", "transfer_to_state",
       "lyapunov", "repr", "pole_properties"]


def gen(r, tier, i):
    cx = ops.Cx(r, reuse=.6)
    case = {"start": r.choice(settings.STARTS)}
    if i % 2:
        case["calls"] = []
        for _ in range(r.randint(1, 3)):
            c = ops.gen_call(cx, NAMES if case["calls"] else
                             [NAMES[i // 2 % len(NAMES)]])
            c["try"] = {"seed": r.getrandbits(30),
                        "per": 0 if r.random() < .03 else 6}
            case["calls"].append(c)
        case["objs"] = cx.pool
        return case
    n = r.choice([2, 2, 3])
    same = [TNAMES[i // 4 % len(TNAMES)]] if i % 4 else None
    case["threads"] = []
    for _ in range(n):
        calls = []
        for _ in range(r.choice([1, 2])):
            if case["threads"] and same and r.random() < .6:
                # like what another thread does, with other numbers
                calls.append(ops.variant(r, cx,
                                         r.choice(case["threads"][0])))
            else:
                calls.append(ops.gen_call(cx, same or (
                    HOT if r.random() < .6 else TNAMES)))
        case["threads"].append(calls)
    case["plans"] = [sched.gen_plan(r, n) for _ in range(5)]
    case["opcodes"] = r.random() < .2
    for p in case["plans"]:
        if r.random() < .25:
            p["fault"] = {"th": r.randrange(n), "kind":
                          r.choice(faults.KINDS),
                          "frac": round(r.random(), 4)}
    case["objs"] = cx.pool
    return case


def run(case):
    stats, sigs, viol, trace = {}, set(), [], []

    def inc(k, n=1):
        stats[k] = stats.get(k, 0) + n
    if "calls" in case:
        inc("single")
        single(case, inc, sigs, viol)
    else:
        inc("threaded")
        threaded(case, inc, sigs, viol, trace)
    return {"viol": viol, "stats": stats, "sigs": sigs, "trace": trace}


def single(case, inc, sigs, viol):
    sh = Shared(case["objs"]).build_all()
    settings.start(case["start"])
    for si, call in enumerate(case["calls"]):
        fn, args, kw = ops.prepare(call, sh)
        if ops.OPS[call["op"]]["plot"]:
            inc("plots")

        def once(kind, k):
            boot.seed_all(call["seed"])
            before = settings.snap()
            ok, v, inj = faults.run(lambda: fn(*args, **kw), kind, k,
                                    watch=probe.settings if k is None
                                    else None)
            after = settings.snap()
            inc("evals")
            if k is None or inj.fired:
                sigs.add((call["op"], case["start"], kind, inj.fired))
            if inj.fired:
                inc("fired:" + kind)
            d = settings.compare(before, after)
            if d:
                how = "" if k is None else " with %s at call %d (%s)" % (
                    kind, k, inj.fired)
                viol.append({
                    "key": "%s: %s" % (call["op"], d[0]),
                    "msg": "call %d (%s)%s left %s" % (si, call["op"], how,
                                                       d[1]),
                    "pin": {"calls": _pin(case, si, [] if k is None
                                          else [[kind, k]])}})
            return inj
        n = once(None, None)
        if viol:
            return
        only = call.get("only")
        if only is None:
            r = random.Random(call["try"]["seed"])
            only = []
            for kind in faults.KINDS:
                m = n
                if kind == "kernel":
                    boot.seed_all(call["seed"])
                    m = faults.run(lambda: fn(*args, **kw), kind,
                                   watch=probe.settings)[2]
                per = call["try"]["per"] or 150
                at = set(faults.sample(r, m.record, per))
                # while a setting is changed
                inc("changed_points", len(m.hot))
                rest = {x[1] for x in m.hot.values()} - {m.first[1]}
                at |= set(faults.hottest(r, m, 60 if rest else 6))
                only += [(kind, k) for k in sorted(at)]
        for kind, k in only:
            once(kind, k)
            if viol:
                return


def _pin(case, si, only):
    calls = copy.deepcopy(case["calls"][:si + 1])
    for s in calls[:-1]:
        s["only"] = []
    calls[-1]["only"] = only
    return calls


def paths_of(case):
    def f():
        sh = Shared(case["objs"]).build_all()
        settings.start(case["start"])
        out = []
        for calls in case["threads"]:
            parts, rec = [], []
            fp = probe.make(sh.objs)
            for c in calls:
                fn, args, kw = ops.prepare(c, sh)
                boot.seed_all(1)
                (_, _, ij), path = sched.walk(
                    lambda: faults.run(lambda: fn(*args, **kw)),
                    case["opcodes"], None, fp)
                parts.append(path)
                rec.append(ij.record)
            out.append((sched.join(parts), rec[0]))
        return out
    return forked.call(f)


def place(f, recs):
    """Which thread's first call fails, and at which of its calls."""
    if not f or "at" in f:
        return f
    t = f["th"] % len(recs)
    if f["kind"] == "kernel":
        at = 1 + int(f["frac"] * 4)
    else:
        at = faults.pick(recs[t], f["frac"])
    return {"th": t, "kind": f["kind"], "at": at} if at else None


def together(case, plan, paths, fault):
    def f():
        sh = Shared(case["objs"]).build_all()
        settings.start(case["start"])
        todo = [[ops.prepare(c, sh) for c in calls]
                for calls in case["threads"]]
        boot.seed_all(1)
        before = settings.snap()

        def body(i):
            def go():
                out = []
                b = settings.thread_snap()
                for j, (fn, args, kw) in enumerate(todo[i]):
                    if fault and fault["th"] % len(todo) == i and j == 0:
                        ij = faults.run(lambda: fn(*args, **kw),
                                        fault["kind"], fault["at"])[2]
                        out.append(ij.fired)
                    else:
                        try:
                            fn(*args, **kw)
                        except Exception:
                            pass
                return out, settings.compare(b, settings.thread_snap())
            return go
        s = sched.Scheduler([body(i) for i in range(len(todo))], plan,
                            case["opcodes"], paths)
        res = s.run()
        d = settings.compare(before, settings.snap())
        for r in res:
            if d is None and r is not None:
                d = r[1]
        return {"d": d, "deadlock": s.deadlock, "taken": s.taken(),
                "where": s.where, "steps": s.step,
                "fired": [x for r in res if r for x in r[0] if x]}
    return forked.call(f, 80.)


def threaded(case, inc, sigs, viol, trace):
    ln = paths_of(case)
    if ln == ("__hang__",):
        inc("slow")
        return
    ln, recs = [p for p, _ in ln], [r for _, r in ln]
    inc("hot_steps", sum(len(p[1]) for p in ln))
    plans = case["plans"]
    if len(plans) > 1 and any(p[3] for p in ln):
        inc("rare_settings")
        r = random.Random(case["threads"][0][0]["seed"])
        plans = plans + [sched.gen_plan(r, len(ln), "rare")
                         for _ in range(40)]
    for plan in plans:
        fault = place(plan.get("fault"), recs)
        res = together(case, plan, ln, fault)
        if res == ("__hang__",):
            inc("slow")
            continue
        inc("evals")
        inc("steps", res["steps"])
        inc("switches", len(res["where"]))
        for x in res["fired"]:
            inc("fired:" + fault["kind"])
        if res["where"]:
            sigs.add(hash_where(res["where"]))
        trace.append((res["steps"], hash_where(res["where"])))
        if res["d"] and res["deadlock"] is None:
            viol.append({"key": "threads: %s" % res["d"][0],
                         "pin": {"plans": [dict(res["taken"], **(
                             {"fault": fault} if fault else {}))]},
                         "msg": "after threads %s (switches ...%s): %s" % (
                             [[c["op"] for c in t] for t in case["threads"]],
                             res["where"][-4:], res["d"][1])})
            return


def shrink(case):
    if case["start"] != "plain":
        yield dict(case, start="plain")
    if "calls" in case:
        for c in ops.shrink_calls(case, "calls"):
            yield c
        return
    p = case["plans"][0]
    if p.get("fault"):
        yield dict(case, plans=[{k: v for k, v in p.items()
                                 if k != "fault"}])
    for p in sched.shrink_plan(case["plans"][0]):
        yield dict(case, plans=[p])
    for i, calls in enumerate(case["threads"]):
        if len(case["threads"]) > 2:
            c = copy.deepcopy(case)
            del c["threads"][i]
            yield ops.compact(c)
        if len(calls) > 1:
            for j in range(len(calls)):
                c = copy.deepcopy(case)
                del c["threads"][i][j]
                yield ops.compact(c)
