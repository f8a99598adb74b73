"""C05: concurrent callers get what a lone caller gets, and all finish."""
import copy
import random

from .. import boot, faults, forked, locks, ops, probe, sched
from ..canon import brief, canon, diff
from ..observe import AT, RT
from ..specs import Shared

ID = "C05"
LEVEL = "exploration"
N = {"quick": 1400, "thorough": 9000}
RULE = ("A case is two or three threads, each with one or two library calls "
        "on shared and own objects, three quarters of the cases with the same "
        "function in all threads, often on objects of the same sizes. Each "
        "case runs under six schedules (random switching, priorities with "
        "change points, parking a thread at a step while others run), a "
        "third of them with one call interrupted or failed at a call it "
        "makes. Distinct = the sequence of (thread, function, "
        "line, next thread) at the switches actually taken; non-trivial if "
        "at least one switch happened while two threads were running.")
REAL = ["harold", "NumPy", "SciPy", "operating system threads"]
STUB = ["thread scheduler (one thread released at a time)",
        "locks created by harold (cooperative)",
        "which call fails and how (profile hook)", "random generator state"]
ASSUME = ["a switch happens before a line (some runs: before a bytecode) of "
          "harold code, never inside NumPy or SciPy",
          "calls whose result legitimately depends on the random generator "
          "are left out", "results are compared with relative tolerance 1e-6"]
MUST_REACH = ["switches", "fired:interrupt", "fired:memory", "fired:loop", "opcode_runs",
              "same_op", "plan:rand", "plan:prio", "plan:park"]
SKIP = {"rejected"}
NAMES = ops.names(exact=True)


def gen(r, tier, i):
    cx = ops.Cx(r, reuse=.75)
    n = r.choice([2, 2, 2, 3])
    same = NAMES[(i // 2) % len(NAMES)] if i % 4 != 3 else None
    th = []
    for _ in range(n):
        calls = []
        for j in range(r.choice([1, 1, 2])):
            if th and same and r.random() < .6:
                # like what another thread does: same sizes, other numbers
                calls.append(ops.variant(r, cx, r.choice(th[0])))
            else:
                calls.append(ops.gen_call(cx, [same] if same and j == 0
                                          else NAMES))
        th.append(calls)
    ocs = r.random() < .25
    plans = [sched.gen_plan(r, n) for _ in range(6)]
    for p in plans:
        if r.random() < .3:
            p["fault"] = {"th": r.randrange(n), "kind":
                          r.choice(["interrupt", "interrupt", "memory",
                                    "interrupt" if ocs else "loop",
                                    "kernel"]), "frac": round(r.random(), 4)}
            if r.random() < .5:
                # the failing thread first, so that others come after it
                p["start"] = p["fault"]["th"]
    return {"objs": cx.pool, "threads": th, "plans": plans,
            "opcodes": ocs}


def lone(case, call):
    def f():
        try:
            sh = Shared(case["objs"]).build_all()
        except Exception:
            return None
        fn, args, kw = ops.prepare(call, sh)
        boot.seed_all(1)
        backs = []
        (ok, v, ij), path = sched.walk(
            lambda: faults.run(lambda: fn(*args, **kw)), case["opcodes"],
            None, probe.make(sh.objs), backs)
        return ((canon(v) if ok else ("exc", type(v).__name__)), path,
                ij.record, backs)
    return forked.call(f)


def together(case, plan, paths, fault):
    def f():
        sh = Shared(case["objs"]).build_all()
        todo = [[ops.prepare(c, sh) for c in calls]
                for calls in case["threads"]]
        boot.seed_all(1)

        def body(i):
            def go():
                out = []
                for j, (fn, args, kw) in enumerate(todo[i]):
                    if fault and fault[:3] == [i, j, "loop"]:
                        ij = faults.Injector("loop", fault[3])
                        s.inj[i] = ij
                        try:
                            out.append((True, fn(*args, **kw), ij))
                        except (Exception, KeyboardInterrupt) as e:
                            e.__traceback__ = None
                            out.append((False, e, ij))
                        del s.inj[i]
                        s.retrace()
                    elif fault and fault[:2] == [i, j]:
                        out.append(faults.run(lambda: fn(*args, **kw),
                                              fault[2], fault[3]))
                    else:
                        try:
                            out.append((True, fn(*args, **kw), None))
                        except Exception as e:
                            e.__traceback__ = None
                            out.append((False, e, None))
                return out
            return go
        s = sched.Scheduler([body(i) for i in range(len(todo))], plan,
                            case["opcodes"], paths)
        res = s.run()
        out = []
        for i, r in enumerate(res):
            if r is None:           # never finished
                out.append(None)
                continue
            out.append([((canon(v) if ok else ("exc", type(v).__name__)),
                         bool(ij and ij.fired)) for ok, v, ij in r])
        return {"out": out, "deadlock": s.deadlock, "taken": s.taken(),
                "where": s.where, "steps": s.step}
    return forked.call(f, 80.)


def kept(case, call):
    """Fail the call at several places: is a lock still taken afterwards, or
    the library's own data changed?"""
    def f():
        sh = Shared(case["objs"]).build_all()
        fn, args, kw = ops.prepare(call, sh)
        r = random.Random(call["seed"])
        n = 0
        boot.seed_all(1)
        faults.run(lambda: fn(*args, **kw))
        own = probe.make([])
        clean = own()[1]
        for kind in ("interrupt", "memory", "kernel", "break"):
            boot.seed_all(1)
            rec = faults.run(lambda: fn(*args, **kw), kind)[2].record
            if kind == "break":         # loop ends only
                at = [k for k, x in enumerate(rec) if x.endswith(" loop")]
                at = [1 + k for k in r.sample(at, min(len(at), 4))]
            else:
                at = faults.sample(r, rec, 4 if kind == "kernel" else 8)
            for k in at:
                boot.seed_all(1)
                faults.run(lambda: fn(*args, **kw), kind, k)
                n += 1
                if locks.held() or own()[1] != clean:
                    if kind == "break":
                        k = sum(x.endswith(" loop") for x in rec[:k])
                    return n, {"kind": "loop" if kind == "break" else kind,
                               "at": k, "th": 0}
        return n, None
    return forked.call(f)


def run(case):
    stats, sigs, viol = {}, set(), []

    def inc(k, n=1):
        stats[k] = stats.get(k, 0) + n
    base = [[lone(case, c) for c in calls] for calls in case["threads"]]
    if any(b is None for bb in base for b in bb):
        return {"viol": [], "stats": {"unbuildable": 1}, "sigs": ()}
    if any(b == ("__hang__",) for bb in base for b in bb):
        return {"viol": [], "stats": {"slow": 1}, "sigs": ()}
    paths = [sched.join([b[1] for b in bb]) for bb in base]
    inc("hot_steps", sum(len(p[1]) for p in paths))
    opset = {calls[0]["op"] for calls in case["threads"]}
    if len(opset) == 1:
        inc("same_op")
    trace = []
    first = case["threads"][0][0]
    res = kept(case, first) if len(case["plans"]) > 1 else None
    if res == ("__hang__",):
        return {"hang": True}
    if res:
        inc("failed_alone", res[0])
        if res[1]:
            # what happens to the next caller?
            plan = {"s": "list", "start": 0, "sw": [], "forced": [1],
                    "fault": res[1]}
            pin = dict(case, threads=[[first], [first]], plans=[plan],
                       opcodes=False)
            sub = run(pin)
            if sub.get("hang") or sub["viol"]:
                for v in sub.get("viol", ()):
                    v["pin"] = dict({k: pin[k] for k in (
                        "threads", "plans", "opcodes")}, **v["pin"])
                    v["msg"] = "after %s at call %d of %s: %s" % (
                        res[1]["kind"], res[1]["at"], first["op"], v["msg"])
                return sub
    plans = case["plans"]
    if len(plans) > 1 and any(p[2] for p in paths):
        # something that all threads can see is changed during a call
        inc("own_data")
        r = random.Random(first["seed"])
        plans = plans + [sched.gen_plan(r, len(paths), "own")
                         for _ in range(40)]
    for plan in plans:
        fault = place(plan.get("fault"), base)
        res = together(case, plan, paths, fault)
        inc("evals")
        inc("plan:" + plan["s"])
        if case["opcodes"]:
            inc("opcode_runs")
        pin = {"plans": [plan]}
        if res == ("__hang__",):
            viol.append({"key": "never finishes", "pin": pin,
                         "msg": "threads do not finish under schedule %s"
                         % plan})
            break
        pin = {"plans": [res["taken"]]}
        if fault:
            pin["plans"][0]["fault"] = {"th": fault[0], "kind": fault[2],
                                        "at": fault[3]}
        inc("steps", res["steps"])
        inc("switches", len(res["where"]))
        if res["where"]:
            sigs.add(hash_where(res["where"]))
        trace.append((res["steps"], hash_where(res["where"])))
        if res["deadlock"] is not None:
            viol.append({"key": "deadlock", "pin": pin,
                         "msg": "threads %s wait forever, after switches %s"
                         % (res["deadlock"], res["where"][-4:])})
            break
        for i, (bb, oo) in enumerate(zip(base, res["out"])):
            for j, (b, (o, fired)) in enumerate(zip(bb, oo)):
                if fired:
                    inc("fired:" + fault[2])
                    continue
                d = diff(b[0], o, RT, AT)
                if d:
                    op = case["threads"][i][j]["op"]
                    viol.append({
                        "key": "%s differs when concurrent" % op, "pin": pin,
                        "msg": "thread %d call %d (%s): alone %s, together "
                        "%s (%s); switches %s" % (
                            i, j, op, brief(b[0], 80), brief(o, 80), d[:120],
                            res["where"][-4:])})
                    break
            if viol:
                break
        if viol:
            break
    return {"viol": viol, "stats": stats, "sigs": sigs, "trace": trace}


def place(f, base):
    """Which call of which thread fails, and at which of its calls."""
    if not f:
        return None
    t = f["th"] % len(base)
    if "at" in f:
        return [t, 0, f["kind"], f["at"]]
    m = base[t][0][3 if f["kind"] == "loop" else 2]
    if f["kind"] == "kernel":
        return [t, 0, f["kind"], 1 + int(f["frac"] * 4)]
    return [t, 0, f["kind"], faults.pick(m, f["frac"])] if m else None


def hash_where(w):
    import hashlib
    return hashlib.sha256(repr(w).encode()).hexdigest()[:16]


def shrink(case):
    p = case["plans"][0]
    if p.get("fault"):
        yield dict(case, plans=[{k: v for k, v in p.items()
                                 if k != "fault"}])
    for p in sched.shrink_plan(case["plans"][0]):
        yield dict(case, plans=[p])
    if len(case["threads"]) > 2:
        for i in range(len(case["threads"])):
            c = copy.deepcopy(case)
            del c["threads"][i]
            yield ops.compact(c)
    for i, calls in enumerate(case["threads"]):
        if len(calls) > 1:
            for j in range(len(calls)):
                c = copy.deepcopy(case)
                del c["threads"][i][j]
                yield ops.compact(c)
