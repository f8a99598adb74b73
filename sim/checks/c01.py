"""C01: assignments are all-or-nothing under rejection, failure, interrupt."""
import copy
import random

from .. import assign, boot, faults, probe, specs
from ..canon import brief, outcome
from ..observe import cheap, full, same

ID = "C01"
LEVEL = "fault_enumeration"
N = {"quick": 1000, "thorough": 9000}
RULE = ("A case is a model and a history of assignments of good, malformed "
        "and non-finite values. Every step is tried with a failure injected "
        "at sampled (some steps: all) calls made during the assignment, for "
        "four kinds of failure. Distinct = (model class, static or dynamic, "
        "attribute, kind of failure, failing call, ended old or new); "
        "rejected values count as kind 'rejected'. A case is non-trivial "
        "only if the injected failure actually fired or the value was "
        "refused.")
REAL = ["harold", "NumPy", "SciPy"]
STUB = ["which call fails and how (profile hook)"]
ASSUME = ["a failure is delivered at a call made by library code; at most "
          "one failure per assignment",
          "state is compared through public attributes and analysis results "
          "with relative tolerance 1e-6"]
MUST_REACH = ["fired:memory", "fired:interrupt", "fired:kernel",
              "fired:break", "rejected", "accepted"]


def gen(r, tier, i):
    spec = specs.gmodel(r, gain=.15)
    steps = []
    hist = [assign.gen(r, spec) for _ in range(r.randint(2, 5))]
    assign.insert_burst(r, spec, hist, .35)
    for st in hist:
        st["try"] = {"seed": r.getrandbits(30),
                     "per": 0 if r.random() < .08 else 7}
        # what happens on the real model: mostly a plain assignment
        if r.random() < .35:
            st["fault"] = {"kind": r.choice(faults.ALL), "frac": r.random()}
        steps.append(st)
    return {"objs": [spec], "steps": steps}


def _set(g, attr, val):
    setattr(g, attr, val)


def count(g, st, kind):
    t = copy.deepcopy(g)
    v = assign.value(t, st)
    ok, e, inj = faults.run(lambda: _set(t, st["attr"], v), kind,
                            watch=probe.of(t))
    return inj


def run(case):
    stats = {}
    sigs = set()
    viol = []

    def inc(k, n=1):
        stats[k] = stats.get(k, 0) + n
    g = specs.build(case["objs"][0])
    cls = type(g).__name__
    for si, st in enumerate(case["steps"]):
        at = st["attr"]
        old = cheap(g)
        tag = (cls, "gain" if old[1]["to_array"][0] != "exc" else "dyn", at)
        # fault free on a twin
        tw = copy.deepcopy(g)
        val = assign.value(tw, st)
        ok, e, inj = faults.run(lambda: _set(tw, at, val),
                                watch=probe.of(tw))
        inc("evals")
        new = cheap(tw)
        if ok:
            inc("accepted")
        else:
            inc("rejected")
            sigs.add(tag + ("rejected", type(e).__name__, "old"))
            d = same(old, new) or same(full(g), full(tw))
            if d:
                viol.append({"key": "%s.%s rejected" % (cls, at),
                             "msg": "step %d: %s.%s = %s raised %s but the "
                             "model changed: %s" % (
                                 si, cls, at, str(st["val"])[:80],
                                 type(e).__name__, d),
                             "pin": {"steps": _pin(case, si, [])}})
                break
        # injected failures on twins
        only = st.get("only")
        todo, closer = [], set()
        if only is not None:
            todo = [tuple(x) for x in only]
            closer = set(todo)
        else:
            r = random.Random(st["try"]["seed"])
            for kind in faults.ALL:
                ij = inj if kind in ("memory", "interrupt") \
                    else count(g, st, kind)
                per = st["try"]["per"] or len(ij.record)
                pts = set(faults.sample(r, ij.record, per))
                # while the model is not what it was
                inc("changed_points", len(ij.hot))
                pts |= set(faults.hottest(r, ij, 30))
                closer |= {(kind, k) for k in
                           faults.hottest(r, ij, 1 + (kind == "memory"))}
                todo += [(kind, k) for k in sorted(pts)]
        for kind, k in todo:
            tw = copy.deepcopy(g)
            val = assign.value(tw, st)
            ok2, e2, inj2 = faults.run(lambda: _set(tw, at, val), kind, k)
            inc("evals")
            if inj2.fired is None:
                continue
            inc("fired:" + kind)
            now = cheap(tw)
            d = same(old, now)
            end = "old"
            if d is not None or ok2:
                d2 = same(new, now) if ok else d or "x"
                end = "new"
                if ok2 and not ok:
                    # the failure replaced the refusal?  must be old anyway
                    d2 = d
                if d2 is not None:
                    viol.append({
                        "key": "%s.%s failed" % (cls, at),
                        "msg": "step %d: %s.%s = %s with %s at call %d (%s): "
                        "neither the old nor the new model: %s" % (
                            si, cls, at, str(st["val"])[:80], kind, k,
                            inj2.fired, d if d is not None else d2),
                        "pin": {"steps": _pin(case, si, [[kind, k]])}})
                    break
            if (kind, k) in closer:
                # all analysis results, not only the attributes
                inc("looked_closer")
                nw = copy.deepcopy(g)
                faults.run(lambda: _set(nw, at, assign.value(nw, st)))
                now = full(tw)
                d = same(full(nw), now)
                if d is not None:
                    d = same(full(g), now)
                if d is not None:
                    viol.append({
                        "key": "%s.%s failed" % (cls, at),
                        "msg": "step %d: %s.%s = %s with %s at call %d (%s): "
                        "results of neither the old nor the new model: %s" % (
                            si, cls, at, str(st["val"])[:80], kind, k,
                            inj2.fired, d),
                        "pin": {"steps": _pin(case, si, [[kind, k]])}})
                    break
            sigs.add(tag + (kind, inj2.fired, end))
        if viol:
            break
        # the step on the model itself
        f = st.get("fault")
        val = assign.value(g, st)
        if f:
            k = faults.pick(count(g, st, f["kind"]).record, f["frac"])
            _, _, ij = faults.run(lambda: _set(g, at, val), f["kind"], k)
            inc("history_faults", int(ij.fired is not None))
        else:
            faults.run(lambda: _set(g, at, val))
    return {"viol": viol, "stats": stats, "sigs": sigs,
            "note": brief(("str", str(sorted(stats.items()))))}


def _pin(case, si, only):
    steps = copy.deepcopy(case["steps"][:si + 1])
    for s in steps[:-1]:
        s["only"] = []
    steps[-1]["only"] = only
    return steps


def shrink(case):
    for c in assign.shrink_history(case):
        yield c
    for i, s in enumerate(case["steps"]):
        if s.get("fault"):
            c = copy.deepcopy(case)
            del c["steps"][i]["fault"]
            yield c
