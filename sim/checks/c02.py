"""C02: a model agrees with the data it holds, after any history."""
import copy

from .. import assign, boot, faults, ops, specs
from ..boot import harold as H
from ..canon import canon, diff, model
from ..observe import full, same

ID = "C02"
LEVEL = "exploration"
N = {"quick": 2400, "thorough": 10000}
RULE = ("A case is a model and a history of assignments (accepted, refused, "
        "hit by an injected failure) and model-producing calls. After every "
        "step the model is compared with a new model built from its data "
        "through about 18 observers, and its data with the last accepted "
        "assignments. Distinct = (class, static before, static after, "
        "discrete before/after, step kind, attribute, outcome) together with "
        "the previous step's kind; a step is non-trivial if the model "
        "changed or a failure fired.")
REAL = ["harold", "NumPy", "SciPy"]
STUB = ["which call fails and how (profile hook)", "random generator state"]
ASSUME = ["observers are compared with relative tolerance 1e-6",
          "the record of the discretization is compared while the model is "
          "discrete"]
MUST_REACH = ["accepted", "rejected", "faulted", "derived"]

TUSTIN = ("tustin", "bilinear", "trapezoidal")
DERIVE = ["neg", "twice", "slice", "disc", "undisc", "convert", "minreal",
          "self_add", "prewarp", "lft", "zoh", "copy"]


def gen(r, tier, i):
    spec = specs.gmodel(r, gain=.2)
    steps = []
    for _ in range(r.randint(3, 9)):
        x = r.random()
        if x < .82:
            st = assign.gen(r, spec, bad=.18)
            if r.random() < .15:
                st["fault"] = {"kind": r.choice(faults.ALL),
                               "frac": r.random()}
        else:
            st = {"derive": r.choice(DERIVE)}
        steps.append(st)
    assign.insert_burst(r, spec, steps)
    return {"objs": [spec], "steps": steps, "seed": r.getrandbits(30)}


def derive(g, how):
    if how == "neg":
        return -g
    if how == "twice":
        return g * 2
    if how == "slice":
        return g[[0], [0]]
    if how == "disc":
        return H.discretize(g, .2, method="tustin")
    if how == "prewarp":
        return H.discretize(g, .2, method="tustin", prewarp_at=.7)
    if how == "lft":
        return H.discretize(g, .2, method="lft",
                            q=boot.np.array([[1., .4], [.4, .1]]))
    if how == "zoh":
        return H.discretize(g, .2, method="zoh")
    if how == "undisc":
        return H.undiscretize(g, method="tustin")
    if how == "convert":
        return H.state_to_transfer(g) if isinstance(g, H.State) else \
            H.transfer_to_state(g)
    if how == "minreal":
        return H.minimal_realization(g)
    if how == "self_add":
        return g + g
    return copy.deepcopy(g)


def fresh(g):
    """A new model from the data g currently shows."""
    dt = g.SamplingPeriod
    if isinstance(g, H.State):
        m = [copy.deepcopy(x) for x in (g.a, g.b, g.c, g.d)]
        if m[0].size == 0:
            f = H.State(m[3], dt=dt)
        else:
            f = H.State(*m, dt=dt)
    else:
        f = H.Transfer(copy.deepcopy(g.num), copy.deepcopy(g.den), dt=dt)
    return f


RECKEYS = ("DiscretizedWith", "DiscretizationMatrix", "PrewarpFrequency")


def strip(c):
    """Full observation without the discretization record."""
    d = dict(c[1])
    m = dict(d["model"][1])
    for k in RECKEYS:
        m.pop(k)
    d["model"] = ("model", m)
    # results carry the record of the operand for some calls; drop it too
    for k, v in list(d.items()):
        if k != "model" and v[0] == "model":
            mm = dict(v[1])
            for q in RECKEYS:
                mm.pop(q, None)
            d[k] = ("model", mm)
    return ("dict", d)


def data(g):
    if isinstance(g, H.State):
        return {k: canon(getattr(g, k)) for k in "abcd"}
    return {k: canon(getattr(g, k)) for k in ("num", "den")}


def expected_value(g, attr, val):
    """What attr should read after assigning val to g (data attributes)."""
    dt = g.SamplingPeriod
    if isinstance(g, H.State):
        m = {k: copy.deepcopy(getattr(g, k)) for k in "abcd"}
        m[attr] = val
        if m["a"] is None or getattr(m["a"], "size", 1) == 0:
            return None
        return canon(getattr(H.State(m["a"], m["b"], m["c"], m["d"], dt=dt),
                             attr))
    m = {k: copy.deepcopy(getattr(g, k)) for k in ("num", "den")}
    m[attr] = val
    return canon(getattr(H.Transfer(m["num"], m["den"], dt=dt), attr))


def run(case):
    stats, sigs, viol = {}, set(), []

    def inc(k):
        stats[k] = stats.get(k, 0) + 1

    def bad(key, msg, si):
        viol.append({"key": key, "msg": msg,
                     "pin": {"steps": case["steps"][:si + 1]}})
    g = specs.build(case["objs"][0])
    rec = {"DiscretizedWith": None, "DiscretizationMatrix": None,
           "PrewarpFrequency": 0.}
    prev = "start"
    for si, st in enumerate(case["steps"]):
        cls = type(g).__name__
        b_gain = data(g)
        before = (g.SamplingPeriod is not None,)
        what = st.get("derive") or st["attr"]
        d_old, dt_old = data(g), g.SamplingPeriod
        if "derive" in st:
            boot.seed_all(case["seed"])
            try:
                n = derive(g, what)
            except Exception as e:
                sigs.add((cls, what, "refused", type(e).__name__))
                continue
            g = n
            inc("derived")
            oc = "derived"
            rec = None          # whatever the call recorded is its business
            if isinstance(g, (H.State, H.Transfer)):
                cls = type(g).__name__
        else:
            val = assign.value(g, st)
            keep = copy.deepcopy(val)
            # attributes belong to the class the history started with
            if not hasattr(type(g), what):
                continue
            f = st.get("fault")
            kind = k = None
            if f:
                kind = f["kind"]
                tw = copy.deepcopy(g)
                _, _, ij = faults.run(
                    lambda: setattr(tw, what, copy.deepcopy(keep)), kind)
                k = faults.pick(ij.record, f["frac"])
            exp = None
            if what in ("a", "b", "c", "d", "num", "den"):
                try:
                    exp = expected_value(g, what, copy.deepcopy(keep))
                except Exception:
                    exp = None
            ok, e, ij = faults.run(lambda: setattr(g, what, val), kind, k)
            if ok:
                inc("accepted")
                oc = "accepted"
                now = data(g)
                for q in d_old:
                    if q != what:
                        d = diff(d_old[q], now[q])
                        if d:
                            bad("%s.%s changes %s" % (cls, what, q),
                                "step %d: assigning %s changed %s: %s" % (
                                    si, what, q, d), si)
                if exp is not None and what in now:
                    d = diff(exp, now[what], 1e-12, 0.)
                    if d:
                        bad("%s.%s not stored" % (cls, what),
                            "step %d: %s reads back different: %s" % (
                                si, what, d), si)
                dt_exp = dt_old
                if what == "SamplingPeriod":
                    dt_exp = None if keep is None else float(keep)
                if g.SamplingPeriod != dt_exp:
                    bad("%s dt" % cls, "step %d: after %s the sampling "
                        "period is %r, expected %r" % (
                            si, what, g.SamplingPeriod, dt_exp), si)
                if rec is not None and what in rec:
                    rec[what] = boot.np.array(keep, dtype=float) \
                        if what == "DiscretizationMatrix" else keep
            else:
                oc = "faulted" if ij.fired else "rejected"
                inc(oc)
                if ij.fired:
                    inc("fired:" + kind)
                now = data(g)
                if ij.fired and any(diff(d_old[q], now[q]) for q in d_old):
                    rec = None      # took effect although it raised
        if viol:
            break
        inc("evals")
        # record
        if rec is not None and g.SamplingPeriod is not None:
            dw = rec["DiscretizedWith"]
            live = {"DiscretizedWith": True,
                    "DiscretizationMatrix": dw == "lft",
                    "PrewarpFrequency": dw in TUSTIN}
            for q, v in rec.items():
                got, want = canon(getattr(g, q)), canon(v)
                if got == ("none",) and not live[q]:
                    continue        # may be hidden while it has no use
                d = diff(want, got)
                if d:
                    bad("%s.%s record" % (cls, q),
                        "step %d: %s should read %s but reads %s" % (
                            si, q, want, got), si)
        # freshness
        try:
            f = fresh(g)
        except Exception as ex:
            bad("%s unbuildable" % cls, "step %d: the data of the model "
                "is refused by the constructor: %s" % (si, ex), si)
            break
        A, B = strip(full(g, case["seed"])), strip(full(f, case["seed"]))
        d = same(B, A)
        if d:
            bad("%s stale %s after %s" % (cls, d.split(":")[0].split("[")[0],
                                          what),
                "step %d (%s %s): differs from a new model with the same "
                "data: %s" % (si, what, oc, d), si)
        gain = A[1]["to_array"][0] != "exc"
        sigs.add((cls, prev, what, oc, before[0],
                  g.SamplingPeriod is not None, gain))
        prev = what + ":" + oc
        if viol:
            break
    return {"viol": viol, "stats": stats, "sigs": sigs}


def shrink(case):
    for c in assign.shrink_history(case):
        yield c
    for i, s in enumerate(case["steps"]):
        if s.get("fault"):
            c = copy.deepcopy(case)
            del c["steps"][i]["fault"]
            yield c
