"""C11: a saved or copied model is the same model and independent."""
import copy
import os
import pickle
import subprocess
import sys
import warnings

from .. import assign, boot, faults, forked, specs
from ..boot import harold as H, np
from ..canon import diff, model
from ..observe import full, same, cheap
from .c02 import DERIVE, derive
from .c04 import own_arrays

ID = "C11"
LEVEL = "exploration"
N = {"quick": 1300, "thorough": 8000}
RULE = ("A case is a history of assignments (accepted, refused, failing), "
        "edits of the model's own data in place and "
        "model-producing calls, cut by checkpoints (pickle to a simulated "
        "disk), process crashes that lose everything after the last "
        "checkpoint, and copies with which the history goes on while the "
        "original is assigned to and scribbled over. Every life of the "
        "model runs in its own process; after each step it is compared "
        "with a twin that was never saved nor copied. Distinct = (class, "
        "discrete, gain, how it was saved, step, outcome, steps since).")
REAL = ["harold", "NumPy", "SciPy", "pickle and copy",
        "processes (forks of a process that has only imported harold; some "
        "newly started interpreters)"]
STUB = ["disk", "moment of the crash", "which call fails and how"]
ASSUME = ["a crash happens between calls",
          "twins are compared through attributes and 18 analysis results, "
          "relative tolerance 1e-6, attributes right after a restore "
          "exactly"]
MUST_REACH = ["checkpoint", "crash", "copy:deepcopy", "copy:pickle", "spawn",
              "bystander", "record", "refused", "inplace"]


def gstep(r, spec):
    x = r.random()
    if x < .7:
        st = dict(assign.gen(r, spec, bad=.15), k="assign")
        if r.random() < .1:
            st["fault"] = {"kind": r.choice(faults.ALL),
                           "frac": round(r.random(), 4)}
        return st
    if x < .8:
        # an entry of the model's own data is changed in place
        return {"k": "inplace", "i": r.getrandbits(8),
                "by": r.choice([1.1, .9, 1.25])}
    return {"k": "derive", "how": r.choice(DERIVE[:-1])}


def gen(r, tier, i):
    spec = specs.gmodel(r, gain=.2)
    if spec.get("dt") and r.random() < .5:
        spec["dt"] = round(r.uniform(.02, 3), 3)
    if "dt" in spec and r.random() < .3 and spec["dt"] is None:
        steps = [{"k": "derive", "how": r.choice(["disc", "prewarp", "lft",
                                                  "zoh"])}]
    else:
        steps = []
    for _ in range(r.randint(4, 9)):
        x = r.random()
        if x < .5:
            steps.append(gstep(r, spec))
        elif x < .7:
            steps.append({"k": "copy",
                          "how": r.choice(["deepcopy", "pickle", "list"]),
                          "proto": r.choice([0, 2, 4, 5]),
                          "keep": r.random() < .7})
        elif x < .82:
            steps.append({"k": "bystander",
                          "how": r.choice(["assign", "scribble", "scribble",
                                           "kill"]),
                          "st": assign.gen(r, spec, bad=.1)})
        elif x < .92:
            steps.append({"k": "checkpoint", "proto": r.choice([0, 2, 4, 5])})
        else:
            steps.append({"k": "crash"})
    assign.insert_burst(r, spec, steps, .35,
                        lambda s: dict(s, k="assign"))
    return {"objs": [spec], "steps": steps, "seed": r.getrandbits(30),
            "spawn": i % 60 == 7}


def do(g, st, seed):
    """One step on model g -> (model, outcome)."""
    boot.seed_all(seed)
    if st["k"] == "inplace":
        v = [x for x in own_arrays(g) if x.dtype.kind == "f"]
        if v:
            x = v[st["i"] % len(v)]
            j = np.unravel_index(st["i"] // len(v) % x.size, x.shape)
            x[j] = x[j] * st["by"] + .01
        return g, "changed in place"
    if st["k"] == "derive":
        try:
            n = derive(g, st["how"])
        except Exception as e:
            return g, "refused " + type(e).__name__
        return (n, "derived") if isinstance(n, (H.State, H.Transfer)) \
            else (g, "derived no model")
    if not hasattr(type(g), st["attr"]):
        return g, "no such attribute"
    val = assign.value(g, st)
    kind = k = None
    if "fault" in st:
        kind = st["fault"]["kind"]
        k = faults.pick(forked.call(lambda: faults.run(
            lambda: setattr(g, st["attr"], val), kind)[2].record),
            st["fault"]["frac"])
    ok, e, ij = faults.run(lambda: setattr(g, st["attr"], val), kind, k)
    return g, "accepted" if ok else "refused " + type(e).__name__


def scribble(g):
    for x in ([g.a, g.b, g.c, g.d] if isinstance(g, H.State)
              else [g.num, g.den]):
        xs = [z for y in x for z in y] if isinstance(x, list) else [x]
        for z in xs:
            try:
                z[...] = 77.
            except (ValueError, TypeError):
                pass
    for z in (g.DiscretizationMatrix, g.poles, g.zeros):
        if isinstance(z, np.ndarray):
            try:
                z[...] = 77.
            except ValueError:
                pass
        elif isinstance(z, list):
            z.append(77.)


def restore(data, seed):
    return pickle.loads(data)


CHILD = """
import sys, pickle
sys.path.insert(0, %r)
from sim import boot
from sim.canon import model
from sim.observe import full
data, seed = pickle.loads(sys.stdin.buffer.read())
g = pickle.loads(data)
sys.stdout.buffer.write(pickle.dumps((model(g), full(g, seed))))
"""


def spawn(data, seed):
    """What a newly started interpreter sees in the saved model."""
    env = dict(os.environ, PYTHONHASHSEED="7")
    v = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, "-c", CHILD % v],
                       input=pickle.dumps((data, seed)), env=env,
                       capture_output=True, timeout=80)
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-800:])
    return pickle.loads(p.stdout)


def run(case):
    stats, sigs, viol, trace = {}, set(), [], []
    seed = case["seed"]

    def inc(k):
        stats[k] = stats.get(k, 0) + 1
    warnings.simplefilter("ignore")
    steps = case["steps"]

    def bad(key, msg, si):
        viol.append({"key": key, "msg": "step %d: %s" % (si, msg),
                     "pin": {"steps": steps[:si + 1]}})

    def life(disk, lo, hi):
        """Steps lo..hi-1 in one process -> list of events, last disk."""
        ev, by = [], None
        if disk is None:
            g = specs.build(case["objs"][0])
        else:
            g = restore(disk, seed)
            ev.append((lo - 1, "restored", model(g), full(g, seed)))
        for si in range(lo, hi):
            st = steps[si]
            if st["k"] == "checkpoint":
                m0 = model(g)
                disk = pickle.dumps(g, protocol=st["proto"])
                ev.append((si, "checkpoint", m0, model(g)))
            elif st["k"] == "copy":
                m0 = model(g)
                if st["how"] == "deepcopy":
                    n = copy.deepcopy(g)
                elif st["how"] == "list":
                    n = copy.deepcopy([g, {"x": g}])
                    if n[0] is not n[1]["x"]:
                        ev.append((si, "alias", None, None))
                    n = n[0]
                else:
                    n = pickle.loads(pickle.dumps(g, protocol=st["proto"]))
                ev.append((si, "copied", m0, model(n)))
                ev.append((si, "copied from", m0, model(g)))
                by, g = (g, n) if st["keep"] else (n, g)
                ev.append((si, "goes on", None, full(g, seed)))
            elif st["k"] == "bystander":
                if by is None:
                    continue
                c0 = cheap(g)
                try:
                    if st["how"] == "assign":
                        a = st["st"]
                        if hasattr(type(by), a["attr"]):
                            setattr(by, a["attr"], assign.value(by, a))
                    elif st["how"] == "scribble":
                        scribble(by)
                    else:
                        by = None
                        import gc
                        gc.collect()
                except Exception:
                    pass
                ev.append((si, "bystander", c0, cheap(g)))
            else:
                c0 = None if by is None else cheap(by)
                g, oc = do(g, st, seed)
                ev.append((si, oc, None, full(g, seed)))
                if by is not None:
                    ev.append((si, "other side", c0, cheap(by)))
        return ev, disk

    def twin(eff, obs):
        """A model that only lives through eff; observed after obs."""
        g = specs.build(case["objs"][0])
        out = {}
        if -1 in obs:
            out[-1] = (None, model(g), full(g, seed))
        for si in eff:
            oc = None
            if steps[si]["k"] in ("assign", "derive", "inplace"):
                g, oc = do(g, steps[si], seed)
            if si in obs:
                out[si] = (oc, model(g), full(g, seed))
        return out

    # cut into lives
    cuts = [i for i, s in enumerate(steps) if s["k"] == "crash"]
    lo, disk, eff = 0, None, []
    saved_eff, how, since = [], "none", 0
    for hi in cuts + [len(steps)]:
        ev_disk = forked.call(lambda: life(disk, lo, hi))
        if ev_disk == ("__hang__",):
            return {"hang": True}
        ev, nd = ev_disk
        full_eff = eff + list(range(lo, hi))
        # the state of a restored model is that after the last saved step
        last = eff[-1] if eff else -1
        obs = {last} | {e[0] for e in ev if e[0] >= lo}
        tw = forked.call(lambda: twin(full_eff, obs))
        for si, what, x, y in ev:
            inc("evals")
            st = steps[si] if si >= lo else {"k": "restore"}
            if what == "restored":
                inc("crash")
                how, since = "crash", 0
                oc, m, f = tw[last]
                d = diff(m, x)
                if d:
                    bad("restored model", "after a crash the restored model "
                        "is not the saved one: %s" % d, lo - 1)
                d = same(f, y)
                if d:
                    bad("restored model", "after a crash: %s" % d, lo - 1)
                if x[1].get("DiscretizedWith") != ("val", None):
                    inc("record")
            elif what == "alias":
                bad("alias", "one model in a container became two", si)
            elif what in ("copied", "copied from", "checkpoint"):
                d = diff(x, y)
                if what == "copied":
                    inc("copy:" + st["how"].replace("list", "deepcopy"))
                    how, since = st["how"], 0
                elif what == "checkpoint":
                    inc("checkpoint")
                if d:
                    bad({"copied": "copy differs"}.get(
                        what, "original changed"), "%s: %s" % (what, d), si)
            elif what in ("bystander", "other side"):
                inc("bystander")
                d = same(x, y)
                if d:
                    bad("not independent", "%s (%s): %s" % (
                        what, st.get("how") or st.get("attr"), d), si)
            else:
                oc, m, f = tw[si]
                since += 1
                if st["k"] == "inplace":
                    inc("inplace")
                if what.startswith("refused"):
                    inc("refused")
                if oc is not None and what != oc:
                    bad("outcome", "%s, the twin: %s" % (what, oc), si)
                d = same(f, y)
                if d:
                    bad("diverges", "after %s (%s): %s" % (
                        st.get("attr") or st.get("how"), what, d), si)
                mm = m[1]
                sigs.add((m[0], str(mm.get("SamplingPeriod"))[:12], how,
                          st.get("attr") or st.get("how"), what, since))
            trace.append((si, what))
            if viol:
                return {"viol": viol[:1], "stats": stats, "sigs": sigs}
        # what survives: steps up to the last checkpoint of this life
        ck = [i for i in range(lo, hi) if steps[i]["k"] == "checkpoint"]
        if ck:
            eff = eff + list(range(lo, ck[-1] + 1))
        disk = nd
        lo = hi + 1
        if disk is None:
            eff = []
        if case["spawn"] and disk is not None and hi == len(steps):
            m, f = spawn(disk, seed)
            inc("spawn")
            last = eff[-1]
            oc, tm, tf = forked.call(lambda: twin(eff, {last}))[last]
            d = diff(tm, m) or same(tf, f)
            if d:
                bad("restored model", "in a new interpreter: %s" % d, hi - 1)
    return {"viol": viol, "stats": stats, "sigs": sigs, "trace": trace}


def shrink(case):
    if case["spawn"]:
        yield dict(case, spawn=False)
    st = case["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield dict(case, steps=st[:i] + st[i + 1:])
    for i, s in enumerate(st):
        if "fault" in s:
            c = copy.deepcopy(case)
            del c["steps"][i]["fault"]
            yield c
