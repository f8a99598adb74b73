"""C08: what a call returns does not depend on earlier calls."""
import copy
import random
import warnings

from .. import boot, faults, forked, ops, probe
from ..boot import harold as H, np, plt
from ..canon import brief, canon, diff
from ..specs import Shared

ID = "C08"
LEVEL = "exploration"
N = {"quick": 2200, "thorough": 26000}
RULE = ("A case is a history of 3 to 9 calls drawn from few functions, many "
        "of them repetitions with slightly different data, on objects that "
        "live throughout or are made for one call only; between calls the "
        "caller may change its own arrays and assign to its models and overwrites half of the arrays "
        "it got. Some calls fail or are "
        "interrupted part-way and are retried, some are refused. Memory "
        "that the library obtains without filling it contains something "
        "else than in the fresh process. A failure is put where the "
        "library's own data is changed, if that ever happens, also in the "
        "unfailed calls; when a call "
        "leaves the library's own data changed, 40 more calls follow. Each "
        "unfailed call is also made as the first call in a fresh fork or, in "
        "one of 25 cases, in a newly started interpreter. "
        "Distinct = (call, previous call, fate of the previous call, way "
        "the objects are kept); non-trivial if it is not the first call.")
REAL = ["harold", "NumPy", "SciPy", "matplotlib with the Agg canvas"]
STUB = ["which call fails and how (profile hook)", "random generator state",
        "content of memory obtained but not filled"]
ASSUME = ["values are compared with relative tolerance 1e-7, exceptions by "
          "type, warnings by category and count",
          "a fork of a process that has imported harold and done nothing "
          "else stands for a fresh process"]
MUST_REACH = ["fired:memory", "fired:interrupt", "fired:kernel", "retried",
              "refused", "variants", "mutated", "short_lived", "warned", "spawn",
              "assigned"]
NAMES = ops.names()
PLOTS = [n for n in ops.names(plots=True) if ops.OPS[n]["plot"]]


def gen(r, tier, i):
    cx = ops.Cx(r, reuse=.6)
    among = r.sample(NAMES, r.choice([1, 2, 2, 3, 4]))
    among.append(NAMES[i % len(NAMES)])
    if r.random() < .2:
        among.append("rejected")
    if r.random() < .06:
        among.append(r.choice(PLOTS))
    steps = []
    for _ in range(r.randint(3, 9)):
        x = r.random()
        prev = [s for s in steps]
        if prev and x < .5:
            p = r.choice(prev)
            y = r.random()
            if y < .35:
                st = {"call": copy.deepcopy(p["call"]), "how": "again"}
            else:
                st = {"call": ops.variant(r, cx, p["call"]), "how": "variant"}
        else:
            st = {"call": ops.gen_call(cx, among), "how": "new"}
        if r.random() < .25:
            st["fault"] = {"kind": r.choice(faults.ALL),
                           "frac": round(r.random(), 4)}
            steps.append(st)
            if r.random() < .6:
                steps.append({"call": copy.deepcopy(st["call"])
                              if r.random() < .6
                              else ops.variant(r, cx, st["call"]),
                              "how": "retry"})
            continue
        if r.random() < .18:
            st["mut"] = [r.getrandbits(16), round(r.uniform(.8, 1.3), 2)]
        steps.append(st)
    case = {"objs": cx.pool, "steps": steps, "keep": r.random() < .5}
    if i % 25 == 13:
        case["spawn"] = 1 + r.getrandbits(20)
    return case


def mutate(case, muts, sh):
    """The caller's own edits of arrays, applied to the objects built."""
    for i, f in muts:
        sh.get(i)
        a = sh.objs[i]
        if isinstance(a, np.ndarray) and a.dtype.kind == "f":
            a[...] = a * f
        elif isinstance(a, H.Transfer):
            a.num = [[y * f for y in x] for x in a.num] \
                if isinstance(a.num, list) else a.num * f
        elif isinstance(a, H.State) and a.NumberOfStates:
            if f > 1:
                a.a = a.a * f
            else:
                a.b = a.b * f
        elif isinstance(a, H.State):
            a.d = a.d * f


def mut_list(case):
    """Per step the edits made before it."""
    arrs = [i for i, s in enumerate(case["objs"])
            if s["t"] in ("State", "Transfer") or
            s["t"] == "arr" and s["lay"] != "L" and s["dtype"] == "f"]
    out, acc = [], []
    for st in case["steps"]:
        if "mut" in st and arrs and case["keep"]:
            used = sorted(ops.used_refs([st["call"]["args"],
                                         st["call"]["kw"]]) & set(arrs))
            if used:
                acc = acc + [(used[st["mut"][0] % len(used)], st["mut"][1])]
        out.append(list(acc))
    return out


def once(fn, args, kw, seed, keep=()):
    boot.seed_all(seed)
    with warnings.catch_warnings(record=True) as war:
        warnings.simplefilter("always")
        try:
            res = fn(*args, **kw)
            v = canon(res)
            if keep and seed % 2:
                scribble(res, keep)
        except Exception as e:
            v = ("exc", type(e).__name__)
    return v, sorted(w.category.__name__ for w in war)


def arrays(x, out, seen):
    """Arrays in x, which may contain lists and models."""
    if id(x) in seen:
        return out
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            arrays(y, out, seen)
    elif isinstance(x, dict) or hasattr(x, "_isgain"):
        arrays(list((x if isinstance(x, dict) else x.__dict__).values()),
               out, seen)
    return out


def scribble(res, keep):
    """The caller writes into what it got, unless that is something it has
    passed in itself."""
    seen = {}
    mine = arrays(list(keep), [], seen)
    for a in arrays(res, [], seen):
        if a.flags.writeable and a.dtype.kind in "fci" and \
                not any(np.may_share_memory(a, b) for b in mine):
            a[...] = 55


def more(case, si, n=40):
    """Calls to make when step si has left something behind."""
    r = random.Random(case["steps"][si]["call"]["seed"])
    cx = ops.Cx(r, [copy.deepcopy(o) for o in case["objs"]])
    mine = case["steps"][si]["call"]
    out = [{"call": copy.deepcopy(mine), "how": "again"}]
    while len(out) < n:
        x = r.random()
        if x < .2:
            c = ops.options(r, mine)
        elif x < .4:
            c = ops.variant(r, cx, r.choice(out)["call"]
                            if r.random() < .3 else mine)
        elif x < .6:
            c = ops.gen_call(cx, [mine["op"]])
        elif x < .7:
            c = copy.deepcopy(r.choice(case["steps"][:si + 1])["call"])
        else:
            c = ops.gen_call(cx, NAMES)
        out.append({"call": c, "how": "more"})
    return cx.pool, out


def flood(case, n=75):
    """Many calls of the same kind, then some of them again: a table that the
    library keeps may overflow."""
    mine = case["steps"][-1]["call"]
    r = random.Random(mine["seed"])
    cx = ops.Cx(r, [copy.deepcopy(o) for o in case["objs"]], reuse=.1)
    out = [{"call": ops.gen_call(cx, [mine["op"]]) if r.random() < .7 else
            ops.variant(r, cx, mine), "how": "more"} for _ in range(n)]
    return cx.pool, out + [dict(copy.deepcopy(out[k]), how="again") for k in
                           sorted(r.sample(range(n), n // 2))]


def relevant(case, muts, call):
    need = ops.used_refs([call["args"], call["kw"]])
    return [m for m in muts if m[0] in need]


def fresh(case, call, mu):
    """The call as the first one in a fresh process."""
    def f():
        boot.set_poison(.734)
        sh = Shared(case["objs"])
        mutate(case, relevant(case, mu, call), sh)
        try:
            fn, args, kw = ops.prepare(call, sh)
        except Exception as e:
            return ("unbuildable", type(e).__name__), []
        return once(fn, args, kw, call["seed"])
    return forked.call(f)


def fresh_all(case):
    return [None if "fault" in st else fresh(case, st["call"], mu)
            for st, mu in zip(case["steps"], mut_list(case))]


def run(case):
    muts = mut_list(case)
    refs = fresh_all(case) if "spawn" not in case else \
        forked.elsewhere(case["spawn"], "c08", "fresh_all", case)
    res = forked.call(lambda: history(case, muts, refs))
    if res == ("__hang__",):
        return {"hang": True}
    if "spawn" in case:
        res["stats"]["spawn"] = 1
    si = res.pop("left")
    if res["viol"] or case.get("extended"):
        return res
    if si is not None:
        # a call has left the library's own data changed: what depends on it?
        extend(case, case["steps"][:si + 1], 40, res)
        for n in range(12):
            if not res["viol"]:
                extend(case, case["steps"][:si + 1], 12, res, n)
        if not res["viol"] and "fault" not in case["steps"][si]:
            extend(case, case["steps"][si:si + 1], 0, res)
        return res
    for st, kind, hot in delicate(case):
        for k in hot:
            first = dict(st, fault={"kind": kind, "at": k})
            for n in range(16):
                extend(case, [first], 16, res, n)
                if res["viol"]:
                    return res
    return res


def extend(case, steps, n, res, only=None):
    """Follow the steps by n calls, or by one of them (what was left behind
    may be gone after one call), and see whether those still work."""
    known = {}

    def ref(st, mu):
        k = repr((st["call"], mu))
        if k not in known:
            known[k] = fresh(case, st["call"], mu)
        return known[k]
    pool, extra = more(dict(case, steps=steps), len(steps) - 1, n) if n \
        else flood(dict(case, steps=steps))
    if only is not None:
        extra = [extra[only]]
    new = {"objs": pool, "steps": steps + extra, "extended": True}
    case = dict(case, **new)
    muts = mut_list(case)
    refs = [None] * len(steps) + [ref(st, mu) for st, mu in
                                  list(zip(case["steps"], muts))[len(steps):]]
    ext = forked.call(lambda: history(case, muts, refs))
    if ext == ("__hang__",):
        if ("__hang__",) not in refs:
            res["viol"] = [{"key": "never finishes", "pin": new,
                            "msg": "a call after the history does not finish, "
                            "though it does in a fresh process"}]
    else:
        for k, v in ext["stats"].items():
            res["stats"][k] = res["stats"].get(k, 0) + v
        for v in ext["viol"]:
            v["pin"] = dict(new, **v["pin"])
        res["viol"] = ext["viol"]


def delicate(case):
    """Calls during which the library's own data is changed for a while, and
    the points to let them fail at."""
    seen = []
    for st in case["steps"]:
        call = st["call"]
        if "fault" in st or call in seen:
            continue
        seen.append(call)
        r = random.Random(call["seed"])
        for kind in ("memory", "kernel"):
            ij = forked.call(lambda: watched(case, call, kind))
            if ij == ("__hang__",):
                break
            hot = faults.hottest(r, ij, 5)
            if hot:
                yield dict(st, how="new"), r.choice(
                    ("memory", "interrupt")) if kind == "memory" else kind, \
                    hot
            elif kind == "memory":
                break


def watched(case, call, kind):
    """The call, with the library's own data watched."""
    own = probe.make([])
    try:
        fn, args, kw = ops.prepare(call, Shared(case["objs"]))
    except Exception:
        ij = faults.Injector(kind)
    else:
        boot.seed_all(call["seed"])
        ij = faults.run(lambda: fn(*args, **kw), kind,
                        watch=lambda: own()[1])[2]
    ij.watch = None
    return ij


def history(case, muts, refs):
    stats, sigs, viol, trace = {}, set(), [], []

    def inc(k, n=1):
        stats[k] = stats.get(k, 0) + n
    own = probe.make([])
    clean, left = own()[1], None
    boot.set_poison(-41.9)
    sh = Shared(case["objs"])
    done = 0
    prev = None
    for si, (st, mu) in enumerate(zip(case["steps"], muts)):
        call = st["call"]
        if not case["keep"]:
            sh = None               # let go before the next ones are made
            sh = Shared(case["objs"])
            inc("short_lived")
        if len(mu) > done:
            mutate(case, mu[done:], sh)
            done = len(mu)
            inc("mutated")
            if case["objs"][mu[-1][0]]["t"] != "arr":
                inc("assigned")
        try:
            fn, args, kw = ops.prepare(call, sh)
        except Exception as e:
            if refs[si] is None or refs[si][0][0] == "unbuildable":
                continue
            viol.append({"key": "construction for %s" % call["op"],
                         "msg": "step %d: arguments cannot be built after the "
                         "history: %s" % (si, type(e).__name__)})
            break
        fate = "ok"
        if "fault" in st:
            kind = st["fault"]["kind"]
            if "at" in st["fault"]:
                k = st["fault"]["at"]
            else:
                ij = forked.call(lambda: watched(case, call, kind))
                if ij == ("__hang__",) or not ij.record:
                    continue
                n, hot = ij.record, sorted(ij.hot)
                k = faults.pick(n, st["fault"]["frac"])
                if hot:
                    inc("own_data_points", len(hot))
                    k = hot[faults.pick([n[i - 1] for i in hot],
                                        st["fault"]["frac"]) - 1]
            boot.seed_all(call["seed"])
            ok, v, ij = faults.run(lambda: fn(*args, **kw), kind, k)
            v = None
            if ij.fired:
                inc("fired:" + kind)
            fate = kind if ij.fired else "ok"
            args = kw = None
            prev = (call["op"], fate)
            plt.close("all")
            if left is None and own()[1] != clean:
                left = si
                inc("left_behind")
            continue
        got = once(fn, args, kw, call["seed"], (args, kw, sh.objs))
        args = kw = None
        plt.close("all")
        inc("evals")
        if left is None and own()[1] != clean:
            left = si
            inc("left_behind")
        if st["how"] == "retry":
            inc("retried")
        elif st["how"] == "variant":
            inc("variants")
        if got[0][0] == "exc":
            inc("refused")
            fate = "refused"
        if got[1]:
            inc("warned")
        ref = refs[si]
        if ref == ("__hang__",) or ref is None:
            continue
        d = diff(ref[0], got[0], 1e-7, 1e-10)
        if d is None and ref[1] != got[1]:
            d = "warnings %s vs %s" % (ref[1], got[1])
        if prev:
            sigs.add((call["op"], prev, case["keep"]))
        if d:
            viol.append({
                "key": "%s depends on history" % call["op"],
                "msg": "step %d: %s alone %s, after %s %s (%s)" % (
                    si, call["op"], brief(ref[0], 70), prev,
                    brief(got[0], 70), d[:120]),
                "pin": {"steps": case["steps"][:si + 1]}})
            break
        trace.append((call["op"], got[0][0], got[1]))
        prev = (call["op"], fate)
    return {"viol": viol, "stats": stats, "sigs": sigs, "trace": trace,
            "left": left}


def shrink(case):
    for c in ops.shrink_calls(case):
        yield c
    for i, s in enumerate(case["steps"]):
        for k in ("fault", "mut"):
            if k in s:
                c = copy.deepcopy(case)
                del c["steps"][i][k]
                yield c
