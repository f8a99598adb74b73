"""C10: a plot call draws its own figure and touches nothing else."""
import copy
import warnings

import matplotlib as mpl

from .. import boot, faults, forked, ops
from ..boot import harold as H, np, plt
from ..canon import snap, snapdiff
from ..specs import Shared, gvec

ID = "C10"
LEVEL = "exploration"
N = {"quick": 800, "thorough": 5000}
RULE = ("A case is a history of plot calls mixed with the user's own pyplot "
        "actions (new figures, drawing into current or older axes, changing "
        "current figure or axes, closing, changing defaults), refused plot "
        "calls and plot calls that fail or are interrupted at a sampled "
        "call. After every step all figures are fingerprinted; a new figure "
        "is compared with the one drawn as first action in a fresh fork. "
        "Distinct = (action, number of open figures, what the previous step "
        "was and how it ended); non-trivial if a figure existed before.")
REAL = ["harold", "NumPy", "SciPy", "matplotlib with the Agg canvas"]
STUB = ["which call fails and how (profile hook)",
        "content of memory obtained but not filled"]
ASSUME = ["a figure is described by its size, axes (place, scales, limits, "
          "labels, grid, visibility, twins), curves (data, style, label) and "
          "texts", "a figure left behind by a failed plot call is not judged"]
MUST_REACH = ["plots", "user", "refused", "fired:memory", "fired:interrupt",
              "fired:kernel", "defaults", "zero_channel", "lists"]
FNS = {"bode": "bode_plot", "nyquist": "nyquist_plot",
       "step": "step_response_plot", "impulse": "impulse_response_plot"}
USER = ["figure", "subplot", "draw", "draw_old", "sca", "close", "close_last",
        "closeall", "rc", "style", "hold", "number", "many", "name", "rcgrid",
        "subplots", "ion"]


def gsys(r, cx):
    dt = r.choice([None, None, .1])
    x = r.random()
    if x < .3:
        p, m = r.choice([(1, 1), (1, 1), (1, 2), (2, 1)])
        v = [cx.model(p, m, dt, dyn=True) for _ in range(r.choice([2, 2, 3]))]
        return cx.add({"t": r.choice(["list", "tuple"]), "v": v}), dt
    if x < .45:
        s = {"t": "State", "a": [[-1., 0.], [0., -2.]],
             "b": [[1., 0.], [0., round(r.uniform(.5, 2), 2)]],
             "c": [[1., 0.]], "d": [[0., 0.]], "dt": None}
        return cx.add(s), None
    p, m = r.choice([(1, 1), (1, 1), (1, 1), (1, 2), (2, 1), (2, 2)])
    return cx.model(p, m, dt, dyn=r.random() < .9), dt


def gplot(r, cx):
    fn = r.choice(sorted(FNS))
    g, dt = gsys(r, cx)
    k = {}
    freq = fn in ("bode", "nyquist")
    if r.random() < .4:
        if freq:
            k["w"] = ops._g_w(cx, 6)
        else:
            k["t"] = ops._g_t(cx, dt, r.randint(5, 20))
    if freq and r.random() < .4:
        k["use_hz"] = r.random() < .5
    if fn == "bode":
        if r.random() < .3:
            k["use_db"] = True
        if r.random() < .3:
            k["use_degree"] = False
    if fn == "nyquist" and r.random() < .3:
        k["negative_freqs"] = False
    if r.random() < .3:
        k["style"] = {"t": "cyc", "v": r.choice([
            {"color": ["r", "g", "b"]},
            {"linestyle": ["-", "--", ":"], "color": ["k", "r", "m"]}])}
    if r.random() < .3:
        k["gridspec_kw"] = cx.add({"t": "dict",
                                   "v": r.choice([{"hspace": .3},
                                                  {"wspace": .8}, {}])})
    if r.random() < .2:
        k["figsize"] = cx.add({"t": "list", "v": [4, 3]})
    return {"k": "plot", "fn": fn, "g": g, "kw": k}


def gen(r, tier, i):
    cx = ops.Cx(r, reuse=.5)
    steps = []
    for _ in range(r.randint(3, 7)):
        x = r.random()
        if x < .45:
            st = gplot(r, cx)
            if steps and r.random() < .2:
                pr = [s for s in steps if s["k"] == "plot"]
                if pr:
                    st = copy.deepcopy(r.choice(pr))
                    st.pop("fault", None)
            if r.random() < .3:
                st["fault"] = {"kind": r.choice(faults.ALL),
                               "frac": round(r.random(), 4)}
        elif x < .57:
            st = {"k": "bad", "fn": r.choice(sorted(FNS)),
                  "how": r.choice(["type", "mixed", "empty", "kw", "t"]),
                  "g": cx.model(1, 1, None, dyn=True)}
        else:
            st = {"k": "user", "how": r.choice(USER), "i": r.getrandbits(8),
                  "v": gvec(r, 3)}
        steps.append(st)
    return {"objs": cx.pool, "steps": steps}


# ------------------------------------------------------------ fingerprints
def num(x):
    a = np.ma.filled(np.ma.asarray(x, dtype=complex), np.nan)
    return (a.shape, np.array(a))


def line_fp(ln):
    return {"data": num(np.asarray(ln.get_xydata(), dtype=float)),
            "label": ln.get_label(),
            "color": mpl.colors.to_hex(ln.get_color(), True),
            "ls": ln.get_linestyle(), "lw": float(ln.get_linewidth()),
            "marker": str(ln.get_marker()), "drawstyle": ln.get_drawstyle(),
            "alpha": ln.get_alpha(), "visible": ln.get_visible()}


def axes_fp(ax):
    d = {"pos": num(ax.get_position().bounds),
         "xlim": num(ax.get_xlim()), "ylim": num(ax.get_ylim()),
         "xscale": ax.get_xscale(), "yscale": ax.get_yscale(),
         "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
         "title": ax.get_title(), "visible": ax.get_visible(),
         "frame": ax.get_frame_on(),
         "xgrid": [g.get_visible() for g in ax.get_xgridlines()][:2],
         "ygrid": [g.get_visible() for g in ax.get_ygridlines()][:2],
         "texts": [t.get_text() for t in ax.texts],
         "npatch": len(ax.patches), "ncoll": len(ax.collections),
         "legend": [t.get_text() for t in ax.get_legend().get_texts()]
         if ax.get_legend() else None}
    d["lines"] = [line_fp(ln) for ln in ax.lines]
    return d


def fig_fp(fig):
    return {"size": num(fig.get_size_inches()),
            "texts": [(t.get_text(), num(t.get_position()))
                      for t in fig.texts],
            "suptitle": fig._suptitle.get_text() if fig._suptitle else None,
            "face": mpl.colors.to_hex(fig.get_facecolor(), True),
            "axes": [axes_fp(a) for a in fig.axes]}


def fdiff(a, b, path=""):
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return path
        for k in a:
            x = fdiff(a[k], b[k], path + "." + k)
            if x:
                return x
        return None
    if isinstance(a, (list, tuple)) and not (
            isinstance(a, tuple) and len(a) == 2 and
            isinstance(a[1], np.ndarray)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "%s: %d vs %d entries" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            z = fdiff(x, y, "%s[%d]" % (path, i))
            if z:
                return z
        return None
    if isinstance(a, tuple):
        if a[0] != b[0]:
            return "%s: shapes %s vs %s" % (path, a[0], b[0])
        x, y = a[1], b[1]
        nx, ny = np.isnan(x), np.isnan(y)
        if not np.array_equal(nx, ny):
            return "%s: gaps at other places" % path
        x, y = x[~nx], y[~ny]
        # curves of the same call are the same to rounding; some limits
        # follow from data that are zero to rounding
        if x.size and not np.allclose(x, y, rtol=1e-6,
                                      atol=1e-7 * (np.abs(y[np.isfinite(y)])
                                                   .max(initial=1e-3))):
            j = int(np.argmax(np.abs(x - y)))
            return "%s: %s vs %s" % (path, x[j].real, y[j].real)
        return None
    return None if a == b else "%s: %r vs %r" % (path, a, b)


def all_fp():
    G = plt._pylab_helpers.Gcf
    return {m.num: (m.canvas.figure, fig_fp(m.canvas.figure))
            for m in list(G.figs.values())}


# --------------------------------------------------------------- actions
def user(st):
    how, v, i = st["how"], st["v"], st["i"]
    nums = plt.get_fignums()
    if how == "figure":
        plt.figure(figsize=(3, 2))
    elif how == "subplot":
        plt.subplot(2, 2, 1 + i % 4)
    elif how == "draw":
        plt.plot(v, v[::-1], label="mine")
        plt.xlabel("mine")
    elif how == "draw_old":
        if nums:
            f = plt.figure(nums[i % len(nums)])
            if f.axes:
                f.axes[i % len(f.axes)].plot(v)
    elif how == "sca":
        if nums:
            f = plt.figure(nums[i % len(nums)])
            if f.axes:
                plt.sca(f.axes[-1 - i % len(f.axes)])
    elif how == "close":
        if nums:
            plt.close(nums[i % len(nums)])
    elif how == "close_last":
        if nums:
            plt.close(nums[-1])
    elif how == "closeall":
        plt.close("all")
    elif how == "rc":
        plt.rcParams["lines.linewidth"] = 1. + (i % 3)
    elif how == "style":
        plt.rcParams["axes.prop_cycle"] = mpl.cycler(
            color=["c", "m", "y", "k"][i % 3:])
    elif how == "hold":
        plt.gcf()
        plt.gca().semilogx([1, 10, 100], v)
    elif how == "number":
        plt.figure(1 + i % 20)
    elif how == "many":
        for _ in range(18 + i % 5):
            plt.figure(figsize=(1, 1))
    elif how == "name":
        plt.figure(NAMED[i % len(NAMED)])
    elif how == "rcgrid":
        plt.rcParams["axes.grid"] = i % 2 == 0
        plt.rcParams["figure.figsize"] = [4. + i % 3, 3.]
    elif how == "subplots":
        f, ax = plt.subplots(1 + i % 2, 2, sharex=True)
        ax.flat[0].plot(v)
        f.suptitle("mine")
    elif how == "ion":
        (plt.ion if i % 2 else plt.ioff)()


RC = {"rc", "style", "rcgrid"}
NAMED = ["Step response", "Impulse response", "Bode", "Bode plot", "Nyquist",
         "Nyquist plot", "Figure 1", "mine"]


def build(spec, sh):
    from .. import specs as S
    kw = {}
    for k, v in spec.items():
        if isinstance(v, dict) and v.get("t") == "cyc":
            c = None
            for kk, vv in v["v"].items():
                n = mpl.cycler(kk, vv)
                c = n if c is None else c + n
            kw[k] = c
        else:
            kw[k] = S.build(v, sh)
    return kw


def rcs():
    return {k: repr(v) for k, v in dict.items(plt.rcParams)}


def prepare(st, sh):
    f = getattr(H, FNS[st["fn"]])
    g = sh.get(st["g"]["i"])
    return f, g, build(st["kw"], sh)


def owner(v):
    if isinstance(v, np.ndarray):
        v = v.ravel()[0]
    return v if isinstance(v, mpl.figure.Figure) else \
        getattr(v, "figure", None)


def run(case):
    stats, sigs, viol, trace = {}, set(), [], []

    def inc(k, n=1):
        stats[k] = stats.get(k, 0) + n
    warnings.simplefilter("ignore")
    # drawn as the first thing in a fresh process, with the defaults that
    # the user has set by then
    refs = {}
    for si, st in enumerate(case["steps"]):
        if st["k"] != "plot":
            continue

        def f():
            boot.set_poison(.734)
            for s in case["steps"][:si]:
                if s["k"] == "user" and s["how"] in RC:
                    user(s)
            fn, g, kw = prepare(st, Shared(case["objs"]))
            if "fault" in st:
                boot.seed_all(1)
                n = faults.run(lambda: fn(g, **kw),
                               st["fault"]["kind"])[2].record
                return ("points", n)
            boot.seed_all(1)
            try:
                r = fn(g, **kw)
            except Exception as e:
                return ("exc", type(e).__name__)
            return ("fig", fig_fp(owner(r)), len(plt.get_fignums()))
        refs[si] = forked.call(f)
    boot.set_poison(-41.9)
    sh = Shared(case["objs"]).build_all()
    prev = None
    for si, st in enumerate(case["steps"]):
        before = all_fp()
        rc0 = rcs()
        what, fate = st["k"], "ok"
        new = None
        if st["k"] == "user":
            user(st)
            inc("user")
            if st["how"] in RC:
                inc("defaults")
            prev = ("user " + st["how"], "ok")
            continue
        if st["k"] == "bad":
            what = "refused " + st["fn"]
            f = getattr(H, FNS[st["fn"]])
            g = sh.get(st["g"]["i"])
            a, kw = {"type": (3, {}), "mixed": ([g, 3], {}),
                     "empty": ([], {}), "kw": (g, {"nonsense": 1}),
                     "t": (g, {("w" if st["fn"] in ("bode", "nyquist")
                                else "t"): ["a", "b"]})}[st["how"]]
            s0 = snap([a, kw])
            try:
                f(a, **kw)
            except Exception:
                inc("refused")
                fate = "refused"
            s1 = snap([a, kw])
        else:
            what = st["fn"]
            f, g, kw = prepare(st, sh)
            if isinstance(g, (list, tuple)):
                inc("lists")
            elif isinstance(g, H.State) and g.shape == (1, 2) and \
                    not np.any(g.d):
                inc("zero_channel")
            s0 = snap([g, {k: v for k, v in kw.items() if k != "style"}])
            boot.seed_all(1)
            ref = refs[si]
            if ref == ("__hang__",):
                continue
            if "fault" in st:
                ft = st["fault"]
                k = ft.get("at") or faults.pick(ref[1], ft["frac"])
                ok, v, ij = faults.run(lambda: f(g, **kw), ft["kind"], k)
                if ij.fired:
                    inc("fired:" + ft["kind"])
                    fate = ft["kind"]
                if not ok:
                    fate = "failed"
            else:
                try:
                    v = f(g, **kw)
                    ok = True
                except Exception as e:
                    v, ok, fate = e, False, "refused"
                inc("plots")
            s1 = snap([g, {k: v for k, v in kw.items() if k != "style"}])
            if ok and ("fault" not in st or not ij.fired):
                new = v
        inc("evals")
        after = all_fp()
        if before:
            sigs.add((what, len(before), prev, fate))
        pin = {"steps": case["steps"][:si + 1]}

        def bad(key, msg):
            viol.append({"key": "%s: %s" % (what.split()[-1], key),
                         "msg": "step %d, %s (%s): %s" % (si, what, fate,
                                                          msg), "pin": pin})
        d = snapdiff(s0, s1)
        if d:
            bad("arguments", d)
        rc1 = rcs()
        if rc1 != rc0:
            bad("defaults", "plotting defaults changed: %s" % [
                k for k in rc0 if rc1.get(k) != rc0[k]])
        for n, (fig, fp) in before.items():
            if n not in after or after[n][0] is not fig:
                bad("existing figure", "figure %d is gone" % n)
                continue
            d = fdiff(fp, after[n][1])
            if d:
                bad("existing figure", "figure %d changed at %s" % (n, d))
        if st["k"] == "plot" and "fault" not in st:
            ref = refs[si]
            if (ref[0] == "exc") != (new is None):
                bad("outcome", "%s in a fresh process, here %s" % (
                    ref[0:2] if ref[0] == "exc" else "draws", fate))
            elif new is not None:
                fresh = [n for n in after if n not in before]
                if len(fresh) != 1:
                    bad("number of figures", "%d new figures" % len(fresh))
                elif owner(new) is not after[fresh[0]][0]:
                    bad("returned figure", "result is not the new figure")
                else:
                    d = fdiff(ref[1], after[fresh[0]][1])
                    if d:
                        bad("content", "differs from the figure drawn in a "
                            "fresh process at %s" % d)
        trace.append((what, fate, len(after)))
        prev = (what, fate)
        if viol:
            break
    plt.close("all")
    return {"viol": viol[:1], "stats": stats, "sigs": sigs, "trace": trace}


def shrink(case):
    st = case["steps"]
    for i in range(len(st)):
        c = dict(case, steps=st[:i] + st[i + 1:])
        if c["steps"]:
            yield ops.compact(c)
    for i, s in enumerate(st):
        if "fault" in s:
            c = copy.deepcopy(case)
            del c["steps"][i]["fault"]
            yield c
        for k in s.get("kw", {}):
            c = copy.deepcopy(case)
            del c["steps"][i]["kw"][k]
            yield ops.compact(c)
