"""Runs cases in forked children, collects coverage, minimises, reports."""
import fcntl
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import forked

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 90.
WALL_CAP = 560.
PATIENCE = 120.        # for more violations once there is one


class HarnessError(Exception):
    pass


def load(pid):
    return importlib.import_module("sim.checks." + pid.lower())


# ----------------------------------------------------------------- children
def _escaped(e, text):
    """An exception that a check does not expect anywhere.

    If it comes out of harold, the step of the history that the property
    talks about could not be carried out; otherwise the harness is broken.
    """
    from . import boot
    last = text.strip().splitlines()[-1][:160]
    if 'File "%s' % boot.HDIR in text and "simulated" not in last:
        return {"viol": [{"key": "unexpected exception: %s"
                          % last.split(":")[0].split(".")[-1],
                          "msg": "a step raises %s" % last}]}
    return {"harness": "%s: %s\n%s" % (type(e).__name__, e, text)}


def _child(mod, case, wfd):
    """Runs in the forked child; never returns."""
    code = 0
    try:
        try:
            res = mod.run(case)
        except BaseException as e:          # noqa - report everything
            res = _escaped(e, traceback.format_exc())
        data = pickle.dumps(res, protocol=4)
        os.write(wfd, struct.pack("<Q", len(data)))
        mv = memoryview(data)
        while mv:
            n = os.write(wfd, mv)
            mv = mv[n:]
    except BaseException:                   # noqa
        code = 3
    os._exit(code)


def run_case(mod, case, timeout=CASE_TIMEOUT):
    """Run one case in a forked child -> result dict."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        forked.leash()
        os.close(rfd)
        try:
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get("SIM_DEBUG"):
                os.dup2(dn, 2)
            os.close(dn)
        except OSError:
            pass
        _child(mod, case, wfd)
    os.close(wfd)
    buf = bytearray()
    end = time.monotonic() + timeout
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([rfd], [], [], left)
        if not rl:
            hung = True
            break
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        buf += b
    os.close(rfd)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hung:
        return {"hang": True}
    if len(buf) < 8:
        return {"harness": "child died with status %d" % st}
    return pickle.loads(bytes(buf[8:]))


def gen_case(mod, seed, tier, i):
    return mod.gen(random.Random("%s/%s/%d" % (seed, mod.ID, i)), tier, i)


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ workers
def _indices(total, fd):
    """Case numbers not yet taken by another worker."""
    while True:
        fcntl.lockf(fd, fcntl.LOCK_EX)
        try:
            i = struct.unpack("<Q", os.pread(fd, 8, 0))[0]
            os.pwrite(fd, struct.pack("<Q", i + 1), 0)
        finally:
            fcntl.lockf(fd, fcntl.LOCK_UN)
        if i >= total:
            return
        yield i


def _worker(mod, seed, tier, total, deadline, cfd, wfd):
    agg = {"n": 0, "stats": Counter(), "sigs": set(), "viol": [],
           "harness": [], "samples": [], "hang": [], "sim": Counter(),
           "digest": 0, "skipped": 0}
    t0 = time.monotonic()
    for i in _indices(total, cfd):
        if time.monotonic() > deadline:
            agg["skipped"] += 1
            continue
        try:
            case = gen_case(mod, seed, tier, i)
        except Exception:
            agg["harness"].append((i, traceback.format_exc()))
            continue
        if (agg["viol"] or agg["hang"]) and time.monotonic() > t0 + PATIENCE:
            break
        res = run_case(mod, case)
        if res.get("hang"):
            agg["hang"].append((i, case))
            if len(agg["hang"]) >= 2:
                break
            continue
        if "harness" in res:
            agg["harness"].append((i, res["harness"]))
            if len(agg["harness"]) > 5:
                break
            continue
        agg["n"] += 1
        agg["stats"].update(res.get("stats", {}))
        agg["sigs"].update(res.get("sigs", ()))
        # order independent digest of all events of the run
        agg["digest"] ^= int(digest((i, sorted(map(repr, res.get("sigs", ()))),
                                     sorted(res.get("stats", {}).items()),
                                     res.get("trace"))), 16)
        if i < 3 and len(agg["samples"]) < 2:
            agg["samples"].append({"index": i, "case": _short(case),
                                   "note": res.get("note")})
        for v in res.get("viol", ()):
            agg["viol"].append((i, case, v))
        if len(agg["viol"]) >= 6:
            break
    data = pickle.dumps(agg, protocol=4)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def _short(x, n=1500):
    s = json.dumps(x)
    return json.loads(s) if len(s) <= n else s[:n] + "..."


def explore(mod, seed, tier, total, workers, cap=WALL_CAP):
    deadline = time.monotonic() + cap
    procs = []
    counter = tempfile.TemporaryFile()
    cfd = counter.fileno()
    os.pwrite(cfd, struct.pack("<Q", 0), 0)
    for w in range(workers):
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            forked.leash()
            os.close(rfd)
            for _, fd in procs:
                os.close(fd)
            try:
                _worker(mod, seed, tier, total, deadline, cfd, wfd)
            except BaseException:       # noqa
                traceback.print_exc()
            os._exit(4)
        os.close(wfd)
        procs.append((pid, rfd))
    out = None
    for pid, rfd in procs:
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise HarnessError("a worker process died")
        a = pickle.loads(data)
        if out is None:
            out = a
        else:
            for k in ("n", "skipped"):
                out[k] += a[k]
            out["digest"] ^= a["digest"]
            out["stats"].update(a["stats"])
            out["sigs"] |= a["sigs"]
            for k in ("viol", "harness", "samples", "hang"):
                out[k] += a[k]
    counter.close()
    out["viol"].sort(key=lambda v: (len(json.dumps(v[1])), v[0]))
    return out


# ------------------------------------------------------------- minimisation
def minimise(mod, case, viol, budget=35., tries=400):
    """Greedy: take any smaller case that still shows the same key."""
    end = time.monotonic() + budget
    best, bv = case, viol
    n = 0
    progress = True
    while progress and n < tries and time.monotonic() < end:
        progress = False
        for cand in mod.shrink(best):
            if n >= tries or time.monotonic() > end:
                break
            n += 1
            try:
                res = run_case(mod, cand, 30.)
            except Exception:
                continue
            vs = [v for v in res.get("viol", ()) if v["key"] == viol["key"]]
            if vs:
                best, bv, progress = cand, vs[0], True
                if "pin" in vs[0]:
                    best = dict(cand, **vs[0]["pin"])
                break
    return best, bv, n


# ------------------------------------------------------------ known findings
def known(pid):
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        with open(fn) as f:
            for ln in f:
                ln = ln.strip()
                if not ln.startswith("open: property=%s " % pid):
                    continue
                _, key, what = ln.split('"', 2)
                what = what.strip()
                out.append((key, what))
    return out


# ----------------------------------------------------------------- protocol
def main(pid, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(pid)
    if len(argv) >= 2 and argv[0] == "--replay":
        return replay(mod, argv[1])
    workers = int(os.environ.get("VERIF_JOBS", "0")) or \
        min(8, len(os.sched_getaffinity(0)))
    total = mod.N[tier]
    t0 = time.time()
    out = explore(mod, seed, tier, total, workers)
    wall_explore = time.time() - t0
    lines, code = [], 0
    kn = known(pid)
    viol, seen_known = [], {}
    for i, case, v in out["viol"]:
        for key, what in kn:
            if v["key"] == key:
                seen_known[key] = what
                break
        else:
            viol.append((i, case, v))
    hangs = out["hang"]
    if hangs and not viol:
        for i, case in hangs[:3]:
            if time.time() - t0 > WALL_CAP + 60:
                break
            res = run_case(mod, case, 2 * CASE_TIMEOUT)
            if res.get("hang"):
                viol.append((i, case, {"key": "hang",
                                       "msg": "a call does not finish"}))
                break
            known_keys = [k for k, _ in kn]
            viol += [(i, case, v) for v in res.get("viol", ())
                     if v["key"] not in known_keys][:1]
        if len(hangs) <= max(3, out["n"] // 50):
            hangs = []          # slow that time
    shrunk = 0
    for key, what in sorted(seen_known.items()):
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
    if viol:
        code = 1
        done = set()
        for k, n in sorted(Counter(v["key"] for _, _, v in viol).items()):
            print("# %s: %d x %s" % (pid, n, k))
        for i, case, v in viol:
            late = time.time() - t0 > WALL_CAP
            if v["key"] in done or len(done) >= (1 if late else 3):
                continue
            done.add(v["key"])
            orig = len(json.dumps(case))
            if "pin" in v:
                case = dict(case, **v["pin"])
            stuck = v["key"] in ("hang", "never finishes")
            if not stuck and not late:
                case, v, k = minimise(mod, case, v)
                shrunk += k
            path = save(mod, seed, tier, i, case, v)
            ok = late or confirm(pid, path, 1 if stuck else 3)
            print("# %s case %d (%d -> %d bytes): %s%s" % (
                pid, i, orig, len(json.dumps(case)), v["msg"],
                "" if ok else " [not reproduced in a fresh process]"))
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": int(out["stats"].get("evals", out["n"])),
            "distinct_nontrivial": len(out["sigs"]),
            "rule": mod.RULE,
            "samples": sorted(out["samples"],
                              key=lambda s: s["index"])[:3],
            "simulated_runs": out["n"],
            "runs_planned": total,
            "runs_skipped_at_wall_cap": out["skipped"],
            "runs_per_hour": int(out["n"] / max(wall_explore, 1e-3) * 3600),
            "simulated_time": "no clock in the system under test; simulated "
                              "steps are counted instead",
            "counters": {k: int(v) for k, v in sorted(out["stats"].items())},
            "run_digest": "%016x" % out["digest"],
            "components_real": mod.REAL,
            "components_stub": mod.STUB,
            "workers": workers,
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fn = os.path.join(VERIF, "evidence", pid + ".json")
    with open(fn + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(fn + ".tmp", fn)
    for ln in lines:
        print(ln)
    if code == 0:
        if out["harness"]:
            print("# HARNESS-ERROR %s case %s: %s" % (
                pid, out["harness"][0][0], out["harness"][0][1]))
            return 2
        if hangs:
            print("# HARNESS-ERROR %s: case %d did not finish" % (
                pid, hangs[0][0]))
            return 2
        if out["n"] < total * .2:
            print("# HARNESS-ERROR %s: only %d of %d runs fit in the wall "
                  "cap" % (pid, out["n"], total))
            return 2
        for k in getattr(mod, "MUST_REACH", ()):
            if not out["stats"].get(k):
                print("# HARNESS-ERROR %s: nothing reached %r" % (pid, k))
                return 2
    print("# %s %s: %d runs, %d evaluations, %d distinct, %.1f s, "
          "violations %d" % (pid, tier, out["n"],
                             ev["coverage"]["evaluations"],
                             len(out["sigs"]), time.time() - t0, len(viol)))
    return code


def save(mod, seed, tier, i, case, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (mod.ID, digest((case, v["key"]))))
    with open(path, "w") as f:
        json.dump({"property": mod.ID, "seed": seed, "tier": tier, "index": i,
                   "key": v["key"], "message": v["msg"], "case": case}, f,
                  indent=1)
    return path


def confirm(pid, path, times=3):
    for _ in range(times):
        try:
            p = subprocess.run([sys.executable,
                                os.path.join(VERIF, "check.py"), pid,
                                "--replay", path], capture_output=True,
                               timeout=200)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode == 1:
            return True
    return False


def replay(mod, path):
    with open(path) as f:
        rec = json.load(f)
    res = run_case(mod, rec["case"])
    if res.get("hang"):
        print("# hang")
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    if "harness" in res:
        print("# HARNESS-ERROR " + res["harness"])
        return 2
    vs = res.get("viol", ())
    for v in vs:
        print("# %s: %s" % (v["key"], v["msg"]))
    if vs:
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    print("# not reproduced")
    return 0
