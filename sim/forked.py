"""Evaluate something in a forked copy of this process."""
import ctypes
import os
import pickle
import select
import struct
import subprocess
import sys
import time
import traceback


_prctl = ctypes.CDLL(None).prctl


class ForkError(Exception):
    pass


def leash():
    """Called in a forked child: end when the parent ends, or a call that
    never returns would outlive the case that made it."""
    _prctl(1, 9, 0, 0, 0)       # PR_SET_PDEATHSIG, SIGKILL


def call(fn, timeout=60.):
    """fn() in a fork -> its (picklable) value; None-safe; raises on trouble.

    A value of ("__hang__",) is returned if it does not finish.
    """
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            leash()
            os.close(rfd)
            try:
                out = (True, fn())
            except BaseException:       # noqa
                out = (False, traceback.format_exc())
            data = pickle.dumps(out, protocol=4)
            data = struct.pack("<Q", len(data)) + data
            mv = memoryview(data)
            while mv:
                n = os.write(wfd, mv)
                mv = mv[n:]
        finally:
            os._exit(0)
    os.close(wfd)
    buf = bytearray()
    end = time.monotonic() + timeout
    hang = False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([rfd], [], [], left)[0]:
            hang = True
            break
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        buf += b
    os.close(rfd)
    if hang:
        os.kill(pid, 9)
    os.waitpid(pid, 0)
    if hang:
        return ("__hang__",)
    if len(buf) < 8:
        raise ForkError("forked evaluation died")
    ok, v = pickle.loads(bytes(buf[8:]))
    if not ok:
        raise ForkError(v)
    return v


NEW = """
import importlib, pickle, sys
sys.path.insert(0, %r)
from sim import forked
forked.leash()
mod, name, args = pickle.loads(sys.stdin.buffer.read())
out = getattr(importlib.import_module("sim.checks." + mod), name)(*args)
sys.stdout.buffer.write(b"@@" + pickle.dumps(out))
"""


def elsewhere(hashseed, mod, name, *args):
    """A function of a check in a newly started interpreter, in which sets
    have another order."""
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sys.executable, "-c", NEW % v],
                       input=pickle.dumps((mod, name, args)),
                       env=dict(os.environ, PYTHONHASHSEED=str(hashseed)),
                       capture_output=True)
    if p.returncode:
        raise ForkError(p.stderr.decode()[-800:])
    return pickle.loads(p.stdout[p.stdout.index(b"@@") + 2:])
