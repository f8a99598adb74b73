"""Cheap fingerprint of the mutable state that several threads can see.

Used on lone runs only, to find the steps at which that state differs from
what it was at the start: those are the steps worth parking a thread at.
"""
import functools
import gc
import logging
import os
import sys
import types
import warnings

from .boot import np, plt

def _names():
    out = []
    for n, m in sorted(sys.modules.items()):
        if (n == "harold" or n.startswith("harold.")) and \
                not n.startswith("harold.tests"):
            d = m.__dict__
            for k, v in d.items():
                if not k.startswith("__") and not callable(v) and \
                        not isinstance(v, types.ModuleType):
                    out.append((d, k))
    return out


def _mods():
    return [m.__dict__ for n, m in sorted(sys.modules.items())
            if (n == "harold" or n.startswith("harold.")) and
            not n.startswith("harold.tests")]


_MUT = (list, dict, set, np.ndarray)


def _cells(f):
    out = []
    for c in getattr(f, "__closure__", None) or ():
        try:
            if isinstance(c.cell_contents, _MUT):
                out.append(c)
        except ValueError:
            pass
    return out


def _stateful():
    """Functions with attributes, mutable default values or caches; classes."""
    fns, cls = {}, {}
    for d in _mods():
        for v in list(d.values()):
            if not str(getattr(v, "__module__", "")).startswith("harold"):
                continue
            if isinstance(v, type):
                cls[id(v)] = v
            elif _has_state(v):
                fns[id(v)] = v
    for c in list(cls.values()):
        for v in vars(c).values():
            v = getattr(v, "__func__", None) or getattr(v, "fget", None) or v
            if _has_state(v):
                fns[id(v)] = v
    return list(fns.values()), list(cls.values())


def _has_state(v):
    if isinstance(v, functools._lru_cache_wrapper):
        return True
    return isinstance(v, types.FunctionType) and (v.__dict__ or _cells(v) or any(
        isinstance(x, _MUT) for x in v.__defaults__ or ()) or any(
        isinstance(x, _MUT) for x in (v.__kwdefaults__ or {}).values()))


def _fn(f):
    if isinstance(f, functools._lru_cache_wrapper):
        return [f.cache_info().currsize]
    out = [_val(v) for v in f.__dict__.values()]
    out += [_val(v) for v in f.__defaults__ or ()]
    out += [_val(v) for v in (f.__kwdefaults__ or {}).values()]
    out += [_val(c.cell_contents) for c in _cells(f)]
    w = f.__dict__.get("__wrapped__")
    return out + (_fn(w) if isinstance(w, types.FunctionType) else [])


def _warn():
    w = warnings
    return hash((id(w.filters), len(w.filters), id(w.showwarning),
                 id(getattr(w, "_showwarnmsg_impl", None)),
                 np.geterrobj()[1] if hasattr(np, "geterrobj") else
                 tuple(np.geterr().values())))


def _rest():
    return hash((id(sys.stdout), id(sys.stderr),
                 tuple(map(id, dict.values(plt.rcParams))),
                 str(np.get_printoptions()), len(os.environ),
                 hash(tuple(os.environ._data.values())), os.getcwd(),
                 id(np.geterrcall()), np.getbufsize(),
                 id(warnings.formatwarning), warnings.defaultaction,
                 sys.getrecursionlimit(), sys.getswitchinterval(),
                 gc.isenabled(), logging.root.level,
                 logging.root.manager.disable, id(sys.excepthook),
                 sys.get_int_max_str_digits()))


def settings():
    """Of the settings: warnings and numerical errors, all others."""
    return _warn(), _rest()


def of(x):
    """Function returning a fingerprint of arguments or a model."""
    arrays, others = [], []

    def walk(v):
        if isinstance(v, np.ndarray) and v.dtype != object:
            arrays.append(v)
        elif isinstance(v, (list, tuple)):
            others.append(v)
            for y in v:
                walk(y)
        elif isinstance(v, dict):
            others.append(v)
            for y in v.values():
                walk(y)
        elif hasattr(v, "_isgain"):
            others.append(v.__dict__)
            walk(list(v.__dict__.values()))
    walk(x)

    def one(v):
        return id(v) if isinstance(v, (np.ndarray, list, tuple, dict)) or \
            hasattr(v, "__dict__") else repr(v)

    def fp():
        out = [a.tobytes() for a in arrays]
        for v in others:
            out.append(tuple(map(one, v.values() if isinstance(v, dict)
                                 else v)))
        return hash(tuple(out))
    return fp


def _val(v):
    if isinstance(v, np.ndarray):
        return v.tobytes() if v.size <= 256 and v.dtype != object else id(v)
    if isinstance(v, (list, dict, set)):
        return (len(v), id(v)) if len(v) > 30 else repr(v)[:400]
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return id(v)


def make(objs):
    """-> function returning a fingerprint: of the warning filters and such,
    of the library's own data and the objects, of the other settings."""
    names = _names()
    mods = _mods()
    models = [o for o in objs if hasattr(o, "__dict__")]
    arrays = [o for o in objs if isinstance(o, np.ndarray) and o.size <= 256]
    fns, cls = _stateful()
    cattr = [(c, k) for c in cls for k, v in vars(c).items()
             if not k.startswith("__") and not callable(v) and
             not isinstance(v, (property, staticmethod, classmethod))]

    def fp():
        out = [len(d) - ("__warningregistry__" in d) for d in mods]
        out += [_val(d.get(k)) for d, k in names]
        for g in models:
            for v in g.__dict__.values():
                out.append(_val(v))
        out += [a.tobytes() for a in arrays]
        for f in fns:
            out += _fn(f)
        out += [len(c.__dict__) - ("__slotnames__" in c.__dict__)
                for c in cls]
        out += [_val(c.__dict__.get(k)) for c, k in cattr]
        return _warn(), hash(tuple(out)), _rest()
    return fp
