"""Public observations of a model."""
import numpy as np

from . import boot
from .boot import harold
from .canon import canon, model, diff

H = harold
RT, AT = 1e-6, 1e-9


def _o(f):
    try:
        return canon(f())
    except Exception as e:
        return ("exc", type(e).__name__)


def cheap(g):
    """Attributes plus the observers that show the derived flags."""
    return ("dict", {
        "model": model(g),
        "to_array": _o(g.to_array),
        "norm2": _o(lambda: H.system_norm(g, p=2)),
    })


def _freq(g, dt):
    w = [.01, .1, .3, 1.] if dt is None else [.01 / dt, .1 / dt, .3 / dt]
    return H.frequency_response(g, w=w)


def full(g, seed=0):
    """Attributes and the results of the analysis functions."""
    dt = g.SamplingPeriod
    d = {"model": model(g)}

    def add(k, f):
        boot.seed_all(seed)
        d[k] = _o(f)
    add("to_array", g.to_array)
    add("repr", lambda: repr(g))
    add("norm2", lambda: H.system_norm(g, p=2))
    add("dcgain", lambda: g.dcgain)
    add("freq", lambda: _freq(g, dt))
    add("step", lambda: [np.asarray(x) for x in H.simulate_step_response(g)])
    add("impulse", lambda: [np.asarray(x) for x in
                            H.simulate_impulse_response(g)])
    add("neg", lambda: -g)
    add("twice", lambda: g * 2)
    add("item", lambda: g[0, 0])
    add("poleprops", lambda: g.pole_properties(output_data=True))
    add("minreal", lambda: H.minimal_realization(g))
    if isinstance(g, H.State):
        add("to_transfer", lambda: H.state_to_transfer(g))
        add("ctrb", lambda: H.is_kalman_controllable(g))
        add("concat", lambda: H.concatenate_state_matrices(g))
    else:
        add("to_state", lambda: H.transfer_to_state(g))
    if dt is None:
        add("disc", lambda: H.discretize(g, .1, method="zoh"))
    else:
        add("undisc", lambda: H.undiscretize(g, method="tustin"))
    add("fb", lambda: H.feedback(g, -.1 * np.ones(g.shape[::-1])))
    return ("dict", d)


def same(a, b):
    return diff(a, b, RT, AT)


def probe(rich):
    return full if rich else cheap
