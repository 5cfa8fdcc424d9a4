"""Trees of smoothly moving frames with known analytic motion."""

import numpy as np
from hypothesis import strategies as st

from lib import model as m
from lib.common import even_ticks


@st.composite
def smooth_tree(draw, min_frames=2, max_frames=5, kinds=None, lo=12, hi=22,
                bases=m.bases):
    """Frames whose sampling is part of one grid.

    Some static frames are oriented (almost) like another one.
    """
    base = draw(bases)
    grid = draw(even_ticks(lo, hi))
    n = draw(st.integers(min_frames, max_frames))
    shape = draw(st.sampled_from(["random", "chain"]))
    kinds = kinds or ["moving", "moving", "static"]
    specs = []
    for i in range(n):
        s = dict(name=f"f{i}", parent=None, kind="static", t=[0.0] * 3,
                 q=[1.0, 0.0, 0.0, 0.0])
        if i:
            s["parent"] = i - 1 if shape == "chain" else draw(
                st.integers(0, i - 1))
            s["kind"] = draw(st.sampled_from(kinds)) if i > 1 else "moving"
            s["t"] = draw(m.vec3)
            s["q"] = draw(m.quat)
            s["seed"] = draw(m.seeds)
            s["inverse"] = draw(st.sampled_from([False, False, True]))
        if i > 1 and s["kind"] == "static" and draw(st.integers(0, 3)) == 0:
            s["parent"] = specs[-1]["parent"] or s["parent"]
            s["q"] = m.alike(specs[-1]["q"], *draw(m.slight))
            s["inverse"] = specs[-1].get("inverse", False)
        if s["kind"] != "static":
            cut = draw(st.sampled_from([0, 0, 1, 2])), draw(
                st.sampled_from([0, 0, 1, 2]))
            s["ticks"] = grid[cut[0]:len(grid) - cut[1]]
            s["unit"] = draw(st.sampled_from(m.base_units(base)))
            s["wh"] = draw(st.integers(2, 30)) / 100
            # now and then hardly any motion between samples
            s["wh"] *= draw(st.sampled_from([1.0] * 5 + [1e-3, 1e-5]))
            s["sine"] = draw(st.booleans())
        specs.append(s)
    return dict(base=base, grid=grid, specs=specs)


def gap(case):
    """Largest sampling interval in seconds."""
    return float(np.max(np.diff(case["grid"]))) * m.tick_seconds(case["base"])


def analytic(case, spec, t):
    """Frame -> parent at times (seconds after tick 0)."""
    t = np.asarray(t, float)[:, None]
    T0, Q0 = np.array(spec["t"]), np.array(spec["q"])
    if spec["kind"] == "static":
        return np.tile(T0, (len(t), 1)), np.tile(Q0, (len(t), 1))
    r = m.rng(spec["seed"], 77)
    w = spec["wh"] / gap(case) * r.uniform(0.5, 1, 4)
    amp = r.uniform(0.3, 2, 3)
    ph = r.uniform(0, 2 * np.pi, 4)
    axis = m.unit(r.normal(size=3))
    T = T0 + amp * np.sin(w[:3] * t + ph[:3])
    th = np.sin(w[3] * t + ph[3]) if spec["sine"] else w[3] * t
    return T, m.qmul(Q0, m.qexp(th * axis))


def compose(case, a, b, t):
    """Frame a -> frame b at times."""
    specs = case["specs"]
    up, down = m.path(specs, a, b)
    v = np.zeros((len(t), 3))
    q = np.tile([1.0, 0, 0, 0], (len(t), 1))
    for i in up:
        T, Q = analytic(case, specs[i], t)
        v, q = m.qrot(Q, v) + T, m.qmul(Q, q)
    for i in down:
        T, Q = analytic(case, specs[i], t)
        v, q = m.qrot(m.qconj(Q), v - T), m.qmul(m.qconj(Q), q)
    return v, q


def seconds(case, ticks):
    return np.asarray(ticks) * m.tick_seconds(case["base"])


def _derivative(f, t, d):
    return (8 * (f(t + d) - f(t - d)) - (f(t + 2 * d) - f(t - 2 * d))) / (
        12 * d)


def twist(case, a, ref, rep, t):
    """True linear and angular velocity of a wrt ref in rep."""
    t = np.asarray(t, float)
    d = gap(case) / 20
    v = _derivative(lambda x: compose(case, a, ref, x)[0], t, d)
    dq = _derivative(lambda x: compose(case, a, ref, x)[1], t, d)
    _, q = compose(case, a, ref, t)
    w = 2 * m.qmul(dq, m.qconj(q))[:, 1:]
    _, r = compose(case, ref, rep, t)
    return m.qrot(r, v), m.qrot(r, w)


def h_min(t):
    return float(np.min(np.diff(t)))


def bounds(case, a, ref, t):
    """Discretisation error bounds (interior, ends) of linear and angular
    velocity for a second-order scheme over these times."""
    h = gap(case)
    d = h / 8
    fine = np.arange(t[0] - 3 * d, t[-1] + 4 * d, d)
    p, q = compose(case, a, ref, fine)

    def big(x, k):
        return 1.5 * np.max(np.linalg.norm(np.diff(x, k, axis=0), axis=1)
                            ) / d**k

    rel = m.rate_tol(case["base"], 1e-8)
    v, w = big(p, 1), 2 * big(q, 1)
    # rounding of the samples
    rv = rel * v + 1e-13 * (1 + np.max(np.abs(p))) / h_min(t)
    rw = rel * w + 1e-13 / h_min(t)
    return (
        (0.5 * h**2 * big(p, 3) + rv, h * big(p, 2) + rv),
        (h**2 * big(q, 3) + rw, 2 * h * big(q, 2) + rw),
    )


def ctor_args(case, spec):
    kw = {}
    if spec["kind"] == "static":
        T, Q = (x[0] for x in analytic(case, spec, [0.0]))
    else:
        T, Q = analytic(case, spec, seconds(case, spec["ticks"]))
        kw["timestamps"] = m.to_time(case["base"], spec["ticks"],
                                     spec["unit"])
    if spec.get("inverse"):
        Q = m.qconj(Q)
        T = -m.qrot(Q, T)
        kw["inverse"] = True
    return dict(translation=T * case.get("length", 1.0), rotation=Q, **kw)


def build(case):
    import rigid_body_motion as rbm

    out = []
    for s in case["specs"]:
        if s["parent"] is None:
            rf = rbm.ReferenceFrame(s["name"])
        else:
            rf = rbm.ReferenceFrame(s["name"], out[s["parent"]],
                                    **ctor_args(case, s))
        rf.register()
        out.append(rf)
    return out
