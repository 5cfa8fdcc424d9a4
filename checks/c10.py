"""C10: linear velocity is the time derivative of position."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.common import base_case, jittered, layout
from lib.harness import close, ensure, facet

PROPERTY = "C10"
RULE = (
    "Motions with constant velocity, sums of sines and arbitrary samples over "
    "regular, irregular and jittered numeric and datetime timestamps, arrays "
    "with one to four dimensions and time/spatial axis anywhere; long "
    "records of up to 3000 samples. Oracles: exactness for "
    "constant velocity, rigorous truncation bound with analytic derivatives "
    "for smooth motion, linearity, offset, time shift, unit and layout "
    "relations. Non-trivial: at least 3 samples and a non-zero velocity."
)


@st.composite
def uneven_case(draw, *args):
    case = draw(base_case(*args))
    case["ticks"] = draw(jittered(case["ticks"]))
    case["length"] = draw(m.lengths)
    return case


def estimate(case, arr, ticks=None, base=None, **more):
    base = base or case["base"]
    u = case.get("length", 1.0)
    a, kw, back = layout(arr * u, case)
    out = rbm.estimate_linear_velocity(
        a, timestamps=m.to_time(base, ticks or case["ticks"],
                                case["unit"] if base == case["base"]
                                else None),
        **kw, **more)
    ensure(np.shape(out) == a.shape, "shape %s for input %s", np.shape(out),
           a.shape)
    return back(out) / u


@facet(uneven_case(), quick=2500)
def constant(case, rec):
    n = len(case["ticks"])
    t = np.array(case["ticks"]) * m.tick_seconds(case["base"])
    shape = tuple(case["other"]) + (3,)
    v = m.bulk(case["seed"], shape, 1)
    p0 = m.bulk(case["seed"], shape, 2)
    p = p0 + t.reshape((n,) + (1,) * len(shape)) * v
    rec.note(n >= 3 and np.any(v))
    rec.label("irregular", len(set(np.diff(case["ticks"]))) > 1)
    rec.label("ndim>=3", len(shape) > 1)
    rec.label("small or large", case["length"] != 1)
    rec.label("datetime", case["base"] in ("ns", "ms", "s"))
    close(estimate(case, p), np.broadcast_to(v, p.shape),
          m.rate_tol(case["base"]), "constant velocity")


@facet(st.fixed_dictionaries(dict(
    base=m.bases, seed=m.seeds, n=st.integers(300, 3000),
    wide=st.booleans())), quick=100, shards=2)
def long(case, rec):
    """Long records with uneven sampling, now and then with a long gap."""
    r = m.rng(case["seed"], 5)
    steps = r.integers(1, 9, case["n"])
    if case["wide"]:
        steps[r.integers(0, case["n"])] = 5000
    ticks = np.cumsum(steps)
    ts = m.to_time(case["base"], ticks.tolist())
    t = ticks * m.tick_seconds(case["base"])
    v = r.normal(size=3)
    p = r.normal(size=3) + t[:, None] * v
    rec.note()
    rec.label("more than 1000", case["n"] > 1000)
    scale = max(1.0, np.abs(t).max())
    est = rbm.estimate_linear_velocity(p, timestamps=ts)
    close(est, np.broadcast_to(v, p.shape),
          m.rate_tol(case["base"], 1e-9 * scale), "constant velocity")


@st.composite
def smooth_case(draw):
    case = draw(base_case(3, 4))
    n = draw(st.integers(8, 40))
    if draw(st.booleans()):
        case["ticks"] = list(range(0, 2 * n, 2))
    else:
        steps = draw(st.lists(st.integers(1, 3), min_size=n - 1,
                              max_size=n - 1))
        case["ticks"] = [0] + [int(x) for x in np.cumsum(steps)]
    # angular frequency relative to the sampling: omega * h
    case["omega"] = draw(st.integers(1, 30)) / 100
    return case


@facet(smooth_case(), quick=2500)
def smooth(case, rec):
    n = len(case["ticks"])
    dt = m.tick_seconds(case["base"])
    t = np.array(case["ticks"]) * dt
    h = np.max(np.diff(t))
    shape = tuple(case["other"]) + (3,)
    r = m.rng(case["seed"], 3)
    w = case["omega"] / (2 * dt) * r.uniform(0.5, 1, shape)
    a = r.uniform(0.5, 2, shape)
    ph = r.uniform(0, 2 * np.pi, shape)
    tt = t.reshape((n,) + (1,) * len(shape))
    p = a * np.sin(w * tt + ph)
    v = a * w * np.cos(w * tt + ph)
    rec.note()
    rec.label("irregular", len(set(np.diff(case["ticks"]))) > 1)
    est = estimate(case, p)
    err = np.abs(est - v)
    # second-order scheme at interior samples; first order at the ends
    floor = m.rate_tol(case["base"], 1e-8) * np.max(a * w)
    bound = 0.5 * h**2 * a * w**3 + floor
    bad = err[1:-1] > bound
    ensure(not bad.any(), "interior error %g exceeds second-order bound %g",
           float(err[1:-1].max()), float(np.min(np.broadcast_to(
               bound, err[1:-1].shape)[bad])) if bad.any() else 0)
    bad = err[[0, -1]] > h * a * w**2 + floor
    ensure(not bad.any(), "error at the ends %s", err[[0, -1]].max())


@st.composite
def any_case(draw):
    case = draw(uneven_case(3, 10))
    case["other_base"] = draw(m.bases)
    case["offset"] = draw(m.vec3)
    case["shift"] = draw(st.integers(0, 1000))
    case["factors"] = draw(st.lists(st.integers(-20, 20).map(
        lambda i: i / 4), min_size=2, max_size=2))
    return case


@facet(any_case(), quick=2500)
def relations(case, rec):
    n = len(case["ticks"])
    shape = (n,) + tuple(case["other"]) + (3,)
    x = m.bulk(case["seed"], shape, 1)
    y = m.bulk(case["seed"], shape, 2)
    rec.note(np.any(x))
    ex = estimate(case, x)
    ey = estimate(case, y)
    scale = max(1.0, np.abs(ex).max(), np.abs(ey).max())
    f, g = case["factors"]
    close(estimate(case, f * x + g * y) / scale, (f * ex + g * ey) / scale,
          1e-9, "linear combination")
    close(estimate(case, x + np.array(case["offset"])) / scale, ex / scale,
          1e-9, "constant offset")
    shifted = [k + case["shift"] for k in case["ticks"]]
    tol = m.rate_tol(case["base"])
    close(estimate(case, x, shifted) / scale, ex / scale, tol, "time shift")
    # different time base: same ticks, velocity scales with tick length
    ob = case["other_base"]
    ratio = m.tick_seconds(case["base"]) / m.tick_seconds(ob)
    other = estimate(case, x, base=ob)
    s = np.abs(other).max() + 1e-12
    close(other / s, ex * ratio / s, max(tol, m.rate_tol(ob)),
          "time unit")
    # default layout
    plain = rbm.estimate_linear_velocity(
        x, timestamps=m.to_time(case["base"], case["ticks"], case["unit"]))
    close(plain / scale, ex / scale, 1e-9, "axes")
    # reversing time flips the velocity
    hi = case["ticks"][-1]
    rev = estimate(case, x[::-1], [hi - k for k in case["ticks"]][::-1])
    close(rev[::-1] / scale, -ex / scale, tol, "time reversal")


@st.composite
def one_dim(draw):
    case = draw(base_case(2, 10))
    case["num"] = draw(m.numbers)
    return case


@facet(one_dim(), quick=400, shards=4)
def translation_of_points(case, rec):
    """Estimates are element-wise: each series on its own gives the same."""
    n = len(case["ticks"])
    shape = (n,) + tuple(case["other"]) + (3,)
    x = m.bulk(case["seed"], shape, 1)
    full = estimate(case, x)
    rec.note(x.ndim > 2 and n >= 3)
    ts = m.to_time(case["base"], case["ticks"], case["unit"])
    flat = x.reshape(n, -1, 3)
    for i in range(flat.shape[1]):
        one = rbm.estimate_linear_velocity(flat[:, i], timestamps=ts)
        s = max(1.0, np.abs(one).max())
        close(full.reshape(n, -1, 3)[:, i] / s, one / s, 1e-9,
              "single series")
