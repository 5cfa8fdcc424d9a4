"""C11: angular velocity is the body-frame rate of the rotation."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.common import base_case, even_ticks, jittered, layout
from lib.harness import close, ensure, facet

PROPERTY = "C11"
RULE = (
    "Rotations at constant rate, products of two rotations with independent "
    "(constant or sinusoidal) rates about different axes and rotations about "
    "one axis, sampled at regular/irregular numeric and datetime timestamps "
    "with 0.5 to 30 degrees per sample or a thousandth of it, NaN gaps, one to four dimensions and "
    "time/quaternion axis anywhere; records of up to 2000 samples with a "
    "long rest. Oracle: analytic body-frame rate with "
    "the truncation error of a second-order scheme; left invariance, sign, "
    "time unit/shift, layout and single-series relations. Non-trivial: rate "
    "non-zero and at least 5 samples."
)


@st.composite
def motion(draw, lo=6, hi=40):
    case = draw(base_case(3, 4))
    case["ticks"] = draw(jittered(draw(even_ticks(lo, hi))))
    case["wh"] = draw(st.integers(1, 50)) / 100
    case["wh"] *= draw(st.sampled_from([1.0] * 6 + [1e-3]))
    case["sine"] = draw(st.booleans())
    case["q0"] = draw(m.quat)
    return case


def times(case):
    return np.array(case["ticks"]) * m.tick_seconds(case["base"])


def column(t, shape):
    return t.reshape((len(t),) + (1,) * len(shape))


def estimate(case, q, ticks=None, base=None, raw=False, **more):
    base = base or case["base"]
    a, kw, back = layout(q, case)
    ts = m.to_time(base, ticks or case["ticks"],
                   case["unit"] if base == case["base"] else None)
    out = rbm.estimate_angular_velocity(a, timestamps=ts, **kw, **more)
    exp = list(a.shape)
    exp[kw.get("axis", -1)] = 3
    ensure(np.shape(out) == tuple(exp), "shape %s for input %s",
           np.shape(out), a.shape)
    return back(out)


def scheme_bound(case, w, h):
    """(interior, end) absolute errors of a second-order scheme."""
    wh = w * h
    floor = w * m.rate_tol(case["base"], 1e-9)
    return 0.2 * wh**2 * w + floor, 0.6 * wh * w + floor


def check_rate(case, est, true, w, h, what):
    inner, end = scheme_bound(case, w, h)
    err = np.sqrt(np.sum((est - true) ** 2, axis=-1))
    inside = err[1:-1]
    ensure(np.all(inside <= inner), "%s: error %g rad/s inside, bound %g "
           "(rate %g)", what, float(np.nanmax(inside)), inner, w)
    ensure(np.all(err <= end), "%s: error %g rad/s at the ends, bound %g "
           "(rate %g)", what, float(np.nanmax(err)), end, w)


def constant_rate(case, t, h):
    shape = tuple(case["other"])
    w = m.bulk_unit(case["seed"], shape + (3,), 1) * case["wh"] / h
    q0 = m.bulk_unit(case["seed"], shape + (4,), 2)
    return m.qmul(q0, m.qexp(column(t - t[0], w.shape) * w)), w


def labels(case, rec):
    rec.label("irregular", len(set(np.diff(case["ticks"]))) > 1)
    rec.label("ndim>=3", len(case["other"]) > 0)
    rec.label("datetime", case["base"] in ("ns", "ms", "s"))
    rec.label("own layout", not case["default"])
    rec.label("slow", case["wh"] < 1e-2)


@facet(motion(), quick=2000)
def constant(case, rec):
    t = times(case)
    h = np.max(np.diff(t))
    q, w = constant_rate(case, t, h)
    rec.note()
    labels(case, rec)
    est = estimate(case, q)
    wabs = case["wh"] / h
    # the rate is constant, hence second order at the ends as well
    inner, _ = scheme_bound(case, wabs, h)
    err = np.abs(est - w)
    ensure(np.all(err <= inner), "error %g rad/s, bound %g (rate %g)",
           float(np.nanmax(err)), inner, wabs)


@facet(st.fixed_dictionaries(dict(
    base=m.bases, seed=m.seeds, n=st.integers(300, 2000),
    wait=st.booleans())), quick=100, shards=2)
def long(case, rec):
    """Long records of a constant rate, now and then with a long rest."""
    r = m.rng(case["seed"], 5)
    steps = r.integers(1, 5, case["n"])
    ticks = np.cumsum(steps)
    h = 4 * m.tick_seconds(case["base"])
    w = m.unit(r.normal(size=3)) * r.uniform(0.02, 0.3)
    q = m.qexp(w / h * (ticks * m.tick_seconds(case["base"]))[:, None])
    at = case["n"] // 2
    if case["wait"]:
        # the rotation goes on where it was
        ticks[at:] += int(r.choice([1000, 100000, 30000000]))
    est = rbm.estimate_angular_velocity(
        q, timestamps=m.to_time(case["base"], ticks.tolist()))
    rec.note()
    rec.label("more than 1000", case["n"] > 1000)
    rec.label("rest", case["wait"])
    away = np.ones(case["n"], bool)
    if case["wait"]:
        away[at - 4:at + 4] = False
    close(est[away] * h, np.broadcast_to(w, est[away].shape),
          0.02 * np.linalg.norm(w) + m.rate_tol(case["base"], 1e-9),
          "constant rate")


def two_factor(case, t, h):
    """q = q1(t) q2(t) with body rate R(q2)^-1 w1 + w2."""
    shape = tuple(case["other"])
    a1 = m.bulk_unit(case["seed"], shape + (3,), 1)
    a2 = m.bulk_unit(case["seed"], shape + (3,), 2)
    w = case["wh"] / h / 2
    tc = column(t - t[0], a1.shape)
    if case["sine"]:
        th1, r1 = np.sin(w * tc + 0.3), w * np.cos(w * tc + 0.3)
    else:
        th1, r1 = w * tc, w * np.ones_like(tc)
    q2 = m.qexp(w * tc * a2)
    q = m.qmul(m.qexp(th1 * a1), q2)
    return q, m.qrot(m.qconj(q2), r1 * a1) + w * a2


@facet(motion(), quick=2000)
def smooth(case, rec):
    t = times(case)
    h = np.max(np.diff(t))
    q, true = two_factor(case, t, h)
    rec.note()
    labels(case, rec)
    check_rate(case, estimate(case, q), true, case["wh"] / h, h, "smooth")


@facet(motion(8, 30), quick=600)
def refine(case, rec):
    """Sampling four times as densely reduces the error."""
    case = dict(case, base="num1", unit=None, default=True)
    n = len(case["ticks"])
    h = 1.0
    t = np.arange(n) * h
    q, true = two_factor(case, t, h)
    fine = np.arange(4 * (n - 1) + 1) * h / 4
    qf, truef = two_factor(case, fine, h)
    coarse_e = np.abs(rbm.estimate_angular_velocity(q, timestamps=t) - true)
    fine_e = np.abs(
        rbm.estimate_angular_velocity(qf, timestamps=fine) - truef)[::4]
    a, b = coarse_e[1:-1].max(), fine_e[1:-1].max()
    rec.note(a > 1e-6)
    ensure(b <= max(0.25 * a, 1e-9), "interior error %g, %g when sampled "
           "four times as densely", float(a), float(b))


@facet(motion(6, 14), quick=1500)
def relations(case, rec):
    t = times(case)
    h = np.max(np.diff(t))
    q, _ = two_factor(case, t, h)
    s = case["wh"] / h
    rec.note()
    labels(case, rec)
    tol = m.rate_tol(case["base"], 1e-9)
    est = estimate(case, q) / s
    close(estimate(case, m.qmul(np.array(case["q0"]), q)) / s, est, 1e-8,
          "constant rotation from the left")
    close(estimate(case, -q) / s, est, 1e-9, "sign of quaternions")
    # rotation from the right changes the body frame
    q0 = np.array(case["q0"])
    close(estimate(case, m.qmul(q, q0)) / s, m.qrot(m.qconj(q0), est), 1e-8,
          "constant rotation from the right")
    ts = m.to_time(case["base"], case["ticks"], case["unit"])
    close(rbm.estimate_angular_velocity(q, timestamps=ts) / s, est, 1e-9,
          "axes")
    shifted = [k + 16 for k in case["ticks"]]
    close(estimate(case, q, shifted) / s, est, 1e2 * tol, "time shift")
    # other time unit
    for ob in ("num1", "ms", "neg"):
        ratio = m.tick_seconds(case["base"]) / m.tick_seconds(ob)
        close(estimate(case, q, base=ob) / (s * ratio), est,
              1e2 * max(tol, m.rate_tol(ob, 1e-9)), f"time base {ob}")
    # each series on its own
    flat = q.reshape(len(t), -1, 4)
    full = est.reshape(len(t), -1, 3)
    for i in range(flat.shape[1]):
        one = rbm.estimate_angular_velocity(flat[:, i], timestamps=ts)
        close(full[:, i], one / s, 1e-9, "single series")


@st.composite
def nan_case(draw):
    case = draw(motion(10, 30))
    n = len(case["ticks"])
    if draw(st.integers(0, 3)):
        case["nan"] = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1,
                                          max_size=3)))
    else:
        # all but one part is missing
        k = draw(st.integers(5, n - 1))
        start = draw(st.integers(0, n - k))
        case["nan"] = [i for i in range(n) if not start <= i < start + k]
    case["part"] = draw(st.booleans())
    return case


@facet(nan_case(), quick=1200)
def missing(case, rec):
    t = times(case)
    ok = np.ones(len(t), bool)
    ok[case["nan"]] = False
    h = np.max(np.diff(t[ok]))
    q, true = two_factor(case, t, h)
    q = q.copy()
    if case["part"]:
        q[~ok, ..., 1] = np.nan
    else:
        q[~ok] = np.nan
    rec.note()
    rec.label("nan at the ends", not (ok[0] and ok[-1]))
    est = estimate(case, q)
    ensure(np.all(np.isnan(est[~ok])), "no NaN where the rotation is NaN")
    ensure(not np.any(np.isnan(est[ok])), "NaN where the rotation is valid")
    check_rate(case, est[ok], true[ok], case["wh"] / h, h, "around NaN")


@facet(motion(6, 40), quick=1200)
def rotation_vector(case, rec):
    """Rotations about a fixed axis by less than pi."""
    t = times(case)
    h = np.max(np.diff(t))
    shape = tuple(case["other"])
    axis = m.bulk_unit(case["seed"], shape + (3,), 1)
    w = case["wh"] / h
    amp = m.rng(case["seed"], 5).uniform(0.3, 2.8)
    tc = column(t - t[0], axis.shape)
    th = amp * np.sin(w * tc + 0.4)
    rate = amp * w * np.cos(w * tc + 0.4)
    q = m.qexp(th * axis)
    rec.note()
    labels(case, rec)
    rv = estimate(case, q, mode="rotation_vector")
    # q and -q are the same rotation; |angle| < pi selects the vector
    a = estimate(case, q)
    # magnitude of the derivatives of the angle: amp * w^k
    wb = max(amp, 1) * w
    check_rate(case, rv, rate * axis, wb, h, "rotation vector mode")
    inner, end = scheme_bound(case, wb, h)
    err = np.sqrt(np.sum((rv - a) ** 2, axis=-1))
    ensure(np.all(err[1:-1] <= 2 * inner) and np.all(err <= 2 * end),
           "modes differ by %g rad/s", float(np.max(err)))


@facet(motion(6, 12), quick=300, shards=2)
def rejected(case, rec):
    """Unknown modes are errors."""
    t = times(case)
    q, _ = two_factor(case, t, np.max(np.diff(t)))
    rec.note()
    try:
        rbm.estimate_angular_velocity(
            q, timestamps=m.to_time(case["base"], case["ticks"]),
            mode="quaternions")
    except ValueError:
        return
    ensure(False, "unknown mode accepted")
