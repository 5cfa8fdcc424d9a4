"""Helpers shared by several checks."""

import numpy as np
from hypothesis import strategies as st

from lib import model as m
from lib.harness import close, ensure, equal, same_rotation


def compare(base, specs, a, b, k, t, r, ts, what, length=1.0):
    equal(m.from_time(base, ts), k, f"{what}: timestamps (ticks)")
    t_exp, q_exp = m.compose(specs, a, b, k)
    ensure(np.shape(t) == (len(k), 3), "%s: translation shape %s for %d "
           "timestamps", what, np.shape(t), len(k))
    ensure(np.shape(r) == (len(k), 4), "%s: rotation shape %s for %d "
           "timestamps", what, np.shape(r), len(k))
    if len(k):
        close(np.linalg.norm(r, axis=-1), np.ones(len(k)), 1e-8,
              f"{what}: norm of rotation")
    ok = ~np.isnan(q_exp).any(-1)
    same_rotation(np.asarray(r)[ok], q_exp[ok], 1e-8, f"{what}: rotation")
    ok &= ~np.isnan(t_exp).any(-1)
    close(np.asarray(t)[ok] / length, t_exp[ok], 1e-8, f"{what}: translation")
    return int(ok.sum())


def place(arr, axes, positions):
    """Move axes of arr to positions (both lists), like a relabelling."""
    return np.moveaxis(arr, axes, positions)


METHODS = {"points": 3, "vectors": 3, "quaternions": 4}


def transformed(what, t, q, arr):
    """Oracle for canonical arrays (..., 3 or 4); t, q broadcast from left.

    t, q have shape (3,)/(4,) or (n, 3)/(n, 4) with n matching axis 0 of arr.
    """
    extra = arr.ndim - 2
    if np.ndim(q) == 2:
        q = q.reshape(q.shape[:1] + (1,) * extra + (4,))
        t = t.reshape(t.shape[:1] + (1,) * extra + (3,))
    if what == "points":
        return m.qrot(q, arr) + t
    if what == "vectors":
        return m.qrot(q, arr)
    return m.qmul(q, arr)


def same_arrays(what, actual, expected, tol, axis, label=None):
    label = label or what
    actual, expected = np.asarray(actual), np.asarray(expected)
    nan = np.isnan(expected)
    if nan.any() and actual.shape == expected.shape:
        # missing samples stay missing, others aren't affected
        equal(np.argwhere(np.isnan(actual)), np.argwhere(nan),
              f"{label}: missing values")
        actual, expected = (np.where(nan, 0.5, x) for x in (actual, expected))
    if what == "quaternions":
        same_rotation(actual, expected, tol, label, axis=axis)
    else:
        close(actual, expected, tol, label)


def missing(seed, arr):
    """Array with some elements (along the last axis) missing."""
    r = m.rng(seed, 99)
    hole = r.random(arr.shape[:-1] + (1,)) < r.choice([0.1, 0.4])
    return np.where(hole, np.nan, arr)


# --- time series with drawn time and spatial axis ------------------------


def layout(arr, case):
    """Canonical (time, ..., xyz) array to drawn layout and keywords."""
    nd = arr.ndim
    if case["default"]:
        return arr, {}, lambda a: a
    ta, sa = case["time_axis"], case["axis"]
    # resolve to valid distinct axes
    ta = ta % nd
    sa = sa % nd
    if sa == ta:
        sa = (ta + 1) % nd
    neg = case["neg"]
    kw = dict(time_axis=ta - nd if neg[0] else ta,
              axis=sa - nd if neg[1] else sa)

    def back(a):
        return np.moveaxis(np.asarray(a), (ta, sa), (0, -1))

    return np.moveaxis(arr, (0, -1), (ta, sa)), kw, back


@st.composite
def layout_case(draw):
    return dict(
        other=draw(st.lists(st.integers(1, 3), max_size=2)),
        default=draw(st.integers(0, 2)) == 0,
        time_axis=draw(st.integers(0, 3)), axis=draw(st.integers(0, 3)),
        neg=draw(st.lists(st.booleans(), min_size=2, max_size=2)),
    )


@st.composite
def base_case(draw, lo=2, hi=12):
    base = draw(m.bases)
    case = draw(layout_case())
    case.update(
        base=base, unit=draw(st.sampled_from(m.base_units(base))),
        ticks=draw(m.tick_list(0, 60, lo, hi)), seed=draw(m.seeds),
    )
    return case


@st.composite
def jittered(draw, ticks, spread=200):
    """Spread ticks, mostly with a jitter that is small for the spacing."""
    if draw(st.integers(0, 2)):
        return ticks
    jitter = draw(st.lists(st.integers(0, draw(st.sampled_from([1, 3, 20]))),
                           min_size=len(ticks), max_size=len(ticks)))
    return [spread * k + j for k, j in zip(ticks, jitter)]


@st.composite
def even_ticks(draw, lo=8, hi=40, irregular=2):
    """Ticks starting at 0 with spacing 2 or drawn from 1..1+irregular."""
    n = draw(st.integers(lo, hi))
    if hi > 12 and draw(st.integers(0, 31)) == 0:
        n = draw(st.sampled_from([100, 260, 520]))
        r = m.rng(draw(m.seeds), 98)
        return [0] + [int(x) for x in np.cumsum(
            r.integers(1, 2 + irregular, n - 1))]
    if draw(st.booleans()):
        return list(range(0, 2 * n, 2))
    steps = draw(st.lists(st.integers(1, 1 + irregular), min_size=n - 1,
                          max_size=n - 1))
    return [0] + [int(x) for x in np.cumsum(steps)]


def plain(out, what):
    """Unlabelled input gives unlabelled output."""
    from lib.harness import ensure

    for o in out if isinstance(out, tuple) else (out,):
        ensure(not hasattr(o, "dims"), "%s: %s for plain arrays", what,
               type(o).__name__)
