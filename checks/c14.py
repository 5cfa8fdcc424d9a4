"""C14: outlier suppression and low-pass filter remove only what they should.
"""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.common import even_ticks
from lib.harness import close, ensure, equal, facet

PROPERTY = "C14"
RULE = (
    "Smooth translations and fixed-axis rotations with 0 to 3 isolated jumps "
    "at any interval but the last, thresholds between smooth and jump "
    "second differences, or zero for motion along a line; velocities composed of a constant, slow and fast "
    "oscillations with cutoffs 0.1-0.5; estimators and frame lookups, either "
    "axis order. Oracle: analytic velocity with interpolation bound over the "
    "suppressed samples; unfiltered estimate of the passed component; "
    "linearity; estimates without the options. Non-trivial: a jump is "
    "present, or the filter removes something."
)


@st.composite
def axes(draw):
    return draw(st.sampled_from([
        {}, {}, dict(axis=1, time_axis=0), dict(axis=0, time_axis=1),
        dict(axis=-2, time_axis=-1)]))


def estimator(kind):
    return getattr(rbm, f"estimate_{kind}_velocity")


def estimate(case, kind, arr, ts, **kw):
    """(n, k) array in the drawn axis order, result as (n, 3)."""
    ax = case["axes"]
    flip = ax.get("axis", -1) in (0, -2)
    out = estimator(kind)(arr.T if flip else arr, timestamps=ts, **ax, **kw)
    out = np.asarray(out)
    out = out.T if flip else out
    ensure(out.shape == (len(arr), 3), "shape %s", out.shape)
    return out


@st.composite
def jump_case(draw):
    base = draw(m.bases)
    ticks = draw(even_ticks(14, 40))
    n = len(ticks)
    jumps = sorted(draw(st.sets(st.integers(1, n - 2), max_size=3)))
    jumps = [j for i, j in enumerate(jumps)
             if i == 0 or j - jumps[i - 1] >= 6]
    return dict(
        base=base, unit=draw(st.sampled_from(m.base_units(base))),
        ticks=ticks, jumps=jumps, wh=draw(st.integers(1, 10)) / 100,
        size=draw(st.integers(40, 400)) / 10, seed=draw(m.seeds),
        kind=draw(st.sampled_from(["linear", "angular"])),
        axes=draw(axes()), lookup=draw(st.integers(0, 3)) == 0,
        cutoff=draw(st.integers(20, 80)) / 100,
    )


def second_differences(x):
    return np.linalg.norm(np.diff(x, 2, axis=0), axis=-1)


@facet(jump_case(), quick=2500)
def jumps(case, rec):
    dt = m.tick_seconds(case["base"])
    t = np.array(case["ticks"]) * dt
    n = len(t)
    h = np.max(np.diff(t))
    r = m.rng(case["seed"], 1)
    linear = case["kind"] == "linear"
    if linear:
        w = case["wh"] / h * r.uniform(0.3, 1, 3)
        amp = r.uniform(0.3, 2, 3)
        ph = r.uniform(0, 6.28, 3)
        pos = amp * np.sin(w * t[:, None] + ph)
        vel = amp * w * np.cos(w * t[:, None] + ph)
        deriv = [np.sqrt(np.sum((amp * w**k) ** 2)) for k in (0, 1, 2, 3)]
    else:
        axis = m.unit(r.normal(size=3))
        w, amp, ph = case["wh"] / h * r.uniform(0.3, 1), 0.4, r.uniform(0, 6)
        pos = (amp * np.sin(w * t + ph))[:, None] * axis
        vel = (amp * w * np.cos(w * t + ph))[:, None] * axis
        deriv = [amp * w**k for k in (0, 1, 2, 3)]
    d2 = second_differences(pos).max()
    # the library adds adjacent second differences, hence twice the largest
    thresh = 2.2 * d2 + 1e-9
    jumped = pos.copy()
    for i, j in enumerate(case["jumps"]):
        if linear:
            direction = m.unit(r.normal(size=3))
            jumped[j:] += direction * thresh * (1.6 + case["size"] * 0.1)
        else:
            size = min(max(thresh * case["size"] * 0.05, thresh * 2), 0.8)
            if size < 1.7 * thresh:
                return
            jumped[j:] += axis * size * (-1) ** i
    ts = m.to_time(case["base"], case["ticks"], case["unit"])
    arr = jumped if linear else m.qexp(jumped)
    kw = {} if linear else {"mode": "rotation_vector"}
    rec.note(len(case["jumps"]) > 0)
    rec.label(case["kind"])
    rec.label("several jumps", len(case["jumps"]) > 1)
    rec.label("first interval", 1 in case["jumps"])
    rec.label("time last", case["axes"].get("axis") in (0, -2))
    est = estimate(case, case["kind"], arr, ts, outlier_thresh=thresh, **kw)
    near = np.zeros(n, bool)
    for j in case["jumps"]:
        near[max(j - 2, 0):j + 1] = True
    nan = np.isnan(est).any(axis=1)
    ensure(not np.any(nan & ~near), "NaN away from jumps at %s, jumps %s",
           np.nonzero(nan)[0], case["jumps"])
    inside = np.nonzero(~nan)[0]
    ensure(not nan[inside[0]:inside[-1]].any(), "NaN inside the series")
    # suppressed samples are interpolated over up to four intervals
    g = 4 * h if case["jumps"] else 0.0
    rel = m.rate_tol(case["base"], 1e-8) * deriv[1]
    bound = (0.5 * h**2 + g**2 / 8) * deriv[3] + rel
    bound = np.full(n, bound)
    bound[:6] += h * deriv[2]
    bound[-6:] += h * deriv[2]
    err = np.linalg.norm(est - vel, axis=1)
    bad = ~nan & (err > bound)
    ensure(not bad.any(), "velocity wrong by %g near sample %s (bound %g, "
           "jumps %s)", float(err[bad].max()) if bad.any() else 0,
           np.nonzero(bad)[0][:3], float(bound.min()), case["jumps"])
    # without the option jumps show
    opts = dict(outlier_thresh=thresh)
    if n > 30 and not nan.any():
        # outliers are suppressed before filtering; the filter passes on at
        # most a few times what is left of the error
        rec.label("filtered, too")
        opts["cutoff"] = case["cutoff"]
        smooth = estimate(case, case["kind"], pos if linear else m.qexp(pos),
                          ts, **kw)
        clean = estimate(case, case["kind"], pos if linear else m.qexp(pos),
                         ts, cutoff=case["cutoff"], **kw)
        left = np.abs(est - smooth).max()
        est = estimate(case, case["kind"], arr, ts, **opts, **kw)
        diff = np.abs(est - clean).max()
        s = np.abs(smooth).max()
        ensure(diff <= 8 * left + 1e-6 * s, "suppressed and filtered differs "
               "by %g from the smooth motion filtered (%g unfiltered)",
               float(diff), float(left))
    if case["lookup"]:
        check_lookup(case, arr, ts, est, opts, kw)


def same(got, est, s):
    """Equal where defined, undefined elsewhere."""
    ensure(got.shape == est.shape, "lookup shape %s", got.shape)
    nan, was = (np.isnan(x).any(axis=1) for x in (got, est))
    equal(np.nonzero(nan)[0], np.nonzero(was)[0], "NaN of lookup")
    close(got[~nan] / s, est[~nan] / s, 1e-8, "lookup")


def check_lookup(case, arr, ts, est, opts, kw):
    """Frame lookups accept the same options."""
    n = len(ts)
    linear = case["kind"] == "linear"
    rbm.register_frame("world")
    rbm.register_frame(
        "body", parent="world", timestamps=ts,
        translation=arr if linear else np.zeros((n, 3)),
        rotation=np.tile([1.0, 0, 0, 0], (n, 1)) if linear else arr)
    s = max(1.0, np.nanmax(np.abs(est)))
    if linear:
        for got in (
            rbm.lookup_linear_velocity("body", "world", **opts),
            rbm.registry["body"].lookup_linear_velocity(**opts),
            rbm.lookup_twist("body", "world", **opts)[0],
            rbm.registry["body"].lookup_twist(**opts)[0],
            rbm.transform_linear_velocity(
                np.zeros(3), into="world", outof="body",
                what="reference_frame", moving_frame="body", **opts),
            -rbm.lookup_linear_velocity("world", "body", **opts),
        ):
            same(got, est, s)
    else:
        for got in (
            rbm.lookup_angular_velocity("body", "world", represent_in="body",
                                        **opts, **kw),
            rbm.registry["body"].lookup_angular_velocity(
                "world", "body", **opts, **kw),
        ):
            same(got, est, s)


@st.composite
def high_case(draw):
    base = draw(m.bases)
    return dict(
        base=base, unit=draw(st.sampled_from(m.base_units(base))),
        ticks=draw(m.tick_list(0, 60, 5, 14)), seed=draw(m.seeds),
        kind=draw(st.sampled_from(["linear", "angular", "rotation_vector"])),
        axes=draw(axes()), exact=draw(st.booleans()),
    )


@facet(high_case(), quick=1200)
def high_threshold(case, rec):
    """A threshold above (or at) all second differences changes nothing."""
    n = len(case["ticks"])
    ts = m.to_time(case["base"], case["ticks"], case["unit"])
    kw = {}
    if case["kind"] == "linear":
        arr = m.bulk(case["seed"], (n, 3), 1)
        big = second_differences(arr).max()
    else:
        rv = m.bulk(case["seed"], (n, 3), 2, scale=1.0)
        arr = m.qexp(rv)
        big = second_differences(rv).max()
        if case["kind"] == "rotation_vector":
            kw["mode"] = "rotation_vector"
    thresh = big * (1 + 1e-6 if case["exact"] else 3) + 1e-9
    # the library adds adjacent second differences
    thresh *= 2
    kind = "linear" if case["kind"] == "linear" else "angular"
    rec.note(n >= 5 and big > 0)
    plain = estimate(case, kind, arr, ts, **kw)
    got = estimate(case, kind, arr, ts, outlier_thresh=thresh, **kw)
    s = max(1.0, np.abs(plain).max())
    close(got / s, plain / s, 1e-9, "estimate with high threshold")


@st.composite
def exact_case(draw):
    n = draw(st.integers(14, 40))
    return dict(
        n=n, base=draw(st.sampled_from(["num1", "int", "s"])),
        jumps=draw(st.sets(st.integers(1, n - 2), min_size=1,
                           max_size=3).map(sorted)),
        spike=draw(st.booleans()), seed=draw(m.seeds), axes=draw(axes()),
        kind=draw(st.sampled_from(["linear", "angular"])))


@facet(exact_case(), quick=400, shards=4)
def zero_threshold(case, rec):
    """With a threshold of zero any deviation is an outlier."""
    n, kind = case["n"], case["kind"]
    t = np.arange(n) * m.tick_seconds(case["base"])
    r = m.rng(case["seed"], 3)
    x = np.zeros((n, 3))
    slope = np.zeros(3)
    if kind == "linear":
        # whole numbers, hence exact differences
        slope = r.integers(-5, 6, 3).astype(float)
        x = r.integers(-9, 10, 3) + np.arange(n)[:, None] * slope
    near = np.zeros(n, bool)
    jumps = sorted(case["jumps"])
    jumps = [j for i, j in enumerate(jumps)
             if i == 0 or j - jumps[i - 1] >= 8]
    for j in jumps:
        d = r.integers(1, 4, 3) * (0.25 if kind == "angular" else 1)
        if case["spike"]:
            x[j] += d
        else:
            x[j:] += d * (-1) ** j
        near[max(j - 2, 0):j + 3] = True
        if kind == "angular" and not case["spike"]:
            # one jump only, differences of rotation vectors would round
            break
    rec.note()
    rec.label(kind)
    kw = {} if kind == "linear" else {"mode": "rotation_vector"}
    arr = x if kind == "linear" else m.qexp(x)
    est = estimate(case, kind, arr, m.to_time(case["base"], range(n)),
                   outlier_thresh=0, **kw)
    nan = np.isnan(est).any(axis=1)
    ensure(not np.any(nan & ~near), "NaN away from jumps")
    exp = slope / (t[1] - t[0])
    # differences in the last interval aren't seen
    ok = ~nan & ~(near & (np.arange(n) >= n - 4))
    close(est[ok] / (1 + np.abs(exp)), np.broadcast_to(
        exp / (1 + np.abs(exp)), est[ok].shape),
        m.rate_tol(case["base"]), "velocity without outliers")


@st.composite
def filter_case(draw):
    base = draw(st.sampled_from(["num", "num1", "neg", "s", "ms", "int"]))
    return dict(
        base=base, unit=draw(st.sampled_from(m.base_units(base))),
        n=draw(st.integers(150, 260)), cutoff=draw(st.integers(10, 50)) / 100,
        slow=draw(st.integers(5, 50)) / 100,
        fast=draw(st.integers(200, 400)) / 100,
        seed=draw(m.seeds), axes=draw(axes()),
        kind=draw(st.sampled_from(["linear", "angular", "rotation_vector"])),
        lookup=draw(st.integers(0, 3)) == 0,
    )


@facet(filter_case(), quick=900)
def low_pass(case, rec):
    n, c = case["n"], case["cutoff"]
    dt = m.tick_seconds(case["base"])
    ticks = list(range(n))
    t = np.arange(n) * dt
    ts = m.to_time(case["base"], ticks, case["unit"])
    r = m.rng(case["seed"], 1)
    fast = c * case["fast"]
    if fast > 0.9:
        fast = None
    ws = np.pi * c * case["slow"] / dt
    ph = r.uniform(0, 6.28, 4)

    def position(scale):
        """Parts of the angle/position along one direction."""
        const = 0.3 * t / t[-1]
        slow = scale * np.sin(ws * t + ph[0])
        quick = 0 * t
        if fast is not None:
            quick = scale * case["slow"] / case["fast"] * np.sin(
                np.pi * fast / dt * t + ph[1])
        return const, slow, quick

    direction = m.unit(r.normal(size=3))
    const, slow, quick = position(0.5)
    angular = case["kind"] != "linear"
    kw = {"mode": "rotation_vector"} if case["kind"] == (
        "rotation_vector") else {}
    kind = "angular" if angular else "linear"

    def make(x):
        p = x[:, None] * direction
        return m.qexp(p) if angular else p

    rec.note()
    rec.label(case["kind"])
    rec.label("fast component", fast is not None)
    ref = estimate(case, kind, make(const), ts, **kw)
    got = estimate(case, kind, make(const), ts, cutoff=c, **kw)
    s = np.abs(ref).max()
    tol = m.rate_tol(case["base"], 1e-5)
    close(got / s, ref / s, tol, "constant velocity filtered")
    # pass: unchanged apart from the ends; attenuate
    k = min(int(8 / c), n // 3)
    mid = slice(k, n - k)
    ref = estimate(case, kind, make(const + slow), ts, **kw)
    got = estimate(case, kind, make(const + slow), ts, cutoff=c, **kw)
    s = np.abs(ref).max()
    close(got[mid] / s, ref[mid] / s, 0.02 + tol,
          "slow component filtered")
    if fast is not None:
        both = make(const + slow + quick)
        plain = estimate(case, kind, both, ts, **kw)
        est = estimate(case, kind, both, ts, cutoff=c, **kw)
        diff = np.abs((est - got)[mid]).max()
        was = np.abs((plain - ref)[mid]).max()
        # without the filter the fast component is far larger
        ensure(diff <= 0.12 * was + tol * s, "fast component %g of %g left",
               float(diff), float(was))
    if case["lookup"]:
        filter_lookup(case, make(const + slow + quick), ts, kw)


def filter_lookup(case, arr, ts, kw):
    n = len(ts)
    angular = case["kind"] != "linear"
    rbm.register_frame("world")
    rbm.register_frame(
        "body", parent="world", timestamps=ts,
        translation=np.zeros((n, 3)) if angular else arr,
        rotation=arr if angular else np.tile([1.0, 0, 0, 0], (n, 1)))
    c = case["cutoff"]
    est = estimate(dict(case, axes={}), "angular" if angular else "linear",
                   arr, ts, cutoff=c, **kw)
    if angular:
        got = [
            rbm.lookup_angular_velocity("body", "world", represent_in="body",
                                        cutoff=c, **kw),
            rbm.lookup_twist("body", "world", represent_in="body", cutoff=c,
                             **kw)[1],
        ]
        if not kw:
            # angular velocity of static vector seen from the moving frame
            got.append(rbm.transform_angular_velocity(
                np.zeros(3), into="body", outof="world",
                what="moving_frame", cutoff=c))
    else:
        got = [
            rbm.lookup_linear_velocity("body", "world", cutoff=c),
            rbm.lookup_twist("body", "world", cutoff=c)[0],
            -rbm.lookup_linear_velocity("world", "body", cutoff=c),
            rbm.transform_linear_velocity(
                np.zeros(3), into="world", outof="body",
                what="reference_frame", moving_frame="body", cutoff=c),
        ]
    s = max(1.0, np.abs(est).max())
    for i, g in enumerate(got):
        close(g / s, est / s, 1e-6, f"lookup {i} with cutoff")


@st.composite
def linear_case(draw):
    base = draw(st.sampled_from(["num", "num1", "neg", "s", "int"]))
    return dict(
        base=base, unit=draw(st.sampled_from(m.base_units(base))),
        n=draw(st.integers(40, 90)), cutoff=draw(st.integers(10, 80)) / 100,
        other=draw(st.lists(st.integers(1, 3), max_size=1)),
        factors=draw(st.lists(st.integers(-20, 20).map(lambda i: i / 4),
                              min_size=2, max_size=2)),
        axes={}, seed=draw(m.seeds),
    )


@facet(linear_case(), quick=600)
def linearity(case, rec):
    n = case["n"]
    shape = (n,) + tuple(case["other"]) + (3,)
    ts = m.to_time(case["base"], list(range(n)), case["unit"])
    x, y = m.bulk(case["seed"], shape, 1), m.bulk(case["seed"], shape, 2)
    f, g = case["factors"]

    def est(a):
        return rbm.estimate_linear_velocity(a, timestamps=ts,
                                            cutoff=case["cutoff"])

    ex, ey = est(x), est(y)
    rec.note()
    s = max(1.0, np.abs(ex).max(), np.abs(ey).max())
    close(est(f * x + g * y) / s, (f * ex + g * ey) / s, 1e-7,
          "filtered linear combination")
    # reversing time reverses the result: no phase shift
    close(est(x[::-1])[::-1][n // 4:-n // 4] / s,
          -ex[n // 4:-n // 4] / s, 0.05, "filtered reversed series")
