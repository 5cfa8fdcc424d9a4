"""C13: velocity transforms obey the laws of relative motion."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib import motion as mo
from lib.common import layout, layout_case
from lib.harness import close, ensure, equal, facet, raises

PROPERTY = "C13"
RULE = (
    "Trees of 2 to 5 static and smoothly moving frames sampled on parts of "
    "one grid; all triples of moving/old/new frames; true velocities sampled "
    "on the grid or elsewhere (at times as many as a frame has) and "
    "arbitrary velocity arrays sampled on parts of the grid, with one to "
    "four dimensions and axes anywhere, with and without timestamps. Oracle: "
    "analytic velocities for the new frame with truncation bound, and the "
    "documented formulas evaluated with the looked-up relative velocities. "
    "Non-trivial: old and new frame move relative to each other."
)


@st.composite
def transform_case(draw, **kw):
    case = draw(mo.smooth_tree(**kw))
    n = len(case["specs"])
    case["old"], case["new"] = draw(m.pair(n))
    case["third"] = draw(st.integers(0, n - 1))
    case["kind"] = draw(st.sampled_from(["linear", "angular"]))
    case["what"] = draw(st.sampled_from(
        ["reference_frame", "moving_frame", "reference_frame",
         "moving_frame", "representation_frame"]))
    case["by"] = draw(st.sampled_from(["name", "object", "method"]))
    g = case["grid"]
    lo, hi = draw(st.sampled_from([0, 0, 1, 3])), draw(
        st.sampled_from([0, 0, 1, 3]))
    case["ticks"] = g[lo:len(g) - hi][::draw(st.sampled_from([1, 1, 2]))]
    case["layout"] = draw(layout_case())
    case["seed"] = draw(m.seeds)
    case["length"] = draw(m.lengths)
    return case


def run(rfs, case, arr, ts, **kw):
    old, new, third = (
        m.fref(rfs, case[x], case["by"] == "name")
        for x in ("old", "new", "third"))
    if case["kind"] == "linear":
        if case["what"] == "reference_frame":
            kw["moving_frame"] = third
        elif case["what"] == "moving_frame":
            kw["reference_frame"] = third
    kw.update(what=case["what"], timestamps=ts, return_timestamps=True)
    name = f"transform_{case['kind']}_velocity"
    u = case["length"] if case["kind"] == "linear" else 1.0
    if case["by"] == "method":
        out, ts = getattr(rfs[case["old"]], name)(arr * u, new, **kw)
    else:
        out, ts = getattr(rbm, name)(arr * u, into=new, outof=old, **kw)
    return out / u, ts


def span(ticks):
    return (-1e9, 1e9) if ticks is None else (ticks[0], ticks[-1])


def involved(case):
    """Tick sequences of all series that the transform combines."""
    specs = case["specs"]
    old, new, third = case["old"], case["new"], case["third"]
    out = [m.lookup_ticks(specs, old, new)]
    if case["what"] == "reference_frame" and case["kind"] == "linear":
        k = m.lookup_ticks(specs, third, old)
        out.append(k)
        if k is not None:
            out.append(m.lookup_ticks(specs, old, new, list(k)))
    elif case["what"] == "moving_frame" and case["kind"] == "linear":
        k = m.lookup_ticks(specs, old, third)
        if k is not None:
            out.append(m.lookup_ticks(specs, old, new, list(k)))
    return out


def result_ticks(case):
    lo, hi = -1e9, 1e9
    for k in involved(case):
        if k is not None and not len(k):
            return None
        a, b = span(k)
        lo, hi = max(lo, a), min(hi, b)
    return [k for k in case["ticks"] if lo <= k <= hi]


def lever(case, t):
    """Vector from old to new origin of rotation, in the new frame."""
    old, new, third = case["old"], case["new"], case["third"]
    _, q = mo.compose(case, old, new, t)
    if case["what"] == "reference_frame":
        p, _ = mo.compose(case, third, old, t)
    else:
        p, _ = mo.compose(case, new, old, t)
    return m.qrot(q, p)


def moving(specs, a, b):
    return m.lookup_ticks(specs, a, b) is not None


@facet(transform_case(), quick=1600)
def analytic(case, rec):
    """True velocities transform into true velocities."""
    true_velocities(case, rec)


@st.composite
def between_case(draw):
    case = draw(transform_case())
    g = case["grid"]
    num = draw(st.sampled_from(
        [len(s["ticks"]) for s in case["specs"] if "ticks" in s]
        + [1, 1, 2, len(g) // 2, len(g) + 3]))
    lo = draw(st.integers(0, 8))
    step = draw(st.sampled_from([1, 1, 2, 3]))
    ticks = [g[0] + lo + step * i for i in range(num)]
    case["ticks"] = [k for k in ticks if k <= g[-1]]
    return case


@facet(between_case(), quick=1200)
def between(case, rec):
    """Velocities sampled at other times than the frames."""
    rec.label("as many samples", any(
        len(s.get("ticks", ())) == len(case["ticks"])
        for s in case["specs"]))
    true_velocities(case, rec, True)


def curvature(case, fn, t):
    """Error of linear interpolation between samples."""
    h = mo.gap(case)
    d = h / 8
    fine = np.arange(t[0] - 3 * d, t[-1] + 4 * d, d)
    x = fn(fine)
    return h**2 / 4 * np.max(np.linalg.norm(np.diff(x, 2, axis=0), axis=1)
                             ) / d**2, np.max(np.linalg.norm(x, axis=1))


def true_velocities(case, rec, off=False):
    specs = case["specs"]
    old, new, third = case["old"], case["new"], case["third"]
    rfs = mo.build(case)
    t = mo.seconds(case, case["ticks"])
    i = 0 if case["kind"] == "linear" else 1
    if case["what"] == "reference_frame":
        src, dst = (third, old, old), (third, new, new)
    elif case["what"] == "moving_frame":
        src, dst = (old, third, old), (new, third, new)
    else:
        src, dst = (third, 0, old), (third, 0, new)
    arr = mo.twist(case, *src, t)[i]
    got, ts = run(rfs, case, arr, m.to_time(case["base"], case["ticks"]))
    k = result_ticks(case)
    rec.note(moving(specs, old, new) and case["what"][2] != "p")
    rec.label(f"{case['kind']} {case['what']}")
    if off and k is None:
        return
    equal(m.from_time(case["base"], ts), k, "timestamps")
    if not len(k):
        return
    tk = mo.seconds(case, k)
    exp = mo.twist(case, *dst, tk)[i]
    ensure(np.shape(got) == exp.shape, "shape %s, expected %s",
           np.shape(got), exp.shape)
    err = np.linalg.norm(got - exp, axis=-1)
    tol = 1e-7 * max(1.0, np.abs(arr).max(), np.abs(exp).max())
    bound = np.full(len(k), tol)
    if case["what"] != "representation_frame":
        terms = [(old, new, i, 1.0)]
        if case["what"] == "moving_frame":
            terms = [(new, old, i, 1.0)]
        if i == 0:
            terms.append((
                old, third if case["what"] == "moving_frame" else new, 1,
                np.linalg.norm(lever(case, tk), axis=-1)))
        for a, b, j, scale in terms:
            full = m.lookup_ticks(specs, a, b)
            if full is None:
                continue
            full = mo.seconds(case, full)
            inner, end = mo.bounds(case, a, b, full)[j]
            ends = (tk == full[0]) | (tk == full[-1])
            if off and len(full) > 1:
                ends = (tk < full[1]) | (tk > full[-2])
            bound = bound + np.where(ends, end, inner) * scale
            if off:
                bent, size = curvature(
                    case, lambda x: mo.twist(case, a, b, new, x)[j], full)
                bound = bound + bent * scale
                if j == 1 and i == 0:
                    bound = bound + size * curvature(
                        case, lambda x: lever(case, x), full)[0]
    full = m.lookup_ticks(specs, old, new)
    if off and full is not None:
        bound = bound + 3 * np.abs(arr).max() * curvature(
            case, lambda x: mo.compose(case, old, new, x)[1],
            mo.seconds(case, full))[0]
    bad = int(np.argmax(err - bound)) if len(k) else 0
    ensure(np.all(err <= bound), "velocity error %g exceeds bound %g",
           float(err[bad]), float(bound[bad]))


@facet(transform_case(), quick=2500)
def formulas(case, rec):
    """Documented formulas with looked-up relative velocities."""
    specs = case["specs"]
    old, new, third = case["old"], case["new"], case["third"]
    lay = case["layout"]
    rfs = mo.build(case)
    shape = (len(case["ticks"]),) + tuple(lay["other"]) + (3,)
    arr = m.bulk(case["seed"], shape, 1)
    a, kw, back = layout(arr, lay)
    got, ts = run(rfs, case, a, m.to_time(case["base"], case["ticks"]), **kw)
    k = result_ticks(case) if case["what"] != "representation_frame" else (
        list(m.lookup_ticks(specs, old, new, case["ticks"])))
    rec.note(moving(specs, old, new))
    rec.label(f"{case['kind']} {case['what']}")
    rec.label("static frames", not moving(specs, old, new))
    rec.label("own axes", bool(kw))
    rec.label("small or large", case["length"] != 1)
    rec.label("ndim>=3", len(shape) > 2)
    equal(m.from_time(case["base"], ts), k, "timestamps")
    sel = [case["ticks"].index(x) for x in k]
    t = mo.seconds(case, k)
    _, q = mo.compose(case, old, new, t)
    mid = (1,) * len(lay["other"])
    col = (len(k),) + mid
    exp = m.qrot(q.reshape(col + (4,)), arr[sel])
    if case["what"] != "representation_frame":
        exp = exp + relative(rfs, case, k, t).reshape(col + (3,))
    out = back(got)
    scale = max(1.0, np.abs(exp).max() if exp.size else 1.0)
    ensure(np.shape(out) == exp.shape, "shape %s, expected %s",
           np.shape(got), exp.shape)
    close(out / scale, exp / scale, 1e-8, "velocity")


def at(case, k, vel, ts):
    """Rows of a lookup at ticks k."""
    if ts is None:
        return np.zeros((len(k), 3))
    ticks = list(m.from_time(case["base"], ts))
    return vel[[ticks.index(x) for x in k]]


def relative(rfs, case, k, t, cutoff=None, thresh=None):
    """Term added to the rotated velocity, from separate lookups."""
    old, new, third = (rfs[case[x]] for x in ("old", "new", "third"))
    kw = dict(allow_static=True, return_timestamps=True, cutoff=cutoff)
    u = case["length"]
    lkw = dict(kw, outlier_thresh=thresh)
    if case["what"] == "reference_frame":
        w = at(case, k, *old.lookup_angular_velocity(new, new, **kw))
        if case["kind"] == "angular":
            return w
        v = at(case, k, *old.lookup_linear_velocity(new, new, **lkw)) / u
    else:
        if case["kind"] == "angular":
            return at(case, k, *new.lookup_angular_velocity(old, new, **kw))
        v = at(case, k, *new.lookup_linear_velocity(old, new, **lkw)) / u
        w = at(case, k, *old.lookup_angular_velocity(third, new, **kw))
    return v + np.cross(w, lever(case, t))


@st.composite
def option_case(draw):
    case = draw(transform_case(lo=34, hi=48, max_frames=4))
    case["what"] = draw(st.sampled_from(["reference_frame", "moving_frame"]))
    case["cutoff"] = draw(st.one_of(st.none(), st.integers(5, 80).map(
        lambda i: i / 100), st.integers(5, 40).map(lambda i: i / 100)))
    case["thresh"] = draw(st.one_of(st.none(), st.none(), st.integers(
        -12, 4).map(lambda i: 2.0**i)))
    return case


@facet(option_case(), quick=1200)
def options(case, rec):
    """Filtering and outlier suppression apply to the added velocities."""
    old, new = case["old"], case["new"]
    specs, lay = case["specs"], case["layout"]
    cutoff, thresh = case["cutoff"], case["thresh"]
    if thresh is not None:
        thresh *= case["length"]
    rfs = mo.build(case)
    shape = (len(case["ticks"]),) + tuple(lay["other"]) + (3,)
    arr = m.bulk(case["seed"], shape, 1)
    a, kw, back = layout(arr, lay)
    if cutoff is not None:
        kw["cutoff"] = cutoff
    if thresh is not None and case["kind"] == "linear":
        kw["outlier_thresh"] = thresh
    got, ts = run(rfs, case, a, m.to_time(case["base"], case["ticks"]), **kw)
    k = result_ticks(case)
    equal(m.from_time(case["base"], ts), k, "timestamps")
    t = mo.seconds(case, k)
    _, q = mo.compose(case, old, new, t)
    col = (len(k),) + (1,) * len(lay["other"])
    exp = m.qrot(q.reshape(col + (4,)),
                 arr[[case["ticks"].index(x) for x in k]])
    plain = relative(rfs, case, k, t)
    rel = relative(rfs, case, k, t, cutoff, thresh)
    exp = exp + rel.reshape(col + (3,))
    out = back(got)
    ensure(np.shape(out) == exp.shape, "shape %s, expected %s",
           np.shape(got), exp.shape)
    with np.errstate(invalid="ignore"):
        changed = np.nanmax(np.abs(plain - rel), initial=0.0) > 1e-3
    rec.note(bool(changed) and moving(specs, old, new))
    rec.label(f"{case['kind']} {case['what']}")
    rec.label("both", cutoff is not None and "outlier_thresh" in kw)
    nan = np.isnan(exp).reshape(len(k), -1).any(1)
    was = np.isnan(out).reshape(len(k), -1).any(1)
    # interpolation may spread NaN (if every second sample is needed)
    near = nan.copy()
    for d in (1, 2):
        near[d:] |= nan[:-d]
        near[:-d] |= nan[d:]
    ensure(not np.any(was & ~near) and not np.any(nan & ~was),
           "NaN at %s, expected at %s", np.nonzero(was)[0],
           np.nonzero(nan)[0])
    ok = ~was
    rec.label("undefined samples", not ok.all())
    scale = max(1.0, np.abs(exp[ok]).max() if ok.any() else 1.0)
    close(out[ok] / scale, exp[ok] / scale, 1e-8, "velocity")


@facet(transform_case(kinds=["moving", "static", "static"]), quick=1200)
def single(case, rec):
    """One vector without timestamps."""
    specs = case["specs"]
    old, new = case["old"], case["new"]
    rfs = mo.build(case)
    arr = m.bulk(case["seed"], 3, 1)
    got, ts = run(rfs, case, arr, None)
    ks = [m.lookup_ticks(specs, old, new)] if (
        case["what"] == "representation_frame") else involved(case)
    ks = [x for x in ks if x is not None]
    rec.label("static", not ks)
    rec.label(f"{case['kind']} {case['what']}")
    if not ks:
        ensure(ts is None, "timestamps for static velocity: %s", ts)
        t = np.zeros(1)
        k = [0]
    else:
        k = list(m.from_time(case["base"], ts))
        lo = max(x[0] for x in ks)
        hi = min(x[-1] for x in ks)
        exp_k = [x for x in case["grid"] if lo <= x <= hi]
        equal(k, exp_k, "timestamps")
        t = mo.seconds(case, k)
        rec.note()
    _, q = mo.compose(case, old, new, t)
    exp = m.qrot(q, arr)
    if ks and case["what"] != "representation_frame":
        exp = exp + relative(rfs, case, k, t)
    if not ks:
        exp = exp[0]
    scale = max(1.0, np.abs(exp).max())
    close(np.asarray(got) / scale, exp / scale, 1e-8, "velocity")


@facet(transform_case(), quick=200, shards=2)
def rejected(case, rec):
    """Unknown kinds of frame and wrong lengths are errors."""
    rfs = mo.build(case)
    rec.note()
    ts = m.to_time(case["base"], case["ticks"])
    arr = m.bulk(case["seed"], (len(ts), 3), 1)
    raises(lambda: run(rfs, dict(case, what="target_frame"), arr, ts),
           ValueError, what="unknown 'what'")
    raises(lambda: run(rfs, case, arr[:, :2], ts), ValueError,
           what="two-dimensional velocity")
    raises(lambda: run(rfs, case, arr[:-1], ts), ValueError,
           what="fewer velocities than timestamps")
