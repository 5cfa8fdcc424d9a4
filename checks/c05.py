"""C05: timestamped arrays are resampled to where the transform is defined."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.common import METHODS, missing, same_arrays, transformed
from lib.harness import ensure, equal, facet

PROPERTY = "C05"
RULE = (
    "Random trees of moving, static and discrete frames; arrays with two to "
    "four dimensions, time and spatial axis anywhere (positive or negative "
    "index), own timestamps of any unit (also repeated ones) overlapping the "
    "frames' range, also "
    "with missing elements; samples closer to the ends of the frames than "
    "floating point numbers resolve. "
    "Non-trivial: non-empty result over a path with a timestamped frame, and "
    "either non-default axes, more than two dimensions, or clipping."
)


@st.composite
def cases(draw):
    base = draw(m.bases)
    kinds = draw(st.sampled_from([
        ("moving", "static"), ("moving", "discrete", "static"),
        ("static", "discrete"), ("moving",),
    ]))
    hi = draw(m.span(24))
    specs = draw(m.tree_spec(kinds=kinds, base=base, min_frames=2,
                             max_frames=4, hi=hi))
    a, b = draw(m.pair(len(specs)))
    other = draw(st.lists(st.integers(1, 4), min_size=0, max_size=2))
    ndim = len(other) + 2
    axes = draw(st.permutations(range(ndim)))[:2]
    neg = draw(st.lists(st.booleans(), min_size=2, max_size=2))
    cont = [s for s in specs if s["kind"] == "moving"]
    ticks = (
        list(draw(st.sampled_from(cont))["ticks"])
        if cont and draw(st.integers(0, 4)) == 0
        else draw(m.tick_list(-2, hi + 2, 2, 9))
    )
    if draw(st.integers(0, 5)) == 0:
        # several samples with the same timestamp
        times = draw(st.lists(st.sampled_from([1, 1, 2, 3]),
                              min_size=len(ticks), max_size=len(ticks)))
        ticks = [k for k, i in zip(ticks, times) for _ in range(i)]
    return dict(
        base=base, specs=specs, a=a, b=b, ticks=ticks, other=other,
        unit=draw(st.sampled_from(m.base_units(base))),
        what=draw(st.sampled_from(sorted(METHODS))),
        time_axis=axes[0] - (ndim if neg[0] else 0),
        axis=axes[1] - (ndim if neg[1] else 0),
        default=draw(st.integers(0, 2)) == 0, seed=draw(m.seeds),
        via=draw(st.sampled_from(["function", "method"])),
        num=draw(m.numbers), holes=draw(st.integers(0, 2)) == 0,
        flips=draw(st.booleans()), length=draw(m.lengths),
        before=draw(st.integers(0, 3)) == 0,
    )


def other_ticks(ticks, seed):
    """As many ticks with the same ends, but others in between."""
    if len(set(ticks)) < max(3, len(ticks)):
        return list(ticks)
    inner = m.rng(seed, 55).choice(
        np.arange(ticks[0] + 1, ticks[-1]), len(ticks) - 2, replace=False)
    return [ticks[0]] + sorted(int(k) for k in inner) + [ticks[-1]]


@facet(cases(), quick=5000)
def resampled(case, rec):
    base, specs, a, b, what = (
        case[k] for k in ("base", "specs", "a", "b", "what"))
    u, v = m.units_of(case, what)
    rfs = m.build(specs, base, length=u)
    n = len(case["ticks"])
    shape = (n,) + tuple(case["other"]) + (METHODS[what],)
    if what == "quaternions":
        arr = m.bulk_unit(case["seed"], shape)
        for i in range(1, 1 if case["flips"] else n):
            s = np.sum(arr[i] * arr[i - 1], axis=-1, keepdims=True)
            arr[i] *= np.where(s < 0, -1.0, 1.0)
    else:
        arr = m.bulk(case["seed"], shape)
    arr, tol = m.cast(case["num"], arr)
    if case["holes"] and case["num"] != "int":
        arr = missing(case["seed"], arr)
    ndim = arr.ndim
    if case["default"]:
        ta, sa = 0, -1
        kw = {}
    else:
        ta, sa = case["time_axis"], case["axis"]
        kw = dict(axis=sa, time_axis=ta)
    k = m.lookup_ticks(specs, a, b, case["ticks"])
    t, q = m.compose(specs, a, b, k)
    sel = [i for i, x in enumerate(case["ticks"]) if x in set(k)]
    expected = np.moveaxis(
        transformed(what, t, q, arr[sel].astype(float)), (0, -1), (ta, sa))
    arg = np.moveaxis(m.in_units(arr, v), (0, -1), (ta, sa))
    stamps = m.to_time(base, case["ticks"], case["unit"])

    if case["before"]:
        # an earlier transform of a similar array makes no difference
        similar = other_ticks(case["ticks"], case["seed"])
        rec.label("similar array before", similar != case["ticks"])
        getattr(rfs[a], f"transform_{what}")(
            arg, rfs[b], timestamps=m.to_time(base, similar, case["unit"]),
            **kw)

    if case["via"] == "function":
        out, ts = getattr(rbm, f"transform_{what}")(
            arg, outof=rfs[a].name, into=rfs[b], timestamps=stamps,
            return_timestamps=True, **kw)
    else:
        out, ts = getattr(rfs[a], f"transform_{what}")(
            arg, rfs[b], timestamps=stamps, return_timestamps=True, **kw)

    up, down = m.path(specs, a, b)
    kinds = {specs[i]["kind"] for i in up + down}
    clipped = len(k) < n
    rec.note(
        len(k) > 0 and kinds & {"moving", "discrete"}
        and (not case["default"] or ndim > 2 or clipped))
    rec.label("clipped", clipped and len(k) > 0)
    rec.label("empty", len(k) == 0)
    rec.label("repeated timestamps", len(set(k)) < len(k))
    rec.label("moving", "moving" in kinds)
    rec.label("3d+ moving", ndim > 2 and "moving" in kinds and len(k) > 0)
    rec.label("missing elements, clipped", np.isnan(arr).any() and clipped)
    rec.label("axes moved", not case["default"])
    rec.label(what)

    equal(m.from_time(base, ts), k, "timestamps (ticks)")
    ensure(np.shape(out)[ta] == len(ts), "time axis has length %s for %d "
           "timestamps", np.shape(out), len(ts))
    same_arrays(what, np.asarray(out) / v, expected, tol(1e-8), sa)
    if case["via"] == "function":
        out2 = getattr(rbm, f"transform_{what}")(
            arg, outof=rfs[a], into=rfs[b].name, timestamps=stamps, **kw)
        same_arrays(what, np.asarray(out2) / v, expected, tol(1e-8), sa,
                    "without timestamps")


# --- the ends of the range ---------------------------------------------------

KINDS = ["int", "dt", "float", "epoch"]
ORIGIN = 1577836800_000_000_001


def instant(kind, s, d):
    """Timestamp s seconds after the origin, plus d of the smallest steps."""
    if kind in ("int", "dt"):
        return ORIGIN + s * 2**30 + d
    x = float(s) + (1577836800.1 if kind == "epoch" else 0.0)
    for _ in range(abs(d)):
        x = float(np.nextafter(x, np.inf if d > 0 else -np.inf))
    return x


def stamped(kind, values):
    if kind == "dt":
        return np.array(values, dtype=np.int64).view("datetime64[ns]")
    return np.array(values, dtype=np.int64 if kind == "int" else float)


@st.composite
def range_case(draw):
    frames = draw(st.lists(st.fixed_dictionaries(dict(
        first=st.integers(0, 2), n=st.integers(2, 4),
        d=st.lists(st.integers(-2, 2), min_size=2, max_size=2),
        seed=m.seeds)), min_size=1, max_size=2))
    ends = [f["first"] for f in frames] + [
        f["first"] + f["n"] - 1 for f in frames]
    times = draw(st.lists(
        st.tuples(st.sampled_from(ends), st.integers(-3, 3)) | st.tuples(
            st.integers(-1, 7), st.just(0)), min_size=1, max_size=8))
    return dict(kind=draw(st.sampled_from(KINDS)), frames=frames,
                times=[list(x) for x in times], seed=draw(m.seeds),
                inverse=draw(st.booleans()))


@facet(range_case(), quick=1500)
def range_ends(case, rec):
    """Samples next to the ends of the frames, closer than floats resolve."""
    kind = case["kind"]
    rf = root = rbm.ReferenceFrame("root")
    lo, hi, offset = [], [], []
    for i, f in enumerate(case["frames"]):
        ts = [instant(kind, f["first"] + j, 0) for j in range(f["n"])]
        ts[0] = instant(kind, f["first"], f["d"][0])
        ts[-1] = instant(kind, f["first"] + f["n"] - 1, f["d"][1])
        T = m.bulk(f["seed"], (f["n"], 3), 1)
        rf = rbm.ReferenceFrame(f"f{i}", rf, T, timestamps=stamped(kind, ts))
        lo.append(ts[0])
        hi.append(ts[-1])
        offset.append((f, T))
    own = sorted({instant(kind, s, d) for s, d in case["times"]})
    sel = [i for i, x in enumerate(own) if max(lo) <= x <= min(hi)]
    arr = m.bulk(case["seed"], (len(own), 3), 2)
    rec.note(0 < len(sel) < len(own))
    rec.label(kind)
    for i, x in enumerate(own):
        rec.label("just outside", i not in sel and any(
            0 < abs(x - e) <= instant(kind, 0, 3) - instant(kind, 0, 0)
            for e in (max(lo), min(hi))))
        rec.label("at an end", i in sel and x in (max(lo), min(hi)))
    source, target = (root, rf) if case["inverse"] else (rf, root)
    out, ts = source.transform_points(
        arr, target, timestamps=stamped(kind, own), return_timestamps=True)
    ensure(np.array_equal(ts, stamped(kind, [own[i] for i in sel])),
           "timestamps %s of %s with range %s to %s", ts, own, max(lo),
           min(hi))
    tick = 2.0**30 if kind in ("int", "dt") else 1.0
    exp = arr[sel]
    for f, T in offset:
        s = [float(own[i] - instant(kind, f["first"], 0)) / tick for i in sel]
        knots = np.arange(f["n"])
        t = np.stack([np.interp(s, knots, T[:, k]) for k in range(3)], -1)
        exp = exp + (-t if case["inverse"] else t)
    same_arrays("points", out, exp, 1e-5, -1)
