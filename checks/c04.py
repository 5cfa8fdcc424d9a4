"""C04: transforming arrays applies the looked-up transform."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.common import (METHODS, layout, layout_case, missing, same_arrays,
                        transformed)
from lib.harness import close, ensure, equal, facet

PROPERTY = "C04"
RULE = (
    "Random static trees and pairs; arrays with one to four dimensions of "
    "lengths 1 to 5 (also 3 and 4 next to the spatial axis), spatial axis at "
    "any position as positive or negative index, as array or nested list of "
    "integers, single or double precision numbers, with missing elements, by "
    "function and by method; single elements and arrays with timestamps (two "
    "to five dimensions, any axes) across moving paths. Non-trivial: at least "
    "two dimensions or a moving path, with a non-identity transform."
)


@st.composite
def cases(draw):
    specs = draw(m.tree_spec(min_frames=2, max_frames=5))
    a, b = draw(m.pair(len(specs)))
    other = draw(st.lists(st.integers(1, 5), min_size=0, max_size=3))
    ndim = len(other) + 1
    return dict(
        specs=specs, a=a, b=b, what=draw(st.sampled_from(sorted(METHODS))),
        other=other, axis=draw(st.integers(-ndim, ndim - 1)),
        default=draw(st.booleans()), seed=draw(m.seeds),
        names=draw(st.lists(st.booleans(), min_size=2, max_size=2)),
        form=draw(st.sampled_from(["array", "list", "noncontiguous"])),
        via=draw(st.sampled_from(["function", "method"])),
        scale=draw(st.sampled_from([1.0, 1.0, 1e3])),
        length=draw(m.lengths),
        num=draw(m.numbers), holes=draw(st.integers(0, 3)) == 0,
    )


@facet(cases(), quick=5000)
def static(case, rec):
    specs, a, b, what = (case[k] for k in ("specs", "a", "b", "what"))
    u, v = m.units_of(case, what)
    rfs = m.build(specs, length=u)
    n = METHODS[what]
    shape = tuple(case["other"]) + (n,)
    if what == "quaternions":
        arr = m.bulk_unit(case["seed"], shape)
    else:
        arr = m.bulk(case["seed"], shape) * case["scale"]
    arr, tol = m.cast(case["num"], arr)
    if case["holes"] and case["num"] != "int":
        arr = missing(case["seed"], arr)
        rec.label("missing elements", np.isnan(arr).any())
    axis = -1 if case["default"] else case["axis"]
    t, q = m.compose(specs, a, b, [0])
    expected = np.moveaxis(
        transformed(what, t[0], q[0], arr.astype(float)), -1, axis)
    arr = np.moveaxis(m.in_units(arr, v), -1, axis)
    if case["form"] == "list":
        arg = arr.tolist()
    elif case["form"] == "noncontiguous":
        arg = np.repeat(arr, 2, axis=0)[::2]
    else:
        arg = np.ascontiguousarray(arr)

    A = m.fref(rfs, a, case["names"][0])
    B = m.fref(rfs, b, case["names"][1])
    kw = {} if case["default"] else {"axis": axis}

    def run(arg, src, dst, srcf):
        if case["via"] == "function":
            return getattr(rbm, f"transform_{what}")(
                arg, outof=src, into=dst, **kw)
        return getattr(srcf, f"transform_{what}")(arg, dst, **kw)

    rec.note(bool(case["other"]) and (
        abs(q[0][0]) < 1 - 1e-9 or bool(np.any(t))))
    rec.label(what)
    rec.label(case["num"])
    rec.label("axis not last", axis % arr.ndim != arr.ndim - 1)
    rec.label("small or large", u != 1)
    rec.label("ndim>=3", arr.ndim >= 3)
    out = run(arg, A, B, rfs[a])
    same_arrays(what, out / v, expected, tol(1e-10), axis)
    back = run(out, B, A, rfs[b])
    same_arrays(what, back / v, arr.astype(float) / v, tol(1e-9), axis,
                "transformed back")

    out = getattr(rbm, f"transform_{what}")(
        arg, outof=A, into=B, return_timestamps=True, **kw)
    ensure(isinstance(out, tuple) and len(out) == 2 and out[1] is None,
           "return_timestamps over a static path: %s", type(out))
    same_arrays(what, out[0] / v, expected, tol(1e-10), axis)


@st.composite
def single(draw):
    base = draw(m.bases)
    specs = draw(m.tree_spec(kinds=("moving", "static", "moving"), base=base,
                             min_frames=2, max_frames=5, hi=20))
    a, b = draw(m.pair(len(specs)))
    what = draw(st.sampled_from(sorted(METHODS)))
    return dict(base=base, specs=specs, a=a, b=b, what=what,
                length=draw(m.lengths),
                v=draw(m.quat if what == "quaternions" else m.vec3),
                via=draw(st.sampled_from(["function", "method"])))


@facet(single(), quick=2000)
def moving(case, rec):
    """One value per timestamp of the lookup for a single element."""
    specs, a, b, what, base = (
        case[k] for k in ("specs", "a", "b", "what", "base"))
    u, unit = m.units_of(case, what)
    rfs = m.build(specs, base, length=u)
    k = m.lookup_ticks(specs, a, b)
    v = np.array(case["v"])
    arg = v * unit
    if case["via"] == "function":
        out, ts = getattr(rbm, f"transform_{what}")(
            arg, outof=rfs[a], into=rfs[b], return_timestamps=True)
    else:
        out, ts = getattr(rfs[a], f"transform_{what}")(
            arg, rfs[b], return_timestamps=True)
    if k is None:
        ensure(ts is None, "timestamps for static path")
        t, q = m.compose(specs, a, b, [0])
        same_arrays(what, out / unit, transformed(what, t[0], q[0], v), 1e-9,
                    -1)
        return
    rec.note(len(k) >= 2)
    rec.label(what)
    equal(m.from_time(base, ts), k, "timestamps (ticks)")
    t, q = m.compose(specs, a, b, k)
    expected = transformed(what, t, q, np.tile(v, (len(k), 1)))
    same_arrays(what, out / unit, expected, 1e-8, -1)
    close(np.asarray(getattr(rbm, f"transform_{what}")(
        arg.tolist(), outof=rfs[a], into=rfs[b])) / unit, out / unit, 1e-12,
        "without timestamps")


@st.composite
def series_cases(draw):
    base = draw(m.bases)
    specs = draw(m.tree_spec(kinds=("moving", "static", "discrete"),
                             base=base, min_frames=2, max_frames=4, hi=20))
    a, b = draw(m.pair(len(specs)))
    case = draw(layout_case())
    case.update(
        base=base, specs=specs, a=a, b=b, seed=draw(m.seeds),
        what=draw(st.sampled_from(sorted(METHODS))),
        other=draw(st.lists(st.integers(1, 4), max_size=3)),
        ticks=draw(m.tick_list(0, 20, 2, 8)),
        unit=draw(st.sampled_from(m.base_units(base))),
        num=draw(m.numbers), length=draw(m.lengths),
    )
    return case


@facet(series_cases(), quick=2000)
def series(case, rec):
    """Elements of an array with timestamps, also with further axes."""
    specs, a, b, what, base = (
        case[k] for k in ("specs", "a", "b", "what", "base"))
    u, v = m.units_of(case, what)
    rfs = m.build(specs, base, length=u)
    n = METHODS[what]
    k = m.lookup_ticks(specs, a, b, case["ticks"])
    shape = (len(case["ticks"]), *case["other"], n)
    arr = (m.bulk_unit if what == "quaternions" else m.bulk)(
        case["seed"], shape)
    arr, tol = m.cast(case["num"], arr)
    arg, kw, back = layout(m.in_units(arr, v), case)
    out, ts = getattr(rbm, f"transform_{what}")(
        arg, outof=rfs[a], into=rfs[b], return_timestamps=True,
        timestamps=m.to_time(base, case["ticks"], case["unit"]), **kw)
    equal(m.from_time(base, ts), k, "timestamps (ticks)")
    idx = np.searchsorted(case["ticks"], k)
    t, q = m.compose(specs, a, b, k)
    rec.note(len(k) >= 2 and bool(case["other"]) and a != b)
    rec.label("ndim>=4", arr.ndim >= 4)
    same_arrays(what, back(out) / v, transformed(
        what, t, q, arr[idx].astype(float)), tol(1e-8), -1)


@st.composite
def stacked(draw):
    base = draw(m.bases)
    specs = draw(m.tree_spec(kinds=("moving", "static"), base=base,
                             min_frames=2, max_frames=4, hi=20))
    a, b = draw(m.pair(len(specs)))
    return dict(specs=specs, base=base, a=a, b=b, seed=draw(m.seeds),
                length=draw(m.lengths))


@facet(stacked(), quick=800)
def rigidity(case, rec):
    """Distances and the link between the three kinds are kept."""
    specs, a, b, base = (case[k] for k in ("specs", "a", "b", "base"))
    u = case["length"]
    rfs = m.build(specs, base, length=u)
    p, v = m.bulk(case["seed"], (2, 3))
    P = rbm.transform_points(p * u, outof=rfs[a], into=rfs[b]) / u
    PV = rbm.transform_points(
        (p + v) * u, outof=rfs[a], into=rfs[b]) / u
    V = rbm.transform_vectors(v * u, outof=rfs[a], into=rfs[b]) / u
    rec.note(P.ndim == 2 and len(P) > 0 or P.ndim == 1 and a != b)
    close(PV - P, V, 1e-9, "difference of points vs vector")
    close(np.linalg.norm(V, axis=-1),
          np.full(V.shape[:-1], np.linalg.norm(v)), 1e-9, "length")
    q = rbm.transform_quaternions([1.0, 0, 0, 0], outof=rfs[a], into=rfs[b])
    close(m.qrot(q, v), V, 1e-9, "orientation of the frame vs vector")
