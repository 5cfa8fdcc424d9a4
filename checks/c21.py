"""C21: quaternion interpolation, plain and labelled."""

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st
from quaternion import as_float_array, as_quat_array, quaternion

from lib import model as m
from lib.harness import close, ensure, equal, facet, fail, raises
from lib.harness import same_rotation

PROPERTY = "C21"
RULE = (
    "Rotations at constant rate (up to 140 degrees between samples), smooth "
    "sums of sines and generic sign-continuous samples, at regular or "
    "irregular numeric or datetime sampling points (any datetime unit, "
    "different for input and output), one to three dimensional arrays with "
    "interpolated and quaternion axis anywhere, both dtypes; output points "
    "at, between and in any order within the samples. Labelled arrays with "
    "numeric, string, boolean, datetime, scalar and two-dimensional "
    "coordinates. Oracle: analytic rotation; the samples; plain-array result "
    "and numpy.interp or nearest for coordinates. Non-trivial: some output "
    "point between samples and rotation not constant."
)


@st.composite
def series_case(draw, lo=2, hi=8):
    base = draw(m.bases)
    ticks = [4 * k for k in draw(m.tick_list(0, 30, lo, hi))]
    out = draw(st.lists(st.integers(ticks[0], ticks[-1]), min_size=1,
                        max_size=8))
    order = draw(st.sampled_from(["sorted", "unique", "any"]))
    if order != "any":
        out = sorted(out)
    if order == "unique":
        out = sorted(set(out))
    return dict(
        base=base, units=[draw(st.sampled_from(m.base_units(base)))
                          for _ in range(2)],
        ticks=ticks, out=out, q=draw(m.quat), axis=draw(m.nonzero_vec3),
        ang=draw(st.integers(0, 100)),
        slow=draw(st.sampled_from([1.0] * 5 + [1e-3, 1e-5])), seed=draw(m.seeds),
        other=draw(st.lists(st.integers(1, 3), max_size=2)),
        taxis=draw(st.integers(0, 3)), qaxis=draw(st.integers(0, 3)),
        neg=draw(st.lists(st.booleans(), min_size=2, max_size=2)),
        default=draw(st.booleans()), quat=draw(st.booleans()),
        form=draw(st.sampled_from(["array", "list"])),
    )


def rates(case):
    """Rotation vector per tick of each series (others, 3)."""
    gap = max(b - a for a, b in zip(case["ticks"], case["ticks"][1:]))
    shape = tuple(case["other"]) + (3,)
    ax = m.bulk_unit(case["seed"], shape, 1)
    size = m.rng(case["seed"], 2).uniform(0, 1, shape[:-1] + (1,))
    flat, sz = ax.reshape(-1, 3), size.reshape(-1, 1)
    flat[0], sz[0] = m.unit(case["axis"]), case["ang"] / 100
    return ax * size * case["slow"] * 2.4 / gap


def constant(case, k):
    """Constant-rate rotations (time, others, 4) at ticks."""
    k = np.asarray(k, float) - case["ticks"][0]
    om = rates(case)
    start = m.bulk_unit(case["seed"], tuple(case["other"]) + (4,), 3)
    start.reshape(-1, 4)[0] = case["q"]
    return m.qmul(start, m.qexp(k.reshape((-1,) + (1,) * om.ndim) * om))


def knots(case):
    """Generic sign-continuous samples."""
    n = len(case["ticks"])
    q = m.bulk_unit(case["seed"], (n,) + tuple(case["other"]) + (4,), 4)
    for i in range(1, n):
        s = np.sum(q[i] * q[i - 1], -1, keepdims=True)
        q[i] = np.where(s < 0, -q[i], q[i])
    return q


def interpolate(case, q, t_in, t_out):
    """Call qinterp in the drawn layout; result in canonical layout."""
    kw = {}
    if case["quat"]:
        x = as_quat_array(q)
        ax = 0 if case["default"] else case["taxis"] % x.ndim
        x = np.moveaxis(x, 0, ax)
        if not case["default"]:
            kw["axis"] = ax - x.ndim if case["neg"][0] else ax
        out = rbm.qinterp(x, t_in, t_out, **kw)
        ensure(np.asarray(out).dtype == quaternion, "dtype %s",
               np.asarray(out).dtype)
        return as_float_array(np.moveaxis(out, ax, 0))
    x, ta, qa = q, 0, q.ndim - 1
    if not case["default"]:
        ta, qa = case["taxis"] % q.ndim, case["qaxis"] % q.ndim
        if ta == qa:
            qa = (ta + 1) % q.ndim
        x = np.moveaxis(q, (0, -1), (ta, qa))
        kw = dict(axis=ta - q.ndim if case["neg"][0] else ta,
                  qaxis=qa - q.ndim if case["neg"][1] else qa)
    if case["form"] == "list":
        x, t_in, t_out = x.tolist(), list(t_in), list(t_out)
    out = np.asarray(rbm.qinterp(x, t_in, t_out, **kw))
    ensure(out.dtype.kind == "f", "dtype %s", out.dtype)
    return np.moveaxis(out, (ta, qa), (0, -1))


def times(case, k, i):
    return m.to_time(case["base"], k, case["units"][i])


def labels(case, rec, q):
    rec.label("datetime", m.BASES[case["base"]][0] == "dt")
    rec.label("irregular", len(set(np.diff(case["ticks"]))) > 1)
    rec.label("quaternion dtype", case["quat"])
    rec.label("several series", q.ndim > 2)
    rec.label("own axes", not case["default"])
    rec.label("two samples", len(case["ticks"]) == 2)
    rec.label("unsorted output", case["out"] != sorted(case["out"]))


@facet(series_case(), quick=3000)
def constant_rate(case, rec):
    q = constant(case, case["ticks"])
    between = set(case["out"]) - set(case["ticks"])
    rec.note(between and case["ang"])
    rec.label("hardly any rotation", case["slow"] < 1)
    labels(case, rec, q)
    before = q.copy()
    out = interpolate(case, q, times(case, case["ticks"], 0),
                      times(case, case["out"], 1))
    close(np.linalg.norm(out, axis=-1), np.ones(out.shape[:-1]), 1e-9,
          "norm")
    same_rotation(out, constant(case, case["out"]), 1e-8,
                  "constant-rate rotation")
    equal(q, before, "input")


@facet(series_case(), quick=2000)
def at_samples(case, rec):
    """Samples are reproduced; series do not influence each other."""
    q = knots(case)
    rec.note(q.shape[0] > 2)
    labels(case, rec, q)
    t_in = times(case, case["ticks"], 0)
    # some samples in drawn order
    idx = [x % len(case["ticks"]) for x in case["out"]]
    t_out = times(case, [case["ticks"][i] for i in idx], 1)
    out = interpolate(case, q, t_in, t_out)
    same_rotation(out, q[idx], 1e-8, "samples")
    # elsewhere unit quaternions, each series as if on its own
    t_out = times(case, case["out"], 1)
    out = interpolate(case, q, t_in, t_out)
    ensure(not np.any(np.isnan(out)), "NaN")
    close(np.linalg.norm(out, axis=-1), np.ones(out.shape[:-1]), 1e-8,
          "norm")
    for j in np.ndindex(*q.shape[1:-1]):
        single = np.asarray(rbm.qinterp(
            q[(slice(None),) + j], t_in, t_out))
        same_rotation(out[(slice(None),) + j], single, 1e-8,
                      "series on its own")
    # rotating all samples rotates the result
    left = np.array(case["q"])
    same_rotation(interpolate(case, m.qmul(left, q), t_in, t_out),
                  m.qmul(left, out), 1e-7, "rotated samples")


@st.composite
def smooth_case(draw):
    return dict(seed=draw(m.seeds), base=draw(st.sampled_from(
        ["num", "num1", "s"])), jitter=draw(st.booleans()),
        quat=draw(st.booleans()), freq=draw(st.integers(1, 3)))


@facet(smooth_case(), quick=400)
def smooth(case, rec):
    """Error decreases with the distance of samples."""
    r = m.rng(case["seed"], 1)
    amp, ph = r.uniform(0.2, 0.7, (2, 3)), r.uniform(0, 6.28, (2, 3))
    rec.note()
    total = 960

    def motion(k):
        s = np.asarray(k, float)[:, None] / total * 6.28 * case["freq"]
        return m.qmul(m.qexp(amp[0] * np.sin(s + ph[0])),
                      m.qexp(amp[1] * np.sin(s * 0.7 + ph[1])))

    errs = []
    k_out = np.arange(total // 3, 2 * total // 3, 7)
    for n in (60, 240):
        step = total // n
        k = np.arange(0, total + 1, step)
        if case["jitter"] and step > 1:
            k = k + m.rng(case["seed"], n).integers(0, step // 2 + 1, len(k))
            k[0] = 0
        q = motion(k)
        x = as_quat_array(q) if case["quat"] else q
        out = rbm.qinterp(x, m.to_time(case["base"], k),
                          m.to_time(case["base"], k_out))
        out = as_float_array(out) if case["quat"] else np.asarray(out)
        errs.append(float(np.max(np.abs(m.q_angle2(out, motion(k_out))))))
    for err, n in zip(errs, (60, 240)):
        h = 6.28 * case["freq"] / n
        bound = (0.5 if case["jitter"] else 0.03) * h**2
        ensure(err < bound, "error %.3g rad for spacing %.3g", err, h)
    if not case["jitter"]:
        ensure(errs[1] < errs[0] / 20 + 1e-8, "error %.3g with 60 samples, "
               "%.3g with 240", *errs)


# --- labelled arrays ---------------------------------------------------------


@st.composite
def labelled_case(draw):
    case = draw(series_case())
    case["default"] = True
    case["out"] = sorted(set(case["out"]))
    case["quat"] = False
    dims = ["time", "quaternion_axis"] + ["a", "b"][: len(case["other"])]
    case["dims"] = draw(st.permutations(dims))
    case["extras"] = draw(st.lists(st.tuples(
        st.sampled_from(dims + ["time"]),
        st.sampled_from(["num", "int", "str", "bool", "dt"])), max_size=3))
    case["scalar"] = draw(st.booleans())
    case["twod"] = draw(st.booleans())
    case["named"] = draw(st.booleans())
    case["qdim"] = draw(st.sampled_from(["quaternion_axis", "wxyz"]))
    case["tdim"] = draw(st.sampled_from(["time", "t"]))
    case["tform"] = draw(st.sampled_from(["array", "list", "dataarray"]))
    case["by"] = draw(st.sampled_from(["dict", "kwargs"]))
    return case


def make(case, q):
    rename = {"time": case["tdim"], "quaternion_axis": case["qdim"]}
    dims = case["dims"]
    canon = ["time"] + [d for d in ("a", "b") if d in dims] + [
        "quaternion_axis"]
    data = np.moveaxis(q, range(q.ndim), [dims.index(d) for d in canon])
    sizes = dict(zip(dims, data.shape))
    coords = {
        case["tdim"]: times(case, case["ticks"], 0),
        case["qdim"]: list("wxyz"),
    }
    r = m.rng(case["seed"], 40)
    for i, (d, kind) in enumerate(case["extras"]):
        n = sizes[d]
        val = {
            "num": lambda: r.uniform(-5, 5, n),
            "int": lambda: r.integers(-50, 50, n),
            "str": lambda: np.array([f"s{x}" for x in r.integers(0, 99, n)]),
            "bool": lambda: r.integers(0, 2, n) > 0,
            "dt": lambda: np.datetime64("2021-05-01", "ns") + r.integers(
                0, 10**6, n).astype("timedelta64[s]"),
        }[kind]()
        coords[f"{kind}{i}"] = (rename.get(d, d), val)
    if case["scalar"]:
        coords["const"] = 7.5
    if case["twod"] and "a" in dims:
        coords["grid"] = (("a", case["tdim"]), r.uniform(
            -1, 1, (sizes["a"], sizes["time"])))
        coords["a"] = np.arange(sizes["a"]) * 3
    attrs = {"note": "keep", "number": 3}
    return xr.DataArray(
        data, coords, [rename.get(d, d) for d in dims],
        name="thing" if case["named"] else None, attrs=attrs)


def same_frame(da, before, what):
    ensure(da.identical(before), "%s: input changed", what)


@facet(labelled_case(), quick=1500)
def accessor_qinterp(case, rec):
    q = constant(case, case["ticks"])
    da = make(case, q)
    before = da.copy(deep=True)
    tdim = case["tdim"]
    between = set(case["out"]) - set(case["ticks"])
    rec.note(between and case["ang"])
    rec.label("hardly any rotation", case["slow"] < 1)
    t_out = times(case, case["out"], 1)
    arg = {"array": t_out, "list": list(t_out),
           "dataarray": xr.DataArray(t_out, {tdim: t_out}, [tdim],
                                     attrs={"from": "t"})}[case["tform"]]
    kw = {} if case["qdim"] == "quaternion_axis" else {"qdim": case["qdim"]}
    if case["by"] == "dict":
        out = da.rbm.qinterp({tdim: arg}, **kw)
    else:
        out = da.rbm.qinterp(**{tdim: arg}, **kw)
    rec.label("further coordinates", case["extras"])
    rec.label("time not first", case["dims"][0] != "time")
    same_frame(da, before, "qinterp")
    ensure(out.dims == da.dims, "dims %s, expected %s", out.dims, da.dims)
    ensure(out.name == da.name, "name %s", out.name)
    ensure(out.attrs == da.attrs, "attrs %s", out.attrs)
    ensure(set(out.coords) == set(da.coords), "coords %s", set(out.coords))
    equal(m.from_time(case["base"], out.coords[tdim].values), case["out"],
          "coordinate of the interpolated dimension")
    x = out.transpose(tdim, *[d for d in ("a", "b") if d in da.dims],
                      case["qdim"]).values
    same_rotation(x, constant(case, case["out"]), 1e-8, "values")
    k, ko = np.array(case["ticks"]), np.array(case["out"])
    for name, c in da.coords.items():
        o = out.coords[name]
        if name == tdim:
            continue
        ensure(o.dims == c.dims, "%s: dims %s", name, o.dims)
        if tdim not in c.dims:
            equal(o.values, c.values, f"coordinate {name}")
            continue
        src = np.moveaxis(c.values, c.dims.index(tdim), 0)
        got = np.moveaxis(o.values, o.dims.index(tdim), 0)
        if src.dtype.kind in "if":
            exp = np.array([
                [np.interp(t, k, col) for col in
                 src.reshape(len(k), -1).T] for t in ko])
            close(got.reshape(len(ko), -1), exp, 1e-9,
                  f"coordinate {name}")
            continue
        for t, g in zip(ko, got):
            d = np.abs(k - t)
            near = src[d == d.min()]
            ensure(g in near.tolist() or g in list(near),
                   "coordinate %s at %d is %s, nearest are %s", name, t, g,
                   near)


@facet(labelled_case(), quick=800)
def accessor_qinv(case, rec):
    q = constant(case, case["ticks"])
    scale = m.rng(case["seed"], 77).choice([1.0, 2.0, 0.1, -3.0],
                                           q.shape[:-1] + (1,))
    q = q * scale
    da = make(case, q)
    before = da.copy(deep=True)
    rec.note(case["dims"][-1] != "quaternion_axis" or np.any(scale != 1))
    kw = {} if case["qdim"] == "quaternion_axis" else {"qdim": case["qdim"]}
    out = da.rbm.qinv(**kw)
    same_frame(da, before, "qinv")
    exp = before.copy(data=np.moveaxis(
        m.qinv(np.moveaxis(before.values, da.dims.index(case["qdim"]), -1)),
        -1, da.dims.index(case["qdim"])))
    close(out.values, exp.values, 1e-11, "inverse")
    out.values[...] = exp.values
    ensure(out.identical(exp), "labels of inverse: %s", out)
    same_frame(da, before, "qinv (result shares memory with input)")


@st.composite
def bad_case(draw):
    return dict(kind=draw(st.sampled_from(
        ["two dims", "no dims", "unknown dim", "scalar", "2-D",
         "unknown qdim", "qinv"])), seed=draw(m.seeds),
        n=draw(st.integers(2, 5)), m=draw(st.integers(1, 4)))


@facet(bad_case(), quick=200, shards=2)
def rejected(case, rec):
    n, kind = case["n"], case["kind"]
    rec.note()
    rec.label(kind)
    da = xr.DataArray(
        m.bulk_unit(case["seed"], (n, n, 4), 1),
        {"time": np.arange(n), "a": np.arange(n)},
        ("time", "a", "quaternion_axis"))
    t = np.linspace(0, n - 1, case["m"])
    both = (ValueError, NotImplementedError)
    if kind == "two dims":
        raises(lambda: da.rbm.qinterp(time=t, a=t), NotImplementedError,
               what=kind)
    elif kind == "no dims":
        raises(lambda: da.rbm.qinterp({}), *both, what=kind)
    elif kind == "unknown dim":
        raises(lambda: da.rbm.qinterp(nope=t), ValueError, what=kind)
    elif kind == "scalar":
        raises(lambda: da.rbm.qinterp(time=0.5), *both, what=kind)
    elif kind == "2-D":
        raises(lambda: da.rbm.qinterp(time=np.stack([t, t])), *both,
               what=kind)
    elif kind == "unknown qdim":
        raises(lambda: da.rbm.qinterp(time=t, qdim="wxyz"), ValueError,
               what=kind)
    else:
        raises(lambda: da.rbm.qinv(qdim="wxyz"), ValueError, what=kind)
    # a fresh array still works
    try:
        da.rbm.qinterp(time=np.arange(n))
    except Exception as exc:  # noqa: B902
        fail("valid interpolation fails: %s", exc)
