"""C15: labelled arrays give the plain-array result with consistent labels."""

import itertools

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import model as m
from lib.harness import close, ensure, equal, facet, fail

PROPERTY = "C15"
RULE = (
    "DataArrays with 1 to 4 dimensions in any order (time, spatial and up to "
    "two others), dimensions given by name or axis or omitted, numeric and "
    "datetime time coordinates, further numeric, string, boolean, datetime, "
    "two-dimensional and scalar coordinates along any dimension; transforms "
    "between static/moving frames whose ranges cut the array, velocity "
    "estimation, shortest arc, best fit, closest point and coordinate "
    "conversion. Oracle: the same function on the values with the "
    "corresponding axes; labels from an independent model (selection, "
    "nearest, dropped and replaced dimensions). Non-trivial: own dimension "
    "order or resampled/new time axis or further coordinates."
)

SPATIAL = {
    3: ("cartesian_axis", ["x", "y", "z"]),
    4: ("quaternion_axis", ["w", "x", "y", "z"]),
    2: ("cartesian_axis", ["x", "y"]),
}


@st.composite
def labelled(draw, time=True, max_other=2, lo=2, hi=8):
    """Description of a labelled array (dims, coords)."""
    n_other = draw(st.integers(0, max_other))
    others = ["a", "b"][:n_other]
    dims = draw(st.permutations((["time"] if time else []) + ["space"]
                                + others))
    base = draw(m.bases)
    n_extra = draw(st.integers(0, 3))
    kinds = ["num", "int", "str", "bool", "dt"]
    extras = []
    for i in range(n_extra):
        extras.append([
            draw(st.sampled_from(dims + ["time" if time else "space"])),
            draw(st.sampled_from(kinds))])
    return dict(
        dims=list(dims), base=base,
        unit=draw(st.sampled_from(m.base_units(base))),
        ticks=draw(m.tick_list(0, 40, lo, hi)) if time else None,
        sizes={d: draw(st.integers(1, 3)) for d in others},
        extras=extras, scalar=draw(st.booleans()),
        twod=draw(st.integers(0, 3)) == 0,
        plane=draw(st.integers(0, 3)) == 0,
        custom=draw(st.integers(0, 3)) == 0,
        named=draw(st.sampled_from([True, True, False])),
        explicit=draw(st.booleans()), seed=draw(m.seeds),
        style=draw(st.sampled_from(["names", "names", "axes", "both"])),
        neg=draw(st.lists(st.booleans(), min_size=2, max_size=2)),
        num=draw(m.numbers),
    )


def space_name(c, k):
    return "xyz" if c["custom"] else SPATIAL[k][0]


def make(c, k, values=None):
    """Build the DataArray; spatial length k; values as (time, others, k)."""
    dims = c["dims"]
    names = [space_name(c, k) if d == "space" else d for d in dims]
    size = dict(c["sizes"], space=k)
    if c["ticks"] is not None:
        size["time"] = len(c["ticks"])
    shape = [size[d] for d in dims]
    if values is None:
        if k == 4:
            ax = dims.index("space")
            data = np.moveaxis(
                m.bulk_unit(c["seed"], [s for i, s in enumerate(shape)
                                        if i != ax] + [4], 1), -1, ax)
        else:
            data = m.bulk(c["seed"], shape, 1)
    else:
        data = np.moveaxis(
            values, range(values.ndim),
            [dims.index(d) for d in ["time", "a", "b", "space"] if d in dims])
    if k != 4:
        data, _ = m.cast(c["num"], data)
        if c["num"] == "int":
            # no vectors of length 0
            ax = dims.index("space")
            data = np.where(
                np.any(data, axis=ax, keepdims=True), data, 1)
    coords = {}
    if c["ticks"] is not None:
        coords["time"] = m.to_time(c["base"], c["ticks"], c["unit"])
    sp = space_name(c, k)
    coords[sp] = SPATIAL[k][1]
    for i, d in enumerate(d for d in dims if d in "ab"):
        if i == 0 or c["scalar"]:
            coords[d] = np.arange(size[d]) * 2 + 1
    for i, (d, kind) in enumerate(c["extras"]):
        coords[f"{kind}{i}"] = (
            sp if d == "space" else d, extra_values(c, kind, size[d], i))
    if c["twod"] and "time" in dims and "a" in dims:
        coords["grid"] = (("a", "time"), m.bulk(
            c["seed"], (size["a"], size["time"]), 8))
    if c["plane"] and len(dims) > 1:
        other = dims[0] if dims[0] != "space" else dims[1]
        coords["plane"] = ((other, sp), m.bulk(
            c["seed"], (size[other], size["space"]), 9))
    if c["scalar"]:
        coords["const"] = 7.5
    attrs = {"note": "keep", "number": 3}
    return xr.DataArray(data, coords, names, name="thing" if c["named"]
                        else None, attrs=attrs)


def extra_values(c, kind, n, i):
    r = m.rng(c["seed"], 40 + i)
    if kind == "num":
        return r.uniform(-5, 5, n)
    if kind == "int":
        return r.integers(-50, 50, n) * 2
    if kind == "str":
        return np.array([f"s{v}" for v in r.integers(0, 100, n)])
    if kind == "bool":
        return r.integers(0, 2, n) > 0
    return np.datetime64("2021-05-01", "ns") + r.integers(
        0, 10**6, n).astype("timedelta64[s]")


def check_labels(out, inp, dims, sel=None, drop=(), new=None, name=None,
                 what="result"):
    """Dims, coordinates and name of out.

    sel: dict time dim -> (indices of kept samples, timestamps)
    drop: dimension that is replaced; new: (name, labels)
    """
    ensure(isinstance(out, xr.DataArray), "%s is a %s", what, type(out))
    ensure(out.dims == tuple(dims), "%s: dims %s, expected %s", what,
           out.dims, tuple(dims))
    ensure(out.name == inp.name, "%s: name %r, expected %r", what, out.name,
           inp.name)
    exp = {}
    for c in inp.coords:
        v = inp.coords[c]
        if any(d in v.dims for d in drop):
            continue
        vals = v.values
        for d, (idx, ts) in (sel or {}).items():
            if c == d:
                vals = ts
            elif d in v.dims:
                vals = np.take(vals, idx, axis=v.dims.index(d))
        exp[c] = (v.dims, vals)
    if new is not None:
        exp[new[0]] = ((new[0],), np.array(new[1]))
    ensure(set(out.coords) == set(exp), "%s: coordinates %s, expected %s",
           what, sorted(map(str, out.coords)), sorted(map(str, exp)))
    for c, (cd, vals) in exp.items():
        got = out.coords[c]
        ensure(set(got.dims) == set(cd), "%s: dims of coordinate %s: %s, "
               "expected %s", what, c, got.dims, cd)
        gv = got.transpose(*cd).values
        if np.asarray(vals).dtype.kind in "fiu" and gv.dtype.kind in "fiu":
            close(gv.astype(float), np.asarray(vals, float), 1e-9,
                  f"{what}: coordinate {c}")
        else:
            equal(gv, vals, f"{what}: coordinate {c}")


def kept(c, ts):
    """Indices of the input samples at output timestamps."""
    k = m.from_time(c["base"], ts)
    ensure(k is not None, "timestamps %s not among those of the input", ts)
    return [c["ticks"].index(x) for x in k]


# --- transforms --------------------------------------------------------------

METHODS = {
    "points": 3, "vectors": 3, "quaternions": 4,
    "angular_velocity": 3, "linear_velocity": 3,
}


@st.composite
def transform_case(draw):
    c = draw(labelled())
    base = c["base"]
    shape = draw(st.sampled_from(["chain", "star"]))
    specs = draw(m.tree_spec(kinds=("static", "moving", "discrete"),
                             base=base, min_frames=3, max_frames=4,
                             shape=shape, max_samples=14))
    c["specs"] = specs
    c["a"], c["b"] = draw(m.pair(len(specs)))
    c["method"] = draw(st.sampled_from(sorted(METHODS)))
    c["what"] = draw(st.sampled_from(["reference_frame", "moving_frame",
                                      "representation_frame"]))
    return c


def velocity_ok(c):
    """Relative velocities need enough samples of all frames."""
    specs = c["specs"]
    for x, y in itertools.permutations({c["a"], c["b"], 0}, 2):
        k = m.lookup_ticks(specs, x, y)
        if k is not None and (len(k) < 5 or any(
                specs[i]["kind"] == "discrete"
                for i in sum(m.path(specs, x, y), []))):
            return False
    return True


def kwargs_for(c, arr, k):
    """dim/timestamps arguments; axes for the plain call."""
    ta, sa = c["dims"].index("time"), c["dims"].index("space")
    plain = dict(axis=sa, time_axis=ta)
    lab = dict(dim=space_name(c, k), timestamps="time")
    sneg, tneg = (i - arr.ndim if n else i
                  for i, n in zip((sa, ta), c["neg"]))
    if c["style"] == "axes":
        lab = dict(axis=sneg, time_axis=tneg)
    elif c["style"] == "both":
        lab = dict(dim=lab["dim"], time_axis=tneg) if c["neg"][0] else dict(
            axis=sneg, timestamps="time")
    if not c["explicit"]:
        # leave out what defaults to the right dimension
        if sa == arr.ndim - 1:
            lab.pop("dim", None), lab.pop("axis", None)
        if ta == 0:
            lab.pop("timestamps", None), lab.pop("time_axis", None)
    return lab, plain


@facet(transform_case(), quick=2500)
def transforms(c, rec):
    k = METHODS[c["method"]]
    arr = make(c, k)
    rfs = m.build(c["specs"], c["base"])
    a, b = rfs[c["a"]], rfs[c["b"]]
    kw = {}
    if c["method"].endswith("velocity"):
        if not velocity_ok(c):
            return
        kw["what"] = c["what"]
        if c["method"][0] == "l":
            kw.update(moving_frame=rfs[0], reference_frame=rfs[0])
    lab, plain = kwargs_for(c, arr, k)
    fn = getattr(rbm, f"transform_{c['method']}")
    before = arr.copy(deep=True)
    try:
        exp, ts = fn(arr.values, into=b, outof=a,
                     timestamps=arr.time.values, return_timestamps=True,
                     **plain, **kw)
    except Exception as exc:  # noqa: B902
        # the same error is due for the labelled array
        try:
            fn(arr, into=b, outof=a, **lab, **kw)
        except type(exc):
            return
        fail("plain array raises %s, labelled array does not", exc)
    if not len(ts):
        return  # xarray doesn't interpolate coordinates onto nothing
    out = fn(arr, into=b, outof=a, **lab, **kw)
    idx = kept(c, ts)
    cut = len(idx) < len(c["ticks"])
    rec.note(cut or c["extras"] or c["dims"][0] != "time"
             or c["dims"][-1] != "space")
    rec.label(c["method"])
    rec.label("cut", cut)
    rec.label("own dim order", c["dims"][0] != "time"
              or c["dims"][-1] != "space")
    rec.label("string coordinate along time cut", cut and [
        "time", "str"] in c["extras"])
    close(out.values, exp, 1e-9, "values")
    check_labels(out, before, before.dims, {"time": (idx, ts)})
    ensure(out.attrs.get("note") == "keep", "attributes lost")


@st.composite
def static_case(draw):
    c = draw(transform_case())
    c["dims"] = ["space"]
    c["extras"] = [["space", k] for _, k in c["extras"]]
    c["twod"] = False
    return c


@facet(static_case(), quick=800)
def single(c, rec):
    """One-dimensional arrays get a time dimension if needed."""
    k = METHODS[c["method"]]
    c = dict(c, ticks=None, sizes={})
    arr = make(c, k)
    rfs = m.build(c["specs"], c["base"])
    a, b = rfs[c["a"]], rfs[c["b"]]
    kw = {}
    if c["method"].endswith("velocity"):
        if not velocity_ok(c):
            return
        kw["what"] = c["what"]
        if c["method"][0] == "l":
            kw.update(moving_frame=rfs[0], reference_frame=rfs[0])
    fn = getattr(rbm, f"transform_{c['method']}")
    exp, ts = fn(arr.values, into=b, outof=a, return_timestamps=True, **kw)
    out = fn(arr, into=b, outof=a, **(
        {"dim": arr.dims[0]} if c["explicit"] else {}), **kw)
    close(out.values, exp, 1e-9, "values")
    if ts is None:
        check_labels(out, arr, arr.dims)
        return
    rec.note()
    rec.label(c["method"])
    ensure(out.dims == ("time",) + arr.dims, "dims %s", out.dims)
    equal(out.coords["time"].values, ts, "time coordinate")
    check_labels(out.drop_vars("time"), arr, out.dims)


@st.composite
def untimed_case(draw):
    c = draw(labelled(time=False))
    c["specs"] = draw(m.tree_spec(min_frames=2, max_frames=4))
    c["a"], c["b"] = draw(m.pair(len(c["specs"])))
    c["method"] = draw(st.sampled_from(["points", "vectors", "quaternions"]))
    c["into"] = draw(st.booleans())
    return c


@facet(untimed_case(), quick=1200)
def untimed(c, rec):
    """No time axis: element-wise with all labels kept."""
    k = METHODS[c["method"]]
    arr = make(c, k)
    rfs = m.build(c["specs"])
    a, b = rfs[c["a"]], rfs[c["b"]]
    sa = c["dims"].index("space")
    fn = getattr(rbm, f"transform_{c['method']}")
    before = arr.copy(deep=True)
    kw = {}
    if arr.ndim > 1:
        kw["timestamps"] = False
    if c["style"] == "names":
        kw["dim"] = space_name(c, k)
    elif c["explicit"] or sa != arr.ndim - 1:
        kw["axis"] = sa - arr.ndim if c["neg"][0] else sa
    rec.note(c["extras"] or arr.ndim > 1)
    rec.label("own dim order", c["dims"][-1] != "space")
    rec.label("ndim>=3", arr.ndim > 2)
    exp = fn(arr.values, into=b, outof=a, axis=sa)
    t, q = (x[0] for x in m.compose(c["specs"], c["a"], c["b"], [0]))
    close(np.linalg.norm(np.moveaxis(exp, sa, -1) - (
        t if c["method"] == "points" else 0.0), axis=-1),
        np.linalg.norm(np.moveaxis(arr.values, sa, -1).astype(float),
                       axis=-1), 1e-5, "length")
    out = fn(arr, into=b.name if c["into"] else b, outof=a, **kw)
    close(out.values, exp, 1e-9, "values")
    check_labels(out, before, before.dims)
    ensure(arr.identical(before), "input changed")
    ensure(out.attrs.get("note") == "keep", "attributes lost")


# --- estimators --------------------------------------------------------------


@st.composite
def velocity_case(draw):
    c = draw(labelled(lo=6, hi=14))
    c["kind"] = draw(st.sampled_from(["linear", "angular"]))
    c["mode"] = draw(st.sampled_from(["quaternion", "rotation_vector"]))
    return c


@facet(velocity_case(), quick=1500)
def velocities(c, rec):
    k = 3 if c["kind"] == "linear" else 4
    arr = make(c, k)
    before = arr.copy(deep=True)
    lab, plain = kwargs_for(c, arr, k)
    kw = {} if k == 3 else {"mode": c["mode"]}
    fn = getattr(rbm, f"estimate_{c['kind']}_velocity")
    exp = fn(arr.values, timestamps=arr.time.values, **plain, **kw)
    out = fn(arr, **lab, **kw)
    rec.note(c["extras"] or c["dims"] != ["time", "space"])
    rec.label(c["kind"])
    rec.label("own dim order", c["dims"][0] != "time"
              or c["dims"][-1] != "space")
    close(out.values, exp, 1e-9, "values")
    if k == 3:
        check_labels(out, before, before.dims)
    else:
        sp = space_name(c, 4)
        check_labels(
            out, before,
            ["cartesian_axis" if d == sp else d for d in before.dims],
            drop=[sp], new=("cartesian_axis", ["x", "y", "z"]))
    ensure(out.attrs.get("note") == "keep", "attributes lost")


@facet(labelled(), quick=1000)
def shortest_arc(c, rec):
    a1 = make(c, 3)
    a2 = m.bulk(c["seed"] + 1, a1.shape, 2)
    sa = c["dims"].index("space")
    sp = space_name(c, 3)
    exp = rbm.shortest_arc_rotation(a1.values, a2, axis=sa)
    kw = {"dim": sp} if c["explicit"] or sa != a1.ndim - 1 else {}
    rec.note()
    for v2 in (a2, xr.DataArray(a2, dims=a1.dims, coords=a1.coords)):
        out = rbm.shortest_arc_rotation(a1, v2, **kw)
        close(out.values, exp, 1e-9, "values")
        check_labels(
            out, a1,
            ["quaternion_axis" if d == sp else d for d in a1.dims],
            drop=[sp], new=("quaternion_axis", ["w", "x", "y", "z"]))


@st.composite
def fit_case(draw):
    c = draw(labelled(lo=4, hi=10))
    c["fit"] = draw(st.sampled_from([
        "best_fit_rotation", "best_fit_transform",
        "iterative_closest_point"]))
    c["both"] = draw(st.booleans())
    return c


@facet(fit_case(), quick=800)
def fits(c, rec):
    a1 = make(c, 3)
    sa = c["dims"].index("space")
    sp = space_name(c, 3)
    q = m.bulk_unit(c["seed"], 4, 3)
    v = np.moveaxis(a1.values, sa, -1)
    a2 = np.moveaxis(m.qrot(q, v) + 0.1 * m.bulk(c["seed"], v.shape, 4), -1,
                     sa)
    fn = getattr(rbm, c["fit"])
    exp = fn(a1.values, a2, axis=sa)
    kw = {"dim": sp} if c["explicit"] or sa != a1.ndim - 1 else {}
    if c["both"]:
        a2 = xr.DataArray(a2, dims=a1.dims, coords=a1.coords)
    out = fn(a1, a2, **kw)
    rec.note()
    rec.label(c["fit"])
    if c["fit"] == "best_fit_rotation":
        exp, out = (exp,), (out,)
        names = ["rotation"]
    else:
        names = ["translation", "rotation"]
    ensure(len(out) == len(exp), "number of results")
    for e, o, name in zip(exp, out, names):
        ensure(isinstance(o, xr.DataArray), "%s is a %s", name, type(o))
        close(o.values, e, 1e-9, name)
        d, labels = SPATIAL[3 if name == "translation" else 4]
        ensure(o.dims == (d,) and o.name == name, "%s: dims %s name %s",
               name, o.dims, o.name)
        equal(o.coords[d].values, labels, f"labels of {name}")


# --- coordinate systems ------------------------------------------------------

LABELS = {
    ("cartesian", 2): ("cartesian_axis", ["x", "y"]),
    ("polar", 2): ("polar_axis", ["r", "phi"]),
    ("cartesian", 3): ("cartesian_axis", ["x", "y", "z"]),
    ("spherical", 3): ("spherical_axis", ["r", "theta", "phi"]),
}


@st.composite
def coordinate_case(draw):
    c = draw(labelled(time=draw(st.booleans())))
    c["pair"] = draw(st.sampled_from([
        ["cartesian", "polar"], ["polar", "cartesian"],
        ["cartesian", "spherical"], ["spherical", "cartesian"]]))
    c["attr"] = draw(st.sampled_from([None, "same", "omit"]))
    c["replace"] = draw(st.booleans())
    return c


@facet(coordinate_case(), quick=1200)
def coordinates(c, rec):
    old, new = c["pair"]
    k = 2 if "polar" in c["pair"] else 3
    arr = make(c, k)
    sp = space_name(c, k)
    if not c["custom"]:
        d, labels = LABELS[(old, k)]
        arr = arr.rename({sp: d}).assign_coords({d: labels})
        sp = d
    if c["attr"]:
        arr.attrs["coordinate_system"] = old
    before = arr.copy(deep=True)
    sa = c["dims"].index("space")
    kw = {"dim": sp} if c["explicit"] or sa != arr.ndim - 1 else {}
    if not c["replace"]:
        kw["replace_dim"] = False
    if c["attr"] != "omit":
        kw["outof"] = old
    rec.note()
    rec.label(f"{old} to {new}")
    exp = rbm.transform_coordinates(arr.values, new, old, axis=sa)
    out = rbm.transform_coordinates(arr, new, **kw)
    close(out.values, exp, 1e-9, "values")
    if c["replace"]:
        d, labels = LABELS[(new, k)]
        check_labels(out, before, [d if x == sp else x for x in arr.dims],
                     drop=[sp], new=(d, labels))
    else:
        check_labels(out, before, before.dims)
    attrs = dict(before.attrs)
    if c["attr"]:
        attrs["coordinate_system"] = new
    ensure(dict(out.attrs) == attrs, "attributes %s, expected %s",
           dict(out.attrs), attrs)
