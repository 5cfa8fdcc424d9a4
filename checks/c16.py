"""C16: frame metadata follows the transformations."""

import warnings

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import model as m
from lib import motion as mo
from lib.harness import close, ensure, equal, facet, raises

PROPERTY = "C16"
RULE = (
    "Labelled points, vectors, orientations and velocities whose attributes "
    "state any subset of reference, moving and representation frame, "
    "consistent or not, transformed between frames of trees of static and "
    "moving frames given by name or object, source frame given or omitted; "
    "chains of transformations; all lookups with labelled output. Oracle: "
    "independent model of the attributes and warnings; plain lookups. "
    "Non-trivial: at least one frame attribute is set (transforms), frames "
    "differ (lookups)."
)

METHODS = {
    "points": "reference_frame", "quaternions": "reference_frame",
    "vectors": "representation_frame", "angular_velocity": None,
    "linear_velocity": None,
}
FRAMES = ("reference_frame", "moving_frame", "representation_frame")


@st.composite
def meta_case(draw):
    case = draw(mo.smooth_tree(min_frames=3, lo=12, hi=15))
    n = len(case["specs"])
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        steps.append(dict(
            method=draw(st.sampled_from(sorted(METHODS))),
            what=draw(st.sampled_from(FRAMES)),
            outof=draw(st.one_of(st.none(), st.integers(0, n - 1))),
            into=draw(st.integers(0, n - 1)),
            by_name=draw(st.booleans())))
    case["steps"] = steps
    case["attrs"] = {
        f: draw(st.one_of(st.none(), st.integers(0, n - 1)))
        for f in FRAMES}
    case["extra"] = draw(st.booleans())
    case["seed"] = draw(m.seeds)
    case["dims"] = draw(st.permutations(["time", "axis"]))
    return case


def make(case, k, attrs):
    n = len(case["grid"])
    data = m.bulk_unit(case["seed"], (n, 4), 1) if k == 4 else m.bulk(
        case["seed"], (n, 3), 1)
    name = "quaternion_axis" if k == 4 else "cartesian_axis"
    da = xr.DataArray(
        data, {"time": m.to_time(case["base"], case["grid"]),
               name: ["w", "x", "y", "z"][4 - k:]},
        ("time", name), attrs=attrs)
    return da.transpose(*(name if d == "axis" else d for d in case["dims"]))


@facet(meta_case(), quick=2000)
def transforms(case, rec):
    rfs = mo.build(case)
    names = [r.name for r in rfs]
    for step in case["steps"]:
        k = 4 if step["method"] == "quaternions" else 3
        attrs = {f: names[i] for f, i in case["attrs"].items()
                 if i is not None}
        if case["extra"]:
            attrs.update(units="m", custom=5)
        da = make(case, k, dict(attrs))
        kw = {"dim": [d for d in da.dims if d != "time"][0],
              "timestamps": "time"}
        what = METHODS[step["method"]]
        if what is None:
            what = kw["what"] = step["what"]
            if step["method"] == "linear_velocity":
                kw.update(moving_frame=rfs[0], reference_frame=rfs[0])
        fn = getattr(rbm, f"transform_{step['method']}")
        into = m.fref(rfs, step["into"], step["by_name"])
        into_name = names[step["into"]]
        given = step["outof"]
        rec.note(any(f in attrs for f in FRAMES))
        rec.label(step["method"])
        if given is None and what not in attrs:
            raises(lambda: fn(da, into=into, **kw), ValueError,
                   what="no source frame given or stated")
            rec.label("nothing stated")
            continue
        src = rfs[given] if given is not None else rfs[
            names.index(attrs[what])]
        full = {} if given is None else {
            "outof": m.fref(rfs, given, step["by_name"])}
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            out = fn(da, into=into, **full, **kw)
        about = [str(w.message) for w in caught
                 if issubclass(w.category, UserWarning)
                 and what in str(w.message)]
        mismatch = given is not None and what in attrs and (
            attrs[what] != src.name)
        rec.label("mismatch", mismatch)
        ensure(bool(about) == bool(mismatch), "%s: stated %s, source %s, "
               "warnings %s", what, attrs.get(what), src.name, about)
        exp = dict(attrs)
        exp[what] = into_name
        exp["representation_frame"] = into_name
        ensure(dict(out.attrs) == exp, "attributes %s, expected %s",
               dict(out.attrs), exp)
        ensure(dict(da.attrs) == attrs, "attributes of the input changed "
               "to %s", dict(da.attrs))
        # values: as with the explicit source frame for the plain array
        ta = da.dims.index("time")
        plain_kw = {x: v for x, v in kw.items()
                    if x not in ("dim", "timestamps")}
        vals, ts = fn(da.values, into=into, outof=src, axis=1 - ta,
                      time_axis=ta, timestamps=da.time.values,
                      return_timestamps=True, **plain_kw)
        equal(out.time.values, ts, "timestamps")
        close(out.values, vals, 1e-9, "values")


@facet(meta_case(), quick=700)
def chained(case, rec):
    """Attributes carry the source frame from one transform to the next."""
    rfs = mo.build(case)
    method = case["steps"][0]["method"]
    what = METHODS[method] or case["steps"][0]["what"]
    k = 4 if method == "quaternions" else 3
    if method.endswith("velocity"):
        what = "representation_frame"
    start = case["attrs"]["reference_frame"] or 0
    da = make(case, k, {what: rfs[start].name})
    fn = getattr(rbm, f"transform_{method}")
    kw = {"what": what} if method.endswith("velocity") else {}
    dim = [d for d in da.dims if d != "time"][0]
    stops = [s["into"] for s in case["steps"]] + [start]
    out = da
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        for s in stops:
            out = fn(out, into=rfs[s].name, dim=dim, timestamps="time", **kw)
    ensure(not [w for w in caught if what in str(w.message)],
           "warning for consistent attributes")
    rec.note(len(set(stops)) > 1)
    idx = [case["grid"].index(x)
           for x in m.from_time(case["base"], out.time.values)]
    rec.label("cut", len(idx) < len(case["grid"]))
    exp = da.isel(time=idx).values
    got = out.values
    if k == 4:
        ax = da.dims.index(dim)
        sign = np.sign(np.sum(got * exp, axis=ax, keepdims=True))
        got = got * sign
    close(got, exp, 1e-8, "values after returning to the first frame")
    ensure(out.attrs[what] == rfs[start].name, "%s is %s", what,
           out.attrs[what])


@st.composite
def lookup_case(draw):
    case = draw(mo.smooth_tree(min_frames=2, lo=12, hi=16))
    n = len(case["specs"])
    case["a"], case["ref"] = draw(m.pair(n))
    case["rep"] = draw(st.integers(0, n - 1))
    case["by_name"] = draw(st.booleans())
    case["defaults"] = draw(st.booleans())
    return case


LABELS = {"cartesian_axis": ["x", "y", "z"],
          "quaternion_axis": ["w", "x", "y", "z"]}


def check_array(da, values, ts, axis, attrs, what):
    ensure(isinstance(da, xr.DataArray), "%s is %s", what, type(da))
    dims = ("time", axis) if ts is not None else (axis,)
    ensure(da.dims == dims, "%s: dims %s", what, da.dims)
    close(da.values, values, 1e-12, what)
    equal(da.coords[axis].values, LABELS[axis], f"{what}: labels")
    if ts is not None:
        equal(da.coords["time"].values, ts, f"{what}: time")
    for key, val in attrs.items():
        ensure(da.attrs.get(key) == val, "%s: attribute %s is %r, expected "
               "%r", what, key, da.attrs.get(key), val)


@facet(lookup_case(), quick=1500)
def lookups(case, rec):
    specs = case["specs"]
    rfs = mo.build(case)
    a, ref, rep = (m.fref(rfs, case[x], case["by_name"])
                   for x in ("a", "ref", "rep"))
    na, nref, nrep = (rfs[case[x]].name for x in ("a", "ref", "rep"))
    rec.note(case["a"] != case["ref"])
    # pose
    p, o, ts = rbm.lookup_pose(a, ref, return_timestamps=True)
    ds = rbm.lookup_pose(a, ref, as_dataset=True)
    frames = dict(reference_frame=nref, representation_frame=nref)
    ensure(set(ds.data_vars) == {"position", "orientation"}, "variables %s",
           list(ds.data_vars))
    check_array(ds.position, p, ts, "cartesian_axis", dict(
        frames, motion_type="position", units="m"), "position")
    check_array(ds.orientation, o, ts, "quaternion_axis", dict(
        frames, motion_type="orientation"), "orientation")
    # transform
    t, r, ts = rbm.lookup_transform(a, ref, return_timestamps=True)
    ds = rbm.lookup_transform(a, ref, as_dataset=True)
    frames = dict(reference_frame=na, representation_frame=na)
    ensure(set(ds.data_vars) == {"translation", "rotation"}, "variables %s",
           list(ds.data_vars))
    check_array(ds.translation, t, ts, "cartesian_axis", dict(
        frames, motion_type="translation", units="m"), "translation")
    check_array(ds.rotation, r, ts, "quaternion_axis", dict(
        frames, motion_type="rotation"), "rotation")
    if m.lookup_ticks(specs, case["a"], case["ref"]) is None:
        return
    rec.label("velocities")
    args = (a, ref, rep)
    frames = dict(reference_frame=nref, representation_frame=nrep,
                  moving_frame=na)
    if case["defaults"]:
        args = (a, ref)
        frames["representation_frame"] = nref
        s = specs[case["a"]]
        if s["kind"] == "moving":
            args = (a,)
            frames["reference_frame"] = frames["representation_frame"] = (
                rfs[s["parent"]].name)
    for kind in ("linear", "angular"):
        fn = getattr(rbm, f"lookup_{kind}_velocity")
        v, ts = fn(*args, return_timestamps=True)
        da = fn(*args, as_dataarray=True)
        check_array(da, v, ts, "cartesian_axis", dict(
            frames, motion_type=f"{kind}_velocity",
            units="m/s" if kind == "linear" else "rad/s"), kind)
        ensure(da.name == f"{kind}_velocity", "name %s", da.name)
    lin, ang, ts = rbm.lookup_twist(*args, return_timestamps=True)
    ds = rbm.lookup_twist(*args, as_dataset=True)
    ensure(set(ds.data_vars) == {"linear_velocity", "angular_velocity"},
           "variables %s", list(ds.data_vars))
    check_array(ds.linear_velocity, lin, ts, "cartesian_axis", dict(
        frames, motion_type="linear_velocity", units="m/s"), "twist linear")
    check_array(ds.angular_velocity, ang, ts, "cartesian_axis", dict(
        frames, motion_type="angular_velocity", units="rad/s"),
        "twist angular")
    # values with analytic motion: labels belong to the right data
    full = mo.seconds(case, m.lookup_ticks(specs, case["a"], case["ref"]))
    if len(args) == 3:
        sec = mo.seconds(case, m.from_time(case["base"], ts))
        v, w = mo.twist(case, case["a"], case["ref"], case["rep"], sec)
        bl, bw = mo.bounds(case, case["a"], case["ref"], full)
        for da, true, b in ((ds.linear_velocity, v, bl),
                            (ds.angular_velocity, w, bw)):
            err = np.linalg.norm(da.values - true, axis=-1)
            ensure(np.all(err <= b[1] + b[0]), "%s differs by %g", da.name,
                   float(err.max()))
