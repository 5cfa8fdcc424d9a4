"""C17: coordinate system conversions are mutually inverse."""

import math

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.harness import close, ensure, facet, raises

PROPERTY = "C17"
RULE = (
    "Points with coordinates that are zero, signed zero, small integers, "
    "generic, tiny or huge (1e-100 to 1e100) or close to an axis, in arrays "
    "of one to four dimensions with the coordinates along any axis "
    "(positive or negative), as arrays, integer arrays or lists, by function "
    "and by system name. Oracle: scalar formulas of ISO 80000-2 with the "
    "math module; round trips. Non-trivial: not all coordinates zero."
)

value = st.one_of(
    st.sampled_from([0.0, -0.0, 1.0, -1.0]),
    st.integers(-5, 5).map(float),
    st.integers(-4000, 4000).map(lambda i: i / 64),
    st.sampled_from([1e-100, -1e-100, 1e100, -1e100, 1e-12, -1e-9, 1e-5]),
)


@st.composite
def array_case(draw):
    shape = draw(st.lists(st.integers(1, 3), max_size=3))
    k = draw(st.sampled_from([2, 3]))
    n = math.prod(shape)
    if draw(st.integers(0, 3)):
        pts = draw(st.lists(st.lists(value, min_size=k, max_size=k),
                            min_size=n, max_size=n))
        kind = draw(st.sampled_from(["float", "float", "big", "f4"]))
        if kind == "f4":
            pts = [[x if 1e-30 < abs(x) < 1e30 or x == 0 else 1.0
                    for x in np.float32(p).tolist()] for p in pts]
    else:
        pts = draw(st.lists(st.lists(st.integers(-9, 9), min_size=k,
                                     max_size=k), min_size=n, max_size=n))
        kind = "int"
    axis = draw(st.integers(-len(shape) - 1, len(shape)))
    lost = draw(st.one_of(st.none(), st.none(), st.integers(0, n * k - 1)))
    return dict(shape=shape, k=k, pts=pts, axis=axis, kind=kind,
                lost=lost,
                default=draw(st.booleans()),
                form=draw(st.sampled_from(["array", "list", "name"])))


DTYPES = dict(int=int, float=float, f4=np.float32, big=">f8")


def to_array(case):
    a = np.array(case["pts"], DTYPES[case["kind"]])
    if case["lost"] is not None and case["kind"] != "int":
        a.flat[case["lost"]] = np.nan
    a = a.reshape(tuple(case["shape"]) + (case["k"],))
    axis = -1 if case["default"] else case["axis"]
    return np.moveaxis(a, -1, axis), axis


SYSTEMS = {2: "polar", 3: "spherical"}


def call(case, old, new, arr, axis):
    if case["form"] == "list":
        arr = arr.tolist()
    kw = {} if axis == -1 and case["default"] else {"axis": axis}
    if case["form"] == "name":
        out = rbm.transform_coordinates(arr, new, old, **kw)
    else:
        out = getattr(rbm, f"{old}_to_{new}")(arr, **kw)
    ensure(np.shape(out) == np.shape(arr), "shape %s for %s", np.shape(out),
           np.shape(arr))
    return np.moveaxis(np.asarray(out), axis, -1).reshape(-1, case["k"])


def incomplete(case, i, out, rec):
    """Whether an element of point i is missing (and then in the result)."""
    if case["lost"] is None or case["kind"] == "int":
        return False
    if i != case["lost"] // case["k"]:
        return False
    rec.label("missing element")
    ensure(np.isnan(out).any(), "point %d with a missing element becomes %s",
           i, out.tolist())
    return True


def relerr(a, b, scale, tol=1e-11):
    return abs(a - b) <= tol * scale


@facet(array_case(), quick=3000)
def from_cartesian(case, rec):
    new = SYSTEMS[case["k"]]
    arr, axis = to_array(case)
    before = arr.copy()
    out = call(case, "cartesian", new, arr, axis)
    rec.note(np.any(arr))
    tol = 2e-6 if case["kind"] == "f4" else 1e-11
    rec.label(new)
    rec.label("axis not last", axis % arr.ndim != arr.ndim - 1)
    for i, (p, o) in enumerate(zip(case["pts"], out)):
        if incomplete(case, i, o, rec):
            continue
        r = math.hypot(*p)
        rec.label("origin", r == 0)
        rec.label("on z axis", len(p) == 3 and p[0] == p[1] == 0 != p[2])
        ensure(relerr(o[0], r, r, tol), "radius of %s is %r, expected %r", p,
               float(o[0]), r)
        phi = math.atan2(p[1], p[0])
        ensure(abs(o[-1] - phi) <= tol, "azimuth of %s is %r, expected %r",
               p, float(o[-1]), phi)
        if len(p) == 3:
            th = math.atan2(math.hypot(p[0], p[1]), p[2])
            ensure(abs(o[1] - th) <= tol, "polar angle of %s is %r, "
                   "expected %r", p, float(o[1]), th)
    ensure(np.array_equal(arr, before, equal_nan=True), "input changed")
    # and back
    c = dict(case)
    back = call(c, new, "cartesian",
                np.moveaxis(out.reshape(tuple(case["shape"]) + (case["k"],)),
                            -1, axis), axis)
    for i, (p, b) in enumerate(zip(case["pts"], back)):
        if incomplete(case, i, b, rec):
            continue
        r = math.hypot(*p)
        ensure(all(relerr(x, y, r, 2 * tol) for x, y in zip(b, p)),
               "%s becomes %s after converting back", p, b.tolist())


@st.composite
def angle_case(draw):
    case = draw(array_case())
    n = math.prod(case["shape"])
    case["lost"] = draw(st.one_of(
        st.none(), st.none(), st.integers(0, n * case["k"] - 1)))
    if case["kind"] == "int":
        # radius and angles within range
        part = [st.integers(0, 9), st.integers(0, 3), st.integers(-3, 3)]
        if case["k"] == 2:
            part.pop(1)
        case["pts"] = [list(draw(st.tuples(*part))) for _ in range(n)]
        return case
    case["kind"] = "float"
    radius = st.one_of(st.sampled_from([0.0, 1.0, 1e-100, 1e100]),
                       st.integers(1, 1000).map(lambda i: i / 16))
    azimuth = st.one_of(
        st.sampled_from([0.0, math.pi, -math.pi, math.pi / 2,
                         -math.pi / 2]),
        st.integers(-400, 400).map(lambda i: i / 32))
    polar = st.one_of(
        st.sampled_from([0.0, math.pi, math.pi / 2, 1e-9, math.pi - 1e-9]),
        st.integers(0, 100).map(lambda i: i * math.pi / 100))
    parts = [radius] + ([polar] if case["k"] == 3 else []) + [azimuth]
    case["pts"] = [list(draw(st.tuples(*parts))) for _ in range(n)]
    return case


@facet(angle_case(), quick=2000)
def to_cartesian(case, rec):
    old = SYSTEMS[case["k"]]
    arr, axis = to_array(case)
    out = call(case, old, "cartesian", arr, axis)
    rec.note(np.any(arr))
    rec.label(old)
    for i, (p, o) in enumerate(zip(case["pts"], out)):
        if incomplete(case, i, o, rec):
            continue
        r, phi = p[0], p[-1]
        if len(p) == 2:
            exp = [r * math.cos(phi), r * math.sin(phi)]
        else:
            th = p[1]
            exp = [r * math.sin(th) * math.cos(phi),
                   r * math.sin(th) * math.sin(phi), r * math.cos(th)]
        ensure(all(relerr(x, y, r) for x, y in zip(o, exp)),
               "%s becomes %s, expected %s", p, o.tolist(), exp)
    # back gives an equivalent point in the standard ranges
    back = call(case, "cartesian", old, np.moveaxis(
        out.reshape(tuple(case["shape"]) + (case["k"],)), -1, axis), axis)
    for i, (p, b) in enumerate(zip(case["pts"], back)):
        if incomplete(case, i, b, rec):
            continue
        r = p[0]
        ensure(relerr(b[0], r, r), "radius %r becomes %r", r, float(b[0]))
        ensure(-math.pi - 1e-12 <= b[-1] <= math.pi + 1e-12,
               "azimuth %r out of range", float(b[-1]))
        if r == 0:
            continue
        rho = r
        if len(p) == 3:
            ensure(0 <= b[1] <= math.pi, "polar angle %r", float(b[1]))
            ensure(abs(b[1] - p[1]) < 1e-9, "polar angle %r becomes %r",
                   p[1], float(b[1]))
            rho = math.sin(p[1])
        else:
            rho = 1.0
        d = (b[-1] - p[-1]) / (2 * math.pi)
        if rho > 1e-6:
            ensure(abs(d - round(d)) < 1e-9, "azimuth %r becomes %r", p[-1],
                   float(b[-1]))


@st.composite
def bad_case(draw):
    systems = ["cartesian", "polar", "spherical", "cylindrical", "Polar", ""]
    return dict(
        old=draw(st.sampled_from(systems)), new=draw(st.sampled_from(systems)),
        k=draw(st.integers(1, 5)), n=draw(st.integers(1, 4)),
        first=draw(st.booleans()), seed=draw(m.seeds))


@facet(bad_case(), quick=500, shards=4)
def rejected(case, rec):
    """Unsupported conversions and lengths are errors."""
    need = {("cartesian", "polar"): 2, ("polar", "cartesian"): 2,
            ("cartesian", "spherical"): 3, ("spherical", "cartesian"): 3}
    arr = m.bulk(case["seed"], (case["n"], case["k"]), 1)
    kw = {}
    if case["first"]:
        arr, kw = arr.T, {"axis": 0}
    k = need.get((case["old"], case["new"]))
    rec.note()

    def fn():
        return rbm.transform_coordinates(arr, case["new"], case["old"], **kw)

    if k is None:
        rec.label("unsupported conversion")
        raises(fn, ValueError, what="unsupported conversion")
    elif k != case["k"]:
        rec.label("wrong length")
        raises(fn, ValueError, what="wrong length")
        raises(lambda: getattr(rbm, f"{case['old']}_to_{case['new']}")(
            arr, **kw), ValueError, what="wrong length")
    else:
        close(fn(), getattr(rbm, f"{case['old']}_to_{case['new']}")(
            arr, **kw), 0, "by name")
        raises(lambda: rbm.transform_coordinates(arr, case["new"], **kw),
               ValueError, what="source system missing")
