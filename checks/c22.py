"""C22: shortest-arc rotation."""

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import model as m
from lib.common import plain
from lib.harness import close, ensure, equal, facet

PROPERTY = "C22"
RULE = (
    "Pairs of vectors at a drawn angle: generic, parallel, antiparallel, "
    "within 1e-12 to 1e-3 of either, orthogonal, along coordinate axes; "
    "lengths 1e-50 to 1e50; arrays of one to four dimensions with the "
    "spatial axis anywhere, integer arrays of 8 to 64 bits, lists and "
    "DataArrays, one vector against many. Oracle: the result rotates the first direction into the "
    "second, by the angle between them, about an orthogonal axis, and is of "
    "unit norm. Non-trivial: angle neither 0 nor a right angle."
)

ANGLES = [0.0, np.pi, np.pi / 2, np.pi / 3, 3.0]


@st.composite
def angle(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return draw(st.sampled_from(ANGLES))
    if kind == 1:
        return draw(st.integers(1, 313)) / 100
    d = 10.0 ** -draw(st.integers(3, 12)) * draw(st.integers(1, 9))
    return d if kind == 2 else float(np.pi - d)


@st.composite
def arc_case(draw):
    shape = draw(st.lists(st.integers(1, 3), max_size=3))
    n = int(np.prod(shape)) if shape else 1
    return dict(
        shape=shape, seed=draw(m.seeds),
        angles=draw(st.lists(angle(), min_size=n, max_size=n)),
        scales=[draw(st.sampled_from([0, 0, 3, -3, 20, -20, 50, -50]))
                for _ in range(2)],
        axis=draw(st.integers(0, 3)), neg=draw(st.booleans()),
        default=draw(st.booleans()), align=draw(st.booleans()),
        form=draw(st.sampled_from(["array", "array", "list", "dataarray"])),
        one=draw(st.sampled_from([None, None, "v1", "v2"])),
    )


def frame_of(case, n):
    """n first directions and orthogonal directions."""
    r = m.rng(case["seed"], 1)
    e = np.stack([np.linalg.qr(r.normal(size=(3, 3)))[0] for _ in range(n)])
    if case["align"]:
        e = np.stack([np.eye(3)[r.permutation(3)] * r.choice([-1, 1], (3, 1))
                      for _ in range(n)])
    return e[:, 0], e[:, 1]


def lengths(case, i, n):
    r = m.rng(case["seed"], 2, i)
    return r.uniform(1, 9, (n, 1)) * 10.0 ** case["scales"][i]


def verify(q, v1, v2, what):
    """Unit quaternion with the defining properties."""
    ensure(not np.any(np.isnan(q)), "%s: NaN", what)
    close(np.linalg.norm(q, axis=-1), np.ones(q.shape[:-1]), 1e-12,
          f"{what}: norm")
    d1, d2 = m.unit(v1 / np.max(np.abs(v1), -1, keepdims=True)), m.unit(
        v2 / np.max(np.abs(v2), -1, keepdims=True))
    # close to antiparallel, the axis can only be found to eps / distance
    gap = np.linalg.norm(d1 + d2, axis=-1)
    tol = np.where(gap > 1e-3, 1e-11, 1e-7)
    err = np.linalg.norm(m.qrot(q, d1) - d2, axis=-1)
    ensure(np.all(err <= tol), "%s: rotated vector is off by %s", what,
           float(err.max()))
    ang = 2 * np.arctan2(np.linalg.norm(q[..., 1:], axis=-1),
                         np.abs(q[..., 0]))
    exp = 2 * np.arctan2(np.linalg.norm(d1 - d2, axis=-1), gap)
    ensure(np.all(np.abs(ang - exp) <= tol), "%s: angle %s, expected %s",
           what, ang, exp)
    ortho = [np.abs(np.sum(q[..., 1:] * d, -1)) for d in (d1, d2)]
    ensure(np.all(ortho[0] <= tol) and np.all(ortho[1] <= 2 * tol),
           "%s: axis not orthogonal", what)


@facet(arc_case(), quick=5000)
def arc(case, rec):
    shape = tuple(case["shape"])
    n = int(np.prod(shape)) if shape else 1
    a, b = frame_of(case, n)
    ang = np.array(case["angles"])[:, None]
    v1 = a * lengths(case, 0, n)
    cos, sin = np.cos(ang), np.sin(ang)
    if case["align"]:
        cos = np.where(np.abs(cos) < 1e-15, 0.0, cos)
        sin = np.where(np.abs(sin) < 1e-15, 0.0, sin)
    v2 = (a * cos + b * sin) * lengths(case, 1, n)
    v1, v2 = (v.reshape(shape + (3,)) for v in (v1, v2))
    # one vector against many: of the same dimensions, or just one
    if case["one"] == "v1":
        v1 = v1[(slice(0, 1),) * len(shape)]
    elif case["one"] == "v2":
        v2 = v2[(slice(0, 1),) * len(shape)]
    rec.note(np.any((np.abs(sin) > 1e-9) & (np.abs(cos) > 1e-9)))
    rec.label("antiparallel", np.any((np.abs(sin) < 1e-12) & (cos < 0)))
    rec.label("nearly antiparallel", np.any(
        (np.abs(sin) < 1e-2) & (sin > 1e-12) & (cos < 0)))
    rec.label("parallel", np.any((np.abs(sin) < 1e-12) & (cos > 0)))
    rec.label("one against many", case["one"] and n > 1)
    kw, ax = {}, v1.ndim - 1
    if not case["default"]:
        ax = case["axis"] % v1.ndim
        kw = {"axis": ax - v1.ndim if case["neg"] else ax}
        rec.label("axis not last", ax != v1.ndim - 1)
    x1, x2 = (np.moveaxis(v, -1, ax) for v in (v1, v2))
    before = x1.copy(), x2.copy()
    if case["form"] == "list":
        out = rbm.shortest_arc_rotation(x1.tolist(), x2.tolist(), **kw)
        plain(out, "shortest arc")
    elif case["form"] == "dataarray" and case["one"] != "v1":
        rec.label("DataArray")
        dims = [f"d{i}" for i in range(x1.ndim)]
        dims[ax] = "cartesian_axis"
        d1 = xr.DataArray(x1, {"cartesian_axis": list("xyz")}, dims)
        out = rbm.shortest_arc_rotation(d1, x2, dim="cartesian_axis")
        dims[ax] = "quaternion_axis"
        ensure(out.dims == tuple(dims), "dims %s", out.dims)
        equal(out.coords["quaternion_axis"].values, list("wxyz"), "labels")
        out = out.values
    else:
        out = rbm.shortest_arc_rotation(x1, x2, **kw)
        plain(out, "shortest arc")
    out = np.asarray(out)
    bshape = np.broadcast_shapes(v1.shape, v2.shape)
    ensure(np.moveaxis(out, ax, -1).shape == bshape[:-1] + (4,),
           "shape %s for %s and %s", out.shape, x1.shape, x2.shape)
    equal(x1, before[0], "input")
    equal(x2, before[1], "input")
    verify(np.moveaxis(out, ax, -1), *np.broadcast_arrays(v1, v2),
           "shortest arc")


@st.composite
def int_case(draw):
    ints = st.lists(st.integers(-4, 4), min_size=3, max_size=3).filter(any)
    return dict(v1=draw(ints), v2=draw(st.lists(ints, min_size=1,
                                                max_size=5)),
                swap=draw(st.booleans()), k=draw(st.sampled_from([1, 2, -3])),
                rel=draw(st.booleans()), f=draw(st.booleans()))


@facet(int_case(), quick=1500)
def one_vector(case, rec):
    """A single vector (1-D) against an array, integers."""
    v1, v2 = np.array(case["v1"]), np.array(case["v2"])
    if case["rel"]:
        v2[0] = v1 * case["k"]
    if case["f"]:
        v1, v2 = v1.astype(float), v2.astype(float)
    rec.note(np.any(np.cross(v1, v2)))
    rec.label("antiparallel", case["rel"] and case["k"] < 0)
    args = (v2, v1) if case["swap"] else (v1, v2)
    out = np.asarray(rbm.shortest_arc_rotation(*args))
    ensure(out.shape == (len(v2), 4), "shape %s", out.shape)
    verify(out, *np.broadcast_arrays(*[np.asarray(a, float) for a in args]),
           "one vector")
    # the rotation works with the library's own rotation
    first = np.broadcast_to(args[0], (len(v2), 3)).astype(float)
    d = np.asarray(rbm.rotate_vectors(out, first))
    d2 = np.broadcast_to(args[1], (len(v2), 3)).astype(float)
    close(m.unit(d), m.unit(d2), 1e-7, "rotated vectors")


INTS = {"i1": 100, "i2": 30000, "i4": 10**9, "i8": 10**8, "u1": 250}


@st.composite
def bits_case(draw):
    kinds = st.sampled_from(sorted(INTS))
    return dict(types=[draw(kinds), draw(kinds)], n=draw(st.integers(1, 5)),
                seed=draw(m.seeds), few=draw(st.booleans()))


@facet(bits_case(), quick=600)
def bits(case, rec):
    """Integers of any size, as from raw sensor data."""
    r = m.rng(case["seed"], 1)
    arrs = []
    for k in case["types"]:
        top = 2 if case["few"] else INTS[k]
        v = r.integers(0 if k[0] == "u" else -top, top + 1, (case["n"], 3))
        v[~v.any(axis=1), 0] = 1
        arrs.append(v * (INTS[k] // top))
    v1, v2 = (v.astype(k) for v, k in zip(arrs, case["types"]))
    rec.note()
    rec.label("/".join(case["types"]))
    verify(np.asarray(rbm.shortest_arc_rotation(v1, v2)),
           *[v.astype(float) for v in arrs], "integers")
