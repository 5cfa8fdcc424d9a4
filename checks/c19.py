"""C19: Euler angles."""

import itertools
import math

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st
from quaternion import as_float_array, quaternion

from lib import model as m
from lib.harness import close, ensure, equal, facet, raises

PROPERTY = "C19"
RULE = (
    "Angles that are zero, multiples of pi/2, generic or beyond a turn, for "
    "all subsets of roll, pitch and yaw and the six orders (or the default), "
    "scalars and arrays of up to three dimensions, integer arrays and lists, "
    "angles together along any axis or separately, both dtypes. Oracle: "
    "product of elementary rotation matrices and of half-angle quaternions. "
    "Non-trivial: at least two angles that are not multiples of pi."
)

ORDERS = ["".join(p) for p in itertools.permutations("rpy")]
angle = st.one_of(
    st.sampled_from([0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2,
                     2 * math.pi, math.pi / 4]),
    st.integers(-320, 320).map(lambda i: i / 100),
    st.integers(-500, 500).map(lambda i: i / 16),
    st.sampled_from([1e-3, 1e-4, -1e-4, 1e-5, 1e-6, -1e-6, 1e-7]),
)


def elementary(k, a):
    """Rotation by a about axis k."""
    q = np.zeros(np.shape(a) + (4,))
    q[..., 0] = np.cos(np.asarray(a) / 2)
    q[..., 1 + k] = np.sin(np.asarray(a) / 2)
    return q


def matrix(k, a):
    c, s = np.cos(a), np.sin(a)
    o, z = np.ones_like(c), np.zeros_like(c)
    rows = {
        0: [[o, z, z], [z, c, -s], [z, s, c]],
        1: [[c, z, s], [z, o, z], [-s, z, c]],
        2: [[c, -s, z], [s, c, z], [z, z, o]],
    }[k]
    return np.stack([np.stack(r, -1) for r in rows], -2)


@st.composite
def euler_case(draw):
    shape = draw(st.lists(st.integers(1, 3), max_size=2))
    n = math.prod(shape)
    return dict(
        shape=shape,
        angles=draw(st.lists(st.lists(angle, min_size=3, max_size=3),
                             min_size=n, max_size=n)),
        which=draw(st.sampled_from(
            [[0, 1, 2]] * 3 + [[0], [1], [2], [0, 1], [1, 2], [0, 2]])),
        order=draw(st.sampled_from(ORDERS + [None])),
        axis=draw(st.integers(0, 2)), neg=draw(st.booleans()),
        default=draw(st.booleans()), quat=draw(st.booleans()),
        form=draw(st.sampled_from(["array", "list", "int"])),
        mixed=draw(st.booleans()),
    )


@facet(euler_case(), quick=5000)
def conversion(case, rec):
    shape = tuple(case["shape"])
    a = np.array(case["angles"]).reshape(shape + (3,))
    if case["form"] == "int":
        a = np.round(a).astype(int)
    which = case["which"]
    order = case["order"] or "rpy"
    expected = np.broadcast_to([1.0, 0, 0, 0], shape + (4,))
    mat = np.broadcast_to(np.eye(3), shape + (3, 3))
    for c in order:
        k = "rpy".index(c)
        if k in which:
            expected = m.qmul(expected, elementary(k, a[..., k]))
            mat = mat @ matrix(k, a[..., k].astype(float))
    rec.note(np.any(np.sum(np.abs(np.sin(a[..., which])) > 1e-6, -1) > 1))
    rec.label("order " + order)
    rec.label("single angle", len(which) == 1)
    kw = {} if case["order"] is None else {"order": order}
    if case["quat"]:
        kw["return_quaternion"] = True

    def check(out, what, back=lambda q: q):
        if case["quat"]:
            ensure(np.asarray(out).dtype == quaternion, "%s: dtype", what)
            q = as_float_array(out)
        else:
            out = np.asarray(out)
            ensure(out.dtype.kind == "f", "%s: dtype", what)
            q = back(out)
        close(np.linalg.norm(q, axis=-1), np.ones(shape), 1e-12,
              f"{what}: norm")
        close(q, expected, 1e-12, what)
        close(m.qmat(q), mat, 1e-12, f"{what}: matrix")
        v = np.broadcast_to([1.0, -2.0, 0.5], shape + (3,))
        close(rbm.rotate_vectors(q, v),
              np.einsum("...ij,...j->...i", mat, v), 1e-11,
              f"{what}: rotated vectors")

    def conv(x):
        return x.tolist() if case["form"] == "list" else x

    # separate angles
    sep = {("roll", "pitch", "yaw")[k]: conv(a[..., k]) for k in which}
    check(rbm.from_euler_angles(**sep, **kw), "separate angles")
    # all of them, zeros for missing angles
    full = np.zeros_like(a)
    full[..., which] = a[..., which]
    check(rbm.from_euler_angles(conv(full), **kw), "angles together")
    if case["default"]:
        return
    # along another axis: swapped with the last one
    ax = case["axis"] % full.ndim
    rec.label("axis not last", ax != full.ndim - 1)
    arg = np.swapaxes(full, ax, -1)
    before = arg.copy()
    out = rbm.from_euler_angles(
        conv(arg), axis=ax - full.ndim if case["neg"] else ax, **kw)
    if case["quat"]:
        # shape without the axis: both conventions for the other axes
        check(out, "angles along axis")
    else:
        check(out, "angles along axis", lambda q: np.swapaxes(q, ax, -1))
    ensure(np.array_equal(arg, before), "input changed")


@st.composite
def missing_case(draw):
    case = draw(euler_case())
    case["form"], case["default"] = "array", True
    case["gone"] = draw(st.lists(st.lists(st.booleans(), min_size=3,
                                          max_size=3), min_size=9,
                                 max_size=9))
    return case


@facet(missing_case(), quick=500, shards=4)
def missing(case, rec):
    """Missing (NaN) angles give missing quaternions, and only those."""
    shape = tuple(case["shape"])
    a = np.array(case["angles"]).reshape(shape + (3,))
    gone = np.array(case["gone"])[: max(1, a.size // 3)].reshape(a.shape)
    kw = {} if case["order"] is None else {"order": case["order"]}
    nan = np.where(gone, np.nan, a)
    rec.note(gone.any() and not gone.all())
    full = np.asarray(rbm.from_euler_angles(a, **kw))
    out = np.asarray(rbm.from_euler_angles(nan, **kw))
    close(out, np.where(gone.any(-1, keepdims=True), np.nan, full), 1e-14,
          "together", nan=True)
    which = case["which"]
    sep = {("roll", "pitch", "yaw")[k]: nan[..., k] for k in which}
    out = np.asarray(rbm.from_euler_angles(**sep, **kw))
    equal(np.isnan(out), np.broadcast_to(
        gone[..., which].any(-1)[..., None], out.shape), "missing")


@st.composite
def bad_case(draw):
    return dict(
        kind=draw(st.sampled_from(
            ["none", "order", "both", "shape", "scalar"])),
        order=draw(st.one_of(
            st.text("rpyxz", max_size=4),
            st.tuples(st.sampled_from(ORDERS), st.text("rpyxz", min_size=1,
                                                       max_size=2)).map(
                "".join),
        ).filter(lambda o: sorted(o) != sorted("rpy"))),
        names=draw(st.permutations(["roll", "pitch", "yaw"])),
        k=draw(st.integers(1, 3)), a=draw(angle), n=draw(st.integers(1, 4)),
        together=draw(st.booleans()),
    )


@facet(bad_case(), quick=600, shards=4)
def rejected(case, rec):
    kind, names = case["kind"], case["names"]
    rec.note()
    rec.label(kind)
    one = np.full(case["n"], case["a"])
    if kind == "none":
        raises(lambda: rbm.from_euler_angles(), ValueError, what=kind)
    elif kind == "order":
        kw = {n: one for n in names[: case["k"]]}
        if case["together"]:
            kw = {"rpy": np.stack([one] * 3, -1)}
        raises(lambda: rbm.from_euler_angles(**kw, order=case["order"]),
               ValueError, what=f"order {case['order']!r}")
    elif kind == "both":
        kw = {n: one for n in names[: case["k"]]}
        raises(lambda: rbm.from_euler_angles(np.stack([one] * 3, -1), **kw),
               ValueError, what=kind)
    elif kind == "shape":
        kw = {n: one for n in names[: case["k"]]}
        bad = names[case["k"] - 1 if case["k"] > 1 else 1]
        kw[bad] = np.full(case["n"] + 1, case["a"])
        raises(lambda: rbm.from_euler_angles(**kw), ValueError, what=kind)
    else:
        kw = {names[0]: one, names[1]: case["a"]}
        raises(lambda: rbm.from_euler_angles(**kw), ValueError, what=kind)
