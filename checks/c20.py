"""C20: quaternion mean."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st
from quaternion import as_float_array, as_quat_array, quaternion

from lib import model as m
from lib.harness import close, ensure, equal, facet, raises, same_rotation

PROPERTY = "C20"
RULE = (
    "Arrays of one to four dimensions of unit quaternions scattered around "
    "one, two or no rotation with small to full spread and random signs, "
    "special values and copies, means over all, one or several axes, both "
    "dtypes, quaternion axis first or last. Oracle: dominant eigenvector "
    "from a symmetric eigensolver, checked against random and perturbed "
    "candidates for the maximum of the summed squared inner products; "
    "slices with an eigenvalue gap below 1e-2 are not compared. "
    "Non-trivial: mean of at least two different rotations."
)


@st.composite
def mean_case(draw):
    shape = draw(st.lists(st.integers(1, 5), min_size=1, max_size=3))
    if draw(st.integers(0, 15)) == 0:
        shape[draw(st.integers(0, len(shape) - 1))] = draw(
            st.sampled_from([33, 130, 517, 1030, 2053]))
    nd = len(shape)
    axes = draw(st.one_of(
        st.none(), st.integers(0, nd - 1),
        st.lists(st.integers(0, nd - 1), min_size=1, max_size=nd,
                 unique=True)))
    return dict(
        shape=shape, axis=axes, q=draw(m.quat), seed=draw(m.seeds),
        spread=draw(st.sampled_from([0.0, 1e-4, 0.1, 0.5, 1.0, 2.0, 9.0])),
        second=draw(st.integers(0, 3)) == 0, signs=draw(st.booleans()),
        quat=draw(st.booleans()), neg=draw(st.booleans()),
        form=draw(st.sampled_from(["array", "list"])),
        first=draw(st.booleans()), left=draw(m.quat),
        num=draw(st.one_of(st.just("f8"), m.numbers)),
    )


def make(case):
    shape = tuple(case["shape"])
    r = m.rng(case["seed"], 1)
    if case["spread"] > 5:
        q = m.bulk_unit(case["seed"], shape + (4,), 2)
    else:
        q = m.qmul(np.array(case["q"]),
                   m.qexp(r.normal(size=shape + (3,)) * case["spread"] / 2))
        if case["second"]:
            # a few around another rotation
            other = m.qmul(np.array(case["q"]), np.array(case["left"]))
            q = np.where(r.random(shape + (1,)) < 0.3, other, q)
    if case["signs"]:
        q = q * r.choice([-1.0, 1.0], shape + (1,))
    return q


def oracle(q, axes):
    """Mean and eigenvalue gap."""
    A = np.mean(q[..., :, None] * q[..., None, :], axis=axes)
    w, v = np.linalg.eigh(A)
    return v[..., :, -1], w[..., -1] - w[..., -2], A


@facet(mean_case(), quick=4000)
def mean(case, rec):
    q = make(case)
    if not case["quat"]:
        raw, _ = m.cast(case["num"], q)
        q = raw.astype(float)
        rec.label(case["num"])
    nd = q.ndim - 1
    axis = case["axis"]
    axes = tuple(range(nd)) if axis is None else (
        (axis,) if isinstance(axis, int) else tuple(axis))
    expected, gap, A = oracle(q, axes)
    ok = gap > 1e-2
    n = int(np.prod([q.shape[a] for a in axes]))
    rec.note(n > 1 and ok.any() and case["spread"] > 0)
    rec.label("single quaternion", n == 1)
    rec.label("not unique (skipped)", not ok.any())
    rec.label("copies of one", case["spread"] == 0 and not case["second"])
    rec.label("several axes", len(axes) > 1)
    rec.label("subset of axes", len(axes) < nd)
    kw = {}
    if axis is not None:
        kw["axis"] = axis if isinstance(axis, int) else tuple(axis)
    first = case["first"] and not case["quat"] and (
        axis is None or (nd == 2 and axes == (1,)))
    if case["quat"]:
        if case["neg"] and axis is not None:
            kw["axis"] = (axis - nd if isinstance(axis, int)
                          else tuple(a - nd for a in axis))
            rec.label("negative axis")
        rec.label("quaternion dtype")

        def call(x):
            out = rbm.qmean(as_quat_array(x), **kw)
            ensure(np.asarray(out).dtype == quaternion, "dtype %s",
                   np.asarray(out).dtype)
            return as_float_array(out)
    elif first:
        rec.label("quaternion axis first")
        kw["qaxis"] = 0
        # one axis over axis 1 or all of them: (4, n) or (4, n, m)
        if axis is not None:
            kw["axis"] = 1

        def call(x):
            # canonical (m, n, 4), swapped with the first axis
            out = np.asarray(rbm.qmean(np.swapaxes(x, 0, -1), **kw))
            return out if out.ndim == 1 else np.swapaxes(out, 0, -1)
    else:

        def call(x):
            return np.asarray(rbm.qmean(
                x.tolist() if case["form"] == "list" else x, **kw))

    out = call(q)
    ensure(out.shape == expected.shape, "shape %s, expected %s", out.shape,
           expected.shape)
    close(np.linalg.norm(out, axis=-1), np.ones(out.shape[:-1]), 1e-10,
          "norm of mean")
    same_rotation(out[ok], expected[ok], 1e-9, "mean")
    if not case["quat"] and case["num"] != "f8":
        out = call(raw)
        same_rotation(out[ok], expected[ok],
                      1e-4 if case["num"] == "f4" else 1e-9,
                      f"mean of {case['num']}")
        out = call(q)

    # no other candidate is better
    def score(c):
        return np.einsum("...i,...ij,...j->...", c, A, c)

    best = score(out)
    for i in range(4):
        cand = m.bulk_unit(case["seed"], out.shape, 60 + i)
        if i % 2:
            cand = m.unit(out + 0.05 * cand)
        ensure(np.all(score(cand) <= best + 1e-9),
               "a rotation with larger sum of squared inner products exists")

    # signs and order do not matter
    r = m.rng(case["seed"], 5)
    other = q * r.choice([-1.0, 1.0], q.shape[:-1] + (1,))
    for a in axes:
        other = np.take(other, r.permutation(q.shape[a]), axis=a)
    same_rotation(call(other)[ok], out[ok], 1e-9,
                  "mean of reordered quaternions with other signs")
    # rotating all inputs rotates the mean, from either side
    left = np.array(case["left"])
    same_rotation(call(m.qmul(left, q))[ok], m.qmul(left, out)[ok], 1e-9,
                  "mean of rotated quaternions")
    same_rotation(call(m.qmul(q, left))[ok], m.qmul(out, left)[ok], 1e-9,
                  "mean of quaternions rotated from the right")


@st.composite
def slice_case(draw):
    case = draw(mean_case())
    case["shape"] = draw(st.lists(st.integers(1, 4), min_size=2, max_size=3))
    case["axis"] = draw(st.integers(0, len(case["shape"]) - 1))
    return case


@facet(slice_case(), quick=1000)
def slices(case, rec):
    """Means over one axis equal the means of the slices."""
    q = make(case)
    ax = case["axis"]
    before = q.copy()
    out = np.asarray(rbm.qmean(q, axis=ax))
    rec.note(q.shape[ax] > 1 and case["spread"] > 0)
    rest = [n for i, n in enumerate(q.shape[:-1]) if i != ax]
    for idx in np.ndindex(*rest):
        sl = idx[:ax] + (slice(None),) + idx[ax:]
        _, gap, _ = oracle(q[sl], (0,))
        if gap > 1e-2:
            same_rotation(out[idx], np.asarray(rbm.qmean(q[sl])), 1e-9,
                          "mean of slice")
    equal(q, before, "input")


@st.composite
def bad_case(draw):
    return dict(nd=draw(st.integers(1, 3)), seed=draw(m.seeds),
                quat=draw(st.booleans()), over=draw(st.integers(0, 3)),
                tup=draw(st.booleans()), neg=draw(st.booleans()))


@facet(bad_case(), quick=200, shards=2)
def rejected(case, rec):
    """Axes that do not exist are errors."""
    rec.note()
    nd = case["nd"]
    q = m.bulk_unit(case["seed"], (2,) * nd + (4,), 1)
    if case["quat"]:
        q = as_quat_array(q)
    ax = nd + 1 + case["over"]
    if case["neg"]:
        ax = -ax - 1
    raises(lambda: rbm.qmean(q, axis=(ax,) if case["tup"] else ax),
           IndexError, ValueError, what=f"axis {ax} of {nd}")
