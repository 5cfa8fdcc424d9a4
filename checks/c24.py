"""C24: iterative closest point."""

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import model as m
from lib.common import plain
from lib.harness import close, ensure, equal, facet, raises, same_rotation

PROPERTY = "C24"
RULE = (
    "Four to 20 points with a minimum mutual distance (jittered grid), "
    "transformed by up to 0.4 of it, in any order, with additional target "
    "points, optionally slightly noisy; or transformed arbitrarily with an "
    "initial transform that close to the truth; spatial axis anywhere, "
    "several dimensions, DataArrays; any tolerance and number of iterations. "
    "Separately, unrelated point sets. Oracle: the true transform; the best "
    "fit for the known correspondences; a brute-force nearest-neighbour "
    "step; root mean square distance never above that of the initial guess "
    "and not increasing with iterations. Non-trivial: transform moves the "
    "points."
)


def rotation_matrix_fit(a, b):
    """Least-squares rotation and translation (Horn) and eigenvalue gap."""
    ca, cb = a.mean(0), b.mean(0)
    S = (a - ca).T @ (b - cb)
    N = np.zeros((4, 4))
    N[0, 0] = np.trace(S)
    N[0, 1:] = N[1:, 0] = [S[1, 2] - S[2, 1], S[2, 0] - S[0, 2],
                           S[0, 1] - S[1, 0]]
    N[1:, 1:] = S + S.T - np.trace(S) * np.eye(3)
    w, v = np.linalg.eigh(N)
    q = v[:, -1]
    gap = (w[-1] - w[-2]) / max(np.sum((a - ca) ** 2) + np.sum(
        (b - cb) ** 2), 1e-300)
    return cb - m.qrot(q, ca), q, gap


def nearest(a, b):
    d = np.linalg.norm(a[:, None] - b[None], axis=-1)
    return d.argmin(1), d.min(1)


def rms(v1, v2, t, q):
    return float(np.sqrt(np.mean(nearest(m.qrot(q, v1) + t, v2)[1] ** 2)))


@st.composite
def icp_case(draw):
    return dict(
        n=draw(st.one_of([st.integers(4, 16)] * 12 + [
            st.sampled_from([60, 200, 520])])), extra=draw(st.sampled_from([0, 0, 3, 8])),
        seed=draw(m.seeds), size=draw(st.integers(1, 100)),
        init=draw(st.sampled_from([None, "near", "exact"])),
        q=draw(m.quat), t=draw(m.vec3),
        noise=draw(st.sampled_from([0.0, 0.0, 0.04])),
        scale=draw(st.sampled_from([1.0, 1.0, 0.01, 50.0])),
        axis=draw(st.integers(0, 2)), neg=draw(st.booleans()),
        default=draw(st.booleans()), twod=draw(st.booleans()),
        form=draw(st.sampled_from(["array", "array", "list", "dataarray"])),
        iterations=draw(st.sampled_from([None, None, 1, 2, 50])),
        tolerance=draw(st.sampled_from([None, None, 0.0, 1e-9, 10.0])),
    )


def points(case, n, salt):
    """Points with mutual distance of at least 1."""
    r = m.rng(case["seed"], salt)
    g = 5 if n <= 24 else int(np.ceil((4 * n) ** (1 / 3)))
    cells = r.choice(g**3, n, replace=False)
    grid = np.stack(np.unravel_index(cells, (g, g, g)), -1) * 1.5
    return grid - 3 + r.uniform(-0.25, 0.25, (n, 3))


def present(v, case):
    if case["twod"] and len(v) % 2 == 0:
        v = v.reshape(2, -1, 3)
    if case["default"]:
        return v, {}, v.ndim - 1
    ax = case["axis"] % v.ndim
    return np.moveaxis(v, -1, ax), {
        "axis": ax - v.ndim if case["neg"] else ax}, ax


def kwargs(case):
    kw = {}
    if case["iterations"] is not None:
        kw["max_iterations"] = case["iterations"]
    if case["tolerance"] is not None:
        kw["tolerance"] = case["tolerance"]
    return kw


def small(case, pts, salt):
    """Transform that moves no point by more than size/100 * 0.4."""
    r = m.rng(case["seed"], salt)
    rv, tt = m.unit(r.normal(size=3)), m.unit(r.normal(size=3))
    f = r.uniform(0.2, 0.8)
    lim = 0.4 * case["size"] / 100
    radius = np.max(np.linalg.norm(pts, axis=-1))
    q = m.qexp(rv * f * lim / radius)
    return tt * (1 - f) * lim, q


@facet(icp_case(), quick=1500)
def recovery(case, rec):
    n, s = case["n"], case["scale"]
    every = points(case, n + case["extra"], 1)
    v1 = every[:n]
    if case["init"] is None:
        t, q = small(case, every, 2)
        init_kw, start = {}, (np.zeros(3), np.array([1.0, 0, 0, 0]))
    else:
        t, q = np.array(case["t"]), np.array(case["q"])
        dt, dq = (np.zeros(3), np.array([1.0, 0, 0, 0])) if (
            case["init"] == "exact") else small(case, every, 2)
        # init = truth after a small displacement of the points
        start = m.qrot(q, dt) + t, m.qmul(q, dq)
    noise = m.rng(case["seed"], 3).uniform(-1, 1, every.shape)
    target = m.qrot(q, every) + t + noise * case["noise"]
    perm = m.rng(case["seed"], 4).permutation(len(target))
    v1, target, t = v1 * s, target * s, t * s
    v2 = target[perm]
    if case["init"] is not None:
        start = start[0] * s, start[1]
        init_kw = {"init_transform": start}
    rec.note(np.any(np.abs(v1 - target[:n]) > 1e-3 * s))
    rec.label("initial transform", case["init"])
    rec.label("additional points", case["extra"])
    rec.label("many points", n > 16)
    rec.label("noise", case["noise"])
    x1, kw, ax = present(v1, case)
    x2, _, _ = present(v2, case)
    if x2.ndim != x1.ndim:
        x1, kw, ax = v1, {}, 1
        x2 = v2
    rec.label("axis not last", ax != x1.ndim - 1)
    before = x1.copy(), x2.copy(), [np.copy(a) for a in start]
    if case["form"] == "list":
        out = rbm.iterative_closest_point(
            x1.tolist(), x2.tolist(), **kw, **init_kw, **kwargs(case))
        plain(out, "closest point")
    elif case["form"] == "dataarray":
        dims = [f"d{i}" for i in range(x1.ndim)]
        dims[ax] = "cartesian_axis"
        d1 = xr.DataArray(x1, {"cartesian_axis": list("xyz")}, dims)
        if init_kw:
            init_kw = {"init_transform": (
                xr.DataArray(start[0], dims=["cartesian_axis"]),
                xr.DataArray(start[1], dims=["quaternion_axis"]))}
        out = rbm.iterative_closest_point(
            d1, x2, dim="cartesian_axis", **init_kw, **kwargs(case))
        ensure(out[0].dims == ("cartesian_axis",)
               and out[1].dims == ("quaternion_axis",), "labels")
    else:
        out = rbm.iterative_closest_point(x1, x2, **kw, **init_kw,
                                          **kwargs(case))
        plain(out, "closest point")
    equal(x1, before[0], "input")
    equal(x2, before[1], "input")
    for a, b in zip(start, before[2]):
        equal(a, b, "initial transform")
    tr, ro = (np.asarray(o) for o in out)
    ensure(tr.shape == (3,) and ro.shape == (4,), "shapes")
    close(np.linalg.norm(ro), 1.0, 1e-9, "norm of rotation")
    et, eq, gap = rotation_matrix_fit(v1, target[:n])
    if gap > 1e-3:
        same_rotation(ro, eq, 1e-7, "best fit for known correspondences")
        close(tr / s, et / s, 1e-6, "translation for known correspondences")
        if not case["noise"]:
            same_rotation(ro, q, 1e-7, "true rotation")
            close(tr / s, t / s, 1e-6, "true translation")
    if not case["noise"]:
        d0 = np.mean(nearest(m.qrot(start[1], v1) + start[0], v2)[1])
        d1 = np.mean(nearest(m.qrot(ro, v1) + tr, v2)[1])
        ensure(d1 <= d0 + 1e-9 * s, "mean distance %.6g, initially %.6g",
               d1, d0)
        ensure(d1 <= 1e-7 * s, "mean distance %.3g for exact copies", d1 / s)


def definite(p, v2):
    """Whether every step has a unique fit and changes the mean distance."""
    before = None
    for _ in range(100):
        idx, d = nearest(p, v2)
        if before is not None and np.array_equal(idx, before[0]):
            return True
        if before is not None and abs(d.mean() - before[1]) < 1e-6:
            return False
        t, q, gap = rotation_matrix_fit(p, v2[idx])
        if gap < 1e-3:
            return False
        p, before = m.qrot(q, p) + t, (idx, d.mean())
    return False


@st.composite
def any_case(draw):
    return dict(
        n=draw(st.integers(3, 12)), k=draw(st.integers(3, 16)),
        # trees over few points are searched exhaustively
        factor=draw(st.sampled_from([1, 1, 1, 8, 20])),
        seed=draw(m.seeds), q=draw(m.quat), t=draw(m.vec3),
        init=draw(st.booleans()), related=draw(st.booleans()),
        ang=draw(st.integers(1, 60)), iterations=draw(st.integers(1, 12)),
    )


@facet(any_case(), quick=800)
def never_worse(case, rec):
    """Any data: steps of the algorithm and what they cannot make worse."""
    r = m.rng(case["seed"], 1)
    v1 = r.uniform(-3, 3, (case["n"] * case["factor"], 3))
    rec.label("many points", case["factor"] > 1)
    if case["related"]:
        rv = m.unit(r.normal(size=3)) * case["ang"] / 40
        v2 = m.qrot(m.qexp(rv), v1) + r.uniform(-0.5, 0.5, 3)
        v2 = v2[r.permutation(len(v2))]
    else:
        v2 = r.uniform(-3, 3, (case["k"] * case["factor"], 3))
    start = (np.zeros(3), np.array([1.0, 0, 0, 0]))
    kw = {}
    if case["init"]:
        start = np.array(case["t"]), np.array(case["q"])
        kw["init_transform"] = start
    rec.note()
    rec.label("initial transform", case["init"])

    def call(**more):
        out = rbm.iterative_closest_point(v1, v2, **kw, **more)
        tt, rr = (np.asarray(o) for o in out)
        close(np.linalg.norm(rr), 1.0, 1e-9, "norm of rotation")
        return tt, rr

    before = rms(v1, v2, *start)
    # one step
    moved = m.qrot(start[1], v1) + start[0]
    et, eq, gap = rotation_matrix_fit(moved, v2[nearest(moved, v2)[0]])
    one = call(max_iterations=1)
    if gap > 1e-3:
        rec.label("step compared")
        same_rotation(one[1], m.qmul(eq, start[1]), 1e-6, "one step")
        close(one[0], m.qrot(eq, start[0]) + et, 1e-6, "one step")
    previous = before
    for k in sorted({1, case["iterations"], case["iterations"] + 1}):
        now = rms(v1, v2, *call(max_iterations=k, tolerance=0.0))
        ensure(now <= previous + 1e-9, "distance rises from %.6g to %.6g "
               "with iteration %d", previous, now, k)
        previous = now
    default = rms(v1, v2, *call())
    ensure(default <= before + 1e-9, "distance %.6g, initially %.6g",
           default, before)
    # many iterations end where another one does not help
    if case["seed"] % 2 == 0:
        rec.label("converged")
        # a positive tolerance if all steps are definite
        steady = definite(moved, v2)
        rec.label("with tolerance", steady)
        last = call(max_iterations=200, tolerance=[0.0, 1e-12, 1e-9][
            case["seed"] // 2 % 3] if steady else 0.0)
        end = rms(v1, v2, *last)
        again = rbm.iterative_closest_point(
            v1, v2, init_transform=last, max_iterations=1)
        ensure(rms(v1, v2, *map(np.asarray, again)) >= end - 1e-6,
               "not converged after 200 iterations")


@st.composite
def bad_case(draw):
    return dict(kind=draw(st.sampled_from(["length", "length2", "one"])),
                n=draw(st.integers(2, 5)), k=draw(st.sampled_from([1, 2, 4])),
                seed=draw(m.seeds))


@facet(bad_case(), quick=100, shards=2)
def rejected(case, rec):
    rec.note()
    v = m.bulk(case["seed"], (case["n"], 3), 1)
    bad = m.bulk(case["seed"], (case["n"], case["k"]), 2)
    args = {"length": (bad, v), "length2": (v, bad),
            "one": (v[0], v)}[case["kind"]]
    raises(lambda: rbm.iterative_closest_point(*args), ValueError,
           what=case["kind"])
