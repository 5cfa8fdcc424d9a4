"""C23: best-fit rotation and transform."""

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import model as m
from lib.common import plain
from lib.harness import close, ensure, equal, facet, raises, same_rotation

PROPERTY = "C23"
RULE = (
    "Two to 12 vectors in arrays of two to four dimensions with the spatial "
    "axis anywhere (plain, list, DataArray), generic, planar, collinear, "
    "repeated or along coordinate axes, of magnitude 1e-8 to 1e6; the second "
    "set is the first one rotated and translated, with small or large noise, "
    "mirrored through a plane or the origin, shuffled or unrelated. Oracle: "
    "least sum of squares from the largest eigenvalue of Horn's 4x4 matrix "
    "(independent of the singular value decomposition used by the library) "
    "and residuals of random and perturbed candidates. Non-trivial: second "
    "set not equal to the first."
)


@st.composite
def fit_case(draw):
    kind = draw(st.sampled_from(
        ["generic", "generic", "planar", "collinear", "axes", "repeated"]))
    rel = draw(st.sampled_from(
        ["exact", "exact", "noise", "noisy", "mirror", "invert", "shuffle",
         "unrelated", "mirror noisy"]))
    return dict(
        shape=draw(st.one_of(
            st.integers(2, 12).map(lambda n: [n]),
            st.integers(2, 12).map(lambda n: [n]),
            st.sampled_from([[130], [517], [20, 60], [1030], [3001]]),
            st.lists(st.integers(1, 4), min_size=2, max_size=3).filter(
                lambda s: np.prod(s) > 1))),
        kind=kind, rel=rel, seed=draw(m.seeds), q=draw(m.quat),
        t=draw(m.vec3), scale=draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 2.0**-26, 1e6])),
        axis=draw(st.integers(0, 3)), neg=draw(st.booleans()),
        default=draw(st.booleans()), offset=draw(st.booleans()),
        form=draw(st.sampled_from(["array", "array", "list", "dataarray",
                                   "both", "int", "i1", "i2"])),
        transform=draw(st.booleans()),
    )


def data(case):
    n = int(np.prod(case["shape"]))
    r = m.rng(case["seed"], 1)
    v1 = r.uniform(-3, 3, (n, 3))
    basis = m.qmat(m.bulk_unit(case["seed"], (4,), 2))
    if case["kind"] == "planar":
        v1[:, 2] = 0
        v1 = v1 @ basis.T
    elif case["kind"] == "collinear":
        v1[:, 1:] = 0
        v1 = v1 @ basis.T
    elif case["kind"] == "axes":
        v1 = np.eye(3)[r.integers(0, 3, n)] * r.integers(-3, 4, (n, 1))
    elif case["kind"] == "repeated":
        v1 = v1[r.integers(0, min(n, 3), n)]
    if case["offset"]:
        v1 = v1 + r.uniform(-5, 5, 3)
    if case["form"] in ("int", "i1", "i2"):
        v1 = np.round(v1 * {"int": 1, "i1": 12, "i2": 3000}[case["form"]])
    else:
        v1 = v1 * case["scale"]
    q = np.array(case["q"])
    t = np.array(case["t"]) * case["scale"] * case["transform"]
    v2 = v1
    if case["rel"] in ("mirror", "mirror noisy"):
        nrm = m.unit(r.normal(size=3))
        v2 = v1 - 2 * (v1 @ nrm)[:, None] * nrm
    elif case["rel"] == "invert":
        v2 = -v1
    v2 = m.qrot(q, v2) + t
    eps = {"noise": 1e-3, "noisy": 1.0, "mirror noisy": 0.3}.get(case["rel"])
    if eps:
        v2 = v2 + r.normal(size=(n, 3)) * eps * case["scale"]
    elif case["rel"] == "shuffle":
        v2 = v2[r.permutation(n)]
    elif case["rel"] == "unrelated":
        v2 = r.uniform(-3, 3, (n, 3)) * case["scale"]
    if case["form"] in ("i1", "i2"):
        # both sets of few bits
        v2 = np.clip(np.round(v2), -127 if case["form"] == "i1" else -32767,
                     127 if case["form"] == "i1" else 32767)
    return v1.astype(float), v2, t, q


def horn(a, b):
    """Largest eigenvalue, gap and quaternion of Horn's matrix."""
    S = a.T @ b
    N = np.zeros((4, 4))
    N[0, 0] = np.trace(S)
    delta = np.array([S[1, 2] - S[2, 1], S[2, 0] - S[0, 2],
                      S[0, 1] - S[1, 0]])
    N[0, 1:] = N[1:, 0] = delta
    N[1:, 1:] = S + S.T - np.trace(S) * np.eye(3)
    w, v = np.linalg.eigh(N)
    return w[-1], w[-1] - w[-2], v[:, -1]


def least(a, b):
    lam, gap, q = horn(a, b)
    total = np.sum(a**2) + np.sum(b**2)
    return total - 2 * lam, gap / max(total, 1e-300), total, q


def shaped(v, case):
    """(n, 3) to the drawn shape and axis."""
    x = v.reshape(tuple(case["shape"]) + (3,))
    if case["default"]:
        return x, {}, x.ndim - 1
    ax = case["axis"] % x.ndim
    return np.moveaxis(x, -1, ax), {
        "axis": ax - x.ndim if case["neg"] else ax}, ax


@facet(fit_case(), quick=5000)
def fit(case, rec):
    v1, v2, t, q = data(case)
    rec.note(np.any(np.abs(v1 - v2) > 1e-6 * case["scale"]))
    rec.label(case["kind"])
    rec.label(case["rel"])
    rec.label("transform" if case["transform"] else "rotation")
    x1, kw, ax = shaped(v1, case)
    x2, _, _ = shaped(v2, case)
    rec.label("axis not last", ax != x1.ndim - 1)
    rec.label("more than two dimensions", x1.ndim > 2)
    before = x1.copy(), x2.copy()
    fn = rbm.best_fit_transform if case["transform"] else (
        rbm.best_fit_rotation)

    def call(y1, y2):
        form = case["form"]
        if form == "list":
            return fn(y1.tolist(), y2.tolist(), **kw)
        if form == "int":
            return fn(y1.astype(int), y2, **kw)
        if form in ("i1", "i2"):
            return fn(y1.astype(form), y2.astype(form), **kw)
        if form in ("dataarray", "both"):
            dims = [f"d{i}" for i in range(y1.ndim)]
            dims[ax] = "cartesian_axis"
            d1 = xr.DataArray(y1, {"cartesian_axis": list("xyz")}, dims)
            d2 = d1.copy(data=y2) if form == "both" else y2
            return fn(d1, d2, dim="cartesian_axis")
        return fn(y1, y2, **kw)

    out = call(x1, x2)
    equal(x1, before[0], "input")
    equal(x2, before[1], "input")

    def parts(o):
        tt, rr = o if case["transform"] else (np.zeros(3), o)
        if case["form"] in ("dataarray", "both"):
            ensure(isinstance(rr, xr.DataArray)
                   and rr.dims == ("quaternion_axis",)
                   and list(rr.quaternion_axis.values) == list("wxyz"),
                   "labels of rotation: %s", rr)
            ensure(not case["transform"] or isinstance(tt, xr.DataArray)
                   and tt.dims == ("cartesian_axis",)
                   and list(tt.cartesian_axis.values) == list("xyz"),
                   "labels of translation: %s", tt)
        else:
            plain(o, fn.__name__)
        tt, rr = np.asarray(tt), np.asarray(rr)
        ensure(rr.shape == (4,) and tt.shape == (3,), "shapes %s %s",
               tt.shape, rr.shape)
        return tt, rr

    tr, ro = parts(out)
    unit = max(case["scale"], np.max(np.abs(v1)) / 8)
    ensure(not np.any(np.isnan(ro)) and not np.any(np.isnan(tr)), "NaN")
    close(np.linalg.norm(ro), 1.0, 1e-9, "norm of rotation")

    m1, m2 = (v1.mean(0), v2.mean(0)) if case["transform"] else (0, 0)
    best, gap, total, _ = least(v1 - m1, v2 - m2)
    size = np.sum(v1**2) + np.sum(v2**2) + 1e-300

    def residual(tt, rr):
        return np.sum((m.qrot(rr, v1) + tt - v2) ** 2)

    res = residual(tr, ro)
    ensure(res <= best + 1e-9 * size, "residual %.9g, but %.9g is possible",
           res, best)
    r = m.rng(case["seed"], 9)
    for i in range(6):
        d = m.qexp(r.normal(size=3) * [0.01, 0.1, 1, 3, 0.01, 0.1][i])
        cr = m.qmul(d, ro)
        ct = tr + r.normal(size=3) * unit * 10.0 ** -(i % 3) if (
            case["transform"]) else tr
        ensure(residual(ct, cr) >= res - 1e-9 * size, "candidate with smaller"
               " residual exists")
    if case["transform"]:
        close(tr / unit, (m2 - m.qrot(ro, m1)) / unit,
              1e-8, "translation")
    if case["rel"] == "exact" and gap > 1e-2 and case["form"] not in (
            "i1", "i2"):
        rec.label("determined")
        same_rotation(ro, q, 1e-8, "true rotation")
        close(tr / unit, t / unit, 1e-7,
              "true translation")
    if case["rel"] in ("mirror", "invert") and gap > 1e-2:
        rec.label("mirrored, determined")

    # order of vectors
    p = r.permutation(len(v1))
    tp, rp = parts(call(shaped(v1[p], case)[0], shaped(v2[p], case)[0]))
    if gap > 1e-4:
        same_rotation(rp, ro, 1e-7, "rotation for reordered vectors")
        close(tp / unit, tr / unit, 1e-6,
              "translation for reordered vectors")
    ensure(abs(residual(tp, rp) - res) <= 2e-9 * size,
           "residual depends on order")


@st.composite
def bad_case(draw):
    return dict(
        kind=draw(st.sampled_from(["shape", "length", "length2", "one"])),
        n=draw(st.integers(2, 5)), k=draw(st.sampled_from([1, 2, 4])),
        d=draw(st.integers(1, 2)), seed=draw(m.seeds),
        transform=draw(st.booleans()))


@facet(bad_case(), quick=300, shards=4)
def rejected(case, rec):
    rec.note()
    n, kind = case["n"], case["kind"]
    rec.label(kind)
    fn = rbm.best_fit_transform if case["transform"] else (
        rbm.best_fit_rotation)
    v = m.bulk(case["seed"], (n,) * case["d"] + (3,), 1)
    bad = m.bulk(case["seed"], (n,) * case["d"] + (case["k"],), 2)
    if kind == "shape":
        w = m.bulk(case["seed"], (n + 1,) + v.shape[1:], 3)
        raises(lambda: fn(v, w), ValueError, what=kind)
    elif kind == "length":
        raises(lambda: fn(bad, v), ValueError, what=kind)
    elif kind == "length2":
        raises(lambda: fn(v, bad), ValueError, what=kind)
    else:
        raises(lambda: fn(v.reshape(-1, 3)[0], v.reshape(-1, 3)[0]),
               ValueError, what=kind)
