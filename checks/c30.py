"""C30: results depend on the values of arguments, not on how they are stored."""

import numpy as np
import pandas as pd
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st
from quaternion import as_float_array

from lib import calls
from lib import model as m
from lib.harness import ensure, equal, facet, same_rotation

PROPERTY = "C30"
RULE = (
    "Every public function/method that takes arrays, drawn with generated "
    "arguments over a tree of static, moving and discrete frames (frame "
    "definitions included). Some or all arrays (and labelled arrays) are "
    "given in another number format (integers of 8 to 64 bits with and "
    "without sign, single, long double precision, other byte order), "
    "container (nested lists, tuples, objects with the array protocol, data "
    "frames) or memory layout (strided, reversed, Fortran, unaligned, "
    "read-only, broadcast); timestamps as lists, index, series, numbers of "
    "any format that holds them and datetimes of any unit and byte order; "
    "axes and names as numpy scalars. Oracle: the same call with plain "
    "double precision arrays of the same values. Non-trivial: the storage "
    "differs."
)


class Proto:
    """Has nothing but the array protocol."""

    def __init__(self, a):
        self._a = a

    def __array__(self, dtype=None, copy=None):
        return np.array(self._a, dtype=dtype)


def strided(a):
    b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
    cut = tuple(slice(None, None, 2) for _ in a.shape)
    b[cut] = a
    return b[cut]


def unaligned(a):
    raw = np.zeros(a.nbytes + 1, np.uint8)
    raw[1:] = np.frombuffer(a.tobytes(), np.uint8)
    return raw[1:].view(a.dtype).reshape(a.shape)


def tuples(x):
    return tuple(tuples(y) for y in x) if isinstance(x, list) else x


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def frame(a):
    return pd.DataFrame(a) if a.ndim == 2 else pd.Series(a) if (
        a.ndim == 1) else a


LAYOUT = {
    "strided": strided,
    "reversed": lambda a: a[::-1].copy()[::-1],
    "fortran": np.asfortranarray,
    "unaligned": unaligned,
    "readonly": readonly,
}
CONTAINER = {
    "list": lambda a: a.tolist(),
    "tuple": lambda a: tuples(a.tolist()),
    "protocol": Proto,
    "pandas": frame,
}
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", ">i4"]
FLOATS = ["f4", ">f4", ">f8", "longdouble"]
FORMATS = sorted(LAYOUT) + sorted(CONTAINER) + INTS + FLOATS


def stored(a, fmt, unit=True):
    """The array in another format (its values may be rounded to it)."""
    if fmt in LAYOUT:
        return LAYOUT[fmt](a)
    if fmt in CONTAINER:
        return CONTAINER[fmt](a)
    if fmt in FLOATS:
        return a.astype(fmt)
    if a.shape[-1:] == (4,) and not unit:
        r = np.round(a * 100)
    elif a.shape[-1:] == (4,):
        # rotations: nearest basis quaternion
        i = np.argmax(np.abs(a), -1)[..., None]
        r = np.eye(4)[i[..., 0]] * np.sign(np.take_along_axis(a, i, -1))
    elif a.shape == (3, 3) and np.allclose(a @ a.T, np.eye(3)):
        r = np.roll(np.eye(3), int(10 * abs(a[0, 0])) % 3, 0)
        if np.dtype(fmt).kind == "i" and a[1, 1] < 0:
            r = r * [1, -1, -1]
    else:
        r = np.round(a * 8)
        # vectors of length zero have no direction
        r[(r == 0).all(-1)] = 1
    if np.dtype(fmt).kind == "u":
        r = np.abs(r)
    return r.astype(fmt)


def plain(x):
    return np.array(np.asarray(x), dtype=float, order="C")


# --- operations --------------------------------------------------------------

OPS = {k: v for k, v in calls.OPS.items()
       if k not in ("plot_data", "qfunctions_dtype", "lookup_transform",
                    "lookup_pose", "method_lookup", "lookup_twist",
                    "lookup_linear", "lookup_angular")}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


@op
def outliers_linear(e):
    p = e.points() + 5 * np.arange(e.n)[:, None]
    dd = np.linalg.norm(np.diff(p, n=2, axis=0), axis=-1)
    return rbm.estimate_linear_velocity, (e.arr(p),), dict(
        timestamps=e.numstamps(), outlier_thresh=8 * np.max(dd) + 60.0)


@op
def far_apart(e):
    # integers far apart
    p = e.points() * np.where(np.arange(e.n) % 2, 1, -5)[:, None]
    return rbm.estimate_linear_velocity, (e.arr(p),), dict(
        timestamps=e.numstamps())


@op
def rotation_vector(e):
    return rbm.estimate_angular_velocity, (e.arr(e.quats()),), dict(
        timestamps=e.numstamps(), mode="rotation_vector")


@op
def fit_blocks(e):
    # further axes
    v = m.bulk(e.c["seed"], (e.n, 2 + e.c["f"][0], 3), 70)
    u = m.qrot(e.quats()[0], v) + 0.1 * m.bulk(e.c["seed"], v.shape, 71)
    fn = rbm.best_fit_transform if e.c["flag"] else rbm.best_fit_rotation
    return fn, (v, u), {}


@op
def frame_matrix(e):
    def define(mat):
        rf = rbm.ReferenceFrame.from_rotation_matrix(
            mat, e.rfs[0], "tmp", inverse=e.c["flag"])
        out = rbm.lookup_transform(rf, e.rfs[0])
        rf.parent = None
        return out
    return define, (m.qmat(e.quats()[0]),), {}


@op
def static_frame(e):
    def define(T, Q, v):
        rf = rbm.ReferenceFrame("tmp", e.rfs[1], T, Q, inverse=e.c["flag"])
        out = rbm.transform_points(v, outof=rf, into=e.rfs[0])
        rf.parent = None
        return out
    return define, (e.points()[0], e.quats()[0], e.points(1)), {}


@op
def static_registered(e):
    def define(T, Q):
        rbm.register_frame("tmp", e.rfs[1].name, T, Q, inverse=e.c["flag"],
                           update=True)
        out = rbm.lookup_pose("tmp", e.rfs[0])
        rbm.deregister_frame("tmp")
        return out
    return define, (e.points()[0], e.quats()[0]), {}


@op
def event_frame(e):
    def define(T, Q, ts):
        rf = rbm.ReferenceFrame("tmp", e.rfs[0], T, Q, ts, discrete=True,
                                inverse=e.c["flag"])
        out = rbm.lookup_transform(rf, e.rfs[2], return_timestamps=True)
        rf.parent = None
        return out
    return define, (e.points(), e.quats(), e.ts), {}


@op
def twist_of_defined(e):
    def define(T, Q, ts):
        rf = rbm.ReferenceFrame("tmp", e.rfs[0], T, Q, ts)
        out = rbm.lookup_twist(rf, e.rfs[0], return_timestamps=True)
        rf.parent = None
        return out
    return define, (e.points(), e.quats(), e.ts), {}


@op
def resampled(e):
    # samples between those of the frame
    ts = m.to_time(e.base, np.array(e.ticks[:-1]) + 1)
    return rbm.transform_points, (e.arr(e.points()[:-1])
                                  if e.c["form"] != "dataarray"
                                  else e.points()[:-1],), dict(
        outof=e.rfs[2], into=e.rfs[0], timestamps=ts,
        return_timestamps=True)


@op
def euler_separate(e):
    p = e.points()

    def call(a, b, c):
        return rbm.from_euler_angles(roll=a, pitch=b, yaw=c)
    return call, (p[:, 0].copy(), p[:, 1].copy(), p[:, 2].copy()), {}


SIGN = {"qmean", "best_fit_rotation", "best_fit_transform", "icp",
        "rotation_matrix", "frame_matrix"}
# accept quaternions that are not of unit length
ANY_NORM = {"qmean", "qinv", "qmul", "rotate_vectors", "accessor_qinv"}
# not unique or not continuous for symmetric points, compared by residual
FITS = ("best_fit_rotation", "best_fit_transform", "icp", "fit_blocks")


def is_stamps(e, x):
    return isinstance(x, np.ndarray) and x.ndim == 1 and (
        x.dtype.kind in "Mi" or len(x) in (e.n, e.n - 1)
        and bool(np.all(np.diff(x) > 0)) and np.isin(x, m.to_time(
            e.base, np.arange(2 * e.n))).all())


@st.composite
def case_(draw):
    return dict(
        op=draw(st.sampled_from(sorted(OPS))), base=draw(m.bases),
        seed=draw(m.seeds), n=draw(st.integers(5, 8)),
        f=draw(st.lists(st.integers(0, 5), min_size=2, max_size=2)),
        form=draw(st.sampled_from(["plain", "plain", "dataarray"])),
        flag=draw(st.booleans()), fmt=draw(st.sampled_from(FORMATS)),
        which=draw(st.integers(0, 7)),
    )


def convert(args, kw, wanted, which, make):
    """Arguments with the wanted arrays (a drawn part of them) replaced."""
    count = [0]

    def conv(x):
        if isinstance(x, tuple):
            return tuple(conv(y) for y in x)
        if wanted(x):
            i = count[0]
            count[0] += 1
            if which == 0 or which >> i & 1 or i > 2:
                return make(x)
        return x

    return tuple(conv(a) for a in args), {k: conv(v) for k, v in kw.items()}


def values(x):
    """Numbers of a result as nested tuple of arrays."""
    if isinstance(x, tuple):
        return tuple(values(y) for y in x)
    if isinstance(x, xr.Dataset):
        return tuple(values(x[v]) for v in sorted(x.data_vars))
    if isinstance(x, xr.DataArray):
        return (np.asarray(x.values),) + tuple(
            np.asarray(x.coords[c].values) for c in sorted(x.coords))
    if x is None:
        return None
    x = np.asarray(x)
    return as_float_array(x) if x.dtype.name == "quaternion" else x


def compare(a, b, tol, sign, what, kinds="f"):
    if isinstance(a, tuple):
        ensure(isinstance(b, tuple) and len(a) == len(b), "%s: %d results",
               what, len(b) if isinstance(b, tuple) else 1)
        for i, (x, y) in enumerate(zip(a, b)):
            compare(x, y, tol, sign, f"{what} [{i}]", kinds)
        return
    if a is None:
        ensure(b is None, "%s: %r instead of None", what, b)
        return
    ensure(a.shape == b.shape, "%s: shape %s, expected %s", what, b.shape,
           a.shape)
    if a.dtype.kind in "MmOUSb":
        equal(b, a, what)
        return
    if a.dtype.kind == "f":
        ensure(b.dtype.kind in kinds, "%s: %s", what, b.dtype)
    b = b.astype(float)
    nan = np.isnan(a)
    equal(np.isnan(b), nan, f"{what}: missing values")
    a, b = np.where(nan, 0.5, a), np.where(nan, 0.5, b)
    if not a.size:
        return
    if sign and a.shape[-1:] == (4,):
        same_rotation(b, a, tol, what)
        return
    big = max(1.0, float(np.max(np.abs(a))))
    err = float(np.max(np.abs(a - b)))
    ensure(err <= tol * big, "%s: differs by %.3g from double precision "
           "(largest value %.3g)", what, err, big)


def residual(args, kw, out):
    """Sum of squares for the result of a fit."""
    v1, v2 = (plain(a) for a in args[:2])
    t, q = out if isinstance(out, tuple) else (0.0, out)
    return np.sum((m.qrot(np.asarray(q, float), v1) + np.asarray(t, float)
                   - v2) ** 2)


@facet(case_(), quick=6000)
def arrays(case, rec):
    fmt, name = case["fmt"], case["op"]
    if fmt in CONTAINER:
        case = dict(case, form="plain")
    e = calls.Env(case)
    fn, args, kw = OPS[name](e)
    lossy = fmt in ("f4", ">f4")
    ints = fmt in INTS
    if name == "icp" and (ints or lossy):
        return  # several nearest points

    def wanted(x):
        if isinstance(x, xr.DataArray):
            return fmt not in CONTAINER and x.dtype.kind == "f" and x.ndim > 1
        return isinstance(x, np.ndarray) and x.ndim > 0 and (
            x.dtype.kind == "f") and not is_stamps(e, x)

    used = []
    unit = name not in ANY_NORM

    def test(x):
        if isinstance(x, xr.DataArray):
            d = stored(x.values, fmt, unit)
            out = x.copy(data=d)
        else:
            d = out = stored(x, fmt, unit)
        used.append(x)
        return out

    def reference(x):
        if isinstance(x, xr.DataArray):
            return x.copy(data=plain(stored(x.values, fmt, unit)))
        return plain(stored(x, fmt, unit))

    w = case["which"]
    if name in FITS + ("shortest_arc",) and fmt not in LAYOUT:
        w = 0
    if any(np.isnan(np.asarray(x)).any() for x in args if wanted(x)) and ints:
        return
    a_ref, k_ref = convert(args, kw, wanted, w, reference)
    a_out, k_out = convert(args, kw, wanted, w, test)
    ref = fn(*a_ref, **k_ref)
    rec.note(bool(used))
    rec.label(fmt)
    what = f"{name} of {fmt}"
    try:
        out = fn(*a_out, **k_out)
    except (TypeError, ValueError, IndexError, AttributeError) as ex:
        ensure(False, "%s: %r", what, ex)
    if name in FITS:
        r, o = residual(a_ref, k_ref, ref), residual(a_ref, k_ref, out)
        ensure(abs(r - o) <= (1e-3 if lossy else 1e-9) * max(1.0, r),
               "%s: residual %g, %g in double precision", what, o, r)
        return
    if name == "shortest_arc":
        # any axis for opposite vectors
        for o in (ref, out):
            o = np.asarray(o.values if hasattr(o, "values") else o)
            v1, v2 = (m.unit(plain(x)) for x in a_ref)
            err = np.max(np.abs(m.qrot(o.astype(float), v1) - v2))
            ensure(err <= (1e-3 if lossy else 1e-6), "%s: misses by %g",
                   what, err)
        return
    tol = 1e-9
    if lossy:
        tol = 1e-4
        if name == "qmean":
            # spread of the rotations
            tol = 1e-2
    compare(values(ref), values(out), tol, name in SIGN, what)


SEVERAL = sorted(x for x in FITS + (
    "shortest_arc", "qmul", "rotate_vectors", "static_frame", "event_frame",
    "frame_definition", "many_samples", "fit_blocks", "fit_blocks")
    if x in OPS)


@st.composite
def layout_cases(draw):
    case = draw(case_())
    return dict(case, op=draw(st.sampled_from(SEVERAL)), form="plain",
                fmt=draw(st.sampled_from(sorted(LAYOUT) + ["fortran"])),
                which=draw(st.integers(1, 3)))


@facet(layout_cases(), quick=1200)
def mixed(case, rec):
    """Some of several arrays in another memory layout."""
    arrays(case, rec)


# --- timestamps --------------------------------------------------------------

NUM_STAMPS = INTS + FLOATS + [
    "list", "tuple", "protocol", "strided", "reversed", "unaligned",
    "readonly", "index", "series"]
DT_STAMPS = ["list", "protocol", "strided", "reversed", "unaligned",
             "readonly", "index", "series", "swapped", "us", "ms", "s"]


@st.composite
def stamps_case(draw):
    case = draw(case_())
    case["form"] = "plain"
    kind = m.BASES[case["base"]][0]
    case["fmt"] = draw(st.sampled_from(
        DT_STAMPS if kind == "dt" else NUM_STAMPS))
    return case


def stored_stamps(ts, fmt):
    if fmt == "index":
        return pd.Index(ts)
    if fmt == "series":
        return pd.Series(ts)
    if ts.dtype.kind == "M":
        if fmt == "list":
            return list(ts)
        if fmt == "swapped":
            return ts.astype(ts.dtype.newbyteorder(">"))
        if fmt in ("us", "ms", "s"):
            out = ts.astype(f"M8[{fmt}]")
            return out if np.all(out == ts) else ts
    elif fmt in INTS + FLOATS:
        with np.errstate(all="ignore"):
            out = ts.astype(fmt)
        return out if np.all(out.astype(float) == ts) else ts
    return stored(ts, fmt)


@facet(stamps_case(), quick=3000)
def stamps(case, rec):
    e = calls.Env(case)
    fmt, name = case["fmt"], case["op"]
    fn, args, kw = OPS[name](e)
    if name in ("accessor_qinterp", "accessor_qinv", "from_dataset"):
        return  # labelled
    used = []

    def make(x):
        out = stored_stamps(x, fmt)
        used.append(out is not x)
        return out

    a_out, k_out = convert(args, kw, lambda x: is_stamps(e, x),
                           case["which"], make)
    if not any(used):
        return
    rec.note()
    rec.label(fmt)
    ref = fn(*args, **kw)
    what = f"{name} with timestamps as {fmt}"
    try:
        out = fn(*a_out, **k_out)
    except (TypeError, ValueError, IndexError, AttributeError) as ex:
        ensure(False, "%s: %r", what, ex)
    # differences of times in single precision
    # timestamps are returned as given
    compare(values(ref), values(out), 1e-5 if fmt in FLOATS else 1e-9,
            name in SIGN, what, "fiu")


# --- axes and names ----------------------------------------------------------


def _axes(e):
    """(function, arrays, axis keywords) with the axis at drawn positions."""
    s, p, q = e.c["seed"], e.points(), e.quats()
    nd = 3
    i, j = e.c["f"][0] % nd, e.c["f"][1] % nd
    if i == j:
        j = (i + 1) % nd
    neg = e.c["flag"]

    def ax(k):
        return k - nd if neg else k

    # time axis at i, coordinates at j
    def lay(a):
        a = np.stack([a, a[::-1]], 1)
        return np.moveaxis(a, (0, 2), (i, j))

    both = dict(axis=ax(j), time_axis=ax(i))
    f = [e.rfs[1], e.rfs[0], e.rfs[2], e.rfs[3]]
    del s
    return {
        "qinv": lambda c: rbm.qinv(lay(q), qaxis=c(ax(j))),
        "qmul": lambda c: rbm.qmul(lay(q), lay(q), qaxis=c(ax(j))),
        "qmean": lambda c: rbm.qmean(q, axis=c(-1 if neg else 0)),
        "qmean2": lambda c: rbm.qmean(lay(q[:, :]).swapaxes(j, -1),
                                      axis=c(0)),
        "qmean3": lambda c: rbm.qmean(
            np.moveaxis(lay(q), j, -1), axis=(c(-2), c(-1))),
        "qinterp": lambda c: rbm.qinterp(
            lay(q), e.ts, e.ts[1:], axis=c(i - nd if neg else i),
            qaxis=c(ax(j))),
        "rotate_vectors": lambda c: rbm.rotate_vectors(
            q[0], lay(p), axis=c(ax(j)), one_to_one=False),
        "from_euler": lambda c: rbm.from_euler_angles(lay(p), axis=c(ax(j))),
        "spherical": lambda c: rbm.cartesian_to_spherical(
            lay(p), axis=c(ax(j))),
        "coordinates": lambda c: rbm.transform_coordinates(
            lay(p), outof="cartesian", into="spherical", axis=c(ax(j))),
        "points": lambda c: rbm.transform_points(
            lay(p), outof=f[0], into=f[1], axis=c(ax(j))),
        "moving_points": lambda c: rbm.transform_points(
            lay(p), outof=f[2], into=f[1], timestamps=e.ts,
            **{k: c(v) for k, v in both.items()}),
        "moving_quaternions": lambda c: rbm.transform_quaternions(
            lay(q), outof=f[2], into=f[1], timestamps=e.ts,
            **{k: c(v) for k, v in both.items()}),
        "velocity": lambda c: rbm.transform_linear_velocity(
            lay(p), outof=f[2], into=f[3], timestamps=e.ts,
            moving_frame=f[2], what="reference_frame",
            **{k: c(v) for k, v in both.items()}),
        "linear": lambda c: rbm.estimate_linear_velocity(
            lay(p), timestamps=e.ts, **{k: c(v) for k, v in both.items()}),
        "angular": lambda c: rbm.estimate_angular_velocity(
            lay(q), timestamps=e.ts, **{k: c(v) for k, v in both.items()}),
        "shortest_arc": lambda c: rbm.shortest_arc_rotation(
            lay(p), lay(p[:, ::-1]), axis=c(ax(j))),
        "best_fit": lambda c: rbm.best_fit_transform(
            lay(p), lay(p * 2 + 1), axis=c(ax(j))),
    }


AXES = ["qinv", "qmul", "qmean", "qmean2", "qmean3", "qinterp",
        "rotate_vectors", "from_euler", "spherical", "coordinates",
        "points", "moving_points", "moving_quaternions", "velocity",
        "linear", "angular", "shortest_arc", "best_fit"]
INDEX = {"int64": np.int64, "int32": np.int32, "int8": np.int8,
         "intp": np.intp}


@st.composite
def axes_case(draw):
    case = draw(case_())
    case.update(form="plain", op=draw(st.sampled_from(AXES)),
                fmt=draw(st.sampled_from(sorted(INDEX))))
    return case


@facet(axes_case(), quick=1500)
def axes(case, rec):
    e = calls.Env(case)
    fn = _axes(e)[case["op"]]
    what = f"{case['op']} with axis as {case['fmt']}"
    rec.note()
    rec.label(case["op"])
    try:
        ref = fn(int)
    except (ValueError, IndexError, NotImplementedError):
        rec.label("no reference")
        return
    try:
        out = fn(INDEX[case["fmt"]])
    except (TypeError, ValueError, IndexError) as ex:
        ensure(False, "%s: %r", what, ex)
    compare(values(ref), values(out), 0.0, False, what)


@facet(axes_case(), quick=800)
def names(case, rec):
    """Names of frames as numpy strings."""
    e = calls.Env(case)
    i, j, k = (case["f"] + [case["seed"]])
    a, b = e.rfs[i % 6], e.rfs[j % 6]
    rec.note(a is not b)
    for fn in (
        lambda c: rbm.lookup_transform(c(a.name), c(b.name),
                                       return_timestamps=True),
        lambda c: rbm.transform_points(
            e.points(), outof=c(a.name), into=c(b.name), timestamps=e.ts,
            return_timestamps=True),
        lambda c: rbm.lookup_twist(c("moving"), c("other"), c(a.name),
                                   return_timestamps=True),
        lambda c: a.lookup_transform(c(b.name)),
    ):
        compare(values(fn(str)), values(fn(np.str_)), 0.0, False,
                "frame names as numpy strings")
