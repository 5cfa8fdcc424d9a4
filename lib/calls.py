"""Calls of all public functions that take arrays, over a tree of frames."""

import numpy as np
import rigid_body_motion as rbm
import xarray as xr

from lib import model as m


class Env:
    def __init__(self, case):
        self.c = case
        base = self.base = case["base"]
        s = case["seed"]
        n = self.n = case["n"]
        self.ticks = list(range(0, 2 * n, 2))
        ax = m.bulk_unit(s, (3,), 9)
        rate = (ax * 0.3).tolist()

        def fr(name, parent, kind, salt):
            return dict(name=name, parent=parent, kind=kind,
                        t=m.bulk(s, 3, salt).tolist(),
                        q=m.bulk_unit(s, (4,), salt).tolist(),
                        ticks=self.ticks, seed=s + salt, rate=rate,
                        inverse=False)

        self.specs = [
            dict(name="root", parent=None, kind="static"),
            fr("static", 0, "static", 1),
            fr("moving", 1, "moving", 2),
            fr("other", 0, "moving", 3),
            fr("events", 0, "discrete", 4),
            fr("leaf", 2, "static", 5),
        ]
        self.rfs = m.build(self.specs, base)
        self.ts = m.to_time(base, self.ticks)
        self.tsec = np.array(self.ticks) * m.tick_seconds(base)
        # half of the cases use angles of several turns
        self.wide = 20.0 if s % 2 else 1.0

    def frame(self, i):
        return self.rfs[self.c["f"][i] % len(self.rfs)]

    def moving_pair(self):
        return self.rfs[2], self.rfs[3]

    def points(self, salt=0, shape=None):
        return m.bulk(self.c["seed"], shape or (self.n, 3), 20 + salt)

    def quats(self, salt=0):
        ax = m.bulk_unit(self.c["seed"], (3,), 30 + salt)
        return m.qmul(
            m.bulk_unit(self.c["seed"], (4,), 31 + salt),
            m.qexp(ax * 0.2 * np.array(self.ticks)[:, None]))

    def da(self, arr, spatial, labels, **attrs):
        """Labelled array with additional coordinates."""
        n = len(arr)
        a = xr.DataArray(
            arr, dims=("time", spatial),
            coords={
                "time": self.ts[:n], spatial: labels,
                "number": ("time", np.arange(n) * 1.5),
                "label": ("time", [f"s{i}" for i in range(n)]),
                "axnum": (spatial, np.arange(len(labels))),
            },
            name="thing" if self.c["seed"] % 3 else None,
            attrs=dict(attrs, note="x", nested="y"))
        return a

    def arr(self, arr, **attrs):
        """Array in the drawn form."""
        form = self.c["form"]
        if form == "dataarray":
            if arr.shape[1] == 3:
                return self.da(arr, "cartesian_axis", ["x", "y", "z"],
                               **attrs)
            if arr.shape[1] == 2:
                return self.da(arr, "cartesian_axis", ["x", "y"], **attrs)
            return self.da(arr, "quaternion_axis", ["w", "x", "y", "z"],
                           **attrs)
        arr = arr.copy()
        if form == "readonly":
            arr.flags.writeable = False
        elif form == "fortran":
            arr = np.asfortranarray(arr)
        return arr

    def stamps(self):
        if self.c["form"] == "dataarray":
            return "time" if self.c["flag"] else None
        ts = self.ts.copy()
        if self.c["form"] == "readonly":
            ts.flags.writeable = False
        return ts

    def numstamps(self):
        return self.stamps()


OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


def _transform(kind):
    def make(e):
        arr = e.quats() if kind == "quaternions" else e.points()
        kw = dict(into=e.frame(0), outof=e.frame(1),
                  timestamps=e.stamps())
        if e.c["form"] != "dataarray":
            kw["return_timestamps"] = True
        return getattr(rbm, f"transform_{kind}"), (
            e.arr(arr, representation_frame=e.frame(1).name,
                  reference_frame="root"),), kw
    return make


for _k in ("points", "vectors", "quaternions"):
    OPS[f"transform_{_k}"] = _transform(_k)


def _velocity(kind, what):
    def make(e):
        a, b = e.moving_pair()
        kw = dict(into=b, outof=a, what=what, timestamps=e.stamps())
        if kind == "linear":
            kw.update(moving_frame=e.rfs[5], reference_frame=e.rfs[0])
        return getattr(rbm, f"transform_{kind}_velocity"), (
            e.arr(e.points(), representation_frame=a.name),), kw
    return make


for _k in ("linear", "angular"):
    for _w in ("reference_frame", "moving_frame", "representation_frame"):
        OPS[f"transform_{_k}_{_w}"] = _velocity(_k, _w)


def _method(kind):
    def make(e):
        arr = e.quats() if kind == "quaternions" else e.points()
        if e.c["form"] == "readonly":
            arr.flags.writeable = False
        return getattr(e.frame(0), f"transform_{kind}"), (
            arr, e.frame(1)), dict(timestamps=e.ts.copy(),
                                   return_timestamps=True)
    return make


for _k in ("points", "vectors", "quaternions"):
    OPS[f"method_{_k}"] = _method(_k)


@op
def lookup_transform(e):
    return rbm.lookup_transform, (e.frame(0), e.frame(1)), (
        dict(as_dataset=True) if e.c["flag"]
        else dict(return_timestamps=True))


@op
def lookup_pose(e):
    return rbm.lookup_pose, (e.frame(0), e.frame(1)), (
        dict(as_dataset=True) if e.c["flag"]
        else dict(return_timestamps=True))


@op
def method_lookup(e):
    return e.frame(0).lookup_transform, (e.frame(1),), {}


@op
def lookup_twist(e):
    a, b = e.moving_pair()
    return rbm.lookup_twist, (a, b, e.frame(0)), (
        dict(as_dataset=True) if e.c["flag"]
        else dict(return_timestamps=True))


@op
def lookup_linear(e):
    a, b = e.moving_pair()
    return rbm.lookup_linear_velocity, (a, b, e.frame(0)), (
        dict(as_dataarray=True) if e.c["flag"]
        else dict(return_timestamps=True))


@op
def lookup_angular(e):
    a, b = e.moving_pair()
    return rbm.lookup_angular_velocity, (a, b, e.frame(0)), (
        dict(as_dataarray=True) if e.c["flag"]
        else dict(return_timestamps=True))


@op
def static_twist(e):
    a, b = e.rfs[0], e.rfs[1]
    fn = [e.rfs[1].lookup_twist, e.rfs[1].lookup_linear_velocity,
          e.rfs[1].lookup_angular_velocity][e.c["f"][0] % 3]
    return fn, (a, b if e.c["f"][1] % 2 else a), dict(
        allow_static=True, return_timestamps=e.c["flag"])


def many(e, width, salt=0):
    """More samples than the other calls use."""
    n = 40 * e.n + 10 * e.c["f"][0]
    x = m.bulk(e.c["seed"], (n, width), 60 + salt)
    return m.unit(x + 1e-3) if width == 4 else x


@op
def many_icp(e):
    v = many(e, 3)
    u = v[: len(v) - 3 * e.c["f"][1]] + 0.05 * many(e, 3, 1)[
        : len(v) - 3 * e.c["f"][1]]
    return rbm.iterative_closest_point, (plain(e, v), plain(e, u)), {}


@op
def many_samples(e):
    v, q = many(e, 3), many(e, 4)
    # whole numbers: C30 tells them from values by that
    t = 3 * np.cumsum(1 + (10 * np.abs(v[:, 0])).astype(int))
    i = e.c["f"][1]
    if i == 0:
        return rbm.best_fit_transform, (plain(e, v), plain(e, v[::-1])), {}
    if i == 1:
        return rbm.qmean, (plain(e, q),), {"axis": 0}
    if i == 2:
        return rbm.rotate_vectors, (plain(e, q), plain(e, v)), {}
    if i == 3:
        return rbm.estimate_linear_velocity, (plain(e, v),), dict(
            timestamps=plain(e, t))
    if i == 4:
        return rbm.estimate_angular_velocity, (plain(e, q),), dict(
            timestamps=plain(e, t))
    return rbm.qinterp, (plain(e, q), plain(e, t), t[1:] - 1), {}


@op
def estimate_linear(e):
    kw = dict(timestamps=e.numstamps())
    if e.c["f"][0] % 2:
        kw["outlier_thresh"] = 1e6
    return rbm.estimate_linear_velocity, (e.arr(e.points()),), kw


@op
def estimate_angular(e):
    kw = dict(timestamps=e.numstamps())
    if e.c["f"][0] % 2:
        kw["outlier_thresh"] = 1e6
    if e.c["f"][1] % 2:
        kw["mode"] = "rotation_vector"
    return rbm.estimate_angular_velocity, (e.arr(e.quats()),), kw


@op
def estimate_angular_nan(e):
    q = e.quats()
    q[e.n // 2] = np.nan
    return rbm.estimate_angular_velocity, (e.arr(q),), dict(
        timestamps=e.numstamps())


@op
def shortest_arc(e):
    v1, v2 = e.points(1), e.points(2)
    if e.c["flag"]:
        v2[1] = -v1[1]
    return rbm.shortest_arc_rotation, (e.arr(v1), e.arr(v2)), {}


@op
def best_fit_rotation(e):
    v = e.points(1)
    return rbm.best_fit_rotation, (
        e.arr(v), e.arr(v * [1, 1, -1] if e.c["flag"] else v[:, ::-1])), {}


@op
def best_fit_transform(e):
    v = e.points(1)
    return rbm.best_fit_transform, (
        e.arr(v), e.arr(v * [1, 1, -1] if e.c["flag"] else v[:, ::-1])), {}


@op
def icp(e):
    v = e.points(1)
    kw = {}
    if e.c["flag"]:
        kw["init_transform"] = (np.array([0.1, 0.0, 0.0]),
                                m.qexp(np.array([0.1, 0, 0])))
    return rbm.iterative_closest_point, (e.arr(v), e.arr(v + 0.1)), kw


def _coords(into, outof, dim):
    def make(e):
        arr = e.points()[:, :dim].copy()
        if outof != "cartesian":
            arr[:, 0] = np.abs(arr[:, 0])
        kw = dict(into=into)
        a = e.arr(arr, coordinate_system=outof)
        if e.c["form"] != "dataarray" or e.c["flag"]:
            kw["outof"] = outof
        if e.c["form"] == "dataarray":
            kw["replace_dim"] = bool(e.c["f"][0] % 2)
        return rbm.transform_coordinates, (a,), kw

    def plain(e):
        arr = e.points()[:, :dim].copy()
        if e.c["form"] == "readonly":
            arr.flags.writeable = False
        return getattr(rbm, f"{outof}_to_{into}"), (arr,), {}
    OPS[f"transform_coordinates_{outof}_{into}"] = make
    OPS[f"{outof}_to_{into}"] = plain


for _a, _b, _d in (("cartesian", "polar", 2), ("polar", "cartesian", 2),
                   ("cartesian", "spherical", 3),
                   ("spherical", "cartesian", 3)):
    _coords(_b, _a, _d)


def plain(e, arr):
    arr = arr.copy()
    if e.c["form"] == "readonly":
        arr.flags.writeable = False
    return arr


@op
def qinv(e):
    return rbm.qinv, (plain(e, e.quats()),), {}


@op
def qmul(e):
    return rbm.qmul, (plain(e, e.quats()), plain(e, e.quats(1))), {}


@op
def qmean(e):
    return rbm.qmean, (plain(e, e.quats()),), (
        {} if e.c["flag"] else {"axis": 0})


@op
def qinterp(e):
    t_out = m.to_time(e.base, np.array(e.ticks[:-1]) + 1)
    return rbm.qinterp, (plain(e, e.quats()), plain(e, e.ts), t_out), {}


@op
def qfunctions_dtype(e):
    import quaternion

    q = quaternion.as_quat_array(e.quats())
    p = quaternion.as_quat_array(e.quats(1))
    fn = [rbm.qinv, rbm.qmul, rbm.qmean][e.c["f"][0] % 3]
    return fn, ((q, p) if fn is rbm.qmul else (q,)), {}


@op
def rotate_vectors(e):
    if e.c["flag"]:
        return rbm.rotate_vectors, (plain(e, e.quats() * 2),
                                    plain(e, e.points())), {}
    return rbm.rotate_vectors, (plain(e, e.quats()), plain(e, e.points())), \
        dict(one_to_one=False)


@op
def from_euler(e):
    return rbm.from_euler_angles, (plain(e, e.points() * e.wide),), dict(
        order=["rpy", "ypr", "pry"][e.c["f"][0] % 3],
        return_quaternion=e.c["flag"])


@op
def accessor_qinterp(e):
    da = e.da(e.quats(), "quaternion_axis", ["w", "x", "y", "z"])
    t_out = m.to_time(e.base, np.array(e.ticks[:-1]) + 1)
    return (lambda d, t: d.rbm.qinterp(time=t)), (da, t_out), {}


@op
def accessor_qinv(e):
    da = e.da(e.quats(), "quaternion_axis", ["w", "x", "y", "z"])
    return (lambda d: d.rbm.qinv()), (da,), {}


@op
def frame_definition(e):
    def define(T, Q, ts):
        rf = rbm.ReferenceFrame(
            "tmp", e.rfs[0], translation=T, rotation=Q, timestamps=ts,
            inverse=e.c["flag"])
        out = rbm.lookup_transform(rf, e.rfs[0], return_timestamps=True)
        rf.parent = None
        return out
    return define, (plain(e, e.points()), plain(e, e.quats()),
                    plain(e, e.ts)), {}


@op
def from_dataset(e):
    ds = xr.Dataset(
        dict(T=(("time", "c"), e.points()), Q=(("time", "q"), e.quats())),
        dict(time=e.ts), attrs=dict(a="b"))

    def define(ds):
        rf = rbm.ReferenceFrame.from_dataset(
            ds, "T", "Q", "time", e.rfs[0], "tmp", inverse=e.c["flag"])
        out = rbm.lookup_transform(rf, e.rfs[0], return_timestamps=True)
        rf.parent = None
        return out
    return define, (ds,), {}


def _extract(x):
    return np.array(x) if not isinstance(x, (tuple, list)) else x


@op
def plot_data(e):
    fn = [rbm.plot.points, rbm.plot.vectors, rbm.plot.quaternions][
        e.c["f"][0] % 3]
    arr = plain(e, e.quats() if fn is rbm.plot.quaternions else e.points())

    def draw(arr, base):
        kw = {} if base is None else dict(base=base)
        fn(arr, **kw)
    base = None
    if e.c["flag"] and fn is not rbm.plot.points:
        base = plain(e, e.points(1))
    return draw, (arr, base), {}


@op
def rotation_matrix(e):
    def define(mat):
        rf = rbm.ReferenceFrame.from_rotation_matrix(mat, e.rfs[0], "tmp")
        out = rbm.lookup_transform(rf, e.rfs[0])
        rf.parent = None
        return out
    return define, (m.qmat(e.quats()[0]),), {}
