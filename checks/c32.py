"""C32: results do not depend on what was called before."""

import contextlib
import copy
import io
import os
import pickle
import signal
import traceback

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import calls
from lib import model as m
from lib.harness import HarnessError, ensure, facet

PROPERTY = "C32"
RULE = (
    "Histories of 3 to 10 steps over one tree of static, moving and "
    "event-like frames: calls of every public function with arrays, drawn "
    "from few functions, frames, options and values per history, so that "
    "calls resemble each other (same frames and shapes, timestamps that "
    "agree in number and ends but not in between, the same arrays changed in "
    "place); in between, frames are attached elsewhere, redefined, renamed, "
    "registered and deregistered. Oracle: the same call made on its own in a "
    "newly forked process after the same changes of the tree and no other "
    "call. Non-trivial: at least two calls, of which one is preceded by a "
    "call of the same function with other arguments, by a change of the "
    "tree, or by a change of its arguments."
)

OPS = {k: v for k, v in calls.OPS.items() if k != "plot_data"}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


MODES = ["quaternion", "rotation_vector"]


@op
def twist_options(e):
    a, b = e.moving_pair()
    kw = dict(mode=MODES[e.c["f"][0] % 2], return_timestamps=True)
    if e.c["flag"]:
        kw["outlier_thresh"] = 1e6
    return rbm.lookup_twist, (a, b, e.frame(1)), kw


@op
def angular_options(e):
    a, b = e.moving_pair()
    kw = dict(mode=MODES[e.c["f"][0] % 2], represent_in=e.frame(1))
    if e.c["flag"]:
        a, b = b, a
    return rbm.lookup_angular_velocity, (a, b), kw


@op
def method_velocities(e):
    a, b = e.moving_pair()
    fn = a.lookup_linear_velocity if e.c["flag"] else (
        a.lookup_angular_velocity)
    return fn, (b, e.frame(0)), dict(return_timestamps=True)


@op
def by_name(e):
    a, b = e.frame(0).name, e.frame(1).name
    if e.c["flag"]:
        return rbm.lookup_transform, (a, b), dict(return_timestamps=True)
    return rbm.transform_points, (e.points(),), dict(
        outof=a, into=b, timestamps=e.ts, return_timestamps=True)


@op
def default_references(e):
    a = e.frame(0)
    return rbm.lookup_twist, (a,), dict(return_timestamps=True)


@op
def no_time(e):
    fn = [rbm.transform_points, rbm.transform_vectors,
          rbm.transform_quaternions][e.c["f"][0] % 3]
    arr = e.quats() if fn is rbm.transform_quaternions else e.points()
    return fn, (arr[0] if e.c["flag"] else arr,), dict(
        outof=e.rfs[1], into=e.rfs[0] if e.c["f"][1] % 2 else e.rfs[1])


@op
def single_angles(e):
    a = e.points()[:, 0]
    kw = {}
    for i, k in enumerate(["roll", "pitch", "yaw"]):
        if e.c["f"][0] % 3 == i or e.c["flag"]:
            kw[k] = a + i
    return rbm.from_euler_angles, (), dict(
        kw, order=["rpy", "ypr"][e.c["f"][1] % 2])


@op
def icp_iterations(e):
    v = e.points(1)
    return rbm.iterative_closest_point, (v, v + 0.1), dict(
        max_iterations=1 + e.c["f"][0] % 3)


@op
def mean_options(e):
    q = np.stack([e.quats(), e.quats(1)])
    return rbm.qmean, (q,), dict(axis=[0, 1, None][e.c["f"][0] % 3])


@op
def interp_elsewhere(e):
    own = m.to_time(e.base, list(range(0, 2 * e.n, 2)))
    return rbm.qinterp, (e.quats(), own, e.ts), {}


@op
def rendered(e):
    def render(rf):
        with contextlib.redirect_stdout(io.StringIO()) as out:
            rbm.render_tree(rf)
        return out.getvalue()
    return render, (e.frame(0),), {}


@op
def matrix_frames(e):
    def define(mat, inverse):
        rf = rbm.ReferenceFrame.from_rotation_matrix(
            mat, e.rfs[0], "tmp", inverse=inverse)
        out = rbm.lookup_transform(rf, e.rfs[0])
        rf.parent = None
        return out
    return define, (m.qmat(e.quats()[-1]), e.c["flag"]), {}


@op
def twist_any(e):
    return rbm.lookup_twist, (e.frame(0), e.frame(1), e.frame(0)), dict(
        return_timestamps=True)


@op
def velocity_any(e):
    fn = rbm.lookup_angular_velocity if e.c["flag"] else (
        rbm.lookup_linear_velocity)
    return fn, (e.frame(0), e.frame(1), e.frame(1)), dict(
        return_timestamps=True)


CUTOFFS = [0.2, 0.205, 0.25, 0.5]


@op
def filtered(e):
    n = 30
    ts = m.to_time(e.base, np.arange(n))
    kw = dict(timestamps=ts, cutoff=CUTOFFS[(e.c["f"][0] + e.c["i"]) % 4])
    if e.c["flag"]:
        q = m.qmul(m.bulk_unit(e.c["seed"], (4,), 31), m.qexp(
            m.bulk(e.c["seed"], (n, 3), 32) * 0.1))
        return rbm.estimate_angular_velocity, (q,), kw
    return rbm.estimate_linear_velocity, (
        m.bulk(e.c["seed"], (n, 3), 33),), kw


@op
def icp_same_ends(e):
    v = e.points(1)
    w = v + 0.1
    if e.c["flag"]:
        w[1:-1] = w[1:-1][::-1].copy() + 0.3
    return rbm.iterative_closest_point, (v, w), dict(
        max_iterations=1 + e.c["i"] % 3)


KINDS = ["call", "call", "call", "call", "call", "again", "changed", "move",
         "redefine", "rename", "deregister", "register"]
small = st.integers(0, 5)


@st.composite
def step(draw, ops, frames, values):
    return dict(
        do=draw(st.sampled_from(KINDS)), op=draw(st.sampled_from(ops)),
        f=draw(st.sampled_from(frames)), seed=draw(st.sampled_from(values)),
        flag=draw(st.booleans()),
        form=draw(st.sampled_from(["plain", "plain", "dataarray"])),
        times=draw(st.sampled_from(["own", "inner", "inner", "other"])),
        names=draw(st.booleans()),
        i=draw(small), j=draw(small),
    )


@st.composite
def cases(draw):
    ops = draw(st.lists(st.sampled_from(sorted(OPS)), min_size=1, max_size=3,
                        unique=True))
    frames = draw(st.lists(st.lists(st.integers(0, 7), min_size=2,
                                    max_size=2), min_size=1, max_size=2))
    if draw(st.integers(0, 3)) == 0:
        # frames with the same first and last pose
        f = draw(st.integers(0, 5))
        frames = [[6, f], [7, f]] if draw(st.booleans()) else [[f, 6], [f, 7]]
    values = draw(st.lists(st.integers(0, 2**31), min_size=1, max_size=2))
    return dict(
        base=draw(m.bases), seed=draw(m.seeds), n=draw(st.integers(5, 8)),
        form="plain", flag=False, f=[0, 0],
        steps=draw(st.lists(step(ops, frames, values), min_size=3,
                            max_size=10)),
    )


class World:
    """The tree and what a step does to it."""

    def __init__(self, case):
        self.env = calls.Env(case)
        self.last = None
        self.parents = [s["parent"] for s in self.env.specs]
        # two frames that differ between the ends only
        n, seed = self.env.n, case["seed"]
        T = m.bulk(seed, (n, 3), 91)
        Q = m.qmul(m.bulk_unit(seed, (4,), 92), m.qexp(
            m.bulk(seed, (n, 3), 93) * 0.1))
        for name in ("twin", "sister"):
            rbm.register_frame(name, self.env.rfs[0], T, Q, self.env.ts)
            self.env.rfs.append(rbm.registry[name])
            self.parents.append(0)
            T, Q = T.copy(), Q.copy()
            T[1:-1] = T[1:-1][::-1] + 1
            Q[1:-1] = Q[1:-1][::-1]

    def step_env(self, s, i):
        e = copy.copy(self.env)
        e.c = s
        n = e.n
        r = m.rng(s["seed"], 77, s["i"])
        e.ticks = list(e.ticks)
        if s["times"] == "inner":
            e.ticks = [0] + sorted(int(x) for x in r.choice(
                np.arange(1, 2 * n - 2), n - 2, replace=False)) + [2 * n - 2]
        elif s["times"] == "other":
            e.ticks = [k - 1 + s["j"] for k in e.ticks]
        e.ts = m.to_time(e.base, e.ticks)
        e.tsec = np.array(e.ticks) * m.tick_seconds(e.base)
        e.wide = 20.0 if s["flag"] else 1.0
        return e

    def is_state(self, s):
        return s["do"] in ("move", "redefine", "rename", "deregister",
                           "register")

    def under(self, j, i):
        """Whether frame j is frame i or below it."""
        while j is not None:
            if j == i:
                return True
            j = self.parents[j]
        return False

    def change(self, s):
        rfs = self.env.rfs
        i, j = s["i"] % len(rfs), s["j"] % len(rfs)
        if s["do"] == "move":
            if i and not self.under(j, i):
                rfs[i].parent = rfs[j]
                self.parents[i] = j
        elif s["do"] == "redefine":
            # a leaf, replaced by a frame of the same name
            i = [5, 4, 3][i % 3]
            if i in self.parents:
                return
            spec = dict(self.env.specs[i], seed=s["seed"] % 1000,
                        t=m.bulk(s["seed"], 3, 1).tolist(),
                        q=m.bulk_unit(s["seed"], (4,), 2).tolist())
            old = rfs[i]
            kw = m.ctor_args(spec, self.env.base)
            if s["flag"] and "timestamps" in kw:
                for k in ("translation", "rotation"):
                    kw[k][[0, -1]] = getattr(old, k)[[0, -1]]
            parent = rfs[self.parents[i]]
            if rbm.registry.get(old.name) is old:
                rbm.register_frame(old.name, parent, update=True, **kw)
                rfs[i] = rbm.registry[old.name]
            else:
                old.parent = None
                rfs[i] = rbm.ReferenceFrame(old.name, parent, **kw)
        elif s["do"] == "rename":
            # not registered any more, might have the name of another one
            if rbm.registry.get(rfs[i].name) is rfs[i]:
                rbm.deregister_frame(rfs[i].name)
            rfs[i].name = f"f{s['seed'] % 3}"
        elif s["do"] == "deregister":
            if rbm.registry.get(rfs[i].name) is rfs[i]:
                rfs[i].deregister()
        elif s["do"] == "register":
            if rfs[i].name not in rbm.registry:
                rfs[i].register()

    def prepare(self, s, i):
        fn, args, kw = OPS[s["op"]](self.step_env(s, i))
        if s["names"]:
            args = tuple(named(x) for x in args)
            kw = {k: named(x) for k, x in kw.items()}
        self.last = (fn, args, kw)

    def query(self, s, i, alone):
        """Result of the call of a step."""
        if s["do"] == "call" or self.last is None:
            self.prepare(s, i)
        elif s["do"] == "changed":
            change_arrays(self.last[1])
        fn, args, kw = self.last
        try:
            return "value", encode(fn(*args, **kw))
        except Exception as exc:  # noqa: B902
            return "error", type(exc).__name__


def named(x):
    """Name of a frame, if it is registered."""
    if isinstance(x, rbm.ReferenceFrame):
        return x.name if rbm.registry.get(x.name) is x else x
    return x


def change_arrays(args):
    """Other values in the same arrays, the ends remaining."""
    for a in args:
        data = a.data if isinstance(a, xr.DataArray) else a
        if isinstance(a, xr.Dataset):
            for v in a.data_vars.values():
                v.data[1:-1] = v.data[1:-1][::-1].copy()
        elif isinstance(data, np.ndarray) and data.flags.writeable and (
                data.ndim > 1):
            data[1:-1] = data[1:-1][::-1].copy()


def encode(x):
    """Plain description of a result."""
    if isinstance(x, (tuple, list)):
        return [encode(y) for y in x]
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        d = x.to_dict(data=False)
        parts = {}
        for k in sorted(set(map(str, x.coords))):
            parts[k] = encode(x.coords[k].values)
        if isinstance(x, xr.Dataset):
            for k in sorted(map(str, x.data_vars)):
                parts[k] = encode(x[k].values)
        else:
            parts["values"] = encode(x.values)
        return dict(description=repr(strip(d)), parts=parts)
    if x is None or isinstance(x, str):
        return x
    a = np.asarray(x)
    if a.dtype.names is None and a.dtype.kind not in "fiubcmMSUO":
        import quaternion

        return dict(quaternion=encode(quaternion.as_float_array(a)))
    if a.dtype.kind in "OSU":
        return [str(y) for y in a.ravel()]
    if a.dtype.kind in "mM":
        a = a.astype(a.dtype.kind + "8[ns]").view(np.int64)
    return np.array(a)


def strip(d):
    """Attributes, names and dimensions."""
    if isinstance(d, dict):
        return {k: strip(v) for k, v in sorted(d.items(), key=str)
                if k not in ("dtype", "encoding")}
    return d


def difference(a, b, where="result"):
    """What differs between two descriptions (None if nothing)."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f"{where}: shape {a.shape} instead of {b.shape}"
        if not np.array_equal(np.isnan(a), np.isnan(b)):
            return f"{where}: missing values differ"
        ok = ~np.isnan(b)
        if ok.any():
            x, y = a[ok].astype(float), b[ok].astype(float)
            with np.errstate(all="ignore"):
                same = (x == y) | (np.abs(x - y) <= 1e-9 * max(
                    1.0, np.max(np.abs(y[np.isfinite(y)]), initial=0)))
            if not same.all():
                i = int(np.argmin(same))
                return f"{where}: {x[i]!r} instead of {y[i]!r}"
        return None
    if type(a) is not type(b):
        return f"{where}: {type(a).__name__} instead of {type(b).__name__}"
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f"{where}: {sorted(a)} instead of {sorted(b)}"
        for k in a:
            d = difference(a[k], b[k], f"{where}/{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{where}: {len(a)} items instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f"{where}[{i}]" if len(a) > 1 else where)
            if d:
                return d
        return None
    return None if a == b else f"{where}: {a!r} instead of {b!r}"


def forked(fn):
    """Result of a function, executed in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 60.0)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException:  # noqa: B902
                data = pickle.dumps(("failed", traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not data:
        return ["error", "did not return"]
    status, value = pickle.loads(data)
    if status == "failed":
        raise HarnessError(value)
    return value


def history(case):
    """Results of all steps, one after the other."""
    w = World(case)
    out = []
    for i, s in enumerate(case["steps"]):
        if w.is_state(s):
            w.change(s)
            out.append(None)
        else:
            out.append(w.query(s, i, False))
    return out


def separately(case):
    """Results of all steps, each without any other call."""
    w = World(case)
    out = []
    origin = None
    for i, s in enumerate(case["steps"]):
        if w.is_state(s):
            w.change(s)
            out.append(None)
            continue
        # arrays of repeated calls are made and changed, but not used before
        if s["do"] == "call" or origin is None:
            origin = s
            w.prepare(s, i)
        elif s["do"] == "changed":
            change_arrays(w.last[1])
        out.append(forked(lambda: w.query(dict(s, do="again"), i, True)))
    return out


@facet(cases(), quick=4000)
def histories(case, rec):
    one = forked(lambda: history(case))
    two = forked(lambda: separately(case))
    if isinstance(one[0], str) or isinstance(two[0], str):
        raise HarnessError(f"history {one!r:.200}, separately {two!r:.200}")
    asked, changed, done = set(), False, 0
    for i, (s, a, b) in enumerate(zip(case["steps"], one, two)):
        if a is None:
            changed = True
            rec.label(s["do"])
            continue
        key = (s["op"], str(s["f"]), s["seed"], s["flag"], s["times"],
               s["form"], s["i"], s["names"])
        if s["do"] != "call":
            rec.label(s["do"])
        similar = any(k[0] == s["op"] and k != key for k in asked)
        rec.note(done and (similar or changed or s["do"] == "changed"))
        rec.label("similar call before", similar)
        rec.label("same call before", key in asked)
        rec.label("change before", changed and done > 0)
        rec.label("error", b[0] == "error")
        asked.add(key)
        done += 1
        ensure(a[0] == b[0], "step %d (%s): %s, by itself %s", i, s["op"],
               str(a)[:200], str(b)[:200])
        d = difference(a[1], b[1])
        ensure(d is None, "step %d (%s) depends on earlier calls: %s", i,
               s["op"], d)
