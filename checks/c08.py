"""C08: invalid definitions and requests are rejected without side effects."""

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import model as m
from lib.harness import close, ensure, facet, raises, same_rotation

PROPERTY = "C08"
RULE = (
    "Random trees; one invalid definition or request of a drawn kind with "
    "drawn sizes, via each entry point; afterwards registry, parents, "
    "children and a lookup are compared with before. Every case is invalid "
    "by construction; non-trivial: the tree has at least two frames."
)

DEFS = [
    "translation_shape", "rotation_shape", "translation_length",
    "rotation_length", "no_parent_translation", "no_parent_rotation",
    "no_parent_timestamps", "timestamps_2d", "discrete_static",
    "unknown_parent", "parent_type", "name_taken", "scalar_timestamps",
    "swapped",
]


# names of no frame
nowhere = st.sampled_from([
    "no such frame", "no such frame", "", "/f0", "f0/", "F0", " f0", "f", "f00",
    "f", "f0\n", "other", "None"])


@st.composite
def definitions(draw):
    base = draw(m.bases)
    return dict(
        nowhere=draw(nowhere),
        base=base,
        specs=draw(m.tree_spec(("static", "moving", "discrete"), base, 1, 5)),
        kind=draw(st.sampled_from(DEFS)), parent=draw(st.integers(0, 4)),
        n=draw(st.integers(2, 6)), d=draw(st.sampled_from([-1, 1, 2])),
        wrong=draw(st.integers(0, 5)),
        by_name=draw(st.booleans()),
        via=draw(st.sampled_from(["ctor", "register", "register_update",
                                  "dataset"])),
        moving=draw(st.booleans()), same_name=draw(st.booleans()),
        discrete=draw(st.booleans()), inverse=draw(st.booleans()),
        seed=draw(m.seeds),
    )


class Snapshot:
    def __init__(self, rfs, specs, base):
        self.rfs, self.specs, self.base = rfs, specs, base
        self.registry = dict(rbm.registry)
        self.tree = [(r.parent, r.children) for r in rfs]

    def check(self):
        ensure(dict(rbm.registry) == self.registry,
               "registry changed: %s, was %s", sorted(rbm.registry),
               sorted(self.registry))
        for r, (p, c) in zip(self.rfs, self.tree):
            ensure(r.parent is p, "parent of %s changed", r.name)
            ensure(len(r.children) == len(c)
                   and all(x is y for x, y in zip(r.children, c)),
                   "children of %s changed: %s, were %s", r.name,
                   r.children, c)
        a, b = len(self.rfs) - 1, 0
        k = m.lookup_ticks(self.specs, a, b)
        t, r = rbm.lookup_transform(self.rfs[a], self.rfs[b])
        te, qe = m.compose(self.specs, a, b, [0] if k is None else k)
        if k is None:
            te, qe = te[0], qe[0]
        close(t, te, 1e-8, "translation afterwards")
        same_rotation(r, qe, 1e-8, "rotation afterwards")


def wrong_shape(case, shape, width):
    """Of the translation or rotation: length or number of dimensions."""
    return [
        shape + (width + case["d"],),
        shape + (width + case["d"],),
        (1,) + shape + (width,),
        shape + (1, width),
        shape + (case["n"], width),
        (width,) if shape else (case["n"], width),
    ][case["wrong"]]


@facet(definitions(), quick=3000)
def definition(case, rec):
    base, specs, kind, n, d = (
        case[k] for k in ("base", "specs", "kind", "n", "d"))
    rfs = m.build(specs, base)
    pi = case["parent"] % len(specs)
    parent = rfs[pi].name if case["by_name"] else rfs[pi]
    via = case["via"]
    snap = Snapshot(rfs, specs, base)
    rec.note(len(specs) > 1)
    rec.label(kind)

    timestamped = case["moving"] or via == "dataset" or kind in (
        "translation_length", "rotation_length", "timestamps_2d",
        "no_parent_timestamps", "scalar_timestamps")
    shape = (n,) if timestamped else ()
    T = m.bulk(case["seed"], shape + (3,), 1)
    Q = m.bulk_unit(case["seed"], shape + (4,), 2)
    ts = m.to_time(base, np.arange(n)) if timestamped else None
    discrete = case["discrete"] and timestamped

    if kind == "translation_shape":
        T = np.ones(wrong_shape(case, shape, 3))
    elif kind == "rotation_shape":
        Q = np.ones(wrong_shape(case, shape, 4))
    elif kind == "translation_length":
        T = np.ones((n + d, 3))
    elif kind == "rotation_length":
        Q = np.ones((n + d, 4))
    elif kind == "no_parent_translation":
        parent, Q, ts = None, None, None
    elif kind == "no_parent_rotation":
        parent, T, ts = None, None, None
    elif kind == "no_parent_timestamps":
        parent, T, Q = None, None, None
    elif kind == "timestamps_2d":
        ts = ts[:, None]
    elif kind == "scalar_timestamps":
        ts = ts[0]
    elif kind == "discrete_static":
        T, Q, ts, discrete = np.zeros(3), np.array([1.0, 0, 0, 0]), None, True
    elif kind == "unknown_parent":
        parent = case["nowhere"]
    elif kind == "parent_type":
        parent = 42
    elif kind == "swapped":
        T, Q = Q, T
    elif kind == "name_taken":
        via = "register"
    if kind in ("no_parent_translation", "no_parent_rotation",
                "no_parent_timestamps", "discrete_static",
                "timestamps_2d", "scalar_timestamps") and via == "dataset":
        via = "ctor"

    taken = rfs[-1].name
    name = taken if case["same_name"] or kind == "name_taken" else "new"
    kw = dict(translation=T, rotation=Q, timestamps=ts, discrete=discrete,
              inverse=case["inverse"])
    if via == "ctor":
        def make():
            return rbm.ReferenceFrame(name, parent, **kw)
    elif via in ("register", "register_update"):
        def make():
            return rbm.register_frame(
                name, parent, update=via == "register_update", **kw)
    else:
        ds = xr.Dataset(dict(
            T=(["t1", "s1", "u1"][:T.ndim], T),
            Q=(["t2", "s2", "u2"][:Q.ndim], Q), stamp=(("t3",), ts)))

        def make():
            return rbm.ReferenceFrame.from_dataset(
                ds, "T", "Q", "stamp", parent, name,
                inverse=case["inverse"], discrete=discrete)
    rec.label("via " + via)
    types = (TypeError,) if kind == "parent_type" else (ValueError,)
    raises(make, *types, what=f"{kind} via {via}")
    snap.check()


@st.composite
def matrices(draw):
    return dict(shape=draw(st.sampled_from(
        [[3], [2, 2], [3, 4], [4, 4], [1, 3, 3], [9], [2, 3, 3]])))


@facet(matrices(), quick=100, shards=1)
def matrix_shape(case, rec):
    rec.note()
    root = rbm.ReferenceFrame("root")
    mat = np.zeros(case["shape"])
    raises(lambda: rbm.ReferenceFrame.from_rotation_matrix(mat, root, "x"),
           ValueError, what="rotation matrix shape")
    ensure(root.children == (), "child attached by failed definition")


REQS = [
    "spatial_length", "timestamps_length", "decreasing", "unknown_into",
    "unknown_outof", "no_outof", "other_tree", "type", "static_velocity",
    "root_velocity", "timestamps_2d", "decreasing_frame", "what",
]


@st.composite
def requests(draw):
    base = draw(m.bases)
    specs = draw(m.tree_spec(("static", "moving", "discrete"), base, 2, 5,
                             hi=12))
    a, b = draw(m.pair(len(specs)))
    return dict(
        nowhere=draw(nowhere),
        base=base, specs=specs, a=a, b=b, kind=draw(st.sampled_from(REQS)),
        what=draw(st.sampled_from(["points", "vectors", "quaternions",
                                   "linear_velocity", "angular_velocity"])),
        n=draw(st.integers(3, 7)), d=draw(st.sampled_from([-1, 1, 2])),
        swap=draw(st.integers(0, 5)), seed=draw(m.seeds),
        other=draw(st.integers(0, 3)),
        via=draw(st.sampled_from(["function", "method"])),
        extra=draw(st.booleans()),
        mode=draw(st.sampled_from(["twist", "linear_velocity",
                                   "angular_velocity"])),
        dtype=draw(st.sampled_from([None, None, "u1", "u4", "u8", "i1", "f4",
                                    ">f8"])),
    )


@facet(requests(), quick=3000)
def request(case, rec):
    base, specs, kind, n = (case[k] for k in ("base", "specs", "kind", "n"))
    if kind in ("static_velocity", "what"):
        specs = [dict(s, kind="static") for s in specs]
    rfs = m.build(specs, base)
    # possibly with the name of the root of the tree, or a child of that
    other = rbm.ReferenceFrame(
        ["other", rfs[0].name][case["other"] % 2])
    if case["other"] > 1:
        other = rbm.ReferenceFrame("below", other, translation=(1, 2, 3))
    A, B = rfs[case["a"]], rfs[case["b"]]
    snap = Snapshot(rfs, specs, base)
    rec.note(len(specs) > 1)
    rec.label(kind)
    what = case["what"]

    if kind in ("static_velocity", "root_velocity"):
        fn = f"lookup_{case['mode']}"
        if kind == "root_velocity":
            A = rfs[0]
            args = ()
        else:
            args = (B, A) if case["extra"] else (B,)
        if case["via"] == "function":
            raises(lambda: getattr(rbm, fn)(A, *args), what=kind)
        else:
            raises(lambda: getattr(A, fn)(*args), what=kind)
        snap.check()
        return

    if kind in ("unknown_into", "unknown_outof", "type", "other_tree") and (
        case["extra"]
    ):
        src, dst = A, B
        if kind == "unknown_into":
            dst = case["nowhere"]
        elif kind == "unknown_outof":
            src = case["nowhere"]
        elif kind == "type":
            dst = 1.5
        else:
            dst = other
        fn = rbm.lookup_transform if case["via"] == "function" else (
            rbm.lookup_pose)
        raises(lambda: fn(src, dst), what=f"lookup with {kind}")
        snap.check()
        return

    k = m.lookup_ticks(specs, case["a"], case["b"])
    dim = 4 if what == "quaternions" else 3
    n_t = n + 2
    timestamped = kind in ("timestamps_length", "decreasing",
                           "timestamps_2d") or case["extra"]
    ticks = np.arange(n_t)
    if k is not None and len(k):
        ticks = ticks + k[0]
    ts = m.to_time(base, ticks)
    if base in ("num1", "int") and case["dtype"]:
        ts = ts.astype(case["dtype"])
        rec.label(f"{kind} {case['dtype']}", kind.startswith("dec"))
    arr = m.bulk_unit(case["seed"], (n_t, dim))
    kw = dict(timestamps=ts if timestamped else None)
    if not timestamped:
        arr = arr[0]
    src, dst = A, B
    if what == "linear_velocity":
        kw.update(what="reference_frame", moving_frame=rfs[-1])
    elif what == "angular_velocity":
        kw.update(what="reference_frame")

    if kind == "spatial_length":
        arr = np.ones(arr.shape[:-1] + (dim + case["d"],))
    elif kind == "timestamps_length":
        kw["timestamps"] = m.to_time(
            base, np.arange(n_t + case["d"]) + ticks[0])
    elif kind == "decreasing":
        i = case["swap"] % (n_t - 1)
        order = np.arange(n_t)
        order[[i, i + 1]] = order[[i + 1, i]]
        kw["timestamps"] = ts[order]
    elif kind == "timestamps_2d":
        kw["timestamps"] = ts[:, None]
    elif kind == "unknown_into":
        dst = case["nowhere"]
    elif kind == "unknown_outof":
        src = case["nowhere"]
    elif kind == "no_outof":
        src = None
    elif kind == "type":
        dst = 1.5
    elif kind == "other_tree":
        dst = other
    elif kind == "decreasing_frame":
        i = case["swap"] % (n_t - 1)
        order = np.arange(n_t)
        order[[i, i + 1]] = order[[i + 1, i]]

        def definition():
            rf = rbm.ReferenceFrame(
                "dec", A, translation=m.bulk(0, (n_t, 3)),
                timestamps=ts[order])
            try:
                return rbm.lookup_transform(rf, A)
            finally:
                rf.parent = None
        raises(definition, ValueError, what=kind)
        snap.check()
        return
    elif kind == "what":
        if what not in ("linear_velocity", "angular_velocity"):
            return
        kw["what"] = "nothing"

    if case["via"] == "method" and isinstance(src, rbm.ReferenceFrame):
        if what == "linear_velocity":
            kw.setdefault("reference_frame", rfs[0])

        def call():
            return getattr(src, f"transform_{what}")(arr, dst, **kw)
    else:
        def call():
            return getattr(rbm, f"transform_{what}")(
                arr, into=dst, outof=src, **kw)
    raises(call, what=f"transform_{what} with {kind}")
    snap.check()
