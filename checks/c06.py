"""C06: equivalent definitions of a frame give equivalent frames."""

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import model as m
from lib.common import compare
from lib.harness import close, ensure, facet, same_rotation

PROPERTY = "C06"
RULE = (
    "A static, moving or discrete frame below a random chain, defined in two "
    "ways (datasets with further coordinates and variables): transform vs inverse transform with the inverse flag, omitted vs "
    "trivial arguments, constructor vs registry function vs dataset vs data "
    "array vs rotation matrix, array vs list, parent by object or name. All "
    "are looked up from and into another frame and compared with the model. "
    "Non-trivial: a rotation that is not the identity and, for timestamped "
    "frames, at least two samples."
)


@st.composite
def cases(draw):
    base = draw(m.bases)
    chain = draw(m.tree_spec(min_frames=1, max_frames=3, shape="chain"))
    n = len(chain)
    f = draw(m.frame_spec("x", n - 1, ("static", "moving", "discrete"), base,
                          ["rate", "knots"], 20))
    if f["num"] == "list":
        f["num"] = "f8"
    specs = chain + [f]
    child = draw(m.frame_spec("y", n, ("static", "moving"), base, "rate", 20))
    specs.append(child)
    return dict(
        base=base, specs=specs, target=draw(st.sampled_from([0, n - 1])),
        name_parent=draw(st.booleans()),
        omit=draw(st.sampled_from(["none", "translation", "rotation",
                                   "both"])),
        lists=draw(st.booleans()), length=draw(m.lengths),
        extra=draw(st.sampled_from([0, 0, 1, 2])),
    )


def lookups(case, specs, make, what):
    """Build the tree with make() for frame x and compare both directions."""
    base, u = case["base"], case["length"]
    n = len(specs) - 2
    rbm.clear_registry()
    rfs = m.build(specs[:n], base, length=u)
    parent = rfs[n - 1].name if case["name_parent"] else rfs[n - 1]
    x = make(parent)
    if x is None:
        x = rbm.registry["x"]
    ensure(x.name == "x", "%s: name %r", what, x.name)
    ensure(x.parent is rfs[n - 1], "%s: parent %r", what, x.parent)
    y = rbm.ReferenceFrame("y", x, **m.ctor_args(specs[-1], base, u))
    for i, rf in ((n, x), (n + 1, y)):
        for a, b, A, B in ((i, case["target"], rf, rfs[case["target"]]),
                           (case["target"], i, rfs[case["target"]], rf)):
            k = m.lookup_ticks(specs, a, b)
            t, r, ts = rbm.lookup_transform(A, B, return_timestamps=True)
            if k is None:
                ensure(ts is None, "%s: timestamps", what)
                te, qe = m.compose(specs, a, b, [0])
                close(t / u, te[0], 1e-9, what + ": translation")
                same_rotation(r, qe[0], 1e-9, what + ": rotation")
            else:
                compare(base, specs, a, b, k, t, r, ts, what, u)
    return x


def note(case, rec):
    f = case["specs"][-2]
    rec.note(abs(f["q"][0]) < 1 - 1e-9
             and (f["kind"] == "static" or len(f["ticks"]) >= 2))
    rec.label(f["kind"])
    rec.label("inverse", f["inverse"])


@facet(cases(), quick=1500)
def inverse(case, rec):
    """transform == inverse transform with inverse=True."""
    note(case, rec)
    specs, base = case["specs"], case["base"]
    f = specs[-2]
    kw = m.ctor_args(dict(f, inverse=False), base, case["length"])

    def inverted(kw, **more):
        q = m.qinv(kw["rotation"])
        t = -m.qrot(q, kw["translation"])
        return dict(kw, translation=t, rotation=q, **more)

    plain = specs[:-2] + [dict(f, inverse=False), specs[-1]]
    lookups(case, plain,
            lambda p: rbm.ReferenceFrame("x", p, **kw), "direct")
    lookups(case, plain,
            lambda p: rbm.ReferenceFrame("x", p,
                                         **inverted(kw, inverse=True)),
            "inverse of inverse")
    lookups(case, plain,
            lambda p: rbm.register_frame("x", p,
                                         **inverted(kw, inverse=True)),
            "registered inverse of inverse")
    inv = specs[:-2] + [dict(f, inverse=True), specs[-1]]
    lookups(case, inv,
            lambda p: rbm.ReferenceFrame("x", p, **inverted(kw)),
            "inverted by hand")


@facet(cases(), quick=1500)
def omitted(case, rec):
    """Omitting is the same as zero translation/identity rotation."""
    note(case, rec)
    base, length = case["base"], case["length"]
    f = dict(case["specs"][-2])
    kw = m.ctor_args(f, base, length)
    n = len(f["ticks"]) if f["kind"] != "static" else None
    shape = (n,) if n is not None else ()
    explicit = dict(kw)
    given = dict(kw)
    if case["omit"] in ("translation", "both"):
        explicit["translation"] = np.zeros(shape + (3,))
        del given["translation"]
    if case["omit"] in ("rotation", "both"):
        explicit["rotation"] = np.tile([1.0, 0, 0, 0], shape + (1,))
        del given["rotation"]
    if case["lists"]:
        given = {
            k: v.tolist() if k in ("translation", "rotation") else v
            for k, v in given.items()
        }
    rec.label("omit " + case["omit"])
    specs = case["specs"]
    a, b = len(specs) - 2, case["target"]

    def pair(kw):
        rbm.clear_registry()
        rfs = m.build(specs[:-2], base, length=length)
        parent = rfs[-1].name if case["name_parent"] else rfs[-1]
        x = rbm.ReferenceFrame("x", parent, **kw)
        return (*rbm.lookup_transform(x, rfs[b], return_timestamps=True),
                *rbm.lookup_transform(rfs[b], x, return_timestamps=True))

    one, two = pair(explicit), pair(given)
    for i, (u, v) in enumerate(zip(one, two)):
        what = ("translation", "rotation", "timestamps")[i % 3]
        if u is None:
            ensure(v is None, "timestamps")
        elif what == "timestamps":
            ensure(np.array_equal(u, v), "timestamps differ")
        elif what == "rotation":
            same_rotation(v, u, 1e-12, "rotation with omitted arguments")
        else:
            close(v / length, u / length, 1e-12,
                  "translation with omitted arguments")
    # against the model
    if case["omit"] in ("none", "both") and f["kind"] == "static":
        ff = dict(f)
        if case["omit"] == "both":
            ff.update(t=[0.0] * 3, q=[1.0, 0, 0, 0])
        te, qe = m.compose(specs[:-2] + [ff], a, b, [0])
        close(two[0] / length, te[0], 1e-9, "translation")
        same_rotation(two[1], qe[0], 1e-9)


@facet(cases(), quick=1500)
def constructors(case, rec):
    note(case, rec)
    specs, base = case["specs"], case["base"]
    f, u = specs[-2], case["length"]
    kw = m.ctor_args(f, base, u)
    lookups(case, specs, lambda p: rbm.ReferenceFrame("x", p, **kw), "ctor")
    lookups(case, specs, lambda p: rbm.register_frame("x", p, **kw),
            "register_frame")
    lookups(
        case, specs,
        lambda p: rbm.ReferenceFrame(
            "x", parent=p, **{k: v.tolist() if k in (
                "translation", "rotation") else v for k, v in kw.items()}),
        "lists")
    flags = {k: kw[k] for k in ("inverse", "discrete") if k in kw}
    if f["kind"] == "static":
        mat = m.qmat(f["q"])
        fr = specs[:-2] + [dict(f, t=[0.0] * 3), specs[-1]]
        inv = {"inverse": True} if f["inverse"] else {}
        lookups(
            case, fr,
            lambda p: rbm.ReferenceFrame.from_rotation_matrix(
                mat, p, "x", **inv), "from_rotation_matrix")
        lookups(
            case, fr,
            lambda p: rbm.ReferenceFrame.from_rotation_matrix(
                mat.tolist(), parent=p, name="x", **inv),
            "from_rotation_matrix (list)")
        return

    ds = xr.Dataset(
        {
            "pos": (("time", "cartesian_axis"), kw["translation"]),
            "ori": (("time", "quaternion_axis"), kw["rotation"]),
        },
        {"time": kw["timestamps"]},
    )
    stamps = "time"
    if case["lists"]:
        # timestamps as a variable that is not the dimension's coordinate
        ds = ds.rename(time="stamp").rename_dims(stamp="sample")
        ds = ds.reset_index("stamp") if "stamp" in ds.indexes else ds
        stamps = "stamp"
    if case["extra"]:
        # further coordinates and variables
        dim = ds["pos"].dims[0]
        n = len(kw["timestamps"])
        number = np.arange(n)[::-1] * 1.5
        if case["extra"] == 2:
            ds = ds.rename({dim: "row"}) if dim == "time" else ds
            stamps = "row" if stamps == "time" else stamps
            dim = ds["pos"].dims[0]
            ds = ds.assign_coords(time=(dim, number))
        ds = ds.assign(first=(dim, number), timestamps=(dim, number + 1),
                       translation=ds["pos"] + 1, rotation=-ds["ori"][::-1])
        ds = ds.assign_coords(t=(dim, number + 3), run=7)
    lookups(
        case, specs,
        lambda p: rbm.ReferenceFrame.from_dataset(
            ds, "pos", "ori", stamps, p, "x", **flags), "from_dataset")
    fr = specs[:-2] + [dict(f), specs[-1]]
    n = len(f["ticks"])
    ident = np.tile([1.0, 0, 0, 0], (n, 1))

    def sampled(T, Q):
        """Lookups of a frame defined by data arrays, both directions."""
        return dict(translation=T, rotation=Q,
                    timestamps=kw["timestamps"], **flags)

    for da_make, T, Q in (
        (lambda p: rbm.ReferenceFrame.from_translation_dataarray(
            ds["pos"], stamps, p, "x", **flags), kw["translation"], ident),
        (lambda p: rbm.ReferenceFrame.from_rotation_dataarray(
            ds["ori"], stamps, p, "x", **flags),
         np.zeros((n, 3)), kw["rotation"]),
    ):
        res = []
        for make in (da_make, lambda p: rbm.ReferenceFrame(
                "x", p, **sampled(T, Q))):
            rbm.clear_registry()
            rfs = m.build(fr[:-2], base, length=u)
            p = rfs[-1].name if case["name_parent"] else rfs[-1]
            x = make(p)
            ensure(x.name == "x", "name %r", x.name)
            # also at the times of a child
            y = rbm.ReferenceFrame(
                "y", x, **m.ctor_args(specs[-1], base, u))
            target = rfs[case["target"]]
            res.append([
                rbm.lookup_transform(A, B, return_timestamps=True)
                for A, B in ((x, target), (target, x), (y, target),
                             (target, y))])
        for one, two in zip(*res):
            close(one[0] / u, two[0] / u, 1e-12, "translation from data array")
            same_rotation(one[1], two[1], 1e-12, "rotation from data array")
            ensure(np.array_equal(one[2], two[2]), "timestamps")
        res = [res[0][0]]
        # at the frame's own samples: the given values, composed
        q, t = np.array(Q), np.array(T)
        if f["inverse"]:
            q = m.qinv(q)
            t = -m.qrot(q, t)
        tc, qc = m.compose(fr[:-2], len(fr) - 3, case["target"], [0])
        same_rotation(res[0][1], m.qmul(qc, q), 1e-9, "rotation at samples")
        close(res[0][0] / u, m.qrot(qc, t / u) + tc, 1e-9, "translation at samples")

    # a lookup returned as dataset defines the same frame again
    rbm.clear_registry()
    rfs = m.build(specs[:-2], base, length=u)
    x = rbm.ReferenceFrame("x", rfs[-1], **kw)
    root = rfs[case["target"]]
    ds2 = rbm.lookup_transform(x, root, as_dataset=True)
    z = rbm.ReferenceFrame.from_dataset(
        ds2, "translation", "rotation", "time", root,
        **({"discrete": True} if f["kind"] == "discrete" else {}))
    t1, r1, ts1 = rbm.lookup_transform(x, root, return_timestamps=True)
    t2, r2, ts2 = rbm.lookup_transform(z, root, return_timestamps=True)
    close(t2 / u, t1 / u, 1e-9, "translation from looked-up dataset")
    same_rotation(r2, r1, 1e-9, "rotation from looked-up dataset")
    ensure(np.array_equal(ts1, ts2), "timestamps from looked-up dataset")
