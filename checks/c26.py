"""C26: plots show the data they are given."""

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import rigid_body_motion as rbm  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402
from quaternion import as_quat_array  # noqa: E402

from lib import model as m  # noqa: E402
from lib.harness import close, ensure, facet, raises  # noqa: E402

PROPERTY = "C26"
RULE = (
    "Sequences of one to four plots on the same (or new) axes, now and then with given limits: points, "
    "vectors (some zero) with and without base, quaternions (unit or not, plain or "
    "quaternion dtype) with and without base, static reference frames of a "
    "generated tree with and without world frame, by name or object, with "
    "any arrow length; single elements, arrays, integer arrays and lists; "
    "offsets up to 100. Oracle: coordinates of the data read back from the "
    "artists, rotated unit vectors, equal axis ranges covering all points "
    "and frames so far, also after drawing. Non-trivial: more than one "
    "element or plot, or a base or world frame."
)


@st.composite
def step(draw, n_frames, frames=False):
    kind = "frame" if frames else draw(st.sampled_from(
        ["points", "vectors", "quaternions", "frame"]))
    s = dict(kind=kind, n=draw(st.sampled_from([0, 1, 2, 3, 5])),
             seed=draw(m.seeds), offset=draw(st.sampled_from(
                 [0.0, 0.0, 5.0, -100.0])),
             form=draw(st.sampled_from(["array", "list", "int"])))
    if kind in ("vectors", "quaternions"):
        s["base"] = draw(st.booleans())
        s["base_form"] = draw(st.sampled_from(["array", "list", "int"]))
    if kind == "vectors":
        s["length"] = draw(st.sampled_from([None, 1.0, 0.5, 3.0]))
        s["color"] = draw(st.sampled_from([None, "y"]))
        s["zeros"] = draw(st.sampled_from([0, 0, 0.3, 0.5]))
    if kind == "quaternions":
        s["q"] = draw(m.quat)
        s["unit"] = draw(st.booleans())
        s["quat"] = draw(st.booleans())
    if kind == "points":
        s["fmt"] = draw(st.sampled_from(["", "ro", "k-"]))
    if kind == "frame":
        s["frame"] = draw(st.integers(0, n_frames - 1))
        s["world"] = draw(st.one_of(st.none(),
                                    st.integers(0, n_frames - 1)))
        s["by"] = [draw(st.booleans()) for _ in range(2)]
        s["arrow"] = draw(st.sampled_from([None, 1.0, 0.25, 4.0]))
    return s


@st.composite
def plot_case(draw):
    specs = draw(m.tree_spec(max_frames=4))
    # limits given by the user
    manual = None
    if draw(st.integers(0, 2)) == 0:
        far = draw(st.integers(0, 3))
        manual = [[draw(st.integers(-20, 20)) if far in (i, 3) else 0,
                   draw(st.sampled_from([0.5, 3]))] for i in range(3)]
    steps = draw(st.lists(
        step(len(specs), manual is not None and draw(st.booleans())),
        min_size=1, max_size=4))
    return dict(specs=specs, steps=steps, manual=manual,
                shared=manual is not None or draw(st.integers(0, 3)) > 0,
                draw=draw(st.integers(0, 7)) == 0)


def base_points(s):
    s = dict(s, form=s["base_form"])
    b = array(s, 3, 3)
    return b, given(b, s)


def array(s, k, salt, nonzero=False):
    """(n, k) array; n = 0 means a single (k,) element."""
    n = max(1, s["n"])
    a = m.bulk(s["seed"], (n, k), salt) + s["offset"] * (salt != 2)
    if s["form"] == "int":
        a = np.round(a).astype(int)
    if nonzero:
        a[~np.any(np.abs(a) > 1e-2, axis=1)] = 1
        zeros = m.rng(s["seed"], 6).random(n) < s["zeros"]
        if not zeros.all():
            a[zeros] = 0
    return a


def given(a, s):
    a = a[0] if s["n"] == 0 else a
    return a.tolist() if s["form"] == "list" else a


def shafts(coll, n, what):
    seg = np.asarray(coll._segments3d)
    ensure(len(seg) >= n, "%s: %d segments for %d vectors", what, len(seg),
           n)
    return np.asarray(seg[:n], float)


def check_arrows(coll, base, tip, what, color=None):
    """Shafts in any order; from base to tip."""
    shown = np.any(tip != base, axis=1)
    if len(coll._segments3d) < 3 * len(base):
        # vectors of length zero don't have to be drawn
        base, tip = base[shown], tip[shown]
    seg = shafts(coll, len(base), what)
    exp = np.stack([base, tip], axis=1)
    # shaft may be stored tip first
    close(seg, exp if np.allclose(seg, exp) else exp[:, ::-1], 1e-9,
          what)
    if color:
        got = np.asarray(coll.get_edgecolor())
        close(got[0], to_rgba(color), 1e-6, f"{what}: colour")


def do(s, case, rfs, ax):
    """Plot and check; returns points that the limits have to include."""
    kind = s["kind"]
    n = max(1, s["n"])
    if kind == "points":
        a = array(s, 3, 1)
        kw = {"fmt": s["fmt"]} if s["fmt"] else {}
        lines = rbm.plot.points(given(a, s), ax=ax, **kw)
        ensure(len(lines) == 1, "%d lines", len(lines))
        close(np.transpose(lines[0].get_data_3d()).astype(float), a, 1e-12,
              "points")
        return lines[0].axes, a
    if kind == "vectors":
        a = array(s, 3, 2, True)
        b, b_given = base_points(s)
        kw = {}
        if s["length"]:
            kw["length"] = s["length"]
        if s["color"]:
            kw["color"] = s["color"]
        base = b if s["base"] else np.zeros((n, 3))
        if s["base"]:
            kw["base"] = b_given
        lines = rbm.plot.vectors(given(a, s), ax=ax, **kw)
        check_arrows(lines, base, base + a * (s["length"] or 1.0), "vectors",
                     s["color"])
        return lines.axes, np.zeros((0, 3))
    if kind == "quaternions":
        q = m.bulk_unit(s["seed"], (n, 4), 4)
        q[0] = s["q"]
        if not s["unit"]:
            q = q * m.rng(s["seed"], 5).uniform(0.3, 3, (n, 1))
        kw = {}
        b, b_given = base_points(s)
        base = b if s["base"] else np.zeros((n, 3))
        if s["base"]:
            kw["base"] = b_given
        arg = given(q, s)
        if s["quat"] and s["n"]:
            arg = as_quat_array(q)
        lines = rbm.plot.quaternions(arg, ax=ax, **kw)
        ensure(len(lines) == 3, "%d sets of arrows", len(lines))
        for i, (line, c) in enumerate(zip(lines, "rgb")):
            check_arrows(line, base, base + 0.5 * m.qrot(q, np.eye(3)[i]),
                         f"{'xyz'[i]} axes of quaternions", c)
        ensure(len({id(line.axes) for line in lines}) == 1, "several axes")
        return lines[0].axes, np.zeros((0, 3))
    specs = case["specs"]
    kw = {}
    length = s["arrow"] or 1.0
    if s["arrow"]:
        kw["arrow_len"] = s["arrow"]
    t, q = np.zeros(3), np.array([1.0, 0, 0, 0])
    if s["world"] is not None:
        (t,), (q,) = m.compose(specs, s["frame"], s["world"], [0])
        kw["world_frame"] = m.fref(rfs, s["world"], s["by"][1])
    arrows = rbm.plot.reference_frame(
        m.fref(rfs, s["frame"], s["by"][0]), ax=ax, **kw)
    ensure(len(arrows) == 3, "%d arrows", len(arrows))
    pts = [t]
    for i, (arrow, c) in enumerate(zip(arrows, "rgb")):
        tip = t + m.qrot(q, np.eye(3)[i]) * length
        pts.append(tip)
        close(np.transpose(arrow._verts3d), [t, tip], 1e-9,
              f"{'xyz'[i]} axis of frame")
        close(arrow.get_edgecolor(), to_rgba(c), 1e-6,
              f"colour of {'xyz'[i]} axis")
    return arrows[0].axes, np.array(pts)


def check_limits(ax, pts, what):
    lims = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()])
    size = lims[:, 1] - lims[:, 0]
    ensure(np.all(size > 0) and np.ptp(size) <= 1e-9 * size.max(),
           "%s: axes have different scales: %s", what, lims)
    tol = 1e-9 * (1 + np.abs(lims).max())
    for p in pts:
        ensure(np.all(p >= lims[:, 0] - tol)
               and np.all(p <= lims[:, 1] + tol),
               "%s: %s is outside of the limits %s", what, p, lims)
    return lims


@facet(plot_case(), quick=1000)
def plots(case, rec):
    rfs = m.build(case["specs"])
    ax = None
    if case["shared"]:
        ax = plt.figure().add_subplot(111, projection="3d")
    if case["manual"]:
        rec.label("given limits")
        for (lo, size), axis in zip(case["manual"], "xyz"):
            getattr(ax, f"set_{axis}lim3d")(lo, lo + size)
    rec.note(len(case["steps"]) > 1 or any(
        s["n"] > 1 or s.get("base") or s.get("world") is not None
        for s in case["steps"]))
    seen = []
    for s in case["steps"]:
        rec.label(s["kind"])
        rec.label("single element", s["n"] == 0)
        before = len(ax.get_children()) if ax else None
        used, pts = do(s, case, rfs, ax)
        if ax is None:
            check_limits(used, pts, s["kind"])
            continue
        ensure(used is ax, "plotted onto other axes")
        ensure(len(ax.get_children()) - before == {
            "points": 1, "vectors": 1, "quaternions": 3, "frame": 3}[
                s["kind"]], "number of artists")
        if s["kind"] == "frame" or not case["manual"]:
            seen.extend(pts)
        lims = check_limits(ax, seen, s["kind"])
    if ax is not None and case["draw"]:
        rec.label("drawn")
        ax.figure.canvas.draw()
        close(check_limits(ax, seen, "after drawing"), lims, 1e-12,
              "limits after drawing")
    plt.close("all")


@st.composite
def bad_case(draw):
    return dict(
        kind=draw(st.sampled_from(
            ["points length", "points dims", "vectors length",
             "vectors dims", "base", "base count", "quaternions",
             "moving frame"])),
        n=draw(st.integers(1, 4)), k=draw(st.sampled_from([1, 2, 4, 5])),
        single=draw(st.booleans()), seed=draw(m.seeds))


@facet(bad_case(), quick=250, shards=8)
def rejected(case, rec):
    rec.note()
    n, k, kind = case["n"], case["k"], case["kind"]
    rec.label(kind)
    ax = plt.figure().add_subplot(111, projection="3d")
    good = m.bulk(case["seed"], (n, 3), 1) + 4
    bad = m.bulk(case["seed"], (n, k), 2)
    if case["single"]:
        bad = bad[0]
    cube = m.bulk(case["seed"], (n, 3, 3), 3)
    p = rbm.plot
    if kind == "points length":
        raises(lambda: p.points(bad, ax=ax), ValueError, what=kind)
    elif kind == "points dims":
        raises(lambda: p.points(cube, ax=ax), ValueError, what=kind)
    elif kind == "vectors length":
        raises(lambda: p.vectors(bad, ax=ax), ValueError, what=kind)
    elif kind == "vectors dims":
        raises(lambda: p.vectors(cube, ax=ax), ValueError, what=kind)
    elif kind == "base":
        raises(lambda: p.vectors(good, base=bad, ax=ax), ValueError,
               what=kind)
    elif kind == "base count":
        more = np.concatenate([good, good[:1]])
        raises(lambda: p.vectors(good, base=more, ax=ax), ValueError,
               what=kind)
        raises(lambda: p.quaternions(
            m.bulk_unit(case["seed"], (n, 4), 5), base=more, ax=ax),
            ValueError, what=kind)
    elif kind == "quaternions":
        raises(lambda: p.quaternions(
            bad if k != 4 else cube[0], ax=ax), what=kind)
    else:
        rbm.register_frame("w")
        rbm.ReferenceFrame(
            "mov", "w", translation=np.ones((n + 1, 3)),
            rotation=np.tile([1.0, 0, 0, 0], (n + 1, 1)),
            timestamps=np.arange(n + 1.0)).register()
        raises(lambda: p.reference_frame("mov", ax=ax), NotImplementedError,
               what=kind)
        raises(lambda: p.reference_frame("nope", ax=ax), ValueError,
               what="unknown frame")
    ensure(not ax.lines and not ax.collections and not ax.patches,
           "%s: something was plotted", kind)
    plt.close("all")
