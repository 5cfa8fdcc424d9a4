"""C28: the ROS transformer agrees with the reference frame tree."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import fakeros as fr
from lib import model as m
from lib.harness import close, ensure, facet, raises, same_rotation

fr.install()

from rigid_body_motion.ros import Transformer  # noqa: E402

PROPERTY = "C28"
RULE = (
    "Trees of 1 to 6 static, moving (constant rate, own sampling and range) "
    "and event-like frames with numeric or datetime timestamps of any unit, "
    "transformer built from any frame of the tree or filled frame by frame; "
    "lookups between all pairs at the first and last, other and in-between "
    "times of the path and at the latest; points, vectors, orientations and "
    "poses. Oracle: composition in the tree model. Non-trivial: the path has "
    "at least two frames or a moving one."
)
ASSUMPTIONS = [
    "ROS is not installed; the buffer of tf2 is the stand-in in "
    "lib/fakeros.py (samples older than the cache time are dropped, linear "
    "and spherical interpolation, no extrapolation)",
]


@st.composite
def cases(draw, min_frames=2):
    base = draw(st.sampled_from(["num", "num1", "int", "ns", "ms", "s", "fine"]))
    specs = draw(m.tree_spec(
        kinds=draw(st.sampled_from([
            ("static",), ("moving", "static"), ("moving", "moving", "static"),
            ("moving", "static", "discrete")])),
        base=base, min_frames=min_frames, max_frames=6, hi=draw(m.span(40)),
        deep=True))
    shift = draw(st.sampled_from([1, 2, 1000, 10**6]))
    for s in specs:
        if "ticks" in s:
            # time zero means latest
            s["ticks"] = [int(k) + shift for k in s["ticks"]]
    n = len(specs)
    return dict(
        base=base, specs=specs, start=draw(st.integers(0, n - 1)),
        frac=draw(st.lists(st.integers(0, 1024), min_size=3, max_size=3)),
        p=draw(m.vec3), o=draw(m.quat), pick=draw(m.seeds),
        as_=draw(st.sampled_from(["array", "list", "tuple"])),
    )


def seconds(case, k):
    """Float seconds of a tick."""
    k = np.asarray(k, float)
    dt = m.tick_seconds(case["base"])
    if case["base"] in ("ns", "ms", "s"):
        return 1577836800.0 + k * dt
    return k * dt


def path_frames(specs, a, b):
    up, down = m.path(specs, a, b)
    return [specs[i] for i in up + down]


def common(specs, a, b):
    """Ticks range of a path, None if static, False if there is none."""
    mv = [s["ticks"] for s in path_frames(specs, a, b)
          if s["kind"] != "static"]
    if not mv:
        return None
    lo, hi = max(x[0] for x in mv), min(x[-1] for x in mv)
    return (lo, hi) if lo < hi else False


def tolerance(case):
    # resolution of float seconds since 1970
    err = 1e-6 if case["base"] in ("ns", "ms", "s") else 5e-9
    return 1e-8 + err / m.tick_seconds(case["base"]) * 100


def query_ticks(case, a, b):
    """(tick, seconds) at which to look up."""
    r = common(case["specs"], a, b)
    if r is None:
        return [(0.0, 0.0), (3.0, float(seconds(case, 3.0)))]
    if not r:
        return []
    lo, hi = r
    disc = [s["ticks"] for s in path_frames(case["specs"], a, b)
            if s["kind"] == "discrete"]
    if disc:
        # between its samples, the tree holds an event, tf2 interpolates
        ok = set(disc[0]).intersection(*map(set, disc[1:]))
        ks = [float(k) for k in sorted(ok) if lo <= k <= hi][:4]
    else:
        ks = [float(lo), float(hi)] + [lo + (hi - lo) * f / 1024
                                       for f in case["frac"]]
    out = []
    for k in ks:
        t = float(seconds(case, k))
        if case["base"] in ("ns", "ms", "s"):
            # stay within the range in spite of rounding
            t = min(max(t, float(seconds(case, lo)) + 1e-6),
                    float(seconds(case, hi)) - 1e-6)
        out.append((k, t))
    return out


def check_pair(case, tf, rfs, a, b, tick, sec, what, kw=None):
    specs, tol = case["specs"], tolerance(case)
    src, tgt = rfs[a].name, rfs[b].name
    kw = {"time": sec} if kw is None else kw
    T, Q = m.compose(specs, a, b, [tick])
    T, Q = T[0], Q[0]
    ensure(tf.can_transform(tgt, src, **kw) is True, "%s not possible", what)
    t, r = tf.lookup_transform(tgt, src, **kw)
    close(t, T, tol, f"{what} translation")
    same_rotation(r, Q, tol, f"{what} rotation")
    conv = {"array": np.array, "list": list, "tuple": tuple}[case["as_"]]
    p, o = conv(case["p"]), conv(case["o"])
    rot = m.qrot(Q, case["p"])
    close(tf.transform_vector(p, tgt, src, **kw), rot, tol, f"{what} vector")
    close(tf.transform_point(p, tgt, src, **kw), rot + T, tol,
          f"{what} point")
    oe = m.qmul(Q, case["o"])
    same_rotation(tf.transform_quaternion(o, tgt, src, **kw), oe, tol,
                  f"{what} quaternion")
    pp, oo = tf.transform_pose(p, o, tgt, src, **kw)
    close(pp, rot + T, tol, f"{what} position")
    same_rotation(oo, oe, tol, f"{what} orientation")


@facet(cases(), quick=480)
def tree(case, rec):
    """Transformer built from a tree."""
    specs = case["specs"]
    rfs = m.build(specs, case["base"], register=False)
    other = rbm.ReferenceFrame("other")
    rbm.ReferenceFrame("other_child", parent=other, translation=(1, 2, 3))
    tf = Transformer.from_reference_frame(rfs[case["start"]])
    rec.label(f"base {case['base']}")
    rec.label("from the root", case["start"] == 0)
    for i in range(1, len(specs)):
        p = specs[i]["parent"]
        # every sample is there
        if specs[i]["kind"] == "moving":
            for k in specs[i]["ticks"][1:-1]:
                check_pair(case, tf, rfs, i, p, k, float(seconds(case, k)),
                           f"f{i} in parent at sample {k}")
    n = len(specs)
    pairs = [(a, b) for a in range(n) for b in range(n) if n > 1]
    r = m.rng(case["pick"])
    r.shuffle(pairs)
    neighbours = [(i, specs[i]["parent"]) for i in range(1, n)]
    for a, b in neighbours + [tuple(map(int, x)) for x in pairs[:8]]:
        frames = path_frames(specs, a, b)
        kinds = {s["kind"] for s in frames}
        rec.note(len(frames) > 1 or "moving" in kinds)
        rec.label("static path", kinds == {"static"})
        rec.label("two moving frames",
                  sum(s["kind"] == "moving" for s in frames) > 1)
        rec.label("event-like", "discrete" in kinds)
        what = f"f{a} into f{b}"
        for tick, sec in query_ticks(case, a, b):
            check_pair(case, tf, rfs, a, b, tick, sec, f"{what} at {tick}")
        rng_ = common(specs, a, b)
        if rng_ and "discrete" not in kinds:
            # latest: the earliest of the last samples
            check_pair(case, tf, rfs, a, b, rng_[1], None,
                       f"{what} latest", kw={})
            rec.label("latest")
        elif rng_ is None:
            check_pair(case, tf, rfs, a, b, 0, None, what, kw={})
    ensure(tf.can_transform("other_child", "f0") is False,
           "transform from another tree")
    ensure(tf.can_transform("other", "other_child") is False,
           "transform in another tree")
    raises(lambda: tf.lookup_transform("f0", "nowhere"), fr.LookupException,
           what="unknown frame")


@facet(cases(), quick=320)
def added(case, rec):
    """Frames added one by one, in any order."""
    specs = case["specs"]
    rfs = m.build(specs, case["base"], register=False)
    span = 0.0
    ticks = [k for s in specs for k in s.get("ticks", [])]
    if ticks:
        span = float(seconds(case, max(ticks)) - seconds(case, min(ticks)))
    rec.label("default cache", span < 9)
    tf = Transformer() if span < 9 else Transformer(cache_time=span + 1)
    order = list(range(1, len(specs)))
    m.rng(case["pick"], 3).shuffle(order)
    given = set()
    for i in order:
        p = specs[i]["parent"]
        rel = tf.can_transform(f"f{p}", f"f{i}")
        ensure(rel is False, "f%d is there before it is added", i)
        if specs[i]["kind"] == "static":
            tf.set_transform_static(rfs[i])
        else:
            tf.set_transforms(rfs[i])
        given.add(i)
        rec.note(len(given) > 1 or specs[i]["kind"] == "moving")
        for j in sorted(given):
            for tick, sec in query_ticks(case, j, specs[j]["parent"]):
                check_pair(case, tf, rfs, j, specs[j]["parent"], tick, sec,
                           f"f{j} in parent at {tick}")
