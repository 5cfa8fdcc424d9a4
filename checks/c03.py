"""C03: discrete frames hold each transform until the next event."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.common import compare
from lib.harness import close, ensure, equal, facet

PROPERTY = "C03"
RULE = (
    "Random trees mixing discrete, moving and static frames; event times "
    "before, inside, coinciding with samples of and after the moving frames; "
    "random pairs in both directions; points sampled at arbitrary times "
    "transformed across the path; half turns, zero and repeated positions. Non-trivial: a discrete frame with at "
    "least two events on the path and a non-empty result."
)


@st.composite
def cases(draw):
    base = draw(m.bases)
    kinds = draw(st.sampled_from([
        ("discrete", "static"),
        ("discrete", "moving", "static"),
        ("discrete", "discrete", "moving"),
    ]))
    hi = draw(m.span(8, 20))
    specs = draw(
        m.tree_spec(kinds=kinds, base=base, min_frames=2, max_frames=5,
                    hi=hi))
    n = len(specs)
    a, b = draw(m.pair(n))
    return dict(base=base, specs=specs, a=a, b=b, length=draw(m.lengths),
                ticks=draw(m.tick_list(0, max(hi, 24), 2, 8)),
                seed=draw(m.seeds),
                names=draw(st.lists(st.booleans(), min_size=2, max_size=2)))


def classify(specs, a, b, k, rec):
    up, down = m.path(specs, a, b)
    fr = [specs[i] for i in up + down]
    disc = [f for f in fr if f["kind"] == "discrete"]
    mv = [f for f in fr if f["kind"] == "moving"]
    rec.note(any(len(f["ticks"]) >= 2 for f in disc) and k is not None
             and len(k) > 0)
    rec.label("two discrete", len(disc) >= 2)
    rec.label("discrete and moving", bool(disc) and bool(mv))
    if k is not None and len(k) and disc:
        rec.label("before first event",
                  any(k[0] < f["ticks"][0] for f in disc))
        rec.label("coinciding", any(x in k for f in disc for x in f["ticks"]))
        rec.label("after last event",
                  any(k[-1] > f["ticks"][-1] for f in disc))
    return disc, mv


@facet(cases(), quick=3000)
def lookup(case, rec):
    base, specs, a, b = (case[k] for k in ("base", "specs", "a", "b"))
    u = case["length"]
    rfs = m.build(specs, base, length=u)
    A = m.fref(rfs, a, case["names"][0])
    B = m.fref(rfs, b, case["names"][1])
    k = m.lookup_ticks(specs, a, b)
    classify(specs, a, b, k, rec)
    t, r, ts = rbm.lookup_transform(A, B, return_timestamps=True)
    if k is None:
        ensure(ts is None, "timestamps for a static path")
        return
    compare(base, specs, a, b, k, t, r, ts, "lookup_transform", u)
    t, r, ts = rbm.lookup_pose(A, B, return_timestamps=True)
    compare(base, specs, a, b, k, t, r, ts, "lookup_pose", u)


@facet(cases(), quick=1500)
def points(case, rec):
    """Arrays keep all their timestamps across discrete frames."""
    base, specs, a, b = (case[k] for k in ("base", "specs", "a", "b"))
    u = case["length"]
    rfs = m.build(specs, base, length=u)
    k = m.lookup_ticks(specs, a, b, case["ticks"])
    disc, mv = classify(specs, a, b, k, rec)
    arr = m.bulk(case["seed"], (len(case["ticks"]), 3))
    out, ts = rbm.transform_points(
        arr * u, outof=rfs[a], into=rfs[b],
        timestamps=m.to_time(base, case["ticks"]), return_timestamps=True)
    equal(m.from_time(base, ts), k, "timestamps (ticks)")
    if not mv:
        ensure(len(ts) == len(case["ticks"]), "discrete frames clip array")
    t, q = m.compose(specs, a, b, k)
    sel = [case["ticks"].index(x) for x in k]
    close(out / u, m.qrot(q, arr[sel]) + t, 1e-8, "points")


@st.composite
def single(draw):
    base = draw(m.bases)
    n = draw(st.integers(1, 3))
    specs = draw(m.tree_spec(kinds=("discrete",), base=base, min_frames=n + 1,
                             max_frames=n + 1, hi=10, shape="chain"))
    return dict(base=base, specs=specs, p=draw(m.vec3),
                down=draw(st.booleans()))


@facet(single(), quick=800)
def single_point(case, rec):
    """A single point gets one value per event."""
    specs, base = case["specs"], case["base"]
    rfs = m.build(specs, base)
    a, b = (0, len(specs) - 1) if case["down"] else (len(specs) - 1, 0)
    k = m.lookup_ticks(specs, a, b)
    rec.note(len(k) >= 2)
    out, ts = rbm.transform_points(case["p"], outof=rfs[a], into=rfs[b],
                                   return_timestamps=True)
    equal(m.from_time(base, ts), k, "timestamps (ticks)")
    t, q = m.compose(specs, a, b, k)
    close(out, m.qrot(q, np.array(case["p"])) + t, 1e-8, "point")
