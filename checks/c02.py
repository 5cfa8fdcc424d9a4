"""C02: lookups in moving trees are sampled, clipped and interpolated."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.common import compare
from lib.harness import close, ensure, equal, facet, same_rotation

PROPERTY = "C02"
RULE = (
    "Random trees mixing static and moving frames over numeric (float, int, "
    "negative) and datetime (mixed units) time bases, regular/irregular, "
    "equal, overlapping or disjoint timestamps; random frame pairs, either "
    "direction, by name or object. Oracle: model composition of piecewise "
    "linear translations and constant-rate rotations (or arbitrary rotations "
    "compared at their own samples); missing samples of the frame that "
    "determines the sampling. Non-trivial: at least two frames on the "
    "path, at least one moving, and a non-empty result."
)


@st.composite
def cases(draw):
    base = draw(m.bases)
    share = draw(st.booleans())
    specs = draw(
        m.tree_spec(
            kinds=("moving", "moving", "static"), base=base, min_frames=3,
            max_frames=6, rot=["rate", "rate", "knots"],
            hi=draw(m.span(12, 40)), deep=True,
        )
    )
    if share:
        # same timestamps for all moving frames
        mv = [s for s in specs if s["kind"] == "moving"]
        for s in mv[1:]:
            gap0 = max(np.diff(s["ticks"]))
            s["ticks"] = list(mv[0]["ticks"])
            gap1 = max(np.diff(s["ticks"]))
            s["rate"] = [float(r * gap0 / gap1) for r in s["rate"]]
    n = len(specs)
    a, b = draw(m.pair(n))
    return dict(base=base, specs=specs, a=a, b=b, length=draw(m.lengths),
                names=draw(st.lists(st.booleans(), min_size=2, max_size=2)))


@facet(cases(), quick=5000)
def lookup(case, rec):
    base, specs, a, b = (case[k] for k in ("base", "specs", "a", "b"))
    u = case["length"]
    rfs = m.build(specs, base, length=u)
    A = m.fref(rfs, a, case["names"][0])
    B = m.fref(rfs, b, case["names"][1])
    k = m.lookup_ticks(specs, a, b)
    up, down = m.path(specs, a, b)
    mv = [specs[i] for i in up + down if specs[i]["kind"] == "moving"]

    t, r, ts = rbm.lookup_transform(A, B, return_timestamps=True)
    if k is None:
        ensure(ts is None, "timestamps for a static path: %s", ts)
        t_exp, q_exp = m.compose(specs, a, b, [0])
        close(t / u, t_exp[0], 1e-10, "static translation")
        same_rotation(r, q_exp[0], 1e-10)
        return
    n = compare(base, specs, a, b, k, t, r, ts, "lookup_transform", u)
    rec.note(len(up + down) >= 2 and n > 0)
    rec.label("empty", len(k) == 0)
    rec.label("long", len(k) > 40)
    rec.label("two moving", len(mv) >= 2)
    rec.label("clipped", len(k) < len(mv[0]["ticks"]))
    rec.label("interpolated",
              any(x not in f["ticks"] for f in mv for x in k))
    rec.label("up and down moving",
              any(specs[i]["kind"] == "moving" for i in up)
              and any(specs[i]["kind"] == "moving" for i in down))
    rec.label("datetime", base in ("ns", "ms", "s"))

    t, r, ts = rbm.lookup_pose(A, B, return_timestamps=True)
    compare(base, specs, a, b, k, t, r, ts, "lookup_pose", u)
    t, r, ts = rfs[a].lookup_transform(B)
    compare(base, specs, a, b, k, t, r, ts, "ReferenceFrame.lookup_transform",
            u)
    t, r = rbm.lookup_transform(A, B)
    compare(base, specs, a, b, k, t, r, ts, "lookup without timestamps",
            u)


@st.composite
def missing_case(draw):
    case = draw(cases())
    case["holes"] = draw(st.lists(st.integers(0, 30), min_size=1, max_size=3))
    return case


@facet(missing_case(), quick=1200)
def missing(case, rec):
    """Only missing samples of the first moving frame are missing."""
    base, specs, a, b = (case[k] for k in ("base", "specs", "a", "b"))
    up, down = m.path(specs, a, b)
    mv = [i for i in up + down if specs[i]["kind"] == "moving"]
    k = m.lookup_ticks(specs, a, b)
    if not mv or not len(k):
        return
    first = specs[mv[0]]
    n = len(first["ticks"])
    holes = sorted({h % n for h in case["holes"]})
    # the rate model of the rotation isn't affected by missing samples
    rfs = m.build(
        [dict(s, holes=holes) if s is first else s for s in specs], base)
    t, r, ts = rbm.lookup_transform(rfs[a], rfs[b], return_timestamps=True)
    equal(m.from_time(base, ts), k, "timestamps (ticks)")
    lost = np.isin(k, [first["ticks"][h] for h in holes])
    rec.note(lost.any() and not lost.all())
    rec.label("clipped", len(k) < n)
    for x, what in ((t, "translation"), (r, "rotation")):
        equal(np.isnan(x).all(axis=1), lost, f"missing {what}")
    t_exp, q_exp = m.compose(specs, a, b, k)
    ok = ~lost & ~np.isnan(q_exp).any(axis=1)
    same_rotation(r[ok], q_exp[ok], 1e-8)
    ok &= ~np.isnan(t_exp).any(axis=1)
    close(t[ok], t_exp[ok], 1e-8, "translation")
