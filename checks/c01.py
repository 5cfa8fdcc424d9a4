"""C01: static lookups compose the frames along the path."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.harness import close, facet, raises, same_rotation

PROPERTY = "C01"
RULE = (
    "Random rooted trees of static frames (chains, stars, random), random "
    "rotations/translations, some with the inverse flag, random frame pairs "
    "and triples by name or object, numbers as lists, integers, single or "
    "double precision; histories of lookups and changes of the tree with "
    "unnamed frames and namesakes. Non-trivial: the path has at least two "
    "frames and at least one generic rotation."
)


@st.composite
def cases(draw):
    specs = draw(m.tree_spec(min_frames=2, max_frames=8, deep=True))
    n = len(specs)
    idx = st.integers(0, n - 1)
    a, b = draw(m.pair(n)) if n > 8 else (draw(idx), draw(idx))
    return dict(
        specs=specs, a=a, b=b, c=draw(idx),
        p=draw(m.vec3), length=draw(m.lengths), names=draw(st.lists(st.booleans(), min_size=2,
                                            max_size=2)),
    )


def nontrivial(specs, a, b):
    up, down = m.path(specs, a, b)
    qs = [specs[i]["q"] for i in up + down]
    return len(qs) >= 2 and any(
        sum(abs(x) > 1e-9 for x in q) > 1 for q in qs)


@facet(cases(), quick=4000)
def lookup(case, rec):
    specs, a, b, c = (case[k] for k in ("specs", "a", "b", "c"))
    u = case["length"]
    rfs = m.build(specs, length=u)
    rec.label("small or large", u != 1)
    up, down = m.path(specs, a, b)
    rec.note(nontrivial(specs, a, b))
    rec.label("up and down", bool(up) and bool(down))
    rec.label("only up", bool(up) and not down)
    rec.label("only down", bool(down) and not up)
    rec.label("self", a == b)
    rec.label("path>=4", len(up + down) >= 4)
    rec.label("path>=10", len(up + down) >= 10)

    A = m.fref(rfs, a, case["names"][0])
    B = m.fref(rfs, b, case["names"][1])
    t_exp, q_exp = m.compose(specs, a, b, [0])

    t, r = rbm.lookup_transform(outof=A, into=B)
    close(t / u, t_exp[0], 1e-10, "translation")
    same_rotation(r, q_exp[0], 1e-10)

    # p_target = rot(r, p) + t
    p = np.array(case["p"])
    p_exp = m.qrot(q_exp[0], p) + t_exp[0]
    close(m.qrot(r, p) + t / u, p_exp, 1e-10, "rot(r, p) + t")

    t, r = rbm.lookup_pose(A, B)
    close(t / u, t_exp[0], 1e-10, "position of pose")
    same_rotation(r, q_exp[0], 1e-10, "orientation of pose")

    t, r, ts = rfs[a].lookup_transform(B)
    close(t / u, t_exp[0], 1e-10, "translation (method)")
    same_rotation(r, q_exp[0], 1e-10, "rotation (method)")
    if ts is not None:
        raise AssertionError("timestamps for static lookup")

    # through an intermediate frame
    t1, r1 = rbm.lookup_transform(A, rfs[c])
    t2, r2 = rbm.lookup_transform(rfs[c], B)
    close((m.qrot(r2, t1) + t2) / u, t_exp[0], 1e-9, "translation via frame")
    same_rotation(m.qmul(r2, r1), q_exp[0], 1e-9, "rotation via frame")

    # inverse
    t, r = rbm.lookup_transform(B, A)
    close(m.qrot(r, t_exp[0]) + t / u, np.zeros(3), 1e-9, "inverse translation")
    same_rotation(m.qmul(r, q_exp[0]), np.array([1.0, 0, 0, 0]), 1e-9,
                  "inverse rotation")


@st.composite
def forests(draw):
    return dict(
        one=draw(m.tree_spec(min_frames=1, max_frames=4)),
        two=draw(m.tree_spec(min_frames=1, max_frames=4)),
        i=draw(st.integers(0, 3)), j=draw(st.integers(0, 3)),
    )


@facet(forests(), quick=400)
def disconnected(case, rec):
    """Frames of different trees have no transform."""
    one = m.build(case["one"], prefix="a_")
    two = m.build(case["two"], prefix="b_")
    A, B = one[case["i"] % len(one)], two[case["j"] % len(two)]
    rec.note(A.parent is not None or B.parent is not None)
    raises(lambda: rbm.lookup_transform(A, B), what="different trees")
    raises(lambda: rbm.lookup_pose(B.name, A.name), what="different trees")


# --- trees that change between lookups --------------------------------------

index = st.integers(0, 11)
steps = st.lists(
    st.tuples(st.sampled_from(["lookup", "lookup", "lookup", "move", "add",
                               "rename"]), index, index, m.seeds),
    min_size=3, max_size=16)


@st.composite
def changing(draw):
    specs = draw(m.tree_spec(min_frames=3, max_frames=6))
    return dict(
        specs=specs, steps=draw(steps),
        names=draw(st.lists(st.sampled_from([None, "x", "x", "y", "z"]),
                            min_size=len(specs), max_size=len(specs))),
        registered=draw(st.booleans()))


@facet(changing(), quick=1500)
def rewired(case, rec):
    """Lookups follow the tree as it is at the time of the call.

    Frames do not need a name; several can share one if unregistered.
    """
    specs = [dict(s) for s in case["specs"]]
    if case["registered"]:
        rfs = m.build(specs)
        rec.label("registered")
    else:
        rfs = []
        for s, nm in zip(specs, case["names"]):
            if s["parent"] is None:
                rfs.append(rbm.ReferenceFrame(nm))
            else:
                rfs.append(rbm.ReferenceFrame(
                    nm, rfs[s["parent"]], **m.ctor_args(s, "num")))
        rec.label("namesakes", len(set(case["names"])) < len(rfs))
    changed, asked = False, set()

    def lookup(a, b, what):
        t_exp, q_exp = m.compose(specs, a, b, [0])
        t, r = rbm.lookup_transform(rfs[a], rfs[b])
        close(t, t_exp[0], 1e-9, f"{what}: translation")
        same_rotation(r, q_exp[0], 1e-9, f"{what}: rotation")
        p = m.bulk(7, 3)
        close(rbm.transform_points(p, rfs[b], rfs[a]),
              m.qrot(q_exp[0], p) + t_exp[0], 1e-9, f"{what}: point")

    for i, (op, x, y, seed) in enumerate(case["steps"]):
        n = len(specs)
        a, b = x % n, y % n
        if op == "lookup":
            lookup(a, b, f"step {i}")
            rec.note(changed and a != b)
            rec.label("asked again after a change",
                      changed and (a, b) in asked)
            asked.add((a, b))
        elif op == "move":
            if specs[a]["parent"] is None or a in m.ancestors(specs, b):
                continue
            specs[a]["parent"] = b
            rfs[a].parent = rfs[b]
            changed = True
            rec.label("moved")
        elif op == "add":
            s = dict(name=f"n{i}", parent=b, kind="static",
                     t=m.bulk(seed, 3, 1).tolist(),
                     q=m.bulk_unit(seed, (4,), 2).tolist(),
                     inverse=seed % 3 == 0)
            specs.append(s)
            nm = s["name"] if case["registered"] else (
                case["names"][x % len(case["names"])])
            rfs.append(rbm.ReferenceFrame(
                nm, rfs[b], **m.ctor_args(s, "num")))
            rec.label("added")
            changed = True
        elif op == "rename" and not case["registered"]:
            rfs[a].name = rfs[b].name
    for a, b in sorted(asked):
        lookup(a, b, "finally")
