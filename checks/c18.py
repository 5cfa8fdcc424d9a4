"""C18: quaternion inverse, product and vector rotation."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st
from quaternion import as_float_array, as_quat_array, quaternion

from lib import model as m
from lib.harness import close, ensure, facet, raises

PROPERTY = "C18"
RULE = (
    "Quaternion arrays of up to four dimensions with singleton dimensions, "
    "special and generic values, norms between 1e-3 and 1e3, as plain "
    "arrays with the quaternion along any axis, lists or quaternion dtype; "
    "vectors with the coordinates along any axis; two to four factors, "
    "some with fewer dimensions. "
    "Oracle: quaternion algebra written out in lib/model.py on arrays with "
    "trailing axis. Non-trivial: some quaternion is neither real nor a "
    "single one about a coordinate axis."
)

# also slightly off unit length
SCALES = [1.0, -1.0, 2.0, 0.5, 1e-3, 1e3, -7.0, 1.004, 0.98, 1 + 1e-6,
          1 - 1e-4, 2.0**-40, 2.0**20]


@st.composite
def shapes(draw, max_dims=3):
    return draw(st.lists(st.integers(1, 3), max_size=max_dims))


def quats(case, shape, salt):
    """Quaternions: one drawn, others generic; of drawn scale."""
    q = m.bulk_unit(case["seed"], tuple(shape) + (4,), salt)
    flat = q.reshape(-1, 4)
    special = m.rng(case["seed"], salt, 99)
    for i in range(len(flat)):
        if special.random() < 0.2:
            flat[i] = m.SPECIAL[special.integers(len(m.SPECIAL))]
    flat[0] = case["q"]
    if case["unit"]:
        return q
    return q * special.choice(SCALES, tuple(shape) + (1,))


def present(q, case, salt=0):
    """Canonical array in the drawn form; returns (argument, keywords)."""
    if case["form"] == "quaternion":
        return as_quat_array(q), {}
    kw = {}
    if not case["default"]:
        ax = case["qaxis"] % q.ndim
        q = np.swapaxes(q, ax, -1) if case["op"] == "swap" else np.moveaxis(
            q, -1, ax)
        kw = {"qaxis": ax - q.ndim if case["neg"] else ax}
    if case["form"] == "list":
        return q.tolist(), kw
    if case["form"] == "big":
        return q.astype(">f8"), kw
    return q, kw


def canonical(out, case, what):
    """Result in canonical form."""
    if case["form"] == "quaternion":
        ensure(np.asarray(out).dtype == quaternion, "%s: dtype %s", what,
               np.asarray(out).dtype)
        return as_float_array(out)
    out = np.asarray(out)
    ensure(out.dtype.kind == "f", "%s: dtype %s", what, out.dtype)
    if not case["default"]:
        ax = case["qaxis"] % out.ndim
        return np.swapaxes(out, ax, -1)
    return out


def generic(q):
    return bool(np.any(np.sum(np.abs(q.reshape(-1, 4)) > 1e-6, -1) > 2))


@st.composite
def algebra_case(draw):
    n = draw(st.integers(2, 4))
    shape = draw(shapes())
    masks = [draw(st.lists(st.booleans(), min_size=len(shape),
                           max_size=len(shape))) for _ in range(n)]
    return dict(
        n=n, shape=shape, masks=masks, seed=draw(m.seeds), q=draw(m.quat),
        unit=draw(st.booleans()), op="swap",
        form=draw(st.sampled_from(["array", "array", "list", "quaternion",
                                   "big"])),
        default=draw(st.booleans()), qaxis=draw(st.integers(0, 3)),
        neg=draw(st.booleans()),
        drop=draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
    )


@facet(algebra_case(), quick=3000)
def products(case, rec):
    """qmul and qinv equal the quaternion algebra."""
    # factors have singleton dimensions where masked
    qs = [
        quats(case, [1 if k else s for s, k in zip(case["shape"], mask)], i)
        for i, mask in enumerate(case["masks"])
    ]
    if case["default"] or case["form"] == "quaternion":
        # leading axes may be missing, as usual for broadcasting
        for i, d in enumerate(case["drop"]):
            if d and qs[i].ndim > 1:
                qs[i] = qs[i][(0,) * min(d, qs[i].ndim - 1)]
        rec.label("missing axes", len({q.ndim for q in qs}) > 1)
    rec.note(generic(qs[0]))
    rec.label(case["form"])
    rec.label("axis not last", case["form"] != "quaternion"
              and not case["default"]
              and case["qaxis"] % qs[0].ndim != qs[0].ndim - 1)
    args, kws = zip(*(present(q, case) for q in qs))
    kw = kws[0]
    copies = [np.array(a) for a in args]

    expected = qs[0]
    for q in qs[1:]:
        expected = m.qmul(expected, q)
    rec.label("broadcasting", any(q.shape != expected.shape for q in qs))
    out = rbm.qmul(*args, **kw)
    scale = np.prod([np.max(np.linalg.norm(q, axis=-1)) for q in qs])
    got = canonical(out, case, "product")
    close(got / scale, expected / scale, 1e-11, "product")

    # associativity: grouping the factors
    left = rbm.qmul(rbm.qmul(*args[:2], **kw), *args[2:], **kw) if (
        case["n"] > 2) else out
    right = rbm.qmul(args[0], rbm.qmul(*args[1:], **kw), **kw) if (
        case["n"] > 2) else out
    close(canonical(left, case, "left grouping") / scale, expected / scale,
          1e-11, "left grouping")
    close(canonical(right, case, "right grouping") / scale, expected / scale,
          1e-11, "right grouping")

    # inverse
    for q, a in zip(qs, args):
        inv = rbm.qinv(a, **kw)
        got = canonical(inv, case, "inverse")
        norm = np.linalg.norm(q, axis=-1, keepdims=True)
        close(got * norm, m.qinv(q) * norm, 1e-11, "inverse")
        for pr in (rbm.qmul(a, inv, **kw), rbm.qmul(inv, a, **kw)):
            close(canonical(pr, case, "q * 1/q"),
                  np.broadcast_to([1.0, 0, 0, 0], q.shape), 1e-11, "q * 1/q")
    for c, a in zip(copies, args):
        ensure(np.array_equal(c, np.asarray(a)), "input changed")


@st.composite
def rotate_case(draw):
    shape = draw(shapes())
    masks = [draw(st.lists(st.booleans(), min_size=len(shape),
                           max_size=len(shape))) for _ in range(2)]
    return dict(
        shape=shape, masks=masks, seed=draw(m.seeds), q=draw(m.quat),
        v=draw(m.vec3), unit=draw(st.booleans()), op="move",
        form=draw(st.sampled_from(["array", "array", "list", "quaternion",
                                   "big"])),
        default=draw(st.booleans()), qaxis=draw(st.integers(0, 3)),
        neg=draw(st.booleans()), axis=draw(st.integers(0, 3)),
        axis_default=draw(st.booleans()), axis_neg=draw(st.booleans()),
        ints=draw(st.booleans()), length=draw(m.lengths),
        vform=draw(st.sampled_from(["array", "array", "list", "f4",
                                    "big"])),
    )


def vectors(case, shape, salt=50):
    if case.get("ints"):
        v = m.rng(case["seed"], salt).integers(-5, 6, tuple(shape) + (3,))
        return v
    v = m.bulk(case["seed"], tuple(shape) + (3,), salt)
    v.reshape(-1, 3)[0] = case["v"]
    if case.get("vform") in ("f4", "big"):
        return v.astype({"f4": np.float32, "big": ">f8"}[case["vform"]])
    return v


def unit_of(case):
    """Unit of the vectors; integers aren't scaled down."""
    u = case["length"]
    return 1.0 if case["ints"] and u < 1 else u


def present_v(v, case):
    if case["axis_default"]:
        kw, ax = {}, v.ndim - 1
    else:
        ax = case["axis"] % v.ndim
        kw = {"axis": ax - v.ndim if case["axis_neg"] else ax}
    v = np.moveaxis(v if case["length"] == 1 else m.in_units(
        v, unit_of(case)), -1, ax)
    return (v.tolist() if case["vform"] == "list" else v), kw, ax


@facet(rotate_case(), quick=4000)
def rotate_one_to_one(case, rec):
    """Each vector by one quaternion, with singleton dimensions."""
    sq, sv = ([1 if k else s for s, k in zip(case["shape"], mask)]
              for mask in case["masks"])
    q, v = quats(case, sq, 0), vectors(case, sv)
    q2 = quats(case, sq, 1)
    rec.note(generic(q) and bool(np.any(v)))
    rec.label(case["form"])
    rec.label("broadcasting", sq != sv)
    rec.label("spatial axis not last", not case["axis_default"]
              and case["axis"] % v.ndim != v.ndim - 1)
    rec.label("quaternion axis not last", case["form"] != "quaternion"
              and not case["default"]
              and case["qaxis"] % q.ndim != q.ndim - 1)
    rec.label("not normalised", not case["unit"])
    qa, qkw = present(q, case)
    va, vkw, ax = present_v(v, case)
    copies = np.array(qa), np.array(va)

    def rotate(qq, vv):
        return rbm.rotate_vectors(qq, vv, **qkw, **vkw)

    u = unit_of(case)
    rec.label("small or large", u != 1)
    out = np.asarray(rotate(qa, va)) / u
    expected = m.qrot(q, v)
    # a single quaternion leaves the shape as is, others broadcast
    close(np.moveaxis(out, ax, -1), expected, 1e-11, "rotated")
    close(np.linalg.norm(np.moveaxis(out, ax, -1), axis=-1),
          np.broadcast_to(np.linalg.norm(v.astype(float), axis=-1),
                          expected.shape[:-1]),
          1e-11, "length")
    # scale and sign do not matter
    s = m.rng(case["seed"], 7).choice([-1.0, 3.0, 1e-2, 1.01, 1 - 1e-5],
                                 tuple(sq) + (1,))
    close(rotate(present(q * s, case)[0], va) / u, out, 1e-11,
          "rotated by scaled quaternion")
    # product is rotation by the right, then the left factor
    pr = rotate(present(m.qmul(q2, q), case)[0], va) / u
    step = rotate(present(q2, case)[0], out)
    close(step, pr, 1e-10, "rotated by product")
    ensure(np.array_equal(copies[0], np.asarray(qa))
           and np.array_equal(copies[1], np.asarray(va)), "input changed")


@st.composite
def combination_case(draw):
    case = draw(rotate_case())
    case["shape"] = draw(shapes(2))
    case["vshape"] = draw(shapes(2))
    case["scalar"] = draw(st.integers(0, 3)) == 0
    case["one"] = draw(st.booleans())
    return case


@facet(combination_case(), quick=2500)
def rotate_combinations(case, rec):
    """Every vector by every quaternion; one quaternion for all vectors."""
    if case["scalar"]:
        case["shape"] = []
    q, v = quats(case, case["shape"], 0), vectors(case, case["vshape"])
    rec.note(generic(q) and bool(np.any(v)))
    rec.label("one quaternion", case["scalar"])
    rec.label("several quaternion dimensions", len(case["shape"]) > 1)
    qa, qkw = present(q, case)
    va, vkw, ax = present_v(v, case)
    rec.label("spatial axis not last", ax != v.ndim - 1)
    one = {} if case["scalar"] and case["one"] else {"one_to_one": False}
    out = np.asarray(rbm.rotate_vectors(
        qa, va, **qkw, **vkw, **one)) / unit_of(case)
    qb = q.reshape(q.shape[:-1] + (1,) * (v.ndim - 1) + (4,))
    expected = m.qrot(qb, v[(None,) * (q.ndim - 1)])
    nq = q.ndim - 1
    expected = np.moveaxis(expected, -1, nq + ax)
    ensure(expected.shape == q.shape[:-1] + np.shape(va), "harness")
    close(out, expected, 1e-11, "rotated")


@st.composite
def bad_case(draw):
    return dict(
        kind=draw(st.sampled_from(
            ["one factor", "no factor", "mixed", "length", "dims", "match",
             "quaternion length", "product shapes"])),
        seed=draw(m.seeds), n=draw(st.integers(2, 4)),
        d=draw(st.integers(1, 3)), quat=draw(st.booleans()),
        first=draw(st.booleans()), k=draw(st.sampled_from([1, 2, 4, 5])),
    )


@facet(bad_case(), quick=500, shards=4)
def rejected(case, rec):
    """Incompatible arguments are errors."""
    n, d, kind = case["n"], case["d"], case["kind"]
    rec.note()
    rec.label(kind)
    q = m.bulk_unit(case["seed"], (n,) * d + (4,), 1)
    form = as_quat_array if case["quat"] else (lambda x: x)
    if kind == "one factor":
        raises(lambda: rbm.qmul(form(q)), ValueError, what=kind)
    elif kind == "no factor":
        raises(lambda: rbm.qmul(), ValueError, what=kind)
    elif kind == "mixed":
        args = [q, as_quat_array(q)]
        raises(lambda: rbm.qmul(*args[::1 if case["first"] else -1]),
               ValueError, what=kind)
    elif kind == "product shapes":
        p = m.bulk_unit(case["seed"], (n + 1,) + (n,) * (d - 1) + (4,), 2)
        raises(lambda: rbm.qmul(form(q), form(p)), what=kind)
    elif kind == "length":
        v = m.bulk(case["seed"], (n,) * d + (case["k"],), 2)
        kw = {}
        if case["first"]:
            v, kw = np.moveaxis(v, -1, 0), {"axis": 0}
        raises(lambda: rbm.rotate_vectors(form(q), v, **kw), what=kind)
    elif kind == "dims":
        v = m.bulk(case["seed"], (n,) * (d + 1) + (3,), 2)
        raises(lambda: rbm.rotate_vectors(form(q), v), ValueError, what=kind)
        v = m.bulk(case["seed"], (n,) * (d - 1) + (3,), 2)
        raises(lambda: rbm.rotate_vectors(form(q), v), ValueError, what=kind)
    elif kind == "match":
        v = m.bulk(case["seed"], (n + 1,) + (n,) * (d - 1) + (3,), 2)
        raises(lambda: rbm.rotate_vectors(form(q), v), ValueError, what=kind)
    else:
        p = m.bulk(case["seed"], (n,) * d + (case["k"] if case["k"] != 4
                                             else 3,), 3)
        v = m.bulk(case["seed"], (n,) * d + (3,), 2)
        raises(lambda: rbm.qinv(p), what=kind)
        raises(lambda: rbm.qmul(p, p), what=kind)
        raises(lambda: rbm.rotate_vectors(p, v), what=kind)
