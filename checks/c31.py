"""C31: elements are processed independently of the rest of the array."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st
from quaternion import as_float_array, as_quat_array

from lib import model as m
from lib.harness import close, ensure, equal, facet, same_rotation

PROPERTY = "C31"
RULE = (
    "Arrays of one to 4000 elements and any of the element-wise functions "
    "(quaternion algebra, rotation, Euler angles, coordinates, shortest arc, "
    "static transforms), timestamped arrays over paths of moving, "
    "event-like and static frames of up to 2000 samples, transformed velocities, velocity estimates "
    "and lookups of long records, means and fits. Compared with the same "
    "call for a slice, any selection (reordered, repeated, empty), a "
    "single element, the array with other elements replaced (missing, zero, huge), "
    "transforms of static frames made from single samples, or the array in "
    "another order. Non-trivial: at least two elements and a proper "
    "selection."
)

sizes = st.one_of(st.integers(1, 20),
                  st.sampled_from([33, 64, 100, 129, 257, 500, 1025, 2000,
                                   4000]))
short = st.one_of(st.integers(6, 20),
                  st.sampled_from([33, 64, 129, 257, 513, 1025, 2000]))


def selection(case, n, ordered=False):
    """Drawn indices into n elements."""
    r = m.rng(case["seed"], 5)
    kind = case["select"]
    if kind == "slice":
        a, b = sorted(r.integers(0, n + 1, 2))
        if b == a:
            a, b = 0, max(1, n // 2)
        idx = np.arange(a, b)
    elif kind == "single":
        idx = r.integers(0, n, 1)
    elif kind == "reverse":
        idx = np.arange(n)[::-1]
    elif kind == "empty":
        idx = np.arange(0)
    elif kind == "every other":
        idx = np.arange(0, n, 2)
    else:
        idx = r.integers(0, n, int(r.integers(1, min(n, 50) + 1)))
    return np.unique(idx) if ordered else idx


SELECT = ["slice", "slice", "single", "reverse", "every other", "any"]


def poison(case, arr, keep):
    """The elements not in keep replaced by extreme ones."""
    r = m.rng(case["seed"], 6)
    out = arr.copy()
    # in some cases the elements of the selection as well
    rest = np.setdiff1d(np.arange(len(arr)), [] if keep is None else keep)
    if case["poison"] == "none" or not len(rest):
        return out, False
    value = {"nan": np.nan, "zero": 0.0, "huge": 1e30, "inf": np.inf}[
        case["poison"]]
    out[rest[r.random(len(rest)) < 0.5]] = value
    return out, True


def quats(seed, n, salt=0):
    return m.bulk_unit(seed, (n, 4), 40 + salt)


def points(seed, n, k=3, salt=0):
    return m.bulk(seed, (n, k), 50 + salt, scale=5.0)


def positive(seed, n, k):
    a = points(seed, n, k)
    a[:, 0] = np.abs(a[:, 0]) + 0.1
    return a


ELEMENTWISE = {
    "qinv": (lambda s, n: (quats(s, n) * 2,), rbm.qinv),
    "qmul": (lambda s, n: (quats(s, n), quats(s, n, 1)), rbm.qmul),
    "qmul3": (lambda s, n: (quats(s, n), quats(s, n, 1), quats(s, n, 2)),
              rbm.qmul),
    "qmul_dtype": (lambda s, n: (quats(s, n), quats(s, n, 1)),
                   lambda a, b: as_float_array(rbm.qmul(
                       as_quat_array(a), as_quat_array(b)))),
    "qinv_dtype": (lambda s, n: (quats(s, n),),
                   lambda a: as_float_array(rbm.qinv(as_quat_array(a)))),
    "rotate_vectors": (lambda s, n: (quats(s, n), points(s, n)),
                       rbm.rotate_vectors),
    "rotate_non_unit": (lambda s, n: (quats(s, n) * (
        1 + np.arange(n) % 3)[:, None], points(s, n)), rbm.rotate_vectors),
    "from_euler": (lambda s, n: (points(s, n),), rbm.from_euler_angles),
    "from_euler_ypr": (lambda s, n: (points(s, n),),
                       lambda a: rbm.from_euler_angles(a, order="ypr")),
    "polar": (lambda s, n: (points(s, n, 2),), rbm.cartesian_to_polar),
    "from_polar": (lambda s, n: (positive(s, n, 2),),
                   rbm.polar_to_cartesian),
    "spherical": (lambda s, n: (points(s, n),), rbm.cartesian_to_spherical),
    "from_spherical": (lambda s, n: (positive(s, n, 3),),
                       rbm.spherical_to_cartesian),
    "coordinates": (lambda s, n: (points(s, n),),
                    lambda a: rbm.transform_coordinates(
                        a, outof="cartesian", into="spherical")),
    "shortest_arc": (lambda s, n: (points(s, n) + 0.01,
                                   points(s, n, salt=1) + 0.01),
                     rbm.shortest_arc_rotation),
    "points": (lambda s, n: (points(s, n),), None),
    "vectors": (lambda s, n: (points(s, n),), None),
    "quaternions": (lambda s, n: (quats(s, n),), None),
}


def static_transform(what, seed):
    root = rbm.ReferenceFrame("root")
    a = rbm.ReferenceFrame("a", root, m.bulk(seed, 3, 1),
                           m.bulk_unit(seed, (4,), 2))
    b = rbm.ReferenceFrame("b", root, m.bulk(seed, 3, 3),
                           m.bulk_unit(seed, (4,), 4))
    return lambda x: getattr(rbm, f"transform_{what}")(x, outof=a, into=b)


@st.composite
def element_case(draw):
    return dict(
        op=draw(st.sampled_from(sorted(ELEMENTWISE))), n=draw(sizes),
        seed=draw(m.seeds), select=draw(st.sampled_from(SELECT + ["empty"])),
        poison=draw(st.sampled_from(["none", "none", "nan", "zero", "huge",
                                     "inf"])), all=draw(st.booleans()),
    )


@facet(element_case(), quick=3000)
def elements(case, rec):
    make, fn = ELEMENTWISE[case["op"]]
    if fn is None:
        fn = static_transform(case["op"], case["seed"])
    args = make(case["seed"], case["n"])
    n = case["n"]
    idx = selection(case, n)
    rec.note(n > 1)
    rec.label("large", n > 100)
    rec.label(case["select"])
    with np.errstate(all="ignore"):
        poisoned = [poison(case, a, None if case["all"] else idx)
                    for a in args]
        rec.label(f"{'some' if case['all'] else 'others'} {case['poison']}",
                  any(p[1] for p in poisoned))
        whole = np.asarray(fn(*[p[0] for p in poisoned]))
        part = np.asarray(fn(*[p[0][idx] for p in poisoned]))
    ensure(len(whole) == n and len(part) == len(idx), "lengths %d and %d",
           len(whole), len(part))
    whole = whole[idx]
    bad = ~np.isfinite(part)
    if case["poison"] in ("huge", "inf") and case["all"]:
        # cancellation and overflow may depend on vector instructions
        bad |= (np.abs(part) > 1e20) | ~np.isfinite(whole)
        bad = np.broadcast_to(bad.any(-1, keepdims=True), part.shape)
    else:
        equal(~np.isfinite(whole), bad, f"{case['op']} of {n} elements: "
              "missing or infinite elements")
    close(np.where(bad, 0.0, whole), np.where(bad, 0.0, part), 1e-12,
          f"{case['op']} of {n} elements and of a selection")


# --- timestamped arrays ------------------------------------------------------


@st.composite
def timed_case(draw):
    return dict(
        what=draw(st.sampled_from(["points", "vectors", "quaternions",
                                   "linear_velocity", "angular_velocity"])),
        n=draw(short), frame=draw(short), base=draw(m.bases),
        seed=draw(m.seeds), events=draw(st.booleans()),
        select=draw(st.sampled_from(SELECT)),
        poison=draw(st.sampled_from(["none", "nan", "huge"])),
        other=draw(st.booleans()), down=draw(st.booleans()),
        hardly=draw(st.sampled_from([False] * 5 + [True])),
    )


@facet(timed_case(), quick=1500)
def timed(case, rec):
    """Samples within the range of the frames."""
    s, base = case["seed"], case["base"]
    r = m.rng(s, 8)
    last = 4 * max(case["frame"], case["n"])
    # even ticks for the frame, any for the array
    fk = np.arange(case["frame"]) * (last // case["frame"]) * 2
    ak = np.sort(r.choice(np.arange(fk[-1] + 1), min(case["n"], fk[-1]),
                          replace=False))
    n = len(ak)
    axis = m.bulk_unit(s, (3,), 9)
    rate = 1.0 / (fk[1] - fk[0])
    way = m.bulk(s, (len(fk), 3), 1)
    if case["hardly"]:
        way = way[0] + (way - way[0]) / max(np.ptp(way), 1e-3) * 9e-7
    root = rbm.ReferenceFrame("root")
    moving = rbm.ReferenceFrame(
        "moving", root, way,
        m.qmul(m.bulk_unit(s, (4,), 2), m.qexp(axis * rate * fk[:, None])),
        timestamps=m.to_time(base, fk))
    static = rbm.ReferenceFrame("static", moving, m.bulk(s, 3, 3),
                                m.bulk_unit(s, (4,), 4))
    end = root
    velocity = case["what"].endswith("velocity")
    if case["events"] and not velocity:
        ek = np.sort(r.choice(np.arange(fk[-1] + 1), min(7, fk[-1]),
                              replace=False))
        end = rbm.ReferenceFrame(
            "events", root, m.bulk(s, (len(ek), 3), 5),
            m.bulk_unit(s, (len(ek), 4), 6), timestamps=m.to_time(base, ek),
            discrete=True)
    a, b = (end, static) if case["down"] else (static, end)
    k = 4 if case["what"] == "quaternions" else 3
    shape = (n, 2, k) if case["other"] else (n, k)
    arr = m.bulk_unit(s, shape, 10) if k == 4 else m.bulk(s, shape, 10)
    idx = selection(case, n, ordered=True)
    rec.note(1 <= len(idx) < n)
    rec.label("long frame", case["frame"] > 100)
    rec.label("long array", n > 100)
    fn = getattr(rbm, f"transform_{case['what']}")
    more = {}
    if case["what"] == "linear_velocity":
        more = dict(moving_frame=static) if s % 2 else dict(
            what="moving_frame", reference_frame=root)

    def call(arr, ts):
        return fn(arr, outof=a, into=b, timestamps=ts, return_timestamps=True,
                  **more)

    ts = m.to_time(base, ak)
    whole, ts_w = call(poison(case, arr, idx)[0], ts)
    part, ts_p = call(arr[idx], ts[idx])
    if velocity:
        # samples at times where the velocity of the frames is known
        cut = np.asarray(m.from_time(base, ts_w))
        ensure(np.isin(cut, ak).all(), "timestamps %s", cut)
        own = np.asarray(m.from_time(base, ts_p))
        ensure(np.isin(own, ak[idx]).all(), "timestamps %s of %s", own, ak)
        both, iw, ip = np.intersect1d(cut, own, return_indices=True)
        ensure(len(cut) == len(whole) and len(own) == len(part), "lengths")
        close(whole[iw], part[ip], 1e-7, "samples and selection")
        rec.label("velocities", len(both) > 1)
        return
    equal(m.from_time(base, ts_w), ak, "timestamps")
    equal(m.from_time(base, ts_p), ak[idx], "timestamps of the selection")
    ensure(whole.shape == shape and part.shape == (len(idx),) + shape[1:],
           "shapes %s %s", whole.shape, part.shape)
    if k == 4:
        same_rotation(whole[idx], part, 1e-7, "samples and selection")
    else:
        close(whole[idx], part, 1e-7, "samples and selection")
    # single samples by the interpolated transform: constant rate
    i = idx[len(idx) // 2]
    q = m.qmul(m.bulk_unit(s, (4,), 2), m.qexp(axis * rate * ak[i]))
    t = np.array([np.interp(ak[i], fk, c) for c in
                  way.T])
    if end is not root:
        j = max(np.searchsorted(ek, ak[i], side="right") - 1, 0)
        et = m.bulk(s, (len(ek), 3), 5)[j]
        eq = m.bulk_unit(s, (len(ek), 4), 6)[j]
    else:
        et, eq = np.zeros(3), np.array([1.0, 0, 0, 0])
    st_, sq = m.bulk(s, 3, 3), m.bulk_unit(s, (4,), 4)
    # static -> root, root -> end
    tq, tt = m.qmul(q, sq), m.qrot(q, st_) + t
    tq, tt = m.qmul(m.qconj(eq), tq), m.qrot(m.qconj(eq), tt - et)
    if case["down"]:
        tq, tt = m.qconj(tq), -m.qrot(m.qconj(tq), tt)
    if case["what"] == "quaternions":
        same_rotation(whole[i], m.qmul(tq, arr[i]), 1e-7, "sample")
    else:
        exp = m.qrot(tq, arr[i]) + (tt if case["what"] == "points" else 0)
        close(whole[i], exp, 1e-7, f"sample {i} of {n}")


@st.composite
def window_case(draw):
    return dict(
        n=draw(st.one_of(st.integers(8, 20), st.sampled_from(
            [65, 130, 259, 515, 1027, 2051]))), base=draw(m.bases),
        seed=draw(m.seeds), down=draw(st.booleans()),
        inverse=draw(st.booleans()), regular=draw(st.booleans()),
        holes=draw(st.booleans()), parts=draw(st.sampled_from([1, 1, 2])),
        what=draw(st.sampled_from(["points", "vectors", "quaternions",
                                   "lookup"])))


@facet(window_case(), quick=1200)
def windows(case, rec):
    """Interpolated samples depend on the frame's samples around them."""
    s, n, base = case["seed"], case["n"], case["base"]
    r = m.rng(s, 8)
    k = 4 * (np.arange(n) if case["regular"] else np.cumsum(
        r.integers(1, 4, n)))
    T = m.bulk(s, (n, 3), 1)
    # varying rates, no changes of sign
    axis = m.bulk_unit(s, (3,), 9)
    Q = m.qmul(m.bulk_unit(s, (4,), 2), m.qexp(
        axis * np.cumsum(r.uniform(0, 0.5, n))[:, None]))
    hole = None
    if case["holes"]:
        hole = int(r.integers(0, n))
        T = T.copy()
        T[hole] = np.nan
    ts = m.to_time(base, k)
    kw = dict(inverse=case["inverse"])
    # the part that is needed, with the samples next to it
    a = int(r.integers(0, n - 2))
    b = int(r.integers(a + 1, min(n, a + 40)))
    lo, hi = max(0, a - 4), min(n, b + 5)
    if r.random() < 0.5:
        at = np.unique(r.integers(k[a], k[b] + 1, 30))
    else:
        at = k[a:b] + 1
    other = np.concatenate((at[:1] - 1, at, at[-1:] + 1))
    other = other[(other >= k[a]) & (other <= k[b])]

    def tree(cut):
        root = rbm.ReferenceFrame("root")
        f = rbm.ReferenceFrame("moving", root, T[cut], Q[cut], ts[cut], **kw)
        static = rbm.ReferenceFrame("static", f, m.bulk(s, 3, 3),
                                    m.bulk_unit(s, (4,), 4))
        g = rbm.ReferenceFrame(
            "other", root, m.bulk(s, (len(other), 3), 12),
            np.tile([1.0, 0, 0, 0], (len(other), 1)),
            m.to_time(base, other))
        return (root, static, g) if case["down"] else (static, root, g)

    def call(cut):
        x, y, g = tree(cut)
        if case["what"] == "lookup":
            # the sampling of the other frame comes first
            return rbm.lookup_transform(
                g, tree_end(x, y), return_timestamps=True)
        kk = 4 if case["what"] == "quaternions" else 3
        arr = m.bulk_unit(s, (len(at), kk), 10)
        out, t = getattr(rbm, f"transform_{case['what']}")(
            arr, outof=x, into=y, timestamps=m.to_time(base, at),
            return_timestamps=True)
        return out, t

    def tree_end(x, y):
        return x if x.parent is not None else y

    rec.note(n > hi - lo)
    rec.label("long", n > 100)
    whole, part = call(slice(None)), call(slice(lo, hi))
    exp = other if case["what"] == "lookup" else at
    for out, what in ((whole, "record"), (part, "part")):
        equal(m.from_time(base, out[-1]), exp, f"timestamps of {what}")
    for i, (x, y) in enumerate(zip(whole[:-1], part[:-1])):
        nan = np.isnan(y)
        equal(np.isnan(x), nan, "missing samples of record and part")
        if hole is not None and x.shape[-1] == 3 and (
            case["what"] in ("points", "lookup")
        ):
            rec.label("missing sample of the frame")
            h = k[hole]
            before = k[hole - 1] if hole else h - 1
            after = k[hole + 1] if hole < n - 1 else h + 1
            near = (exp > before) & (exp < after)
            far = (exp < before) | (exp > after)
            ensure(nan[near].all(), "sample next to a missing one")
            ensure(not nan[far].any(), "sample away from a missing one")
        x, y = np.where(nan, 0.0, x), np.where(nan, 0.0, y)
        if x.shape[-1] == 4:
            same_rotation(x, y, 1e-7, "record and part")
        else:
            close(x, y, 1e-7, "record and part")


# --- long records ------------------------------------------------------------


@st.composite
def record_case(draw):
    return dict(n=draw(short), base=draw(m.bases), seed=draw(m.seeds),
                inverse=draw(st.booleans()), discrete=draw(st.booleans()),
                down=draw(st.booleans()), regular=draw(st.booleans()))


@facet(record_case(), quick=600)
def lookups(case, rec):
    """Looked-up samples are those of static trees made from them."""
    s, n, base = case["seed"], case["n"], case["base"]
    r = m.rng(s, 8)
    k = 2 * np.arange(n) if case["regular"] else np.cumsum(
        r.integers(1, 4, n))
    T, Q = m.bulk(s, (n, 3), 1), quats(s, n)
    kw = dict(inverse=case["inverse"])

    def tree(T, Q, **more):
        root = rbm.ReferenceFrame("root")
        a = rbm.ReferenceFrame("a", root, m.bulk(s, 3, 2),
                               m.bulk_unit(s, (4,), 3))
        b = rbm.ReferenceFrame("b", a, T, Q, **kw, **more)
        c = rbm.ReferenceFrame("c", b, m.bulk(s, 3, 4),
                               m.bulk_unit(s, (4,), 5))
        return (root, c) if case["down"] else (c, root)

    x, y = tree(T, Q, timestamps=m.to_time(base, k),
                discrete=case["discrete"])
    t, q, ts = x.lookup_transform(y)
    equal(m.from_time(base, ts), k, "timestamps")
    ensure(np.shape(t) == (n, 3) and np.shape(q) == (n, 4), "shapes %s %s",
           np.shape(t), np.shape(q))
    rec.note(n > 1)
    rec.label("long", n > 100)
    for i in {0, n - 1, *r.integers(0, n, 4).tolist()}:
        u, v = tree(T[i], Q[i])
        ti, qi, _ = u.lookup_transform(v)
        close(t[i], ti, 1e-9, f"translation of sample {i} of {n}")
        same_rotation(q[i], qi, 1e-9, f"rotation of sample {i} of {n}")


@st.composite
def local_case(draw):
    case = draw(record_case())
    case.update(
        what=draw(st.sampled_from(["linear", "quaternion",
                                   "rotation_vector"])),
        other=draw(st.booleans()), wild=draw(st.sampled_from(
            ["none", "nan", "jump"])))
    case["n"] = max(case["n"], 35)
    return case


@facet(local_case(), quick=1500)
def estimates(case, rec):
    """Velocities depend on the samples around them only."""
    s, n, base = case["seed"], case["n"], case["base"]
    r = m.rng(s, 8)
    k = 2 * np.arange(n) if case["regular"] else np.cumsum(
        r.integers(1, 4, n))
    ts = m.to_time(base, k)
    lead = (n, 2) if case["other"] else (n,)
    if case["what"] == "linear":
        arr = m.bulk(s, lead + (3,), 1)
        kw, fn = {}, rbm.estimate_linear_velocity
    else:
        # slow enough not to change sign
        ph = np.moveaxis(np.broadcast_to(np.cumsum(
            r.uniform(0, 0.3, n)), lead[1:] + (n,)), -1, 0)
        ax = m.bulk_unit(s, lead[1:] + (3,), 2)
        arr = m.qmul(m.bulk_unit(s, (4,), 3), m.qexp(
            0.05 * np.sin(ph)[..., None] * ax + [0.3, 0, 0]))
        kw, fn = dict(mode=case["what"]), rbm.estimate_angular_velocity
    # the influence on a spline falls off by 4 with each sample
    near = 15 if case["what"] == "quaternion" else 2
    a = int(r.integers(0, n - 2 * near - 1))
    b = int(r.integers(a + 2 * near + 1, n + 1))
    whole = arr.copy()
    far = np.ones(n, bool)
    far[a:b] = False
    if case["wild"] != "none" and far.any():
        j = int(r.choice(np.nonzero(far)[0]))
        if case["wild"] == "jump" and case["what"] == "linear":
            whole[j] += 1000.0
        elif case["what"] != "quaternion" or not case["other"]:
            # missing samples are skipped by one of the estimates
            whole[j] = np.nan
        rec.label("wild sample elsewhere")
    out = fn(whole, timestamps=ts, **kw)
    part = fn(arr[a:b], timestamps=ts[a:b], **kw)
    rec.note(b - a < n)
    rec.label("long", n > 100)
    lo = 0 if a == 0 else near
    hi = b - a if b == n else b - a - near
    scale = np.nanmax(np.abs(part)) + 1e-300
    err = np.max(np.abs(out[a + lo:a + hi] - part[lo:hi])) if hi > lo else 0.0
    tol = (1e-6 if case["what"] == "quaternion" else 1e-9) + 1e-7 * (m.BASES[base][0] == "dt")
    ensure(err <= tol * max(scale, 1 / m.tick_seconds(base)),
           "%s: differs by %.3g from the estimate for samples %d to %d of %d",
           case["what"], float(err), a, b, n)


@st.composite
def order_case(draw):
    return dict(op=draw(st.sampled_from(["qmean", "rotation", "transform",
                                         "icp"])),
                n=draw(short), seed=draw(m.seeds), signs=draw(st.booleans()),
                twice=draw(st.booleans()))


@facet(order_case(), quick=1200)
def order(case, rec):
    """Means and fits don't depend on the order of elements."""
    s, n = case["seed"], case["n"]
    if case["op"] == "icp":
        n = min(n, 300)
    r = m.rng(s, 8)
    perm = r.permutation(n)
    twice = case["twice"]
    rec.note()
    rec.label("long", n > 100)
    c = m.bulk_unit(s, (4,), 1)
    if case["op"] == "qmean":
        q = m.qmul(c, m.qexp(m.bulk(s, (n, 3), 2, scale=0.8)))
        p = q[perm]
        if case["signs"]:
            p = p * np.where(r.random(n) < 0.5, -1.0, 1.0)[:, None]
        if twice:
            p = np.concatenate((p, p))
        same_rotation(rbm.qmean(p), rbm.qmean(q), 1e-9,
                      "mean in another order")
        return
    v = m.bulk(s, (n, 3), 3)
    w = m.qrot(c, v) + m.bulk(s, 3, 4) + m.bulk(s, (n, 3), 5, scale=0.05)
    if case["op"] == "icp":
        start = (m.bulk(s, 3, 4), c)

        def fit(v, w):
            return rbm.iterative_closest_point(
                v, w, init_transform=start, max_iterations=40,
                tolerance=1e-14)
        a, b = fit(v, w), fit(v[perm], w[r.permutation(n)])
    elif case["op"] == "rotation":
        a, b = ((np.zeros(3), rbm.best_fit_rotation(x, y)) for x, y in (
            (v, w), (v[perm], w[perm])))
    else:
        if twice:
            perm = np.concatenate((perm, perm))
        a, b = (rbm.best_fit_transform(x, y) for x, y in (
            (v, w), (v[perm], w[perm])))
    same_rotation(a[1], b[1], 1e-8, f"{case['op']} in another order")
    close(a[0], b[0], 1e-8, f"{case['op']}: translation in another order")


@st.composite
def interp_case(draw):
    case = draw(record_case())
    case.update(out=draw(short), dtype=draw(st.booleans()),
                select=draw(st.sampled_from(SELECT)))
    return case


@facet(interp_case(), quick=600)
def interpolation(case, rec):
    """Interpolated rotations don't depend on the other output points."""
    s, n, base = case["seed"], case["n"], case["base"]
    r = m.rng(s, 8)
    k = 2 * np.arange(n) if case["regular"] else np.cumsum(
        r.integers(1, 4, n))
    axis = m.bulk_unit(s, (3,), 9)
    q0 = m.bulk_unit(s, (4,), 2)
    q = m.qmul(q0, m.qexp(axis * 0.3 * k[:, None]))
    ko = np.sort(r.integers(k[0], k[-1] + 1, case["out"]))
    idx = selection(case, len(ko))
    t_in = m.to_time(base, k)

    def call(ko):
        if case["dtype"]:
            return as_float_array(rbm.qinterp(
                as_quat_array(q), t_in, m.to_time(base, ko)))
        return rbm.qinterp(q, t_in, m.to_time(base, ko))

    whole, part = call(ko), call(ko[idx])
    rec.note(0 < len(idx) < len(ko))
    rec.label("long", n > 100)
    same_rotation(whole[idx], part, 1e-9, "selected output points")
    same_rotation(whole, m.qmul(q0, m.qexp(axis * 0.3 * ko[:, None])), 1e-6,
                  "constant rate")
