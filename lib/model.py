"""Oracle: quaternion algebra, time bases and frame trees, written out
independently of the library and of the quaternion package."""

import numpy as np
from hypothesis import strategies as st

# --- quaternion algebra on float arrays (..., 4), w first --------------------


def qmul(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    aw, ax, ay, az = np.moveaxis(a, -1, 0)
    bw, bx, by, bz = np.moveaxis(b, -1, 0)
    return np.stack(
        (
            aw * bw - ax * bx - ay * by - az * bz,
            aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw,
        ),
        axis=-1,
    )


def qconj(a):
    return np.asarray(a, float) * np.array([1.0, -1.0, -1.0, -1.0])


def qinv(a):
    a = np.asarray(a, float)
    return qconj(a) / np.sum(a * a, axis=-1, keepdims=True)


def qmat(q):
    """Rotation matrix (..., 3, 3) of (not necessarily unit) quaternions."""
    q = np.asarray(q, float)
    q = q / np.sqrt(np.sum(q * q, axis=-1, keepdims=True))
    w, x, y, z = np.moveaxis(q, -1, 0)
    rows = [
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
    ]
    return np.stack([np.stack(r, axis=-1) for r in rows], axis=-2)


def qrot(q, v):
    """Rotate vectors (..., 3)."""
    return np.einsum("...ij,...j->...i", qmat(q), np.asarray(v, float))


def qexp(rv):
    """Unit quaternion for rotation vector (..., 3)."""
    rv = np.asarray(rv, float)
    ang = np.sqrt(np.sum(rv * rv, axis=-1, keepdims=True))
    half = ang / 2
    k = np.where(ang > 1e-12, np.sin(half) / np.where(ang > 1e-12, ang, 1.0),
                 0.5)
    return np.concatenate((np.cos(half), rv * k), axis=-1)


def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt(np.sum(v * v, axis=-1, keepdims=True))


def q_angle(a, b):
    """Angle between two rotations."""
    d = np.abs(np.sum(unit(a) * unit(b), axis=-1))
    return 2 * np.arccos(np.clip(d, -1, 1))


def q_angle2(a, b):
    """Angle between two rotations, also accurate if it is small."""
    d = qmul(qconj(unit(a)), unit(b))
    return 2 * np.arctan2(np.sqrt(np.sum(d[..., 1:] ** 2, -1)),
                          np.abs(d[..., 0]))


# --- elementary strategies (all JSON-able) -----------------------------------

coord = st.one_of(
    st.integers(-3, 3).map(float),
    st.integers(-2000, 2000).map(lambda i: i / 128),
)
vec3 = st.lists(coord, min_size=3, max_size=3)
nonzero_vec3 = vec3.filter(lambda v: sum(x * x for x in v) > 1e-2)

_SPECIAL = [
    [1.0, 0.0, 0.0, 0.0],
    [-1.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 0.0, 0.0],
    [0.0, 0.0, 1.0, 0.0],
    [0.0, 0.0, 0.0, 1.0],
    [0.5, 0.5, 0.5, 0.5],
    [np.sqrt(0.5), np.sqrt(0.5), 0.0, 0.0],
    [np.sqrt(0.5), 0.0, np.sqrt(0.5), 0.0],
    [np.sqrt(0.5), 0.0, 0.0, np.sqrt(0.5)],
    [np.sqrt(0.5), 0.0, 0.0, -np.sqrt(0.5)],
]
SPECIAL = [[float(x) for x in q] for q in _SPECIAL]


def _norm_list(q):
    n = sum(x * x for x in q) ** 0.5
    return [x / n for x in q]


generic_quat = (
    st.lists(st.integers(-50, 50), min_size=4, max_size=4)
    .filter(lambda q: sum(x * x for x in q) > 0)
    .map(_norm_list)
)


def _near(case):
    base, axis, exp, sign = case
    n = sum(x * x for x in axis) ** 0.5
    d = qexp(np.array(axis) / n * 10.0 ** exp)
    return [float(x) for x in sign * qmul(SPECIAL[base], d)]


# rotations by small angles, and slightly off the special ones
near_quat = st.tuples(
    st.sampled_from([0, 0, 0, 1, 2, 3, 5, 7]),
    st.lists(st.integers(-3, 3), min_size=3, max_size=3).filter(any),
    st.sampled_from([-5, -4, -3, -2, -1]),
    st.sampled_from([1, 1, -1]),
).map(_near)
quat = st.one_of(generic_quat, generic_quat, generic_quat,
                 st.sampled_from(SPECIAL), near_quat)

# none or a slight rotation
slight = st.tuples(
    st.lists(st.integers(-3, 3), min_size=3, max_size=3),
    st.sampled_from([-4, -3, -2]))


def alike(q, v, exp):
    """Quaternion slightly rotated."""
    return [float(x) for x in qmul(q, qexp(np.array(v) * 10.0 ** exp))]


seeds = st.integers(0, 2**31 - 1)


def rng(seed, *salt):
    return np.random.default_rng([int(seed)] + [int(s) for s in salt])


def bulk(seed, shape, *salt, scale=3.0):
    """Array of generic numbers as a pure function of the drawn seed."""
    r = rng(seed, *salt)
    return np.round(r.uniform(-scale, scale, shape) * 1024) / 1024


def bulk_unit(seed, shape, *salt):
    """Unit vectors/quaternions, shape[-1] coordinates."""
    r = rng(seed, *salt)
    return unit(r.normal(size=shape))


# number formats of arrays given to the library
numbers = st.sampled_from(["f8", "f8", "f8", "int", "f4", "big"])


def cast(num, arr):
    """Array in the number format and a function of tolerances for it.

    Integers are rounded unless the last axis has unit quaternions (four
    coordinates), which become one of the basis quaternions.
    """
    loose = float
    if num == "int":
        if arr.shape[-1:] == (4,):
            i = np.argmax(np.abs(arr), -1)
            arr = np.eye(4, dtype=int)[i] * np.sign(
                np.take_along_axis(arr, i[..., None], -1)).astype(int)
        else:
            arr = np.round(arr).astype(int)
    elif num == "f4":
        arr = arr.astype(np.float32)

        def loose(tol):
            return max(tol, 2e-5)
    elif num == "big":
        # byte order of files from other machines
        arr = arr.astype(">f8")
    return arr, loose


# --- time bases --------------------------------------------------------------
# All times are integer ticks. A time base maps ticks to what the library
# sees. Datetimes are multiples of 256 ns after 2020, so that conversion to
# float does not round.

BASES = {
    # name: (kind, seconds per tick)
    "num": ("float", 0.125),
    "num1": ("float", 1.0),
    "int": ("int", 1.0),
    # integers if all timestamps are whole numbers
    "mixed": ("mixed", 0.5),
    "fine": ("float", 2.0**-13),
    "hours": ("float", 2.0**12),
    "neg": ("floatneg", 0.25),
    "epoch": ("floatepoch", 0.125),
    "ns": ("dt", 2.0**20 * 1e-9),
    "ms": ("dt", 8e-3),
    "s": ("dt", 1.0),
}


def base_units(base):
    return {
        "ns": ["ns"],
        "ms": ["ns", "us", "ms"],
        "s": ["ns", "us", "ms", "s"],
    }.get(base, [None])


def tick_seconds(base):
    return BASES[base][1]


def rate_tol(base, tol=1e-6):
    """Relative tolerance of rates of change in a time base.

    The library converts datetimes to float seconds since 1970, which have a
    resolution of 2.4e-7 s; ticks of a datetime base may thus look uneven.
    """
    kind, dt = BASES[base]
    return tol + (4e-6 / dt if kind == "dt" else 0.0)


def to_time(base, ticks, unit_=None):
    """Timestamps for integer ticks."""
    ticks = np.asarray(ticks, dtype=np.int64)
    kind, dt = BASES[base]
    if kind == "float":
        return ticks * dt
    if kind == "floatneg":
        return ticks * dt - 50.0
    if kind == "floatepoch":
        return ticks * dt + 2.0**30
    if kind == "int":
        return ticks.copy()
    if kind == "mixed":
        return ticks * dt if np.any(ticks % 2) else ticks // 2
    ns = {"ns": 2**20, "ms": 8_000_000, "s": 1_000_000_000}[base]
    t = np.datetime64("2020-01-01T00:00:00", "ns") + (
        ticks * ns
    ).astype("timedelta64[ns]")
    return t.astype(f"datetime64[{unit_ or 'ns'}]")


def from_time(base, stamps):
    """Integer ticks for timestamps (None if not on the grid)."""
    stamps = np.asarray(stamps)
    kind, dt = BASES[base]
    if kind == "dt":
        if stamps.dtype.kind != "M":
            return None
        ns = {"ns": 2**20, "ms": 8_000_000, "s": 1_000_000_000}[base]
        d = (
            stamps.astype("datetime64[ns]")
            - np.datetime64("2020-01-01T00:00:00", "ns")
        ).astype(np.int64)
        if np.any(d % ns):
            return None
        return d // ns
    if stamps.dtype.kind not in "fiu":
        return None
    x = stamps.astype(float)
    if kind == "floatneg":
        x = x + 50.0
    if kind == "floatepoch":
        x = x - 2.0**30
    x = x / dt
    r = np.round(x)
    if np.any(np.abs(x - r) > 1e-6):
        return None
    return r.astype(np.int64)


bases = st.sampled_from(
    ["num", "num1", "int", "mixed", "neg", "epoch", "ns", "ms", "s", "fine",
     "hours"])


# range of ticks of long records
LONG = 1800


def span(*usual):
    """Range of ticks, now and then that of long records."""
    return st.sampled_from(list(usual) * (15 // len(usual)) + [LONG])


@st.composite
def tick_list(draw, lo=0, hi=40, min_size=2, max_size=10):
    """Strictly increasing ticks; long lists for wide ranges."""
    if hi - lo >= LONG and draw(st.booleans()):
        n = draw(st.sampled_from([17, 64, 130, 300, 600]))
        if draw(st.booleans()):
            step = (hi - lo) // n
            start = draw(st.integers(lo, hi - step * n))
            return [start + step * i for i in range(n)]
        r = rng(draw(seeds), 99)
        return sorted(int(x) for x in r.choice(
            np.arange(lo, hi + 1), n, replace=False))
    n = draw(st.integers(min_size, min(max_size, hi - lo + 1)))
    if draw(st.booleans()):
        step = draw(st.integers(1, max(1, (hi - lo) // n)))
        start = draw(st.integers(lo, max(lo, hi - step * n)))
        return [start + step * i for i in range(n)]
    return sorted(
        draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n,
                      unique=True))
    )


# --- frames ------------------------------------------------------------------
# spec: {name, parent (index or None), kind, t, q, inverse, unit, ticks, seed,
#        rate: [3], rot: "rate"|"knots"}


def frame_model(spec):
    """(ticks -> translation (n,3), rotation (n,4)) of a frame wrt parent.

    The inverse flag inverts the samples.
    """
    kind = spec["kind"]
    if kind == "static":
        t, q = rounded(spec, np.array(spec["t"])), np.array(spec["q"])
        if spec.get("inverse"):
            q = qinv(q)
            t = -qrot(q, t)
        return lambda k: (
            np.tile(t, (len(k), 1)), np.tile(q, (len(k), 1)),
        )
    ticks = np.array(spec["ticks"])
    T, Q = samples(spec)
    if spec.get("inverse"):
        Q = qinv(Q)
        T = -qrot(Q, T)
    if kind == "discrete":

        def held(k):
            i = np.searchsorted(ticks, np.asarray(k), side="right") - 1
            i = np.clip(i, 0, None)
            return T[i], Q[i]

        return held

    def moving(k):
        k = np.asarray(k, float)
        t = np.stack([np.interp(k, ticks, T[:, i]) for i in range(3)], -1)
        if spec.get("rot", "rate") == "rate":
            q = _rate_rotation(spec, k)
            if spec.get("inverse"):
                q = qinv(q)
        else:
            q = np.full((len(k), 4), np.nan)
            for j, kk in enumerate(k):
                hit = np.nonzero(ticks == kk)[0]
                if len(hit):
                    q[j] = Q[hit[0]]
        return t, q

    return moving


def _rate_rotation(spec, k):
    rv = np.array(spec["rate"])[None, :] * (
        np.asarray(k, float) - spec["ticks"][0]
    )[:, None]
    return qmul(np.array(spec["q"])[None, :], qexp(rv))


def samples(spec):
    """Translation and rotation samples of a timestamped frame."""
    n = len(spec["ticks"])
    T = rounded(spec,
                bulk(spec["seed"], (n, 3), 1) + np.array(spec["t"]))
    if "t" in spec.get("still", ""):
        T[:] = T[0]
    if spec["kind"] == "discrete":
        Q = bulk_unit(spec["seed"], (n, 4), 2)
        r = rng(spec["seed"], 2, 98)
        if r.random() < 0.4:
            # half turns etc. and places that are exactly zero or repeated
            special = r.random(n) < 0.5
            Q[special] = np.array(SPECIAL)[
                r.integers(len(SPECIAL), size=special.sum())]
            T[r.random(n) < 0.2] = 0.0
            T[-1] = T[0]
    elif spec.get("rot", "rate") == "rate":
        Q = _rate_rotation(spec, spec["ticks"])
    else:
        # random rotations, sign-continuous
        Q = bulk_unit(spec["seed"], (n, 4), 3)
        for i in range(1, n):
            if np.dot(Q[i], Q[i - 1]) < 0:
                Q[i] = -Q[i]
    r = rng(spec["seed"], 2, 97)
    if r.random() < 0.15 and spec.get("num") not in ("int", "f4"):
        # hardly moving
        T = T[:1] + 1e-6 * (T - T[:1])
        if spec["kind"] == "discrete" or spec.get("rot", "rate") != "rate":
            Q = qmul(Q[:1], qexp(1e-6 * bulk(spec["seed"], (n, 3), 96)))
    for i in spec.get("holes", ()):
        T[i] = Q[i] = np.nan
    return T, Q


def rounded(spec, T):
    """Translations as given in the number format of the frame."""
    return np.round(T) if spec.get("num") == "int" else T


def as_numbers(spec, T, Q):
    """Translation and rotation in the number format of the frame."""
    num = spec.get("num")
    if num == "int" and not spec.get("holes"):
        if np.all(T == np.round(T)):
            T = T.astype(int)
        if np.all(Q == np.round(Q)):
            Q = Q.astype(int)
    elif num == "f4":
        T = T.astype(np.float32)
    elif num == "list":
        T, Q = T.tolist(), Q.tolist()
    return T, Q


# Units of length: results are proportional to translations, points, etc.,
# whatever their magnitude. Powers of two, so that scaling doesn't round.
lengths = st.sampled_from([1.0] * 7 + [2.0**-30, 2.0**-30, 2.0**20])


def units_of(case, what="points"):
    """Units of length for the frames and for elements of an array.

    Integers can't be scaled down.
    """
    u = case["length"]
    if case.get("num") == "int" and u < 1:
        u = 1.0
    return u, 1.0 if what == "quaternions" else u


def in_units(arr, v):
    """Array multiplied with a unit, in the same number format."""
    return arr if v == 1 else (arr * arr.dtype.type(v)).astype(arr.dtype)


def ctor_args(spec, base, length=1.0):
    """Keyword arguments for ReferenceFrame/register_frame (not parent).

    Translations are given in multiples of length.
    """
    if spec["kind"] == "static":
        T, Q, ts = rounded(spec, np.array(spec["t"])), np.array(
            spec["q"]), None
    else:
        T, Q = samples(spec)
        ts = to_time(base, spec["ticks"], spec.get("unit"))
    T, Q = as_numbers(spec, T * length, Q)
    kw = dict(translation=T, rotation=Q)
    if ts is not None:
        kw["timestamps"] = ts
    if spec["kind"] == "discrete":
        kw["discrete"] = True
    if spec.get("inverse"):
        kw["inverse"] = True
    return kw


def wrt_parent(spec, k):
    """Frame -> parent transform at ticks."""
    return frame_model(spec)(k)


def ancestors(specs, i):
    out = [i]
    while specs[out[-1]]["parent"] is not None:
        out.append(specs[out[-1]]["parent"])
    return out


def path(specs, a, b):
    """Frames walked up from a and down to b."""
    A, B = ancestors(specs, a), ancestors(specs, b)
    common = [x for x in A if x in B][0]
    return A[: A.index(common)], B[: B.index(common)][::-1]


def compose(specs, a, b, k):
    """Transform (translation, rotation) from frame a into b at ticks."""
    up, down = path(specs, a, b)
    n = len(k)
    M = np.tile(np.eye(3), (n, 1, 1))
    v = np.zeros((n, 3))
    q = np.tile([1.0, 0, 0, 0], (n, 1))
    for i in up:
        t, r = wrt_parent(specs[i], k)
        R = qmat(r)
        v = np.einsum("nij,nj->ni", R, v) + t
        M = R @ M
        q = qmul(r, q)
    for i in down:
        t, r = wrt_parent(specs[i], k)
        R = np.swapaxes(qmat(r), -1, -2)
        v = np.einsum("nij,nj->ni", R, v - t)
        M = R @ M
        q = qmul(qconj(r), q)
    return v, q


def lookup_ticks(specs, a, b, array_ticks=None):
    """Ticks at which a lookup from a to b is defined (None if static)."""
    up, down = path(specs, a, b)
    frames = [specs[i] for i in up + down]
    cont = [f["ticks"] for f in frames if f["kind"] == "moving"]
    disc = [f["ticks"] for f in frames if f["kind"] == "discrete"]
    seqs = ([array_ticks] if array_ticks is not None else []) + cont
    if seqs:
        lo = max(s[0] for s in seqs)
        hi = min(s[-1] for s in seqs)
        return np.array([x for x in seqs[0] if lo <= x <= hi], dtype=int)
    if disc:
        return np.array(sorted(set().union(*map(set, disc))), dtype=int)
    return None


@st.composite
def frame_spec(draw, name, parent, kinds=("static",), base="num", rot="rate",
               hi=40, ticks=None, max_samples=10):
    kind = draw(st.sampled_from(kinds)) if parent is not None else "static"
    spec = dict(name=name, parent=parent, kind=kind)
    if parent is None:
        return spec
    spec["t"] = draw(vec3)
    spec["q"] = draw(quat)
    spec["inverse"] = draw(st.sampled_from([False, False, True]))
    spec["num"] = draw(st.sampled_from(["f8", "f8", "f8", "int", "f4",
                                        "list"]))
    if kind != "static":
        lo_n = 1 if kind == "discrete" else 2
        spec["ticks"] = ticks if ticks is not None and kind == "moving" else (
            draw(tick_list(0, hi, lo_n, max_samples))
        )
        if base == "mixed" and ticks is None and draw(st.booleans()):
            whole = sorted({k - k % 2 for k in spec["ticks"]})
            spec["ticks"] = whole + [whole[-1] + 2] * (len(whole) < lo_n)
        spec["unit"] = draw(st.sampled_from(base_units(base)))
        spec["seed"] = draw(seeds)
        if kind == "moving":
            spec["rot"] = rot if isinstance(rot, str) else draw(
                st.sampled_from(rot))
            gap = max(
                b - a for a, b in zip(spec["ticks"], spec["ticks"][1:]))
            ax = draw(nonzero_vec3)
            n = sum(x * x for x in ax) ** 0.5
            ang = draw(st.integers(0, 100)) / 100 * 2.4 / gap
            spec["rate"] = [x / n * ang for x in ax]
            # not moving, although it has samples
            spec["still"] = draw(st.sampled_from([""] * 13 + [
                "t", "r", "tr"]))
            if "r" in spec["still"] and spec["rot"] == "rate":
                spec["rate"] = [0.0, 0.0, 0.0]
    return spec


@st.composite
def pair(draw, n):
    """Two frame indices, mostly different and far apart."""
    a = draw(st.integers(0, n - 1))
    b = draw(st.integers(0, n - 1))
    if a == b and n > 1 and draw(st.integers(0, 9)):
        b = n - 1 if a != n - 1 else 0
    return a, b


@st.composite
def tree_spec(draw, kinds=("static",), base="num", min_frames=1, max_frames=7,
              rot="rate", hi=40, shape=None, max_samples=10, deep=False):
    """List of frame specs; parents before children, one root."""
    n = draw(st.integers(min_frames, max_frames))
    shape = shape or draw(st.sampled_from(["random", "chain", "star"]))
    specs = []
    for i in range(n):
        if i == 0:
            parent = None
        elif shape == "chain":
            parent = i - 1
        elif shape == "star":
            parent = draw(st.integers(0, min(i - 1, 1)))
        else:
            parent = draw(st.integers(0, i - 1))
        specs.append(
            draw(frame_spec(f"f{i}", parent, kinds, base, rot, hi,
                            max_samples=max_samples)))
        if i > 1 and draw(st.integers(0, 7)) == 0:
            # oriented (almost) like the one before
            one, two = specs[-2:]
            two["parent"] = one["parent"] or two["parent"]
            two["inverse"] = one.get("inverse", False)
            if "q" in one:
                two["q"] = alike(one["q"], *draw(slight))
            if draw(st.booleans()):
                two["t"] = list(one.get("t", two["t"]))
    if deep and draw(st.integers(0, 15)) == 0:
        # long chain of static frames
        k = draw(st.integers(4, 40))
        seed = draw(seeds)
        for i in range(k):
            specs.append(dict(
                name=f"f{n + i}", kind="static", inverse=i % 5 == 3,
                parent=n + i - 1 if i else draw(st.integers(0, n - 1)),
                t=bulk(seed, 3, i).tolist(), num="f8",
                q=bulk_unit(seed, (4,), 50 + i).tolist()))
    return specs


def build(specs, base="num", register=True, prefix="", length=1.0):
    """Create the frames; returns the list of ReferenceFrame objects."""
    import rigid_body_motion as rbm

    out = []
    for s in specs:
        if s["parent"] is None:
            rf = rbm.ReferenceFrame(prefix + s["name"])
        else:
            rf = rbm.ReferenceFrame(
                prefix + s["name"], out[s["parent"]],
                **ctor_args(s, base, length))
        if register:
            rf.register()
        out.append(rf)
    return out


def fref(rfs, i, by_name):
    """Frame given by name or by object."""
    return rfs[i].name if by_name else rfs[i]
