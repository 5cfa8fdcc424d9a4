"""C12: looked-up velocities respect reference and representation frame."""

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib import motion as mo
from lib.harness import close, ensure, equal, facet, raises

PROPERTY = "C12"
RULE = (
    "Trees of 2 to 5 static and smoothly moving frames (sinusoidal "
    "translation, constant or sinusoidal rotation) sampled on parts of one "
    "regular or irregular grid; all moving, reference and representation "
    "frames. Oracle: analytic velocities of the composed motion with the "
    "truncation bound of a second-order scheme; representation change as "
    "pure rotation by the tree model (also arbitrary sampling, discrete "
    "frames); twist vs separate lookups; defaults; cutoff and outlier "
    "threshold in lookups vs in estimators. Non-trivial: the frame "
    "moves with respect to the reference."
)

FUNCS = {"linear": "lookup_linear_velocity",
         "angular": "lookup_angular_velocity"}


@st.composite
def lookup_case(draw, **kw):
    case = draw(mo.smooth_tree(**kw))
    n = len(case["specs"])
    case["a"], case["ref"] = draw(m.pair(n))
    case["rep"] = draw(st.integers(0, n - 1))
    case["rep2"] = draw(st.integers(0, n - 1))
    case["length"] = draw(m.lengths)
    case["by"] = draw(st.sampled_from(["name", "object", "method"]))
    case["mode"] = draw(st.sampled_from(["quaternion", "rotation_vector"]))
    return case


def is_moving(specs, a, b):
    return m.lookup_ticks(specs, a, b) is not None


def in_units(case, what, out):
    """Velocity in the unit of length, and timestamps."""
    u = case.get("length", 1.0) if what == "linear" else 1.0
    return (np.asarray(out[0]) / u,) + tuple(out[1:])


def call(rfs, case, what, a, ref, rep, **kw):
    """(velocity, timestamps)."""
    kw["return_timestamps"] = True
    if case["by"] == "method":
        out = getattr(rfs[a], FUNCS[what])(rfs[ref], rfs[rep], **kw)
    else:
        by_name = case["by"] == "name"
        out = getattr(rbm, FUNCS[what])(
            m.fref(rfs, a, by_name), m.fref(rfs, ref, by_name),
            m.fref(rfs, rep, by_name), **kw)
    return in_units(case, what, out)


def twist(rfs, case, a, ref, rep, **kw):
    kw["return_timestamps"] = True
    if case["by"] == "method":
        out = rfs[a].lookup_twist(rfs[ref], rfs[rep], **kw)
    else:
        by_name = case["by"] == "name"
        out = rbm.lookup_twist(
            m.fref(rfs, a, by_name), m.fref(rfs, ref, by_name),
            m.fref(rfs, rep, by_name), **kw)
    return in_units(case, "linear", out)


def expected_ticks(specs, what, a, ref, rep):
    k = m.lookup_ticks(specs, a, ref)
    # linear velocity starts out in the reference, angular in the moving frame
    start = ref if what == "linear" else a
    return m.lookup_ticks(specs, start, rep, list(k))


def check_error(err, t, full, bound, what):
    """err at times t; full: times of the whole estimate."""
    inner, end = bound
    ends = (t == full[0]) | (t == full[-1])
    ensure(np.all(err <= np.where(ends, end, inner)),
           "%s: error %g (bounds %g inside, %g at the ends)", what,
           float(np.max(err)), inner, end)


@facet(lookup_case(), quick=1600)
def analytic(case, rec):
    specs = case["specs"]
    a, ref, rep = case["a"], case["ref"], case["rep"]
    rfs = mo.build(case)
    if not is_moving(specs, a, ref):
        return
    rec.note()
    rec.label("rep differs", rep != ref)
    rec.label("small or large", case["length"] != 1)
    rec.label("rep moves wrt ref", is_moving(specs, ref, rep))
    up, down = m.path(specs, a, ref)
    rec.label("2+ moving frames on the path", sum(
        specs[i]["kind"] == "moving" for i in up + down) > 1)
    full = mo.seconds(case, m.lookup_ticks(specs, a, ref))
    bl, bw = mo.bounds(case, a, ref, full)
    for what, bound in (("linear", bl), ("angular", bw)):
        vel, ts = call(rfs, case, what, a, ref, rep)
        k = expected_ticks(specs, what, a, ref, rep)
        equal(m.from_time(case["base"], ts), k, f"{what} timestamps")
        ensure(np.shape(vel) == (len(k), 3), "%s shape %s", what,
               np.shape(vel))
        t = mo.seconds(case, k)
        v, w = mo.twist(case, a, ref, rep, t)
        err = np.linalg.norm(vel - (v if what == "linear" else w), axis=-1)
        check_error(err, t, full, bound, what)
    lin, ang, ts = twist(rfs, case, a, ref, rep)
    k = m.from_time(case["base"], ts)
    ke = [x for x in expected_ticks(specs, "angular", a, ref, rep)
          if x in set(expected_ticks(specs, "linear", a, ref, rep))]
    equal(k, ke, "twist timestamps")
    t = mo.seconds(case, k)
    v, w = mo.twist(case, a, ref, rep, t)
    check_error(np.linalg.norm(lin - v, axis=-1), t, full, bl, "twist linear")
    check_error(np.linalg.norm(ang - w, axis=-1), t, full, bw,
                "twist angular")


@facet(lookup_case(), quick=1000)
def together(case, rec):
    """Combined lookup equals the separate ones; defaults."""
    specs = case["specs"]
    a, ref, rep = case["a"], case["ref"], case["rep"]
    rfs = mo.build(case)
    if not is_moving(specs, a, ref):
        # static: error, or zero if asked
        for fn in (lambda: call(rfs, case, "linear", a, ref, rep),
                   lambda: call(rfs, case, "angular", a, ref, rep),
                   lambda: twist(rfs, case, a, ref, rep)):
            raises(fn, ValueError, what="velocity of static transform")
        for what in FUNCS:
            v, ts = getattr(rfs[a], FUNCS[what])(
                rfs[ref], rfs[rep], allow_static=True,
                return_timestamps=True)
            close(v, np.zeros(3), 0, "static velocity")
            ensure(ts is None, "timestamps for static velocity")
        v, w, ts = rfs[a].lookup_twist(rfs[ref], rfs[rep], allow_static=True,
                                       return_timestamps=True)
        close(v, np.zeros(3), 0, "static velocity")
        close(w, np.zeros(3), 0, "static velocity")
        ensure(ts is None, "timestamps for static twist")
        return
    rec.note()
    mode = case["mode"]
    lin, lts = call(rfs, case, "linear", a, ref, rep)
    ang, ats = call(rfs, case, "angular", a, ref, rep, mode=mode)
    tl, ta, tts = twist(rfs, case, a, ref, rep, mode=mode)
    kl, ka, kt = (list(m.from_time(case["base"], x))
                  for x in (lts, ats, tts))
    rec.label("different timestamps", kl != ka)
    s = max(1.0, np.abs(lin).max(), np.abs(ang).max())
    close(tl / s, lin[[kl.index(k) for k in kt]] / s, 1e-9, "twist linear")
    close(ta / s, ang[[ka.index(k) for k in kt]] / s, 1e-9, "twist angular")
    # defaults
    parent = specs[a]["parent"]
    if parent is None or specs[a]["kind"] == "static":
        return
    rec.label("defaults")
    name = rfs[a].name if case["by"] == "name" else rfs[a]
    for what in FUNCS:
        exp, ets = call(rfs, case, what, a, parent, parent)
        for fn in (getattr(rbm, FUNCS[what]), lambda *x, **k: getattr(
                rfs[a], FUNCS[what])(*x[1:], **k)):
            got, gts = in_units(case, what, fn(name, return_timestamps=True))
            equal(gts, ets, "default timestamps")
            close(got, exp, 1e-12, f"default {what}")
            ensure(np.array_equal(in_units(case, what, [fn(name)])[0], got),
                   "without timestamps")
    # only the representation given: still with respect to the parent
    for what in FUNCS:
        exp, ets = call(rfs, case, what, a, parent, rep)
        got, gts = in_units(case, what, getattr(rfs[a], FUNCS[what])(
            represent_in=rfs[rep], return_timestamps=True))
        equal(gts, ets, "default reference timestamps")
        close(got, exp, 1e-12, f"default reference, {what}")
        got, gts = in_units(case, what, getattr(rbm, FUNCS[what])(
            name, represent_in=rfs[rep], return_timestamps=True))
        equal(gts, ets, "default reference timestamps")
        close(got, exp, 1e-12, f"default reference, {what}")
    exp = twist(rfs, case, a, parent, rep)
    for got in (rbm.lookup_twist(name, represent_in=rfs[rep].name,
                                 return_timestamps=True),
                rfs[a].lookup_twist(represent_in=rfs[rep],
                                    return_timestamps=True)):
        got = in_units(case, "linear", got)
        equal(got[2], exp[2], "default reference timestamps")
        close(got[0], exp[0], 1e-12, "default reference of twist")
        close(got[1], exp[1], 1e-12, "default reference of twist")
    exp = twist(rfs, case, a, parent, parent)
    for got in (rbm.lookup_twist(name, return_timestamps=True),
                rfs[a].lookup_twist(return_timestamps=True)):
        got = in_units(case, "linear", got)
        equal(got[2], exp[2], "default timestamps")
        close(got[0], exp[0], 1e-12, "default twist linear")
        close(got[1], exp[1], 1e-12, "default twist angular")
    # function: represented in the reference, method: in the parent
    exp, ets = call(rfs, case, "linear", a, ref, ref)
    got, gts = in_units(case, "linear", rbm.lookup_linear_velocity(
        rfs[a], rfs[ref], return_timestamps=True))
    equal(gts, ets, "default representation timestamps")
    close(got, exp, 1e-12, "default representation")
    exp, ets = call(rfs, case, "angular", a, ref, ref)
    got, gts = rbm.lookup_angular_velocity(rfs[a], rfs[ref],
                                           return_timestamps=True)
    equal(gts, ets, "default representation timestamps")
    close(got, exp, 1e-12, "default representation")
    exp = twist(rfs, case, a, ref, ref)
    got = in_units(case, "linear", rbm.lookup_twist(
        rfs[a], rfs[ref], return_timestamps=True))
    close(got[0], exp[0], 1e-12, "default representation of twist")
    close(got[1], exp[1], 1e-12, "default representation of twist")
    exp, ets = call(rfs, case, "linear", a, ref, parent)
    got, gts = in_units(case, "linear", rfs[a].lookup_linear_velocity(
        rfs[ref], return_timestamps=True))
    equal(gts, ets, "default representation of method")
    close(got, exp, 1e-12, "default representation of method")
    exp, ets = call(rfs, case, "angular", a, ref, parent)
    got, gts = rfs[a].lookup_angular_velocity(rfs[ref],
                                              return_timestamps=True)
    equal(gts, ets, "default representation of method")
    close(got, exp, 1e-12, "default representation of method")


@st.composite
def rep_case(draw):
    """Arbitrary sampling: constant-rate rotations stay exact."""
    base = draw(m.bases)
    specs = draw(m.tree_spec(
        kinds=("moving", "moving", "static", "discrete"), base=base,
        min_frames=2, max_frames=5, hi=30, max_samples=14))
    case = dict(base=base, specs=specs)
    n = len(specs)
    case["a"], case["ref"] = draw(m.pair(n))
    case["rep"] = draw(st.integers(0, n - 1))
    case["rep2"] = draw(st.integers(0, n - 1))
    case["by"] = draw(st.sampled_from(["name", "object", "method"]))
    return case


@facet(rep_case(), quick=2000)
def representation(case, rec):
    """Changing the representation frame only rotates."""
    specs = case["specs"]
    a, ref = case["a"], case["ref"]
    reps = [case["rep"], case["rep2"]]
    if not is_moving(specs, a, ref):
        return
    k0 = m.lookup_ticks(specs, a, ref)
    if len(k0) < 5:
        return
    rfs = m.build(specs, case["base"])
    for what in FUNCS:
        res = []
        ticks = []
        for rep in reps:
            v, ts = call(rfs, case, what, a, ref, rep)
            k = expected_ticks(specs, what, a, ref, rep)
            equal(m.from_time(case["base"], ts), k, f"{what} timestamps")
            res.append(v)
            ticks.append(list(k))
        common = [k for k in ticks[0] if k in set(ticks[1])]
        if not common:
            continue
        v0, v1 = (v[[t.index(k) for k in common]]
                  for v, t in zip(res, ticks))
        _, q = m.compose(specs, reps[0], reps[1], common)
        scale = max(1.0, np.abs(v0).max())
        rec.note(reps[0] != reps[1] and np.any(v0))
        rec.label("moving rotation", is_moving(specs, *reps))
        close(v1 / scale, m.qrot(q, v0) / scale, 1e-8,
              f"{what}: representation")


@st.composite
def option_case(draw):
    case = draw(lookup_case(lo=34, hi=48, max_frames=4))
    case["cutoff"] = draw(st.one_of(st.none(), st.integers(5, 80).map(
        lambda i: i / 100), st.integers(5, 40).map(lambda i: i / 100)))
    case["thresh"] = draw(st.one_of(st.none(), st.integers(
        -12, 4).map(lambda i: 2.0**i)))
    return case


@facet(option_case(), quick=900)
def options(case, rec):
    """Filtering and outlier suppression act before the representation."""
    specs = case["specs"]
    a, ref, rep = case["a"], case["ref"], case["rep"]
    if not is_moving(specs, a, ref):
        return
    rfs = mo.build(case)
    kw = {k: case[v] for k, v in (("cutoff", "cutoff"),
                                  ("outlier_thresh", "thresh"))
          if case[v] is not None}
    u = case["length"]
    if "outlier_thresh" in kw:
        kw["outlier_thresh"] *= u
    akw = dict(kw, mode=case["mode"])
    akw.pop("outlier_thresh", None)
    rec.label("both", len(kw) > 1)
    rec.label("rep differs", rep != ref)
    tw = twist(rfs, case, a, ref, rep, **dict(kw, mode=case["mode"]))
    kt = list(m.from_time(case["base"], tw[2]))
    t, r, ts = rfs[a].lookup_transform(rfs[ref])
    changed = False
    for what, o, together in (("linear", kw, tw[0]), ("angular", akw, tw[1])):
        vel, vts = call(rfs, case, what, a, ref, rep, **o)
        k = expected_ticks(specs, what, a, ref, rep)
        equal(m.from_time(case["base"], vts), k, f"{what} timestamps")
        # what the estimator gives for the looked-up transform
        if what == "linear":
            plain = rbm.estimate_linear_velocity(t, timestamps=ts) / u
            est = rbm.estimate_linear_velocity(t, timestamps=ts, **o) / u
            start = ref
        else:
            plain = rbm.estimate_angular_velocity(r, timestamps=ts)
            est = rbm.estimate_angular_velocity(r, timestamps=ts, **o)
            start = a
        with np.errstate(invalid="ignore"):
            changed = changed or np.nanmax(
                np.abs(est - plain), initial=0.0) > 1e-3
        full = list(m.from_time(case["base"], ts))
        _, q = mo.compose(case, start, rep, mo.seconds(case, k))
        exp = m.qrot(q, est[[full.index(x) for x in k]])
        defined(vel, exp, what)
        kk = list(k)
        if len(kt):
            defined(together, vel[[kk.index(x) for x in kt]],
                    f"twist {what}")
    rec.note(bool(changed))


def defined(out, exp, what):
    """Equal where defined, undefined elsewhere."""
    ensure(np.shape(out) == np.shape(exp), "%s: shape %s, expected %s", what,
           np.shape(out), np.shape(exp))
    was, nan = (np.isnan(x).any(axis=1) for x in (out, exp))
    equal(np.nonzero(was)[0], np.nonzero(nan)[0], f"{what}: NaN")
    ok = ~was
    s = max(1.0, np.abs(exp[ok]).max(initial=0.0))
    close(out[ok] / s, exp[ok] / s, 1e-8, what)
