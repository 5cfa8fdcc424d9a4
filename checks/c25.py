"""C25: OptiTrack import."""

import datetime
import io
import itertools
import pathlib
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from rigid_body_motion.io import load_optitrack

from lib import model as m
from lib.harness import close, ensure, equal, facet, raises

PROPERTY = "C25"
RULE = (
    "Generated exports with one to four rigid bodies (with and without an "
    "error column), markers between or after them, six rotation orders or "
    "none stated, meters, centimeters, millimeters or no unit, additional "
    "metadata, start times before and after noon and midnight (with up to six decimals), "
    "angles beyond 180 degrees, any time "
    "column, missing cells. Oracle: generated poses, elementary rotations "
    "multiplied in the stated order. Non-trivial: unit or rotation order "
    "stated, or several bodies, or missing samples."
)

ORDERS = ["".join(p) for p in itertools.permutations("XYZ")]
NAMES = ["RigidBody 01", "RigidBody 02", "head", "Glasses v2", "B", "A", "1",
         "left eye", "Position", "Marker", "v1.2", "A.1", "arm:left", "a, b",
         "hand_(R)", "Größe", "nan", "Rigid Body", "x/y", "#1", "lower"]
UNITS = {None: 1.0, "Meters": 1.0, "Centimeters": 100.0,
         "Millimeters": 1000.0}


@st.composite
def export(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.permutations(NAMES))[:n]
    return dict(
        names=names, rows=draw(st.integers(1, 8)), seed=draw(m.seeds),
        order=draw(st.sampled_from(ORDERS + [None])),
        unit=draw(st.sampled_from(sorted(UNITS, key=str))),
        error=draw(st.booleans()),
        markers=draw(st.sampled_from(["none", "after", "between", "before"])),
        n_markers=draw(st.integers(1, 3)), extra=draw(st.booleans()),
        start=draw(st.integers(0, 86399)), ms=draw(st.integers(0, 999)),
        us=draw(st.sampled_from([None, None, 0, 1, 456, 999])),
        wide=draw(st.sampled_from([False, False, False, True])),
        day=draw(st.integers(0, 700)), rate=draw(st.sampled_from(
            [60, 100, 240])), t0=draw(st.sampled_from([0, 0, 12.5, 3600])),
        frame0=draw(st.integers(0, 500)), skip=draw(st.booleans()),
        missing=draw(st.sampled_from(["no", "no", "rows", "cells", "body"])),
        path=draw(st.booleans()),
        take=draw(st.sampled_from(["Test", "Test", "one, two", "a \"b\"",
                                   "Take 2019-03-01 04.30.12 PM", ""])),
        zero=draw(st.sampled_from(["no", "no", "no", "rows", "cells",
                                   "body"])),
    )


def write(c):
    """CSV text and the expected data."""
    r = m.rng(c["seed"], 1)
    rows, n = c["rows"], len(c["names"])
    start = datetime.datetime(2019, 3, 1) + datetime.timedelta(
        days=c["day"], seconds=c["start"], milliseconds=c["ms"],
        microseconds=c["us"] or 0)
    meta = ["Format Version", "1.22", "Take Name", c["take"],
            "Capture Frame Rate", "240", "Export Frame Rate", str(c["rate"]),
            "Capture Start Time",
            start.strftime("%Y-%m-%d %I.%M.%S.") + "%03d" % c["ms"]
            + ("" if c["us"] is None else "%03d" % c["us"])
            + start.strftime(" %p"),
            "Total Frames in Take", "904"]
    if c["order"]:
        meta += ["Rotation Type", c["order"]]
    if c["unit"]:
        meta += ["Length Units", c["unit"]]
    if c["extra"]:
        meta += ["Coordinate Space", "Global"]
    if c["seed"] % 2:
        # position in the file does not matter
        pairs = [meta[i:i + 2] for i in range(0, len(meta), 2)]
        r.shuffle(pairs)
        meta = [x for p in pairs for x in p]

    bodies, columns = {}, []

    def marker_columns(name):
        return [("Marker", name, "id" + name, "Position", ax,
                 r.uniform(-99, 99, rows)) for ax in "XYZ"]

    def some_markers(i):
        return [col for j in range(c["n_markers"])
                for col in marker_columns(f"{c['names'][i]}:Marker{j}")]

    body_columns = []
    for name in c["names"]:
        ang = np.round(r.uniform(-180, 180, (rows, 3)), 6)
        ang[r.random((rows, 3)) < 0.1] = 90.0
        if c["wide"]:
            # angles that were unwrapped
            ang += 360.0 * r.integers(-1, 2, (rows, 3))
        pos = np.round(r.uniform(-3, 3, (rows, 3)) * UNITS[c["unit"]], 6)
        bodies[name] = [ang, pos]
        cols = [("Rigid Body", name, "id" + name, "Rotation", ax, ang[:, i])
                for i, ax in enumerate("XYZ")]
        cols += [("Rigid Body", name, "id" + name, "Position", ax, pos[:, i])
                 for i, ax in enumerate("XYZ")]
        if c["error"]:
            cols.append(("Rigid Body", name, "id" + name,
                         "Mean Marker Error", "", r.uniform(0, 1, rows)))
        body_columns.append(cols)
    # exact zeros are values as any other
    if c["zero"] == "rows":
        still = r.random(rows) < 0.4
        for ang, pos in bodies.values():
            ang[still], pos[still] = 0.0, 0.0
    elif c["zero"] == "cells":
        for ang, pos in bodies.values():
            ang[r.random(rows) < 0.4] = 0.0
            pos[r.random(rows) < 0.4] = 0.0
    elif c["zero"] == "body":
        for x in bodies[c["names"][-1]]:
            x[:] = 0.0
    if c["missing"] == "rows":
        gone = r.random(rows) < 0.4
        for ang, pos in bodies.values():
            ang[gone], pos[gone] = np.nan, np.nan
    elif c["missing"] == "cells":
        for ang, pos in bodies.values():
            ang[r.random(rows) < 0.3] = np.nan
            pos[r.random(rows) < 0.3] = np.nan
    elif c["missing"] == "body":
        ang, pos = bodies[c["names"][0]]
        gone = r.random(rows) < 0.5
        ang[gone], pos[gone] = np.nan, np.nan
    for i, cols in enumerate(body_columns):
        if c["markers"] == "before":
            columns += some_markers(i)
        columns += cols
        if c["markers"] == "between":
            columns += some_markers(i)
    if c["markers"] == "after":
        for i in range(n):
            columns += some_markers(i)

    steps = r.integers(1, 4, rows) if c["skip"] else np.ones(rows, int)
    frame = c["frame0"] + np.cumsum(steps)
    time = [f"{c['t0'] + (k - frame[0]) / c['rate']:.6f}" for k in frame]
    width = max(len(columns) + 2, len(meta))
    out = io.StringIO()

    def line(cells):
        cells = ['"%s"' % x.replace('"', '""')
                 if "," in x or '"' in x else x for x in cells]
        out.write(",".join(cells + [""] * (width - len(cells))) + "\n")

    line(meta)
    line([])
    for k in range(3):
        line(["", ""] + [col[k] for col in columns])
    line(["", ""] + [col[3] for col in columns])
    line(["Frame", "Time (Seconds)"] + [col[4] for col in columns])
    for i in range(rows):
        line([str(frame[i]), time[i]] + [
            "" if np.isnan(col[5][i]) else f"{col[5][i]:.6f}"
            for col in columns])
    stamps = [np.datetime64(start, "us").astype("datetime64[ns]")
              + np.timedelta64(round(float(t) * 1e9), "ns") for t in time]
    expected = {}
    for name, (ang, pos) in bodies.items():
        q = np.broadcast_to([1.0, 0, 0, 0], (rows, 4))
        for ch in c["order"] or "XYZ":
            k = "XYZ".index(ch)
            half = np.deg2rad(ang[:, k]) / 2
            e = np.zeros((rows, 4))
            e[:, 0], e[:, 1 + k] = np.cos(half), np.sin(half)
            q = m.qmul(q, e)
        q = np.where(np.isnan(ang).any(-1, keepdims=True), np.nan, q)
        expected[name] = pos / UNITS[c["unit"]], q, np.array(stamps)
    return out.getvalue(), expected


def unit_signs(q, e):
    s = np.nansum(q * e, -1, keepdims=True)
    return q * np.where(s < 0, -1.0, 1.0)


def compare(pos, ori, ts, exp, name, fmt):
    what = f"{name} ({fmt})"
    close(pos, exp[0], 1e-9, f"{what} position", nan=True)
    ensure(np.shape(ori) == exp[1].shape, "%s orientation shape %s", what,
           np.shape(ori))
    close(unit_signs(ori, exp[1]), exp[1], 1e-9, f"{what} orientation",
          nan=True)
    ok = ~np.isnan(exp[1]).any(-1)
    close(np.linalg.norm(ori[ok], axis=-1), np.ones(ok.sum()), 1e-12,
          f"{what} norm")
    ensure(np.asarray(ts).dtype.kind == "M", "%s timestamps %s", what,
           np.asarray(ts).dtype)
    ts = np.asarray(ts).astype("datetime64[ns]")
    ensure(len(ts) == len(exp[2]), "%s: %d timestamps", what, len(ts))
    d = np.abs((ts - exp[2]).astype(np.int64))
    ensure(np.all(d <= 10), "%s timestamps %s, expected %s", what, ts[:3],
           exp[2][:3])


@facet(export(), quick=240)
def poses(c, rec):
    text, expected = write(c)
    rec.note(c["order"] or c["unit"] or len(c["names"]) > 1
             or c["missing"] != "no")
    rec.label(f"unit {c['unit']}")
    rec.label(f"order {c['order']}")
    rec.label(f"markers {c['markers']}")
    rec.label(f"missing {c['missing']}")
    rec.label(f"zero {c['zero']}")
    rec.label("PM" if c["start"] >= 43200 else "AM")
    rec.label("noon or midnight", c["start"] % 43200 < 3600)
    folder = tempfile.mkdtemp(prefix="verif-c25-")
    try:
        path = pathlib.Path(folder) / "export.csv"
        path.write_text(text, encoding="utf-8")
        arg = path if c["path"] else str(path)
        loaded = {f: load_optitrack(arg, f)
                  for f in ("numpy", "pandas", "xarray")}
        default = load_optitrack(arg)
        raises(lambda: load_optitrack(arg, "csv"), ValueError,
               what="unsupported format")
        ensure(path.read_text(encoding="utf-8") == text, "file changed")
    finally:
        shutil.rmtree(folder)
    for fmt, data in list(loaded.items()) + [("default", default)]:
        ensure(set(data) == set(expected), "%s: bodies %s, expected %s", fmt,
               sorted(data), sorted(expected))
        for name, body in data.items():
            if fmt in ("numpy", "default"):
                parts = body
            elif fmt == "pandas":
                equal(list(body["position"].columns), list("xyz"), "columns")
                equal(list(body["orientation"].columns), list("wxyz"),
                      "columns")
                parts = (body["position"].values, body["orientation"].values,
                         body.index.values)
            else:
                ensure(body["position"].dims == ("time", "cartesian_axis")
                       and body["orientation"].dims == (
                           "time", "quaternion_axis"), "dims %s", body)
                equal(list(body.cartesian_axis.values), list("xyz"), "axis")
                equal(list(body.quaternion_axis.values), list("wxyz"),
                      "axis")
                parts = (body["position"].values, body["orientation"].values,
                         body["time"].values)
            compare(*parts, expected[name], name, fmt)
