"""C27: ROS messages and bags."""

import pathlib
import shutil
import tempfile

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import fakeros as fr
from lib import model as m
from lib.harness import close, ensure, equal, facet, fail, raises

fr.install()

from rigid_body_motion.ros import RosbagReader, RosbagWriter  # noqa: E402
from rigid_body_motion.ros import msg as rmsg  # noqa: E402

PROPERTY = "C27"
RULE = (
    "Messages: generated translations, rotations, velocities, frame names and "
    "stamps packed and unpacked by every pair of functions, fields compared "
    "one by one. Bags: one to four topics (similar names) of transforms "
    "written as arrays, lists or datasets (any datetime unit, numeric, any "
    "variable names; orientations of any length) in several interleaved calls, or odometry/transforms "
    "with and without header recorded out of order; histories of loading, "
    "caching and exporting over two bags. Non-trivial: several topics or "
    "messages with generic values."
)
ASSUMPTIONS = [
    "ROS is not installed; rospy, rosbag and the message packages are the "
    "stand-ins in lib/fakeros.py",
]

STAMP_TOL = 1e-6  # float seconds since 1970 have a resolution of 2.4e-7
NAMES = ["world", "base_link", "camera/odom", "a", "b", "frame 1"]


def xyz(o):
    return [o.x, o.y, o.z]


def wxyz(o):
    return [o.w, o.x, o.y, o.z]


def stamp(msg, expected, what):
    ensure(abs(msg.header.stamp.to_sec() - expected) <= STAMP_TOL,
           "%s: stamp %r, expected %r", what, msg.header.stamp.to_sec(),
           expected)


# --- messages ----------------------------------------------------------------

times = st.one_of(
    st.just(None), st.just(0.0), st.integers(1, 4000).map(lambda i: i / 8),
    st.integers(1, 2**31 * 64).map(lambda i: i / 64),
    st.floats(1e-3, 4e9),
)


@st.composite
def message_case(draw):
    return dict(
        kind=draw(st.sampled_from(
            ["transform", "pose", "twist", "vector", "point", "quaternion",
             "static"])),
        a=[float(x) for x in draw(st.lists(st.one_of(
            m.coord, st.floats(-1e12, 1e12)), min_size=3, max_size=3))],
        b=draw(m.vec3), q=draw(st.one_of(m.quat, st.lists(
            st.floats(-2, 2), min_size=4, max_size=4))),
        frame=draw(st.sampled_from(NAMES)),
        child=draw(st.sampled_from(NAMES)), time=draw(times),
        as_=draw(st.sampled_from(["array", "list", "tuple"])),
    )


@facet(message_case(), quick=1600)
def messages(c, rec):
    rec.note(len(set(c["a"])) == 3 or len(set(c["q"])) == 4)
    rec.label(c["kind"])
    rec.label("default time", c["time"] is None)
    conv = {"array": np.array, "list": list, "tuple": tuple}[c["as_"]]
    a, b, q = conv(c["a"]), conv(c["b"]), conv(c["q"])
    kw = {} if c["time"] is None else {"time": c["time"]}
    time = c["time"] or 0.0
    k = c["kind"]
    if k == "static":
        child = c["child"] + "_child"
        parent = rbm.ReferenceFrame(c["frame"])
        qu = [float(x) for x in m.unit(np.add(c["q"], [1e-3, 0, 0, 0]))]
        rf = rbm.ReferenceFrame(child, parent=parent, translation=c["a"],
                                rotation=qu)
        msg = rmsg.static_rf_to_transform_msg(rf, **kw)
        equal(msg.child_frame_id, child, "child frame")
        close(xyz(msg.transform.translation), c["a"], 0, "translation")
        close(wxyz(msg.transform.rotation), qu, 1e-12, "rotation")
    elif k == "transform":
        msg = rmsg.make_transform_msg(a, q, c["frame"], c["child"], **kw)
        equal(type(msg).__name__, "TransformStamped", "type")
        equal(msg.child_frame_id, c["child"], "child frame")
        close(xyz(msg.transform.translation), c["a"], 0, "translation")
        close(wxyz(msg.transform.rotation), c["q"], 0, "rotation")
        for got in (rmsg.unpack_transform_msg(msg, stamped=True),
                    rmsg.unpack_transform_msg(msg.transform),
                    rmsg.unpack_transform_msg(msg.transform, False)):
            close(got[0], c["a"], 0, "unpacked translation")
            close(got[1], c["q"], 0, "unpacked rotation")
    elif k == "pose":
        msg = rmsg.make_pose_msg(a, q, c["frame"], **kw)
        equal(type(msg).__name__, "PoseStamped", "type")
        close(xyz(msg.pose.position), c["a"], 0, "position")
        close(wxyz(msg.pose.orientation), c["q"], 0, "orientation")
        for got in (rmsg.unpack_pose_msg(msg, stamped=True),
                    rmsg.unpack_pose_msg(msg.pose)):
            close(got[0], c["a"], 0, "unpacked position")
            close(got[1], c["q"], 0, "unpacked orientation")
    elif k == "twist":
        msg = rmsg.make_twist_msg(a, b, c["frame"], **kw)
        equal(type(msg).__name__, "TwistStamped", "type")
        close(xyz(msg.twist.linear), c["a"], 0, "linear")
        close(xyz(msg.twist.angular), c["b"], 0, "angular")
        for got in (rmsg.unpack_twist_msg(msg, stamped=True),
                    rmsg.unpack_twist_msg(msg.twist)):
            close(got[0], c["a"], 0, "unpacked linear")
            close(got[1], c["b"], 0, "unpacked angular")
    else:
        make, unpack, attr, val, to, cls = {
            "vector": (rmsg.make_vector_msg, rmsg.unpack_vector_msg,
                       "vector", a, xyz, "Vector3Stamped"),
            "point": (rmsg.make_point_msg, rmsg.unpack_point_msg, "point",
                      a, xyz, "PointStamped"),
            "quaternion": (rmsg.make_quaternion_msg,
                           rmsg.unpack_quaternion_msg, "quaternion", q,
                           wxyz, "QuaternionStamped"),
        }[k]
        msg = make(val, c["frame"], **kw)
        equal(type(msg).__name__, cls, "type")
        close(to(getattr(msg, attr)), list(val), 0, k)
        close(unpack(msg, stamped=True), list(val), 0, f"unpacked {k}")
        close(unpack(getattr(msg, attr)), list(val), 0, f"unpacked {k}")
    equal(msg.header.frame_id, c["frame"], "frame")
    stamp(msg, time, k)


# --- bags --------------------------------------------------------------------

TOPICS = ["/pose", "/pose/1", "/pose/2", "pose", "/camera/odom", "/odom",
          "/camera", "/transform"]


def scratch():
    return pathlib.Path(tempfile.mkdtemp(prefix="verif-c27-"))


def motion(seed, n, scale=3.0):
    r = m.rng(seed, n)
    orientation = m.unit(r.normal(size=(n, 4)))
    if seed % 4 == 1:
        # messages hold what they are given, also if it is not a rotation
        orientation *= r.choice([0.0, 0.5, 1.0, 2.0], (n, 1))
    return dict(
        position=r.normal(size=(n, 3)) * scale,
        orientation=orientation,
        linear_velocity=r.normal(size=(n, 3)),
        angular_velocity=r.normal(size=(n, 3)),
    )


def stamps(seed, n, base):
    """Stamps in seconds, not necessarily in order."""
    r = m.rng(seed, n, 5)
    t = np.cumsum(r.integers(1, 40, n)) / 64
    if seed % 3 == 0:
        # a stamp of zero is a stamp
        t -= t[0]
    if seed % 5 == 0:
        r.shuffle(t)
    return t + base


def compare(got, exp, what, tol=1e-12):
    t = np.asarray(got["timestamps"])
    ensure(t.shape == exp["timestamps"].shape, "%s: %d messages, expected %d",
           what, len(t), len(exp["timestamps"]))
    ensure(np.all(np.abs(t - exp["timestamps"]) <= STAMP_TOL),
           "%s: timestamps %s, expected %s", what, t[:4],
           exp["timestamps"][:4])
    names = [k for k in exp if k != "timestamps"]
    ensure(set(got) - {"timestamps"} == set(names), "%s: %s, expected %s",
           what, sorted(got), sorted(names))
    for k in names:
        g = np.asarray(got[k])
        ensure(g.shape == exp[k].shape, "%s: shape of %s", what, k)
        ensure(np.array_equal(np.isnan(g), np.isnan(exp[k])),
               "%s: missing values in %s", what, k)
        err = np.nanmax(np.append(np.abs(g - exp[k])
                                  - tol * (1 + 1e-3) * (tol > 1e-9)
                                  - 1e-12 * np.abs(exp[k]), -1))
        ensure(err <= 1e-12, "%s: %s differs by %g", what, k, err)


AXES = {"position": "cartesian_axis", "orientation": "quaternion_axis",
        "linear_velocity": "cartesian_axis",
        "angular_velocity": "cartesian_axis"}


def from_dataset(ds):
    """Compare labels and return the arrays."""
    equal(list(ds.cartesian_axis.values), list("xyz"), "cartesian axis")
    equal(list(ds.quaternion_axis.values), list("wxyz"), "quaternion axis")
    ensure(ds.time.dtype.kind == "M", "time %s", ds.time.dtype)
    out = {"timestamps": ds.time.values.astype("datetime64[ns]").astype(
        np.int64) / 1e9}
    for k in ds.data_vars:
        ensure(ds[k].dims == ("time", AXES[k]), "dims of %s: %s", k,
               ds[k].dims)
        out[k] = ds[k].values
    return out


@st.composite
def written(draw):
    topics = draw(st.permutations(TOPICS))[:draw(st.integers(1, 3))]
    calls = []
    for _ in range(draw(st.integers(1, 5))):
        calls.append(dict(
            topic=draw(st.sampled_from(topics)), seed=draw(m.seeds),
            n=draw(st.integers(1, 6)),
            how=draw(st.sampled_from(["array", "list", "dataset",
                                      "renamed"])),
            unit=draw(st.sampled_from([None, "ns", "us", "ms"])),
            base=draw(st.sampled_from([0.0, 100.0, 1.6e9])),
            frame=draw(st.sampled_from(NAMES)),
            child=draw(st.sampled_from(NAMES)),
        ))
    return dict(calls=calls, path=draw(st.booleans()))


def to_stamps(t, unit):
    if unit is None:
        return t
    return np.round(t * 1e3).astype(np.int64).astype(
        "datetime64[ms]").astype(f"datetime64[{unit}]")


@facet(written(), quick=400)
def write_load(c, rec):
    """Transforms written and loaded."""
    topics = {x["topic"] for x in c["calls"]}
    rec.note(len(c["calls"]) > 1 or c["calls"][0]["n"] > 1)
    rec.label("several topics", len(topics) > 1)
    rec.label("topic written repeatedly", len(c["calls"]) > len(topics))
    expected = {}
    fr.Bag.handles.clear()
    folder = scratch()
    try:
        path = folder / "test.bag"
        arg = path if c["path"] else str(path)
        with RosbagWriter(arg) as w:
            for x in c["calls"]:
                rec.label(f"{x['how']}")
                d = motion(x["seed"], x["n"])
                t = stamps(x["seed"], x["n"], x["base"])
                d = {k: d[k] for k in ("position", "orientation")}
                if x["how"] in ("array", "list"):
                    conv = np.array if x["how"] == "array" else (
                        lambda a: np.asarray(a).tolist())
                    w.write_transform_stamped(
                        conv(t), conv(d["position"]), conv(d["orientation"]),
                        x["topic"], x["frame"], x["child"])
                else:
                    if x["unit"]:
                        t = np.round(t, 3)
                    names = {}
                    if x["how"] == "renamed":
                        names = dict(timestamps="ts", translation="pp",
                                     rotation="rr")
                    dim = names.get("timestamps", "time")
                    tn = names.get("translation", "position")
                    rn = names.get("rotation", "orientation")
                    ds = xr.Dataset(
                        {tn: ((dim, "cartesian_axis"), d["position"]),
                         rn: ((dim, "quaternion_axis"), d["orientation"]),
                         "other": ((dim,), np.arange(x["n"]))},
                        {dim: to_stamps(t, x["unit"])})
                    if names and x["seed"] % 2:
                        # names of other variables do not matter
                        ds["position"] = ds[tn] * 2
                        ds["orientation"] = ds[rn] * -1
                    w.write_transform_stamped_dataset(
                        ds, x["topic"], x["frame"], x["child"], **names)
                e = expected.setdefault(x["topic"], [])
                e.append((dict(d, timestamps=t), x))
        ensure(not fr.Bag.handles, "the bag is not closed after writing")
        with fr.Bag(path) as raw:
            frames = {t: [(msg.header.frame_id, msg.child_frame_id)
                          for tt, msg, _ in raw.read_messages() if tt == t]
                      for t in topics}
        with RosbagReader(arg) as reader:
            equal(dict(reader.get_topics_and_types()),
                  {t: "geometry_msgs/TransformStamped" for t in topics},
                  "topics")
            for topic, parts in expected.items():
                exp = {k: np.concatenate([p[0][k] for p in parts])
                       for k in parts[0][0]}
                equal(frames[topic], [(x["frame"], x["child"])
                                      for d, x in parts
                                      for _ in range(x["n"])], "frames")
                compare(reader.load_messages(topic), exp, topic)
                compare(from_dataset(reader.load_dataset(topic)), exp,
                        f"dataset of {topic}")
        ensure(not fr.Bag.handles, "the bag is not closed after reading")
    finally:
        shutil.rmtree(folder)


MSG = {
    "odometry": (fr.Odometry, "nav_msgs/Odometry"),
    "transform": (fr.TransformStamped, "geometry_msgs/TransformStamped"),
    "odometry without header": (fr.HeaderlessOdometry, "nav_msgs/Odometry"),
    "transform without header": (fr.HeaderlessTransform,
                                 "geometry_msgs/TransformStamped"),
}


def record(path, topics):
    """Write a bag with messages of all topics in random recorded order.

    Returns what is expected to be loaded by topic.
    """
    entries, expected = [], {}
    for k, x in enumerate(topics):
        r = m.rng(x["seed"], 9, k)
        n = x["n"]
        d = motion(x["seed"], n, x.get("scale", 3.0))
        t = stamps(x["seed"], n, x["base"])
        if x.get("missing"):
            for v in d.values():
                v[r.random(n) < 0.3] = np.nan
        recorded = np.sort(r.choice(10**6, n, replace=False))
        recorded = 1_500_000_000 + recorded / 1024 + k / 8192
        if x["kind"].startswith("transform"):
            del d["linear_velocity"], d["angular_velocity"]
        cls = MSG[x["kind"]][0]
        for i in range(n):
            msg = cls()
            msg.header.stamp = fr.Time.from_sec(t[i])
            msg.header.frame_id = "world"
            p = fr.Point(*map(float, d["position"][i]))
            o = fr.Quaternion(*map(float, d["orientation"][i][[1, 2, 3, 0]]))
            if x["kind"].startswith("transform"):
                msg.transform.translation = fr.Vector3(p.x, p.y, p.z)
                msg.transform.rotation = o
            else:
                msg.pose.pose = fr.Pose(p, o)
                msg.twist.twist = fr.Twist(
                    fr.Vector3(*map(float, d["linear_velocity"][i])),
                    fr.Vector3(*map(float, d["angular_velocity"][i])))
            entries.append((x["topic"], msg, fr.Time.from_sec(recorded[i])))
        with_header = "without" not in x["kind"]
        expected[x["topic"]] = dict(d, timestamps=t if with_header
                                    else recorded)
    # stored order is not the recorded order
    r = m.rng(topics[0]["seed"], 11)
    with fr.Bag(path, "w") as bag:
        for i in r.permutation(len(entries)):
            bag.write(*entries[i])
        if topics[0]["seed"] % 3 == 0:
            bag.write("/imu", fr.Imu(), fr.Time(1_500_000_001))
    return expected


@st.composite
def topic_specs(draw, names, max_n=8):
    return [dict(
        topic=t, kind=draw(st.sampled_from(
            ["odometry", "odometry", "transform", "transform",
             "odometry without header", "transform without header"])),
        n=draw(st.integers(1, max_n)), seed=draw(m.seeds),
        base=draw(st.sampled_from([0.0, 1e3, 1.6e9])),
        missing=draw(st.sampled_from([False, False, True])),
        scale=draw(st.sampled_from([3.0, 3.0, 1e3, 1e6])),
    ) for t in names]


@st.composite
def recorded_case(draw):
    names = draw(st.permutations(TOPICS))[:draw(st.integers(1, 4))]
    return dict(topics=draw(topic_specs(names)), cache=draw(st.booleans()))


@facet(recorded_case(), quick=320)
def recorded(c, rec):
    """Odometry and transforms recorded by others."""
    rec.note(len(c["topics"]) > 1 or c["topics"][0]["n"] > 1)
    for x in c["topics"]:
        rec.label(x["kind"])
    folder = scratch()
    try:
        path = folder / "rec.bag"
        expected = record(path, c["topics"])
        reader = RosbagReader(path)
        for call in (reader.get_topics_and_types,
                     lambda: reader.load_messages(c["topics"][0]["topic"])):
            raises(call, RuntimeError, what="use outside of the context")
        with reader:
            types = {x["topic"]: MSG[x["kind"]][1] for x in c["topics"]}
            if c["topics"][0]["seed"] % 3 == 0:
                types["/imu"] = "sensor_msgs/Imu"
                raises(lambda: reader.load_messages("/imu"), ValueError,
                       what="unsupported message")
            equal(dict(reader.get_topics_and_types()), types, "topics")
            for topic, exp in expected.items():
                compare(reader.load_messages(topic), exp, topic)
                compare(from_dataset(reader.load_dataset(topic)), exp,
                        f"dataset of {topic}")
        raises(lambda: reader.load_messages(c["topics"][0]["topic"]),
               RuntimeError, what="use after the context")
    finally:
        shutil.rmtree(folder)


# topics that share a cache file are a known finding
CACHED = ["/pose", "/pose/1", "/pose/2", "/camera/odom", "/odom", "/camera"]
RESOLUTION = 1e-4


@st.composite
def file_history(draw):
    bags = []
    for _ in range(draw(st.integers(1, 2))):
        names = draw(st.permutations(CACHED))[:draw(st.integers(1, 3))]
        bags.append(draw(topic_specs(names, 5)))
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        b = draw(st.integers(0, len(bags) - 1))
        steps.append(dict(
            bag=b, topic=draw(st.sampled_from(
                [x["topic"] for x in bags[b]])),
            op=draw(st.sampled_from(["cached", "cached", "load", "export",
                                     "named"])),
            name=draw(st.sampled_from(["x.nc", "new/y.nc", "new/deep/z.nc"])),
            str_=draw(st.booleans()),
        ))
    return dict(bags=bags, steps=steps, bag_name=draw(st.sampled_from(
        ["same.bag", "same.bag", "2020-01-02.orig.bag", ".same.bag",
         "same 1.0.bag", "same.bag.bag"])))


def read_file(path):
    ensure(path.is_file(), "no file %s", path.name)
    with xr.open_dataset(path) as ds:
        return from_dataset(ds.load())


def tree(folder):
    return {str(p.relative_to(folder)) for p in folder.rglob("*")
            if p.is_file()}


@facet(file_history(), quick=400)
def files(c, rec):
    """Cached and exported files."""
    rec.note(len(c["steps"]) > 1)
    for s in c["steps"]:
        rec.label(s["op"])
    rec.label("large values", any(x["scale"] == 1e6 for b in c["bags"]
                                  for x in b))
    root = scratch()
    try:
        paths, expected = [], []
        for i, b in enumerate(c["bags"]):
            (root / f"bag{i}").mkdir()
            paths.append(root / f"bag{i}" / c["bag_name"])
            expected.append(record(paths[-1], b))
        seen = {}
        for s in c["steps"]:
            path, topic = paths[s["bag"]], s["topic"]
            exp = expected[s["bag"]][topic]
            before = tree(root)
            what = f"{s['op']} {topic}"
            new = set()
            with RosbagReader(str(path) if s["str_"] else path) as reader:
                if s["op"] == "load":
                    compare(from_dataset(reader.load_dataset(topic)), exp,
                            what)
                elif s["op"] == "cached":
                    ds = reader.load_dataset(topic, cache=True)
                    got = from_dataset(ds.load())
                    ds.close()
                    compare(got, exp, what, RESOLUTION / 2)
                    key = s["bag"], topic
                    first = seen.setdefault(key, got)
                    for k in first:
                        ensure(np.array_equal(got[k], first[k],
                                              equal_nan=True),
                               "%s of %s is different again", k, what)
                    rec.label("loaded from cache again", first is not got)
                    out = [f for f in tree(root) - before]
                    ensure(all(pathlib.Path(f).parent
                               == pathlib.Path(f"bag{s['bag']}/cache")
                               for f in out), "cache files %s", out)
                    ensure(len(out) == (first is got), "cache files %s", out)
                    new = set(out)
                elif s["op"] == "export":
                    reader.export(topic)
                    f = path.parent / (c["bag_name"][:-4] + ".nc")
                    compare(read_file(f), exp, what, RESOLUTION / 2)
                    new = {str(f.relative_to(root))}
                else:
                    f = root / s["name"]
                    reader.export(topic, str(f) if s["str_"] else f)
                    compare(read_file(f), exp, what, RESOLUTION / 2)
                    new = {s["name"]}
            ensure(tree(root) - before <= new, "%s wrote %s", what,
                   tree(root) - before - new)
            ensure(before <= tree(root), "%s removed files", what)
    finally:
        shutil.rmtree(root)


# --- rejected requests -------------------------------------------------------


@st.composite
def bad_case(draw):
    return dict(n=draw(st.integers(1, 6)), seed=draw(m.seeds),
                fault=draw(st.sampled_from(
                    ["timestamps 2d", "timestamps scalar",
                     "translation length", "translation width",
                     "translation 1d", "rotation length", "rotation width",
                     "rotation 1d", "swapped"])))


@facet(bad_case(), quick=160)
def rejected(c, rec):
    """Arrays of the wrong shape are not written."""
    rec.note()
    rec.label(c["fault"])
    n = c["n"]
    d = motion(c["seed"], n)
    t, p, q = stamps(c["seed"], n, 0.0), d["position"], d["orientation"]
    f = c["fault"]
    if f == "timestamps 2d":
        t = t[:, None]
    elif f == "timestamps scalar":
        t = t[0]
    elif f == "translation length":
        p = np.concatenate((p, p[:1]))
    elif f == "translation width":
        p = q.copy()
    elif f == "translation 1d":
        p = p[0]
    elif f == "rotation length":
        q = np.concatenate((q, q[:1]))
    elif f == "rotation width":
        q = p.copy()
    elif f == "rotation 1d":
        q = q[0]
    else:
        p, q = q, p
    folder = scratch()
    try:
        path = folder / "bad.bag"
        with RosbagWriter(path) as w:
            raises(lambda: w.write_transform_stamped(t, p, q, "/x", "a", "b"),
                   ValueError, what=f)
        with fr.Bag(path) as bag:
            if list(bag.read_messages()):
                fail("messages written in spite of %s", f)
    finally:
        shutil.rmtree(folder)


# --- known findings ----------------------------------------------------------


def _one(topic, seed):
    return [dict(topic=topic, kind="transform", n=3, seed=seed, base=0.0,
                 missing=False, scale=3.0)]


def _cached(path, topic):
    with RosbagReader(path) as reader:
        ds = reader.load_dataset(topic, cache=True)
        out = from_dataset(ds.load())
        ds.close()
    return out


def _two_bags():
    root = scratch()
    try:
        exp = [record(root / f"{i}.bag", _one("/pose", i + 1))
               for i in range(2)]
        for i in range(2):
            compare(_cached(root / f"{i}.bag", "/pose"), exp[i]["/pose"],
                    f"cached /pose of bag {i}", RESOLUTION / 2)
    finally:
        shutil.rmtree(root)


def _two_topics():
    root = scratch()
    try:
        exp = record(root / "0.bag", _one("/pose/1", 1) + _one("/pose_1", 2))
        for topic in exp:
            compare(_cached(root / "0.bag", topic), exp[topic],
                    f"cached {topic}", RESOLUTION / 2)
    finally:
        shutil.rmtree(root)


FINDINGS = {"cache-two-bags": _two_bags, "cache-two-topics": _two_topics}
