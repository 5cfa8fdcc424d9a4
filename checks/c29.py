"""C29: ROS publishers and playback."""

import contextlib
import threading
import warnings

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import fakeros as fr
from lib import model as m
from lib.harness import close, ensure, equal, facet, raises, same_rotation

fr.install()

from rigid_body_motion.ros import (  # noqa: E402
    ReferenceFrameMarkerPublisher,
    ReferenceFrameTransformBroadcaster,
    init_node,
    play_publisher,
)
from rigid_body_motion.ros.visualization import (  # noqa: E402
    BaseMarkerPublisher,
    get_marker,
    hex_to_rgba,
)

PROPERTY = "C29"
RULE = (
    "Frames of trees with static, moving and event-like frames, numeric and "
    "datetime timestamps; histories of publishing (by index or the current "
    "one), spinning in this or another thread (run when the history says "
    "so) until stopped or shut down, incoming messages for several frames, "
    "changes of markers, clicks and player steps. Everything published is "
    "compared with the tree model and the history. Non-trivial: at least two "
    "steps or a moving frame."
)
ASSUMPTIONS = [
    "ROS and ipywidgets are not installed; publishers, clock, subscribers "
    "and widgets are the stand-ins in lib/fakeros.py",
]

DT = ("ns", "ms", "s")


def seconds(base, k):
    k = np.asarray(k, float) * m.tick_seconds(base)
    return k + 1577836800.0 if base in DT else k


@st.composite
def frame_case(draw, kinds=None, max_samples=10, hi=40):
    base = draw(st.sampled_from(["num", "num1", "int", "ns", "ms", "s"]))
    specs = draw(m.tree_spec(
        kinds=kinds or draw(st.sampled_from([
            ("static",), ("moving", "static"), ("moving",), ("moving",),
            ("moving", "discrete"), ("moving", "static", "discrete")])),
        base=base, min_frames=2, max_frames=5, hi=hi,
        max_samples=max_samples))
    a, b = draw(m.pair(len(specs)))
    if a == 0 and draw(st.integers(0, 3)):
        a, b = b, a
    return dict(base=base, specs=specs, a=a, b=b,
                parent=a != 0 and draw(st.integers(0, 3)) == 0,
                names=draw(st.booleans()))


class World:
    """Frames of a case and what is expected of them."""

    def __init__(self, c):
        fr.world.reset()
        self.c = c
        specs = c["specs"]
        self.a = c["a"]
        self.b = specs[self.a]["parent"] if c["parent"] else c["b"]
        self.rfs = m.build(specs, c["base"])
        self.ticks = m.lookup_ticks(specs, self.a, self.b)
        self.static = self.ticks is None
        self.n = 1 if self.static else len(self.ticks)
        self.T, self.Q = m.compose(specs, self.a, self.b,
                                   [0] if self.static else self.ticks)
        self.stamps = [0.0] if self.static else seconds(
            c["base"], self.ticks)
        self.frame = self.rfs[self.a].name
        self.base = self.rfs[self.b].name

    def args(self):
        out = [m.fref(self.rfs, self.a, self.c["names"])]
        if not self.c["parent"]:
            out.append(m.fref(self.rfs, self.b, self.c["names"]))
        return out

    @property
    def kinds(self):
        up, down = m.path(self.c["specs"], self.a, self.b)
        return {self.c["specs"][i]["kind"] for i in up + down}


def stamp(msg, expected, what):
    got = msg.header.stamp.to_sec()
    ensure(abs(got - expected) <= 1e-6, "%s: stamp %r, expected %r", what,
           got, expected)


def v(o):
    return [o.x, o.y, o.z]


def q(o):
    return [o.w, o.x, o.y, o.z]


def is_transform(w, entry, i, what):
    """Published entry is the transform at index i."""
    topic, msg = entry
    equal(topic, "/tf_static" if w.static else "/tf", f"{what} topic")
    ensure(len(msg.transforms) == 1, "%s: %d transforms", what,
           len(msg.transforms))
    msg = msg.transforms[0]
    equal(msg.header.frame_id, w.base, f"{what} frame")
    equal(msg.child_frame_id, w.frame, f"{what} child frame")
    close(v(msg.transform.translation), w.T[i], 1e-9, f"{what} translation")
    same_rotation(q(msg.transform.rotation), w.Q[i], 1e-9,
                  f"{what} rotation")
    stamp(msg, w.stamps[i], what)


def indices(w, entries):
    """Index of each published transform, by its stamp."""
    out = []
    for k, e in enumerate(entries):
        i = int(np.argmin(np.abs(
            np.asarray(w.stamps)
            - e[1].transforms[0].header.stamp.to_sec())))
        is_transform(w, e, i, f"message {k}")
        out.append(i)
    return out


def is_pose(w, entry, i, what):
    topic, msg = entry
    equal(topic, f"/{w.frame}/pose", f"{what} topic")
    equal(type(msg).__name__, "PoseStamped", f"{what} type")
    equal(msg.header.frame_id, w.base, f"{what} frame")
    close(v(msg.pose.position), w.T[i], 1e-9, f"{what} position")
    same_rotation(q(msg.pose.orientation), w.Q[i], 1e-9,
                  f"{what} orientation")
    stamp(msg, w.stamps[i], what)


def is_twist(w, entry, i, what, linear, angular):
    topic, msg = entry
    equal(topic, f"/{w.frame}/twist", f"{what} topic")
    equal(type(msg).__name__, "TwistStamped", f"{what} type")
    equal(msg.header.frame_id, w.frame, f"{what} frame")
    close(v(msg.twist.linear), linear[i], 1e-9, f"{what} linear", nan=True)
    close(v(msg.twist.angular), angular[i], 1e-9, f"{what} angular",
          nan=True)
    stamp(msg, w.stamps[i], what)


# --- broadcaster -------------------------------------------------------------


@st.composite
def broadcast_case(draw):
    long = draw(st.booleans())
    c = draw(frame_case(
        kinds=("moving", "moving", "static") if long else None,
        max_samples=40 if long else 10, hi=60 if long else 40))
    c["pose"] = draw(st.booleans())
    c["twist"] = draw(st.booleans())
    c["outlier"] = draw(st.sampled_from([None, None, 0.5, 2.0]))
    c["cutoff"] = draw(st.sampled_from([None, None, 0.2, 0.5]))
    c["steps"] = draw(st.lists(
        st.one_of(st.none(), st.integers(0, 40)), min_size=1, max_size=6))
    c["current"] = draw(st.one_of(st.none(), st.integers(0, 40)))
    return c


@facet(broadcast_case(), quick=800)
def broadcast(c, rec):
    w = World(c)
    if not w.static and w.n == 0:
        rec.label("never defined")
        return
    kw = {}
    twist = c["twist"] and w.n >= 6 and w.kinds <= {"moving", "static"}
    if twist:
        kw["publish_twist"] = True
        if c["outlier"]:
            kw["twist_outlier_thresh"] = c["outlier"]
        if c["cutoff"] and w.n >= 26:
            kw["twist_cutoff"] = c["cutoff"]
        ref = rbm.lookup_twist(
            w.rfs[w.a], w.rfs[w.b], w.rfs[w.a], return_timestamps=True,
            outlier_thresh=kw.get("twist_outlier_thresh"),
            cutoff=kw.get("twist_cutoff"))
        equal(m.from_time(c["base"], ref[2]), w.ticks, "twist timestamps")
        rec.label("filtered twist", len(kw) > 1)
    if c["pose"]:
        kw["publish_pose"] = True
    b = ReferenceFrameTransformBroadcaster(*w.args(), **kw)
    rec.note(not w.static or len(w.kinds) > 1)
    rec.label("static", w.static)
    rec.label("pose", c["pose"])
    rec.label("twist", bool(twist))
    rec.label("default base", c["parent"])
    rec.label("discrete", "discrete" in w.kinds)
    ensure(not fr.world.published, "published on construction")
    current = 0
    if c["current"] is not None:
        current = b.idx = c["current"] % w.n
        rec.label("other current index", current > 0)
    for k, idx in enumerate(c["steps"]):
        fr.world.published.clear()
        if idx is None:
            b.publish()
            i = current
        else:
            i = idx % w.n
            rec.label("first sample by index", i == 0)
            if k % 2:
                b.publish(i)
            else:
                b.publish(idx=i)
        by_topic = {}
        for e in fr.world.published:
            by_topic.setdefault(e[0], []).append(e)
        what = f"publish({idx if idx is None else i})"
        exp = {"/tf_static" if w.static else "/tf"}
        exp |= {f"/{w.frame}/pose"} if c["pose"] else set()
        exp |= {f"/{w.frame}/twist"} if twist else set()
        ensure({t: len(x) for t, x in by_topic.items()}
               == dict.fromkeys(exp, 1), "%s: published on %s, expected %s",
               what, {t: len(x) for t, x in by_topic.items()}, exp)
        is_transform(w, by_topic["/tf_static" if w.static else "/tf"][0], i,
                     what)
        if c["pose"]:
            is_pose(w, by_topic[f"/{w.frame}/pose"][0], i, what + " pose")
        if twist:
            is_twist(w, by_topic[f"/{w.frame}/twist"][0], i,
                     what + " twist", *ref[:2])


# --- spinning ----------------------------------------------------------------


@contextlib.contextmanager
def held_threads():
    """Threads are collected instead of started."""
    held, start = [], threading.Thread.start
    threading.Thread.start = lambda self: held.append(self)
    try:
        yield held
    finally:
        threading.Thread.start = start


class Runaway(Exception):
    pass


@st.composite
def spin_case(draw):
    c = draw(frame_case())
    c["rounds"] = draw(st.lists(st.fixed_dictionaries(dict(
        block=st.booleans(), count=st.integers(1, 25),
        how=st.sampled_from(["stop", "stop", "shutdown", "early"]),
        publish=st.sampled_from([None, None, 0, 3]))),
        min_size=1, max_size=4))
    return c


def run_spin(obj, r, count, log):
    """Spin until stopped after count sleeps; returns number expected."""
    fr.world.shutdown = False

    def on_sleep():
        log.append(len(fr.world.published))
        if len(log) > count + 200:
            raise Runaway
        if len(log) == count:
            if r["how"] == "shutdown":
                fr.world.shutdown = True
            else:
                obj.stop()

    fr.world.on_sleep = on_sleep
    try:
        if r["block"]:
            obj.spin(block=True)
            return count
        with held_threads() as held:
            thread = obj.spin()
            ensure(len(held) == 1, "%d threads started", len(held))
            ensure(thread is held[0], "spin returned %r", thread)
            if r["how"] == "early":
                obj.stop()
            thread.run()
        return 0 if r["how"] == "early" else count
    except Runaway:
        ensure(False, "keeps spinning after %s", r["how"])
    finally:
        fr.world.on_sleep = None


@facet(spin_case(), quick=640)
def spin(c, rec):
    """All samples in order until stopped."""
    w = World(c)
    if not w.static and w.n == 0:
        rec.label("never defined")
        return
    b = ReferenceFrameTransformBroadcaster(*w.args())
    if w.static:
        rec.label("static")
        for _ in c["rounds"]:
            fr.world.published.clear()
            b.spin()
            equal(indices(w, fr.world.published), [0], "static transform")
        return
    rec.note(w.n > 1)
    current = 0
    for r in c["rounds"]:
        rec.label(f"{r['how']} {'blocking' if r['block'] else 'thread'}")
        if r["publish"] is not None:
            fr.world.published.clear()
            b.publish(r["publish"] % w.n)
            equal(indices(w, fr.world.published), [r["publish"] % w.n],
                  "transform published in between")
        fr.world.published.clear()
        fr.world.slept.clear()
        log = []
        count = run_spin(b, r, r["count"], log)
        got = indices(w, fr.world.published)
        exp = [(current + i) % w.n for i in range(count)]
        equal(got, exp, "published samples")
        rec.label("wrapped", len(exp) > 0 and 0 in exp[1:])
        equal(log, list(range(1, count + 1)), "published before sleeping")
        for i, slept in zip(exp, fr.world.slept):
            ensure(slept >= 0, "slept %g", slept)
            if i + 1 < w.n:
                dt = w.stamps[i + 1] - w.stamps[i]
                ensure(abs(slept - dt) <= 2e-6, "slept %g after sample %d, "
                       "expected %g", slept, i, dt)
        current = (current + count) % w.n
        ensure(b.stopped or fr.world.shutdown, "not stopped")
        fr.world.shutdown = False
        fr.world.published.clear()
        b.publish()
        equal(indices(w, fr.world.published), [current], "current sample")


# --- subscribing -------------------------------------------------------------


@st.composite
def subscribe_case(draw):
    c = draw(frame_case(kinds=draw(st.sampled_from(
        [("static",), ("moving",), ("moving",), ("moving", "static")]))))
    c["to"] = draw(st.sampled_from([True, "custom", "f0"]))
    c["pose"] = draw(st.booleans())
    c["messages"] = draw(st.lists(st.lists(st.fixed_dictionaries(dict(
        child=st.sampled_from(["base", "base", "base", "frame", "custom",
                               "f0", "f1", ">", "<", "=", "-"]),
        index=st.integers(-2, 20), off=st.integers(-40, 40))),
        max_size=3), min_size=1, max_size=6))
    c["spin"] = draw(st.fixed_dictionaries(dict(
        block=st.booleans(),
        how=st.sampled_from(["stop", "stop", "shutdown", "early"]))))
    return c


@facet(subscribe_case(), quick=640)
def subscribe(c, rec):
    """The sample nearest to an incoming message."""
    w = World(c)
    if not w.static and w.n == 0:
        rec.label("never defined")
        return
    listen = w.base if c["to"] is True else c["to"]
    b = ReferenceFrameTransformBroadcaster(
        *w.args(), publish_pose=c["pose"], subscribe=c["to"])
    subs = fr.world.subscribers.get("/tf", [])
    ensure(len(subs) == 1, "%d subscribers", len(subs))
    rec.label("static", w.static)
    rec.label(f"listens to {c['to']}")
    matches = [0]

    def deliver(transforms):
        msg, exp = fr.tfMessage(), []
        for x in transforms:
            t = fr.TransformStamped()
            t.child_frame_id = {
                "base": w.base, "frame": w.frame, "<": listen + "_x",
                ">": "x_" + listen, "=": listen.upper(), "-": listen[:-1],
            }.get(x["child"], x["child"])
            i = 0
            if w.static:
                sec = 5.0
            elif x["index"] < 0:
                sec = max(w.stamps[0] - (x["index"] == -1) * 0.9
                          * m.tick_seconds(c["base"]), 0.0)
            elif x["index"] >= w.n:
                i = w.n - 1
                sec = w.stamps[i] + x["index"] - 0.5
            else:
                i, f = x["index"], x["off"] / 100
                j = i + 1 if f > 0 else i - 1
                sec = w.stamps[i]
                if 0 <= j < w.n:
                    sec += abs(f) * (w.stamps[j] - sec)
            t.header.stamp = fr.Time.from_sec(float(sec))
            t.header.frame_id = "elsewhere"
            msg.transforms.append(t)
            if t.child_frame_id == listen:
                exp.append(i)
            else:
                rec.label("other frame")
        fr.world.published.clear()
        subs[0].callback(msg)
        tf = [e for e in fr.world.published if e[0].startswith("/tf")]
        poses = [e for e in fr.world.published if e[0].endswith("/pose")]
        ensure(len(tf) == len(exp), "%d transforms published, expected %d",
               len(tf), len(exp))
        ensure(len(poses) == len(exp) * c["pose"], "%d poses published",
               len(poses))
        for k, i in enumerate(exp):
            is_transform(w, tf[k], i, f"transform for sample {i}")
            if c["pose"]:
                is_pose(w, poses[k], i, f"pose for sample {i}")
        matches[0] += len(exp)
        fr.world.published.clear()

    half = len(c["messages"]) // 2
    for transforms in c["messages"][:half]:
        deliver(transforms)
    if not w.static:
        # the others while it is waiting
        waiting(b, c["spin"], c["messages"][half:], deliver, rec)
    else:
        for transforms in c["messages"][half:]:
            deliver(transforms)
    rec.note(matches[0] > 1)
    rec.label("several matches", matches[0] > 1)


def waiting(b, r, messages, deliver, rec):
    """Messages arrive while the broadcaster spins."""
    fr.world.shutdown = False
    todo = list(messages)
    early = r["how"] == "early" and not r["block"]
    rec.label(f"spinning until {r['how']}")

    def on_sleep():
        ensure(not fr.world.published, "publishes without a message")
        if todo:
            deliver(todo.pop(0))
        elif r["how"] == "shutdown":
            fr.world.shutdown = True
        else:
            b.stop()

    fr.world.on_sleep = on_sleep
    try:
        if r["block"]:
            b.spin(block=True)
        else:
            with held_threads() as held:
                thread = b.spin()
                ensure(held == [thread], "spin returned %r", thread)
                if early:
                    b.stop()
                thread.run()
    finally:
        fr.world.on_sleep = None
        fr.world.shutdown = False
    ensure(not fr.world.published, "publishes without a message")
    ensure(early or not todo, "stopped spinning without being told to")


# --- markers -----------------------------------------------------------------


@st.composite
def marker_case(draw):
    c = draw(frame_case(max_samples=30, hi=60))
    c["max"] = draw(st.one_of(st.none(), st.integers(1, 35)))
    c["topic"] = draw(st.sampled_from([None, "/some/topic"]))
    c["scale"] = draw(st.sampled_from([None, 0.25, 1.0]))
    c["color"] = draw(st.one_of(st.none(), colors))
    c["steps"] = draw(st.lists(st.sampled_from(
        ["publish", "publish", "color", "restore", "points", "spin",
         "thread", "early"]), min_size=1, max_size=8))
    return c


colors = st.lists(st.integers(0, 255), min_size=4, max_size=4)


def hexa(rgba):
    return "#" + "".join(f"{x:02x}" for x in rgba)


def is_color(c, rgba, what):
    close([c.r, c.g, c.b, c.a], np.array(rgba) / 255, 1e-12, what)


def run_history(pub, topic, steps, interval, rec):
    """Published only when the message changed."""
    last = None
    original = pub.marker.color
    expected = []

    def now():
        return fr._copy(pub.marker)

    def step():
        nonlocal last
        if last is None or now() != last:
            last = now()
            expected.append(last)

    for k, s in enumerate(steps):
        rec.label(s)
        if s == "publish":
            pub.publish()
            step()
        elif s == "color":
            pub.marker.color = fr.ColorRGBA(0.5, k / 10, 0.0, 1.0)
        elif s == "restore":
            pub.marker.color = original
        elif s == "points":
            pub.marker.points = [fr.Point(float(k), 0.0, 0.0)]
        else:
            fr.world.slept.clear()
            count = 3
            r = dict(block=s == "spin",
                     how="early" if s == "early" else "stop")
            count = run_spin(pub, r, count, [])
            for _ in range(count):
                step()
            ensure(len(fr.world.slept) == count, "slept %s",
                   fr.world.slept)
            ensure(all(x == interval for x in fr.world.slept), "slept %s",
                   fr.world.slept)
        ensure(len(fr.world.published) == len(expected),
               "%d markers published after %s, expected %d",
               len(fr.world.published), steps[:k + 1], len(expected))
        for (t, msg), e in zip(fr.world.published, expected):
            equal(t, topic, "topic")
            ensure(msg == e, "published another marker")


@facet(marker_case(), quick=640)
def frame_marker(c, rec):
    """Markers with the positions of a frame."""
    w = World(c)
    if not w.static and w.n == 0:
        rec.label("never defined")
        return
    kw = {k: c[k] for k in ("topic", "scale") if c[k] is not None}
    if c["max"] is not None:
        kw["max_points"] = c["max"]
    if c["color"] is not None:
        kw["color"] = hexa(c["color"])
    pub = ReferenceFrameMarkerPublisher(*w.args(), publish_interval=0.25,
                                        **kw)
    topic = c["topic"] or f"/{w.frame}/path"
    rec.note(w.n > 1)
    rec.label("static", w.static)
    mk = pub.marker
    most = 1000 if c["max"] is None else c["max"]
    pts = [v(p) for p in mk.points]
    rec.label("sub-sampled", w.n > most)
    ensure(1 <= len(pts) <= most, "%d points of %d, at most %d", len(pts),
           w.n, most)
    step = 1
    if w.n > most:
        ensure(len(pts) >= most / 2 or len(pts) == 1, "only %d points of %d,"
               " %d allowed", len(pts), w.n, most)
        steps = [i for i in range(1, w.n + 1)
                 if len(range(0, w.n, i)) == len(pts)]
        ensure(steps, "%d points of %d are not evenly sub-sampled", len(pts),
               w.n)
        step = min(steps, key=lambda i: np.max(np.abs(w.T[::i] - pts)))
    close(pts, w.T[::step], 1e-9, "points")
    equal(mk.header.frame_id, w.base, "frame")
    equal(mk.type, fr.Marker.LINE_STRIP, "type")
    is_color(mk.color, c["color"] or [255] * 4, "color")
    close(mk.scale.x, 0.1 if c["scale"] is None else c["scale"], 1e-12,
          "scale")
    close(v(mk.pose.position), [0, 0, 0], 0, "position")
    close(q(mk.pose.orientation), [1, 0, 0, 0], 0, "orientation")
    ensure(not fr.world.published, "published on construction")
    widget = pub.get_ros3d_widget()
    equal(widget.topic, topic, "widget topic")
    equal(widget.tf_client.fixed_frame, w.base, "fixed frame")
    run_history(pub, topic, c["steps"], 0.25, rec)


@st.composite
def any_marker(draw):
    return dict(
        type=draw(st.sampled_from([None] + list(range(9)))),
        frame=draw(st.sampled_from([None, "map", "head"])),
        scale=draw(st.one_of(st.none(), st.floats(0.01, 10), m.vec3)),
        color=draw(st.one_of(st.none(), colors)),
        upper=draw(st.booleans()), hash=draw(st.booleans()),
        position=draw(st.one_of(st.none(), m.vec3)),
        orientation=draw(st.one_of(st.none(), m.quat)),
        steps=draw(st.lists(st.sampled_from(
            ["publish", "color", "restore", "points", "spin", "thread"]),
            min_size=1, max_size=5)),
    )


@facet(any_marker(), quick=480)
def marker(c, rec):
    """Markers with any content."""
    fr.world.reset()
    rec.note(c["type"] is not None or c["scale"] is not None)
    rec.label(f"type {c['type']}")
    kw = {}
    if c["type"] is not None:
        kw["marker_type"] = c["type"]
    for k, name in (("frame", "frame_id"), ("scale", "scale"),
                    ("position", "position"), ("orientation",
                                               "orientation")):
        if c[k] is not None:
            kw[name] = c[k]
    rgba = c["color"] or [255] * 4
    if c["color"] is not None:
        h = hexa(rgba)
        h = h.upper() if c["upper"] else h
        kw["color"] = h if c["hash"] else h[1:]
        is_color(hex_to_rgba(kw["color"]), rgba, "color message")
    mk = get_marker(**kw)
    equal(mk.type, fr.Marker.LINE_STRIP if c["type"] is None else c["type"],
          "type")
    equal(mk.header.frame_id, c["frame"] or "world", "frame")
    s = c["scale"]
    close(v(mk.scale), [1.0] * 3 if s is None else
          [s] * 3 if isinstance(s, float) else s, 0, "scale")
    is_color(mk.color, rgba, "color")
    close(v(mk.pose.position), c["position"] or [0.0] * 3, 0, "position")
    o = mk.pose.orientation
    close([o.x, o.y, o.z, o.w], c["orientation"] or [0.0, 0, 0, 1], 0,
          "orientation")
    pub = BaseMarkerPublisher(mk, "/m", publish_interval=0.5)
    run_history(pub, "/m", c["steps"], 0.5, rec)


# --- playback ----------------------------------------------------------------


class Source:
    """Anything with a publish method."""

    def __init__(self, timestamps=None):
        self.log = []
        if timestamps is not None:
            self.timestamps = timestamps

    def publish(self, idx):
        self.log.append(idx)


@st.composite
def playback_case(draw):
    base = draw(st.sampled_from(["num", "num1", "int", "ns", "ms", "s"]))
    return dict(
        base=base, ticks=draw(m.tick_list(1, 60, 2, 30)),
        unit=draw(st.sampled_from(m.base_units(base))),
        own=draw(st.booleans()), index=draw(st.booleans()),
        step=draw(st.sampled_from([None, 1, 2, 3, 7])),
        speed=draw(st.sampled_from([None, 1.0, 0.5, 2.0, 10.0])),
        skip=draw(st.sampled_from([None, 1, 2, 5, 40])),
        acts=draw(st.lists(st.one_of(
            st.sampled_from(["forward", "back", "forward", "back", "play"]),
            st.integers(-3, 40)), max_size=12)),
    )


@facet(playback_case(), quick=640)
def playback(c, rec):
    import pandas as pd

    fr.world.reset()
    ts = m.to_time(c["base"], c["ticks"], c["unit"])
    if c["index"]:
        ts = pd.Index(ts)
    src = Source(ts if c["own"] else None)
    kw = {k: c[k] for k in ("step", "speed", "skip") if c[k] is not None}
    if not c["own"]:
        kw["timestamps"] = ts
    play_publisher(src, **kw)
    step, speed = c["step"] or 1, c["speed"] or 1.0
    jump = c["skip"] or step
    n = len(c["ticks"])
    boxes = [x for x in fr.world.displayed if isinstance(x, fr.HBox)]
    ensure(len(boxes) == 1, "displayed %s", fr.world.displayed)
    kids = boxes[0].children
    slider, = [x for x in kids if type(x) is fr.IntSlider]
    play, = [x for x in kids if type(x) is fr.Play]
    buttons = {x.kwargs["description"]: x for x in kids
               if isinstance(x, fr.Button)}
    ensure((slider.min, slider.max) == (0, n - 1), "slider range %s",
           (slider.min, slider.max))
    ensure((play.min, play.max) == (0, n - 1), "player range %s",
           (play.min, play.max))
    equal(play.step, step, "player step")
    dt = (c["ticks"][-1] - c["ticks"][0]) / (n - 1) * m.tick_seconds(
        c["base"]) * 1e3 / speed * step
    ensure(abs(play.interval - dt) <= 1.01, "player interval %g ms, expected "
           "%g", play.interval, dt)
    rec.note(len(c["acts"]) > 1)
    rec.label("own timestamps", c["own"])
    pos, exp = 0, [0]
    for a in c["acts"]:
        if a == "forward":
            buttons["►►"].click()
            pos = min(pos + jump, n - 1)
        elif a == "back":
            buttons["◄◄"].click()
            rec.label("back at the end", pos == n - 1)
            pos = max(pos - jump, 0)
        elif a == "play":
            play.value += step
            pos = min(pos + step, n - 1)
        else:
            slider.value = a
            pos = min(max(a, 0), n - 1)
        if pos != exp[-1]:
            exp.append(pos)
        equal(slider.value, pos, f"position after {a}")
        equal(play.value, pos, f"player position after {a}")
    equal(src.log, exp, "published")


# --- node --------------------------------------------------------------------


@facet(st.fixed_dictionaries(dict(
    running=st.booleans(), start=st.sampled_from([None, False, True]),
    name=st.sampled_from(["node", "rbm", "x"]))), quick=24, shards=1)
def node(c, rec):
    """Starting a node with and without master."""
    fr.world.reset()
    fr.world.master_running = c["running"]
    kw = {} if c["start"] is None else {"start_master": c["start"]}
    rec.note()
    if not c["running"] and not c["start"]:
        raises(lambda: init_node(c["name"], **kw), RuntimeError,
               what="node without master")
        equal(fr.world.nodes, [], "nodes")
        equal(len(fr.world.masters), 0, "masters")
        return
    master = init_node(c["name"], **kw)
    equal(fr.world.nodes, [c["name"]], "nodes")
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        master.shutdown()
    if c["running"]:
        equal(len(fr.world.masters), 0, "masters")
        ensure(len(caught) == 1, "%d warnings", len(caught))
    else:
        ensure(fr.world.masters == [master], "masters")
        ensure(master.log == ["start", "shutdown"], "master %s", master.log)
        ensure(not caught, "warnings")
