"""Stand-ins for the ROS packages, which are not installed here.

They follow the documented behaviour of rospy/genpy (times are truncated to
nanoseconds, messages take all or no positional arguments), rosbag (messages
in order of the time they were recorded at), tf2 (interpolation between
samples, cache of limited duration, time zero means latest) and ipywidgets
(bounded slider values, observers). The arithmetic is from lib/model.py.
"""

import pickle
import struct
import sys
import types

import numpy as np

from lib import model as m

# --- time --------------------------------------------------------------------


class TVal:
    def __init__(self, secs=0, nsecs=0):
        n = int(secs) * 10**9 + int(nsecs)
        self.ns = n
        self.secs, self.nsecs = n // 10**9, n % 10**9

    def __bool__(self):
        return self.ns != 0

    @classmethod
    def from_sec(cls, float_secs):
        secs = int(float_secs)
        nsecs = int((float_secs - secs) * 1000000000)
        return cls(secs, nsecs)

    def to_sec(self):
        return float(self.secs) + float(self.nsecs) / 1e9

    def to_nsec(self):
        return self.ns

    def is_zero(self):
        return self.ns == 0

    def __eq__(self, other):
        return isinstance(other, TVal) and self.ns == other.ns

    def __lt__(self, other):
        return self.ns < other.ns

    def __hash__(self):
        return hash(self.ns)

    def __repr__(self):
        return f"{type(self).__name__}({self.secs}, {self.nsecs})"


class Time(TVal):
    def __init__(self, secs=0, nsecs=0):
        super().__init__(secs, nsecs)
        if self.ns < 0:
            raise TypeError("time values must be positive")


class Duration(TVal):
    pass


# --- messages ----------------------------------------------------------------


class Message:
    _type = ""
    _fields = {}

    def __init__(self, *args, **kwargs):
        names = list(self._fields)
        if args and kwargs:
            raise TypeError("either positional or keyword arguments")
        if args and len(args) != len(names):
            raise TypeError(
                f"Invalid number of arguments, args should be {names} args "
                f"are {args}")
        for n, make in self._fields.items():
            setattr(self, n, make())
        for n, v in list(zip(names, args)) + list(kwargs.items()):
            if n not in self._fields:
                raise AttributeError(n)
            setattr(self, n, v)

    @property
    def _has_header(self):
        return "header" in self._fields

    def serialize(self, buff):
        for n in self._fields:
            _serialize(getattr(self, n), buff)

    def __eq__(self, other):
        return type(self) is type(other) and all(
            getattr(self, n) == getattr(other, n) for n in self._fields)

    def __repr__(self):
        return f"{type(self).__name__}({', '.join(f'{n}={getattr(self, n)!r}' for n in self._fields)})"  # noqa


def _serialize(v, buff):
    if isinstance(v, Message):
        v.serialize(buff)
    elif isinstance(v, TVal):
        buff.write(struct.pack("<q", v.ns))
    elif isinstance(v, str):
        b = v.encode()
        buff.write(struct.pack("<I", len(b)) + b)
    elif isinstance(v, (list, tuple)):
        buff.write(struct.pack("<I", len(v)))
        for x in v:
            _serialize(x, buff)
    else:
        buff.write(struct.pack("<d", float(v)))


def _message(name, type_, **fields):
    cls = type(name, (Message,), {"_type": type_, "_fields": fields,
                                  "__module__": __name__})
    globals()[name] = cls
    return cls


Header = _message("Header", "std_msgs/Header", seq=int, stamp=Time,
                  frame_id=str)
ColorRGBA = _message("ColorRGBA", "std_msgs/ColorRGBA", r=float, g=float,
                     b=float, a=float)
Vector3 = _message("Vector3", "geometry_msgs/Vector3", x=float, y=float,
                   z=float)
Point = _message("Point", "geometry_msgs/Point", x=float, y=float, z=float)
Quaternion = _message("Quaternion", "geometry_msgs/Quaternion", x=float,
                      y=float, z=float, w=float)
Transform = _message("Transform", "geometry_msgs/Transform",
                     translation=Vector3, rotation=Quaternion)
Pose = _message("Pose", "geometry_msgs/Pose", position=Point,
                orientation=Quaternion)
Twist = _message("Twist", "geometry_msgs/Twist", linear=Vector3,
                 angular=Vector3)
TransformStamped = _message(
    "TransformStamped", "geometry_msgs/TransformStamped", header=Header,
    child_frame_id=str, transform=Transform)
PoseStamped = _message("PoseStamped", "geometry_msgs/PoseStamped",
                       header=Header, pose=Pose)
TwistStamped = _message("TwistStamped", "geometry_msgs/TwistStamped",
                        header=Header, twist=Twist)
Vector3Stamped = _message("Vector3Stamped", "geometry_msgs/Vector3Stamped",
                          header=Header, vector=Vector3)
PointStamped = _message("PointStamped", "geometry_msgs/PointStamped",
                        header=Header, point=Point)
QuaternionStamped = _message(
    "QuaternionStamped", "geometry_msgs/QuaternionStamped", header=Header,
    quaternion=Quaternion)
PoseWithCovariance = _message(
    "PoseWithCovariance", "geometry_msgs/PoseWithCovariance", pose=Pose,
    covariance=list)
TwistWithCovariance = _message(
    "TwistWithCovariance", "geometry_msgs/TwistWithCovariance", twist=Twist,
    covariance=list)
Odometry = _message(
    "Odometry", "nav_msgs/Odometry", header=Header, child_frame_id=str,
    pose=PoseWithCovariance, twist=TwistWithCovariance)
Imu = _message("Imu", "sensor_msgs/Imu", header=Header)
tfMessage = _message("tfMessage", "tf/tfMessage", transforms=list)
Marker = _message(
    "Marker", "visualization_msgs/Marker", header=Header, ns=str, id=int,
    type=int, action=int, pose=Pose, scale=Vector3, color=ColorRGBA,
    points=list)
for _i, _n in enumerate(
    ["ARROW", "CUBE", "SPHERE", "CYLINDER", "LINE_STRIP", "LINE_LIST",
     "CUBE_LIST", "SPHERE_LIST", "POINTS"]
):
    setattr(Marker, _n, _i)


class HeaderlessTransform(TransformStamped):
    """Message recorded without a header."""

    _has_header = False


class HeaderlessOdometry(Odometry):
    _has_header = False


# --- rospy -------------------------------------------------------------------


class World:
    """State of the fake ROS system."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.published = []  # (topic, message)
        self.subscribers = {}
        self.slept = []
        self.on_sleep = None
        self.shutdown = False
        self.spun = 0
        self.master_running = True
        self.nodes = []
        self.masters = []
        self.displayed = []
        self.links = []


world = World()


class Publisher:
    def __init__(self, name, data_class, subscriber_listener=None,
                 tcp_nodelay=False, latch=False, headers=None,
                 queue_size=None):
        self.name, self.data_class = name, data_class
        self.latch, self.queue_size = latch, queue_size

    def publish(self, msg):
        if not isinstance(msg, self.data_class):
            raise TypeError(f"{self.data_class.__name__} expected")
        if len(world.published) > 20000:
            raise RuntimeError("endless publishing")
        world.published.append((self.name, _copy(msg)))


def _copy(msg):
    return pickle.loads(pickle.dumps(msg))


class Subscriber:
    def __init__(self, name, data_class, callback=None, **kwargs):
        self.name = name
        self.callback = callback
        world.subscribers.setdefault(name, []).append(self)


def sleep(duration):
    if len(world.slept) > 20000:
        raise RuntimeError("endless sleeping")
    world.slept.append(float(duration))
    if world.on_sleep is not None:
        world.on_sleep()


def spin():
    """Wait for shutdown."""
    world.spun += 1
    while not world.shutdown:
        sleep(0.5)


class _Master:
    def getPid(self):
        if not world.master_running:
            raise ConnectionRefusedError
        return 1, "", 1


class ROSLaunchParent:
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs
        self.log = []
        world.masters.append(self)

    def start(self):
        world.master_running = True
        self.log.append("start")

    def shutdown(self):
        self.log.append("shutdown")


# --- rosbag ------------------------------------------------------------------


class TopicTuple(tuple):
    msg_type = property(lambda s: s[0])
    message_count = property(lambda s: s[1])
    connections = property(lambda s: s[2])
    frequency = property(lambda s: s[3])


class TypesAndTopics(tuple):
    msg_types = property(lambda s: s[0])
    topics = property(lambda s: s[1])


class ROSBagUnindexedException(ValueError):
    """The bag was not closed after writing."""


class Bag:
    """Messages in a pickle file."""

    clock = 0
    handles = set()

    def __init__(self, f, mode="r"):
        self.path, self.mode = str(f), mode
        self.closed = False
        if mode == "r":
            with open(self.path, "rb") as fh:
                data = fh.read()
            if not data:
                raise ROSBagUnindexedException("Unindexed bag")
            self.messages = pickle.loads(data)
        elif mode == "w":
            self.messages = []
            open(self.path, "wb").close()
        else:
            raise ValueError(mode)
        Bag.handles.add(self)

    def write(self, topic, msg, t=None, raw=False):
        if self.closed or self.mode != "w":
            raise ValueError("I/O operation on closed bag")
        if t is None:
            Bag.clock += 1
            t = Time(1600000000 + Bag.clock)
        self.messages.append((topic, _copy(msg), t))

    def read_messages(self, topics=None):
        if self.closed:
            raise ValueError("I/O operation on closed bag")
        if isinstance(topics, str):
            topics = [topics]
        for topic, msg, t in sorted(self.messages, key=lambda x: x[2].ns):
            if topics is None or topic in topics:
                yield topic, _copy(msg), t

    def get_type_and_topic_info(self, topic_filters=None):
        if self.closed:
            raise ValueError("I/O operation on closed bag")
        if isinstance(topic_filters, str):
            topic_filters = [topic_filters]
        topics = {}
        for topic, msg, _ in self.messages:
            if topic_filters is None or topic in topic_filters:
                n = topics[topic][1] if topic in topics else 0
                topics[topic] = TopicTuple((msg._type, n + 1, 1, None))
        return TypesAndTopics((
            {t[0]: "md5" for t in topics.values()}, topics))

    def close(self):
        if self.mode == "w" and not self.closed:
            with open(self.path, "wb") as fh:
                pickle.dump(self.messages, fh)
        self.closed = True
        Bag.handles.discard(self)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


# --- tf2 ---------------------------------------------------------------------


class TransformException(Exception):
    pass


class LookupException(TransformException):
    pass


class ConnectivityException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class InvalidArgumentException(TransformException):
    pass


def _xyz(v):
    return np.array([v.x, v.y, v.z], float)


def _wxyz(q):
    return np.array([q.w, q.x, q.y, q.z], float)


class _Samples:
    """One frame's history."""

    def __init__(self, parent, static):
        self.parent, self.static, self.data = parent, static, {}

    def add(self, ns, t, q, keep):
        if self.data and not self.static:
            latest = max(self.data)
            if latest > ns + keep:
                return
        self.data[ns] = (t, q)
        latest = max(self.data)
        for k in [k for k in self.data if k + keep < latest]:
            del self.data[k]

    def at(self, ns):
        if self.static:
            return next(iter(self.data.values()))
        times = sorted(self.data)
        if ns == 0:
            return self.data[times[-1]]
        if ns in self.data:
            return self.data[ns]
        if len(times) == 1:
            raise ExtrapolationException("only one sample")
        if not times[0] <= ns <= times[-1]:
            raise ExtrapolationException(
                f"{ns} outside of {times[0]}..{times[-1]}")
        i = int(np.searchsorted(times, ns))
        a, b = times[i - 1], times[i]
        f = (ns - a) / (b - a)
        (ta, qa), (tb, qb) = self.data[a], self.data[b]
        return ta + f * (tb - ta), _slerp(qa, qb, f)


def _slerp(a, b, f):
    d = float(np.dot(a, b))
    if d < 0:
        b, d = -b, -d
    ang = np.arccos(min(1.0, d))
    if ang < 1e-9:
        return m.unit(a + f * (b - a))
    return m.unit((np.sin((1 - f) * ang) * a + np.sin(f * ang) * b)
                  / np.sin(ang))


class Buffer:
    def __init__(self, cache_time=None, debug=True):
        self.cache_time = cache_time
        self.keep = 10 * 10**9 if cache_time is None else cache_time.ns
        self.frames = {}

    def _set(self, msg, static):
        q = _wxyz(msg.transform.rotation)
        t = _xyz(msg.transform.translation)
        if abs(np.dot(q, q) - 1) > 1e-6 or np.any(np.isnan(t)):
            raise InvalidArgumentException("invalid transform")
        name, parent = msg.child_frame_id, msg.header.frame_id
        if name == parent or not name or not parent:
            raise InvalidArgumentException("invalid frame names")
        entry = self.frames.get(name)
        if entry is None or entry.static != static:
            entry = self.frames[name] = _Samples(parent, static)
        entry.parent = parent
        if static:
            entry.data = {}
        entry.add(0 if static else msg.header.stamp.ns, t, q, self.keep)

    def set_transform(self, msg, authority):
        self._set(msg, False)

    def set_transform_static(self, msg, authority):
        self._set(msg, True)

    def _chain(self, name):
        out = [name]
        while out[-1] in self.frames:
            out.append(self.frames[out[-1]].parent)
        return out

    def lookup_transform(self, target_frame, source_frame, time,
                         timeout=None):
        known = set(self.frames) | {f.parent for f in self.frames.values()}
        for n in (target_frame, source_frame):
            if n not in known:
                raise LookupException(f"{n} does not exist")
        src, tgt = self._chain(source_frame), self._chain(target_frame)
        common = [x for x in src if x in tgt]
        if not common:
            raise ConnectivityException("not connected")
        up = src[: src.index(common[0])]
        down = tgt[: tgt.index(common[0])]
        ns = time.ns
        if ns == 0:
            # latest time at which all of them are known
            last = [max(self.frames[n].data) for n in up + down
                    if not self.frames[n].static]
            ns = min(last) if last else 0
        t, q = np.zeros(3), np.array([1.0, 0, 0, 0])
        for n in up:
            tt, qq = self.frames[n].at(ns)
            t, q = m.qrot(qq, t) + tt, m.qmul(qq, q)
        for n in down[::-1]:
            tt, qq = self.frames[n].at(ns)
            qq = m.qinv(qq)
            t, q = m.qrot(qq, t - tt), m.qmul(qq, q)
        msg = TransformStamped()
        msg.header.frame_id = target_frame
        msg.header.stamp = Time(0, ns)
        msg.child_frame_id = source_frame
        msg.transform.translation = Vector3(*map(float, t))
        msg.transform.rotation = Quaternion(*map(float, q[[1, 2, 3, 0]]))
        return msg

    def can_transform(self, target_frame, source_frame, time, timeout=None):
        try:
            self.lookup_transform(target_frame, source_frame, time)
        except TransformException:
            return False
        return True


class TransformBroadcaster:
    topic, latch = "/tf", False

    def __init__(self):
        self.pub_tf = Publisher(self.topic, tfMessage, queue_size=100,
                                latch=self.latch)

    def sendTransform(self, transform):
        if not isinstance(transform, list):
            transform = [transform]
        self.pub_tf.publish(tfMessage(transform))


class StaticTransformBroadcaster(TransformBroadcaster):
    topic, latch = "/tf_static", True


# --- tf2_geometry_msgs -------------------------------------------------------


def _result(cls, transform):
    out = cls()
    out.header = transform.header
    return out


def _parts(transform):
    return _xyz(transform.transform.translation), _wxyz(
        transform.transform.rotation)


def do_transform_point(point, transform):
    t, q = _parts(transform)
    out = _result(PointStamped, transform)
    out.point = Point(*map(float, m.qrot(q, _xyz(point.point)) + t))
    return out


def do_transform_vector3(vector3, transform):
    _, q = _parts(transform)
    out = _result(Vector3Stamped, transform)
    out.vector = Vector3(*map(float, m.qrot(q, _xyz(vector3.vector))))
    return out


def do_transform_pose(pose, transform):
    t, q = _parts(transform)
    out = _result(PoseStamped, transform)
    out.pose.position = Point(
        *map(float, m.qrot(q, _xyz(pose.pose.position)) + t))
    o = m.qmul(q, _wxyz(pose.pose.orientation))
    out.pose.orientation = Quaternion(*map(float, o[[1, 2, 3, 0]]))
    return out


# --- widgets -----------------------------------------------------------------


class Widget:
    def __init__(self, **kwargs):
        self.kwargs = kwargs


class IntSlider(Widget):
    """Slider whose value stays within bounds."""

    def __init__(self, value=0, min=0, max=100, **kwargs):
        super().__init__(**kwargs)
        self.min, self.max = int(min), int(max)
        self._observers = []
        self._value = None
        self.value = value

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        v = int(v)
        v = self.min if v < self.min else self.max if v > self.max else v
        if v != self._value:
            self._value = v
            for fn in self._observers:
                fn(v)


class Button(Widget):
    def __init__(self, **kwargs):
        super().__init__(**kwargs)
        self._handlers = []

    def on_click(self, fn):
        self._handlers.append(fn)

    def click(self):
        for fn in self._handlers:
            fn(self)


class Play(IntSlider):
    def __init__(self, interval=100, step=1, **kwargs):
        self.interval, self.step = interval, step
        super().__init__(**kwargs)


class HBox(Widget):
    def __init__(self, children=(), **kwargs):
        super().__init__(**kwargs)
        self.children = list(children)


class Layout(Widget):
    pass


def jslink(a, b):
    world.links.append((a, b))

    def forward(src, dst):
        (x, xn), (y, yn) = src, dst
        x._observers.append(lambda v: setattr(y, yn, v))

    forward(a, b)
    forward(b, a)


def interactive_output(fn, controls):
    (name, widget), = controls.items()
    widget._observers.append(lambda v: fn(**{name: v}))
    fn(**{name: widget.value})
    return Widget()


def display(*args, **kwargs):
    world.displayed.extend(args)


class ROSConnection:
    pass


class TFClient:
    def __init__(self, ros=None, fixed_frame=None):
        self.ros, self.fixed_frame = ros, fixed_frame


class MarkerWidget:
    def __init__(self, ros=None, tf_client=None, topic=None, path=None):
        self.ros, self.tf_client = ros, tf_client
        self.topic, self.path = topic, path


# --- installation ------------------------------------------------------------


def _module(name, **attrs):
    mod = types.ModuleType(name)
    mod.__dict__.update(attrs)
    sys.modules[name] = mod
    if "." in name:
        parent, _, leaf = name.rpartition(".")
        if parent in sys.modules:
            setattr(sys.modules[parent], leaf, mod)
    return mod


def install():
    """Make the stand-ins importable."""
    g = globals()

    def pick(*names):
        return {n: g[n] for n in names}

    _module("rospy", Time=Time, Duration=Duration, Publisher=Publisher,
            Subscriber=Subscriber, sleep=sleep, spin=spin,
            is_shutdown=lambda: world.shutdown,
            loginfo=lambda *a: None, get_master=lambda: _Master(),
            init_node=lambda name, **kw: world.nodes.append(name))
    _module("roslaunch")
    _module("roslaunch.parent", ROSLaunchParent=ROSLaunchParent)
    _module("geometry_msgs")
    _module("geometry_msgs.msg", **pick(
        "Vector3", "Point", "Quaternion", "Transform", "Pose", "Twist",
        "TransformStamped", "PoseStamped", "TwistStamped", "Vector3Stamped",
        "PointStamped", "QuaternionStamped", "PoseWithCovariance",
        "TwistWithCovariance"))
    _module("nav_msgs")
    _module("nav_msgs.msg", Odometry=Odometry)
    _module("std_msgs")
    _module("std_msgs.msg", Header=Header, ColorRGBA=ColorRGBA)
    _module("visualization_msgs")
    _module("visualization_msgs.msg", Marker=Marker)
    _module("tf")
    _module("tf.msg", tfMessage=tfMessage)
    _module("tf2_ros", **pick(
        "Buffer", "TransformBroadcaster", "StaticTransformBroadcaster",
        "TransformException", "LookupException", "ConnectivityException",
        "ExtrapolationException", "InvalidArgumentException"))
    _module("tf2_geometry_msgs", **pick(
        "do_transform_point", "do_transform_vector3", "do_transform_pose"))
    _module("rosbag", Bag=Bag)
    _module("jupyros")
    _module("jupyros.ros3d", ROSConnection=ROSConnection, TFClient=TFClient,
            Marker=MarkerWidget)
    _module("IPython", get_ipython=lambda: None, version_info=(8, 24, 0))
    _module("IPython.core")
    _module("IPython.core.display", display=display)
    _module("ipywidgets")
    _module("ipywidgets.widgets", **pick(
        "IntSlider", "Button", "Play", "HBox", "Layout", "jslink",
        "interactive_output"))
