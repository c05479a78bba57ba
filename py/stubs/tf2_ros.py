"""Stand-in for tf2_ros: broadcasters that serialise and record every message, a FIFO network that may delay or drop,
and buffers that answer for directly connected frames only."""
import copy
import threading
import time as _time
from collections import deque

import rospy


class TransformException(Exception):
    pass


class LookupException(TransformException):
    pass


class ConnectivityException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class World:
    """Everything on the wire of one case. Harnesses replace `world` by a fresh one per case."""

    def __init__(self):
        self.lock = threading.Condition()
        self.log = []  # (sequence, monotonic, thread ident, broadcaster id, static?, [(parent, child, stamp ns, translation, rotation)])
        self.malformed = 0
        self.buffers = []
        self.drop = None  # f(entry) -> bool, for dynamic messages
        self.delay = None  # f() -> seconds; order is kept
        self.lookup_fault = None  # f() -> exception or None
        self.queue = deque()
        self.pump_thread = None
        self.stopped = False

    def send(self, who, static, transforms):
        if not isinstance(transforms, list):
            transforms = [transforms]
        n = len(transforms)
        out = []
        for t in transforms:  # serialised element by element, as genpy does, with the length first
            rospy._point("serialize")
            out.append(entry(t))
        with self.lock:
            if len(out) != n:
                self.malformed += 1
            self.log.append((len(self.log), _time.monotonic(), threading.get_ident(), who, static, out))
            if self.delay is None:
                self.arrive(static, out)
            else:
                self.queue.append((static, out))
                if self.pump_thread is None:
                    self.pump_thread = threading.Thread(target=self.pump, daemon=True, name="network")
                    self.pump_thread.start()
            self.lock.notify_all()
        rospy._point("sent")

    def pump(self):
        while True:
            with self.lock:
                while not self.queue and not self.stopped:
                    self.lock.wait(0.05)
                if self.stopped:
                    return
                d = self.delay()
            _time.sleep(d)
            with self.lock:
                self.arrive(*self.queue.popleft())
                self.lock.notify_all()

    def arrive(self, static, out):
        if not static and self.drop is not None and self.drop(out):
            return
        for b in self.buffers:
            for e in out:
                b.tree[e[1]] = e

    def stop(self):
        with self.lock:
            self.stopped = True
            self.lock.notify_all()


def entry(t):
    x, q = t.transform.translation, t.transform.rotation
    return (t.header.frame_id, t.child_frame_id, t.header.stamp.to_nsec(), tuple(float(v) for v in (x.x, x.y, x.z)), tuple(float(v) for v in (q.x, q.y, q.z, q.w)))


world = World()


class Buffer(object):
    def __init__(self, *a, **k):
        self.tree = {}
        self.world = world
        self.calls = []

    def can_transform(self, target_frame, source_frame, time, timeout=rospy.Duration(0)):
        end = _time.monotonic() + timeout.to_sec()
        with self.world.lock:
            while True:
                e = self.tree.get(source_frame)
                if e is not None and e[0] == target_frame:
                    return True
                left = end - _time.monotonic()
                if left <= 0 or rospy.is_shutdown():
                    return False
                self.world.lock.wait(min(left, 0.02))

    def lookup_transform(self, target_frame, source_frame, time, timeout=rospy.Duration(0)):
        import geometry_msgs.msg as gm

        f = self.world.lookup_fault() if self.world.lookup_fault else None
        if f is not None:
            raise f
        with self.world.lock:
            e = self.tree.get(source_frame)
        if e is None or e[0] != target_frame:
            raise LookupException(source_frame)
        t = gm.TransformStamped()
        t.header.frame_id, t.child_frame_id = e[0], e[1]
        t.header.stamp = rospy.Time(0, e[2])
        x, q = t.transform.translation, t.transform.rotation
        x.x, x.y, x.z = e[3]
        q.x, q.y, q.z, q.w = e[4]
        return t

    def transform(self, *a):
        self.calls.append(a)
        return ("transformed",) + a


class TransformListener(object):
    def __init__(self, buffer, *a, **k):
        self.buffer = buffer
        with world.lock:
            world.buffers.append(buffer)


class TransformBroadcaster(object):
    static = False

    def __init__(self):
        self.world = world

    def sendTransform(self, transform):
        self.world.send(id(self), self.static, transform)


class StaticTransformBroadcaster(TransformBroadcaster):
    """Latched: a later subscriber sees only the last message."""

    static = True
