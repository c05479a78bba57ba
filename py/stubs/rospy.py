"""Stand-in for rospy: time types with genpy's canonical form, an in-process topic bus with rospy's delivery rules,
logging that records, and a clock that is the monotonic one (or virtual when a harness sets `_clock`)."""
import threading
import time as _time

_clock = _time.monotonic
_shutdown = threading.Event()
_log = []
_jitter = None  # harness hook: called at scheduling points


def _point(where):
    if _jitter is not None:
        _jitter(where)


def _canon(s, n):
    s, n = int(s), int(n)
    s += n // 10**9
    return s, n % 10**9


class TVal(object):
    __slots__ = ["secs", "nsecs"]

    def __init__(self, secs=0, nsecs=0):
        if isinstance(secs, float):
            if nsecs != 0:
                raise ValueError("if secs is a float, nsecs must be unset")
            n = round(secs * 1e9)
            self.secs, self.nsecs = _canon(0, n)
        else:
            self.secs, self.nsecs = _canon(secs, nsecs)

    @classmethod
    def from_sec(cls, s):
        return cls(float(s))

    def to_nsec(self):
        return self.secs * 10**9 + self.nsecs

    def to_sec(self):
        return float(self.secs) + float(self.nsecs) / 1e9

    def is_zero(self):
        return self.secs == 0 and self.nsecs == 0

    def __hash__(self):
        return self.to_nsec()

    def __repr__(self):
        return f"{type(self).__name__}[{self.to_nsec()}]"

    def _cmp(self, o):
        if not isinstance(o, type(self)):
            raise TypeError(f"cannot compare {type(self)} with {type(o)}")
        return self.to_nsec() - o.to_nsec()

    def __eq__(self, o):
        return isinstance(o, TVal) and self.to_nsec() == o.to_nsec() and type(self) == type(o)

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0


class Duration(TVal):
    __slots__ = []

    def __neg__(self):
        return Duration(0, -self.to_nsec())

    def __abs__(self):
        return Duration(0, abs(self.to_nsec()))

    def __add__(self, o):
        if isinstance(o, Time):
            return o + self
        if not isinstance(o, Duration):
            return NotImplemented
        return Duration(0, self.to_nsec() + o.to_nsec())

    def __sub__(self, o):
        if not isinstance(o, Duration):
            return NotImplemented
        return Duration(0, self.to_nsec() - o.to_nsec())

    def __mul__(self, k):
        return Duration(0, int(self.to_nsec() * k))

    __rmul__ = __mul__


class Time(TVal):
    __slots__ = []

    def __init__(self, secs=0, nsecs=0):
        super().__init__(secs, nsecs)
        if self.secs < 0:
            raise TypeError("time values must be positive")

    @staticmethod
    def now():
        return Time.from_sec(_clock())

    def __add__(self, o):
        if not isinstance(o, Duration):
            return NotImplemented
        return Time(0, self.to_nsec() + o.to_nsec())

    def __sub__(self, o):
        if isinstance(o, Time):
            return Duration(0, self.to_nsec() - o.to_nsec())
        if isinstance(o, Duration):
            return Time(0, self.to_nsec() - o.to_nsec())
        return NotImplemented


get_rostime = Time.now


class ROSException(Exception):
    pass


class ROSInterruptException(ROSException, KeyboardInterrupt):
    pass


def is_shutdown():
    return _shutdown.is_set()


_calls = []  # node-level calls in order


def signal_shutdown(reason=""):
    _calls.append(("signal_shutdown",))
    _shutdown.set()


def sleep(d):
    _time.sleep(d.to_sec() if isinstance(d, Duration) else d)


class Rate(object):
    period = None  # harness override, seconds

    def __init__(self, hz, reset=False):
        self.p = Rate.period if Rate.period is not None else 1.0 / hz

    def sleep(self):
        _point("rate")
        if _shutdown.wait(self.p):
            raise ROSInterruptException("shutdown")


def _logger(level):
    def f(msg, *a, **k):
        _log.append((level, msg % a if a else msg))

    return f


loginfo, logdebug, logwarn, logerr, logfatal = map(_logger, ("info", "debug", "warn", "error", "fatal"))


def logwarn_throttle(period, msg, *a):
    _log.append(("warn", msg % a if a else msg))


loginfo_throttle = logerr_throttle = logwarn_throttle

_bus = {}
_bus_lock = threading.RLock()


class Subscriber(object):
    """Registering makes messages arrive at once, possibly before the constructor has returned, as in rospy."""

    def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=65536, tcp_nodelay=False):
        self.name, self.data_class, self.cb, self.queue_size = name, data_class, callback, queue_size
        with _bus_lock:
            _bus.setdefault(name, []).append(self)
        _point("subscribed")

    def unregister(self):
        with _bus_lock:
            if self in _bus.get(self.name, []):
                _bus[self.name].remove(self)


class Publisher(object):
    log = []

    def __init__(self, name, data_class, subscriber_listener=None, tcp_nodelay=False, latch=False, headers=None, queue_size=None):
        self.name, self.data_class, self.latch, self.queue_size = name, data_class, latch, queue_size
        self.args = dict(latch=latch, queue_size=queue_size, headers=headers)
        Publisher.log.append(self)

    def get_num_connections(self):
        f = getattr(self, "_connections", None)
        return f() if f else len(_bus.get(self.name, []))

    def publish(self, m):
        deliver(self.name, m)


def deliver(name, m):
    """One message to every subscriber of the topic, on the calling (transport) thread; rospy logs callback exceptions."""
    with _bus_lock:
        subs = list(_bus.get(name, []))
    for s in subs:
        _point("deliver")
        try:
            s.cb(m)
        except Exception as e:
            _log.append(("error", f"bad callback: {e!r}"))


def init_node(name, *a, **k):
    _calls.append(("init_node", name))


def get_param(name, default=None):
    return default


def on_shutdown(f):
    pass
