# MON-rule: conditions becoming true after 0-30 evaluations or never, with and without warning limits, shutdown at any moment; 0-4 publishers with connection counts that change between looks; joystick messages of both drivers and wrong lengths; wrapped programs that return, raise or exit; markers of any scale; distinct by arguments
import copy, threading, time, types
import numpy as np
import rospy, rosgraph
from arc_utilities import marker_utils, ros_helpers as rh, ros_init, xbox
from inputs import InputEvent
from sensor_msgs.msg import Joy
from std_msgs.msg import String
from visualization_msgs.msg import Marker, MarkerArray
from mon import Monitor

XPAD = "A B X Y LB RB back start power stick_button_left stick_button_right DL DR DU DD".split()
DRV = XPAD[:11]
AXES = "LH LV LT RH RV RT DH DV".split()
uid = [0]


def name():
    uid[0] += 1
    return f"/n{uid[0]}"


def waiting(c):
    r = c.rng
    n = r.choice([0, 1, 1, 2, 3])
    forever = r.random() < 0.2
    after = r.choice([None, None, 0, 10, 3])
    speed = r.choice([1, 1000])
    label = r.choice(["", "the thing", None])
    boom = r.random() < 0.1
    c.note(n, forever, after, speed, label, boom)
    c.nontrivial(n > 0)
    calls, log0 = [], len(rospy._log)
    base = time.monotonic()

    def f():
        calls.append(time.monotonic())
        if boom and len(calls) > n:
            raise KeyError("user")
        if forever and len(calls) > n:
            rospy._shutdown.set()
            return False
        return r.choice([True, 1, "yes"]) if len(calls) > n else r.choice([False, 0, None, ""])

    rospy._clock = lambda: 5.0 + (time.monotonic() - base) * speed
    try:
        res, box = [], []

        def go():
            try:
                a = {} if label is None else {"name": label}
                if after != 10:
                    a["warn_after"] = after
                res.append(rh.wait_for(f, **a))
            except KeyError as e:
                box.append(e)

        t = threading.Thread(target=go, daemon=True)
        t.start()
        t.join(40)
        c.check(not t.is_alive(), "wait", "still waiting after 40 s")
        c.eq(len(calls), n + 1, "wait", "evaluations of the condition")
        c.eq(len(box), 1 if boom else 0, "wait", "an error of the condition is passed on")
        warns = [m_ for l, m_ in rospy._log[log0:] if l == "warn"]
        if after is None:
            c.eq(warns, [], "warning", "warned although told not to")
        elif after > 0 and (time.monotonic() - base) * speed < after:
            c.eq(warns, [], "warning", "warned early")
        elif speed == 1000 and n >= 3 and after == 3 and not boom and not forever:
            c.check(len(warns) > 0 and (not label or label in warns[0]), "warning", f"no warning naming {label!r} after more than {after} s: {warns}")
        c.count("evaluations", len(calls))
    finally:
        rospy._clock = time.monotonic
        rospy._shutdown.clear()


def shut(c):
    """Shutdown from outside ends the wait."""
    c.note(c.index)
    c.nontrivial()
    t = threading.Thread(target=lambda: rh.wait_for(lambda: False), daemon=True)
    t.start()
    try:
        time.sleep(c.rng.uniform(0, 0.02))
        c.check(t.is_alive(), "wait", "returned although the condition is false")
        rospy._shutdown.set()
        t.join(40)
        c.check(not t.is_alive(), "wait", "waits on after shutdown")
    finally:
        rospy._shutdown.clear()
    rospy._calls.clear()


def connect(c):
    r = c.rng
    topic = name()
    n = r.randrange(4)
    seq = [r.randrange(n + 2) if r.random() < 0.5 else n for _ in range(r.choice([1, 2, 4]))] + [r.choice([n, n, n + 1, 0])]
    c.note(n, seq, c.index)
    c.nontrivial(n > 0)
    rosgraph.subscribers = [("/other", ["/x", "/y"]), (topic, [f"/s{i}" for i in range(n)]), (topic + "2", ["/z"])]
    looks = []

    def conns(self):
        looks.append(seq[min(len(looks), len(seq) - 1)])
        return looks[-1]

    k0 = len(rospy.Publisher.log)
    rospy.Publisher._connections = conns
    try:
        kw = r.choice([{"queue_size": 7}, {"queue_size": 1, "latch": True}, {}])
        c.raised = None
        try:
            p = rh.get_connected_publisher(topic if r.random() < 0.5 else topic[1:], String, **kw)
        except RuntimeError as e:
            p, c.raised = None, e
        if p is not None:
            c.eq(looks[-1], n, "publisher", f"returned with {looks[-1]} of {n} subscribers connected: {looks}")
            c.check(isinstance(p, rospy.Publisher) and p.name.lstrip("/") == topic[1:] and p.data_class is String, "publisher", f"{p.name}")
            c.eq((p.queue_size, p.latch), (kw.get("queue_size"), kw.get("latch", False)), "publisher", "arguments")
        else:
            c.check(n not in looks and len(looks) >= 2, "publisher", f"gave up although all were connected, or without trying again: {looks} of {n}")
            c.check(topic[1:] in str(c.raised), "publisher", f"{c.raised}")
        c.count("returned" if p is not None else "refused")
    finally:
        del rospy.Publisher._connections
        rosgraph.subscribers = []


def trying(c):
    r = c.rng
    k = r.randrange(5)
    seqs = []
    for _ in range(k):
        n = r.choice([0, 0, 1, 3, 9])
        seqs.append([0] * n + [r.choice([1, 2])] if r.random() < 0.8 else [1] * r.randrange(3) + [0])
    strict = r.random() < 0.5
    c.note(seqs, strict)
    c.nontrivial(k > 1)
    pubs = []
    for s in seqs:
        p = rospy.Publisher(name(), String)
        p.looks = []

        def conns(p=p, s=s):
            p.looks.append(s[min(len(p.looks), len(s) - 1)])
            return p.looks[-1]

        p._connections = conns
        pubs.append(p)
    log0 = len(rospy._log)
    err = None
    try:
        a = {"raise_on_fail": True} if strict else r.choice([{}, {"raise_on_fail": False}])
        c.eq(rh.try_to_connect(*pubs, **a), None, "connect")
    except RuntimeError as e:
        err = e
    warns = [m_ for l, m_ in rospy._log[log0:] if l == "warn"]
    said = str(err) if err else " ".join(warns)
    bad = [p for p in pubs if p.looks and p.looks[-1] == 0]
    if bad:
        c.check((err is not None) == strict, "connect", f"strict {strict}: raised {err!r}")
        c.check(all(p.name in said for p in bad), "connect", f"unconnected {[p.name for p in bad]} not named in {said!r}")
        c.check(not any(p.name in said.replace(",", " ").split() for p in pubs if p not in bad), "connect", f"connected publishers reported: {said!r}")
    else:
        c.check(err is None and not warns, "connect", f"all connected, yet {said!r}")
    c.count("connected" if not bad else "failed")


def joystick(c):
    r = c.rng
    xpad = r.random() < 0.5
    b = XPAD if xpad else DRV
    j = Joy()
    j.buttons = [r.randrange(2) for _ in b]
    j.axes = [r.choice([0.0, 1.0, -1.0, 0.05, -0.05, 0.049999, r.uniform(-0.06, 0.06), r.uniform(-1, 1)]) for _ in AXES]
    if r.random() < 0.5:
        j.axes, j.buttons = tuple(j.axes), tuple(j.buttons)
    c.note(xpad, j.buttons, j.axes)
    c.nontrivial()
    x = rh.joy_to_xbox(j) if xpad and r.random() < 0.5 else rh.joy_to_xbox(j, xpad)
    want = dict(zip(b, j.buttons))
    want.update(zip(AXES, j.axes))
    c.eq(vars(x), want, "fields")
    for k, v in want.items():
        c.check(f"{k}: {v}" in str(x).split("\n"), "text", f"{k}: {v} not in {x}")
    w = copy.deepcopy(j)
    if r.random() < 0.5:
        w.buttons = list(w.buttons)[: r.randrange(len(b))]
    else:
        w.axes = list(w.axes) + [0.0]
    c.raises(ValueError, "length", rh.joy_to_xbox, w, xpad)
    # the controller
    topic = name()
    X = xbox.Xbox(topic, xpad)
    rospy.deliver(topic, j)
    c.eq(vars(X.get_buttons_state()), want, "controller")
    k = r.choice(sorted(want))
    c.eq(X.get_button(k), want[k], "controller", k)
    c.raises(AttributeError, "controller", X.get_button, "nosuch")
    dz = lambda v: v if abs(v) >= 0.05 else 0
    for a, s in ((0, -1), (1, 1), (2, 1), (4, 1), (5, 1)):
        c.eq(X.get_axis_normalized(a), dz(s * j.axes[a]), "axis", f"axis {a} of {j.axes}")
    for a in (3, 6, 7, -1):
        c.raises(NotImplementedError, "axis", X.get_axis_normalized, a)
    d = X.get_3d_delta()
    c.check(isinstance(d, np.ndarray) and d.shape == (3,), "delta")
    c.eq(d.tolist(), [dz(-j.axes[0]), dz(j.axes[1]), dz(j.axes[4])], "delta")
    e = InputEvent(r.choice(["Key", "Key", "Absolute"]), r.choice(["BTN_NORTH", "BTN_NORTH", "BTN_SOUTH"]), r.choice([0, 1]))
    c.eq(bool(X.x_clicked(e)), (e.ev_type, e.code, e.state) == ("Key", "BTN_NORTH", 0), "click")
    if r.random() < 0.1:
        # waiting for a press: messages without it do not end the wait
        k = r.choice(b)
        off, on = copy.deepcopy(j), copy.deepcopy(j)
        off.buttons = [0 if n == k else v for n, v in zip(b, j.buttons)]
        on.buttons = [1 if n == k else v for n, v in zip(b, j.buttons)]
        rospy.deliver(topic, off)
        t = threading.Thread(target=X.wait_for_button, args=(k, False), daemon=True)
        t.start()
        time.sleep(r.uniform(0, 0.02))
        c.check(t.is_alive(), "press", f"returned although {k} is not pressed")
        rospy.deliver(topic, on)
        t.join(40)
        c.check(not t.is_alive(), "press", f"{k} pressed, still waiting")
    X.xbox_listener.subscriber.unregister()
    c.count("messages")


class Stop(BaseException):
    pass


def context(c):
    r = c.rng
    n = "node" + str(r.randrange(100))
    how = r.choice(["return", "return", "raise", "base", "exit"])
    a, k = [r.randrange(9) for _ in range(r.randrange(4))], {f"k{i}": r.randrange(9) for i in range(r.randrange(3))}
    c.note(n, how, a, k)
    c.nontrivial()
    rospy._calls.clear()
    E = {"raise": KeyError("x"), "base": Stop("y"), "exit": SystemExit(3)}.get(how)
    seen, val = [], object()

    def program(*x, **y):
        seen.append((list(x), y, list(rospy._calls)))
        if E is not None:
            raise E
        return val

    try:
        via = r.choice(["decorator", "context", "bare"])
        got = err = None
        try:
            if via == "decorator":
                got = ros_init.with_ros(n)(program)(*a, **k)
            elif via == "context":
                with ros_init.RosContext(n):
                    got = program(*a, **k)
            else:
                ros_init.rospy_and_cpp_init(n)
                try:
                    got = program(*a, **k)
                finally:
                    ros_init.shutdown()
        except BaseException as e:
            err = e
        c.check(err is E, "error", f"{how} through {via}: {err!r}")
        c.check(E is not None or got is val, "value", f"{got!r} through {via}")
        c.eq(len(seen), 1, "once", "runs of the program")
        c.eq(seen[0][:2], (a, k), "arguments")
        c.eq(sorted(seen[0][2]), sorted([("cpp init_node", "cpp_" + n, True), ("init_node", n)]), "start", "nodes when the program starts")
        c.eq(sorted(rospy._calls[2:]), sorted([("signal_shutdown",), ("cpp shutdown",)]), "end", f"after a program that ended by {how}")
    finally:
        rospy._shutdown.clear()
    if via == "decorator" and r.random() < 0.5:
        # made once, runs nothing until called, and each call has its own life
        rospy._calls.clear()
        g = ros_init.with_ros(n)(lambda: 5)
        c.eq(rospy._calls, [], "start", "calls before the program is run")
        c.eq((g(), g()), (5, 5), "value")
        c.eq(len(rospy._calls), 8, "end", "calls for two runs")
        rospy._shutdown.clear()
    c.count("ended by " + how)


def odds(c):
    r = c.rng
    s = r.choice([0, 1, 2.5, -1, 10 ** r.uniform(-3, 3)])
    msg = MarkerArray()
    for i in range(r.randrange(5)):
        m_ = Marker()
        m_.scale.x, m_.scale.y, m_.scale.z = (r.uniform(0, 3) for _ in range(3))
        m_.pose.position.x = r.uniform(-1, 1)
        m_.id = i
        msg.markers.append(m_)
    before = copy.deepcopy(msg)
    c.note(s, [(x.scale.x, x.scale.y, x.scale.z) for x in msg.markers])
    c.nontrivial(len(msg.markers) > 1)
    g = marker_utils.scale_marker_array(msg, s)
    c.eq(len(g.markers), len(before.markers), "markers")
    for a, b in zip(g.markers, before.markers):
        c.check(max(abs(x - y * s) for x, y in ((a.scale.x, b.scale.x), (a.scale.y, b.scale.y), (a.scale.z, b.scale.z))) <= 1e-12 * abs(s) * 3, "markers", f"scaled by {s}")
        c.eq((a.id, a.pose.position.x), (b.id, b.pose.position.x), "markers", "the rest changed")
    E = r.choice([ValueError, KeyError, RuntimeError])
    log0 = len(rospy._log)
    try:
        rh.logfatal(E, "message 17")
    except E as e:
        c.check("message 17" in str(e), "fatal", f"{e!r}")
    else:
        c.check(False, "fatal", "not raised")
    c.check(any("message 17" in str(x[1]) for x in rospy._log[log0:]), "fatal", "not logged")


m = Monitor()
m.group("waiting", 600, 6000, waiting)
m.group("shutdown", 60, 600, shut)
m.group("publisher", 150, 1500, connect)
m.group("connecting", 150, 1500, trying)
m.group("joystick", 1500, 15000, joystick)
m.group("context", 1500, 15000, context)
m.group("markers", 1000, 10000, odds)
m.finish()
