# MON-rule: listeners with 1-4 publisher threads and 0-4 reader threads under injected delays at every hand-over, callbacks that record, raise or read back, messages arriving before, during and after construction; transforms in every form over 1-5 frame pairs, random start/restart/stop/close histories, static and dynamic, on a network that delays, drops and fails look-ups; distinct by history
import copy, gc, math, sys, threading, time
import numpy as np
import rospy, tf2_ros
from geometry_msgs.msg import Point, Pose, PoseStamped
from arc_utilities.listener import Listener
from arc_utilities.reliable_tf import ReliableTF
from arc_utilities.tf2wrapper import TF2Wrapper
from mon import Monitor

sys.setswitchinterval(2e-5)
threading.excepthook = lambda a: None
LIMIT = 40.0
uid = [0]


def topic():
    uid[0] += 1
    return f"/t{uid[0]}"


def point(i):
    p = Point()
    p.x, p.y = float(i), float(2 * i)
    return p


def jitter(r, p=0.5, top=4e-4):
    import random

    local = random.Random(r.getrandbits(32))
    lk = threading.Lock()

    def f(where):
        with lk:
            u, v = local.random(), local.random()
        if u < p:
            time.sleep(v * top if v > 0.3 else 0)

    return f


def join(c, ts, key):
    end = time.monotonic() + LIMIT
    for t in ts:
        t.join(max(0.1, end - time.monotonic()))
        c.check(not t.is_alive(), key, f"thread {t.name} still blocked after {LIMIT} s")


def until(c, cond, key, msg):
    end = time.monotonic() + LIMIT
    while not cond():
        c.check(time.monotonic() < end, key, msg() if callable(msg) else msg)
        time.sleep(0.001)


def linear(c, writes, reads, key):
    """writes: id -> (begin, end); reads: (begin, end, id or None). The listener is one register."""
    W = dict(writes)
    W[None] = (-1.0, -1.0)
    for b, e, v in reads:
        c.check(v in W, key, f"read {v!r}, never published")
        wb, we = W[v]
        c.check(wb < e, key, f"read {v!r} before it was published")
        for x, (xb, xe) in W.items():
            c.check(not (we < xb and xe < b), key, f"read {v!r} although {x!r} had replaced it before the read began")
    R = sorted(reads)
    for i, (b1, e1, v1) in enumerate(R):
        for b2, e2, v2 in R[i + 1 :]:
            if e1 < b2 and v1 != v2:
                c.check(not (W[v2][1] < W[v1][0]), key, f"read {v1!r} and later the older {v2!r}")


def listening(c):
    r = c.rng
    nw, nr, each = r.choice([1, 1, 2, 3, 4]), r.randrange(5), r.choice([1, 2, 5, 12])
    mode = r.choice(["none", "record", "record", "read", "raise"])
    c.note(nw, nr, each, mode, c.index)
    c.nontrivial(nr > 0)
    name, log, back = topic(), [], []
    box = {}

    def cb(msg):
        log.append(int(msg.x))
        if mode == "read":
            g = box["l"].get()
            back.append((int(msg.x), g is not None and g.x))
        if mode == "raise":
            raise RuntimeError("user")

    rospy._jitter = jitter(r)
    try:
        l = box["l"] = Listener(name, Point, callback=None if mode == "none" else cb, queue_size=r.choice([None, 1, 10]))
        c.check(l.get(False) is None, "empty", "data before any message")
        writes, reads, lk = {}, [], threading.Lock()
        keep = {}

        def writer(w):
            for k in range(each):
                i = w * 100 + k + 1
                msg = keep[i] = point(i)
                b = time.monotonic()
                rospy.deliver(name, msg)
                e = time.monotonic()
                with lk:
                    writes[i] = (b, e)

        def reader(k):
            for j in range(each * 2):
                b = time.monotonic()
                g = l.get(k % 2 == 0)
                e = time.monotonic()
                if g is None:
                    if k % 2 == 0:
                        with lk:
                            reads.append((b, e, -7))
                    v = None
                else:
                    v = int(g.x)
                    if g.y != 2 * g.x:
                        v = -1
                    g.x = g.y = -5.0  # the copy is the reader's own
                with lk:
                    reads.append((b, e, v))
                rospy._point("read")

        ts = [threading.Thread(target=writer, args=(w,), daemon=True, name=f"publisher {w}") for w in range(nw)]
        ts += [threading.Thread(target=reader, args=(k,), daemon=True, name=f"reader {k}") for k in range(nr)]
        r.shuffle(ts)
        for t in ts:
            t.start()
        join(c, ts, "stuck")
        b = time.monotonic()
        g = l.get()
        reads.append((b, time.monotonic(), int(g.x)))
        c.check(not any(v == -7 for _, _, v in reads), "blocking", "a blocking read returned without data")
        linear(c, writes, reads, "latest")
        g2 = l.get()
        c.check(g2 is not g and g2.x == g.x, "private", "two reads share a message")
        g2.x = -9.0
        c.check(l.get().x == g.x, "private", "changing what was read changed the listener")
        nested(c, l, name)
        for i, msg in keep.items():
            c.check((msg.x, msg.y) == (i, 2 * i), "private", "a published message was changed")
        if mode != "none":
            c.eq(sorted(log), sorted(writes), "callback", "messages passed to the callback")
            for w in range(nw):
                mine = [i for i in log if i // 100 == w]
                c.eq(mine, sorted(mine), "callback", f"order of publisher {w}")
        for i, x in back:
            c.check(x is not False and x >= 1, "callback", "nothing to read from inside the callback")
        c.count("reads", len(reads))
        c.count("messages", len(writes))
        c.count("reads overlapping a publication", sum(any(wb < e and b < we for wb, we in writes.values()) for b, e, _ in reads))
    finally:
        rospy._jitter = None


class Nested:
    """A message with parts inside parts, as most real messages have."""

    def __init__(self, i, r):
        self.x, self.y = float(i), float(2 * i)
        self.values = [r.randrange(100) for _ in range(r.randrange(1, 5))]
        self.parts = [Nested(k, r) for k in range(r.randrange(0, 2))] if r.random() < 0.5 else []

    def tell(self):
        return (self.x, self.y, tuple(self.values), tuple(p.tell() for p in self.parts))

    def spoil(self):
        for p in self.parts:
            p.spoil()
        self.x, self.y = -1.0, -2.0
        self.values[0] = -1
        self.values.append(99)
        del self.parts[:]


def nested(c, l, name):
    """What a reader does to the inside of its copy is its own business."""
    l.custom_callback = None
    for k in range(2):
        msg = Nested(1000 + k, c.rng)
        want = msg.tell()
        rospy.deliver(name, msg)
        for _ in range(2):
            g = l.get()
            c.check(g.tell() == want, "private", f"read {g.tell()} instead of {want}")
            g.spoil()
        c.check(msg.tell() == want, "private", "a reader changed the message that was published")
    c.count("nested messages", 2)


def arriving(c):
    r = c.rng
    name, log = topic(), []
    wait = r.random() < 0.5
    how = r.choice(["during", "during", "same thread", "before", "after"])
    withcb = r.random() < 0.8
    n = r.choice([1, 1, 2, 5])
    c.note(wait, how, withcb, n, c.index)
    c.nontrivial(how in ("during", "same thread"))
    sent, helper = [], []
    nerr = len(rospy._log)

    def publish(delay=0.0):
        if delay:
            time.sleep(delay)
        for i in range(n):
            rospy.deliver(name, point(i + 1))
            sent.append(time.monotonic())

    def hook(where):
        if where != "subscribed":
            return
        if how == "same thread":
            publish()
        elif how == "during":
            t = threading.Thread(target=publish, daemon=True)
            helper.append(t)
            t.start()
            if not (wait and r.random() < 0.5):
                t.join()

    cb = (lambda m_: log.append(int(m_.x))) if withcb else None
    got = {}

    def make():
        got["l"] = Listener(name, Point, wait, cb) if r.random() < 0.5 else Listener(topic_name=name, topic_type=Point, wait_for_data=wait, callback=cb)
        got["t"] = time.monotonic()

    rospy._jitter = hook
    try:
        if how == "before":
            publish()  # nobody listens yet
            sent.clear()
        t = threading.Thread(target=make, daemon=True, name="constructor")
        t.start()
        late = how in ("before", "after")
        if late:
            if wait:
                time.sleep(r.uniform(0, 0.03))
                c.check("l" not in got, "wait", "constructed without data although told to wait")
            else:
                join(c, [t], "stuck")
            rospy._jitter = None
            if not wait:
                c.check(got["l"].get(False) is None, "empty", "data before any message")
            else:
                until(c, lambda: rospy._bus.get(name), "stuck", "no subscription")
            publish()
        join(c, [t], "stuck")
        join(c, helper, "stuck")
        l = got["l"]
        c.eq(l.get().x, n, "latest", "last message")
        if withcb:
            c.eq(log, list(range(1, n + 1)), "callback", f"messages arriving {how} construction")
        c.eq([x for x in rospy._log[nerr:] if x[0] == "error"], [], "callback", "the subscription's callback failed")
        c.count("messages", n)
    finally:
        rospy._jitter = None


def quat(r):
    k = r.randrange(4)
    if k == 0:
        return [0.0, 0.0, 0.0, 1.0]
    v = [r.gauss(0, 1) for _ in range(4)]
    if k == 1:
        v = [x * (i == r.randrange(4)) for i, x in enumerate(v)]
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v] if n else [0.0, 0.0, 0.0, 1.0]


def given(r):
    return [r.choice([0.0, 1.0, r.uniform(-9, 9)]) for _ in range(3)], quat(r)


def mat(t, q):
    x, y, z, w = q
    m_ = np.eye(4)
    m_[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
    m_[:3, 3] = t
    return m_


def pose(t, q):
    p = Pose()
    p.position.x, p.position.y, p.position.z = t
    p.orientation.x, p.orientation.y, p.orientation.z, p.orientation.w = q
    return p


def same(e, t, q, tol=1e-7):
    return max(abs(a - b) for a, b in zip(e[3], t)) <= tol and min(max(abs(a - s * b) for a, b in zip(e[4], q)) for s in (1, -1)) <= tol


def fresh(c):
    w = tf2_ros.world = tf2_ros.World()
    return w


PAIRS = [("world", "a"), ("world", "b"), ("a", "c"), ("c", "d"), ("tool", "world"), ("m", "n"), ("n", "m")]


def sending(c):
    r = c.rng
    w = fresh(c)
    n = r.randrange(1, 9)
    tw = TF2Wrapper()
    other = TF2Wrapper()
    latest, hist = {}, []
    poses = []
    for _ in range(n):
        parent, child = r.choice(PAIRS)
        t, q = given(r)
        static = r.random() < 0.5
        kind = r.choice(["components", "matrix", "pose"])
        stamp = r.choice([None, rospy.Time(r.randrange(1000), 7)])
        hist.append((parent, child, t, q, static, kind, stamp is None))
        a = {"parent": parent, "child": child}
        if static or r.random() < 0.5:
            a["is_static"] = static
        if stamp is not None:
            a["time"] = stamp
        t0 = rospy.Time.now()
        k0 = len(w.log)
        if kind == "components":
            x = (list(t), tuple(q)) if r.random() < 0.5 else (np.array(t), np.array(q))
            tw.send_transform(x[0], x[1], **a)
            if isinstance(x[0], list):
                x[0][0] = 99.0
        elif kind == "matrix":
            x = mat(t, q)
            tw.send_transform_matrix(x, **a)
            x[:] = 9
        else:
            x = pose(t, q)
            tw.send_transform_from_pose_msg(x, **a)
            x.position.x = x.orientation.z = 99.0  # the caller goes on using its message
        t1 = rospy.Time.now()
        c.eq(len(w.log) - k0, 1, "sent", "messages sent")
        _, _, _, _, st, es = w.log[k0]
        c.eq(st, static, "static", f"{hist[-1]}")
        if not static:
            c.eq(len(es), 1, "sent", "transforms in a dynamic message")
        e = es[-1]
        c.eq(e[:2], (parent, child), "frames", f"{hist[-1]}")
        c.check(same(e, t, q), "values", f"sent {e[3:]} for {t} {q} as {kind}")
        if stamp is None:
            c.check(t0.to_nsec() <= e[2] <= t1.to_nsec(), "stamp", f"{e[2]} outside {t0}..{t1}")
        else:
            c.eq(e[2], stamp.to_nsec(), "stamp")
        if static:
            latest[child] = (parent, t, q, e[2])
            c.eq(sorted(x[1] for x in es), sorted(latest), "static", "transforms carried by a static message")
            for x in es:
                p_, t_, q_, s_ = latest[x[1]]
                c.check(x[0] == p_ and same(x, t_, q_) and x[2] == s_, "static", f"static message carries {x} for {latest[x[1]]}")
        m_ = tw.get_transform(parent, child, verbose=False)
        c.check(np.abs(m_ - mat(t, q)).max() < 1e-7, "received", f"{m_.tolist()} for {t} {q}")
        g = other.get_transform_msg(parent, child)
        c.check((g.header.frame_id, g.child_frame_id) == (parent, child), "received")
    for E in (tf2_ros.LookupException, tf2_ros.ConnectivityException, tf2_ros.ExtrapolationException):
        w.lookup_fault = lambda: E("no")
        c.check(tw.get_transform(parent, child) is None, "unavailable", f"{E}")
    w.lookup_fault = None
    a = (object(), "frame", rospy.Duration(3), PoseStamped)
    c.eq(tw.transform_to_frame(*a), ("transformed",) + a, "convert")
    # waiting for a transform that comes later
    if r.random() < 0.1:
        t, q = given(r)
        got = []
        th = threading.Thread(target=lambda: got.append(tw.get_transform("late", "later", r.random() < 0.5, rospy.Duration(0, 2 * 10**6))), daemon=True)
        th.start()
        time.sleep(r.uniform(0, 0.01))
        c.eq(got, [], "waiting", "returned before the transform existed")
        other.send_transform(t, q, "late", "later")
        join(c, [th], "stuck")
        c.check(len(got) == 1 and np.abs(got[0] - mat(t, q)).max() < 1e-7, "waiting", f"{got}")
    c.note(hist)
    c.nontrivial(len(latest) > 1)
    c.count("transforms", n)


def alive(base):
    return [t for t in threading.enumerate() if t.is_alive() and t not in base]


def reliable(c):
    r = c.rng
    w = fresh(c)
    import random

    local = random.Random(r.getrandbits(32))
    net = r.choice(["plain", "delay", "drop", "fault", "all"])
    if net in ("delay", "all"):
        top = r.choice([1e-3, 5e-3])
        w.delay = lambda: local.random() * top * 0.2 if len(w.queue) > 5 else local.random() * top
    if net in ("drop", "all"):
        w.drop = lambda es: local.random() < 0.6
    if net in ("fault", "all"):
        faults = [tf2_ros.LookupException, tf2_ros.ConnectivityException, tf2_ros.ExtrapolationException]
        w.lookup_fault = lambda: local.choice(faults)("transient") if local.random() < 0.4 else None
    rospy.Rate.period = r.choice([0.001, 0.003])
    rospy._jitter = jitter(r, 0.3)
    base = set(threading.enumerate())
    hist = []
    try:
        rs = [ReliableTF() for _ in range(r.choice([1, 1, 2]))]
        pairs = r.sample(PAIRS, r.randrange(1, 5))
        if r.random() < 0.3:
            pairs = sorted(set(pairs) | {("m", "n"), ("n", "m")})
        own = {p: r.randrange(len(rs)) for p in pairs}  # two broadcasters never claim the same pair
        live = {}

        def sends(p, since):
            return [(x[0], x[1], x[4], e) for x in w.log[since:] for e in x[5] if e[:2] == p]

        checked = {}

        def audit():
            """Everything on the wire since the last look agrees with what is being sent."""
            n = len(w.log)
            for p, (t, q, static, since, t0) in live.items():
                for k, when, st, e in [s for s in sends(p, max(since, checked.get(p, 0))) if s[0] < n]:
                    c.check(st == static, "flag", f"{p} sent as {'static' if st else 'dynamic'}: {hist}")
                    c.check(same(e, t, q), "latest", f"{p} sent with {e[3:]} while {t} {q} is current: {hist}")
                    c.check(t0 <= e[2] <= int(when * 1e9) + 1000 or static, "stamp", f"{p} stamped {e[2]}")
                checked[p] = n
            for p, since in stopped.items():
                for k, when, st, e in sends(p, since):
                    c.check(st and any(v[2] for v in live.values()), "stopped", f"{p} sent after it was stopped: {hist}")
            c.eq(w.malformed, 0, "wire", "a message was changed while being sent")

        stopped = {}
        for _ in range(r.randrange(1, 8)):
            p = r.choice(pairs)
            R = rs[own[p]]
            op = r.choice(["start", "start", "start", "stop", "idle"])
            if op == "start":
                t, q = given(r)
                if p in live and r.random() < 0.5:  # a change of only one part
                    t, q = r.choice([(live[p][0], q), (t, live[p][1])])
                static = live[p][2] if p in live and r.random() < 0.7 else r.random() < 0.4
                if p in was and not was[p] and static or p in was and was[p] and not static:
                    static = was[p]  # a frame is static or not for good
                was[p] = static
                kind = r.choice(["components", "matrix", "pose"])
                hist.append((op, p, kind, static))
                audit()
                live.pop(p, None)
                stopped.pop(p, None)
                t0 = rospy.Time.now().to_nsec()
                box = []

                def go():
                    try:
                        k = {"is_static": static} if static or r.random() < 0.5 else {}
                        if kind == "components":
                            R.start_send_transform(t, q if r.random() < 0.5 else [-x for x in q], p[0], p[1], **k)
                        elif kind == "matrix":
                            R.start_send_transform_matrix(mat(t, q), parent=p[0], child=p[1], **k)
                        else:
                            R.start_send_transform_from_pose_msg(pose(t, q), p[0], p[1], **k)
                        box.append(None)
                    except BaseException as e:
                        box.append(e)

                th = threading.Thread(target=go, daemon=True, name="start")
                th.start()
                join(c, [th], "start never returns")
                c.check(box == [None], "start", f"starting {p} as {kind} raised {box[0]!r}")
                seen = R.tf_buffer.tree.get(p[1])
                c.check(seen is not None and seen[0] == p[0] and same(seen, t, q, 1e-4), "visible", f"start of {p} returned while {seen} is visible, not {t} {q}: {hist}")
                live[p] = (t, q, static, len(w.log), t0)
            elif op == "stop":
                hist.append((op, p))
                audit()
                R.stop_send(p[0], p[1])
                if p in live:
                    live.pop(p)
                    stopped[p] = len(w.log)
            else:
                time.sleep(r.uniform(0, 0.01))
            # everything started keeps being sent
            mark = len(w.log)
            enough = 2 if r.random() < 0.97 else 400
            until(c, lambda: all(len({s[0] for s in sends(p, mark)}) >= enough for p in live), "sending", lambda: f"no longer sent: {[p for p in live if len(sends(p, mark)) < enough]} after {hist}")
            audit()
        c.count("sends", len(w.log))
        c.count("restarts", sum(1 for i, h in enumerate(hist) if h[0] == "start" and any(x[0] == "start" and x[1] == h[1] for x in hist[:i])))
        # the end: nothing goes on sending
        how = r.choice(["close", "close", "stop", "drop"])
        hist.append(how)
        if how == "close":
            for R in rs:
                R.close()
                R.close()
        elif how == "stop":
            for p in list(live):
                rs[own[p]].stop_send(*p)
            for p in PAIRS:
                rs[0].stop_send(*p)
        else:
            del R
            rs.clear()
            gc.collect()
        n = len(w.log)
        left = [t for t in alive(base) if t.name not in ("network", "start")]
        c.eq(left, [], "sender left", f"threads after {hist}")
        time.sleep(4 * rospy.Rate.period)
        c.eq(len(w.log), n, "stopped", f"messages after {hist}")
        c.note(net, hist)
        c.nontrivial(len(hist) > 2)
        c.count("broadcasts", n)
    finally:
        was.clear()
        w.stop()
        rospy._jitter = None
        rospy.Rate.period = None
        for R in list(locals().get("rs") or []):
            for thread, ev in list(getattr(R, "managed_tfs", {}).values()):
                ev.set()


was = {}


def statics(c):
    """Several static transforms sent through one wrapper by several threads: every message is whole and complete."""
    r = c.rng
    w = fresh(c)
    rospy._jitter = jitter(r, 0.6)
    try:
        tw = TF2Wrapper()
        n, each = r.randrange(2, 5), r.randrange(1, 6)
        vals = {i: [given(r) for _ in range(each)] for i in range(n)}
        done, lk = [], threading.Lock()

        def send(i):
            for k, (t, q) in enumerate(vals[i]):
                b = len(w.log)
                if i % 2:
                    tw.send_transform(t, q, "world", f"s{i}", True)
                else:
                    tw.send_transform_from_pose_msg(pose(t, q), "world", f"s{i}", is_static=True)
                with lk:
                    done.append((i, k, b, len(w.log)))

        ts = [threading.Thread(target=send, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        join(c, ts, "stuck")
        c.note(n, each, c.index)
        c.nontrivial()
        c.eq(w.malformed, 0, "wire", "a message was changed while being sent")
        c.check(all(x[4] for x in w.log), "static", "a static transform was sent as dynamic")
        for j, x in enumerate(w.log):
            kids = [e[1] for e in x[5]]
            c.eq(sorted(kids), sorted(set(kids)), "static", f"frames in static message {j}")
            for i, k, b, e in done:
                if e <= j:  # completed before this message went out
                    c.check(f"s{i}" in kids, "complete", f"static message {j} lacks s{i}, sent before it: {kids}")
                    g = x[5][kids.index(f"s{i}")]
                    c.check(any(same(g, *v) for v in vals[i][k:]), "complete", f"static message {j} carries an outdated s{i}")
        last = {e[1]: e for e in w.log[-1][5]}
        for i in range(n):
            c.check(f"s{i}" in last and same(last[f"s{i}"], *vals[i][-1]), "complete", f"the last static message does not carry the latest s{i}")
        c.count("static messages", len(w.log))
    finally:
        rospy._jitter = None


m = Monitor()
m.group("listening", 500, 6000, listening)
m.group("arriving", 400, 5000, arriving)
m.group("sending", 1500, 15000, sending)
m.group("statics", 300, 4000, statics)
m.group("reliable", 240, 3500, reliable)
m.finish()
