# MON-rule: size strings built from a grammar (whole, decimal, leading or trailing point, leading zeros; every unit and suffix in both cases) and strings outside it (no digits, two points, spaces, signs, exponents, wrong or repeated units, random characters); poses, points and quaternions in every documented form and in others; distinct by arguments
import copy, math, re, string
from fractions import Fraction
import numpy as np
import rospy
from geometry_msgs.msg import Pose, PoseStamped, Quaternion, Point, PointStamped, Vector3, Transform
from arc_utilities import conversions as cv
from mon import Monitor

UNITS = {"": 1, "k": 10**3, "K": 10**3, "m": 10**6, "M": 10**6, "g": 10**9, "G": 10**9}


def is_size(s):
    """Independent recogniser: digits with at most one point and at least one digit, then a unit, then b."""
    i, digits, points = 0, 0, 0
    while i < len(s) and s[i] in "0123456789.":
        digits += s[i] != "."
        points += s[i] == "."
        i += 1
    if digits == 0 or points > 1:
        return False
    if i < len(s) and s[i] in "kKmMgG":
        i += 1
    if i < len(s) and s[i] in "bB":
        i += 1
    return i == len(s)


def size(c):
    r = c.rng
    k = r.randrange(4)
    D = lambda n: "".join(r.choice("0123456789") for _ in range(n))
    if k < 2:
        q = r.choice([lambda: D(r.randrange(1, 7)), lambda: D(r.randrange(1, 5)) + "." + D(r.randrange(0, 6)), lambda: "." + D(r.randrange(1, 6)), lambda: D(r.randrange(1, 17)), lambda: "0" * r.randrange(1, 4) + D(2)])()
        s = q + r.choice(list(UNITS)) + r.choice(["", "b", "B"])
    elif k == 2:  # one edit away from a size, often no longer one
        s = r.choice(["1", "10kb", "2.5M", ".5g", "100", "1.", "3Gb", "0"])
        for _ in range(r.choice([1, 1, 2])):
            j = r.randrange(len(s) + 1)
            e = r.randrange(3)
            ch = r.choice("kKmMgGbB.0123 -+eTtPx,\n_")
            s = s[:j] + ch + s[j:] if e == 0 else s[:j] + s[j + 1 :] if e == 1 else s[:j] + ch + s[j + 1 :]
    else:
        s = r.choice(["", ".", "k", "b", "kb", ".k", ".gB", "bk", "1bk", "1kk", "1..2", "1.2.3", " 1", "1 ", "1 kb", "-1", "+1k", "1e3", "1kib", "1tb", "nan", "inf", "0x10", "1,5k", "1\n", "one", "1_000", "".join(r.choice("0123456789.kKmMgGbB") for _ in range(r.randrange(6)))])
    c.note(s)
    c.nontrivial()
    if not is_size(s):
        c.raises(ValueError, "rejected", cv.parse_file_size, s)
        c.count("rejected")
        return
    m_ = re.match(r"[0-9.]*", s).group(0)
    rest = s[len(m_) :].rstrip("bB")
    want = Fraction(("0" + m_).rstrip(".") if m_.endswith(".") else "0" + m_) * UNITS[rest]
    got = cv.parse_file_size(s)
    c.check(isinstance(got, int), "whole", f"{s!r} gives {got!r}")
    c.check(abs(got - want) <= Fraction(1, 2) + want / 2**51, "size", f"{s!r} gives {got!r}, stated {float(want)!r}")
    c.count("accepted")


def quat(c):
    r = c.rng
    s = 10 ** r.uniform(-6, 6)
    v = [r.gauss(0, 1) * s for _ in range(4)]
    k = r.randrange(4)
    if k == 0:
        v = [r.randrange(-9, 10) for _ in range(4)]
    if k == 1:
        v = [0.0] * 4
        v[r.randrange(4)] = r.choice([1.0, -1.0, s, -s])
    if not any(v):
        v[3] = 1
    n = math.sqrt(sum(x * x for x in v))
    want = [x / n for x in v]
    c.note(v)
    c.nontrivial()
    q = Quaternion()
    q.x, q.y, q.z, q.w = v
    g = cv.normalize_quaternion(q)
    c.check(isinstance(g, Quaternion), "type", f"{type(g)}")
    c.check(max(abs(a - b) for a, b in zip([g.x, g.y, g.z, g.w], want)) < 1e-9, "message", f"{v}: {[g.x, g.y, g.z, g.w]}")
    l = list(v)
    g = cv.normalize_quaternion(l)
    c.check(len(g) == 4 and max(abs(float(a) - b) for a, b in zip(g, want)) < 1e-9, "list", f"{v}: {g}")
    c.raises(Exception, "unsupported", cv.normalize_quaternion, r.choice([None, 3.0, "0001", Point(), Pose(), {"x": 1}]))
    c.count("quaternions")


def qmul(a, b):
    x1, y1, z1, w1 = a
    x2, y2, z2, w2 = b
    return np.array([w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2])


def fields(p):
    return [p.position.x, p.position.y, p.position.z, p.orientation.x, p.orientation.y, p.orientation.z, p.orientation.w]


def pose(c):
    r = c.rng
    t = [r.choice([0, 1, r.uniform(-100, 100)]) for _ in range(3)]
    e = [r.choice([0, math.pi / 2, math.pi, r.uniform(-4, 4), r.uniform(-4, 4)]) for _ in range(3)]
    h = [np.array([math.sin(a / 2) * (i == j) for j in range(3)] + [math.cos(a / 2)]) for i, a in enumerate(e)]
    q = qmul(qmul(h[2], h[1]), h[0])  # roll about x, then pitch about y, then yaw about z, fixed axes
    c.note(t, e)
    c.nontrivial()
    P = Pose()
    P.position.x, P.position.y, P.position.z = t
    P.orientation.x, P.orientation.y, P.orientation.z, P.orientation.w = map(float, q)
    S = PoseStamped()
    S.pose = copy.deepcopy(P)
    S.header.frame_id = "map"
    S.header.stamp = rospy.Time(5, 7)
    forms = {"pose": P, "stamped": S, "seven": list(t) + list(map(float, q)), "six": list(t) + list(e)}
    for name, x in forms.items():
        keep = copy.deepcopy(x)
        t0 = rospy.Time.now()
        g = cv.convert_to_pose_msg(x)
        t1 = rospy.Time.now()
        c.check(isinstance(g, PoseStamped), "type", f"{name} gives {type(g)}")
        f = fields(g.pose)
        c.check(max(abs(a - b) for a, b in zip(f[:3], t)) == 0, "position", f"{name}: {f} for {t}")
        d = min(max(abs(a - b) for a, b in zip(f[3:], q * s)) for s in ((1, -1) if name == "six" else (1,)))
        c.check(d < 1e-12, "orientation", f"{name} {t + e}: {f[3:]} for {q.tolist()}")
        if name == "stamped":
            c.eq((g.header.frame_id, g.header.stamp.to_nsec()), ("map", 5 * 10**9 + 7), "header")
        else:
            c.check(t0 <= g.header.stamp <= t1, "header", f"{name} stamped {g.header.stamp} outside {t0}..{t1}")
        if isinstance(x, list):
            c.eq(x, keep, "input", name)
        else:
            c.eq(fields(x if name == "pose" else x.pose), fields(keep if name == "pose" else keep.pose), "input", name)
    c.raises(ValueError, "length", cv.convert_to_pose_msg, [0.0] * r.choice([0, 1, 3, 4, 5, 8, 9]))
    c.raises(Exception, "unsupported", cv.convert_to_pose_msg, r.choice([None, 3, "xyzrpy", Point(), Transform(), {"x": 0}, {}]))
    c.count("poses")


def position(c):
    r = c.rng
    t = [r.choice([0, 1.5, r.uniform(-100, 100)]) for _ in range(3)]
    P = Point()
    P.x, P.y, P.z = t
    S = PointStamped()
    S.point = copy.deepcopy(P)
    forms = {"point": P, "stamped": S, "list": list(t), "tuple": tuple(t), "array": np.array(t)}
    c.note(t)
    c.nontrivial()
    for name, x in forms.items():
        g = cv.convert_to_position(x)
        c.check(isinstance(g, Point), "type", f"{name} gives {type(g)}")
        c.eq([float(g.x), float(g.y), float(g.z)], [float(v) for v in t], "value", name)
    c.eq((list(forms["list"]), forms["tuple"]), (t, tuple(t)), "input")
    names = r.sample(sorted(forms), r.randrange(len(forms) + 1))
    d = {f"k{i}": forms[n] for i, n in enumerate(names)}
    keep = dict(d)
    g = cv.convert_to_positions(d)
    c.eq(list(g), list(keep), "keys")
    c.check(list(d) == list(keep) and all(d[k] is keep[k] for k in d), "input", "the mapping was changed")
    c.check(g is not d, "input", "the mapping itself is returned")
    for k, v in g.items():
        c.check(isinstance(v, Point), "type", f"{type(v)}")
        c.eq([float(v.x), float(v.y), float(v.z)], [float(x) for x in t], "value", k)
    c.raises(Exception, "unsupported", cv.convert_to_position, r.choice([None, 3.0, [], [1.0], (1.0, 2.0), Pose(), PoseStamped()]))
    c.raises(Exception, "unsupported", cv.convert_to_positions, {"a": [1.0, 2.0, 3.0], "b": None})
    c.count("positions")


m = Monitor()
m.group("sizes", 20000, 200000, size)
m.group("quaternions", 4000, 40000, quat)
m.group("poses", 3000, 30000, pose)
m.group("positions", 3000, 30000, position)
m.finish()
