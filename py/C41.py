# MON-rule: rotations uniform, near identity (1e-9 to 1e-2), half-turns and nearly, about axes, equal or opposite pairs; unit and scaled quaternions (1e-3 to 1e3); translations 1e-3 to 1e4; Denavit-Hartenberg parameters and spherical coordinates over the full circle; distinct by arguments
import contextlib, copy, io, math
import numpy as np
from geometry_msgs.msg import Point, Quaternion, Transform, Pose, Vector3
from arc_utilities import transformation_helper as th
from arc_utilities import normalize_point_msg as npm
from mon import Monitor


def qmul(a, b):
    x1, y1, z1, w1 = a
    x2, y2, z2, w2 = b
    return np.array([w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2])


def R(q):
    """Rotation matrix from a quaternion, by rotating the axes."""
    q = np.array(q, dtype=float)
    q = q / np.linalg.norm(q)
    inv = q * [-1, -1, -1, 1]
    return np.array([qmul(qmul(q, e), inv)[:3] for e in np.eye(4)[:3]]).T


def aa(axis, angle):
    axis = np.array(axis, dtype=float)
    axis = axis / np.linalg.norm(axis)
    return np.append(axis * math.sin(angle / 2), math.cos(angle / 2))


def axis(r):
    if r.random() < 0.25:
        e = [0.0, 0.0, 0.0]
        e[r.randrange(3)] = r.choice([1.0, -1.0])
        return e
    v = [r.gauss(0, 1) for _ in range(3)]
    return v if any(v) else [1.0, 0.0, 0.0]


def rot(r):
    k = r.randrange(6)
    ang = [r.uniform(-math.pi, math.pi), r.choice([0, math.pi / 2, -math.pi / 2, math.pi]), 10 ** r.uniform(-9, -1.5), math.pi - 10 ** r.uniform(-9, -1.5), r.uniform(-7, 7), r.uniform(0.01, 0.2)][k]
    return aa(axis(r), ang)


def scaled(r, q):
    return q if r.random() < 0.6 else q * (10 ** r.uniform(-3, 3)) * r.choice([1, -1])


def tr(r):
    s = 10 ** r.uniform(-3, 4)
    return [0.0 if r.random() < 0.1 else r.uniform(-s, s) for _ in range(3)]


def rigid(r):
    return tr(r), rot(r)


def M(t, q):
    m = np.eye(4)
    m[:3, :3] = R(q)
    m[:3, 3] = t
    return m


def tf(t, q):
    x = Transform()
    x.translation.x, x.translation.y, x.translation.z = map(float, t)
    x.rotation.x, x.rotation.y, x.rotation.z, x.rotation.w = map(float, q)
    return x


def pose(t, q):
    x = Pose()
    x.position.x, x.position.y, x.position.z = map(float, t)
    x.orientation.x, x.orientation.y, x.orientation.z, x.orientation.w = map(float, q)
    return x


def tfc(x):
    return [x.translation.x, x.translation.y, x.translation.z], [x.rotation.x, x.rotation.y, x.rotation.z, x.rotation.w]


def posec(x):
    return [x.position.x, x.position.y, x.position.z], [x.orientation.x, x.orientation.y, x.orientation.z, x.orientation.w]


def pt(v):
    p = Point()
    p.x, p.y, p.z = map(float, v)
    return p


def v3(p):
    return np.array([p.x, p.y, p.z])


def close(c, got, want, tol, key, msg=""):
    got, want = np.array(got, dtype=float), np.array(want, dtype=float)
    c.check(got.shape == want.shape, key, f"shape {got.shape} for {want.shape} {msg}")
    c.check(np.abs(got - want).max() <= tol, key, f"{msg} got {got.tolist()} want {want.tolist()}")


def unit(c, q, key):
    c.check(abs(np.linalg.norm(q) - 1) < 1e-9, key, f"quaternion {q} is not of unit length")


def same_rot(c, q, want, key, tol=1e-8, msg=""):
    unit(c, q, key)
    close(c, R(q), want, tol, key, msg)


def frozen(*xs):
    return copy.deepcopy(xs)


def unchanged(c, now, before):
    for a, b in zip(now, before):
        ok = np.array_equal(a, b) if isinstance(a, np.ndarray) else repr_of(a) == repr_of(b)
        c.check(ok, "inputs", f"{repr_of(a)} was {repr_of(b)}")


def repr_of(x):
    if isinstance(x, Transform):
        return tfc(x)
    if isinstance(x, Pose):
        return posec(x)
    if isinstance(x, (Point, Vector3)):
        return v3(x).tolist()
    if isinstance(x, Quaternion):
        return [x.x, x.y, x.z, x.w]
    return np.array(x).tolist() if isinstance(x, np.ndarray) else x


def compose(c):
    r = c.rng
    t1, q1 = rigid(r)
    t2, q2 = rigid(r)
    s1, s2 = scaled(r, q1), scaled(r, q2)
    c.note(t1, s1.tolist(), t2, s2.tolist())
    c.nontrivial()
    m1, m2 = M(t1, q1), M(t2, q2)
    tol = 1e-10 * (1 + np.abs(t1).max() + np.abs(t2).max())
    want = m1 @ m2
    a, b = tf(t1, s1), tf(t2, s2)
    p, q = pose(t1, s1), pose(t2, s2)
    v = tr(r)
    P = pt(v)
    n1, n2 = m1.copy(), m2.copy()
    keep = frozen(a, b, p, q, P, n1, n2)
    tt, qq = tfc(th.ComposeTransforms(a, b))
    close(c, tt, want[:3, 3], tol, "compose", "transform")
    same_rot(c, qq, want[:3, :3], "compose")
    tt, qq = posec(th.ComposePoses(p, q))
    close(c, tt, want[:3, 3], tol, "compose", "pose")
    same_rot(c, qq, want[:3, :3], "compose")
    close(c, th.ComposeMatrices(n1, n2), want, tol, "compose", "matrix")
    inv = np.eye(4)
    inv[:3, :3] = m1[:3, :3].T
    inv[:3, 3] = -m1[:3, :3].T @ m1[:3, 3]
    tt, qq = tfc(th.InvertTransform(a))
    close(c, tt, inv[:3, 3], tol, "invert", "transform")
    same_rot(c, qq, inv[:3, :3], "invert")
    tt, qq = posec(th.InvertPose(p))
    close(c, tt, inv[:3, 3], tol, "invert", "pose")
    same_rot(c, qq, inv[:3, :3], "invert")
    close(c, th.InvertMatrix(n1), inv, tol, "invert", "matrix")
    w = m1[:3, :3] @ np.array(v) + m1[:3, 3]
    tol2 = 1e-10 * (1 + np.abs(t1).max() + np.abs(v).max())
    for got in (th.ComposeTransformWithPoint(a, P), th.ComposePoseWithPoint(p, P)):
        c.check(isinstance(got, Point), "point", "not a point")
        close(c, v3(got), w, tol2, "point")
    u = tr(r)
    U = pt(u)
    close(c, v3(th.AddPoints(P, U)), np.array(v) + u, 0, "add")
    d = th.SubtractPoints(P, U)
    close(c, v3(th.AddPoints(P, d)), u, 1e-10 * (1 + np.abs(u).max() + np.abs(v).max()), "subtract", "first point plus the difference is not the second")
    close(c, th.TranslationNorm(P), np.linalg.norm(v), 1e-12 * (1 + np.linalg.norm(v)), "norm")
    close(c, th.TranslationNorm(a.translation), np.linalg.norm(t1), 1e-12 * (1 + np.linalg.norm(t1)), "norm")
    unchanged(c, (a, b, p, q, P, n1, n2), keep)
    c.count("compositions")


def quats(c):
    r = c.rng
    q1 = rot(r)
    k = r.randrange(4)
    if k == 0:  # close to one another, on either side of the double cover
        ang = 10 ** r.uniform(-9, -0.5)
        q2 = qmul(q1, aa(axis(r), ang)) * r.choice([1, -1])
    elif k == 1:
        q2 = q1 * r.choice([1, -1])
    elif k == 2:
        q2 = qmul(q1, aa(axis(r), math.pi - r.choice([0, 10 ** r.uniform(-9, -1)])))
    else:
        q2 = rot(r)
    s1, s2 = scaled(r, q1), scaled(r, q2)
    kind = r.choice([list, np.array, tuple])
    a, b = kind(s1.tolist()), kind(s2.tolist())
    c.note(s1.tolist(), s2.tolist())
    c.nontrivial()
    ra, rb = tf([0, 0, 0], s1).rotation, tf([0, 0, 0], s2).rotation
    keep = frozen(a, b, ra, rb)
    close(c, th.NormalizeQuaternion(a), s1 / np.linalg.norm(s1), 1e-12, "normalize")
    n = th.NormalizeQuaternionRos(ra)
    c.check(isinstance(n, Quaternion) and n is not ra, "normalize", "the message itself is returned")
    close(c, [n.x, n.y, n.z, n.w], s1 / np.linalg.norm(s1), 1e-12, "normalize")
    got = th.ComposeQuaternions(a, b)
    w = qmul(s1 / np.linalg.norm(s1), s2 / np.linalg.norm(s2))
    close(c, got, w, 1e-12, "product")
    # angle between: 2 atan2(|vector part|, |scalar part|) of the relative rotation
    rel = qmul(q1 * [-1, -1, -1, 1], q2)
    ang = 2 * math.atan2(np.linalg.norm(rel[:3]), abs(rel[3]))
    for g in (th.AngleBetweenQuaternions(a, b), th.AngleBetweenQuaternions(b, a), th.AngleBetweenQuaternionsRos(ra, rb), th.AngleBetweenQuaternionsRos(rb, ra)):
        c.check(abs(g - ang) <= 2e-7, "angle", f"{g!r} for {ang!r}: {s1.tolist()} {s2.tolist()}")
    c.count("near angles" if ang < 0.03 else "far angles")
    an, ax = th.AxisFromQuaternion(a)
    c.check(-1e-9 <= an <= 2 * math.pi + 1e-9, "axis-angle", f"angle {an!r}")
    close(c, np.linalg.norm(ax), 1, 1e-12 if an == 0 else 1e-7 + 1e-15 / min(1, abs(math.sin(an / 2))) ** 2, "axis-angle", "axis length")
    close(c, R(aa(ax, an)), R(q1), 1e-7, "axis-angle", f"{s1.tolist()}")
    ax2, an2 = [x * 10 ** r.uniform(-2, 2) for x in axis(r)], r.uniform(-7, 7)
    close(c, th.QuaternionFromAxisAngle(ax2, an2), aa(ax2, an2), 1e-10, "axis-angle", f"{ax2} {an2}")
    close(c, th.NormalizeVector3(ax2), np.array(ax2) / np.linalg.norm(ax2), 1e-12, "vector")
    p = npm.make_unit_point(*ax2)
    close(c, v3(p), np.array(ax2) / np.linalg.norm(ax2), 1e-12, "point")
    P = pt(ax2)
    g = npm.normalize_point(P)
    close(c, v3(g), v3(p), 1e-12, "point")
    close(c, v3(P), ax2, 0, "inputs")
    if r.random() < 0.02:
        with contextlib.redirect_stdout(io.StringIO()):
            close(c, th.QuaternionFromAxisAngle([0.0, 0.0, 0.0], an2), [0, 0, 0, 1], 0, "no axis")
        c.raises(AssertionError, "no direction", npm.make_unit_point, 0.0, 0.0, 0.0)
        c.raises(AssertionError, "no direction", th.NormalizeVector3, [0.0, 0.0, 0.0])
    unchanged(c, (a, b, ra, rb), keep)


def convert(c):
    r = c.rng
    t, q = rigid(r)
    c.note(t, q.tolist())
    c.nontrivial()
    ql = r.choice([list, np.array, tuple])(q.tolist())
    tl = r.choice([list, np.array, tuple])(t)
    m = M(t, q)
    T, P = tf(t, q), pose(t, q)
    m0 = m.copy()
    if r.random() < 0.3:
        m0 = m0.tolist()
    keep = frozen(ql, tl, T, P, m0)
    x = th.TransformFromComponents(tl, ql)
    c.check(isinstance(x, Transform), "type")
    c.eq(tfc(x), (list(t), q.tolist()), "components")
    y = th.PoseFromComponents(tl, ql)
    c.check(isinstance(y, Pose), "type")
    c.eq(posec(y), (list(t), q.tolist()), "components")
    for g in (th.ComponentsFromTransform(T), th.ComponentsFromPose(P)):
        c.eq([list(g[0]), list(g[1])], [list(t), q.tolist()], "components")
    y = th.PoseFromTransform(T)
    c.check(isinstance(y, Pose), "type")
    c.eq(posec(y), (list(t), q.tolist()), "pose")
    x = th.PoseToTransform(P)
    c.check(isinstance(x, Transform), "type")
    c.eq(tfc(x), (list(t), q.tolist()), "pose")
    # the results share nothing with what they came from
    y.position.x += 1
    y.orientation.w += 1
    x.translation.x += 1
    x.rotation.w += 1
    s = scaled(r, q)
    for g in (th.TransformToMatrix(T), th.PoseToMatrix(P), th.BuildMatrix(tl, ql), th.BuildMatrixRos(T.translation, T.rotation), th.TransformToMatrix(tf(t, s)), th.PoseToMatrix(pose(t, s)), th.BuildMatrix(tl, list(s))):
        c.check(g.shape == (4, 4), "matrix", f"{g.shape}")
        close(c, g[:, 3], list(t) + [1], 0, "matrix", "translation")
        close(c, g[:3, :3], m[:3, :3], 1e-10, "matrix", "rotation")
        close(c, g[3], [0, 0, 0, 1], 0, "matrix", "last row")
    for g in (tfc(th.TransformFromMatrix(m0)), posec(th.PoseFromMatrix(m0)), th.ExtractFromMatrix(m0)):
        close(c, list(g[0]), t, 0, "from matrix", "translation")
        same_rot(c, list(g[1]), m[:3, :3], "from matrix")
    rm, tv = th.ExtractRawFromMatrix(m0)
    close(c, rm, m[:3, :3], 0, "raw")
    close(c, tv, t, 0, "raw")
    close(c, th.BuildRawMatrix(rm, tv), m, 0, "raw")
    rl = rm if r.random() < 0.5 else rm.tolist()
    close(c, th.BuildMatrixFromTransRot(tl, rl), m, 0, "raw")
    v = th.PointToVector(P.position)
    close(c, v, list(t) + [1], 0, "vector")
    close(c, v3(th.PointFromVector(v)), t, 0, "vector")
    unchanged(c, (ql, tl, T, P, m0), keep)
    c.count("conversions")


def dh(c):
    r = c.rng
    ang = lambda: r.choice([0, math.pi / 2, math.pi, -math.pi / 2, r.uniform(-7, 7), r.uniform(-7, 7)])
    d, a = (r.choice([0, 1.0, r.uniform(-3, 3), r.uniform(-300, 300)]) for _ in range(2))
    theta, alpha = ang(), ang()
    c.note(d, a, theta, alpha)
    c.nontrivial(a != 0 and alpha != 0)
    I = [0.0, 0.0, 0.0, 1.0]
    want = M([0, 0, d], aa([0, 0, 1], theta)) @ M([a, 0, 0], aa([1, 0, 0], alpha))  # turn and move along z, then turn and move along x
    tol = 1e-10 * (1 + abs(a) + abs(d))
    close(c, th.BuildMatrixFromDH(d, a, theta, alpha), want, tol, "DH", f"d {d} a {a} theta {theta} alpha {alpha}")
    for g in (th.ExtractFromDH(d, a, theta, alpha), tfc(th.TransformFromDH(d, a, theta, alpha)), posec(th.PoseFromDH(d, a, theta, alpha))):
        close(c, list(g[0]), want[:3, 3], tol, "DH", "translation")
        same_rot(c, list(g[1]), want[:3, :3], "DH")
    c.count("joints")


def sph(c):
    r = c.rng
    R_, phi, th_ = 10 ** r.uniform(-5, 4), r.uniform(-math.pi, math.pi), r.choice([r.uniform(0, math.pi), r.uniform(0, math.pi), 10 ** r.uniform(-6, -1), math.pi / 2])
    c.note(R_, phi, th_)
    c.nontrivial()
    x = th.spherical_to_vector3([R_, phi, th_])
    close(c, x, [R_ * math.sin(th_) * math.cos(phi), R_ * math.sin(th_) * math.sin(phi), R_ * math.cos(th_)], 1e-12 * R_, "spherical")
    b = th.vector3_to_spherical(x)
    close(c, b[0], R_, 1e-12 * R_, "spherical")
    close(c, b[2], th_, 1e-7, "spherical", "inclination")
    if math.sin(th_) > 1e-6:
        dphi = (b[1] - phi + math.pi) % (2 * math.pi) - math.pi
        c.check(abs(dphi) < 1e-8, "spherical", f"azimuth {b[1]!r} for {phi!r}")
    v = tr(r)
    if r.random() < 0.1:
        v = [0.0, 0.0, r.uniform(-5, 5)]
    if r.random() < 0.05:
        v = [0.0, 0.0, 0.0]
    s = th.vector3_to_spherical(r.choice([list, np.array, tuple])(v))
    n = np.linalg.norm(v)
    close(c, s[0], n, 1e-12 * n, "to spherical", "radius")
    c.check(-math.pi <= s[1] <= math.pi and 0 <= s[2] <= math.pi, "to spherical", f"angles out of range: {s}")
    close(c, th.spherical_to_vector3(s), v, 1e-7 * n + (2.1e-6 if n <= 1e-6 else 0), "to spherical", "round trip")
    c.count("vectors")


m = Monitor()
m.group("compose", 4000, 40000, compose)
m.group("quaternions", 6000, 60000, quats)
m.group("convert", 4000, 40000, convert)
m.group("joints", 3000, 30000, dh)
m.group("spherical", 4000, 40000, sph)
m.finish()
