# MON-rule: displayable colours (uniform, greys and near-greys, primaries, dark, saturated), XYZ and Lab values reached from them, map parameters over the whole range with branch points and their neighbours, value ranges of any sign and scale, components inside and outside 0..1; distinct by arguments
import contextlib, io, math
import numpy as np
from matplotlib import colors as mc
from arc_utilities import color as cl
from std_msgs.msg import ColorRGBA
from mon import Monitor


def rgb(r):
    k = r.randrange(7)
    if k == 0:
        v = r.choice([0.0, 1.0, r.random()])
        return [v, v, v]
    if k == 1:
        v = r.random()
        return [min(1.0, max(0.0, v + r.uniform(-1, 1) * 10 ** r.uniform(-6, -1))) for _ in range(3)]
    if k == 2:
        return [float(r.randrange(2)) for _ in range(3)]
    if k == 3:
        return [r.random() * 10 ** r.uniform(-5, 0) for _ in range(3)]
    if k == 4:
        return [r.choice([0.0, 1.0, r.random()]) for _ in range(3)]
    return [r.random() for _ in range(3)]


def near(c, got, want, tol, key, msg=""):
    got, want = np.array(got, dtype=float), np.array(want, dtype=float)
    c.check(got.shape == want.shape and np.abs(got - want).max() <= tol, key, f"{msg}: {got.tolist()} for {want.tolist()}")


def convert(c):
    r = c.rng
    v = rgb(r)
    c.note(v)
    c.nontrivial(len(set(v)) > 1)
    xyz = cl.convert_rgb_to_xyz(*v)
    near(c, cl.convert_xyz_to_rgb(*xyz), v, 1e-9, "rgb-xyz", f"{v}")
    lab = cl.convert_xyz_to_lab(*xyz)
    near(c, cl.convert_lab_to_xyz(*lab), xyz, 1e-9, "xyz-lab", f"{v}")
    near(c, cl.convert_xyz_to_lab(*cl.convert_lab_to_xyz(*lab)), lab, 1e-6, "xyz-lab", f"{v} from Lab")
    msh = cl.convert_lab_to_msh(*lab)
    near(c, cl.convert_msh_to_lab(*msh), lab, 1e-6, "lab-msh", f"{v}")
    near(c, cl.msh_to_rgb(*cl.rgb_to_msh(*v)), v, 1e-6, "rgb-msh", f"{v}")
    c.check(all(math.isfinite(x) for x in xyz + lab + msh), "finite", f"{v}")
    x = [r.uniform(0, 1.2) * (10 ** r.uniform(-4, 0) if r.random() < 0.3 else 1) for _ in range(3)]
    near(c, cl.convert_rgb_to_xyz(*cl.convert_xyz_to_rgb(*x)), x, 1e-9, "rgb-xyz", f"{x} from XYZ")
    near(c, cl.convert_lab_to_xyz(*cl.convert_xyz_to_lab(*x)), x, 1e-9, "xyz-lab", f"{x}")
    c.count("colours")


def in01(c, v, key, msg, tol=1e-12):
    c.check(len(v) == 3 and all(-tol <= x <= 1 + tol for x in v), key, f"{msg}: {v}")


def smooth(c, f, lo, hi, key, msg, n=60, lim=1e-5):
    """No jump anywhere: follow the largest step down to a tiny interval."""
    xs = [lo + (hi - lo) * i / n for i in range(n + 1)]
    xs[-1] = hi
    ys = [np.array(f(x)) for x in xs]
    ds = [np.abs(b - a).max() for a, b in zip(ys, ys[1:])]
    for i in sorted(range(n), key=lambda i: -ds[i])[:3]:
        a, b, fa, fb = xs[i], xs[i + 1], ys[i], ys[i + 1]
        for _ in range(34):
            m_ = (a + b) / 2
            if not a < m_ < b:
                break
            fm = np.array(f(m_))
            if np.abs(fm - fa).max() > np.abs(fb - fm).max():
                b, fb = m_, fm
            else:
                a, fa = m_, fm
        c.check(np.abs(fb - fa).max() < lim, key, f"{msg}: jumps from {fa.tolist()} to {fb.tolist()} between {a!r} and {b!r}")
    c.count("continuity scans")


def hot(c):
    r = c.rng
    k = r.randrange(4)
    if k == 0:
        lo, hi = 0.0, 1.0
    elif k == 1:
        lo, hi = -1.0, r.choice([1.0, 3.0])
    elif k == 2:
        lo, hi = r.randrange(-50, 50), 0
        hi = lo + r.randrange(1, 100)
    else:
        s = 10 ** r.uniform(-4, 5)
        lo = r.uniform(-s, s)
        hi = lo + s * r.uniform(0.01, 1)
    q = r.choice([0, 0.25, 0.5, 0.75, 1, r.random(), r.random(), r.random()])
    v = lo + q * (hi - lo) + r.choice([0, 0, 1, -1]) * 1e-9 * (hi - lo)
    if r.random() < 0.1:
        v = lo - r.uniform(0, 5) if r.random() < 0.5 else hi + r.uniform(0, 5)
    c.note(lo, hi, v)
    c.nontrivial()
    f = (lambda x: cl.interpolate_hot_to_cold(x)) if (lo, hi) == (0.0, 1.0) and r.random() < 0.5 else (lambda x: cl.interpolate_hot_to_cold(x, lo, hi))
    g = f(v)
    in01(c, g, "hot range", f"value {v!r} in {lo!r}..{hi!r}", 1e-6)
    u = min(1.0, max(0.0, (v - lo) / (hi - lo)))
    w = [min(1, max(0, 4 * u - 2)), min(1, max(0, min(4 * u, 4 - 4 * u))), min(1, max(0, 2 - 4 * u))]
    near(c, g, w, 1e-6, "hot value", f"value {v!r} in {lo!r}..{hi!r}")
    near(c, f(lo), [0, 0, 1], 1e-9, "hot ends", "cold end")
    near(c, f(hi), [1, 0, 0], 1e-6, "hot ends", "hot end")
    near(c, f(lo - 1), [0, 0, 1], 1e-9, "hot ends", "below the range")
    near(c, f(hi + 1), [1, 0, 0], 1e-6, "hot ends", "above the range")
    if r.random() < 0.1:
        smooth(c, f, lo, hi, "hot jump", f"{lo!r}..{hi!r}", lim=1e-4)
    if (lo, hi) == (0.0, 1.0):
        m_ = cl.map_color(v)
        near(c, [m_.r, m_.g, m_.b, m_.a], w + [1], 1e-6, "map_color", f"{v!r}")
    if r.random() < 0.02:
        c.raises(AssertionError, "hot order", cl.interpolate_hot_to_cold, v, hi, lo)
    c.count("values")


def jet(c):
    r = c.rng
    neg = r.random() < 0.5
    lo = -1.0 if neg else 0.0
    v = lo + (1 - lo) * r.choice([0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1, r.random(), r.random(), r.random(), r.random()])
    v = min(1.0, max(lo, v + r.choice([0, 0, 1e-12, -1e-12])))
    c.note(neg, v)
    c.nontrivial()
    f = lambda x: cl.interpolate_jet(x, neg) if neg or r.random() < 0.5 else cl.interpolate_jet(x)
    g = f(v)
    in01(c, g, "jet range", f"{v!r}")
    s = v if neg else 2 * v - 1
    base = lambda x: min(1.0, max(0.0, 1.5 - 2 * abs(x)))
    near(c, g, [base(s - 0.5), base(s), base(s + 0.5)], 1e-9, "jet value", f"{v!r}")
    near(c, f(lo), [0, 0, 0.5], 1e-9, "jet ends", "low end")
    near(c, f(1.0), [0.5, 0, 0], 1e-9, "jet ends", "high end")
    if r.random() < 0.1:
        smooth(c, f, lo, 1.0, "jet jump", "jet")
    if r.random() < 0.05:
        c.raises(AssertionError, "jet outside", cl.interpolate_jet, r.choice([1.0001, lo - 0.0001, 7]), neg)
    c.count("values")


def cool(c):
    r = c.rng
    a, b = rgb(r), rgb(r)
    if r.random() < 0.1:
        b = list(a)
    t = r.random()
    c.note(a, b, t)
    c.nontrivial(a != b)
    f = lambda x: cl.interpolate_coolwarm(a, b, x)
    M = cl.rgb_to_msh(*a), cl.rgb_to_msh(*b)
    for x, w, s in ((0.0, a, M[0]), (1.0, b, M[1])):
        # the hue of a nearly (not exactly) grey end is deliberately replaced
        nearly = 1e-9 < s[1] < 0.05 + 1e-9
        near(c, f(x), w, 0.25 if nearly else 1e-5, "coolwarm ends", f"{a} to {b} at {x}")
    g = f(t)
    c.check(len(g) == 3 and all(math.isfinite(x) for x in g), "coolwarm finite", f"{a} {b} {t}: {g}")
    smooth(c, f, 0.0, 1.0, "coolwarm jump", f"{a} to {b}", n=24, lim=1e-4)
    dh = abs(M[0][2] - M[1][2])
    dh = min(dh, 2 * math.pi - dh)
    if M[0][1] > 0.06 and M[1][1] > 0.06 and dh > math.pi / 3 + 0.01:
        g = f(0.5)
        c.check(max(g) - min(g) < 0.02 * max(g), "coolwarm middle", f"{a} to {b} is {g} in the middle, not grey")
        c.count("through white")
    if r.random() < 0.02:
        c.raises(AssertionError, "coolwarm outside", cl.interpolate_coolwarm, a, b, r.choice([-0.001, 1.001]))
    c.count("maps")


def msg(c):
    r = c.rng
    v = [r.choice([0, 1, r.random(), r.random(), r.random(), r.uniform(-2, 3), -1e-9, 1 + 1e-9, 5, -5]) for _ in range(4)]
    c.note(v)
    c.nontrivial()
    m_ = cl.make_color(*v)
    c.check(isinstance(m_, ColorRGBA), "type")
    c.eq([m_.r, m_.g, m_.b, m_.a], [min(1.0, max(0.0, x)) for x in v], "clamp", f"{v}")
    for x in v:
        c.eq(cl.safe_color_val(x), min(1.0, max(0.0, x)), "clamp", f"{x!r}")
    k = r.randrange(5)
    q = [r.random() for _ in range(4)]
    if k == 0:
        s, w = tuple(q), q
    elif k == 1:
        s, w = q[:3] if r.random() < 0.5 else tuple(q[:3]), q[:3] + [1.0]
    elif k == 2:
        b = [r.randrange(256) for _ in range(4)]
        s, w = "#" + "".join(f"{x:02x}" for x in b), [x / 255 for x in b]
        if r.random() < 0.5:
            s, w = s[:7], w[:3] + [1.0]
    elif k == 3:
        s, w = r.choice([("white", [1, 1, 1, 1]), ("r", [1, 0, 0, 1]), ("black", [0, 0, 0, 1]), ("lime", [0, 1, 0, 1]), ("b", [0, 0, 1, 1]), ("none", [0, 0, 0, 0])])
    else:
        x = round(q[0], 3)
        s, w = str(x), [x, x, x, 1.0]
    o = cl.to_color_msg(s)
    c.check(isinstance(o, ColorRGBA), "type")
    near(c, [o.r, o.g, o.b, o.a], w, 1e-12, "message", f"{s!r}")
    if r.random() < 0.03:
        c.raises(ValueError, "message", cl.to_color_msg, r.choice(["no such colour", "#12", "1.5x"]))
    c.count("messages")


m = Monitor()
m.group("convert", 6000, 60000, convert)
m.group("hot-to-cold", 6000, 60000, hot)
m.group("jet", 5000, 50000, jet)
m.group("coolwarm", 800, 12000, cool)
m.group("messages", 4000, 40000, msg)
m.finish()
