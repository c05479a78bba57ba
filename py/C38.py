# MON-rule: linear, quadratic and cubic boundary problems of dimension scalar and 1-7 (integers, floats, mixed), durations 1e-2 to 1e3, query times inside, at both ends, outside and negative, asked in random order; distinct by boundary values
from fractions import Fraction as Q
import numpy as np
from arc_utilities import trajectory_planning as tp
from mon import Monitor

EPS = 2.0 ** -52


def value(r, dim, ints):
    def one():
        if ints:
            return r.randrange(-9, 10)
        return r.choice([0.0, r.uniform(-10, 10), r.uniform(-1e3, 1e3), r.uniform(-1e-3, 1e-3)])

    if dim == 0:
        return one()
    return np.array([one() for _ in range(dim)])


def flat(v):
    return [Q(float(x)) for x in np.ravel(v)]


def coeffs(kind, x0, v0, xt, vt, t):
    """Exact polynomial coefficients from the boundary values."""
    if kind == 1:
        return x0, v0, Q(0), Q(0)
    if kind == 2:
        return x0, v0, (xt - x0 - v0 * t) / t**2, Q(0)
    # solve [t^2 t^3; 2t 3t^2] [b c] = [xt-x0-v0 t, vt-v0]
    p, q = xt - x0 - v0 * t, vt - v0
    det = t**2 * 3 * t**2 - t**3 * 2 * t
    return x0, v0, (p * 3 * t**2 - t**3 * q) / det, (t**2 * q - 2 * t * p) / det


def problem(c):
    r = c.rng
    kind = 1 + c.index % 3
    dim = r.choice([0, 0, 1, 2, 3, 7])
    ints = r.random() < 0.2
    x0, v0, xt, vt = (value(r, dim, ints and r.random() < 0.8) for _ in range(4))
    t = r.choice([1, 2, 5]) if ints else r.choice([r.uniform(0.01, 1), r.uniform(1, 10), 10 ** r.uniform(-2, 3), 1.0])
    args = (x0, v0) + ((xt, t) if kind == 2 else (xt, vt, t) if kind == 3 else ())
    kept = [np.array(a, copy=True) for a in args]
    c.note(kind, [a.tolist() for a in kept])
    c.nontrivial(np.any(kept[1]) if kind == 1 else True)
    fn = (tp.get_linear_trajectory, tp.get_quadratic_trajectory, tp.get_cubic_trajectory)[kind - 1](*args)
    T = Q(float(t))
    co = [coeffs(kind, a, b, e, f, T) for a, b, e, f in zip(flat(x0), flat(v0), flat(xt), flat(vt))]
    mag = [float(abs(a) + abs(e) + (abs(b) + abs(f)) * T) for a, b, e, f in zip(flat(x0), flat(v0), flat(xt), flat(vt))]
    times = [0, 0.0, t, t / 2] + [r.uniform(0, float(t)) for _ in range(4)] + [r.uniform(-2, 3) * float(t) for _ in range(4)]
    r.shuffle(times)
    for s in times:
        res = fn(s)
        c.check(isinstance(res, tuple) and len(res) == 3, "shape", f"{res!r}")
        S, u = Q(float(s)), abs(float(s) / float(t))
        for order, got in enumerate(res):
            c.check(np.shape(got) == np.shape(x0), "shape", lambda: f"derivative {order} has shape {np.shape(got)} for {np.shape(x0)}")
            for g, (a, b, d, e), m in zip(np.ravel(got), co, mag):
                w = (a + b * S + d * S**2 + e * S**3, b + 2 * d * S + 3 * e * S**2, 2 * d + 6 * e * S)[order]
                tol = 400 * EPS * m * (1 + u + u * u + u**3) / float(t) ** order + 1e-300
                c.check(abs(Q(float(g)) - w) <= tol, ("position", "velocity", "acceleration")[order],
                        lambda: f"degree {kind} from {x0}, {v0} to {xt}, {vt} in {t}: {float(g)!r} at {s}, exactly {float(w)!r}")
        if s == 0:
            c.check(np.array_equal(res[0], x0) and np.array_equal(res[1], v0), "start", lambda: f"{res[:2]} instead of {x0}, {v0}")
        for x in res:  # results are the caller's to change
            if isinstance(x, np.ndarray):
                x += 7
        c.count("evaluations")
    for a, k in zip(args, kept):
        c.check(np.array_equal(a, k), "modified", lambda: f"an input became {a}")
    c.count(("linear", "quadratic", "cubic")[kind - 1])


m = Monitor()
m.group("boundary", 6000, 200000, problem)
m.finish()
