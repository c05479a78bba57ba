# MON-rule: polylines of 1-12 waypoints in 1-7 dimensions, scales 1e-3 to 1e4, as lists of lists/tuples, lists of arrays, 2-D arrays and whole numbers, with repeated waypoints, doubling back, collinear runs and self-crossings; queries on, near, past and far off the path; trajectories of 0-12 points; distinct by path and arguments
import copy, math
import numpy as np
import rospy
from trajectory_msgs.msg import JointTrajectory, JointTrajectoryPoint
from arc_utilities import path_utils as pu
from mon import Monitor


def gen_path(r, nmin=1):
    n = max(nmin, r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12]))
    dim = r.choice([1, 2, 2, 3, 3, 4, 7])
    ints = r.random() < 0.25
    scale = r.choice([2, 5, 20, 1000]) if ints else 10 ** r.uniform(-3, 4)
    pts = []
    for i in range(n):
        k = r.random()
        if pts and k < 0.12:
            p = list(pts[-1])  # repeated waypoint
        elif len(pts) > 1 and k < 0.25:
            p = list(r.choice(pts))  # back to an earlier one
        elif len(pts) > 1 and k < 0.4:  # carry straight on, or double back along the last segment
            a, b = pts[-2], pts[-1]
            f = r.choice([1, 2, -1]) if ints else r.choice([1, 0.5, -0.5, -1, -2])
            p = [y + f * (y - x) for x, y in zip(a, b)]
        elif k < 0.5 and pts:  # axis-parallel step
            p = list(pts[-1])
            j = r.randrange(dim)
            p[j] += r.randrange(-5, 6) if ints else r.uniform(-scale, scale)
        else:
            p = [r.randrange(-int(scale), int(scale) + 1) if ints else r.uniform(-scale, scale) for _ in range(dim)]
        pts.append(p)
    return pts, dim, scale, ints


def form(r, pts, ints):
    k = r.randrange(4)
    if k == 0:
        return [list(p) for p in pts]
    if k == 1:
        return [tuple(p) for p in pts]
    if k == 2:
        return [np.array(p) for p in pts]
    return np.array(pts)


def F(pts):
    return [np.array(p, dtype=float) for p in pts]


def seg_closest(a, b, q):
    v = b - a
    vv = float(v @ v)
    t = 0.0 if vv == 0 else min(1.0, max(0.0, float((q - a) @ v) / vv))
    return a + t * v, t


def poly_dist(P, q):
    best = float(np.linalg.norm(P[0] - q))
    for a, b in zip(P, P[1:]):
        best = min(best, float(np.linalg.norm(seg_closest(a, b, q)[0] - q)))
    return best


def same(path, keep, c):
    c.check(len(path) == len(keep) and all(np.array_equal(a, b) for a, b in zip(path, keep)), "input", "the path handed in was changed")


def cum(P):
    s = [0.0]
    for a, b in zip(P, P[1:]):
        s.append(s[-1] + float(np.linalg.norm(b - a)))
    return s


def at(P, S, s):
    """Point at arclength s."""
    s = min(max(s, 0.0), S[-1])
    for i in range(len(P) - 1):
        if s <= S[i + 1]:
            L = S[i + 1] - S[i]
            return P[i] if L == 0 else P[i] + (P[i + 1] - P[i]) * ((s - S[i]) / L)
    return P[-1]


def query(r, P, dim, scale):
    k = r.randrange(5)
    if k == 0:
        return r.choice(P).copy()
    i = r.randrange(len(P))
    a, b = P[i], P[min(i + 1, len(P) - 1)]
    q = a + (b - a) * r.choice([0.5, 0.25, r.random()])
    off = np.array([r.uniform(-1, 1) for _ in range(dim)])
    if k == 1:
        return q
    if k == 2:
        return q + off * scale * r.choice([1e-3, 1e-1])
    if k == 3:
        return a + (b - a) * r.choice([-0.5, 1.5, 3]) + off * scale * 1e-2
    return off * scale * 5


def size(P, *more):
    return max(float(np.abs(np.array(list(P) + list(more))).max()), 1e-6)


def closest(c):
    r = c.rng
    pts, dim, scale, ints = gen_path(r)
    path = form(r, pts, ints)
    keep = copy.deepcopy(path)
    P = F(pts)
    q = query(r, P, dim, scale)
    qa = r.choice([list, np.array, tuple])(q)
    c.note(pts, q.tolist())
    c.nontrivial(len(pts) > 2)
    got, ind, alpha = pu.closest_point(path, qa)
    same(path, keep, c)
    c.check(np.array_equal(np.array(qa), q), "input", "query changed")
    tol = 1e-9 * size(P, q)
    g = np.array(got, dtype=float)
    c.check(g.shape == (dim,), "shape", f"{g.shape}")
    best = poly_dist(P, q)
    c.check(abs(np.linalg.norm(g - q) - best) <= tol, "nearest", f"distance {np.linalg.norm(g - q)!r} for the best {best!r}: path {pts} query {q.tolist()}")
    c.check(0 <= ind <= len(P) - 1 and int(ind) == ind, "index", f"index {ind} of {len(P)} waypoints")
    c.check(0 <= alpha < 1, "fraction", f"fraction {alpha!r}")
    c.check(ind < len(P) - 1 or alpha == 0, "fraction", f"fraction {alpha!r} past the last waypoint")
    w = P[ind] if alpha == 0 else P[ind] + alpha * (P[ind + 1] - P[ind])
    c.check(np.linalg.norm(g - w) <= tol, "reproduce", f"waypoint {ind} + {alpha!r} gives {w.tolist()}, returned {g.tolist()}")
    c.count("queries")
    # a single segment
    if len(P) > 1:
        i = r.randrange(len(P) - 1)
        p, al = pu.closest_point_to_line_segment([path[i], path[i + 1]], qa)
        wp, wt = seg_closest(P[i], P[i + 1], q)
        c.check(np.linalg.norm(np.array(p, dtype=float) - wp) <= tol, "segment", f"{p} for {wp}: {pts[i]} {pts[i+1]} {q.tolist()}")
        c.check(0 <= al <= 1, "segment", f"fraction {al!r}")
        c.check(np.linalg.norm(P[i] + al * (P[i + 1] - P[i]) - np.array(p, dtype=float)) <= tol, "segment", f"fraction {al!r} does not give {p}")
    c.check(abs(pu.dist(path[0], qa) - np.linalg.norm(P[0] - q)) <= tol, "distance")
    S = cum(P)
    c.check(abs(pu.path_length(path) - S[-1]) <= 1e-9 * max(S[-1], tol), "length", f"{pu.path_length(path)!r} for {S[-1]!r}: {pts}")
    same(path, keep, c)


def densify(c):
    r = c.rng
    if r.random() < 0.03:
        c.note("empty")
        c.eq(len(pu.densify([], 1.0)), 0, "empty")
        c.eq(pu.path_length([]), 0, "empty")
        return
    pts, dim, scale, ints = gen_path(r)
    path = form(r, pts, ints)
    keep = copy.deepcopy(path)
    P = F(pts)
    S = cum(P)
    longest = max([b - a for a, b in zip(S, S[1:])] + [1e-9])
    md = r.choice([longest * 2, longest, longest / 2, longest / 3, longest / 7.5, longest * r.uniform(0.02, 1.2)])
    if ints and r.random() < 0.5:
        md = max(1, int(md))
    md = max(md, S[-1] / 2000, 1e-12)
    c.note(pts, md)
    c.nontrivial(longest > md)
    out = pu.densify(path, md)
    same(path, keep, c)
    D = F(out)
    tol = 1e-9 * size(P)
    c.check(np.linalg.norm(D[0] - P[0]) <= tol, "start", f"{D[0]} for {P[0]}")
    c.check(np.linalg.norm(D[-1] - P[-1]) <= tol, "end", f"{D[-1]} for {P[-1]}: {pts} at {md}")
    for a, b in zip(D, D[1:]):
        c.check(np.linalg.norm(b - a) <= md * (1 + 1e-9) + tol, "gap", f"gap {np.linalg.norm(b - a)!r} above {md!r}: {pts}")
    # walk: the result visits the waypoints in order and, between two of them, advances along their segment
    k = 0
    for i, w in enumerate(P):
        if i == 0:
            continue
        a, t0 = P[i - 1], 0.0
        if np.linalg.norm(w - a) <= 1e-12 * size(P):
            continue  # repeated waypoint: already there
        cnt = 0
        while True:
            k += 1
            cnt += 1
            c.check(k < len(D), "waypoints", f"waypoint {i} of {pts} never reached at {md!r}")
            p, t = seg_closest(a, w, D[k])
            c.check(np.linalg.norm(p - D[k]) <= tol, "on-path", f"{D[k].tolist()} is not on segment {i - 1} of {pts}")
            c.check(t >= t0 - 1e-9, "order", f"goes backwards on segment {i - 1} of {pts}")
            t0 = t
            if np.linalg.norm(D[k] - w) <= tol:
                break
    c.check(np.linalg.norm(np.array(D[k:]) - P[-1]).max() <= tol, "end", f"continues past the end of {pts}: {len(D) - k - 1} points")
    c.check(abs(sum(np.linalg.norm(b - a) for a, b in zip(D, D[1:])) - S[-1]) <= 1e-9 * size(P) * len(D), "length", f"{pts} at {md}")
    c.count("points", len(D))


def travel(c):
    r = c.rng
    pts, dim, scale, ints = gen_path(r)
    path = form(r, pts, ints)
    keep = copy.deepcopy(path)
    P = F(pts)
    S = cum(P)
    L = S[-1]
    kind = r.randrange(7)
    d = [0, L * r.uniform(0, 1), L * r.uniform(0, 1), L * 2 + 1, r.choice(S), L / 2, L * r.uniform(0, 0.2)][kind]
    d *= r.choice([1, -1])
    start = None
    if r.random() < 0.75:
        start = query(r, P, dim, scale)
        if r.random() < 0.3:
            start = P[-1].copy()
    c.note(pts, d, None if start is None else start.tolist())
    c.nontrivial(len(pts) > 2 and d != 0)
    tol = 1e-8 * size(P, *([] if start is None else [start]))
    if start is None and r.random() < 0.5:
        out = pu.travel_along(path, d)
    else:
        out = pu.travel_along(path, d, starting_point=None if start is None else r.choice([list, np.array])(start))
    same(path, keep, c)
    D = F(out)
    c.check(len(D) >= 1, "empty", "no points")
    sp = P[0] if start is None else start
    c.check(abs(np.linalg.norm(D[0] - sp) - poly_dist(P, sp)) <= tol, "start", f"starts at {D[0].tolist()} for the start {sp.tolist()}")
    # admissible arclengths of the start (it may lie on several segments): all points of the path that coincide with D[0]
    cands = []
    for i in range(len(P) - 1):
        p, t = seg_closest(P[i], P[i + 1], D[0])
        if np.linalg.norm(p - D[0]) <= tol:
            cands.append(S[i] + t * (S[i + 1] - S[i]))
    if not cands:
        cands = [0.0]
    n = sum(np.linalg.norm(b - a) for a, b in zip(D, D[1:]))
    sg = 0 if d == 0 else (1 if d > 0 else -1)
    c.eq(len(D) if sg == 0 else 1, 1, "still", f"moves for distance 0: {out}")
    why = []
    for s0 in cands:
        want = 0 if sg == 0 else (min(abs(d), L - s0) if sg > 0 else min(abs(d), s0))
        if abs(n - want) > 1e-8 * max(L, 1e-9) + 4 * tol:
            why.append(f"length {n!r} for {want!r}")
            continue
        # every returned point lies at its own distance along the path
        acc, bad = 0.0, False
        prev = D[0]
        for p in D:
            acc += float(np.linalg.norm(p - prev))
            prev = p
            if np.linalg.norm(at(P, S, s0 + sg * acc) - p) > 20 * tol:
                bad = True
                why.append(f"{p.tolist()} is not on the path at distance {acc!r} from the start")
                break
        if not bad:
            # the corners passed are all there
            ok = all(any(np.linalg.norm(p - P[i]) <= 20 * tol for p in D) for i in range(len(P)) if min(s0, s0 + sg * n) + 50 * tol < S[i] < max(s0, s0 + sg * n) - 50 * tol)
            if ok:
                break
            why.append("a waypoint passed on the way is missing")
    else:
        c.check(False, "travel", f"{why[:3]} path {pts} distance {d!r} start {sp.tolist()} result {[p.tolist() for p in D]}")
    c.count("steps", len(D) - 1)
    c.count("stopped at an end" if n < abs(d) - 10 * tol else "full length")


def dur(ns):
    return rospy.Duration(ns // 10**9, ns % 10**9)


def reverse(c):
    r = c.rng
    n = r.choice([0, 1, 2, 2, 3, 4, 6, 12])
    t = r.choice([0, 0, r.randrange(3 * 10**9)])
    tr = JointTrajectory()
    tr.joint_names = [f"j{i}" for i in range(r.randrange(4))]
    tr.header.frame_id = "base"
    ts = []
    for i in range(n):
        p = JointTrajectoryPoint()
        p.positions = [r.uniform(-3, 3) for _ in tr.joint_names] + [float(i)]
        p.time_from_start = dur(t)
        p.effort = [float(i)]
        tr.points.append(p)
        ts.append(t)
        t += r.choice([0, 1, 10**9, 999999999, r.randrange(5 * 10**9)])
    if r.random() < 0.2:
        tr.points = tuple(tr.points)
    c.note([list(p.positions) for p in tr.points], ts)
    c.nontrivial(n > 1)
    keep = copy.deepcopy(tr)
    ids = [id(p) for p in tr.points]
    out = pu.reverse_trajectory(tr)
    c.check(out is not tr, "original", "the trajectory itself is returned")
    c.eq(list(out.joint_names), list(tr.joint_names), "names")
    c.eq(out.header.frame_id, "base", "names")
    c.eq(len(out.points), n, "points")
    for i, p in enumerate(out.points):
        q = keep.points[n - 1 - i]
        c.eq(list(p.positions), list(q.positions), "points", f"point {i}")
        c.eq(list(p.effort), list(q.effort), "points", f"point {i}")
        c.eq(p.time_from_start.to_nsec(), ts[-1] - ts[n - 1 - i], "timing", f"point {i} of {ts}")
    for p in out.points:  # changing the result leaves the original alone
        p.positions = list(p.positions) + [99.0]
        p.time_from_start = rospy.Duration(77)
    out.joint_names.append("x")
    out.header.frame_id = "changed"
    c.eq(tr.header.frame_id, "base", "original", "header")
    c.eq([id(p) for p in tr.points], ids, "original")
    c.eq(list(tr.joint_names), list(keep.joint_names), "original")
    for i, (p, q) in enumerate(zip(tr.points, keep.points)):
        c.eq(list(p.positions), list(q.positions), "original", f"point {i}")
        c.eq(p.time_from_start.to_nsec(), ts[i], "original", f"time of point {i}")
    if n:
        back = pu.reverse_trajectory(pu.reverse_trajectory(tr))
        c.eq([p.time_from_start.to_nsec() for p in back.points], [x - ts[0] for x in ts], "timing", "twice reversed")
        c.eq([list(p.positions) for p in back.points], [list(p.positions) for p in keep.points], "points", "twice reversed")
    c.count("trajectory points", n)


m = Monitor()
m.group("closest", 6000, 60000, closest)
m.group("densify", 4000, 40000, densify)
m.group("travel", 8000, 80000, travel)
m.group("reverse", 3000, 30000, reverse)
m.finish()
