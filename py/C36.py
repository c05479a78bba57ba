# MON-rule: random sequences (lists, tuples, strings, ranges, arrays), instrumented one-shot iterators, sizes 1-12, 1-5 zipped arguments, nested dictionaries to depth 4 with clashes between values and sub-dictionaries, point lists with and without transforms; distinct by arguments
import copy, itertools, types
from collections import OrderedDict
import numpy as np
from arc_utilities import algorithms as al
from arc_utilities.dict_tools import dict_round
from arc_utilities.numpy_conversions import ListPointsToNpArray
from mon import Monitor


class Counted:
    """One-shot iterator that records how far it was pulled."""

    def __init__(self, xs):
        self.xs, self.n = list(xs), 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.n >= len(self.xs):
            self.n += 1
            raise StopIteration
        self.n += 1
        return self.xs[self.n - 1]


def seq(r, n=None, lo=0):
    n = r.randrange(lo, 24) if n is None else n
    k = r.randrange(5)
    if k == 0:
        return "".join(r.choice("abcd") for _ in range(n))
    if k == 1:
        return tuple(r.choice([None, 1, 2.5, "x", (1, 2), [3]]) for _ in range(n))
    if k == 2:
        return range(r.randrange(5), 100)[:n]
    return [r.randrange(-9, 9) for _ in range(n)]


def chunks(c):
    r = c.rng
    xs, n = seq(r), r.randrange(1, 13)
    c.note(xs, n)
    c.nontrivial(len(xs) > n)
    want = [list(xs[i * n : (i + 1) * n]) for i in range(len(xs) // n)]
    c.eq(list(al.chunked_drop_last(xs, n)), want, "chunks", f"{xs!r} by {n}")
    it = Counted(xs)
    g = al.chunked_drop_last(it, n)
    c.check(it.n == 0, "lazy", "elements consumed before the first chunk was asked for")
    for k, w in enumerate(want):
        c.eq(next(g), w, "chunks", f"chunk {k} of {xs!r} by {n}")
        c.check(it.n == (k + 1) * n, "lazy", f"{it.n} elements consumed for {k + 1} chunks of {n}")
        if r.random() < 0.1:
            return
    c.raises(StopIteration, "chunks", next, g)
    if r.random() < 0.3:
        inf = al.chunked_drop_last(itertools.count(3), n)
        c.eq([next(inf) for _ in range(4)], [[3 + k * n + i for i in range(n)] for k in range(4)], "endless")
    c.count("chunks", len(want))
    # from the end
    before = copy.deepcopy(xs)
    m = len(xs) // n
    rest = len(xs) - m * n
    got = al.reversed_chunked(xs, n)
    c.eq(got, [xs[rest + i * n : rest + (i + 1) * n] for i in range(m)], "reversed", f"{xs!r} by {n}")
    c.eq(xs, before, "modified", "the sequence changed")


def repeats(c):
    r = c.rng
    args = [seq(r, n=r.choice([1, 1, 2, 3, 5, 8])) for _ in range(r.randrange(1, 6))]
    before = copy.deepcopy(args)
    c.note(args)
    longest = max(len(a) for a in args)
    c.nontrivial(longest > 1)
    want = [tuple(a[min(i, len(a) - 1)] for a in args) for i in range(longest)]
    c.eq(list(al.zip_repeat_shorter(*args)), want, "zip", f"{args!r}")
    a = args[0]
    g = al.repeat_last(a)
    k = r.randrange(1, 30)
    c.eq([next(g) for _ in range(k)], [a[min(i, len(a) - 1)] for i in range(k)], "repeat", f"{a!r}")
    c.eq(args, before, "modified", "an argument changed")
    c.raises(RuntimeError, "empty", lambda: next(al.repeat_last(type(a)() if not isinstance(a, range) else [])))
    empties = [[] for _ in range(r.randrange(0, 4))]
    c.eq(list(al.zip_repeat_shorter(*empties)), [], "zip-empty", f"{empties!r}")
    mixed = args + [[]]
    r.shuffle(mixed)
    c.raises(RuntimeError, "zip-empty", lambda: list(al.zip_repeat_shorter(*mixed)))
    c.count("zipped", longest)


def unique(c):
    r = c.rng
    n = r.randrange(0, 9)
    xs = [r.choice([r.randrange(12), "s%d" % r.randrange(9), (1, r.randrange(5)), None, r.randrange(9) / 2]) for _ in range(n)]
    if r.random() < 0.3:
        xs = tuple(xs)
    c.note(xs)
    c.nontrivial(n > 1)
    want = not any(xs[i] == xs[j] for i in range(n) for j in range(i))
    c.eq(al.is_list_unique(xs), want, "unique", f"{xs!r}")
    c.count("unique" if want else "repeated")


KEYS = ["a", "b", "c", 1, (2, 3), None]


def tree(r, depth):
    d = OrderedDict() if r.random() < 0.15 else {}
    for k in r.sample(KEYS, r.randrange(0, 5)):
        if depth > 0 and r.random() < 0.5:
            d[k] = tree(r, depth - 1)
            if r.random() < 0.08:
                d[k] = types.MappingProxyType(dict(d[k]))
        else:
            d[k] = r.choice([0, 1, None, "text", [1, 2], 2.5, False])
    return d


def thaw(v):
    return {k: thaw(x) for k, x in v.items()} if hasattr(v, "items") else v


def merged(b, u):
    out = dict(b)
    for k, v in u.items():
        if hasattr(v, "items"):
            old = out.get(k)
            out[k] = merged(old if hasattr(old, "items") else {}, v)
        else:
            out[k] = v
    return out


def update(c):
    r = c.rng
    base, up = thaw(tree(r, 3)), tree(r, 3)
    c.note(base, thaw(up))
    want = merged(base, up)
    kept = thaw(up)
    c.nontrivial(bool(base) and bool(up))
    got = al.nested_dict_update(base, up)
    c.check(got is base, "in-place", "a different dictionary was returned")
    c.eq(thaw(base), want, "update", f"with {kept!r}")
    c.eq(thaw(up), kept, "modified", "the update changed")

    def spoil(d):
        for k in list(d):
            if isinstance(d[k], dict):
                spoil(d[k])
            elif isinstance(d[k], list):
                continue
        d["spoiled"] = 1

    spoil(base)  # sub-dictionaries of the result are its own
    c.eq(thaw(up), kept, "shared", "changing the result changed the update")
    b2 = thaw(tree(r, 2))
    w2 = copy.deepcopy(b2)
    c.check(al.nested_dict_update(b2, None) is b2 and b2 == w2, "no-update", "updating with nothing changed something")
    c.count("updates")


def rounding(c):
    r = c.rng
    d = {k: r.choice([r.uniform(-1e3, 1e3), r.randrange(100), r.uniform(-1, 1) * 10 ** r.randrange(-9, 9), np.float64(r.random())]) for k in r.sample(KEYS, r.randrange(0, 6))}
    before = dict(d)
    places = r.choice([0, 1, 2, 3, 6, -1, -2])
    c.note(d, places)
    c.nontrivial(bool(d))
    c.eq(dict_round(d, places), {k: round(v, places) for k, v in before.items()}, "round", f"{d!r} to {places}")
    c.eq(dict_round(d), {k: round(v, 2) for k, v in before.items()}, "round", f"{d!r}")
    c.eq(list(dict_round(d)), list(before), "order", "keys reordered")
    c.eq(d, before, "modified", "the dictionary changed")


class Pt:
    def __init__(self, r):
        self.x, self.y, self.z = (r.uniform(-9, 9) if r.random() < 0.8 else r.randrange(-3, 3) for _ in range(3))


def points(c):
    r = c.rng
    ps = [Pt(r) for _ in range(r.randrange(0, 12))]
    if r.random() < 0.3:
        ps = tuple(ps)
    raw = [(p.x, p.y, p.z) for p in ps]
    c.note(raw)
    c.nontrivial(len(ps) > 0)
    m = np.array([[r.uniform(-2, 2) for _ in range(4)] for _ in range(r.choice([3, 4]))])
    m0 = m.copy()
    a, b = ListPointsToNpArray(ps), ListPointsToNpArray(ps, m)
    c.check(a.shape == (3, len(ps)) and b.shape == (3, len(ps)), "shape", f"{a.shape} {b.shape}")
    c.check([tuple(x) for x in a.T] == raw, "points", "other coordinates")
    for i, p in enumerate(raw):
        w = [sum(m0[k, j] * v for j, v in enumerate(p + (1,))) for k in range(3)]
        c.check(np.allclose(b[:, i], w, rtol=0, atol=1e-12), "transformed", lambda: f"{b[:, i]} for {w}")
    c.check((m == m0).all() and [(p.x, p.y, p.z) for p in ps] == raw, "modified", "an argument changed")
    c.count("points", len(ps))


m = Monitor()
m.group("chunks", 6000, 300000, chunks)
m.group("repeats", 6000, 300000, repeats)
m.group("unique", 4000, 100000, unique)
m.group("update", 6000, 300000, update)
m.group("rounding", 3000, 60000, rounding)
m.group("points", 3000, 60000, points)
m.finish()
