# MON-rule: guarded calls with random argument lists, results, ordinary and non-ordinary exceptions, catching on/off; time-limited calls, restarting and skipping generators of 0-8 items under a virtual clock whose alarm fires inside the call at an exact point; a few runs on the real alarm; distinct by call scripts
import contextlib, io, signal, sys, time

REAL = {n: getattr(signal, n) for n in ("signal", "alarm", "setitimer", "getitimer", "getsignal")}


class Virtual:
    """A virtual clock behind the signal module's alarm functions."""

    def __init__(self):
        self.on, self.reset()

    on = False

    def reset(self):
        self.now, self.due, self.handler, self.fired = 0.0, None, signal.SIG_DFL, 0

    def signal(self, num, h):
        if not self.on or num != signal.SIGALRM:
            return REAL["signal"](num, h)
        old, self.handler = self.handler, h
        return old

    def getsignal(self, num):
        return self.handler if self.on and num == signal.SIGALRM else REAL["getsignal"](num)

    def alarm(self, s):
        if not self.on:
            return REAL["alarm"](s)
        if int(s) != s:
            raise TypeError("'float' object cannot be interpreted as an integer")
        old = 0 if self.due is None else max(1, int(self.due - self.now))
        self.due = self.now + s if s else None
        return old

    def setitimer(self, which, s, interval=0.0):
        if not self.on or which != signal.ITIMER_REAL:
            return REAL["setitimer"](which, s, interval)
        old = (0.0 if self.due is None else self.due - self.now, 0.0)
        self.due = self.now + s if s else None
        return old

    def getitimer(self, which):
        if not self.on:
            return REAL["getitimer"](which)
        return (0.0 if self.due is None else self.due - self.now, 0.0)

    def spend(self, t):
        """Time passes; a due alarm interrupts at its moment."""
        end = self.now + t
        if self.due is not None and self.due <= end:
            self.now, self.due = self.due, None
            self.fired += 1
            if not callable(self.handler):
                raise RuntimeError("the alarm went off without a handler")
            self.handler(signal.SIGALRM, None)
        self.now = end


V = Virtual()
for _n in REAL:
    setattr(signal, _n, getattr(V, _n))
from arc_utilities import catches
from arc_utilities.conditional_try import conditional_try
from mon import Monitor


class Odd(BaseException):
    pass


def boom(r, ordinary=None):
    o = [ValueError("v"), KeyError("k"), RuntimeError(), ZeroDivisionError(), AssertionError("a"), StopIteration(3), OSError(5, "x")]
    b = [KeyboardInterrupt(), SystemExit(2), Odd(), GeneratorExit()]
    return r.choice(o if ordinary is True else b if ordinary is False else o + b)


@contextlib.contextmanager
def quiet():
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


@contextlib.contextmanager
def clock():
    V.reset()
    V.on = True
    try:
        yield
    finally:
        V.on = False


def value(r):
    return r.choice([None, 0, False, "", "text", [1], {}, 3.5, True])


def outcome(f):
    with quiet():
        try:
            return "returned", f()
        except BaseException as e:
            return "raised", e


def guarded(c):
    r = c.rng
    kw = {k: value(r) for k in r.sample(["a", "b", "x", "path", "seconds", "func"], r.randrange(0, 4))}
    res, exc = value(r), (boom(r) if r.random() < 0.6 else None)
    catch = r.choice([True, False, 1, 0, None, "yes"])
    fall = r.choice(["default", value(r), object()])
    calls = []

    def f(**k):
        calls.append(k)
        if exc is not None:
            raise exc
        return res

    args = [catch, f] + ([] if fall == "default" else [fall])
    c.note(str(kw), repr(res), repr(exc), catch, type(fall).__name__)
    c.nontrivial(exc is not None)
    how, got = outcome(lambda: conditional_try(*args, **kw))
    c.eq(calls, [kw], "calls", "made")
    if exc is None:
        c.check(how == "returned" and got is res, "result", lambda: f"{how} {got!r} instead of {res!r}")
    elif catch and isinstance(exc, Exception):
        want = None if fall == "default" else fall
        c.check(how == "returned" and got is want, "fallback", lambda: f"{how} {got!r} instead of {want!r}")
        c.count("caught")
    else:
        c.check(how == "raised" and got is exc, "propagates", lambda: f"{how} {got!r} instead of raising {exc!r}")
        c.count("propagated")


def limited(c):
    r = c.rng
    limit = r.randrange(1, 6)
    args, kw = tuple(value(r) for _ in range(r.randrange(3))), {k: value(r) for k in r.sample(["x", "y", "gen"], r.randrange(3))}
    calls, results = [], []
    with clock():
        V.now = r.uniform(0, 100)
        for _ in range(r.randrange(1, 5)):
            spends = [r.uniform(0, 2) * limit / 2 for _ in range(r.randrange(0, 4))]
            if abs(sum(spends) - limit) < 1e-3:
                continue
            res, exc = value(r), (boom(r) if r.random() < 0.4 else None)
            cleaned = []

            def f(*a, **k):
                calls.append((a, k))
                try:
                    for s in spends:
                        V.spend(s)
                finally:
                    cleaned.append(1)
                if exc is not None:
                    raise exc
                return res

            c.note(limit, spends, repr(exc), repr(res))
            late = sum(spends) > limit
            n = len(calls)
            t0 = V.now
            how, got = outcome(lambda: catches.catch_timeout(limit, f, *args, **kw))
            c.check(calls[n:] == [(args, kw)] and len(cleaned) == 1, "calls", lambda: f"{calls[n:]} for {args} {kw}")
            c.check(V.due is None, "armed", lambda: f"an alarm is still due in {V.due - V.now} s")
            if late:
                c.check(how == "returned" and tuple(got) == (None, True), "timeout", lambda: f"{how} {got!r} after {spends} of {limit}")
                c.check(abs(V.now - t0 - limit) < 1e-9, "timeout", lambda: f"interrupted after {V.now - t0} instead of {limit}")
                c.count("timeouts")
            elif exc is not None:
                c.check(how == "raised" and got is exc, "propagates", lambda: f"{how} {got!r} instead of raising {exc!r}")
                c.count("propagated")
            else:
                c.check(how == "returned" and got[0] is res and got[1] is False, "result", lambda: f"{how} {got!r} instead of {res!r}")
                c.count("in-time")
            try:
                V.spend(20)  # nothing may fire later
            except BaseException as e:
                c.check(False, "armed", f"later {e!r}")
            results.append(late)
    c.nontrivial(bool(results))


class Script:
    """A source of items: each takes some time; it is a generator that dies when interrupted, or an iterator that survives."""

    def __init__(self, steps, survive, log):
        self.steps, self.k, self.survive, self.log = steps, 0, survive, log

    def __iter__(self):
        return self

    def __next__(self):
        if self.k >= len(self.steps):
            raise StopIteration
        item, t, exc = self.steps[self.k]
        self.k += 1
        V.spend(t)
        if exc is not None:
            raise exc
        return item


def source(steps, survive, log):
    log.append("start")
    if survive:
        return Script(steps, True, log)

    def g():
        for item, t, exc in steps:
            V.spend(t)
            if exc is not None:
                raise exc
            yield item

    return g()


def generators(c):
    r = c.rng
    limit = r.randrange(1, 4)
    retry = r.random() < 0.5
    survive = r.random() < 0.5
    fails = r.random() < 0.25
    passes = []  # one list of steps per (re)start
    for _ in range(r.randrange(1, 5)):
        st = []
        for k in range(r.randrange(0, 8)):
            slow = r.random() < 0.2
            st.append([r.choice([k, None, "x", 0]), limit * (r.uniform(1.05, 3) if slow else r.uniform(0, 0.95)), None])
        passes.append(st)
    if retry:
        for s in passes[-1]:
            s[1] = min(s[1], 0.9 * limit)  # the last attempt gets through
    if fails and passes[-1]:
        r.choice(passes[-1])[2] = boom(r, ordinary=r.random() < 0.7)
        if isinstance(next(s[2] for s in passes[-1] if s[2] is not None), StopIteration):
            next(s for s in passes[-1] if s[2] is not None)[2] = ValueError("v")
    idle = [r.uniform(0, 10) for _ in range(60)]  # the consumer's own time, which is not limited
    use_cb = r.random() < 0.7
    # the expected events
    want, err, used = [], None, 0
    cur, k = list(passes[0]), 0
    while True:
        if k >= len(cur):
            break
        item, t, exc = cur[k]
        k += 1
        if t > limit:
            if retry:
                used += 1
                cur, k = list(passes[used]), 0
                if use_cb:
                    want.append("timeout")
            elif not survive:
                break
            continue
        if exc is not None:
            err = exc
            break
        want.append(("item", item))
    c.note(limit, retry, survive, repr(passes), use_cb)
    c.nontrivial(len(want) > 1)
    log, got, ga, gk = [], [], ("p", 3), {"q": [1]}
    raised = None

    def gen(*a, **kw):
        c.check(a == ga and kw == gk, "arguments", f"{a} {kw}")
        return source(passes[min(len(log), len(passes) - 1)], survive, log)

    with clock(), quiet():
        try:
            if retry:
                it = catches.retry_on_timeout(limit, (lambda: got.append("timeout")) if use_cb else None, gen, *ga, **gk)
            else:
                it = catches.skip_on_timeout(limit, gen, *ga, **gk)
            for n, x in enumerate(it):
                got.append(("item", x))
                if V.due is not None:
                    c.check(False, "armed", "an alarm is armed while the consumer works")
                V.spend(idle[n % 60])
        except Odd as e:
            raised = e
        except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
            if type(e).__name__ == "Failed":
                raise
            raised = e
        late = V.due
    c.check(late is None, "armed", "an alarm is armed afterwards")
    c.check(got == want, "events", lambda: f"{'retry' if retry else 'skip'} limit {limit} on {passes}: {got} instead of {want}")
    c.check(raised is err, "generator-raises", lambda: f"{raised!r} instead of {err!r}")
    c.check(len(log) == used + 1, "restarts", f"{len(log)} starts for {used} timeouts")
    c.count("items", len(want))
    c.count("restarts", used)


def real(c):
    r = c.rng
    kind = c.index % 3
    c.note(c.index)
    c.nontrivial(True)
    state = []

    def busy(t):
        e = time.monotonic() + t
        while time.monotonic() < e:
            if kind != 1:
                time.sleep(0.01)
        state.append(1)
        return "done"

    t0 = time.monotonic()
    if kind == 2:
        how, got = outcome(lambda: catches.catch_timeout(5, busy, r.uniform(0, 0.2)))
        c.check(how == "returned" and tuple(got) == ("done", False), "real-result", f"{how} {got!r}")
    else:
        how, got = outcome(lambda: catches.catch_timeout(1, busy, 30))
        d = time.monotonic() - t0
        c.check(how == "returned" and tuple(got) == (None, True) and not state, "real-timeout", f"{how} {got!r}")
        c.check(0.9 <= d <= 20, "real-timeout", f"after {d} s")
    c.check(REAL["getitimer"](signal.ITIMER_REAL)[0] == 0.0, "real-armed", "an alarm is still armed")
    c.count("real-alarms")


m = Monitor()
m.group("guarded", 6000, 200000, guarded)
m.group("limited", 6000, 200000, limited)
m.group("generators", 8000, 300000, generators)
m.group("real", 12, 96, real)
m.finish()
