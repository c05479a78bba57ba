"""Monitor framework for the Python harnesses (same protocol as harness/mon.hpp)."""
import argparse, faulthandler, hashlib, json, os, random, struct, sys, time, traceback


class Failed(Exception):
    pass


class Case:
    def __init__(self, m, group, index, seed):
        self.m, self.group, self.index = m, group, index
        self.rng = random.Random(seed)
        self._sig = hashlib.blake2b(group.encode(), digest_size=8)
        self._nt = False

    def note(self, *v):
        self._sig.update(repr(v).encode())

    def nontrivial(self, b=True):
        self._nt = self._nt or bool(b)

    def count(self, name, n=1):
        self.m.counters[name] = self.m.counters.get(name, 0) + n

    def sample(self, s):
        v = self.m.samples.setdefault(self.group, [])
        if len(v) < 2:
            v.append(str(s)[:400])

    def check(self, ok, key, msg=""):
        if not ok:
            self.m.add(self, key, msg() if callable(msg) else str(msg))
            raise Failed()

    def eq(self, a, b, key, msg=""):
        if not (type(a) == type(b) or True) or not (a == b):
            self.check(False, key, f"{msg} got={a!r} want={b!r}")

    def raises(self, exc, key, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc:
            return
        except BaseException as e:
            self.check(False, key, f"expected {exc}, got {e!r} for {a!r} {k!r}")
        self.check(False, key, f"expected {exc}, returned {r!r} for {a!r} {k!r}")


class Monitor:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--shard", default="0/1")
        ap.add_argument("--out")
        ap.add_argument("--progress")
        ap.add_argument("--group")
        ap.add_argument("--index", type=int, default=-1)
        ap.add_argument("--cpu", type=int, default=60)
        a = ap.parse_args()
        self.a = a
        self.seed, self.thorough = a.seed, a.tier == "thorough"
        self.shard, self.shards = map(int, a.shard.split("/"))
        self.counters, self.samples, self.groups = {}, {}, {}
        self.violations, self.per_key, self.sigs = [], {}, set()
        self.evaluations = 0
        self.wall = 150
        self.t0 = time.monotonic()

    def add(self, c, key, msg):
        k = f"{c.group}:{key}"
        n = self.per_key[k] = self.per_key.get(k, 0) + 1
        if n <= 3:
            self.violations.append(dict(group=c.group, index=c.index, key=k, msg=msg[:1500]))

    def group(self, name, nq, nt, fn):
        if self.a.group and self.a.group != name:
            return
        n = nt if self.thorough else nq
        off = sum(name.encode()) % 97
        for i in range(n):
            if self.violations and time.monotonic() - self.t0 > 45:
                return  # decided: what is left could only repeat it
            if self.a.index >= 0:
                if i != self.a.index:
                    continue
            elif (i + off) % self.shards != self.shard:
                continue
            if self.a.progress:
                with open(self.a.progress, "w") as f:
                    json.dump(dict(group=name, index=i), f)
            c = Case(self, name, i, f"{self.seed}/{name}/{i}")
            faulthandler.dump_traceback_later(self.wall, exit=True)  # exit code 1 with a stack; the driver treats it as a hang
            try:
                fn(c)
            except Failed:
                pass
            except Exception:
                self.add(c, "exception", "unexpected exception: " + traceback.format_exc()[-1200:])
            finally:
                faulthandler.cancel_dump_traceback_later()
            self.evaluations += 1
            self.groups[name] = self.groups.get(name, 0) + 1
            if c._nt:
                self.sigs.add(c._sig.digest())

    def finish(self):
        o = dict(evaluations=self.evaluations, groups=self.groups, counters=self.counters,
                 samples=[dict(group=g, case=s) for g, v in self.samples.items() for s in v], violations=self.violations)
        if self.a.out:
            with open(self.a.out, "w") as f:
                json.dump(o, f)
            with open(self.a.out + ".sig", "wb") as f:
                f.write(b"".join(self.sigs))
        else:
            json.dump(o, sys.stdout, indent=1)
            print()
        sys.stdout.flush()
        os._exit(0)
