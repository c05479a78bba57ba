# MON-rule: random trees to depth 4 with hidden, spaced, glob-character and dashed names, read-only files, FIFOs, and symbolic links to files, directories inside and outside the tree, ancestors and nothing; answers, thresholds, one-shot iterables; histories of 2-12 no-overwrite queries; distinct by tree and arguments
"""All deletions are confined: the calls run as an unprivileged user where that is possible, and an audit hook refuses
(and reports) any removal, renaming or creation whose directory is not inside the scratch directory."""
import builtins, contextlib, io, os, pathlib, shutil, stat, sys, tempfile
from arc_utilities import filesystem_utils as fu
from mon import Monitor
import mon

REPO = os.environ.get("MON_REPO", "/repo")
NOBODY = 65534
ACTIVE = {"root": None}


class Escape(BaseException):
    pass


def inside(path, fd=-1):
    base = os.readlink(f"/proc/self/fd/{fd}") if isinstance(fd, int) and fd >= 0 else os.getcwd()
    p = os.path.join(base, os.fsdecode(path))
    real = os.path.join(os.path.realpath(os.path.dirname(p.rstrip("/"))), os.path.basename(p.rstrip("/")))
    return real.startswith(ACTIVE["root"] + "/")


def hook(event, args):
    if ACTIVE["root"] is None:
        return
    ps = []
    if event in ("os.remove", "os.rmdir"):
        ps = [(args[0], args[1])]
    elif event == "os.mkdir":
        ps = [(args[0], args[2])]
    elif event == "os.rename":
        ps = [(args[0], args[2]), (args[1], args[3])]
    elif event in ("os.chmod", "os.truncate", "os.symlink", "os.link", "shutil.move", "shutil.rmtree", "shutil.copyfile"):
        ps = [(args[0] if event in ("os.chmod", "os.truncate", "shutil.rmtree") else args[1], -1)]
    elif event == "open" and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR) and not isinstance(args[0], int):
        ps = [(args[0], -1)]
    elif event in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn"):
        raise Escape(event)
    for p, fd in ps:
        if not isinstance(p, int) and not inside(p, fd):
            ACTIVE["escape"] = f"{event} {os.fsdecode(p)}"
            raise Escape(event)


sys.addaudithook(hook)
# script sources are read with full rights beforehand
SCRIPTS = {}
for n in ("remove_small_directories", "remove_directories_with_few_files"):
    with open(f"{REPO}/scripts/{n}.py") as f:
        SCRIPTS[n] = compile(f.read(), n, "exec")
import arc_utilities.conversions  # noqa: F401  (imported by a script)
import argparse, colorama  # noqa: F401


@contextlib.contextmanager
def confined(root):
    was = os.geteuid()
    dropped = False
    if was == 0:
        try:
            os.setegid(NOBODY)
            os.seteuid(NOBODY)
            dropped = True
        except OSError:
            pass
    ACTIVE["root"], ACTIVE["escape"] = os.path.realpath(root), None
    try:
        yield
    finally:
        ACTIVE["root"] = None
        if dropped:
            os.seteuid(0)
            os.setegid(0)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mon-c37-", dir="/tmp")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def give(root):
    if os.geteuid() != 0:
        return
    for a, ds, fs in os.walk(root):
        for x in [a] + [os.path.join(a, y) for y in ds + fs]:
            os.lchown(x, NOBODY, NOBODY)


NAMES = ["a", "b", "data", "x.txt", "y.tar.gz", ".hidden", ".cfg.json", "with space", "-dash", "br[ack]et", "st*r", "new\nline", "é", "..."]


def grow(r, d, depth, links, files=True, filelinks=True):
    for n in r.sample(NAMES, r.randrange(0, 6)):
        p = os.path.join(d, n)
        k = r.random()
        if k < 0.3 and depth > 0:
            os.mkdir(p)
            grow(r, p, depth - 1, links, files, filelinks)
        elif links and k < 0.52:
            t = r.choice(links) if r.random() < 0.7 else r.choice(["nowhere", ".", "..", d, "/nonexistent/x"])
            if not filelinks and os.path.isfile(os.path.join(d, t)):
                continue
            os.symlink(t, p)
        elif k < 0.56 and links:
            os.mkfifo(p)
        else:
            with open(p, "wb") as f:
                f.write(b"z" * r.choice([0, 1, 10, 500, 999, 1000, 1001, r.randrange(3000)]))
            if r.random() < 0.2:
                os.chmod(p, 0o444)


def shot(root):
    out = {}
    for a, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(a, n)
            st = os.lstat(p)
            k = stat.S_IFMT(st.st_mode)
            out[os.path.relpath(p, root)] = (k, os.readlink(p) if stat.S_ISLNK(k) else st.st_size if stat.S_ISREG(k) else 0)
    return out


def without(s, rels):
    return {k: v for k, v in s.items() if not any(k == x or k.startswith(x + "/") for x in rels)}


def setup(r, d, links=True, **k):
    """victim trees beside others; links may lead out of a victim but never out of the scratch directory (or to nothing)"""
    os.mkdir(d + "/keep")
    grow(r, d + "/keep", 2, [])
    with open(d + "/keep/precious", "w") as f:
        f.write("p" * 77)
    os.mkdir(d + "/root")
    targets = [d + "/keep", d + "/keep/precious", "../keep", "../../keep", d + "/root"] if links else []
    grow(r, d + "/root", 4, targets, **k)


def subdirs(d):
    return sorted(os.path.join(d, n) for n in os.listdir(d) if os.path.isdir(os.path.join(d, n)))


def diff(a, b):
    gone, new = sorted(set(a) - set(b)), sorted(set(b) - set(a))
    return f"missing {gone[:4]}, new {new[:4]}, changed {[k for k in a if k in b and a[k] != b[k]][:4]}"


def run(c, d, fn, answers=()):
    """the call, what it printed before each question, and the file tree before and after"""
    before = shot(d)
    asked, out = [], io.StringIO()
    todo = list(answers)

    def ask(prompt=""):
        asked.append(out.getvalue() + str(prompt))
        if shot_as_root(d) != before:
            c.check(False, "consent", "something changed before the question was answered")
        if not todo:
            raise EOFError
        return todo.pop(0)

    old = builtins.input, sys.stdout
    builtins.input, sys.stdout = ask, out
    res, exc = None, None
    try:
        with confined(d):
            res = fn()
    except Escape as e:
        exc = e
    except mon.Failed:
        raise
    except Exception as e:
        exc = e
    finally:
        builtins.input, sys.stdout = old
    c.check(ACTIVE["escape"] is None, "escape", lambda: f"tried to change {ACTIVE['escape']}")
    return res, exc, asked, before, shot(d)


def shot_as_root(d):
    return shot(d)


def removal(c):
    r = c.rng
    with scratch() as d:
        setup(r, d)
        cand = [d + "/root"] + [os.path.join(a, x) for a, ds, _ in os.walk(d + "/root") for x in ds]
        v = cand[0] if r.random() < 0.5 else r.choice(cand)
        give(d)
        rel = os.path.relpath(v, d)
        arg = v if r.random() < 0.5 else pathlib.Path(v)
        s = shot(d)
        c.note(sorted(s.items()), rel)
        inner = {k: x for k, x in s.items() if k.startswith(rel + "/")}
        c.nontrivial(len(inner) > 1)
        _, exc, _, before, after = run(c, d, lambda: fu.rm_tree(arg))
        c.check(exc is None, "removal-failed", lambda: f"{exc!r} removing {rel} with {sorted(inner.items())[:8]}")
        want = without(before, [rel])
        c.check(after == want, "removal", lambda: f"removing {rel}: {diff(want, after)}")
        c.count("removed", len(before) - len(after))
        c.count("links-inside", sum(stat.S_ISLNK(x[0]) for x in inner.values()))


def asking(c):
    r = c.rng
    with scratch() as d:
        setup(r, d)
        give(d)
        ds = subdirs(d + "/root")
        r.shuffle(ds)
        ds = ds[: r.randrange(0, 5)]
        ans = r.choice(["", "y", "Y", "n", "N", "no", "q", "x", " "])
        ps = [pathlib.Path(x) for x in ds]
        form = r.randrange(3)
        arg = ps if form == 0 else tuple(ps) if form == 1 else (p for p in ps)
        c.note(sorted(shot(d).items()), ds, ans, form)
        c.nontrivial(len(ds) > 0)
        _, exc, asked, before, after = run(c, d, lambda: fu.ask_to_remove_directories(arg), [ans])
        c.check(exc is None, "asking-failed", lambda: f"{exc!r} answering {ans!r}")
        c.check(len(asked) == 1, "asked", f"{len(asked)} questions")
        for x in ds:
            c.check(pathlib.Path(x).as_posix() in asked[0], "offered", lambda: f"{x!r} was not shown before asking")
        yes = ans in ("", "y", "Y")
        want = without(before, [os.path.relpath(x, d) for x in ds]) if yes else before
        c.check(after == want, "asking", lambda: f"answer {ans!r}, form {form}: {diff(want, after)}")
        c.count("consented" if yes else "declined")


def count(p):
    n = 0
    for x in os.scandir(p):
        n += count(x.path) if x.is_dir(follow_symlinks=False) else 1
    return n


def size(p):
    return sum(os.lstat(os.path.join(a, f)).st_size for a, _, fs in os.walk(p) for f in fs if stat.S_ISREG(os.lstat(os.path.join(a, f)).st_mode))


def reports(c):
    r = c.rng
    with scratch() as d:
        setup(r, d, filelinks=False)
        give(d)
        p = d + "/root"
        s = shot(d)
        c.note(sorted(s.items()))
        c.nontrivial(len(s) > 3)
        P = pathlib.Path(p)
        def all4():
            # a call each, so that one failure does not hide the others
            return (fu.count_files_recursive(p if r.random() < 0.5 else P), fu.directory_size(P), fu.get_all_subdirs(x for x in [P, pathlib.Path(d)]), fu.append_str_to_path(P / "a.b", "_c.d"))
        res, exc, _, before, after = run(c, d, all4)
        c.check(exc is None, "reports-failed", lambda: f"{exc!r}")
        c.check(before == after, "reports-changed", lambda: diff(before, after))
        c.eq(res[0], count(p), "count", sorted(k for k in s if k.startswith("root/"))[:20])
        c.eq(res[1], size(p), "size")
        c.eq(sorted(map(str, res[2])), sorted(subdirs(p) + subdirs(d)), "subdirs")
        c.eq(str(res[3]), p + "/a.b_c.d", "append")
        c.count("files-counted", res[0])


def free_name(c):
    r = c.rng
    with scratch() as d:
        os.mkdir(d + "/sub.dir")
        where = d + r.choice(["", "/sub.dir"])
        name = r.choice(["a", "log.txt", "x.tar.gz", "run_v1.txt", "v1", "no ext", "a.b.c.d", "weird..x", "q_v2_v3.png", "UPPER.TXT", "e[1].csv"])
        base, ext = name.split(".")[0], "".join(pathlib.Path(name).suffixes)
        p = pathlib.Path(where) / name
        for k in range(r.randrange(0, 6)):
            q = pathlib.Path(where) / r.choice([name, f"{base}_v{r.randrange(1, 6)}{ext}", base, base + "_v1"])
            if not q.exists():
                q.mkdir() if r.random() < 0.2 else q.write_text(str(q))
        give(d)
        c.note(name, sorted(shot(d)))
        c.nontrivial(p.exists())
        seen = set()
        for k in range(r.randrange(2, 12)):
            free = not os.path.lexists(p)
            res, exc, _, before, after = run(c, d, lambda: fu.no_overwrite_path(p))
            c.check(exc is None, "free-name-failed", lambda: f"{exc!r}")
            c.check(before == after, "free-name-changed", lambda: diff(before, after))
            c.check(not os.path.lexists(res), "overwrites", lambda: f"{res} exists")
            c.check(res.parent == p.parent, "elsewhere", lambda: f"{res} for {p}")
            c.check("".join(res.suffixes) == ext, "extension", lambda: f"{res.name!r} for {name!r}")
            if free:
                c.check(res == p, "free", lambda: f"{res.name!r} although {name!r} is free")
            else:
                c.check(res.name.startswith(base), "base", lambda: f"{res.name!r} for {name!r}")
            res.write_text("x")
            seen.add(str(res))
            c.count("names")
        c.check(str(p) == os.path.join(where, name), "modified", "the path object changed")


def making(c):
    r = c.rng
    with scratch() as d:
        parts = [r.choice("abc") for _ in range(r.randrange(1, 4))]
        p = os.path.join(d, *parts)
        have = r.random()
        if have < 0.5:
            os.makedirs(p, exist_ok=True)
            with open(p + "/inside", "w") as f:
                f.write("x")
        give(d)
        exists = os.path.lexists(p)
        parents, yes = r.random() < 0.5, r.choice([True, False, None, "default"])
        ans = r.choice(["", "y", "Y", "n", "N", "no", "q"])
        c.note(parts, exists, parents, yes, ans)
        c.nontrivial(True)
        a = [pathlib.Path(p), parents] + ([] if yes == "default" else [yes])
        res, exc, asked, before, after = run(c, d, lambda: fu.mkdir_and_ask(*a), [ans])
        if exists:
            c.check(exc is None and after == before, "reuse-changed", lambda: f"{exc!r} {diff(before, after)}")
            c.eq(len(asked), 0 if yes is True else 1, "reuse-asked")
            c.eq(res, True if yes is True else ans in ("", "y", "Y"), "reuse", f"answer {ans!r} yes {yes!r}")
        elif parents or len(parts) == 1:
            rel = ["/".join(parts[: i + 1]) for i in range(len(parts))]
            c.check(exc is None and res is True and not asked, "made", lambda: f"{exc!r} {res!r} {asked}")
            c.check(sorted(after) == sorted(rel), "made", lambda: diff(before, after))
        else:
            c.check(isinstance(exc, FileNotFoundError) and before == after, "no-parents", lambda: f"{exc!r} {diff(before, after)}")
        c.count("makes")


def scripts(c):
    r = c.rng
    with scratch() as d:
        few = r.random() < 0.5
        setup(r, d, filelinks=False)
        os.mkdir(d + "/second")
        for n in r.sample(NAMES, r.randrange(1, 5)):
            os.mkdir(f"{d}/second/{n}")
            grow(r, f"{d}/second/{n}", 2, [], filelinks=False)
        give(d)
        roots = [d + "/root"] + ([d + "/second"] if r.random() < 0.5 else [])
        subs = [x for q in roots for x in subdirs(q)]
        # a linked directory is measured by what it leads to
        measure = {x: (count if few else size)(os.path.realpath(x) if few else x) for x in subs if few or not os.path.islink(x)}
        if len(measure) != len(subs):
            for x in subs:
                if os.path.islink(x):
                    os.unlink(x)
            subs = list(measure)
        vals = list(measure.values())
        t = max(0, r.choice(vals) + r.choice([-1, 0, 1])) if vals and r.random() < 0.8 else r.choice([0, 1, 3, 1000, 2000])
        want = [x for x in subs if measure[x] < t]
        ans = r.choice(["", "y", "Y", "n", "n", "abort"])
        c.note(sorted(shot(d).items()), t, ans, few)
        c.nontrivial(0 < len(want) < len(subs) or len(want) > 0)
        name = "remove_directories_with_few_files" if few else "remove_small_directories"
        form = str(t) if few else r.choice([str(t), f"{t}b", f"{t / 1000!r}k" if t < 10**6 else str(t)])
        old = sys.argv
        sys.argv = [name] + roots + [form]
        try:
            _, exc, asked, before, after = run(c, d, lambda: exec(SCRIPTS[name], {"__name__": "__main__"}), [ans])
        finally:
            sys.argv = old
        c.check(exc is None, "script-failed", lambda: f"{name} {exc!r}")
        c.check(len(asked) == 1, "script-asked", f"{len(asked)} questions")
        shown = asked[0]
        for x in subs:
            hit = ("\n" + x + "\n") in ("\n" + shown)
            c.check(hit == (x in want), "script-offer", lambda: f"{name} {form}: {x!r} of {measure[x]} {'offered' if hit else 'not offered'}")
        yes = ans in ("", "y", "Y")
        left = without(before, [os.path.relpath(x, d) for x in want]) if yes else before
        c.check(after == left, "script", lambda: f"{name} {form} answer {ans!r}: {diff(left, after)}")
        c.count("offered", len(want))
        c.count("spared", len(subs) - len(want))


m = Monitor()
m.group("removal", 900, 30000, removal)
m.group("asking", 700, 20000, asking)
m.group("reports", 900, 30000, reports)
m.group("free_name", 900, 30000, free_name)
m.group("making", 900, 20000, making)
m.group("scripts", 900, 30000, scripts)
m.finish()
