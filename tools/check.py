#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds the property's harness from /repo's working tree, runs it under
instrumentation in parallel shards, judges what the monitors saw, and writes evidence/<property>.json.
Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: no verdict."""
import concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "tools"))
import spec

EIGEN = next((d for d in ("/usr/include/eigen3", "/usr/local/include/eigen3") if os.path.isdir(d)), "/usr/include/eigen3")
BASE = ["-std=c++14", "-g1", "-fno-omit-frame-pointer", f"-I{REPO}/include", f"-I{ROOT}/harness", "-isystem", EIGEN,
        "-include", "cstdint", "-include", "sys/types.h", "-w", "-ftrivial-auto-var-init=pattern"]
UB = "-fsanitize=address,undefined,float-cast-overflow"
NONULL = "-fno-sanitize=nonnull-attribute"  # memcpy(p, NULL, 0) on empty data is not observable
VARIANTS = {
    "asan": ("g++", ["-O1", UB, NONULL, "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "asan-noglib": ("g++", ["-O1", UB, NONULL, "-fno-sanitize-recover=all"]),
    "asan-debugstl": ("g++", ["-O1", UB, NONULL, "-fno-sanitize-recover=all", "-D_GLIBCXX_DEBUG"]),
    "omp": ("g++", ["-O1", UB, NONULL, "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fopenmp"]),
    "plain": ("g++", ["-O2"]),
    "plain-omp": ("g++", ["-O2", "-fopenmp"]),
    "tsan": ("g++", ["-O1", "-fsanitize=thread"]),
}
ENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=1:max_malloc_fill_size=16777216:"
                    "allocator_may_return_null=0:handle_abort=0:hard_rss_limit_mb=12000:strict_string_checks=1",
    "UBSAN_OPTIONS": "exitcode=99:abort_on_error=0:print_stacktrace=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1",
    "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8", "OMP_NUM_THREADS": "4", "OMP_WAIT_POLICY": "passive",
}


class Broken(Exception):
    pass


def header(path):
    h = {}
    with open(path) as f:
        for line in f:
            m = re.match(r"(?://|#)\s*MON-(\w+):\s*(.*)", line)
            if m:
                h[m.group(1)] = m.group(2).strip()
    return h


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


def build(pid, src, h, bdir):
    """Returns {variant: binary}."""
    variants = h.get("variants", "asan").split()
    libs = h.get("libs", "").split()
    extra = [w.replace("$ROOT", ROOT).replace("$REPO", REPO) for w in h.get("flags", "").split()]
    jobs, objs = [], {v: [] for v in variants}
    for v in variants:
        cxx, fl = VARIANTS[v]
        d = f"{bdir}/{v}"
        os.makedirs(d, exist_ok=True)
        for s in [src] + [f"{ROOT}/harness/{x}" for x in h.get("extra", "").split()] + [f"{REPO}/src/arc_utilities/{x}.cpp" for x in libs]:
            o = f"{d}/{os.path.basename(s)}.o"
            objs[v].append(o)
            defs = [f"-DMON_VARIANT=\"{v}\""]
            jobs.append([cxx, *BASE, *fl, *defs, *extra, "-c", s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        for cmd, r in zip(jobs, ex.map(lambda c: run(c, 600), jobs)):
            if r.returncode:
                raise Broken("compile failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:])
    bins = {}
    for v in variants:
        cxx, fl = VARIANTS[v]
        b = f"{bdir}/{v}/harness"
        r = run([cxx, *fl, *objs[v], "-o", b, *h.get("link", "").split(), "-lboost_filesystem", "-lboost_system", "-lz", "-lpthread"], 300)
        if r.returncode:
            raise Broken("link failed\n" + r.stdout[-6000:])
        bins[v] = b
    return bins


def summarize_crash(text):
    for pat in (r"SUMMARY: (\w+Sanitizer: [\w-]+)", r"runtime error: ([^\n]{1,160})", r"Assertion `([^\n']{1,160})", r"(ThreadSanitizer: [\w -]+)",
                r"terminate called after throwing[^\n]*\n\s*what\(\):\s*([^\n]{1,160})", r"(terminate called[^\n]{0,120})", r"(stack-overflow)"):
        m = re.search(pat, text)
        if m:
            return re.sub(r"0x[0-9a-f]+|\d{3,}", "N", m.group(1))
    return "abnormal end"


def one(cmd, out, prog, timeout, env, py, scratch):
    for f in (out, out + ".sig", prog):
        if os.path.exists(f):
            os.unlink(f)
    os.makedirs(scratch, exist_ok=True)
    env = dict(env, TMPDIR=scratch, MON_SCRATCH=scratch)
    log = out + ".log"
    hang = False
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=scratch, start_new_session=True, stdin=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            hang = True
            rc = -9
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    shutil.rmtree(scratch, ignore_errors=True)
    text = open(log, errors="replace").read()
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    where = ("?", -1)
    if os.path.exists(prog):
        raw = open(prog, "rb").read()
        try:
            if py:
                j = json.loads(raw)
                where = (j["group"], j["index"])
            else:
                where = (raw[:96].split(b"\0")[0].decode(), struct.unpack("<q", raw[96:104])[0])
        except Exception:
            pass
    if rc == 86 or "Timeout (" in text and "most recent call first" in text and rc != 0:
        hang = True
    return rc, hang, text, res, where


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = next((x for x in spec.P if x["id"] == pid), None)
    if p is None:
        print("no such property", pid)
        return 2
    t0 = time.time()
    bdir = os.path.join(ROOT, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    src = f"{ROOT}/harness/{pid}.cpp"
    py = not os.path.exists(src)
    if py:
        src = f"{ROOT}/py/{pid}.py"
    h = header(src)
    env = dict(os.environ, **ENV)
    env.pop("PYTHONPATH", None)
    if py:
        env["PYTHONPATH"] = f"{REPO}/src:{ROOT}/py/stubs:{ROOT}/py"
        env["MON_REPO"] = REPO
        env["MPLCONFIGDIR"] = bdir + "/mpl"
        env["HOME"] = bdir
        bins = {"py": None}
    else:
        bins = build(pid, src, h, bdir)
    build_s = time.time() - t0
    shards = int(h.get("shards", "4" if tier == "quick" else "8"))
    plain = {"plain", "plain-omp"}
    timeout = 240 if tier == "quick" else 3000
    seeds = [seed] if tier == "quick" else [seed, seed + 1000003]
    jobs = []
    for v, b in bins.items():
        for sd in seeds:
            for k in range(shards):
                tag = f"{bdir}/{v}-{sd}-{k}"
                base = (["/usr/bin/python3", src] if py else [b]) + ["--seed", str(sd), "--tier", tier]
                jobs.append((v, sd, base, base + ["--shard", f"{k}/{shards}", "--out", tag + ".json", "--progress", tag + ".prog"], tag))
    width = int(h.get("width", "8"))
    inconclusive = []
    viol, merged = [], dict(evaluations=0, groups={}, counters={}, samples=[])
    sigs = set()
    note = []
    with cf.ThreadPoolExecutor(width) as ex:
        results = list(ex.map(lambda j: one(j[3], j[4] + ".json", j[4] + ".prog", timeout, env, py, j[4] + ".scratch"), jobs))
    for (v, sd, base, cmd, tag), (rc, hang, text, res, where) in zip(jobs, results):
        if rc == 0 and res is not None:
            merged["evaluations"] += res["evaluations"]
            for g, n in res["groups"].items():
                merged["groups"][f"{v}:{g}"] = merged["groups"].get(f"{v}:{g}", 0) + n
            for g, n in res["counters"].items():
                merged["counters"][g] = merged["counters"].get(g, 0) + n
            merged["samples"] += res["samples"] if len(merged["samples"]) < 24 else []
            raw = open(tag + ".json.sig", "rb").read()
            sigs.update(struct.unpack(f"<{len(raw)//8}Q", raw))
            for x in res["violations"]:
                viol.append(dict(x, variant=v, seed=sd, cmd=base))
            continue
        if hang and any(":hang:" in x["key"] for x in viol):
            note.append("another part did not end in time either")
            continue
        g, i = where
        if i < 0 or g in ("", "?"):
            raise Broken(f"harness ended before its first case (rc={rc})\n{text[-3000:]}")
        # Abnormal end: attribute it to the case that was running, and confirm by running that case alone.
        alone = base + ["--group", g, "--index", str(i), "--out", tag + ".re.json", "--progress", tag + ".re.prog"]
        rc2, hang2, text2, res2, _ = one(alone, tag + ".re.json", tag + ".re.prog", 160, env, py, tag + ".scratch")
        kind = "hang" if hang else "crash"
        if rc2 == 0 and res2 is not None and not res2["violations"]:
            if hang:
                inconclusive.append(f"{g}#{i} ran out of time once and finished alone: inconclusive\n{text[-1500:]}")
                continue
            note.append(f"{g}#{i} crash did not repeat alone")
        if "hard rss limit" in text:
            kind = "memory"
        s = "case does not terminate" if kind == "hang" else summarize_crash(text)
        viol.append(dict(group=g, index=i, key=f"{g}:{kind}:{s}", msg=text[-4000:], variant=v, seed=sd, cmd=base))
        if res2 and res2.get("violations"):
            viol += [dict(x, variant=v, seed=sd, cmd=base) for x in res2["violations"]]

    known = []
    kf = f"{ROOT}/known_findings.txt"
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"open: property=(\S+) key=(\"[^\"]*\"|\S+) (.*)", line)
            if m and m.group(1) == pid:
                known.append((m.group(2).strip('"'), m.group(3)))
    if inconclusive and not viol:
        raise Broken(inconclusive[0])
    seen_known, fresh = {}, {}
    for x in viol:
        hit = next((k for k in known if k[0] == x["key"]), None)
        if hit:
            seen_known[hit] = True
        else:
            fresh.setdefault(x["key"], []).append(x)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={pid} {k[1]}")

    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=merged["evaluations"], distinct_nontrivial=len(sigs),
                            rule=h.get("rule", "seeded random cases; non-trivial when the monitored operation had an effect to judge"),
                            samples=merged["samples"][:12], groups=merged["groups"], events=merged["counters"],
                            instrumentation=list(bins), notes=note),
              assumptions=[p["note"]], wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    json.dump(ev, open(f"{ROOT}/evidence/{pid}.json", "w"), indent=1)
    for d in bins:
        if not os.environ.get("VERIF_KEEP") and bins[d]:
            for f in os.listdir(f"{bdir}/{d}"):
                if f.endswith(".o"):
                    os.unlink(f"{bdir}/{d}/{f}")
    if fresh:
        rdir = f"{ROOT}/build/replay"
        os.makedirs(rdir, exist_ok=True)
        for n, (key, xs) in enumerate(list(fresh.items())[:6]):
            x = xs[0]
            path = f"{rdir}/{pid}-{n}.json"
            json.dump(dict(property=pid, key=key, variant=x["variant"], seed=x["seed"], group=x["group"], index=x["index"], message=x["msg"],
                           replay=" ".join(x["cmd"] + ["--group", x["group"], "--index", str(x["index"])])), open(path, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {key} (seed {x['seed']}, case {x['index']}): {x['msg'][-700:]}")
        return 1
    if not merged["evaluations"] or not sigs:
        print(f"{pid}: nothing observed")
        return 2
    print(f"{pid}: held on {merged['evaluations']} cases ({len(sigs)} distinct non-trivial), {tier}, seed {seed}, build {build_s:.0f} s, total {time.time()-t0:.0f} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("NO VERDICT:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("NO VERDICT: timeout", e)
        sys.exit(2)
