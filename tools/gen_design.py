#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, spec.py, harness headers, known_findings.txt and seeded/*/meta.json."""
import glob, json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools")
import spec
fixed = {}
for l in open(R + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.setdefault(m[1], []).append((m[2], m[3]))
out = open(R + "/tools/design_head.md").read()
for p in sorted(spec.P, key=lambda p: p["id"]):
    f = "%s/harness/%s.cpp" % (R, p["id"])
    py = not os.path.exists(f)
    if py:
        f = "%s/py/%s.py" % (R, p["id"])
    src = open(f).read()
    hd = dict(re.findall(r"(?m)^(?://|#) MON-(\w+): (.*)$", src))
    groups = sorted(set(re.findall(r'(?:\.|\b)(?:group|run|cases)\w*\(\s*"([\w-]+)"', src)))
    e = "%s/tools/cost.json" % R
    cost = json.load(open(e)).get(p["id"]) if os.path.exists(e) else None
    out += "### %s %s\n\n" % (p["id"], p["title"])
    out += "* **Statement**: see properties.jsonl. Quantified over %s.\n" % p["qtext"]
    out += "* **Code**: %s\n" % ", ".join("`%s`" % x for x in p["files"])
    out += "* **Oracle**: %s. %s.\n" % (p["technique"], p["note"])
    out += "* **Instrumentation**: %s\n" % ("CPython with recording stand-ins, exceptions and hangs monitored" if py else ", ".join(hd.get("variants", "asan").split()))
    out += "* **Workload and bounds**: %s\n" % hd.get("rule", "see harness")
    out += "* **Why tests cannot settle it**: %s\n" % p["why"]
    if cost:
        out += "* **Cost and reach (quick)**: %s cases, %s distinct non-trivial, about %s s including the build.\n" % tuple(cost)
    if p["id"] in fixed:
        out += "* **Defects found and repaired**: " + "; ".join("%s (`%s`)" % (b, a) for a, b in fixed[p["id"]]) + "\n"
    out += "\n"
for k, v in getattr(spec, "NA", {}).items():
    out += "### %s: not applicable\n\n%s\n\n" % (k, v)
out += "## 4. Planted bugs\n\nEach was written from the property's text and the code, confirmed to build, pass the stable tests and fail its demo; `caught` is the result of the quick check.\n\n| id | property | what it breaks | needs | quick check |\n|---|---|---|---|---|\n"
rf = R + "/tools/seed_results.json"
res = json.load(open(rf)) if os.path.exists(rf) else {}
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(i, "?"))
out += "\n" + open(R + "/tools/design_tail.md").read()
open(R + "/DESIGN.md", "w").write(out)
