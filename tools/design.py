"""regenerates DESIGN.md from tools/design.in.md, properties.jsonl, the checks and the last evidence (run by hand)"""
import glob
import importlib
import json
import os
import sys
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"), encoding="utf8")]
man = json.load(open(os.path.join(V, "MANIFEST.json"), encoding="utf8"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out, nas = [], []
fill = lambda s: textwrap.fill(" ".join(s.split()), 132)
for p in props:
    i = p["id"]
    if i in na:
        nas.append("- **%s** %s: %s." % (i, p["title"], na[i].rstrip(".")))
        continue
    m = importlib.import_module("gspsa.checks." + i.lower())
    out.append("### %s %s" % (i, p["title"]))
    out.append(fill("*How.* " + m.EXPLANATION))
    b = getattr(m, "BOUNDS", None)
    if isinstance(b, str):
        out.append(fill("*Bounds.* " + b))
    out.append(fill("*Anchors.* " + "; ".join("%s (%s)" % (x["name"], x["where"]) for x in p["anchors"]["mechanism"])))
    out.append(fill("*Beyond tests.* " + p["why_tests_cant"].rstrip(".") + "."))
    f = os.path.join(V, "evidence", i + ".json")
    if os.path.exists(f):
        e = json.load(open(f, encoding="utf8"))
        out.append(fill("*Cost.* about %d s; at least %d obligations are required." % (round(e["wall_s"]) or 1, m.FLOOR)))
    out.append("")
kf = open(os.path.join(V, "known-findings.txt"), encoding="utf8").read().splitlines()
seeded = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f, encoding="utf8"))
    c = lambda s: " ".join(str(s).split()).replace("|", "/")
    seeded.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], c(d["needs"]), c(d["what_it_breaks"])))
t = open(os.path.join(V, "tools", "design.in.md"), encoding="utf8").read()
for k, v in (("PROPERTIES", "\n\n".join(out)), ("NA", "\n".join(nas)), ("SEEDED", "\n".join(seeded)),
             ("NFIXED", str(sum(x.startswith("fixed:") for x in kf))), ("NKNOWN", str(sum(x.startswith("known:") for x in kf)))):
    t = t.replace("@@%s@@" % k, v)
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf8").write(t)
print(len(t))
