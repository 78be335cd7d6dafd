"""regenerates MANIFEST.json from properties.jsonl and gspsa/checks (run by hand, after adding a check)"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "C40": "the pixels are produced by matplotlib's Agg rasteriser, outside the repository; what the repository hands to it is "
           "decided by C22-C28, the rasterisation itself by no static argument over this source",
    "C41": "a bound on running time is a runtime quantity; no static cost analysis for numpy/matplotlib calls is available here",
    "C42": "the library has no synchronisation and makes no thread-safety claim: there is no construct an analysis could hold to a "
           "locking discipline, and the property is expected to fail by design",
}
TECH = {
    "C37": "static name, attribute, import and call-arity resolution over the syntax tree and the abstractly interpreted packages",
}
DEFAULT = ("static value-flow analysis: gated value numbering of the source on symbolic data, term equality by normal form or "
           "random interpretation")
NOTE = ("Decided from the current source without running it: the abstract interpreter follows every branch of the functions "
        "reached by the analysis clients with symbolic cells (joins, no path enumeration), and equalities of terms are decided by "
        "normal form or by randomised identity testing. Trusts the abstract models of Python, numpy and matplotlib in gspsa/; "
        "array lengths are small representative constants; constructs outside the models are reported as UNDETERMINED, not as "
        "violations.")
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"), encoding="utf8")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "gspsa", "checks", i.lower() + ".py")):
        import importlib
        m = importlib.import_module("gspsa.checks." + i.lower())
        checks.append(dict(property=i, quick_cmd="./check %s --quick" % i, thorough_cmd="./check %s --thorough" % i,
                           technique=getattr(m, "TECHNIQUE", TECH.get(i, DEFAULT)), level="other",
                           level_note=getattr(m, "NOTE", NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built for it yet")))
json.dump(dict(version=1, setup_cmd="sh ./setup.sh", checks=checks, not_applicable=na,
               notes="Every check reads /repo's current source (GSP_REPO overrides the path) and never imports or runs it."),
          open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf8"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
