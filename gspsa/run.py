"""Driver: decide one property on /repo's current source, report, write evidence."""
import importlib
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

from .engine import Interp, Dead, Unsupported
from .client import run_client, decide
from .values import Term

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GSP_REPO", "/repo")


class Client:
    """one analysis client: `src` is analysed, never run"""

    def __init__(self, name, src, where="", tier="quick", samples=None, rule=""):
        self.name, self.src, self.where, self.tier, self.samples, self.rule = name, src, where, tier, samples, rule


class Finding:
    """result of a structural rule: one instance"""

    def __init__(self, rule, instance, ok, message="", where="", undetermined=False):
        self.rule, self.instance, self.ok, self.message, self.where = rule, instance, ok, message, where
        self.undetermined = undetermined


class Context:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.root = REPO
        self.it = None

    def interp(self):
        if self.it is None:
            self.it = new_interp()
        return self.it


def new_interp():
    it = Interp(REPO)
    try:
        it.boot()
    except Dead:
        st, exc, loc = it.sinks[-1][0]
        it.st = st
        r = it.rec(exc)
        raise BootError("importing the packages raises %s%r at %s:%s" % (it.class_name(r.cls), r.payload, loc[0], loc[1]))
    return it


class BootError(Exception):
    pass


def load_known():
    """known findings: property -> list of (client or rule, label fragment)"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p, encoding="utf8"):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        m = re.match(r"known:\s*property=(\S+)\s+at=(.*?)\s*\|\s*(.*)$", line)
        out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def rel(path):
    if path.startswith(REPO + "/"):
        return path[len(REPO) + 1:]
    return path


class Timeout(Exception):
    pass


_JOBS = {}


def _work(i):
    it, clients, seed, samples, limit = _JOBS["args"]
    cl = clients[i]

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return analyse(it, cl, seed, cl.samples or samples)
    except Timeout:
        r = blank()
        r["counts"].update(undetermined=1, obligations=1)
        r["und"].append("%s: analysis stopped after %ds" % (cl.name, limit))
        return r
    except Exception as e:
        r = blank()
        r["counts"].update(undetermined=1, obligations=1)
        r["und"].append("%s: analysis stopped by %s: %s" % (cl.name, type(e).__name__, e))
        return r
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def analyse_all(it, clients, seed, samples, tier):
    """analyse the clients, side by side: each starts from the state after import"""
    if not clients:
        return []
    _JOBS["args"] = (it, clients, seed, samples, 150 if tier == "quick" else 600)
    n = min(len(clients), max(1, (os.cpu_count() or 2)), 8)
    if n == 1 or os.environ.get("GSPSA_SERIAL"):
        return [_work(i) for i in range(len(clients))]
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return pool.map(_work, range(len(clients)), 1)


def blank():
    return dict(counts=dict(obligations=0, discharged=0, by_value_numbering=0, by_random_interpretation=0, undetermined=0,
                            infeasible=0), functions=set(), visited=set(), und=[], rows=[], findings=[], wall=0.0, joins=0)


def analyse(it, cl, seed, samples):
    out = blank()
    counts = out["counts"]
    t1 = time.time()
    it.debug = False
    res = run_client(it, cl.name, cl.src)
    out["functions"] = set(res.functions)
    out["visited"] = set(it.visited)
    if res.unsupported:
        counts["undetermined"] += 1
        counts["obligations"] += 1
        out["und"].append("%s: %s" % (cl.name, res.unsupported))
    for n, o in enumerate(res.obls):
        decide(o, res.ranges, seed * 1000003 + n, samples)
        if o.kind == "raise" and o.verdict == "ok":
            counts["infeasible"] += 1
            continue
        counts["obligations"] += 1
        if o.verdict == "ok":
            counts["discharged"] += 1
            if isinstance(o.detail, str):
                counts["by_value_numbering"] += 1
            else:
                counts["by_random_interpretation"] += 1
            if len(out["rows"]) < 3 and (n == 0 or len(res.obls) < 3):
                out["rows"].append("%s: %s -- %s" % (cl.name, o.label, o.detail if isinstance(o.detail, str) else
                                                    "agrees on %d random interpretations" % o.detail))
        elif o.verdict == "vacuous":
            counts["infeasible"] += 1
            counts["discharged"] += 1
        elif o.verdict == "undetermined":
            counts["undetermined"] += 1
            out["und"].append("%s: %s: %s" % (cl.name, o.label, o.detail))
        else:
            msg, wit = o.detail
            loc = "%s:%s" % (rel(o.loc[0]), o.loc[1])
            out["findings"].append(dict(
                id="%s/%s" % (cl.name, o.label if o.kind != "raise" else "raises"), message="%s: %s" % (o.label, msg),
                where=loc if o.kind == "raise" else None, wit={k: repr(v) for k, v in wit.items()}, loc=loc,
                functions=sorted(res.functions)))
    out["wall"] = time.time() - t1
    out["joins"] = it.forks
    return out


def main(argv):
    pid = argv[0].upper()
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in argv else "quick"
    only = [a[7:] for a in argv if a.startswith("--only=")]
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("gspsa.checks.%s" % pid.lower())
    ctx = Context(tier, seed)
    samples = 24 if tier == "quick" else 160
    counts = dict(clients=0, obligations=0, discharged=0, by_value_numbering=0, by_random_interpretation=0,
                  undetermined=0, infeasible=0, violated=0, rule_instances=0)
    functions, visited, findings, und = set(), set(), [], []
    sample_rows = []
    known = load_known().get(pid, [])
    used_known = []
    fatal = None
    try:
        it = ctx.interp()
    except BootError as e:
        findings.append(dict(id="import", message=str(e), where=str(e), client=None, wit={}))
        it = None
    except Unsupported as e:
        fatal = "import not analysable: %s" % e
        it = None
    clients = []
    if it is not None:
        clients = mod.clients(ctx) if hasattr(mod, "clients") else []
    todo = [c for c in clients if not (c.tier == "thorough" and tier == "quick") and not (only and c.name not in only)]
    it = ctx.it
    for cl, r in zip(todo, analyse_all(it, todo, seed, samples, tier)):
        counts["clients"] += 1
        for k, v in r["counts"].items():
            counts[k] += v
        functions |= r["functions"]
        visited |= r["visited"]
        und += r["und"]
        sample_rows += r["rows"][:max(0, 12 - len(sample_rows))]
        for f in r["findings"]:
            f["client"] = cl
            if f["where"] is None:
                f["where"] = cl.where
            findings.append(f)
        if verbose:
            for u in r["und"]:
                print("UNDETERMINED", u)
            print("%-28s %5.2fs %4d obligations, %d functions, %d joins" % (cl.name, r["wall"], r["counts"]["obligations"],
                                                                         len(r["functions"]), r["joins"]))
    for rule in getattr(mod, "RULES", []):
        if only:
            break
        for f in rule(ctx):
            counts["rule_instances"] += 1
            counts["obligations"] += 1
            if f.undetermined:
                counts["undetermined"] += 1
                und.append("%s: %s: %s" % (f.rule, f.instance, f.message))
            elif f.ok:
                counts["discharged"] += 1
                if len(sample_rows) < 20:
                    sample_rows.append("%s: %s" % (f.rule, f.instance))
            else:
                findings.append(dict(id="%s/%s" % (f.rule, f.instance), message="%s: %s" % (f.rule, f.message), where=f.where,
                                     client=None, wit={}))
    new = []
    for f in findings:
        k = [x for x in known if x[0] == f["id"]]
        if k:
            used_known.append((f, k[0]))
        else:
            new.append(f)
    outdir = os.path.join(VERIF, "evidence", "reports")
    os.makedirs(outdir, exist_ok=True)
    done = set()
    for f, k in used_known:
        if k[0] not in done:
            done.add(k[0])
            print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    for u in und:
        print("UNDETERMINED: %s" % u)
    for i, f in enumerate(new):
        path = os.path.join(outdir, "%s-%d.txt" % (pid, i + 1))
        with open(path, "w", encoding="utf8") as fh:
            fh.write("property: %s\nobligation: %s\nreport: %s\nat: %s\n" % (pid, f["id"], f["message"], f["where"]))
            if f["wit"]:
                fh.write("distinguishing valuation of the symbolic inputs: %s\n" % json.dumps(
                    f["wit"], indent=1))
            if f["client"] is not None:
                fh.write("\nanalysis client (analysed, not run):\n%s\n" % f["client"].src)
            if f.get("functions"):
                fh.write("\nfunctions on the analysed call paths:\n  %s\n" % "\n  ".join(f["functions"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s [%s]" % (f["message"], f["where"]))
    counts["violated"] = len(findings)
    if os.environ.get("GSP_VISITED"):       # which statements were analysed, for tools/blind.py
        with open(os.environ["GSP_VISITED"], "a") as fh:
            fh.writelines("%s %s %s\n" % (pid, f, l) for f, l in visited if not f.startswith("<"))
    stmts = len([1 for (f, l) in visited if not f.startswith("<")])
    functions = {f for f in functions if not f.startswith("<")}    # those of the library, not of the client
    cov = dict(counts)
    cov.update(explanation=mod.EXPLANATION, functions_analysed=len(functions), statements_analysed=stmts,
               functions=sorted(functions)[:400], samples=sample_rows or ["none"], undetermined_list=und[:40])
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, assumptions=ASSUMPTIONS,
              wall_s=round(time.time() - t0, 3), violations=len(new))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf8") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d obligations, %d discharged, %d undetermined, %d known, %d violations; %d functions, %.1fs" % (
        pid, tier, counts["obligations"], counts["discharged"], counts["undetermined"], len(used_known), len(new),
        len(functions), time.time() - t0))
    if new:
        return 1
    if fatal or not only and counts["obligations"] and counts["undetermined"] * 1.0 >= counts["obligations"]:
        print("analysis broken: %s" % (fatal or "no obligation of this property could be decided"))
        return 2
    if not only and not und and counts["obligations"] < getattr(mod, "FLOOR", 1):
        print("analysis broken: only %d obligations generated (expected at least %d)" % (counts["obligations"], mod.FLOOR))
        return 2
    return 0


ASSUMPTIONS = [
    "the abstract models of the Python builtins, numpy, matplotlib and the standard library (gspsa/models.py, nparr.py, "
    "extm.py) describe those libraries",
    "terms that agree on every random interpretation drawn are equal (error probability bounded by Schwartz-Zippel for "
    "the arithmetic part; comparison constants are added to the sampling pool)",
    "shapes of the arrays used by the clients are representative: cells are symbolic, lengths are small constants",
]

if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
