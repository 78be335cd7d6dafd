#!/usr/bin/env python3
"""Statements of the two packages that no check analyses.  GSP_VISITED=FILE ./check ... appends to FILE; then blind.py FILE [REPO]."""
import ast, os, sys
seen = {}
for l in open(sys.argv[1]):
    p, f, n = l.split()
    f = f.split("/repo/")[-1]
    seen.setdefault(f, {}).setdefault(int(n), set()).add(p)
repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
total = missed = 0
for pkg in ("gsp", "gsp_matplotlib"):
    for d, _, fs in sorted(os.walk(os.path.join(repo, pkg))):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            path = os.path.relpath(os.path.join(d, f), repo)
            src = open(os.path.join(d, f)).read()
            lines = src.splitlines()
            bad = []
            for fn in ast.walk(ast.parse(src)):
                if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for s in ast.walk(fn):
                        if isinstance(s, ast.stmt) and s is not fn and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) \
                                and not isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Try, ast.FunctionDef)):
                            total += 1
                            if s.lineno not in seen.get(path, {}):
                                bad.append(s.lineno)
            bad = sorted(set(bad))
            missed += len(bad)
            if bad:
                print(path)
                for n in bad:
                    print("   %4d %s" % (n, lines[n - 1].strip()[:110]))
print("%d of %d statements in functions not analysed" % (missed, total))
