"""rewrite a copy of the library without changing its behaviour: refac.py DIR KIND [SEED [PERCENT]]  (KIND 'mix' draws a kind for each site)

Used by hand to check that the checks stay quiet on refactorings:  GSP_REPO=DIR ./check C01
"""
import ast
import copy
import glob
import os
import random
import sys

counter = [0]


def fresh(p="_t"):
    counter[0] += 1
    return "%s%d" % (p, counter[0])


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


def neg(c):
    return ast.UnaryOp(ast.Not(), c)


def simple(n):
    return isinstance(n, (ast.Name, ast.Constant)) or isinstance(n, ast.Attribute) and simple(n.value)


def has(node, *kinds):
    return any(isinstance(n, kinds) for n in ast.walk(node))


def calls(node, *names):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names for n in ast.walk(node))


FUNC = (ast.FunctionDef,)
DOC = lambda b: 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else 0


def terminates(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))


class R(ast.NodeTransformer):
    """base: `kind` selects what is rewritten, `pick` decides per site"""

    def __init__(self, pick):
        self.pick = pick
        self.n = {}
        self.infunc = 0
        self.cls = []
        self.comp = 0

    def on(self, kind):
        if self.pick(kind):
            self.n[kind] = self.n.get(kind, 0) + 1
            return True
        return False

    # ------------------------------------------------------------ structure
    def visit_ClassDef(self, n):
        self.cls.append(n)
        f, self.infunc = self.infunc, 0
        self.generic_visit(n)
        n.body = self.extracted(n.body, True)
        self.infunc = f
        self.cls.pop()
        return n

    def visit_Module(self, n):
        self.generic_visit(n)
        n.body = self.extracted(n.body, False)
        return n

    def extracted(self, body, method):
        out = []
        for s in body:
            if isinstance(s, ast.FunctionDef) and self.can_extract(s, method) and self.on("extract"):
                d = DOC(s.body)
                h = "_%s_%s" % (s.name.strip("_"), fresh("impl"))
                a = s.args
                names = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
                inner = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), s.body[d:], [],
                                        lineno=0)
                if method:
                    c = ast.Call(ast.Attribute(name(names[0]), h, ast.Load()), [name(x) for x in names[1:]], [])
                else:
                    c = ast.Call(name(h), [name(x) for x in names], [])
                s.body = s.body[:d] + [ast.Return(c)]
                out.append(inner)
            out.append(s)
        return out

    def can_extract(self, s, method):
        if calls(s, "super", "locals", "vars", "currentframe") or has(s, ast.Nonlocal, ast.Global) or s.args.vararg or s.args.kwarg:
            return False
        ast.fix_missing_locations(s)
        if "frame" in ast.unparse(s) or "__class__" in ast.unparse(s) or s.name in ("__new__", "__init_subclass__", "__class_getitem__"):
            return False
        for d in s.decorator_list:
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                return False
        if method and not s.args.args:
            return False
        return len(s.body) > DOC(s.body)

    def visit_FunctionDef(self, n):
        self.infunc += 1
        c, self.comp = self.comp, 0
        self.generic_visit(n)
        self.comp = c
        self.infunc -= 1
        d = DOC(n.body)
        doc, body = n.body[:d], n.body[d:]
        if not body:
            body = [ast.Pass()]
        gen = has(n, ast.Yield, ast.YieldFrom)
        if self.on("noop"):
            body = [assign(fresh("_unused"), ast.Constant(None))] + body
        if self.on("iftrue"):
            body = [ast.If(ast.Constant(True), body, [])]
        elif self.on("tryfinally"):
            body = [ast.Try(body, [], [], [ast.Pass()])]
        elif self.on("tryraise"):
            body = [ast.Try(body, [ast.ExceptHandler(name("Exception"), None, [ast.Raise()])], [], [])]
        if not gen and not terminates(body) and self.on("retnone"):
            body = body + [ast.Return(ast.Constant(None))]
        a = n.args
        if a.args and self.cls and self.infunc == 0 and a.args[0].arg == "self" and not calls(n, "super") and self.on("selfalias"):
            al = fresh("this")
            for s in body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and x.id == "self":
                        x.id = al
            body = [assign(al, name("self"))] + body
        n.body = doc + body
        self.local_rename(n)
        return n

    def local_rename(self, n):
        if has(n, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef, ast.Import, ast.ImportFrom) or calls(n, "locals", "vars", "eval", "exec"):
            return
        inner = [x for x in ast.walk(n) if isinstance(x, ast.FunctionDef) and x is not n]
        if inner or not self.pick("rename"):
            return
        params = {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}
        stores = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        stores = {x for x in stores if not x.startswith("_")}
        comp = {t.id for x in ast.walk(n) if isinstance(x, ast.comprehension) for t in ast.walk(x.target) if isinstance(t, ast.Name)}
        stores -= comp
        for x in ast.walk(ast.Module(n.body, [])):
            if isinstance(x, ast.Name) and x.id in stores:
                x.id = x.id + "_value"
            elif isinstance(x, ast.ExceptHandler) and x.name in stores:
                stores = stores
        if stores:
            self.n["rename"] = self.n.get("rename", 0) + 1

    # ------------------------------------------------------------ statements
    def block(self, body):
        """rewrites that need the list of statements"""
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            if isinstance(s, ast.If) and not s.orelse and terminates(s.body) and i + 1 < len(body) and self.infunc and \
                    self.on("elseflat"):
                s.orelse = self.block(body[i + 1:])
                out.append(s)
                return out
            if isinstance(s, ast.If) and s.orelse and terminates(s.body) and self.infunc and self.on("unelse"):
                rest = s.orelse
                s.orelse = []
                out.append(s)
                out += rest
                i += 1
                continue
            nx = body[i + 1] if i + 1 < len(body) else None
            if isinstance(s, ast.Assign) and isinstance(nx, ast.Assign) and len(s.targets) == len(nx.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and isinstance(nx.targets[0], ast.Name) and \
                    isinstance(s.value, (ast.Name, ast.Constant)) and isinstance(nx.value, (ast.Name, ast.Constant)) and \
                    len({s.targets[0].id, nx.targets[0].id, getattr(s.value, "id", 0), getattr(nx.value, "id", 1)}) == 4 and \
                    self.on("swap"):
                out += [nx, s]
                i += 2
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(s.value, ast.List) and not s.value.elts and isinstance(nx, ast.For) and not nx.orelse and \
                    len(nx.body) == 1 and isinstance(nx.body[0], ast.Expr) and isinstance(nx.body[0].value, ast.Call) and \
                    isinstance(nx.body[0].value.func, ast.Attribute) and nx.body[0].value.func.attr == "append" and \
                    isinstance(nx.body[0].value.func.value, ast.Name) and nx.body[0].value.func.value.id == s.targets[0].id and \
                    s.targets[0].id not in ast.unparse(nx.body[0].value.args[0]) and self.infunc and self.on("loop2comp"):
                s.value = ast.ListComp(nx.body[0].value.args[0], [ast.comprehension(nx.target, nx.iter, [], 0)])
                out.append(s)
                i += 2
                continue
            out.append(s)
            i += 1
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, (ast.ClassDef, ast.Module)):
                setattr(node, f, self.block(b))
        return node

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None:
            return n
        if isinstance(n.value, ast.IfExp) and self.on("ternary"):
            return [ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])]
        if self.on("rettemp"):
            t = fresh("_result")
            return [assign(t, n.value), ast.Return(name(t))]
        return n

    def visit_Raise(self, n):
        self.generic_visit(n)
        if n.exc is not None and n.cause is None and self.on("raisetemp"):
            t = fresh("_error")
            return [assign(t, n.exc), ast.Raise(name(t))]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if not self.infunc:
            return n
        if len(n.targets) == 1:
            t, v = n.targets[0], n.value
            if isinstance(v, ast.IfExp) and self.on("ternary"):
                return ast.If(v.test, [ast.Assign([copy.deepcopy(t)], v.body)], [ast.Assign([copy.deepcopy(t)], v.orelse)])
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async and isinstance(t, ast.Name) \
                    and not has(v.elt, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp) and self.on("comp2loop"):
                g = v.generators[0]
                names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                ren = {x: fresh("_item") for x in names}
                for part in [v.elt, g.target] + g.ifs:
                    for x in ast.walk(part):
                        if isinstance(x, ast.Name) and x.id in ren:
                            x.id = ren[x.id]
                acc = fresh("_acc")
                b = [ast.Expr(ast.Call(ast.Attribute(name(acc), "append", ast.Load()), [v.elt], []))]
                for c in reversed(g.ifs):
                    b = [ast.If(c, b, [])]
                return [assign(acc, ast.List([], ast.Load())), ast.For(g.target, g.iter, b, []), ast.Assign([t], name(acc))]
            if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) and \
                    not any(isinstance(x, ast.Starred) for x in t.elts + v.elts) and self.on("unpack"):
                ts = [fresh() for _ in t.elts]
                return [assign(a, b) for a, b in zip(ts, v.elts)] + [ast.Assign([a], name(b)) for a, b in zip(t.elts, ts)]
            if not isinstance(v, (ast.Constant, ast.Name)) and self.on("astemp"):
                x = fresh("_value")
                return [assign(x, v), ast.Assign([t], name(x))]
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and self.on("ifinv"):
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
            return n
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and self.on("andsplit"):
            b = n.body
            for c in reversed(n.test.values):
                b = [ast.If(c, b, [])]
            return b[0]
        if len(n.body) == len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) and \
                ast.dump(ast.Module([ast.Expr(x) for x in n.body[0].targets], [])) == \
                ast.dump(ast.Module([ast.Expr(x) for x in n.orelse[0].targets], [])) and self.on("if2ternary"):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        if not isinstance(n.test, (ast.Constant, ast.Name)) and self.on("condtemp"):
            t = fresh("_cond")
            # an elif would be evaluated too early only if it stood before its if: here it is nested in the else block
            return [assign(t, n.test), ast.If(name(t), n.body, n.orelse)]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not self.infunc:
            return n
        if self.on("enumerate"):
            return ast.For(ast.Tuple([name(fresh("_k"), True), n.target], ast.Store()), ast.Call(name("enumerate"), [n.iter], []),
                           n.body, [])
        if self.on("iterwhile"):
            it = fresh("_it")
            nx = ast.Try([ast.Assign([n.target], ast.Call(name("next"), [name(it)], []))],
                         [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])
            return [assign(it, ast.Call(name("iter"), [n.iter], [])), ast.While(ast.Constant(True), [nx] + n.body, [])]
        if self.on("listiter"):
            n.iter = ast.Call(name("list"), [n.iter], [])
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if not n.orelse and self.on("whiletrue"):
            return ast.While(ast.Constant(True), [ast.If(neg(n.test), [ast.Break()], [])] + n.body, [])
        return n

    # ------------------------------------------------------------ expressions
    def visit_Lambda(self, n):
        self.comp += 1
        self.generic_visit(n)
        self.comp -= 1
        return n

    def visit_ListComp(self, n):
        self.comp += 1
        self.generic_visit(n)
        self.comp -= 1
        g = n.generators[0]
        if self.infunc and len(n.generators) == 1 and isinstance(g.target, ast.Name) and not has(n.elt, ast.NamedExpr):
            if not g.ifs and self.on("comp2map"):
                lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
                return ast.Call(name("list"), [ast.Call(name("map"), [lam, g.iter], [])], [])
        if self.infunc and self.on("comp2gen"):
            return ast.Call(name("list"), [ast.GeneratorExp(n.elt, n.generators)], [])
        return n

    def visit_GeneratorExp(self, n):
        self.comp += 1
        self.generic_visit(n)
        self.comp -= 1
        if self.infunc and self.on("gen2list"):
            return ast.ListComp(n.elt, n.generators)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        if any(isinstance(v, ast.FormattedValue) and v.format_spec is not None and has(v.format_spec, ast.FormattedValue)
               for v in n.values):
            return n
        if self.on("fstr"):
            s, args = "", []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    s += v.value.replace("{", "{{").replace("}", "}}")
                else:
                    spec = "".join(x.value for x in v.format_spec.values) if v.format_spec else ""
                    s += "{" + ("!" + chr(v.conversion) if v.conversion != -1 else "") + (":" + spec if spec else "") + "}"
                    args.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, [])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and simple(n.comparators[0]) and self.on("chain"):
            m = copy.deepcopy(n.comparators[0])
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]),
                                          ast.Compare(m, [n.ops[1]], [n.comparators[1]])])
        if len(n.ops) == 1:
            op = n.ops[0]
            if isinstance(op, ast.NotIn) and self.on("notin"):
                return neg(ast.Compare(n.left, [ast.In()], n.comparators))
            if isinstance(op, ast.IsNot) and self.on("notin"):
                return neg(ast.Compare(n.left, [ast.Is()], n.comparators))
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            if type(op) in sw and simple(n.left) and self.on("flip"):
                return ast.Compare(n.comparators[0], [sw[type(op)]()], [n.left])
            if isinstance(op, ast.In) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and simple(n.left) and \
                    all(isinstance(x, ast.Constant) for x in n.comparators[0].elts) and len(n.comparators[0].elts) > 1 and self.on("inor"):
                return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x]) for x in n.comparators[0].elts])
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp) and self.on("demorgan"):
            o = n.operand
            return ast.BoolOp(ast.Or() if isinstance(o.op, ast.And) else ast.And(), [neg(v) for v in o.values])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and simple(n.args[0]) and \
                len(n.args[1].elts) > 1 and self.on("isinstance"):
            return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]), x], []) for x in n.args[1].elts])
        if isinstance(f, ast.Name) and f.id == "super" or isinstance(f, ast.Name) and f.id in ("locals", "globals", "vars"):
            return n
        if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args) and self.infunc and self.on("star"):
            n.args = [ast.Starred(ast.Tuple(n.args, ast.Load()), ast.Load())]
            return n
        if n.keywords and all(k.arg for k in n.keywords) and self.infunc and self.on("kwstar"):
            n.keywords = [ast.keyword(None, ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords]))]
            return n
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and not n.attr.startswith("__") and \
                self.on("getattr"):
            return ast.Call(name("getattr"), [n.value, ast.Constant(n.attr)], [])
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice) and self.infunc and self.on("slice"):
            z = lambda x: x if x is not None else ast.Constant(None)
            n.slice = ast.Call(name("slice"), [z(n.slice.lower), z(n.slice.upper), z(n.slice.step)], [])
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts and self.infunc and self.on("literal"):
            return ast.Call(name("list"), [], [])
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.infunc and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys) and \
                self.on("literal"):
            return ast.Call(name("dict"), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.on("ternaryinv"):
            return ast.IfExp(neg(n.test), n.orelse, n.body)
        return n

    def visit_Constant(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        return n


KINDS = ("extract noop iftrue tryfinally tryraise retnone selfalias rename elseflat unelse swap loop2comp ternary rettemp raisetemp comp2loop "
         "unpack astemp ifinv andsplit if2ternary condtemp enumerate iterwhile listiter whiletrue comp2map comp2gen gen2list fstr "
         "chain notin flip inor demorgan isinstance star kwstar getattr slice literal ternaryinv").split()


def main():
    root, kind = sys.argv[1], sys.argv[2]
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    pct = float(sys.argv[4]) if len(sys.argv) > 4 else (10 if kind == "mix" else 100)
    total = {}
    for pkg in ("gsp", "gsp_matplotlib"):
        for f in sorted(glob.glob(os.path.join(root, pkg, "**", "*.py"), recursive=True)):
            src = open(f, encoding="utf8").read()
            t = ast.parse(src)
            r = R(lambda k: (kind == "mix" or k in kind.split("+")) and rng.random() * 100 < pct)
            t = r.visit(t)
            ast.fix_missing_locations(t)
            new = ast.unparse(t) + "\n"
            compile(new, f, "exec")
            open(f, "w", encoding="utf8").write(new)
            for k, v in r.n.items():
                total[k] = total.get(k, 0) + v
    print(kind, total)


if __name__ == "__main__":
    main()
