"""Identity testing of value-graph nodes by random interpretation (Gulwani & Necula, POPL 2003).

A term of the value graph is a polynomial/rational/gated expression over leaves.  Two terms that differ as
functions disagree on a random valuation with overwhelming probability; two equal ones never do.  Nothing of
the analysed program is run here: only the algebraic terms the dataflow analysis produced are evaluated.
Functions without a known meaning evaluate to Unknown, which never contributes to a violation.
"""
import cmath
import hashlib
import math
import random
import struct
import numpy as np
from .values import *
from .values import Term


class Unknown(Exception):
    pass


class View:
    """state-independent image of an abstract value"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __repr__(self):
        return "%s%r" % (self.k, self.a)


GENERIC = {"str.resampled", "mpath", "mscale", "cmap", "cmapi", "arc", "attr", "obj", "item", "id", "hash", "repr", "str.strip",
           "strftime", "isoformat", "arrstr", "mcall", "json.loads", "type"}
NATIVE_STR = {"upper", "lower", "strip", "lstrip", "rstrip", "title", "capitalize", "replace", "startswith", "endswith",
              "find", "zfill", "ljust", "rjust", "center", "casefold", "swapcase", "isdigit", "isalpha", "count"}


def _tok(*a):
    return hashlib.blake2b(repr(a).encode(), digest_size=8).digest()


class Eval:
    """one random valuation"""

    def __init__(self, rng, pool, ranges):
        self.rng, self.pool, self.ranges = rng, pool, ranges
        self.memo = {}
        self.leaves = {}
        self.npmemo = {}

    # ----------------------------------------------------------------- leaves
    def leaf(self, name, ty):
        k = (name, ty)
        if k not in self.leaves:
            self.leaves[k] = self.draw(name, ty)
        return self.leaves[k]

    def draw(self, name, ty):
        r = self.rng
        lo, hi = self.ranges.get(name, (None, None))
        if isinstance(lo, (list, tuple)):
            return r.choice(lo)
        if ty == "bool":
            return r.random() < .5
        if ty in ("float", "int"):
            cands = [c for c in self.pool if (lo is None or c >= lo) and (hi is None or c <= hi)]
            if cands and r.random() < .25:
                v = r.choice(cands) + r.choice([0, 0, 0, 1e-3, -1e-3, 1, -1])
                if ty == "int":
                    v = int(round(v))
                if (lo is None or v >= lo) and (hi is None or v <= hi):
                    return v
            if ty == "int":
                if lo is None and hi is None:
                    return r.choice([r.randint(-9, 9), r.randint(0, 300)])
                return r.randint(lo if lo is not None else hi - 50, hi if hi is not None else lo + 50)
            a = lo if lo is not None else (hi - 4 if hi is not None else -2.5)
            b = hi if hi is not None else (lo + 4 if lo is not None else 2.5)
            return r.uniform(a, b)
        if ty == "complex":
            return complex(r.uniform(-2, 2), r.uniform(-2, 2))
        if ty == "str":
            strs = [c for c in self.pool_str if isinstance(c, str)] if hasattr(self, "pool_str") else []
            if strs and r.random() < .3:
                return r.choice(strs)
            return "".join(r.choice("abcdefgxyz") for _ in range(r.randint(1, 5)))
        if ty == "bytes":
            return bytes(r.randrange(256) for _ in range(6))
        return View("token", name, r.random())

    # ----------------------------------------------------------------- terms
    def ev(self, v):
        if isinstance(v, Term):
            k = v.id
            if k in self.memo:
                x = self.memo[k]
                if isinstance(x, Unknown):
                    raise x
                return x
            try:
                x = self.term(v)
            except Unknown as e:
                self.memo[k] = e
                raise
            except (ZeroDivisionError, OverflowError, ValueError, FloatingPointError):
                x = math.nan
            except RecursionError:
                raise Unknown("deep")
            except (TypeError, IndexError, KeyError, AttributeError) as e:
                u = Unknown("%s in %s" % (e, v.op))
                self.memo[k] = u
                raise u
            self.memo[k] = x
            return x
        if isinstance(v, View):
            return self.view(v)
        if isinstance(v, tuple):
            return tuple(self.ev(x) for x in v)
        if isinstance(v, np.generic):
            return v.item()
        return v

    def view(self, v):
        if v.k == "phi":
            return self.ev(v.a[1] if self.cond(v.a[0]) else v.a[2])
        if v.k == "seq":
            return tuple(self.ev(x) for x in v.a[0])
        if v.k == "selview":
            i = self.ev(v.a[0])
            if isinstance(i, bool) or not isinstance(i, (int, float)) or i != int(i):
                raise Unknown("selection by an unknown index")
            if not -len(v.a[1]) <= int(i) < len(v.a[1]):
                raise Unknown("selection out of range")
            return self.ev(v.a[1][int(i)])
        if v.k == "dict":
            return View("D", tuple((self.ev(k), self.ev(x)) for k, x in v.a[0]))
        if v.k == "set":
            return View("S", frozenset(_hk(self.ev(x)) for x in v.a[0]))
        if v.k == "unknown":
            raise Unknown(v.a[0])
        return v

    def cond(self, c):
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        x = self.ev(c)
        if isinstance(x, float) and x != x:
            return False
        return bool(x)

    def term(self, t):
        op, a = t.op, t.args
        if op == "sym":
            return self.leaf(a[0], t.ty)
        if op == "phi":
            return self.ev(a[1] if self.cond(a[0]) else a[2])
        if op == "and":
            return self.cond(a[0]) and self.cond(a[1])
        if op == "not":
            return not self.cond(a[0])
        if op == "select":
            i = self.ev(a[0])
            if i != i:
                raise Unknown("nan index")
            n = len(a[1])
            i = int(i)
            if not -n <= i < n:
                raise Unknown("index")
            return self.ev(a[1][i])
        if op == "argsort":
            keys = [tuple(self.ev(y) for y in x) if isinstance(x, tuple) else self.ev(x) for x in a[0]]
            order = sorted(range(len(keys)), key=lambda i: (keys[i] != keys[i], keys[i]))
            return order[a[1]]
        if op in ("argmin", "argmax"):
            keys = [self.ev(x) for x in a[0]]
            f = min if op == "argmin" else max
            return keys.index(f(keys))
        if op in ("add", "sub", "mul", "div", "floordiv", "mod", "pow", "bitand", "bitor", "bitxor", "lshift", "rshift"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, View) or isinstance(y, View):
                raise Unknown("arithmetic on opaque")
            if op == "pow" and isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if x < 0 and y != int(y):
                    return math.nan
                if abs(y) > 60 or abs(x) > 1e6:
                    raise Unknown("pow")
            r = from_values_PYOP[op](x, y)
            return r
        if op == "neg":
            return -self.ev(a[0])
        if op in from_values_UN:
            x = self.ev(a[0])
            if isinstance(x, View):
                raise Unknown("opaque")
            if isinstance(x, float) and x != x:
                return math.nan
            return from_values_UN[op](x)
        if op in ("min", "max"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, View) or isinstance(y, View):
                raise Unknown("opaque")
            if x != x or y != y:
                return math.nan
            return min(x, y) if op == "min" else max(x, y)
        if op == "atan2":
            return math.atan2(self.ev(a[0]), self.ev(a[1]))
        if op == "fmod":
            return math.fmod(self.ev(a[0]), self.ev(a[1]))
        if op == "lt":
            x, y = self.ev(a[0]), self.ev(a[1])
            return x < y
        if op == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            return _eq(x, y)
        if op == "is_none":
            x = self.ev(a[0])
            return x is None
        if op == "is":
            x, y = self.ev(a[0]), self.ev(a[1])
            return x is y or _eq(x, y)
        if op == "truth":
            x = self.ev(a[0])
            if isinstance(x, View):
                return True
            return bool(x)
        if op == "isnan":
            x = self.ev(a[0])
            return x != x
        if op == "isinf":
            return math.isinf(self.ev(a[0]))
        if op == "invert":
            return ~int(self.ev(a[0]))
        if op == "npfn":
            from .nparr import np_apply
            key = (a[0], a[1], id(a[2]))
            r = self.npmemo.get(key)
            if r is None:
                vals = [self.ev(x) for x in a[2]]
                if any(isinstance(x, View) for x in vals):
                    raise Unknown(a[0])
                try:
                    with np.errstate(all="ignore"):
                        r = (np_apply(a[0], a[1], vals), a[2])
                except Exception:
                    raise Unknown(a[0])
                self.npmemo[key] = r
            r = r[0]
            for i in a[3][0]:
                r = r[i]
            return np.asarray(r).ravel()[a[3][1]].item()
        if op == "mathfn":
            try:
                r = getattr(math, a[0])(*[self.ev(x) for x in a[1]])
            except (ValueError, TypeError, OverflowError):
                raise Unknown(a[0])
            return r if a[2] is None else r[a[2]]
        if op == "roundn":
            return round(self.ev(a[0]), self.ev(a[1]))
        if op == "cplx":
            return complex(self.ev(a[0]), self.ev(a[1]))
        if op == "inv":
            n = int(round(len(a[0]) ** .5))
            m = np.array([self.ev(x) for x in a[0]], float).reshape(n, n)
            if abs(np.linalg.det(m)) < 1e-9:
                raise Unknown("singular")
            return float(np.linalg.inv(m).ravel()[a[1]])
        if op == "frombytes":
            b = tuple(self.ev(x) for x in a[0])
            if all(isinstance(x, int) and 0 <= x < 256 for x in b) and np.dtype(a[1]).kind in "fiub":
                return np.frombuffer(bytes(b), a[1])[0].item()
            return View("frombytes", a[1], b)
        if op == "byte":
            x = self.ev(a[0])
            if isinstance(x, View) and x.k == "frombytes":
                return x.a[1][a[1]]
            return np.array(x, a[2]).tobytes()[a[1]]
        if op == "bytesof":
            return View("bytes", a[0], tuple(_round(self.ev(x)) for x in a[1]))
        if op in ("b64", "b64str", "unb64", "b64url", "unb64url", "bytes", "rawbytes", "encode", "decode"):
            x = self.ev(a[0])
            if op == "decode" and isinstance(x, View) and x.k == "b64":
                return View("b64str", *x.a)
            if op == "encode" and isinstance(x, str):
                return x.encode()
            return View(op, x)
        # strings
        if op == "cat":
            return "".join(self.s(self.ev(x)) for x in a)
        if op == "fmt":
            x = self.ev(a[0])
            if isinstance(x, View):
                return View("fmt", x, a[1])
            return format(x, a[1] or "")
        if op == "address":
            return "0x7f" + _tok(op, _canon((self.ev(a[0]),)))[:5].hex()
        if op == "arraytext":
            try:
                v = np.array([self.ev(x) for x in a[4:]], dtype=np.dtype(a[2])).reshape(a[3])
            except (ValueError, TypeError):
                raise Unknown(op)
            return str(v) if a[1] else repr(v).replace("array(", a[0] + "(", 1)
        if op == "strof":
            return self.s(self.ev(a[0]))
        if op == "reprof":
            x = self.ev(a[0])
            return repr(x)
        if op == "strmul":
            return self.ev(a[0]) * self.ev(a[1])
        if op == "stritem":
            return self.ev(a[0])[self.ev(a[1])]
        if op == "len":
            x = self.ev(a[0])
            if isinstance(x, (str, bytes, tuple)):
                return len(x)
            raise Unknown("len")
        if op == "intof" or op == "floatof":
            x = self.ev(a[0])
            if isinstance(x, View):
                raise Unknown(op)
            return (int if op == "intof" else float)(x)
        if op.startswith("str.") and op[4:] in NATIVE_STR:
            x = self.ev(a[0])
            if isinstance(x, View):
                raise Unknown(op)
            return getattr(x, op[4:])(*self.ev(a[1]))
        if op == "strmod":
            return self.ev(a[0]) % self.ev(a[1])
        if op == "in":
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(y, View):
                raise Unknown("in")
            return x in y
        if op == "json":
            return View("json", self.ev(a[0]))
        if op in GENERIC:
            h = _tok(op, _canon(tuple(self.ev(x) for x in a)))
            if t.ty == "bool":
                return bool(h[0] & 1)
            if t.ty in ("float", "any") and op not in ("attr", "obj", "item", "mcall", "json.loads", "type"):
                return int.from_bytes(h[:6], "big") / 2 ** 48
            if t.ty == "int":
                return int.from_bytes(h[:2], "big")
            return View("token", op, h)
        raise Unknown(op)

    def s(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, View):
            raise Unknown("text of opaque")
        return str(x)


from .values import _PYOP as from_values_PYOP, _UN as from_values_UN   # noqa: E402


def _round(x):
    if isinstance(x, float):
        return float("%.9g" % x) + 0.0
    return x


def _canon(x):
    if isinstance(x, tuple):
        return tuple(_canon(y) for y in x)
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, float)):
        return "%.7g" % (x + 0.0)
    if isinstance(x, View):
        return (x.k,) + tuple(_canon(y) for y in x.a)
    return repr(x)


def _hk(x):
    return repr(_canon(x))


def _eq(x, y):
    if isinstance(x, View) or isinstance(y, View):
        return agree(x, y, 0, 0)
    try:
        return bool(x == y)
    except Exception:
        return False


def agree(x, y, rel=1e-6, ab=1e-7):
    """do two evaluated values agree?"""
    if isinstance(x, View) or isinstance(y, View):
        if not (isinstance(x, View) and isinstance(y, View)) or x.k != y.k:
            return False
        if x.k == "D":
            a, b = x.a[0], y.a[0]
            return len(a) == len(b) and all(agree(p[0], q[0], rel, ab) and agree(p[1], q[1], rel, ab)
                                            for p, q in zip(a, b))
        return len(x.a) == len(y.a) and all(agree(p, q, rel, ab) for p, q in zip(x.a, y.a))
    if isinstance(x, tuple) or isinstance(y, tuple):
        return isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and \
            all(agree(p, q, rel, ab) for p, q in zip(x, y))
    nx = isinstance(x, (bool, int, float, complex))
    ny = isinstance(y, (bool, int, float, complex))
    if nx and ny:
        if isinstance(x, complex) or isinstance(y, complex):
            return cmath.isclose(x, y, rel_tol=rel, abs_tol=ab)
        if x != x or y != y:
            return x != x and y != y
        if math.isinf(x) or math.isinf(y):
            return x == y
        return math.isclose(x, y, rel_tol=rel, abs_tol=ab)
    if nx != ny:
        return False
    try:
        return bool(x == y)
    except Exception:
        return x is y


def constants(terms, acc=None, seen=None):
    """numeric and string constants compared against somewhere in the terms"""
    acc = {0, 1, -1} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t for t in terms if isinstance(t, (Term, View, tuple))]
    while stack:
        t = stack.pop()
        if isinstance(t, tuple):
            stack.extend(x for x in t if isinstance(x, (Term, View, tuple)))
            continue
        if isinstance(t, View):
            stack.extend(x for x in t.a if isinstance(x, (Term, View, tuple)))
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        for x in t.args:
            if isinstance(x, (Term, View, tuple)):
                stack.append(x)
            elif t.op in ("lt", "eq", "in", "sub", "mod", "str.startswith", "str.endswith"):
                if isinstance(x, bool):
                    pass
                elif isinstance(x, (int, float)) and abs(x) < 1e6 and x == x or isinstance(x, str):
                    acc.add(x)
    return acc


def leaves(terms):
    seen, out = set(), {}
    stack = [t for t in terms if isinstance(t, (Term, View, tuple))]
    while stack:
        t = stack.pop()
        if isinstance(t, tuple):
            stack.extend(x for x in t if isinstance(x, (Term, View, tuple)))
        elif isinstance(t, View):
            stack.extend(x for x in t.a if isinstance(x, (Term, View, tuple)))
        elif t.id not in seen:
            seen.add(t.id)
            if t.op == "sym":
                out[t.args[0]] = t.ty
            stack.extend(x for x in t.args if isinstance(x, (Term, View, tuple)))
    return out


class Tester:
    """decide  pc => got == want  (or pc => cond)"""

    def __init__(self, seed, ranges, samples):
        self.seed, self.ranges, self.samples = seed, ranges, samples

    def run(self, pc, fn, terms):
        """fn(ev) -> None when fine, or a message.  Returns (verdict, detail)
        verdict: 'ok', 'violated', 'undetermined', 'vacuous'"""
        cs = constants(list(terms) + [c for c, _ in pc])
        rng = random.Random(self.seed)
        hits = tries = unk = 0
        reason = None
        limit = self.samples * 12
        while hits < self.samples and tries < limit:
            tries += 1
            e = Eval(rng, sorted(c for c in cs if not isinstance(c, str)), self.ranges)
            e.pool_str = sorted(c for c in cs if isinstance(c, str))
            try:
                sat = all(e.cond(c) == b for c, b in pc)
            except Unknown as u:
                unk += 1
                reason = "path condition: %s" % u
                if unk > self.samples and hits == 0:
                    break
                continue
            if not sat:
                continue
            try:
                msg = fn(e)
            except Unknown as u:
                unk += 1
                reason = str(u)
                if unk > self.samples and hits == 0:
                    break
                continue
            if msg is not None:
                wit = {k[0]: v for k, v in e.leaves.items() if isinstance(v, (bool, int, float, str, complex))}
                return "violated", (msg, wit)
            hits += 1
        if hits:
            return "ok", hits
        if unk:
            return "undetermined", reason
        return "vacuous", tries
