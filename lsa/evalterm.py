"""Numeric instantiation of abstract terms.

Used on two terms whose normal forms differ: an instantiation of the symbolic sizes and
elements on which their values differ confirms the difference (and serves as witness);
without one the comparison stays undecided, so an incomplete normal form never raises an
alarm.  Only terms of the abstract domain are evaluated, never code of the repository."""
import hashlib
import math
import random
from . import alg
from .alg import Poly, Atom, P

CONDS = {}      # key -> Cond of indicator atoms


class Opaque(Exception):
    """The term contains something the domain does not interpret."""


class Undefined(Exception):
    """The instantiation violates a range (no meaning)."""


def hnum(key, lo=0.3, hi=2.3):
    h = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], "big")
    return lo + (hi - lo) * (h / 2.0 ** 64)


def hint(key, n):
    h = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], "big")
    return h % n


def keynum(v):
    """Stable text for a concrete value."""
    if isinstance(v, tuple):
        return "(" + ",".join(keynum(x) for x in v) + ")"
    if isinstance(v, float):
        if v == int(v) if abs(v) < 1e15 else False:
            return str(int(v))
        return "%.9g" % v
    return str(v)


INTERP = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "arctan": math.atan, "arcsin": lambda x: math.asin(max(-1, min(1, x))),
    "arccos": lambda x: math.acos(max(-1, min(1, x))), "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh,
    "exp": lambda x: math.exp(max(-50, min(50, x))), "log": lambda x: math.log(abs(x) + 1e-300), "sqrt": lambda x: math.sqrt(abs(x)),
    "abs": abs, "sign": lambda x: (x > 0) - (x < 0), "arctan2": math.atan2, "hypot": math.hypot,
    "max": max, "min": min, "floor": math.floor, "ceil": math.ceil,
    "deg2rad": math.radians, "rad2deg": math.degrees,
    "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
    "round": round, "square": lambda x: x * x,
}

CONST_SYMS = {"pi": math.pi, "euler": math.e}


# arrays and functions whose values have either sign whatever the problem
SIGNED = {"A", "B", "lam", "trk_x", "trk_y", "trk_curvature", "trk_heading"}
SIGNED_FNS = ("gradient", "fn_jac", "fn_hess", "fn_ohess", "fn_grad", "fn_con")


def snum(key):
    v = hnum(key)
    return -v if hint("sign" + key, 2) else v


class Env:
    def __init__(self, seed, small=3, fixed=None, signed=False, size=1):
        self.signed, self.size = signed, size
        self.seed = str(seed)
        self.rng = random.Random(seed)
        self.val = dict(fixed or {})
        self.small = small
        self.memo = {}
        self.steps = 0

    # -- atoms
    def atom(self, a):
        v = self.val.get(a)
        if v is not None:
            return v
        v = self.memo.get(a)
        if v is not None:
            return v
        v = self._atom(a)
        if self.pure(a):
            self.memo[a] = v
        return v

    def pure(self, a):
        return not any(b.kind == "bv" for b in alg.all_atoms(a)) and a.kind != "bv"

    def _atom(self, a):
        self.steps += 1
        if self.steps > 400000:
            raise Opaque("too large")
        k = a.kind
        if k == "unk":
            raise Opaque("unknown value")
        if k == "opq":
            return hnum(self.seed + a.key)
        if k == "sym":
            if a in alg.LOWER:
                lo = alg.LOWER[a]
                v = lo + self.rng.randrange(self.small)
                self.val[a] = v
                return v
            n = a.args[0]
            if n in CONST_SYMS:
                return CONST_SYMS[n]
            if n == "inf":
                return 1.23456789e30
            if n == "nan":
                raise Opaque("nan")
            return snum(self.seed + a.key) if self.signed and str(n).startswith("weight") else self.size * hnum(self.seed + a.key)
        if k in ("idx", "bv"):
            if a in alg.UPPER:
                n = self.poly(alg.UPPER[a])
                if n <= 0:
                    raise Undefined()
                v = self.rng.randrange(int(n))
                self.val[a] = v
                return v
            raise Opaque("free index")
        if k == "elem":
            idx = tuple(self.any(x) for x in a.args[1]) if isinstance(a.args[1], tuple) else (self.any(a.args[1]),)
            key = self.seed + str(a.args[0] if isinstance(a.args[0], str) else keynum(self.any(a.args[0]))) + keynum(idx)
            if a in alg.UPPER:
                n = self.poly(alg.UPPER[a])
                if n <= 0:
                    raise Undefined()
                return hint(key, int(n))
            return snum(key) if self.signed and a.args[0] in SIGNED else self.size * hnum(key)
        if k == "delta":
            return 1 if abs(self.poly(a.args[0])) < 1e-9 else 0
        if k == "inv":
            d = self.poly(a.args[0])
            if d == 0:
                raise Undefined()
            return 1.0 / d
        if k == "sum":
            vs, body = a.args
            return self.sum(list(vs), body)
        if k == "app":
            return self.app(a)
        if k == "name":
            return hnum(self.seed + "name" + keynum((str(a.args[0]), self.poly(a.args[1]))))
        raise Opaque(k)

    def sum(self, vs, body):
        if not vs:
            return self.poly(body)
        v, r = vs[0]
        n = self.poly(P(r))
        tot = 0
        old = self.val.get(v)
        for i in range(int(n)):
            self.val[v] = i
            tot += self.sum(vs[1:], body)
        if old is None:
            self.val.pop(v, None)
        else:
            self.val[v] = old
        return tot

    def app(self, a):
        n = a.args[0]
        if n == "ind" and a.args[1] == "lt":
            return 1 if self.poly(a.args[2]) < 0 else 0
        if n == "ind":
            c = CONDS.get(a.args[1])
            if c is None:
                raise Opaque("condition")
            return 1 if self.cond(c) else 0
        if n == "pow":
            x, y = self.any(a.args[1]), self.any(a.args[2])
            try:
                return abs(x) ** y
            except (OverflowError, ZeroDivisionError):
                raise Undefined()
        if n in INTERP:
            args = [self.any(x) for x in a.args[1:]]
            if all(isinstance(x, (int, float)) for x in args):
                try:
                    return INTERP[n](*args)
                except (OverflowError, ZeroDivisionError, ValueError):
                    raise Undefined()
        args = tuple(self.any(x) for x in a.args[1:])
        return (snum if self.signed and n.startswith(SIGNED_FNS) else hnum)(self.seed + n + keynum(args))

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Atom):
            return self.atom(x)
        if isinstance(x, tuple):
            if x and x[0] == "arr":
                return self.array(x)
            return tuple(self.any(y) for y in x)
        return str(x)

    def array(self, key):
        """Content of an array key: canonical whatever its partition."""
        shape, leaves = [], []
        for y in key[1:]:
            (leaves if isinstance(y, tuple) else shape).append(y)
        shp = tuple(int(self.poly(P(s))) for s in shape)
        out = {}
        for ix, v in leaves:
            bvs = sorted({b for p in ix for b in alg.all_atoms(p) if b.kind == "bv"} |
                         {b for p in ix for b in p.atoms() if b.kind == "bv"}, key=lambda b: b.key)
            # only bound variables of this array (defined with a range)
            bvs = [b for b in bvs if b not in self.val]

            def rec(k):
                if k == len(bvs):
                    out[tuple(self.poly(p) for p in ix)] = self.poly(v)
                    return
                n = int(self.poly(alg.UPPER[bvs[k]]))
                for i in range(n):
                    self.val[bvs[k]] = i
                    rec(k + 1)
                self.val.pop(bvs[k], None)
            rec(0)
        return ("arr", shp, tuple(sorted((k, keynum(v)) for k, v in out.items())))

    def poly(self, p):
        tot = 0
        for m, c in p.terms.items():
            t = int(c) if c.denominator == 1 else float(c)
            for a, e in m:
                if a.kind == "delta":
                    if self.atom(a) == 0:
                        t = 0
                        break
            if t == 0:
                continue
            for a, e in m:
                v = self.atom(a)
                if e < 0:
                    if v == 0:
                        raise Undefined()
                    t = t / v ** (-e)
                else:
                    t = t * v ** e
            tot += t
        return tot

    def cond(self, c):
        if c is True or c is False:
            return c
        if c.op == "lt":
            return self.poly(c.args[0]) < 0
        if c.op == "eq":
            return abs(self.poly(c.args[0])) < 1e-12
        if c.op == "not":
            return not self.cond(c.args[0])
        if c.op == "and":
            return all(self.cond(x) for x in c.args)
        if c.op == "or":
            return any(self.cond(x) for x in c.args)
        raise Opaque("condition " + c.op)


def index_order(p):
    """Index atoms sorted so that ranges are drawn in a fixed order."""
    return sorted((a for a in alg.all_atoms(p) | p.atoms() if a.kind == "idx"), key=lambda a: a.key)


def refute(p, q=None, trials=120, assume=()):
    """Witness (dict) that p != q for some instantiation, None if none was found.
    Raises Opaque when the terms contain uninterpreted parts."""
    q = alg.ZERO if q is None else q
    opaque = None
    for t in range(trials):
        e = Env(f"s{t}", small=2 + t % 4, signed=t % 8 > 4, size=1 if t % 8 != 4 else 9)
        try:
            for a in index_order(p - q):
                e.atom(a)
            for c in assume:
                if not e.cond(c):
                    raise Undefined()
            x, y = e.poly(p), e.poly(q)
        except Undefined:
            continue
        except Opaque as ex:
            opaque = ex
            if t > 5:
                break
            continue
        except (OverflowError, ZeroDivisionError):
            continue
        if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
            w = {alg.show_atom(a): v for a, v in e.val.items() if a.kind in ("sym", "idx")}
            return {"values": w, "left": x, "right": y}
    if opaque is not None:
        raise opaque
    return None
