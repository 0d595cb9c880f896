"""Identities of rational functions over trigonometric and uninterpreted atoms."""
from . import alg
from .alg import P, Poly, Atom, ZERO, ONE

ODD = {"sin", "tan", "arctan", "arcsin", "tanh", "sinh", "sign"}
EVEN = {"cos", "cosh", "abs"}


def fname(a):
    n = a.args[0]
    return n if isinstance(n, str) else None


def short(n):
    return n.rsplit(".", 1)[-1] if n else n


def top_atoms(p):
    out = []
    for m in p.terms:
        for a, _ in m:
            if a not in out:
                out.append(a)
    return out


class Canon:
    """Applications whose arguments are equal as rational functions become one atom."""

    def __init__(self):
        self.known = {}
        self.memo = {}

    def poly(self, p):
        p = P(p)
        r = self.memo.get(p)
        if r is not None:
            return r
        mp = {}
        for a in top_atoms(p):
            q = self.atom(a)
            if q != P(a):
                mp[a] = q
        r = p
        if mp:
            r = ZERO
            for m, c in p.terms.items():
                t = Poly({(): c})
                for a, e in m:
                    b = mp.get(a, P(a))
                    if e < 0:
                        b, e = alg.inverse(b), -e
                    t = t * alg.ppow(b, e)
                r = r + t
        self.memo[p] = r
        return r

    def atom(self, a):
        if a.kind == "inv":
            return alg.inverse(self.poly(a.args[0]))
        if a.kind != "app":
            return P(a)
        n = fname(a)
        args = [self.poly(x) if isinstance(x, (Poly, Atom)) else x for x in self.args(a)]
        s = short(n)
        for other, res in self.known.setdefault((n, len(args)), []):
            if all(self.same(x, y) for x, y in zip(args, other)):
                return res
            if len(args) == 1 and isinstance(args[0], Poly) and (s in ODD or s in EVEN) and zero(args[0] + other[0]):
                return -res if s in ODD else res
        if len(args) == 1 and isinstance(args[0], Poly) and not args[0].terms and s in ODD:
            return ZERO
        if len(args) == 1 and isinstance(args[0], Poly) and not args[0].terms and s == "cos":
            return ONE
        self.known[(n, len(args))].append((args, P(a)))
        return P(a)

    def args(self, a):
        r = []
        for x in a.args[1:]:
            if isinstance(x, tuple):
                r += list(x)
            else:
                r.append(x)
        return r

    def same(self, x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            return zero(x - y)
        return x == y


def lower(p):
    """Multiplies by the denominators, also those written as negative powers; cos^2 -> 1 - sin^2."""
    for _ in range(20):
        p = alg.clear_inv(p)
        low = {}
        for m in p.terms:
            for a, e in m:
                if e < 0:
                    low[a] = min(low.get(a, 0), e)
        if low:
            f = ONE
            for a, e in low.items():
                f = f * alg.ppow(P(a), -e)
            p = p * f
            continue
        out, changed = ZERO, False
        for m, c in p.terms.items():
            t = Poly({(): c})
            for a, e in m:
                if a.kind == "app" and short(fname(a)) == "cos" and e >= 2:
                    s = P(Atom("app", a.args[0][:-3] + "sin", *a.args[1:]))
                    t = t * alg.ppow(ONE - s * s, e // 2) * alg.ppow(P(a), e % 2)
                    changed = True
                elif a.kind == "app" and short(fname(a)) == "sqrt" and e >= 2 and len(a.args) == 2 and isinstance(a.args[1], Poly):
                    t = t * alg.ppow(a.args[1], e // 2) * alg.ppow(P(a), e % 2)
                    changed = True
                else:
                    t = t * alg.ppow(P(a), e)
            out = out + t
        p = out
        if not changed:
            return p
    return p


def zero(p):
    return not p.terms or not lower(p).terms


def same(a, b):
    """Provably equal wherever both are defined."""
    k = Canon()
    return zero(k.poly(P(a) - P(b))) or zero(k.poly(P(a)) - k.poly(P(b)))
