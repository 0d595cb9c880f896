"""Stand-ins of polynomial objects of numpy and scipy: exact coefficients, symbolic roots."""
from fractions import Fraction
from . import alg, arrays, evalterm
from .alg import P, ZERO, ONE, sym
from .arrays import Arr
from .values import Stub, Native, Tup
from .harness import arr_of


def vec(I, v):
    a = arr_of(I, v)
    if a is None:
        its = I.iter_items(v)
        return [I.as_num(x) for x in its] if its is not None else None
    n = a.size.const()
    if n is None or a.ndim != 1:
        return None
    return [arrays.topoly(a.get((P(k),))) for k in range(int(n))]


def new(I, v):
    if not v:
        return I.new_arr(arrays.const_array((ZERO,), ZERO))
    return I.new_arr(arrays.stack([Arr((), lambda ix, q=P(q): q) for q in v]))


def mul(a, b):
    r = [ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def horner(c, x):
    r = ZERO
    for k in reversed(c):
        r = r * x + k
    return r


def legendre_poly(n):
    """Monomial coefficients of the Legendre polynomial."""
    p0, p1 = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return p0
    for k in range(1, n):
        a = [Fraction(0)] + [Fraction(2 * k + 1, k + 1) * x for x in p1]
        b = [Fraction(k, k + 1) * x for x in p0] + [Fraction(0)] * (len(a) - len(p0))
        p0, p1 = p1, [x - y for x, y in zip(a, b)]
    return p1


def real_roots(c):
    """Real roots in [-1, 1] of a polynomial with simple roots there, ascending."""
    f = lambda x: float(sum(float(k) * x ** i for i, k in enumerate(c)))
    out, n = [], 20011
    xs = [-1.0 - 1e-9 + (2 + 2e-9) * i / n for i in range(n + 1)]
    for a, b in zip(xs, xs[1:]):
        fa, fb = f(a), f(b)
        if fa == 0:
            out.append(a)
        elif fa * fb < 0:
            for _ in range(100):
                m = (a + b) / 2
                if f(a) * f(m) <= 0:
                    b = m
                else:
                    a = m
            out.append((a + b) / 2)
    return out


def roots(c):
    """Symbols of the ascending roots; those of p(x) and p(-x) are related exactly."""
    c = [Fraction(x) for x in c]
    while c and c[-1] == 0:
        c.pop()
    if len(c) <= 1:
        return []
    c = [x / c[-1] for x in c]
    f = [x * (-1) ** (i + len(c) - 1) for i, x in enumerate(c)]
    flip = tuple(f) < tuple(c)
    canon = tuple(f) if flip else tuple(c)
    num = real_roots(canon)
    if len(num) != len(canon) - 1:
        return None
    out = []
    for k, v in enumerate(num):
        n = "root(" + " ".join(map(str, canon)) + f")[{k}]"
        if v > 1 - 1e-7 and sum(canon) == 0:
            out.append(ONE)
            continue
        if v < -1 + 1e-7 and sum(x * (-1) ** i for i, x in enumerate(canon)) == 0:
            out.append(-ONE)
            continue
        evalterm.CONST_SYMS[n] = v
        if abs(v) > 1e-9:
            alg.LOWER.setdefault(alg.Atom("sym", n), 0) if v > 0 else None
        out.append(sym(n) if canon != tuple([Fraction(0)] * (len(canon) - 1) + [Fraction(1)]) else ZERO)
    return [-r for r in reversed(out)] if flip else out


class Polyn:
    """Polynomial with coefficients in ascending powers."""

    def __init__(self, c, kind="Polynomial"):
        self.c, self.kind = [P(x) for x in c], kind
        m = {"deriv": self.deriv, "integ": self.integ, "roots": self.roots, "convert": lambda I, a, k: Polyn(self.c).stub,
             "degree": lambda I, a, k: P(len(self.c) - 1)}
        at = {n: Native(n, f) for n, f in m.items()}
        at["coef"] = self.coef
        at["coeffs"] = at["c"] = lambda I: new(I, self.c[::-1])
        self.stub = Stub(kind, attrs=at, call=self.value)
        self.stub.polyn = self

    def coef(self, I):
        if self.kind == "Legendre":
            return I.unknown("Legendre coefficients")
        return new(I, self.c[::-1] if self.kind == "poly1d" else self.c)

    def times(self, a):
        return int(I_const(a[0])) if a else 1

    def deriv(self, I, a, k):
        c = self.c
        for _ in range(self.times(list(a) + list(k.values()))):
            c = [c[i] * i for i in range(1, len(c))] or [ZERO]
        return Polyn(c, self.kind).stub

    def integ(self, I, a, k):
        if set(map(str, k)) - {"m"} or len(a) > 1:
            return I.unknown("integration constants")
        c = self.c
        for _ in range(self.times(list(a) + list(k.values()))):
            c = [ZERO] + [x * alg.inverse(P(i + 1)) for i, x in enumerate(c)]
        return Polyn(c, self.kind).stub

    def value(self, I, a, k):
        x = arr_of(I, a[0])
        if x is not None and x.ndim:
            return I.new_arr(arrays.elementwise(lambda u: horner(self.c, arrays.topoly(u)), x))
        return horner(self.c, I.as_num(a[0]))

    def roots(self, I, a, k):
        if any(x.const() is None for x in self.c):
            return I.unknown("roots")
        r = roots([x.const() for x in self.c])
        return new(I, r) if r is not None else I.unknown("roots outside the interval")


def I_const(v):
    return v.const() if hasattr(v, "const") else v


def install(I):
    def poly(kind):
        def make(i, a, k):
            v = a[0] if a else list(k.values())[0]
            if isinstance(v, Stub) and hasattr(v, "polyn"):
                return Polyn(v.polyn.c, kind).stub
            c = vec(i, v)
            if c is None or len(a) > 1:
                return i.unknown(kind)
            if kind == "poly1d":
                return Polyn(c[::-1], kind).stub
            if kind == "Legendre":
                if any(x.const() is None for x in c):
                    return i.unknown("Legendre")
                m = [Fraction(0)] * len(c)
                for n, x in enumerate(c):
                    for q, y in enumerate(legendre_poly(n)):
                        m[q] += y * Fraction(x.const())
                return Polyn(m, kind).stub
            return Polyn(c, kind).stub
        return Native(kind, make)

    def lagrange(i, a, k):
        x, w = vec(i, a[0]), vec(i, a[1])
        if x is None or w is None or len(x) != len(w):
            return i.unknown("lagrange")
        tot = [ZERO] * len(x)
        for j in range(len(x)):
            if P(w[j]).const() == 0:
                continue
            c, d = [ONE], ONE
            for m in range(len(x)):
                if m != j:
                    c = mul(c, [-x[m], ONE])
                    d = d * (x[j] - x[m])
            for q, v in enumerate(c):
                tot[q] = tot[q] + v * w[j] * alg.inverse(d)
        return Polyn(tot, "poly1d").stub
    ov = I.overrides
    for q in ("numpy.polynomial.legendre.Legendre", "numpy.polynomial.Legendre"):
        ov[q] = poly("Legendre")
    for q in ("numpy.polynomial.polynomial.Polynomial", "numpy.polynomial.Polynomial"):
        ov[q] = poly("Polynomial")
    ov["numpy.poly1d"] = poly("poly1d")
    ov["scipy.interpolate.lagrange"] = Native("lagrange", lagrange)
