"""C27: transcriptions are consistent discretisations."""
from ..checklib import *
from ..harness import arr_of, new_interp
from ..arrays import base_array
from ..alg import ZERO, ONE, sym, dim
from .. import arrays, polystub
from fractions import Fraction

TR = "lumos.optimal_control.transcription"
COL = "lumos.optimal_control.collocation"
FILE = "lumos/optimal_control/transcription.py"
FIXED = {"ForwardEuler": (2, 1), "Trapezoidal": (2, 2)}     # stages, largest exact degree
POINTS = {1: [[1]], 2: [["-1/3", 1], ["1/5", "4/5"]], 3: [["-7/10", "1/4", 1], ["-9/10", "-4/5", "1/2"]], 4: [["-4/5", "-1/5", "3/5", 1]], 5: [["-9/10", "-1/2", "1/10", "13/20", 1]]}


CHECK = []


class Ctx:
    def __init__(self, points=None):
        self.I = I = new_interp()
        CHECK[0]._interps[id(I)] = I
        polystub.install(I)
        if points is not None:
            def col(i, a, k):
                n = i.as_num(k.get("num_points", a[0] if a else None))
                p = [P(Fraction(x)) for x in points]
                if n is None or n.const() != len(p):
                    return i.unknown("number of points")
                return polystub.new(i, p)
            I.overrides[COL + ".get_collocation_points"] = Native("get_collocation_points", col)
        I.load(TR)
        self.points = points

    def make(self, name, **kw):
        I = self.I
        return call(I, I.mod_get(TR, "make_transcription"), name, I.new_dict(list(kw.items())) if kw else I.new_dict([]))

    def matrices(self, t):
        I = self.I
        r = I.iter_items(call(I, I.getattr(t, "get_continuity_matrices")))
        if r is None or len(r) != 2:
            raise Und("continuity matrices")
        m = [arr_of(I, x) for x in r]
        if any(x is None for x in m):
            raise Und(f"continuity matrices {r!r}"[:200])
        return m

    def vec(self, v):
        a = arr_of(self.I, v)
        if a is None or a.size.const() is None:
            raise Und("points")
        return [arrays.topoly(a.get((P(k),))) for k in range(int(a.size.const()))]


def options():
    I = new_interp()
    I.load(TR)
    v = I.iter_items(call(I, I.mod_get(TR, "get_transcription_options")))
    if v is None or any(not isinstance(n, str) for n in v):
        raise Und("list of options")
    return v


def power(t, k):
    r = ONE
    for _ in range(k):
        r = r * t
    return r


def ob_fixed(c, name):
    z = Ctx()
    t = z.make(name)
    I = z.I
    K, top = FIXED[name]
    A, B = z.matrices(t)
    check(c, z, t, A, B, [ZERO, ONE], top, name)
    if name == "ForwardEuler":          # explicit: the derivative at the end of the interval is not used
        for i in range(K - 1):
            c.eq_poly(arrays.topoly(B.get((P(i), P(K - 1)))), ZERO, f"{name}: weight of the derivative at the end of the interval")


def check(c, z, t, A, B, ts, top, what):
    I = z.I
    K = len(ts)
    n = I.as_num(I.getattr(t, "num_constraints_per_interval"))
    c.eq_poly(I.as_num(I.getattr(t, "num_stages_per_interval")), P(K), f"{what}: stages per interval")
    c.eq_poly(n, P(K - 1), f"{what}: equations per interval")
    for m, q in ((A, "A"), (B, "B")):
        c.eq_shape(m.shape, (P(K - 1), P(K)), f"{what}: {q}")
    for i in range(K - 1):
        for k in range(top + 1):
            l = r = ZERO
            for j in range(K):
                l = l + arrays.topoly(A.get((P(i), P(j)))) * power(ts[j], k)
                if k:
                    r = r + arrays.topoly(B.get((P(i), P(j)))) * power(ts[j], k - 1) * k
            nm = ("constant", "linear", "quadratic", "cubic")[k] if k < 4 else f"degree {k}"
            c.eq_poly(l, r, f"{what}: equation {i} for the {nm} trajectory t^{k}: A x - B x' is not zero: A x")
    # the equations determine the later stages: A without its first column is regular
    sub = [[arrays.topoly(A.get((P(i), P(j)))).const() for j in range(1, K)] for i in range(K - 1)]
    if all(x is not None for row in sub for x in row):
        c.comparisons += 1
        if det(sub) == 0:
            raise Bad(f"{what}: the equations do not determine the later stages from the first one")


def det(m):
    m = [list(map(Fraction, r)) for r in m]
    d = Fraction(1)
    for k in range(len(m)):
        p = next((r for r in range(k, len(m)) if m[r][k]), None)
        if p is None:
            return 0
        if p != k:
            m[k], m[p] = m[p], m[k]
            d = -d
        d *= m[k][k]
        for r in range(k + 1, len(m)):
            f = m[r][k] / m[k][k]
            m[r] = [a - f * b for a, b in zip(m[r], m[k])]
    return d


def ob_collocation(c, name, K, pts):
    z = Ctx(pts)
    t = z.make(name, num_stages=P(K))
    A, B = z.matrices(t)
    ts = [ZERO] + [P((Fraction(p) + 1) / 2) for p in pts]
    what = f"{name}({K}) at the points {', '.join(map(str, pts))}"
    c.eq_arr(z.I, z.I.getattr(t, "interp_points"), arrays.stack([Arr((), lambda ix, q=q: q) for q in ts]), f"{what}: interpolation points")
    # K-1 points fix x' up to degree K-2 in the integral form; x has degree K-1 in the differential form
    check(c, z, t, A, B, ts, K - 1, what)


def ob_points(c, scheme, n):
    """Points are the roots that define the scheme, ascending."""
    z = Ctx()
    I = z.I
    en = I.mod_get(COL, "CollocationEnum")
    r = call(I, I.mod_get(COL, "get_collocation_points"), num_points=P(n), scheme=I.getattr(en, scheme))
    got = z.vec(r)
    leg = polystub.legendre_poly
    add = lambda a, b, s: [(a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0) for i in range(max(len(a), len(b)))]
    if scheme == "LGR":
        # the flipped Radau points: roots of P_{n-1} - P_n, the last one is 1
        want = polystub.roots(add(leg(n - 1), leg(n), -1)) if n > 1 else [ONE]
    elif scheme == "LG":
        want = polystub.roots(leg(n))
    else:
        p = leg(n - 1)
        want = [-ONE] + polystub.roots([p[i] * i for i in range(1, len(p))]) + [ONE]
    c.comparisons += 1
    if len(got) != len(want):
        raise Bad(f"{scheme} has {len(got)} points instead of {len(want)}")
    for k, (g, w) in enumerate(zip(got, want)):
        c.eq_poly(g, w, f"{scheme} point {k} of {n}")


def ob_lgr(c, name, K):
    """LGR transcriptions use the flipped Radau points, mapped to [0, 1]."""
    z = Ctx()
    I = z.I
    t = z.make(name, num_stages=P(K))
    other = z.make(name, num_stages=P(K + 1))
    n = K - 1
    leg = polystub.legendre_poly
    p, q = leg(n - 1), leg(n)
    want = polystub.roots([(p[i] if i < len(p) else 0) - q[i] for i in range(len(q))])
    want = [(r + 1) * alg.inverse(P(2)) for r in want]
    for g, w in zip(z.vec(I.getattr(t, "collocation_points")), want):
        c.eq_poly(g, w, f"{name}({K}): collocation points")
    got = z.vec(I.getattr(t, "interp_points"))
    c.comparisons += 1
    if len(got) != K:
        raise Bad(f"{name}({K}) has {len(got)} stages per interval")
    for g, w in zip(got, [ZERO] + want):
        c.eq_poly(g, w, f"{name}({K}): interpolation points")
    c.eq_poly(I.as_num(I.getattr(t, "num_stages_per_interval")), P(K), f"{name}({K}): stages per interval, with another instance of {K + 1}")
    c.eq_poly(I.as_num(I.getattr(other, "num_stages_per_interval")), P(K + 1), f"{name}({K + 1}): stages per interval")


def ob_con(c):
    """Continuity equations of any transcription: A x - B x' T."""
    z = Ctx()
    I = z.I
    m, K, d = dim("m"), dim("K", 2), dim("d")
    A, B, x, xd = base_array("A", (m, K)), base_array("B", (m, K)), base_array("x", (K, d)), base_array("xd", (K, d))
    cls = I.mod_get(TR, "Trapezoidal")
    t = call(I, cls)
    for n, v in (("_get_A_matrix", A), ("_get_B_matrix", B)):
        I.overrides[f"{TR}.Trapezoidal.{n}"] = Native(n, lambda i, a, k, v=v: i.new_arr(v))
    got = call(I, I.getattr(t, "continuity_con"), I.new_arr(x), I.new_arr(xd), sym("T"))
    I1 = lambda M, X: arr_of(I, I.binop(__import__("ast").MatMult(), I.new_arr(M), I.new_arr(X)))
    l, r = I1(A, x), I1(B, xd)
    c.eq_arr(I, got, Arr((m, d), lambda ix: arrays.topoly(l.get(ix)) - arrays.topoly(r.get(ix)) * sym("T")), "continuity equations")


def ob_names(c):
    z = Ctx()
    I = z.I
    opts = options()
    for n in ("ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"):
        c.comparisons += 1
        if n not in opts:
            raise Gone(f"transcription {n}")
    for n in opts:
        kw = I.new_dict([])
        t = call(I, I.mod_get(TR, "make_transcription"), n)
        if not (isinstance(t, Ref) and I.rec(t).kind == "obj"):
            raise Und(f"make_transcription({n!r})")
        c.comparisons += 1
        if I.rec(t).cls.name != n:
            raise Bad(f"make_transcription({n!r}) gives a {I.rec(t).cls.name}")
    for n in ("Collocation", "Transcription", "no_such_scheme", "", "lgr", "LG", "Trapez"):
        if n not in opts:
            must_raise(c, I, I.mod_get(TR, "make_transcription"), {}, f"make_transcription({n!r})", (n,))


def ob_schemes(c):
    """A scheme that is no member is rejected; so are less than one point."""
    z = Ctx()
    I = z.I
    f = I.mod_get(COL, "get_collocation_points")
    must_raise(c, I, f, {"num_points": P(3), "scheme": "LGR"}, "a scheme given by its name")
    must_raise(c, I, f, {"num_points": ZERO, "scheme": I.getattr(I.mod_get(COL, "CollocationEnum"), "LGR")}, "no points")


def run(c):
    CHECK[:] = [c]
    c.explain = ("abstract interpretation of the transcription classes: exact rational polynomials stand in for those of numpy and scipy, roots of Legendre "
                 "polynomials are symbols; the conditions of exactness are checked for every row of the continuity matrices")
    c.assumptions = ["collocation matrices are compared for several exact sets of distinct points per number of stages, 2 to 6 stages",
                     "scipy.interpolate.lagrange and numpy.polynomial have their documented meaning"]
    for n in FIXED:
        c.ob("exact for polynomial trajectories", f"{FILE}:{n}", ob_fixed, c, n, group=n)
    top = 4 if c.tier == "quick" else 6
    for name in ("LGR", "LGRIntegral"):
        for K in range(2, top + 1):
            for k, pts in enumerate(POINTS[K - 1]):
                c.ob("exact for polynomial trajectories", f"{FILE}:{name} [{K} stages, points {k}]", ob_collocation, c, name, K, pts)
            c.ob("collocation at the flipped Radau points", f"{FILE}:{name} [{K} stages]", ob_lgr, c, name, K)
    for s in ("LGR", "LG", "LGL"):
        for n in range(1 if s != "LGL" else 2, top + 2):
            c.ob("points of the scheme", f"lumos/optimal_control/collocation.py:get_collocation_points [{s}, {n} points]", ob_points, c, s, n)
    c.ob("continuity equations", f"{FILE}:Transcription.continuity_con", ob_con, c)
    c.ob("advertised names can be selected, others are rejected", f"{FILE}:make_transcription", ob_names, c)
    c.ob("invalid schemes are rejected", "lumos/optimal_control/collocation.py:get_collocation_points", ob_schemes, c)
