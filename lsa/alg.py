"""Canonical algebra of the abstract domain: polynomials (with negative powers) over
interned atoms, Kronecker deltas, finite sums and range facts.  Two abstract scalars are
equal on every concretisation iff (for the interpreted operators) their normal forms
coincide."""
from fractions import Fraction
import itertools

_counter = itertools.count()


class Atom:
    """Interned atom.  kind in: sym idx bv elem app delta sum inv pow phi unk"""
    __slots__ = ("kind", "args", "key")
    table = {}

    def __new__(cls, kind, *args):
        k = (kind,) + args
        a = cls.table.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind = kind
            a.args = args
            a.key = kind + "(" + ",".join(_key(x) for x in args) + ")"
            cls.table[k] = a
        return a

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return show_atom(self)


def _key(x):
    if isinstance(x, (Atom, Poly)):
        return x.key
    if isinstance(x, tuple):
        return "<" + ";".join(_key(y) for y in x) + ">"
    return repr(x)


class Poly:
    __slots__ = ("terms", "_key", "_h")

    def __init__(self, terms):
        self.terms = {m: c for m, c in terms.items() if c}
        self._key = self._h = None

    @property
    def key(self):
        k = self._key
        if k is None:
            ms = sorted((tuple((a.key, e) for a, e in m), c) for m, c in self.terms.items())
            k = self._key = "{" + "+".join(
                str(c) + "*" + "*".join(a + "^" + str(e) for a, e in m) for m, c in ms) + "}"
        return k

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(frozenset(self.terms.items()))
        return h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.terms == o.terms)

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        o = P(o)
        t = dict(self.terms)
        for m, c in o.terms.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        extra = None
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m, special = mono_mul(m1, m2)
                if special is None:
                    t[m] = t.get(m, 0) + c1 * c2
                else:
                    extra = (extra or ZERO) + special * Poly({(): c1 * c2})
        r = Poly(t)
        return r if extra is None else r + extra

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inverse(P(o))

    def const(self):
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def atoms(self):
        s = set()
        for m in self.terms:
            for a, _ in m:
                s.add(a)
        return s


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): 1})
    if isinstance(x, bool):
        return Poly({(): int(x)})
    if isinstance(x, int):
        return Poly({(): x})
    if isinstance(x, float):
        return Poly({(): Fraction(repr(x))}) if x == x and abs(x) != float("inf") else P(Atom("sym", repr(x)))
    return Poly({(): Fraction(x)})


def mono_mul(m1, m2):
    """Product of monomials, handling deltas (idempotent, propagate equalities)."""
    d = {}
    for a, e in itertools.chain(m1, m2):
        d[a] = d.get(a, 0) + e
    deltas = [a for a in d if a.kind == "delta"]
    if deltas:
        for a in deltas:
            d[a] = 1
        # q * inv(q) handled below
    invs = [a for a in d if a.kind == "inv"]
    special = None
    m = tuple(sorted((ae for ae in d.items() if ae[1] != 0), key=lambda ae: ae[0].key))
    if len(deltas) > 1 and (any(a.kind == "delta" for a, _ in m1) and any(a.kind == "delta" for a, _ in m2)):
        r = reduce_deltas(deltas)
        if r is not None:
            rest = tuple(ae for ae in m if ae[0].kind != "delta")
            special = Poly({rest: 1})
            for q in r:
                special = special * q if False else _raw_mul(special, q)
            return None, special
    return m, special


def _raw_mul(p, q):
    t = {}
    for m1, c1 in p.terms.items():
        for m2, c2 in q.terms.items():
            d = {}
            for a, e in itertools.chain(m1, m2):
                d[a] = 1 if a.kind == "delta" else d.get(a, 0) + e
            m = tuple(sorted((ae for ae in d.items() if ae[1] != 0), key=lambda ae: ae[0].key))
            t[m] = t.get(m, 0) + c1 * c2
    return Poly(t)


def reduce_deltas(deltas):
    """delta(p) delta(q): use p to rewrite q when they differ by a decidable non-zero."""
    ds = sorted(deltas, key=lambda a: a.key)
    p, changed = ds[0].args[0], False
    for i in range(len(ds)):
        for j in range(len(ds)):
            if i == j:
                continue
            for s in (1, -1):
                diff = ds[i].args[0] - ds[j].args[0] * s
                z = is_zero(diff)
                if z is False:
                    return [ZERO]
    return None


ZERO = Poly({})
ONE = P(1)
MINUS = P(-1)


def inverse(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return P(Atom("sym", "inf"))
        return Poly({(): Fraction(1) / c})
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if not any(a.kind in ("delta",) for a, _ in m):
            r = Poly({(): Fraction(1) / c})
            out = {}
            for a, e in m:
                if a.kind == "inv":
                    r = r * ppow(a.args[0], e)
                else:
                    out[a] = -e
            return r * Poly({tuple(sorted(out.items(), key=lambda ae: ae[0].key)): 1})
    # a delta is 0 or 1: invert the two cases
    for m in p.terms:
        for a, e in m:
            if a.kind == "delta":
                rest, with_ = {}, {}
                for m2, c2 in p.terms.items():
                    if any(b == a for b, _ in m2):
                        with_[tuple((b, f) for b, f in m2 if b != a)] = c2
                    else:
                        rest[m2] = c2
                rest, with_ = Poly(rest), Poly(with_)
                if rest.terms and (rest + with_).terms:
                    d = P(a)
                    return inverse(rest) * (1 - d) + inverse(rest + with_) * d
    # factor out common monomial and leading coefficient
    common = None
    for m in p.terms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
    lead = sorted(p.terms.items(), key=lambda kv: tuple((a.key, e) for a, e in kv[0]))[0][1]
    cm = Poly({tuple(sorted(common.items(), key=lambda ae: ae[0].key)): lead})
    inv_cm = inverse(cm)
    core = p * inv_cm
    return P(Atom("inv", core)) * inv_cm


def ppow(p, n):
    n = int(n)
    if n < 0:
        return ppow(inverse(p), -n)
    r = ONE
    for _ in range(n):
        r = r * p
    return r


def clear_inv(p):
    """Multiply by the denominators (inv atoms) until none is left; also cancels q*inv(q)."""
    for _ in range(50):
        invs = {}
        for m in p.terms:
            for a, e in m:
                if a.kind == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return p
        a = sorted(invs, key=lambda a: (len(a.key), a.key))[-1]
        k = invs[a]
        q = a.args[0]
        out = ZERO
        for m, c in p.terms.items():
            e = dict(m).get(a, 0)
            rest = tuple(ae for ae in m if ae[0] is not a)
            out = out + Poly({rest: c}) * ppow(q, k - e)
        p = out
    return p


def equal(p, q):
    d = p - q
    if not d.terms:
        return True
    if any(a.kind == "inv" for a in d.atoms()):
        return not clear_inv(d).terms
    return False


# ---------------------------------------------------------------- symbols and ranges
LOWER = {}    # sym atom -> int lower bound (dimensions)
UPPER = {}    # atom -> Poly exclusive upper bound, lower bound 0
SIMPLIFY = {}


def dim(name, lo=1):
    a = Atom("sym", name)
    LOWER[a] = lo
    return P(a)


def sym(name):
    return P(Atom("sym", name))


def index(rng, name="i"):
    a = Atom("idx", f"{name}{next(_counter)}")
    UPPER[a] = P(rng)
    return a


def ranged(atom, rng):
    UPPER[atom] = P(rng)
    return P(atom)


def linear_in(p, a):
    """p = c*a + r with c, r free of a, else None."""
    c, r = {}, {}
    for m, k in p.terms.items():
        d = dict(m)
        if a in d:
            if d[a] != 1:
                return None
            c[tuple(x for x in m if x[0] is not a)] = k
        else:
            r[m] = k
    c, r = Poly(c), Poly(r)
    if contains(c, a) or contains(r, a):
        return None
    return c, r


def contains(x, a):
    return a in all_atoms(x)


_AA = {}


def all_atoms(x):
    if isinstance(x, Poly):
        r = _AA.get(x)
        if r is None:
            r = set()
            for a in x.atoms():
                r.add(a)
                r |= all_atoms(a)
            _AA[x] = r
        return r
    if isinstance(x, Atom):
        r = _AA.get(x)
        if r is None:
            r = set()
            for y in x.args:
                r |= all_atoms(y)
                if isinstance(y, Atom):
                    r.add(y)
            _AA[x] = r
        return r
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= all_atoms(y)
            if isinstance(y, Atom):
                r.add(y)
        return r
    return set()


def bound(p, want):
    """A constant c with p >= c (want='lo') or p <= c ('hi') for all values, or None."""
    if want == "hi":
        b = bound(-p, "lo")
        return None if b is None else -b
    return _lo(p, 0)


_LO = {}


def _lo(p, depth):
    if depth > 12:
        return None
    r = _LO.get(p, 0)
    if r != 0:
        return r[0]
    v = _lo_(p, depth)
    _LO[p] = (v,)
    return v


def _lo_(p, depth):
    c = p.const()
    if c is not None:
        return c
    for a in sorted(p.atoms(), key=lambda a: a.key):
        if a in UPPER:
            lin = linear_in(p, a)
            if lin is None:
                return None
            k, r = lin
            s = sign(k, depth + 1)
            if s is None:
                continue
            if s >= 0:
                return _lo(r, depth + 1)
            return _lo(r + k * (UPPER[a] - 1), depth + 1)
    # shift dims
    q = p
    for a in sorted(p.atoms(), key=lambda a: a.key):
        if a in LOWER:
            if LOWER[a]:
                q = subst_shallow(q, a, P(a) + LOWER[a])
        else:
            return None
    if all(c >= 0 for m, c in q.terms.items() if m != ()):
        return q.terms.get((), Fraction(0))
    return None


def subst_shallow(p, a, q):
    out = ZERO
    for m, c in p.terms.items():
        d = dict(m)
        e = d.pop(a, 0)
        base = Poly({tuple(sorted(d.items(), key=lambda ae: ae[0].key)): c})
        if e < 0:
            out = out + base * ppow(inverse(q), -e)
        else:
            out = out + base * ppow(q, e)
    return out


def sign(p, depth=0):
    """1: >0, 0: ==0, -1: <0 or <=0 ... returns 1/0/-1 (weak: >=0 ->1, <=0 -> -1) or None"""
    if not p.terms:
        return 0
    lo = _lo(p, depth + 1)
    if lo is not None and lo >= 0:
        return 1
    hi = _lo(-p, depth + 1)
    if hi is not None and hi >= 0:
        return -1
    return None


def nonneg(p):
    lo = bound(p, "lo")
    return lo is not None and lo >= 0


def pos(p):
    lo = bound(p, "lo")
    return lo is not None and lo > 0


def is_zero(p):
    """True / False / None(undecided)"""
    if not p.terms:
        return True
    lo = bound(p, "lo")
    if lo is not None and lo > 0:
        return False
    hi = bound(p, "hi")
    if hi is not None and hi < 0:
        return False
    c = p.const()
    if c is not None:
        return c == 0
    # mixed radix: p = q*R + r, |r| < R  ->  zero iff both zero
    sp = radix_split(p)
    if sp is not None:
        zs = [is_zero(x) for x in sp]
        if any(z is False for z in zs):
            return False
    return None


def radix_split(p):
    """p == 0 iff all returned parts == 0 (mixed radix argument), or None."""
    vs = [a for a in p.atoms() if a in UPPER]
    coeffs = []
    for a in vs:
        lin = linear_in(p, a)
        if lin is None:
            return None
        coeffs.append((a, lin[0]))
    cands = sorted({c for _, c in coeffs if c.const() is None} | {-c for _, c in coeffs if c.const() is None},
                   key=lambda q: (-max((sum(e for _, e in m) for m in q.terms), default=0), q.key))
    for R in cands:
        if not pos(R):
            continue
        q, r = ZERO, p
        for a, c in coeffs:
            dv = whole(exact_div(c, R))
            if dv is not None:
                q = q + dv * P(a)
                r = r - c * P(a)
        # constants divisible by R
        rest = Poly({m: c for m, c in r.terms.items() if not any(a in UPPER for a, _ in m)})
        cq, cr = poly_divmod(rest, R)
        if whole(cq) is None:
            cq = Poly({m: Fraction(c.numerator // c.denominator) for m, c in cq.terms.items()})
        for k in (cq, cq + 1, cq - 1, ZERO):
            rr = r - k * R
            if pos(R - rr) and pos(R + rr):
                if not rr.terms and not (q + k).terms:
                    continue
                if rr == p:
                    continue
                return [q + k, rr]
    return None


def whole(p):
    """p if its coefficients are integers, else None."""
    if p is None or any(c.denominator != 1 for c in p.terms.values()):
        return None
    return p


def exact_div(p, q):
    if not q.terms:
        return None
    if len(q.terms) == 1:
        (m, c), = q.terms.items()
        r = p * inverse(q)
        for mm in r.terms:
            for a, e in mm:
                if e < 0 and not any(a in dict(x) and dict(x)[a] < 0 for x in p.terms):
                    return None
        return r
    d, r = poly_divmod(p, q)
    return d if not r.terms else None


def _deg(m):
    return (sum(e for _, e in m), tuple(sorted((a.key, e) for a, e in m)))


def poly_divmod(p, q):
    """Multivariate division of p by q w.r.t. the leading monomial of q."""
    if not q.terms:
        return ZERO, p
    lm, lc = max(q.terms.items(), key=lambda kv: _deg(kv[0]))
    if lm == ():
        return p * inverse(q), ZERO
    quo, rem, work = ZERO, ZERO, p
    n = 0
    while work.terms and n < 60:
        n += 1
        m, c = max(work.terms.items(), key=lambda kv: _deg(kv[0]))
        d = dict(m)
        ok = True
        for a, e in lm:
            if d.get(a, 0) < e:
                ok = False
                break
            d[a] -= e
        if ok:
            t = Poly({tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].key)): Fraction(c) / lc})
            quo = quo + t
            work = work - t * q
        else:
            t = Poly({m: c})
            rem = rem + t
            work = work - t
    return quo, rem + work


def divmod_ranged(p, R):
    """p = q*R + r with 0 <= r < R provable; returns (q, r) or None."""
    if R.const() == 1:
        return p, ZERO
    if nonneg(p) and pos(R - p):
        return ZERO, p
    q, r = ZERO, p
    for a in sorted(p.atoms(), key=lambda a: a.key):
        if a in UPPER:
            lin = linear_in(p, a)
            if lin is None:
                return None
            dv = whole(exact_div(lin[0], R))
            if dv is not None:
                q = q + dv * P(a)
                r = r - lin[0] * P(a)
    rest = Poly({m: c for m, c in r.terms.items() if not any(a in UPPER for a, _ in m)})
    cq, cr = poly_divmod(rest, R)
    if whole(cq) is None:
        cq = Poly({m: Fraction(c.numerator // c.denominator) for m, c in cq.terms.items()})
    for k in (ZERO, cq, cq - 1, cq + 1):
        rr = r - k * R
        if nonneg(rr) and pos(R - rr):
            return q + k, rr
    return None


# ---------------------------------------------------------------- delta, sum, subst
def delta(p):
    """Kronecker delta(p == 0)."""
    z = is_zero(p)
    if z is True:
        return ONE
    if z is False:
        return ZERO
    sp = radix_split(p)
    if sp is not None:
        r = ONE
        for q in sp:
            r = r * delta(q)
        return r
    # sign-normalise
    lead = sorted(p.terms.items(), key=lambda kv: tuple((a.key, e) for a, e in kv[0]))[0][1]
    p = p * (Fraction(1) / lead)
    return P(Atom("delta", p))


def subst(x, mp):
    """Substitute atoms by polynomials everywhere."""
    if not mp:
        return x
    return _subst(x, mp, {})


def _subst(x, mp, memo):
    if isinstance(x, Poly):
        aa = all_atoms(x)
        if not any(a in aa for a in mp):
            return x
        k = memo.get(x)
        if k is not None:
            return k
        out = ZERO
        for m, c in x.terms.items():
            t = Poly({(): c})
            for a, e in m:
                s = _subst_atom(a, mp, memo)
                t = t * (ppow(s, e) if e != 1 else s)
            out = out + t
        memo[x] = out
        return out
    if isinstance(x, tuple):
        return tuple(_subst(y, mp, memo) for y in x)
    if isinstance(x, Atom):
        r = _subst_atom(x, mp, memo)
        if len(r.terms) == 1:
            (m, c), = r.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return r
    return x


def _subst_atom(a, mp, memo):
    if a in mp:
        return P(mp[a])
    if not any(b in all_atoms(a) for b in mp):
        return P(a)
    k = memo.get(a)
    if k is not None:
        return k
    if a.kind == "sum":
        vs, body = a.args
        fresh = {v: index(_subst(r, mp, memo)) for v, r in vs}
        body = subst(body, {v: P(f) for v, f in fresh.items()})
        body = subst(body, mp)
        r = body
        for v, f in fresh.items():
            r = psum(f, r)
    else:
        args = tuple(_subst(y, mp, memo) for y in a.args)
        r = rebuild(a.kind, args, a)
    memo[a] = r
    return r


def rebuild(kind, args, old=None):
    if kind == "delta":
        return delta(P(args[0]))
    if kind == "inv":
        return inverse(P(args[0]))
    if kind == "app" and args[0] in SIMPLIFY:
        return SIMPLIFY[args[0]](*args[1:])
    n = Atom(kind, *args)
    if old is not None and old in UPPER and n not in UPPER:
        UPPER[n] = UPPER[old]
    if old is not None and old in LOWER and n not in LOWER:
        LOWER[n] = LOWER[old]
    return P(n)


def psum(v, body, rng=None):
    """Sum of body over index atom v in [0, range)."""
    R = UPPER[v] if rng is None else rng
    out = ZERO
    for m, c in body.terms.items():
        mono = Poly({m: c})
        if not contains(mono, v):
            out = out + mono * R
            continue
        done = False
        for a, e in m:
            if a.kind == "delta" and contains(a, v):
                lin = linear_in(a.args[0], v)
                if lin is None:
                    continue
                k, r = lin
                if k.const() in (1, -1):
                    val = -r * (Fraction(1) / k.const())
                    if nonneg(val) and pos(R - val):
                        rest = Poly({tuple(x for x in m if x[0] is not a): c})
                        out = out + subst(rest, {v: val})
                        done = True
                        break
                    lo, hi = bound(val, "hi"), bound(val - R, "lo")
                    if (lo is not None and lo < 0) or (hi is not None and hi >= 0):
                        done = True
                        break
        if done:
            continue
        # linear geometric: sum of v, handle plain power 1 of v with coefficient free of v
        lin = linear_in(mono, v)
        if lin is not None and not lin[1].terms:
            out = out + lin[0] * R * (R - 1) * Fraction(1, 2)
            continue
        # factor out what does not depend on v
        dep = tuple(x for x in m if contains(P(x[0]), v))
        indep = tuple(x for x in m if not contains(P(x[0]), v))
        out = out + Poly({indep: c}) * _sum_atom([(v, R)], Poly({dep: 1}))
    return out


def _sum_atom(vs, body):
    # absorb a nested single sum atom
    if len(body.terms) == 1:
        (m, c), = body.terms.items()
        sums = [(a, e) for a, e in m if a.kind == "sum" and e == 1]
        if sums and c == 1:
            a = sums[0][0]
            inner = a.args
            fresh = {v: index(r) for v, r in inner[0]}
            b2 = subst(inner[1], {v: P(f) for v, f in fresh.items()})
            rest = Poly({tuple(x for x in m if x[0] is not a): c})
            return _sum_atom(vs + [(f, subst(UPPER[f], {v: P(g) for v, g in fresh.items()})) for f in fresh.values()], b2 * rest)
    best = None
    for perm in itertools.permutations(range(len(vs))):
        mp = {vs[p][0]: P(Atom("bv", k)) for k, p in enumerate(perm)}
        b = _rename(body, mp)
        cand = (tuple((Atom("bv", k), _rename(vs[p][1], mp)) for k, p in enumerate(perm)), b)
        if best is None or _key(cand) < _key(best):
            best = cand
    return P(Atom("sum", *best))


def _rename(x, mp):
    """Plain renaming of atoms without re-simplification (bound variables)."""
    if isinstance(x, Poly):
        if not any(a in all_atoms(x) for a in mp):
            return x
        out = {}
        for m, c in x.terms.items():
            mm = tuple(sorted(((_rename_atom(a, mp), e) for a, e in m), key=lambda ae: ae[0].key))
            out[mm] = out.get(mm, 0) + c
        return Poly(out)
    if isinstance(x, tuple):
        return tuple(_rename(y, mp) for y in x)
    if isinstance(x, Atom):
        return _rename_atom(x, mp)
    return x


def _rename_atom(a, mp):
    if a in mp:
        (m, c), = mp[a].terms.items()
        return m[0][0]
    if not any(b in all_atoms(a) for b in mp):
        return a
    return Atom(a.kind, *(_rename(y, mp) for y in a.args))


def diff(p, f):
    """Derivative; f(atom) gives the derivative polynomial of an atom."""
    out = ZERO
    for m, c in p.terms.items():
        for i, (a, e) in enumerate(m):
            da = datom(a, f)
            if not da.terms:
                continue
            rest = tuple(x for j, x in enumerate(m) if j != i)
            t = Poly({rest: c * e}) * da
            if e != 1:
                t = t * ppow(P(a), e - 1)
            out = out + t
    return out


def datom(a, f):
    r = f(a)
    if r is not None:
        return r
    if a.kind == "sum":
        vs, body = a.args
        fresh = {v: index(r) for v, r in vs}
        b = subst(body, {v: P(x) for v, x in fresh.items()})
        d = diff(b, f)
        for x in fresh.values():
            d = psum(x, d)
        return d
    if a.kind == "inv":
        return -diff(a.args[0], f) * P(a) * P(a)
    if a.kind == "app":
        out = ZERO
        return out if not any(f(b) is not None for b in all_atoms(a)) else P(Atom("unk", "d " + a.key))
    return ZERO


def unknowns(x):
    return {a for a in (all_atoms(x) if not isinstance(x, Atom) else all_atoms(x) | {x}) if a.kind in ("unk",)}


def show_atom(a):
    k = a.kind
    if k in ("sym", "idx"):
        return str(a.args[0])
    if k == "bv":
        return f"_{a.args[0]}"
    if k == "elem":
        return f"{show_any(a.args[0])}[{', '.join(show_any(x) for x in a.args[1])}]"
    if k == "delta":
        return f"[{show(a.args[0])}==0]"
    if k == "inv":
        return f"1/({show(a.args[0])})"
    if k == "sum":
        vs, b = a.args
        return "sum(" + ",".join(f"{show_atom(v)}<{show(r)}" for v, r in vs) + f": {show(b)})"
    return f"{k}:" + "(".join([str(a.args[0]) if a.args else ""]) + "(" + ", ".join(show_any(x) for x in a.args[1:]) + ")"


def show_any(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(show_any(y) for y in x) + ")"
    return str(x)


def show(p):
    if not p.terms:
        return "0"
    out = []
    for m, c in sorted(p.terms.items(), key=lambda kv: tuple((a.key, e) for a, e in kv[0])):
        s = "*".join(show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = f"{c}*" + s
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")
