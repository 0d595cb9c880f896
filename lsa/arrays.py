"""Abstract arrays: a shape (polynomials in symbolic dimensions) and an access function
mapping abstract index polynomials to abstract scalars.  `cases` partitions an index space
so that every access function is resolved on each part (trace partitioning by ranges)."""
from fractions import Fraction
from . import alg
from .alg import P, Poly, Atom, ZERO, ONE, index, subst, delta, psum, bound, is_zero, nonneg, pos


class NeedSplit(Exception):
    def __init__(self, kind, d, R=None, soft=False):
        super().__init__(f"{kind} {d} {R}")
        self.kind, self.d, self.R, self.soft = kind, d, R, soft


class Undecidable(Exception):
    pass


IGNORE = set()
from .evalterm import CONDS


class Cond:
    """Symbolic boolean."""
    __slots__ = ("op", "args", "key")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self.key = op + "(" + ",".join(a.key if hasattr(a, "key") else repr(a) for a in args) + ")"

    def __eq__(self, o):
        return isinstance(o, Cond) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show_cond(self)


def show_cond(c):
    if c is True or c is False or c is None:
        return str(c)
    if c.op == "lt":
        return f"({alg.show(c.args[0])} < 0)"
    if c.op == "eq":
        return f"({alg.show(c.args[0])} == 0)"
    if c.op == "not":
        return f"not {show_cond(c.args[0])}"
    if c.op in ("and", "or"):
        return "(" + f" {c.op} ".join(show_cond(x) for x in c.args) + ")"
    return f"{c.op}:{','.join(map(str, c.args))}"


def c_not(c):
    if c is True or c is False:
        return not c
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return c_or(*[c_not(x) for x in c.args])
    if c.op == "or":
        return c_and(*[c_not(x) for x in c.args])
    return Cond("not", c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c.op == "and":
            out += [x for x in c.args if x not in out]
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cond("and", *sorted(out, key=lambda c: c.key))


def c_or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c.op == "or":
            out += [x for x in c.args if x not in out]
        elif c not in out:
            out.append(c)
    for c in out:
        if c.op == "not" and c.args[0] in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cond("or", *sorted(out, key=lambda c: c.key))


def integral(p):
    """All atoms are integer valued (dimensions, indices) and coefficients integral."""
    for m, c in p.terms.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not (a in alg.LOWER or a in alg.UPPER or a.kind in ("idx", "bv", "delta") or a in INTEGRAL):
                return False
    return True


INTEGRAL = set()


def reduce_lt(d):
    """d < 0 is equivalent to the returned (simpler) polynomial being < 0."""
    for _ in range(4):
        cands = set()
        for a in d.atoms():
            if a in alg.UPPER:
                lin = alg.linear_in(d, a)
                if lin is not None and lin[0].const() is None:
                    c = lin[0]
                    cands.add(c if pos(c) else -c)
        done = True
        for R in sorted(cands, key=lambda q: (-max((sum(e for _, e in m) for m in q.terms), default=0), q.key)):
            if not pos(R):
                continue
            dv = alg.divmod_ranged(d, R)
            if dv is None:
                # shift by a multiple of R so that the remainder lands in range
                rest = Poly({m: c for m, c in d.terms.items() if not any(a in alg.UPPER for a, _ in m)})
                q, r = alg.poly_divmod(rest, R)
                for k in (q, q - 1, q + 1):
                    dv2 = alg.divmod_ranged(d - k * R, R)
                    if dv2 is not None:
                        dv = (dv2[0] + k, dv2[1])
                        break
            if dv is not None and dv[0] != d:
                d = dv[0]
                done = False
                break
        if done:
            return d
    return d


def neg(d):
    """Decide d < 0: True / False / None."""
    lo = bound(d, "lo")
    if lo is not None and lo >= 0:
        return False
    hi = bound(d, "hi")
    if hi is not None and hi < 0:
        return True
    return None


def lt(p, q, soft=False):
    d = P(p) - P(q)
    r = neg(d)
    if r is not None:
        return r
    d2 = reduce_lt(d)
    if d2 != d:
        r = neg(d2)
        if r is not None:
            return r
    raise NeedSplit("lt", d2, soft=soft)


def divmod_(p, R):
    R = P(R)
    if R.const() == 1:
        return p, ZERO
    dv = alg.divmod_ranged(p, R)
    if dv is not None:
        return dv
    raise NeedSplit("radix", p, R)


# ------------------------------------------------------------------ partitioning
def mkidx(R, name="i"):
    """Polynomial for a fresh index below R (0 if the range is one)."""
    R = P(R)
    if R.const() == 1:
        return ZERO, []
    a = index(R, name)
    return P(a), [a]


def refine(e, vars):
    """Split one of vars; returns (var, [(poly, newvars), ...]) or None."""
    if e.kind == "lt":
        d = e.d
        for v in vars:
            lin = alg.linear_in(d, v)
            if lin is None:
                continue
            k, r = lin
            c = k.const()
            if c is None or c == 0:
                continue
            if c > 0:
                b = -r * (Fraction(1) / c)
                if c != 1 and not all(x.denominator == 1 for x in b.terms.values()):
                    b = ceil_poly(b)
            else:
                b = r * (Fraction(1) / -c) + 1
                if c != -1 and not all(x.denominator == 1 for x in b.terms.values()):
                    b = ceil_poly(b)
            if b is None or any(alg.contains(b, u) for u in vars) or not integral(b):
                continue
            R = alg.UPPER[v]
            if not nonneg(b) or not nonneg(R - b):
                continue
            if not b.terms or not (R - b).terms:
                continue
            pa, va = mkidx(b)
            pb, vb = mkidx(R - b)
            return v, [(pa, va), (b + pb, vb)]
        return None
    if e.kind == "radix":
        p, R = e.d, e.R
        for v in vars:
            lin = alg.linear_in(p, v)
            if lin is None:
                continue
            c, _ = lin
            m = alg.exact_div(R, c)
            if m is None or not integral(m) or not pos(m - 1) and m.const() is None and not nonneg(m - 1):
                continue
            if m.const() is not None and m.const() <= 1:
                continue
            rng = alg.UPPER[v]
            n, rem = alg.poly_divmod(rng, m)
            if not nonneg(n):
                continue
            if rem.terms:
                b = n * m
                if not nonneg(b) or not nonneg(rng - b) or not (rng - b).terms or not b.terms:
                    continue
                pa, va = mkidx(b)
                pb, vb = mkidx(rng - b)
                return v, [(pa, va), (b + pb, vb)]
            if n.const() == 1:
                continue
            pn, vn = mkidx(n)
            pm, vm = mkidx(m)
            return v, [(pn * m + pm, vn + vm)]
        return None
    return None


def ceil_poly(b):
    return None


def cases(vars, fn, limit=400):
    """[(mapping, vars, value)]: a partition of the index space of vars on which fn is
    resolved."""
    out = []
    work = [({v: P(v) for v in vars}, list(vars))]
    n = 0
    while work:
        mp, cur = work.pop(0)
        n += 1
        if n > limit:
            raise Undecidable("too many cases")
        added = []
        try:
            while True:
                try:
                    val = fn(mp)
                    break
                except NeedSplit as e:
                    r = refine(e, cur)
                    if r is None:
                        if e.soft:
                            IGNORE.add((e.kind, e.d.key))
                            added.append((e.kind, e.d.key))
                            continue
                        raise
                    v, parts = r
                    new = []
                    for poly, nv in parts:
                        m2 = {k: subst(q, {v: poly}) for k, q in mp.items()}
                        new.append((m2, [u for u in cur if u is not v] + nv))
                    work = new + work
                    val = None
                    break
            else:
                pass
        finally:
            for k in added:
                IGNORE.discard(k)
        if val is not None:
            out.append((mp, cur, val))
    return out


def sumover(R, fn):
    """Sum of fn(i) for 0 <= i < R."""
    R = P(R)
    c = R.const()
    if c is not None and c <= 8:
        s = ZERO
        for k in range(int(c)):
            s = s + topoly(fn(P(k)))
        return s
    v = index(R, "k")
    leaves = []
    for mp, vs, val in cases([v], lambda m: (topoly(fn(m[v])),)):
        leaves.append([mp[v], vs, val[0]])
    leaves = merge_leaves(leaves)
    return sum_leaves([(vs, t) for _, vs, t in leaves])


def sum_leaves(leaves):
    """Sum of terms over their index variables."""
    total = ZERO
    for vs, t in leaves:
        todo = list(vs)
        while todo:
            # variables a delta resolves first
            err = None
            for u in todo:
                try:
                    t2 = psum_split(u, t)
                except NeedSplit as e:
                    err = err or e
                    continue
                todo.remove(u)
                t = t2
                err = None
                break
            if err is not None:
                raise err
        total = total + t
    return total


def merge_leaves(leaves):
    """Join adjacent index ranges on which the summand is given by the same expression."""
    changed = True
    while changed and len(leaves) > 1:
        changed = False
        for k in range(len(leaves) - 1):
            r = merge_two(leaves[k], leaves[k + 1])
            if r is not None:
                leaves[k:k + 2] = [r]
                changed = True
                break
    return leaves


def _range(l):
    pos_, vs, val = l
    if len(vs) > 1:
        return None
    if not vs:
        return pos_, ONE, None
    off = subst(pos_, {vs[0]: ZERO})
    if not (pos_ - off - P(vs[0])).terms == {}:
        return None
    return off, alg.UPPER[vs[0]], vs[0]


def merge_two(a, b):
    ra, rb = _range(a), _range(b)
    if ra is None or rb is None:
        return None
    (oa, na, va), (ob, nb, vb) = ra, rb
    if (oa + na - ob).terms:
        return None
    v = index(na + nb, "k")
    for src, off, sv in ((a, oa, va), (b, ob, vb)):
        if sv is None:
            continue
        f = subst(src[2], {sv: P(v) - (off - oa)})
        ok = True
        for oth, o2, v2 in ((a, oa, va), (b, ob, vb)):
            at = (o2 - oa) + (P(v2) if v2 is not None else ZERO)
            if subst(f, {v: at}) != oth[2]:
                ok = False
                break
        if ok:
            return [oa + P(v), [v], f]
    if va is None and vb is None:
        # two single points: only a constant can be generalised
        if a[2] == b[2]:
            return [oa + P(v), [v], a[2]]
    return None


def psum_split(u, t):
    """psum, asking for a split where a delta is solvable but its range is undecided."""
    R = alg.UPPER[u]
    for m in t.terms:
        want = None
        for a, e in m:
            if a.kind == "delta" and alg.contains(a, u):
                lin = alg.linear_in(a.args[0], u)
                if lin is None:
                    continue
                k, r = lin
                if k.const() not in (1, -1):
                    continue
                val = -r * (Fraction(1) / k.const())
                if neg(val) is True or neg(val - R) is False or (neg(val) is False and neg(val - R) is True):
                    want = None
                    break       # this delta resolves the sum
                if want is None:
                    for d in (val, val - R):
                        if neg(d) is None:
                            d2 = reduce_lt(d)
                            if neg(d2) is None and ("lt", d2.key) not in IGNORE and \
                                    not any(b.kind == "elem" for b in d2.atoms()):
                                want = d2
                                break
        if want is not None:
            raise NeedSplit("lt", want, soft=True)
    return psum(u, t)


def topoly(v):
    if isinstance(v, Poly):
        return v
    if v is True or v is False:
        return P(int(v))
    if isinstance(v, Cond):
        return indicator(v)
    if isinstance(v, (int, float)):
        return P(v)
    return P(Atom("unk", f"nonnumeric {type(v).__name__}"))


def indicator(c):
    if c is True or c is False:
        return P(int(c))
    if c.op == "eq":
        return delta(c.args[0])
    if c.op == "not":
        return ONE - indicator(c.args[0])
    if c.op == "and":
        r = ONE
        for x in c.args:
            r = r * indicator(x)
        return r
    if c.op == "or":
        r = ONE
        for x in c.args:
            r = r * (ONE - indicator(x))
        return ONE - r
    if c.op == "lt" and isinstance(c.args[0], Poly):
        return ind_lt(c.args[0])
    CONDS[c.key] = c
    return P(Atom("app", "ind", c.key, *[a for a in c.args if isinstance(a, Poly)]))


def ind_lt(p):
    """Indicator of p < 0; one of the two complementary forms of an integral p is canonical."""
    n = neg(p)
    if n is not None:
        return P(int(n))
    if integral(p):
        q = -p - 1
        lead = min((m for m in p.terms if m), key=repr, default=None)
        if lead is not None and p.terms[lead] < 0:
            return ONE - P(Atom("app", "ind", "lt", q))
    return P(Atom("app", "ind", "lt", p))


def select(c, a, b):
    """Value of `a if c else b` for numeric a, b."""
    if c is True:
        return a
    if c is False:
        return b
    a, b = topoly(a), topoly(b)
    if a == b:
        return a
    if c.op == "not":
        return select(c.args[0], b, a)
    i = indicator(c)
    return i * a + (ONE - i) * b


# ------------------------------------------------------------------ arrays
class Arr:
    __slots__ = ("shape", "_get", "meta", "memo")

    def __init__(self, shape, get, **meta):
        self.shape = tuple(P(s) for s in shape)
        self._get = get
        self.meta = meta
        self.memo = {}

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        idx = tuple(P(i) for i in idx)
        if len(idx) != self.ndim:
            raise Undecidable(f"rank mismatch {len(idx)} vs {self.ndim}")
        k = idx
        if k in self.memo:
            return self.memo[k]
        v = self._get(idx)
        self.memo[k] = v
        return v

    @property
    def size(self):
        n = ONE
        for s in self.shape:
            n = n * s
        return n

    def __repr__(self):
        return f"Arr{tuple(alg.show(s) for s in self.shape)}"


def base_array(name, shape, lo=None, up=None, integer=False):
    shape = tuple(P(s) for s in shape)

    def get(idx):
        a = Atom("elem", name, idx)
        if up is not None:
            alg.UPPER.setdefault(a, P(up))
        if integer:
            INTEGRAL.add(a)
        return P(a)
    return Arr(shape, get, name=name)


def const_array(shape, val):
    return Arr(shape, lambda idx: val, const=val)


def generic(shape, name="i"):
    polys, vars = [], []
    for s in shape:
        p, v = mkidx(s, name)
        polys.append(p)
        vars += v
    return tuple(polys), vars


def enum_cases(arr, limit=400):
    """[(index polys, vars, value)] partition of the array's index space."""
    polys, vars = generic(arr.shape)
    if any(s.const() == 0 for s in arr.shape):
        return []
    res = []
    for mp, vs, val in cases(vars, lambda m: (arr.get(tuple(subst(p, m) for p in polys)),), limit):
        res.append((tuple(subst(p, mp) for p in polys), vs, val[0]))
    return res


def same_dim(a, b):
    return (P(a) - P(b)).terms == {}


def same_shape(a, b):
    return len(a) == len(b) and all(same_dim(x, y) for x, y in zip(a, b))


def compare(a, b, limit=400):
    """None if equal; otherwise a list of (index, vars, va, vb) differences."""
    if not same_shape(a.shape, b.shape):
        return [("shape", [], a.shape, b.shape)]
    if any(s.const() == 0 for s in a.shape):
        return []
    polys, vars = generic(a.shape)
    out = []

    def f(m):
        ix = tuple(subst(p, m) for p in polys)
        return (ix, topoly(a.get(ix)), topoly(b.get(ix)))
    for mp, vs, (ix, va, vb) in cases(vars, f, limit):
        if not alg.equal(va, vb):
            out.append((ix, vs, va, vb))
    return out


# ------------------------------------------------------------------ structural operations
def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if x.const() == 1:
                continue
            if d.const() == 1 or same_dim(d, x):
                d = x
            else:
                raise ShapeError(f"cannot broadcast {[tuple(alg.show(q) for q in s) for s in shapes]}", (d, x))
        out.append(d)
    return tuple(out)


class ShapeError(Exception):
    """Incompatible shapes; pairs of dimensions that had to be equal, if known."""

    def __init__(self, msg, *pairs):
        super().__init__(msg)
        self.pairs = pairs


def bget(a, idx, shape):
    """Element of a broadcast to shape."""
    off = len(shape) - a.ndim
    return a.get(tuple(ZERO if a.shape[k].const() == 1 else idx[k + off] for k in range(a.ndim)))


def elementwise(fn, *args):
    arrs = [x for x in args if isinstance(x, Arr)]
    shape = broadcast_shapes(*[a.shape for a in arrs])

    def get(idx):
        return fn(*[bget(x, idx, shape) if isinstance(x, Arr) else x for x in args])
    return Arr(shape, get)


def flat_index(idx, shape):
    p = ZERO
    for i, s in zip(idx, shape):
        p = p * s + i
    return p


def unflatten_index(p, shape):
    idx = []
    for s in reversed(shape[1:]):
        p, r = divmod_(p, s)
        idx.append(r)
    idx.append(p)
    return tuple(reversed(idx))


def reshape(a, shape):
    shape = [P(s) for s in shape]
    if any(s.const() == -1 for s in shape):
        rest = ONE
        for s in shape:
            if s.const() != -1:
                rest = rest * s
        if rest.const() == 0:
            q = ZERO
        else:
            q = alg.exact_div(a.size, rest)
            if q is None:
                if not a.size.terms:
                    q = ZERO
                else:
                    raise ShapeError(f"reshape {a} to {[alg.show(s) for s in shape]}")
        shape = [q if s.const() == -1 else s for s in shape]
    tot = ONE
    for s in shape:
        tot = tot * s
    if not same_dim(tot, a.size):
        raise ShapeError(f"reshape of size {alg.show(a.size)} into {[alg.show(s) for s in shape]}", (tot, a.size))
    shape = tuple(shape)
    if same_shape(shape, a.shape):
        return Arr(a.shape, a.get, **a.meta)
    # common leading / trailing dimensions are passed through
    lead = 0
    while lead < min(len(shape), a.ndim) and same_dim(shape[lead], a.shape[lead]):
        lead += 1
    while lead and (lead == len(shape) or lead == a.ndim):
        lead -= 1
    trail = 0
    while trail < min(len(shape), a.ndim) - lead - 1 and same_dim(shape[-1 - trail], a.shape[-1 - trail]):
        trail += 1

    def get(idx):
        mid = idx[lead:len(shape) - trail]
        p = flat_index(mid, shape[lead:len(shape) - trail])
        ms = a.shape[lead:a.ndim - trail]
        return a.get(idx[:lead] + unflatten_index(p, ms) + idx[len(shape) - trail:])
    meta = {"parts": a.meta["parts"]} if "parts" in a.meta and len(shape) == 1 and a.ndim == 1 else {}
    if "masked" in a.meta and len(shape) == 1:
        meta = dict(a.meta)
    return Arr(shape, get, **meta)


def ravel(a):
    return a if a.ndim == 1 else reshape(a, (a.size,))


def transpose(a, axes=None):
    axes = tuple(axes) if axes is not None else tuple(reversed(range(a.ndim)))
    axes = tuple(x % a.ndim for x in axes)

    def get(idx):
        src = [None] * a.ndim
        for k, ax in enumerate(axes):
            src[ax] = idx[k]
        return a.get(tuple(src))
    return Arr(tuple(a.shape[ax] for ax in axes), get)


class Rep:
    """n repetitions of a part whose body may depend on the repetition index."""
    __slots__ = ("var", "n", "body", "make")

    def __init__(self, var, n, make):
        self.var, self.n, self.make = var, P(n), make


def _all_one_constant(parts):
    """The constant all entries of all parts have, if there is one."""
    val = None
    for p in parts:
        a = p.make(P(index(p.n, "q"))) if isinstance(p, Rep) else p
        if any(s.const() == 0 for s in a.shape):
            continue
        v = a.meta.get("const")
        if not isinstance(v, Poly) or v.const() is None or (val is not None and v.const() != val.const()):
            return None
        val = v
    return val


def concat(parts, axis=0):
    """parts: list of Arr or Rep(n, make(i)->Arr)."""
    first = None
    plan = []   # (length, getter(local offset along axis, idx))
    shape0 = None
    for p in parts:
        if isinstance(p, Rep):
            if p.n.const() == 0:
                continue
            v = index(p.n, "q")
            gen = p.make(P(v))
            L = gen.shape[axis % gen.ndim]
            if alg.contains(L, v):
                raise Undecidable("concatenation of blocks of varying length")

            def g(off, idx, p=p, L=L, ax=axis):
                q, r = divmod_(off, L)
                a = p.make(q)
                k = ax % a.ndim
                return a.get(idx[:k] + (r,) + idx[k + 1:])
            plan.append((L * p.n, g))
            sh = gen.shape
        else:
            sh = p.shape
            k = axis % p.ndim

            def g(off, idx, p=p, k=k):
                return p.get(idx[:k] + (off,) + idx[k + 1:])
            plan.append((sh[k], g))
        if shape0 is None:
            shape0 = sh
        else:
            if len(sh) != len(shape0):
                raise ShapeError("concatenate: different ranks")
            for j in range(len(sh)):
                if j != axis % len(sh) and not same_dim(sh[j], shape0[j]):
                    raise ShapeError("concatenate: shapes differ " + str([alg.show(x) for x in sh]) + str([alg.show(x) for x in shape0]), (sh[j], shape0[j]))
    if shape0 is None:
        raise ShapeError("need at least one array to concatenate")
    k = axis % len(shape0)
    same = _all_one_constant(parts)
    plan = [x for x in plan if x[0].const() != 0] or plan[:1]
    total = ZERO
    for L, _ in plan:
        total = total + L
    if len(plan) == 1:
        L, g = plan[0]
        return Arr(shape0[:k] + (total,) + shape0[k + 1:], lambda idx: g(idx[k], idx))

    if same is not None:
        return const_array(shape0[:k] + (total,) + shape0[k + 1:], same)

    def get(idx):
        off = idx[k]
        base = ZERO
        for n, (L, g) in enumerate(plan):
            if n == len(plan) - 1 or lt(off, base + L):
                return g(off - base, idx)
            base = base + L
    return Arr(shape0[:k] + (total,) + shape0[k + 1:], get)


def stack(parts, axis=0):
    """Stack arrays (or Rep) along a new axis."""
    def lift(a, nd):
        ax = axis % (nd + 1)
        return Arr(a.shape[:ax] + (ONE,) + a.shape[ax:], lambda idx: a.get(idx[:ax] + idx[ax + 1:]))
    out = []
    nd = None
    for p in parts:
        if isinstance(p, Rep):
            v = index(p.n, "q")
            nd = p.make(P(v)).ndim
            out.append(Rep(p.var, p.n, lambda i, p=p, nd=nd: lift(p.make(i), nd)))
        else:
            nd = p.ndim
            out.append(lift(p, nd))
    return concat(out, axis % (nd + 1))


def take_slice(a, axis, start, stop, step=1):
    n = a.shape[axis]
    length = stop - start if step == 1 else None
    if step == -1:
        return Arr(a.shape, lambda idx: a.get(idx[:axis] + (n - 1 - idx[axis],) + idx[axis + 1:]))
    if neg(length) is True:
        length = ZERO
    shape = a.shape[:axis] + (length,) + a.shape[axis + 1:]
    return Arr(shape, lambda idx: a.get(idx[:axis] + (idx[axis] + start,) + idx[axis + 1:]))


def norm_bound(b, n, default):
    if b is None:
        return default
    b = P(b)
    s = neg(b)
    if s is None:
        raise NeedSplit("lt", b)
    if s:
        b = b + n
        if neg(b) is True:
            return ZERO
        return b
    if neg(n - b) is True:
        return n
    return b


def einsum(spec, ops):
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c.isalpha()]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ShapeError("einsum operand count")
    dims = {}
    for s, a in zip(ins, ops):
        if len(s) != a.ndim:
            raise ShapeError(f"einsum {spec}: operand has rank {a.ndim}")
        for c, d in zip(s, a.shape):
            if c in dims and not same_dim(dims[c], d):
                if dims[c].const() == 1:
                    dims[c] = d
                elif d.const() != 1:
                    raise ShapeError(f"einsum {spec}: dimension {c} is {alg.show(dims[c])} and {alg.show(d)}", (dims[c], d))
            else:
                dims[c] = d
    summed = [c for c in dims if c not in out]

    def get(idx):
        env = dict(zip(out, idx))

        def rec(rem):
            if not rem:
                r = ONE
                for s, a in zip(ins, ops):
                    r = r * topoly(a.get(tuple(ZERO if d.const() == 1 else env[c] for c, d in zip(s, a.shape))))
                return r
            c = rem[0]

            def f(i):
                env[c] = i
                return rec(rem[1:])
            return sumover(dims[c], f)
        return rec(summed)
    return Arr(tuple(dims[c] for c in out), get)


def matmul(a, b):
    if a.ndim == 1 and b.ndim == 1:
        if not same_dim(a.shape[0], b.shape[0]):
            raise ShapeError("matmul", (a.shape[0], b.shape[0]))
        return sumover(a.shape[0], lambda k: topoly(a.get((k,))) * topoly(b.get((k,))))
    if a.ndim == 1:
        r = matmul(Arr((ONE,) + a.shape, lambda i: a.get(i[1:])), b)
        return Arr(r.shape[:-2] + r.shape[-1:], lambda i: r.get(i[:-1] + (ZERO,) + i[-1:]))
    if b.ndim == 1:
        r = matmul(a, Arr(b.shape + (ONE,), lambda i: b.get(i[:1])))
        return Arr(r.shape[:-1], lambda i: r.get(i + (ZERO,)))
    if not same_dim(a.shape[-1], b.shape[-2]):
        raise ShapeError(f"matmul {a} {b}", (a.shape[-1], b.shape[-2]))
    lead = broadcast_shapes(a.shape[:-2], b.shape[:-2])
    shape = lead + (a.shape[-2], b.shape[-1])

    def get(idx):
        li = idx[:-2]

        def el(x, i, j):
            off = len(lead) - (x.ndim - 2)
            pre = tuple(ZERO if x.shape[k].const() == 1 else li[k + off] for k in range(x.ndim - 2))
            return topoly(x.get(pre + (i, j)))
        return sumover(a.shape[-1], lambda k: el(a, idx[-2], k) * el(b, k, idx[-1]))
    return Arr(shape, get)


def reduce_axis(a, axis, comb=None):
    """Sum over an axis (None: all)."""
    if axis is None:
        f = ravel(a)
        # sum over the original axes, better normal forms
        def rec(pre, k):
            if k == a.ndim:
                return topoly(a.get(pre))
            return sumover(a.shape[k], lambda i: rec(pre + (i,), k + 1))
        return rec((), 0)
    axis = axis % a.ndim
    sh = a.shape[:axis] + a.shape[axis + 1:]
    if not sh:
        return sumover(a.shape[0], lambda i: topoly(a.get((i,))))
    return Arr(sh, lambda idx: sumover(a.shape[axis], lambda i: topoly(a.get(idx[:axis] + (i,) + idx[axis:]))))


def tile(a, reps):
    reps = [P(r) for r in reps]
    n = max(len(reps), a.ndim)
    reps = [ONE] * (n - len(reps)) + reps
    sh = (ONE,) * (n - a.ndim) + a.shape
    out = tuple(r * s for r, s in zip(reps, sh))

    def get(idx):
        src = []
        for k, i in enumerate(idx):
            if sh[k].const() == 1:
                src.append(ZERO)
            elif reps[k].const() == 1:
                src.append(i)
            else:
                src.append(divmod_(i, sh[k])[1])
        return a.get(tuple(src[n - a.ndim:]))
    return Arr(out, get)


def repeat(a, n, axis):
    if axis is None:
        a = ravel(a)
        axis = 0
    n = P(n)
    sh = a.shape[:axis] + (a.shape[axis] * n,) + a.shape[axis + 1:]
    return Arr(sh, lambda idx: a.get(idx[:axis] + (divmod_(idx[axis], n)[0],) + idx[axis + 1:]))


def arange(n, start=ZERO, step=ONE):
    return Arr((n,), lambda idx: P(start) + idx[0] * step)


def cumsum(a):
    a = ravel(a)

    def get(idx):
        c = (idx[0] + 1).const()
        if c is not None:
            s = ZERO
            for k in range(int(c)):
                s = s + topoly(a.get((P(k),)))
            return s
        v = index(idx[0] + 1, "k")
        total = ZERO
        for mp, vs, val in cases([v], lambda m: (topoly(a.get((m[v],))),)):
            t = val[0]
            for u in vs:
                t = psum_split(u, t)
            total = total + t
        return total
    return Arr(a.shape, get)


def _merged(parts, polys, n):
    """Regions of a vector joined where one expression of the position describes several of them."""
    t = index(n, "t")
    one = []
    for mp, vs, val in parts:
        pos = subst(polys[0], mp)
        f = None
        if len(vs) == 1 and pos.coeff(vs[0]) == 1 if hasattr(pos, "coeff") else len(vs) == 1:
            off = pos - P(vs[0])
            if not alg.contains(off, vs[0]):
                f = subst(val[0], {vs[0]: P(t) - off})
        one.append((pos, vs, val[0], f))
    for pos, vs, v, f in one:
        if f is None:
            continue
        if all(alg.equal(subst(f, {t: q}), w) for q, _, w, _ in one):
            return [({}, [t], (f,))], [P(t)]
    return parts, polys


def akey(a, depth=0):
    """Canonical key (hashable tuple of polys) of an array or scalar argument."""
    if isinstance(a, Poly):
        return a
    if not isinstance(a, Arr):
        return a
    if any(s.const() == 0 for s in a.shape):
        return ("empty",) + a.shape
    size = a.size.const()
    if size is not None and size <= 80:
        # constant sizes: one leaf per element, whatever the partition
        import itertools
        leaves = []
        for ix in itertools.product(*[range(int(s.const())) for s in a.shape]):
            ix = tuple(P(k) for k in ix)
            leaves.append((ix, topoly(a.get(ix))))
        return ("arr",) + a.shape + tuple(leaves)
    polys, live = generic(a.shape)
    parts = list(cases(live, lambda m: (topoly(a.get(tuple(subst(p, m) for p in polys))),)))
    if a.ndim == 1 and len(parts) > 1:
        parts, polys = _merged(parts, polys, a.shape[0])
    # bound variables are numbered above those of keys nested inside
    for mp, vs, val in parts:
        for b in alg.all_atoms(val[0]):
            if b.kind == "bv" and isinstance(b.args[0], str):
                depth = max(depth, int(b.args[0].split(":")[0]) + 1)
    leaves = []
    for mp, vs, val in parts:
        ren = {}
        for n, v in enumerate(vs):
            b = Atom("bv", f"{depth}:{n}:{alg.UPPER[v].key}")
            alg.UPPER[b] = alg.UPPER[v]
            ren[v] = P(b)
        leaves.append((tuple(subst(subst(p, mp), ren) for p in polys), subst(val[0], ren)))
    return ("arr",) + a.shape + tuple(leaves)
