"""jax transformations inside the interpreter: vmap, jacobian, hessian by symbolic differentiation, and compiled functions whose captured state is that of the first call."""
from . import alg, arrays
from .alg import P, Poly, Atom, ZERO, ONE, subst, diff
from .arrays import Arr, topoly
from .interp import State
from .values import Native, Tup, Ref, Stub, Unknown, DictR, ListR, ArrR, ObjR
from .harness import arr_of

COUNT = [0]


def fresh(n):
    COUNT[0] += 1
    return [Atom("sym", f"d{COUNT[0]}_{k}") for k in range(n)]


def derivative(p, atom, every):
    def f(a):
        if a == atom:
            return ONE
        if a in every:
            return ZERO
        return None
    d = diff(topoly(p), f)
    if any(a.kind == "unk" for a in alg.all_atoms(d)):
        raise arrays.Undecidable("derivative of an uninterpreted function")
    return d


def axes(I, k, n, name="in_axes", default=ZERO):
    v = k.get(name, default)
    if v is None or I.as_num(v) is not None:
        return [v] * n
    items = I.iter_items(v)
    if items is None or len(items) != n:
        return None
    return list(items)


def one_axis(I, ax):
    if ax is None:
        return None
    n = I.as_num(ax)
    c = n.const() if n is not None else None
    return int(c) if c is not None else "?"


def stack(I, vs):
    """One container of arrays from a list of equally shaped containers."""
    v = vs[0]
    if isinstance(v, Tup):
        return Tup([stack(I, [x.items[j] for x in vs]) for j in range(len(v.items))], nt=v.nt)
    if isinstance(v, Ref) and isinstance(I.rec(v), DictR):
        ks = list(I.iter_items(v))
        return I.new_dict([(q, stack(I, [I.getitem(x, q) for x in vs])) for q in ks])
    if isinstance(v, Ref) and isinstance(I.rec(v), ListR):
        n = len(I.iter_items(v))
        return I.new_list([stack(I, [I.iter_items(x)[j] for x in vs]) for j in range(n)])
    if v is None:
        return None
    out = []
    for x in vs:
        q = I.as_num(x)
        a = Arr((), lambda ix, q=q: q) if q is not None else arr_of(I, x)
        if a is None:
            return x if isinstance(x, Unknown) else I.unknown(f"vmap result {x!r}"[:150])
        out.append(a)
    return I.new_arr(arrays.stack(out))


def take(I, v, s):
    """Row s of an array, or of every array in a container."""
    if isinstance(v, Tup):
        return Tup([take(I, x, s) for x in v.items], nt=v.nt)
    if isinstance(v, Ref) and isinstance(I.rec(v), DictR):
        return I.new_dict([(q, take(I, I.getitem(v, q), s)) for q in I.iter_items(v)])
    a = arr_of(I, v)
    if a is None or a.ndim == 0:
        raise arrays.ShapeError(f"vmap over {v!r}"[:100])
    if a.ndim == 1:
        return topoly(a.get((P(s),)))
    return I.new_arr(Arr(a.shape[1:], lambda ix: a.get((P(s),) + tuple(ix))))


def lead(I, v):
    if isinstance(v, Tup):
        return [n for x in v.items for n in lead(I, x)]
    if isinstance(v, Ref) and isinstance(I.rec(v), DictR):
        return [n for q in I.iter_items(v) for n in lead(I, I.getitem(v, q))]
    a = arr_of(I, v)
    if a is None or a.ndim == 0:
        raise arrays.ShapeError(f"vmap over {v!r}"[:100])
    return [a.shape[0]]


def reject(I, what):
    I.effect("rejected", what)
    return I.raise_("ValueError", what) if False else I.unknown("rejected by jax: " + what)


def vmap(I, a, k):
    f = a[0]
    if len(a) > 1:
        k = dict(k, in_axes=a[1])
    if len(a) > 2 or set(k) - {"in_axes", "out_axes"} or k.get("out_axes", ZERO) != ZERO:
        return I.unknown("vmap options")

    def run(I, args, kw):
        if kw:
            return I.unknown("vmap with keywords")
        ax = axes(I, k, len(args))
        if ax is None:
            return reject(I, f"vmap in_axes for {len(args)} arguments")
        ax = [one_axis(I, x) for x in ax]
        if any(x not in (None, 0) for x in ax):
            return I.unknown("vmap over other axes")
        n = [m for x, v in zip(ax, args) if x == 0 for m in lead(I, v)]
        if not n:
            return reject(I, "vmap over no argument")
        if any(not arrays.same_dim(m, n[0]) for m in n):
            return reject(I, f"vmap sizes {n}")
        c = n[0].const()
        if c is None:
            return I.unknown("vmap over a symbolic number of rows")
        rows = [I.call(f, [take(I, v, s) if x == 0 else v for x, v in zip(ax, args)], {}) for s in range(int(c))]
        return stack(I, rows)
    return Native("vmap", run)


def jacobian(I, a, k, order=1):
    f = a[0]
    if len(a) > 2 or set(k) - {"argnums"}:
        return I.unknown("jacobian options")
    pos = I.as_num(a[1] if len(a) > 1 else k.get("argnums", ZERO))
    if pos is None or pos.const() is None:
        return I.unknown("argnums")
    pos = int(pos.const())

    def run(I, args, kw):
        args = list(args)
        x = args[pos]
        v = I.as_num(x)
        ar = Arr((), lambda ix: v) if v is not None else arr_of(I, x)
        if ar is None or ar.size.const() is None:
            return I.unknown("derivative for this argument")
        shape = [int(s.const()) for s in ar.shape]
        n = 1
        for s in shape:
            n *= s
        ats = fresh(n)
        every = set(ats)

        def at(ix):
            m = 0
            for i, s in zip(ix, shape):
                c = P(i).const()
                if c is None:
                    raise arrays.Undecidable("symbolic index into a derivative")
                m = m * s + int(c)
            return m

        def point(ix):
            if all(P(i).const() is not None for i in ix):
                return P(ats[at(ix)])
            if len(shape) == 1:
                return sum((alg.delta(P(ix[0]) - m) * P(t) for m, t in enumerate(ats)), ZERO)
            raise arrays.Undecidable("symbolic index into a derivative")
        args[pos] = P(ats[0]) if not shape else I.new_arr(Arr(ar.shape, point))
        r = I.call(f, args, kw)
        q = I.as_num(r)
        ra = Arr((), lambda ix: q) if q is not None else arr_of(I, r)
        if ra is None:
            return r if isinstance(r, Unknown) else I.unknown(f"derivative of {r!r}"[:100])
        back = {}
        import itertools
        for m, ix in enumerate(itertools.product(*[range(s) for s in shape])):
            back[ats[m]] = topoly(ar.get(tuple(P(i) for i in ix)))
        d = ra.ndim

        def get(ix):
            p = ra.get(tuple(ix[:d]))
            for o in range(order):
                j = ix[d + o * len(shape):d + (o + 1) * len(shape)]
                p = derivative(p, ats[at(j)], every)
            return subst(topoly(p), back)
        out = Arr(tuple(ra.shape) + tuple(ar.shape) * order, get)
        return topoly(out.get(())) if out.ndim == 0 else I.new_arr(out)
    return Native("jacobian" if order == 1 else "hessian", run)


def reach(I, v, seen):
    if isinstance(v, Tup):
        for x in v.items:
            reach(I, x, seen)
    elif isinstance(v, Ref) and v.loc not in seen:
        seen.add(v.loc)
        r = I.rec(v)
        if isinstance(r, ObjR):
            for x in r.attrs.values():
                reach(I, x, seen)
        elif isinstance(r, DictR):
            for x in I.iter_items(v) or []:
                reach(I, x, seen)
                reach(I, I.getitem(v, x), seen)
        elif isinstance(r, ListR):
            for x in I.iter_items(v) or []:
                reach(I, x, seen)


def signature(I, v):
    if isinstance(v, Tup):
        return tuple(signature(I, x) for x in v.items)
    if isinstance(v, Ref):
        r = I.rec(v)
        a = arr_of(I, v) if isinstance(r, ArrR) else None
        if a is not None:
            return "arr" + repr(a.shape)
        return r.kind if hasattr(r, "kind") else type(r).__name__
    return type(v).__name__


def jit(I, a, k):
    """A compiled function: what it captured at its first call with arguments of this shape stays."""
    f = a[0] if a else None
    if f is None:
        return Native("jit", lambda i, b, kw: jit(i, b, k))
    first = {}

    def run(I, args, kw):
        sig = tuple(signature(I, x) for x in args) + tuple((n, signature(I, x)) for n, x in sorted(kw.items(), key=lambda t: str(t[0])))
        if sig not in first:
            first[sig] = dict(I.st.store)
            return I.call(f, list(args), dict(kw))
        old, now = first[sig], I.st
        seen = set()
        for x in list(args) + list(kw.values()):
            reach(I, x, seen)
        merged = dict(now.store)
        for loc, rec in old.items():
            if loc not in seen:
                merged[loc] = rec
        I.st = State(merged, list(now.effects))
        try:
            v = I.call(f, list(args), dict(kw))
        finally:
            after = I.st
            store = dict(now.store)
            for loc, rec in after.store.items():
                if loc not in store:
                    store[loc] = rec
            I.st = State(store, list(after.effects))
        return v
    return Native("jit", run)


def install(I, freeze=True):
    ov = I.overrides
    ov["jax.vmap"] = Native("jax.vmap", vmap)
    for n in ("jacobian", "jacrev", "jacfwd", "grad"):
        ov["jax." + n] = Native("jax." + n, jacobian)
    ov["jax.hessian"] = Native("jax.hessian", lambda i, a, k: jacobian(i, a, k, 2))
    if freeze:
        ov["jax.jit"] = Native("jax.jit", jit)
    return I
