"""C12: the condensed formulation is the full one with the state derivatives eliminated."""
from ..checklib import *
from ..harness import Ocp, arr_of, fn_term
from ..arrays import base_array
from ..alg import ZERO, ONE, sym
from .. import arrays
from .c07 import constraint, triplet, pair

FILES = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}


class Explicit(Ocp):
    """A model whose equations are F(states, inputs, mesh, params) - [states_dot, con_outputs, 0]."""

    def key(self, row, mesh):
        ns, nu = self.D.ns, self.D.nu
        return tuple(arrays.topoly(row((P(k),))) for k in range(int(P(ns + nu).const()))) + (mesh,)

    def F(self, r, key):
        return fn_term("F", (r,), *key)

    def dF(self, r, a, key):
        return fn_term("dF", (r, a), *key)

    def d2F(self, r, a, b, key):
        return fn_term("d2F", (r,) + tuple(sorted((a, b))), *key)

    def make_unit(self):
        u = super().make_unit()
        I, D = self.I, self.D
        ns, nu, nc, nres, nv = [int(P(v).const()) for v in (D.ns, D.nu, D.nc, self.nres, self.nv)]
        self.jent = [(r, c) for r in range(nres) for c in range(ns + nu)]
        self.jent += [(r, ns + nu + r) for r in range(ns)] + [(ns + m, 2 * ns + nu + m) for m in range(nc)]
        self.jent.reverse()
        self.hent = [(a, b) for a in range(ns + nu) for b in range(ns + nu)]
        lit = lambda v: I.new_arr(arrays.stack([Arr((), lambda ix, k=k: P(k)) for k in v]))
        u.attrs["jacobianstructure"] = Native("js", lambda i, a, k: Tup([lit([r for r, _ in self.jent]), lit([q for _, q in self.jent])]))
        u.attrs["hessianstructure"] = Native("hs", lambda i, a, k: Tup([lit([r for r, _ in self.hent]), lit([q for _, q in self.hent])]))

        def con(row, lam, mesh):
            key = self.key(row, mesh)
            off = lambda r: row((P(ns + nu + r),)) if r < ns + nc else ZERO
            return [self.F(r, key) - off(r) for r in range(nres)]

        def jac(row, lam, mesh):
            key = self.key(row, mesh)
            return [self.dF(r, a, key) if a < ns + nu else P(-1) for r, a in self.jent]

        def hess(row, lam, mesh):
            key = self.key(row, mesh)
            return [sum((lam((P(r),)) * self.d2F(r, a, b, key) for r in range(nres)), ZERO) for a, b in self.hent]
        for n, f, k in (("constraints", con, nres), ("jacobian", jac, len(self.jent)), ("hessian", hess, len(self.hent))):
            u.attrs["mapped_" + n] = Native("mapped_" + n, lambda i, a, kk, f=f, k=k, n=n: self.values(a, k, f, n == "hessian"))
        return u

    def values(self, a, size, f, lam=False):
        want = 4 if lam else 3
        if len(a) != want:
            return self.I.unknown("mapped call arity")
        args = [self.arg(x) for x in a]
        rows, mesh, par = args[0], args[-2], args[-1]
        par = par if isinstance(par, Arr) else vkey(par)
        if par != self.par and not isinstance(par, Arr):
            return self.I.unknown("parameters of the mapped call")
        if not isinstance(rows, Arr) or not isinstance(mesh, Arr) or mesh.ndim != 1:
            raise ShapeError("mapped call")
        part = lambda x, s: (lambda j: arrays.topoly(x.get((s,) + tuple(j))))
        la = args[1] if lam else None

        def get(ix):
            s = ix[0]
            v = f(part(rows, s), part(la, s) if lam else None, arrays.topoly(mesh.get((s,))))
            k = P(ix[1]).const()
            if k is None:
                return sum((alg.delta(P(ix[1]) - e) * w for e, w in enumerate(v)), ZERO)
            return v[int(k)]
        return self.I.new_arr(Arr((rows.shape[0], P(size)), get))

    def batched_forward(self, I, a, k):
        names_ = ["states", "inputs", "mesh", "params"]
        a = [x for x in a if x != self.model]
        b = dict(zip(names_, a))
        b.update({str(x): y for x, y in k.items()})
        if set(b) != set(names_):
            return I.unknown("batched_forward arguments")
        s, u, mesh, par = [self.arg(b[n]) for n in names_]
        if vkey(par) != self.par or not all(isinstance(v, Arr) for v in (s, u, mesh)):
            return I.unknown("batched_forward arguments")
        D = self.D

        def row(st):
            def g(j):
                return arrays.topoly(s.get((st, j[0]))) if arrays.lt(j[0], D.ns) else arrays.topoly(u.get((st, j[0] - D.ns)))
            return g

        def get(g, off):
            return lambda ix: self.F(off + ix[1], self.key(row(ix[0]), arrays.topoly(mesh.get((ix[0],)))))
        ret = I.mod_get("lumos.models.base", "ArrayStateSpaceModelReturn")
        lead = s.shape[0]
        out = {g: I.new_arr(Arr((lead, n), get(g, off))) for g, n, off in (("states_dot", D.ns, ZERO), ("con_outputs", D.nc, D.ns), ("residuals", D.nr, D.ns + D.nc))}
        out["outputs"] = I.unknown("outputs")
        return I.call(ret, [], out)


class Ctx:
    def __init__(self, sizes, kind, lgr=True, mesh="points"):
        if sizes and not lgr:
            sizes = dict(sizes, K=2)
        self.o = o = Explicit(kind, condensed=True, lgr=lgr, mesh=mesh, sizes=sizes, lazy=True)
        o.par = vkey(o.params)
        self.I = I = o.I
        kw = dict(model=o.model, sim_config=o.cfg)
        if kind == "fixed":
            kw["mesh_scale"] = o.scale
        o.ocp = call(I, o.cls, **kw)
        self.con = constraint(o, "model_algebra")
        if self.con is None:
            raise Und("no model_algebra constraint")
        self.xa = base_array("x", (o.ndec,))
        self.norm = arr_of(I, I.getattr(o.ocp, "_flat_normalized_mesh"))
        if self.norm is None:
            raise Und("mesh")
        D = o.D
        self.ncont = o.N * (o.K - 1) * D.ns
        self.nalg = D.nc + D.nr
        self.ncon = self.ncont + o.S * self.nalg

    def ms(self):
        return self.xa.get((self.o.ndec - 1,)) if self.o.kind == "scaled" else self.o.scale

    def len(self, i):
        return self.o.points_arr.get((i + 1,)) - self.o.points_arr.get((i,))

    def key(self, s):
        o = self.o
        return o.key(lambda j: self.xa.get((s * o.nv + j[0],)), self.norm.get((s,)) * self.ms())

    def m(self, name, *a):
        return call(self.I, self.I.getattr(self.con, name), *a)

    def x(self):
        return self.I.new_arr(self.xa)


def spec_con(z):
    o = z.o
    D, K = o.D, o.K

    def cont(ix):
        i, l, k = ix
        a = arrays.sumover(K, lambda j: o.A.get((l, j)) * z.xa.get((o.pos("states", i * (K - 1) + j, k),)))
        b = arrays.sumover(K, lambda j: o.B.get((l, j)) * o.F(k, z.key(i * (K - 1) + j)))
        return a - z.len(i) * z.ms() * b

    def alg_(ix):
        s, m = ix
        f = o.F(D.ns + m, z.key(s))
        return f - z.xa.get((o.pos("con_outputs", s, m),)) if arrays.lt(m, D.nc) else f
    return (arrays.reshape(Arr((o.N, K - 1, D.ns), cont), (z.ncont,)),
            arrays.reshape(Arr((o.S, z.nalg), alg_), (o.S * z.nalg,)))


def ob_con(c, z):
    a, b = spec_con(z)
    c.eq_arr(z.I, z.m("constraints", z.x()), arrays.concat([a, b]), "condensed constraints")
    c.eq_poly(z.I.as_num(z.I.getattr(z.con, "num_con")), z.ncon, "number of condensed constraints")


def ints(z):
    o, D = z.o, z.o.D
    return [int(P(v).const()) for v in (o.N, o.K, o.S, D.ns, D.nu, D.nc, D.nr, o.nv, o.ndec)]


def spec_jac(z):
    """{(row, column): value} of the entries that are not identically zero."""
    o = z.o
    N, K, S, ns, nu, nc, nr, nv, nd = ints(z)
    out = {}

    def add(r, q, v):
        out[(r, q)] = out.get((r, q), ZERO) + v
    for i in range(N):
        L = z.len(P(i)) * z.ms()
        for l in range(K - 1):
            for k in range(ns):
                r = (i * (K - 1) + l) * ns + k
                for j in range(K):
                    s = i * (K - 1) + j
                    A, B = o.A.get((P(l), P(j))), o.B.get((P(l), P(j)))
                    add(r, s * nv + k, A)
                    for a in range(ns + nu):
                        add(r, s * nv + a, -L * B * o.dF(k, a, z.key(P(s))))
                    if o.kind == "scaled":
                        add(r, nd - 1, -z.len(P(i)) * B * o.F(k, z.key(P(s))))
    base = N * (K - 1) * ns
    for s in range(S):
        for m in range(nc + nr):
            r = base + s * (nc + nr) + m
            for a in range(ns + nu):
                add(r, s * nv + a, o.dF(ns + m, a, z.key(P(s))))
            if m < nc:
                add(r, s * nv + 2 * ns + nu + m, P(-1))
    return out


def positions(c, z, struct, what, nr, nc):
    from .c11 import pairs
    st = pairs(c, z.I, struct, what)
    for a, b in st:
        if not (0 <= a < nr and 0 <= b < nc):
            raise Bad(f"{what}: entry {(a, b)} outside a matrix of size {(nr, nc)}")
    return st


def ob_jac(c, z):
    I = z.I
    N, K, S, ns, nu, nc, nr, nv, nd = ints(z)
    want = spec_jac(z)
    st = positions(c, z, z.m("jacobianstructure"), "condensed jacobian structure", int(z.ncon.const()), nd)
    have = set(st)
    for e in sorted(want):
        if e not in have:
            raise Bad(f"condensed jacobian structure lacks entry {e}, which is {alg.show(want[e])[:120]}")
    v, r, q = triplet(c, I, z.m("jacobian", z.x()), z.m("jacobianstructure"), "condensed jacobian")
    tab = Triplet(v, r, q).table()
    for e in sorted(have):
        c.eq_poly(tab[e], want.get(e, ZERO), f"condensed jacobian {e}")


def spec_hess(z, lam):
    o = z.o
    N, K, S, ns, nu, nc, nr, nv, nd = ints(z)
    out = {}

    def add(a, b, v):
        k = (min(a, b), max(a, b))
        out[k] = out.get(k, ZERO) + v
    for i in range(N):
        L = z.len(P(i)) * z.ms()
        for l in range(K - 1):
            for k in range(ns):
                y = lam.get((P((i * (K - 1) + l) * ns + k),))
                for j in range(K):
                    s = i * (K - 1) + j
                    B, key = o.B.get((P(l), P(j))), z.key(P(s))
                    for a in range(ns + nu):
                        for b in range(a, ns + nu):
                            add(s * nv + a, s * nv + b, -y * L * B * o.d2F(k, a, b, key))
                        if o.kind == "scaled":
                            add(s * nv + a, nd - 1, -y * z.len(P(i)) * B * o.dF(k, a, key))
    base = N * (K - 1) * ns
    for s in range(S):
        key = z.key(P(s))
        for m in range(nc + nr):
            y = lam.get((P(base + s * (nc + nr) + m),))
            for a in range(ns + nu):
                for b in range(a, ns + nu):
                    add(s * nv + a, s * nv + b, y * o.d2F(ns + m, a, b, key))
    return out


def ob_hess(c, z):
    I = z.I
    N, K, S, ns, nu, nc, nr, nv, nd = ints(z)
    lam = base_array("lam", (z.ncon,))
    want = spec_hess(z, lam)
    st = positions(c, z, z.m("hessianstructure"), "condensed hessian structure", nd, nd)
    have = set(st)
    for e in sorted(want):
        if e not in have:
            raise Bad(f"condensed hessian structure lacks entry {e}, which is {alg.show(want[e])[:120]}")
    v, r, q = triplet(c, I, z.m("hessian", z.x(), I.new_arr(lam)), z.m("hessianstructure"), "condensed hessian")
    tab = Triplet(v, r, q).table()
    for e in sorted(have):
        if e[0] <= e[1]:
            c.eq_poly(tab[e], want.get(e, ZERO), f"condensed hessian {e}")


def ob_repeat(c, z):
    """Structures do not change when the functions are evaluated in between."""
    before = [z.m("jacobianstructure"), z.m("hessianstructure")]
    for n in ("constraints", "jacobian"):
        z.m(n, z.x())
    z.m("hessian", z.x(), z.I.new_arr(base_array("lam", (z.ncon,))))
    after = [z.m("jacobianstructure"), z.m("hessianstructure")]
    for a, b, n in zip(before, after, ("jacobian", "hessian")):
        for p, q, w in zip(pair(z.I, a), pair(z.I, b), ("rows", "columns")):
            c.eq_arr(z.I, p, arr_of(z.I, q), f"{n} {w} before and after evaluation")


SZ = [dict(N=2, K=3, ns=2, nu=1, nc=1, nr=1, no=2), dict(N=3, K=2, ns=1, nu=2, nc=2, nr=0, no=1)]


def run(c):
    c.explain = ("abstract interpretation of the construction of a condensed problem and of its constraint, jacobian, hessian and structure "
                 "functions for an arbitrary explicit model (uninterpreted right-hand side and derivatives); every entry is compared with the "
                 "chain rule applied to the substituted constraint; sizes are enumerated, all values (variables, multipliers, mesh, "
                 "transcription matrices, model values and derivatives) are symbolic")
    c.assumptions = ["the mesh argument of the model counts as constant in the derivatives, as in the full formulation",
                     "sizes are enumerated"]
    cfgs = [("scaled", True, "points"), ("fixed", True, "points"), ("scaled", False, "points"), ("fixed", False, None)]
    sz = list(SZ)
    if c.tier == "thorough":
        sz += [dict(N=1, K=3, ns=2, nu=1, nc=0, nr=1, no=2), dict(N=3, K=3, ns=1, nu=1, nc=1, nr=1, no=1), dict(N=2, K=4, ns=1, nu=0, nc=1, nr=0, no=1),
               dict(N=2, K=2, ns=3, nu=2, nc=2, nr=2, no=1)]
    for kind, lgr, mesh in cfgs:
        a = (kind, lgr, mesh)
        lab = FILES[kind] + f" [condensed, {kind} mesh, {'LGR' if lgr else 'quadrature'}, {'given' if mesh else 'uniform'} points]"
        for s in sz:
            if not lgr:
                s = dict(s, K=2)

            cache = {}

            def ctx(s=s, a=a, cache=cache):
                if "z" not in cache:
                    cache["z"] = Ctx(s, *a)
                z = cache["z"]
                c._interps[id(z.I)] = z.I
                return z
            l2 = lab + " {" + ", ".join(f"{k}={v}" for k, v in s.items()) + "}"
            c.ob("constraints = full constraints with derivatives substituted", l2, lambda ctx=ctx: ob_con(c, ctx()))
            c.ob("jacobian = chain rule of the substituted constraint", l2, lambda ctx=ctx: ob_jac(c, ctx()))
            c.ob("hessian = chain rule of the substituted constraint", l2, lambda ctx=ctx: ob_hess(c, ctx()))
            c.ob("structures do not depend on evaluations", l2, lambda ctx=ctx: ob_repeat(c, ctx()))
