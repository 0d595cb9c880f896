"""C02: scaled evaluation is the chain-rule transform of the unscaled functions."""
from ..checklib import *
from ..harness import new_interp, fn, fn_term, arr_of
from ..arrays import base_array, akey, elementwise
from ..alg import ZERO, ONE, index, dim, inverse

MOD = "lumos.optimal_control.nlp"
F = "lumos/optimal_control/nlp.py:"


def inv(p):
    return alg.ppow(p, -1)


class Ctx:
    """One function object with uninterpreted value / derivative functions and given structures."""

    def __init__(self, sizes, kind, structure, fn=fn):
        s = dict(sizes or {})
        self.I = I = new_interp()
        I.load(MOD)
        self.kind, self.structure = kind, structure
        self.n = P(3) if s else dim("n_in", 1)
        self.m = P(2) if s else dim("n_con", 1)
        n, m = self.n, self.m
        if structure == "flat":
            jsh, hsh = ((P(4) if s else dim("jnnz", 1)),), ((P(3) if s else dim("hnnz", 1)),)
        elif structure == "nd":
            jsh, hsh = (P(2) if s else dim("j1", 1), P(3) if s else dim("j2", 1)), (P(2) if s else dim("h1", 1), P(2) if s else dim("h2", 1))
        else:
            jsh, hsh = (m, n), (n, n)
        if structure == "dense":
            # without a structure every entry is reported, row by row
            flat_ = lambda sh: (sh[0] * sh[1],)
            self.jr = arrays.reshape(Arr(jsh, lambda ix: ix[0]), flat_(jsh))
            self.jc = arrays.reshape(Arr(jsh, lambda ix: ix[1]), flat_(jsh))
            self.hr = arrays.reshape(Arr(hsh, lambda ix: ix[0]), flat_(hsh))
            self.hc = arrays.reshape(Arr(hsh, lambda ix: ix[1]), flat_(hsh))
            js = hs = None
            jsh, hsh = flat_(jsh), flat_(hsh)
        else:
            self.jr = base_array("jr", jsh, up=m, integer=True)
            self.jc = base_array("jc", jsh, up=n, integer=True)
            self.hr = base_array("hr", hsh, up=n, integer=True)
            self.hc = base_array("hc", hsh, up=n, integer=True)
            js = Tup([I.new_arr(self.jr), I.new_arr(self.jc)])
            hs = Tup([I.new_arr(self.hr), I.new_arr(self.hc)])
        self.jsh, self.hsh = jsh, hsh
        g = lambda name: I.mod_get(MOD, name)
        if kind == "BaseConstraints":
            self.obj = call(I, g(kind), num_in=n, num_con=m, constraints=fn("con", (m,)), jacobian=fn("jac", jsh),
                            hessian=fn("hess", hsh), jacobian_structure=js, hessian_structure=hs)
        elif kind.startswith("LinearConstraints"):
            self.obj = call(I, g("LinearConstraints"), num_in=n, num_con=m, constraints=fn("con", (m,)), jacobian=fn("jac", jsh),
                            jacobian_structure=js, cache_jacobian=kind.endswith("cached"))
        else:
            self.obj = call(I, g("BaseObjective"), num_in=n, objective=fn("obj", ()), gradient=fn("grad", (n,)),
                            hessian=fn("hess", hsh), hessian_structure=hs)
        self.x = base_array("x", (n,))
        self.lam = base_array("lam", (m,))

    def m_(self, f, *a, **k):
        return call(self.I, self.I.getattr(self.obj, f), *a, **k)


HISTORIES = [
    ("as built", ()),
    ("input then constraint scales", (("in", 1), ("con", 1))),
    ("constraint then input scales", (("con", 1), ("in", 1))),
    ("input scales only", (("in", 1),)),
    ("constraint scales only", (("con", 1),)),
    ("replaced scales", (("in", 1), ("con", 1), ("in", 2))),
    ("replaced constraint scales", (("in", 1), ("con", 1), ("con", 2))),
]


def run(c):
    c.explain = ("abstract interpretation of the constraint and objective classes with uninterpreted value, jacobian, gradient "
                 "and hessian functions, symbolic sizes and arbitrary structures (flat, many-dimensional, dense); after each history "
                 "of scale updates every entry is compared with the chain-rule transform")
    c.assumptions = ["scales are non-zero (set_scales rejects others)"]
    kinds = [("BaseConstraints", s) for s in ("flat", "nd", "dense")] + [("LinearConstraints cached", "flat"), ("LinearConstraints", "flat")]
    kinds += [("BaseObjective", s) for s in ("flat", "dense")]
    for kind, st in kinds:
        for hname, hist in HISTORIES:
            if kind == "BaseObjective" and any(h[0] == "con" for h in hist) and len(hist) < 3:
                continue
            b = lambda s, kind=kind, st=st: Ctx(s, kind, st)
            name = f"{F}{kind.split()[0]} [{kind}, {st} structure, {hname}]"
            c.sized("scaled value and derivatives", name, b, lambda z, hist=hist: decide(c, z, hist), sizes=[dict(x=1)])
    for st in ("flat", "dense"):
        b = lambda s, st=st: Ctx(s, "BaseConstraints", st)
        c.sized("sparse matrix helpers", f"{F}BaseConstraints.get_csc_jacobian [{st} structure]", b, lambda z: csc(c, z), sizes=[dict(x=1)])
    c.sized("extra arguments are passed on", f"{F}BaseConstraints", lambda s: Ctx(s, "BaseConstraints", "flat"), lambda z: extra(c, z), sizes=[dict(x=1)])


def apply_history(z, hist):
    I = z.I
    # start from unit scales whatever was done before
    s = base_array("one", (z.n,))
    cur_s = Arr((z.n,), lambda ix: ONE)
    cur_g = Arr((z.m,), lambda ix: ONE)
    z.m_("set_input_scales", I.new_arr(cur_s))
    if z.kind != "BaseObjective":
        z.m_("set_con_scales", I.new_arr(cur_g))
    for what, k in hist:
        if what == "in":
            cur_s = base_array(f"s{k}", (z.n,))
            z.m_("set_input_scales", I.new_arr(cur_s))
        elif z.kind != "BaseObjective":
            cur_g = base_array(f"g{k}", (z.m,))
            z.m_("set_con_scales", I.new_arr(cur_g))
    return cur_s, cur_g


def decide(c, z, hist):
    I = z.I
    if not hist:
        s, g = Arr((z.n,), lambda ix: ONE), Arr((z.m,), lambda ix: ONE)
    else:
        s, g = apply_history(z, hist)
    xs = elementwise(lambda a, b: a * b, z.x, s)
    kx = akey(xs)
    xv = I.new_arr(z.x)
    if z.kind == "BaseObjective":
        c.eq_arr(I, z.m_("objective", xv), fn_term("obj", (), kx), "objective")
        c.eq_arr(I, z.m_("gradient", xv), Arr((z.n,), lambda ix: fn_term("grad", ix, kx) * s.get(ix)), "gradient")
        want = Arr(z.hsh, lambda ix: fn_term("hess", ix, kx) * s.get((z.hr.get(ix),)) * s.get((z.hc.get(ix),)))
        c.eq_arr(I, z.m_("hessian", xv), want, "objective hessian")
        r, q = I.iter_items(z.m_("hessianstructure"))
        c.eq_arr(I, r, z.hr, "hessian rows")
        c.eq_arr(I, q, z.hc, "hessian columns")
        return
    c.eq_arr(I, z.m_("constraints", xv), Arr((z.m,), lambda ix: fn_term("con", ix, kx) * inv(g.get(ix))), "constraints")
    jx = kx
    if z.kind == "LinearConstraints cached":
        jx = akey(Arr((z.n,), lambda ix: ONE))      # constant jacobian, evaluated once
    want = Arr(z.jsh, lambda ix: fn_term("jac", ix, jx) * s.get((z.jc.get(ix),)) * inv(g.get((z.jr.get(ix),))))
    c.eq_arr(I, z.m_("jacobian", xv), want, "jacobian values")
    r, q = I.iter_items(z.m_("jacobianstructure"))
    c.eq_arr(I, r, z.jr, "jacobian rows")
    c.eq_arr(I, q, z.jc, "jacobian columns")
    if z.kind == "BaseConstraints":
        kl = akey(elementwise(lambda a, b: a * inv(b), z.lam, g))
        want = Arr(z.hsh, lambda ix: fn_term("hess", ix, kx, kl) * s.get((z.hr.get(ix),)) * s.get((z.hc.get(ix),)))
        c.eq_arr(I, z.m_("hessian", xv, I.new_arr(z.lam)), want, "hessian values")
        r, q = I.iter_items(z.m_("hessianstructure"))
        c.eq_arr(I, r, z.hr, "hessian rows")
        c.eq_arr(I, q, z.hc, "hessian columns")


def csc(c, z):
    from ..builtin_fns import SparseV
    I = z.I
    s, g = apply_history(z, (("in", 1), ("con", 1)))
    xv, lv = I.new_arr(z.x), I.new_arr(z.lam)
    jv = arr_of(I, z.m_("jacobian", xv))
    hv = arr_of(I, z.m_("hessian", xv, lv))
    for what, got, vals, rows, cols, sh in (("jacobian", z.m_("get_csc_jacobian", xv), jv, z.jr, z.jc, (z.m, z.n)),
                                           ("hessian", z.m_("get_csc_hessian", xv, lv), hv, z.hr, z.hc, (z.n, z.n))):
        a = sparse_arr(I, got)
        if a is None or vals is None:
            raise Und(f"{what} {got!r}"[:200])
        c.eq_shape(a.shape, sh, f"sparse {what}")
        t = Triplet(flat(vals), flat(rows), flat(cols))
        r0, c0 = opaque_index(sh[0], "_row"), opaque_index(sh[1], "_col")
        c.eq_poly(arrays.topoly(a.get((r0, c0))), t.entry(r0, c0), f"sparse {what} entry")


def sparse_arr(I, v):
    from ..builtin_fns import SparseV
    if isinstance(v, SparseV):
        return v.arr
    if isinstance(v, Ref):
        r = I.rec(v)
        return getattr(r, "arr", None)
    return None


def extra(c, z):
    I = z.I
    xv, lv = I.new_arr(z.x), I.new_arr(z.lam)
    e, k = alg.sym("extra_arg"), alg.sym("extra_kw")
    s, g = apply_history(z, ())
    kx, kl = akey(z.x), akey(z.lam)
    c.eq_arr(I, z.m_("constraints", xv, e, opt=k), Arr((z.m,), lambda ix: fn_term("con", ix, kx, e, ("opt", k))), "constraints")
    c.eq_arr(I, z.m_("jacobian", xv, e, opt=k), Arr(z.jsh, lambda ix: fn_term("jac", ix, kx, e, ("opt", k))), "jacobian")
    c.eq_arr(I, z.m_("hessian", xv, lv, e, opt=k), Arr(z.hsh, lambda ix: fn_term("hess", ix, kx, kl, e, ("opt", k))), "hessian")
