"""C05: stacked callbacks of a composite problem are aligned with their structure."""
from ..checklib import *
from ..harness import new_interp, fn, fn_term, arr_of
from ..arrays import base_array, akey, elementwise, concat
from ..alg import ZERO, ONE, index, dim
from .. import arrays
from .c02 import inv

MOD = "lumos.optimal_control.nlp"
F = "lumos/optimal_control/nlp.py:CompositeProblem"


def const_arr(xs):
    return Arr((P(len(xs)),), lambda ix, xs=xs: arrays.enum_const(xs, ix[0]) if hasattr(arrays, "enum_const") else P(xs[int(P(ix[0]).const())]))


# blocks of the concrete context: (number of constraints, jacobian rows/columns, hessian rows/columns), or None: dense
BLOCKS = [
    (1, ([0, 0], [2, 0]), ([0, 1, 1], [0, 0, 2])),
    (2, None, ([2, 0, 1, 1], [2, 1, 1, 0])),
    (1, ([0], [1]), None),
]
OBJS = [([0, 2, 1], [0, 1, 2]), None]


class Block:
    def __init__(self, name, m, js, hs, kind="con"):
        self.name, self.m, self.js, self.hs, self.kind = name, m, js, hs, kind


class Ctx:
    """Composite problem with three constraint blocks and two objectives of any size."""

    def __init__(self, sizes, ncon=3, nobj=2):
        self.conc = bool(sizes)
        self.I = I = new_interp()
        I.load(MOD)
        self.n = n = P(3) if self.conc else dim("n_in", 1)
        self.prob = call(I, I.mod_get(MOD, "CompositeProblem"), num_in=n)
        self.cons, self.objs = [], []
        for k in range(ncon):
            b = self.con(k)
            self.cons.append(b)
            call(I, I.getattr(self.prob, "add_constraints"), b.name, b.obj)
        for k in range(nobj):
            b = self.objective(k)
            self.objs.append(b)
            call(I, I.getattr(self.prob, "add_objective"), b.name, b.obj)
        self.x = base_array("x", (n,))
        self.sigma = alg.sym("sigma")

    def struct(self, spec, tag, nr, nc, dense):
        I = self.I
        if self.conc:
            if spec is None:
                r = [i for i in range(int(nr.const())) for j in range(int(nc.const()))]
                q = [j for i in range(int(nr.const())) for j in range(int(nc.const()))]
                return None, self.carr(r), self.carr(q)
            r, q = self.carr(spec[0]), self.carr(spec[1])
            return Tup([I.new_arr(r), I.new_arr(q)]), r, q
        if dense:
            sz = nr * nc
            return None, arrays.reshape(Arr((nr, nc), lambda ix: ix[0]), (sz,)), arrays.reshape(Arr((nr, nc), lambda ix: ix[1]), (sz,))
        nz = dim("nnz_" + tag, 0)
        r, q = base_array("r_" + tag, (nz,), up=nr, integer=True), base_array("q_" + tag, (nz,), up=nc, integer=True)
        return Tup([I.new_arr(r), I.new_arr(q)]), r, q

    def carr(self, xs):
        return self.I.to_arr(Tup([P(v) for v in xs]))

    def con(self, k, name=None):
        I, n = self.I, self.n
        m, js, hs = BLOCKS[k % 3]
        b = Block(name or f"block{k}", P(m) if self.conc else dim(f"m{k}", 1), None, None)
        jv, b.jr, b.jq = self.struct(js, f"j{k}", b.m, n, k == 1)
        hv, b.hr, b.hq = self.struct(hs, f"h{k}", n, n, False)
        b.tag = str(k)
        b.obj = call(I, I.mod_get(MOD, "BaseConstraints"), num_in=n, num_con=b.m, constraints=fn("con" + b.tag, (b.m,)),
                     jacobian=fn("jac" + b.tag, b.jr.shape), hessian=fn("hess" + b.tag, b.hr.shape), jacobian_structure=jv, hessian_structure=hv)
        return b

    def objective(self, k, name=None):
        I, n = self.I, self.n
        b = Block(name or f"goal{k}", None, None, None, "obj")
        hv, b.hr, b.hq = self.struct(OBJS[k % 2], f"o{k}", n, n, False)
        b.tag = str(k)
        b.obj = call(I, I.mod_get(MOD, "BaseObjective"), num_in=n, objective=fn("obj" + b.tag, ()), gradient=fn("grad" + b.tag, (n,)),
                     hessian=fn("ohess" + b.tag, b.hr.shape), hessian_structure=hv)
        return b

    def m_(self, f, *a):
        return call(self.I, self.I.getattr(self.prob, f), *a)

    def num_con(self):
        return sum((b.m for b in self.cons), ZERO)


def arr(c, I, v, what):
    a = arr_of(I, v)
    if a is None:
        raise c.nonarr(I, v, what)
    return a


def ind(v):
    return arrays.indicator(v) if isinstance(v, arrays.Cond) else P(int(v) if isinstance(v, bool) else v)


def cat(xs):
    return concat(xs, 0) if len(xs) > 1 else xs[0]


def ob_values(c, z):
    I = z.I
    kx = akey(z.x)
    c.eq_poly(I.as_num(I.getattr(z.prob, "num_con")), z.num_con(), "number of constraints")
    want = cat([Arr((b.m,), lambda ix, b=b: fn_term("con" + b.tag, ix, kx)) for b in z.cons])
    c.eq_arr(I, z.m_("constraints", I.new_arr(z.x)), want, "stacked constraints")


def ob_jac(c, z):
    I = z.I
    kx = akey(z.x)
    v = arr(c, I, z.m_("jacobian", I.new_arr(z.x)), "jacobian values")
    s = I.iter_items(z.m_("jacobianstructure"))
    if s is None or len(s) != 2:
        raise Und("jacobian structure")
    r, q = [arr(c, I, t, "jacobian structure") for t in s]
    c.eq_poly(r.size, v.size, "number of rows and of values")
    c.eq_poly(q.size, v.size, "number of columns and of values")
    t = Triplet(flat(v), flat(r), flat(q))
    t.check()
    t.bounds(c, z.num_con(), z.n, "stacked jacobian")
    rr, cc = opaque_index(z.num_con(), "_row"), opaque_index(z.n, "_col")
    off, blocks = ZERO, []
    for b in z.cons:
        w = Triplet(Arr(b.jr.shape, lambda ix, b=b: fn_term("jac" + b.tag, ix, kx)), Arr(b.jr.shape, lambda ix, b=b, o=off: b.jr.get(ix) + o), b.jq)
        blocks.append(w.entry(rr, cc))
        off = off + b.m
    c.eq_poly(t.entry(rr, cc), sum(blocks, ZERO), "stacked jacobian entry (_row, _col)")


def hess_want(z, lam):
    """List of (values, rows, columns) of every block in order."""
    kx = akey(z.x)
    out, off = [], ZERO
    for b in z.cons:
        kl = akey(Arr((b.m,), lambda ix, o=off: lam.get((ix[0] + o,))))
        out.append((Arr(b.hr.shape, lambda ix, b=b, kl=kl: fn_term("hess" + b.tag, ix, kx, kl)), b.hr, b.hq))
        off = off + b.m
    for b in z.objs:
        out.append((Arr(b.hr.shape, lambda ix, b=b: fn_term("ohess" + b.tag, ix, kx) * z.sigma), b.hr, b.hq))
    return out


def ob_hess(c, z, first=True):
    """first: the values are asked for before the structure was."""
    I = z.I
    lam = base_array("lam", (z.num_con(),))
    args = (I.new_arr(z.x), I.new_arr(lam), z.sigma)
    if first:
        v = z.m_("hessian", *args)
        s = I.iter_items(z.m_("hessianstructure"))
    else:
        s = I.iter_items(z.m_("hessianstructure"))
        v = z.m_("hessian", *args)
    if s is None or len(s) != 2:
        raise Und("hessian structure")
    v, r, q = [arr(c, I, t, "hessian " + n) for t, n in ((v, "values"), (s[0], "rows"), (s[1], "columns"))]
    w = hess_want(z, lam)
    wv, wr, wq = [cat([t[k] for t in w]) for k in range(3)]
    meta = [getattr(t, "meta", None) or {} for t in (v, r, q)]
    masks = [m.get("masked") for m in meta]
    if all(masks):
        for (src, mask), want, n in zip(masks, (wv, wr, wq), ("values", "rows", "columns")):
            c.eq_arr(I, I.new_arr(src), want, "stacked hessian " + n + " before selection")
            lhs = arrays.sumover(mask.size, lambda e: ind(mask.get((e,))) * base_array("probe", (mask.size,)).get((e,)))
            ref = arrays.sumover(wr.size, lambda e: (1 - arrays.indicator(arrays.Cond("lt", wq.get((e,)) - wr.get((e,))))) * base_array("probe", (wr.size,)).get((e,)))
            c.eq_poly(lhs, ref, "selected (upper triangular) hessian " + n)
        return
    if any(masks):
        raise Und("selection of only some of values, rows and columns")
    c.eq_poly(r.size, v.size, "number of rows and of values")
    c.eq_poly(q.size, v.size, "number of columns and of values")
    t = Triplet(flat(v), flat(r), flat(q))
    t.check()
    a, b = opaque_index(z.n, "_row"), opaque_index(z.n, "_col")
    c.eq_poly(t.both(a, b), Triplet(wv, wr, wq).upper(a, b), "stacked hessian entry (_row, _col)")


def ob_obj(c, z):
    I = z.I
    kx = akey(z.x)
    if not z.objs:
        return
    c.eq_arr(I, z.m_("objective", I.new_arr(z.x)), sum((fn_term("obj" + b.tag, (), kx) for b in z.objs), ZERO), "total objective")
    c.eq_arr(I, z.m_("gradient", I.new_arr(z.x)), Arr((z.n,), lambda ix: sum((fn_term("grad" + b.tag, ix, kx) for b in z.objs), ZERO)), "total gradient")


def everything(c, z):
    ob_values(c, z)
    ob_jac(c, z)
    ob_hess(c, z)
    ob_hess(c, z, False)
    ob_obj(c, z)


def run(c):
    c.explain = ("abstract interpretation of CompositeProblem over constraint and objective blocks with uninterpreted functions, "
                 "symbolic sizes and arbitrary symbolic row/column structures (and dense ones); stacked values, rows and columns "
                 "are compared entry by entry with the specification, the triangular selection as an indicator function")
    shapes = [(3, 2), (1, 1)] + ([(2, 3), (3, 0), (4, 1)] if c.tier == "thorough" else [])
    for nc, no in shapes:
        b = lambda s, nc=nc, no=no: Ctx(s, nc, no)
        lab = f" [{nc} constraints, {no} objectives]"
        one = [dict(x=1)]
        c.sized("stacked constraint values", F + ".constraints" + lab, b, lambda z: ob_values(c, z), sizes=one)
        c.sized("stacked jacobian matches its structure", F + ".jacobian" + lab, b, lambda z: ob_jac(c, z), sizes=one)
        # a fresh problem: the values are asked for before any structure
        b2 = lambda s, nc=nc, no=no: Ctx(s, nc, no)
        c.sized("stacked hessian matches its structure", F + ".hessian, values first" + lab, b2, lambda z: ob_hess(c, z), sizes=one)
        b3 = lambda s, nc=nc, no=no: Ctx(s, nc, no)
        c.sized("stacked hessian matches its structure", F + ".hessian, structure first" + lab, b3, lambda z: ob_hess(c, z, False), sizes=one)
        c.sized("objective and gradient are sums", F + ".objective" + lab, b, lambda z: ob_obj(c, z), sizes=one)
