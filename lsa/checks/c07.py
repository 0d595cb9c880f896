"""C07: continuity constraints, jacobian, hessian and structures agree, fully symbolically."""
from ..checklib import *
from ..harness import Ocp, arr_of
from ..arrays import base_array, enum_cases
from ..alg import ZERO, ONE, index, psum, dim, sym
from .. import arrays


def constraint(o, name):
    """The constraint object registered under a name (whatever the private attribute is called)."""
    I = o.I
    hits = []
    for k, v in sorted(I.rec(o.ocp).attrs.items(), key=lambda kv: (kv[0] != "_constraints", str(kv[0]))):
        if isinstance(v, Ref) and I.rec(v).kind == "dict":
            for e in I.rec(v).entries:
                if not isinstance(e, KV) and e[0] == name and isinstance(e[1], Ref) and I.rec(e[1]).kind == "obj":
                    hits.append(e[1])
    return hits[0] if hits else None


def spec_con(o):
    """[i, l, k] -> sum_j A[l,j] x[state(stage, k)] - length_i * sum_j B[l,j] x[state_dot(stage, k)]."""
    K = o.K
    x = base_array("x", (o.ndec,))

    def length(i):
        d = o.points_arr.get((i + 1,)) - o.points_arr.get((i,))
        s = x.get((o.ndec - 1,)) if o.kind == "scaled" else o.scale
        return d * s

    def get(ix):
        i, l, k = ix
        a = arrays.sumover(K, lambda j: o.A.get((l, j)) * x.get((o.pos("states", i * (K - 1) + j, k),)))
        b = arrays.sumover(K, lambda j: o.B.get((l, j)) * x.get((o.pos("states_dot", i * (K - 1) + j, k),)))
        return a - length(i) * b
    return Arr((o.N, K - 1, o.D.ns), get)


def hessian_spec(o, con, lam, a, b):
    """Second derivative of sum_r lam_r con_r with respect to positions a, b."""
    K, ns = o.K, o.D.ns
    tot = ZERO
    d = lambda i, l, k: deriv(deriv(con.get((i, l, k)), a), b)
    return arrays.sumover(o.N, lambda i: arrays.sumover(K - 1, lambda l: arrays.sumover(
        ns, lambda k: lam.get(((i * (K - 1) + l) * ns + k,)) * d(i, l, k))))


def pair(I, v):
    items = I.iter_items(v) if not isinstance(v, Unknown) else None
    if items is None or len(items) != 2:
        raise Und(f"structure {v!r}"[:200])
    return [x for x in items]


def triplet(c, I, vals, struct, what):
    out = []
    for n, v in zip(("values", "rows", "columns"), [vals] + pair(I, struct)):
        a = arr_of(I, v)
        if a is None:
            raise c.nonarr(I, v, f"{what} {n}")
        out.append(a)
    for n, a in zip(("rows", "columns"), out[1:]):
        c.eq_poly(a.size, out[0].size, f"{what}: number of {n} and of values")
    return [flat(a) for a in out]


def label(I, ocp_cls):
    q = ocp_cls.qual
    return q.rsplit(".", 1)[0].replace(".", "/") + ".py:" + q.rsplit(".", 1)[1]


class Ctx:
    """Continuity constraint of one problem context with its specification."""

    def __init__(self, sizes, kind, lgr, mesh):
        if sizes and not lgr:
            sizes = dict(sizes, K=2)
        self.o = o = Ocp(kind, lgr=lgr, mesh=mesh, sizes=sizes)
        self.I = I = o.I
        self.con = constraint(o, "continuity")
        if self.con is None:
            raise Und("continuity constraint not found")
        self.x = o.x()
        self.spec = spec_con(o)
        self.lam_a = base_array("lam", (o.N * (o.K - 1) * o.D.ns,))
        self.lam = I.new_arr(self.lam_a)

    def m(self, name, *a):
        return call(self.I, self.I.getattr(self.con, name), *a)


def run(c):
    c.explain = ("abstract interpretation with symbolic sizes (intervals N, stages per interval K, states, inputs, "
                 "constraint outputs all free) of the construction of the problem and of its continuity constraint, "
                 "jacobian, hessian and structure functions; the normal form of every reported entry (row, column) is "
                 "compared with the normal form of the formal derivative of the specified constraint")
    c.assumptions = ["numpy indexing/einsum/ravel semantics as modelled in lsa/builtin_fns.py", "transcription matrices are free symbols of shape (K-1, K)"]

    def ob_con(z):
        got = z.m("constraints", z.x)
        want = arrays.reshape(z.spec, (z.spec.size,))
        c.eq_arr(z.I, got, want, "continuity constraints")
        n = z.I.getattr(z.con, "num_con")
        c.eq_poly(z.I.as_num(n) if not isinstance(n, Unknown) else n, z.spec.size, "number of continuity constraints")

    def ob_jac(z):
        o, I, spec = z.o, z.I, z.spec
        v, r, q = triplet(c, I, z.m("jacobian", z.x), z.m("jacobianstructure"), "continuity jacobian")
        t = Triplet(v, r, q)
        t.check()
        t.bounds(c, spec.size, o.ndec, "continuity jacobian")
        col = opaque_index(o.ndec, "_col")
        got = Arr(spec.shape, lambda ix: t.entry((ix[0] * (o.K - 1) + ix[1]) * o.D.ns + ix[2], col))
        want = Arr(spec.shape, lambda ix: deriv(spec.get(ix), col))
        c.eq_arr(I, I.new_arr(got), want, "jacobian entry (row of interval, equation, state; column _col)")

    def ob_hess(z):
        o = z.o
        v, r, q = triplet(c, z.I, z.m("hessian", z.x, z.lam), z.m("hessianstructure"), "continuity hessian")
        t = Triplet(v, r, q)
        t.check()
        t.bounds(c, o.ndec, o.ndec, "continuity hessian")
        c.eq_sym(t, lambda a, b: hessian_spec(o, z.spec, z.lam_a, a, b), o.ndec, "hessian entry")

    cfgs = [("scaled", True, "points"), ("fixed", True, "points"), ("scaled", False, "points"), ("fixed", False, "points"),
            ("scaled", True, None)]
    files = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}
    for kind, lgr, mesh in cfgs:
        build = lambda s, a=(kind, lgr, mesh): Ctx(s, *a)
        base = files[kind] + f" [{kind} mesh, {'LGR' if lgr else 'quadrature'}, {'given' if mesh else 'uniform'} points]"
        c.sized("constraint = A x - length B xdot", base, build, ob_con)
        c.sized("jacobian = derivative at matching positions", base, build, ob_jac)
        c.sized("hessian = second derivative at matching positions", base, build, ob_hess)
