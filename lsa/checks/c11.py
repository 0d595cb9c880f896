"""C11: model equations keep one order: implicit residuals, structures, per-stage stacking."""
from ..checklib import *
from ..harness import Ocp, new_interp, names, name_str, fn_key, fn_term, arr_of, Dims
from ..arrays import base_array, concat, akey
from ..alg import ZERO, ONE, dim, index, sym
from .. import arrays
from .c07 import constraint, triplet

BASE = "lumos.models.base"
M = "lumos/models/base.py:StateSpaceModel"
G = ("states", "inputs", "states_dot", "con_outputs")


class Model:
    """An arbitrary state space model: forward is an uninterpreted function of its named arguments.

    Outputs are given in an order of their own: the constraint outputs and residuals are among
    the outputs, and what forward returns lists the names backwards."""

    def __init__(self, sizes):
        self.I = I = new_interp()
        for m in ("lumos.optimal_control.utils", BASE, "lumos.optimal_control.nlp"):
            I.load(m)
        s = sizes
        if sizes.get("named"):
            st, inp, out, con, res = sizes["named"]
        else:
            st, inp = ("x", "v", "xx")[:s["ns"]], ("u", "x", "w")[:s["nu"]]
            out = ("a", "b", "c", "d", "x")
            con, res = ("d", "a", "x")[:s["nc"]], ("b", "c")[:s["nr"]]
        self.names = dict(states=st, inputs=inp, states_dot=st, con_outputs=con, residuals=res, outputs=out)
        self.ns, self.nu, self.nc, self.nr, self.no = (len(x) for x in (st, inp, con, res, out))
        self.n = 2 * self.ns + self.nu + self.nc
        self.nres = self.ns + self.nc + self.nr
        self.cls = I.mod_get(BASE, "StateSpaceModel")
        nm = I.call(I.mod_get(BASE, "StateSpaceIO"), [], {g: Tup(list(v)) for g, v in self.names.items()})
        self.params = Stub("params", attrs={})
        self.model = I.alloc(ObjR(self.cls, {"names": nm, "_submodels": I.new_dict([]), "_params": self.params}))
        pre = BASE + ".StateSpaceModel."
        I.overrides[pre + "forward"] = Native("forward", self.forward)
        self.current = self.params
        get = Native("get_recursive_params", lambda i, a, k: self.current)

        def set_(i, a, k):
            self.current = (list(a) + list(k.values()))[-1]
        for c in ("lumos.models.composition.CompositeModel", "lumos.models.base.Model"):
            I.overrides[c + ".get_recursive_params"] = get
            I.overrides[c + ".set_recursive_params"] = Native("set_recursive_params", set_)
        self.calls = []

    def forward(self, I, a, k):
        b = dict(zip(("states", "inputs", "mesh"), [x for x in a if x != self.model]))
        b.update({str(x): y for x, y in k.items()})
        vals = {g: self.by_name(b.get(g), g) for g in ("states", "inputs")}
        self.calls.append((b, self.current))
        key = tuple(vals["states"]) + tuple(vals["inputs"]) + (I.as_num(b.get("mesh")),)
        self.key = key
        t = lambda pre, n: fn_term(pre + n, (), *key, vkey(self.current))
        ret = I.mod_get(BASE, "StateSpaceModelReturn")
        return I.call(ret, [], {
            "states_dot": I.new_dict([(n, t("sdot_", n)) for n in reversed(self.names["states"])]),
            "outputs": I.new_dict([(n, t("out_", n)) for n in reversed(self.names["outputs"])])})

    def by_name(self, d, g):
        out = []
        for n in self.names[g]:
            v = self.I.getitem(d, n)
            p = self.I.as_num(v)
            if p is None:
                raise Und(f"{g} {n} of forward: {v!r}"[:200])
            out.append(p)
        return out

    def call(self, name, *a, **k):
        return call(self.I, self.I.getattr(self.model, name), *a, **k)

    def term(self, pre, n, flat_, mesh, params):
        key = tuple(flat_.get((P(i),)) for i in range(self.ns + self.nu)) + (mesh,)
        return fn_term(pre + n, (), *key, vkey(params))


def ob_implicit(c, z):
    """Flat input: states, inputs, states_dot, con_outputs; result: derivative, output, residual equations."""
    I = z.I
    x, mesh, params = base_array("v", (P(z.n),)), sym("mesh"), Stub("given_params", attrs={})
    t = lambda pre, n: z.term(pre, n, x, mesh, params)
    want = [t("sdot_", n) - x.get((P(z.ns + z.nu + i),)) for i, n in enumerate(z.names["states"])]
    want += [t("out_", n) - x.get((P(2 * z.ns + z.nu + i),)) for i, n in enumerate(z.names["con_outputs"])]
    want += [t("out_", n) for n in z.names["residuals"]]
    got = z.call("_apply_and_flat_implicit", I.new_arr(x), mesh, params)
    c.eq_arr(I, got, Arr((P(z.nres),), lambda ix: want[int(ix[0].const())]), "model equations")
    c.eq_poly(I.as_num(I.getattr(z.model, "num_implicit_res")), P(z.nres), "number of model equations")
    c.eq_poly(I.as_num(I.getattr(z.model, "num_implicit_var")), P(z.n), "number of variables of the model equations")


def ob_implicit_arrays(c, z):
    I = z.I
    x, mesh = base_array("v", (P(z.n),)), sym("mesh")
    off = dict(zip(G, (0, z.ns, z.ns + z.nu, 2 * z.ns + z.nu)))
    part = lambda g: I.new_arr(Arr((P(len(z.names[g])),), lambda ix, g=g: x.get((off[g] + ix[0],))))
    t = lambda pre, n: z.term(pre, n, x, mesh, z.params)
    want = [t("sdot_", n) - x.get((P(z.ns + z.nu + i),)) for i, n in enumerate(z.names["states"])]
    want += [t("out_", n) - x.get((P(2 * z.ns + z.nu + i),)) for i, n in enumerate(z.names["con_outputs"])]
    want += [t("out_", n) for n in z.names["residuals"]]
    got = z.call("implicit", **{g: part(g) for g in reversed(G)}, mesh=mesh)
    c.eq_arr(I, got, Arr((P(z.nres),), lambda ix: want[int(ix[0].const())]), "implicit")


def ob_forward(c, z):
    """Array results of the model list the variables in the order of the names."""
    I = z.I
    x, mesh, params = base_array("v", (P(z.n),)), sym("mesh"), Stub("given_params", attrs={})
    s = I.new_arr(Arr((P(z.ns),), lambda ix: x.get(ix)))
    u = I.new_arr(Arr((P(z.nu),), lambda ix: x.get((z.ns + ix[0],))))
    r = z.call("apply_and_forward_with_arrays", s, u, mesh, params)
    for g, pre in (("states_dot", "sdot_"), ("outputs", "out_"), ("con_outputs", "out_"), ("residuals", "out_")):
        ns = z.names[g]
        want = [z.term(pre, n, x, mesh, params) for n in ns]
        c.eq_arr(I, I.getattr(r, g), Arr((P(len(ns)),), lambda ix: want[int(ix[0].const())]), f"array of {g}")


def ob_index(c, z):
    I = z.I
    k = 0
    for g in G:
        ind = [k + i for i in range(len(z.names[g]))]
        for n, i in zip(z.names[g], ind):
            c.eq_poly(I.as_num(z.call("get_var_index_in_flat", g, n)), P(i), f"position of {g}.{n} in the flat input")
            c.eq_poly(I.as_num(z.call("get_var_index", g, n)), P(i - k), f"position of {g}.{n} in its group")
        if ind:
            c.eq_arr(I, z.call("get_group_indices_in_flat", g), Arr((P(len(ind)),), lambda ix: P(ind[int(ix[0].const())])), f"positions of {g}")
        k += len(ind)


def pairs(c, I, v, what):
    from .c07 import pair
    out = []
    for q in pair(I, v):
        a = arr_of(I, q)
        if a is None or a.ndim != 1 or a.shape[0].const() is None:
            raise c.nonarr(I, q, what)
        out.append([topoly(a.get((P(i),)), what).const() for i in range(int(a.shape[0].const()))])
    if len(out[0]) != len(out[1]):
        raise Bad(f"{what}: {len(out[0])} rows for {len(out[1])} columns")
    if None in out[0] + out[1]:
        raise Und(what)
    c.comparisons += len(out[0])
    return [(int(a), int(b)) for a, b in zip(*out)]


def covered(st, need, shape, what):
    if len(set(st)) != len(st):
        d = [e for e in st if st.count(e) > 1][0]
        raise Bad(f"{what} lists entry {d} more than once: its value is counted as often")
    for e in need:
        if e not in st:
            raise Bad(f"{what} lacks entry {e}, which need not be zero")
    for a, b in st:
        if not (0 <= a < shape[0] and 0 <= b < shape[1]):
            raise Bad(f"{what} has entry {(a, b)} outside a matrix of size {shape}")


def ob_jacstruct(c, z):
    """Every entry of the jacobian that need not be zero is listed exactly once."""
    st = pairs(c, z.I, z.call("_model_algebra_jacobianstructure"), "jacobian structure")
    need = [(r, k) for r in range(z.nres) for k in range(z.ns + z.nu)]
    need += [(i, z.ns + z.nu + i) for i in range(z.ns)] + [(z.ns + i, 2 * z.ns + z.nu + i) for i in range(z.nc)]
    covered(st, need, (z.nres, z.n), "jacobian structure")


def ob_hessstruct(c, z):
    st = pairs(c, z.I, z.call("_model_algebra_hessianstructure"), "hessian structure")
    covered(st, [(r, k) for r in range(z.ns + z.nu) for k in range(z.ns + z.nu)], (z.n, z.n), "hessian structure")


def ob_vectors(c, z):
    """Vectors made from names and numbers of variables."""
    I = z.I
    for g, names_ in z.names.items():
        vals = {n: sym(f"val_{g}_{n}") for n in names_}
        got = z.call("make_vector", g, **{n: vals[n] for n in reversed(names_)})
        if names_:
            c.eq_arr(I, got, Arr((P(len(names_)),), lambda ix: vals[names_[int(ix[0].const())]]), f"vector of {g}")
        c.eq_poly(I.as_num(z.call("get_num_vars", g)), P(len(names_)), f"number of {g}")


# ------------------------------------------------------------------ stacking over the stages
class Stack:
    def __init__(self, sizes, kind="scaled", backend="jax", cyclic=False, lgr=True):
        sizes = dict(sizes or {})
        if sizes and not lgr:
            sizes["K"] = 2
        self.o = o = Ocp(kind, sizes=sizes, backend=backend, lgr=lgr, lazy=True, cyclic=cyclic)
        self.I = I = o.I
        self.flatpar = base_array("flat_params", (dim("np"),))
        o.params.attrs["tree_ravel"] = Native("tree_ravel", lambda i, a, k: Tup([i.new_arr(self.flatpar), Native("unravel", lambda j, b, l: o.params)]))
        kw = dict(model=o.model, sim_config=o.cfg)
        if kind == "fixed":
            kw["mesh_scale"] = o.scale
        o.ocp = call(I, o.cls, **kw)
        self.con = constraint(o, "model_algebra")
        if self.con is None:
            raise Und("no model_algebra constraint")
        self.par = vkey(o.params) if backend == "jax" else fn_key(I, I.new_arr(self.flatpar))
        self.xa = base_array("x", (o.ndec,))

    def x(self):
        return self.I.new_arr(self.xa)

    def m(self, name, *a):
        return call(self.I, self.I.getattr(self.con, name), *a)

    def mesh(self, s):
        o = self.o
        sc = self.xa.get((o.ndec - 1,)) if o.kind == "scaled" else o.scale
        return self.norm.get((s,)) * sc

    def flatmesh(self):
        self.norm = arr_of(self.I, self.I.getattr(self.o.ocp, "_flat_normalized_mesh"))
        if self.norm is None:
            raise Und("mesh")

    def row(self, s):
        o = self.o
        return akey(Arr((o.nv,), lambda j: self.xa.get((s * o.nv + j[0],))))

    def unit(self, kind, s, k, lam=None):
        args = [self.row(s)] + ([lam] if lam is not None else []) + [self.mesh(s)]
        return P(Atom("app", "unit_" + kind, (P(k),), *args, self.par))


def ob_stack_con(c, z):
    o = z.o
    z.flatmesh()
    want = Arr((o.S, o.nres), lambda ix: z.unit("con", ix[0], ix[1]))
    c.eq_arr(z.I, z.m("constraints", z.x()), arrays.reshape(want, (o.S * o.nres,)), "stacked model equations")
    c.eq_poly(z.I.as_num(z.I.getattr(z.con, "num_con")), o.S * o.nres, "number of stacked model equations")


def block(c, z, name, size, want, rows, cols, struct, *a):
    I, o = z.I, z.o
    c.eq_arr(I, z.m(name, *a), arrays.reshape(Arr((o.S, size), want), (o.S * size,)), f"stacked {name} values")
    from .c07 import pair
    for v, base, step, w in zip(pair(I, z.m(struct)), rows_cols(z, name), (o.nres if name == "jacobian" else o.nv, o.nv), ("rows", "columns")):
        c.eq_arr(I, v, arrays.reshape(Arr((o.S, size), lambda ix: base.get((ix[1],)) + ix[0] * step), (o.S * size,)), f"stacked {name} {w}")


def rows_cols(z, name):
    o = z.o
    return (o.jrows, o.jcols) if name == "jacobian" else (o.hrows, o.hcols)


def ob_stack_jac(c, z):
    z.flatmesh()
    block(c, z, "jacobian", z.o.nz, lambda ix: z.unit("jac", ix[0], ix[1]), None, None, "jacobianstructure", z.x())


def ob_stack_hess(c, z):
    z.flatmesh()
    o = z.o
    lam = base_array("lam", (o.S * o.nres,))
    lrow = lambda s: akey(Arr((o.nres,), lambda j: lam.get((s * o.nres + j[0],))))
    block(c, z, "hessian", o.hz, lambda ix: z.unit("hess", ix[0], ix[1], lrow(ix[0])), None, None, "hessianstructure", z.x(), z.I.new_arr(lam))


def run(c):
    c.explain = ("abstract interpretation of the model's residual assembly, index helpers and structures for an arbitrary (uninterpreted) "
                 "forward function with returns in a different order, and of the stacking of an uninterpreted unit problem over a symbolic "
                 "number of stages; every entry is compared with the specified order")
    c.assumptions = ["the sizes of the model part are enumerated (they only drive loops over names)"]
    sz = [dict(ns=2, nu=1, nc=1, nr=1), dict(ns=3, nu=2, nc=3, nr=2), dict(ns=1, nu=3, nc=0, nr=2), dict(ns=2, nu=2, nc=2, nr=0), dict(ns=1, nu=0, nc=0, nr=0)]
    if c.tier == "thorough":
        sz += [dict(ns=a, nu=b, nc=e, nr=f) for a in (1, 3) for b in (0, 2) for e in (0, 1, 3) for f in (0, 1, 2)]
    for s in sz:
        lab = f" [{s['ns']} states, {s['nu']} inputs, {s['nc']} constraint outputs, {s['nr']} residuals]"

        def ob(rule, con, fn):
            def go():
                z = Model(s)
                c._interps[id(z.I)] = z.I
                return fn(c, z)
            c.ob(rule, con + lab, go)
        ob("order of the model equations and of the flat input", M + "._apply_and_flat_implicit", ob_implicit)
        ob("order of the model equations from arrays", M + ".implicit", ob_implicit_arrays)
        ob("arrays follow the order of the names", M + ".forward_with_arrays", ob_forward)
        ob("positions in the flat input", M + ".get_var_index_in_flat", ob_index)
        ob("jacobian structure covers each entry once", M + "._model_algebra_jacobianstructure", ob_jacstruct)
        ob("hessian structure covers each entry once", M + "._model_algebra_hessianstructure", ob_hessstruct)
        ob("vectors by name", "lumos/models/base.py:Model.make_vector", ob_vectors)
    S = "lumos/optimal_control/convolution.py:ConvConstraints"
    kinds = [("scaled", "jax", False, True), ("fixed", "jax", True, True), ("scaled", "casadi", True, True), ("fixed", "casadi", False, False)]
    for a in kinds:
        b = lambda s, a=a: Stack(s, *a)
        lab = f"{S} [{a[0]}, {a[1]}{', cyclic' if a[2] else ''}, {'LGR' if a[3] else 'quadrature'}]"
        c.sized("stage equations at the stage's rows, from the stage's variables and mesh", lab, b, lambda z: ob_stack_con(c, z))
        c.sized("stage jacobian at the stage's rows and columns", lab, b, lambda z: ob_stack_jac(c, z))
        c.sized("stage hessian at the stage's rows and columns", lab, b, lambda z: ob_stack_hess(c, z))
