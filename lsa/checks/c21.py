"""C21: one calling convention for mapped evaluations; sparse values in the order of their structure."""
from ..checklib import *
from ..arrays import base_array, akey
from ..alg import sym, ZERO, ONE, subst
from ..interp import Dead
from ..values import Native, Tup, Ref, Ext, ClassV, Stub, Unknown, vkey
from ..harness import arr_of, new_interp, fn_term
from ..models import Lib, BASE
from .. import arrays, alg, jaxfn

NLP = "lumos.optimal_control.nlp"
UT = "lumos.numpy.utils"
FN = "lumos/optimal_control/nlp.py"
FU = "lumos/numpy/utils.py"
FB = "lumos/models/base.py:StateSpaceModel"
ROLES = {"constraints": ("x", "mesh", "params"), "jacobian": ("x", "mesh", "params"), "hessian": ("x", "mult", "mesh", "params")}
NAMES = {"constraints": "con", "jacobian": "jac", "hessian": "hess"}


def lit(I, v):
    return I.new_arr(arrays.stack([Arr((), lambda ix, k=k: P(k)) for k in v]))


def data(S, **sizes):
    """Arrays of one row per stage, by role."""
    return {n: base_array("in_" + n, (P(S),) + ((P(k),) if k else ())) for n, k in sizes.items()}


def row(a, s):
    if a.ndim == 1:
        return arrays.topoly(a.get((P(s),)))
    return Arr(a.shape[1:], lambda ix: a.get((P(s),) + tuple(ix)))


def key(v):
    if isinstance(v, Arr):
        return akey(v) if v.ndim else arrays.topoly(v.get(()))
    return v


# ------------------------------------------------------------------ unit functions given as text
UNIT = '''
import lumos.numpy as lnp
from lumos.optimal_control.nlp import JaxMappedConstraints, MappedConstraints, CasMappedConstraints
from lumos.numpy import cmap, lmap

seen = []

def con(x, mesh, params):
    seen.append(lnp.get_backend())
    return lnp.array([x[0] * x[1] * mesh + params["a"] * x[2], x[2] * x[2] * x[0] * params["b"] + mesh * mesh])
'''


class Unit:
    def __init__(self, c, structure):
        self.I = I = new_interp()
        c._interps[id(I)] = I
        I.check = c
        jaxfn.install(I)
        I.load(NLP)
        I.load_text("unit_client", UNIT)
        if not isinstance(I.mod_get(NLP, "JaxMappedConstraints"), ClassV):
            raise Gone("JaxMappedConstraints")
        self.js, self.hs = ([1, 0, 1, 0, 0], [0, 1, 2, 2, 0]), ([2, 0, 1, 2, 0], [0, 2, 0, 2, 1])
        kw = dict(num_in=P(3), num_con=P(2), constraints=I.mod_get("unit_client", "con"))
        if structure:
            kw["jacobian_structure"] = Tup([lit(I, v) for v in self.js])
            kw["hessian_structure"] = Tup([lit(I, v) for v in self.hs])
        self.obj = call(I, I.mod_get(NLP, "JaxMappedConstraints"), **kw)
        self.structure = structure
        self.d = data(2, x=3, mult=2, mesh=0)
        self.par = {"a": sym("par_a"), "b": sym("par_b")}

    def params(self, tag=""):
        I = self.I
        return I.new_dict([(n, sym(f"par_{n}{tag}")) for n in ("a", "b")])

    def evaluate(self, what, tag=""):
        I = self.I
        f = I.getattr(self.obj, "mapped_" + what)
        args = [self.params(tag) if r == "params" else I.new_arr(self.d[r]) for r in ROLES[what]]
        return I.call(f, args, {})

    def spec(self, what, tag=""):
        """Array of all stages."""
        x, m, l = self.d["x"], self.d["mesh"], self.d["mult"]
        a, b = sym("par_a" + tag), sym("par_b" + tag)
        X = lambda s: [arrays.topoly(x.get((s, P(k)))) for k in range(3)]
        M = lambda s: arrays.topoly(m.get((s,)))

        def con(s):
            p, q, r = X(s)
            return [p * q * M(s) + a * r, r * r * p * b + M(s) * M(s)]

        def jac(s):
            p, q, r = X(s)
            return [[q * M(s), p * M(s), a], [r * r * b, ZERO, r * p * b * 2]]

        def hess(s):
            p, q, r = X(s)
            l0, l1 = [arrays.topoly(l.get((s, P(k)))) for k in range(2)]
            return [[ZERO, l0 * M(s), l1 * r * b * 2], [l0 * M(s), ZERO, ZERO], [l1 * r * b * 2, ZERO, l1 * p * b * 2]]
        if what == "constraints":
            rows = [con(P(s)) for s in range(2)]
            return stack2(rows)
        full = [(jac if what == "jacobian" else hess)(P(s)) for s in range(2)]
        if self.structure:
            r, q = self.js if what == "jacobian" else self.hs
            return stack2([[f[i][j] for i, j in zip(r, q)] for f in full])
        return arrays.stack([stack2(f) for f in full])


def stack2(rows):
    return arrays.stack([arrays.stack([Arr((), lambda ix, v=v: P(v)) for v in r]) for r in rows])


def rejected(I, v, what):
    if isinstance(v, Unknown) and "rejected by jax" in str(v.reason):
        raise Bad(f"{what}: {v.reason}")


def ob_unit(c, structure, what):
    z = Unit(c, structure)
    got = z.evaluate(what)
    rejected(z.I, got, what)
    c.eq_arr(z.I, got, z.spec(what), f"mapped {what}")


def ob_backend(c):
    """The unit function is evaluated with the jax backend, which is left again."""
    z = Unit(c, True)
    I = z.I
    for what in ROLES:
        z.evaluate(what)
    seen = I.iter_items(I.mod_get("unit_client", "seen"))
    if not seen or any(not isinstance(s, str) for s in seen):
        raise Und("backends in force")
    c.count("comparisons")
    if set(seen) != {"jax"}:
        raise Bad(f"the unit function is evaluated with the backends {sorted(set(seen))}")
    now = call(I, I.mod_get("lumos.numpy", "get_backend"))
    if now != "numpy":
        raise Bad(f"the backend is {now!r} after the evaluations")


# ------------------------------------------------------------------ plain mapped and casadi mapped constraints
class External:
    """Stand-in of a compiled casadi function: uninterpreted outputs of its inputs, by role."""

    def __init__(self, name, roles, outs, nnz=None):
        self.name, self.roles, self.outs, self.nnz = name, roles, outs, nnz
        self.maps, self.rows = [], NIN if "mult" in roles else NCON
        self.stub = Stub(name, attrs={"map": Native(name + ".map", self.map), "name": Native("name", lambda i, a, k: name)}, call=lambda i, a, k: self.once(i, a, k))

    def term(self, e, vals):
        return fn_term(self.name, (e,), *vals)

    def column(self, I, v, s, batch):
        """Input of one evaluation: column s of a two-dimensional argument; casadi takes a vector as one row if that fits."""
        n = I.as_num(v)
        if n is not None:
            return n
        a = arr_of(I, v)
        if a is None:
            raise arrays.Undecidable(f"argument of {self.name}: {v!r}"[:150])
        if a.ndim == 1:
            if not arrays.same_dim(a.shape[0], P(batch)):
                raise Bad(f"{self.name} is mapped over {batch} stages but gets a vector of {a.shape[0]!r}")
            return arrays.topoly(a.get((P(s),)))
        if not arrays.same_dim(a.shape[1], P(batch)):
            raise Bad(f"{self.name} is mapped over {batch} stages but gets an argument of shape {a.shape}")
        return akey(Arr((a.shape[0],), lambda ix: a.get((ix[0], P(s)))))

    def map(self, I, a, k):
        n = I.as_num(a[0]) if a else None
        if n is None or n.const() is None:
            return I.unknown("number of evaluations of a casadi map")
        batch = int(n.const())
        self.maps.append(batch)

        def run(i, args, kw):
            if len(args) != len(self.roles) or kw:
                raise Bad(f"{self.name} takes {len(self.roles)} arguments but gets {len(args)}")
            vals = [[self.column(i, v, s, batch) for v in args] for s in range(batch)]

            def out(name, size):
                return i.new_arr(Arr((P(size), P(batch)), lambda ix: pick(ix[1], batch, lambda s: fn_term(f"{self.name}.{name}", (ix[0],), *vals[s]))))
            if self.nnz is not None:
                e = self.nnz
                flat = lambda ix: pick(ix[0], batch * e, lambda m: fn_term(self.name, (P(m % e),), *vals[m // e]))
                dense = Arr((P(self.rows), P(batch * NIN)), lambda ix: sym("an entry of the dense matrix"))
                return Stub("sparse matrix", attrs={"__array__": dense}, methods={"nnz": lambda i2, a2, k2: P(batch * e),
                                                      "nonzeros": lambda i2, a2, k2: i2.new_arr(Arr((P(batch * e),), flat))})
            r = [out(n, s) for n, s in self.outs]
            return r[0] if len(r) == 1 else Tup(r)
        return Native(self.name + " mapped", run)

    def once(self, I, args, kw):
        if len(args) != len(self.roles) or kw:
            raise Bad(f"{self.name} takes {len(self.roles)} arguments but gets {len(args)}")
        vals = []
        for v in args:
            n = I.as_num(v)
            a = arr_of(I, v)
            if n is None and a is None:
                raise arrays.Undecidable(f"argument of {self.name}: {v!r}"[:150])
            vals.append(n if n is not None else akey(a))
        if self.nnz is not None:
            return Stub("sparse matrix", methods={"nnz": lambda i, a, k: P(self.nnz), "nonzeros": lambda i, a, k: i.new_arr(Arr((P(self.nnz),), lambda ix: fn_term(self.name, (ix[0],), *vals)))})
        return I.new_arr(Arr((P(self.outs[0][1]),), lambda ix: fn_term(f"{self.name}.{self.outs[0][0]}", (ix[0],), *vals)))


def pick(k, n, f):
    """f(k) for an index below n, which may be symbolic."""
    q = P(k).const()
    if q is not None:
        return f(int(q))
    return sum((alg.delta(P(k) - m) * f(m) for m in range(n)), ZERO)


NIN, NCON, NNZ = 3, 2, {"jacobian": 4, "hessian": 5}


class Mapped:
    """A mapped constraint object over stand-in unit functions."""

    def __init__(self, c, cls):
        self.I = I = new_interp()
        c._interps[id(I)] = I
        I.check = c
        jaxfn.install(I)
        I.load(NLP)
        k = I.mod_get(NLP, cls)
        if not isinstance(k, ClassV):
            raise Gone(cls)
        self.cas = cls.startswith("Cas")
        st = lambda n, r, q: Tup([base(I, n, f, u) for f, u in (("r", r), ("q", q))])

        def base(I, n, f, u):
            return I.new_arr(base_array(f"{f}_{n}", (P(NNZ[n]),), up=P(u), integer=True))
        fs = {n: self.unit(n) for n in ROLES}
        self.obj = call(I, k, num_in=P(NIN), num_con=P(NCON), constraints=fs["constraints"], jacobian=fs["jacobian"], hessian=fs["hessian"],
                        jacobian_structure=st("jacobian", NCON, NIN), hessian_structure=st("hessian", NIN, NIN))

    def unit(self, n):
        if self.cas:
            return External("unit_" + n, ROLES[n], [("out", NCON)], NNZ.get(n)).stub

        def run(I, a, k):
            if len(a) != len(ROLES[n]) or k:
                raise Bad(f"the {n} function takes {len(ROLES[n])} arguments but gets {len(a)}")
            vals = []
            for v in a:
                q, ar = I.as_num(v), arr_of(I, v)
                vals.append(q if q is not None else akey(ar) if ar is not None else vkey(v))
            return I.new_arr(Arr((P(NNZ.get(n, NCON)),), lambda ix: fn_term("unit_" + n + ("" if n in NNZ else ".out"), (ix[0],), *vals)))
        return Native(n, run)

    def evaluate(self, c, what, S, params):
        I = self.I
        d = data(S, x=NIN, mult=NCON, mesh=0)
        par = base_array(params, (P(2),))
        args = [I.new_arr(par) if r == "params" else I.new_arr(d[r]) for r in ROLES[what]]
        got = I.call(I.getattr(self.obj, "mapped_" + what), args, {})

        def val(s):
            return [akey(par) if r == "params" else key(row(d[r], s)) for r in ROLES[what]]
        n = NNZ.get(what, NCON)
        want = Arr((P(S), P(n)), lambda ix: pick(ix[0], S, lambda s: fn_term("unit_" + what + ("" if what in NNZ else ".out"), (ix[1],), *val(s))))
        c.eq_arr(I, got, want, f"mapped {what} over {S} stages")


def ob_mapped(c, cls, what):
    z = Mapped(c, cls)
    for S, p in ((3, "params_one"), (3, "params_two"), (2, "params_two"), (3, "params_one")):
        z.evaluate(c, what, S, p)


def ob_map(c, name, axes, outs):
    """lmap and cmap over every choice of mapped arguments."""
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    I.load(UT)
    mp = I.mod_get(UT, name)
    if mp is None or isinstance(mp, Unknown):
        raise Gone(name)
    if name == "cmap":
        ext = External("fn", tuple(range(len(axes))), [(str(k), 2 + k) for k in range(outs)])
        f = ext.stub
    else:
        def run(i, a, k):
            vals = []
            for v in a:
                q, ar = i.as_num(v), arr_of(i, v)
                vals.append(q if q is not None else akey(ar) if ar is not None else vkey(v))
            r = [i.new_arr(Arr((P(2 + o),), lambda ix, o=o: fn_term(f"fn.{o}", (ix[0],), *vals))) for o in range(outs)]
            return r[0] if outs == 1 else Tup(r)
        f = Native("fn", run)
    same_axes = all(x == 0 for x in axes)
    kw = {} if same_axes and outs > 1 else {"in_axes": I.new_list([ZERO if x == 0 else None for x in axes])}
    m = call(I, mp, f, **kw)
    for S in (3, 2, 3):
        ins = [base_array(f"arg{k}_{S}", (P(S), P(2 + k)) if x == 0 else (P(2 + k),)) for k, x in enumerate(axes)]
        got = I.call(m, [I.new_arr(a) for a in ins], {})
        parts = [got] if outs == 1 else I.iter_items(got)
        if parts is None or len(parts) != outs:
            raise c.nonarr(I, got, f"{name} with {outs} results")
        for o, g in enumerate(parts):
            want = Arr((P(S), P(2 + o)), lambda ix, o=o: pick(ix[0], S, lambda s: fn_term(f"fn.{o}", (ix[1],), *[akey(row(a, s)) if x == 0 else akey(a) for a, x in zip(ins, axes)])))
            c.eq_arr(I, g, want, f"result {o} of {name} over {S} rows")


# ------------------------------------------------------------------ models, for every backend
MODEL = '''
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io

unit_jac = None
unit_jac_structure = None
unit_hess = None
unit_hess_structure = None

@state_space_io(states=("a", "b"), inputs=("u", "v", "w", "z"), outputs=("y1", "y2", "y3"), con_outputs=("y3",), residuals=("y2",))
class Plant(StateSpaceModel):
    def forward(self, states, inputs, mesh):
        k = self._params["k"]
        outputs = self.make_dict("outputs", y3=states["b"] * states["a"] * inputs["v"], y1=k * inputs["u"], y2=inputs["w"] * inputs["w"] * inputs["z"] + mesh * k)
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", b=states["a"] * inputs["u"] * k, a=states["b"] + mesh * inputs["w"]), outputs=outputs)
    @classmethod
    def get_default_params(cls):
        return {"k": 2.0, "j": 3.0}

class Custom(Plant):
    def _implicit_jac(self, flat_vars, mesh, params):
        return unit_jac(flat_vars, mesh, params)
    def _implicit_jacobianstructure(self):
        return unit_jac_structure
    def _implicit_hess(self, flat_vars, mesh, params, mult):
        return unit_hess(flat_vars, mesh, params, mult)
    def _implicit_hessianstructure(self):
        return unit_hess_structure
'''
NX, NU, NC, NR = 2, 4, 1, 1
NV, NG = NX + NU + NX + NC, NX + NC + NR


def plant(v, s, k):
    """a', b', y3, y2 and all outputs at one stage; v: list of the flat variables."""
    a, b, u, w1, w2, z = v[:6]
    dot = [b + s * w2, a * u * k]
    y = [k * u, w2 * w2 * z + s * k, b * a * w1]
    return dot, y


def residuals(v, s, k):
    dot, y = plant(v, s, k)
    return [dot[0] - v[6], dot[1] - v[7], y[2] - v[8], y[1]]


class Model_:
    def __init__(self, c, backend, cls="Plant"):
        self.lib = Lib(c)
        self.I = I = self.lib.I
        jaxfn.install(I)
        self.backend = backend
        self.jac_rc, self.hess_rc = ([3, 0, 2, 1], [4, 6, 0, 2]), ([4, 1, 0], [4, 0, 2])
        I.load_text("plant_client", MODEL)
        env = I.mod_get("plant_client", cls)
        if not isinstance(env, ClassV):
            raise Und("client")
        self.m = call(I, env)
        self.setup(c)
        self.build()

    def build(self):
        I = self.I
        call(I, I.getattr(self.m, "make_model_algebra_cons"), self.backend)
        self.alg = I.getattr(self.m, "model_algebra")

    def setup(self, c):
        pass

    def tree(self, tag):
        """Another tree of parameters."""
        I = self.I
        PT = I.mod_get("lumos.models.tree_utils", "ParameterTree")
        return call(I, PT, data=I.new_dict([("k", sym("k" + tag)), ("j", sym("j" + tag))]))

    def args(self, what, S, tag):
        I = self.I
        d = data(S, x=NV, mult=NG, mesh=0)
        self.d = d
        return [self.params(tag) if r == "params" else I.new_arr(d[r]) for r in ROLES[what]]

    def params(self, tag):
        return self.tree(tag)


def flat(z, s):
    x, m = z.d["x"], z.d["mesh"]
    return [arrays.topoly(x.get((P(s), P(k)))) for k in range(NV)], arrays.topoly(m.get((P(s),)))


def structure(z, what):
    I = z.I
    s = I.iter_items(call(I, I.getattr(z.alg, what + "structure")))
    if s is None or len(s) != 2:
        raise Und("structure")
    out = []
    for v in s:
        a = arr_of(I, v)
        if a is None or a.size.const() is None:
            raise Und("structure")
        r = arrays.ravel(a)
        q = [arrays.topoly(r.get((P(k),))).const() for k in range(int(a.size.const()))]
        if any(x is None for x in q):
            raise Und("structure entries")
        out.append([int(x) for x in q])
    if len(out[0]) != len(out[1]):
        raise Bad(f"{what} structure with {len(out[0])} rows and {len(out[1])} columns")
    return out


def ob_jax(c, what, tags):
    """Values at (row, column) of the structure, for stages and parameters; and all derivatives that do not vanish are in the structure."""
    z = Model_(c, "jax")
    I = z.I
    for tag in tags:
        got = I.call(I.getattr(z.alg, "mapped_" + what), z.args(what, 2, tag), {})
        rejected(I, got, what)
        k = sym("k" + tag)
        if what == "constraints":
            want = stack2([residuals(*flat(z, s), k) for s in range(2)])
            c.eq_arr(I, got, want, "mapped constraints")
            continue
        rows, cols = structure(z, what)
        g = arr_of(I, got)
        if g is None:
            raise c.nonarr(I, got, f"mapped {what}")
        c.eq_shape(g.shape, (P(2), P(len(rows))), f"mapped {what}")
        for s in range(2):
            full = derivatives(z, what, s, k)
            total = {}
            for e, (r, q) in enumerate(zip(rows, cols)):
                total[r, q] = total.get((r, q), ZERO) + arrays.topoly(g.get((P(s), P(e))))
            for r in range(len(full)):
                for q in range(NV):
                    c.eq_poly(total.get((r, q), ZERO), full[r][q], f"{what} of stage {s} at ({r}, {q})")


def derivatives(z, what, s, k):
    v, m = flat(z, s)
    at = jaxfn.fresh(NV)
    res = residuals([P(a) for a in at], m, k)
    back = dict(zip(at, v))
    d = lambda p, a: jaxfn.derivative(p, a, set(at))
    if what == "jacobian":
        return [[subst(d(p, a), back) for a in at] for p in res]
    mu = [arrays.topoly(z.d["mult"].get((P(s), P(r)))) for r in range(NG)]
    L = sum((x * p for x, p in zip(mu, res)), ZERO)
    return [[subst(d(d(L, a), b), back) for b in at] for a in at]


def ob_forward(c, backend, tags, cls="Plant"):
    """The batched evaluation: rows of states, inputs and mesh; one tree of parameters."""
    z = Model_(c, backend, cls) if backend != "casadi" else CasModel(c)
    I = z.I
    for tag in tags:
        X, U, M = base_array("bs", (P(2), P(NX))), base_array("bu", (P(2), P(NU))), base_array("bm", (P(2),))
        got = call(I, I.getattr(z.m, "batched_forward"), I.new_arr(X), I.new_arr(U), I.new_arr(M), z.tree(tag))
        rejected(I, got, "batched_forward")
        if isinstance(got, Unknown):
            raise c.nonarr(I, got, "batched_forward")
        e = lambda a, s, n: [arrays.topoly(a.get((P(s), P(k)))) for k in range(n)]
        want = {g: [] for g in ("states_dot", "outputs", "con_outputs", "residuals")}
        for s in range(2):
            dot, y = plant(e(X, s, NX) + e(U, s, NU), arrays.topoly(M.get((P(s),))), sym("k" + tag))
            for g, v in (("states_dot", dot), ("outputs", y), ("con_outputs", [y[2]]), ("residuals", [y[1]])):
                want[g].append(v)
        for g, v in want.items():
            w = stack2(v) if backend != "casadi" else z.forward_spec(g, len(v[0]), X, U, M, tag)
            c.eq_arr(I, I.getattr(got, g), w, f"{g} of the batched evaluation" + (" with other parameters" if tag != tags[0] else ""))


class CustomModel(Model_):
    def setup(self, c):
        I = self.I
        for n, (rc, roles) in {"jac": (self.jac_rc, ("x", "mesh", "params")), "hess": (self.hess_rc, ("x", "mesh", "params", "mult"))}.items():
            def run(i, a, k, n=n, roles=roles, rc=rc):
                if len(a) != len(roles) or k:
                    return i.unknown("arguments of the derivative of the model")
                vals = dict(zip(roles, a))
                ks = []
                for r in ("x", "mult", "mesh", "params"):
                    if r not in vals:
                        continue
                    v = vals[r]
                    q, ar = i.as_num(v), arr_of(i, v)
                    ks.append(q if q is not None else akey(ar) if ar is not None else self.pkey(i, v))
                return i.new_arr(Arr((P(len(rc[0])),), lambda ix: fn_term("unit_" + n, (ix[0],), *ks)))
            I.overrides["plant_client.unit_" + n] = Native("unit_" + n, run)
            I.overrides[f"plant_client.unit_{n}_structure"] = Tup([lit(I, rc[0]), lit(I, rc[1])])

    def pkey(self, I, v):
        from .c14 import key_of
        return key_of(I, v) if isinstance(v, Ref) else vkey(v)


def ob_custom(c, what):
    z = CustomModel(c, "custom", "Custom")
    I = z.I
    got = I.call(I.getattr(z.alg, "mapped_" + what), z.args(what, 2, "_new"), {})
    if what == "constraints":
        c.eq_arr(I, got, stack2([residuals(*flat(z, s), sym("k_new")) for s in range(2)]), "mapped constraints")
        return
    n = {"jacobian": "jac", "hessian": "hess"}[what]
    rc = z.jac_rc if what == "jacobian" else z.hess_rc
    c.count("comparisons")
    if structure(z, what) != [list(rc[0]), list(rc[1])]:
        raise Bad(f"the {what} structure is not the one of the model")
    pk = z.pkey(I, z.tree("_new"))

    def val(s):
        return [{"x": lambda: akey(row(z.d["x"], s)), "mult": lambda: akey(row(z.d["mult"], s)), "mesh": lambda: row(z.d["mesh"], s), "params": lambda: pk}[r]() for r in ROLES[what]]
    want = Arr((P(2), P(len(rc[0]))), lambda ix: pick(ix[0], 2, lambda s: fn_term("unit_" + n, (ix[1],), *val(s))))
    c.eq_arr(I, got, want, f"mapped {what}: values of the model at each stage")


# ------------------------------------------------------------------ generated code
class Sy(Stub):
    """A symbolic casadi value: ev(env) is its value for given values of the symbols."""

    def __init__(self, name, ev, **at):
        super().__init__(name, attrs=at, isa=("casadi.MX",))
        self.ev = ev


class CasModel(Model_):
    SP = {"jac": ([0, 2, 1, 3, 0], [0, 0, 1, 2, 4]), "hess": ([0, 1, 0, 4], [0, 0, 1, 4]), "gradient": ([0, 1, 2], [0, 0, 0])}

    def __init__(self, c, cls="Plant"):
        self.functions = {}
        self.symbols = []
        self.problem = []
        Model_.__init__(self, c, "casadi", cls)

    def setup(self, c):
        I, m = self.I, self.m
        ov = I.overrides

        def free(name):
            def ev(env, s=[None]):
                raise Bad(f"the generated function uses the symbol {name}, which is not among its inputs")
            return ev

        def make(i, a, k):
            name = a[0] if a and isinstance(a[0], str) else "symbol"
            s = Sy(name, None)
            s.ev = lambda env: env[id(s)] if id(s) in env else free(name)(env)
            self.symbols.append(s)
            return s
        for t in ("MX", "SX"):
            ov["casadi." + t] = Stub(t, attrs={"sym": Native("sym", make)})
            ov[f"casadi.{t}.sym"] = Native("sym", make)
        ov["lumos.numpy.casadi_numpy.determine_type.is_casadi_type"] = Native("is_casadi_type", lambda i, a, k: True)

        def ev_of(v, env):
            if isinstance(v, Sy):
                return v.ev(env)
            raise Und(f"value in the generated code: {v!r}"[:150])

        def forward(i, a, k):
            b = dict(zip(("states", "inputs", "mesh"), a))
            b.update(k)
            b["params"] = self.current
            if not isinstance(b["params"], Sy):
                b["params"] = Sy("stored parameters", lambda env: sym("the values of the parameters when the code was generated"))
            ret = i.mod_get(BASE, "ArrayStateSpaceModelReturn")
            sy = {g: Sy("forward " + g, lambda env, g=g: ("forward", g, [ev_of(b[r], env) for r in ("states", "inputs", "mesh", "params")])) for g in ("states_dot", "outputs", "con_outputs", "residuals")}
            return call(i, ret, **sy)

        def implicit(i, a, k):
            b = dict(zip(("flat_vars", "mesh", "params"), a))
            b.update(k)
            return Sy("residuals", lambda env: ("implicit", "res", [ev_of(b[r], env) for r in ("flat_vars", "mesh", "params")]), wrt=b["flat_vars"])
        I.setattr(m, "forward_with_arrays", Native("forward_with_arrays", forward))
        I.setattr(m, "_apply_and_flat_implicit", Native("_apply_and_flat_implicit", implicit))
        n = P(2)
        flat = I.new_arr(base_array("own_params", (n,)))
        unravel = Native("unravel", lambda i, a, k: a[0])

        def ravel(tag):
            return Tup([I.new_arr(base_array("params" + tag, (n,))), unravel])
        self.ravel = ravel
        tree = Stub("own parameters", attrs={"tree_ravel": Native("tree_ravel", lambda i, a, k: ravel(" of the model")), "to_dict": Native("to_dict", lambda i, a, k: I.new_dict([]))})
        self.current = tree

        def put(i, a, k):
            self.current = (list(a) + list(k.values()))[-1]
        I.setattr(m, "get_recursive_params", Native("get_recursive_params", lambda i, a, k: self.current))
        I.setattr(m, "set_recursive_params", Native("set_recursive_params", put))
        ov["lumos.models.tree_utils.ParameterTree.from_dict"] = Native("from_dict", lambda i, a, k: tree)

        def dot(i, a, k):
            if len(a) == 2 and all(isinstance(x, Sy) for x in a):
                x, y = a
                r = [v for v in (x, y) if v.name == "residuals"]
                o = [v for v in (x, y) if v.name != "residuals"]
                if len(r) == 1 and len(o) == 1:
                    return Sy("lagrangian", lambda env: ("lagrangian", "L", r[0].ev(env)[2][:1] + [o[0].ev(env)] + r[0].ev(env)[2][1:]), wrt=r[0].attrs["wrt"])
            return i.unknown("dot")
        ov["casadi.dot"] = Native("casadi.dot", dot)

        def spars(n):
            r, q = self.SP[n]
            return Stub("sparsity", attrs={"get_triplet": Native("get_triplet", lambda i, a, k: Tup([i.new_list([P(x) for x in r]), i.new_list([P(x) for x in q])])),
                                           "nnz": Native("nnz", lambda i, a, k: P(len(r)))})

        def deriv(n, base, order):
            def run(i, a, k):
                f, x = (list(a) + list(k.values()))[:2]
                if not isinstance(f, Sy) or not isinstance(x, Sy):
                    return i.unknown(n)
                c.count("comparisons")
                if f.name != base or f.attrs["wrt"] is not x:
                    raise Bad(f"the {n} in the generated code is the derivative of the {f.name} with respect to {x.name}")
                d = Sy(n, lambda env: (n, "out", f.ev(env)[2]), sparsity=Native("sparsity", lambda i2, a2, k2: spars(n)))
                return d if order == 1 else Tup([d, Sy("gradient", lambda env: ("gradient", "out", f.ev(env)[2]), sparsity=Native("sparsity", lambda i2, a2, k2: spars("gradient")))])
            return Native(n, run)
        ov["casadi.jacobian"] = deriv("jac", "residuals", 1)
        ov["casadi.hessian"] = deriv("hess", "lagrangian", 2)

        def function(i, a, k):
            if len(a) < 3 or not isinstance(a[0], str):
                return i.unknown("casadi.Function")
            ins, outs = i.iter_items(a[1]), i.iter_items(a[2])
            if ins is None or outs is None:
                return i.unknown("casadi.Function")
            return Stub("function " + a[0], attrs={"_": Tup([a[0], Tup(ins), Tup(outs)])})
        ov["casadi.Function"] = Native("casadi.Function", function)
        self.generated = {}
        self.libs = []

        def add(i, a, k):
            f = a[0]
            n, ins, outs = f.attrs["_"].items
            self.functions[n] = (list(ins.items), list(outs.items))
        ov["casadi.CodeGenerator"] = Native("CodeGenerator", lambda i, a, k: Stub("generator", attrs={
            "add": Native("add", add), "generate": Native("generate", lambda i2, a2, k2: self.generated.update(self.functions)), "add_include": Native("add_include", lambda *x: None)}))

        def external(i, a, k):
            n = a[0]
            if not isinstance(n, str):
                return i.unknown("name of a compiled function")
            if n not in self.generated:
                raise Bad(f"the compiled function {n} is not generated")
            return self.ext(n)
        ov["casadi.external"] = Native("casadi.external", external)

    def ext(self, name):
        ins, outs = self.generated[name]
        z = self

        class X(External):
            def column_values(self, vals):
                return {id(s): v for s, v in zip(ins, vals)}
        sizes = {"states_dot": NX, "outputs": 3, "con_outputs": NC, "residuals": NR}
        lab = []
        for o in outs:
            if not isinstance(o, Sy):
                return self.I.unknown(f"output of {name}")
            lab.append(o)
        e = External(name, tuple(range(len(ins))), [])

        def term(o, ix, vals):
            env = {id(s): v for s, v in zip(ins, vals)}
            k, g, vs = o.ev(env)
            return fn_term(f"{k}.{g}", ix, *vs)

        def mp(I, a, k):
            batch = int(I.as_num(a[0]).const())

            def run(i, args, kw):
                if len(args) != len(ins) or kw:
                    raise Bad(f"the compiled function {name} takes {len(ins)} arguments but gets {len(args)}")
                vals = [[e.column(i, v, s, batch) for v in args] for s in range(batch)]
                if len(lab) == 1 and lab[0].name in z.SP:
                    o, nz = lab[0], len(z.SP[lab[0].name][0])
                    arr = Arr((P(batch * nz),), lambda ix: pick(ix[0], batch * nz, lambda m: term(o, (P(m % nz),), vals[m // nz])))
                    return Stub("sparse", methods={"nnz": lambda i2, a2, k2: P(batch * nz), "nonzeros": lambda i2, a2, k2: i2.new_arr(arr)})

                def one(o):
                    n = NG if o.name == "residuals" else sizes[o.name.split()[-1]]
                    return i.new_arr(Arr((P(n), P(batch)), lambda ix: pick(ix[1], batch, lambda s: term(o, (ix[0],), vals[s]))))
                r = [one(o) for o in lab]
                return r[0] if len(r) == 1 else Tup(r)
            return Native(name + " mapped", run)
        e.stub.attrs["map"] = Native(name + ".map", mp)

        def once(i, args, kw):
            if len(args) != len(ins) or kw:
                raise Bad(f"the compiled function {name} takes {len(ins)} arguments but gets {len(args)}")
            vals = []
            for v in args:
                n, a = i.as_num(v), arr_of(i, v)
                if n is None and a is None:
                    return i.unknown(f"argument of {name}")
                vals.append(n if n is not None else akey(a))
            o = lab[0]
            if o.name in z.SP:
                nz = len(z.SP[o.name][0])
                arr = Arr((P(nz),), lambda ix: term(o, (ix[0],), vals))
                return Stub("sparse", methods={"nnz": lambda i2, a2, k2: P(nz), "nonzeros": lambda i2, a2, k2: i2.new_arr(arr)})
            return i.new_arr(Arr((P(NG),), lambda ix: term(o, (ix[0],), vals)))
        e.stub.call = once
        return e.stub

    def params(self, tag):
        return self.I.new_arr(base_array("params" + tag, (P(2),)))

    def tree(self, tag):
        return Stub("tree" + tag, attrs={"tree_ravel": Native("tree_ravel", lambda i, a, k: self.ravel(tag))})

    def forward_spec(self, g, n, X, U, M, tag):
        p = akey(base_array("params" + tag, (P(2),)))
        return Arr((P(2), P(n)), lambda ix: pick(ix[0], 2, lambda s: fn_term(f"forward.{g}", (ix[1],), akey(row(X, s)), akey(row(U, s)), row(M, s), p)))


def ob_casadi(c, what):
    z = CasModel(c)
    I = z.I
    for tag in ("_new", "_newer"):
        got = I.call(I.getattr(z.alg, "mapped_" + what), z.args(what, 2, tag), {})
        p = akey(base_array("params" + tag, (P(2),)))
        val = lambda s: [{"x": lambda: akey(row(z.d["x"], s)), "mult": lambda: akey(row(z.d["mult"], s)), "mesh": lambda: row(z.d["mesh"], s), "params": lambda: p}[r]() for r in ROLES[what]]
        if what == "constraints":
            nm, n = "implicit.res", NG
        else:
            nm, n = ("jac.out", len(z.SP["jac"][0])) if what == "jacobian" else ("hess.out", len(z.SP["hess"][0]))
            c.count("comparisons")
            if structure(z, what) != [list(v) for v in z.SP[NAMES[what]]]:
                raise Bad(f"the {what} structure is not that of the generated function")
        want = Arr((P(2), P(n)), lambda ix: pick(ix[0], 2, lambda s: fn_term(nm, (ix[1],), *val(s))))
        c.eq_arr(I, got, want, f"mapped {what}")


def ob_solver(c):
    """The model solver evaluates the unit functions at its point, without mesh, with the parameters of the model."""
    z = CasModel.__new__(CasModel)
    z.functions, z.symbols, z.problem = {}, [], []
    z.lib = Lib(c)
    z.I = I = z.lib.I
    jaxfn.install(I)
    z.backend = "casadi"
    I.load_text("plant_client", MODEL)
    z.m = call(I, I.mod_get("plant_client", "Plant"))
    z.setup(c)
    I.load("lumos.optimal_control.model_solver")
    cls = I.mod_get("lumos.optimal_control.model_solver", "ModelSolver")
    if not isinstance(cls, ClassV):
        raise Gone("ModelSolver")
    ps = call(I, cls, z.m, "casadi", con_outputs=I.new_list(["y3"]))
    x, l = base_array("in_x", (P(NV),)), base_array("in_mult", (P(NG),))
    p = akey(base_array("params of the model", (P(2),)))
    c.eq_arr(I, call(I, I.getattr(ps, "constraints"), I.new_arr(x)), Arr((P(NG),), lambda ix: fn_term("implicit.res", ix, akey(x), ZERO, p)), "constraints")
    c.eq_arr(I, call(I, I.getattr(ps, "jacobian"), I.new_arr(x)), Arr((P(len(z.SP["jac"][0])),), lambda ix: fn_term("jac.out", ix, akey(x), ZERO, p)), "jacobian")
    s = I.iter_items(call(I, I.getattr(ps, "jacobianstructure")))
    for v, w, n in zip(s, z.SP["jac"], ("rows", "columns")):
        a = arr_of(I, v)
        if a is None:
            raise c.nonarr(I, v, "jacobian structure")
        c.eq_arr(I, I.new_arr(arrays.ravel(a)), arr_of(I, lit(I, w)), f"{n} of the jacobian")
    con = I.getitem(I.getattr(ps, "_constraints"), "model_algebra")
    h = call(I, I.getattr(con, "hessian"), I.new_arr(x), I.new_arr(l))
    a = arr_of(I, h)
    if a is None:
        raise c.nonarr(I, h, "hessian of the constraints")
    c.eq_arr(I, I.new_arr(arrays.ravel(a)), Arr((P(len(z.SP["hess"][0])),), lambda ix: fn_term("hess.out", ix, akey(x), akey(l), ZERO, p)), "hessian of the constraints")


def run(c):
    c.explain = ("abstract interpretation of the mapping functions, the mapped constraint classes and the model build for every backend, with symbolic rows, multipliers, mesh and parameters; "
                 "jax transformations are computed by symbolic differentiation, casadi functions are uninterpreted functions of the inputs they are declared with; "
                 "every value of every mapped function must be the one of its stage, and at the row and column reported for it")
    c.assumptions = ["casadi reports the triplets of a matrix in the order of its nonzeros, and maps over columns", "two or three stages and one plant with fixed numbers of variables stand for all"]
    for st in (True, False):
        for w in ROLES:
            c.ob("derivatives at the positions of the structure", f"{FN}:JaxMappedConstraints.mapped_{w} [{'sparse' if st else 'dense'}]", ob_unit, c, st, w)
    c.ob("unit functions run with their backend", f"{FN}:JaxMappedConstraints", ob_backend, c)
    for cls in ("MappedConstraints", "CasMappedConstraints"):
        for w in ROLES:
            c.ob("each stage gets its own row, all stages the parameters", f"{FN}:{cls}.mapped_{w}", ob_mapped, c, cls, w)
    for n in ("lmap", "cmap"):
        for axes in ((0,), (0, 0, None), (0, None, 0), (0, 0)):
            for outs in (1, 3):
                c.ob("mapping over rows", f"{FU}:{n} [{', '.join('mapped' if x == 0 else 'common' for x in axes)}; {outs} results]", ob_map, c, n, axes, outs)
    for w in ROLES:
        c.ob("model functions of the jax backend", f"{FB}._make_jax_model_algebra_cons [{w}]", ob_jax, c, w, ("_new", "_newer"))
        c.ob("model functions of the custom backend", f"{FB}._make_custom_model_algebra_cons [{w}]", ob_custom, c, w)
        c.ob("model functions of the casadi backend", f"{FB}._make_casadi_model_algebra_cons [{w}]", ob_casadi, c, w)
    for b, k in (("jax", "Plant"), ("casadi", "Plant"), ("custom", "Custom")):
        if b == "custom":
            c.ob("batched evaluation", f"{FB}.batched_forward [{b}]", ob_forward_custom, c)
        else:
            c.ob("batched evaluation", f"{FB}.batched_forward [{b}]", ob_forward, c, b, ("_new", "_newer"), k)
    c.ob("model solver", "lumos/optimal_control/model_solver.py:ModelSolver", ob_solver, c)


def ob_forward_custom(c):
    keep = Model_.setup
    Model_.setup = lambda s, c_: CustomModel.setup(s, c_)
    Model_.pkey = CustomModel.pkey
    try:
        ob_forward(c, "custom", ("_new", "_newer"), "Custom")
    finally:
        Model_.setup = keep
