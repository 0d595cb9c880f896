"""Analysis contexts: symbolic models, names, transcriptions shared by the checks."""
import os
import warnings
from . import alg, arrays
from .alg import P, Poly, Atom, ZERO, ONE, index, dim, sym, subst, delta
from .arrays import Arr, base_array, elementwise, NeedSplit, Undecidable, ShapeError
from .interp import Interp, Dead
from .values import *

warnings.simplefilter("ignore")
REPO = os.environ.get("LSA_REPO", "/repo")


def name_atom(group, p):
    return Atom("name", group, P(p))


def name_str(group, p):
    """Symbolic variable name: the p-th name of a group (distinct within the group)."""
    return SStr([name_atom(group, p)])


def names(group, n):
    """Tuple of n symbolic names."""
    c = P(n).const()
    if c is not None:
        return Tup([name_str(group, k) for k in range(int(c))])
    v = index(n, "n")
    return Tup([Seg(v, P(n), name_str(group, P(v)))])


def names_with(group, special, n1, n2):
    """(names, size): n1 symbolic names, one given name, n2 symbolic names."""
    n1, n2 = P(n1), P(n2)
    out = []
    for lo, n in ((ZERO, n1), (n1 + 1, n2)):
        c = n.const()
        if lo.terms:
            out.append(special)
        if c is not None:
            out += [name_str(group, lo + k) for k in range(int(c))]
        else:
            v = index(n, "n")
            out.append(Seg(v, n, name_str(group, lo + P(v))))
    return Tup(out), n1 + 1 + n2


def new_interp():
    I = Interp(REPO)
    return I


class Dims:
    """Symbolic sizes of a problem."""

    def __init__(self, **fixed):
        self.fixed = fixed

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        f = self.fixed.get(k)
        if f is not None:
            v = P(f) if not isinstance(f, Poly) else f
        else:
            v = dim(k, 1)
        setattr(self, k, v)
        return v


GROUPS = ("states", "inputs", "outputs", "con_outputs", "residuals", "states_dot")


def model_names(I, D):
    """Named tuple value of a model's variable names; states and states_dot share names."""
    vals = {
        "states": names("state", D.ns), "states_dot": names("state", D.ns),
        "inputs": names("input", D.nu), "con_outputs": names("con", D.nc),
        "residuals": names("res", D.nr), "outputs": names("output", D.no),
    }
    return Stub("model.names", attrs=vals)


def arr_of(I, v):
    """The Arr of a value, or None."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, Ref):
        r = I.rec(v)
        if r.kind == "arr":
            return r.arr
    if isinstance(v, (Ref, Tup)):
        try:
            return I.to_arr(v)
        except Exception:
            return None
    return None


# ------------------------------------------------------------------ optimal control contexts
OCPMOD = "lumos.optimal_control.scaled_mesh_ocp"
FIXMOD = "lumos.optimal_control.fixed_mesh_ocp"


def tau_array(K):
    """Points of an interval: first 0, last 1, symbolic in between."""
    def get(idx):
        i = idx[0]
        if (i - (K - 1)).terms == {}:
            return ONE
        if arrays.lt(i, ONE):
            return ZERO
        if not arrays.lt(i, K - 1):
            return ONE
        return P(Atom("elem", "tau", (i,)))
    return Arr((K,), get, name="tau")


class Ocp:
    """Context of one optimal control problem over symbolic sizes."""

    def __init__(self, kind="scaled", cyclic=False, condensed=False, backend="jax", K=None, N=None, lgr=True,
                 mesh="points", extra=None, dims=None, logging=None, config=None, cls=None, kwargs=None,
                 interp=None, con_names=None, lazy=False, sizes=None, groups=None):
        self.I = I = interp or new_interp()
        sizes = dict(sizes or {})
        N, K = sizes.pop("N", N), sizes.pop("K", K)
        self.groups = groups or {}
        for g, (nm, n) in self.groups.items():
            sizes[{"states": "ns", "inputs": "nu", "con_outputs": "nc", "residuals": "nr", "outputs": "no"}[g]] = n
        self.D = D = dims or Dims(**sizes)
        self.N = dim("N", 1) if N is None else P(N)
        self.K = (dim("K", 2) if K is None else P(K)) if lgr else P(2)
        self.concrete = self.N.const() is not None and P(D.ns).const() is not None
        self.kind, self.cyclic, self.condensed = kind, cyclic, condensed
        self.S = self.N * (self.K - 1) + 1
        self.nv = D.ns * 2 + D.nu + D.nc
        self.ng = P(1 if kind == "scaled" else 0)
        self.ndec = self.S * self.nv + self.ng
        self.nres = D.ns + D.nc + D.nr
        self.off = {"states": ZERO, "inputs": D.ns, "states_dot": D.ns + D.nu, "con_outputs": D.ns * 2 + D.nu}
        for m in ("lumos.optimal_control.utils", "lumos.models.base", "lumos.optimal_control.nlp",
                  "lumos.optimal_control.transcription", "lumos.optimal_control.config", OCPMOD, FIXMOD):
            I.load(m)
        self.backend = backend
        self.model = self.make_model()
        self.tr = self.make_transcription(lgr)
        mk = Native("make_transcription", lambda i, a, k: self.tr)
        I.overrides["lumos.optimal_control.transcription.make_transcription"] = mk
        self.cls = cls or (I.mod_get(OCPMOD, "ScaledMeshOCP") if kind == "scaled" else I.mod_get(FIXMOD, "FixedMeshOCP"))
        self.points = None
        if mesh == "points":
            self.points_arr = base_array("pts", (self.N + 1,))
            self.points = I.new_arr(self.points_arr)
        else:
            self.points_arr = Arr((self.N + 1,), lambda ix: ix[0] * alg.ppow(self.N, -1))
        cfg = dict(num_intervals=self.N, interval_points=self.points, transcription=Tup(["any"]),
                   is_cyclic=cyclic, non_cyclic_vars=I.new_list([]), is_condensed=condensed, backend=backend,
                   hessian_approximation="exact", boundary_conditions=Tup([]), bounds=Tup([]), scales=Tup([]),
                   con_output_names=names("con", D.nc), logging_config=logging)
        cfg.update(config or {})
        self.cfg = I.call(I.mod_get("lumos.optimal_control.config", "SimConfig"), [], cfg)
        kw = dict(model=self.model, sim_config=self.cfg)
        if kind == "fixed":
            self.scale = sym("mesh_scale")
            alg.LOWER.setdefault(Atom("sym", "mesh_scale"), 0)
            kw["mesh_scale"] = self.scale
        kw.update(kwargs or {})
        if not lazy:
            self.ocp = I.call(self.cls, [], kw)

    # -- model
    def make_model(self):
        I, D = self.I, self.D
        base = I.mod_get("lumos.models.base", "StateSpaceModel")
        io = I.mod_get("lumos.models.base", "StateSpaceIO")
        gn = lambda g, pre, n: self.groups[g][0] if g in self.groups else names(pre, n)
        st = gn("states", "state", D.ns)
        nm = I.call(io, [], dict(states=st, states_dot=st, inputs=gn("inputs", "input", D.nu), outputs=gn("outputs", "output", D.no),
                                 con_outputs=gn("con_outputs", "con", D.nc), residuals=gn("residuals", "res", D.nr)))
        self.params = self.make_params()
        m = I.alloc(ObjR(base, {"names": nm, "_submodels": I.new_dict([]), "_params": self.params}))
        pre = "lumos.models.base.StateSpaceModel."
        ov = I.overrides
        ov[pre + "batched_forward"] = Native("batched_forward", self.batched_forward)
        ov[pre + "make_model_algebra_cons"] = Native("make_model_algebra_cons", self.make_algebra)
        ov["lumos.models.base.Model.get_recursive_params"] = Native("get_recursive_params", lambda i, a, k: self.params)
        ov["lumos.models.composition.CompositeModel.get_recursive_params"] = ov["lumos.models.base.Model.get_recursive_params"]
        ov["lumos.models.composition.CompositeModel.set_recursive_params"] = Native("set_recursive_params", lambda i, a, k: i.effect("set_model_params", *a) or None)
        return m

    def make_params(self):
        return Stub("params", attrs={}, isa=())

    def params_key(self, v):
        return arrays.akey(v) if isinstance(v, Arr) else vkey(v)

    def make_algebra(self, I, a, k):
        """The unit problem of one stage: uninterpreted mapped functions of (row, mesh, params)."""
        D = self.D
        self.unit = self.make_unit()
        I.setattr(self.model, "model_algebra", self.unit)
        I.setattr(self.model, "_batched_forward", Native("_batched_forward", self.batched_forward))
        return None

    def make_unit(self):
        I, D = self.I, self.D
        nz, hz = (P(3), P(2)) if self.concrete else (dim("jnnz"), dim("hnnz"))
        self.nz, self.hz = nz, hz
        nv = self.nv
        if self.concrete:
            lit = lambda *v: arrays.stack([Arr((), lambda ix, k=k: P(k)) for k in v])
            r, v = int(P(self.nres).const()), int(P(nv).const())
            self.jrows, self.jcols = lit(r - 1, 0, 1 % r), lit(0, v - 1, 2 % v)
            self.hrows, self.hcols = lit(v - 1, 1 % v), lit(0, 2 % v)
        else:
            self.jrows = base_array("jr", (nz,), up=self.nres, integer=True)
            self.jcols = base_array("jc", (nz,), up=nv, integer=True)
            self.hrows = base_array("hr", (hz,), up=nv, integer=True)
            self.hcols = base_array("hc", (hz,), up=nv, integer=True)
        isa = [I.mod_get("lumos.optimal_control.nlp", "CasMappedConstraints" if self.backend == "casadi" else "JaxMappedConstraints")]
        js = Tup([I.new_arr(self.jrows), I.new_arr(self.jcols)])
        hs = Tup([I.new_arr(self.hrows), I.new_arr(self.hcols)])
        return Stub("unit", isa=isa, attrs={
            "num_in": nv, "num_con": self.nres, "jac_shape": Tup([self.nres, nv]), "hess_shape": Tup([nv, nv]),
            "jacobianstructure": Native("jacobianstructure", lambda i, a, k: js),
            "hessianstructure": Native("hessianstructure", lambda i, a, k: hs),
            "mapped_constraints": Native("mapped_constraints", lambda i, a, k: self.mapped("con", i, a, k, (self.nres,))),
            "mapped_jacobian": Native("mapped_jacobian", lambda i, a, k: self.mapped("jac", i, a, k, (nz,))),
            "mapped_hessian": Native("mapped_hessian", lambda i, a, k: self.mapped("hess", i, a, k, (hz,))),
        })

    def mapped(self, kind, I, a, k, shape):
        want = {"con": ("vars", "mesh", "params"), "jac": ("vars", "mesh", "params"),
                "hess": ("vars", "lagrange", "mesh", "params")}[kind]
        if k or len(a) != len(want):
            I.effect("bad-mapped-call", kind, len(a))
            return I.unknown("mapped call arity")
        I.effect("mapped-call", kind, dict(zip(want, a)))
        return I.new_arr(self.mapped_arr(kind, [self.arg(x) for x in a], shape))

    def arg(self, v):
        a = arr_of(self.I, v)
        return a if a is not None else v

    def mapped_arr(self, kind, args, shape):
        """args: per-stage arrays (leading dimension = stages), last one common."""
        lead = args[0].shape[0]
        par = self.params_key(args[-1])

        def row(x, s):
            if isinstance(x, Arr):
                if x.ndim == 0 or not arrays.same_dim(x.shape[0], lead):
                    raise ShapeError("mapped axis")
                if x.ndim == 1:
                    return arrays.topoly(x.get((s,)))
                return arrays.akey(Arr(x.shape[1:], lambda j: x.get((s,) + j)))
            if isinstance(x, Poly):
                raise ShapeError("mapped axis of a scalar")
            return vkey(x)

        def get(idx):
            s = idx[0]
            return P(Atom("app", "unit_" + kind, tuple(idx[1:]), *[row(x, s) for x in args[:-1]], par))
        return Arr((lead,) + shape, get)

    def batched_forward(self, I, a, k):
        names_ = ["states", "inputs", "mesh", "params"]
        a = list(a)
        if a and isinstance(a[0], Ref) and a[0] == self.model:
            a = a[1:]
        b = dict(zip(names_, a))
        b.update({str(x): y for x, y in k.items()})
        I.effect("batched_forward", b)
        args = [self.arg(b[n]) for n in names_ if n in b]
        D = self.D
        ret = I.mod_get("lumos.models.base", "ArrayStateSpaceModelReturn")
        sz = {"states_dot": D.ns, "outputs": D.no, "con_outputs": D.nc, "residuals": D.nr}
        return I.call(ret, [], {g: I.new_arr(self.mapped_arr("fwd_" + g, args, (n,))) for g, n in sz.items()})

    # -- transcription
    def make_transcription(self, lgr):
        I, K = self.I, self.K
        self.A = base_array("A", (K - 1, K))
        self.B = base_array("B", (K - 1, K))
        isa = [I.mod_get("lumos.optimal_control.transcription", "LGR" if lgr else "Trapezoidal"),
               I.mod_get("lumos.optimal_control.transcription", "Transcription")]
        return Stub("transcription", isa=isa, attrs={
            "num_stages_per_interval": K, "num_constraints_per_interval": K - 1,
            "interp_points": I.new_arr(tau_array(K)),
            "get_continuity_matrices": Native("get_continuity_matrices", lambda i, a, k: Tup([i.new_arr(self.A), i.new_arr(self.B)])),
        })

    # -- use
    def m(self, name, *a, **k):
        return self.I.call(self.I.getattr(self.ocp, name), list(a), k)

    def arr(self, v):
        return arr_of(self.I, v)

    def x(self, name="x"):
        return self.I.new_arr(base_array(name, (self.ndec,)))

    def pos(self, group, stage, k):
        """Specification of the layout: position of variable k of group at a stage."""
        return P(stage) * self.nv + self.off[group] + P(k)


# ------------------------------------------------------------------ uninterpreted functions
def fn_key(I, v):
    a = arr_of(I, v)
    if a is not None:
        return arrays.akey(a) if a.ndim else arrays.topoly(a.get(()))
    if isinstance(v, Unknown):
        return P(Atom("unk", str(v.reason)[:80]))
    n = I.as_num(v)
    return n if n is not None else vkey(v)


def fn_term(name, idx, *keys):
    """Component idx of an uninterpreted function of the given argument keys."""
    return P(Atom("app", "fn_" + name, tuple(P(i) for i in idx), *keys))


def fn(name, shape, nargs=None, log=None):
    """Native value: uninterpreted function returning an array (or scalar) of its arguments."""
    def run(I, args, kwargs):
        I.effect("fn", name, tuple(args), dict(kwargs))
        if nargs is not None and (len(args) != nargs or kwargs):
            I.effect("bad-arity", name, len(args))
        keys = [fn_key(I, a) for a in args] + [(k, fn_key(I, v)) for k, v in sorted(kwargs.items(), key=lambda kv: str(kv[0]))]
        if shape == ():
            return fn_term(name, (), *keys)
        return I.new_arr(Arr(tuple(P(s) for s in shape), lambda ix: fn_term(name, ix, *keys)))
    return Native(name, run)
