"""C08: objective gradients and hessians are the derivatives of the objectives."""
from ..checklib import *
from ..harness import Ocp, fn_term, arr_of, name_str, names_with, new_interp, names
from ..arrays import base_array, akey, elementwise
from ..alg import ZERO, ONE, sym, dim, index
from .. import arrays
from .c07 import triplet

SIM = "lumos.simulations.laptime_simulation"
FILES = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP",
         "lap": "lumos/simulations/laptime_simulation.py:LaptimeSimulation"}


def objectives(I, prob):
    """Registered objectives of a problem: [(name, object)]."""
    out = []
    d = I.rec(prob).attrs.get("_objectives")
    cands = [d] if d is not None else list(I.rec(prob).attrs.values())
    for v in cands:
        if isinstance(v, Ref) and I.rec(v).kind == "dict":
            for e in I.rec(v).entries:
                if not isinstance(e, KV) and isinstance(e[1], Ref) and I.rec(e[1]).kind == "obj" and \
                        I.is_subclass(I.rec(e[1]).cls, I.mod_get("lumos.optimal_control.nlp", "BaseObjective")) is True:
                    out.append((e[0], e[1]))
    return out


class Ctx:
    def __init__(self, sizes, kind, condensed=False, lgr=True):
        sizes = dict(sizes or {})
        conc = bool(sizes)
        self.kind = kind
        n1, n2 = (1, 0) if conc else (dim("n_before", 0), dim("n_after", 0))
        self.n1 = P(n1)
        groups = {}
        if kind != "scaled":
            groups["states"] = names_with("state", "time", n1, n2)
        if conc and not lgr:
            sizes["K"] = 2
        if kind == "lap":
            i1, i2 = (2, 1) if conc else (dim("i_before", 0), dim("i_after", 0))
            self.i1 = P(i1)
            groups["inputs"] = names_with("input", "steer", i1, i2)
        if groups and conc:
            for g, k in (("states", "ns"), ("inputs", "nu")):
                if g in groups:
                    sizes.pop(k, None)
        self.o = o = Ocp("scaled" if kind == "scaled" else "fixed", condensed=condensed, lgr=lgr, sizes=sizes, groups=groups, lazy=True)
        self.I = I = o.I
        if kind == "lap":
            I.overrides["lumos.models.simple_vehicle_on_track.SimpleVehicleOnTrack"] = Native("SimpleVehicleOnTrack", lambda i, a, k: o.model)
            I.load(SIM)
            I.overrides[SIM + ".LaptimeSimulation.set_track"] = Native("set_track", lambda i, a, k: None)
            I.setattr(o.cfg, "track", "any.csv")
            o.ocp = call(I, I.mod_get(SIM, "LaptimeSimulation"), sim_config=o.cfg)
        else:
            kw = dict(model=o.model, sim_config=o.cfg)
            if kind == "fixed":
                kw["mesh_scale"] = o.scale
            o.ocp = call(I, o.cls, **kw)
        self.xa = base_array("x", (o.ndec,))
        self.objs = objectives(I, o.ocp)
        self.ndec = o.ndec

    def x(self):
        return self.I.new_arr(self.xa)

    def spec(self):
        """Specified total objective."""
        o = self.o
        if self.kind == "scaled":
            return self.xa.get((o.ndec - 1,))
        t = lambda s: self.xa.get((o.pos("states", s, self.n1),))
        r = t(o.S - 1) - t(ZERO)
        if self.kind == "lap":
            u = lambda s: self.xa.get((o.pos("inputs", s, self.i1),))
            r = r + arrays.sumover(o.S, lambda s: u(s) * u(s)) * alg.ppow(o.S, -1)
        return r

    def prob(self):
        return self.o.ocp


class Solver:
    """A model solver with objectives made from variables."""

    def __init__(self, sizes):
        M = "lumos.optimal_control.model_solver"
        sizes = dict(sizes or {})
        sizes.pop("N", None), sizes.pop("K", None)
        self.o = o = Ocp("scaled", sizes=sizes, lazy=True, backend="casadi")
        self.I = I = o.I
        I.load(M)
        self.ndec = n = o.nv
        par = Stub("params", attrs={"tree_ravel": Native("tree_ravel", lambda i, a, k: Tup([i.new_arr(base_array("flat_params", (dim("n_par", 1),))), "unravel"]))})
        for q in ("lumos.models.base.Model.get_recursive_params", "lumos.models.composition.CompositeModel.get_recursive_params"):
            I.overrides[q] = Native("get_recursive_params", lambda i, a, k: par)
        ext = lambda nm, shape: Native(nm, lambda i, a, k: i.new_arr(Arr(shape, lambda ix: fn_term(nm, ix, *[akey(arr_of(i, v)) if arr_of(i, v) is not None else v for v in a]))))

        def make(i, a, k):
            u = o.make_unit()
            u.attrs["constraints"] = ext("implicit", (o.nres,))
            i.setattr(o.model, "model_algebra", u)
            return i.new_dict([("jacobian", ext("implicit_jac", (o.nz,))), ("hessian", ext("implicit_hess", (o.hz,)))])
        I.overrides["lumos.models.base.StateSpaceModel.make_model_algebra_cons"] = Native("make_model_algebra_cons", make)
        self.ocp = call(I, I.mod_get(M, "ModelSolver"), model=o.model, backend="casadi", con_outputs=names("con", o.D.nc))
        self.added, self.xa = [], base_array("x", (n,))
        for g, pre, size in (("states", "state", o.D.ns), ("con_outputs", "con", o.D.nc), ("inputs", "input", o.D.nu)):
            p = size - 1 if size.const() is not None else P(index(size, "q" + g))
            w = sym("weight_" + g)
            call(I, I.getattr(self.ocp, "add_obj_from_var"), g, name_str(pre, p), w)
            self.added.append((o.off[g] + p, w))
        self.objs = objectives(I, self.ocp)

    x = Ctx.x

    def spec(self):
        return sum((w * self.xa.get((p,)) for p, w in self.added), ZERO)

    def prob(self):
        return self.ocp


def ob_value(c, z):
    c.eq_arr(z.I, call(z.I, z.I.getattr(z.prob(), "objective"), z.x()), z.spec(), "total objective")


def each(c, z):
    if not z.objs:
        raise Und("no objectives found")
    I = z.I
    for name, ob in z.objs:
        f = call(I, I.getattr(ob, "objective"), z.x())
        a = arr_of(I, f)
        f = topoly(a.get(()) if a is not None and a.ndim == 0 else I.as_num(f) if a is None else f, f"objective {name}")
        yield name, ob, f


def ob_grad(c, z):
    I = z.I
    for name, ob, f in each(c, z):
        g = call(I, I.getattr(ob, "gradient"), z.x())
        g = arr_of(I, g)
        if g is None:
            raise c.nonarr(I, g, f"gradient of {name}")
        c.eq_shape(g.shape, (z.ndec,), f"gradient of {name}")
        c.eq_arr(I, I.new_arr(g), Arr((z.ndec,), lambda ix: deriv(f, ix[0])), f"gradient of objective {name}")
    f = z.spec()
    c.eq_arr(I, call(I, I.getattr(z.prob(), "gradient"), z.x()), Arr((z.ndec,), lambda ix: deriv(f, ix[0])), "total gradient")


def ob_hess(c, z):
    I = z.I
    for name, ob, f in each(c, z):
        v, r, q = triplet(c, I, call(I, I.getattr(ob, "hessian"), z.x()), call(I, I.getattr(ob, "hessianstructure")), f"hessian of {name}")
        t = Triplet(v, r, q)
        t.check()
        t.bounds(c, z.ndec, z.ndec, f"hessian of {name}")
        c.eq_sym(t, lambda a, b: deriv(deriv(f, a), b), z.ndec, f"hessian entry of objective {name}")


def ob_weights(c, z):
    """The steering penalty for weights of either sign given by a caller."""
    I = z.I
    o = z.o
    w = sym("weight")
    p = z.i1
    e = z.ndec
    wd = lambda: I.new_dict([("steer", w)])
    u = lambda s: z.xa.get((o.pos("inputs", s, p),))
    f = w * arrays.sumover(o.S, lambda s: u(s) * u(s)) * alg.ppow(o.S, -1)
    given = {"weights": True}

    def get(n, **kw):
        # internal names: gone or changed, there is nothing to decide
        try:
            return call(I, I.getattr(z.prob(), n), *([z.x()] if kw or not n.endswith("structure") else []), **({"weights": wd()} if kw else {}))
        except Exception as e:
            raise Und(f"{n} with weights: {e}")
    c.eq_arr(I, get("_inputs_penalty", **given), f, "penalty of the given weights")
    c.eq_arr(I, get("_inputs_penalty_grad", **given), Arr((e,), lambda ix: deriv(f, ix[0])), "gradient of the penalty of the given weights")
    v, r, q = triplet(c, I, get("_inputs_penalty_hessian", **given), get("_inputs_penalty_hessian_structure"), "hessian of the penalty")
    t = Triplet(v, r, q)
    t.check()
    c.eq_sym(t, lambda a, b: deriv(deriv(f, a), b), e, "hessian entry of the penalty of the given weights")


def run(c):
    c.explain = ("abstract interpretation of the construction of each problem class with symbolic sizes; the normal form of every gradient "
                 "and hessian entry (opaque position) is compared with the formal derivative of the objective's own normal form, and the "
                 "total objective with its specification (mesh length; last minus first time; mean squared steering; weighted variable)")
    c.assumptions = ["the lap simulation's vehicle model is any model with a state named time and an input named steer"]
    ctx = [("scaled", lambda s: Ctx(s, "scaled"), "[variable mesh]"), ("fixed", lambda s: Ctx(s, "fixed"), "[fixed mesh]"),
           ("lap", lambda s: Ctx(s, "lap"), "[lap simulation]")]
    if c.tier == "thorough":
        ctx += [(k, lambda s, a=(k, cond, lgr): Ctx(s, *a), f"[{k}, condensed {cond}, {'LGR' if lgr else 'quadrature'}]")
                for k in ("scaled", "fixed", "lap") for cond in (False, True) for lgr in (False, True)]
    for k, b, lab in ctx:
        base = f"{FILES[k]} {lab}"
        c.sized("objective value", base, b, lambda z: ob_value(c, z))
        c.sized("gradient = derivative of the objective", base, b, lambda z: ob_grad(c, z))
        c.sized("hessian = second derivative of the objective", base, b, lambda z: ob_hess(c, z))
    c.sized("penalty of weights of either sign", FILES["lap"] + " [lap simulation]", lambda s: Ctx(s, "lap"), lambda z: ob_weights(c, z))
    base = "lumos/optimal_control/model_solver.py:ModelSolver.add_obj_from_var"
    b = lambda s: Solver(s)
    c.sized("objective value", base, b, lambda z: ob_value(c, z))
    c.sized("gradient = derivative of the objective", base, b, lambda z: ob_grad(c, z))
    c.sized("hessian = second derivative of the objective", base, b, lambda z: ob_hess(c, z))
