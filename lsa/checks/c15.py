"""C15: mesh and track changes reach every evaluation; nothing that depends on the mesh or the point is kept."""
from ..checklib import *
from ..harness import Ocp, arr_of, names_with, new_interp
from ..arrays import base_array
from ..alg import ZERO, ONE, sym, dim, Atom
from ..values import Native, Tup, Ref
from .. import arrays, alg
from .c07 import constraint, spec_con
from .c26 import Lap, SIM, vector

FILES = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}
LAP = "lumos/simulations/laptime_simulation.py:LaptimeSimulation"
VALUES = ("constraints", "jacobian", "hessian", "objective", "gradient")
STRUCT = ("jacobianstructure", "hessianstructure")


class Prob:
    """One problem, with a history of mesh changes and evaluations."""

    def __init__(self, sizes, kind, cond, cyclic, points=None, scale=None):
        sizes = dict(sizes or {})
        groups = {}
        if kind == "fixed":
            groups["states"] = names_with("state", "time", P(sizes.pop("ns", 2)) if sizes else dim("n_before", 1), 0)
        I = new_interp()
        kw = {}
        self.kind = kind
        if scale is not None:
            alg.LOWER.setdefault(Atom("sym", scale), 0)
            kw["mesh_scale"] = sym(scale)
        N = P(sizes["N"]) if "N" in sizes else dim("N", 1)
        cfg = {}
        if points == "uniform":
            cfg["interval_points"] = None
        elif points:
            cfg["interval_points"] = I.new_arr(base_array(points, (N + 1,)))
        self.o = Ocp(kind, cyclic=cyclic, condensed=cond, sizes=sizes, groups=groups, interp=I, config=cfg, kwargs=kw)
        self.I = I
        self.ocp = self.o.ocp

    def step(self, s):
        I, o = self.I, self.o
        what, _, arg = s.partition(" ")
        if what == "evaluate":
            for n in VALUES + STRUCT + ("mesh", "logged outputs"):
                self.value(n, arg or "x")
        elif what == "points":
            call(I, I.getattr(self.ocp, "set_normalized_mesh"), I.new_arr(base_array(arg, (o.N + 1,))))
        elif what == "uniform":
            call(I, I.getattr(self.ocp, "set_normalized_mesh"))
        elif what == "scale":
            alg.LOWER.setdefault(Atom("sym", arg), 0)
            call(I, I.getattr(self.ocp, "set_mesh_scale"), sym(arg))
        elif what == "track":
            call(I, I.getattr(self.ocp, "set_track"), arg)

    def value(self, name, at="x"):
        I, o = self.I, self.o
        x = I.new_arr(base_array(at, (o.ndec,)))
        f = lambda n, *a: call(I, I.getattr(self.ocp, n), *a)
        if name == "hessian":
            return f("hessian", x, I.new_arr(base_array("lam", (I.as_num(I.getattr(self.ocp, "num_con")),))), sym("sigma"))
        if name in STRUCT:
            return f(name)
        if name == "mesh":
            return f("get_mesh_from_dec_var", x)
        if name in ("lower bounds", "upper bounds"):
            return I.getattr(self.ocp, "lb" if name == "lower bounds" else "ub")
        if name == "mesh without point":
            return f("get_mesh") if self.kind == "fixed" else f("get_mesh_from_scale", sym("some_scale"))
        if name == "logged outputs":
            n = len(I.st.effects)
            f("_create_result_df", x, "some/file", P(1))
            a = [e.data[0] for e in I.st.effects[n:] if e.kind == "batched_forward"]
            m = [a_.get("mesh") for a_ in a]
            if not m:
                raise Und("no evaluation of the model is seen")
            return m[-1]
        return f(name, x)


class LapProb(Prob):
    def __init__(self, sizes, cond, cyclic, track="one", points=None):
        self.kind = "fixed"
        self.lap = type("Lap_", (Lap,), {"TRACK": track, "POINTS": points})(sizes, (), cyclic=cyclic, condensed=cond)
        self.o, self.I, self.ocp = self.lap.o, self.lap.I, self.lap.prob

    def value(self, name, at="x"):
        if name == "initial guess":
            I = self.I
            I.overrides["lumos.models.base.StateSpaceModel.make_vector"] = Native("make_vector", vector(self.lap))
            return call(I, I.getattr(self.ocp, "get_init_guess"))
        return super().value(name, at)


def final(steps):
    pts, scale, track = None, None, "one"
    for s in steps:
        w, _, a = s.partition(" ")
        if w == "points":
            pts = a
        elif w == "uniform":
            pts = "uniform"
        elif w == "scale":
            scale = a
        elif w == "track":
            track = a
    return pts, scale, track


class Pair:
    def __init__(self, sizes, kind, cond, cyclic, steps):
        pts, scale, track = final(steps)
        if kind == "lap":
            self.a, self.b = LapProb(sizes, cond, cyclic), LapProb(sizes, cond, cyclic, track, pts)
        else:
            self.a = Prob(sizes, kind, cond, cyclic)
            self.b = Prob(sizes, kind, cond, cyclic, pts, scale)
        self.I = self.a.I
        for s in steps:
            self.a.step(s)


def ob(c, z, name):
    I = z.a.I
    got, want = z.a.value(name), z.b.value(name)
    gs = I.iter_items(got) if name in STRUCT else [got]
    ws = z.b.I.iter_items(want) if name in STRUCT else [want]
    if gs is None or ws is None or len(gs) != len(ws):
        raise Und(name)
    for g, w in zip(gs, ws):
        n = I.as_num(g)
        if n is not None:
            m = z.b.I.as_num(w)
            if m is None:
                raise Und(f"{name} of the fresh problem")
            c.eq_poly(n, m, f"{name} after the changes")
            continue
        wa = arr_of(z.b.I, w)
        if wa is None:
            raise Und(f"{name} of the fresh problem")
        if arr_of(I, g) is None:
            raise c.nonarr(I, g, name)
        c.eq_arr(I, g, wa, f"{name} after the changes")


class Alone:
    """One problem after a history, with the mesh it must be using."""

    def __init__(self, sizes, kind, cond, cyclic, steps):
        self.a = Prob(sizes, kind, cond, cyclic)
        self.I = self.a.I
        for s in steps:
            self.a.step(s)
        o = self.a.o
        pts, scale, _ = final(steps)
        if pts == "uniform":
            o.points_arr = Arr((o.N + 1,), lambda ix: ix[0] * alg.ppow(o.N, -1))
        elif pts:
            o.points_arr = base_array(pts, (o.N + 1,))
        if scale:
            o.scale = sym(scale)


def ob_lengths(c, z):
    """Intervals of the dynamics have the lengths of the new mesh, and start at its points."""
    o, I = z.a.o, z.I
    b = constraint(o, "continuity")
    if b is None:
        raise Und("continuity constraints")
    got = call(I, I.getattr(b, "constraints"), I.new_arr(base_array("x", (o.ndec,))))
    want = spec_con(o)
    size = 1
    for n in want.shape:
        size = size * n
    c.eq_arr(I, got, arrays.reshape(want, (size,)), "continuity constraints with the lengths of the new mesh")
    m = arr_of(I, z.a.value("mesh"))
    if m is None:
        raise Und("mesh")
    s = base_array("x", (o.ndec,)).get((o.ndec - 1,)) if o.kind == "scaled" else o.scale
    at = Arr((o.N + 1,), lambda ix: m.get((ix[0] * (o.K - 1),)))
    c.eq_arr(I, I.new_arr(at), Arr((o.N + 1,), lambda ix: o.points_arr.get(ix) * s), "mesh at the ends of the intervals")


HIST = {
    "mesh changed": ("points new_pts",),
    "evaluated, mesh changed": ("evaluate", "points new_pts"),
    "evaluated elsewhere": ("evaluate y",),
    "evaluated, mesh changed twice": ("evaluate", "points other_pts", "evaluate y", "points new_pts"),
    "evaluated, uniform mesh": ("evaluate", "uniform"),
}
SCALES = {
    "evaluated, scale changed": ("evaluate", "scale new_scale"),
    "evaluated, scale and mesh changed": ("evaluate", "scale other_scale", "evaluate", "points new_pts", "scale new_scale"),
}
TRACKS = {
    "evaluated, track changed": ("evaluate", "track two"),
    "evaluated, mesh and track changed": ("evaluate", "points new_pts", "evaluate y", "track two"),
    "evaluated, track and mesh changed": ("evaluate", "track two", "evaluate", "points new_pts"),
    "evaluated, uniform mesh again": ("evaluate", "points new_pts", "evaluate y", "uniform"),
    "evaluated, two tracks": ("evaluate", "track two", "evaluate", "track three"),
}


def run(c):
    c.explain = ("abstract interpretation of problems through histories of evaluations and changes of mesh, mesh scale and track, over symbolic sizes, points and parameters; "
                 "every later value is compared, as a term, with that of a problem built directly with the final mesh, scale and track and never evaluated before")
    c.assumptions = ["unit functions, tracks and transcription matrices are uninterpreted functions of their arguments", "histories of up to three changes"]
    names = VALUES + STRUCT + ("mesh", "mesh without point", "logged outputs", "lower bounds", "upper bounds")
    for kind, cond, cyclic in (("scaled", False, False), ("fixed", False, False), ("scaled", True, False), ("fixed", True, False), ("fixed", False, True), ("scaled", False, True)):
        main = (kind, cond, cyclic) in (("scaled", False, False), ("fixed", False, True))
        for name, steps in {**HIST, **(SCALES if kind == "fixed" else {})}.items():
            if c.tier == "quick" and not main and name not in ("evaluated, mesh changed twice", "evaluated, scale and mesh changed", "evaluated elsewhere"):
                continue
            b = lambda s, a=(kind, cond, cyclic, steps): Pair(s, *a)
            lab = f"{FILES[kind]} [{kind}{', condensed' if cond else ''}{', cyclic' if cyclic else ''}: {name}]"
            sz = [dict(N=2, K=2, ns=1, nu=1, nc=1, nr=1, no=1), dict(N=2, K=3, ns=2, nu=1, nc=1, nr=1, no=1)]
            if not cond and any(q.startswith(("points", "uniform", "scale")) for q in steps):
                b1 = lambda s, a=(kind, cond, cyclic, steps): Alone(s, *a)
                c.sized("intervals have the lengths of the new mesh", lab, b1, lambda z: ob_lengths(c, z))
            for n in names:
                c.sized(f"{n} with the new mesh", lab, b, lambda z, n=n: ob(c, z, n), sizes=sz[:1] if cond else sz)
    for cond, cyclic in ((False, True), (True, False)):
        for name, steps in TRACKS.items():
            if c.tier == "quick" and cond:
                continue
            b = lambda s, a=("lap", cond, cyclic, steps): Pair(s, *a)
            lab = f"{LAP} [{'condensed' if cond else 'direct'}{', cyclic' if cyclic else ''}: {name}]"
            for n in names + ("initial guess",):
                c.sized(f"{n} with the new track", lab, b, lambda z, n=n: ob(c, z, n), sizes=[dict(N=2, K=2, nr=1)])
