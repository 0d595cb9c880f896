"""C26: tracks look up consistent data; a lap simulation uses the track at its mesh points."""
from ..checklib import *
from ..harness import Ocp, arr_of, fn_term, new_interp
from ..arrays import base_array
from ..alg import ZERO, ONE, sym, dim
from .. import arrays
from .c16 import infinity
from fractions import Fraction

TR = "lumos.models.tracks"
SIM = "lumos.simulations.laptime_simulation"
CFG = "lumos.optimal_control.config"
FILE = "lumos/models/tracks.py"
LAP = "lumos/simulations/laptime_simulation.py:LaptimeSimulation"
MS = [{"M": 4}, {"M": 3}]
LOOK = {"heading_at": "heading", "curvature_at": "curvature", "left_distance_at": "left_distance", "right_distance_at": "right_distance"}


def sq(v):
    return v * v


class Data:
    """A track from symbolic data."""

    def __init__(self, sizes, how, borders=True):
        self.I = I = new_interp()
        I.load(TR)
        self.M = M = P(sizes["M"]) if sizes else dim("M", 2)
        self.arr = {n: base_array("trk_" + n, (M,)) for n in ("x", "y", "s", "curvature", "heading", "left_distance", "right_distance")}
        v = lambda n: I.new_arr(self.arr[n])
        self.given = {n: v(n) for n in self.arr}
        g = self.given
        from ..pure import reach
        self.before = reach(I, list(g.values()))
        b = dict(left_distance=g["left_distance"], right_distance=g["right_distance"]) if borders is True else {borders + "_distance": g[borders + "_distance"]} if borders else {}
        cls = I.mod_get(TR, "RaceTrack")
        self.borders = borders
        a = self.arr
        if how == "data":
            self.track = call(I, cls, **{n: g[n] for n in ("x", "y", "s", "curvature", "heading")}, **b)
            self.s, self.curvature, self.heading = a["s"], a["curvature"], a["heading"]
        elif how == "curvilinear":
            h0 = sym("heading0")
            self.track = call(I, I.getattr(cls, "from_curvilinear"), g["s"], g["curvature"], heading0=h0, **b)
            self.s, self.curvature = a["s"], a["curvature"]
            self.heading = self.trapz(a["curvature"], a["s"], h0)
        else:
            if how == "cartesian":
                self.track = call(I, I.getattr(cls, "from_cartesian"), g["x"], g["y"], **b)
            else:
                cols = {"# x_m": "x", "y_m": "y", "w_tr_left_m": "left_distance", "w_tr_right_m": "right_distance"}
                self.read = []
                pos = list(cols)

                def column(i, o, k):
                    if isinstance(k, str) and k in cols:
                        return g[cols[k]]
                    return i.unknown(f"column {k!r}")
                frame = Stub("frame", attrs={"columns": Tup(pos)}, methods={"getitem": column})
                rd = Native("read_csv", lambda i, p, k: (self.read.append((p, k)), frame)[1])
                I.overrides["pandas.read_csv"] = rd
                self.track = call(I, I.getattr(cls, "from_tum_csv"), "some.csv")
            X, Y = a["x"], a["y"]
            step = lambda j: I.as_num(I.call(Ext("numpy.sqrt"), [sq(X.get((j + 1,)) - X.get((j,))) + sq(Y.get((j + 1,)) - Y.get((j,)))], {}))
            self.s = self.cum(step)
            S = I.new_arr(self.s)
            gr = lambda v: arr_of(I, I.call(Ext("numpy.gradient"), [v, S], {}))
            dx, dy = gr(g["x"]), gr(g["y"])
            ddx, ddy = gr(I.new_arr(dx)), gr(I.new_arr(dy))
            e = lambda q, ix: arrays.topoly(q.get(ix))
            self.curvature = Arr((M,), lambda ix: (e(dx, ix) * e(ddy, ix) - e(ddx, ix) * e(dy, ix)) * alg.inverse(I.as_num(I.call(Ext("numpy.power"), [sq(e(dx, ix)) + sq(e(dy, ix)), P(Fraction(3, 2))], {}))))
            h0 = I.as_num(I.call(Ext("numpy.arctan2"), [e(dy, (ZERO,)), e(dx, (ZERO,))], {}))
            self.heading = self.trapz(self.curvature, self.s, h0)
        self.left = a["left_distance"] if borders in (True, "left") else None
        self.right = a["right_distance"] if borders in (True, "right") else None
        self.s0 = Arr((M,), lambda ix: self.s.get(ix) - self.s.get((ZERO,)))

    def cum(self, step, start=ZERO):
        n = self.M.const()
        if n is None:
            raise Und("running sum of symbolic length")
        v = [start]
        for j in range(int(n) - 1):
            v.append(v[-1] + step(P(j)))
        return arrays.stack([Arr((), lambda ix, q=q: q) for q in v])

    def trapz(self, y, x, start):
        return self.cum(lambda j: (y.get((j,)) + y.get((j + 1,))) * alg.inverse(P(2)) * (x.get((j + 1,)) - x.get((j,))), start)

    def look(self, u, ys):
        """Linear interpolation of ys over the distances at u."""
        I = self.I
        return I.call(Ext("numpy.interp"), [u, I.new_arr(self.s0), I.new_arr(ys)], {})


def ob_lookup(c, z):
    I = z.I
    at = {"one distance": sym("u"), "many distances": I.new_arr(base_array("u", (dim("n_u", 1),)))}
    want = {"heading_at": z.heading, "curvature_at": z.curvature, "left_distance_at": z.left, "right_distance_at": z.right}
    for how, u in at.items():
        for m, w in want.items():
            got = call(I, I.getattr(z.track, m), u)
            if w is None:
                continue
            exp = z.look(u, w)
            a = arr_of(I, exp)
            c.eq_arr(I, got, a if a is not None else exp, f"{m} at {how}")
        for one, own, other in (("left", z.left, "right"), ("right", z.right, "left")):
            if own is None and z.borders:
                got = call(I, I.getattr(z.track, f"{one}_distance_at"), u)
                a = arr_of(I, got)
                p = a.get((ZERO,)) if a is not None and a.ndim else I.as_num(got)
                if p is None:
                    raise Und(f"default {one} border")
                c.comparisons += 1
                if f"trk_{other}_distance" in repr(p.terms):
                    raise Bad(f"without a {one} border, the {one} distance is looked up from the {other} border's data")
        if z.left is None and z.right is None:
            got = call(I, I.getattr(z.track, "left_distance_at"), u)
            other = call(I, I.getattr(z.track, "right_distance_at"), u)
            a = arr_of(I, other)
            c.eq_arr(I, got, a if a is not None else other, f"default borders at {how}")


def ob_total(c, z):
    I = z.I
    n = z.M - 1
    c.eq_poly(I.as_num(I.getattr(z.track, "total_distance")), z.s.get((n,)) - z.s.get((ZERO,)), "total distance")


def ob_kept(c, z):
    for n, v in z.given.items():
        c.eq_arr(z.I, v, z.arr[n], f"the caller's {n} data")


def ob_file(c, z):
    if len(z.read) != 1:
        raise Und(f"the file is read {len(z.read)} times")
    p, k = z.read[0]
    c.comparisons += 1
    if (p or [None])[0] != "some.csv" and "some.csv" not in [v for v in k.values()]:
        raise Bad(f"reads {p!r} instead of the given file")


def ob_xy(c, z):
    """Positions from distance and curvature: dx = cos(heading) ds, dy = sin(heading) ds."""
    I = z.I
    h0, x0, y0 = sym("h0"), sym("x0"), sym("y0")
    r = call(I, I.mod_get(TR, "curvilinear_to_cartesian"), z.given["s"], z.given["curvature"], x0, y0, h0)
    parts = I.iter_items(r)
    if parts is None or len(parts) != 3:
        raise Und("result")
    h = z.trapz(z.arr["curvature"], z.arr["s"], h0)
    f = lambda n: Arr((z.M,), lambda ix: P(Atom("app", n, h.get(ix))))
    num = lambda n: Arr((z.M,), lambda ix: I.as_num(I.call(Ext("numpy." + n), [h.get(ix)], {})))
    for got, want, what in zip(parts, (z.trapz(num("cos"), z.arr["s"], x0), z.trapz(num("sin"), z.arr["s"], y0), h), ("x", "y", "heading")):
        c.eq_arr(I, got, want, what)


class Const:
    def __init__(self, sizes):
        self.I = I = new_interp()
        I.load(TR)
        self.k, self.h, self.w = sym("curv"), sym("start"), sym("half")
        self.track = call(I, I.mod_get(TR, "ConstCurvTrack"), curvature=self.k, start_heading=self.h, half_width=self.w)


def ob_const(c, z):
    I = z.I
    u, v = sym("u"), sym("v")
    at = lambda m, x: I.as_num(call(I, I.getattr(z.track, m), x))
    for x in (u, v):
        c.eq_poly(at("heading_at", x), z.h + z.k * x, "heading")
        c.eq_poly(at("curvature_at", x), z.k, "curvature")
        for m in ("left_distance_at", "right_distance_at"):
            c.eq_poly(at(m, x), z.w, m)


# ------------------------------------------------------------------ lap simulation
STATES = ("time", "n", "eta", "vx", "vy", "yaw_rate", "wheel_speed_fl", "wheel_speed_fr", "wheel_speed_rl", "wheel_speed_rr")
INPUTS = ("throttle", "brake", "steer", "ax", "ay", "track_curvature", "track_heading")


class Lap:
    OCP = Ocp
    TRACK, POINTS = "one", None

    def __init__(self, sizes, steps, cyclic=False, condensed=False):
        sizes = dict(sizes or {})
        t = lambda *g: (Tup(list(g)), P(len(g)))
        self.o = o = self.OCP("fixed", cyclic=cyclic, condensed=condensed, sizes=sizes, lazy=True, config={"con_output_names": Tup(["slip"])},
                         groups={"states": t(*STATES), "inputs": t(*INPUTS), "con_outputs": t("slip"), "outputs": t("slip", "power")})
        self.I = I = o.I
        I.overrides["lumos.models.simple_vehicle_on_track.SimpleVehicleOnTrack"] = Native("SimpleVehicleOnTrack", lambda i, a, k: o.model)
        tracks = {}

        def track(i, a, k):
            f = str(a[0]) if a else str(list(k.values())[0])
            if f not in tracks:
                def look(q):
                    def run(i, a, k):
                        x = arr_of(i, a[0])
                        g = lambda u: P(Atom("app", f"fn_{q}_of_{f}", arrays.topoly(u)))
                        return i.new_arr(arrays.elementwise(g, x)) if x is not None and x.ndim else g(i.as_num(a[0]))
                    return Native(q, run)
                L = sym("L_" + f)
                alg.LOWER.setdefault(Atom("sym", "L_" + f), 0)
                tracks[f] = Stub("track", attrs={**{m: look(q) for m, q in LOOK.items()}, "total_distance": L})
            return tracks[f]
        stub = Stub("RaceTrack", attrs={"from_tum_csv": Native("from_tum_csv", track)})
        I.overrides["lumos.models.tracks.RaceTrack"] = stub
        I.load(SIM)
        if self.POINTS == "uniform":
            o.points = None
        elif self.POINTS:
            o.points = I.new_arr(base_array(self.POINTS, (o.N + 1,)))
        cfg = dict(num_intervals=o.N, interval_points=o.points, transcription=Tup(["any"]), is_cyclic=cyclic, non_cyclic_vars=I.new_list([]),
                   is_condensed=condensed, backend="jax", hessian_approximation="exact", con_output_names=Tup(["slip"]), scales=Tup([]), track=self.TRACK)
        bc = I.mod_get(CFG, "BoundaryConditionConfig")
        bo = I.mod_get(CFG, "BoundConfig")
        self.lo, self.up = sym("lo_n"), sym("up_n")
        cfg["boundary_conditions"] = Tup([call(I, bc, stage=ZERO, group="states", name="n", value=sym("n_start"))])
        cfg["bounds"] = Tup([call(I, bo, "states", "n", Tup([self.lo, self.up])), call(I, bo, "inputs", "steer", Tup([self.lo, self.up]))])
        self.cfg = call(I, I.mod_get(SIM, "LTCConfig"), **cfg)
        self.prob = o.ocp = call(I, I.mod_get(SIM, "LaptimeSimulation"), sim_config=self.cfg)
        self.file = self.TRACK
        self.user = False
        for s in steps:
            if s == "uniform":
                call(I, I.getattr(self.prob, "set_normalized_mesh"))
            elif s == "mesh":
                new = base_array("new_pts", (o.N + 1,))
                call(I, I.getattr(self.prob, "set_normalized_mesh"), I.new_arr(new))
            elif s == "user bounds":
                call(I, I.getattr(self.prob, "update_bounds"), Tup([call(I, bo, "inputs", "throttle", Tup([self.lo, self.up]))]))
                self.user = True
            else:
                call(I, I.getattr(self.prob, "set_track"), s)
                self.file = s
        m = arr_of(I, I.getattr(self.prob, "_flat_normalized_mesh"))
        if m is None:
            raise Und("mesh")
        self.mesh = m
        self.L = sym("L_" + self.file)

    def at(self, q, s):
        return P(Atom("app", f"fn_{q}_of_{self.file}", self.mesh.get((s,)) * self.L))


def ob_bounds(c, z):
    I, o = z.I, z.o
    want = {("inputs", "track_curvature"): ("curvature", "curvature"), ("inputs", "track_heading"): ("heading", "heading"),
            ("states", "n"): ("right_distance", "left_distance")}
    for (g, n), (lo, up) in want.items():
        for side, q in (("get_lb", lo), ("get_ub", up)):
            def spec(ix, q=q, g=g, n=n, side=side):
                v = z.at(q, ix[0])
                if n == "n":
                    v = -v if side == "get_lb" else v
                    v = v + (sym("n_start") - v) * delta(ix[0])
                return v
            c.eq_arr(I, call(I, I.getattr(z.prob, side), g, n), Arr((o.S,), spec), f"{'lower' if side == 'get_lb' else 'upper'} bound of {n}")
    others = ["steer"] + (["throttle"] if z.user else [])
    for n in others:
        c.eq_arr(I, call(I, I.getattr(z.prob, "get_lb"), "inputs", n), Arr((o.S,), lambda ix: z.lo), f"lower bound of {n}")
        c.eq_arr(I, call(I, I.getattr(z.prob, "get_ub"), "inputs", n), Arr((o.S,), lambda ix: z.up), f"upper bound of {n}")


def ob_mesh(c, z):
    I, o = z.I, z.o
    d = Arr((o.S,), lambda ix: z.mesh.get(ix) * z.L)
    c.eq_arr(I, I.getattr(z.prob, "distance_mesh"), d, "distance mesh")
    c.eq_arr(I, call(I, I.getattr(z.prob, "get_mesh")), d, "mesh of the problem")
    x = I.new_arr(base_array("x", (o.ndec,)))
    c.eq_poly(I.as_num(call(I, I.getattr(z.prob, "_get_mesh_scale"), x)), z.L, "mesh scale")


def ob_guess(c, z):
    """The initial guess is consistent: track at the mesh points, time from distance and speed, model outputs of these states."""
    I, o = z.I, z.o
    I.overrides["lumos.models.base.StateSpaceModel.make_vector"] = Native("make_vector", vector(z))
    g = arr_of(I, call(I, I.getattr(z.prob, "get_init_guess")))
    if g is None:
        raise Und("initial guess")
    c.eq_shape(g.shape, (o.ndec,), "initial guess")
    if o.S.const() is None:
        raise Und("symbolic number of stages")
    S = int(o.S.const())
    at = lambda grp, n, s: arrays.topoly(g.get((o.pos(grp, P(s), P((STATES if grp == "states" else INPUTS).index(n))),)))
    for s in range(S):
        c.eq_poly(at("inputs", "track_curvature", s), z.at("curvature", P(s)), f"curvature in the initial guess, stage {s}")
        c.eq_poly(at("inputs", "track_heading", s), z.at("heading", P(s)), f"heading in the initial guess, stage {s}")
    c.eq_poly(at("states", "time", 0), ZERO, "time in the initial guess, stage 0")
    for s in range(S - 1):
        dt = at("states", "time", s + 1) - at("states", "time", s)
        c.eq_poly(dt * at("states", "vx", s), (z.mesh.get((P(s + 1),)) - z.mesh.get((P(s),))) * z.L, f"time step {s} times speed in the initial guess")
    sub = lambda grp, ns: I.new_arr(Arr((o.S, P(len(ns))), lambda ix: arrays.topoly(g.get((o.pos(grp, ix[0], ix[1]),)))))
    ret = o.batched_forward(I, [sub("states", STATES), sub("inputs", INPUTS), I.new_arr(Arr((o.S,), lambda ix: z.mesh.get(ix) * z.L)), o.params], {})
    for grp, n in (("states_dot", len(STATES)), ("con_outputs", 1)):
        w = arr_of(I, I.getattr(ret, grp))
        c.eq_arr(I, I.new_arr(Arr((o.S, P(n)), lambda ix: arrays.topoly(g.get((o.pos(grp, ix[0], ix[1]),))))), w, f"{grp} in the initial guess")


def vector(z):
    def run(I, a, k):
        k = {str(x): v for x, v in k.items()}
        grp = k.pop("group", None) or a[-1]
        names = {"states": STATES, "inputs": INPUTS}[grp]
        if set(k) != set(names):
            return I.unknown(f"make_vector: {sorted(k)}")
        return I.new_arr(arrays.stack([Arr((), lambda ix, q=I.as_num(k[n]): q) for n in names]))
    return run


def run(c):
    c.explain = ("abstract interpretation of the track classes over symbolic data of symbolic or enumerated length, and of lap simulations with uninterpreted tracks "
                 "through histories of track and mesh changes; lookups, bounds, mesh and initial guess are compared with their specification")
    c.assumptions = ["numpy.interp and numpy.gradient are uninterpreted functions of their arguments", "the track file has the columns of the TUM format"]
    for how in ("data", "curvilinear", "cartesian", "file"):
        for borders in (True, False, "left", "right"):
            if how == "file" and borders is not True:
                continue
            b = lambda s, how=how, borders=borders: Data(s, how, borders)
            nm = {"data": "RaceTrack", "curvilinear": "RaceTrack.from_curvilinear", "cartesian": "RaceTrack.from_cartesian", "file": "RaceTrack.from_tum_csv"}[how]
            lab = f"{FILE}:{nm}" + ("" if borders is True else f" [only the {borders} border given]" if borders else " [default borders]")
            c.sized("each lookup reads its own data over distances from zero", lab, b, lambda z: ob_lookup(c, z), MS)
            c.sized("total distance", lab, b, lambda z: ob_total(c, z), MS)
            c.sized("track data of the caller unchanged", lab, b, lambda z: ob_kept(c, z), MS)
            if how == "file":
                c.sized("reads the given file", lab, b, lambda z: ob_file(c, z), MS)
    c.sized("positions follow the heading", f"{FILE}:curvilinear_to_cartesian", lambda s: Data(s, "data"), lambda z: ob_xy(c, z), MS)
    c.sized("constant curvature", f"{FILE}:ConstCurvTrack", Const, lambda z: ob_const(c, z), [{}])
    hist = {"track of the configuration": (), "another track": ("two",), "mesh changed": ("mesh",), "track, then mesh changed": ("two", "mesh"),
            "mesh, then track changed": ("mesh", "two"), "bounds updated, track changed": ("user bounds", "two"), "back to the first track": ("two", "one"),
            "mesh changed, then uniform": ("mesh", "uniform")}
    SZ = [dict(N=2, K=3, nr=1), dict(N=3, K=2, nr=1)]
    for cond in (False, True):
        for name, steps in hist.items():
            if cond and c.tier == "quick":
                continue
            b = lambda s, steps=steps, cond=cond: Lap(s, steps, condensed=cond)
            lab = f"{LAP} [{'condensed, ' if cond else ''}{name}]"
            c.sized("bounds follow the track at the mesh points", lab, b, lambda z: ob_bounds(c, z), SZ)
            c.sized("mesh is the normalized mesh times the track length", lab, b, lambda z: ob_mesh(c, z), SZ)
            c.sized("initial guess is on the track", lab, b, lambda z: ob_guess(c, z), SZ)
