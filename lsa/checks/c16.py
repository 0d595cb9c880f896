"""C16: boundary conditions win over bounds; bounds land at their variable, on their side, and are checked first."""
from ..checklib import *
from ..harness import Ocp, arr_of, name_str, names_with
from ..arrays import base_array, reshape, concat
from ..alg import ZERO, ONE, index, dim, sym
from .. import arrays

CFG = "lumos.optimal_control.config"
FILES = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}
PRE = {"states": "state", "inputs": "input", "con_outputs": "con", "states_dot": "state"}
SETTERS = {"states": "set_state_bounds", "inputs": "set_input_bounds", "con_outputs": "set_con_output_bounds"}


class Ctx:
    def __init__(self, sizes, kind="scaled", condensed=False, cyclic=False, initial=(), steps=(), two=False):
        sizes = dict(sizes or {})
        conc = bool(sizes)
        groups = {}
        if kind == "fixed":
            groups["states"] = names_with("state", "time", P(sizes.pop("ns", 2)) if conc else dim("n_before", 1), 0)
        self.o = o = Ocp(kind, condensed=condensed, cyclic=cyclic, sizes=sizes, lazy=True, groups=groups)
        self.I = I = o.I
        less = 1 if groups else 0
        D = o.D
        size = {"states": D.ns - less, "inputs": D.nu, "states_dot": D.ns - less, "con_outputs": D.nc}
        self.pick = {g: P(P(n).const() - 1) if P(n).const() is not None else P(index(n, "q" + g)) for g, n in size.items()}
        self.pick2 = {g: ZERO for g in size}
        self.lo = {}
        self.bcs = []
        self.n = 0
        self.bounds = []          # (group, pick, stage or None, lower, upper), in order
        st = self.stages = {"first": ZERO, "last": o.S - 1, "minus one": P(-1)}
        if conc:
            st["middle"] = P(1)
        else:
            st["middle"] = P(index(o.S, "st"))
        ib = [self.config(x) for x in initial if x[0] == "bound"]
        ic = [self.config(x) for x in initial if x[0] == "bc"]
        I.setattr(o.cfg, "bounds", Tup(ib))
        I.setattr(o.cfg, "boundary_conditions", Tup(ic))
        kw = dict(model=o.model, sim_config=o.cfg)
        if kind == "fixed":
            kw["mesh_scale"] = o.scale
        if condensed:
            self.bounds.append(("states_dot", None, None, lambda s: ZERO, lambda s: ZERO))
        o.ocp = call(I, o.cls, **kw)
        self.kw = kw
        for x in steps:
            if x[0] == "solver scales":
                sc = I.mod_get(CFG, "ScaleConfig")
                call(I, I.getattr(o.ocp, "set_scales"), Tup([call(I, sc, "states", name_str("state", self.pick["states"]), sym("some_scale"))]))
                continue
            if x[0] == "direct":
                g, what, stage = x[1:]
                lo, up = self.values("scalar")
                call(I, I.getattr(o.ocp, SETTERS[g]), self.name(g, what), self.stages[stage], Tup([lo, up]))
                self.bounds.append((g, self.where(g, what), self.at(stage), lambda s, v=lo: v, lambda s, v=up: v))
                continue
            v = self.config(x)
            f = "update_bounds" if x[0] == "bound" else "update_boundary_conditions"
            call(I, I.getattr(o.ocp, f), Tup([v]))
        if two:
            # another problem of the same class with other conditions
            other = call(I, o.cls, **kw)
            bc = call(I, I.mod_get(CFG, "BoundaryConditionConfig"), stage=ZERO, group="inputs", name=self.name("inputs", ""), value=sym("other_bc"))
            call(I, I.getattr(other, "update_boundary_conditions"), Tup([bc]))
            b = call(I, I.mod_get(CFG, "BoundConfig"), "states", self.name("states", ""), Tup(list(self.values("scalar"))))
            call(I, I.getattr(other, "update_bounds"), Tup([b]))
            call(I, I.getattr(o.ocp, "update_bounds"), Tup([]))

    def where(self, g, what):
        return self.pick2[g] if what == "other" else self.pick[g]

    def name(self, g, what):
        return name_str(PRE[g], self.where(g, what))

    def at(self, stage):
        s = self.stages[stage]
        return self.o.S - 1 if stage == "minus one" else s

    def values(self, kind):
        """A lower and an upper value: numbers, or one per stage."""
        I = self.I
        self.n += 1
        if kind == "array":
            return [I.new_arr(base_array(f"{s}{self.n}", (self.o.S,))) for s in ("lo", "up")]
        lo = sym(f"lo{self.n}")
        return [lo, sym(f"up{self.n}")]

    def config(self, x):
        I = self.I
        kind, g, what = x[:3]
        if kind == "bc":
            self.n += 1
            v = sym(f"bc{self.n}")
            self.bcs.append((g, self.where(g, what), self.at(x[3]), v))
            return call(I, I.mod_get(CFG, "BoundaryConditionConfig"), stage=self.stages[x[3]], group=g, name=self.name(g, what), value=v)
        lo, up = self.values(x[3])
        fs = []
        for v in (lo, up):
            a = arr_of(I, v)
            fs.append((lambda s, a=a: a.get((s,))) if a is not None else (lambda s, v=v: v))
        self.bounds.append((g, self.where(g, what), None, *fs))
        return call(I, I.mod_get(CFG, "BoundConfig"), g, self.name(g, what), Tup([lo, up]))

    def spec(self, side):
        """Bound of every position after the history."""
        o = self.o
        base = -INF if side == 0 else INF

        def get(ix):
            s, j = ix
            r = base
            for g, p, stage, lo, up in self.bounds:
                v = (lo, up)[side](s)
                if p is None:
                    r = r + (v - r) * (sum_ind(j - o.off[g]) - sum_ind(j - o.off[g] - o.D.ns))
                    continue
                d = delta(j - o.off[g] - p)
                if stage is not None:
                    d = d * delta(s - stage)
                r = r + (v - r) * d
            for g, p, stage, v in self.bcs:
                r = r + (v - r) * delta(j - o.off[g] - p) * delta(s - stage)
            return r
        flat_ = reshape(Arr((o.S, o.nv), get), (o.S * o.nv,))
        if o.kind == "scaled":
            return concat([flat_, Arr((ONE,), lambda ix: base)], 0)
        return flat_


def sum_ind(d):
    """1 where d >= 0."""
    return 1 - arrays.indicator(arrays.Cond("lt", d))


INF = None


def infinity(I):
    global INF
    v = I.as_num(I.getattr(I.import_module("numpy") if hasattr(I, "import_module") else Ext("numpy"), "inf"))
    INF = v
    return v


def ob_bounds(c, z):
    I, o = z.I, z.o
    infinity(I)
    for side, n in ((0, "lb"), (1, "ub")):
        c.eq_arr(I, I.getattr(o.ocp, n), z.spec(side), f"{'lower' if side == 0 else 'upper'} bounds")


def ob_get(c, z):
    """Bounds of a variable as reported: one per stage."""
    I, o = z.I, z.o
    infinity(I)
    for side, n in ((0, "get_lb"), (1, "get_ub")):
        sp = z.spec(side)
        for g in ("states", "inputs", "con_outputs"):
            got = call(I, I.getattr(o.ocp, n), g, z.name(g, ""))
            c.eq_arr(I, got, Arr((o.S,), lambda ix: sp.get((o.pos(g, ix[0], z.pick[g]),))), f"{n} of {g}")


def snap(z):
    return [arr_of(z.I, z.I.getattr(z.o.ocp, n)) for n in ("lb", "ub")]


def attempt(c, z, f, *a):
    """Bounds whenever the call raises: as they were before."""
    I, o = z.I, z.o
    before = snap(z)
    n = len(I.outcomes)
    keep = I.st.fork()
    try:
        I.call(I.getattr(o.ocp, f), list(a), {})
        done = True
    except Dead:
        done = False
    out = [q for q in I.outcomes[n:] if q.kind == "raise"]
    for q in out:
        if q.state is None:
            raise Und("state at the raise")
        I.st = q.state.fork()
        for v, b, w in zip((I.getattr(o.ocp, "lb"), I.getattr(o.ocp, "ub")), before, ("lower", "upper")):
            c.eq_arr(I, v, b, f"{w} bounds after a rejected request")
    I.st = keep
    return done, out


def ob_checked(c, z):
    """A lower value above the upper one, or an array of the wrong size, is rejected and changes nothing."""
    I, o = z.I, z.o
    nm = z.name("states", "")
    done, out = attempt(c, z, "set_state_bounds", nm, ZERO, Tup([P(2), P(1)]))
    if done and not out:
        raise Bad("set_state_bounds accepts a lower bound of 2 with an upper bound of 1")
    if done:
        raise Und("set_state_bounds rejects only under a condition")
    for k, (g, f) in enumerate(SETTERS.items()):
        lo, up = sym("any_lo"), sym("any_up")
        done, out = attempt(c, z, f, z.name(g, ""), ZERO, Tup([lo, up]))
        if not out:
            raise Bad(f"{f} accepts any pair of bounds without a check")
    short = [I.new_arr(base_array(n, (o.S + 1,))) for n in ("long_lo", "long_up")]
    cfg = call(I, I.mod_get(CFG, "BoundConfig"), "inputs", z.name("inputs", ""), Tup(short))
    done, out = attempt(c, z, "update_bounds", Tup([cfg]))
    if done and not out:
        raise Bad("bounds of the wrong size are accepted")


def ob_every_stage(c, z):
    """Bounds that are wrong at one stage only are rejected, whichever stage that is."""
    I, o = z.I, z.o
    S = int(P(o.S).const())
    for g, f in SETTERS.items():
        for bad in range(S):
            lo = I.new_arr(arrays.stack([Arr((), lambda ix, k=k: P(2 if k == bad else 0)) for k in range(S)]))
            up = I.new_arr(arrays.stack([Arr((), lambda ix: ONE) for k in range(S)]))
            for what, v in (("one value per stage", [lo, up]), ("one upper value for all stages", [lo, ONE])):
                done, out = attempt(c, z, f, z.name(g, ""), None, Tup(v))
                if done and not out:
                    raise Bad(f"{f} accepts bounds whose lower one is above the upper one at stage {bad} only ({what})")


def config_rules(c, I):
    I.load(CFG)
    bc = I.mod_get(CFG, "BoundConfig")
    arr = lambda n, *sh: I.new_arr(base_array(n, tuple(P(s) for s in sh)))
    lit = lambda *v: I.new_arr(arrays.stack([Arr((), lambda ix, k=k: P(k)) for k in v]))
    must_raise(c, I, bc, dict(group="states", name="x", values=Tup([P(2), P(1)])), "a lower bound above the upper bound")
    must_raise(c, I, bc, dict(group="states", name="x", values=Tup([lit(0, 2, 0), lit(1, 1, 1)])), "a lower bound above the upper bound at one stage")
    must_raise(c, I, bc, dict(group="states", name="x", values=Tup([lit(0, 0, 0), lit(1, 1)])), "bounds of different sizes")
    must_raise(c, I, bc, dict(group="states", name="x", values=Tup([P(0), lit(1, 1)])), "a number with an array")
    must_raise(c, I, bc, dict(group="states", name="x", values=Tup([arr("a", 2, 2), arr("b", 2, 2)])), "bounds with two axes")
    n = len(I.outcomes)
    for v in ([P(1), P(1)], [P(0), P(1)], [lit(0, 0), lit(0, 1)]):
        b = call(I, bc, group="states", name="x", values=Tup(v))
        got = I.iter_items(I.getattr(b, "values"))
        for p, q in zip(got, v):
            if arr_of(I, q) is not None:
                c.eq_arr(I, p, arr_of(I, q), "stored bounds")
            else:
                c.eq_poly(I.as_num(p), q, "stored bound")


HIST = [
    ("bounds then conditions in the configuration", [("bound", "states", "", "array"), ("bound", "inputs", "", "scalar"), ("bc", "states", "", "first"), ("bc", "con_outputs", "", "last")], []),
    ("bounds after conditions", [("bc", "states", "", "first"), ("bc", "states", "", "middle")], [("bound", "states", "", "array"), ("bound", "inputs", "", "array")]),
    ("conditions added twice, then bounds", [("bc", "states", "", "first")], [("bc", "inputs", "", "minus one"), ("bound", "inputs", "", "scalar"), ("bc", "con_outputs", "", "middle"),
                                                                          ("bound", "states", "", "scalar"), ("bound", "con_outputs", "", "array")]),
    ("bounds overridden by later bounds", [("bound", "states", "", "scalar"), ("bound", "states", "", "array")], [("bound", "con_outputs", "", "array"), ("bound", "con_outputs", "", "scalar"), ("bound", "states", "other", "scalar")]),
    ("a later condition at the same place", [("bc", "inputs", "", "middle")], [("bc", "inputs", "", "middle"), ("bound", "inputs", "", "array")]),
    ("direct settings and scales", [("bc", "states", "", "last")], [("direct", "inputs", "", "first"), ("direct", "con_outputs", "", "middle"), ("solver scales",), ("bound", "states", "", "scalar")]),
]


def run(c):
    c.explain = ("abstract interpretation of histories of bound and boundary condition updates on a problem with symbolic sizes; the stored lower and "
                 "upper bounds of every position are compared with the specified last-wins composition; rejected requests are examined in the state at the raise")
    c.assumptions = ["histories are enumerated; variables, stages and values within them are symbolic"]
    for kind in ("scaled", "fixed"):
        for condensed in (False, True):
            for name, init, steps in HIST:
                if condensed and (c.tier == "quick" or kind == "fixed") and name not in (HIST[1][0], HIST[2][0] if kind == "scaled" else ""):
                    continue
                b = lambda s, a=(kind, condensed, False, init, steps): Ctx(s, *a)
                lab = f"{FILES[kind]} [{kind}{', condensed' if condensed else ''}: {name}]"
                c.sized("bounds after the history", lab, b, lambda z: ob_bounds(c, z))
                c.sized("reported bounds of a variable", lab, b, lambda z: ob_get(c, z))
        b = lambda s, kind=kind: Ctx(s, kind, False, False, HIST[1][1], HIST[1][2], True)
        c.sized("other problems have their own conditions", f"{FILES[kind]} [{kind}: two problems]", b, lambda z: ob_bounds(c, z))
        b = lambda s, kind=kind: Ctx(s, kind, False, False, HIST[1][1], HIST[1][2])
        c.sized("bounds are checked before they are stored", f"{FILES[kind]} [{kind}]", b, lambda z: ob_checked(c, z))
        b = lambda s, kind=kind: Ctx(SIZES[0], kind, False, False, HIST[1][1], HIST[1][2])
        c.sized("bounds are checked at every stage", f"{FILES[kind]} [{kind}]", b, lambda z: ob_every_stage(c, z))

    def cfg():
        from ..harness import new_interp
        I = new_interp()
        c._interps[id(I)] = I
        config_rules(c, I)
    c.ob("bound values are checked", "lumos/optimal_control/config.py:BoundConfig", cfg)
