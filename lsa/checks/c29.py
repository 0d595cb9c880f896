"""C29: invalid requests are rejected, never silently ignored."""
from ..checklib import *
from ..harness import Ocp, arr_of, new_interp, fn_term
from ..arrays import base_array, akey
from ..alg import ZERO, ONE, sym
from ..interp import Dead
from ..values import Native, Tup, Ref, Ext, ClassV, Stub
from .. import arrays, casmat, polystub
from ..casmat import Cas
from ..models import Lib, BASE
from .c18 import Ctx as Trees
from .c27 import Ctx as Poly, TR, COL, options
from .c30 import ON, KIN, DRONE, TIRE
from . import c21, c27

CFG = "lumos.optimal_control.config"
COMP = "lumos.models.composition"
NLP = "lumos.optimal_control.nlp"
SOLVER = "lumos.optimal_control.model_solver"
OP = "lumos/optimal_control/utils.py:DecVarOperator"


def variants(name, valid=()):
    """Names which are not the given one, but look like it."""
    v = [name.upper(), name.lower(), name.capitalize(), name[:-1], name + "s", name + "_", " " + name, name + " ", "x" + name, "", "no_such_name"]
    return [x for x in dict.fromkeys(v) if x != name and x not in valid]


def attempt(I, fn):
    """Runs in a copy of the state."""
    st = I.st
    I.st = st.fork()
    try:
        return fn()
    finally:
        I.st = st


def accepts(c, I, f, what, args=(), kw=None):
    def go():
        n = len(I.outcomes)
        v = call(I, f, *args, **(kw or {}))
        if isinstance(v, Unknown):
            raise Und(f"{what}: {v.reason}")
        for o in I.outcomes[n:]:
            if o.kind == "raise":
                raise Und(f"{what}: raises under an undecided condition ({o.value!r} at {o.site})"[:250])
        return v
    c.count("comparisons")
    return attempt(I, go)


def rejects(c, I, f, what, args=(), kw=None):
    if isinstance(f, Unknown) or f is None:
        raise Gone(what)
    n = len(I.outcomes)
    attempt(I, lambda: must_raise(c, I, f, kw or {}, what, list(args)))
    returned_errors(I, n, what)


def returned_errors(I, n, what):
    for o in I.outcomes[n:]:
        if o.kind == "return" and isinstance(o.value, Ref) and I.rec(o.value).kind == "exc":
            raise Bad(f"{what} returns an error instead of raising it")


# ------------------------------------------------------------------ transcriptions and schemes
def ob_transcription(c, n):
    z = Poly()
    I = z.I
    c._interps[id(I)] = I
    opts = options()
    if n not in opts:
        raise Gone(f"transcription {n}")
    f = I.mod_get(TR, "make_transcription")
    accepts(c, I, f, n, (n,))
    for v in variants(n, opts):
        rejects(c, I, f, f"make_transcription({v!r})", (v,))
        rejects(c, I, f, f"make_transcription({v!r}, options)", (v, I.new_dict([("num_stages", P(3))])))
    rejects(c, I, f, "make_transcription without a name", (None,))
    for opt in ("num_stage", "NUM_STAGES", "stages", "order", "no_such_option"):
        rejects(c, I, f, f"make_transcription({n!r}, {{{opt!r}: 3}})", (n, I.new_dict([(opt, P(3))])))
        rejects(c, I, f, f"make_transcription({n!r}, kwargs={{{opt!r}: 0}})", (n,), {"kwargs": I.new_dict([(opt, ZERO)])})


def ob_scheme(c):
    z = Poly()
    I = z.I
    c._interps[id(I)] = I
    f = I.mod_get(COL, "get_collocation_points")
    E = I.mod_get(COL, "CollocationEnum")
    lgr = I.getattr(E, "LGR")
    accepts(c, I, f, "LGR", (P(3),), {"scheme": lgr})
    for n in ("LGR", "lgr", "LG", "LGL", "", None, P(1), P(2), P(7), True):
        rejects(c, I, f, f"the scheme {n!r}", (P(3), n))
    for s in ("LGR", "LG", "LGL"):
        e = I.getattr(E, s)
        for k in (0, -1, -3):
            rejects(c, I, f, f"{k} points of {s}", (P(k), e))
    for n in ("LGX", "lgr", ""):
        rejects(c, I, Native("member", lambda i, a, k, n=n: i.getitem(E, n)), f"the member {n!r} of CollocationEnum")


# ------------------------------------------------------------------ backends
def ob_backend(c, cls):
    z = CustomBackend(c, cls)
    I, f = z.I, z.f
    for b in ("jax", "casadi", "custom"):
        accepts(c, I, f, f"backend {b}", (b,))
    if sorted(set(z.made)) != ["casadi", "custom", "jax"]:
        raise Und("implementation of the backends")
    for b in ("jax", "casadi", "custom"):
        for v in variants(b, ("jax", "casadi", "custom")) + ["numpy", "torch", None, "cas"]:
            rejects(c, I, f, f"the backend {v!r}", (v,))


class CustomBackend:
    """A model whose implementations for the backends are stand-ins."""

    def __init__(self, c, cls):
        lib = Lib(c)
        self.I = I = lib.I
        self.made = []
        self.m = lib.make(cls)
        for b in ("jax", "casadi", "custom"):
            name = f"_make_{b}_model_algebra_cons"
            if isinstance(I.getattr(self.m, name), Unknown):
                raise Gone(name)

            def run(i, a, k, b=b):
                self.made.append(b)
                return i.new_dict([("constraints", b)])
            I.setattr(self.m, name, Native(name, run))
        self.f = I.getattr(self.m, "make_model_algebra_cons")


# ------------------------------------------------------------------ composition
def ob_maker(c):
    lib = Lib(c)
    I = lib.I
    MM = I.mod_get(COMP, "ModelMaker")
    g = lambda n: I.getattr(MM, n)
    known = I.iter_items(g("_registry"))
    if known is None or not known:
        raise Und("registered models")
    for n in ("MF52", "PerantoniTire", "SimpleVehicle", "TrackPosition2D"):
        if n not in known:
            continue
        accepts(c, I, g("get_model_class"), n, (n,))
        accepts(c, I, g("make_config"), n, (n,))
        for v in variants(n, known):
            for f in ("get_model_class", "make_config", "make_model_from_name"):
                rejects(c, I, g(f), f"{f}({v!r})", (v,))
        rejects(c, I, g("add_to_registry"), f"a second model type {n}", (lib.I.getitem(g("_registry"), n),))
    CT = I.mod_get("lumos.models.tree_utils", "ConfigTree")
    bad = call(I, CT, data="NoSuchModel")
    rejects(c, I, g("make_model_from_config"), "a configuration of an unknown model type", (bad,))
    I.load_text("client", "class NewModel:\n    pass\nclass SimpleVehicle:\n    pass\n")
    new, same = I.mod_get("client", "NewModel"), I.mod_get("client", "SimpleVehicle")
    rejects(c, I, g("remove_from_registry"), "removal of a model type that is not registered", (new,))
    rejects(c, I, g("add_to_registry"), "another model type with a registered name", (same,))

    def seq():
        call(I, g("add_to_registry"), new)
        rejects(c, I, g("add_to_registry"), "a model type registered twice", (new,))
        call(I, g("remove_from_registry"), new)
        rejects(c, I, g("get_model_class"), "a removed model type", ("NewModel",))
        rejects(c, I, g("remove_from_registry"), "a model type removed twice", (new,))
    attempt(I, seq)


def ob_config(c, qual):
    """A configuration of another model is rejected, by the model and for its submodels."""
    lib = Lib(c)
    I = lib.I
    MM = I.mod_get(COMP, "ModelMaker")
    cls = lib.cls(qual)
    name = qual.rsplit(".", 1)[1]
    mk = I.getattr(MM, "make_config")
    accepts(c, I, cls, name, (), {"model_config": call(I, mk, name)})
    for other in ("MF52", "SimpleVehicle", "GPAero", "SimpleVehicleOnTrack", "DroneModel"):
        if other == name or other not in I.iter_items(I.getattr(MM, "_registry")):
            continue
        rejects(c, I, cls, f"{name} with the configuration of {other}", (), {"model_config": call(I, mk, other)})
    CT = I.mod_get("lumos.models.tree_utils", "ConfigTree")
    for v in variants(name)[:6]:
        rejects(c, I, cls, f"{name} with the configuration of {v!r}", (), {"model_config": call(I, CT, data=v)})
    cfg = call(I, mk, name)
    for p, s in submodel_paths(lib, lib.make(qual)).items():
        def go(p=p):
            call(I, I.getattr(cfg, "replace_subtree"), p, call(I, CT, data="NoSuchModel"))
            rejects(c, I, cls, f"{name} with an unknown type of {p}", (), {"model_config": cfg})
        attempt(I, go)


def submodel_paths(lib, m, p=""):
    out = {}
    for n, s in lib.submodels(m).items():
        q = (p + "." if p else "") + n
        out[q] = s
        out.update(submodel_paths(lib, s, q))
    return out


def ob_submodel(c, qual):
    lib = Lib(c)
    I = lib.I
    m = lib.make(qual)
    f = I.getattr(m, "get_submodel")
    subs = submodel_paths(lib, m)
    bad = ["", "no_such_submodel"]
    for p in subs:
        accepts(c, I, f, p, (p,))
        bad += [p + ".", "." + p, p + ".no_such_submodel", p.upper(), p[:-1], p + "s"]
        head, _, last = p.rpartition(".")
        if head:
            bad += [last, head + ".." + last, head + "/" + last]
    for b in bad:
        if b not in subs:
            rejects(c, I, f, f"the submodel {b!r}", (b,))
    cs = I.getattr(m, "call_submodel")
    rejects(c, I, cs, "a call of an unknown submodel", ("no_such_submodel",), {"inputs": I.new_dict([])})


# ------------------------------------------------------------------ trees
PATHS = ["x", "x.y", "x.y.q", "y", "z"]


def ob_tree(c, kind):
    z = Trees(c)
    I = z.I
    t = z.make(kind)
    CT = z.cls(kind)
    g = lambda n: I.getattr(t, n)
    nodes = set(z.nodes)
    bad = ["nothing", "X", "xx", "x.", "x..y", "x.y.", "x/y", "y.q", "q", "x.z", "z.x", "x.y.q.m", "a"]
    sub = call(I, CT, data=I.new_dict([]) if kind == "params" else "T")
    for p in PATHS:
        accepts(c, I, g("replace_subtree"), p, (p, sub))
        accepts(c, I, g("get_child"), p, (p,)) if "." not in p and not isinstance(g("get_child"), Unknown) else None
    for p in bad:
        rejects(c, I, g("replace_subtree"), f"replace_subtree({p!r})", (p, sub))
        if not isinstance(g("get_child"), Unknown):
            rejects(c, I, g("get_child"), f"get_child({p!r})", (p,))
    for v in (None, "Type", ONE, I.new_dict([]), I.new_dict([("data", I.new_dict([])), ("children", I.new_dict([]))]), I.new_list([])):
        rejects(c, I, g("replace_subtree"), f"a subtree that is no tree ({v!r})", ("x", v))


def ob_params(c):
    z = Trees(c)
    I = z.I
    t = z.make("params")
    good = [(p + "." if p else "") + n for p, d in z.nodes.items() for n in d]
    bad = ["", "nothing", "x", "x.y", "x.nothing", "z.a", "nothing.a", "x.y.nothing.a", "x.y.q.a", "x.y.b", "A", "x.A", "x.a.", "x..a", "aa", "x.aa", "y.v", "x.y.v", "x/a", "y.x.a"]
    v = sym("new_value")
    for p in good:
        accepts(c, I, I.getattr(t, "get_param"), f"get_param({p!r})", (p,))
        accepts(c, I, I.getattr(t, "set_param"), f"set_param({p!r})", (p, v))
        bad += [p + "x", p[:-1]]
        d = p.replace(".", "/")
        if d != p:
            accepts(c, I, I.getattr(t, "set_param"), f"set_param({d!r})", (d, v), {"delimiter": "/"})
            rejects(c, I, I.getattr(t, "set_param"), f"set_param({d + 'x'!r})", (d + "x", v), {"delimiter": "/"})
            rejects(c, I, I.getattr(t, "set_param"), f"set_param({p!r}) with another delimiter", (p, v), {"delimiter": "/"})
    for p in bad:
        if p in good:
            continue
        rejects(c, I, I.getattr(t, "get_param"), f"get_param({p!r})", (p,))
        rejects(c, I, I.getattr(t, "set_param"), f"set_param({p!r})", (p, v))


# ------------------------------------------------------------------ names of a model
def ob_model_names(c, qual, maker=None):
    lib = Lib(c)
    I = lib.I
    m = lib.make(qual)
    state = "states" in (I.iter_items(I.getattr(I.getattr(m, "names"), "_fields")) or ())
    groups = ("inputs", "outputs") + (("states", "con_outputs", "states_dot") if state else ())
    ix = I.getattr(m, "get_var_index")
    all_groups = ("states", "inputs", "outputs", "con_outputs", "residuals", "states_dot")
    bad_groups = ["", "state", "Inputs", "input", "out", "global", "no_such_group"]
    for g in groups:
        ns = lib.names(m, g)
        for n in (ns[:1] + ns[-1:]):
            accepts(c, I, ix, f"{g} {n}", (g, n))
        bad = [v for n in ns[:2] for v in variants(n, ns)] + [g + "." + n for n in ns[:1]]
        other = [n for h in groups for n in lib.names(m, h) if n not in ns][:3]
        for n in bad + other:
            if n in ns:
                continue
            rejects(c, I, ix, f"get_var_index({g!r}, {n!r})", (g, n))
            if state and g in ("states", "inputs", "con_outputs", "states_dot"):
                rejects(c, I, I.getattr(m, "get_var_index_in_flat"), f"get_var_index_in_flat({g!r}, {n!r})", (g, n))
            if g in ("inputs", "outputs", "states") and n in bad[:3]:
                f = I.getattr(m, {"inputs": "get_input", "outputs": "get_output", "states": "get_state"}[g])
                if not isinstance(f, Unknown):
                    rejects(c, I, f, f"get_{g[:-1]}({n!r})", (I.new_arr(base_array("v", (P(len(ns)),))), n))
        # all values have to be given
        vals = [(n, sym("v" + n)) for n in ns]
        for f in ("make_vector", "make_dict"):
            accepts(c, I, I.getattr(m, f), f, (g,), dict(vals))
            if ns:
                rejects(c, I, I.getattr(m, f), f"{f}({g!r}) without {ns[-1]}", (g,), dict(vals[:-1]))
                rejects(c, I, I.getattr(m, f), f"{f}({g!r}) with a misspelt {ns[0]}", (g,), dict(vals[1:] + [(ns[0] + "_", sym("w"))]))
    for b in bad_groups:
        for f in ("get_group_names", "get_num_vars", "make_const_vector", "make_random_vector", "get_direct_group_names"):
            if not isinstance(I.getattr(m, f), Unknown):
                rejects(c, I, I.getattr(m, f), f"{f}({b!r})", (b,))
        rejects(c, I, ix, f"get_var_index({b!r}, {lib.names(m, 'inputs')[0]!r})", (b, lib.names(m, "inputs")[0]))


# ------------------------------------------------------------------ problems
SIZES = dict(N=2, K=3)
NAMES = {"states": ("y", "vx", "time"), "inputs": ("steer", "throttle"), "con_outputs": ("load", "slip"), "residuals": ("err",), "outputs": ("slip", "load", "err")}


class Problem:
    def __init__(self, c, kind, condensed=False, config=None, lazy=True):
        t = lambda g: (Tup(list(g)), P(len(g)))
        self.o = o = Ocp(kind, condensed=condensed, sizes=dict(SIZES), lazy=True, mesh="uniform", config=dict(con_output_names=Tup(list(NAMES["con_outputs"])), **(config or {})),
                         groups={g: t(n) for g, n in NAMES.items()})
        self.I = I = o.I
        c._interps[id(I)] = I
        I.check = c
        self.args = dict(model=o.model, sim_config=o.cfg)
        if kind == "fixed":
            self.args["mesh_scale"] = P(7)
        self.kind = kind

    def build(self):
        self.ocp = call(self.I, self.o.cls, **self.args)
        return self.ocp

    def cfg(self, what, *a, **k):
        return call(self.I, self.I.mod_get(CFG, what), *a, **k)

    def bad(self):
        """Unknown (group, name) pairs."""
        out = []
        for g in ("states", "inputs", "con_outputs", "states_dot"):
            own = NAMES["states" if g == "states_dot" else g]
            out += [(g, n) for n in variants(own[0], own)] + [(g, n) for h in ("states", "inputs", "con_outputs", "residuals") for n in NAMES[h] if n not in own]
            out += [(g, g + "." + own[0])]
        out += [(g, n) for g in ("state", "States", "", "no_such_group", "residual", "Global", "outputs", "residuals") for n in ("y", "load")]
        out += [("global", n) for n in ("y", "mesh", "Mesh_scale", "") + (("mesh_scale",) if self.kind == "fixed" else ())]
        return out


PROB = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}


def ob_problem(c, kind, condensed, what):
    z = Problem(c, kind, condensed)
    I = z.I
    ocp = z.build()
    num = Tup([P(-1), P(1)])
    mk = {"bounds": ("update_bounds", lambda g, n: z.cfg("BoundConfig", g, n, num)),
          "boundary conditions": ("update_boundary_conditions", lambda g, n, s=ZERO: z.cfg("BoundaryConditionConfig", stage=s, group=g, name=n, value=P(1))),
          "scales": ("set_scales", lambda g, n: z.cfg("ScaleConfig", g, n, P(2)))}
    f, make = mk[what]
    fn = I.getattr(ocp, f)
    good = [(g, n) for g in ("states", "inputs", "states_dot", "con_outputs") for n in NAMES["states" if g == "states_dot" else g]]
    for g, n in good:
        accepts(c, I, fn, f"{f} of {g} {n}", (Tup([make(g, n)]),))
    okay = make("states", "y")
    for g, n in z.bad():
        if (g, n) in good:
            continue
        rejects(c, I, fn, f"{f} of the unknown variable {n!r} of {g!r}", (Tup([make(g, n)]),))
    g, n = "states", "unknown"
    rejects(c, I, fn, f"{f} of a known and an unknown variable", (Tup([okay, make(g, n)]),))
    rejects(c, I, fn, f"{f} of an unknown and a known variable", (Tup([make(g, n), okay]),))
    if what == "boundary conditions":
        S = z.o.S
        for s in (S, S + 1, -S - 1, S * 10):
            rejects(c, I, fn, f"a condition at stage {alg.show(s)}", (Tup([make("inputs", "steer", s)]),))


def ob_build(c, kind, condensed, what):
    """The same when the problem is built from its configuration."""
    num = Tup([P(-1), P(1)])
    z = Problem(c, kind, condensed)
    I = z.I
    st = I.st
    for g, n in [("states", "unknown"), ("states", "steer"), ("con_outputs", "err"), ("no_such_group", "y"), ("global", "y"), ("states_dot", "Y")]:
        v = {"bounds": lambda: z.cfg("BoundConfig", g, n, num), "scales": lambda: z.cfg("ScaleConfig", g, n, P(2)),
             "boundary_conditions": lambda: z.cfg("BoundaryConditionConfig", stage=ZERO, group=g, name=n, value=P(1))}[what]()

        def go():
            I.setattr(z.o.cfg, what, Tup([v]))
            rejects(c, I, z.o.cls, f"a problem with {what} of the unknown variable {n!r} of {g!r}", (), z.args)
        attempt(I, go)
    if what == "boundary_conditions":
        for s in (z.o.S, -z.o.S - 1):
            def go():
                I.setattr(z.o.cfg, what, Tup([z.cfg("BoundaryConditionConfig", stage=s, group="states", name="y", value=P(1))]))
                rejects(c, I, z.o.cls, f"a problem with a condition at stage {alg.show(s)}", (), z.args)
            attempt(I, go)
    accepts(c, I, z.o.cls, "a valid problem", (), z.args)


def ob_options(c, kind):
    """Unknown options, transcriptions, backends, non-cyclic variables and meshes of a problem."""
    z = Problem(c, kind, config=None)
    I = z.I
    SC = I.mod_get(CFG, "SimConfig")
    accepts(c, I, SC, "a configuration", (), {"num_intervals": P(3)})
    for k in ("num_interval", "Backend", "no_such_option", "cyclic", "tol"):
        rejects(c, I, SC, f"the option {k!r} of the configuration", (), {"num_intervals": P(3), k: ONE})
    accepts(c, I, z.o.cls, "a valid problem", (), z.args)

    def with_(what, over=None, **cfg):
        def go():
            for k, v in cfg.items():
                I.setattr(z.o.cfg, k, v)
            old = dict(I.overrides)
            I.overrides.update(over or {})
            try:
                rejects(c, I, z.o.cls, what, (), z.args)
            finally:
                I.overrides.clear()
                I.overrides.update(old)
        attempt(I, go)

    def refuse(i, a, k):
        i.raise_("ValueError", "refused")
    I.load_text("client", "def refuse(*args, **kwargs):\n    raise ValueError('refused')\n")
    no = I.mod_get("client", "refuse")
    with_("a problem with an unknown transcription", {"lumos.optimal_control.transcription.make_transcription": no})
    for n, what in (("make_model_algebra_cons", "an unknown backend"), ("set_con_outputs", "constraint outputs the model refuses")):
        old = I.getattr(z.o.model, n)
        I.setattr(z.o.model, n, no)
        with_("a problem with " + what)
        I.setattr(z.o.model, n, old)
    lit = lambda *v: I.new_arr(arrays.stack([Arr((), lambda ix, k=k: P(k)) for k in v]))
    half = ONE * alg.inverse(P(2))
    for what, pts in (("too few interval points", lit(0, 1)), ("too many interval points", lit(0, half, half, 1)), ("interval points not starting at 0", lit(half * half, half, 1)),
                      ("interval points not ending at 1", lit(0, half, half + half * half)), ("decreasing interval points", lit(0, 2, 1)), ("repeated interval points", lit(0, 0, 1)),
                      ("unnormalized interval points", lit(0, 5, 10)),
                      ("interval points starting shortly after 0", lit(alg.inverse(P(1000)), half, 1)),
                      ("interval points ending shortly after 1", lit(0, half, ONE + alg.inverse(P(1000)))),
                      ("interval points ending shortly before 1", lit(0, half, ONE - alg.inverse(P(1000))))):
        with_("a problem with " + what, interval_points=pts)
    for n in ("states.unknown", "y", "inputs.y", "states.", "States.y", "con_outputs.load", "states.y "):
        with_(f"a cyclic problem with the non-cyclic variable {n!r}", is_cyclic=True, non_cyclic_vars=I.new_list([n]))


def ob_operator(c, kind):
    z = Problem(c, kind)
    I = z.I
    op = I.getattr(z.build(), "dec_var_operator")
    S = z.o.S
    g = lambda n: I.getattr(op, n)
    x = I.new_arr(base_array("x", (z.o.ndec,)))
    accepts(c, I, g("get_var_index_in_dec"), "index", ("states", "y"))
    accepts(c, I, g("get_var_index_in_dec"), "index", ("states", "y", ZERO))
    for gr, n in z.bad():
        for f, extra in (("get_var_index_in_dec", ()), ("get_var_index_in_dec", (ZERO,)), ("get_var_index_in_group", ())):
            if f == "get_var_index_in_group" and (gr, n) in (("residuals", "err"), ("outputs", "load"), ("outputs", "y"), ("residuals", "y")):
                continue
            rejects(c, I, g(f), f"{f}({gr!r}, {n!r})", (gr, n) + extra)
        rejects(c, I, g("get_var"), f"get_var({gr!r}, {n!r})", (x, gr, n))
        ocp = z.ocp
        for f in ("get_lb", "get_ub"):
            rejects(c, I, I.getattr(ocp, f), f"{f}({gr!r}, {n!r})", (gr, n))
    for s in (S, S + 7, -S - 1):
        for f, a in (("get_var_index_in_dec", ("inputs", "steer", s)), ("get_group_indices_at_stage", ("inputs", s)), ("get_var", (x, "inputs", "steer", s))):
            rejects(c, I, g(f), f"{f} at stage {alg.show(s)}", a)
    for gr in ("state", "", "Inputs", "residuals", "global", "outputs"):
        rejects(c, I, g("get_group_indices_at_stage"), f"get_group_indices_at_stage({gr!r})", (gr, ZERO))


def ob_modify(c, kind):
    """An unknown parameter of the model of a problem is rejected."""
    z = Problem(c, kind)
    I = z.I
    T = I.mod_get("lumos.models.tree_utils", "ParameterTree")
    t = call(I, T, data=I.new_dict([("mass", sym("mass"))]))
    s = call(I, T, data=I.new_dict([("mu", sym("mu"))]))
    call(I, I.getattr(t, "add_child"), name="tire", subtree=s)
    I.setattr(z.o.model, "get_recursive_params", Native("get_recursive_params", lambda i, a, k: t))
    I.setattr(z.o.model, "set_recursive_params", Native("set_recursive_params", lambda i, a, k: None))
    ocp = z.build()
    f = I.getattr(ocp, "modify_model_param")
    for p in ("mass", "tire.mu"):
        accepts(c, I, f, p, (p, sym("v")))
    for p in ("Mass", "mas", "masss", "mu", "tire", "tire.mass", "tire.Mu", "tyre.mu", "", "tire.mu."):
        rejects(c, I, f, f"modify_model_param({p!r})", (p, sym("v")))


# ------------------------------------------------------------------ nlp
class Solve:
    """A problem whose solver is a stand-in."""

    def __init__(self, c, kind="fixed", status=0, fail=None):
        self.z = z = Problem(c, kind)
        self.I = I = z.I
        z.build()
        self.seen = []
        I.overrides["platform.system"] = Native("system", lambda i, a, k: "Linux")
        I.overrides["os.path.exists"] = Native("exists", lambda i, a, k: False)
        I.load_text("client", "def refuse(name, val):\n    raise TypeError('Error while assigning an option')\n")
        no = I.mod_get("client", "refuse")

        def option(i, a, k):
            self.seen.append(a[0])
            if fail is not None and a[0] == fail:
                return i.call(no, list(a), k)

        def solve(i, a, k):
            return Tup([a[0], i.new_dict([("status", P(status)), ("status_msg", "message")])])
        prob = Stub("ipopt problem", attrs={"add_option": Native("add_option", option), "addOption": Native("addOption", option), "solve": Native("solve", solve)})
        I.overrides["cyipopt.Problem"] = Native("Problem", lambda i, a, k: prob)
        for q in ("scaled_mesh_ocp.ScaledMeshOCP", "fixed_mesh_ocp.FixedMeshOCP"):
            I.overrides[f"lumos.optimal_control.{q}.get_init_guess"] = Native("get_init_guess", lambda i, a, k: i.new_arr(base_array("guess", (z.o.ndec,))))


KW = {"hessian_approximation": "limited-memory", "print_level": ZERO, "print_timing_statistics": "no"}


def ob_solve(c, kind):
    s = Solve(c, kind)
    I = s.I
    accepts(c, I, I.getattr(s.z.ocp, "solve"), "solve", (), dict(KW))
    if "tol" not in s.seen:
        raise Und("options reach the solver")
    for opt in ("no_such_option", "Tol", "tol", "max_iter", "output_file", "hessian_approximation", "linear_solver"):
        s = Solve(c, kind, fail=opt)
        kw = dict(KW)
        kw.setdefault(opt, "value")
        rejects(c, s.I, s.I.getattr(s.z.ocp, "solve"), f"an option {opt!r} the solver refuses", (), kw)
    for st in (-13,):
        s = Solve(c, kind, status=st)
        rejects(c, s.I, s.I.getattr(s.z.ocp, "solve"), f"an invalid number found by the solver (status {st})", (), dict(KW))


def ob_blocks(c):
    """Constraints and objectives with a name in use, or for another number of variables, are refused."""
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    I.load(NLP)
    p = call(I, I.mod_get(NLP, "CompositeProblem"), num_in=P(5))
    nothing = Native("nothing", lambda i, a, k: None)

    def block(n):
        return Stub("block", attrs={"num_in": P(n), "num_con": P(2), "set_input_scales": nothing, "set_scales": nothing, "set_con_scales": nothing})
    for add in ("add_constraints", "add_objective"):
        f = I.getattr(p, add)
        call(I, f, "first", block(5))
        accepts(c, I, f, add, ("second", block(5)))
        rejects(c, I, f, f"{add} with a name in use", ("first", block(5)))
        for n in (4, 6, 0):
            rejects(c, I, f, f"{add} for {n} variables in a problem of 5", ("second", block(n)))
    for rm in ("delete_constraints", "delete_objective"):
        f = I.getattr(p, rm)
        accepts(c, I, f, rm, ("first",))
        for n in ("second", "First", "", None):
            rejects(c, I, f, f"{rm}({n!r})", (n,))


def ob_bounds(c):
    """Bounds that are no pair of numbers or of vectors of one size, or are swapped."""
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    I.load(CFG)
    f = I.mod_get(CFG, "BoundConfig")
    v = lambda *x: I.new_arr(arrays.stack([Arr((), lambda ix, k=k: P(k)) for k in x]))
    m = I.new_arr(arrays.Arr((P(2), P(2)), lambda ix: ONE))
    for b in ((P(-1), P(1)), (P(1), P(1)), (v(1, 2), v(1, 3))):
        accepts(c, I, f, "bounds", ("states", "y", Tup(list(b))))
    for b, what in (((P(2), P(1)), "swapped numbers"), ((v(1, 2), v(3, 1)), "vectors swapped at one place"), ((v(1, 2), P(5)), "a vector and a number"), ((P(1), v(5, 5)), "a number and a vector"),
                    ((v(1, 2), v(5, 5, 5)), "vectors of different sizes"), ((m, m), "matrices"), ((v(1, 2), m), "a vector and a matrix"), ((P(1),), "one number"),
                    ((P(1), P(2), P(3)), "three numbers"), ((None, P(1)), "no lower bound")):
        rejects(c, I, f, f"bounds given by {what}", ("states", "y", Tup(list(b))))


def ob_window(c):
    """Windows that do not fit the sequence."""
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    U = "lumos.optimal_control.utils"
    I.load(U)
    f = I.mod_get(U, "batch_conv1d")
    if f is None or isinstance(f, Unknown):
        raise Gone("batch_conv1d")
    x = lambda n: I.new_arr(base_array("x", (P(n), P(2))))
    for n, w, s in ((7, 3, 2), (9, 3, 2), (5, 2, 1), (4, 4, 3), (10, 4, 3), (9, 5, 4)):
        accepts(c, I, f, "windows", (x(n), P(w), P(s)))
    for n, w, s in ((8, 3, 2), (10, 3, 2), (9, 4, 3), (7, 2, 2)):
        rejects(c, I, f, f"windows of {w} every {s} in a sequence of {n}", (x(n), P(w), P(s)))


def ob_decorator(c):
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    I.load(BASE)
    I.load_text("client", "from lumos.models.base import Model, StateSpaceModel\nclass Plain:\n    pass\nclass Stateless(Model):\n    pass\nclass Good(StateSpaceModel):\n    pass\n")
    d = call(I, I.mod_get(BASE, "state_space_io"), states=Tup(["a"]))
    accepts(c, I, d, "a state space model", (I.mod_get("client", "Good"),))
    for n in ("Plain", "Stateless"):
        rejects(c, I, d, f"states of the class {n}", (I.mod_get("client", n),))


# ------------------------------------------------------------------ model solver
class Solver:
    def __init__(self, c):
        self.I = I = new_interp()
        c._interps[id(I)] = I
        I.check = c
        for m in (NLP, BASE, SOLVER):
            I.load(m)
        self.names = dict(NAMES, states_dot=NAMES["states"])
        g = ("states", "inputs", "states_dot", "con_outputs")
        off, n = {}, 0
        for k in g:
            for v in self.names[k]:
                off[k, v] = n
                n += 1
        nres = 2 + 2 + 1

        def flat(i, a, k):
            d = dict(zip(("group", "name"), a))
            d.update(k)
            return P(off[d["group"], d["name"]])
        tree = Stub("tree", attrs={"tree_ravel": Native("ravel", lambda i, a, k: Tup([i.new_arr(base_array("params", (P(2),))), Native("unravel", lambda i, a, k: tree)]))})
        nm = Stub("names", attrs={k: Tup(list(v)) for k, v in self.names.items()})
        self.model = Stub("model", isa=("lumos.models.base.StateSpaceModel",), attrs={
            "names": nm, "implicit_inputs": Tup(list(g)), "num_implicit_var": P(n), "num_residuals": P(1), "num_implicit_res": P(nres),
            "set_con_outputs": Native("set_con_outputs", lambda i, a, k: None), "get_recursive_params": Native("params", lambda i, a, k: tree),
            "make_model_algebra_cons": Native("make", lambda i, a, k: i.new_dict([(k, Native(k, lambda i, a, k: None)) for k in ("constraints", "jacobian", "hessian")])),
            "model_algebra": Stub("algebra", attrs={"num_in": P(n), "num_con": P(nres), "constraints": Native("constraints", lambda i, a, k: None),
                                                    "jacobianstructure": Native("js", lambda i, a, k: self.struct(i, nres, n)), "hessianstructure": Native("hs", lambda i, a, k: self.struct(i, n, n))}),
            "get_group_names": Native("get_group_names", lambda i, a, k: Tup(list(self.names[a[0]]))),
            "get_var_index_in_flat": Native("get_var_index_in_flat", flat),
        })
        self.cls = I.mod_get(SOLVER, "ModelSolver")
        if not isinstance(self.cls, ClassV):
            raise Gone("ModelSolver")

    def struct(self, I, r, q):
        return Tup([I.new_arr(base_array("r", (P(3),), up=P(r), integer=True)), I.new_arr(base_array("q", (P(3),), up=P(q), integer=True))])


def ob_solver(c):
    z = Solver(c)
    I = z.I
    kw = dict(model=z.model, con_outputs=Tup(list(NAMES["con_outputs"])))
    s = call(I, z.cls, backend="casadi", **kw)
    if not isinstance(s, Ref):
        raise Und("model solver")
    for b in ("jax", "custom", "Casadi", "", None):
        rejects(c, I, z.cls, f"the backend {b!r} of a model solver", (), dict(kw, backend=b))
    p = Problem.__new__(Problem)
    p.kind = "fixed"
    x = I.new_arr(base_array("x", (P(8),)))
    iv = Tup([P(-1), P(1)])
    accepts(c, I, I.getattr(s, "set_bounds"), "bounds", ("states", "y", iv))
    accepts(c, I, I.getattr(s, "get_bounds"), "bounds", ("inputs", "steer"))
    accepts(c, I, I.getattr(s, "set_var_scale"), "scale", ("states", "y", P(2)))
    for g, n in p.bad():
        rejects(c, I, I.getattr(s, "set_bounds"), f"set_bounds({g!r}, {n!r})", (g, n, iv))
        rejects(c, I, I.getattr(s, "get_bounds"), f"get_bounds({g!r}, {n!r})", (g, n))
        rejects(c, I, I.getattr(s, "set_var_scale"), f"set_var_scale({g!r}, {n!r})", (g, n, P(2)))
        rejects(c, I, I.getattr(s, "get_var_idx"), f"get_var_idx({g!r}, {n!r})", (g, n))
        rejects(c, I, I.getattr(s, "get_var"), f"get_var({g!r}, {n!r})", (x, g, n))
    rejects(c, I, I.getattr(s, "set_bounds"), "a lower bound above the upper bound", ("states", "y", Tup([P(2), P(1)])))
    for v in (ZERO, P(-1)):
        rejects(c, I, I.getattr(s, "set_var_scale"), f"the scale {alg.show(v)}", ("states", "y", v))


# ------------------------------------------------------------------ array backend
CN = "lumos.numpy.casadi_numpy"
AXES = [2, 3, -3, 7, "0", "rows"]
# function -> (module, arguments from a matrix and a vector, accepted axes)
ARRAY = {
    "concatenate": (CN + ".array", lambda I, m, v: [Tup([m, m])], [0, 1], True),
    "stack": (CN + ".array", lambda I, m, v: [Tup([v, v])], [0, 1], True),
    "sum": (CN + ".arithmetic", lambda I, m, v: [m], [0, 1], True),
    "mean": (CN + ".arithmetic", lambda I, m, v: [m], [0, 1], True),
    "split": (CN + ".array", lambda I, m, v: [m, P(1)], [0, 1], True),
    "roll": (CN + ".array", lambda I, m, v: [m, P(1)], [], True),
    "diff": (CN + ".calculus", lambda I, m, v: [v], [], True),
    "cross": (CN + ".linalg_top_level", lambda I, m, v: [v, v], [], True),
    "norm": (CN + ".linalg", lambda I, m, v: [m], [0, 1], True),
}


class CasNp:
    def __init__(self, c):
        self.I = I = new_interp()
        c._interps[id(I)] = I
        I.check = c
        casmat.install(I)
        self.m = Cas(base_array("m", (P(2), P(2))), "casadi.MX")
        self.v = Cas(base_array("v", (P(3), ONE)), "casadi.MX")

    def f(self, mod, name):
        self.I.load(mod)
        f = self.I.mod_get(mod, name)
        if f is None or isinstance(f, Unknown):
            raise Gone(f"{mod}.{name}")
        return f


def ob_axis(c, name):
    z = CasNp(c)
    I = z.I
    mod, args, good, _ = ARRAY[name]
    f = z.f(mod, name)
    a = args(I, z.m, z.v)
    for x in good:
        accepts(c, I, f, f"{name} along axis {x}", a, {"axis": P(x)})
    for x in AXES:
        rejects(c, I, f, f"{name} along axis {x!r}", a, {"axis": x if isinstance(x, str) else P(x)})


def ob_norm(c):
    """A norm which does not exist for this axis is rejected, not computed along another one."""
    z = CasNp(c)
    I = z.I
    f = z.f(CN + ".linalg", "norm")
    inf = I.getattr(Ext("numpy"), "inf")
    accepts(c, I, f, "the frobenius norm", (z.m, "fro"))
    for x in (0, 1, -1):
        rejects(c, I, f, f"the frobenius norm along axis {x}", (z.m, "fro"), {"axis": P(x)})
        rejects(c, I, f, f"the maximum norm of a matrix along axis {x}", (z.m, inf), {"axis": P(x)})


def ob_misc(c):
    z = CasNp(c)
    I = z.I
    rejects(c, I, z.f(CN + ".interpolate", "interp"), "periodic interpolation", (z.v, I.new_list([ZERO, ONE]), I.new_list([ZERO, ONE])), {"period": P(2)})
    for k in (1, -1, 2):
        rejects(c, I, z.f(CN + ".array", "diag"), f"the diagonal {k}", (z.v, P(k)))
    rejects(c, I, z.f(CN + ".array", "stack"), "a stack of matrices", (Tup([z.m, z.m]),))
    for n in ("column_stack", "row_stack"):
        rejects(c, I, z.f(CN + ".array", n), f"{n} of matrices", (Tup([z.m, z.v]),))
    rejects(c, I, z.f(CN + ".array", "split"), "a split into unequal parts", (z.m, P(3)), {"axis": ZERO})
    f = z.f(CN + ".finite_difference_operators", "finite_difference_coefficients")
    x = I.new_arr(base_array("x", (P(3),)))
    for d in (0, -1):
        rejects(c, I, f, f"the derivative of degree {d}", (x,), {"derivative_degree": P(d)})
    rejects(c, I, f, "a derivative of a degree the points do not determine", (x,), {"derivative_degree": P(3)})


def ob_map(c, name):
    """Axes other than the first are refused; one axis per argument is needed, in any sequence."""
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    I.load("lumos.numpy.utils")
    f = I.mod_get("lumos.numpy.utils", name)
    if f is None or isinstance(f, Unknown):
        raise Gone(name)
    if name == "cmap":
        add = c21.External("fn", (0, 1), [("0", 2)]).stub
    else:
        def run(i, a, k):
            return i.new_arr(Arr((P(2),), lambda ix: fn_term("fn.0", (ix[0],), *[akey(arr_of(i, v)) for v in a])))
        add = Native("fn", run)
    x, y = I.new_arr(base_array("x", (P(3), P(2)))), I.new_arr(base_array("y", (P(3), P(2))))
    row = I.new_arr(base_array("y", (P(2),)))

    def go(axes, b):
        def run(i, a, k):
            m = i.call(f, [add], {} if axes is Ellipsis else {"in_axes": axes})
            return i.call(m, [x, b], {})
        return Native("mapped", run)
    L = lambda *v: I.new_list(list(v))
    n = P

    def good(axes, b, want, what):
        v = accepts2(c, I, go(axes, b), what)
        c.eq_arr(I, v, want, what)
    X, Y = arr_of(I, x), arr_of(I, y)
    R = arr_of(I, row)
    at = lambda a, s: akey(Arr((P(2),), lambda ix: a.get((P(s), ix[0]))))
    full = Arr((P(3), P(2)), lambda ix: c21.pick(ix[0], 3, lambda s: fn_term("fn.0", (ix[1],), at(X, s), at(Y, s))))
    one = Arr((P(3), P(2)), lambda ix: c21.pick(ix[0], 3, lambda s: fn_term("fn.0", (ix[1],), at(X, s), akey(R))))
    for axes, what in ((Ellipsis, "by default"), (ZERO, "over axis 0"), (L(ZERO, ZERO), "over a list of axes"), (Tup([ZERO, ZERO]), "over a tuple of axes")):
        good(axes, y, full, what)
    for axes, what in ((L(ZERO, None), "over the first argument only"), (Tup([ZERO, None]), "over the first argument only, given by a tuple")):
        good(axes, row, one, what)
    for axes in (ONE, P(-1), P(2), L(ONE, ZERO), L(ZERO, ONE), Tup([ONE, None]), Tup([ZERO, ONE]), L(ZERO, P(2)), L(P(-2), ZERO)):
        rejects(c, I, go(axes, y), f"{name} over the axes {axes!r}")
    for axes in (L(ZERO), L(ZERO, ZERO, ZERO), Tup([ZERO]), L(), Tup([ZERO, None, None])):
        rejects(c, I, go(axes, y), f"{name} of two arguments with the axes {axes!r}")


def accepts2(c, I, f, what):
    n = len(I.outcomes)
    v = call(I, f)
    if isinstance(v, Unknown):
        raise Und(f"{what}: {v.reason}")
    return v


def run(c):
    c.explain = ("abstract interpretation of every place which takes a name, an axis, a type or an option: a valid request is accepted, and each invalid one "
                 "(misspelt, of another group, out of range, of another type) must end in a raise that nothing on its way handles")
    c.assumptions = ["invalid values are enumerated: near misses of valid names, names of other groups, other types, positions out of range",
                     "the solver reports an option it does not know by a TypeError, as cyipopt does"]
    c27.CHECK[:] = [c]
    T = "lumos/optimal_control/transcription.py:make_transcription"
    for n in ("ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"):
        c.ob("unknown transcriptions and options are rejected", f"{T} [{n}]", ob_transcription, c, n, group="tr")
    c.ob("unknown collocation schemes are rejected", "lumos/optimal_control/collocation.py:get_collocation_points", ob_scheme, c, group="tr")
    for q in (KIN, ON):
        c.ob("unknown backends are rejected", f"lumos/models/base.py:StateSpaceModel.make_model_algebra_cons [{q.rsplit('.', 1)[1]}]", ob_backend, c, q)
    c.ob("unknown model types are rejected", "lumos/models/composition.py:ModelMaker", ob_maker, c)
    for q in (KIN, ON):
        c.ob("configurations of other models are rejected", f"lumos/models/composition.py:CompositeModel.__init__ [{q.rsplit('.', 1)[1]}]", ob_config, c, q)
    c.ob("unknown submodels are rejected", "lumos/models/composition.py:CompositeModel.get_submodel", ob_submodel, c, ON)
    for k in ("params", "config"):
        c.ob("unknown subtrees are rejected", f"lumos/models/tree_utils.py:Tree [{k}]", ob_tree, c, k, group="tree")
    c.ob("unknown parameters are rejected", "lumos/models/tree_utils.py:ParameterTree", ob_params, c, group="tree")
    for q in (KIN, TIRE, DRONE) + ((ON,) if c.tier == "thorough" else ()):
        c.ob("unknown variables and groups are rejected", f"lumos/models/base.py:Model [{q.rsplit('.', 1)[1]}]", ob_model_names, c, q)
    for kind in ("scaled", "fixed"):
        for cond in (False, True) if c.tier == "thorough" or kind == "scaled" else (False,):
            lab = f"{PROB[kind]} [{'condensed' if cond else 'simultaneous'}]"
            for w in ("bounds", "boundary conditions", "scales"):
                c.ob(f"{w} of unknown variables are rejected", lab, ob_problem, c, kind, cond, w)
            for w in ("bounds", "boundary_conditions", "scales") if not cond or c.tier == "thorough" else ():
                c.ob(f"a problem with {w.replace('_', ' ')} of unknown variables is rejected", lab, ob_build, c, kind, cond, w)
        c.ob("unknown options of a problem are rejected", PROB[kind], ob_options, c, kind)
        c.ob("unknown variables, groups and stages are rejected", f"{OP} [{kind}]", ob_operator, c, kind)
        c.ob("unknown parameters of the model are rejected", PROB[kind] + ".modify_model_param", ob_modify, c, kind)
        c.ob("errors of the solver are not swallowed", f"lumos/optimal_control/nlp.py:BaseProblem.solve [{kind}]", ob_solve, c, kind)
    c.ob("unknown variables, groups and backends are rejected", "lumos/optimal_control/model_solver.py:ModelSolver", ob_solver, c)
    c.ob("blocks that do not fit a problem are rejected", "lumos/optimal_control/nlp.py:CompositeProblem", ob_blocks, c, group="np")
    c.ob("invalid bounds are rejected", "lumos/optimal_control/config.py:BoundConfig", ob_bounds, c, group="np")
    c.ob("windows that do not fit are rejected", "lumos/optimal_control/utils.py:batch_conv1d", ob_window, c, group="np")
    c.ob("states of models without states are rejected", "lumos/models/base.py:state_space_io", ob_decorator, c, group="np")
    for n in ARRAY:
        c.ob("axes that do not exist are rejected", f"{ARRAY[n][0].replace('.', '/')}.py:{n}", ob_axis, c, n, group="np")
    c.ob("axes are not ignored", "lumos/numpy/casadi_numpy/linalg.py:norm", ob_norm, c, group="np")
    c.ob("requests that are not implemented are rejected", "lumos/numpy/casadi_numpy", ob_misc, c, group="np")
    for n in ("cmap", "lmap"):
        c.ob("axes to map are honoured or rejected", f"lumos/numpy/utils.py:{n}", ob_map, c, n, group="map")
