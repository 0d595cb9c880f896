"""C17: configurations are never modified, shared or lost."""
from ..checklib import *
from ..harness import arr_of, new_interp
from ..arrays import base_array, Arr
from ..alg import sym, ZERO, ONE, dim
from ..values import Native, Tup, Ref, ClassV, Unknown, ObjR, DictR, ListR, ArrR, vkey
from ..pure import reach, unmodified, wreck
from ..models import Lib
from .. import arrays, alg, trees
from . import c14, c25, c26, c33
from fractions import Fraction

CFG = "lumos.optimal_control.config"
CF = "lumos/optimal_control/config.py"
SIM = "lumos.simulations.laptime_simulation"
DRN = "lumos.simulations.drone_simulation"
FILES = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}


# ------------------------------------------------------------------ dictionaries and back
def typed(I, v, depth=0):
    """Typed content: class and fields of configurations, kinds of containers, values."""
    if depth > 10:
        raise Und("nesting")
    if isinstance(v, Unknown):
        b = I.check.shape_bug(I) if getattr(I, "check", None) else None
        raise Bad(b) if b else Und(f"{v.reason}"[:200])
    if v is None or isinstance(v, (bool, str)):
        return ("const", v)
    if isinstance(v, Tup):
        return ("tuple", [typed(I, x, depth + 1) for x in v.items])
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, ObjR):
            if not isinstance(r.cls, ClassV):
                raise Und("object")
            return ("object " + r.cls.qual, {n: typed(I, x, depth + 1) for n, x in r.attrs.items() if not n.startswith("__")})
        if isinstance(r, DictR):
            ks = I.iter_items(v)
            if ks is None or any(not isinstance(k, str) for k in ks):
                raise Und("keys")
            return ("dict", {k: typed(I, I.getitem(v, k), depth + 1) for k in ks})
        if isinstance(r, ListR):
            xs = I.iter_items(v)
            if xs is None:
                raise Und("items")
            return ("list", [typed(I, x, depth + 1) for x in xs])
        if isinstance(r, ArrR):
            return ("array", arr_of(I, v))
    p = I.as_num(v)
    if p is not None:
        return ("number", p)
    raise Und(f"{v!r}"[:200])


def same(c, I, got, want, what):
    (kg, g), (kw, w) = got, want
    c.count("comparisons")
    if kg != kw:
        raise Bad(f"{what}: {kg.rpartition('.')[2]} instead of {kw.rpartition('.')[2]}")
    if isinstance(w, dict):
        if set(g) != set(w):
            raise Bad(f"{what}: {sorted(g)} instead of {sorted(w)}"[:300])
        for k in w:
            same(c, I, g[k], w[k], f"{what}.{k}")
    elif isinstance(w, list):
        if len(g) != len(w):
            raise Bad(f"{what}: {len(g)} items instead of {len(w)}")
        for k, (x, y) in enumerate(zip(g, w)):
            same(c, I, x, y, f"{what}[{k}]")
    elif kw == "array":
        c.eq_arr(I, I.new_arr(g), w, what)
    elif kw == "number":
        c.eq_poly(g, w, what)
    elif g != w:
        raise Bad(f"{what}: {g!r} instead of {w!r}")


def interp(c):
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    for m in (CFG, SIM, DRN):
        I.load(m)
    return I


def parts(I):
    """Alternatives for every field."""
    k = lambda n: I.mod_get(CFG, n)
    # symbolic upper bounds at least as large as the lower ones
    low, up = sym("lower"), sym("lower") + alg.P(Fraction(7, 2))
    arr = lambda tag, add: I.new_arr(arrays.elementwise(lambda u: arrays.topoly(u) + P(add), base_array(tag, (P(3),))))
    bound = lambda g, n, a, b: call(I, k("BoundConfig"), g, n, Tup([a, b]))
    return {
        "num_intervals": [P(5)],
        "interval_points": [None, I.new_arr(base_array("pts", (P(4),)))],
        "transcription": ["LGR", Tup(["LGR"]), Tup(["LGR", I.new_dict([("num_stages", P(5))])])],
        "is_cyclic": [True, False],
        "non_cyclic_vars": [I.new_list(["states.a"]), I.new_list([])],
        "is_condensed": [True],
        "backend": ["casadi"],
        "hessian_approximation": ["limited-memory"],
        "boundary_conditions": [Tup([call(I, k("BoundaryConditionConfig"), P(-1), "states", "a", sym("bc"))]), Tup([call(I, k("BoundaryConditionConfig"), ZERO, "states", n, sym("bc_" + n)) for n in "ab"]), Tup([])],
        "bounds": [Tup([bound("states", "a", low, up)]), Tup([bound("inputs", "u", arr("lows", 0), arr("lows", 2)), bound("states", "b", low, low)]), Tup([])],
        "scales": [Tup([call(I, k("ScaleConfig"), "states", "a", P(Fraction(5, 2)))]), Tup([])],
        "con_output_names": [Tup(["o1", "o2"]), Tup([])],
        "logging_config": [None, call(I, k("LoggingConfig")), call(I, k("LoggingConfig"), sim_name="s", results_dir="d", log_every_nth_iter=P(3))],
    }


CLASSES = {"SimConfig": (CFG, {}), "LTCConfig": (SIM, {"track": "some.csv"}), "DroneSimulationConfig": (DRN, {})}


def ob_trip(c, name, field, n):
    """cls(**config.to_dict()) has the same typed content."""
    I = interp(c)
    mod, must = CLASSES[name]
    cls = I.mod_get(mod, name)
    if not isinstance(cls, ClassV):
        raise Gone(f"{mod}.{name}")
    alts = parts(I)
    if field is None:
        kw = {}
    elif field == "all":
        kw = {f: v[n % len(v)] for f, v in alts.items()}
    else:
        kw = {field: alts[field][n]}
    cfg = call(I, cls, **kw, **must)
    want = typed(I, cfg)
    # what was given is in the configuration
    if "transcription" in kw:
        v = kw["transcription"]
        same(c, I, typed(I, I.getattr(cfg, "transcription")), typed(I, Tup([v]) if isinstance(v, str) else v), "transcription")
    for f, v in kw.items():
        if f not in ("transcription", "non_cyclic_vars"):
            same(c, I, typed(I, I.getattr(cfg, f)), typed(I, v), f)
    snap = reach(I, [cfg])
    d = call(I, I.getattr(cfg, "to_dict"))
    plain(c, I, d, "dictionary")
    unmodified(c, I, snap, "to_dict")
    again = call(I, cls, **{k: I.getitem(d, k) for k in I.iter_items(d)})
    same(c, I, typed(I, again), want, name)
    snap2 = reach(I, [again])
    d = call(I, I.getattr(cfg, "to_dict"))
    wreck(I, d)
    unmodified(c, I, snap, "the configuration, after its dictionary was overwritten")
    unmodified(c, I, snap2, "a rebuilt configuration, after a dictionary was overwritten")
    # rebuilding leaves the dictionary alone
    d = call(I, I.getattr(again, "to_dict"))
    keep = typed(I, d)
    call(I, cls, **{k: I.getitem(d, k) for k in I.iter_items(d)})
    same(c, I, typed(I, d), keep, "the dictionary, after a configuration was built from it")


def plain(c, I, d, what, depth=0):
    """Only dictionaries, lists, tuples and values."""
    if depth > 10:
        raise Und("nesting")
    if isinstance(d, Tup):
        for x in d.items:
            plain(c, I, x, what, depth + 1)
    elif isinstance(d, Ref):
        r = I.rec(d)
        if isinstance(r, ObjR):
            raise Bad(f"{what} holds an object of {getattr(r.cls, 'name', r.cls)}")
        if isinstance(r, DictR):
            for k in I.iter_items(d) or []:
                plain(c, I, I.getitem(d, k), what, depth + 1)
        elif isinstance(r, ListR):
            for x in I.iter_items(d) or []:
                plain(c, I, x, what, depth + 1)


def ob_separate(c, name):
    """Two configurations from defaults, or from the same values, share nothing that can change."""
    I = interp(c)
    mod, must = CLASSES[name]
    cls = I.mod_get(mod, name)
    if not isinstance(cls, ClassV):
        raise Gone(f"{mod}.{name}")
    a, b = call(I, cls, **must), call(I, cls, **must)
    both = set(reach(I, [a])) & set(reach(I, [b]))
    c.count("comparisons")
    for loc in both:
        r = I.st.store[loc]
        raise Bad(f"two default configurations share a {getattr(getattr(r, 'cls', None), 'name', r.kind)}")
    # names are added to a configuration without touching the given list
    mine = I.new_list(["states.a"])
    snap = reach(I, [mine])
    call(I, cls, non_cyclic_vars=mine, **must)
    unmodified(c, I, snap, "non_cyclic_vars given to " + name)
    for f in ("get_default_bounds", "get_default_boundary_conditions", "get_default_scales", "get_default_con_output_names"):
        g = I.mod_get(mod, f)
        if g is None or isinstance(g, Unknown):
            continue
        x, y = call(I, g), call(I, g)
        c.count("comparisons")
        if set(reach(I, [x])) & set(reach(I, [y])):
            raise Bad(f"{f}: two results share an object that can change")


# ------------------------------------------------------------------ building and using problems
def make(sizes, kind, cond, cyclic, I=None):
    conc = bool(sizes)
    sizes = {k: v for k, v in (sizes or {}).items() if k not in ("ns", "nu")}
    n1, n2, i1, i2 = (2, 0, 1, 1) if conc else (dim("n_before", 1), dim("n_after", 0), dim("i_before", 0), dim("i_after", 1))
    groups = {"states": c14.names_with("state", "time", P(n1), P(n2)), "inputs": c14.names_with("input", "heading", P(i1), P(i2))}
    cls = type("Lazy", (c14.POcp,), {"change": ()})
    return cls(kind, condensed=cond, sizes=sizes, groups=groups, cyclic=cyclic, lazy=True, interp=I)


class Use:
    """One configuration, used by two problems."""

    def __init__(self, sizes, kind, cond, cyclic, steps):
        conc = bool(sizes)
        self.kind, self.cond, self.cyclic = kind, cond, cyclic
        self.o = o = make(sizes, kind, cond, cyclic)
        self.I = I = o.I
        k = lambda n: I.mod_get(CFG, n)
        bound = lambda g, n, a, b: call(I, k("BoundConfig"), g, n, Tup([a, b]))
        D = o.D
        self.u, self.s = "heading", "time"
        arr = lambda t: I.new_arr(base_array(t, (o.S,)))
        self.bound, self.k, self.arr = bound, k, arr
        I.setattr(o.cfg, "bounds", Tup([bound("states", self.s, sym("lo"), sym("up")), bound("inputs", self.u, arr("los"), arr("ups"))]))
        I.setattr(o.cfg, "boundary_conditions", Tup([call(I, k("BoundaryConditionConfig"), ZERO, "inputs", self.u, sym("bc"))]))
        self.sc = sym("some_scale")
        I.setattr(o.cfg, "scales", Tup([call(I, k("ScaleConfig"), "inputs", self.u, self.sc)]))
        self.free = I.new_list(["inputs." + self.u])
        I.setattr(o.cfg, "non_cyclic_vars", self.free if cyclic else I.new_list([]))
        self.snap = reach(I, [o.cfg])
        self.p = {}
        self.p["a"] = self.build(o)
        unmod = lambda w: unmodified(self.check, I, self.snap, w)
        self.late = []
        self.ops = steps
        self.unmod = unmod

    def build(self, o):
        kw = dict(model=o.model, sim_config=self.o.cfg)
        if self.kind == "fixed":
            kw["mesh_scale"] = o.scale
        o.ocp = call(self.I, o.cls, **kw)
        return o.ocp

    def step(self, p, s):
        """One use of a problem; returns the objects that were passed in."""
        I, o = self.I, self.o
        x = I.new_arr(base_array("x", (o.ndec,)))
        f = lambda n, *a, **k: call(I, I.getattr(p, n), *a, **k)
        if s == "evaluate":
            m = I.as_num(I.getattr(p, "num_con"))
            lam = I.new_arr(base_array("lam", (m,)))
            snap = reach(I, [x, lam])
            for n in ("objective", "gradient", "constraints", "jacobian"):
                f(n, x)
            f("hessian", x, lam, sym("sigma"))
            f("jacobianstructure"), f("hessianstructure")
            return snap
        if s == "bounds":
            b = Tup([self.bound("inputs", self.u, sym("lo2"), sym("up2")), self.bound("states", self.s, self.arr("los2"), self.arr("ups2"))])
            snap = reach(I, [b])
            f("update_bounds", b)
            return snap
        if s == "boundary conditions":
            b = Tup([call(I, self.k("BoundaryConditionConfig"), ZERO, "states", self.s, sym("bc2"))])
            snap = reach(I, [b])
            f("update_boundary_conditions", b)
            return snap
        if s == "scales":
            b = Tup([call(I, self.k("ScaleConfig"), "states", self.s, sym("scale2"))])
            snap = reach(I, [b])
            f("set_scales", b)
            return snap
        if s == "mesh":
            pts = I.new_arr(base_array("new_pts", (o.N + 1,)))
            snap = reach(I, [pts])
            f("set_normalized_mesh", pts)
            return snap
        if s == "uniform mesh":
            f("set_normalized_mesh")
            return {}
        if s == "mesh scale":
            f("set_mesh_scale", sym("scale3"))
            return {}
        if s == "parameters":
            path, shape = next((q, sh) for q, sh in param_paths() if sh)
            v = I.new_arr(base_array("new", tuple(P(k) for k in shape)))
            snap = reach(I, [v])
            f("modify_model_param", path, v)
            return snap
        if s == "all parameters":
            t = c14.tree(I, ())
            snap = reach(I, [t])
            f("_set_model_params", t)
            return snap
        raise Und(s)


def param_paths():
    for p, d in c14.NODES.items():
        for n, sh in d.items():
            yield (p + "." if p else "") + n, sh


STEPS = ("evaluate", "bounds", "boundary conditions", "scales", "mesh", "uniform mesh", "mesh scale", "parameters", "all parameters")


def ob_use(c, z):
    """The configuration is what it was after building and after every use; so is what was passed in."""
    I = z.I
    unmodified(c, I, z.snap, "configuration, after a problem was built")
    given = []
    for s in STEPS:
        if s == "mesh scale" and z.kind == "scaled":
            continue
        snap = z.step(z.p["a"], s)
        given.append((s, snap))
        unmodified(c, I, z.snap, f"configuration, after {s}")
        for w, g in given:
            if w == "all parameters":
                continue
            unmodified(c, I, g, f"given for {w}, after {s}")


def ob_two(c, z):
    """Nothing that one problem does reaches another one built from the same configuration."""
    I = z.I
    if "b" not in z.p:
        z.o2 = make_second(z)
        snap = reach(I, [z.p["a"]])
        z.p["b"] = z.build(z.o2)
        untouched(c, I, snap, "the first problem, after another one was built")
    a, b = z.p["a"], z.p["b"]
    for s in STEPS:
        if s == "mesh scale" and z.kind == "scaled":
            continue
        snap = reach(I, [b])
        z.step(a, s)
        untouched(c, I, snap, f"the other problem, after {s}")


def make_second(z):
    I = z.I
    keep = dict(I.overrides)
    o2 = make(z.sizes, z.kind, z.cond, z.cyclic, I)
    return o2


def untouched(c, I, snap, what):
    """Records of another problem; a change of an attribute of the problem itself is named."""
    unmodified(c, I, snap, what)


def build_use(s, kind, cond, cyclic):
    z = Use(s, kind, cond, cyclic, STEPS)
    z.sizes = s
    return z


# ------------------------------------------------------------------ models
ABSTRACT = ("Model", "StateSpaceModel", "CompositeModel", "AeroModel", "BaseTire")


def ob_model(c, qual):
    """Configuration and parameters given to a model stay, and no two models share them."""
    lib, classes = c33.library(c)
    I, k = lib.I, classes[qual]
    cfg = call(I, I.getattr(k, "get_recursive_default_model_config"))
    first = call(I, k)
    par = call(I, I.getattr(first, "get_recursive_params"))
    sc, sp = reach(I, [cfg]), reach(I, [par])
    both = lambda w: (unmodified(c, I, sc, f"configuration, after {w}"), unmodified(c, I, sp, f"parameters, after {w}"))
    a = call(I, k, model_config=cfg, params=par)
    both("a model was built")
    b = call(I, k, model_config=cfg, params=par)
    both("a second model was built")
    new = call(I, I.getattr(first, "get_recursive_params"))
    fill(I, new, "other")
    for w, m in (("first", first), ("second", b)):
        snap = reach(I, [m])
        call(I, I.getattr(a, "set_recursive_params"), new)
        unmodified(c, I, snap, f"{w} model, after parameters of another one were replaced")
    both("parameters of a model were replaced")
    # the defaults of a class are its own
    keep = trees.content(I, call(I, I.getattr(first, "get_recursive_params")))
    later = call(I, k)
    share = set(reach(I, [first])) & set(reach(I, [later]))
    for loc in share:
        r = I.st.store[loc]
        if isinstance(r, (DictR, ListR)):
            snap = {loc: r}
            raise_if_changed(c, I, loc, first, later, r)
    c.count("comparisons")


def raise_if_changed(c, I, loc, a, b, r):
    """A dictionary or list that two models built on their own both hold."""
    if not entries(r):
        return
    if isinstance(r, DictR):
        raise Bad(f"two models built on their own hold the same dictionary with {sorted(str(e[0]) for e in r.entries if isinstance(e, tuple))[:5]}")
    raise Bad("two models built on their own hold the same list")


def entries(r):
    return r.entries if isinstance(r, DictR) else r.items


def fill(I, t, tag, depth=0):
    """Another value for every parameter of a tree."""
    d = I.getattr(t, "data")
    for n in I.iter_items(d):
        v = I.getitem(d, n)
        a = arr_of(I, v) if isinstance(v, Ref) else None
        I.setitem(d, n, I.new_arr(base_array(f"{tag} {n}", a.shape)) if a is not None else sym(f"{tag} {n}"))
    ch = I.getattr(t, "_children")
    if isinstance(ch, Unknown):
        raise Und("children of a tree")
    for n in I.iter_items(ch):
        fill(I, call(I, I.getattr(t, "get_child"), n), tag, depth + 1)


# ------------------------------------------------------------------ helpers with options
def ob_transcription(c):
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    T = "lumos.optimal_control.transcription"
    I.load(T)
    mk = I.mod_get(T, "make_transcription")
    if mk is None or isinstance(mk, Unknown):
        raise Gone("make_transcription")
    for n in ("LGR", "LGRIntegral"):
        stages = lambda *a: I.as_num(I.getattr(call(I, mk, n, *a), "num_stages_per_interval"))
        first = stages()
        kw = I.new_dict([("num_stages", P(5))])
        snap = reach(I, [kw])
        other = stages(kw)
        unmodified(c, I, snap, f"options of {n}")
        c.count("comparisons")
        if None not in (first, other) and alg.equal(first, other):
            raise Bad(f"options of {n} have no effect")
        c.eq_poly(stages(), first, f"default stages of {n}, after options were given once")
        c.eq_poly(stages(kw), other, f"stages of {n} from the same options")


# ------------------------------------------------------------------ solving with a log
def ob_solve(c, kind, cond, cyclic, log):
    z = c25.Ctx(kind, cond, cyclic, (("states.time",) if kind == "fixed" else ()), 1, (), None, True, log)
    I, o = z.I, z.o
    c._interps[id(I)] = I
    z.every = 1
    snap = {loc: z.before[loc] for loc in reach(I, [o.cfg]) if loc in z.before}
    unmodified(c, I, snap, "configuration, after a problem with a log was built" if log else "configuration, after a problem was built")
    x0 = I.new_arr(base_array("x0", (o.ndec,)))
    sx = reach(I, [x0])
    for r in (c25.simple(2), c25.simple(3, "y")):
        z.plan = r
        call(I, I.getattr(o.ocp, "solve"), x0, **{"hessian_approximation": "limited-memory"})
        unmodified(c, I, snap, "configuration, after solving")
        unmodified(c, I, sx, "starting point, after solving")


def run(c):
    c.explain = ("abstract interpretation of configurations, problems and models: every record reachable from what the caller passed in (or from another problem or model) is compared "
                 "before and after building and every kind of use; configurations rebuilt from their dictionaries are compared field by field with types")
    c.assumptions = ["alternatives of every configuration field are enumerated", "derivatives of the model are uninterpreted functions"]
    I = interp(c)
    alts = {f: len(v) for f, v in parts(I).items()}
    for name, (mod, _) in CLASSES.items():
        f = mod.replace(".", "/") + ".py"
        c.ob("same typed content after a dictionary", f"{f}:{name} [defaults]", ob_trip, c, name, None, 0)
        c.ob("nothing is shared", f"{f}:{name}", ob_separate, c, name)
        for n in range(6 if c.tier == "thorough" else 3):
            c.ob("same typed content after a dictionary", f"{f}:{name} [all fields, {n}]", ob_trip, c, name, "all", n)
        for fld, m in alts.items():
            for n in range(m):
                if c.tier == "thorough" or name == "SimConfig":
                    c.ob("same typed content after a dictionary", f"{f}:{name} [{fld}, {n}]", ob_trip, c, name, fld, n)
    for kind, cond, cyclic in (("scaled", False, False), ("fixed", False, True), ("scaled", True, True), ("fixed", True, False)):
        b = lambda s, a=(kind, cond, cyclic): build_use(s, *a)
        tag = f"[{kind}{', condensed' if cond else ''}{', cyclic' if cyclic else ''}]"
        c.sized("what was passed in stays", f"{FILES[kind]} {tag}", b, lambda z: ob_use(c, z))
        b = lambda s, a=(kind, cond, cyclic): build_use(s, *a)
        c.sized("nothing is shared", f"{FILES[kind]} {tag}", b, lambda z: ob_two(c, z))
    lib, classes = c33.library(c)
    for q, k in classes.items():
        if k.name not in ABSTRACT:
            c.ob("nothing is shared", f"{q.rsplit('.', 1)[0].replace('.', '/')}.py:{k.name}", ob_model, c, q)
    c.ob("what was passed in stays", "lumos/optimal_control/transcription.py:make_transcription", ob_transcription, c)
    for kind, cond, cyclic, log in (("scaled", False, False, True), ("fixed", True, True, True), ("scaled", False, True, False)):
        c.ob("what was passed in stays", f"{FILES[kind]}.solve [{kind}{', condensed' if cond else ''}{', cyclic' if cyclic else ''}{', logged' if log else ''}]", ob_solve, c, kind, cond, cyclic, log)
