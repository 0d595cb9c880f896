"""C24: evaluations do not modify the caller's data, and do not hand out their own."""
from ..checklib import *
from ..harness import arr_of, new_interp, fn, REPO
from ..arrays import base_array, Arr
from ..alg import sym, ZERO, ONE, dim
from ..values import Native, Tup, Ref, ClassV, Unknown, vkey
from ..pure import pure, clean, reach, unmodified, wreck, compare
from .. import arrays, alg, jaxfn, trees
from ..models import Lib, once, CACHE
from . import c02, c15, c21, c26, c33

FN = "lumos/optimal_control/nlp.py:"
FU = "lumos/optimal_control/utils.py:"
FB = "lumos/models/base.py:"


def args(I, *a, **k):
    """Fresh copies of the same arguments for every call."""
    def fresh(v):
        if isinstance(v, Arr):
            return I.new_arr(v)
        if isinstance(v, list):
            return I.new_list([fresh(x) for x in v])
        if isinstance(v, tuple):
            return Tup([fresh(x) for x in v])
        if isinstance(v, dict):
            return I.new_dict([(n, fresh(x)) for n, x in v.items()])
        return v() if callable(v) and not isinstance(v, (Native,)) and type(v).__name__ == "function" else v
    return lambda: ([fresh(x) for x in a], {n: fresh(x) for n, x in k.items()})


# ------------------------------------------------------------------ constraint and objective objects
CONS = (("constraints", "x"), ("jacobian", "x"), ("hessian", "xl"), ("jacobianstructure", ""), ("hessianstructure", ""), ("get_csc_jacobian", "x"), ("get_csc_hessian", "xl"))
OBJS = (("objective", "x"), ("gradient", "x"), ("hessian", "x"), ("hessianstructure", ""))


def stored(name, shape):
    """A function that returns the same array again for the same arguments."""
    f, kept = fn(name, shape), {}

    def run(I, a, k):
        key = (tuple(keyof(I, v) for v in a), tuple(sorted((n, keyof(I, v)) for n, v in k.items())))
        if key not in kept:
            kept[key] = I.call(f, list(a), dict(k))
        return kept[key]
    return Native(name, run)


def keyof(I, v):
    p, a = I.as_num(v), arr_of(I, v)
    return ("num", p) if p is not None else ("arr", arrays.akey(a)) if a is not None else vkey(v)


def build_unit(s, kind, structure, scaled):
    z = c02.Ctx(s, kind, structure, fn=stored)
    if scaled:
        # the scales belong to the caller too
        I = z.I
        z.scales = []
        for n, m in (("in", z.n), ("con", z.m)):
            if n == "con" and kind == "BaseObjective":
                continue
            v = I.new_arr(base_array("scale_" + n, (m,)))
            z.scales.append(v)
            z.m_("set_input_scales" if n == "in" else "set_con_scales", v)
    return z


def ob_unit(c, z, name, sig):
    I = z.I
    d = {"x": z.x, "l": z.lam}
    snap = reach(I, getattr(z, "scales", []))
    pure(c, I, lambda: I.getattr(z.obj, name), args(I, *[d[k] for k in sig]), name)
    unmodified(c, I, snap, f"{name} (scales)")


# ------------------------------------------------------------------ problems
PROB = ("objective", "gradient", "constraints", "jacobian", "hessian", "jacobianstructure", "hessianstructure", "mesh", "mesh without point", "lagrangian", "split_constraints", "get_lb", "get_ub")
OPER = ("unflatten_var", "flatten_var", "split_stage_and_global_vars", "merge_stage_and_global_vars", "get_interval_tensor", "get_stage_var_array", "get_var", "get_var at a stage",
        "get_var_index_in_dec", "get_group_indices_at_stage", "get_group_indcies_in_dec", "stage_var_names")


def problem_call(z, name):
    """(callee, fresh arguments)"""
    I, o, ocp = z.I, z.o, z.ocp
    x = base_array("x", (o.ndec,))
    get = lambda n: (lambda: I.getattr(ocp, n))
    if name in ("objective", "gradient", "constraints", "jacobian"):
        return get(name), args(I, x)
    if name in ("hessian", "lagrangian"):
        m = I.as_num(I.getattr(ocp, "num_con"))
        return get(name), args(I, x, base_array("lam", (m,)), sym("sigma"))
    if name in ("jacobianstructure", "hessianstructure"):
        return get(name), args(I)
    if name == "mesh":
        return get("get_mesh_from_dec_var"), args(I, x)
    if name == "mesh without point":
        return (get("get_mesh"), args(I)) if z.kind == "fixed" else (get("get_mesh_from_scale"), args(I, sym("some_scale")))
    if name == "split_constraints":
        m = I.as_num(I.getattr(ocp, "num_con"))
        return get(name), args(I, base_array("values", (m,)))
    if name in ("get_lb", "get_ub"):
        return get(name), args(I, group="inputs", name=first(z, "inputs"))
    op = lambda n: (lambda: I.getattr(I.getattr(ocp, "dec_var_operator"), n))
    if name in ("unflatten_var", "split_stage_and_global_vars", "get_stage_var_array"):
        return op(name), args(I, x)
    if name == "flatten_var":
        g = {k: base_array("in_" + k, (o.S, n)) for k, n in (("states", o.D.ns), ("inputs", o.D.nu), ("states_dot", o.D.ns), ("con_outputs", o.D.nc))}
        if z.kind == "scaled":
            g["mesh_scale"] = sym("some_scale")
        return op(name), args(I, **g)
    if name == "merge_stage_and_global_vars":
        return op(name), args(I, base_array("in_stage", (o.S * o.nv,)), base_array("in_global", (o.ng,)))
    if name == "get_interval_tensor":
        return op(name), args(I, x, "states")
    if name == "get_var":
        return op(name), args(I, x, group="inputs", name=first(z, "inputs"))
    if name == "get_var at a stage":
        return op("get_var"), args(I, x, group="inputs", name=first(z, "inputs"), stage=ZERO)
    if name == "get_var_index_in_dec":
        return op(name), args(I, group="inputs", name=first(z, "inputs"))
    if name == "get_group_indices_at_stage":
        return op(name), args(I, group="inputs", stage=ZERO)
    if name == "get_group_indcies_in_dec":
        return op(name), args(I, group="inputs")
    if name == "stage_var_names":
        return (lambda: Native("names", lambda i, a, k: I.getattr(I.getattr(ocp, "dec_var_operator"), "stage_var_names"))), args(I)
    raise Und(name)


def first(z, group):
    I = z.I
    n = I.getattr(I.getattr(z.o.model, "names"), group)
    return I.getitem(n, ZERO)


def ob_problem(c, z, name):
    f, a = problem_call(z, name)
    pure(c, z.I, f, a, name)


def components(z):
    I = z.I
    out = []
    for store, what in (("_constraints", CONS), ("_objectives", OBJS)):
        d = I.getattr(z.ocp, store)
        for k in I.iter_items(d):
            out.append((k, I.getitem(d, k), what))
    return out


def ob_components(c, z):
    I, o = z.I, z.o
    x = base_array("x", (o.ndec,))
    for k, obj, what in components(z):
        for name, sig in what:
            if name.startswith("get_csc"):
                continue
            m = I.as_num(I.getattr(obj, "num_con")) if "l" in sig else None
            d = {"x": x, "l": base_array("lam", (m,)) if m is not None else None}
            pure(c, I, lambda: I.getattr(obj, name), args(I, *[d[s] for s in sig]), f"{k}: {name}")


def ob_effects(c, z, names):
    """After an evaluation whose result was overwritten, everything else is as before."""
    I = z.I
    keep = {}
    for n in names:
        f, a = problem_call(z, n)
        p, k = a()
        keep[n] = I.lib.copy(call(I, f(), *p, **k), True)
    for n in names:
        f, a = problem_call(z, n)
        p, k = a()
        wreck(I, call(I, f(), *p, **k))
    for n in names:
        f, a = problem_call(z, n)
        p, k = a()
        compare(c, I, call(I, f(), *p, **k), keep[n], f"{n} after all results were overwritten")

# ------------------------------------------------------------------ lap simulations and tracks
LAP = ("objective", "gradient", "constraints", "jacobian", "hessian", "jacobianstructure", "hessianstructure", "mesh", "mesh without point", "get_lb", "get_ub")


class Trk:
    def __init__(self, sizes, how):
        self.d = c26.Data(sizes, how)
        self.I = self.d.I


def ob_track(c, z, how):
    I, d = z.I, z.d
    if how != "tum_csv":
        unmodified(c, I, d.before, "construction of a track (what it is given)")
    u = base_array("u", (dim("n_u", 1),))
    snap = reach(I, list(d.given.values()))
    get = lambda n: (lambda: I.getattr(d.track, n))
    for n in c26.LOOK:
        pure(c, I, get(n), args(I, u), n)
    unmodified(c, I, snap, "look-up (the track's data)")
    M = (d.M,)
    f = lambda n: (lambda: I.mod_get(c26.TR, n))
    if how == "data":
        pure(c, I, f("curvilinear_to_cartesian"), args(I, d.arr["s"], d.arr["curvature"], sym("x0"), sym("y0"), sym("h0")), "curvilinear_to_cartesian")
        pure(c, I, f("cartesian_to_curvilinear"), args(I, d.arr["x"], d.arr["y"]), "cartesian_to_curvilinear")


# ------------------------------------------------------------------ models
def libs(c):
    c33.library                      # every model class
    lib, classes = c33.library(c)
    return lib, classes


def make_model(c, lib, k):
    I = lib.I
    return call(I, k)


ABSTRACT = ("Model", "StateSpaceModel", "CompositeModel", "AeroModel", "BaseTire")


def ob_model(c, qual):
    lib, classes = libs(c)
    I, k = lib.I, classes[qual]
    pure(c, I, lambda: I.getattr(k, "get_default_params"), args(I), "get_default_params", random=True)
    pure(c, I, lambda: I.getattr(k, "get_default_submodel_config"), args(I), "get_default_submodel_config")
    if k.name in ABSTRACT:
        return
    m = call(I, k)
    names = {}
    for g in ("states", "inputs", "outputs", "residuals", "con_outputs"):
        if g in ("states", "con_outputs") and not state_space(I, k):
            continue
        pure(c, I, lambda: I.getattr(m, "get_group_names"), args(I, g), f"get_group_names({g!r})")
        pure(c, I, lambda: I.getattr(m, "make_const_dict"), args(I, g, sym("value")), f"make_const_dict({g!r})")
        names[g] = lib.names(m, g)
    for g, ns in names.items():
        vals = {n: sym(f"{g}_{n}") for n in ns}
        if ns and all(n.isidentifier() for n in ns):
            pure(c, I, lambda: I.getattr(m, "make_dict"), args(I, g, **vals), f"make_dict({g!r})")
            pure(c, I, lambda: I.getattr(m, "make_vector"), args(I, g, **vals), f"make_vector({g!r})")


def state_space(I, k):
    return I.is_subclass(k, I.mod_get("lumos.models.base", "StateSpaceModel"))


def ob_model_eval(c, qual):
    """Equations of a model: inputs, parameters and the model itself stay."""
    lib, classes = libs(c)
    I, k = lib.I, classes[qual]
    m = call(I, k)
    v = {g: {n: sym(f"{g}_{n}") for n in lib.names(m, g)} for g in (("states", "inputs") if state_space(I, k) else ("inputs",))}
    p = lib.params(m)
    kw = dict(v, mesh=sym("mesh")) if state_space(I, k) else v
    snap = reach(I, [I.getattr(m, "_params")])
    pure(c, I, lambda: I.getattr(m, "forward"), args(I, **kw), "forward")
    unmodified(c, I, snap, "forward (parameters)")
    tree = call(I, I.getattr(m, "get_recursive_params"))
    snap = reach(I, [tree])
    pure(c, I, lambda: I.getattr(m, "apply_and_forward"), args(I, **kw, params=tree), "apply_and_forward")
    unmodified(c, I, snap, "apply_and_forward (parameters)")


def ob_params(c, qual):
    """Parameters that were asked for belong to the one who asked."""
    lib, classes = libs(c)
    I, k = lib.I, classes[qual]
    m = call(I, k)
    for n in ("get_recursive_default_params", "get_recursive_params"):
        try_tree(c, I, m, n, n != "get_recursive_params")
    try_tree(c, I, k, "get_recursive_default_model_config", False)


def try_tree(c, I, m, n, random):
    """random: default values may be drawn anew every time."""
    t = call(I, I.getattr(m, n))
    was = call(I, I.getattr(t, "to_dict"))
    keep = trees.content(I, t)
    trees.spoil_tree(I, t)
    again = call(I, I.getattr(m, n))
    if random:
        clean(c, I, call(I, I.getattr(again, "to_dict")), was, f"{n} after an earlier result was overwritten")
        return
    trees.same(c, I, trees.content(I, again), keep, f"{n} after an earlier result was overwritten")


# ------------------------------------------------------------------ mapped evaluations
def ob_mapped(c, backend, what):
    z = (c21.CustomModel if backend == "custom" else c21.Model_)(c, backend, *(["Custom"] if backend == "custom" else []))
    I = z.I
    if what == "batched_forward":
        a = args(I, base_array("bs", (P(2), P(c21.NX))), base_array("bu", (P(2), P(c21.NU))), base_array("bm", (P(2),)))
        tree = z.tree("p")
        snap = reach(I, [tree])

        def make():
            p, k = a()
            return p + [tree], k
        f = lambda: I.getattr(z.m, "batched_forward")
    else:
        tree = z.tree("p")
        d = c21.data(2, x=c21.NV, mult=c21.NG, mesh=0)
        snap = reach(I, [tree])
        make = lambda: ([tree if r == "params" else I.new_arr(d[r]) for r in c21.ROLES[what]], {})
        f = lambda: I.getattr(z.alg, "mapped_" + what)
    pure(c, I, f, make, what)
    unmodified(c, I, snap, f"{what} (parameters)")


# ------------------------------------------------------------------ helper functions
def ob_helper(c, name, backend):
    I = new_interp()
    c._interps[id(I)] = I
    I.load("lumos.optimal_control.utils")
    jaxfn.install(I)
    U, N = "lumos.optimal_control.utils", "lumos.numpy.utils"
    n = dim("n", 2)
    x, y = base_array("x", (n,)), base_array("y", (n,))
    f = lambda m, q: (lambda: I.mod_get(m, q))
    call(I, I.mod_get("lumos.numpy", "set_backend"), backend) if backend else None
    if name == "batch_conv1d":
        pure(c, I, f(U, name), args(I, base_array("x", (P(7), P(2))), P(3), P(2)), name)
        pure(c, I, f(U, name), args(I, base_array("x", (P(7),)), P(3), P(2)), name + " of a vector")
        pure(c, I, f(U, name), args(I, base_array("x", (P(6), P(2))), P(2), P(2)), name + " without overlap")
    elif name == "create_offset_structure":
        pure(c, I, f(U, name), args(I, x, y, sym("r"), sym("k"), P(3)), name)
        pure(c, I, f(U, name), args(I, x, y, sym("r"), sym("k"), P(1)), name + " of one block")
    elif name == "stack_and_increment":
        for ax in (P(0), P(1)):
            pure(c, I, f(U, name), args(I, base_array("x", (n, n)), ax, P(3), sym("k")), f"{name} along {ax}")
            pure(c, I, f(U, name), args(I, base_array("x", (n, n)), ax, P(1), sym("k")), f"{name} along {ax}, once")
    elif name == "vector_concat":
        pure(c, I, f(N, name), args(I, [x, y]), name)
        pure(c, I, f(N, name), args(I, [x]), name + " of one")
        pure(c, I, f(N, name), args(I, (x, y)), name + " of a tuple")
    elif name == "vector_split":
        pure(c, I, f(N, name), args(I, x, [P(1)]), name)
        pure(c, I, f(N, name), args(I, x, []), name + " without index")
    elif name == "vector_tile":
        pure(c, I, f(N, name), args(I, x, P(3)), name)
        pure(c, I, f(N, name), args(I, x, P(1)), name + " once")
    elif name == "lmap":
        one = Native("one", lambda i, a, k: i.call(Ext("numpy.add"), list(a), {}))
        for ax, w in (((ZERO, None), (P(2),)), ((ZERO, ZERO), (P(3), P(2)))):
            axes = I.new_list(list(ax))
            snap = reach(I, [axes])
            g = call(I, I.mod_get(N, name), one, in_axes=axes)
            pure(c, I, lambda: g, args(I, base_array("x", (P(3), P(2))), base_array("y", w)), name + (" with a shared argument" if ax[1] is None else ""))
            unmodified(c, I, snap, "lmap (in_axes)")
    elif name == "cmap":
        for ax in ((ZERO, None), (ZERO, ZERO)):
            for outs in (1, 2):
                ext = c21.External("fn", (0, 1), [(str(k), 2 + k) for k in range(outs)])
                axes = I.new_list(list(ax))
                snap = reach(I, [axes])
                g = call(I, I.mod_get(N, name), ext.stub, in_axes=axes)
                w = (P(3),) if ax[1] is None else (P(3), P(3))
                pure(c, I, lambda: g, args(I, base_array("x", (P(3), P(2))), base_array("y", w)), f"{name} with {outs} results" + (" and a shared argument" if ax[1] is None else ""))
                unmodified(c, I, snap, "cmap (in_axes)")
    else:
        raise Und(name)


HELP = ("batch_conv1d", "create_offset_structure", "stack_and_increment", "vector_concat", "vector_split", "vector_tile", "cmap", "lmap")


def run(c):
    c.explain = ("abstract interpretation of every evaluation function: everything reachable from the arguments is compared, record by record, before and after the call; "
                 "then every array, list and dictionary in the result is overwritten in place and the evaluation is repeated with equal arguments: the result must be the same term")
    c.assumptions = ["slices, reshapes and transposes of an array share its data, results of arithmetic and index arrays do not"]
    for kind in ("BaseConstraints", "LinearConstraints", "LinearConstraints cached", "BaseObjective"):
        for structure in ("flat", "nd", "dense"):
            for scaled in (False, True):
                b = lambda s, a=(kind, structure, scaled): build_unit(s, *a)
                for name, sig in OBJS if kind == "BaseObjective" else CONS:
                    c.sized("arguments stay, results are the caller's own", f"{FN}{kind.split()[0]}.{name} [{kind}, {structure}{', scaled' if scaled else ''}]", b, lambda z, n=name, s=sig: ob_unit(c, z, n, s))
    for kind, cond, cyclic in (("scaled", False, False), ("fixed", False, True), ("scaled", True, False), ("fixed", True, True)):
        b = lambda s, a=(kind, cond, cyclic): build_problem(s, *a)
        tag = f"[{kind}{', condensed' if cond else ''}{', cyclic' if cyclic else ''}]"
        for name in PROB:
            if cond and name == "lagrangian":
                continue
            c.sized("arguments stay, results are the caller's own", f"{c15.FILES[kind]}.{name} {tag}", b, lambda z, n=name: ob_problem(c, z, n))
        if not cond:
            for name in OPER:
                c.sized("arguments stay, results are the caller's own", f"{FU}DecVarOperator.{name} {tag}", b, lambda z, n=name: ob_problem(c, z, n))
        c.sized("arguments stay, results are the caller's own", f"{c15.FILES[kind]} components {tag}", b, lambda z: ob_components(c, z))
        c.sized("results of one evaluation do not reach another", f"{c15.FILES[kind]} {tag}", b, lambda z: ob_effects(c, z, [n for n in PROB if n != "lagrangian"]))
    R = "arguments stay, results are the caller's own"
    for cond, cyclic in ((False, True), (False, False)):
        b = lambda s, a=(cond, cyclic): build_lap(s, *a)
        tag = f"[lap{', condensed' if cond else ''}{', cyclic' if cyclic else ''}]"
        for name in LAP:
            c.sized(R, f"{c15.FILES['fixed']}.{name} {tag}", b, lambda z, n=name: ob_problem(c, z, n))
        c.sized(R, f"{c15.FILES['fixed']} components {tag}", b, lambda z: ob_components(c, z))
    for how in ("data", "curvilinear", "cartesian"):
        c.sized(R, f"{c26.FILE}:RaceTrack [{how}]", lambda s, h=how: Trk(s, h), lambda z, h=how: ob_track(c, z, h), sizes=c26.MS)
    lib, classes = libs(c)
    for q, k in classes.items():
        f = q.rsplit(".", 1)[0].replace(".", "/") + ".py"
        c.ob(R, f"{f}:{k.name} [names and values]", ob_model, c, q)
        if k.name not in ABSTRACT:
            c.ob(R, f"{f}:{k.name} [equations]", ob_model_eval, c, q)
            c.ob(R, f"{f}:{k.name} [parameters and configuration]", ob_params, c, q)
    for b in ("jax", "custom"):
        for w in ("constraints", "jacobian", "hessian", "batched_forward"):
            c.ob(R, f"{FB}StateSpaceModel [{w}, {b}]", ob_mapped, c, b, w)
    for n in HELP:
        for b in ("numpy", "jax"):
            c.ob(R, f"lumos/numpy/utils.py:{n} [{b}]" if n not in HELP[:3] else f"{FU}{n} [{b}]", ob_helper, c, n, b)


def build_lap(s, cond, cyclic):
    return c15.LapProb(s, cond, cyclic)


def build_problem(s, kind, cond, cyclic):
    return c15.Prob(s, kind, cond, cyclic)
