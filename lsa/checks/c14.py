"""C14: parameter updates reach every evaluation."""
from ..checklib import *
from ..harness import Ocp, arr_of, names_with
from ..arrays import base_array
from ..interp import Dead
from ..alg import ZERO, ONE, sym, dim
from ..values import Native, Tup, Ref, ObjR, vkey
from .. import arrays
from ..trees import TREE, content, same, spoil_tree
from .c26 import Lap, SIM

FILES = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}
LAP = "lumos/simulations/laptime_simulation.py:LaptimeSimulation"
NODES = {"": {"p0": (), "w": (2,)}, "sub": {"q": (), "p0": ()}, "sub.deep": {"q": ()}}


def tree(I, change=(), tag="old"):
    """The parameters of the model: NODES with symbolic values, some replaced."""
    cls = call_cls(I)
    ch = dict(change)

    def value(path, shape):
        t = ch.get(path, f"{tag} {path}")
        return I.new_arr(base_array(t, tuple(P(k) for k in shape))) if shape else sym(t)

    def node(p):
        d = I.new_dict([(n, value((p + "." if p else "") + n, s)) for n, s in NODES[p].items()])
        t = call(I, cls, data=d)
        for q in NODES:
            if q and q.rpartition(".")[0] == p:
                call(I, I.getattr(t, "add_child"), name=q.rpartition(".")[2], subtree=node(q))
        return t
    return node("")


def call_cls(I):
    I.load(TREE)
    return I.mod_get(TREE, "ParameterTree")


def key_of(I, t):
    """Canonical text of the values of a tree."""
    k, v = content(I, t)
    out = []

    def walk(p, x):
        kind, v = x
        if kind == "dict":
            for n in sorted(v):
                walk(p + "/" + n, v[n])
        elif kind == "arr":
            out.append((p, vkey(arrays.akey(v))))
        elif kind == "num":
            out.append((p, v.key))
        else:
            out.append((p, repr(v)))
    walk("", (k, v))
    return "tree" + repr(out)


class POcp(Ocp):
    """A problem whose model has a tree of symbolic parameters."""
    change = ()

    def make_params(self):
        self.model_params = [tree(self.I, self.change)]
        ov = self.I.overrides
        return None

    def make_model(self):
        m = super().make_model()
        I = self.I
        ov = I.overrides
        store = "_parameters of the stand-in"
        I.setattr(m, store, tree(I, self.change))
        cp = lambda t: call(I, I.getattr(call_cls(I), "from_dict"), call(I, I.getattr(t, "to_dict")))
        get = Native("get_recursive_params", lambda i, a, k: cp(i.getattr(a[0], store)))

        def put(i, a, k):
            t = list(a)[-1] if a else list(k.values())[0]
            i.setattr(a[0], store, cp(t))
            i.effect("set_model_params", t)
        self.store = store
        put = Native("set_recursive_params", put)
        get.is_method = put.is_method = True
        for q in ("lumos.models.base.Model.", "lumos.models.composition.CompositeModel."):
            ov[q + "get_recursive_params"] = get
            ov[q + "set_recursive_params"] = put
        return m

    def params_key(self, v):
        if isinstance(v, Arr):
            return arrays.akey(v)
        if isinstance(v, Ref) and isinstance(self.I.rec(v), ObjR):
            return key_of(self.I, v)
        return super().params_key(v)

    def want_keys(self, change):
        """Keys a parameter argument may have: the tree, or its flat values."""
        I = self.I
        t = tree(I, change)
        flat = I.iter_items(call(I, I.getattr(t, "tree_ravel")))
        a = arr_of(I, flat[0]) if flat else None
        if a is None:
            raise Und("flat parameters")
        return {"tree": key_of(I, t), "flat": vkey(arrays.akey(a))}

    def key_text(self, v):
        k = self.params_key(self.arg(v))
        return k if isinstance(k, str) else vkey(k)


def update(o, path, new, shape):
    I = o.I
    v = I.new_arr(base_array(new, tuple(P(k) for k in shape))) if shape else sym(new)
    call(I, I.getattr(o.ocp, "modify_model_param"), path, v)


def make(kind, condensed, backend, sizes, change=(), cyclic=False):
    groups = {}
    sizes = dict(sizes or {})
    if kind == "fixed":
        groups["states"] = names_with("state", "time", P(sizes.pop("ns", 2)) if sizes else dim("n_before", 1), 0)
    return type("POcp_", (POcp,), {"change": change})(kind, condensed=condensed, backend=backend, sizes=sizes, groups=groups, cyclic=cyclic)


class Pair:
    """The problem after a history of updates, and the same problem built with the final parameters."""

    def __init__(self, sizes, kind, condensed, backend, steps, cyclic=False):
        self.o = o = make(kind, condensed, backend, sizes, cyclic=cyclic)
        self.I = I = o.I
        self.change = {}
        self.n = 0
        for s in steps:
            if s == "evaluate":
                for n in EVAL:
                    self.value(o, n)
            else:
                self.n += 1
                new = f"new{self.n} {s}"
                if s == "all":
                    f = I.getattr(o.ocp, "_set_model_params")
                    if f is None or isinstance(f, Unknown):
                        raise Und("no way to replace all parameters")
                    self.change = {(p + "." if p else "") + n: f"all {p} {n}" for p, d in NODES.items() for n in d}
                    call(I, f, tree(I, self.change.items()))
                    continue
                p, _, last = s.rpartition(".")
                update(o, s, new, NODES[p][last])
                self.change[s] = new
        self.fresh = make(kind, condensed, backend, sizes, tuple(self.change.items()), cyclic=cyclic)

    def value(self, o, name):
        I = o.I
        x = I.new_arr(base_array("x", (o.ndec,)))
        if name == "hessian":
            m = I.as_num(I.getattr(o.ocp, "num_con"))
            return call(I, I.getattr(o.ocp, "hessian"), x, I.new_arr(base_array("lam", (m,))), sym("sigma"))
        if name == "logged outputs":
            call(I, I.getattr(o.ocp, "_create_result_df"), x, "some/file", P(1))
            return None
        return call(I, I.getattr(o.ocp, name), x)


EVAL = ("constraints", "jacobian", "hessian")


def ob_eval(c, z, name):
    """Values after the updates are those of a problem built with the new parameters."""
    o, I = z.o, z.I
    n = len(I.st.effects)
    got = z.value(o, name)
    used(c, z, I.st.effects[n:], name)
    if got is None:
        return
    want = z.value(z.fresh, name)
    w = arr_of(z.fresh.I, want)
    if w is None:
        raise Und(f"{name} of the fresh problem")
    g = arr_of(I, got)
    if g is None:
        raise c.nonarr(I, got, name)
    c.eq_arr(I, got, w, f"{name} after the update")


def used(c, z, effects, name):
    """Every evaluation of the model in these effects gets the new parameters."""
    o, I = z.o, z.I
    keys = z.o.want_keys(tuple(z.change.items()))
    seen = 0
    for e in effects:
        if e.kind == "mapped-call":
            v, form = e.data[1].get("params"), "flat" if o.backend == "casadi" else "tree"
        elif e.kind == "batched_forward":
            v, form = e.data[0].get("params"), "tree"
        else:
            continue
        seen += 1
        c.count("comparisons")
        if v is None:
            raise Bad(f"{name}: the model is evaluated without parameters")
        if isinstance(v, Unknown):
            raise Und(f"{name}: parameters {v!r}"[:200])
        k = o.key_text(v)
        if k == keys["flat" if form == "tree" else "tree"]:
            raise Bad(f"{name}: the parameters are given to the model as {'a tree' if form == 'flat' else 'flat values'}")
        if k != keys[form]:
            raise Bad(f"{name}: the model is evaluated with other parameters than those set: {diff(k, keys)}")
    if not seen:
        raise Und(f"{name}: no evaluation of the model is seen")


def diff(k, keys):
    w = keys["tree"] if k.startswith("tree") else keys["flat"]
    n = next((i for i, (a, b) in enumerate(zip(k, w)) if a != b), 0)
    return f"...{k[max(0, n - 30):n + 40]}"


def ob_model(c, z):
    """The model itself has the new parameters."""
    o, I = z.o, z.I
    same(c, I, content(I, I.getattr(o.model, o.store)), content(I, tree(I, tuple(z.change.items()))), "parameters of the model")


# ------------------------------------------------------------------ simulations
class Guess:
    """The initial guess of a simulation after an update."""

    def __init__(self, sizes, update):
        self.change = {}
        Lap.OCP = POcp
        try:
            self.lap = Lap(sizes, ())
        finally:
            Lap.OCP = Ocp
        self.o, self.I = self.lap.o, self.lap.I
        if update:
            call(self.I, self.I.getattr(self.lap.prob, "get_init_guess"))
            call(self.I, self.I.getattr(self.lap.prob, "modify_model_param"), "sub.q", sym("new1 sub.q"))
            self.change["sub.q"] = "new1 sub.q"


def ob_guess(c, z):
    from .c26 import vector
    I = z.I
    I.overrides["lumos.models.base.StateSpaceModel.make_vector"] = Native("make_vector", vector(z.lap))
    n = len(I.st.effects)
    call(I, I.getattr(z.lap.prob, "get_init_guess"))
    used(c, z, I.st.effects[n:], "initial guess")


HIST = {
    "before any evaluation": ("p0",),
    "after evaluations": ("evaluate", "sub.q"),
    "nested twice, an array": ("evaluate", "sub.deep.q", "evaluate", "w"),
    "all, then one": ("evaluate", "all", "evaluate", "sub.q"),
    "all": ("evaluate", "all"),
    "the same parameter twice": ("sub.p0", "evaluate", "sub.p0"),
}


def run(c):
    c.explain = ("abstract interpretation of update/evaluate histories on problems with a tree of symbolic model parameters; the unit functions are uninterpreted "
                 "functions of the content of the parameters they are given, so that values after the updates can be compared with those of a problem built with the new parameters")
    c.assumptions = ["the tree of parameters has three nodes and one array", "the compiled functions are functions of their arguments only (C13, C21)"]
    for kind in ("scaled", "fixed"):
        for backend in ("jax", "casadi"):
            for cond in (False, True):
                for name, steps in HIST.items():
                    if c.tier == "quick" and name != "after evaluations" and (kind, backend, cond) not in (("scaled", "jax", False), ("scaled", "casadi", True)):
                        continue
                    b = lambda s, a=(kind, cond, backend, steps): Pair(s, *a)
                    lab = f"{FILES[kind]} [{kind}, {backend}{', condensed' if cond else ''}: {name}]"
                    sz = [dict(N=2, K=2, ns=1, nu=1, nc=1, nr=1, no=1)] if cond else None
                    for e in EVAL + ("logged outputs",):
                        c.sized(f"{e} with the new parameters", lab, b, lambda z, e=e: ob_eval(c, z, e), sizes=sz)
                    c.sized("the model gets the new parameters", lab, b, lambda z: ob_model(c, z), sizes=sz)
    for up in (False, True):
        c.sized("initial guess with the parameters in force", f"{LAP}.get_init_guess [{'after an update' if up else 'at first'}]", lambda s, up=up: Guess(s, up), lambda z: ob_guess(c, z),
                sizes=[dict(N=2, K=2, nr=1)])
