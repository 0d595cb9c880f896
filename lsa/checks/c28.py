"""C28: models produce exactly what they declare."""
from ..checklib import *
from ..arrays import base_array
from ..alg import sym, ZERO, ONE
from ..interp import Dead
from ..values import Native, Tup, Ref, Ext, ClassV
from ..harness import arr_of
from ..models import Lib, BASE
from ..trees import TREE, content, same
from .c30 import VEH, KIN, DRONE, TIRE, ON

FILE = "lumos/models/base.py"
MF = "lumos.models.tires.pacejka.MF52"
AERO = "lumos.models.aero.aero."
COMP = "lumos.models.composition"

LEAVES = [(MF, {}), (MF, {"opt_mode": False}), (TIRE, {}), (AERO + "ConstAero", {}), (AERO + "GPAero", {}), (AERO + "MLPAero", {}), (KIN, {}), (DRONE, {})]


def keys(I, d, what):
    ks = I.iter_items(d) if d is not None else None
    if ks is None or any(not isinstance(k, str) for k in ks):
        raise Und(f"keys of {what}")
    return list(ks)


def place(qual):
    m, n = qual.rsplit(".", 1)
    return f"{m.replace('.', '/')}.py:{n}.forward"


def stateful(lib, m):
    return "states" in lib.I.iter_items(lib.I.getattr(lib.I.getattr(m, "names"), "_fields"))


def spy(lib, c, m, name, log):
    """Records every evaluation of a submodel and its inputs, and evaluates it."""
    I = lib.I
    orig = I.getattr(m, "forward")
    if isinstance(orig, Unknown) or orig is None:
        raise Gone(f"forward of {name}")

    def forward(i, a, k):
        d = dict(zip(("states", "inputs", "mesh") if stateful(lib, m) else ("inputs",), a))
        d.update(k)
        log.append((name, {g: keys(I, d.get(g), f"{g} of {name}") for g in (("states", "inputs") if stateful(lib, m) else ("inputs",))}))
        r = i.call(orig, list(a), dict(k))
        log.append((name + " returns", r))
        return r
    I.setattr(m, "forward", Native(name + ".forward", forward))


def ob_contract(c, qual, kw, variants):
    """Reads only what is declared, evaluates each submodel once, returns what is declared."""
    lib = Lib(c)
    I = lib.I
    MM = I.mod_get(COMP, "ModelMaker")
    if variants:
        cfg = call(I, I.getattr(MM, "make_config"), qual.rsplit(".", 1)[1])
        for p, t in variants:
            call(I, I.getattr(cfg, "replace_subtree"), p, call(I, I.getattr(MM, "make_config"), t))
        m = call(I, lib.cls(qual), model_config=cfg)
    else:
        m = lib.make(qual, **kw)
    log, nodes = [], {}

    def walk(m, p):
        nodes[p] = m
        for n, s in lib.submodels(m).items():
            walk(s, (p + "." if p else "") + n)
            spy(lib, c, s, (p + "." if p else "") + n, log)
    walk(m, "")
    for p, s in nodes.items():
        for g in (("states", "inputs", "outputs", "residuals") if stateful(lib, s) else ("inputs", "outputs", "residuals")):
            d = lib.names(s, g)
            c.count("comparisons")
            if len(set(d)) != len(d):
                raise Bad(f"{g} of {p or 'the model'} are declared twice: {sorted(x for x in d if d.count(x) > 1)[:4]}")
    n = len(I.outcomes)
    args = {"inputs": I.new_dict([(k, sym("u_" + k)) for k in lib.names(m, "inputs")])}
    if stateful(lib, m):
        args["states"] = I.new_dict([(k, sym("x_" + k)) for k in lib.names(m, "states")])
        if qual in (ON, KIN, DRONE):
            args["mesh"] = sym("mesh")
    r = call(I, I.getattr(m, "forward"), **args)
    for o in I.outcomes[n:]:
        if o.kind == "raise":
            raise Bad(f"the evaluation can raise {o.value!r} at {o.site[0]}:{o.site[1]}"[:300])
    check_return(c, lib, m, r, "")
    rets = {}
    for p, s in nodes.items():
        if not p:
            continue
        calls = [x for x in log if x[0] == p]
        c.count("comparisons")
        if len(calls) != 1:
            raise Bad(f"the submodel {p} is evaluated {len(calls)} times")
        for g, ks in calls[0][1].items():
            want = lib.names(s, g)
            if sorted(ks) != sorted(want):
                raise Bad(f"the submodel {p} gets the {g} {sorted(set(ks) ^ set(want))} wrong")
        rets[p] = [x[1] for x in log if x[0] == p + " returns"][-1]
        check_return(c, lib, s, rets[p], p)
    outs = I.getattr(r, "outputs")
    for p, s in nodes.items():
        for k in lib.names(s, "outputs"):
            full = (p + "." if p else "") + k
            if p and p.count("."):
                up = rets[p.rpartition(".")[0]]
                equal_values(c, I, I.getitem(I.getattr(up, "outputs"), p.rpartition(".")[2] + "." + k), I.getitem(I.getattr(rets[p], "outputs"), k), f"output {full} in the outputs of the submodel")
            if p:
                equal_values(c, I, I.getitem(outs, full), I.getitem(I.getattr(rets[p], "outputs"), k), f"output {full}")


def equal_values(c, I, g, w, what):
    c.count("comparisons")
    if g is w:
        return
    x, y = I.as_num(g), I.as_num(w)
    if x is not None and y is not None:
        if x.key == y.key:
            return
        return c.eq_poly(x, y, what)
    a, b = arr_of(I, g), arr_of(I, w)
    if a is not None and b is not None:
        return c.eq_arr(I, I.new_arr(a), b, what)
    raise Und(f"{what}: {g!r} and {w!r}"[:200])


def check_return(c, lib, m, r, p):
    I = lib.I
    st = stateful(lib, m)
    for g in (("states_dot", "outputs") if st else ("outputs",)):
        d = I.getattr(r, g)
        ks = keys(I, d, g)
        c.count("comparisons")
        want = lib.names(m, g)
        if sorted(ks) != sorted(want):
            miss, extra = sorted(set(want) - set(ks)), sorted(set(ks) - set(want))
            raise Bad(f"{p or 'the model'} returns other {g} than declared" + (f": missing {miss[:5]}" if miss else "") + (f": not declared {extra[:5]}" if extra else ""))
        for k in ks:
            v = I.getitem(d, k)
            if v is None or isinstance(v, str):
                raise Bad(f"{g} {k} is {v!r}")
    res = I.getattr(r, "residuals")
    have = keys(I, I.getattr(r, "outputs"), "outputs")
    for k in lib.names(m, "residuals"):
        c.count("comparisons")
        if k not in have and k not in keys(I, res, "residuals"):
            raise Bad(f"residual {k} is not returned")


CLIENT = '''
from lumos.models.composition import ModelMaker
from lumos.models.base import Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io

@model_io(inputs=("p", "q"), outputs=("o", "res_o"), residuals=("res_o",))
class Engine(Model):
    def forward(self, inputs):
        return ModelReturn(outputs=self.make_outputs_dict(res_o=inputs["q"], o=inputs["p"] * 2 + inputs["q"]))

@model_io(inputs=("p",), outputs=("o", "w"))
class Train(Model):
    @classmethod
    def get_default_submodel_config(cls):
        return {"engine": "Engine"}
    def forward(self, inputs):
        r = self.call_submodel("engine", inputs=dict(p=inputs["p"], q=inputs["p"] * 3))
        return ModelReturn(outputs=self.make_outputs_dict(w=inputs["p"], o=r.outputs["o"] * 5))

@state_space_io(states=("a", "b"), inputs=("u", "v", "w"), outputs=("y1", "y2", "y3"), con_outputs=("y3", "y1"), residuals=("y2",))
class Car(StateSpaceModel):
    @classmethod
    def get_default_submodel_config(cls):
        return {"left": "Train", "right": "Train"}
    def forward(self, states, inputs, mesh):
        l = self.call_submodel("left", inputs=dict(p=states["a"] * inputs["u"]))
        r = self.call_submodel("right", inputs=dict(p=states["b"] * inputs["w"] * mesh))
        outputs = self.make_outputs_dict(y3=states["b"] + inputs["v"], y1=l.outputs["o"], y2=r.outputs["o"] - inputs["w"])
        dot = self.make_dict("states_dot", b=l.outputs["w"], a=r.outputs["w"] + mesh)
        return StateSpaceModelReturn(states_dot=dot, outputs=outputs)

@state_space_io(states=("a",), inputs=("u",), outputs=("y",))
class Twice(StateSpaceModel):
    @classmethod
    def get_default_submodel_config(cls):
        return {"engine": "Engine"}
    mode = "twice"
    def forward(self, states, inputs, mesh):
        k = dict(p=states["a"], q=inputs["u"])
        if self.mode != "never":
            self.call_submodel("engine", inputs=k)
        if self.mode == "twice":
            self.call_submodel("engine", inputs=k)
        if self.mode == "other":
            self.call_submodel("nothing", inputs=k)
        return StateSpaceModelReturn(states_dot=dict(a=0.0), outputs=self.make_outputs_dict(y=1.0))

@state_space_io(states=("a",), inputs=("u",), outputs=("y",))
class Odd(StateSpaceModel):
    @classmethod
    def get_default_submodel_config(cls):
        return {"engine": "Engine"}
    mode = ""
    def forward(self, states, inputs, mesh):
        k = dict(p=states["a"]) if self.mode == "input" else dict(p=states["a"], q=inputs["u"])
        self.call_submodel("engine", inputs=k)
        o = self.make_outputs_dict() if self.mode == "output" else self.make_outputs_dict(y=1.0)
        if self.mode == "dict":
            self.make_dict("states_dot", x=1.0)
        if self.mode == "vector":
            self.make_vector("inputs", x=1.0)
        return StateSpaceModelReturn(states_dot=dict(a=0.0), outputs=o)

@model_io(inputs=("p",))
class Silent(Model):
    def forward(self, inputs):
        return ModelReturn()

@state_space_io(states=("a",), inputs=("u",), outputs=("y",))
class Quiet(StateSpaceModel):
    @classmethod
    def get_default_submodel_config(cls):
        return {"silent": "Silent"}
    mode = "once"
    def forward(self, states, inputs, mesh):
        if self.mode != "never":
            self.call_submodel("silent", inputs=dict(p=states["a"]))
        if self.mode == "twice":
            self.call_submodel("silent", inputs=dict(p=states["a"]))
        return StateSpaceModelReturn(states_dot=dict(a=0.0), outputs=self.make_outputs_dict(y=1.0))

def bad_residual():
    @state_space_io(states=("a",), inputs=("u",), outputs=("y",), residuals=("z",))
    class Bad(StateSpaceModel):
        def forward(self, states, inputs, mesh):
            pass
    return Bad()

def bad_con():
    @state_space_io(states=("a",), inputs=("u",), outputs=("y",), con_outputs=("z",))
    class Bad(StateSpaceModel):
        def forward(self, states, inputs, mesh):
            pass
    return Bad()

ModelMaker.add_to_registry(Engine)
ModelMaker.add_to_registry(Train)
ModelMaker.add_to_registry(Silent)
'''


class Client:
    def __init__(self, c, cls="Car"):
        self.lib = Lib(c)
        self.I = I = self.lib.I
        I.load_text("client", CLIENT)
        k = I.mod_get("client", cls)
        if not isinstance(k, ClassV):
            raise Und("client")
        self.m = call(I, k)

    def args(self, tag=""):
        I = self.I
        return {"states": I.new_dict([(n, sym("x_" + n + tag)) for n in ("a", "b")]), "inputs": I.new_dict([(n, sym("u_" + n + tag)) for n in ("u", "v", "w")]), "mesh": sym("mesh" + tag)}

    def spec(self, tag=""):
        x = {n: sym("x_" + n + tag) for n in "ab"}
        u = {n: sym("u_" + n + tag) for n in "uvw"}
        s = sym("mesh" + tag)
        out = {}

        def train(p, pre):
            out[pre + "engine.o"] = p * 2 + p * 3
            out[pre + "engine.res_o"] = p * 3
            out[pre + "w"] = p
            out[pre + "o"] = (p * 5) * 5
            return out[pre + "o"]
        l, r = train(x["a"] * u["u"], "left."), train(x["b"] * u["w"] * s, "right.")
        out.update(y1=l, y2=r - u["w"], y3=x["b"] + u["v"])
        return out, {"a": out["right.w"] + s, "b": out["left.w"]}


OUTS = ["y1", "y2", "y3"] + [f"{s}.{k}" for s in ("left", "right") for k in ("o", "w", "engine.o", "engine.res_o")]
RES = ["y2"] + [f"{s}.engine.res_o" for s in ("left", "right")]


def ob_names(c):
    z = Client(c)
    for g, want in (("outputs", OUTS), ("residuals", RES), ("states", ["a", "b"]), ("states_dot", ["a", "b"]), ("inputs", ["u", "v", "w"]), ("con_outputs", ["y3", "y1"])):
        got = z.lib.names(z.m, g)
        c.count("comparisons")
        if got != want:
            raise Bad(f"names of the {g}: {got} instead of {want}")
        got = z.I.as_num(call(z.I, z.I.getattr(z.m, "get_num_vars"), g))
        c.eq_poly(got, P(len(want)), f"number of {g}")
        for k, n in enumerate(want):
            c.eq_poly(z.I.as_num(call(z.I, z.I.getattr(z.m, "get_var_index"), group=g, name=n)), P(k), f"index of {n} in the {g}")
    must_raise(c, z.I, z.I.getattr(z.m, "get_var_index"), {"group": "states", "name": "nothing"}, "an unknown name")


def ob_collect(c):
    z = Client(c)
    I = z.I
    for tag in ("", " again"):
        r = call(I, I.getattr(z.m, "forward"), **z.args(tag))
        out, dot = z.spec(tag)
        same(c, I, content(I, I.getattr(r, "outputs")), ("dict", {k: ("num", v) for k, v in out.items()}), "outputs" + tag)
        same(c, I, content(I, I.getattr(r, "states_dot")), ("dict", {k: ("num", v) for k, v in dot.items()}), "state derivatives" + tag)


def vec(I, values):
    v = [P(x) for x in values]
    return arrays_of(v)


def arrays_of(v):
    from .. import arrays
    from ..arrays import Arr
    if not v:
        return base_array("nothing", (ZERO,))
    return arrays.stack([Arr((), lambda ix, k=k: P(k)) for k in v])


def ob_arrays(c, con=None):
    z = Client(c)
    I = z.I
    want_con = ["y3", "y1"]
    if con is not None:
        call(I, I.getattr(z.m, "set_con_outputs"), Tup(list(con)))
        want_con = list(con)
    xs, us = base_array("x", (P(2),)), base_array("u", (P(3),))
    r = call(I, I.getattr(z.m, "forward_with_arrays"), I.new_arr(xs), I.new_arr(us), sym("mesh"))
    out, dot = z.spec()
    from .. import alg
    mp = {("x_" + n): topoly(xs.get((P(k),))) for k, n in enumerate("ab")}
    mp.update({("u_" + n): topoly(us.get((P(k),))) for k, n in enumerate("uvw")})

    def put(p):
        for n, v in mp.items():
            (a,) = sym(n).atoms()
            p = alg.subst(p, {a: v})
        return p
    for g, ns, src in (("states_dot", ["a", "b"], dot), ("outputs", OUTS, out), ("con_outputs", want_con, out), ("residuals", RES, out)):
        a = arr_of(I, I.getattr(r, g))
        if a is None:
            raise c.nonarr(I, I.getattr(r, g), g)
        c.eq_shape(a.shape, (P(len(ns)),), g)
        for k, n in enumerate(ns):
            c.eq_poly(topoly(a.get((P(k),))), put(src[n]), f"entry {k} of the {g} ({n})")
    return put, out, dot, want_con


def ob_implicit(c, con):
    z = Client(c)
    I = z.I
    call(I, I.getattr(z.m, "set_con_outputs"), Tup(list(con)))
    nc = len(con)
    xs, us, ds, cs = base_array("x", (P(2),)), base_array("u", (P(3),)), base_array("d", (P(2),)), base_array("c", (P(nc),))
    kw = {"states": I.new_arr(xs), "inputs": I.new_arr(us), "states_dot": I.new_arr(ds), "con_outputs": I.new_arr(cs), "mesh": sym("mesh")}
    got = arr_of(I, call(I, I.getattr(z.m, "implicit"), **kw))
    flat = base_array("f", (P(7 + nc),))
    params = call(I, I.getattr(z.m, "get_recursive_params"))
    got2 = arr_of(I, call(I, I.getattr(z.m, "_apply_and_flat_implicit"), I.new_arr(flat), sym("mesh"), params))
    if got is None or got2 is None:
        raise Und("implicit form")
    out, dot = z.spec()
    from .. import alg

    def sub(p, f):
        for k, n in enumerate("ab"):
            p = alg.subst(p, {next(iter(sym("x_" + n).atoms())): f("x", k)})
        for k, n in enumerate("uvw"):
            p = alg.subst(p, {next(iter(sym("u_" + n).atoms())): f("u", k)})
        return p
    arrs = {"x": xs, "u": us, "d": ds, "c": cs}
    off = {"x": 0, "u": 2, "d": 5, "c": 7}
    for a, f, what in ((got, lambda g, k: topoly(arrs[g].get((P(k),))), "implicit"), (got2, lambda g, k: topoly(flat.get((P(off[g] + k),))), "implicit form of flat variables")):
        want = [sub(dot[n], f) - f("d", k) for k, n in enumerate("ab")] + [sub(out[n], f) - f("c", k) for k, n in enumerate(con)] + [sub(out[n], f) for n in RES]
        c.eq_shape(a.shape, (P(len(want)),), what)
        for k, w in enumerate(want):
            c.eq_poly(topoly(a.get((P(k),))), w, f"{what}: entry {k}")
    g = lambda n: I.as_num(I.getattr(z.m, n))
    c.eq_poly(g("num_implicit_res"), P(2 + nc + len(RES)), "number of implicit equations")
    c.eq_poly(g("num_implicit_var"), P(7 + nc), "number of implicit variables")


def ob_flat_index(c):
    z = Client(c)
    I = z.I
    off = {"states": (0, ["a", "b"]), "inputs": (2, ["u", "v", "w"]), "states_dot": (5, ["a", "b"]), "con_outputs": (7, ["y3", "y1"])}
    for g, (o, ns) in off.items():
        for k, n in enumerate(ns):
            c.eq_poly(I.as_num(call(I, I.getattr(z.m, "get_var_index_in_flat"), g, n)), P(o + k), f"flat index of {g} {n}")
        a = arr_of(I, call(I, I.getattr(z.m, "get_group_indices_in_flat"), g))
        c.eq_shape(a.shape, (P(len(ns)),), f"flat indices of {g}")
        for k in range(len(ns)):
            c.eq_poly(topoly(a.get((P(k),))), P(o + k), f"flat indices of {g}")


def ob_quiet(c, mode):
    z = Client(c, "Quiet")
    I = z.I
    args = lambda: {"states": I.new_dict([("a", sym("a"))]), "inputs": I.new_dict([("u", sym("u"))]), "mesh": sym("mesh")}
    call(I, I.getattr(z.m, "forward"), **args())
    call(I, I.getattr(z.m, "forward"), **args())
    I.setattr(z.m, "mode", mode)
    must_raise(c, I, I.getattr(z.m, "forward"), args(), f"evaluating a submodel without outputs {mode}")


def ob_calls(c, mode):
    z = Client(c, "Twice")
    I = z.I
    I.setattr(z.m, "mode", mode)
    args = {"states": I.new_dict([("a", sym("a"))]), "inputs": I.new_dict([("u", sym("u"))]), "mesh": sym("mesh")}
    if mode == "once":
        call(I, I.getattr(z.m, "forward"), **args)
        args["states"] = I.new_dict([("a", sym("b"))])
        r = call(I, I.getattr(z.m, "forward"), **args)
        c.eq_poly(I.as_num(I.getitem(I.getattr(r, "outputs"), "engine.o")), sym("b") * 2 + sym("u"), "output of the submodel in the second evaluation")
        return
    must_raise(c, I, I.getattr(z.m, "forward"), args, {"twice": "evaluating a submodel twice", "never": "not evaluating a submodel", "other": "evaluating an undeclared submodel"}[mode])


def ob_keys(c, mode):
    z = Client(c, "Odd")
    I = z.I
    args = {"states": I.new_dict([("a", sym("a"))]), "inputs": I.new_dict([("u", sym("u"))]), "mesh": sym("mesh")}
    call(I, I.getattr(z.m, "forward"), **args)
    I.setattr(z.m, "mode", mode)
    must_raise(c, I, I.getattr(z.m, "forward"), args, {"input": "a submodel call without one of its inputs", "output": "outputs without a declared one", "dict": "state derivatives without a declared one", "vector": "a vector without a declared name"}[mode])


def ob_declared(c, fn):
    z = Client(c)
    I = z.I
    must_raise(c, I, I.mod_get("client", fn), {}, "a declaration of a " + ("residual" if "res" in fn else "constraint output") + " that is no output")


def ob_con_unknown(c):
    z = Client(c)
    I = z.I
    call(I, I.getattr(z.m, "set_con_outputs"), Tup(["nothing"]))
    xs, us = base_array("x", (P(2),)), base_array("u", (P(3),))
    must_raise(c, I, I.getattr(z.m, "forward_with_arrays"), {}, "a constraint output that is no output", [I.new_arr(xs), I.new_arr(us), sym("mesh")])


def ob_library_io(c, qual, kw):
    """The array form of a library model is its dictionary form in declared order."""
    lib = Lib(c)
    I = lib.I
    m = lib.make(qual, **kw)
    st = stateful(lib, m)
    us = base_array("u", (P(len(lib.names(m, "inputs"))),))
    xs = base_array("x", (P(len(lib.names(m, "states"))),)) if st else None
    d = lambda g, a: I.new_dict([(n, topoly(a.get((P(k),)))) for k, n in enumerate(lib.names(m, g))])
    if st:
        ref = call(I, I.getattr(m, "forward"), d("states", xs), d("inputs", us), sym("mesh"))
        r = call(I, I.getattr(m, "forward_with_arrays"), I.new_arr(xs), I.new_arr(us), sym("mesh"))
    else:
        ref = call(I, I.getattr(m, "forward"), d("inputs", us))
        r = call(I, I.getattr(m, "forward_with_arrays"), I.new_arr(us))
    for g in (("states_dot", "outputs") if st else ("outputs",)):
        a = arr_of(I, I.getattr(r, g))
        ns = lib.names(m, g)
        if a is None:
            raise c.nonarr(I, I.getattr(r, g), g)
        c.eq_shape(a.shape, (P(len(ns)),), g)
        src = I.getattr(ref, g)
        for k, n in enumerate(ns):
            got, want = topoly(a.get((P(k),))), I.as_num(I.getitem(src, n))
            if want is None:
                b = arr_of(I, I.getitem(src, n))
                if b is None or b.size.const() != 1:
                    raise Und(n)
                want = topoly(b.get((ZERO,) * b.ndim))
            c.count("comparisons")
            if got.key != want.key:
                c.eq_poly(got, want, f"{g} {n}")


def run(c):
    c.explain = (
        "Abstract interpretation of every library model, with every type of submodel, on symbolic states and inputs that have exactly the declared names: "
        "no path may raise, each submodel must be evaluated once with its declared inputs, and the returned names and the collected submodel outputs must be "
        "the declared ones. The composition and array conversion code is also interpreted on client models and compared with an independent specification."
    )
    c.assumptions = ["the client models stand for user defined models", "default parameters have the right names (their values are arbitrary only in C30 to C34)"]
    for q, kw in LEAVES:
        w = " [" + ",".join(f"{k}={v}" for k, v in kw.items()) + "]" if kw else ""
        c.ob("exactly the declared values", place(q) + w, ob_contract, c, q, kw, ())
        if not kw and q not in (AERO + "GPAero", AERO + "MLPAero"):
            c.ob("arrays are in declared order", place(q), ob_library_io, c, q, kw)
    tires = ["tire_fl", "tire_fr", "tire_rl", "tire_rr"]
    lib = Lib(c)
    subs = list(lib.submodels(lib.make(VEH)))
    tires = [t for t in subs if t.startswith("tire")]
    sets = [("default", ()), ("PerantoniTire", tuple((t, "PerantoniTire") for t in tires)), ("MF52", tuple((t, "MF52") for t in tires)),
            ("mixed tires", tuple((t, ("PerantoniTire", "MF52")[k % 2]) for k, t in enumerate(tires)))]
    sets += [(a, (("aero", a),) + tuple((t, "PerantoniTire") for t in tires)) for a in ("ConstAero", "GPAero", "MLPAero") if "aero" in subs]
    for n, v in sets:
        c.ob("exactly the declared values", place(VEH) + f" [{n}]", ob_contract, c, VEH, {}, v)
    for n, v in sets[:3]:
        c.ob("exactly the declared values", place(ON) + f" [{n}]", ob_contract, c, ON, {}, tuple(("vehicle." + p, t) for p, t in v))
    B = f"{FILE}:"
    c.ob("names follow the declarations", B + "StateSpaceModel._construct_io_names", ob_names, c)
    c.ob("submodel outputs are collected under its name", B + "Model._combine_submodel_outputs", ob_collect, c)
    for con in (None, (), ("y2",), ("left.engine.o", "y1", "right.w")):
        c.ob("arrays are in declared order", B + f"StateSpaceModel.forward_with_arrays [{'declared' if con is None else ','.join(con)}]", ob_arrays, c, con)
    for con in ((), ("y1",), ("y3", "right.o")):
        c.ob("implicit equations are in declared order", B + f"StateSpaceModel.implicit [{','.join(con)}]", ob_implicit, c, con)
    c.ob("flat indices follow the declared order", B + "Model.get_var_index_in_flat", ob_flat_index, c)
    for m in ("once", "twice", "never", "other"):
        c.ob("each submodel is evaluated exactly once", B + f"Model.call_submodel [{m}]", ob_calls, c, m)
    for m in ("twice", "never"):
        c.ob("each submodel is evaluated exactly once", B + f"Model.call_submodel [{m}, no outputs]", ob_quiet, c, m)
    for m in ("input", "output", "dict", "vector"):
        c.ob("missing values are rejected", B + f"Model._check_keys [{m}]", ob_keys, c, m)
    for f in ("bad_residual", "bad_con"):
        c.ob("declared residuals and constraint outputs are outputs", B + f"StateSpaceModel._check_names [{f}]", ob_declared, c, f)
    c.ob("constraint outputs are outputs", B + "StateSpaceModel._extract_con_outputs", ob_con_unknown, c)
