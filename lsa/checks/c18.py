"""C18: parameter and configuration trees are isolated copies; paths address exactly the node they name."""
from ..checklib import *
from ..arrays import base_array
from ..interp import Dead
from ..alg import sym, ZERO, ONE
from ..values import Native, Tup, Ref, Ext
from .. import alg
from ..models import Lib, once, BASE
from ..trees import TREE, content, same, spoil, spoil_tree
from .c30 import ON

FILE = "lumos/models/tree_utils.py"
COMP = "lumos/models/composition.py"

# parameters of every node of the example tree: name -> shape
NODES = {"": {"a": (), "w": (2, 3)}, "x": {"a": (), "v": (4,)}, "x.y": {"a": (), "s": ()}, "x.y.q": {"m": (2, 2)}, "z": {}, "y": {"a": (), "b": (1,)}}


class Ctx:
    def __init__(self, c, nodes=NODES):
        self.lib = Lib(c)
        self.I = self.lib.I
        self.nodes = nodes
        self.PT = self.I.mod_get(TREE, "ParameterTree")
        self.CT = self.I.mod_get(TREE, "ConfigTree")
        for n in ("ParameterTree", "ConfigTree"):
            if not isinstance(self.I.mod_get(TREE, n), type(self.PT)):
                raise Gone(n)

    def value(self, tag, shape):
        return self.I.new_arr(base_array(tag, tuple(P(k) for k in shape))) if shape else sym(tag)

    def link(self, subs, nodes, up):
        for p in sorted(nodes, key=lambda p: -len(p.split("."))):
            if p:
                head, _, last = p.rpartition(".")
                call(self.I, self.I.getattr(subs[head], up), name=last, subtree=subs[p])
        return subs[""]

    def tree(self, tag="old", nodes=None):
        nodes = self.nodes if nodes is None else nodes
        I = self.I
        return self.link({p: call(I, self.PT, data=I.new_dict([(n, self.value(f"{tag} {p}.{n}", s)) for n, s in d.items()])) for p, d in nodes.items()}, nodes, "add_child")

    def config(self, tag="Type", nodes=None):
        nodes = self.nodes if nodes is None else nodes
        return self.link({p: call(self.I, self.CT, data=f"{tag}_{p}") for p in nodes}, nodes, "add_child")

    def dict(self, kind, tag="old"):
        """The dictionary form, built independently of the code under analysis."""
        I = self.I

        def node(p):
            sub = [q for q in self.nodes if q and q.rpartition(".")[0] == p]
            data = I.new_dict([(n, self.value(f"{tag} {p}.{n}", s)) for n, s in self.nodes[p].items()]) if kind == "params" else f"Type_{p}"
            return I.new_dict([("data", data), ("children", I.new_dict([(q.rpartition(".")[2], node(q)) for q in sub]))])
        return node("")

    def make(self, kind):
        return self.tree() if kind == "params" else self.config()

    def cls(self, kind):
        return self.PT if kind == "params" else self.CT


def ob_to_dict(c, kind, side):
    z = Ctx(c)
    I = z.I
    t = z.make(kind)
    d = call(I, I.getattr(t, "to_dict"))
    want = content(I, z.dict(kind))
    same(c, I, content(I, d), want, "to_dict")
    if side == "dict":
        spoil(I, d)
        same(c, I, content(I, call(I, I.getattr(t, "to_dict"))), want, "the tree after its dictionary was changed")
    else:
        spoil_tree(I, t)
        same(c, I, content(I, d), want, "the dictionary after the tree was changed")


def ob_from_dict(c, kind, side):
    z = Ctx(c)
    I = z.I
    d = z.dict(kind)
    want = content(I, d)
    t = call(I, I.getattr(z.cls(kind), "from_dict"), d)
    same(c, I, content(I, t), want, "from_dict")
    if I.getattr(t, "_data_type") is None:
        raise Und("data type")
    if side == "dict":
        spoil(I, d)
        same(c, I, content(I, t), want, "the tree after the dictionary it was made from was changed")
    else:
        spoil_tree(I, t)
        same(c, I, content(I, d), want, "the dictionary after the tree made from it was changed")


def flat_form(z, kind):
    out = {}
    for p, d in z.nodes.items():
        if kind == "params":
            out.update({(p + "." if p else "") + n: (p, n) for n in d})
        else:
            out[p] = (p, None)
    return out


def ob_flat(c, kind, side):
    z = Ctx(c)
    I = z.I
    t = z.make(kind)
    want = content(I, t)
    r = I.iter_items(call(I, I.getattr(t, "to_flat_dict")))
    if r is None or len(r) != 2:
        raise Und("to_flat_dict")
    flat, tdef = r
    ref = {k: content(I, z.value(f"old {p}.{n}", z.nodes[p][n])) if n else ("const", f"Type_{p}") for k, (p, n) in flat_form(z, kind).items()}
    same(c, I, content(I, flat), ("dict", ref), "flat dictionary")
    keep = content(I, tdef)
    if side == "tree":
        spoil_tree(I, t)
        same(c, I, content(I, flat), ("dict", ref), "the flat dictionary after the tree was changed")
        same(c, I, content(I, tdef), keep, "the tree definition after the tree was changed")
        return
    back = call(I, I.getattr(z.cls(kind), "from_flat_dict"), tdef, flat)
    same(c, I, content(I, back), want, "from_flat_dict")
    if side == "back":
        spoil_tree(I, back)
        same(c, I, content(I, flat), ("dict", ref), "the flat dictionary after the tree made from it was changed")
        same(c, I, content(I, tdef), keep, "the tree definition after the tree made from it was changed")
        return
    spoil(I, flat)
    spoil(I, tdef)
    same(c, I, content(I, t), want, "the tree after its flat dictionary was changed")
    same(c, I, content(I, back), want, "the tree after the flat dictionary it was made from was changed")


def ob_pytree(c, side):
    """tree_flatten / tree_unflatten and tree_ravel: none of the sides is connected."""
    z = Ctx(c)
    I = z.I
    t = z.tree()
    want = content(I, t)
    leaves, aux = I.iter_items(call(I, I.getattr(t, "tree_flatten")))
    kl, ka = content(I, leaves), content(I, aux)
    if side == "tree":
        spoil_tree(I, t)
        same(c, I, content(I, leaves), kl, "the leaves after the tree was changed")
        same(c, I, content(I, aux), ka, "the structure after the tree was changed")
        return
    back = call(I, I.getattr(z.PT, "tree_unflatten"), aux, leaves)
    same(c, I, content(I, back), want, "tree_unflatten")
    if side == "back":
        spoil_tree(I, back)
        same(c, I, content(I, leaves), kl, "the leaves after the tree made from them was changed")
        same(c, I, content(I, aux), ka, "the structure after the tree made from it was changed")
    else:
        spoil(I, leaves)
        spoil(I, aux)
        same(c, I, content(I, t), want, "the tree after its leaves were changed")
        same(c, I, content(I, back), want, "the tree after the leaves it was made from were changed")


PATHS = [("a", ""), ("x.a", "x"), ("x.y.a", "x.y"), ("y.a", "y"), ("x.y.q.m", "x.y.q"), ("w", ""), ("x.v", "x")]


def ob_path(c, path, delim):
    """get_param and set_param address exactly the parameter the path names."""
    z = Ctx(c)
    I = z.I
    t = z.tree()
    key = path.replace(".", delim)
    node, _, n = path.rpartition(".")
    kw = {} if delim == "." else {"delimiter": delim}
    got = call(I, I.getattr(t, "get_param"), key, **kw)
    same(c, I, content(I, got), content(I, z.value(f"old {node}.{n}", z.nodes[node][n])), f"get_param({key!r})")
    call(I, I.getattr(t, "set_param"), key, sym("new value"), **kw)
    ref = content(I, z.dict("params"))
    at = ref
    for k in (node.split(".") if node else []):
        at = at[1]["children"][1][k]
    at[1]["data"][1][n] = ("num", sym("new value"))
    same(c, I, content(I, t), ref, f"tree after set_param({key!r})")


def ob_dotted(c):
    """With another delimiter, a dot is part of a name."""
    z = Ctx(c)
    I = z.I
    t = z.tree()
    sub = call(I, z.PT, data=I.new_dict([("p.q", sym("dotted")), ("r", sym("plain"))]))
    call(I, I.getattr(t, "add_child"), name="x.y", subtree=sub)
    got = call(I, I.getattr(t, "get_param"), "x.y/p.q", delimiter="/")
    same(c, I, content(I, got), ("num", sym("dotted")), "parameter with a dot in its name")
    call(I, I.getattr(t, "set_param"), "x.y/p.q", sym("new"), delimiter="/")
    same(c, I, content(I, sub), ("dict", {"data": ("dict", {"p.q": ("num", sym("new")), "r": ("num", sym("plain"))}), "children": ("dict", {})}), "node with dots in its names")


def ob_replace(c, kind, path, delim):
    z = Ctx(c)
    I = z.I
    t = z.make(kind)
    ref = content(I, z.dict(kind))
    sub = call(I, z.cls(kind), data=I.new_dict([("new", sym("n"))]) if kind == "params" else "NewType")
    new = content(I, sub)
    *head, last = path.split(".")
    at = ref
    for k in head:
        at = at[1]["children"][1][k]
    at[1]["children"][1][last] = new
    kw = {} if delim == "." else {"delimiter": delim}
    call(I, I.getattr(t, "replace_subtree"), path.replace(".", delim), sub, **kw)
    same(c, I, content(I, t), ref, f"tree after replacing {path!r}")


def ob_missing(c, kind, path, bad=False):
    """Replacing what is not there, or by what is not a tree, is rejected and changes nothing."""
    z = Ctx(c)
    I = z.I
    t = z.make(kind)
    ref = content(I, z.dict(kind))
    sub = I.new_dict([]) if bad else call(I, z.cls(kind), data=I.new_dict([]) if kind == "params" else "NewType")
    n = len(I.outcomes)
    must_raise(c, I, I.getattr(t, "replace_subtree"), {}, f"replacing {'something by what is not a tree' if bad else 'the missing child'} {path!r}", [path, sub])
    for o in I.outcomes[n:]:
        if o.state is None:
            raise Und("state at the raise")
        I.st = o.state.fork()
        same(c, I, content(I, t), ref, "tree after a rejected replacement")


def ob_get_missing(c, what, path):
    z = Ctx(c)
    I = z.I
    t = z.tree()
    must_raise(c, I, I.getattr(t, what), {}, f"{what}({path!r})", [path] + ([sym("v")] if what == "set_param" else []))


def model(c):
    lib = Lib(c)
    m = lib.make(ON)
    nodes = {}

    def walk(m, p):
        nodes[p] = m
        for n, s in lib.submodels(m).items():
            walk(s, (p + "." if p else "") + n)
    walk(m, "")
    for p, s in nodes.items():
        keys = lib.params(s)[:2]
        if p in ("", "vehicle") or not keys:
            keys = keys + ["arr"]
        lib.set_params(s, {n: sym(f"old {p}.{n}") if n != "arr" else lib.I.new_arr(base_array(f"old {p}.{n}", (P(3),))) for n in keys})
    return lib, m, nodes


def values(lib, nodes):
    I = lib.I
    return ("dict", {p: content(I, I.getattr(s, "_params")) for p, s in nodes.items()})


def spoil_model(lib, nodes):
    for s in nodes.values():
        d = lib.I.getattr(s, "_params")
        if not isinstance(d, Ref):
            raise Und("parameters of a model")
        spoil(lib.I, d)


def ob_read(c, side):
    lib, m, nodes = model(c)
    I = lib.I
    own = values(lib, nodes)
    t = call(I, I.getattr(m, "get_recursive_params"))
    keep = content(I, t)
    for p in nodes:
        at = keep
        for k in (p.split(".") if p else []):
            at = at[1]["children"][1].get(k)
            if at is None:
                raise Bad(f"get_recursive_params: no node for the submodel {p!r}")
        same(c, I, at[1]["data"], own[1][p], f"parameters read for {p!r}")
    if side == "tree":
        spoil_tree(I, t)
        same(c, I, values(lib, nodes), own, "the model after the parameters read from it were changed")
    else:
        spoil_model(lib, nodes)
        same(c, I, content(I, t), keep, "the parameters read from the model after the model was changed")


def ob_write(c, side):
    lib, m, nodes = model(c)
    I = lib.I
    t = call(I, I.getattr(m, "get_recursive_params"))
    for p, s in nodes.items():                        # own new values
        keys = I.iter_items(I.getattr(s, "_params"))
        sub = t
        for k in (p.split(".") if p else []):
            sub = I.call(I.getattr(sub, "get_child"), [k], {})
        for n in keys:
            I.call(I.getattr(sub, "set_param"), [n, sym(f"new {p}.{n}") if n != "arr" else I.new_arr(base_array(f"new {p}.{n}", (P(3),)))], {})
    keep = content(I, t)
    call(I, I.getattr(m, "set_recursive_params"), t)
    own = values(lib, nodes)
    for p, s in nodes.items():
        at = keep
        for k in (p.split(".") if p else []):
            at = at[1]["children"][1][k]
        same(c, I, own[1][p], at[1]["data"], f"parameters of {p!r} after set_recursive_params")
    if side == "tree":
        spoil_tree(I, t)
        same(c, I, values(lib, nodes), own, "the model after the tree written to it was changed")
    else:
        spoil_model(lib, nodes)
        same(c, I, content(I, t), keep, "the tree after the model it was written to was changed")


def ob_default(c):
    """Changing the default parameters or the default configuration of one model changes no other model."""
    lib, m, nodes = model(c)
    I = lib.I
    a = lib.make(ON)
    ref = content(I, call(I, I.getattr(a, "get_recursive_default_params")))
    cfg = content(I, call(I, I.getattr(lib.cls(ON), "get_recursive_default_model_config")))
    t = call(I, I.getattr(a, "get_recursive_default_params"))
    spoil_tree(I, t)
    spoil_tree(I, call(I, I.getattr(lib.cls(ON), "get_recursive_default_model_config")))
    d = call(I, I.getattr(lib.cls(ON), "get_default_submodel_config"))
    spoil(I, d)
    same(c, I, content(I, call(I, I.getattr(a, "get_recursive_default_params"))), ref, "default parameters")
    same(c, I, content(I, call(I, I.getattr(lib.cls(ON), "get_recursive_default_model_config"))), cfg, "default configuration")
    b = lib.make(ON)
    same(c, I, content(I, call(I, I.getattr(b, "get_recursive_params"))), ref, "parameters of a model built afterwards")


def ob_two(c):
    """Two models of the same type do not share parameters."""
    lib, m, nodes = model(c)
    I = lib.I
    a, b = lib.make(ON), lib.make(ON)
    ref = content(I, call(I, I.getattr(b, "get_recursive_params")))
    sub = {}

    def walk(m, p):
        sub[p] = m
        for n, s in lib.submodels(m).items():
            walk(s, p + "." + n)
    walk(a, "")
    spoil_model(lib, sub)
    same(c, I, content(I, call(I, I.getattr(b, "get_recursive_params"))), ref, "parameters of another model of the same type")


def ob_submodel(c, delim):
    lib, m, nodes = model(c)
    I = lib.I
    for p, s in nodes.items():
        if not p:
            continue
        kw = {} if delim == "." else {"delimiter": delim}
        got = call(I, I.getattr(m, "get_submodel"), p.replace(".", delim), **kw)
        c.count("comparisons")
        if got != s:
            raise Bad(f"get_submodel({p.replace('.', delim)!r}) returns another submodel")
    must_raise(c, I, I.getattr(m, "get_submodel"), {}, "an unknown submodel", ["vehicle" + (delim if delim == "." else ".") + "nothing"])


def run(c):
    c.explain = (
        "Abstract interpretation of the tree and composition code on trees with symbolic values and arrays: after each conversion everything that can be "
        "reached from one side is changed in place (entries, arrays, children) and the content of the other side must be what it was; paths are compared with "
        "an independently built content."
    )
    c.assumptions = ["one tree of six nodes up to depth 3 and the model tree of SimpleVehicleOnTrack stand for all trees", "values are numbers and arrays; subtrees given to add_child or replace_subtree become part of the tree"]
    for kind in ("params", "config"):
        n = "ParameterTree" if kind == "params" else "ConfigTree"
        for side in ("dict", "tree"):
            c.ob(f"changing the {side} does not change the other side", f"{FILE}:Tree.to_dict [{n}]", ob_to_dict, c, kind, side)
            c.ob(f"changing the {side} does not change the other side", f"{FILE}:Tree.from_dict [{n}]", ob_from_dict, c, kind, side)
        for path in ("x", "x.y", "x.y.q", "y", "z"):
            c.ob("replacing a subtree replaces exactly the named one", f"{FILE}:Tree.replace_subtree [{n} {path}]", ob_replace, c, kind, path, "." if len(path) != 3 else "/", group=f"rep{kind}")
        for path in ("nothing", "x.nothing", "x.y.nothing", "a", "nothing.x", "x.a", "q", "x.z", "y.x", "x.y.y"):
            c.ob("replacing a missing child is rejected", f"{FILE}:Tree.replace_subtree [{n} {path}]", ob_missing, c, kind, path, group=f"mis{kind}")
        c.ob("replacing a missing child is rejected", f"{FILE}:Tree.replace_subtree [{n} by a dictionary]", ob_missing, c, kind, "x", True, group=f"mis{kind}")
    for side in ("tree", "flat", "back"):
        c.ob(f"changing one side does not change the other [{side}]", f"{FILE}:Tree.to_flat_dict", ob_flat, c, "params", side)
        c.ob(f"changing one side does not change the other [{side}]", f"{FILE}:ParameterTree.tree_flatten", ob_pytree, c, side)
    for path, _ in PATHS:
        for delim in (".", "/", "::"):
            c.ob("a path addresses the parameter it names", f"{FILE}:ParameterTree.get_param,set_param [{path.replace('.', delim)}]", ob_path, c, path, delim, group="path" + delim)
    c.ob("a path addresses the parameter it names", f"{FILE}:ParameterTree.get_param,set_param [names with dots]", ob_dotted, c)
    for path in ("nothing", "x.nothing", "nothing.a", "x.y.nothing.a"):
        c.ob("reading a missing parameter is rejected", f"{FILE}:ParameterTree.get_param [{path}]", ob_get_missing, c, "get_param", path, group="miss")
    for path in ("nothing.a", "x.y.nothing.a"):
        c.ob("writing to a missing node is rejected", f"{FILE}:ParameterTree.set_param [{path}]", ob_get_missing, c, "set_param", path, group="miss")
    for side in ("tree", "model"):
        c.ob(f"changing the {side} does not change the other side", f"{COMP}:CompositeModel.get_recursive_params", ob_read, c, side)
        c.ob(f"changing the {side} does not change the other side", f"{COMP}:CompositeModel.set_recursive_params", ob_write, c, side)
    c.ob("defaults are not shared", f"{COMP}:CompositeModel.get_recursive_default_params", ob_default, c)
    c.ob("models do not share parameters", f"{COMP}:CompositeModel.__init__", ob_two, c)
    for delim in (".", "/"):
        c.ob("a path addresses the submodel it names", f"{COMP}:CompositeModel.get_submodel [{delim}]", ob_submodel, c, delim)
