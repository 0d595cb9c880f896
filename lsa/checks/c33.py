"""C33: model composition is consistent."""
from ..checklib import *
from ..alg import sym, ZERO, ONE
from ..values import Native, Tup, Ref, Ext, ClassV
from ..models import Lib, BASE
from ..trees import TREE, content, same, show

FILE = "lumos/models/composition.py"
COMP = "lumos.models.composition"

CLIENT = '''
from lumos.models.composition import ModelMaker, CompositeModel
from lumos.models.tree_utils import ParameterTree, ConfigTree

class Leaf(CompositeModel):
    @classmethod
    def get_default_params(cls):
        return {"k": 1.0, "m": 2.0}

class OtherLeaf(CompositeModel):
    @classmethod
    def get_default_params(cls):
        return {"k": 3.0, "q": 4.0, "r": 5.0}

class Bare(CompositeModel):
    pass

class Middle(CompositeModel):
    @classmethod
    def get_default_submodel_config(cls):
        return {"first": "Leaf", "second": "Leaf"}
    @classmethod
    def get_default_params(cls):
        return {"k": 6.0}

class Top(CompositeModel):
    @classmethod
    def get_default_submodel_config(cls):
        return {"b": "Middle", "a": "OtherLeaf", "bare": "Bare"}
    @classmethod
    def get_default_params(cls):
        return {"z": 7.0, "k": 8.0}

def again():
    class Leaf(CompositeModel):
        pass
    return Leaf
'''
TYPES = {"": "Top", "b": "Middle", "b.first": "Leaf", "b.second": "Leaf", "a": "OtherLeaf", "bare": "Bare"}
PARAMS = {"Leaf": {"k": 1, "m": 2}, "OtherLeaf": {"k": 3, "q": 4, "r": 5}, "Bare": {}, "Middle": {"k": 6}, "Top": {"z": 7, "k": 8}}
SUBS = {"Leaf": {}, "OtherLeaf": {}, "Bare": {}, "Middle": {"first": "Leaf", "second": "Leaf"}, "Top": {"b": "Middle", "a": "OtherLeaf", "bare": "Bare"}}


class Ctx:
    def __init__(self, c, register=True):
        self.lib = Lib(c)
        self.I = I = self.lib.I
        I.load_text("client", CLIENT)
        self.MM = I.mod_get(COMP, "ModelMaker")
        if not isinstance(self.MM, ClassV):
            raise Gone("ModelMaker")
        self.cls = {n: I.mod_get("client", n) for n in PARAMS}
        for n, k in self.cls.items():
            if not isinstance(k, ClassV):
                raise Und(f"client class {n}")
        if register:
            for k in self.cls.values():
                call(I, I.getattr(self.MM, "add_to_registry"), k)

    def mm(self, name, *a):
        return call(self.I, self.I.getattr(self.MM, name), *a)

    def type_of(self, m):
        r = self.I.rec(m) if isinstance(m, Ref) else None
        if r is None or r.kind != "obj":
            raise Und(f"model {m!r}"[:200])
        return r.cls

    def walk(self, m, p=""):
        out = {p: m}
        for n, s in self.lib.submodels(m).items():
            out.update(self.walk(s, (p + "." if p else "") + n))
        return out

    def types(self, c, m, want, what):
        got = {p: self.type_of(s).name for p, s in self.walk(m).items()}
        c.count("comparisons")
        if got != want:
            raise Bad(f"{what}: submodels {sorted(got.items())} instead of {sorted(want.items())}"[:500])

    def values(self, c, m, want, what):
        I = self.I
        for p, s in self.walk(m).items():
            same(c, I, content(I, I.getattr(s, "_params")), ("dict", {k: ("num", P(v)) for k, v in want[p].items()}), f"{what}: parameters of {p!r}")


def expand(t, p=""):
    out = {p: t}
    for n, s in SUBS[t].items():
        out.update(expand(s, (p + "." if p else "") + n))
    return out


def ob_register(c):
    z = Ctx(c)
    I = z.I
    for n, k in z.cls.items():
        got = z.mm("get_model_class", n)
        c.count("comparisons")
        if got != k:
            raise Bad(f"the name {n!r} is registered for {got!r}")
    for n in ("MF52", "PerantoniTire", "SimpleVehicle", "ConstAero"):
        got = z.mm("get_model_class", n)
        if not isinstance(got, ClassV) or got.name != n:
            raise Bad(f"the name {n!r} is registered for {got!r}")


def ob_duplicate(c, same_class):
    z = Ctx(c)
    I = z.I
    k = z.cls["Leaf"] if same_class else call(I, I.mod_get("client", "again"))
    n = len(I.outcomes)
    must_raise(c, I, I.getattr(z.MM, "add_to_registry"), {}, "a second registration under a taken name", [k])
    for o in I.outcomes[n:]:
        if o.state is None:
            raise Und("state at the raise")
        I.st = o.state.fork()
        got = z.mm("get_model_class", "Leaf")
        if got != z.cls["Leaf"]:
            raise Bad("a rejected registration replaces the registered model")


def ob_remove(c):
    z = Ctx(c)
    I = z.I
    z.mm("remove_from_registry", z.cls["Leaf"])
    must_raise(c, I, I.getattr(z.MM, "get_model_class"), {}, "the name of a removed model", ["Leaf"])


def ob_remove2(c):
    z = Ctx(c)
    z.mm("remove_from_registry", z.cls["Leaf"])
    got = z.mm("get_model_class", "OtherLeaf")
    if got != z.cls["OtherLeaf"]:
        raise Bad("removing one model removes another")
    z.mm("add_to_registry", z.cls["Leaf"])
    if z.mm("get_model_class", "Leaf") != z.cls["Leaf"]:
        raise Bad("a removed model cannot be registered again")


def ob_unknown(c, what):
    z = Ctx(c, register=False)
    I = z.I
    if what == "remove_from_registry":
        must_raise(c, I, I.getattr(z.MM, what), {}, "removing a model that is not registered", [z.cls["Leaf"]])
    elif what == "make_model_from_config":
        CT = I.mod_get(TREE, "ConfigTree")
        must_raise(c, I, I.getattr(z.MM, what), {}, "an unregistered model type", [call(I, CT, data="Nothing")])
    elif what == "default submodel":
        must_raise(c, I, z.cls["Middle"], {}, "a model whose default submodel type is not registered")
    elif what == "nested":
        call(I, I.getattr(z.MM, "add_to_registry"), z.cls["Middle"])
        call(I, I.getattr(z.MM, "add_to_registry"), z.cls["Leaf"])
        cfg = z.mm("make_config", "Middle")
        call(I, I.getattr(cfg, "replace_subtree"), "second", call(I, I.mod_get(TREE, "ConfigTree"), data="Nothing"))
        must_raise(c, I, I.getattr(z.MM, "make_model_from_config"), {}, "a configuration naming an unregistered submodel type", [cfg])
    else:
        must_raise(c, I, I.getattr(z.MM, what), {}, "an unregistered model type", ["Nothing"])


def ob_mismatch(c, have):
    z = Ctx(c)
    I = z.I
    cfg = z.mm("make_config", have)
    must_raise(c, I, z.cls["Leaf"], {"model_config": cfg}, f"a configuration for {have} given to Leaf")


def ob_missing(c):
    z = Ctx(c)
    I = z.I
    CT = I.mod_get(TREE, "ConfigTree")
    cfg = call(I, CT, data="Middle")
    call(I, I.getattr(cfg, "add_child"), name="first", subtree=call(I, CT, data="Leaf"))
    must_raise(c, I, z.cls["Middle"], {"model_config": cfg}, "a configuration without one of the submodels")


def ob_build(c, how):
    z = Ctx(c)
    I = z.I
    m = call(I, z.cls["Top"]) if how == "class" else z.mm("make_model_from_name", "Top") if how == "name" else z.mm("make_model_from_config", z.mm("make_config", "Top"))
    z.types(c, m, TYPES, "model from " + how)
    z.values(c, m, {p: PARAMS[t] for p, t in TYPES.items()}, "model from " + how)
    c.count("comparisons")
    for p, s in z.walk(m).items():
        if z.type_of(s) != z.cls[TYPES[p]]:
            raise Bad(f"{p!r} is built from another class")


def ob_variant(c, path, new):
    """The configuration decides the type of each submodel."""
    z = Ctx(c)
    I = z.I
    cfg = z.mm("make_config", "Top")
    call(I, I.getattr(cfg, "replace_subtree"), path, z.mm("make_config", new))
    want = {p: t for p, t in TYPES.items() if p != path and not p.startswith(path + ".")}
    want.update({(path + ("." + q if q else "")): t for q, t in expand(new).items()})
    m = z.mm("make_model_from_config", cfg)
    z.types(c, m, want, f"{path} replaced by {new}")
    z.values(c, m, {p: PARAMS[t] for p, t in want.items()}, f"{path} replaced by {new}")
    m2 = z.mm("make_model_from_name", "Top")
    z.types(c, m2, TYPES, "a default model built afterwards")


def ob_config(c):
    z = Ctx(c)
    I = z.I

    def node(t):
        return ("dict", {"data": ("const", t), "children": ("dict", {n: node(s) for n, s in SUBS[t].items()})})
    same(c, I, content(I, z.mm("make_config", "Top")), node("Top"), "make_config")
    for n, k in z.cls.items():
        same(c, I, content(I, call(I, I.getattr(k, "get_recursive_default_model_config"))), node(n), f"default configuration of {n}")
        got = I.iter_items(call(I, I.getattr(k, "get_submodel_names")))
        c.count("comparisons")
        if list(got) != list(SUBS[n]):
            raise Bad(f"submodel names of {n}: {got}")
        leaf = call(I, I.getattr(k, "is_leaf"))
        if bool(I.truth(leaf)) != (not SUBS[n]):
            raise Bad(f"is_leaf of {n}")


def params_tree(z, order):
    """Parameters with their own value each; the children in a given order."""
    I = z.I
    PT = I.mod_get(TREE, "ParameterTree")
    want = {}

    def node(p):
        t = TYPES[p]
        keys = list(PARAMS[t])
        subs = list(SUBS[t])
        if order:
            keys, subs = keys[::-1], subs[::-1]
        want[p] = {k: sym(f"new {p}.{k}") for k in keys}
        d = call(I, PT, data=I.new_dict(list(want[p].items())))
        for n in subs:
            call(I, I.getattr(d, "add_child"), name=n, subtree=node((p + "." if p else "") + n))
        return d
    return node(""), want


def ob_params(c, how, order):
    """Parameters reach each submodel under its own name, and are read from it under that name."""
    z = Ctx(c)
    I = z.I
    t, want = params_tree(z, order)
    if how == "init":
        m = call(I, z.cls["Top"], params=t)
    else:
        m = call(I, z.cls["Top"])
        call(I, I.getattr(m, "set_recursive_params"), t)
    z.values(c, m, want, "given parameters")
    got = content(I, call(I, I.getattr(m, "get_recursive_params")))

    def node(p):
        return ("dict", {"data": ("dict", {k: ("num", v) for k, v in want[p].items()}),
                         "children": ("dict", {n: node((p + "." if p else "") + n) for n in SUBS[TYPES[p]]})})
    same(c, I, got, node(""), "parameters read back")


def ob_leaf(c, name):
    """A model without submodels takes the parameters it is given, too."""
    z = Ctx(c)
    I = z.I
    want = {k: sym(f"new {k}") for k in PARAMS[name]}
    m = call(I, z.cls[name], params=call(I, I.mod_get(TREE, "ParameterTree"), data=I.new_dict(list(want.items()))))
    z.values(c, m, {"": want}, "parameters given to " + name)
    m = call(I, z.cls[name])
    z.values(c, m, {"": PARAMS[name]}, "parameters of a " + name + " built afterwards")


def ob_read_own(c):
    """Each submodel's own current parameters are read, not the defaults."""
    z = Ctx(c)
    I = z.I
    m = call(I, z.cls["Top"])
    sub = z.walk(m)
    for p, s in sub.items():
        t = call(I, I.getattr(s, "get_recursive_params"))
        for k in PARAMS[TYPES[p]]:
            call(I, I.getattr(t, "set_param"), k, sym(f"own {p}.{k}"))
        call(I, I.getattr(s, "set_recursive_params"), t)
    want = {p: {k: sym(f"own {p}.{k}") for k in PARAMS[t]} for p, t in TYPES.items()}
    z.values(c, m, want, "parameters written to each submodel")
    t = call(I, I.getattr(m, "get_recursive_params"))
    for p, d in want.items():
        for k, v in d.items():
            x = I.as_num(call(I, I.getattr(t, "get_param"), (p + "." if p else "") + k))
            c.eq_poly(x, v, f"parameter {p}.{k} read from the model")


def ob_missing_params(c):
    z = Ctx(c)
    I = z.I
    PT = I.mod_get(TREE, "ParameterTree")
    t = call(I, PT, data=I.new_dict([("k", sym("v"))]))
    call(I, I.getattr(t, "add_child"), name="first", subtree=call(I, PT, data=I.new_dict([("k", sym("w"))])))
    must_raise(c, I, I.getattr(call(I, z.cls["Middle"]), "set_recursive_params"), {}, "parameters without those of a submodel", [t])


def library(c):
    """Every concrete model class of the library."""
    import ast
    import os
    lib = Lib(c)
    I = lib.I
    out = {}
    root = os.path.join(I.root, "lumos")
    for d, _, files in sorted(os.walk(root)):
        for f in sorted(files):
            if not f.endswith(".py") or "test" in f:
                continue
            path = os.path.join(d, f)
            text = open(path).read()
            if "class " not in text or "odel" not in text:
                continue
            mod = os.path.relpath(path, I.root)[:-3].replace(os.sep, ".")
            mod = mod[:-9] if mod.endswith(".__init__") else mod
            if not mod.startswith("lumos.models"):
                continue
            for n in ast.parse(text).body:
                if isinstance(n, ast.ClassDef):
                    k = I.mod_get(mod, n.name)
                    base = I.mod_get(COMP, "CompositeModel")
                    if isinstance(k, ClassV) and isinstance(base, ClassV) and I.is_subclass(k, base):
                        out[f"{mod}.{n.name}"] = k
    return lib, out


def ob_library(c, qual):
    """Every default submodel is registered, under a type that is its own, and the model can be built."""
    lib, classes = library(c)
    I = lib.I
    k = classes[qual]
    MM = I.mod_get(COMP, "ModelMaker")
    d = call(I, I.getattr(k, "get_default_submodel_config"))
    for n in I.iter_items(d):
        t = I.getitem(d, n)
        if not isinstance(t, str):
            raise Und(f"submodel type {t!r}")
        c.count("comparisons")
        m = len(I.outcomes)
        try:
            got = I.call(I.getattr(MM, "get_model_class"), [t], {})
        except Dead:
            raise Bad(f"the submodel {n!r} of {k.name} has the type {t!r}, which is not registered")
        if not isinstance(got, ClassV) or got.name != t:
            raise Bad(f"the submodel {n!r} of {k.name} has the type {t!r}, registered as {got!r}")
    call(I, I.getattr(k, "get_recursive_default_model_config"))
    if k.name in ("Model", "StateSpaceModel", "CompositeModel", "AeroModel", "BaseTire"):
        return
    own = call(I, I.getattr(k, "get_default_params"))
    names = I.iter_items(own)
    m = call(I, k)
    c.count("comparisons")
    if sorted(lib.submodels(m)) != sorted(I.iter_items(d)):
        raise Bad(f"{k.name} is built with the submodels {sorted(lib.submodels(m))}")
    if sorted(lib.params(m)) != sorted(names):
        raise Bad(f"{k.name} is built with other parameters than its default ones")


def run(c):
    c.explain = (
        "Abstract interpretation of the registry and of model construction on client model classes (a tree of six submodels) and on every model class of the "
        "library: registration, rejection, submodel types and the routing of symbolic parameters are compared with the configuration."
    )
    c.assumptions = ["the client classes stand for all models", "model classes with abstract forward methods are not built"]
    R = f"{FILE}:ModelMaker."
    c.ob("a type is registered under its own name", R + "add_to_registry", ob_register, c)
    for s in (True, False):
        c.ob("a name is registered once", R + "add_to_registry" + (" [same class]" if s else " [other class]"), ob_duplicate, c, s)
    c.ob("a removed type is unknown", R + "remove_from_registry", ob_remove, c)
    c.ob("removing affects only the named type", R + "remove_from_registry", ob_remove2, c)
    for w in ("get_model_class", "make_config", "make_model_from_name", "make_model_from_config", "remove_from_registry"):
        c.ob("an unregistered type is rejected", R + w, ob_unknown, c, w)
    for w in ("default submodel", "nested"):
        c.ob("an unregistered type is rejected", f"{FILE}:CompositeModel.__init__ [{w}]", ob_unknown, c, w)
    for h in ("OtherLeaf", "Middle", "Bare"):
        c.ob("a configuration for another type is rejected", f"{FILE}:CompositeModel.__init__ [{h}]", ob_mismatch, c, h)
    c.ob("a configuration without a submodel is rejected", f"{FILE}:CompositeModel._build_submodels", ob_missing, c)
    for h in ("class", "name", "config"):
        c.ob("a model has the submodels and parameters its configuration names", f"{FILE}:CompositeModel.__init__ [{h}]", ob_build, c, h)
    for path, new in (("b.first", "OtherLeaf"), ("b", "Leaf"), ("a", "Middle"), ("bare", "Leaf"), ("b.second", "Middle")):
        c.ob("the configuration decides the submodel type", f"{FILE}:CompositeModel._build_submodels [{path} {new}]", ob_variant, c, path, new)
    c.ob("default configurations name the declared submodels", f"{FILE}:CompositeModel.get_recursive_default_model_config", ob_config, c)
    for how in ("init", "set"):
        for order in (0, 1):
            c.ob("parameters reach the submodel they name", f"{FILE}:CompositeModel.set_recursive_params [{how}{', other order' if order else ''}]", ob_params, c, how, order)
    for n in ("Leaf", "OtherLeaf", "Bare"):
        c.ob("parameters reach the submodel they name", f"{FILE}:CompositeModel.__init__ [{n}]", ob_leaf, c, n)
    c.ob("parameters are read from the submodel they name", f"{FILE}:CompositeModel.get_recursive_params", ob_read_own, c)
    c.ob("parameters without those of a submodel are rejected", f"{FILE}:CompositeModel.set_recursive_params", ob_missing_params, c)
    lib, classes = library(c)
    for q in classes:
        c.ob("default submodels are registered", f"{q.rsplit('.', 1)[0].replace('.', '/')}.py:{q.rsplit('.', 1)[1]}", ob_library, c, q)
