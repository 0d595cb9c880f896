"""C19: flattening parameters is lossless and order stable."""
from ..checklib import *
from ..arrays import base_array
from ..alg import sym, ZERO, ONE
from ..values import Native, Tup, Ref, Ext, Method
from .. import alg, casmat
from ..casmat import Cas
from ..models import Lib, BASE
from ..trees import TREE, content, same
from ..harness import arr_of
from .c30 import ON
from .c18 import Ctx as Trees

FILE = "lumos/models/tree_utils.py"

SHAPES = {
    "scalars": {"": {"a": (), "b": ()}, "x": {"a": ()}},
    "vectors": {"": {"a": (3,), "one": (1,)}, "x": {"none": (0,), "b": (2,)}, "x.y": {"c": ()}},
    "matrices": {"": {"m": (2, 3), "row": (1, 3), "col": (3, 1)}, "x": {"a": (), "cell": (1, 1), "sq": (2, 2)}},
    "cubes": {"": {"t": (2, 3, 4)}, "x": {"s": (), "m": (3, 2), "k": (1, 1, 2)}},
    "matrices laid out by columns": {"": {"m": (2, 3), "v": (3,)}, "x": {"a": (), "sq": (2, 2), "t": (2, 3, 2)}},
    "one parameter": {"": {"a": (2, 2)}},
    "single values": {"": {"a": (), "o": (1,), "c": (1, 1), "t": (1, 1, 1)}},
    "children only": {"": {}, "x": {}, "x.y": {"a": (2,), "b": ()}, "z": {"c": (2, 2)}},
    "many": {"": {f"p{k}": () if k % 3 else (k + 1,) for k in range(11)}, "b": {"z": (), "a": (2,)}, "a": {"k": (3, 2), "j": ()}},
}


class Ctx(Trees):
    def __init__(self, c, nodes, sym_dims=False):
        super().__init__(c, nodes)
        casmat.install(self.I)
        self.columns = nodes is SHAPES["matrices laid out by columns"]

    def value(self, tag, shape):
        v = super().value(tag, shape)
        if self.columns and len(shape) > 1:
            self.I.as_arr(v).meta["layout"] = "F"
        return v


def entries(nodes, I, keys):
    """(shape, offset) of every parameter when they are laid out in this order."""
    off, out = 0, {}
    for k in keys:
        p, _, n = k.rpartition(".")
        s = nodes[p][n]
        size = 1
        for d in s:
            size *= d
        out[k] = (s, off, size)
        off += size
    return out, off


def order(z):
    t = z.tree()
    return list(content(z.I, call(z.I, z.I.getattr(t, "to_flat_dict"))).__getitem__(1)[0][1])


def split(I, r, n=2):
    r = I.iter_items(r)
    if r is None or len(r) != n:
        raise Und(f"{n} results expected")
    return r


def at(shape, ix):
    """Row-major position."""
    k = 0
    for d, i in zip(shape, ix):
        k = k * d + i
    return k


def indices(shape):
    out = [()]
    for d in shape:
        out = [o + (k,) for o in out for k in range(d)]
    return out


def ob_ravel(c, name):
    """Every parameter lies in the flat vector, row by row, in the order of the keys."""
    nodes = SHAPES[name]
    z = Ctx(c, nodes)
    I = z.I
    t = z.tree()
    flat, un = split(I, call(I, I.getattr(t, "tree_ravel")))
    lay, n = entries(nodes, I, order(z))
    if len(lay) != sum(len(d) for d in nodes.values()):
        raise Bad(f"the flat form has {len(lay)} parameters")
    a = arr_of(I, flat)
    if a is None:
        raise c.nonarr(I, flat, "flat parameters")
    c.eq_shape(a.shape, (P(n),), "flat parameters")
    for k, (s, off, size) in lay.items():
        p, _, m = k.rpartition(".")
        v = z.value(f"old {p}.{m}", s)
        if not s:
            c.eq_poly(topoly(a.get((P(off),))), v, f"flat entry of {k}")
            continue
        va = arr_of(I, v)
        for ix in indices(s):
            c.eq_poly(topoly(a.get((P(off + at(s, ix)),))), topoly(va.get(tuple(P(x) for x in ix))), f"flat entry of {k}{list(ix)}")


def ob_round(c, name):
    nodes = SHAPES[name]
    z = Ctx(c, nodes)
    I = z.I
    t = z.tree()
    want = content(I, t)
    flat, un = split(I, call(I, I.getattr(t, "tree_ravel")))
    back = call(I, un, flat)
    same(c, I, content(I, back), want, "unflattened parameters")
    again, _ = split(I, call(I, I.getattr(back, "tree_ravel")))
    c.eq_arr(I, again, arr_of(I, flat), "flattening the unflattened parameters")


def ob_unravel(c, name):
    """Any vector of the right length is distributed by the same layout."""
    nodes = SHAPES[name]
    z = Ctx(c, nodes)
    I = z.I
    t = z.tree()
    flat, un = split(I, call(I, I.getattr(t, "tree_ravel")))
    lay, n = entries(nodes, I, order(z))
    y = base_array("y", (P(n),))
    back = call(I, un, I.new_arr(y))
    for k, (s, off, size) in lay.items():
        v = call(I, I.getattr(back, "get_param"), k)
        if not s:
            x = I.as_num(v)
            if x is None:
                raise c.nonarr(I, v, f"parameter {k}")
            c.eq_poly(x, topoly(y.get((P(off),))), f"parameter {k}")
            continue
        a = arr_of(I, v)
        if a is None:
            raise c.nonarr(I, v, f"parameter {k}")
        c.eq_shape(a.shape, tuple(P(d) for d in s), f"parameter {k}")
        for ix in indices(s):
            c.eq_poly(topoly(a.get(tuple(P(x) for x in ix))), topoly(y.get((P(off + at(s, ix)),))), f"parameter {k}{list(ix)}")


def cas_ok(name):
    return all(len(s) < 3 for d in SHAPES[name].values() for s in d.values())


def ob_cas_unravel(c, name, kind):
    """A symbolic casadi vector is distributed by the layout of the numeric vector."""
    nodes = SHAPES[name]
    z = Ctx(c, nodes)
    I = z.I
    t = z.tree()
    flat, un = split(I, call(I, I.getattr(t, "tree_ravel")))
    lay, n = entries(nodes, I, order(z))
    y = base_array("y", (P(n),))
    back = call(I, un, Cas(Arr((P(n), ONE), lambda ix: y.get((ix[0],))), kind))
    for k, (s, off, size) in lay.items():
        v = call(I, I.getattr(back, "get_param"), k)
        if not isinstance(v, Cas):
            raise Und(f"{k} is {v!r}"[:200])
        sh = s if len(s) == 2 else (s[0], 1) if s else (1, 1)
        c.eq_shape(v.arr.shape, tuple(P(d) for d in sh), f"parameter {k}")
        for ix in indices(sh):
            c.eq_poly(topoly(v.arr.get(tuple(P(x) for x in ix))), topoly(y.get((P(off + at(sh, ix)),))), f"parameter {k}{list(ix)} of a casadi vector")
    if n:
        f2, _ = split(I, call(I, I.getattr(back, "tree_ravel")))
        if not isinstance(f2, Cas):
            raise Und(f"flattened casadi parameters are {f2!r}"[:200])
        c.eq_shape(f2.arr.shape, (P(n), ONE), "flattened casadi parameters")
        for j in range(n):
            c.eq_poly(topoly(f2.arr.get((P(j), ZERO))), topoly(y.get((P(j),))), f"entry {j} of the flattened casadi parameters")


def ob_order(c, name):
    """The order is the same in every form: leaves, keys, flat dictionary, after copies and for other values."""
    nodes = SHAPES[name]
    z = Ctx(c, nodes)
    I = z.I
    t = z.tree()
    ref = order(z)
    want = sorted((p + "." if p else "") + n for p, d in nodes.items() for n in d)
    c.count("comparisons")
    if sorted(ref) != want:
        raise Bad(f"keys {sorted(ref)} instead of {want}")

    def check(keys, what):
        c.count("comparisons")
        if list(keys) != ref:
            raise Bad(f"{what}: order {list(keys)} instead of {ref}"[:300])

    def keys_of(t):
        leaves, aux = split(I, call(I, I.getattr(t, "tree_flatten")))
        keys = None
        for x in I.iter_items(aux):
            k = I.iter_items(x) if not isinstance(x, str) else None
            if k and all(isinstance(q, str) for q in k) and sorted(k) == want:
                keys = k
        if keys is None:
            raise Und("keys in the structure of the tree")
        vals = I.iter_items(leaves)
        c.count("comparisons")
        if len(vals) != len(keys):
            raise Bad("leaves and keys differ in number")
        return keys, vals
    keys, vals = keys_of(t)
    check(keys, "tree_flatten")
    for k, v in zip(keys, vals):
        p, _, n = k.rpartition(".")
        same(c, I, content(I, v), content(I, z.value(f"old {p}.{n}", nodes[p][n])), f"leaf {k}")
    cp = call(I, I.getattr(z.PT, "from_dict"), call(I, I.getattr(t, "to_dict")))
    check(keys_of(cp)[0], "order after to_dict and from_dict")
    for k in ref:
        call(I, I.getattr(t, "set_param"), k, sym("other " + k))
    check(keys_of(t)[0], "order after setting the parameters")
    flat, un = split(I, call(I, I.getattr(cp, "tree_ravel")))
    check(keys_of(call(I, un, flat))[0], "order after flattening and unflattening")
    l, aux = split(I, call(I, I.getattr(cp, "tree_flatten")))
    check(keys_of(call(I, I.getattr(z.PT, "tree_unflatten"), aux, l))[0], "order after tree_flatten and tree_unflatten")


def ob_aux(c):
    """The structure handed to jax holds no parameter value, so equal structures compare equal."""
    nodes = SHAPES["matrices"]
    z = Ctx(c, nodes)
    I = z.I
    a, b = z.tree("old"), z.tree("other")
    ca = content(I, split(I, call(I, I.getattr(a, "tree_flatten")))[1])
    cb = content(I, split(I, call(I, I.getattr(b, "tree_flatten")))[1])
    same(c, I, cb, ca, "structure of a tree with other values")

    def walk(t):
        k, v = t
        if k in ("num", "arr"):
            raise Bad("the structure holds parameter values")
        for x in (v.values() if k == "dict" else v if k == "list" else ()):
            walk(x)
    walk(ca)


def ob_model(c):
    """The order is the same for default parameters, parameters read from a model and parameters read after writing."""
    lib = Lib(c)
    I = lib.I
    m = lib.make(ON)
    PT = I.mod_get(TREE, "ParameterTree")
    keys = []
    t0 = call(I, I.getattr(m, "get_recursive_default_params"))
    for t in (t0, call(I, I.getattr(m, "get_recursive_params"))):
        keys.append(list(content(I, call(I, I.getattr(t, "to_flat_dict")))[1][0][1]))
    call(I, I.getattr(m, "set_recursive_params"), t0)
    keys.append(list(content(I, call(I, I.getattr(call(I, I.getattr(m, "get_recursive_params")), "to_flat_dict")))[1][0][1]))
    m2 = lib.make(ON)
    keys.append(list(content(I, call(I, I.getattr(call(I, I.getattr(m2, "get_recursive_params")), "to_flat_dict")))[1][0][1]))
    for k, w in zip(keys[1:], ("read from the model", "read after writing", "of another model")):
        c.count("comparisons")
        if k != keys[0]:
            raise Bad(f"order of the parameters {w} differs from the default one")


def ob_pytree(c):
    """The class is registered with jax with these two methods."""
    import ast
    I = Lib(c).I
    v = I.mod_get(TREE, "ParameterTree")
    p = I.module_path(TREE)
    tree = ast.parse(open(p).read())
    c.count("comparisons")
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and n.name == "ParameterTree":
            if any("register_pytree_node_class" in ast.unparse(d) for d in n.decorator_list):
                return
    src = ast.unparse(tree)
    if "register_pytree_node(ParameterTree" in src or "register_pytree_node_class(ParameterTree" in src or "register_pytree" in src:
        return
    raise Bad("ParameterTree is not registered as a jax tree")


def run(c):
    c.explain = (
        "Abstract interpretation of the flattening code on trees of symbolic numbers and arrays: the position of every entry in the flat vector, the values "
        "unflattened from an arbitrary numeric or casadi vector (column-major stand-in), and the order of the keys in every form are compared with an "
        "independent row-major layout."
    )
    c.assumptions = ["trees and shapes are enumerated, all values are symbolic", "jax calls tree_flatten and tree_unflatten as documented"]
    for name in SHAPES:
        c.ob("every parameter has its own place in the flat vector", f"{FILE}:ParameterTree.tree_ravel [{name}]", ob_ravel, c, name)
        c.ob("unflattening restores values and shapes", f"{FILE}:ParameterTree.tree_ravel [{name}]", ob_round, c, name)
        c.ob("any vector is unflattened by the same layout", f"{FILE}:_ravel_flat_dict [{name}]", ob_unravel, c, name)
        if cas_ok(name):
            for kind in ("casadi.SX", "casadi.MX"):
                c.ob("symbolic vectors are unflattened and flattened by the same layout", f"{FILE}:_ravel_flat_dict [{name}, {kind}]", ob_cas_unravel, c, name, kind)
        c.ob("the order is the same everywhere", f"{FILE}:ParameterTree.tree_flatten [{name}]", ob_order, c, name)
    c.ob("the structure holds no values", f"{FILE}:ParameterTree.tree_flatten", ob_aux, c)
    c.ob("the order is the same everywhere", "lumos/models/composition.py:CompositeModel.get_recursive_params", ob_model, c)
    c.ob("registered as a jax tree", f"{FILE}:ParameterTree", ob_pytree, c)
