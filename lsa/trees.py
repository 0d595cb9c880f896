"""Contents of nested values (dictionaries, lists, trees, arrays) as plain Python structures; and changing them in place."""
from . import alg, arrays
from .alg import P, sym, ZERO
from .arrays import Arr, base_array
from .values import Ref, Tup, Unknown, DictR, ListR, ArrR, ObjR, Opq
from .harness import arr_of
from .checklib import Und, Bad, Gone, call

TREE = "lumos.models.tree_utils"


def content(I, v, depth=0):
    """('num', Poly) | ('arr', Arr) | ('str', s) | ('dict', {k: content}) | ('list', [content]) | ('const', v)."""
    if depth > 12:
        raise Und("nesting")
    if v is None or isinstance(v, (bool, str)):
        return ("const", v)
    if isinstance(v, Unknown):
        b = I.check.shape_bug(I) if getattr(I, "check", None) else None
        if b:
            raise Bad(b)
        raise Und(f"{v!r}"[:200])
    if isinstance(v, Tup):
        return ("list", [content(I, x, depth + 1) for x in v.items])
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, DictR):
            ks = I.iter_items(v)
            if ks is None or any(not isinstance(k, str) for k in ks):
                raise Und("keys of a dictionary")
            return ("dict", {k: content(I, I.getitem(v, k), depth + 1) for k in ks})
        if isinstance(r, ListR):
            xs = I.iter_items(v)
            if xs is None:
                raise Und("items of a list")
            return ("list", [content(I, x, depth + 1) for x in xs])
        if isinstance(r, ArrR):
            return ("arr", arr_of(I, v))
        if isinstance(r, ObjR):
            return content(I, call(I, I.getattr(v, "to_dict")), depth + 1)
    x = I.as_num(v)
    if x is not None:
        return ("num", x)
    a = arr_of(I, v)
    if a is not None:
        return ("arr", a)
    raise Und(f"value {v!r}"[:200])


def same(c, I, got, want, what):
    """Two contents are equal; raises Bad otherwise. The order of the keys does not matter."""
    kg, g = got
    kw, w = want
    if kg != kw:
        if {kg, kw} == {"num", "arr"}:
            a = g if kg == "arr" else w
            if a.ndim == 0:
                p = arrays.topoly(a.get(()))
                return c.eq_poly(p, w if kg == "arr" else g, what)
        raise Bad(f"{what}: {show(got)} instead of {show(want)}")
    if kw == "num":
        c.eq_poly(g, w, what)
    elif kw == "arr":
        c.eq_arr(I, I.new_arr(g), w, what)
    elif kw == "const":
        c.count("comparisons")
        if g != w or type(g) is not type(w):
            raise Bad(f"{what}: {g!r} instead of {w!r}")
    elif kw == "list":
        if len(g) != len(w):
            raise Bad(f"{what}: {len(g)} items instead of {len(w)}")
        for k, (x, y) in enumerate(zip(g, w)):
            same(c, I, x, y, f"{what}[{k}]")
    else:
        if set(g) != set(w):
            raise Bad(f"{what}: keys {sorted(g)[:8]} instead of {sorted(w)[:8]}")
        for k in w:
            same(c, I, g[k], w[k], f"{what}[{k!r}]")


def show(t):
    k, v = t
    return f"dictionary with {sorted(v)[:6]}" if k == "dict" else f"list of {len(v)}" if k == "list" else f"array of shape {v.shape}" if k == "arr" else repr(v)[:80]


def spoil(I, v, tag="changed", depth=0):
    """Changes everything that can be changed in place in nested dictionaries, lists and arrays."""
    if depth > 12:
        raise Und("nesting")
    if isinstance(v, Tup):
        for x in v.items:
            spoil(I, x, tag, depth + 1)
        return
    if not isinstance(v, Ref):
        return
    r = I.rec(v)
    if isinstance(r, DictR):
        for k in list(I.iter_items(v)):
            spoil(I, I.getitem(v, k), tag, depth + 1)
            I.setitem(v, k, sym(f"{tag} {k}"))
        I.setitem(v, tag, sym(tag))
    elif isinstance(r, ListR):
        for x in list(I.iter_items(v)):
            spoil(I, x, tag, depth + 1)
        I.call(I.getattr(v, "append"), [sym(tag)], {})
    elif isinstance(r, ArrR):
        a = arr_of(I, v)
        I.setitem(v, Tup([ZERO] * a.ndim) if a.ndim != 1 else ZERO, sym(f"{tag} entry"))
    elif isinstance(r, ObjR):
        spoil_tree(I, v, tag, depth)


def spoil_tree(I, t, tag="changed", depth=0):
    """Changes everything in a tree: the values of the nodes, in place and by replacement, and the children."""
    d = I.getattr(t, "data")
    ch = I.getattr(t, "_children")
    if not isinstance(ch, Ref):
        raise Und("children of a tree")
    for k in list(I.iter_items(ch)):
        spoil_tree(I, I.getitem(ch, k), tag, depth + 1)
    if isinstance(d, Ref):
        spoil(I, d, tag, depth + 1)
    else:
        I.setattr(t, "_data", tag)
    I.call(I.getattr(t, "add_child"), ["new " + tag, call(I, I.mod_get(TREE, "ParameterTree"), data=I.new_dict([]))], {})
