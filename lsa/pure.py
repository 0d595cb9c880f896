"""Evaluations that must neither modify their arguments nor hand out their own data."""
from . import alg, arrays
from .alg import P, sym, ZERO
from .arrays import Arr
from .interp import Dead, Slice, KV, Seg
from .values import Ref, Tup, Unknown, DictR, ListR, ArrR, ObjR, SetR, EnvR, Opq, Stub, vkey
from .harness import arr_of
from .checklib import Und, Bad, Gone, call

ALIAS = ("aliased array was modified", "array modified in an unresolved way")


def reach(I, vs):
    """Records of everything that can be reached from values, by location."""
    out, todo = {}, list(vs)
    while todo:
        v = todo.pop()
        if isinstance(v, (Tup, list, tuple)):
            todo += list(v.items if isinstance(v, Tup) else v)
        elif isinstance(v, dict):
            todo += list(v.values())
        elif isinstance(v, KV):
            todo += [v.k, v.v]
        elif isinstance(v, Seg):
            todo.append(v.body)
        elif isinstance(v, Ref) and v.loc not in out:
            r = I.st.store.get(v.loc)
            if r is None or isinstance(r, EnvR):
                continue
            out[v.loc] = r
            if isinstance(r, DictR):
                todo += list(r.entries)
            elif isinstance(r, (ListR, SetR)):
                todo += list(r.items)
            elif isinstance(r, ObjR):
                todo += list(r.attrs.values())
    return out


def unmodified(c, I, snap, what):
    """Nothing of a snapshot was modified."""
    for loc, was in snap.items():
        now = I.st.store.get(loc)
        c.count("comparisons")
        if now is was:
            continue
        if type(now) is not type(was):
            if getattr(now, "kind", "") == "havoc":
                raise Und(f"{what}: {getattr(now, 'why', now)!r}"[:200])
            raise Bad(f"{what}: {was.kind} passed in is modified")
        if isinstance(was, ArrR):
            differ(c, I, I.new_arr(now.arr), was.arr, f"{what}: array passed in is modified")
        elif isinstance(was, DictR):
            if len(now.entries) != len(was.entries) or any(vkey(a) != vkey(b) for a, b in zip(map(flat, now.entries), map(flat, was.entries))):
                raise Bad(f"{what}: dictionary passed in is modified: {names(now.entries)} instead of {names(was.entries)}"[:300])
        elif isinstance(was, (ListR, SetR)):
            if len(now.items) != len(was.items) or any(vkey(a) != vkey(b) for a, b in zip(now.items, was.items)):
                raise Bad(f"{what}: {was.kind} passed in is modified")
        elif isinstance(was, ObjR):
            for k in set(now.attrs) | set(was.attrs):
                if k not in was.attrs or k not in now.attrs or vkey(now.attrs[k]) != vkey(was.attrs[k]):
                    raise Bad(f"{what}: attribute {k} of an object passed in is modified")


def flat(e):
    return Tup([e.k, e.v]) if isinstance(e, KV) else Tup(list(e))


def names(es):
    return [e[0] if isinstance(e, tuple) else "..." for e in es][:8]


def aliased(p):
    return any(a.kind == "unk" and str(a.args[0]) in ALIAS for a in alg.all_atoms(arrays.topoly(p)))


def differ(c, I, got, want, what):
    """eq_arr, where an alias of a modified array counts as modified."""
    g = arr_of(I, got)
    if g is None:
        raise c.nonarr(I, got, what)
    if same_shape(g, want):
        ix = tuple(ZERO for _ in g.shape)
        try:
            if aliased(g.get(ix)):
                raise Bad(f"{what} (through a view)")
        except (arrays.NeedSplit, arrays.Undecidable):
            pass
    c.eq_arr(I, got, want, what)


def same_shape(a, b):
    return len(a.shape) == len(b.shape) and all(arrays.same_dim(x, y) for x, y in zip(a.shape, b.shape))


def wreck(I, v, tag="changed", seen=None, depth=0):
    """Overwrites everything in a result that can be overwritten in place."""
    seen = set() if seen is None else seen
    if depth > 12:
        raise Und("nesting")
    if isinstance(v, Tup):
        for x in v.items:
            wreck(I, x, tag, seen, depth + 1)
        return
    if not isinstance(v, Ref) or v.loc in seen:
        return
    seen.add(v.loc)
    r = I.rec(v)
    if isinstance(r, DictR):
        ks = I.iter_items(v)
        for k in list(ks or []):
            if isinstance(k, Seg):
                continue
            wreck(I, I.getitem(v, k), tag, seen, depth + 1)
            I.setitem(v, k, sym(f"{tag} value"))
        I.setitem(v, tag, sym(tag))
    elif isinstance(r, ListR):
        for x in list(r.items):
            wreck(I, x.body if isinstance(x, Seg) else x, tag, seen, depth + 1)
        I.call(I.getattr(v, "append"), [sym(tag)], {})
    elif isinstance(r, ArrR):
        a = arr_of(I, v)
        if a is None:
            raise Und("array")
        if a.ndim:
            I.setitem(v, Slice(None, None, None), sym(f"{tag} entries"))


def compare(c, I, got, want, what, depth=0):
    if depth > 12:
        raise Und("nesting")
    if isinstance(got, Unknown) or isinstance(want, Unknown):
        b = c.shape_bug(I)
        raise Bad(b) if b else Und(f"{what}: {(got if isinstance(got, Unknown) else want).reason}"[:300])
    if isinstance(want, Tup) or isinstance(want, Ref) and isinstance(I.rec(want), ListR):
        g, w = I.iter_items(got), I.iter_items(want)
        if g is None or w is None:
            raise Und(what)
        if len(g) != len(w):
            raise Bad(f"{what}: {len(g)} items instead of {len(w)}")
        for k, (x, y) in enumerate(zip(g, w)):
            if isinstance(x, Seg) or isinstance(y, Seg):
                c.count("comparisons")
                if vkey(x) != vkey(y):
                    raise Und(f"{what}[{k}]")
                continue
            compare(c, I, x, y, f"{what}[{k}]", depth + 1)
        return
    if isinstance(want, Ref) and isinstance(I.rec(want), DictR):
        if not (isinstance(got, Ref) and isinstance(I.rec(got), DictR)):
            raise Bad(f"{what}: {got!r} instead of a dictionary")
        g, w = I.rec(got).entries, I.rec(want).entries
        if any(isinstance(e, KV) for e in g + w):
            c.count("comparisons")
            if len(g) != len(w):
                raise Bad(f"{what}: {len(g)} groups of keys instead of {len(w)}")
            if [vkey(flat(e)) for e in g] != [vkey(flat(e)) for e in w]:
                raise Und(what)
            return
        kg, kw = [e[0] for e in g], [e[0] for e in w]
        if sorted(map(vkey, kg)) != sorted(map(vkey, kw)):
            raise Bad(f"{what}: keys {kg[:8]} instead of {kw[:8]}")
        for k in kw:
            compare(c, I, I.getitem(got, k), I.getitem(want, k), f"{what}[{k!r}]", depth + 1)
        return
    n, m = I.as_num(got), I.as_num(want)
    if n is not None and m is not None:
        c.eq_poly(n, m, what)
        return
    w = arr_of(I, want)
    if w is not None:
        differ(c, I, got, w, what)
        return
    c.count("comparisons")
    if vkey(got) != vkey(want):
        if isinstance(want, Ref) and isinstance(got, Ref):
            raise Und(f"{what}: objects {got!r}, {want!r}")
        raise Bad(f"{what}: {got!r} instead of {want!r}"[:300])


TAGS = ("changed value", "changed entries", "changed")


def clean(c, I, got, want, what, depth=0):
    """Only traces of the overwritten result count: values may be drawn anew."""
    if depth > 12:
        raise Und("nesting")
    if isinstance(want, (Tup, list, tuple)) or isinstance(want, Ref) and isinstance(I.rec(want), (ListR, DictR)):
        g, w = I.iter_items(got), I.iter_items(want)
        if g is None or w is None:
            raise Und(what)
        c.count("comparisons")
        if isinstance(want, Ref) and isinstance(I.rec(want), DictR):
            if sorted(map(vkey, g)) != sorted(map(vkey, w)):
                raise Bad(f"{what}: keys {g[:8]} instead of {w[:8]}")
            for k in w:
                clean(c, I, I.getitem(got, k), I.getitem(want, k), f"{what}[{k!r}]", depth + 1)
            return
        if len(g) != len(w):
            raise Bad(f"{what}: {len(g)} items instead of {len(w)}")
        for k, (x, y) in enumerate(zip(g, w)):
            clean(c, I, x, y, f"{what}[{k}]", depth + 1)
        return
    a = arr_of(I, got) if isinstance(got, Ref) else None
    p = I.as_num(got)
    if a is not None:
        p = arrays.topoly(a.get(tuple(ZERO for _ in a.shape)))
    if p is None and isinstance(got, Unknown):
        raise Und(f"{what}: {got.reason}"[:200])
    c.count("comparisons")
    if p is not None and (aliased(p) or any(x.kind == "sym" and x.args[0] in TAGS for x in alg.all_atoms(p))):
        raise Bad(f"{what}: overwriting an earlier result changes the later one")


def pure(c, I, f, make, what, results=True, random=False):
    """f(*args, **kwargs) with (args, kwargs) = make(): arguments stay, a result that is overwritten does not come back."""
    get = f if isinstance(f, type(lambda: 0)) else lambda: f
    a, k = make()
    snap = reach(I, list(a) + list(k.values()))
    r1 = call(I, get(), *a, **k)
    if isinstance(r1, Unknown):
        b = c.shape_bug(I)
        raise Bad(b) if b else Und(f"{what}: {r1.reason}"[:300])
    unmodified(c, I, snap, what)
    if not results:
        return r1
    keep = I.lib.copy(r1, True)
    wreck(I, r1)
    a, k = make()
    r2 = call(I, get(), *a, **k)
    (clean if random else compare)(c, I, r2, keep, f"{what} after an earlier result was overwritten")
    return r2
