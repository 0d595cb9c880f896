"""C10: one decision-variable layout, decided on the index functions of DecVarOperator."""
from ..checklib import *
from ..harness import Dims, names, new_interp, name_str, name_atom
from ..arrays import base_array
from ..alg import ZERO, ONE, index, dim
from .c29 import accepts

MOD = "lumos.optimal_control.utils"
F = "lumos/optimal_control/utils.py:DecVarOperator."
CONCRETE = dict(N=2, K=3, ns=2, nu=1, nc=1, nr=1, no=2)
GROUPS = ("inputs", "states", "con_outputs", "states_dot")


class Ctx:
    def __init__(self, sizes, nglobal):
        sizes = dict(sizes or {})
        self.I = I = new_interp()
        I.load(MOD)
        self.N = P(sizes["N"]) if sizes else dim("N", 1)
        self.K = P(sizes["K"]) if sizes else dim("K", 2)
        self.ng = nglobal
        D = Dims(**{k: v for k, v in sizes.items() if k not in "NK"})
        # group order of the operator is an argument: not the usual one, to catch hard-wired orders
        self.size = {"states": D.ns, "inputs": D.nu, "con_outputs": D.nc, "states_dot": D.ns}
        nm = Stub("model.names", attrs={
            "states": names("state", D.ns), "states_dot": names("state", D.ns), "inputs": names("input", D.nu),
            "con_outputs": names("con", D.nc), "outputs": names("output", D.no), "residuals": names("res", D.nr)})
        self.prefix = {"states": "state", "states_dot": "state", "inputs": "input", "con_outputs": "con"}
        cls = I.mod_get(MOD, "DecVarOperator")
        self.globals = ["g%d" % k for k in range(nglobal)]
        self.op = call(I, cls, model_var_names=nm, num_intervals=self.N, num_stages_per_interval=self.K,
                       stage_var_groups=Tup(list(GROUPS)), global_var_names=Tup(list(self.globals)))
        self.S = self.N * (self.K - 1) + 1
        self.nv = sum((self.size[g] for g in GROUPS), ZERO)
        self.ndec = self.S * self.nv + nglobal
        self.off, o = {}, ZERO
        for g in GROUPS:
            self.off[g] = o
            o = o + self.size[g]
        self.xa = base_array("x", (self.ndec,))
        self.x = I.new_arr(self.xa)

    def pos(self, g, s, k):
        return P(s) * self.nv + self.off[g] + P(k)

    def m(self, fname_, *a, **k):
        return call(self.I, self.I.getattr(self.op, fname_), *a, **k)

    def arr(self, g):
        """Array of group g per stage, according to the layout."""
        return Arr((self.S, self.size[g]), lambda ix: self.xa.get((self.pos(g, ix[0], ix[1]),)))


def run(c):
    c.explain = ("abstract interpretation of every index and (un)flatten function of DecVarOperator with symbolic numbers "
                 "of intervals, stages and variables per group and a symbolic variable and stage; all results are compared "
                 "with one layout function position(group, stage, variable)")
    c.assumptions = ["IntEnum members number their names in order from `start`", "names within a group are distinct"]
    for ng in ((0, 1, 2) if c.tier == "thorough" else (0, 2)):
        decide(c, ng)


def decide(c, ng):
    build = lambda s: Ctx(s, ng)
    lab = f" [{ng} global variables]"

    def sizes(z):
        for n, w in (("num_var_stage", z.nv), ("num_stages", z.S), ("num_dec", z.ndec), ("num_all_stage_var", z.S * z.nv),
                     ("num_global_var", P(z.ng)), ("num_var_interval", z.nv * z.K)):
            v = z.I.getattr(z.op, n)
            c.eq_poly(z.I.as_num(v) if not isinstance(v, Unknown) else v, w, n)

    def by_name(z):
        for g in GROUPS:
            for kk in picks(z.size[g]):
                nm = name_str(z.prefix[g], kk)
                c.eq_arr(z.I, z.m("get_var_index_in_dec", group=g, name=nm),
                         Arr((z.S,), lambda ix: z.pos(g, ix[0], kk)), f"get_var_index_in_dec({g}, all stages)")
                c.eq_poly(num(z, z.m("get_var_index_in_group", group=g, name=nm)), kk, f"get_var_index_in_group({g})")
                for s, want in stages(z):
                    c.eq_poly(num(z, z.m("get_var_index_in_dec", group=g, name=nm, stage=s)), z.pos(g, want, kk),
                              f"get_var_index_in_dec({g}, stage {alg.show(s)})")
        for k, n in enumerate(z.globals):
            c.eq_poly(num(z, z.m("get_var_index_in_dec", group="global", name=n)), z.S * z.nv + k, "index of global variable")
            c.eq_poly(num(z, z.m("get_var_index_in_group", group="global", name=n)), P(k), "position of global variable")

    def by_group(z):
        for g in GROUPS:
            for s, want in stages(z):
                c.eq_arr(z.I, z.m("get_group_indices_at_stage", group=g, stage=s),
                         Arr((z.size[g],), lambda ix: z.pos(g, want, ix[0])), f"get_group_indices_at_stage({g}, {alg.show(s)})")
            n = z.size[g]
            want = arrays.reshape(Arr((z.S, n), lambda ix: z.pos(g, ix[0], ix[1])), (z.S * n,))
            c.eq_arr(z.I, z.m("get_group_indcies_in_dec", group=g), want, f"get_group_indcies_in_dec({g})")

    def values(z):
        for g in GROUPS:
            for kk in picks(z.size[g]):
                c.eq_arr(z.I, z.m("get_var", z.x, group=g, name=name_str(z.prefix[g], kk)),
                         Arr((z.S,), lambda ix: z.xa.get((z.pos(g, ix[0], kk),))), f"get_var({g})")
        for k, n in enumerate(z.globals):
            c.eq_arr(z.I, z.m("get_var", z.x, group="global", name=n), z.xa.get((z.S * z.nv + k,)), "get_var(global)")
        c.eq_arr(z.I, z.m("get_stage_var_array", z.x), Arr((z.S, z.nv), lambda ix: z.xa.get((ix[0] * z.nv + ix[1],))), "get_stage_var_array")

    def split(z):
        r = z.m("split_stage_and_global_vars", z.x)
        a, b = [x for x in z.I.iter_items(r)]
        c.eq_arr(z.I, a, Arr((z.S * z.nv,), lambda ix: z.xa.get(ix)), "stage part")
        c.eq_arr(z.I, b, Arr((P(z.ng),), lambda ix: z.xa.get((z.S * z.nv + ix[0],))), "global part")
        back = z.m("merge_stage_and_global_vars", a, b)
        c.eq_arr(z.I, back, z.xa, "merge(split(x))")

    def unflatten(z):
        u = z.m("unflatten_var", z.x)
        for g in GROUPS:
            c.eq_arr(z.I, z.I.getattr(u, g), z.arr(g), f"unflatten_var(x).{g}")
        for k, n in enumerate(z.globals):
            c.eq_arr(z.I, z.I.getattr(u, n), z.xa.get((z.S * z.nv + k,)), f"unflatten_var(x).{n}")

    def roundtrip(z):
        u = z.m("unflatten_var", z.x)
        kw = {g: z.I.getattr(u, g) for g in GROUPS}
        kw.update({n: z.I.getattr(u, n) for n in z.globals})
        c.eq_arr(z.I, z.m("flatten_var", **kw), z.xa, "flatten_var(unflatten_var(x))")

    def tensor(z):
        for g in GROUPS:
            c.eq_arr(z.I, z.m("get_interval_tensor", z.x, group_name=g),
                     Arr((z.N, z.K, z.size[g]), lambda ix: z.xa.get((z.pos(g, ix[0] * (z.K - 1) + ix[1], ix[2]),))),
                     f"get_interval_tensor({g})")

    def names_order(z):
        v = z.I.getattr(z.op, "stage_var_names")
        items = z.I.iter_items(v) if not isinstance(v, Unknown) else None
        if items is None:
            raise Und("stage_var_names")
        # compare with the names built from the layout, symbolically
        want = []
        for g in GROUPS:
            nm = names(z.prefix[g], z.size[g])
            for it in nm.items:
                want.append((g, it))
        got = list(items)
        if len(got) != len(want):
            raise Und("stage_var_names structure")
        for a, (g, w) in zip(got, want):
            gs = g + "."
            if isinstance(a, Seg) != isinstance(w, Seg):
                raise Und("stage_var_names structure")
            if isinstance(a, Seg):
                c.eq_poly(a.n, w.n, f"number of names of {g}")
                body = bind(a)
                wb = joined(gs, body_str(w))
            else:
                body, wb = a, joined(gs, w)
            if vkey(body) != vkey(wb):
                if isinstance(body, (str, SStr)):
                    raise Bad(f"stage_var_names: {body!r} where {wb!r} is stored")
                raise Und(f"name {body!r}")

    def reject(z):
        """Stages outside the range are rejected by every function with a stage argument."""
        for s in (z.S, -z.S - 1, z.S + 5):
            for f, kw in (("get_var_index_in_dec", dict(group="states", name=name_str("state", 0))), ("get_group_indices_at_stage", dict(group="states"))):
                must_raise(c, z.I, z.I.getattr(z.op, f), dict(kw, stage=s), f"{f}(stage={alg.show(s)})")

    def accept(z):
        """Every stage of the problem is accepted, counted from either end."""
        if z.S.const() is None:
            z = build(CONCRETE)
            c._interps[id(z.I)] = z.I
            z.I.check = c
        S = int(z.S.const())
        for s in range(-S, S):
            for f, kw in (("get_var_index_in_dec", dict(group="states", name=name_str("state", 0))), ("get_group_indices_at_stage", dict(group="states"))):
                accepts(c, z.I, z.I.getattr(z.op, f), f"{f}(stage={s}) of {S} stages", kw=dict(kw, stage=P(s)))

    for rule, fn, where_ in (("stage in range accepted", accept, "get_var_index_in_dec"), ("sizes", sizes, ""), ("index by name and stage", by_name, "get_var_index_in_dec"),
                             ("indices of a group", by_group, "get_group_indices_at_stage"), ("values by name", values, "get_var"),
                             ("split and merge", split, "split_stage_and_global_vars"), ("unflatten", unflatten, "unflatten_var"),
                             ("flatten inverts unflatten", roundtrip, "flatten_var"), ("interval tensor", tensor, "get_interval_tensor"),
                             ("order of names", names_order, "stage_var_names"), ("stage out of range rejected", reject, "get_var_index_in_dec")):
        c.sized(rule, F + where_ + lab, build, fn)


def joined(a, b):
    return mkstr(a, b)


def bind(seg):
    return subst_any(seg.body, {seg.var: P(alg.Atom("sym", "_n"))})


def body_str(seg):
    return subst_any(seg.body, {seg.var: P(alg.Atom("sym", "_n"))})


def subst_any(v, mp):
    if isinstance(v, SStr):
        return mkstr(*[p if isinstance(p, str) else alg.subst(p, mp) for p in v.parts])
    return v


def picks(n):
    """Variables to ask for: a symbolic one (any), or every one for concrete sizes."""
    k = P(n).const()
    if k is not None:
        return [P(i) for i in range(int(k))]
    return [P(index(n, "q"))]


def stages(z):
    """(stage argument, stage meant)."""
    k = z.S.const()
    if k is not None:
        return [(P(s), P(s % int(k))) for s in range(-int(k), int(k))]
    s = P(index(z.S, "s"))
    return [(s, s), (ZERO, ZERO), (P(-1), z.S - 1), (-1 - s, z.S - 1 - s), (-z.S, ZERO)]


def num(z, v):
    if isinstance(v, Unknown):
        return v
    return z.I.as_num(v) if z.I.as_num(v) is not None else v
