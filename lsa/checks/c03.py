"""C03: every constraint and objective follows the problem's variable scales; constraint scale order."""
from ..checklib import *
from ..harness import Ocp, fn, fn_term, arr_of, name_str, names, names_with
from ..arrays import base_array, akey, elementwise, concat, reshape
from ..alg import ZERO, ONE, index, dim, sym
from .. import arrays
from .c07 import constraint
from .c02 import inv

CFG = "lumos.optimal_control.config"
NLP = "lumos.optimal_control.nlp"
FILES = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}
PRE = {"states": "state", "inputs": "input", "con_outputs": "con", "states_dot": "state"}


class Ctx:
    """Problem with a history of scale settings and additions."""

    def __init__(self, sizes, kind="scaled", condensed=False, cyclic=False, steps=(), initial=None, backend="jax"):
        sizes = dict(sizes or {})
        conc = bool(sizes)
        self.cur = {}
        cfg = {}
        self.user = []
        # the fixed mesh problem needs a state called time; the scaled variables are others
        groups = {}
        if kind == "fixed":
            groups["states"] = names_with("state", "time", P(sizes.pop("ns", 2)) if conc else dim("n_before", 1), 0)
        self.o = o = Ocp(kind, condensed=condensed, cyclic=cyclic, sizes=sizes, lazy=True, backend=backend, groups=groups)
        self.I = I = o.I
        less = 1 if groups else 0
        self.pick = {g: P(n.const() - 1) if n.const() is not None else P(index(n, "q" + g))
                     for g, n in ((g, n - (less if g.startswith("states") else 0)) for g, n in self.size().items())}
        if initial:
            I.setattr(o.cfg, "scales", self.configs(initial))
        kw = dict(model=o.model, sim_config=o.cfg)
        if kind == "fixed":
            kw["mesh_scale"] = o.scale
        o.ocp = call(I, o.cls, **kw)
        for s in steps:
            if s[0] == "scales":
                call(I, I.getattr(o.ocp, "set_scales"), self.configs(s[1]))
            elif s[0] == "add":
                self.add(s[1])
            elif s[0] == "delete":
                out = constraint(o, s[1])
                call(I, I.getattr(o.ocp, "delete_constraints"), s[1])
            elif s[0] == "putback":
                call(I, I.getattr(o.ocp, "add_constraints"), s[1], out)
            elif s[0] == "readd":
                # an existing constraint taken out and put back
                b = constraint(o, s[1])
                call(I, I.getattr(o.ocp, "delete_constraints"), s[1])
                call(I, I.getattr(o.ocp, "add_constraints"), s[1], b)

    def size(self):
        D = self.o.D
        return {"states": D.ns, "inputs": D.nu, "states_dot": D.ns, "con_outputs": D.nc}

    def configs(self, spec):
        """spec: tag per scaled group; later configs of the same variable override."""
        I = self.I
        sc = I.mod_get(CFG, "ScaleConfig")
        self.cur = {}
        out = []
        for tag in spec:
            g = tag.rstrip("0123456789")
            v = sym("scale_" + tag)
            alg.LOWER.pop(v, None)
            n = "mesh_scale" if g == "global" else name_str(PRE[g], self.pick[g])
            out.append(call(I, sc, g, n, v))
            self.cur[g] = v
        return Tup(out)

    def scale(self):
        """Specified scale of every position of the decision vector."""
        o = self.o
        flat_ = reshape(Arr((o.S, o.nv), lambda ix: self.in_stage(ix[1])), (o.S * o.nv,))
        if o.kind == "fixed":
            return flat_
        return concat([flat_, Arr((ONE,), lambda ix: self.cur.get("global", ONE))], 0)

    def in_stage(self, j):
        o = self.o
        return self.at(j, [(o.off[g], g) for g in o.off])

    def at(self, j, layout):
        """Scale of position j where the groups start at the given offsets."""
        r = ONE
        for off, g in layout:
            if g in self.cur:
                r = r + (self.cur[g] - 1) * delta(j - off - self.pick[g])
        return r

    def add(self, name):
        I, o = self.I, self.o
        m = dim("m_" + name, 1)
        n = o.ndec
        r, q = Arr((n,), lambda ix: ZERO), Arr((n,), lambda ix: ix[0])
        b = call(I, I.mod_get(NLP, "BaseConstraints"), num_in=o.ndec, num_con=m, constraints=fn("c_" + name, (m,)),
                 jacobian=fn("j_" + name, (n,)), hessian=fn("h_" + name, (n,)),
                 jacobian_structure=Tup([I.new_arr(r), I.new_arr(q)]), hessian_structure=Tup([I.new_arr(q), I.new_arr(q)]))
        call(I, I.getattr(o.ocp, "add_constraints"), name, b)
        ob = call(I, I.mod_get(NLP, "BaseObjective"), num_in=o.ndec, objective=fn("o_" + name, ()), gradient=fn("g_" + name, (o.ndec,)),
                  hessian=fn("oh_" + name, (n,)), hessian_structure=Tup([I.new_arr(q), I.new_arr(q)]))
        call(I, I.getattr(o.ocp, "add_objective"), name, ob)
        self.user.append((name, b, ob, m, r, q))


def blocks(z, name):
    """Rows of a built-in constraint as named blocks: (label, shape, row number, specified scale)."""
    o, D = z.o, z.o.D
    K1 = o.K - 1
    cont = ("continuity equations", (o.N, K1, D.ns), lambda ix: (ix[0] * K1 + ix[1]) * D.ns + ix[2], lambda ix: z.at(ix[2], [(ZERO, "states")]))
    if name == "continuity":
        return [cont]
    if name == "cyclic":
        return [("cyclic equations", (D.ns + D.nu,), lambda ix: ix[0], lambda ix: ONE)]
    if o.condensed:
        w = D.nc + D.nr
        base = o.N * K1 * D.ns
        return [cont, ("model equations", (o.S, w), lambda ix: base + ix[0] * w + ix[1], lambda ix: z.at(ix[1], [(ZERO, "con_outputs")]))]
    return [("model equations", (o.S, o.nres), lambda ix: ix[0] * o.nres + ix[1], lambda ix: z.at(ix[1], [(ZERO, "states"), (D.ns, "con_outputs")]))]


def run(c):
    c.explain = ("abstract interpretation of problem construction, set_scales, additions and re-additions with symbolic sizes and a "
                 "symbolic scaled variable per group; the scaled values of every constraint and objective are compared with the values "
                 "of an unscaled twin problem at the unscaled variables divided by the specified scale of each row")
    c.assumptions = ["scales are non-zero"]
    hist = {
        "scales in the configuration": ((), ("states1", "con_outputs1", "global1")),
        "scales set later": ((("scales", ("states1", "inputs1", "states_dot1", "con_outputs1")),), None),
        "scales replaced": ((("scales", ("states2", "inputs2", "global2")),), ("states1", "con_outputs1", "states_dot1")),
        "later entry of a variable wins": ((("scales", ("states1", "states2", "con_outputs1", "con_outputs2")),), None),
        "added before and after": ((("add", "early"), ("scales", ("states1", "inputs1", "con_outputs1")), ("add", "late")), None),
        "added between two settings": ((("scales", ("states1", "inputs1")), ("add", "mid"), ("scales", ("states2", "con_outputs2"))), ("inputs1",)),
    }
    cyc = {"readded after scales": ((("scales", ("states1", "inputs1")), ("readd", "cyclic")), None),
           "taken out scaled, put back unscaled": ((("delete", "cyclic"), ("scales", ()), ("putback", "cyclic")), ("states1", "inputs1")),
           "taken out unscaled, put back scaled": ((("delete", "cyclic"), ("scales", ("states1", "inputs1")), ("putback", "cyclic")), None),
           "scales in the configuration, cyclic": ((), ("states1", "inputs1"))}
    for kind in ("scaled", "fixed"):
        for condensed in (False, True):
            for name, (steps, init) in list(hist.items()) + list(cyc.items()):
                cyclic = name in cyc
                if kind == "fixed":
                    drop = lambda t: tuple(x for x in t if not x.startswith("global"))
                    steps = tuple((s[0], drop(s[1])) if s[0] == "scales" else s for s in steps)
                    init = drop(init) if init else init
                if c.tier == "quick" and (kind == "fixed" and name not in ("scales replaced", "scales set later", "taken out scaled, put back unscaled")):
                    continue
                b = lambda s, a=(kind, condensed, cyclic, steps, init): Ctx(s, *a)
                # twin without any scales
                t = lambda s, a=(kind, condensed, cyclic): Ctx(s, *a)
                lab = f"{FILES[kind]} [{kind}{', condensed' if condensed else ''}: {name}]"
                two = lambda s, b=b, t=t: Two(b(s), t(s))
                c.sized("scales reach every constraint", lab, two, lambda w: ob_con(c, w))
                c.sized("scales reach every added function", lab, two, lambda w: ob_user(c, w))
                c.sized("scales reach every objective", lab, two, lambda w: ob_obj(c, w))


class Two:
    def __init__(self, z, t):
        self.z, self.t, self.I = z, t, z.I


def ob_con(c, w):
    z, t = w.z, w.t
    s = z.scale()
    xs = base_array("x", (z.o.ndec,))
    un = elementwise(lambda a, b: a * b, xs, s)
    for name in ("continuity", "model_algebra", "cyclic"):
        b, bt = constraint(z.o, name), constraint(t.o, name)
        if z.o.condensed and name == "continuity":
            continue
        if b is None or bt is None:
            if (b is None) != (bt is None):
                raise Bad(f"constraint {name} exists only without scales" if b is None else f"constraint {name} exists only with scales")
            continue
        got = call(z.I, z.I.getattr(b, "constraints"), z.I.new_arr(xs))
        ref = arr_of(t.I, call(t.I, t.I.getattr(bt, "constraints"), t.I.new_arr(un)))
        if ref is None:
            raise Und(f"unscaled {name}")
        got = arr_of(z.I, got)
        if got is None:
            raise c.nonarr(z.I, got, f"scaled {name}")
        ref, got = flat(ref), flat(got)
        total = ZERO
        for what, shape, row, g in blocks(z, name):
            c.eq_arr(z.I, z.I.new_arr(Arr(shape, lambda ix: got.get((row(ix),)))),
                     Arr(shape, lambda ix: arrays.topoly(ref.get((row(ix),))) * inv(g(ix))), f"scaled {name}, {what}")
            n = ONE
            for q in shape:
                n = n * q
            total = total + n
        c.eq_poly(got.size, total, f"number of {name} constraints")


def ob_user(c, w):
    z = w.z
    s = z.scale()
    I = z.I
    xs = base_array("x", (z.o.ndec,))
    k = akey(elementwise(lambda a, b: a * b, xs, s))
    for name, b, ob, m, r, q in z.user:
        x = I.new_arr(xs)
        c.eq_arr(I, call(I, I.getattr(b, "constraints"), x), Arr((m,), lambda ix: fn_term("c_" + name, ix, k)), f"scaled {name}")
        c.eq_arr(I, call(I, I.getattr(b, "jacobian"), x), Arr((z.o.ndec,), lambda ix: fn_term("j_" + name, ix, k) * s.get((q.get(ix),))), f"scaled jacobian of {name}")
        c.eq_arr(I, call(I, I.getattr(ob, "objective"), x), fn_term("o_" + name, (), k), f"scaled objective {name}")
        c.eq_arr(I, call(I, I.getattr(ob, "gradient"), x), Arr((z.o.ndec,), lambda ix: fn_term("g_" + name, ix, k) * s.get(ix)), f"scaled gradient of {name}")


def ob_obj(c, w):
    """Objectives and gradients of the whole problem."""
    z, t = w.z, w.t
    s = z.scale()
    xs = base_array("x", (z.o.ndec,))
    un = elementwise(lambda a, b: a * b, xs, s)
    k = akey(un)
    got = call(z.I, z.I.getattr(z.o.ocp, "objective"), z.I.new_arr(xs))
    ref = call(t.I, t.I.getattr(t.o.ocp, "objective"), t.I.new_arr(un))
    want = topoly(ref if not isinstance(ref, Ref) else arr_of(t.I, ref), "objective") + sum((fn_term("o_" + u[0], (), k) for u in z.user), ZERO)
    c.eq_arr(z.I, got, want, "scaled objective")
