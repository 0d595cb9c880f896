"""C13: evaluating a model never changes the model's own parameters."""
from ..checklib import *
from ..arrays import base_array
from ..interp import Dead
from ..alg import sym, ZERO, ONE
from ..values import Native, Tup, Ref, Ext
from .. import alg, casmat
from ..casmat import Cas
from ..models import Lib, once, BASE
from .c30 import ON
from .c32 import VEH

FILE = "lumos/models/base.py"
TREE = "lumos.models.tree_utils"
AERO = "lumos.models.aero.aero.ConstAero"


class Ctx:
    """A model tree with symbolic parameters whose evaluation is a stand-in."""

    def __init__(self, c, qual, fails=False):
        over = {"lumos.numpy.casadi_numpy.determine_type.is_casadi_type": Native("is_casadi_type", lambda i, a, k: True)}
        self.lib = lib = Lib(c, overrides=over)
        self.I = I = lib.I
        self.m = m = lib.make(qual)
        self.nodes = {}
        self.walk(m, "")
        for path, s in self.nodes.items():
            lib.set_params(s, {n: sym(f"old {path}{n}") for n in lib.params(s)[:2]})
        self.keys = {p: lib.params(s) for p, s in self.nodes.items()}
        self.seen = []
        self.qual = qual
        f = I.iter_items(I.getattr(I.getattr(m, "names"), "_fields"))
        self.state = "states" in f
        ret = I.mod_get(BASE, "StateSpaceModelReturn" if self.state else "ModelReturn")

        def forward(i, a, k):
            self.seen.append({p: self.values(s) for p, s in self.nodes.items()})
            if fails:
                i.raise_("ZeroDivisionError")
            kw = {"outputs": i.new_dict([(n, sym(f"out {n}")) for n in lib.names(m, "outputs")])}
            if self.state:
                kw["states_dot"] = i.new_dict([(n, sym(f"dot {n}")) for n in lib.names(m, "states")])
            return call(i, ret, **kw)
        I.setattr(m, "forward", Native("forward", forward))

    def walk(self, m, path):
        self.nodes[path] = m
        for n, s in self.lib.submodels(m).items():
            self.walk(s, path + n + ".")

    def values(self, s):
        I = self.I
        d = I.getattr(s, "_params")
        return {n: I.getitem(d, n) for n in I.iter_items(d)}

    def tree(self, kind):
        """A parameter tree of the same structure with values of this kind."""
        I = self.I
        cls = I.mod_get(TREE, "ParameterTree")
        subs = {p: call(I, cls, data=I.new_dict([(n, sym(f"{kind} {p}{n}")) for n in self.lib.params(s)])) for p, s in self.nodes.items()}
        for p in sorted(subs, key=lambda p: -p.count(".")):
            if p:
                head, _, last = p[:-1].rpartition(".")
                call(I, I.getattr(subs[head + "." if head else ""], "add_child"), name=last, subtree=subs[p])
        return subs[""]

    def same(self, c, got, kind, what):
        for p in self.nodes:
            for n in self.keys[p]:
                v = got[p].get(n)
                x = self.I.as_num(v) if v is not None else None
                if x is None:
                    if v is None:
                        raise Bad(f"{what}: parameter {p}{n} is missing")
                    if isinstance(v, Unknown):
                        raise Und(f"{what}: {p}{n} is {v!r}"[:200])
                    raise Bad(f"{what}: parameter {p}{n} is {v!r}"[:200])
                c.eq_poly(x, sym(f"{kind} {p}{n}"), f"{what}: parameter {p}{n}")

    def arrays(self):
        I = self.I
        vec = lambda g: I.new_arr(base_array(g, (P(len(self.lib.names(self.m, g))),)))
        return vec


def arguments(z, method):
    """Symbolic arguments of an evaluation method, by name."""
    I, lib = z.I, z.lib
    d = lambda g: I.new_dict([(n, sym(f"{g} {n}")) for n in lib.names(z.m, g)])
    vec = lambda g: I.new_arr(base_array(g, (P(len(lib.names(z.m, g))),)))
    if method == "_apply_and_flat_implicit":
        n = sum(len(lib.names(z.m, g)) for g in ("states", "inputs", "states_dot", "con_outputs"))
        return {"flat_vars": I.new_arr(base_array("flat", (P(n),))), "mesh": sym("mesh")}
    v = vec if method.endswith("arrays") else d
    r = {"inputs": v("inputs")}
    if z.state:
        r["states"], r["mesh"] = v("states"), sym("mesh")
    return r


def ob_eval(c, qual, method, fails):
    z = Ctx(c, qual, fails)
    I = z.I
    f = I.getattr(z.m, method)
    if isinstance(f, Unknown) or f is None:
        raise Gone(f"{qual}.{method}")
    new = z.tree("new")
    args = dict(arguments(z, method), params=new)
    n = len(I.outcomes)
    before = I.st
    try:
        I.call(f, [], args)
        ended = True
    except Dead:
        ended = False
    states = [(q.state, q.pc) for q in I.outcomes[n:] if q.kind == "raise"]
    if not z.seen:
        raise Und("the model is not evaluated")
    for s in z.seen:
        z.same(c, s, "new", "parameters seen by the evaluation")
    if fails:
        if ended or not states:
            raise Bad(f"an error in the evaluation is swallowed by {method}")
        for s, pc in states:
            if s is None:
                raise Und("state at the raise")
            I.st = s.fork()
            z.same(c, {p: z.values(x) for p, x in z.nodes.items()}, "old", f"after an evaluation that raises ({method})")
    else:
        if not ended:
            raise Und("the evaluation does not return")
        z.same(c, {p: z.values(x) for p, x in z.nodes.items()}, "old", f"after {method}")


def symbol(i, a, kind):
    n = [i.as_num(x) for x in a[1:]]
    if None in n:
        return i.unknown("size of a casadi symbol")
    n = (n + [ONE, ONE])[:2]
    return Cas(base_array(f"symbol {a[0]}", tuple(n)), f"casadi.{kind}")


def ob_build(c, qual, method, args, fails):
    z = Ctx(c, qual, fails)
    I = z.I
    if args != ("jax",):
        casmat.install(I)
        for kind in ("MX", "SX"):
            I.overrides[f"casadi.{kind}.sym"] = Native("sym", lambda i, a, k, kind=kind: symbol(i, a, kind))
    f = I.getattr(z.m, method)
    if isinstance(f, Unknown) or f is None:
        raise Gone(f"{qual}.{method}")
    n = len(I.outcomes)
    try:
        I.call(f, list(args), {})
        ended = True
    except Dead:
        ended = False
    states = [q.state for q in I.outcomes[n:] if q.kind == "raise"]
    if not z.seen and args != ("jax",) and args != ("custom",):
        raise Und("the model is not evaluated")
    if ended:
        z.same(c, {p: z.values(x) for p, x in z.nodes.items()}, "old", f"after {method}")
    for s in states[:60]:
        if s is None:
            raise Und("state at the raise")
        I.st = s.fork()
        z.same(c, {p: z.values(x) for p, x in z.nodes.items()}, "old", f"after {method} that raises")
    if not ended and not states:
        raise Und("does not return")
    if fails and ended and z.seen:
        raise Bad(f"an error in the evaluation is swallowed by {method}")


def run(c):
    c.explain = (
        "Abstract interpretation of the evaluation, build and export entry points on model trees whose parameters are symbols and whose "
        "equations are a stand-in that records the parameters it sees; after the call, and in the state of every exception path, each "
        "parameter of each submodel must be the one it was before."
    )
    c.assumptions = [
        "two parameters per model and the trees of SimpleVehicleOnTrack and ConstAero stand for all trees",
        "values passed as casadi symbols are recognised as casadi values",
    ]
    for qual, methods in ((ON, ("apply_and_forward", "apply_and_forward_with_arrays", "_apply_and_flat_implicit")), (AERO, ("apply_and_forward", "apply_and_forward_with_arrays"))):
        for m in methods:
            for fails in (False, True):
                c.ob("parameters are restored" + (" after an error" if fails else ""), f"{FILE}:{'StateSpaceModel' if qual == ON else 'Model'}.{m}", ob_eval, c, qual, m, fails)
    for fails in (False, True):
        w = " after an error" if fails else ""
        for b in ("casadi", "jax", "custom"):
            c.ob("parameters are restored" + w, f"{FILE}:StateSpaceModel.make_model_algebra_cons [{b}]", ob_build, c, ON, "make_model_algebra_cons", (b,), fails)
        c.ob("parameters are restored" + w, f"{FILE}:StateSpaceModel.export_c_code", ob_build, c, ON, "export_c_code", ("f.c",), fails)
