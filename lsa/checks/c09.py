"""C09: cyclic constraints tie exactly the first and last stage."""
from ..checklib import *
from ..harness import Ocp, arr_of, name_str, names_with
from ..arrays import base_array, concat
from ..alg import ZERO, ONE, sym, dim, index
from .. import arrays
from ..values import mkstr
from .c07 import constraint, triplet

FILES = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}


class Ctx:
    """Cyclic problem in which some states and inputs (named literally) may be declared non-cyclic."""

    def __init__(self, sizes, kind, free=(), condensed=False, lgr=True, lazy=False):
        sizes = dict(sizes or {})
        conc = bool(sizes)
        if conc and not lgr:
            sizes["K"] = 2
        n1, n2, i1, i2 = (1, 1, 1, 0) if conc else (dim("n_before", 0), dim("n_after", 0), dim("i_before", 0), dim("i_after", 0))
        groups = {"states": names_with("state", "time", n1, n2), "inputs": names_with("input", "heading", i1, i2)}
        if conc:
            # names of which some begin, end or repeat like those declared non-cyclic
            groups = {"states": (Tup(["timer", "time", "lap_time"]), P(3)), "inputs": (Tup(["time", "heading", "heading_rate"]), P(3))}
            n1, n2, i1, i2 = 1, 1, 1, 1
        for k in ("ns", "nu"):
            sizes.pop(k, None)
        self.o = o = Ocp(kind, cyclic=True, condensed=condensed, lgr=lgr, sizes=sizes, groups=groups, lazy=True)
        self.I = I = o.I
        self.free = I.new_list(list(free))
        I.setattr(o.cfg, "non_cyclic_vars", self.free)
        kw = dict(model=o.model, sim_config=o.cfg)
        if kind == "fixed":
            kw["mesh_scale"] = o.scale
        self.args = kw
        if not lazy:
            o.ocp = call(I, o.cls, **kw)
            self.con = constraint(o, "cyclic")
        self.xa = base_array("x", (o.ndec,))
        parts = []
        for g, n, at, full in (("states", o.D.ns, P(n1), "states.time"), ("inputs", o.D.nu, P(i1), "inputs.heading")):
            if full in free:
                parts.append((g, at, ZERO))
                parts.append((g, n - at - 1, at + 1))
            else:
                parts.append((g, n, ZERO))
        self.spec = concat([Arr((n,), lambda ix, g=g, lo=lo: self.xa.get((o.pos(g, ZERO, ix[0] + lo),)) - self.xa.get((o.pos(g, o.S - 1, ix[0] + lo),)))
                            for g, n, lo in parts], 0)

    def m(self, name, *a):
        if self.con is None:
            raise Bad("a cyclic problem has no cyclic constraint")
        return call(self.I, self.I.getattr(self.con, name), *a)

    def x(self):
        return self.I.new_arr(self.xa)


def ob_con(c, z):
    c.eq_arr(z.I, z.m("constraints", z.x()), z.spec, "cyclic constraint")
    c.eq_poly(z.I.as_num(z.I.getattr(z.con, "num_con")), z.spec.shape[0], "number of cyclic constraints")


def ob_jac(c, z):
    n = z.spec.shape[0]
    v, r, q = triplet(c, z.I, z.m("jacobian", z.x()), z.m("jacobianstructure"), "cyclic jacobian")
    t = Triplet(v, r, q)
    t.check()
    t.bounds(c, n, z.o.ndec, "cyclic jacobian")
    if n.const() is not None:
        tab = t.table()
        for i in range(int(n.const())):
            for j in range(int(z.o.ndec.const())):
                c.eq_poly(tab.get((i, j), ZERO), deriv(z.spec.get((P(i),)), P(j)), f"cyclic jacobian entry [{i}, {j}]")
        return
    col = opaque_index(z.o.ndec, "_col")
    got = Arr((n,), lambda ix: t.entry(ix[0], col))
    c.eq_arr(z.I, z.I.new_arr(got), Arr((n,), lambda ix: deriv(z.spec.get(ix), col)), "cyclic jacobian entry in column _col")


def ob_hess(c, z):
    lam = z.I.new_arr(base_array("lam", (z.spec.shape[0],)))
    v, r, q = triplet(c, z.I, z.m("hessian", z.x(), lam), z.m("hessianstructure"), "cyclic hessian")
    t = Triplet(v, r, q)
    t.check()
    c.eq_sym(t, lambda a, b: ZERO, z.o.ndec, "cyclic hessian entry")


def ob_equality(c, z):
    """The cyclic rows are equalities of the whole problem."""
    I = z.I
    n = I.as_num(I.getattr(z.o.ocp, "num_con"))
    for k in ("cl", "cu"):
        c.eq_arr(I, I.getattr(z.o.ocp, k), Arr((n,), lambda ix: ZERO), f"{k} of a cyclic problem")


def ob_reject(c, z):
    must_raise(c, z.I, z.o.cls, z.args, "a cyclic problem with an unknown non-cyclic variable")


def ob_absent(c, z):
    if constraint(z.o, "cyclic") is not None:
        raise Bad("a problem that is not cyclic has a cyclic constraint")
    c.comparisons += 1


def run(c):
    c.explain = ("abstract interpretation of the construction of cyclic problems with symbolic sizes and literally named non-cyclic "
                 "variables; the cyclic constraint, its jacobian triplets and its hessian are compared with first minus last stage of "
                 "every remaining state and input and the formal derivatives of that")
    variants = [((), "all cyclic"), (("states.time",), "one state free"), (("inputs.heading",), "one input free"),
                (("states.time", "inputs.heading"), "a state and an input free")]
    for kind in ("scaled", "fixed"):
        for free, name in variants:
            for condensed in ((False, True) if c.tier == "thorough" else (False,)):
                for lgr in ((True, False) if c.tier == "thorough" else (True,)):
                    b = lambda s, a=(kind, free, condensed, lgr): Ctx(s, *a)
                    lab = f"{FILES[kind]}._build_cyclic_cons [{kind}: {name}{', condensed' if condensed else ''}{'' if lgr else ', quadrature'}]"
                    c.sized("one constraint per cyclic variable, first minus last stage", lab, b, lambda z: ob_con(c, z))
                    c.sized("jacobian = derivative", lab, b, lambda z: ob_jac(c, z))
                    c.sized("hessian vanishes", lab, b, lambda z: ob_hess(c, z))
                    c.sized("cyclic rows are equalities", lab, b, lambda z: ob_equality(c, z))
        for bad in ("states.nothing", "inputs.time", "outputs.time", "time"):
            b = lambda s, a=(kind, (bad,), False, True, True): Ctx(s, *a)
            c.sized("unknown non-cyclic variable is rejected", f"{FILES[kind]}._build_cyclic_vars [{kind}: {bad}]", b, lambda z: ob_reject(c, z))
        b = lambda s, k=kind: Ocp(k, sizes=s)
        c.sized("no cyclic constraint unless asked for", f"{FILES[kind]} [{kind}]", b, lambda z: (ob_absent(c, Hold(z))))


class Hold:
    def __init__(self, o):
        self.o, self.I = o, o.I
