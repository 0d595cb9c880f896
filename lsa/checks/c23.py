"""C23: the structures of jacobians and hessians are fixed by the definition of the problem."""
from ..checklib import *
from ..harness import arr_of, new_interp, fn_term
from ..arrays import base_array, akey
from ..alg import ZERO, sym
from .. import alg, arrays
from ..interp import Interp
from . import c08, c12, c21
from .c21 import ROLES

KINDS = ("jacobian", "hessian")
FILES = c08.FILES
FB = "lumos/models/base.py:Model"


def structures(c, I, obj, what):
    """Structures of jacobian and hessian: every entry has to be a plain number once the sizes are numbers."""
    return [lists(c, I, obj, n, what) for n in KINDS]


def lists(c, I, obj, n, what):
    f = I.getattr(obj, n + "structure")
    if f is None or isinstance(f, Unknown):
        raise Gone(f"{n}structure of {what}")
    s = call(I, f)
    parts = I.iter_items(s)
    if parts is None or len(parts) != 2:
        chosen(I, what)
        raise Und(f"{n} structure of {what}: {s!r}"[:200])
    two = [numbers(c, I, v, f"{w} of the {n} structure of {what}") for v, w in zip(parts, ("rows", "columns"))]
    if len(two[0]) != len(two[1]):
        raise Bad(f"the {n} structure of {what} has {len(two[0])} rows and {len(two[1])} columns")
    return two


def chosen(I, what):
    """If something that cannot be computed rests on a selection that is decided by values, that is the reason."""
    if I.selections:
        n, (mod, line), v = I.selections[0]
        raise Bad(f"the structures of {what} rest on {n} whose number is decided by values ({v}) at {mod.replace('.', '/')}.py:{line}")


def numbers(c, I, v, what):
    a = arr_of(I, v)
    if a is None:
        chosen(I, what)
        raise c.nonarr(I, v, what)
    a = arrays.ravel(a)
    n = alg.P(a.shape[0])
    c.count("comparisons")
    if n.const() is None:
        raise Bad(f"the number of {what} is decided by values: {source(n)}")
    out = []
    for k in range(int(n.const())):
        p = arrays.topoly(a.get((P(k),)))
        if p.const() is None:
            raise Bad(f"entry {k} of the {what} depends on values: {source(p)}")
        out.append(int(p.const()))
    return out


def source(p):
    return alg.show(p)[:200]


def size_of(I, v):
    a = arr_of(I, v)
    return None if a is None else alg.P(a.size)


def history(c, I, evaluate, obj, what):
    """Structures before and after evaluations, and the number of values at each of them."""
    before = structures(c, I, obj, what)
    for step in evaluate:
        label, got, kind = step()
        if kind is not None and not isinstance(got, Unknown):
            n = size_of(I, got)
            if n is not None and n.const() is not None:
                c.count("comparisons")
                per = len(before[KINDS.index(kind)][0])
                if per == 0 and n.const() != 0 or per and n.const() % per != 0:
                    raise Bad(f"{n.const()} values of the {kind} of {what} ({label}) for a structure of {per} entries")
        after = structures(c, I, obj, what)
        for n, p, q in zip(KINDS, before, after):
            if p != q:
                raise Bad(f"the {n} structure of {what} has changed after {label}")


def ob_problem(c, kind, condensed, lgr, sizes):
    if condensed:
        z = c12.Ctx(sizes, kind, lgr)
        o, ocp = z.o, z.o.ocp
    else:
        o = c08.Ctx(sizes, kind, False, lgr).o
        ocp = o.ocp
    I = o.I
    c._interps[id(I)] = I
    I.check = c
    x = lambda t: I.new_arr(base_array("x" + t, (o.ndec,)))
    rows = I.as_num(I.getattr(ocp, "num_con"))

    def at(f, t, kind_=None):
        def step():
            a = [x(t)]
            if f == "hessian":
                a += [I.new_arr(base_array("lam" + t, (rows,))), sym("factor" + t)]
            return f"{f} at a point", I.call(I.getattr(ocp, f), a, {}), kind_
        return step
    steps = []
    for t in ("", "_second"):
        steps += [at("constraints", t), at("jacobian", t, "jacobian"), at("hessian", t, "hessian")]
        steps += [at("objective", t), at("gradient", t)] if not (condensed and kind == "fixed") else []
    history(c, I, steps, ocp, "the problem")


def ob_model(c, backend, cls="Plant"):
    z = c21.CasModel(c) if backend == "casadi" else c21.CustomModel(c, "custom", "Custom") if backend == "custom" else c21.Model_(c, backend)
    I = z.I

    def at(what, tag):
        def step():
            return f"{what} of two stages", I.call(I.getattr(z.alg, "mapped_" + what), z.args(what, 2, tag), {}), what if what in KINDS else None
        return step
    history(c, I, [at(w, t) for t in ("_new", "_newer") for w in ROLES], z.alg, f"the model equations ({backend})")


def ob_build(c, backend):
    """Building again, for other parameters of the same model, gives the same structures."""
    z = c21.CasModel(c) if backend == "casadi" else c21.CustomModel(c, "custom", "Custom") if backend == "custom" else c21.Model_(c, backend)
    I = z.I
    one = structures(c, I, z.alg, "the model equations")
    call(I, I.getattr(z.m, "set_recursive_params"), z.tree("_other"))
    z.build()
    c.count("comparisons")
    if structures(c, I, z.alg, "the model equations") != one:
        raise Bad("the structures of the model equations change with the parameters")


def ob_unit(c, given):
    z = c21.Unit(c, given)
    I = z.I
    if not given:
        f = I.getattr(z.obj, "jacobianstructure")
        dense = structures(c, I, z.obj, "constraints without structure")
        full = [[[r for r in range(n) for _ in range(3)], [q for _ in range(n) for q in range(3)]] for n in (2, 3)]
        if [sorted(zip(*s)) for s in dense] != [sorted(zip(*s)) for s in full]:
            raise Bad("constraints without a given structure do not have the dense one")

    def at(what, tag):
        def step():
            return f"{what} of two stages", z.evaluate(what, tag), what if what in KINDS else None
        return step
    history(c, I, [at(w, t) for t in ("", "_new") for w in ROLES], z.obj, "the mapped constraints")


CLIENT = """
from lumos.optimal_control.nlp import BaseConstraints, BaseObjective

def make(con, jac, hess, obj, grad, ohess):
    return (BaseConstraints(num_in=3, num_con=2, constraints=con, jacobian=jac, hessian=hess),
            BaseObjective(num_in=3, objective=obj, gradient=grad, hessian=ohess))
"""


def ob_dense(c):
    """Constraints and objectives without a given structure have the dense one."""
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    I.load_text("dense_client", CLIENT)
    sizes = {"con": (2,), "jac": (2, 3), "hess": (3, 3), "obj": (), "grad": (3,), "ohess": (3, 3)}

    def stand(n):
        def run(i, a, k):
            key = akey(arr_of(i, a[0]))
            return i.new_arr(Arr(tuple(P(s) for s in sizes[n]), lambda ix: fn_term(n, tuple(ix), key))) if sizes[n] else fn_term(n, (), key)
        return Native(n, run)
    r = call(I, I.mod_get("dense_client", "make"), *[stand(n) for n in ("con", "jac", "hess", "obj", "grad", "ohess")])
    con, obj = r.items
    full = [[[r for r in range(n) for _ in range(3)], [q for _ in range(n) for q in range(3)]] for n in (2, 3)]
    x = lambda t: I.new_arr(base_array("x" + t, (P(3),)))
    for k in range(2):
        if structures(c, I, con, "constraints without structure") != full:
            raise Bad("constraints without a given structure do not have the dense one")
        if lists(c, I, obj, "hessian", "an objective without structure") != full[1]:
            raise Bad("an objective without a given structure does not have the dense hessian")
        for f in ("constraints", "jacobian"):
            I.call(I.getattr(con, f), [x(str(k))], {})
        I.call(I.getattr(con, "hessian"), [x(str(k)), I.new_arr(base_array("lam" + str(k), (P(2),)))], {})
        for f in ("objective", "gradient", "hessian"):
            I.call(I.getattr(obj, f), [x(str(k))], {})


SZ = [dict(N=2, K=3, ns=2, nu=1, nc=1, nr=1, no=2), dict(N=3, K=2, ns=1, nu=2, nc=2, nr=0, no=1)]


def run(c):
    Interp.LOG_SELECTIONS = True
    c.explain = ("abstract interpretation of the construction of a problem, of its structures, and of histories of evaluations: all points, multipliers, random numbers, model values, parameters and mesh "
                 "values are symbols, so every entry of a structure (and its length) has to come out as a plain number; the structures are compared before and after each evaluation and the number "
                 "of values with the number of entries")
    c.assumptions = ["sizes are enumerated", "two evaluations of each function stand for all histories"]
    sz = SZ + ([dict(N=1, K=3, ns=2, nu=1, nc=0, nr=1, no=2), dict(N=3, K=3, ns=1, nu=1, nc=1, nr=1, no=1)] if c.tier == "thorough" else [])
    for kind in ("scaled", "fixed", "lap"):
        for condensed in (False, True) if kind != "lap" else (False,):
            for lgr in (True, False):
                for s in sz:
                    if not lgr:
                        s = dict(s, K=2)
                    lab = FILES[kind] + f" [{'condensed' if condensed else 'full'}, {'LGR' if lgr else 'quadrature'}] {{" + ", ".join(f"{k}={v}" for k, v in s.items()) + "}"
                    c.ob("structures of a problem", lab, ob_problem, c, kind, condensed, lgr, s)
    for b in ("jax", "custom", "casadi"):
        c.ob("structures of the model equations", f"{FB}.make_model_algebra_cons [{b}]", ob_model, c, b)
        c.ob("structures do not depend on parameters", f"{FB}.make_model_algebra_cons [{b}]", ob_build, c, b)
    c.ob("structures that are not given are dense", "lumos/optimal_control/nlp.py:BaseConstraints, BaseObjective", ob_dense, c)
    for g in (True, False):
        c.ob("structures of mapped constraints", f"lumos/optimal_control/nlp.py:JaxMappedConstraints [{'given' if g else 'dense'}]", ob_unit, c, g)
