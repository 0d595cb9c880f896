"""C04: users see only unscaled quantities at the solver boundary."""
from ..checklib import *
from ..harness import fn_term, arr_of
from ..arrays import base_array, akey, elementwise
from ..alg import ZERO, ONE, sym
from .. import arrays
from . import c03
from .c03 import FILES
from .c02 import inv

SIG = ("n", "m", "problem_obj", "lb", "ub", "cl", "cu")


class Ctx(c03.Ctx):
    """A problem with scales, arbitrary bounds, and a recording stand-in of the solver."""

    def __init__(self, sizes, kind, condensed, backend="jax", steps=(), initial=None, objectives=True):
        super().__init__(sizes, kind, condensed, False, steps, initial, backend)
        o, I = self.o, self.I
        self.lb, self.ub = base_array("lb", (o.ndec,)), base_array("ub", (o.ndec,))
        I.setattr(o.ocp, "lb", I.new_arr(self.lb))
        I.setattr(o.ocp, "ub", I.new_arr(self.ub))
        m = call(I, Native("num_con", lambda i, a, k: i.getattr(o.ocp, "num_con")))
        self.ncon = topoly(I.as_num(m), "num_con")
        self.cl, self.cu = base_array("cl", (self.ncon,)), base_array("cu", (self.ncon,))
        I.setattr(o.ocp, "cl", I.new_arr(self.cl))
        I.setattr(o.ocp, "cu", I.new_arr(self.cu))
        self.made, self.solved, self.options = [], [], []
        I.overrides["cyipopt.Problem"] = Native("Problem", self.problem)
        I.overrides["platform.system"] = Native("system", lambda i, a, k: "Linux")
        I.overrides["os.path.exists"] = Native("exists", lambda i, a, k: False)
        self.guess = base_array("own_guess", (o.ndec,))
        own = Native("get_init_guess", lambda i, a, k: i.new_arr(self.guess))
        for c in ("scaled_mesh_ocp.ScaledMeshOCP", "fixed_mesh_ocp.FixedMeshOCP"):
            I.overrides[f"lumos.optimal_control.{c}.get_init_guess"] = own
        self.sol = base_array("solver_x", (o.ndec,))
        if not objectives:
            call(I, I.getattr(o.ocp, "delete_objective"), "time")

    def problem(self, I, a, k):
        b = dict(zip(SIG, a))
        b.update({str(n): v for n, v in k.items()})
        self.made.append(b)
        self.info = I.new_dict([("status", ZERO), ("status_msg", "ok"), ("x", I.new_arr(self.sol)), ("obj_val", sym("solver_objective"))])

        def solve(i, a, k):
            b = dict(zip(("x", "lagrange", "zl", "zu"), a))
            b.update({str(n): v for n, v in k.items()})
            self.solved.append(b)
            return Tup([i.new_arr(self.sol), self.info])
        add = lambda i, a, k: self.options.append(tuple(a) + tuple(k.values()))
        return Stub("problem", attrs={"solve": Native("solve", solve), "add_option": Native("add_option", add),
                                      "addOption": Native("addOption", add)})

    def solve(self, *a, **k):
        self.made.clear(), self.solved.clear(), self.options.clear()
        r = call(self.I, self.I.getattr(self.o.ocp, "solve"), *a, print_level=ZERO, **k)
        if len(self.solved) != 1:
            raise (Und if len(self.solved) else Bad)(f"the solver is run {len(self.solved)} times")
        return r


def one(z, what):
    if len(z.made) < 1:
        raise Und(f"no solver problem made ({what})")
    return z.made[-1]


def ob_problem(c, z):
    I, o = z.I, z.o
    z.solve()
    b = one(z, "solve")
    s = z.scale()
    c.eq_poly(I.as_num(b.get("n")), o.ndec, "number of variables given to the solver")
    c.eq_poly(I.as_num(b.get("m")), z.ncon, "number of constraints given to the solver")
    for n, a in (("lb", z.lb), ("ub", z.ub)):
        c.eq_arr(I, b.get(n), elementwise(lambda u, v: u * inv(v), a, s), f"solver's {n}")
    for n, a in (("cl", z.cl), ("cu", z.cu)):
        c.eq_arr(I, b.get(n), a, f"solver's {n}")
    if b.get("problem_obj") is not None and b["problem_obj"] != o.ocp:
        if isinstance(b["problem_obj"], Ref) and I.rec(b["problem_obj"]).kind == "obj" and I.rec(b["problem_obj"]).cls == I.rec(o.ocp).cls:
            raise Bad("the solver gets another problem")
        raise Und("callbacks object of the solver")


def ob_bounds_kept(c, z):
    """Handing bounds to the solver leaves the user's bounds as they were."""
    I, o = z.I, z.o
    z.solve()
    for n, a in (("lb", z.lb), ("ub", z.ub), ("cl", z.cl), ("cu", z.cu)):
        c.eq_arr(I, I.getattr(o.ocp, n), a, f"{n} after a solve")


def ob_guess(c, z):
    I, o = z.I, z.o
    s = z.scale()
    g = base_array("user_guess", (o.ndec,))
    lam, zl, zu = base_array("user_lagrange", (z.ncon,)), base_array("user_zl", (o.ndec,)), base_array("user_zu", (o.ndec,))
    gv, lv, av, bv = [I.new_arr(t) for t in (g, lam, zl, zu)]
    z.solve(gv, lagrange=lv, zl=av, zu=bv)
    b = z.solved[-1]
    c.eq_arr(I, b.get("x"), elementwise(lambda u, v: u * inv(v), g, s), "solver's initial guess")
    for n, a in (("lagrange", lam), ("zl", zl), ("zu", zu)):
        c.eq_arr(I, b.get(n), a, f"solver's {n}")
    for v, a, n in ((gv, g, "initial guess"), (lv, lam, "lagrange"), (av, zl, "zl"), (bv, zu, "zu")):
        c.eq_arr(I, v, a, f"caller's {n} after the solve")
    z.solve()
    c.eq_arr(I, z.solved[-1].get("x"), elementwise(lambda u, v: u * inv(v), z.guess, s), "solver's default initial guess")


def ob_solution(c, z):
    I, o = z.I, z.o
    s = z.scale()
    for k in range(2):
        r = z.solve(I.new_arr(base_array("user_guess", (o.ndec,))))
        items = I.iter_items(r)
        if items is None or len(items) < 2:
            raise Und(f"result of solve {r!r}"[:200])
        c.eq_arr(I, items[0], elementwise(lambda u, v: u * v, z.sol, s), "returned solution")
        st = I.getitem(items[1], "status") if hasattr(I, "getitem") else None
        if st is not None and not isinstance(st, Unknown):
            c.eq_poly(I.as_num(st), ZERO, "returned solver status")


def ob_options(c, z):
    I = z.I
    z.solve(tol=sym("user_tol"), max_iter=P(7), my_option="value")
    last = {}
    if not z.options:
        raise Und("no options recorded")
    for n, v in z.options:
        if not isinstance(n, str):
            raise Und(f"option {n!r}"[:200])
        last[n] = v
    for n, v in (("tol", sym("user_tol")), ("max_iter", P(7))):
        if n not in last:
            raise Bad(f"the user's option {n} never reaches the solver")
        c.eq_poly(I.as_num(last[n]), v, f"option {n}")
    if last.get("my_option") != "value":
        raise (Bad if "my_option" not in last else Und)(f"option my_option reaches the solver as {last.get('my_option')!r}")
    c.comparisons += 1


def ob_feasible(c, z):
    """Without objectives the solver still gets a (constant) objective."""
    I, o = z.I, z.o
    z.solve()
    x = I.new_arr(base_array("x", (o.ndec,)))
    c.eq_arr(I, call(I, I.getattr(o.ocp, "objective"), x), ZERO, "objective of a feasibility problem")
    c.eq_arr(I, call(I, I.getattr(o.ocp, "gradient"), x), Arr((o.ndec,), lambda ix: ZERO), "gradient of a feasibility problem")


def run(c):
    c.explain = ("abstract interpretation of problem construction, set_scales and solve with symbolic sizes, bounds, scales, guesses and "
                 "multipliers; the solver class is a recording stand-in: what it receives and what solve returns is compared with the "
                 "specification entry by entry")
    c.assumptions = ["the interface of cyipopt.Problem(n, m, problem_obj, lb, ub, cl, cu) and of its solve(x, lagrange, zl, zu)"]
    hist = {"scales in the configuration": ((), ("states1", "inputs1", "global1")),
            "scales replaced before solving": ((("scales", ("states2", "con_outputs2", "states_dot2")),), ("states1", "global1"))}
    for kind in ("scaled", "fixed"):
        for condensed in (False, True):
            for name, (steps, init) in hist.items():
                if kind == "fixed":
                    drop = lambda t: tuple(x for x in t if not x.startswith("global"))
                    steps = tuple((s[0], drop(s[1])) if s[0] == "scales" else s for s in steps)
                    init = drop(init)
                if c.tier == "quick" and condensed and name == "scales in the configuration":
                    continue
                b = lambda s, a=(kind, condensed, "jax", steps, init): Ctx(s, *a)
                lab = f"{FILES[kind]} [{kind}{', condensed' if condensed else ''}: {name}]"
                c.sized("solver receives scaled bounds", lab, b, lambda w: ob_problem(c, w))
                c.sized("user's bounds stay as given", lab, b, lambda w: ob_bounds_kept(c, w))
                c.sized("solver receives scaled guess and given multipliers", lab, b, lambda w: ob_guess(c, w))
                c.sized("returned solution is unscaled", lab, b, lambda w: ob_solution(c, w))
                c.sized("user options reach the solver", lab, b, lambda w: ob_options(c, w))
        for backend in ("casadi", "jax"):
            b = lambda s, a=(kind, False, backend, (), None, False): Ctx(s, *a)
            c.sized("feasibility problem has a constant objective", FILES[kind] + f" [{kind}, {backend}: no objectives]", b, lambda w: ob_feasible(c, w))
