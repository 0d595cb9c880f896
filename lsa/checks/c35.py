"""C35: model equations and their derivatives exist at straight, slip-free running."""
from ..checklib import *
from .. import alg
from ..alg import sym, ZERO
from ..models import once
from .c31 import KIN, DRONE, TIRE, evaluate, tire
from .c32 import Vehicle, FILE

# functions without a derivative where these arguments vanish
AT_ZERO = {"sqrt", "log", "log2", "log10", "abs", "absolute", "fabs", "cbrt", "hypot", "arctan2", "norm", "reciprocal"}
BRANCH = {"where", "if_else", "maximum", "minimum", "fmax", "fmin", "max", "min", "clip", "ite", "select"}


def inner(a):
    """Polynomials an atom is made of."""
    out = []
    todo = list(a.args)
    while todo:
        x = todo.pop()
        if isinstance(x, alg.Poly):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            todo += list(x)
        elif isinstance(x, alg.Atom):
            out.append(P(x))
    return out


def walk(p, seen):
    """(what, polynomials that must not all vanish) of every singular operation in a term."""
    for m in p.terms:
        for a, e in m:
            if e < 0 and (("pow",) + (a,)) not in seen:
                seen.add(("pow", a))
                yield "a quotient", [P(a)]
            if a in seen:
                continue
            seen.add(a)
            if a.kind == "inv":
                yield "a quotient", [a.args[0]]
            elif a.kind == "app":
                n = str(a.args[0])
                if n in BRANCH:
                    raise Und(f"branch on values: {n}")
                if n in AT_ZERO:
                    yield n, inner(a)
            elif a.kind in ("unk", "opq"):
                raise Und(f"unknown value {a.key}"[:120])
            for q in inner(a):
                yield from walk(q, seen)


def ob(c, values, zero, where):
    mp = {alg.Atom("sym", n): ZERO for n in zero}
    n = 0
    seen = set()
    for k, v in values:
        for what, qs in walk(v, seen):
            n += 1
            at = [alg.subst(q, mp) for q in qs]
            if qs and all(alg.is_zero(q) or not q.terms for q in at):
                raise Bad(f"{k}: {what} of {', '.join(alg.show(q)[:120] for q in qs)} is singular {where}")
    return f"{n} singular operations"


def simple(c, qual, zero, where):
    r = evaluate(c, qual, {})
    ob(c, [(f"{g} {k}", v) for g in r for k, v in r[g].items()], zero, where)


def ob_vehicle(c):
    v = once(c, "straight", lambda c: Vehicle(c, tire_out=tire).run())
    vals = [(f"derivative of {k}", t) for k, t in v.dot.items()] + [(f"output {k}", t) for k, t in v.out.items()]
    vals += [(f"{k} of tire {n}", t) for n, d in v.tire_in.items() for k, t in d.items()]
    ob(c, vals, ("x_vy", "x_yaw_rate", "u_throttle", "u_brake", "u_steer", "u_ax", "u_ay"), "while coasting straight ahead")


def run(c):
    c.explain = ("each model is evaluated abstractly on symbolic inputs; every quotient, root, logarithm and modulus in the resulting terms (also inside other "
                 "functions) is evaluated with the symbols of the operating point at zero: an operand that vanishes identically there has no finite value or derivative")
    c.assumptions = ["parameters, longitudinal speed and wheel speeds are not zero", "tires are opaque in the vehicle and analysed on their own"]
    R = "no singular operation at the operating point"
    c.ob(R, "lumos/models/tires/perantoni.py:PerantoniTire.forward [free rolling]", simple, c, TIRE, ("u_kappa", "u_alpha", "u_gamma"), "without slip", group="t")
    c.ob(R, "lumos/models/tires/perantoni.py:PerantoniTire.forward [pure longitudinal slip]", simple, c, TIRE, ("u_alpha", "u_gamma"), "without slip angle", group="t")
    c.ob(R, "lumos/models/tires/perantoni.py:PerantoniTire.forward [pure lateral slip]", simple, c, TIRE, ("u_kappa", "u_gamma"), "without slip ratio", group="t")
    c.ob(R, f"{FILE}:SimpleVehicle.forward [coasting straight ahead]", ob_vehicle, c, group="v")
    c.ob(R, "lumos/models/kinematics.py:TrackPosition2D.forward [on the centre line of a straight]", simple, c, KIN,
         ("x_n", "x_eta", "u_vy", "u_yaw_rate", "u_track_curvature", "u_track_heading"), "on the centre line of a straight", group="k")
    c.ob(R, "lumos/models/drone_model.py:DroneModel.forward [upright]", simple, c, DRONE, ("x_x", "x_x_dot", "x_z", "x_z_dot", "x_theta", "u_omega"), "upright and at rest", group="d")
