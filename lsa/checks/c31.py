"""C31: mirror symmetry of vehicle, kinematics, drone and the simple tire."""
from ..checklib import *
from ..alg import sym, ZERO
from ..models import Lib, once
from ..harness import fn_term
from .c32 import Vehicle, VEH, FILE, CORNERS

KIN = "lumos.models.kinematics.TrackPosition2D"
DRONE = "lumos.models.drone_model.DroneModel"
TIRE = "lumos.models.tires.perantoni.PerantoniTire"
LATERAL = ("Fy_tire", "ay", "res_ay", "slip_angle", "vy", "yaw_rate")
SYMMETRIC = ("Fx_tire", "Fz_tire", "ax", "res_ax", "slip_ratio", "vx", "wheel_speed", "drive_torque")


def swap(n):
    for a, b in (("_fl", "_fr"), ("_fr", "_fl"), ("_rl", "_rr"), ("_rr", "_rl")):
        if n.endswith(a):
            return n[:-3] + b
    return n


def parity(n):
    for k in sorted(LATERAL + SYMMETRIC, key=len, reverse=True):
        if n == k or n.startswith(k + "_"):
            return -1 if k in LATERAL else 1
    return None


def tire(n, ins, outs):
    axle = n[5]
    a = [ins[k] for k in sorted(ins)]
    return {o: fn_term(f"tire_{axle}_{o}", tuple(a)) for o in outs}


def mirrored(kind, n):
    if kind == "p":
        return sym(f"p_{n}")
    if kind == "u":
        return sym(f"u_{n}") * (-1 if n in ("steer", "ay") else 1)
    s = parity(n)
    if s is None:
        raise Und(f"state {n}")
    return sym(f"x_{swap(n)}") * s


def vehicles(c):
    return Vehicle(c, tire_out=tire).run(), Vehicle(c, value=mirrored, tire_out=tire).run()


def ob_vehicle(c, which):
    v, w = once(c, "mirror", vehicles)
    a, b = getattr(v, which), getattr(w, which)
    n = 0
    for k in b:
        s = parity(k)
        if s is None or swap(k) not in a:
            continue
        n += 1
        c.eq_rat(b[k], a[swap(k)] * s, f"{k} of the mirrored vehicle")
    if not n:
        raise Und("no value with a known parity")


def evaluate(c, qual, sign, params=lambda n: sym(f"p_{n}")):
    lib = Lib(c)
    m = lib.make(qual)
    lib.set_params(m, {n: params(n) for n in lib.params(m)})
    val = lambda k, n: sym(f"{k}_{n}") * sign.get(n, 1)
    state = bool(lib.I.getattr(lib.I.getattr(m, "names"), "_fields").items[0] == "states")
    st = {n: val("x", n) for n in lib.names(m, "states")} if state else None
    return lib.forward(m, st, {n: val("u", n) for n in lib.names(m, "inputs")})


def ob_simple(c, qual, sign, out, what):
    a, b = evaluate(c, qual, {}), evaluate(c, qual, sign)
    n = 0
    for g in a:
        for k in b[g]:
            if k not in a[g]:
                raise Und(f"{g}: {k} is not always returned")
            if k in out:
                n += 1
                c.eq_rat(b[g][k], a[g][k] * out[k], f"{g} {k} under {what}")
    if n < len(out):
        raise Gone(f"values {sorted(out)} of {qual}")


def run(c):
    c.explain = ("each model is evaluated abstractly twice, with symbolic and with mirrored symbolic inputs; the results are compared as rational functions "
                 "over sin, cos, arctan and uninterpreted tire functions (the same on both sides of an axle)")
    c.assumptions = ["aerodynamic coefficients do not change under mirroring", "both tires of an axle are the same function of their inputs"]
    c.ob("state derivatives of the mirrored vehicle", f"{FILE}:SimpleVehicle.forward", ob_vehicle, c, "dot", group="v")
    c.ob("outputs of the mirrored vehicle", f"{FILE}:SimpleVehicle.forward", ob_vehicle, c, "out", group="v")
    neg = lambda *a: {n: -1 for n in a}
    c.ob("mirrored motion on the mirrored track", "lumos/models/kinematics.py:TrackPosition2D.forward", ob_simple, c, KIN,
         neg("n", "eta", "vy", "yaw_rate", "track_curvature", "track_heading"), {"time": 1, "n": -1, "eta": -1, "yaw_angle": -1, "curvature": -1}, "mirroring")
    c.ob("mirrored flight", "lumos/models/drone_model.py:DroneModel.forward", ob_simple, c, DRONE, neg("x", "x_dot", "theta", "omega"),
         {"x": -1, "x_dot": -1, "z": 1, "z_dot": 1, "theta": -1, "sin_theta": -1, "f_omega": -1}, "mirroring")
    F = "lumos/models/tires/perantoni.py:PerantoniTire.forward"
    c.ob("lateral force is odd in the slip angle", F, ob_simple, c, TIRE, neg("alpha"), {"Fx": 1, "Fy": -1}, "reversed slip angle")
    c.ob("longitudinal force is odd in the slip ratio", F, ob_simple, c, TIRE, neg("kappa"), {"Fx": -1, "Fy": 1}, "reversed slip ratio")
