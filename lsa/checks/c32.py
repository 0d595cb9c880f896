"""C32: the vehicle's forces and torques are conserved by their distribution."""
from ..checklib import *
from ..alg import sym, ZERO, ONE
from .. import alg, rational
from ..models import Lib, once

VEH = "lumos.models.vehicles.simple_vehicle.SimpleVehicle"
FILE = "lumos/models/vehicles/simple_vehicle.py"
CORNERS = ("fl", "fr", "rl", "rr")
HALF = alg.inverse(P(2))


class Vehicle:
    """SimpleVehicle with symbolic parameters; tires and aero are uninterpreted."""

    def __init__(self, c, value=None, tire_out=None, aero_out=None):
        self.lib = lib = Lib(c)
        self.m = m = lib.make(VEH)
        self.value = value or (lambda kind, n: sym(f"{kind}_{n}"))
        self.p = {n: self.value("p", n) for n in lib.params(m)}
        lib.set_params(m, self.p)
        self.states = {n: self.value("x", n) for n in lib.names(m, "states")}
        self.inputs = {n: self.value("u", n) for n in lib.names(m, "inputs")}
        subs = lib.submodels(m)
        for q in ["tire_" + k for k in CORNERS] + ["aero"]:
            if q not in subs:
                raise Gone(f"submodel {q} of the vehicle")
        for n, s in subs.items():
            outs = lib.names(s, "outputs")
            if n == "aero":
                f = aero_out or (lambda ins, outs=outs: {o: sym(f"aero_{o}") for o in outs})
            else:
                f = (lambda ins, outs=outs, n=n: tire_out(n, ins, outs)) if tire_out else (lambda ins, outs=outs, n=n: {o: sym(f"{n}_{o}") for o in outs})
            lib.stand_in(s, n, f)
        need = {"gravity", "vehicle_mass", "Iz", "cog_to_fa", "cog_to_ra", "cog_height", "track_front", "track_rear", "rolling_radius",
                "kd", "air_density", "max_power", "max_total_brake_torque", "brake_balance", "wheel_inertia", "mech_balance", "max_steer_angle"}
        for n in need:
            if n not in self.p:
                raise Gone(f"vehicle parameter {n}")

    def run(self):
        r = self.lib.forward(self.m, self.states, self.inputs)
        self.dot, self.out = r["states_dot"], r["outputs"]
        self.tire_in = {n[5:]: i for n, i in self.lib.calls if n.startswith("tire_")}
        self.aero_in = [i for n, i in self.lib.calls if n == "aero"]
        for k in CORNERS:
            if k not in self.tire_in:
                raise Bad(f"tire {k} is never evaluated")
        return self


def total(xs):
    r = ZERO
    for x in xs:
        r = r + x
    return r


def build(c):
    v = Vehicle(c).run()
    p, x, u = v.p, v.states, v.inputs
    v.q = HALF * p["air_density"] * (x["vx"] * x["vx"] + x["vy"] * x["vy"])
    v.Fz = {k: v.tire_in[k]["Fz"] for k in CORNERS}
    return v


def ob_load(c, v):
    p = v.p
    c.eq_rat(total(v.Fz.values()), p["vehicle_mass"] * p["gravity"] + sym("aero_Cz") * v.q, "sum of the four wheel loads")
    for k in CORNERS:
        c.eq_rat(v.out[f"Fz_tire_{k}"], v.Fz[k], f"reported load of wheel {k}")


def ob_pitch(c, v):
    p = v.p
    m = (v.Fz["fl"] + v.Fz["fr"]) * p["cog_to_fa"] - (v.Fz["rl"] + v.Fz["rr"]) * p["cog_to_ra"]
    c.eq_rat(m, -p["vehicle_mass"] * p["cog_height"] * v.inputs["ax"], "moment of the wheel loads about the lateral axis")
    c.eq_rat((v.Fz["fl"] - v.Fz["fr"]) - subst(v, v.Fz["fl"] - v.Fz["fr"], "u_ax"), ZERO, "longitudinal transfer is the same left and right (front)")
    c.eq_rat((v.Fz["rl"] - v.Fz["rr"]) - subst(v, v.Fz["rl"] - v.Fz["rr"], "u_ax"), ZERO, "longitudinal transfer is the same left and right (rear)")


def subst(v, t, name):
    return alg.subst(t, {alg.Atom("sym", name): ZERO})


def ob_roll(c, v):
    p = v.p
    f = (v.Fz["fl"] - v.Fz["fr"]) * p["track_front"] * HALF
    r = (v.Fz["rl"] - v.Fz["rr"]) * p["track_rear"] * HALF
    M = -p["vehicle_mass"] * p["cog_height"] * v.inputs["ay"]
    c.eq_rat(f + r, M, "moment of the wheel loads about the longitudinal axis")
    c.eq_rat(f, M * p["mech_balance"], "share of the front axle in the roll moment")


def ob_power(c, v):
    x, p, u = v.states, v.p, v.inputs
    l, r = v.out["drive_torque_rl"], v.out["drive_torque_rr"]
    c.eq_rat(l * x["wheel_speed_rl"] + r * x["wheel_speed_rr"], u["throttle"] * p["max_power"], "power of the driven wheels")
    c.eq_rat(l - r, -p["kd"] * (x["wheel_speed_rl"] - x["wheel_speed_rr"]), "torque difference of the differential")


def wheel_force(v, k):
    """Force of a tire in wheel coordinates as the tire returns it; the right side is mirrored."""
    s = 1 if k in ("fl", "rl") else -1
    return sym(f"tire_{k}_Fx"), sym(f"tire_{k}_Fy") * s


def brakes(v):
    p = v.p
    d = {"fl": ZERO, "fr": ZERO, "rl": v.out["drive_torque_rl"], "rr": v.out["drive_torque_rr"]}
    return {k: d[k] - wheel_force(v, k)[0] * p["rolling_radius"] - p["wheel_inertia"] * v.dot["wheel_speed_" + k] for k in CORNERS}


def ob_brake(c, v):
    p, u = v.p, v.inputs
    b = brakes(v)
    T = p["max_total_brake_torque"] * u["brake"]
    c.eq_rat(total(b.values()), T, "sum of the brake torques (drive torque less tire torque less inertia times acceleration of the wheels)")
    c.eq_rat(b["fl"] + b["fr"], T * p["brake_balance"], "brake torque of the front axle")
    for a in ("f", "r"):
        c.eq_rat(b[a + "l"], b[a + "r"], f"brake torques left and right ({a})")


def ob_accel(c, v):
    p, x = v.p, v.states
    Fx = {k: v.out["Fx_tire_" + k] for k in CORNERS}
    Fy = {k: v.out["Fy_tire_" + k] for k in CORNERS}
    c.eq_rat(p["vehicle_mass"] * v.out["ax"], total(Fx.values()) - sym("aero_Cx") * v.q, "mass times longitudinal acceleration")
    c.eq_rat(p["vehicle_mass"] * v.out["ay"], total(Fy.values()), "mass times lateral acceleration")
    c.eq_rat(v.dot["vx"], v.out["ax"] + x["yaw_rate"] * x["vy"], "derivative of vx")
    c.eq_rat(v.dot["vy"], v.out["ay"] - x["yaw_rate"] * x["vx"], "derivative of vy")


def positions(v):
    p = v.p
    return {"fl": (p["cog_to_fa"], p["track_front"] * HALF), "fr": (p["cog_to_fa"], -p["track_front"] * HALF),
            "rl": (-p["cog_to_ra"], p["track_rear"] * HALF), "rr": (-p["cog_to_ra"], -p["track_rear"] * HALF)}


def ob_yaw(c, v):
    m = ZERO
    for k, (px, py) in positions(v).items():
        m = m + px * v.out["Fy_tire_" + k] - py * v.out["Fx_tire_" + k]
    c.eq_rat(v.p["Iz"] * v.dot["yaw_rate"], m, "yaw inertia times yaw acceleration")


def sincos(v):
    I = v.lib.I
    a = v.inputs["steer"] * v.p["max_steer_angle"]
    return I.as_num(I.call(Ext("numpy.sin"), [a], {})), I.as_num(I.call(Ext("numpy.cos"), [a], {}))


def ob_rotation(c, v):
    s, co = sincos(v)
    for k in CORNERS:
        fx, fy = wheel_force(v, k)
        X, Y = v.out["Fx_tire_" + k], v.out["Fy_tire_" + k]
        c.eq_rat(X * X + Y * Y, fx * fx + fy * fy, f"magnitude of the force of tire {k} in body coordinates")
        if k[0] == "f":
            c.eq_rat(X, fx * co - fy * s, f"longitudinal body force of the steered tire {k}")
            c.eq_rat(Y, fx * s + fy * co, f"lateral body force of the steered tire {k}")
        else:
            c.eq_rat(X, fx, f"longitudinal body force of tire {k}")
            c.eq_rat(Y, fy, f"lateral body force of tire {k}")


def ob_slip(c, v):
    """Tires see the velocity of their contact point in wheel coordinates, mirrored on the right."""
    I, x = v.lib.I, v.states
    s, co = sincos(v)
    for k, (px, py) in positions(v).items():
        bx, by = x["vx"] - x["yaw_rate"] * py, x["vy"] + x["yaw_rate"] * px
        wx, wy = (bx * co + by * s, by * co - bx * s) if k[0] == "f" else (bx, by)
        c.eq_rat(v.tire_in[k]["vx"], wx, f"longitudinal velocity of wheel {k}")
        al = I.as_num(I.call(Ext("numpy.arctan"), [wy * alg.inverse(wx)], {}))
        c.eq_rat(v.out["slip_angle_" + k], al, f"slip angle of wheel {k}")
        c.eq_rat(v.tire_in[k]["alpha"], al if k[1] == "l" else -al, f"slip angle given to tire {k}")
        c.eq_rat(v.tire_in[k]["kappa"], v.out["slip_ratio_" + k], f"slip ratio given to tire {k}")
        # free rolling at the speed used for the slip: no slip
        c.eq_rat((v.tire_in[k]["kappa"] + 1) * x["vx"], v.p["rolling_radius"] * x["wheel_speed_" + k], f"slip ratio of wheel {k}: (kappa + 1) vx")


def ob_res(c, v):
    for n in ("ax", "ay"):
        c.eq_rat(v.out["res_" + n], v.out[n] - v.inputs[n], f"residual of {n}")


def run(c):
    c.explain = ("abstract interpretation of SimpleVehicle.forward with symbolic states, inputs and parameters, tires and aerodynamics uninterpreted; "
                 "conservation laws are identities of rational functions, decided in normal form (clearing denominators, sin^2 + cos^2 = 1)")
    c.assumptions = ["wherever the terms are defined (no vanishing denominator)", "forces of the tires on the right side are mirrored, as the tire inputs are"]
    for rule, f in (("wheel loads carry weight and downforce", ob_load), ("longitudinal load transfer balances the pitch moment", ob_pitch),
                    ("lateral load transfer balances the roll moment", ob_roll), ("driven wheels deliver the requested power", ob_power),
                    ("brake torques add up", ob_brake), ("accelerations are total force over mass", ob_accel), ("yaw acceleration is total moment over inertia", ob_yaw),
                    ("rotation into body coordinates conserves tire forces", ob_rotation), ("tires see the motion of their wheel", ob_slip),
                    ("residuals are computed minus assumed acceleration", ob_res)):
        c.ob(rule, f"{FILE}:SimpleVehicle.forward", lambda f=f: f(c, once(c, "vehicle", build)), group="vehicle")
