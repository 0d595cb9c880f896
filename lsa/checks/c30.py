"""C30: dimensional consistency, decided as homogeneity under a change of units."""
from ..checklib import *
from ..alg import sym, ZERO, ONE
from .. import alg
from ..models import Lib, once
from .c32 import VEH, FILE, CORNERS

KIN = "lumos.models.kinematics.TrackPosition2D"
DRONE = "lumos.models.drone_model.DroneModel"
TIRE = "lumos.models.tires.perantoni.PerantoniTire"
ON = "lumos.models.simple_vehicle_on_track.SimpleVehicleOnTrack"

# mass, length, time
NONE, LEN, TIME, SPEED, ACC, RATE, CURV = (0, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, -1), (0, 1, -2), (0, 0, -1), (0, -1, 0)
FORCE, TORQUE, POWER, MASS, INERTIA, AREA = (1, 1, -2), (1, 2, -2), (1, 2, -3), (1, 0, 0), (1, 2, 0), (0, 2, 0)
VEHICLE = {
    "vx": SPEED, "vy": SPEED, "yaw_rate": RATE, "throttle": NONE, "brake": NONE, "steer": NONE, "ax": ACC, "ay": ACC, "gravity": ACC,
    "vehicle_mass": MASS, "Iz": INERTIA, "cog_to_fa": LEN, "cog_to_ra": LEN, "cog_height": LEN, "mech_balance": NONE, "track_front": LEN,
    "track_rear": LEN, "rolling_radius": LEN, "kd": (1, 2, -1), "air_density": (1, -3, 0), "aero_balance": NONE, "max_steer_angle": NONE,
    "max_power": POWER, "max_total_brake_torque": TORQUE, "brake_balance": NONE, "wheel_inertia": INERTIA, "res_ax": ACC, "res_ay": ACC,
    "drive_torque_rl": TORQUE, "drive_torque_rr": TORQUE, "some_array": NONE,
}
for k in CORNERS:
    VEHICLE.update({f"wheel_speed_{k}": RATE, f"slip_ratio_{k}": NONE, f"slip_angle_{k}": NONE, f"Fx_tire_{k}": FORCE, f"Fy_tire_{k}": FORCE, f"Fz_tire_{k}": FORCE})
TIREIO = {"Fz": FORCE, "kappa": NONE, "alpha": NONE, "vx": SPEED, "gamma": NONE, "Fx": FORCE, "Fy": FORCE, "Mx": TORQUE, "My": TORQUE, "Mz": TORQUE}
AEROIO = {"Cx": AREA, "Cy": AREA, "Cz": AREA}
TRACK = {"time": TIME, "n": LEN, "eta": NONE, "vx": SPEED, "vy": SPEED, "yaw_rate": RATE, "track_curvature": CURV, "track_heading": NONE,
         "yaw_angle": NONE, "curvature": CURV}
FLIGHT = {"x": LEN, "x_dot": SPEED, "z": LEN, "z_dot": SPEED, "theta": NONE, "f": ACC, "omega": RATE, "gravity": ACC, "sin_theta": NONE, "f_omega": (0, 1, -3)}
SLIP = dict(TIREIO, Fz1=FORCE, Fz2=FORCE, mux1=NONE, mux2=NONE, muy1=NONE, muy2=NONE, kappa1=NONE, kappa2=NONE, alpha1=NONE, alpha2=NONE, Qx=NONE, Qy=NONE)


def unit(d):
    r = ONE
    for n, e in zip(("kg", "m", "s"), d):
        u = sym("unit_" + n)
        for _ in range(abs(e)):
            r = r * (u if e > 0 else alg.inverse(u))
    return r


def dimtext(d):
    return " ".join(n if e == 1 else f"{n}^{e}" for n, e in zip(("kg", "m", "s"), d) if e) or "1"


def evaluate(c, qual, table, scaled):
    lib = Lib(c)
    m = lib.make(qual)

    def val(kind, n, tab=table):
        if n not in tab:
            raise Und(f"dimension of {n}")
        return sym(f"{kind}_{n}") * (unit(tab[n]) if scaled else ONE)

    def prepare(m, path, tab):
        lib.set_params(m, {n: val("p" + path, n, tab) for n in lib.params(m)})
        for n, s in lib.submodels(m).items():
            if n.startswith("tire_") or n == "aero":
                t = AEROIO if n == "aero" else TIREIO
                outs = {o: val(n, o, t) if o in t else sym(f"{n}_{o}") for o in lib.names(s, "outputs")}
                lib.stand_in(s, path + n, lambda ins, outs=outs: outs)
            elif n == "vehicle":
                prepare(s, path + n + ".", VEHICLE)
            elif n == "kinematics":
                prepare(s, path + n + ".", TRACK)
            else:
                raise Und(f"submodel {n}")
    prepare(m, "", table)
    f = lib.I.iter_items(lib.I.getattr(lib.I.getattr(m, "names"), "_fields"))
    st = {n: val("x", n) for n in lib.names(m, "states")} if "states" in f else None
    mesh = sym("mesh") * (unit(LEN) if scaled else ONE) if qual == ON else None
    r = lib.forward(m, st, {n: val("u", n) for n in lib.names(m, "inputs")}, mesh)
    r["calls"] = {n: i for n, i in lib.calls}
    return r


def pair(qual, table):
    return lambda c: (evaluate(c, qual, table, False), evaluate(c, qual, table, True))


def ob(c, qual, table, group, per):
    a, b = once(c, qual, pair(qual, table))
    if group == "calls":
        n = 0
        for path in a["calls"]:
            last = path.rsplit(".", 1)[-1]
            if last == "aero":
                continue
            for k, v in a["calls"][path].items():
                if k in TIREIO:
                    n += 1
                    c.eq_rat(b["calls"][path][k], v * unit(TIREIO[k]), f"input {k} of {path} does not have the dimension {dimtext(TIREIO[k])}; in other units it is")
        if not n:
            raise Und("no tire is evaluated")
        return
    if not a[group]:
        raise Und(f"{group} is empty")
    for k, v in a[group].items():
        name = k.rsplit(".", 1)[-1]
        tab = AEROIO if "aero." in k else TIREIO if "tire_" in k and "." in k else table
        if name not in tab:
            continue
        d = tuple(x - y for x, y in zip(tab[name], per))
        c.eq_rat(b[group][k], v * unit(d), f"{group} {k} does not have the dimension {dimtext(d)}; in other units it is")


def run(c):
    c.explain = ("each model is evaluated abstractly with symbolic inputs and again with every input multiplied by its units; a value of dimension d must be "
                 "multiplied by exactly d (homogeneity, an identity of rational functions), which fails where unlike quantities are added or compared")
    c.assumptions = ["dimensions of inputs and parameters as documented in the sources", "inputs of the aerodynamic model are not checked (dummies in the sources)"]
    for qual, table, file, groups, per in (
            (VEH, VEHICLE, FILE + ":SimpleVehicle.forward", ("states_dot", "outputs", "calls"), TIME),
            (KIN, TRACK, "lumos/models/kinematics.py:TrackPosition2D.forward", ("states_dot", "outputs"), LEN),
            (DRONE, FLIGHT, "lumos/models/drone_model.py:DroneModel.forward", ("states_dot", "outputs"), TIME),
            (TIRE, SLIP, "lumos/models/tires/perantoni.py:PerantoniTire.forward", ("outputs",), TIME),
            (ON, dict(VEHICLE, **TRACK), "lumos/models/simple_vehicle_on_track.py:SimpleVehicleOnTrack.forward", ("states_dot", "outputs", "calls"), LEN)):
        for g in groups:
            what = {"states_dot": "state derivatives", "outputs": "outputs", "calls": "inputs of the tires"}[g]
            c.ob(f"dimension of the {what}", file, ob, c, qual, table, g, per if g == "states_dot" else NONE, group=qual)
