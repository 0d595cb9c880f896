"""C34: kinematics relative to the track and in flight."""
from ..checklib import *
from ..alg import sym, ZERO, ONE
from .. import alg
from ..models import Lib, once
from .c31 import KIN, DRONE, evaluate
from .c30 import ON

FILE = "lumos/models/kinematics.py:TrackPosition2D.forward"
FILE2 = "lumos/models/simple_vehicle_on_track.py:SimpleVehicleOnTrack.forward"


def kin(c):
    r = evaluate(c, KIN, {})
    for n in ("time", "n", "eta"):
        if n not in r["states_dot"]:
            raise Gone(f"state {n} of the track kinematics")
    x = {n: sym("x_" + n) for n in ("time", "n", "eta")}
    u = {n: sym("u_" + n) for n in ("vx", "vy", "yaw_rate", "track_curvature", "track_heading")}
    return r["states_dot"], r["outputs"], x, u


def sc(c, t):
    I = next(iter(c._interps.values()))
    return I.as_num(I.call(Ext("numpy.sin"), [t], {})), I.as_num(I.call(Ext("numpy.cos"), [t], {}))


def ob_speed(c):
    d, o, x, u = once(c, "kin", kin)
    rate = alg.inverse(d["time"])                        # distance along the centre line per time
    along, across = rate * (ONE - x["n"] * u["track_curvature"]), d["n"] * rate
    c.eq_rat(along * along + across * across, u["vx"] * u["vx"] + u["vy"] * u["vy"], "squared speed relative to the track")


def ob_dirs(c):
    d, o, x, u = once(c, "kin", kin)
    s, co = sc(c, x["eta"])
    rate = alg.inverse(d["time"])
    c.eq_rat(rate * (ONE - x["n"] * u["track_curvature"]), u["vx"] * co - u["vy"] * s, "speed along the track")
    c.eq_rat(d["n"] * rate, u["vx"] * s + u["vy"] * co, "speed across the track")


def ob_heading(c):
    d, o, x, u = once(c, "kin", kin)
    c.eq_rat(d["eta"], u["yaw_rate"] * d["time"] - u["track_curvature"], "relative heading per distance")
    if "yaw_angle" in o:
        c.eq_rat(o["yaw_angle"], x["eta"] + u["track_heading"], "yaw angle")
    if "curvature" in o:
        c.eq_rat(o["curvature"], u["track_curvature"], "curvature")


def composed(c):
    lib = Lib(c)
    m = lib.make(ON)
    subs = lib.submodels(m)
    for n in ("vehicle", "kinematics"):
        if n not in subs:
            raise Gone(f"submodel {n} of the vehicle on a track")
    for n, s in subs.items():
        lib.stand_in_state(s, n, {k: sym(f"{n}_dot_{k}") for k in lib.names(s, "states")}, {k: sym(f"{n}_out_{k}") for k in lib.names(s, "outputs")})
    lib.set_params(m, {n: sym("p_" + n) for n in lib.params(m)})
    x = {n: sym("x_" + n) for n in lib.names(m, "states")}
    u = {n: sym("u_" + n) for n in lib.names(m, "inputs")}
    r = lib.forward(m, x, u, sym("mesh"))
    return lib, m, subs, x, u, r


def ob_chain(c):
    lib, m, subs, x, u, r = once(c, "on", composed)
    for n in lib.names(subs["kinematics"], "states"):
        c.eq_rat(r["states_dot"][n], sym(f"kinematics_dot_{n}"), f"derivative of {n}")
    for n in lib.names(subs["vehicle"], "states"):
        c.eq_rat(r["states_dot"][n], sym(f"vehicle_dot_{n}") * sym("kinematics_dot_time"), f"derivative of {n} with respect to distance")


def ob_args(c):
    lib, m, subs, x, u, r = once(c, "on", composed)
    seen = [n for n, *_ in lib.calls]
    c.comparisons += 1
    for n in ("vehicle", "kinematics"):
        if seen.count(n) != 1:
            raise Bad(f"submodel {n} is evaluated {seen.count(n)} times")
    for n, d, mesh in lib.calls:
        if mesh is not None and lib.I.as_num(mesh) is not None and n == "kinematics":
            c.eq_rat(lib.I.as_num(mesh), sym("mesh"), f"mesh given to {n}")
        for g in ("states", "inputs"):
            for k, v in d[g].items():
                want = x[k] if k in x else u.get(k)
                if want is not None:
                    c.eq_rat(v, want, f"{g[:-1]} {k} given to {n}")


def ob_outputs(c):
    lib, m, subs, x, u, r = once(c, "on", composed)
    names = lib.names(m, "outputs")
    c.comparisons += 1
    if set(names) != set(r["outputs"]):
        raise Bad(f"outputs {sorted(set(names) ^ set(r['outputs']))[:4]} are not both declared and returned")
    for n in names:
        s, _, k = n.partition(".")
        if s in subs and k:
            c.eq_rat(r["outputs"][n], sym(f"{s}_out_{k}"), f"output {n}")


def ob_drone(c):
    r = evaluate(c, DRONE, {})
    d, o = r["states_dot"], r["outputs"]
    f, g, th = sym("u_f"), sym("p_gravity"), sym("x_theta")
    for n in ("x", "z"):
        c.eq_rat(d[n], sym(f"x_{n}_dot"), f"derivative of {n}")
    c.eq_rat(d["theta"], sym("u_omega"), "derivative of theta")
    ax, az = d["x_dot"], d["z_dot"] + g
    c.eq_rat(ax * ax + az * az, f * f, "squared thrust acceleration")
    s, co = sc(c, th)
    c.eq_rat(ax, f * s, "horizontal acceleration")
    c.eq_rat(az, f * co, "vertical acceleration plus gravity")
    c.eq_rat(o["sin_theta"], s, "output sin_theta")
    c.eq_rat(o["f_omega"], f * sym("u_omega"), "output f_omega")


def run(c):
    c.explain = ("abstract interpretation of the models with symbolic states, inputs and parameters (the submodels of the vehicle on a track are uninterpreted); "
                 "results are compared as rational functions over sin and cos")
    c.assumptions = ["wherever the terms are defined: the vehicle moves along the track and stays inside the centre of curvature"]
    for rule, f in (("speed relative to the track is the vehicle's speed", ob_speed), ("velocity is resolved along and across the track", ob_dirs),
                    ("heading relative to the track", ob_heading)):
        c.ob(rule, FILE, f, c, group="k")
    for rule, f in (("derivatives with respect to distance", ob_chain), ("submodels see the state and inputs of the model", ob_args),
                    ("outputs of the submodels are reported under their names", ob_outputs)):
        c.ob(rule, FILE2, f, c, group="o")
    c.ob("flight of the drone", "lumos/models/drone_model.py:DroneModel.forward", ob_drone, c)
