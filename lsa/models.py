"""Context for the model library: symbolic parameters, submodels replaced by stand-ins."""
from . import alg, arrays
from .alg import P, ZERO, ONE, sym
from .arrays import Arr
from .values import Native, Ref, Tup, ClassV
from .harness import new_interp, arr_of
from .checklib import Und, Bad, Gone, call

BASE = "lumos.models.base"
MODULES = ("lumos.models", BASE, "lumos.models.composition", "lumos.models.vehicles.simple_vehicle", "lumos.models.kinematics",
           "lumos.models.drone_model", "lumos.models.simple_vehicle_on_track", "lumos.models.tires.pacejka",
           "lumos.models.tires.perantoni", "lumos.models.aero.aero")


class Lib:
    """The model library loaded into one interpreter."""

    def __init__(self, c=None, replace=True, overrides=None):
        self.I = I = new_interp()
        if c is not None:
            c._interps[id(I)] = I
            I.check = c
        for k, v in (overrides or {}).items():
            I.overrides[k] = v
        for m in MODULES:
            if I.load(m) is None and False:
                raise Gone(m)
        self.calls = []          # (submodel path, inputs)

    def cls(self, qual):
        m, n = qual.rsplit(".", 1)
        v = self.I.mod_get(m, n)
        if not isinstance(v, ClassV):
            raise Gone(qual)
        return v

    def names(self, m, group):
        v = self.I.iter_items(call(self.I, self.I.getattr(m, "get_group_names"), group))
        if v is None or any(not isinstance(x, str) for x in v):
            raise Und(f"names of {group}")
        return list(v)

    def direct(self, m, group):
        v = self.I.iter_items(call(self.I, self.I.getattr(m, "get_direct_group_names"), group))
        if v is None or any(not isinstance(x, str) for x in v):
            raise Und(f"names of {group}")
        return list(v)

    def make(self, qual, **kw):
        m = call(self.I, self.cls(qual), **kw)
        if not isinstance(m, Ref):
            raise Und(f"{qual}: {m!r}")
        return m

    def submodels(self, m):
        I = self.I
        d = I.getattr(m, "_submodels")
        return {n: I.getitem(d, n) for n in I.iter_items(d)}

    def params(self, m):
        """Names of the direct parameters."""
        v = self.I.iter_items(self.I.getattr(m, "_params"))
        if v is None or any(not isinstance(x, str) for x in v):
            raise Und("parameter names")
        return list(v)

    def set_params(self, m, values):
        I = self.I
        I.setattr(m, "_params", I.new_dict(list(values.items())))

    def stand_in(self, sub, name, fn):
        """Replaces the forward method of one submodel instance: fn(inputs) -> outputs."""
        I = self.I
        MR = I.mod_get(BASE, "ModelReturn")

        def forward(i, a, k):
            k = dict(k)
            d = k.get("inputs", a[0] if a else None)
            ins = self.dict_of(d)
            self.calls.append((name, ins))
            outs = fn(ins)
            return call(i, MR, outputs=i.new_dict(list(outs.items())))
        I.setattr(sub, "forward", Native(name + ".forward", forward))

    def stand_in_state(self, sub, name, dot, outs):
        """Replaces the forward method of a state space submodel by one returning given values."""
        I = self.I
        MR = I.mod_get(BASE, "StateSpaceModelReturn")

        def forward(i, a, k):
            d = dict(zip(("states", "inputs", "mesh"), a))
            d.update(k)
            self.calls.append((name, {g: self.dict_of(d[g]) for g in ("states", "inputs")}, d.get("mesh")))
            return call(i, MR, states_dot=i.new_dict(list(dot.items())), outputs=i.new_dict(list(outs.items())))
        I.setattr(sub, "forward", Native(name + ".forward", forward))

    def dict_of(self, d):
        I = self.I
        ks = I.iter_items(d)
        if ks is None or any(not isinstance(x, str) for x in ks):
            raise Und("names in a dictionary of values")
        return {k: self.num(I.getitem(d, k), k) for k in ks}

    def num(self, v, what=""):
        I = self.I
        x = I.as_num(v)
        if x is None:
            a = arr_of(I, v)
            if a is not None and (a.ndim == 0 or a.size.const() == 1):
                return arrays.topoly(a.get((ZERO,) * a.ndim))
            raise Und(f"{what}: value {v!r}"[:200])
        return x

    def forward(self, m, states, inputs, mesh=None):
        """states_dot, outputs, residuals as dictionaries of terms."""
        I = self.I
        self.calls = []
        kw = {"inputs": I.new_dict(list(inputs.items()))}
        if states is not None:
            kw["states"] = I.new_dict(list(states.items()))
        if mesh is not None:
            kw["mesh"] = mesh
        r = call(I, I.getattr(m, "forward"), **kw)
        return {g: self.dict_of(I.getattr(r, g)) for g in (("states_dot", "outputs", "residuals") if states is not None else ("outputs", "residuals"))}


CACHE = {}


def once(c, key, build):
    """A context built once per process; a failure to build it is not the obligation's violation."""
    if key not in CACHE:
        try:
            CACHE[key] = build(c)
        except Gone:
            raise
        except Bad as e:
            CACHE[key] = Und(f"context: {e}")
        except Exception as e:
            CACHE[key] = e if isinstance(e, Und) else Und(f"context: {type(e).__name__} {e}")
    if isinstance(CACHE[key], Exception):
        raise CACHE[key]
    return CACHE[key]
