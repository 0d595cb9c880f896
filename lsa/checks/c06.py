"""C06: adding and removing constraints or objectives keeps the problem coherent."""
from ..checklib import *
from ..harness import new_interp, fn, fn_term, arr_of
from ..arrays import base_array
from ..alg import ZERO, ONE, dim
from . import c05
from .c05 import Ctx, everything, MOD, F


class Hist:
    """One problem with its history; the specification is the list of blocks then present."""

    def __init__(self, c, sizes, ncon, nobj):
        self.c = c
        self.z = Ctx(sizes, ncon, nobj)
        self.I = self.z.I

    def step(self, s):
        z, c, I = self.z, self.c, self.I
        op, kind, k, *rest = s
        cons = kind == "con"
        lst = z.cons if cons else z.objs
        if op == "eval":
            # everything is evaluated in between, so whatever could be remembered is
            lam = base_array("lam", (z.num_con(),))
            for f, a in (("constraints", ()), ("jacobian", ()), ("hessian", (I.new_arr(lam), z.sigma)), ("objective", ()), ("gradient", ())):
                if f in ("objective", "gradient") and not z.objs or f in ("constraints", "jacobian") and not z.cons:
                    continue
                z.m_(f, I.new_arr(z.x), *a)
            z.m_("jacobianstructure")
            z.m_("hessianstructure")
        elif op == "add":
            b = (z.con if cons else z.objective)(k, *rest)
            lst.append(b)
            z.m_("add_constraints" if cons else "add_objective", b.name, b.obj)
        elif op == "del":
            b = [x for x in lst if x.name == k][0]
            lst.remove(b)
            z.m_("delete_constraints" if cons else "delete_objective", k)
        elif op == "bad name":
            b = (z.con if cons else z.objective)(k, *rest)
            must_raise(c, I, I.getattr(z.prob, "add_constraints" if cons else "add_objective"), {}, f"{b.name} added a second time", [b.name, b.obj])
        elif op == "bad size":
            z2 = z.n
            z.n = z.n + 1
            b = (z.con if cons else z.objective)(k, *rest)
            z.n = z2
            must_raise(c, I, I.getattr(z.prob, "add_constraints" if cons else "add_objective"), {},
                       f"{kind} with {alg.show(z2 + 1)} inputs in a problem with {alg.show(z2)}", [b.name, b.obj])
        elif op == "bad delete":
            must_raise(c, I, I.getattr(z.prob, "delete_constraints" if cons else "delete_objective"), {}, f"deletion of {k}", [k])


E = ("eval", "con", 0)
HISTORIES = {
    "add after evaluation": (2, 1, [E, ("add", "con", 2)]),
    "add objective after evaluation": (1, 1, [E, ("add", "obj", 1)]),
    "delete first constraint after evaluation": (3, 1, [E, ("del", "con", "block0")]),
    "delete middle constraint after evaluation": (3, 1, [E, ("del", "con", "block1")]),
    "delete last constraint after evaluation": (2, 2, [E, ("del", "con", "block1")]),
    "delete objective after evaluation": (2, 2, [E, ("del", "obj", "goal0")]),
    "replace constraint by another of the same name": (2, 1, [E, ("del", "con", "block0"), ("add", "con", 2, "block0")]),
    "replace constraint with evaluation between": (2, 1, [("del", "con", "block0"), E, ("add", "con", 2, "block0")]),
    "replace objective by another of the same name": (1, 2, [E, ("del", "obj", "goal0"), ("add", "obj", 3, "goal0")]),
    "used constraint name": (2, 1, [E, ("bad name", "con", 2, "block1")]),
    "used objective name": (1, 2, [E, ("bad name", "obj", 3, "goal1")]),
    "constraint with other number of inputs": (2, 1, [E, ("bad size", "con", 2, "new")]),
    "objective with other number of inputs": (2, 1, [E, ("bad size", "obj", 3, "new")]),
    "unknown constraint deleted": (1, 1, [E, ("bad delete", "con", "nobody")]),
    "unknown objective deleted": (1, 1, [E, ("bad delete", "obj", "nobody")]),
}
MORE = {
    "delete all objectives and add one": (1, 2, [E, ("del", "obj", "goal0"), ("del", "obj", "goal1"), ("add", "obj", 2)]),
    "delete twice, add twice": (3, 2, [E, ("del", "con", "block2"), ("del", "con", "block0"), E, ("add", "con", 0, "block0"), ("add", "con", 3)]),
    "rejected then accepted": (2, 1, [("bad name", "con", 2, "block1"), ("bad size", "con", 2, "new"), ("add", "con", 2, "new")]),
    "objective rejected then accepted": (1, 2, [("bad name", "obj", 3, "goal1"), ("bad size", "obj", 3, "new"), ("add", "obj", 3, "new")]),
}


def run(c):
    c.explain = ("abstract interpretation of histories of additions, deletions, rejected additions and evaluations of a composite "
                 "problem with symbolic blocks; after each history all values and structures are compared with the specification "
                 "built from the blocks then present, and rejections must raise on every path")
    hs = dict(HISTORIES)
    if c.tier == "thorough":
        hs.update(MORE)
    one = [dict(x=1)]
    for name, (nc, no, steps) in hs.items():
        def build(s, nc=nc, no=no):
            return Hist(c, s, nc, no)

        def ob(h, steps=steps):
            for s in steps:
                h.step(s)
            everything(c, h.z)
        c.sized("history of additions and deletions", f"{F} [{name}]", build, ob, sizes=one)
